//! C03: the geometric product is the Clifford product of the declared algebra.
use num::complex::Complex64;
use num::rational::Ratio;
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

#[derive(Clone, Copy)]
struct Product;
impl Bin for Product {
    fn pair<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, b: &M, ra: &[T], rb: &[T]) -> Result<(), String> {
        let want = m.mul(ra, rb);
        w.reach(&want);
        w.trans(1);
        same("a*b", &a.mul_(b), &want)?;
        same("naive_mul_impl", &a.naive_mul(b), &want)
    }
}

/// Operator forms, unit and zero, and products of three, on generic operands.
fn laws<A: Alg, M: Mv<Sym>>(w: &W, m: &Model) {
    let n = m.n;
    let (a, b, c) = (syms(n, 0), syms(n, n), syms(n, 2 * n));
    let (ia, ib, ic) = (M::new(&a), M::new(&b), M::new(&c));
    w.case(
        || format!("operator forms, unit and zero, {}", M::ST),
        || {
            w.state(&("laws", M::ST));
            let want = m.mul(&ia.vals(n), &ib.vals(n));
            for (k, p) in ia.mul_forms(&ib).iter().enumerate() {
                w.trans(1);
                same(&format!("a*b, operator form {k}"), p, &want)?;
            }
            let (one, zero) = (M::one_(), M::zero_());
            w.trans(4);
            same("1*a", &one.mul_(&ia), &a)?;
            same("a*1", &ia.mul_(&one), &a)?;
            same("0*a", &zero.mul_(&ia), &m.zero())?;
            same("a*0", &ia.mul_(&zero), &m.zero())
        },
    );
    if m.d <= if w.quick { 3 } else { 4 } {
        w.case(
            || format!("associativity and distributivity of generic a, b, c, {}", M::ST),
            || {
                w.state(&("triple", M::ST));
                w.trans(6);
                let l = ia.mul_(&ib).mul_(&ic);
                let r = ia.mul_(&ib.mul_(&ic));
                same("(ab)c", &l, &m.mul(&m.mul(&a, &b), &c))?;
                ensure(|| "(ab)c != a(bc)".into(), l == r)?;
                ensure(|| "a(b+c) != ab+ac".into(), ia.mul_(&ib.add_(&ic)) == ia.mul_(&ib).add_(&ia.mul_(&ic)))?;
                ensure(|| "(a+b)c != ac+bc".into(), ia.add_(&ib).mul_(&ic) == ia.mul_(&ic).add_(&ib.mul_(&ic)))
            },
        );
    }
    if m.d <= if w.quick { 3 } else { 4 } {
        for i in 0..n {
            for j in 0..n {
                for k in 0..n {
                    w.case(
                        || format!("blades ({i:b} {j:b}) {k:b}, {}", M::ST),
                        || {
                            w.state(&("blades3", M::ST, i, j, k));
                            w.trans(4);
                            let x = M::from_blade(i, Sym::var(0));
                            let y = M::from_blade(j, Sym::var(1));
                            let z = M::from_blade(k, Sym::var(2));
                            ensure(|| "not associative".into(), x.mul_(&y).mul_(&z) == x.mul_(&y.mul_(&z)))
                        },
                    );
                }
            }
        }
    }
}

struct Laws<'a>(&'a mut Check);
impl Visitor for Laws<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("laws", sig, 1 << (3 * sig.len()), |w| {
            let m = Model::of::<A>();
            laws::<A, Multivector<Sym, A>>(w, &m);
            laws::<A, SparseMultivector<Sym, A>>(w, &m);
        });
    }
}

/// Structured blades of algebras too large to enumerate.
struct Big<'a>(&'a mut Check);
impl Visitor for Big<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("structured blades", sig, 1 << 22, |w| {
            let sig = Sig::new(&A::sig());
            let f = blade_family(sig.d);
            for &i in &f {
                for &j in &f {
                    w.case(
                        || format!("blades {i:#b} * {j:#b}"),
                        || {
                            w.state(&(i, j));
                            w.trans(1);
                            let x = SparseMultivector::<i64, A>::from_blade(i, 3);
                            let y = SparseMultivector::<i64, A>::from_blade(j, -7);
                            let p = x.mul_(&y);
                            let (s, k) = sig.geo_fast(i, j);
                            let want: Vec<(usize, i64)> = if s == 0 { vec![] } else { vec![(k, -21 * s as i64)] };
                            same_val("terms of the product", p.entries(), want)
                        },
                    );
                    if w.stopped() {
                        return;
                    }
                }
            }
        });
    }
}

fn floats<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    val_pairs::<f64, Multivector<f64, A>, _>(Product, w, &m, "f64 values", &[0.0, 1.0, -2.0]);
    val_pairs::<Complex64, SparseMultivector<Complex64, A>, _>(Product, w, &m, "Complex64 values", &[Complex64::new(0., 0.), Complex64::new(0., 1.), Complex64::new(2., -1.)]);
    val_pairs::<Ratio<i64>, Multivector<Ratio<i64>, A>, _>(Product, w, &m, "rational values", &[Ratio::new(0, 1), Ratio::new(1, 3), Ratio::new(-5, 2)]);
}

fn main() {
    let mut c = Check::new("C03");
    c.bounds = "every signature with d<=6 (246): symbolic generic operands, all pairs of blades, one-hole operands, all support pairs (d<=2 quick, d<=3 thorough); all value pairs over Z/4 and small integers (d<=2); triples of blades (d<=3/4); d=7..10: full operands over a 61-bit prime field, all blade pairs d=7,8 (thorough); d up to 63: structured blades; f64, Complex64, rational, quaternion and nested coefficients; seven signatures each of d=11..14 (thorough 16): full operands (d<=12), families of blades, vectors with full operands".into();
    c.assume("the symbolic coefficients form a free ring, so agreement on generic operands covers all coefficient values except code that branches on particular values; those are covered by the value alphabets");
    add_pairs(&mut c, Product);
    visit_sigs(&legal_upto(6), &mut Laws(&mut c));
    decl_small(&mut Laws(&mut c));
    visit_sigs(&big_sigs(), &mut Big(&mut c));
    decl_big(&mut Big(&mut c));
    c.task("floats Cl[+-]", 1 << 20, floats::<A_pm>);
    c.task("floats Cl[-0]", 1 << 20, floats::<A_mz>);
    c.task("floats Cl[++]", 1 << 20, floats::<A_pp>);
    c.run()
}
