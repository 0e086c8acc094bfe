//! C06: reversal, grade involution, subspace flips and conjugation.
use num::complex::{Complex32, Complex64, ComplexFloat};
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

#[derive(Clone, Copy)]
struct Inv;
impl Un for Inv {
    fn one<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, ra: &[T]) -> Result<(), String> {
        let r = m.rev(ra);
        let f = m.flip(ra, m.n - 1);
        w.reach(&r);
        w.reach(&f);
        let (ir, if_) = (a.rev_(), a.flip_());
        same("rev", &ir, &r)?;
        same("flip", &if_, &f)?;
        w.trans(2);
        same("rev twice", &ir.rev_(), ra)?;
        same("flip twice", &if_.flip_(), ra)?;
        // every mask in small algebras; single generators, complements and masks with bits
        // outside the algebra in larger ones
        let mut masks: Vec<usize> = if m.d <= 3 { (0..2 * m.n).collect() } else { vec![0, m.n - 1, m.n, usize::MAX] };
        if m.d > 3 {
            for g in 0..m.d {
                masks.push(1 << g);
                masks.push(m.n - 1 - (1 << g));
            }
        }
        for k in masks {
            let want = m.flip(ra, k);
            w.reach(&want);
            let x = a.flip_sub(k);
            same(&format!("flip_subspace({k:#b})"), &x, &want)?;
            w.trans(1);
            same(&format!("flip_subspace({k:#b}) twice"), &x.flip_sub(k), ra)?;
        }
        Ok(())
    }
}
/// All masks against a generic operand, and the (anti-)automorphism laws over a commutative ring.
fn laws<A: Alg, S: Mv<Sym>, M: Mv<Zp>>(w: &W, m: &Model) {
    let n = m.n;
    let a = syms(n, 0);
    for k in 0..n {
        w.case(
            || format!("generic operand, flip_subspace({k:#b}), {}", S::ST),
            || {
                let want = m.flip(&a, k);
                w.reach(&want);
                same("flip_subspace", &S::new(&a).flip_sub(k), &want)
            },
        );
    }
    w.case(
        || format!("products, {}", M::ST),
        || {
            let (x, y) = (M::new(&spread_zp(n, 5)), M::new(&spread_zp(n, 6)));
            w.state(&("law", M::ST));
            w.trans(4);
            let p = x.mul_(&y);
            ensure(|| "rev(ab) != rev(b)rev(a)".into(), p.rev_() == y.rev_().mul_(&x.rev_()))?;
            ensure(|| "flip(ab) != flip(a)flip(b)".into(), p.flip_() == x.flip_().mul_(&y.flip_()))?;
            for k in 0..n {
                w.trans(1);
                ensure(|| format!("flip_subspace({k:#b}) is not an automorphism"), p.flip_sub(k) == x.flip_sub(k).mul_(&y.flip_sub(k)))?;
            }
            Ok(())
        },
    );
}
macro_rules! revc {
    ($w:expr, $m:expr, $ty:ty, $t:ty, $st:literal, $vals:expr) => {
        for (k, c) in $vals.iter().enumerate() {
            for i in 0..$m.n {
                $w.case(
                    || format!("revc of {c:?} * {i:#b}, {} {}", $st, stringify!($t)),
                    || {
                        let x = <$ty>::new(&blade($m.n, i, *c));
                        let want = $m.rev(&blade($m.n, i, c.conj()));
                        $w.state(&("revc", $st, stringify!($t), k, i));
                        $w.trans(2);
                        let r = x.revc();
                        same("revc", &r, &want)?;
                        same("revc twice", &r.revc(), &blade($m.n, i, *c))
                    },
                );
            }
        }
        // full support
        $w.case(
            || format!("revc of a full operand, {} {}", $st, stringify!($t)),
            || {
                let v: Vec<$t> = (0..$m.n).map(|i| $vals[(i * i + 1) % $vals.len()] * $vals[1]).collect();
                let x = <$ty>::new(&v);
                let want = $m.rev(&v.iter().map(|c| c.conj()).collect::<Vec<_>>());
                $w.reach(&want);
                same("revc", &x.revc(), &want)
            },
        );
    };
}
fn conj<A: Alg>(w: &W, m: &Model) {
    let c64: Vec<Complex64> = vec![Complex64::new(1., 0.), Complex64::new(0., 2.), Complex64::new(-3., 5.)];
    let c32: Vec<Complex32> = vec![Complex32::new(1., 0.), Complex32::new(0., 2.), Complex32::new(-3., 5.)];
    revc!(w, m, Multivector<Complex64, A>, Complex64, "dense", c64);
    revc!(w, m, SparseMultivector<Complex64, A>, Complex64, "sparse", c64);
    revc!(w, m, Multivector<Complex32, A>, Complex32, "dense", c32);
    revc!(w, m, SparseMultivector<f64, A>, f64, "sparse", [1.0f64, -2.5]);
    revc!(w, m, Multivector<f64, A>, f64, "dense", [1.0f64, -2.5]);
}
struct Laws<'a>(&'a mut Check);
impl Visitor for Laws<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("laws", sig, 1 << (3 * sig.len()), |w| {
            let m = Model::of::<A>();
            laws::<A, Multivector<Sym, A>, Multivector<Zp, A>>(w, &m);
            laws::<A, SparseMultivector<Sym, A>, SparseMultivector<Zp, A>>(w, &m);
            conj::<A>(w, &m);
        });
    }
}
struct Big<'a>(&'a mut Check);
impl Visitor for Big<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("structured blades", sig, 1 << 22, |w| {
            let f = blade_family(A::sig().len());
            for &i in &f {
                w.case(
                    || format!("blade {i:#b}"),
                    || {
                        w.state(&i);
                        w.trans(2);
                        let x = SparseMultivector::<i64, A>::from_blade(i, 5);
                        same_val("rev", x.rev_().entries(), vec![(i, 5 * Sig::rev_sign(i) as i64)])?;
                        same_val("flip", x.flip_().entries(), vec![(i, 5 * Sig::flip_sign(i, usize::MAX) as i64)])?;
                        for &k in &f {
                            w.state(&(i, k));
                            w.trans(1);
                            same_val("flip_subspace", x.flip_sub(k).entries(), vec![(i, 5 * Sig::flip_sign(i, k) as i64)])?;
                        }
                        Ok(())
                    },
                );
            }
        });
    }
}

fn main() {
    let mut c = Check::new("C06");
    c.bounds = "every signature with d<=6: symbolic generic operands, all blades, all supports (d<=3 quick, d<=4 thorough), all subspace masks; values over Z/4 and small integers (d<=3); (anti-)automorphism over a 61-bit prime field; complex conjugation for f64, Complex64, Complex32; d=7..10 all blades; d up to 63 structured blades; seven signatures each of d=11..18 (thorough 20): full operands and families of blades".into();
    add_ones(&mut c, Inv);
    visit_sigs(&legal_upto(5), &mut Laws(&mut c));
    visit_sigs(&counts(6), &mut Laws(&mut c));
    decl_mid(&mut Laws(&mut c));
    visit_sigs(&big_sigs(), &mut Big(&mut c));
    decl_big(&mut Big(&mut c));
    c.run()
}
