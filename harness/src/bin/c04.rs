//! C04: the exterior product is the Grassmann product whatever the metric.
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

#[derive(Clone, Copy)]
struct Wedge;
impl Bin for Wedge {
    fn pair<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, b: &M, ra: &[T], rb: &[T]) -> Result<(), String> {
        let want = m.wedge(ra, rb);
        w.reach(&want);
        same("a.wedge(b)", &a.wedge_(b), &want)?;
        // the simple algorithm is quadratic in 2^d; the dense one is left out of the largest cases
        if m.d <= 8 {
            w.trans(1);
            same("a.naive_wedge_impl(b)", &a.naive_wedge(b), &want)?;
        }
        Ok(())
    }
}

fn laws<A: Alg, M: Mv<Sym>>(w: &W, m: &Model) {
    let n = m.n;
    // v ^ v = 0 and v ^ u = -(u ^ v) for generic integer vectors
    let v: Vec<Sym> = (0..n).map(|i| if i.count_ones() == 1 { Sym::int(3 + i as i64) } else { Sym::int(0) }).collect();
    let u: Vec<Sym> = (0..n).map(|i| if i.count_ones() == 1 { Sym::int(7 - 2 * i as i64) } else { Sym::int(0) }).collect();
    w.case(
        || format!("vectors, {}", M::ST),
        || {
            let (iv, iu) = (M::new(&v), M::new(&u));
            w.trans(3);
            same("v^v", &iv.wedge_(&iv), &m.zero())?;
            let (x, y) = (iv.wedge_(&iu), iu.wedge_(&iv));
            w.reach(&x.vals(n));
            same("v^u", &x, &vneg(&y.vals(n)))?;
            ensure(|| "1^v != v".into(), M::one_().wedge_(&iv) == iv)?;
            ensure(|| "v^1 != v".into(), iv.wedge_(&M::one_()) == iv)
        },
    );
    if m.d <= if w.quick { 4 } else { 6 } {
        let (a, b, c) = (syms(n, 0), syms(n, n), syms(n, 2 * n));
        w.case(
            || format!("associativity of generic a, b, c, {}", M::ST),
            || {
                let (ia, ib, ic) = (M::new(&a), M::new(&b), M::new(&c));
                let l = ia.wedge_(&ib).wedge_(&ic);
                let want = m.wedge(&m.wedge(&a, &b), &c);
                w.reach(&want);
                w.trans(3);
                same("(a^b)^c", &l, &want)?;
                ensure(|| "(a^b)^c != a^(b^c)".into(), l == ia.wedge_(&ib.wedge_(&ic)))
            },
        );
    }
}
struct Laws<'a>(&'a mut Check);
impl Visitor for Laws<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("laws", sig, 1 << (3 * sig.len()), |w| {
            let m = Model::of::<A>();
            laws::<A, Multivector<Sym, A>>(w, &m);
            laws::<A, SparseMultivector<Sym, A>>(w, &m);
        });
    }
}
struct Big<'a>(&'a mut Check);
impl Visitor for Big<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("structured blades", sig, 1 << 22, |w| {
            let sig = Sig::new(&A::sig());
            let f = blade_family(sig.d);
            for &i in &f {
                for &j in &f {
                    w.case(
                        || format!("blades {i:#b} ^ {j:#b}"),
                        || {
                            w.state(&(i, j));
                            w.trans(1);
                            let x = SparseMultivector::<i64, A>::from_blade(i, 3);
                            let y = SparseMultivector::<i64, A>::from_blade(j, -7);
                            let (s, k) = sig.wedge_fast(i, j);
                            let want: Vec<(usize, i64)> = if s == 0 { vec![] } else { vec![(k, -21 * s as i64)] };
                            same_val("terms of the product", x.wedge_(&y).entries(), want)
                        },
                    );
                    if w.stopped() {
                        return;
                    }
                }
            }
        });
    }
}

/// The optimised algorithm with values that vanish, cancel or multiply to zero: pairs of
/// two-term operands over Z/4 in dimension 6.
fn fast_values<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    let subs = subsets_upto(n, if w.quick { 1 } else { 2 });
    for (x, s) in subs.iter().enumerate() {
        for (y, t) in subs.iter().enumerate() {
            if s.len() + t.len() > 3 {
                continue;
            }
            for k in 0..4u64 {
                let mut a = vec![Z4::new(0); n];
                let mut b = vec![Z4::new(0); n];
                for (q, &i) in s.iter().enumerate() {
                    a[i] = Zn(if k & 1 == 0 { 2 } else { 1 + 2 * q as u64 });
                }
                for &i in t {
                    b[i] = Zn(if k & 2 == 0 { 2 } else { 3 });
                }
                pair_case::<Z4, Multivector<Z4, A>, _>(Wedge, w, &m, ("Z/4 values", (x * 4) as u64 + k, y as u64), &a, &b);
                if w.stopped() {
                    return;
                }
            }
        }
    }
}
/// Coefficients that are themselves wedge-multiplied multivectors: the outer product runs while
/// the coefficient arithmetic allocates and multiplies multivectors of another algebra.
fn nested_fast<A: Alg, B: Alg>(w: &W) {
    let m = Model::of::<A>();
    let nb = 1usize << B::sig().len();
    type Q<B> = Multivector<i64, B>;
    let mk = |salt: usize| -> Vec<Q<B>> {
        (0..m.n).map(|i| Q::<B>::from_pairs(&[((i * 5 + salt) % nb, 1 + i as i64), ((i * 11 + 3 * salt) % nb, 2 - salt as i64)])).collect()
    };
    pair_case::<Q<B>, Multivector<Q<B>, A>, _>(Wedge, w, &m, ("nested", 0, 0), &mk(0), &mk(1));
    for i in 0..m.n {
        for j in 0..m.n {
            let (x, y) = (blade(m.n, i, Q::<B>::from_blade(1, 2)), blade(m.n, j, Q::<B>::from_blade(2, 3)));
            pair_case::<Q<B>, Multivector<Q<B>, A>, _>(Wedge, w, &m, ("nested blades", i as u64, j as u64), &x, &y);
        }
    }
}

fn main() {
    let mut c = Check::new("C04");
    c.bounds = "every signature with d<=6: symbolic generic operands, all pairs of blades, one-hole operands, all support pairs (d<=2 quick, d<=3 thorough); all value pairs over Z/4 and small integers (d<=2), sparse value pairs over Z/4 for the optimised algorithm (d=6); triples; d=7..10 full operands over a 61-bit prime field, all blade pairs d=7,8 (thorough); d up to 63 structured blades; quaternion and nested coefficients; seven signatures each of d=11..14 (thorough 16): full operands (d<=12), families of blades, vectors with full operands".into();
    c.assume("the symbolic coefficients form a free ring, so agreement on generic operands covers all coefficient values except code that branches on particular values; those are covered by the value alphabets");
    add_pairs(&mut c, Wedge);
    visit_sigs(&legal_upto(6), &mut Laws(&mut c));
    decl_small(&mut Laws(&mut c));
    decl_large(&mut PairTasks { check: &mut c, c: Wedge, kind: Kind::MidBlades });
    visit_sigs(&big_sigs(), &mut Big(&mut c));
    decl_big(&mut Big(&mut c));
    c.alg_task::<A_zzzzzz>("Z/4 values", "000000", 1 << 30, fast_values::<A_zzzzzz>);
    c.alg_task::<A_pmpmpm>("Z/4 values", "+-+-+-", 1 << 30, fast_values::<A_pmpmpm>);
    c.task("nested Cl[000000] over Cl[++++++]", 1 << 24, nested_fast::<A_pppppp, A_zzzzzz>);
    c.task("nested Cl[++] over Cl[000000]", 1 << 24, nested_fast::<A_zzzzzz, A_pp>);
    c.run()
}
