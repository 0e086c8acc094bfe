//! C23: complexification is an invertible algebra homomorphism.
use num::complex::{Complex32, Complex64 as C};
use num::Zero;
use vharness::tclifford::types::{FromComplex, IntoComplex64};
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

trait Num: Co + IntoComplex64 + FromComplex {}
impl<T: Co + IntoComplex64 + FromComplex> Num for T {}

macro_rules! cvals {
    ($x:expr, $n:expr) => {
        (0..$n).map(|i| $x.get_by_idx(i)).collect::<Vec<C>>()
    };
}
/// Complexify into every storage and come back into every storage.
macro_rules! there_and_back {
    ($w:expr, $m:expr, $x:expr, $v:expr, $T:ty, $A:ty) => {{
        let n = $m.n;
        let d: Multivector<C, _> = $x.complexify();
        let s: SparseMultivector<C, _> = $x.complexify();
        let cv = cvals!(d, n);
        $w.reach(&cv);
        ensure(|| "the dense and the sparse complexification differ".into(), cv == cvals!(s, n))?;
        for i in 0..n {
            ensure(|| format!("support differs at {i:#b}: {} became {}", $v[i].into_complex(), cv[i]), $v[i].is_zero() == cv[i].is_zero())?;
            ensure(|| format!("size differs at {i:#b}"), $v[i].into_complex().norm() == cv[i].norm())?;
        }
        let b: Multivector<$T, $A> = d.decomplexify();
        same("dense to dense and back", &b, $v)?;
        let b: SparseMultivector<$T, $A> = d.decomplexify();
        same("dense to sparse and back", &b, $v)?;
        let b: Multivector<$T, $A> = s.decomplexify();
        same("sparse to dense and back", &b, $v)?;
        let b: SparseMultivector<$T, $A> = s.decomplexify();
        same("sparse to sparse and back", &b, $v)?;
        let k = $v.iter().filter(|c| !c.is_zero()).count();
        ensure(|| "a sparse result has zero entries".into(), b.coeff_count() == k && s.coeff_count() == k)?;
        $w.trans(6);
        cv
    }};
}
fn one<T: Num, A: Alg>(w: &W, m: &Model, a: &[C]) {
    w.case(
        || format!("{} {}", std::any::type_name::<T>(), show(a)),
        || {
            let v: Vec<T> = a.iter().map(|c| T::from_complex(*c)).collect();
            w.state(&(std::any::type_name::<T>(), fp(&v)));
            let x = Multivector::<T, A>::new(&v);
            let p = there_and_back!(w, m, x, &v, T, A);
            let y = SparseMultivector::<T, A>::new(&v);
            let q = there_and_back!(w, m, y, &v, T, A);
            ensure(|| "depends on the storage".into(), p == q)?;
            same("operand afterwards", &x, &v)
        },
    );
}
fn all_types<A: Alg>(w: &W, m: &Model, a: &[C]) {
    let re: Vec<C> = a.iter().map(|c| C::new(c.re, 0.)).collect();
    one::<f64, A>(w, m, &re);
    one::<f32, A>(w, m, &re);
    one::<C, A>(w, m, a);
    one::<Complex32, A>(w, m, a);
}
fn pair<A: Alg>(w: &W, m: &Model, a: &[C], b: &[C]) {
    w.case(
        || format!("a={} b={}", show(a), show(b)),
        || {
            let n = m.n;
            w.state(&(fp(a), fp(b)));
            let p = m.mul(a, b);
            let (x, y) = (Multivector::<C, A>::new(a), Multivector::<C, A>::new(b));
            let (cx, cy): (Multivector<C, _>, Multivector<C, _>) = (x.complexify(), y.complexify());
            let cp: Multivector<C, _> = Multivector::<C, A>::new(&p).complexify();
            let cs: Multivector<C, _> = Multivector::<C, A>::new(&vadd(a, b)).complexify();
            w.reach(&cvals!(cp, n));
            w.trans(2);
            near_vec("product", &cvals!((&cx * &cy), n), &cvals!(cp, n), 1e-12 * cmax(a) * cmax(b) * n as f64)?;
            ensure(|| "sum".into(), &cx + &cy == cs)?;
            // sparse
            let (sx, sy): (SparseMultivector<C, _>, SparseMultivector<C, _>) = (x.complexify(), y.complexify());
            w.trans(1);
            near_vec("sparse product", &cvals!((&sx * &sy), n), &cvals!(cp, n), 1e-12 * cmax(a) * cmax(b) * n as f64)?;
            let k = C::new(2., -3.);
            ensure(|| "scalar multiple".into(), (&cx * k) == Multivector::<C, A>::new(&vscale(a, &k)).complexify())
        },
    );
}
/// The generators of the target square to +1 (0 for null ones) and anticommute.
fn target<A: Alg>(w: &W, m: &Model) {
    w.case(
        || "metric of the complexified algebra".into(),
        || {
            w.state(&"target");
            let n = m.n;
            let g = |k: usize| -> (C, _) {
                let c: Multivector<C, _> = Multivector::<C, A>::new(&blade(n, 1 << k, C::new(1., 0.))).complexify();
                (c.get_by_idx(1 << k), c)
            };
            for k in 0..m.d {
                let (z, c) = g(k);
                w.trans(1);
                let want = if m.sig.q[k] == 0 { C::zero() } else { z * z };
                near_vec(&format!("square of generator {k}"), &cvals!((&c * &c), n), &blade(n, 0, want), 1e-14)?;
                near_c("square", z * z * if m.sig.q[k] == 0 { 0. } else { 1. }, C::new(m.sig.q[k] as f64, 0.), 1e-14)?;
            }
            let u: Multivector<C, _> = Multivector::<C, A>::one_().complexify();
            near_vec("one", &cvals!(u, n), &m.one::<C>(), 0.)
        },
    );
}
fn run<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    target::<A>(w, &m);
    all_types::<A>(w, &m, &m.zero::<C>());
    for i in 0..n {
        for c in [C::new(1., 0.), C::new(-3., 2.)] {
            all_types::<A>(w, &m, &blade(n, i, c));
        }
        one::<C, A>(w, &m, &blade(n, i, C::new(0., 1.)));
        for j in 0..n {
            pair::<A>(w, &m, &blade(n, i, C::new(2., 0.)), &blade(n, j, C::new(1., 3.)));
        }
        if w.stopped() {
            return;
        }
    }
    for s in 0..4 {
        all_types::<A>(w, &m, &cints(n, s));
        pair::<A>(w, &m, &cints(n, s), &cints(n, s + 4));
        // down to the smallest and up to the largest numbers of the type
        for e in [-1074, -1023, -480, -40, 40, 100, 480, 1018] {
            one::<C, A>(w, &m, &at_scale(&cints(n, s), e));
            one::<f64, A>(w, &m, &at_scale(&cx(&ints(n, s)), e));
        }
        for e in [-149, -127, -40, 40, 120] {
            one::<Complex32, A>(w, &m, &at_scale(&cints(n, s), e));
            one::<f32, A>(w, &m, &at_scale(&cx(&ints(n, s)), e));
        }
        for e in [-480, -40, 40, 480] {
            pair::<A>(w, &m, &at_scale(&cints(n, s), e), &at_scale(&cints(n, s + 4), -e / 2));
        }
        all_types::<A>(w, &m, &mixed_scale(&cints(n, s), 15));
        let third: Vec<C> = cints(n, s).iter().map(|c| c / 3.).collect();
        all_types::<A>(w, &m, &third);
    }
    for s in structured_supports(m.d) {
        let v = on(C::new(0., 0.), &cints(n, 1), &s);
        all_types::<A>(w, &m, &v);
        pair::<A>(w, &m, &v, &cints(n, 2));
    }
    match m.d {
        1 => {
            let vs = list_vecs(&[-2, -1, 0, 1, 3], n);
            for a in &vs {
                all_types::<A>(w, &m, &cx(a));
                for b in &vs {
                    pair::<A>(w, &m, &cx(a), &cx(b));
                }
            }
        }
        2 => {
            let vs = list_vecs(&[-2, 0, 1], n);
            for a in &vs {
                all_types::<A>(w, &m, &cx(a));
                for b in &vs {
                    pair::<A>(w, &m, &cx(a), &cx(b));
                }
            }
        }
        3 => all_vecs(if w.deep { &[-2, 0, 1] } else { &[0, 1] }, n, |v| all_types::<A>(w, &m, &cx(v))),
        _ => {}
    }
}
fn mid<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    for s in 0..2 {
        all_types::<A>(w, &m, &cints(m.n, s));
    }
    if m.d <= 8 {
        pair::<A>(w, &m, &cints(m.n, 5), &cints(m.n, 6));
        target::<A>(w, &m);
    }
    for i in 0..m.n {
        one::<f64, A>(w, &m, &blade(m.n, i, C::new(-2., 0.)));
    }
}
fn tall<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    all_types::<A>(w, &m, &cints(m.n, 0));
    all_types::<A>(w, &m, &family_c(m.d, 1));
    if m.d <= 11 {
        pair::<A>(w, &m, &family_c(m.d, 2), &family_c(m.d, 3));
    }
}
struct Tall<'a>(&'a mut Check);
impl Visitor for Tall<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("tall complexification", sig, 1 << (2 * sig.len()), tall::<A>);
    }
}
struct Small<'a>(&'a mut Check);
impl Visitor for Small<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("complexification", sig, 1 << (2 * sig.len()), run::<A>);
    }
}
struct Mid<'a>(&'a mut Check);
impl Visitor for Mid<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("large complexification", sig, 1 << (2 * sig.len()), mid::<A>);
    }
}
fn main() {
    let mut c = Check::full("C23");
    c.bounds = "every signature d<=6: every blade, full elements at scales from the smallest to the largest numbers, all small values (d<=3), elements supported on grades or on the blades over a subset of the generators in four coefficient types through all storage pairs; all pairs of blades, full pairs, all pairs of small values (d<=2); one signature per (+,-,0) count for d=7, 8 and every other of d=9 (thorough all and d=10): blades and full elements; seven signatures each of d=10..17 (thorough 20): full elements and families of blades".into();
    c.assume("conversions are exact; products within 1e-12");
    visit_sigs(&legal_upto(6), &mut Small(&mut c));
    decl_small(&mut Small(&mut c));
    visit_sigs(&counts(7), &mut Mid(&mut c));
    visit_sigs(&counts(8), &mut Mid(&mut c));
    visit_sigs(&counts(9).into_iter().step_by(if c.deep { 1 } else { 2 }).collect::<Vec<_>>(), &mut Mid(&mut c));
    if c.deep {
        visit_sigs(&counts(10), &mut Mid(&mut c));
    }
    for d in 10..=if c.deep { 20 } else { 17 } {
        visit_sigs(&tall_sigs(d), &mut Tall(&mut c));
    }
    c.run()
}
