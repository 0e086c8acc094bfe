//! C18: the exponential equals the exponential series.
use num::complex::Complex64 as C;
use num::{One, Zero};
use std::ops::{Add, Mul, Neg, Sub};
use vharness::tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use vharness::tclifford::{FFTRepr, Multivector, SparseMultivector};
use vharness::*;

/// Complex numbers in double-double arithmetic.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Cd(Dd, Dd);
macro_rules! op {
    ($tr:ident, $f:ident, $e:expr) => {
        impl $tr for Cd {
            type Output = Cd;
            fn $f(self, o: Cd) -> Cd {
                $e(self, o)
            }
        }
        impl<'a> $tr<&'a Cd> for &'a Cd {
            type Output = Cd;
            fn $f(self, o: &Cd) -> Cd {
                $e(*self, *o)
            }
        }
    };
}
op!(Add, add, |a: Cd, b: Cd| Cd(a.0 + b.0, a.1 + b.1));
op!(Sub, sub, |a: Cd, b: Cd| Cd(a.0 - b.0, a.1 - b.1));
op!(Mul, mul, |a: Cd, b: Cd| Cd(a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0));
impl Neg for Cd {
    type Output = Cd;
    fn neg(self) -> Cd {
        Cd(-self.0, -self.1)
    }
}
impl Neg for &Cd {
    type Output = Cd;
    fn neg(self) -> Cd {
        -*self
    }
}
impl Zero for Cd {
    fn zero() -> Self {
        Cd(Dd::f(0.), Dd::f(0.))
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }
}
impl One for Cd {
    fn one() -> Self {
        Cd(Dd::f(1.), Dd::f(0.))
    }
}
trait Ref: Co + Copy {
    fn of(c: C) -> Self;
    fn to(self) -> C;
    fn half(self) -> Self;
    fn div(self, k: f64) -> Self;
}
impl Ref for Dd {
    fn of(c: C) -> Self {
        Dd::f(c.re)
    }
    fn to(self) -> C {
        C::new(self.h, 0.)
    }
    fn half(self) -> Self {
        self * Dd::f(0.5)
    }
    fn div(self, k: f64) -> Self {
        self / Dd::f(k)
    }
}
impl Ref for Cd {
    fn of(c: C) -> Self {
        Cd(Dd::f(c.re), Dd::f(c.im))
    }
    fn to(self) -> C {
        C::new(self.0.h, self.1.h)
    }
    fn half(self) -> Self {
        Cd(self.0.half(), self.1.half())
    }
    fn div(self, k: f64) -> Self {
        Cd(Ref::div(self.0, k), Ref::div(self.1, k))
    }
}
/// The series in extended precision: halve until small, sum, square back.
fn exp_model<R: Ref>(m: &Model, a: &[C]) -> Vec<C> {
    let l1: f64 = a.iter().map(|c| c.norm()).sum();
    let mut x: Vec<R> = a.iter().map(|c| R::of(*c)).collect();
    let mut h = 0;
    let mut s = l1;
    while s > 0.5 {
        s /= 2.;
        h += 1;
        for c in x.iter_mut() {
            *c = c.half();
        }
    }
    let mut sum = m.one::<R>();
    let mut t = m.one::<R>();
    for k in 1..40 {
        t = m.mul(&t, &x).into_iter().map(|c| c.div(k as f64)).collect();
        sum = vadd(&sum, &t);
        if t.iter().all(|c| c.to().norm() < 1e-34) {
            break;
        }
    }
    for _ in 0..h {
        sum = m.mul(&sum, &sum);
    }
    sum.into_iter().map(|c| c.to()).collect()
}
fn l1(a: &[C]) -> f64 {
    a.iter().map(|c| c.norm()).sum()
}
fn judge<A: Alg>(w: &W, m: &Model, a: &[C], want: &[C], fft: bool) {
    let real = a.iter().all(|c| c.im == 0.);
    w.case(
        || format!("exp of {}", show(a)),
        || {
            let s = l1(a);
            let tol = 2e-13 * (1. + s) * s.exp();
            w.state(&fp(a));
            w.reach(want);
            let back = |v: Vec<f64>| -> Vec<C> { v.iter().map(|x| C::new(*x, 0.)).collect() };
            if real {
                let r: Vec<f64> = a.iter().map(|c| c.re).collect();
                let x = Multivector::<f64, A>::new(&r);
                near_vec("dense real exp", &back(x.exp().vals(m.n)), want, tol)?;
                same("operand afterwards", &x, &r)?;
                near_vec("sparse real exp", &back(SparseMultivector::<f64, A>::new(&r).exp().vals(m.n)), want, tol)?;
                if fft {
                    near_vec("exp of the real representation", &back(x.fft().exp().ifft::<f64>().vals(m.n)), want, tol)?;
                    w.trans(1);
                }
            } else {
                near_vec("dense exp", &Multivector::<C, A>::new(a).exp().vals(m.n), want, tol)?;
                near_vec("sparse exp", &SparseMultivector::<C, A>::new(a).exp().vals(m.n), want, tol)?;
            }
            w.trans(2);
            if fft {
                let f = repr::<A>(a);
                let e = f.exp();
                near_vec("exp of the representation", &e.ifft::<C>().vals(m.n), want, tol)?;
                near("the exponential represents a multivector", &repr(want), &e, tol * m.n as f64)?;
                w.trans(2);
                if s <= 4. {
                    near("exp(a)*exp(-a) of the representation", &(&e * repr::<A>(&vneg(a)).exp()), &FFTRepr::one(), 2e-13 * (1. + s) * (2. * s).exp() * m.n as f64)?;
                }
            }
            if s <= 4. {
                let p = Multivector::<C, A>::new(a).exp() * Multivector::<C, A>::new(&vneg(a)).exp();
                w.trans(1);
                near_vec("exp(a)*exp(-a)", &p.vals(m.n), &m.one::<C>(), 2e-13 * (1. + s) * (2. * s).exp())?;
            }
            Ok(())
        },
    );
}
fn one<A: Alg>(w: &W, m: &Model, a: &[C]) {
    let want = if a.iter().all(|c| c.im == 0.) { exp_model::<Dd>(m, a) } else { exp_model::<Cd>(m, a) };
    judge::<A>(w, m, a, &want, true);
}
/// Commuting unit blades have the closed form (cos or cosh + blade sin or sinh).
fn closed(m: &Model, i: usize, t: f64) -> Vec<C> {
    let mut r = m.zero::<C>();
    if i == 0 {
        r[0] = C::new(t.exp(), 0.);
        return r;
    }
    let (c, s) = match m.g(i, i) {
        1 => (t.cosh(), t.sinh()),
        -1 => (t.cos(), t.sin()),
        _ => (1., t),
    };
    r[0] = C::new(c, 0.);
    r[i] = C::new(s, 0.);
    r
}
fn run<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    judge::<A>(w, &m, &m.zero::<C>(), &m.one::<C>(), true);
    for i in 0..n {
        let ts: &[f64] = if m.d <= 4 { &[1e-300, 1e-20, 1e-9, 0.001, 0.3, 1., -1., 1.5, 2., -2.75, 3.14159, 7., -20.] } else { &[1e-9, 1., -1., 2.75, 6.] };
        for &t in ts {
            judge::<A>(w, &m, &blade(n, i, C::new(t, 0.)), &closed(&m, i, t), m.d <= 5);
        }
        one::<A>(w, &m, &blade(n, i, C::new(0.5, 1.25)));
    }
    let mut comm = vec![];
    for i in 1..n {
        for j in i + 1..n {
            if m.g(i, j) == m.g(j, i) && (m.g(i, j) != 0 || i & j != 0) {
                comm.push((i, j));
            }
        }
    }
    if m.d <= 5 {
        // commuting blades: exp(a+b) = exp(a)exp(b)
        for (i, j) in &comm {
            for (s, t) in [(1., 1.), (1.5, -2.)] {
                let a = vadd(&blade(n, *i, C::new(s, 0.)), &blade(n, *j, C::new(t, 0.)));
                judge::<A>(w, &m, &a, &m.mul(&closed(&m, *i, s), &closed(&m, *j, t)), true);
            }
        }
        // anticommuting blades: (s A + t B)^2 is a scalar
        for i in 1..n {
            for j in i + 1..n {
                if m.g(i, j) == -m.g(j, i) && m.g(i, j) != 0 {
                    let (s, t) = (1.25f64, -0.75f64);
                    let q = s * s * m.g(i, i) as f64 + t * t * m.g(j, j) as f64;
                    let r = q.abs().sqrt();
                    let (c, k) = if q > 0. { (r.cosh(), r.sinh() / r) } else if q < 0. { (r.cos(), r.sin() / r) } else { (1., 1.) };
                    let mut want = m.zero::<C>();
                    want[0] = C::new(c, 0.);
                    want[i] = C::new(s * k, 0.);
                    want[j] = C::new(t * k, 0.);
                    let a = vadd(&blade(n, i, C::new(s, 0.)), &blade(n, j, C::new(t, 0.)));
                    judge::<A>(w, &m, &a, &want, m.d <= 4);
                }
            }
        }
    }
    for s in 0..2 {
        let v = cints(n, s);
        for size in [0.01, 1., 3., 6.] {
            let k = size / l1(&v);
            one::<A>(w, &m, &v.iter().map(|c| c * k).collect::<Vec<_>>());
            let r = cx(&ints(n, s));
            let k = size / l1(&r);
            one::<A>(w, &m, &r.iter().map(|c| c * k).collect::<Vec<_>>());
        }
    }
    for (k, s) in structured_supports(m.d).iter().enumerate() {
        let v = on(C::new(0., 0.), &cx(&ints(n, k)), s);
        for size in [0.5, 4.] {
            let t = size / l1(&v);
            one::<A>(w, &m, &v.iter().map(|c| c * t).collect::<Vec<_>>());
        }
    }
    match m.d {
        1 => all_vecs(&[-3, -2, -1, 0, 1, 2, 4], n, |v| one::<A>(w, &m, &cx(v))),
        2 => {
            all_vecs(&[-2, -1, 0, 1, 3], n, |v| one::<A>(w, &m, &cx(v)));
            all_vecs(&[C::new(0., 0.), C::new(1., 0.), C::new(0., -1.)], n, |v| one::<A>(w, &m, v));
        }
        3 => all_vecs(&[-1, 0, 1], n, |v| one::<A>(w, &m, &cx(v))),
        4 | 5 if m.d == 4 || w.deep => {
            for s in subsets_upto(n, 3) {
                let mut a = m.zero::<C>();
                for (k, x) in s.iter().enumerate() {
                    a[*x] = C::new([1., -1.5, 0.75][k], 0.);
                }
                one::<A>(w, &m, &a);
            }
        }
        _ => {}
    }
}
/// Tall algebras: blades in closed form, sums of two that follow each other in the family.
fn tall<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    let fam = blade_family(m.d);
    let rep = |a: &[C], want: &[C]| {
        w.case(
            || format!("exp of {}", show(a)),
            || {
                let s = l1(a);
                w.state(&fp(a));
                w.reach(want);
                w.trans(2);
                let tol = 2e-13 * (1. + s) * s.exp();
                near_vec("exp of the representation", &repr::<A>(a).exp().ifft::<C>().vals(n), want, tol)?;
                near_vec("sparse exp", &SparseMultivector::<C, A>::new(a).exp().vals(n), want, tol)?;
                if m.d <= 9 {
                    w.trans(1);
                    near_vec("dense exp", &Multivector::<C, A>::new(a).exp().vals(n), want, tol)?;
                }
                Ok(())
            },
        );
    };
    for k in (0..fam.len()).step_by(if m.d <= 10 { 1 } else { 5 }) {
        let (i, j) = (fam[k], fam[(k + 1) % fam.len()]);
        for t in [1., -2.75] {
            rep(&blade(n, i, C::new(t, 0.)), &closed(&m, i, t));
        }
        if i != 0 && j != 0 && i != j && m.g(i, j) == m.g(j, i) && (m.g(i, j) != 0 || i & j != 0) && (-1i32).pow((i.count_ones() * j.count_ones() + (i & j).count_ones()) % 2) == 1 {
            let a = vadd(&blade(n, i, C::new(1., 0.)), &blade(n, j, C::new(1.5, 0.)));
            rep(&a, &m.mul(&closed(&m, i, 1.), &closed(&m, j, 1.5)));
        }
        if w.stopped() {
            return;
        }
    }
    // vectors square to a scalar
    for f in [|_: usize| 0.5f64, |k: usize| (k as f64 - 3.) / 8., |k: usize| if k % 3 == 0 { 1. } else { 0. }] {
        let mut a = m.zero::<C>();
        (0..m.d).for_each(|k| a[1 << k] = C::new(f(k), 0.));
        let q: f64 = (0..m.d).map(|k| f(k) * f(k) * m.sig.q[k] as f64).sum();
        let r = q.abs().sqrt();
        let (c, s) = if q > 0. { (r.cosh(), r.sinh() / r) } else if q < 0. { (r.cos(), r.sin() / r) } else { (1., 1.) };
        let mut want = vscale(&a, &C::new(s, 0.));
        want[0] = C::new(c, 0.);
        rep(&a, &want);
    }
}
/// Sparse elements in algebras too large to enumerate.
fn big<A: Alg>(w: &W) {
    let sig = Sig::new(&A::sig());
    for i in blade_family(sig.d) {
        for t in [1f64, -2.75, 1e-9] {
            w.case(
                || format!("exp of {t} times blade {i:#b}"),
                || {
                    w.state(&(i, t.to_bits()));
                    w.trans(1);
                    let e = SparseMultivector::<f64, A>::from_blade(i, t).exp();
                    let (c, s) = match sig.geo_fast(i, i).0 {
                        1 => (t.cosh(), t.sinh()),
                        -1 => (t.cos(), t.sin()),
                        _ => (1., t),
                    };
                    let (c, s) = if i == 0 { (t.exp(), t.exp()) } else { (c, s) };
                    let tol = 2e-13 * (1. + t.abs()) * t.abs().exp();
                    for (k, x) in e.entries() {
                        let want = if k == 0 { c } else if k == i { s } else { 0. };
                        ensure(|| format!("coefficient {k:#b} is {x}, should be {want}"), (x - want).abs() <= tol)?;
                    }
                    ensure(|| "a coefficient is missing".into(), (e.get_by_idx(0) - c).abs() <= tol && (e.get_by_idx(i) - s).abs() <= tol)
                },
            );
        }
    }
}
struct Tall<'a>(&'a mut Check);
impl Visitor for Tall<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        if sig.len() <= 13 {
            self.0.alg_task::<A>("tall exponentials", sig, 1 << (3 * sig.len()), tall::<A>);
        }
        self.0.alg_task::<A>("sparse exponentials", sig, 1 << 20, big::<A>);
    }
}
/// Quaternion storage and quaternion algebra.
fn quats(w: &W) {
    let m = Model::of::<QuaternionAlgebra>();
    all_vecs(&[-2.5f64, -1., 0., 1., 1.5], 4, |v| {
        w.case(
            || format!("quaternion exp of {}", show(v)),
            || {
                let a: Vec<C> = v.iter().map(|x| C::new(*x, 0.)).collect();
                let q = Quaternion::<f64>::new(v);
                let r = (v[1] * v[1] + v[2] * v[2] + v[3] * v[3]).sqrt();
                let k = if r == 0. { 1. } else { r.sin() / r };
                let e = v[0].exp();
                let want: Vec<C> = [e * r.cos(), e * k * v[1], e * k * v[2], e * k * v[3]].iter().map(|x| C::new(*x, 0.)).collect();
                w.state(&fp(v));
                w.reach(&want);
                let got: Vec<C> = q.exp().vals(4).iter().map(|x| C::new(*x, 0.)).collect();
                near_vec("quaternion exp", &got, &want, 1e-12 * l1(&a).exp())?;
                near_vec("series against the closed form", &exp_model::<Dd>(&m, &a), &want, 1e-12 * l1(&a).exp())
            },
        );
    });
}
struct Small<'a>(&'a mut Check);
impl Visitor for Small<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("exponentials", sig, 1 << (3 * sig.len()), run::<A>);
    }
}
fn main() {
    let mut c = Check::full("C18");
    c.bounds = "every signature d<=6: every blade with up to 13 coefficients from 1e-300 to 20, complex blades, all pairs of commuting and of anticommuting blades (d<=5), full real and complex elements of coefficient sum 0.01 to 6, all small values (d<=3), all three-term elements (d=4; thorough d=5 too), elements supported on grades or on the blades over a subset of the generators; one signature per (+,-,0) count for d=7; quaternions; seven signatures each of d=8..12 (thorough 13): families of blades, commuting sums, vectors; d up to 63: sparse blades".into();
    c.assume("agreement within 2e-13 (1+s) e^s where s is the sum of the coefficient norms; reference sums are computed in double-double arithmetic or closed form");
    visit_sigs(&legal_upto(6), &mut Small(&mut c));
    decl_small(&mut Small(&mut c));
    visit_sigs(&counts(7), &mut Small(&mut c));
    for d in 8..=if c.deep { 13 } else { 12 } {
        // only null generators: the product runs through 3^d pairs of blades
        let top = if c.deep { 11 } else { 9 };
        let s: Vec<String> = tall_sigs(d).into_iter().filter(|s| d <= top || s.contains(['+', '-'])).collect();
        visit_sigs(&s, &mut Tall(&mut c));
    }
    visit_sigs(&big_sigs().into_iter().filter(|s| s.len() > 13).collect::<Vec<_>>(), &mut Tall(&mut c));
    c.task("quaternion exponentials", 1000, quats);
    c.run()
}
