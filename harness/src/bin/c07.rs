//! C07: scalar products and magnitudes equal their defining expressions.
use num::complex::{Complex32, Complex64, ComplexFloat};
use num::rational::Ratio;
use num::Zero;
use vharness::tclifford::quaternion::Quaternion;
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

fn scalar_of_product<T: Co>(m: &Model, a: &[T], b: &[T]) -> T {
    // only equal blades contribute to the scalar part
    let mut r = T::zero();
    for i in 0..m.n {
        r = r + signed(m.g(i, i), &(a[i].clone() * b[i].clone()));
    }
    r
}
#[derive(Clone, Copy)]
struct Dots;
impl Bin for Dots {
    fn pair<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, b: &M, ra: &[T], rb: &[T]) -> Result<(), String> {
        let v = scalar_of_product(m, ra, rb);
        let s = m.vsdot(ra, rb);
        w.state(&("dots", fp(&[v.clone(), s.clone()])));
        w.trans(2);
        same_val("vdot", a.vdot_(b), v)?;
        same_val("vsdot", a.vsdot_(b), s)
    }
}
#[derive(Clone, Copy)]
struct Mag;
impl Un for Mag {
    fn one<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, ra: &[T]) -> Result<(), String> {
        let want = scalar_of_product(m, &m.rev(ra), ra);
        w.state(&("mag2", fp(&[want.clone()])));
        w.trans(1);
        same_val("mag2", a.mag2_(), want)
    }
}
/// The shortcuts against the library's own product.
fn against_product<A: Alg, M: Mv<Sym>>(w: &W, m: &Model) {
    w.case(
        || format!("generic operands against the library's product, {}", M::ST),
        || {
            let (a, b) = (M::new(&syms(m.n, 0)), M::new(&syms(m.n, m.n)));
            w.state(&M::ST);
            w.trans(3);
            same_val("vdot", a.vdot_(&b), a.mul_(&b).scalar_part_())?;
            same_val("mag2", a.mag2_(), a.rev_().mul_(&a).scalar_part_())?;
            same_val("vdot(a,a)", a.vdot_(&a), a.mul_(&a).scalar_part_())
        },
    );
}

/// revm over the rationals: exact division by the magnitude.
fn revm<A: Alg, M: MvDiv<Ratio<i64>>>(w: &W, m: &Model, vals: &[i64]) {
    all_vecs(vals, m.n, |v| {
        let a: Vec<Ratio<i64>> = v.iter().map(|x| Ratio::from(*x)).collect();
        revm_case::<M>(w, m, &a);
    });
}
fn revm_case<M: MvDiv<Ratio<i64>>>(w: &W, m: &Model, a: &[Ratio<i64>]) {
    let mag = scalar_of_product(m, &m.rev(a), a);
    if mag.is_zero() || w.stopped() {
        return;
    }
    w.case(
        || format!("revm, {}: {}", M::ST, show(a)),
        || {
            let x = M::new(a);
            let want: Vec<_> = m.rev(a).iter().map(|c| c / mag).collect();
            w.state(&("revm", fp(a)));
            w.reach(&want);
            let r = x.revm_();
            same("revm", &r, &want)?;
            w.trans(2);
            same_val("vdot(revm(a), a)", r.vdot_(&x), Ratio::from(1))?;
            // every form of dividing by the magnitude agrees
            for (k, d) in x.rev_().div_forms(&mag).iter().enumerate() {
                w.trans(1);
                same(&format!("rev(a)/mag2, form {k}"), d, &want)?;
            }
            Ok(())
        },
    );
}
/// revm over the floating-point numbers; dividing by a magnitude of zero leaves nothing finite.
fn revm_float<M: MvDiv<f64>>(w: &W, m: &Model, a: &[f64]) {
    w.case(
        || format!("floating-point revm, {}: {}", M::ST, show(a)),
        || {
            let mag = scalar_of_product(m, &m.rev(a), a);
            let want: Vec<f64> = m.rev(a).iter().map(|c| c / mag).collect();
            w.state(&("float revm", M::ST, fp(a)));
            w.trans(1);
            w.count("operands_of_magnitude_zero", (mag == 0.) as u64);
            let r = M::new(a).revm_().vals(m.n);
            for i in 0..m.n {
                let ok = if mag == 0. { a[i] == 0. || !r[i].is_finite() } else { (r[i] - want[i]).abs() <= 1e-13 * want.iter().fold(0f64, |s, c| s.max(c.abs())) };
                ensure(|| format!("coefficient {i:#b} is {}, should be {}", r[i], want[i]), ok)?;
            }
            Ok(())
        },
    );
}
fn revm_floats<A: Alg>(w: &W, m: &Model) {
    let go = |v: &[f64]| {
        if !w.stopped() {
            revm_float::<Multivector<f64, A>>(w, m, v);
            revm_float::<SparseMultivector<f64, A>>(w, m, v);
        }
    };
    if m.d <= 3 {
        all_vecs(if m.d <= 2 { &[-2., -1., 0., 1., 3.] } else { &[-1., 0., 1.] }, m.n, go);
    } else {
        for s in subsets_upto(m.n, if m.d <= 5 { 2 } else { 1 }) {
            for x in [1., -1., 2.] {
                let mut v = vec![0.; m.n];
                s.iter().enumerate().for_each(|(q, &i)| v[i] = if q == 0 { 1. } else { x });
                go(&v);
            }
        }
    }
    for s in structured_supports(m.d) {
        go(&on(0., &vec![1.; m.n], &s));
    }
    for e in [-450, -60, -20, 20, 60, 450] {
        for s in 0..3 {
            go(&ints(m.n, s).iter().map(|x| *x as f64 * 2f64.powi(e)).collect::<Vec<_>>());
        }
        for i in 0..m.n {
            go(&blade(m.n, i, 3. * 2f64.powi(e)));
        }
    }
}
/// cmag2, revc and revcm over the complex numbers, with and without phases.
macro_rules! complex_case {
    ($w:expr, $m:expr, $mv:ty, $t:ty, $a:expr, $tol:expr) => {{
        let (w, m, a) = ($w, $m, $a);
        w.case(
            || format!("cmag2/revcm of {} over {}", show(&a), stringify!($t)),
            || {
                let x = <$mv>::new(&a);
                let conj: Vec<$t> = a.iter().map(|c| c.conj()).collect();
                let rc = m.rev(&conj);
                let want = scalar_of_product(m, &rc, &a);
                w.state(&(stringify!($mv), fp(&a)));
                w.trans(2);
                same_val("cmag2", x.cmag2(), want)?;
                same_val("cmag2 through the product", (x.revc() * &x).scalar_part(), want)?;
                if want.is_zero() {
                    let r = x.revcm();
                    for i in 0..m.n {
                        ensure(|| format!("revcm at magnitude zero, coefficient {i:#b}: {:?}", r.get(i)), a[i].is_zero() || !r.get(i).abs().is_finite())?;
                    }
                } else {
                    let wm: Vec<$t> = rc.iter().map(|c| *c / want).collect();
                    w.reach(&wm);
                    let r = x.revcm();
                    for i in 0..m.n {
                        ensure(|| format!("revcm, coefficient {i:#b}: {:?} should be {:?}", r.get(i), wm[i]), ((r.get(i) - wm[i]).abs() as f64) <= $tol * wm.iter().fold(0f64, |s, c| s.max(c.abs() as f64)))?;
                    }
                }
                Ok(())
            },
        );
    }};
}
fn complex<A: Alg>(w: &W, m: &Model) {
    let al = [Complex64::new(0., 0.), Complex64::new(1., 0.), Complex64::new(0., 1.), Complex64::new(2., -3.)];
    let mut go = |a: Vec<Complex64>| {
        if w.stopped() {
            return;
        }
        complex_case!(w, m, Multivector<Complex64, A>, Complex64, a.clone(), 1e-12);
        complex_case!(w, m, SparseMultivector<Complex64, A>, Complex64, a.clone(), 1e-12);
        let b: Vec<Complex32> = a.iter().map(|c| Complex32::new(c.re as f32, c.im as f32)).collect();
        complex_case!(w, m, Multivector<Complex32, A>, Complex32, b, 1e-5);
        let r: Vec<f64> = a.iter().map(|c| c.re + c.im).collect();
        complex_case!(w, m, Multivector<f64, A>, f64, r, 1e-12);
    };
    if m.d <= 2 {
        all_vecs(&al, m.n, |v| go(v.to_vec()));
    } else {
        for s in subsets_upto(m.n, if m.d <= 4 { 2 } else { 1 }) {
            for k in 1..4 {
                let mut a = vec![al[0]; m.n];
                for (q, &i) in s.iter().enumerate() {
                    a[i] = al[1 + (k + q) % 3];
                }
                go(a);
            }
        }
        go((0..m.n).map(|i| Complex64::new((i % 5) as f64 - 1., (i % 3) as f64)).collect());
    }
    for e in [-220, -60, -20, 20, 60, 220] {
        for s in 0..2 {
            let a = at_scale(&cints(m.n, s), e);
            let r: Vec<f64> = a.iter().map(|c| c.re + c.im).collect();
            complex_case!(w, m, Multivector<Complex64, A>, Complex64, a.clone(), 1e-12);
            complex_case!(w, m, SparseMultivector<Complex64, A>, Complex64, a.clone(), 1e-12);
            complex_case!(w, m, Multivector<f64, A>, f64, r, 1e-12);
        }
    }
}
struct More<'a>(&'a mut Check);
impl Visitor for More<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let d = sig.len();
        self.0.alg_task::<A>("definitions", sig, 1 << (3 * d), move |w| {
            let m = Model::of::<A>();
            against_product::<A, Multivector<Sym, A>>(w, &m);
            against_product::<A, SparseMultivector<Sym, A>>(w, &m);
        });
        self.0.alg_task::<A>("complex", sig, 1 << (3 * d), move |w| complex::<A>(w, &Model::of::<A>()));
        self.0.alg_task::<A>("revm", sig, 1 << (6 * d.min(3)), move |w| {
            let m = Model::of::<A>();
            revm_floats::<A>(w, &m);
            if d <= 2 {
                revm::<A, Multivector<Ratio<i64>, A>>(w, &m, &[-2, -1, 0, 1, 3]);
                revm::<A, SparseMultivector<Ratio<i64>, A>>(w, &m, &[-2, -1, 0, 1, 3]);
            } else if d == 3 {
                revm::<A, Multivector<Ratio<i64>, A>>(w, &m, &[-1, 0, 2]);
                revm::<A, SparseMultivector<Ratio<i64>, A>>(w, &m, &[0, 3]);
            } else {
                let mk = |f: &dyn Fn(usize) -> i64| -> Vec<Ratio<i64>> { (0..m.n).map(|i| Ratio::from(f(i))).collect() };
                for a in [mk(&|i| (i as i64 % 7) - 2), mk(&|i| 1 + (i as i64 * 5) % 11), mk(&|i| if i % 3 == 0 { 2 } else { 0 })] {
                    revm_case::<Multivector<Ratio<i64>, A>>(w, &m, &a);
                    revm_case::<SparseMultivector<Ratio<i64>, A>>(w, &m, &a);
                }
                for i in 0..m.n {
                    revm_case::<Multivector<Ratio<i64>, A>>(w, &m, &blade(m.n, i, Ratio::from(3)));
                    for j in 0..i {
                        let mut v = blade(m.n, i, Ratio::from(3));
                        v[j] = Ratio::from(-2);
                        revm_case::<SparseMultivector<Ratio<i64>, A>>(w, &m, &v);
                    }
                }
            }
        });
    }
}
struct Big<'a>(&'a mut Check);
impl Visitor for Big<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("structured blades", sig, 1 << 22, |w| {
            let sig = Sig::new(&A::sig());
            let f = blade_family(sig.d);
            for &i in &f {
                for &j in &f {
                    w.case(
                        || format!("blades {i:#b}, {j:#b}"),
                        || {
                            w.state(&(i, j));
                            w.trans(3);
                            let x = SparseMultivector::<i64, A>::from_blade(i, 3);
                            let y = SparseMultivector::<i64, A>::from_blade(j, -7);
                            let (s, _) = sig.geo_fast(i, i);
                            let e = (i == j) as i64;
                            same_val("vdot", x.vdot_(&y), -21 * s as i64 * e)?;
                            same_val("vsdot", x.vsdot_(&y), -21 * e)?;
                            same_val("mag2", x.mag2_(), 9 * (s * Sig::rev_sign(i)) as i64)
                        },
                    );
                    if w.stopped() {
                        return;
                    }
                }
            }
        });
    }
}

fn main() {
    let mut c = Check::full("C07");
    c.bounds = "every signature with d<=6: symbolic generic operands, all pairs of blades, one-hole operands, operands supported on grades or on the blades over a subset of the generators, all support pairs (d<=3), supports (d<=4); values over Z/4 and small integers; exact rational revm (all small values d<=3, one- and two-term and full operands d<=6); complex, single-precision and real cmag2/revcm; d=7..10 full and all blades; d up to 63 structured blades; floating-point revm and revcm at magnitude zero and at seven scales from 2^-450 (complex 2^-220) to 2^450; seven signatures each of d=11..14 (thorough 16; magnitudes 18, 20): full operands and families of blades".into();
    c.assume("revm and revcm over floating-point numbers are compared within 1e-13 and 1e-12 (1e-5 in single precision) of the largest coefficient; everything else exactly");
    add_pairs(&mut c, Dots);
    add_ones(&mut c, Mag);
    visit_sigs(&legal_upto(6), &mut More(&mut c));
    decl_small(&mut More(&mut c));
    visit_sigs(&big_sigs(), &mut Big(&mut c));
    decl_big(&mut Big(&mut c));
    c.task("revm of quaternions", 1 << 20, |w| {
        let m = Model::new(&Sig::new("--"));
        revm::<A_mm, Quaternion<Ratio<i64>>>(w, &m, &[-2, -1, 0, 1, 3]);
    });
    c.run()
}
