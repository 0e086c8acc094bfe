//! C12: transforming to the matrix representation and back is the identity.
use ndarray::{Array3, ShapeBuilder};
use num::complex::{Complex32, Complex64 as C};
use vharness::tclifford::algebra::NonDegenerate;
use vharness::tclifford::types::{FromComplex, IntoComplex64};
use vharness::tclifford::{FFTRepr, Multivector};
use vharness::*;

trait Num: Co + IntoComplex64 + FromComplex {
    const EPS: f64;
}
impl Num for f64 {
    const EPS: f64 = 1e-13;
}
impl Num for f32 {
    const EPS: f64 = 1e-6;
}
impl Num for C {
    const EPS: f64 = 1e-13;
}
impl Num for Complex32 {
    const EPS: f64 = 1e-6;
}
fn round_trip<T: Num, A: Alg>(w: &W, m: &Model, a: &[C]) {
    w.case(
        || format!("{} coefficients {}", std::any::type_name::<T>(), show(a)),
        || {
            let v: Vec<T> = a.iter().map(|c| T::from_complex(*c)).collect();
            let back: Vec<C> = v.iter().map(|c| c.into_complex()).collect();
            let tol = T::EPS * cmax(&back) * (m.n as f64).sqrt();
            let x = Multivector::<T, A>::new(&v);
            w.state(&(std::any::type_name::<T>(), fp(&v)));
            let f = x.fft();
            w.reach(f.view().as_slice().unwrap_or(&[]));
            w.trans(4);
            let got = |y: &Multivector<T, A>| -> Vec<C> { y.vals(m.n).iter().map(|c| c.into_complex()).collect() };
            near_vec("ifft(fft(a))", &got(&f.ifft::<T>()), &back, tol)?;
            near_vec("ifft(fft(a)) read as complex", &f.ifft::<C>().vals(m.n), &back, tol)?;
            same("operand afterwards", &x, &v)?;
            // through arrays of either memory layout
            let arr = f.clone().into_array3();
            ensure(|| "the view differs from the array".into(), f.view() == arr.view())?;
            let g = FFTRepr::<A>::from_array3(arr.clone()).map_err(|e| format!("own array rejected: {e:?}"))?;
            ensure(|| "rebuilt representation differs".into(), g == f)?;
            near_vec("ifft of the rebuilt representation", &got(&g.ifft::<T>()), &back, tol)?;
            let mut fo = Array3::<C>::zeros(arr.raw_dim().f());
            fo.assign(&arr);
            let g = FFTRepr::<A>::from_array3(fo).map_err(|e| format!("column-major array rejected: {e:?}"))?;
            ensure(|| "column-major copy differs".into(), g == f)?;
            near_vec("ifft of the column-major copy", &got(&g.ifft::<T>()), &back, tol)
        },
    );
}
fn all_types<A: Alg>(w: &W, m: &Model, a: &[C]) {
    round_trip::<f64, A>(w, m, &a.iter().map(|c| C::new(c.re, 0.)).collect::<Vec<_>>());
    round_trip::<f32, A>(w, m, &a.iter().map(|c| C::new(c.re, 0.)).collect::<Vec<_>>());
    round_trip::<C, A>(w, m, a);
    round_trip::<Complex32, A>(w, m, a);
}
/// When the number of non-null generators is even every array represents one multivector.
fn every_array<A: Alg>(w: &W, m: &Model) {
    let k = m.d - m.sig.nulls();
    if k % 2 == 1 {
        return;
    }
    let side = 1usize << (k / 2);
    let wc = 1usize << m.sig.nulls();
    let one = |arr: Array3<C>, name: String| {
        w.case(
            || name.clone(),
            || {
                w.state(&fp(arr.as_slice().unwrap()));
                w.trans(2);
                let f = FFTRepr::<A>::from_array3(arr.clone()).map_err(|e| format!("rejected: {e:?}"))?;
                let x = f.ifft::<C>();
                w.reach(&x.vals(m.n));
                let tol = 1e-13 * cmax(arr.as_slice().unwrap()) * m.n as f64;
                near("fft(ifft(F))", &x.fft(), &f, tol)
            },
        );
    };
    for a in 0..wc {
        for i in 0..side {
            for j in 0..side {
                for v in [C::new(1., 0.), C::new(0., 1.)] {
                    let mut arr = Array3::zeros((wc, side, side));
                    arr[(a, i, j)] = v;
                    one(arr, format!("array with {v} at {a},{i},{j}"));
                }
            }
        }
    }
    for s in 0..3 {
        let v = cints(wc * side * side, s);
        one(Array3::from_shape_vec((wc, side, side), v).unwrap(), format!("full array {s}"));
    }
}
fn run<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    let i = C::new(0., 1.);
    for k in 0..n {
        for v in [C::new(1., 0.), i, C::new(-3., 2.)] {
            all_types::<A>(w, &m, &blade(n, k, v));
        }
    }
    all_types::<A>(w, &m, &m.zero::<C>());
    for s in 0..4 {
        let v = cints(n, s);
        all_types::<A>(w, &m, &v);
        // one coefficient missing, one coefficient alone of another scale
        for e in [-140i32, -40, 40, 140] {
            let u: Vec<C> = v.iter().map(|c| c * 2f64.powi(e)).collect();
            round_trip::<C, A>(w, &m, &u);
            round_trip::<f64, A>(w, &m, &u.iter().map(|c| C::new(c.re, 0.)).collect::<Vec<_>>());
        }
        // coefficients that need all the bits of a double
        let u: Vec<C> = v.iter().map(|c| C::new(1. / c.re, 1. / (3. * c.im))).collect();
        all_types::<A>(w, &m, &u);
    }
    let rough = |v: &[i64]| cx(v);
    match m.d {
        1 => all_vecs(&[-5, -2, -1, 0, 1, 2, 5, 7], n, |v| all_types::<A>(w, &m, &rough(v))),
        2 => all_vecs(&[-3, -1, 0, 1, 2], n, |v| all_types::<A>(w, &m, &rough(v))),
        3 => all_vecs(&[-1, 0, 1], n, |v| all_types::<A>(w, &m, &rough(v))),
        4 if w.deep => all_vecs(&[0, 1], n, |v| all_types::<A>(w, &m, &rough(v))),
        _ => {
            let subs = subsets_upto(n, if m.d <= 5 || w.deep { 2 } else { 1 });
            for s in subs {
                let mut v = vec![C::new(0., 0.); n];
                for (q, &x) in s.iter().enumerate() {
                    v[x] = C::new(2. + q as f64, -1.);
                }
                all_types::<A>(w, &m, &v);
            }
        }
    }
    for s in structured_supports(m.d) {
        all_types::<A>(w, &m, &on(C::new(0., 0.), &cints(n, 1), &s));
    }
    every_array::<A>(w, &m);
}
fn mid<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    for s in 0..2 {
        all_types::<A>(w, &m, &cints(m.n, s));
    }
    for k in 0..m.n {
        round_trip::<C, A>(w, &m, &blade(m.n, k, C::new(2., -1.)));
        round_trip::<f64, A>(w, &m, &blade(m.n, k, C::new(3., 0.)));
    }
    for s in grade_supports(m.d) {
        round_trip::<C, A>(w, &m, &on(C::new(0., 0.), &cints(m.n, 1), &s));
    }
    if m.d <= 8 {
        every_array::<A>(w, &m);
    }
}
/// Tall algebras: full operands and all blades of a family in one.
fn tall<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    all_types::<A>(w, &m, &cints(m.n, 0));
    all_types::<A>(w, &m, &family_c(m.d, 1));
    if m.d <= 13 {
        for k in blade_family(m.d) {
            round_trip::<C, A>(w, &m, &blade(m.n, k, C::new(2., -1.)));
        }
    }
}
struct Tall<'a>(&'a mut Check);
impl Visitor for Tall<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("tall round trips", sig, 1 << (2 * sig.len()), tall::<A>);
    }
}
/// The two-dimensional form of a representation without null generators.
fn arrays2<A: Alg + NonDegenerate>(w: &W) {
    let m = Model::of::<A>();
    let fulls = (0..3).map(|s| cints(m.n, s));
    for a in (0..m.n).map(|k| blade(m.n, k, C::new(2., -1.))).chain(fulls) {
        w.case(
            || format!("two-dimensional form of {}", show(&a)),
            || {
                let f = repr::<A>(&a);
                let m2 = f.clone().into_array2();
                w.state(&fp(&a));
                w.trans(3);
                let m3 = f.clone().into_array3();
                ensure(|| "differs from the three-dimensional form".into(), m3.dim() == (1, m2.nrows(), m2.ncols()) && m3.iter().eq(m2.iter()))?;
                let g = FFTRepr::<A>::from_array2(m2.clone()).map_err(|e| format!("own matrix rejected: {e:?}"))?;
                ensure(|| "rebuilt representation differs".into(), g == f)?;
                let mut fo = ndarray::Array2::<C>::zeros(m2.raw_dim().f());
                fo.assign(&m2);
                let g = FFTRepr::<A>::from_array2(fo).map_err(|e| format!("column-major matrix rejected: {e:?}"))?;
                ensure(|| "column-major matrix differs".into(), g == f)?;
                near_vec("ifft", &g.ifft::<C>().vals(m.n), &a, 1e-12)
            },
        );
    }
}
struct Nd<'a>(&'a mut Check);
impl NdVisitor for Nd<'_> {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str) {
        self.0.alg_task::<A>("two-dimensional form", sig, 1 << (2 * sig.len()), arrays2::<A>);
    }
}
struct Small<'a>(&'a mut Check);
impl Visitor for Small<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("round trips", sig, 1 << (2 * sig.len()), run::<A>);
    }
}
struct Mid<'a>(&'a mut Check);
impl Visitor for Mid<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("large round trips", sig, 1 << (2 * sig.len()), mid::<A>);
    }
}
fn main() {
    let mut c = Check::full("C12");
    c.bounds = "every signature d<=6: every blade with real, imaginary and complex coefficients, full operands, operands scaled by 2^-140..2^140, non-dyadic operands, all small values (d<=3; d=4 over {0,1} thorough), one-term and (d<=5, thorough d=6) two-term operands, operands supported on grades or on the blades over a subset of the generators, in f32, f64 and both complex types; every matrix unit when the number of non-null generators is even; one signature per (+,-,0) count for d=7..9 (every third of d=10, thorough all and every eighth of d=11): blades and full operands; seven signatures each of d=11..18 (thorough 20): full operands and families of blades in all four types".into();
    c.assume("agreement within 1e-13 (1e-6 in single precision) of the largest coefficient, times the square root of the number of coefficients");
    visit_sigs(&legal_upto(6), &mut Small(&mut c));
    decl_mid(&mut Small(&mut c));
    visit_nd_sigs(&nondeg_upto(6), &mut Nd(&mut c));
    decl_nd_mid(&mut Nd(&mut c));
    visit_sigs(&counts(7), &mut Mid(&mut c));
    visit_sigs(&counts(8), &mut Mid(&mut c));
    visit_sigs(&counts(9), &mut Mid(&mut c));
    if c.deep {
        visit_sigs(&counts(11).into_iter().step_by(8).collect::<Vec<_>>(), &mut Mid(&mut c));
    }
    let k = if c.deep { 1 } else { 3 };
    visit_sigs(&counts(10).into_iter().step_by(k).collect::<Vec<_>>(), &mut Mid(&mut c));
    decl_large(&mut Mid(&mut c));
    for d in 11..=if c.deep { 20 } else { 18 } {
        visit_sigs(&tall_sigs(d), &mut Tall(&mut c));
    }
    c.run()
}
