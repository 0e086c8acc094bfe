//! C13: the matrix representation is an algebra homomorphism.
use num::complex::Complex64 as C;
use num::{One, Zero};
use vharness::tclifford::{FFTRepr, Multivector};
use vharness::*;

fn pair<A: Alg>(w: &W, m: &Model, a: &[C], b: &[C], forms: bool) {
    w.case(
        || format!("a={} b={}", show(a), show(b)),
        || {
            let (f, g) = (repr::<A>(a), repr::<A>(b));
            let (f0, g0) = (f.clone(), g.clone());
            let p = m.mul(a, b);
            w.state(&(fp(a), fp(b)));
            w.reach(&p);
            let tol = 1e-12 * cmax(a) * cmax(b) * m.n as f64;
            let stol = 1e-12 * (cmax(a) + cmax(b)) * m.n as f64;
            let want = repr::<A>(&p);
            let r = &f * &g;
            near("fft(a)*fft(b)", &r, &want, tol)?;
            near_vec("ifft(fft(a)*fft(b))", &r.ifft::<C>().vals(m.n), &p, tol)?;
            let (s, d) = (vadd(a, b), vsub(a, b));
            near("fft(a)+fft(b)", &(&f + &g), &repr(&s), stol)?;
            near("fft(a)-fft(b)", &(&f - &g), &repr(&d), stol)?;
            same_val("fft(a) == fft(b)", f == g, a == b)?;
            same_val("fft(a) != fft(b)", f != g, a != b)?;
            w.trans(5);
            if forms {
                let all = [f.clone() * g.clone(), f.clone() * &g, &f * g.clone()];
                for (k, x) in all.iter().enumerate() {
                    ensure(|| format!("product, form {k}, differs"), dist(x, &r) <= tol)?;
                }
                let (sr, dr) = (&f + &g, &f - &g);
                for (k, x) in [f.clone() + g.clone(), f.clone() + &g, &f + g.clone()].iter().enumerate() {
                    ensure(|| format!("sum, form {k}, differs"), *x == sr)?;
                }
                for (k, x) in [f.clone() - g.clone(), f.clone() - &g, &f - g.clone()].iter().enumerate() {
                    ensure(|| format!("difference, form {k}, differs"), *x == dr)?;
                }
                w.trans(9);
                ensure(|| "an operand was modified".into(), f == f0 && g == g0)?;
            }
            Ok(())
        },
    );
}
fn single<A: Alg>(w: &W, m: &Model, a: &[C]) {
    w.case(
        || format!("one operand {}", show(a)),
        || {
            let f = repr::<A>(a);
            let tol = 1e-12 * cmax(a) * m.n as f64;
            w.state(&fp(a));
            near("-fft(a)", &-&f, &repr(&vneg(a)), tol)?;
            near("-fft(a) owned", &-f.clone(), &repr(&vneg(a)), tol)?;
            w.trans(2);
            for s in [2.0f64, -0.5, 0.0, 3.0] {
                let want = repr::<A>(&vscale(a, &C::new(s, 0.)));
                w.reach(&[s]);
                w.trans(4);
                for (k, x) in [&f * s, f.clone() * s, &f * &s, f.clone() * &s].iter().enumerate() {
                    near(&format!("fft(a)*{s}, form {k}"), x, &want, tol * 4.)?;
                }
                if s != 0.0 {
                    let want = repr::<A>(&vscale(a, &C::new(1. / s, 0.)));
                    w.trans(4);
                    for (k, x) in [&f / s, f.clone() / s, &f / &s, f.clone() / &s].iter().enumerate() {
                        near(&format!("fft(a)/{s}, form {k}"), x, &want, tol * 4.)?;
                    }
                }
            }
            for s in [C::new(0., 1.), C::new(1., -2.), C::new(0., 0.)] {
                let want = repr::<A>(&vscale(a, &s));
                w.trans(4);
                for (k, x) in [&f * s, f.clone() * s, &f * &s, f.clone() * &s].iter().enumerate() {
                    near(&format!("fft(a)*({s}), form {k}"), x, &want, tol * 4.)?;
                }
                if !s.is_zero() {
                    let want = repr::<A>(&vscale(a, &(C::new(1., 0.) / s)));
                    w.trans(4);
                    for (k, x) in [&f / s, f.clone() / s, &f / &s, f.clone() / &s].iter().enumerate() {
                        near(&format!("fft(a)/({s}), form {k}"), x, &want, tol * 4.)?;
                    }
                }
            }
            // one and the same object on both sides
            w.trans(4);
            let stol = tol * cmax(a);
            near("fft(a)*fft(a)", &(&f * &f), &repr(&m.mul(a, a)), stol)?;
            near("fft(a)+fft(a)", &(&f + &f), &repr(&vadd(a, a)), tol)?;
            ensure(|| "fft(a)-fft(a) is not zero".into(), (&f - &f).is_zero())?;
            same_val("fft(a) == fft(a)", f == f, true)?;
            w.trans(6);
            same_val("is_zero", f.is_zero(), a.iter().all(|c| c.is_zero()))?;
            same_val("fft(a) == one", f == FFTRepr::one(), a == m.one::<C>())?;
            same_val("clone", f.clone() == f, true)?;
            near("fft(a)*1", &(&f * FFTRepr::one()), &f, tol)?;
            near("1*fft(a)", &(FFTRepr::one() * &f), &f, tol)?;
            ensure(|| "fft(a)*0 is not zero".into(), (&f * FFTRepr::zero()).is_zero())?;
            near("fft(a)+0", &(&f + FFTRepr::zero()), &f, tol)
        },
    );
}
fn consts<A: Alg>(w: &W, m: &Model) {
    w.case(
        || "zero, one and the basis".into(),
        || {
            w.state(&"consts");
            w.trans(3);
            ensure(|| "zero".into(), FFTRepr::<A>::zero() == repr(&m.zero::<C>()) && FFTRepr::<A>::zero().is_zero())?;
            ensure(|| "one".into(), FFTRepr::<A>::one() == repr(&m.one::<C>()) && !FFTRepr::<A>::one().is_zero() && FFTRepr::<A>::one().is_one())?;
            if m.d <= 10 {
                let e = A::basis_fft::<C>();
                same_val("size of the basis", e.len(), m.d)?;
                for (k, x) in e.iter().enumerate() {
                    w.trans(1);
                    near(&format!("basis[{k}]"), x, &repr(&blade(m.n, 1 << k, C::new(1., 0.))), 1e-14)?;
                    let q = m.sig.q[k] as f64;
                    near(&format!("basis[{k}] squared"), &(x * x), &(FFTRepr::one() * q), 1e-13)?;
                    for (l, y) in e.iter().enumerate().skip(k + 1) {
                        near(&format!("anticommutator of {k} and {l}"), &(x * y), &-(y * x), 1e-13)?;
                    }
                }
            }
            Ok(())
        },
    );
}
/// Approximate equality compares entries with the precision.
fn approx<A: Alg>(w: &W, m: &Model) {
    w.case(
        || "approx_eq".into(),
        || {
            let f = repr::<A>(&cints(m.n, 3));
            for ((a, i, j), _) in f.view().indexed_iter() {
                for d in [C::new(0.25, 0.), C::new(0., -0.25), C::new(3., 4.)] {
                    let mut arr = f.clone().into_array3();
                    arr[(a, i, j)] += d;
                    let g = FFTRepr::<A>::from_array3(arr).unwrap();
                    for p in [0.1f64, 0.26, 4.9, 5.1] {
                        w.trans(2);
                        w.state(&(a, i, j, p.to_bits()));
                        let want = d.norm() < p;
                        same_val("approx_eq", f.approx_eq(&g, p), want)?;
                        same_val("approx_eq swapped", g.approx_eq(&f, p), want)?;
                    }
                    same_val("==", f == g, false)?;
                }
            }
            ensure(|| "not near itself".into(), f.approx_eq(&f, 1e-300))
        },
    );
}
fn run<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    let i = C::new(0., 1.);
    consts::<A>(w, &m);
    if m.d <= 4 {
        approx::<A>(w, &m);
    }
    for a in 0..n {
        single::<A>(w, &m, &blade(n, a, C::new(2., 0.)));
        single::<A>(w, &m, &blade(n, a, C::new(1., 0.)));
        for b in 0..n {
            pair::<A>(w, &m, &blade(n, a, C::new(2., 0.)), &blade(n, b, C::new(-3., 0.)), m.d <= 3);
            if m.d <= 4 {
                pair::<A>(w, &m, &blade(n, a, i), &blade(n, b, C::new(1., 2.)), false);
            }
            if w.stopped() {
                return;
            }
        }
        pair::<A>(w, &m, &blade(n, a, i), &cints(n, 1), true);
        pair::<A>(w, &m, &cints(n, 1), &blade(n, a, C::new(2., 0.)), true);
    }
    for s in 0..3 {
        pair::<A>(w, &m, &cints(n, s), &cints(n, s + 10), true);
        pair::<A>(w, &m, &cints(n, s), &cints(n, s), true);
        pair::<A>(w, &m, &cx(&ints(n, s)), &cx(&ints(n, s + 20)), true);
        single::<A>(w, &m, &cints(n, s));
    }
    for (x, y) in [(-480, -480), (-480, 480), (-40, -40), (-40, 20), (40, -40), (60, 60), (480, -480), (480, 480)] {
        pair::<A>(w, &m, &at_scale(&cints(n, 5), x), &at_scale(&cints(n, 6), y), false);
        single::<A>(w, &m, &at_scale(&cints(n, 5), x));
    }
    pair::<A>(w, &m, &mixed_scale(&cints(n, 5), 15), &mixed_scale(&cints(n, 6), -15), false);
    single::<A>(w, &m, &m.zero::<C>());
    let part = |salt: usize, s: &[usize]| on(C::new(0., 0.), &cints(n, salt), s);
    for s in grade_supports(m.d) {
        for t in grade_supports(m.d) {
            pair::<A>(w, &m, &part(1, &s), &part(2, &t), false);
        }
    }
    for s in structured_supports(m.d) {
        single::<A>(w, &m, &part(3, &s));
        pair::<A>(w, &m, &part(3, &s), &cints(n, 4), false);
        pair::<A>(w, &m, &cints(n, 4), &part(3, &s), false);
        pair::<A>(w, &m, &part(3, &s), &part(3, &s), false);
    }
    match m.d {
        1 => {
            let vs = list_vecs(&[-2, -1, 0, 1, 3], n);
            for a in &vs {
                single::<A>(w, &m, &cx(a));
                for b in &vs {
                    pair::<A>(w, &m, &cx(a), &cx(b), true);
                }
            }
        }
        2 => {
            let vs = list_vecs(&[-1, 0, 1, 2], n);
            for a in &vs {
                single::<A>(w, &m, &cx(a));
                for b in &vs {
                    pair::<A>(w, &m, &cx(a), &cx(b), false);
                }
            }
        }
        3 => {
            let us = list_vecs(if w.deep { &[-1, 0, 1] } else { &[0, 1] }, n);
            let vs = list_vecs(&[0, 1], n);
            for a in &us {
                single::<A>(w, &m, &cx(a));
                for b in &vs {
                    pair::<A>(w, &m, &cx(a), &cx(b), false);
                }
                if w.stopped() {
                    return;
                }
            }
        }
        _ => {}
    }
}
fn mid<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    consts::<A>(w, &m);
    pair::<A>(w, &m, &cints(n, 1), &cints(n, 2), true);
    pair::<A>(w, &m, &cx(&ints(n, 1)), &cx(&ints(n, 2)), false);
    single::<A>(w, &m, &cints(n, 4));
    let gens: Vec<usize> = (0..m.d).map(|i| 1 << i).chain([n - 1, n / 2 - 1]).collect();
    for &g in &gens {
        for b in (0..n).step_by(if m.d >= 8 && !w.deep { 5 } else { 1 }) {
            pair::<A>(w, &m, &blade(n, g, C::new(2., 0.)), &blade(n, b, C::new(0., 1.)), false);
            pair::<A>(w, &m, &blade(n, b, C::new(2., 0.)), &blade(n, g, C::new(0., 1.)), false);
        }
    }
}
/// Tall algebras: one product of two families decides all pairs of their blades.
fn tall<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let (a, b) = (family_c(m.d, 1), family_c(m.d, 2));
    let v = on(C::new(0., 0.), &a, &(0..m.d).map(|k| 1 << k).collect::<Vec<_>>());
    let full = cints(m.n, 3);
    pair::<A>(w, &m, &a, &b, false);
    pair::<A>(w, &m, &v, &full, true);
    pair::<A>(w, &m, &full, &v, false);
    if m.d <= 12 {
        pair::<A>(w, &m, &full, &cints(m.n, 4), false);
    }
    single::<A>(w, &m, &a);
}
struct Tall<'a>(&'a mut Check);
impl Visitor for Tall<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("tall products", sig, 1 << (3 * sig.len()), tall::<A>);
    }
}
/// Blades of a commutative-coefficient product computed by the library on the multivector side.
fn against_mul<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    w.case(
        || "representation against the library's own product".into(),
        || {
            let (a, b) = (Multivector::<f64, A>::new(&ints(m.n, 1).iter().map(|x| *x as f64).collect::<Vec<_>>()), Multivector::<f64, A>::new(&ints(m.n, 2).iter().map(|x| *x as f64).collect::<Vec<_>>()));
            let p = &a * &b;
            let q: Multivector<f64, A> = (a.fft() * b.fft()).ifft();
            w.trans(1);
            for i in 0..m.n {
                let (x, y) = (p.get_by_idx(i), q.get_by_idx(i));
                ensure(|| format!("coefficient {i:#b}: {y}, should be {x}"), (x - y).abs() <= 1e-9)?;
            }
            Ok(())
        },
    );
}
struct Small<'a>(&'a mut Check);
impl Visitor for Small<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("products and sums", sig, 1 << (3 * sig.len()), |w| {
            run::<A>(w);
            against_mul::<A>(w);
        });
    }
}
struct Mid<'a>(&'a mut Check);
impl Visitor for Mid<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("large products", sig, 1 << (3 * sig.len()), mid::<A>);
    }
}
fn main() {
    let mut c = Check::full("C13");
    c.bounds = "every signature d<=6: all pairs of blades, blades with full operands, full real and complex operands, full operands at scales from 2^-480 to 2^480, pairs of operands supported on grades or, with a full one, on the blades over a subset of the generators, all small values (d<=2; d=3 over {0,1}, thorough {-1,0,1} with {0,1}), every owned/borrowed form, scalars real and complex; one signature per (+,-,0) count for d=7, every third of d=8 and fifth of d=9 (thorough all): generators with blades and full operands; seven signatures each of d=10..14 (thorough 16): products of families of blades, of vectors and full operands".into();
    c.assume("small integer coefficients, agreement within 1e-12 of the product of the operand sizes");
    visit_sigs(&legal_upto(6), &mut Small(&mut c));
    decl_mid(&mut Small(&mut c));
    let (k8, k9) = if c.deep { (1, 1) } else { (3, 5) };
    visit_sigs(&counts(7), &mut Mid(&mut c));
    visit_sigs(&counts(8).into_iter().step_by(k8).collect::<Vec<_>>(), &mut Mid(&mut c));
    visit_sigs(&counts(9).into_iter().step_by(k9).collect::<Vec<_>>(), &mut Mid(&mut c));
    for d in 10..=if c.deep { 16 } else { 14 } {
        // only null generators: the product runs through 3^d pairs of blades
        let top = if c.deep { 15 } else { 13 };
        let s: Vec<String> = tall_sigs(d).into_iter().filter(|s| d <= top || s.contains(['+', '-'])).collect();
        visit_sigs(&s, &mut Tall(&mut c));
    }
    c.run()
}
