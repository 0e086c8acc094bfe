//! C14: involutions, trace and magnitude of a representation match the multivector's.
use num::complex::Complex64 as C;
use vharness::*;

fn one<A: Alg>(w: &W, m: &Model, a: &[C]) {
    w.case(
        || format!("a={}", show(a)),
        || {
            let f = repr::<A>(a);
            let f0 = f.clone();
            let full = m.n - 1;
            let side = f.shape().1 as f64;
            w.state(&fp(a));
            let tol = 1e-13 * cmax(a) * m.n as f64;
            let (r, l) = (m.rev(a), m.flip(a, full));
            w.reach(&r);
            w.reach(&l);
            near("rev of the representation", &f.rev(), &repr(&r), tol)?;
            near_vec("ifft of the reversal", &f.rev().ifft::<C>().vals(m.n), &r, tol)?;
            near("flip of the representation", &f.flip(), &repr(&l), tol)?;
            near_vec("ifft of the flip", &f.flip().ifft::<C>().vals(m.n), &l, tol)?;
            near("rev twice", &f.rev().rev(), &f, tol)?;
            near("flip twice", &f.flip().flip(), &f, tol)?;
            near_c("trace", f.trace(), a[0] * side, tol * side)?;
            near_c("ntrace", f.ntrace(), a[0], tol)?;
            let mut q = C::new(0., 0.);
            for i in 0..m.n {
                q += r[i] * a[i] * m.g(i, i) as f64;
            }
            near_c("mag2", f.mag2(), q, tol * cmax(a) * m.n as f64)?;
            w.trans(9);
            ensure(|| "the representation was modified".into(), f == f0)
        },
    );
}
fn run<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    for k in 0..n {
        for v in [C::new(1., 0.), C::new(0., 1.), C::new(-3., 2.)] {
            one::<A>(w, &m, &blade(n, k, v));
        }
    }
    for s in 0..6 {
        one::<A>(w, &m, &cints(n, s));
        one::<A>(w, &m, &cx(&ints(n, s)));
        for e in [-480, -100, -40, 40, 100, 480] {
            one::<A>(w, &m, &at_scale(&cints(n, s), e));
        }
        one::<A>(w, &m, &mixed_scale(&cints(n, s), 15));
    }
    one::<A>(w, &m, &m.zero::<C>());
    for s in structured_supports(m.d) {
        one::<A>(w, &m, &on(C::new(0., 0.), &cints(n, 1), &s));
    }
    match m.d {
        1 => all_vecs(&[-5, -2, -1, 0, 1, 2, 5, 7], n, |v| one::<A>(w, &m, &cx(v))),
        2 => all_vecs(&[-3, -1, 0, 1, 2], n, |v| one::<A>(w, &m, &cx(v))),
        3 => all_vecs(&[-1, 0, 1], n, |v| one::<A>(w, &m, &cx(v))),
        4 => all_vecs(&[0, 1], n, |v| one::<A>(w, &m, &cx(v))),
        _ => {
            for s in subsets_upto(n, if w.deep && m.d == 5 { 3 } else { 2 }) {
                let mut v = vec![C::new(0., 0.); n];
                for (q, &x) in s.iter().enumerate() {
                    v[x] = C::new(2. + q as f64, -1.);
                }
                one::<A>(w, &m, &v);
            }
        }
    }
}
fn mid<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    for s in 0..3 {
        one::<A>(w, &m, &cints(m.n, s));
    }
    for s in grade_supports(m.d) {
        one::<A>(w, &m, &on(C::new(0., 0.), &cints(m.n, 1), &s));
    }
    for k in 0..m.n {
        one::<A>(w, &m, &blade(m.n, k, C::new(2., -1.)));
    }
}
fn tall<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    one::<A>(w, &m, &cints(m.n, 1));
    one::<A>(w, &m, &family_c(m.d, 2));
    if m.d <= 12 {
        for k in blade_family(m.d) {
            one::<A>(w, &m, &blade(m.n, k, C::new(2., -1.)));
        }
    }
}
struct Tall<'a>(&'a mut Check);
impl Visitor for Tall<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("tall involutions and trace", sig, 1 << (3 * sig.len()), tall::<A>);
    }
}
struct Small<'a>(&'a mut Check);
impl Visitor for Small<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("involutions and trace", sig, 1 << (2 * sig.len()), run::<A>);
    }
}
struct Mid<'a>(&'a mut Check);
impl Visitor for Mid<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("large involutions and trace", sig, 1 << (2 * sig.len()), mid::<A>);
    }
}
fn main() {
    let mut c = Check::full("C14");
    c.bounds = "every signature d<=6: every blade with real, imaginary and complex coefficients, full operands at seven scales up to 2^480 and down to 2^-480, one with coefficients of different sizes, all small values (d<=3; d=4 over {0,1}), all one- and two-term operands (d=5, 6; thorough three-term too for d=5), operands supported on grades or on the blades over a subset of the generators; one signature per (+,-,0) count for d=7..9 (thorough: d=10): blades, full operands, grades; seven signatures each of d=10..16 (thorough 18): full operands and families of blades".into();
    c.assume("agreement within 1e-13 of the operand size times the number of coefficients");
    visit_sigs(&legal_upto(6), &mut Small(&mut c));
    decl_mid(&mut Small(&mut c));
    visit_sigs(&counts(7), &mut Mid(&mut c));
    visit_sigs(&counts(8), &mut Mid(&mut c));
    visit_sigs(&counts(9), &mut Mid(&mut c));
    if c.deep {
        visit_sigs(&counts(10), &mut Mid(&mut c));
    }
    decl_large(&mut Mid(&mut c));
    for d in 10..=if c.deep { 18 } else { 16 } {
        // only null generators: the product runs through 3^d pairs of blades
        let top = if c.deep { 16 } else { 14 };
        let s: Vec<String> = tall_sigs(d).into_iter().filter(|s| d <= top || s.contains(['+', '-'])).collect();
        visit_sigs(&s, &mut Tall(&mut c));
    }
    c.run()
}
