//! C19: the two half-spin matrices are representations of the even subalgebra.
use ndarray::Array2;
use num::complex::Complex64 as C;
use vharness::tclifford::algebra::NonDegenerate;
use vharness::*;

fn even_part(a: &[C]) -> Vec<C> {
    a.iter().enumerate().map(|(i, c)| if word(i).len() % 2 == 0 { *c } else { C::new(0., 0.) }).collect()
}
fn par(i: usize) -> usize {
    word(i).len() % 2
}
/// The block of a full representation selected by the parity of the indices.
fn block(full: &Array2<C>, p: usize) -> Array2<C> {
    let ix: Vec<usize> = (0..full.nrows()).filter(|i| par(*i) == p).collect();
    Array2::from_shape_fn((ix.len(), ix.len()), |(i, j)| full[(ix[i], ix[j])])
}
fn nearm(what: &str, x: &Array2<C>, y: &Array2<C>, tol: f64) -> Result<(), String> {
    ensure(|| format!("{what}: shapes {:?} and {:?}", x.dim(), y.dim()), x.dim() == y.dim())?;
    let d = x.iter().zip(y).fold(0f64, |m, (a, b)| m.max((a - b).norm()));
    ensure(|| format!("{what}: differs by {d:e}"), d <= tol)
}
fn split<A: Alg + NonDegenerate>(a: &[C]) -> (Array2<C>, Array2<C>) {
    repr::<A>(a).into_half_spin_repr()
}
fn one<A: Alg + NonDegenerate>(w: &W, m: &Model, a: &[C]) {
    w.case(
        || format!("a={}", show(a)),
        || {
            let tol = 1e-13 * cmax(a) * m.n as f64;
            let ev = even_part(a);
            let full = repr::<A>(a).into_array2();
            let evfull = repr::<A>(&ev).into_array2();
            let (p, q) = split::<A>(a);
            w.state(&fp(a));
            w.reach(p.as_slice().unwrap_or(&[]));
            w.reach(q.as_slice().unwrap_or(&[]));
            let half = full.nrows() / 2;
            ensure(|| format!("shapes {:?} and {:?}", p.dim(), q.dim()), p.dim() == (half, half) && q.dim() == (half, half))?;
            nearm("even block", &p, &block(&full, 0), tol)?;
            nearm("odd block", &q, &block(&full, 1), tol)?;
            nearm("even block against the even part", &p, &block(&evfull, 0), tol)?;
            nearm("odd block against the even part", &q, &block(&evfull, 1), tol)?;
            w.trans(3);
            // an even multivector has no entries off the blocks; put the pair back together
            let mut re = Array2::<C>::zeros(full.raw_dim());
            let e: Vec<usize> = (0..full.nrows()).filter(|i| par(*i) == 0).collect();
            let o: Vec<usize> = (0..full.nrows()).filter(|i| par(*i) == 1).collect();
            for i in 0..half {
                for j in 0..half {
                    re[(e[i], e[j])] = p[(i, j)];
                    re[(o[i], o[j])] = q[(i, j)];
                }
            }
            nearm("representation of the even part", &re, &evfull, tol)?;
            let back = vharness::tclifford::FFTRepr::<A>::from_array2(re).map_err(|e| format!("{e:?}"))?;
            near_vec("even part recovered from the pair", &back.ifft::<C>().vals(m.n), &ev, tol)
        },
    );
}
fn pair<A: Alg + NonDegenerate>(w: &W, m: &Model, a: &[C], b: &[C]) {
    w.case(
        || format!("even a={} b={}", show(a), show(b)),
        || {
            let p = m.mul(a, b);
            let (s, t, u) = (split::<A>(a), split::<A>(b), split::<A>(&p));
            let tol = 1e-12 * cmax(a) * cmax(b) * m.n as f64;
            w.state(&(fp(a), fp(b)));
            w.reach(&p);
            w.trans(1);
            nearm("even half-spin product", &s.0.dot(&t.0), &u.0, tol)?;
            nearm("odd half-spin product", &s.1.dot(&t.1), &u.1, tol)
        },
    );
}
fn run<A: Alg + NonDegenerate>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    let evens: Vec<usize> = (0..n).filter(|i| par(*i) == 0).collect();
    for e in [-480, -40, 40, 480] {
        one::<A>(w, &m, &at_scale(&cints(n, 5), e));
        if m.d <= 9 {
            pair::<A>(w, &m, &even_part(&at_scale(&cints(n, 5), e)), &even_part(&at_scale(&cints(n, 6), -e / 2)));
        }
    }
    one::<A>(w, &m, &mixed_scale(&cints(n, 5), 15));
    for k in 0..n {
        for v in [C::new(1., 0.), C::new(-3., 2.)] {
            one::<A>(w, &m, &blade(n, k, v));
        }
    }
    for s in 0..4 {
        one::<A>(w, &m, &cints(n, s));
        one::<A>(w, &m, &even_part(&cints(n, s)));
        pair::<A>(w, &m, &even_part(&cints(n, s)), &even_part(&cints(n, s + 9)));
    }
    one::<A>(w, &m, &m.zero::<C>());
    for s in if m.d <= 6 { structured_supports(m.d) } else { grade_supports(m.d) } {
        let v = on(C::new(0., 0.), &cints(n, 1), &s);
        one::<A>(w, &m, &v);
        pair::<A>(w, &m, &even_part(&v), &even_part(&cints(n, 2)));
    }
    if m.d <= 7 {
        for &i in &evens {
            for &j in &evens {
                pair::<A>(w, &m, &blade(n, i, C::new(2., 0.)), &blade(n, j, C::new(0., 3.)));
            }
        }
    }
    match m.d {
        1 | 2 => all_vecs(&[-3, -1, 0, 1, 2], n, |v| one::<A>(w, &m, &cx(v))),
        3 => {
            all_vecs(&[-1, 0, 1], n, |v| one::<A>(w, &m, &cx(v)));
            let vs = list_vecs(&[-1, 0, 2], 4);
            for x in &vs {
                for y in &vs {
                    let put = |v: &[i64]| {
                        let mut r = m.zero::<C>();
                        for (k, c) in evens.iter().zip(v) {
                            r[*k] = C::new(*c as f64, 0.);
                        }
                        r
                    };
                    pair::<A>(w, &m, &put(x), &put(y));
                }
            }
        }
        _ if m.d <= 6 => {
            for s in subsets_upto(n, 2) {
                let mut v = m.zero::<C>();
                for (q, &x) in s.iter().enumerate() {
                    v[x] = C::new(2. + q as f64, -1.);
                }
                one::<A>(w, &m, &v);
            }
        }
        _ => {}
    }
}
fn tall<A: Alg + NonDegenerate>(w: &W) {
    let m = Model::of::<A>();
    one::<A>(w, &m, &cints(m.n, 1));
    let (a, b) = (family_c(m.d, 2), family_c(m.d, 3));
    one::<A>(w, &m, &a);
    if m.d <= 14 {
        pair::<A>(w, &m, &even_part(&a), &even_part(&b));
    }
}
struct Tall<'a>(&'a mut Check);
impl NdVisitor for Tall<'_> {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str) {
        self.0.alg_task::<A>("tall half-spin", sig, 1 << (2 * sig.len()), tall::<A>);
    }
}
struct V<'a>(&'a mut Check);
impl NdVisitor for V<'_> {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str) {
        self.0.alg_task::<A>("half-spin", sig, 1 << (3 * sig.len()), run::<A>);
    }
}
fn main() {
    let mut c = Check::full("C19");
    c.bounds = "every non-degenerate signature d<=6: every blade, all one- and two-term operands, all small values (d<=3), full operands at five scales, operands supported on grades or on the blades over a subset of the generators, all pairs of even blades, all pairs of small even values (d=3); one signature per (+,-) count for d=7..10 (11 thorough): all blades, even blade pairs (d=7), full operands; three signatures each of d=11..18 (thorough 20): full operands and families of blades".into();
    c.assume("agreement within 1e-13 of the operand size times the number of coefficients");
    visit_nd_sigs(&nondeg_upto(6), &mut V(&mut c));
    for d in 7..=(if c.deep { 11 } else { 10 }) {
        let s: Vec<String> = counts(d).into_iter().filter(|s| !s.contains('0')).collect();
        visit_nd_sigs(&s, &mut V(&mut c));
    }
    for d in 11..=if c.deep { 20 } else { 18 } {
        visit_nd_sigs(&tall_nd(d), &mut Tall(&mut c));
    }
    decl_nd_mid(&mut V(&mut c));
    decl_nd_large(&mut V(&mut c));
    c.run()
}
