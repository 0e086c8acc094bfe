//! C17: integer powers equal repeated multiplication.
use num::complex::Complex64 as C;
use vharness::tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use vharness::tclifford::types::DivRing;
use vharness::tclifford::{FFTRepr, Multivector, SparseMultivector};
use vharness::*;

/// Powers 0..=top of one value.
fn powers<T: Co, M: Mv<T>>(w: &W, m: &Model, a: &[T], top: usize) {
    w.case(
        || format!("{} powers 0..={top} of {}", M::ST, show(a)),
        || {
            let x = M::new(a);
            let mut want = m.one::<T>();
            w.state(&(M::ST, std::any::type_name::<T>(), fp(a)));
            for k in 0..=top {
                same(&format!("pow({k})"), &x.pow_(k), &want)?;
                w.reach(&want);
                if k < top {
                    want = m.mul(&want, a);
                }
            }
            same("operand afterwards", &x, a)
        },
    );
}
fn both<T: Co, A: Alg>(w: &W, m: &Model, a: &[T], top: usize) {
    powers::<T, Multivector<T, A>>(w, m, a, top);
    powers::<T, SparseMultivector<T, A>>(w, m, a, top);
}
/// Exponents up to the largest, none of which a narrower integer type can hold or tell apart.
const HUGE: [usize; 20] = [
    usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) + 5, (1 << 62) - 1, (1 << 53) + 1, (1 << 48) + 3, (1 << 40) + 7, (1 << 33) - 1, (1 << 32) + 5, (1 << 32) + 2, 1 << 32, (1 << 32) - 1, (1 << 31) + 3,
    1 << 31, 65537, 65536, 65535, 257, 256,
];
/// Square and multiply over a commutative ring, independent of the library.
fn modpow(c: Zp, mut k: usize) -> Zp {
    let (mut r, mut b) = (Zn(1), c);
    while k > 0 {
        if k % 2 == 1 {
            r = r * b;
        }
        b = b * b;
        k /= 2;
    }
    r
}
/// Large exponents of c*blade: c^k by modular arithmetic, the blade's own power has period 4.
fn large<A: Alg>(w: &W, m: &Model, blades: &[usize]) {
    for &i in blades {
        w.case(
            || format!("large powers of blade {i:#b}"),
            || {
                let a = blade(m.n, i, Zn(7));
                let (x, y) = (Multivector::<Zp, A>::new(&a), SparseMultivector::<Zp, A>::new(&a));
                w.state(&i);
                for k in HUGE {
                    let c = modpow(Zn(7), k);
                    let s = match m.g(i, i) {
                        1 => c,
                        -1 => if k / 2 % 2 == 0 { c } else { -c },
                        _ => Zn(0),
                    };
                    let want = blade(m.n, if k % 2 == 0 { 0 } else { i }, if i == 0 { c } else { s });
                    same(&format!("pow({k})"), &x.pow_(k), &want)?;
                    same(&format!("pow({k})"), &y.pow_(k), &want)?;
                    w.trans(2);
                }
                Ok(())
            },
        );
    }
}
/// Large exponents of full elements: squarings of the model.
fn large_full<A: Alg>(w: &W, m: &Model, a: &[Zp]) {
    w.case(
        || format!("large powers of {}", show(a)),
        || {
            let (x, y) = (Multivector::<Zp, A>::new(a), SparseMultivector::<Zp, A>::new(a));
            w.state(&("large", fp(a)));
            let mut sq = vec![a.to_vec()];
            for k in 1..64 {
                sq.push(m.mul(&sq[k - 1], &sq[k - 1]));
            }
            for k in HUGE {
                let want = (0..64).filter(|b| k >> b & 1 == 1).fold(m.one::<Zp>(), |r, b| m.mul(&r, &sq[b]));
                w.reach(&want);
                same(&format!("pow({k})"), &x.pow_(k), &want)?;
                same(&format!("pow({k})"), &y.pow_(k), &want)?;
            }
            Ok(())
        },
    );
}
/// Large exponents of representations, judged where the result is known to good precision:
/// unit blades, c*blade with c next to one, and 1 + N with N*N = 0.
fn fft_large<A: Alg>(w: &W, m: &Model, blades: &[usize]) {
    let n = m.n;
    let judge = |what: String, f: &FFTRepr<A>, k: usize, want: &FFTRepr<A>, tol: f64| {
        w.case(
            || format!("representation pow({k}) of {what}"),
            || {
                w.state(&(&what, k));
                let p = f.pow(k);
                w.reach(p.view().as_slice().unwrap_or(&[]));
                w.trans(1);
                near("power", &p, want, tol)
            },
        );
    };
    for &i in blades {
        let q = m.g(i, i);
        for k in HUGE {
            // (i B)^k
            let s = match (q, k % 4) {
                (0, _) => C::new(0., 0.),
                (_, 0) => C::new(1., 0.),
                (1, 1) | (-1, 1) => C::new(0., 1.),
                (1, 2) => C::new(-1., 0.),
                (1, _) => C::new(0., -1.),
                (_, 2) => C::new(1., 0.),
                _ => C::new(0., 1.),
            };
            let s = if i == 0 { [C::new(1., 0.), C::new(0., 1.), C::new(-1., 0.), C::new(0., -1.)][k % 4] } else { s };
            let at = if k % 2 == 0 { 0 } else { i };
            judge(format!("i times blade {i:#b}"), &repr(&blade(n, i, C::new(0., 1.))), k, &repr(&blade(n, at, s)), 1e-9);
            // c B with c^k near e
            if k <= (1 << 40) + 7 && q != 0 {
                let c = 1. + 1. / k as f64;
                let v = ((c - 1.).ln_1p() * k as f64).exp();
                let v = if q == -1 && i != 0 && k / 2 % 2 == 1 { -v } else { v };
                judge(format!("(1+1/{k}) times blade {i:#b}"), &repr(&blade(n, i, C::new(c, 0.))), k, &repr(&blade(n, at, C::new(v, 0.))), 1e-12 + 1e-14 * k as f64);
            }
            // 1 + N
            if q == 0 {
                let mut a = m.one::<C>();
                a[i] = C::new(0.5, 0.);
                let mut b = m.one::<C>();
                b[i] = C::new(0.5 * k as f64, 0.);
                judge(format!("1 + half of blade {i:#b}"), &repr(&a), k, &repr(&b), 1e-13 * k as f64);
            }
        }
        if w.stopped() {
            return;
        }
    }
    // every matrix unit off the diagonal, where every matrix represents something
    let nn = m.d - m.sig.nulls();
    if nn % 2 == 0 && m.d <= 4 {
        let (wc, side, _) = repr::<A>(&m.one::<C>()).shape();
        for i in 0..side {
            for j in 0..side {
                for a in 0..wc {
                    if i != j {
                        let mk = |x: f64| {
                            let mut arr = FFTRepr::<A>::from_array3(repr::<A>(&m.one::<C>()).into_array3()).unwrap().into_array3();
                            arr[(a, i, j)] += C::new(x, 0.);
                            FFTRepr::<A>::from_array3(arr).unwrap()
                        };
                        for k in HUGE {
                            judge(format!("1 + matrix unit {a} {i} {j}"), &mk(1.), k, &mk(k as f64), 1e-13 * k as f64);
                        }
                    }
                }
            }
        }
    }
}
fn fft_powers<A: Alg>(w: &W, m: &Model, a: &[C], top: usize) {
    w.case(
        || format!("representation powers 0..={top} of {}", show(a)),
        || {
            let f = repr::<A>(a);
            let f0 = f.clone();
            let mut want = m.one::<C>();
            let mut size = 1f64;
            let s1: f64 = a.iter().map(|c| c.norm()).sum::<f64>();
            w.state(&("fft", fp(a)));
            for k in 0..=top {
                let tol = 1e-12 * size * (1 + k) as f64;
                let p = f.pow(k);
                near(&format!("pow({k})"), &p, &repr(&want), tol)?;
                near_vec(&format!("pow({k})"), &p.ifft::<C>().vals(m.n), &want, tol)?;
                w.reach(&want);
                want = m.mul(&want, a);
                size *= s1;
            }
            ensure(|| "operand modified".into(), f == f0)
        },
    );
}
fn run<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    // generic elements: non-commuting unknowns
    let top = [0, 5, 5, 4, 3, 2, 2][m.d];
    let g = syms(n, 0);
    both::<Sym, A>(w, &m, &g, top);
    for i in 0..n {
        both::<Sym, A>(w, &m, &blade(n, i, Sym::var(3)), 5);
        both::<Zp, A>(w, &m, &blade(n, i, Zn(7)), 40);
    }
    if m.d <= 4 {
        for s in subsets_upto(n, 2).iter().filter(|s| s.len() == 2) {
            let mut a = vec![Sym(vec![]); n];
            a[s[0]] = Sym::var(1);
            a[s[1]] = Sym::var(2);
            both::<Sym, A>(w, &m, &a, 5);
        }
    }
    let (top, big) = match m.d {
        1..=3 => (if w.deep { 300 } else { 130 }, 40),
        4 => (if w.deep { 130 } else { 66 }, 20),
        5 => (if w.deep { 66 } else { 33 }, 10),
        _ => (if w.deep { 33 } else { 17 }, 4),
    };
    for s in 0..2 {
        both::<Zp, A>(w, &m, &spread_zp(n, s), top);
        let v = cints(n, s as usize + 3);
        let l1: f64 = v.iter().map(|c| c.norm()).sum();
        fft_powers::<A>(w, &m, &v.iter().map(|c| c / l1).collect::<Vec<_>>(), top);
        fft_powers::<A>(w, &m, &v, 6);
        for e in [-120, -30, 30, 120] {
            fft_powers::<A>(w, &m, &at_scale(&v, e), 6);
        }
        type Q = Quaternion<Zp>;
        let q: Vec<Q> = ints(4 * n, s as usize).chunks(4).map(|c| Q::new(&c.iter().map(|x| Zp::new(*x)).collect::<Vec<_>>())).collect();
        both::<Q, A>(w, &m, &q, big);
    }
    for s in structured_supports(m.d) {
        both::<Zp, A>(w, &m, &on(Zn(0), &spread_zp(n, 1), &s), if m.d <= 4 { 13 } else { 6 });
        fft_powers::<A>(w, &m, &on(C::new(0., 0.), &cints(n, 1), &s), 5);
    }
    for i in 0..n {
        fft_powers::<A>(w, &m, &blade(n, i, C::new(0., 1.)), 40);
    }
    match m.d {
        1 => {
            all_vecs(&z4_alphabet(), n, |v| both::<Z4, A>(w, &m, v, 20));
            all_vecs(&[-3, -2, -1, 0, 1, 2, 3], n, |v| fft_powers::<A>(w, &m, &cx(v), 9));
        }
        2 => {
            all_vecs(&z4_alphabet(), n, |v| both::<Z4, A>(w, &m, v, 16));
            all_vecs(&[-1, 0, 1, 2], n, |v| fft_powers::<A>(w, &m, &cx(v), 7));
        }
        3 => {
            all_vecs(&[Zn(0), Zn(1), Zn(2)], n, |v| both::<Z3, A>(w, &m, v, 9));
            all_vecs(&[0, 1], n, |v| fft_powers::<A>(w, &m, &cx(v), 5));
        }
        _ => {}
    }
    if m.d <= 3 {
        large_full::<A>(w, &m, &spread_zp(n, 5));
        for v in [1u64, 2] {
            large_full::<A>(w, &m, &vec![Zn(v); n]);
        }
    }
    let all: Vec<usize> = if m.d <= 4 { (0..n).collect() } else { blade_family(m.d) };
    large::<A>(w, &m, &all);
    fft_large::<A>(w, &m, &all);
}
fn mid<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let top = if m.d == 7 { 5 } else { 3 };
    both::<Zp, A>(w, &m, &spread_zp(m.n, 1), top);
    let v = cints(m.n, 3);
    fft_powers::<A>(w, &m, &v, top);
    for i in blade_family(m.d) {
        both::<Zp, A>(w, &m, &blade(m.n, i, Zn(3)), 11);
        fft_powers::<A>(w, &m, &blade(m.n, i, C::new(0., 1.)), 5);
    }
}
/// Tall algebras: first powers of a family of blades, large powers of single ones.
fn tall<A: Alg>(w: &W) {
    let m = Model::of::<A>();
    let a = family_c(m.d, 1);
    let l1: f64 = a.iter().map(|c| c.norm()).sum();
    fft_powers::<A>(w, &m, &a.iter().map(|c| c / l1).collect::<Vec<_>>(), 2);
    powers::<Zp, SparseMultivector<Zp, A>>(w, &m, &family_zp(m.d, 1), 2);
    let fam = blade_family(m.d);
    for i in fam.iter().step_by(5) {
        fft_powers::<A>(w, &m, &blade(m.n, *i, C::new(0., 1.)), 5);
        powers::<Zp, SparseMultivector<Zp, A>>(w, &m, &blade(m.n, *i, Zn(3)), 11);
    }
}
struct Tall<'a>(&'a mut Check);
impl Visitor for Tall<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("tall powers", sig, 1 << (3 * sig.len()), tall::<A>);
    }
}
fn quats<T: Co + DivRing + Copy>(w: &W, al: &[T], top: usize) {
    let m = Model::of::<QuaternionAlgebra>();
    all_vecs(al, 4, |v| powers::<T, Quaternion<T>>(w, &m, v, top));
}
struct Small<'a>(&'a mut Check);
impl Visitor for Small<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("powers", sig, 1 << (3 * sig.len()), run::<A>);
    }
}
struct Mid<'a>(&'a mut Check);
impl Visitor for Mid<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("large powers", sig, 1 << (3 * sig.len()), mid::<A>);
    }
}
fn main() {
    let mut c = Check::full("C17");
    c.bounds = "every signature d<=6: generic non-commuting elements (exponents to 5, 4, 3, 2 as d grows), full elements over a prime field with every exponent to 130 (d<=3), 66, 33, 17 (thorough 300, 130, 66, 33), quaternion coefficients, every blade to exponent 40 and, d<=3, chosen exponents up to the largest; all values over Z/4 (d<=2) and Z/3 (d=3); elements supported on grades or on the blades over a subset of the generators; the same for representations, full ones at five scales; d=7 and every third of d=8 (thorough all) one signature per (+,-,0) count: full elements to exponent 5 or 3 and families of blades; 20 exponents up to the largest for every blade d<=4 and families of them beyond, full elements d<=3, and representations of blades, of 1+N with N null and of 1 plus a matrix unit; seven signatures each of d=9..12 (thorough 13): families of blades".into();
    c.assume("powers of representations agree within 1e-12 of the power of the coefficient sum");
    let _ = FFTRepr::<Dy>::pow;
    visit_sigs(&legal_upto(6), &mut Small(&mut c));
    decl_small(&mut Small(&mut c));
    let k = if c.deep { 1 } else { 3 };
    visit_sigs(&counts(7), &mut Mid(&mut c));
    visit_sigs(&counts(8).into_iter().step_by(k).collect::<Vec<_>>(), &mut Mid(&mut c));
    for d in 9..=if c.deep { 13 } else { 12 } {
        let s: Vec<String> = tall_sigs(d).into_iter().filter(|s| d <= 11 || s.contains(['+', '-'])).collect();
        visit_sigs(&s, &mut Tall(&mut c));
    }
    c.task("quaternion powers over Z/4", 1000, |w| quats::<Z4>(w, &z4_alphabet(), 20));
    c.task("quaternion powers over Z/3", 1000, |w| quats::<Z3>(w, &[Zn(0), Zn(1), Zn(2)], 30));
    c.task("quaternion powers over integers", 1000, |w| quats::<i64>(w, &[-2, -1, 0, 1, 3], 9));
    c.run()
}
