//! C16: inv() finds the inverse exactly when there is one.
use num::complex::Complex64 as C;
use num::One;
use vharness::tclifford::algebra::NonDegenerate;
use vharness::tclifford::FFTRepr;
use vharness::*;

/// Primes below 2^61; a determinant that vanishes modulo enough of them vanishes.
const PRIMES: [u64; 12] = [
    2305843009213693951, 2305843009213693921, 2305843009213693907, 2305843009213693723, 2305843009213693693, 2305843009213693669,
    2305843009213693613, 2305843009213693561, 2305843009213693549, 2305843009213693487, 2305843009213693421, 2305843009213693373,
];
fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
fn powm(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, p);
        }
        a = mulm(a, a, p);
        e >>= 1;
    }
    r
}
fn singular_mod(rows: &[Vec<i64>], p: u64) -> bool {
    let n = rows.len();
    let mut m: Vec<Vec<u64>> = rows.iter().map(|r| r.iter().map(|x| x.rem_euclid(p as i64) as u64).collect()).collect();
    for c in 0..n {
        let Some(k) = (c..n).find(|i| m[*i][c] != 0) else { return true };
        m.swap(c, k);
        let inv = powm(m[c][c], p - 2, p);
        let piv = m[c].clone();
        for i in c + 1..n {
            if m[i][c] != 0 {
                let f = mulm(m[i][c], inv, p);
                for j in c..n {
                    m[i][j] = (m[i][j] + p - mulm(f, piv[j], p)) % p;
                }
            }
        }
    }
    false
}
/// Whether the integer matrix is singular, exactly: Hadamard's bound says how many primes suffice.
fn singular(rows: &[Vec<i64>]) -> bool {
    let bits: f64 = rows.iter().map(|r| r.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().max(1.).log2() / 2.).sum();
    let need = (bits / 60.99).floor() as usize + 1;
    assert!(need <= PRIMES.len(), "operands too large for the exact oracle");
    PRIMES[..need].iter().all(|p| singular_mod(rows, *p))
}
/// Matrix of left multiplication by `a`; complex elements as real matrices of twice the side.
fn left_matrix(m: &Model, a: &[(i64, i64)]) -> Vec<Vec<i64>> {
    let n = m.n;
    let complex = a.iter().any(|c| c.1 != 0);
    let side = if complex { 2 * n } else { n };
    let mut r = vec![vec![0i64; side]; side];
    for i in 0..n {
        for j in 0..n {
            let s = m.g(i, j) as i64;
            r[i ^ j][j] += s * a[i].0;
            if complex {
                r[n + (i ^ j)][n + j] += s * a[i].0;
                r[n + (i ^ j)][j] += s * a[i].1;
                r[i ^ j][n + j] -= s * a[i].1;
            }
        }
    }
    r
}
fn judge<A: Alg + NonDegenerate>(w: &W, m: &Model, name: &str, a: &[C], invertible: bool) {
    w.case(
        || format!("{name} a={}", show(a)),
        || {
            let f = repr::<A>(a);
            w.state(&fp(a));
            w.trans(1);
            w.count(if invertible { "invertible operands" } else { "zero divisors" }, 1);
            match f.inv() {
                None => ensure(|| "no inverse found for an invertible element".into(), !invertible),
                Some(g) => {
                    ensure(|| "an inverse was returned for a zero divisor".into(), invertible)?;
                    let one = FFTRepr::<A>::one();
                    near("inv(a)*a", &(&g * &f), &one, 1e-7)?;
                    near("a*inv(a)", &(&f * &g), &one, 1e-7)?;
                    let b = g.ifft::<C>().vals(m.n);
                    w.reach(&b);
                    w.trans(2);
                    near_vec("inv(a)*a in the algebra", &m.mul(&b, a), &m.one::<C>(), 1e-7)?;
                    near_vec("a*inv(a) in the algebra", &m.mul(a, &b), &m.one::<C>(), 1e-7)?;
                    near("the inverse represents a multivector", &repr(&b), &g, 1e-7 * cmax(&b))
                }
            }
        },
    );
}
const SCALES: [i32; 8] = [-400, -200, -60, -20, 20, 60, 200, 400];
fn exact<A: Alg + NonDegenerate>(w: &W, m: &Model, a: &[(i64, i64)], scales: bool) {
    let inv = !singular(&left_matrix(m, a));
    let c: Vec<C> = a.iter().map(|x| C::new(x.0 as f64, x.1 as f64)).collect();
    judge::<A>(w, m, "integer operand", &c, inv);
    if scales {
        for e in SCALES {
            let s: Vec<C> = c.iter().map(|x| x * 2f64.powi(e)).collect();
            judge::<A>(w, m, &format!("scaled by 2^{e}"), &s, inv);
        }
    }
}
fn re(v: &[i64]) -> Vec<(i64, i64)> {
    v.iter().map(|x| (*x, 0)).collect()
}
/// alpha E_i + beta E_j is E_i (alpha + beta F) with F^2 = +-1: a zero divisor exactly when
/// alpha^2 = beta^2 F^2.
fn two_terms<A: Alg + NonDegenerate>(w: &W, m: &Model, i: usize, j: usize) {
    let n = m.n;
    // F = E_i^-1 E_j = s E_k with s^2 = 1, so F^2 = E_k^2
    let k = i ^ j;
    let f2 = m.g(k, k);
    for (al, be) in [(C::one(), C::one()), (C::new(2., 0.), C::new(-2., 0.)), (C::one(), C::i()), (C::one(), C::new(2., 0.)), (C::new(1., 1.), C::new(1., -1.)), (C::new(2f64.powi(30), 0.), C::one()), (C::one(), C::new(0., 2f64.powi(-30)))] {
        let mut a = m.zero::<C>();
        a[i] = al;
        a[j] = be;
        let inv = al * al != be * be * f2 as f64;
        judge::<A>(w, m, "two terms", &a, inv);
    }
    let _ = n;
}
fn run<A: Alg + NonDegenerate>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    exact::<A>(w, &m, &vec![(0, 0); n], false);
    for i in 0..n {
        for v in [(1, 0), (0, -1), (2, 3)] {
            exact::<A>(w, &m, &blade_c(n, i, v), m.d <= 4);
        }
        for j in 0..n {
            if i != j {
                two_terms::<A>(w, &m, i, j);
            }
        }
        if w.stopped() {
            return;
        }
    }
    for s in 0..4 {
        let a: Vec<(i64, i64)> = ints(n, s).into_iter().zip(ints(n, s + 90)).collect();
        if m.d <= 5 {
            exact::<A>(w, &m, &a, true);
            exact::<A>(w, &m, &re(&ints(n, s)), true);
        }
    }
    match m.d {
        1 => {
            let vs = list_vecs(&[-3, -2, -1, 0, 1, 2, 3], 4);
            for v in vs {
                exact::<A>(w, &m, &[(v[0], v[1]), (v[2], v[3])], true);
            }
        }
        2 => {
            all_vecs(&[-2, -1, 0, 1, 2, 3], n, |v| exact::<A>(w, &m, &re(v), true));
            let vs = list_vecs(&[-1, 0, 1], 8);
            for v in vs.iter() {
                let a: Vec<(i64, i64)> = (0..4).map(|k| (v[2 * k], v[2 * k + 1])).collect();
                exact::<A>(w, &m, &a, false);
            }
        }
        3 => {
            all_vecs(&[-1, 0, 1], n, |v| exact::<A>(w, &m, &re(v), true));
            all_vecs(&[(0, 0), (1, 0), (0, 1)], n, |v| exact::<A>(w, &m, v, false));
            all_vecs(&[-2, 0, 1, 3], n, |v| exact::<A>(w, &m, &re(v), false));
        }
        4 => {
            let subs = subsets_upto(n, 3);
            for s in subs.iter().filter(|s| s.len() == 3) {
                for c in [[1, 1, 1], [1, -1, 1], [1, 1, -2], [2, 1, 1], [1, 2, -1], [1, 1, 2], [3, 4, 5], [5, 4, 3]] {
                    let mut a = vec![(0, 0); n];
                    for k in 0..3 {
                        a[s[k]] = (c[k], 0);
                    }
                    exact::<A>(w, &m, &a, false);
                }
            }
            all_vecs(&[0, 1], n, |v| exact::<A>(w, &m, &re(v), false));
        }
        5 => {
            let subs = subsets_upto(n, 3);
            for s in subs.iter().filter(|s| s.len() == 3) {
                for c in if w.deep { vec![[1, 1, 1], [1, -1, 2], [2, 1, 1], [3, 4, 5]] } else { vec![[1, 1, 1], [1, -1, 2]] } {
                    let mut a = vec![(0, 0); n];
                    for k in 0..3 {
                        a[s[k]] = (c[k], 0);
                    }
                    exact::<A>(w, &m, &a, false);
                }
            }
        }
        6 if w.deep => {
            for s in subsets_upto(n, 3).iter().filter(|s| s.len() == 3).step_by(4) {
                let mut a = vec![(0, 0); n];
                for k in 0..3 {
                    a[s[k]] = (1, 0);
                }
                exact::<A>(w, &m, &a, false);
                if w.stopped() {
                    return;
                }
            }
        }
        _ => {}
    }
    for s in structured_supports(m.d) {
        exact::<A>(w, &m, &on((0, 0), &re(&ints(n, 1)), &s), false);
        exact::<A>(w, &m, &on((0, 0), &re(&vec![1; n]), &s), false);
    }
    chains::<A>(w, &m);
    // products of vectors are invertible exactly when no factor is a null vector
    let vecs: Vec<Vec<i64>> = if m.d <= 3 { list_vecs(&[-1, 0, 1, 2], m.d) } else { list_vecs(&[0, 1], m.d) };
    let q = |v: &[i64]| -> i64 { v.iter().zip(&m.sig.q).map(|(x, s)| x * x * *s as i64).sum() };
    for u in &vecs {
        for v in &vecs {
            let put = |v: &[i64]| {
                let mut r = m.zero::<C>();
                for (k, x) in v.iter().enumerate() {
                    r[1 << k] = C::new(*x as f64, 0.);
                }
                r
            };
            judge::<A>(w, &m, "product of two vectors", &m.mul(&put(u), &put(v)), q(u) != 0 && q(v) != 0);
        }
    }
}
/// Products of up to d consecutive vectors of a family, rescaled: invertible exactly when no factor
/// is a null vector.
fn chains<A: Alg + NonDegenerate>(w: &W, m: &Model) {
    let d = m.d;
    let fam: Vec<Vec<i64>> = (0..2 * d).map(|k| (0..d).map(|i| if k < d { (i == k) as i64 + (i == (k + 1) % d) as i64 } else { ((i * (k + 3) + k) % 5) as i64 - 2 }).collect()).collect();
    for from in 0..fam.len() {
        let mut a = m.one::<C>();
        let mut inv = true;
        for len in 0..d {
            let v = &fam[(from + len * 3) % fam.len()];
            let q: i64 = v.iter().zip(&m.sig.q).map(|(x, s)| x * x * *s as i64).sum();
            inv &= q != 0;
            let mut b = m.zero::<C>();
            for (k, x) in v.iter().enumerate() {
                b[1 << k] = C::new(*x as f64, 0.);
            }
            a = m.mul(&a, &b);
            judge::<A>(w, m, "product of a chain of vectors", &a, inv);
        }
        if w.stopped() {
            return;
        }
    }
}
fn blade_c(n: usize, i: usize, v: (i64, i64)) -> Vec<(i64, i64)> {
    let mut r = vec![(0, 0); n];
    r[i] = v;
    r
}
fn mid<A: Alg + NonDegenerate>(w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    judge::<A>(w, &m, "zero", &m.zero::<C>(), false);
    chains::<A>(w, &m);
    let fam = blade_family(m.d);
    for &i in &fam {
        for e in [-200, 0, 200] {
            judge::<A>(w, &m, "blade", &blade(n, i, C::new(0., 3. * 2f64.powi(e))), true);
        }
        for &j in &fam {
            if i != j {
                two_terms::<A>(w, &m, i, j);
            }
        }
        if w.stopped() {
            return;
        }
    }
}
/// Tall algebras: the blades of a family and sums of two that follow each other in it.
fn tall<A: Alg + NonDegenerate>(w: &W) {
    let m = Model::of::<A>();
    let fam = blade_family(m.d);
    let step = if m.d <= 11 { 1 } else { 7 };
    judge::<A>(w, &m, "zero", &m.zero::<C>(), false);
    for k in (0..fam.len()).step_by(step) {
        judge::<A>(w, &m, "blade", &blade(m.n, fam[k], C::new(0., 3.)), true);
        two_terms::<A>(w, &m, fam[k], fam[(k + 1) % fam.len()]);
        if w.stopped() {
            return;
        }
    }
    // vectors are invertible when not null
    let v = |f: &dyn Fn(usize) -> f64| {
        let mut r = m.zero::<C>();
        (0..m.d).for_each(|k| r[1 << k] = C::new(f(k), 0.));
        r
    };
    let q = |a: &[C]| -> f64 { (0..m.d).map(|k| a[1 << k].re.powi(2) * m.sig.q[k] as f64).sum() };
    for a in [v(&|_| 1.), v(&|k| k as f64 - 3.), v(&|k| (k % 3) as f64)] {
        judge::<A>(w, &m, "vector", &a, q(&a) != 0.);
    }
}
struct Tall<'a>(&'a mut Check);
impl NdVisitor for Tall<'_> {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str) {
        self.0.alg_task::<A>("tall inverses", sig, 1 << (3 * sig.len()), tall::<A>);
    }
}
struct Small<'a>(&'a mut Check);
impl NdVisitor for Small<'_> {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str) {
        self.0.alg_task::<A>("inverses", sig, 1 << (3 * sig.len()), run::<A>);
    }
}
struct Mid<'a>(&'a mut Check);
impl NdVisitor for Mid<'_> {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str) {
        self.0.alg_task::<A>("large inverses", sig, 1 << (3 * sig.len()), mid::<A>);
    }
}
fn main() {
    let mut c = Check::full("C16");
    c.bounds = "every non-degenerate signature d<=6: every blade, every two-term element with ratios 1, -1, i, 2, 2^30; all small real and complex values (d<=3), all three-term elements (d=4, 5; thorough a quarter of d=6), all {0,1} values (d=4), elements supported on grades or on the blades over a subset of the generators, products of two small vectors and of chains of up to d vectors; values scaled by 2^-400..2^400; d=7, 8 (thorough 9) one signature per (+,-) count: families of blades, two-term elements and products of chains of vectors; three signatures each of d=9..12 (thorough 14): blades, two-term elements, vectors".into();
    c.assume("invertibility is decided exactly: by the determinant of left multiplication modulo enough primes, or in closed form");
    c.assume("both residuals within 1e-7");
    visit_nd_sigs(&nondeg_upto(6), &mut Small(&mut c));
    for d in 7..=(if c.deep { 9 } else { 8 }) {
        let s: Vec<String> = counts(d).into_iter().filter(|s| !s.contains('0')).collect();
        visit_nd_sigs(&s, &mut Mid(&mut c));
    }
    decl_nd_small(&mut Small(&mut c));
    decl_nd_mid(&mut Small(&mut c));
    decl_nd_large(&mut Mid(&mut c));
    for d in 9..=if c.deep { 14 } else { 12 } {
        visit_nd_sigs(&tall_nd(d), &mut Tall(&mut c));
    }
    c.run()
}
