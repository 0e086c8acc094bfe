//! Exhaustive operand spaces shared by the checks of unary and binary operations.
use crate::algs::Alg;
use crate::engine::{fp, W};
use crate::enumr::*;
use crate::model::*;
use crate::mv::*;
use crate::rings::*;
use tclifford::quaternion::Quaternion;
use tclifford::{Multivector, SparseMultivector};

/// What to check about one pair of operands; `ra`, `rb` are the coefficients they hold.
pub trait Bin: Sync + Copy {
    fn pair<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, b: &M, ra: &[T], rb: &[T]) -> Result<(), String>;
}
/// What to check about one operand.
pub trait Un: Sync + Copy {
    fn one<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, ra: &[T]) -> Result<(), String>;
}

pub fn pair_case<T: Co, M: Mv<T>, C: Bin>(c: C, w: &W, m: &Model, key: (&'static str, u64, u64), a: &[T], b: &[T]) -> bool {
    w.case(
        || format!("{} operands, {}: a={} b={}", M::ST, key.0, show(a), show(b)),
        || {
            let (ia, ib) = (M::new(a), M::new(b));
            let (ra, rb) = (ia.vals(m.n), ib.vals(m.n));
            w.state(&(M::ST, std::any::type_name::<T>(), fp(&ra), fp(&rb)));
            c.pair(w, m, &ia, &ib, &ra, &rb)?;
            if ra == rb {
                // one and the same object on both sides
                c.pair(w, m, &ia, &ia, &ra, &ra).map_err(|e| format!("one object as both operands: {e}"))?;
            }
            same("left operand afterwards", &ia, &ra)?;
            same("right operand afterwards", &ib, &rb)
        },
    )
}
pub fn one_case<T: Co, M: Mv<T>, C: Un>(c: C, w: &W, m: &Model, key: (&'static str, u64), a: &[T]) -> bool {
    w.case(
        || format!("{} operand, {}: a={}", M::ST, key.0, show(a)),
        || {
            let ia = M::new(a);
            let ra = ia.vals(m.n);
            w.state(&(M::ST, std::any::type_name::<T>(), fp(&ra)));
            c.one(w, m, &ia, &ra)?;
            same("operand afterwards", &ia, &ra)
        },
    )
}
pub fn show<T: Co>(a: &[T]) -> String {
    let v: Vec<String> = a.iter().enumerate().filter(|(_, c)| !c.is_zero()).take(6).map(|(i, c)| format!("{i:b}:{c:?}")).collect();
    let k = a.iter().filter(|c| !c.is_zero()).count();
    if k > 6 { format!("{{{},.. {k} terms}}", v.join(" ")) } else { format!("{{{}}}", v.join(" ")) }
}
pub fn syms(n: usize, from: usize) -> Vec<Sym> {
    (0..n).map(|i| Sym::var(from + i)).collect()
}
pub fn spread_zp(n: usize, salt: u64) -> Vec<Zp> {
    (0..n).map(|i| Zn(1 + spread(salt * 100_003 + i as u64) % 2305843009213693950)).collect()
}
fn sub_syms(n: usize, support: &[usize], from: usize) -> Vec<Sym> {
    let mut v = vec![Sym(vec![]); n];
    for &i in support {
        v[i] = Sym::var(from + i);
    }
    v
}
fn bits_syms(n: usize, s: usize, from: usize) -> Vec<Sym> {
    (0..n).map(|i| if s >> i & 1 == 1 { Sym::var(from + i) } else { Sym(vec![]) }).collect()
}

/// Supports made of grades: each grade, all but it, the even and the odd ones, the lower ones.
pub fn grade_supports(d: usize) -> Vec<Vec<usize>> {
    let n = 1usize << d;
    let of = |f: &dyn Fn(usize) -> bool| (0..n).filter(|i| f(i.count_ones() as usize)).collect::<Vec<_>>();
    let mut r = vec![of(&|g| g % 2 == 0), of(&|g| g % 2 == 1)];
    for k in 0..=d {
        r.extend([of(&|g| g == k), of(&|g| g != k), of(&|g| g <= k)]);
    }
    let mut seen = std::collections::HashSet::new();
    r.retain(|x| !x.is_empty() && seen.insert(x.clone()));
    r
}
/// The blades over a subset of the generators.
pub fn mask_support(d: usize, mask: usize) -> Vec<usize> {
    (0..1usize << d).filter(|i| i & !mask == 0).collect()
}
/// Both kinds of support, each once.
pub fn structured_supports(d: usize) -> Vec<Vec<usize>> {
    let mut r = grade_supports(d);
    r.extend((0..1usize << d).map(|m| mask_support(d, m)));
    let mut seen = std::collections::HashSet::new();
    r.retain(|x| seen.insert(x.clone()));
    r
}
/// The entries of `v` on a support, zero elsewhere.
pub fn on<T: Clone>(zero: T, v: &[T], s: &[usize]) -> Vec<T> {
    let mut r = vec![zero; v.len()];
    s.iter().for_each(|&i| r[i] = v[i].clone());
    r
}
/// Pairs of such supports: grades with grades, each subset of generators with itself, the
/// others, all and the vectors.
fn structured(d: usize) -> Vec<(Vec<usize>, Vec<usize>)> {
    let g = grade_supports(d);
    let mut r: Vec<_> = g.iter().flat_map(|x| g.iter().map(move |y| (x.clone(), y.clone()))).collect();
    let all = (1usize << d) - 1;
    let vectors: Vec<usize> = (0..d).map(|k| 1 << k).collect();
    for m in 0..=all {
        let x = mask_support(d, m);
        for y in [x.clone(), mask_support(d, all & !m), mask_support(d, all), vectors.clone()] {
            r.push((x.clone(), y.clone()));
            r.push((y, x.clone()));
        }
    }
    let mut seen = std::collections::HashSet::new();
    r.retain(|x| seen.insert(x.clone()));
    r
}
/// Coefficient one, its negative and a zero divisor on blades and on full operands.
fn plain_values<M: Mv<Z4>, C: Bin>(c: C, w: &W, m: &Model) {
    let n = m.n;
    let v = [Zn(1), Zn(2), Zn(3)];
    for (i, x) in v.iter().enumerate() {
        for (j, y) in v.iter().enumerate() {
            pair_case::<Z4, M, C>(c, w, m, ("constant", i as u64, j as u64), &vec![x.clone(); n], &vec![y.clone(); n]);
            if m.d > if w.quick { 4 } else { 5 } {
                continue;
            }
            for a in 0..n {
                for b in 0..n {
                    let k = ("blade values", (i * n + a) as u64, (j * n + b) as u64);
                    pair_case::<Z4, M, C>(c, w, m, k, &blade(n, a, x.clone()), &blade(n, b, y.clone()));
                }
                if w.stopped() {
                    return;
                }
            }
        }
    }
}

/// Symbolic pairs: full-support generic operands, all pairs of blades, all pairs of supports
/// (d <= 2; d = 3 too), pairs of supports with few entries in larger dimensions.
pub fn sym_pairs<A: Alg, M: Mv<Sym>, C: Bin>(c: C, w: &W, m: &Model) {
    let n = m.n;
    pair_case::<Sym, M, C>(c, w, m, ("generic", 0, 0), &syms(n, 0), &syms(n, n));
    // squares of a generic element: both operands share coefficients
    pair_case::<Sym, M, C>(c, w, m, ("square", 0, 0), &syms(n, 0), &syms(n, 0));
    for i in 0..n {
        for j in 0..n {
            pair_case::<Sym, M, C>(c, w, m, ("blades", i as u64, j as u64), &blade(n, i, Sym::var(0)), &blade(n, j, Sym::var(1)));
        }
    }
    for i in 0..n {
        pair_case::<Sym, M, C>(c, w, m, ("blade*generic", i as u64, 0), &blade(n, i, Sym::var(0)), &syms(n, n));
        pair_case::<Sym, M, C>(c, w, m, ("generic*blade", i as u64, 0), &syms(n, n), &blade(n, i, Sym::var(0)));
    }
    // squares of operands with few terms; all of them are squared below when d is small
    for (k, x) in subsets_upto(n, if m.d <= 4 && !w.quick { 3 } else { 2 }).iter().enumerate() {
        let a = sub_syms(n, x, 0);
        pair_case::<Sym, M, C>(c, w, m, ("square", k as u64, 0), &a, &a);
        if w.stopped() {
            return;
        }
    }
    if m.d >= 3 {
        for (k, (x, y)) in structured(m.d).iter().enumerate() {
            if m.d == 6 && w.quick && k % 4 != 0 {
                continue;
            }
            pair_case::<Sym, M, C>(c, w, m, ("structured", k as u64, 0), &sub_syms(n, x, 0), &sub_syms(n, y, n));
            if w.stopped() {
                return;
            }
        }
    }
    let full = if w.quick { 2 } else { 3 };
    if m.d <= full {
        for s in 0..1usize << n {
            for t in 0..1usize << n {
                pair_case::<Sym, M, C>(c, w, m, ("supports", s as u64, t as u64), &bits_syms(n, s, 0), &bits_syms(n, t, n));
            }
        }
    } else if m.d <= if w.deep { 5 } else { 4 } {
        let k = if m.d == 3 { 2 } else if w.quick { 1 } else { 2 };
        let subs = subsets_upto(n, k);
        for (s, x) in subs.iter().enumerate() {
            for (t, y) in subs.iter().enumerate() {
                pair_case::<Sym, M, C>(c, w, m, ("small supports", s as u64, t as u64), &sub_syms(n, x, 0), &sub_syms(n, y, n));
            }
        }
    }
    // one coefficient left out of an otherwise full operand
    if m.d <= 5 {
        for i in 0..n {
            let mut a = syms(n, 0);
            a[i] = Sym(vec![]);
            pair_case::<Sym, M, C>(c, w, m, ("left hole", i as u64, 0), &a, &syms(n, n));
            pair_case::<Sym, M, C>(c, w, m, ("right hole", i as u64, 0), &syms(n, n), &a);
        }
    }
}

/// Value pairs over a finite alphabet.
pub fn val_pairs<T: Co, M: Mv<T>, C: Bin>(c: C, w: &W, m: &Model, tag: &'static str, alphabet: &[T]) {
    let vs = list_vecs(alphabet, m.n);
    for (i, a) in vs.iter().enumerate() {
        for (j, b) in vs.iter().enumerate() {
            if !pair_case::<T, M, C>(c, w, m, (tag, i as u64, j as u64), a, b) && w.stopped() {
                return;
            }
        }
    }
}

/// The standard pair exploration of one algebra of dimension at most 6, dense and sparse.
pub fn std_pairs<A: Alg, C: Bin>(c: C, w: &W) {
    let m = Model::of::<A>();
    sym_pairs::<A, Multivector<Sym, A>, C>(c, w, &m);
    sym_pairs::<A, SparseMultivector<Sym, A>, C>(c, w, &m);
    plain_values::<Multivector<Z4, A>, C>(c, w, &m);
    plain_values::<SparseMultivector<Z4, A>, C>(c, w, &m);
}
pub fn z4_alphabet() -> Vec<Z4> {
    (0..4).map(|i| Zn(i)).collect()
}
/// All pairs of values of one algebra of dimension at most 2: the ring Z/4 (zero divisors).
pub fn std_vals<A: Alg, C: Bin>(c: C, w: &W) {
    let m = Model::of::<A>();
    let al: Vec<Z4> = if w.quick && m.d == 2 { vec![Zn(0), Zn(2), Zn(3)] } else { z4_alphabet() };
    val_pairs::<Z4, Multivector<Z4, A>, C>(c, w, &m, "Z/4 values", &al);
    val_pairs::<Z4, SparseMultivector<Z4, A>, C>(c, w, &m, "Z/4 values", &al);
    let al: Vec<i64> = if m.d == 1 { (-4..=4).collect() } else { vec![-1, 0, 1] };
    val_pairs::<i64, Multivector<i64, A>, C>(c, w, &m, "integer values", &al);
    val_pairs::<i64, SparseMultivector<i64, A>, C>(c, w, &m, "integer values", &al);
}
/// Larger dimensions: all blade pairs (over i64 entries 1 and -2) and full-support operands over
/// a large prime field.
pub fn mid_pairs<A: Alg, C: Bin>(c: C, w: &W, blades: bool) {
    let m = Model::of::<A>();
    let n = m.n;
    pair_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("full", 0, 0), &spread_zp(n, 1), &spread_zp(n, 2));
    pair_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("square", 0, 0), &spread_zp(n, 1), &spread_zp(n, 1));
    if m.d <= 8 {
        pair_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("full", 0, 0), &spread_zp(n, 1), &spread_zp(n, 2));
    }
    let part = |s: &[usize], salt: u64| {
        let mut v = vec![Zn(0); n];
        let full = spread_zp(n, salt);
        s.iter().for_each(|&i| v[i] = full[i].clone());
        v
    };
    let g: Vec<_> = grade_supports(m.d).into_iter().filter(|s| s.len() * 8 <= n || !w.quick && m.d <= 8).collect();
    for (i, x) in g.iter().enumerate() {
        for (j, y) in g.iter().enumerate() {
            if x.len() * y.len() <= if w.quick { 1 << 12 } else { 1 << 14 } {
                pair_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("grades", i as u64, j as u64), &part(x, 1), &part(y, 2));
                pair_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("grades", i as u64, j as u64), &part(x, 1), &part(y, 2));
            }
        }
    }
    if blades {
        for i in 0..n {
            for j in 0..n {
                pair_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("blades", i as u64, j as u64), &blade(n, i, Zn(1)), &blade(n, j, Zn(2)));
                if w.stopped() {
                    return;
                }
            }
        }
    }
}
/// The quaternion storage: all pairs over small alphabets.
pub fn quat_pairs<C: Bin>(c: C, w: &W) {
    let m = Model::new(&Sig::new("--"));
    val_pairs::<i64, Quaternion<i64>, C>(c, w, &m, "integer values", if w.quick { &[-1, 0, 2] } else { &[-2, -1, 0, 1, 2] });
    val_pairs::<Z4, Quaternion<Z4>, C>(c, w, &m, "Z/4 values", if w.quick { &[Zn(0), Zn(1), Zn(2)] } else { &[Zn(0), Zn(1), Zn(2), Zn(3)] });
    pair_case::<Zp, Quaternion<Zp>, C>(c, w, &m, ("full", 0, 0), &spread_zp(4, 1), &spread_zp(4, 2));
}
/// Nested coefficients: multivectors and quaternions as the coefficients of multivectors.
pub fn nested_pairs<A: Alg, B: Alg, C: Bin>(c: C, w: &W) {
    let m = Model::of::<A>();
    type Q = Quaternion<i64>;
    let nb = 1usize << B::sig().len();
    let mk = |salt: u64| -> Vec<Multivector<Sym, B>> {
        (0..m.n).map(|i| Multivector::<Sym, B>::new(&blade(nb, (i * 5 + salt as usize) % nb, Sym::var(i + m.n * salt as usize)))).collect()
    };
    pair_case::<Multivector<Sym, B>, Multivector<Multivector<Sym, B>, A>, C>(c, w, &m, ("nested", 0, 0), &mk(0), &mk(1));
    pair_case::<Multivector<Sym, B>, SparseMultivector<Multivector<Sym, B>, A>, C>(c, w, &m, ("nested", 0, 1), &mk(0), &mk(1));
    let q = |salt: i64| -> Vec<Q> {
        (0..m.n).map(|i| Q::from_pairs(&[(0, i as i64 + salt), (1, 2), (2, i as i64 - 1), (3, salt)])).collect()
    };
    pair_case::<Q, Multivector<Q, A>, C>(c, w, &m, ("quaternion coefficients", 0, 0), &q(1), &q(-3));
    pair_case::<Q, SparseMultivector<Q, A>, C>(c, w, &m, ("quaternion coefficients", 0, 1), &q(1), &q(-3));
    for i in 0..m.n {
        for j in 0..m.n {
            let units = [Q::i(), Q::j(), Q::k(), Q::one_()];
            for (x, u) in units.iter().enumerate() {
                for (y, v) in units.iter().enumerate() {
                    let k = ("quaternion blades", (i * 4 + x) as u64, (j * 4 + y) as u64);
                    pair_case::<Q, Multivector<Q, A>, C>(c, w, &m, k, &blade(m.n, i, *u), &blade(m.n, j, *v));
                    if w.stopped() {
                        return;
                    }
                }
            }
        }
    }
}

/// Symbolic single operands: generic, all blades, all supports (d <= 3; d = 4 in the thorough
/// tier), supports with at most two or three entries otherwise.
pub fn sym_ones<A: Alg, M: Mv<Sym>, C: Un>(c: C, w: &W, m: &Model) {
    let n = m.n;
    one_case::<Sym, M, C>(c, w, m, ("generic", 0), &syms(n, 0));
    for i in 0..n {
        one_case::<Sym, M, C>(c, w, m, ("blade", i as u64), &blade(n, i, Sym::var(0)));
        let mut a = syms(n, 0);
        a[i] = Sym(vec![]);
        one_case::<Sym, M, C>(c, w, m, ("hole", i as u64), &a);
    }
    for (k, s) in grade_supports(m.d).into_iter().chain((0..n).map(|k| mask_support(m.d, k))).enumerate() {
        one_case::<Sym, M, C>(c, w, m, ("structured", k as u64), &sub_syms(n, &s, 0));
    }
    if m.d <= 3 || (m.d == 4 && !w.quick) {
        for s in 0..1usize << n {
            one_case::<Sym, M, C>(c, w, m, ("support", s as u64), &bits_syms(n, s, 0));
            if w.stopped() {
                return;
            }
        }
    } else {
        for (k, s) in subsets_upto(n, if m.d == 4 { 3 } else { 2 }).iter().enumerate() {
            one_case::<Sym, M, C>(c, w, m, ("small support", k as u64), &sub_syms(n, s, 0));
            if w.stopped() {
                return;
            }
        }
    }
}
pub fn std_ones<A: Alg, C: Un>(c: C, w: &W) {
    let m = Model::of::<A>();
    sym_ones::<A, Multivector<Sym, A>, C>(c, w, &m);
    sym_ones::<A, SparseMultivector<Sym, A>, C>(c, w, &m);
}
pub fn val_ones<T: Co, M: Mv<T>, C: Un>(c: C, w: &W, m: &Model, tag: &'static str, alphabet: &[T]) {
    let mut k = 0;
    all_vecs(alphabet, m.n, |v| {
        if !w.stopped() {
            one_case::<T, M, C>(c, w, m, (tag, k), v);
            k += 1;
        }
    });
}
pub fn std_val_ones<A: Alg, C: Un>(c: C, w: &W) {
    let m = Model::of::<A>();
    if m.d <= 2 {
        val_ones::<Z4, Multivector<Z4, A>, C>(c, w, &m, "Z/4 values", &z4_alphabet());
        val_ones::<Z4, SparseMultivector<Z4, A>, C>(c, w, &m, "Z/4 values", &z4_alphabet());
        val_ones::<i64, Multivector<i64, A>, C>(c, w, &m, "integer values", &[-2, -1, 0, 1, 3]);
    } else {
        val_ones::<Z4, Multivector<Z4, A>, C>(c, w, &m, "Z/4 values", &[Zn(0), Zn(2), Zn(3)]);
        val_ones::<Z4, SparseMultivector<Z4, A>, C>(c, w, &m, "Z/4 values", &[Zn(0), Zn(2), Zn(3)]);
        val_ones::<i64, Multivector<i64, A>, C>(c, w, &m, "integer values", &[-1, 0, 1]);
    }
}
pub fn mid_ones<A: Alg, C: Un>(c: C, w: &W) {
    let m = Model::of::<A>();
    let n = m.n;
    one_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("full", 0), &spread_zp(n, 1));
    one_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("full", 1), &spread_zp(n, 1));
    for (k, s) in grade_supports(m.d).into_iter().chain((1..=m.d).map(|k| mask_support(m.d, (1 << k) - 1))).enumerate() {
        let mut v = vec![Zn(0); n];
        let full = spread_zp(n, 1);
        s.iter().for_each(|&i| v[i] = full[i].clone());
        one_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("structured", k as u64), &v);
        one_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("structured", k as u64), &v);
    }
    for i in 0..n {
        one_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("blade", i as u64), &blade(n, i, Zn(2)));
        one_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("blade", i as u64), &blade(n, i, Zn(2)));
    }
}
/// The structured family of blades with distinct coefficients: one element holding them all.
pub fn family_zp(d: usize, salt: u64) -> Vec<Zp> {
    on(Zn(0), &spread_zp(1 << d, salt), &blade_family(d))
}
/// Tall algebras: full operands as far as the quadratic products go, then families of blades.
pub fn tall_pairs<A: Alg, C: Bin>(c: C, w: &W) {
    let m = Model::of::<A>();
    if m.d <= 12 {
        pair_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("full", 0, 0), &spread_zp(m.n, 1), &spread_zp(m.n, 2));
    }
    let (a, b) = (family_zp(m.d, 1), family_zp(m.d, 2));
    let (x, y) = (on(Zn(0), &a, &(0..m.d).map(|k| 1 << k).collect::<Vec<_>>()), spread_zp(m.n, 3));
    if m.d <= 12 {
        pair_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("families", 0, 0), &a, &b);
    }
    pair_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("families", 0, 1), &a, &b);
    pair_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("vectors and full", 0, 0), &x, &y);
    pair_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("vectors and full", 0, 1), &y, &x);
}
pub fn tall_ones<A: Alg, C: Un>(c: C, w: &W) {
    let m = Model::of::<A>();
    one_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("full", 0), &spread_zp(m.n, 1));
    if m.d <= 16 {
        one_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("full", 1), &spread_zp(m.n, 1));
    }
    one_case::<Zp, Multivector<Zp, A>, C>(c, w, &m, ("family", 0), &family_zp(m.d, 1));
    one_case::<Zp, SparseMultivector<Zp, A>, C>(c, w, &m, ("family", 1), &family_zp(m.d, 1));
}
pub fn quat_ones<C: Un>(c: C, w: &W) {
    let m = Model::new(&Sig::new("--"));
    val_ones::<i64, Quaternion<i64>, C>(c, w, &m, "integer values", &[-3, -2, -1, 0, 1, 2, 5]);
    val_ones::<Z4, Quaternion<Z4>, C>(c, w, &m, "Z/4 values", &z4_alphabet());
    one_case::<Zp, Quaternion<Zp>, C>(c, w, &m, ("full", 0), &spread_zp(4, 1));
}

/// Registers the standard pair tasks of a check.
pub struct PairTasks<'a, C: Bin + Send + 'static> {
    pub check: &'a mut crate::engine::Check,
    pub c: C,
    pub kind: Kind,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Std,
    Vals,
    Mid,
    MidBlades,
    Tall,
}
impl<C: Bin + Send + 'static> crate::algs::Visitor for PairTasks<'_, C> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let (c, d) = (self.c, sig.len());
        match self.kind {
            Kind::Std => self.check.alg_task::<A>("symbolic pairs", sig, 1 << (3 * d), move |w| std_pairs::<A, C>(c, w)),
            Kind::Vals => self.check.alg_task::<A>("value pairs", sig, 1 << (8 * d), move |w| std_vals::<A, C>(c, w)),
            Kind::Mid => self.check.alg_task::<A>("large pairs", sig, 1 << (3 * d), move |w| mid_pairs::<A, C>(c, w, false)),
            Kind::Tall => self.check.alg_task::<A>("tall pairs", sig, 1 << (3 * d), move |w| tall_pairs::<A, C>(c, w)),
            Kind::MidBlades => self.check.alg_task::<A>("large pairs", sig, 1 << (4 * d), move |w| mid_pairs::<A, C>(c, w, true)),
        }
    }
}
pub struct OneTasks<'a, C: Un + Send + 'static> {
    pub check: &'a mut crate::engine::Check,
    pub c: C,
    pub kind: Kind,
}
impl<C: Un + Send + 'static> crate::algs::Visitor for OneTasks<'_, C> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let (c, d) = (self.c, sig.len());
        match self.kind {
            Kind::Std => self.check.alg_task::<A>("symbolic operands", sig, 1 << (3 * d), move |w| std_ones::<A, C>(c, w)),
            Kind::Vals => self.check.alg_task::<A>("operand values", sig, 1 << (6 * d), move |w| std_val_ones::<A, C>(c, w)),
            Kind::Tall => self.check.alg_task::<A>("tall operands", sig, 1 << (3 * d), move |w| tall_ones::<A, C>(c, w)),
            _ => self.check.alg_task::<A>("large operands", sig, 1 << (3 * d), move |w| mid_ones::<A, C>(c, w)),
        }
    }
}
pub fn add_pairs<C: Bin + Send + 'static>(check: &mut crate::engine::Check, c: C) {
    use crate::algs::*;
    let quick = check.quick;
    let mut v = PairTasks { check, c, kind: Kind::Std };
    visit_sigs(&legal_upto(6), &mut v);
    decl_mid(&mut v);
    v.kind = Kind::Vals;
    visit_sigs(&legal_upto(2), &mut v);
    v.kind = if quick { Kind::Mid } else { Kind::MidBlades };
    visit_sigs(&counts(7), &mut v);
    visit_sigs(&counts(8), &mut v);
    v.kind = Kind::Mid;
    visit_sigs(&counts(9), &mut v);
    visit_sigs(&counts(10)[..if quick { 4 } else { 66 }], &mut v);
    v.kind = Kind::Tall;
    for d in 11..=if v.check.deep { 16 } else { 14 } {
        visit_sigs(&tall_sigs(d), &mut v);
    }
    check.task("quaternion pairs", 1 << 20, move |w| quat_pairs(c, w));
    check.task("nested Cl[+-] over Cl[++0]", 1 << 20, move |w| nested_pairs::<A_ppz, A_pm, C>(c, w));
    check.task("nested Cl[++-] over Cl[--]", 1 << 20, move |w| nested_pairs::<A_mm, A_ppm, C>(c, w));
}
pub fn add_ones<C: Un + Send + 'static>(check: &mut crate::engine::Check, c: C) {
    use crate::algs::*;
    let quick = check.quick;
    let mut v = OneTasks { check, c, kind: Kind::Std };
    visit_sigs(&legal_upto(6), &mut v);
    decl_mid(&mut v);
    v.kind = Kind::Vals;
    visit_sigs(&legal_upto(3), &mut v);
    v.kind = Kind::Mid;
    for d in 7..=10 {
        let s = counts(d);
        let k = if quick && d >= 8 { s.len() / (11 - d) } else { 1 };
        visit_sigs(&s.into_iter().step_by(k.max(1)).collect::<Vec<_>>(), &mut v);
    }
    v.kind = Kind::Tall;
    for d in 11..=if v.check.deep { 20 } else { 18 } {
        visit_sigs(&tall_sigs(d), &mut v);
    }
    check.task("quaternion operands", 1 << 20, move |w| quat_ones(c, w));
}
/// Signatures of algebras whose elements still fit in memory but not all of whose blade pairs
/// can be run through: without and with one, many and only null generators.
pub fn tall_sigs(d: usize) -> Vec<String> {
    let half: String = (0..d - d / 2).map(|i| if i % 3 == 1 { '-' } else { '+' }).collect();
    let nd: String = (0..d).map(|i| if (i * 5 / 3) % 2 == 0 { '-' } else { '+' }).collect();
    vec!["+".repeat(d), "-".repeat(d), nd, crate::algs::mixed(d), "+".repeat(d - 1) + "0", half + &"0".repeat(d / 2), "0".repeat(d)]
}
/// Signatures for structured blades in algebras too large to enumerate.
pub fn big_sigs() -> Vec<String> {
    let mut r = vec![];
    for d in 11..=63usize {
        r.push(crate::algs::mixed(d));
        if d % 4 == 0 || d >= 61 || (30..35).contains(&d) {
            r.push("-".repeat(d));
            r.push("+".repeat(d - 1) + "0");
        }
    }
    r
}
