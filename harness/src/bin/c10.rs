//! C10: grade projections, filters and enumerations select exactly what they say.
use std::collections::HashSet;
use vharness::tclifford::quaternion::Quaternion;
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

fn choose(n: usize, k: usize) -> u128 {
    if k > n {
        return 0;
    }
    (0..k as u128).fold(1, |a, i| a * (n as u128 - i) / (i + 1))
}
/// Everything said by a list of (index, coefficient) pairs for the selected indices.
fn entries<T: Co>(what: &str, mut e: Vec<(usize, T)>, a: &[T], sel: impl Fn(usize) -> bool) -> Result<(), String> {
    e.sort_by_key(|p| p.0);
    ensure(|| format!("{what}: an index is yielded twice: {e:?}"), e.windows(2).all(|w| w[0].0 != w[1].0))?;
    // zero coefficients may or may not be listed
    for (i, c) in &e {
        ensure(|| format!("{what}: yields index {i:#b} which is not selected"), *i < a.len() && sel(*i))?;
        ensure(|| format!("{what}: coefficient {i:#b} is {c:?}, should be {:?}", a[*i]), *c == a[*i])?;
    }
    e.retain(|p| !p.1.is_zero());
    let nz = (0..a.len()).filter(|&i| sel(i) && !a[i].is_zero()).count();
    same_val(&format!("{what}: number of non-zero entries"), e.len(), nz)
}
fn only<T: Co>(a: &[T], sel: impl Fn(usize) -> bool) -> Vec<T> {
    a.iter().enumerate().map(|(i, c)| if sel(i) { c.clone() } else { T::zero() }).collect()
}
#[derive(Clone, Copy)]
struct Grades;
impl Un for Grades {
    fn one<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, ra: &[T]) -> Result<(), String> {
        entries("coeff_enumerate", a.entries(), ra, |_| true)?;
        w.trans(3);
        let mut sum = M::zero_();
        for g in 0..=m.d + 2 {
            entries(&format!("grade_enumerate({g})"), a.grade_entries(g), ra, |i| word(i).len() == g)?;
            let x = a.grade_(g);
            let want = m.grade(ra, g);
            w.reach(&want);
            w.trans(1);
            same(&format!("grade_extract({g})"), &x, &want)?;
            entries(&format!("coeff_enumerate of grade {g}"), x.entries(), &want, |_| true)?;
            same(&format!("grade {g} of grade {g}"), &x.grade_(g), &want)?;
            if g > 0 {
                ensure(|| format!("grade {} of grade {g} is not zero", g - 1), x.grade_(g - 1).is_zero_())?;
            }
            sum = sum.add_(&x);
        }
        same("the sum of all grade parts", &sum, ra)?;
        same_val("scalar_part", a.scalar_part_(), ra[0].clone())?;
        same_val("extract_vector", a.vector_(), (0..m.d).map(|i| ra[1 << i].clone()).collect())
    }
}
fn preds<T: Co>(n: usize, i: usize, c: &T, k: usize) -> bool {
    match k {
        0 => true,
        1 => false,
        2 => i & 1 == 0,
        3 => i & 1 == 1,
        4 => i < n / 2,
        5 => word(i).len() % 2 == 0,
        6 => *c == T::one(),
        _ => *c != T::one() && i != 0,
    }
}
/// The storage-specific filters.
fn filters<T: Co, A: Alg>(w: &W, m: &Model, a: &[T]) {
    w.case(
        || format!("filters of {}", show(a)),
        || {
            let (d, s) = (Multivector::<T, A>::new(a), SparseMultivector::<T, A>::new(a));
            w.state(&fp(a));
            for k in 0..8 {
                let want = only(a, |i| !a[i].is_zero() && preds(m.n, i, &a[i], k));
                w.reach(&want);
                w.trans(4);
                let f = d.filter(|i, c| preds(m.n, i, c, k));
                same(&format!("dense filter {k}"), &f, &want)?;
                // the predicate is asked exactly once about every non-zero coefficient
                let mut asked = vec![];
                let f = s.clone().filtered(|i, c| {
                    asked.push((*i, c.clone()));
                    preds(m.n, *i, c, k)
                });
                asked.sort_by_key(|p| p.0);
                let nz: Vec<(usize, T)> = a.iter().cloned().enumerate().filter(|p| !p.1.is_zero()).collect();
                same_val("coefficients shown to the predicate", asked, nz)?;
                same(&format!("sparse filtered {k}"), &f, &want)?;
                same_val("entries", f.coeff_count(), want.iter().filter(|c| !c.is_zero()).count())?;
                let mut g = s.clone();
                g.filter_inplace(|i, c| preds(m.n, *i, c, k));
                ensure(|| format!("filter_inplace {k} differs from filtered"), f == g)?;
                ensure(|| format!("dense and sparse filter {k} differ"), f.to_dense() == Multivector::<T, A>::new(&want))?;
            }
            // all sets of grades, with repetitions and absent grades
            for mask in 0..1usize << (m.d + 2).min(6) {
                let mut gs: Vec<usize> = (0..=m.d + 1).filter(|g| mask >> g & 1 == 1).collect();
                let want = only(a, |i| gs.contains(&word(i).len()));
                w.reach(&want);
                w.trans(1);
                same(&format!("grades_extract({gs:?})"), &s.grades_extract(&gs), &want)?;
                let mut r = s.clone();
                r.retain_grades(&gs);
                same(&format!("retain_grades({gs:?})"), &r, &want)?;
                gs.reverse();
                if let Some(&g) = gs.first() {
                    gs.push(g);
                    gs.push(1000);
                    gs.push(usize::MAX);
                }
                same(&format!("grades_extract({gs:?})"), &s.grades_extract(&gs), &want)?;
            }
            for g in 0..=m.d + 1 {
                let want = m.grade(a, g);
                let x: SparseMultivector<T, A> = d.grade_extract_as(g);
                let y: Multivector<T, A> = s.grade_extract_as(g);
                w.trans(2);
                same("grade_extract_as sparse", &x, &want)?;
                same("grade_extract_as dense", &y, &want)?;
                same_val("entries", x.coeff_count(), want.iter().filter(|c| !c.is_zero()).count())?;
            }
            same("dense operand afterwards", &d, a)?;
            same("sparse operand afterwards", &s, a)
        },
    );
}
/// The blade indices of an algebra of any size that can be listed.
fn indices<A: Alg>(w: &W, sig: &str) {
    let d = sig.len();
    if d <= 22 {
        w.case(
            || "index_iter".into(),
            || {
                w.state(&d);
                w.trans(1);
                let mut v = vec![false; 1 << d];
                for i in A::index_iter() {
                    ensure(|| format!("index {i:#b} repeated or out of range"), i < v.len() && !v[i])?;
                    v[i] = true;
                }
                ensure(|| "an index is missing".into(), v.iter().all(|x| *x))
            },
        );
    }
    for g in (0..=d + 2).chain([64, 65, 1000, usize::MAX]) {
        // very large grades are left to the ends of the range
        let total = choose(d, g);
        if total > 3_000_000 {
            w.case(
                || format!("the first indices of grade {g}"),
                || {
                    w.state(&(d, g));
                    w.trans(1);
                    let mut seen = HashSet::new();
                    for i in A::grade_index_iter(g).take(200_000) {
                        ensure(|| format!("index {i:#b}"), i >> d == 0 && i.count_ones() as usize == g && seen.insert(i))?;
                    }
                    same_val("number of indices", seen.len(), 200_000)
                },
            );
            continue;
        }
        w.case(
            || format!("grade_index_iter({g})"),
            || {
                w.state(&(d, g));
                w.trans(1);
                let mut seen = HashSet::new();
                for i in A::grade_index_iter(g) {
                    ensure(|| format!("index {i:#b} is not of grade {g} in the algebra"), i >> d == 0 && i.count_ones() as usize == g)?;
                    ensure(|| format!("index {i:#b} is repeated"), seen.insert(i))?;
                }
                same_val("number of indices", seen.len() as u128, total)?;
                // stopped and resumed, the iterator stays where it was
                let mut it = A::grade_index_iter(g);
                let first: Vec<usize> = it.by_ref().take(2).collect();
                let rest = it.count();
                same_val("indices after a pause", (first.len() + rest) as u128, total)?;
                let mut it = A::grade_index_iter(g);
                while it.next().is_some() {}
                ensure(|| "an exhausted iterator yields more".into(), it.next().is_none() && it.next().is_none())
            },
        );
        if w.stopped() {
            return;
        }
    }
}
struct Ix<'a>(&'a mut Check);
impl Visitor for Ix<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let s = sig.to_string();
        self.0.alg_task::<A>("blade indices", sig, 1 << sig.len().min(24), move |w| indices::<A>(w, &s));
    }
}
struct Filt<'a>(&'a mut Check);
impl Visitor for Filt<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let d = sig.len();
        self.0.alg_task::<A>("filters", sig, 1 << (4 * d.min(6)), move |w| {
            let m = Model::of::<A>();
            if d <= 3 {
                let al: &[i64] = if d == 3 && w.quick { &[0, 1] } else if d == 3 { &[0, 1, -2] } else { &[0, 1, -2, 5] };
                all_vecs(al, m.n, |v| filters::<i64, A>(w, &m, v));
            } else {
                for s in subsets_upto(m.n, if d == 4 { 2 } else { 1 }) {
                    let mut v = vec![0i64; m.n];
                    for (k, &i) in s.iter().enumerate() {
                        v[i] = 1 - 3 * k as i64;
                    }
                    filters::<i64, A>(w, &m, &v);
                }
                for s in 0..4 {
                    filters::<i64, A>(w, &m, &(0..m.n).map(|i| (i as i64 * 5 + s) % 4 - 1).collect::<Vec<_>>());
                }
            }
            filters::<Sym, A>(w, &m, &syms(m.n, 0));
        });
    }
}
struct Big<'a>(&'a mut Check);
impl Visitor for Big<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let d = sig.len();
        self.0.alg_task::<A>("structured blades", sig, 1 << 16, move |w| {
            let f = blade_family(d);
            type S<A> = SparseMultivector<i64, A>;
            let pairs: Vec<(usize, i64)> = f.iter().enumerate().map(|(k, &i)| (i, k as i64 + 1)).collect();
            w.case(
                || "selections of a sum of structured blades".into(),
                || {
                    w.state(&d);
                    let x = S::<A>::from_pairs(&pairs);
                    let sorted = |y: &S<A>| {
                        let mut e = y.entries();
                        e.sort();
                        e
                    };
                    same_val("entries", sorted(&x), pairs.clone())?;
                    for g in 0..=d + 1 {
                        w.trans(4);
                        let want: Vec<(usize, i64)> = pairs.iter().cloned().filter(|p| p.0.count_ones() as usize == g).collect();
                        same_val("grade_extract", sorted(&x.grade_(g)), want.clone())?;
                        let mut e = x.grade_entries(g);
                        e.sort();
                        same_val("grade_enumerate", e, want.clone())?;
                        same_val("grades_extract", sorted(&x.grades_extract(&[g, 900])), want.clone())?;
                        let mut y = x.clone();
                        y.retain_grades(&[g]);
                        same_val("retain_grades", sorted(&y), want)?;
                    }
                    same_val("scalar_part", x.scalar_part_(), 1)?;
                    same_val("vector", x.vector_(), (0..d).map(|i| pairs.iter().find(|p| p.0 == 1 << i).unwrap().1).collect())?;
                    let y = x.clone().filtered(|i, _| *i >> (d - 1) == 1);
                    same_val("filtered", sorted(&y), pairs.iter().cloned().filter(|p| p.0 >> (d - 1) == 1).collect())
                },
            );
        });
    }
}
fn main() {
    let mut c = Check::new("C10");
    c.bounds = "blade indices: every dimension 1..63 (complete listings up to 3 million indices per grade, the first 200000 otherwise), grades 0..d+2, 64, 65, 1000 and the largest; extraction and enumeration: every signature d<=6, all supports d<=3 (d=4 thorough), small supports beyond, values over Z/4 and integers; filters: all values over a small alphabet d<=3, 8 predicates, all sets of grades; d=7..10 full and all blades; seven signatures each of d=11..18 (thorough 20): full operands and families of blades".into();
    add_ones(&mut c, Grades);
    let top = if c.quick { 14 } else { 22 };
    let sigs: Vec<String> = (1..=63).filter(|d| *d <= top || d % 9 == 0 || *d > 60).map(mixed).collect();
    visit_sigs(&sigs, &mut Ix(&mut c));
    decl_mid(&mut Ix(&mut c));
    decl_big(&mut Ix(&mut c));
    visit_sigs(&legal_upto(3), &mut Filt(&mut c));
    decl_small(&mut Filt(&mut c));
    for d in 4..=6 {
        visit_sigs(&counts(d), &mut Filt(&mut c));
    }
    visit_sigs(&big_sigs(), &mut Big(&mut c));
    decl_big(&mut Big(&mut c));
    c.task("quaternion filters", 1, |w| {
        let m = Model::new(&Sig::new("--"));
        all_vecs(&[0i64, 1, -2, 5], 4, |a| {
            w.case(
                || format!("quaternion {}", show(a)),
                || {
                    let q = Quaternion::<i64>::new(a);
                    w.state(&fp(a));
                    w.trans(2);
                    for g in 0..4 {
                        let s: SparseMultivector<i64, _> = q.grade_extract_as(g);
                        let d: Multivector<i64, _> = q.grade_extract_as(g);
                        same("grade as sparse", &s, &m.grade(a, g))?;
                        same("grade as dense", &d, &m.grade(a, g))?;
                    }
                    Ok(())
                },
            );
        });
    });
    c.run()
}
