//! C09: the storage kind is invisible along every history of operations.
//! Two registers hold the same values in every storage; all operations are applied in lock step
//! with a model that is just the list of coefficients.
use std::collections::{HashSet, VecDeque};
use vharness::tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use vharness::tclifford::types::DivRing;
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    SubRev,
    Mul,
    MulRev,
    Wedge,
    Meet,
    AddSelf,
    SubSelf,
    MulSelf,
    WedgeSelf,
    Neg,
    Rev,
    Flip,
    FlipSub(usize),
    Dual,
    Undual,
    Grade(usize),
    Grades(usize),
    Retain(usize),
    Filter(usize),
    FilterMut(usize),
    Scale(i64),
    Pow(usize),
    Set(usize, i64),
    ThroughSparse,
    ThroughDense,
    ThroughGrade(usize),
    FromVector,
    FromScalar,
    FromEntries,
    Zero,
    One,
    Swap,
    Copy,
}
use Op::*;

fn ops(d: usize, vals: i64) -> Vec<Op> {
    let n = 1usize << d;
    let mut r = vec![
        Add, Sub, SubRev, Mul, MulRev, Wedge, Meet, AddSelf, SubSelf, MulSelf, WedgeSelf, Neg, Rev, Flip, Dual, Undual,
        ThroughSparse, ThroughDense, FromVector, FromScalar, FromEntries, Zero, One, Swap, Copy, Pow(0), Pow(1), Pow(2), Pow(3),
        FlipSub(1), FlipSub(n - 1), Grades(0), Retain(0),
    ];
    for g in 0..=d + 1 {
        r.push(Grade(g));
        r.push(ThroughGrade(g));
    }
    for m in 1..1usize << (d + 1) {
        r.push(Grades(m));
        r.push(Retain(m));
    }
    for k in 0..6 {
        r.push(Filter(k));
        r.push(FilterMut(k));
    }
    for c in 0..vals {
        r.push(Scale(c));
    }
    for i in 0..n + 1 {
        for c in 0..vals {
            r.push(Set(i, c));
        }
    }
    r
}
/// Operations for values with many entries.
fn big_ops(d: usize, linear: bool) -> Vec<Op> {
    let n = 1usize << d;
    let mut r = vec![
        Add, Sub, SubRev, AddSelf, SubSelf, Neg, Rev, Flip, FlipSub(5), Dual, Undual, ThroughSparse, ThroughDense, ThroughGrade(2), FromVector, FromScalar, FromEntries, Zero, One, Swap, Copy,
        Grade(1), Grade(d / 2), Grades(0b1011), Retain(0b110), Filter(2), Filter(3), Filter(4), Filter(5), FilterMut(0), FilterMut(1), FilterMut(2), FilterMut(3), FilterMut(4), Scale(0), Scale(1), Scale(2),
        Set(0, 0), Set(n - 1, 0), Set(n / 2 + 1, 1), Set(n, 1),
    ];
    if !linear {
        r.extend([Mul, MulRev, MulSelf, Wedge, WedgeSelf, Meet, Pow(2), Pow(3)]);
    }
    r
}
fn masked(mask: usize) -> Vec<usize> {
    (0..8).filter(|g| mask >> g & 1 == 1).collect()
}
fn keep<T: Co>(k: usize, i: usize, c: &T) -> bool {
    match k {
        0 => true,
        1 => false,
        2 => i % 2 == 0,
        3 => *c == T::one(),
        4 => *c != T::one(),
        _ => i != 0,
    }
}
/// What a mutating predicate does to a coefficient it keeps.
fn edit<T: Co>(k: usize, i: usize, c: &mut T) -> bool {
    match k {
        0 => *c = T::zero(),
        1 => {
            if i % 2 == 0 {
                *c = T::zero()
            }
        }
        2 => *c = c.clone() + T::one(),
        3 => *c = c.clone() + c.clone(),
        4 => {
            *c = -c.clone();
            return i % 2 == 1;
        }
        _ => {}
    }
    true
}
fn model<T: Co>(m: &Model, op: Op, r: &mut [Vec<T>; 2], of: &dyn Fn(i64) -> T) {
    let (a, b) = (r[0].clone(), r[1].clone());
    let n = m.n;
    let pick = |f: &dyn Fn(usize, &T) -> bool| -> Vec<T> { (0..n).map(|i| if !a[i].is_zero() && f(i, &a[i]) { a[i].clone() } else { T::zero() }).collect() };
    r[0] = match op {
        Add => vadd(&a, &b),
        Sub => vsub(&a, &b),
        SubRev => vsub(&b, &a),
        Mul => m.mul(&a, &b),
        MulRev => m.mul(&b, &a),
        Wedge => m.wedge(&a, &b),
        Meet => m.meet(&a, &b),
        AddSelf => vadd(&a, &a),
        SubSelf => m.zero(),
        MulSelf => m.mul(&a, &a),
        WedgeSelf => m.wedge(&a, &a),
        Neg => vneg(&a),
        Rev => m.rev(&a),
        Flip => m.flip(&a, n - 1),
        FlipSub(k) => m.flip(&a, k),
        Dual => m.dual(&a),
        Undual => m.undual(&a),
        Grade(g) | ThroughGrade(g) => m.grade(&a, g),
        Grades(k) | Retain(k) => pick(&|i, _| masked(k).contains(&word(i).len())),
        Filter(k) => pick(&|i, c| keep(k, i, c)),
        FilterMut(k) => (0..n)
            .map(|i| {
                let mut c = a[i].clone();
                if !c.is_zero() && edit(k, i, &mut c) {
                    c
                } else {
                    T::zero()
                }
            })
            .collect(),
        Scale(c) => vscale(&a, &of(c)),
        Pow(k) => m.pow(&a, k),
        Set(i, c) => {
            let mut v = a.clone();
            if i < n {
                v[i] = of(c);
            }
            v
        }
        ThroughSparse | ThroughDense | FromEntries => a.clone(),
        FromVector => m.grade(&a, 1),
        FromScalar => m.grade(&a, 0),
        Zero => m.zero(),
        One => m.one(),
        Swap => {
            r[1] = a;
            b
        }
        Copy => b,
    };
}
/// The part of the step shared by all storages; None for the storage-specific operations.
fn common<T: Co, M: Mv<T>>(m: &Model, op: Op, a: &M, b: &M, of: &dyn Fn(i64) -> T) -> Option<M> {
    let n = m.n;
    Some(match op {
        Add => a.add_(b),
        Sub => a.sub_(b),
        SubRev => b.sub_(a),
        Mul => a.mul_(b),
        MulRev => b.mul_(a),
        Wedge => a.wedge_(b),
        Meet => a.meet_(b),
        AddSelf => a.add_(a),
        SubSelf => a.sub_(a),
        MulSelf => a.mul_(a),
        WedgeSelf => a.wedge_(a),
        Neg => a.neg_forms()[0].clone(),
        Rev => a.rev_(),
        Flip => a.flip_(),
        FlipSub(k) => a.flip_sub(k),
        Dual => a.dual_(),
        Undual => a.undual_(),
        Grade(g) => a.grade_(g),
        Scale(c) => a.scale_forms(&of(c))[1].clone(),
        Pow(k) => a.pow_(k),
        Set(i, c) => a.clone().set(if i < n { i } else { n }, of(c)),
        FromEntries => M::from_pairs(&a.entries()),
        FromScalar => M::scalar_(a.scalar_part_()),
        Zero => M::zero_(),
        One => M::one_(),
        Copy => b.clone(),
        FromVector => {
            let mut z = M::zero_();
            for (i, c) in a.vector_().into_iter().enumerate() {
                z = z.set(1 << i, c);
            }
            z
        }
        _ => return None,
    })
}
fn dense_step<T: Co, A: Alg>(m: &Model, op: Op, r: &mut [Multivector<T, A>; 2], of: &dyn Fn(i64) -> T) {
    if op == Swap {
        r.swap(0, 1);
        return;
    }
    if op == FromVector {
        r[0] = Multivector::from_vector(r[0].extract_vector()).unwrap();
        return;
    }
    let x = match common(m, op, &r[0], &r[1], of) {
        Some(x) => x,
        None => match op {
            ThroughSparse => r[0].to_sparse().to_dense(),
            ThroughDense => {
                let x: Multivector<T, A> = r[0].to_storage_type();
                x
            }
            ThroughGrade(g) => {
                let s: SparseMultivector<T, A> = r[0].grade_extract_as(g);
                s.to_dense()
            }
            Grades(k) | Retain(k) => r[0].filter(|i, _| masked(k).contains(&(i.count_ones() as usize))),
            Filter(k) => r[0].filter(|i, c| keep(k, i, c)),
            FilterMut(k) => r[0].to_sparse().filtered(|i, c| edit(k, *i, c)).to_dense(),
            _ => unreachable!(),
        },
    };
    r[0] = x;
}
fn sparse_step<T: Co, A: Alg>(m: &Model, op: Op, r: &mut [SparseMultivector<T, A>; 2], of: &dyn Fn(i64) -> T) {
    if op == Swap {
        r.swap(0, 1);
        return;
    }
    if op == FromVector {
        r[0] = SparseMultivector::from_vector_ref(r[0].extract_vector().iter()).unwrap();
        return;
    }
    let x = match common(m, op, &r[0], &r[1], of) {
        Some(x) => x,
        None => match op {
            ThroughDense => r[0].to_dense().to_sparse(),
            ThroughSparse => {
                let x: SparseMultivector<T, A> = r[0].to_storage_type();
                x
            }
            ThroughGrade(g) => {
                let s: Multivector<T, A> = r[0].grade_extract_as(g);
                s.to_sparse()
            }
            Grades(k) => r[0].grades_extract(&masked(k)),
            Retain(k) => {
                let mut x = r[0].clone();
                x.retain_grades(&masked(k));
                x
            }
            Filter(k) => {
                let mut x = r[0].clone();
                x.filter_inplace(|i, c| keep(k, *i, c));
                x
            }
            FilterMut(k) => {
                let mut x = r[0].clone();
                x.filter_inplace(|i, c| edit(k, *i, c));
                x
            }
            _ => unreachable!(),
        },
    };
    r[0] = x;
}
fn quat_step<T: Co + DivRing + std::marker::Copy>(m: &Model, op: Op, r: &mut [Quaternion<T>; 2], of: &dyn Fn(i64) -> T) {
    type D<T> = Multivector<T, QuaternionAlgebra>;
    type S<T> = SparseMultivector<T, QuaternionAlgebra>;
    if op == Swap {
        r.swap(0, 1);
        return;
    }
    let x = match common(m, op, &r[0], &r[1], of) {
        Some(x) => x,
        None => {
            let d: D<T> = r[0].to_storage_type();
            let s: S<T> = r[0].to_storage_type();
            match op {
                ThroughDense => d.to_storage_type(),
                ThroughSparse => s.to_storage_type(),
                ThroughGrade(g) => {
                    let s: S<T> = r[0].grade_extract_as(g);
                    s.to_storage_type()
                }
                Grades(k) => s.grades_extract(&masked(k)).to_storage_type(),
                Retain(k) => d.filter(|i, _| masked(k).contains(&(i.count_ones() as usize))).to_storage_type(),
                Filter(k) => d.filter(|i, c| keep(k, i, c)).to_storage_type(),
                FilterMut(k) => s.filtered(|i, c| edit(k, *i, c)).to_storage_type(),
                _ => unreachable!(),
            }
        }
    };
    r[0] = x;
}
fn observe<T: Co, M: Mv<T>>(m: &Model, x: &M, want: &[T], exact: bool) -> Result<(), String> {
    same("value", x, want)?;
    for i in [m.n, m.n + 1, 2 * m.n, usize::MAX] {
        ensure(|| format!("index {i:#x} outside the algebra reads {:?} [{}]", x.get(i), M::ST), x.get(i).is_zero())?;
    }
    let mut e = x.entries();
    e.sort_by_key(|p| p.0);
    ensure(|| format!("an index is enumerated twice [{}]: {e:?}", M::ST), e.windows(2).all(|w| w[0].0 != w[1].0))?;
    if !exact {
        e.retain(|p| !p.1.is_zero());
    }
    let nz: Vec<(usize, T)> = want.iter().cloned().enumerate().filter(|p| !p.1.is_zero()).collect();
    same_val(&format!("non-zero entries [{}]", M::ST), e, nz)?;
    same_val("is_zero", x.is_zero_(), want.iter().all(|c| c.is_zero()))?;
    ensure(|| format!("not equal to a fresh copy of the same value [{}]", M::ST), *x == M::new(want) && M::new(want) == *x)
}
fn check_all<T: Co, A: Alg>(m: &Model, v: &[Vec<T>; 2], d: &[Multivector<T, A>; 2], s: &[SparseMultivector<T, A>; 2]) -> Result<(), String> {
    for k in 0..2 {
        observe(m, &d[k], &v[k], false)?;
        observe(m, &s[k], &v[k], true)?;
        same_val("coeff_count", s[k].coeff_count(), v[k].iter().filter(|c| !c.is_zero()).count())?;
        same_val("coeff_array_view", d[k].coeff_array_view().to_vec(), v[k].clone())?;
        ensure(|| "dense and converted sparse differ".into(), d[k] == s[k].to_dense() && s[k] == d[k].to_sparse())?;
    }
    same_val("dense ==", d[0] == d[1], v[0] == v[1])?;
    same_val("sparse ==", s[0] == s[1], v[0] == v[1])
}
struct Node<T: Co, A: Alg> {
    v: [Vec<T>; 2],
    d: [Multivector<T, A>; 2],
    s: [SparseMultivector<T, A>; 2],
}
impl<T: Co, A: Alg> Clone for Node<T, A> {
    fn clone(&self) -> Self {
        Node { v: self.v.clone(), d: self.d.clone(), s: self.s.clone() }
    }
}
impl<T: Co, A: Alg> Node<T, A> {
    fn of(v: [Vec<T>; 2]) -> Self {
        Node {
            d: [Multivector::<T, A>::new(&v[0]), Multivector::<T, A>::new(&v[1])],
            s: [SparseMultivector::<T, A>::new(&v[0]), SparseMultivector::<T, A>::new(&v[1])],
            v,
        }
    }
    fn step(&self, m: &Model, op: Op, of: &dyn Fn(i64) -> T) -> Result<Self, String> {
        let mut n = self.clone();
        model(m, op, &mut n.v, of);
        dense_step(m, op, &mut n.d, of);
        sparse_step(m, op, &mut n.s, of);
        check_all(m, &n.v, &n.d, &n.s)?;
        Ok(n)
    }
}
/// Breadth-first search of everything reachable by the operations.
fn reach<T: Co, A: Alg>(w: &W, vals: i64, of: fn(i64) -> T, limit: usize) {
    let m = Model::of::<A>();
    let ops = ops(m.d, vals);
    let mut seen = HashSet::new();
    let mut todo = VecDeque::new();
    let start = Node::<T, A>::of([m.zero(), m.zero()]);
    seen.insert(fp(&start.v));
    todo.push_back((start, String::new()));
    while let Some((n, path)) = todo.pop_front() {
        for &op in &ops {
            let mut out = None;
            w.case(
                || format!("registers {} and {} after [{path}], then {op:?}", show(&n.v[0]), show(&n.v[1])),
                || {
                    out = Some(n.step(&m, op, &of)?);
                    Ok(())
                },
            );
            w.trans(2); // one step per storage
            if w.stopped() {
                return;
            }
            let Some(x) = out else { continue };
            if seen.len() < limit && seen.insert(fp(&x.v)) {
                w.state(&fp(&x.v));
                let p = if path.is_empty() { format!("{op:?}") } else { format!("{path} {op:?}") };
                todo.push_back((x, p));
            }
        }
    }
    w.count("closed_state_spaces", (seen.len() < limit) as u64);
}
/// Every sequence of operations up to a length, states not merged: hidden state would show.
fn words<T: Co, A: Alg>(w: &W, ops: &[Op], of: fn(i64) -> T, depth: usize, starts: &[[Vec<T>; 2]]) {
    let m = Model::of::<A>();
    fn go<T: Co, A: Alg>(w: &W, m: &Model, ops: &[Op], of: fn(i64) -> T, n: &Node<T, A>, path: &mut Vec<Op>, depth: usize) {
        for &op in ops {
            let mut out = None;
            path.push(op);
            w.case(
                || format!("history {path:?} reaching {}", show(&n.v[0])),
                || {
                    out = Some(n.step(m, op, &of)?);
                    Ok(())
                },
            );
            w.trans(2); // one step per storage
            if w.stopped() {
                return;
            }
            if let Some(x) = out {
                w.state(&fp(&x.v));
                if depth > 1 {
                    go(w, m, ops, of, &x, path, depth - 1);
                }
            }
            path.pop();
        }
    }
    for s in starts {
        go(w, &m, ops, of, &Node::<T, A>::of(s.clone()), &mut vec![], depth);
    }
}
fn quats<T: Co + DivRing + std::marker::Copy>(w: &W, vals: i64, of: fn(i64) -> T) {
    let m = Model::new(&Sig::new("--"));
    let ops = ops(2, vals);
    let mut seen = HashSet::new();
    let mut todo = VecDeque::new();
    type N<T> = (Node<T, QuaternionAlgebra>, [Quaternion<T>; 2]);
    let z = <Quaternion<T> as Mv<T>>::zero_();
    let start: N<T> = (Node::of([m.zero(), m.zero()]), [z, z]);
    seen.insert(fp(&start.0.v));
    todo.push_back(start);
    while let Some((n, q)) = todo.pop_front() {
        for &op in &ops {
            let mut out = None;
            w.case(
                || format!("quaternion registers {} and {}, then {op:?}", show(&n.v[0]), show(&n.v[1])),
                || {
                    let x = n.step(&m, op, &of)?;
                    let mut q2 = q;
                    quat_step(&m, op, &mut q2, &of);
                    for k in 0..2 {
                        observe(&m, &q2[k], &x.v[k], false)?;
                        let d: Multivector<T, QuaternionAlgebra> = q2[k].to_storage_type();
                        let s: SparseMultivector<T, QuaternionAlgebra> = q2[k].to_storage_type();
                        ensure(|| "conversion from the quaternion storage".into(), d == x.d[k] && s == x.s[k])?;
                        observe(&m, &s, &x.v[k], true)?;
                        let (a, b): (Quaternion<T>, Quaternion<T>) = (x.d[k].to_storage_type(), x.s[k].to_storage_type());
                        ensure(|| "conversion to the quaternion storage".into(), a == q2[k] && b == q2[k])?;
                    }
                    out = Some((x, q2));
                    Ok(())
                },
            );
            w.trans(3);
            if w.stopped() {
                return;
            }
            let Some(x) = out else { continue };
            if seen.insert(fp(&x.0.v)) {
                w.state(&fp(&x.0.v));
                todo.push_back(x);
            }
        }
    }
}
fn z2(c: i64) -> Zn<2> {
    Zn::new(c)
}
fn z3(c: i64) -> Z3 {
    Zn::new(c)
}
fn z4(c: i64) -> Z4 {
    Zn::new(c)
}
struct Tasks<'a>(&'a mut Check);
impl Visitor for Tasks<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let (d, quick) = (sig.len(), self.0.quick);
        let dy = std::any::type_name::<A>().ends_with("::Dy");
        if d <= 2 {
            self.0.alg_task::<A>("all reachable pairs over Z/3", sig, 1 << (10 * d), |w| reach::<Z3, A>(w, 3, z3, usize::MAX));
            if d == 1 || !quick {
                self.0.alg_task::<A>("all reachable pairs over Z/4", sig, 1 << (11 * d), |w| reach::<Z4, A>(w, 4, z4, usize::MAX));
            }
        }
        if d == 3 && dy {
            if !quick {
                self.0.alg_task::<A>("all reachable pairs over Z/2", sig, 1 << 31, |w| reach::<Zn<2>, A>(w, 2, z2, usize::MAX));
            }
            self.0.alg_task::<A>("reachable pairs over Z/3 (bounded)", sig, 1 << 20, |w| reach::<Z3, A>(w, 3, z3, if w.quick { 600 } else { 4000 }));
        }
        if (4..=6).contains(&d) && dy {
            self.0.alg_task::<A>("reachable pairs over Z/3 (bounded)", sig, 1 << 24, |w| reach::<Z3, A>(w, 3, z3, if w.quick { 60 } else { 600 }));
        }
        if d >= 5 && dy {
            self.0.alg_task::<A>("histories of large values", sig, 1 << (16 + d), move |w| {
                let n = 1usize << d;
                let v: Vec<Z3> = (0..n).map(|i| z3((i * i + i / 3) as i64)).collect();
                let u: Vec<Z3> = (0..n).map(|i| z3((2 * i * i + i / 5 + 1) as i64)).collect();
                let all: Vec<Z3> = (0..n).map(|i| z3(1 + i.count_ones() as i64 % 2)).collect();
                let starts = [[v.clone(), u], [all, v]];
                words::<Z3, A>(w, &big_ops(d, false), z3, if d <= 6 || d == 7 && w.deep { 2 } else { 1 }, &starts);
                words::<Z3, A>(w, &big_ops(d, true), z3, 2, &starts);
            });
        }
        if d <= 3 {
            self.0.alg_task::<A>("histories", sig, 1 << 22, move |w| {
                let n = 1usize << d;
                let mut v: Vec<Z3> = (0..n).map(|i| z3(i as i64 + 1)).collect();
                v[n / 2] = z3(0);
                let u: Vec<Z3> = (0..n).map(|i| z3(2 + i as i64 / 2)).collect();
                let depth = if d == 1 && !w.quick && dy { 4 } else if d <= 2 && (d == 1 || !w.quick) { 3 } else { 2 };
                words::<Z3, A>(w, &ops(d, 3), z3, depth, &[[v, u], [vec![z3(0); n], blade(n, n - 1, z3(1))]]);
            });
        }
    }
}
fn main() {
    let mut c = Check::new("C09");
    c.bounds = "two registers per storage. Complete reachable state space over Z/3 for every signature d<=2 (d=1 also Z/4; thorough: d=2 over Z/4 and d=3 over Z/2), bounded breadth-first prefixes for d=3..6, all unmerged histories of length <=2 (d=3), <=3/4 (d<=2). Values with hundreds of entries, d=5..9 (thorough 11): all histories of length 2 of the linear operations, and of all 49 for d<=6 (thorough 7). Quaternion storage in lock step over Z/3 (thorough Z/5)".into();
    c.assume("the model of a register is the list of its coefficients");
    visit_sigs(&legal_upto(3), &mut Tasks(&mut c));
    visit_sigs(&counts(4), &mut Tasks(&mut c));
    if !c.quick {
        visit_sigs(&counts(5), &mut Tasks(&mut c));
        visit_sigs(&["++-000".to_string(), "+-+-+-".to_string(), "------".to_string()], &mut Tasks(&mut c));
    } else {
        visit_sigs(&["+-+-00".to_string()], &mut Tasks(&mut c));
    }
    for d in 7..=if c.quick { 9 } else { 11 } {
        visit_sigs(&[tall_sigs(d)[3].clone(), tall_sigs(d)[5].clone()], &mut Tasks(&mut c));
    }
    decl_small(&mut Tasks(&mut c));
    c.task("quaternion storage over Z/3", 1 << 32, |w| quats::<Z3>(w, 3, z3));
    c.run()
}
