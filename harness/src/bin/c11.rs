//! C11: out-of-range indices, lengths, grades and shapes never panic or corrupt.
use ndarray::{Array1, Array2, Array3};
use num::complex::Complex64;
use num::Zero;
use vharness::tclifford::algebra::NonDegenerate;
use vharness::tclifford::clifft::{clifft, iclifft, iclifft_into, imaginary_flip, parity_flip, reversal};
use vharness::tclifford::pga::PGAMV;
use vharness::tclifford::quaternion::Quaternion;
use vharness::tclifford::{ClError, FFTRepr, Multivector, SparseMultivector};
use vharness::*;

/// Indices at and around every boundary of an algebra of dimension `d`.
fn edge_indices(d: usize) -> Vec<usize> {
    let n = 1usize << d;
    let mut r: Vec<usize> = vec![usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 63];
    if d <= 6 {
        r.extend(0..4 * n);
    }
    for b in 0..64 {
        for k in [-1i128, 0, 1] {
            let x = (1i128 << b) + k;
            if x >= 0 && x <= usize::MAX as i128 {
                r.push(x as usize);
            }
        }
        r.push(usize::MAX << b);
        r.push(n | (1 << b));
    }
    r.sort();
    r.dedup();
    r
}
fn edge_grades(d: usize) -> Vec<usize> {
    let mut r: Vec<usize> = (d + 1..d + 70).collect();
    for b in [7, 8, 15, 16, 31, 32, 33, 62, 63] {
        for k in 0..=d.min(6) {
            r.push((1usize << b) + k);
        }
        r.push((1usize << b) - 1);
    }
    for k in 0..=d.min(6) + 1 {
        r.push(usize::MAX - k);
    }
    r.retain(|g| *g > d);
    r.sort();
    r.dedup();
    r
}
/// The constructors, accessors and grade selections of one storage.
fn storage<M: Mv<i64>>(
    w: &W,
    d: usize,
    pairs: &[(usize, i64)],
    from_vec: impl Fn(Vec<i64>) -> Result<M, ClError>,
    from_vec_ref: impl Fn(&[i64]) -> Result<M, ClError>,
    from_ix: impl Fn(Vec<(usize, i64)>) -> Result<M, ClError>,
    from_ix_ref: impl Fn(&[(usize, i64)]) -> Result<M, ClError>,
) {
    let n = 1usize << d;
    let sorted = |x: &M| {
        let mut e: Vec<(usize, i64)> = x.entries().into_iter().filter(|p| p.1 != 0).collect();
        e.sort();
        e
    };
    for len in (0..=d + 3).chain([64, 65, 130]) {
        w.case(
            || format!("{}: vector of {len} coefficients", M::ST),
            || {
                w.state(&(M::ST, "vector", len));
                w.trans(2);
                let v: Vec<i64> = (0..len as i64).map(|i| i + 1).collect();
                for r in [from_vec(v.clone()), from_vec_ref(&v)] {
                    match r {
                        Ok(x) => {
                            ensure(|| "accepted".into(), len == d)?;
                            same_val("entries", sorted(&x), (0..d).map(|i| (1usize << i, i as i64 + 1)).collect())?;
                        }
                        Err(e) => {
                            ensure(|| format!("rejected with {e:?}"), len != d && e == ClError::InvalidShape)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    let base = M::from_pairs(pairs);
    let orig = sorted(&base);
    for i in edge_indices(d) {
        if w.stopped() {
            return;
        }
        w.case(
            || format!("{}: index {i:#x}", M::ST),
            || {
                w.state(&(M::ST, i));
                w.trans(8);
                let inside = i < n;
                let have = orig.iter().find(|p| p.0 == i).map_or(0, |p| p.1);
                same_val("get", base.get(i), have)?;
                same_val("get of zero", M::zero_().get(i), 0)?;
                for c in [5i64, 0] {
                    let x = base.clone().set(i, c);
                    let mut want = orig.clone();
                    if inside {
                        want.retain(|p| p.0 != i);
                        if c != 0 {
                            want.push((i, c));
                            want.sort();
                        }
                    }
                    same_val("entries after a write", sorted(&x), want.clone())?;
                    same_val("the written coefficient", x.get(i), if inside { c } else { 0 })?;
                    same_val("x == original", x == base, want == orig)?;
                    // what was written is gone when subtracted
                    let y = x.sub_(&base);
                    let diff = if inside { c - have } else { 0 };
                    same_val("difference", sorted(&y), if diff == 0 { vec![] } else { vec![(i, diff)] })?;
                }
                // first, middle and last entry of a list
                for pos in 0..3 {
                    let mut l = vec![(0usize, 2i64), (n - 1, 3)];
                    l.insert(pos, (i, 7));
                    for r in [from_ix(l.clone()), from_ix_ref(&l)] {
                        match r {
                            Ok(x) => {
                                ensure(|| format!("index accepted at position {pos}"), inside)?;
                                let last = l.iter().rev().find(|p| p.0 == i).unwrap().1;
                                same_val("built coefficient", x.get(i), last)?;
                            }
                            Err(e) => ensure(|| format!("index rejected with {e:?} at position {pos}"), !inside && e == ClError::IndexOutOfBounds)?,
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for g in edge_grades(d) {
        w.case(
            || format!("{}: grade {g:#x}", M::ST),
            || {
                w.state(&(M::ST, "grade", g));
                w.trans(2);
                ensure(|| "grade_extract is not zero".into(), base.grade_(g).is_zero_() && sorted(&base.grade_(g)).is_empty())?;
                same_val("grade_enumerate", base.grade_entries(g).len(), 0)
            },
        );
    }
    // masks of flips may name generators that do not exist
    for b in 0..64 {
        w.case(
            || format!("{}: flip of generators {b}..", M::ST),
            || {
                w.trans(1);
                let m = usize::MAX << b;
                let want: Vec<(usize, i64)> = orig.iter().map(|&(i, c)| (i, if (i & m).count_ones() % 2 == 1 { -c } else { c })).collect();
                same_val("flip_subspace", sorted(&base.flip_sub(m)), want)
            },
        );
    }
}
fn dense<A: Alg>(w: &W) {
    let d = A::sig().len();
    let n = 1usize << d;
    let pairs: Vec<(usize, i64)> = (0..n).map(|i| (i, (i as i64 % 5) - 1)).collect();
    type M<A> = Multivector<i64, A>;
    storage::<M<A>>(
        w, d, &pairs,
        |v| M::<A>::from_vector(v), |v| M::<A>::from_vector_ref(v.iter()),
        |v| M::<A>::from_indexed_iter(v.into_iter()), |v| M::<A>::from_indexed_iter_ref(v.iter().map(|p| (p.0, &p.1))),
    );
}
fn sparse<A: Alg>(w: &W) {
    let d = A::sig().len();
    let pairs: Vec<(usize, i64)> = blade_family(d).iter().enumerate().map(|(k, &i)| (i, (k as i64 % 4) - 1)).collect();
    type M<A> = SparseMultivector<i64, A>;
    storage::<M<A>>(
        w, d, &pairs,
        |v| M::<A>::from_vector(v), |v| M::<A>::from_vector_ref(v.iter()),
        |v| M::<A>::from_indexed_iter(v.into_iter()), |v| M::<A>::from_indexed_iter_ref(v.iter().map(|p| (p.0, &p.1))),
    );
    let base = M::<A>::from_pairs(&pairs);
    for g in edge_grades(d) {
        w.case(
            || format!("sparse: list of grades with {g:#x}"),
            || {
                w.state(&("grades", g));
                w.trans(3);
                same_val("grades_extract", base.grades_extract(&[g]).coeff_count(), 0)?;
                let mut x = base.clone();
                x.retain_grades(&[g, g]);
                same_val("retain_grades", x.coeff_count(), 0)?;
                ensure(|| "one real grade among absent ones".into(), base.grades_extract(&[g, 0]) == base.grade_extract(0))?;
                same_val("grade_index_iter", A::grade_index_iter(g).count(), 0)
            },
        );
    }
    same_op_sweep::<A>(w, d);
}
/// Every operation on the outermost blades.
fn same_op_sweep<A: Alg>(w: &W, d: usize) {
    type M<A> = SparseMultivector<i64, A>;
    let n1 = (1usize << d) - 1;
    for i in [0, 1, 1 << (d - 1), n1, n1 >> 1, n1 - 1] {
        for j in [0, 1, 1 << (d - 1), n1, n1 >> 1, n1 - 1] {
            w.case(
                || format!("all operations on blades {i:#x} and {j:#x}"),
                || {
                    w.state(&("sweep", i, j));
                    let (a, b) = (M::<A>::from_blade(i, 2), M::<A>::from_blade(j, 3));
                    let rs = [
                        a.add_(&b), a.sub_(&b), a.mul_(&b), a.wedge_(&b), a.meet_(&b), a.rev_(), a.flip_(), a.dual_(), a.undual_(),
                        a.pow_(3), a.grade_(d), a.neg_forms()[0].clone(),
                    ];
                    w.trans(rs.len() as u64);
                    for x in rs {
                        ensure(|| "an index outside the algebra appears".into(), x.entries().iter().all(|p| p.0 <= n1 && p.1 != 0))?;
                    }
                    let _ = (a.vdot_(&b), a.vsdot_(&b), a.mag2_(), format!("{a} {a:#}"), a.vector_());
                    let f = SparseMultivector::<f64, A>::from_blade(i, 2.);
                    let c: SparseMultivector<Complex64, _> = f.complexify();
                    let g: SparseMultivector<f64, A> = c.decomplexify();
                    ensure(|| "complexify and back".into(), f == g)
                },
            );
        }
    }
    w.case(
        || "index_iter starts".into(),
        || {
            let want: Vec<usize> = (0..2).collect();
            same_val("first indices", A::index_iter().take(2).collect(), want)
        },
    );
}
fn shapes<A: Alg>(w: &W) {
    let sig = Sig::new(&A::sig());
    let k = sig.d - sig.nulls();
    let side = 1usize << ((k + 1) / 2);
    let wc = 1usize << sig.nulls();
    let mut axes: Vec<usize> = (0..=9).collect();
    for x in [side, wc] {
        axes.extend([x.saturating_sub(1), x, x + 1, 2 * x, x / 2, x * x]);
    }
    axes.retain(|x| *x <= 70);
    axes.sort();
    axes.dedup();
    for &a in &axes {
        for &b in &axes {
            for &c in &axes {
                w.case(
                    || format!("array of shape {a}x{b}x{c}"),
                    || {
                        w.state(&(a, b, c));
                        w.trans(1);
                        let arr = Array3::from_shape_fn((a, b, c), |(x, y, z)| Complex64::new((x + 2 * y) as f64, z as f64));
                        match FFTRepr::<A>::from_array3(arr.clone()) {
                            Ok(f) => {
                                ensure(|| "wrong shape accepted".into(), (a, b, c) == (wc, side, side))?;
                                ensure(|| "array changed".into(), f.view() == arr.view() && f.shape() == (a, b, c))?;
                                same_val("into_array3", f.into_array3(), arr)
                            }
                            Err(e) => ensure(|| format!("rejected with {e:?}"), (a, b, c) != (wc, side, side) && e == ClError::InvalidShape),
                        }
                    },
                );
            }
        }
        if w.stopped() {
            return;
        }
    }
    w.case(
        || "shapes of zero and one".into(),
        || {
            w.trans(2);
            same_val("zero", FFTRepr::<A>::zero().shape(), (wc, side, side))?;
            same_val("one", <FFTRepr<A> as num::One>::one().shape(), (wc, side, side))?;
            same_val("fft", Multivector::<f64, A>::zero().fft().shape(), (wc, side, side))
        },
    );
}
fn shapes2<A: Alg + NonDegenerate>(w: &W) {
    let d = A::sig().len();
    let side = 1usize << ((d + 1) / 2);
    for r in 0..=2 * side + 1 {
        for c in 0..=2 * side + 1 {
            for t in [false, true] {
                w.case(
                    || format!("matrix of shape {r}x{c}{}", if t { ", column-major" } else { "" }),
                    || {
                        w.state(&(r, c));
                        w.trans(1);
                        let arr = if t {
                            Array2::from_shape_fn((c, r), |(y, x)| Complex64::new(x as f64, y as f64)).reversed_axes()
                        } else {
                            Array2::from_shape_fn((r, c), |(x, y)| Complex64::new(x as f64, y as f64))
                        };
                        match FFTRepr::<A>::from_array2(arr.clone()) {
                            Ok(f) => {
                                ensure(|| "wrong shape accepted".into(), (r, c) == (side, side))?;
                                same_val("into_array2", f.into_array2(), arr)
                            }
                            Err(e) => ensure(|| format!("rejected with {e:?}"), (r, c) != (side, side) && e == ClError::InvalidShape),
                        }
                    },
                );
            }
        }
    }
}
fn transforms(w: &W) {
    let top = if w.deep { 9000 } else { 2100 };
    for len in 0..=top {
        w.case(
            || format!("forward transform of {len} coefficients"),
            || {
                w.state(&len);
                w.trans(1);
                let a = Array1::from_shape_fn(len, |i| i as f64 + 1.);
                match clifft(a.view()) {
                    Ok(m) => {
                        ensure(|| "accepted".into(), len.is_power_of_two())?;
                        let side = 1usize << ((len.ilog2() as usize + 1) / 2);
                        same_val("shape", m.dim(), (side, side))
                    }
                    Err(e) => ensure(|| format!("rejected with {e:?}"), !len.is_power_of_two() && e == ClError::InvalidShape),
                }
            },
        );
    }
    for r in 0..=20usize {
        for c in 0..=20usize {
            let good = r == c && r.is_power_of_two();
            w.case(
                || format!("inverse transforms and flips of a {r}x{c} matrix"),
                || {
                    w.state(&("matrix", r, c));
                    w.trans(4);
                    let m = Array2::from_shape_fn((r, c), |(x, y)| Complex64::new(x as f64, y as f64));
                    fn shape_ok<R: std::fmt::Debug>(what: &str, good: bool, r: Result<R, ClError>, size: impl Fn(&R) -> bool) -> Result<(), String> {
                        match r {
                            Ok(x) => ensure(|| format!("{what}: accepted or of the wrong size"), good && size(&x)),
                            Err(e) => ensure(|| format!("{what}: rejected with {e:?}"), !good && e == ClError::InvalidShape),
                        }
                    }
                    shape_ok("iclifft", good, iclifft(m.view()), |x| x.len() == r * c)?;
                    shape_ok("imaginary_flip", good, imaginary_flip(m.view()), |x| x.dim() == (r, c))?;
                    shape_ok("reversal", good, reversal(m.view()), |x| x.dim() == (r, c))?;
                    same_val("parity_flip", parity_flip(m.view()).dim(), (r, c))?;
                    let mut lens: Vec<usize> = (0..=24).collect();
                    lens.extend([r * c, (r * c).saturating_sub(1), r * c + 1, 2 * r * c, r * c / 2]);
                    for len in lens {
                        w.trans(1);
                        let mut dest = Array1::from_elem(len, Complex64::new(-7., 3.));
                        let before = dest.clone();
                        match iclifft_into(m.view(), dest.view_mut()) {
                            Ok(()) => {
                                ensure(|| format!("iclifft_into a destination of length {len}: accepted"), good && len == r * c)?;
                                same_val("iclifft_into", dest, iclifft(m.view()).unwrap())?;
                            }
                            Err(e) => {
                                ensure(|| format!("iclifft_into a destination of length {len}: rejected with {e:?}"), !(good && len == r * c) && e == ClError::InvalidShape)?;
                                ensure(|| "the rejected destination was changed".into(), dest == before)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
macro_rules! pga_len {
    ($c:expr, $($a:ty: $d:literal),*) => {$(
        $c.task(format!("PGA lengths in {} dimensions", $d), 1, |w| {
            <$a>::enter("");
            for len in (0usize..=$d + 4).chain([62, 63, 64, 70]) {
                w.case(|| format!("{len} coordinates"), || {
                    w.state(&len);
                    w.trans(6);
                    let v: Vec<f64> = (0..len).map(|i| i as f64 + 1.).collect();
                    type D = Multivector<f64, $a>;
                    type S = SparseMultivector<f64, $a>;
                    fn ok<R>(what: &str, r: Result<R, ClError>, good: bool) -> Result<(), String> {
                        match r {
                            Ok(_) => ensure(|| format!("{what} accepted"), good),
                            Err(e) => ensure(|| format!("{what} rejected with {e:?}"), !good && e == ClError::InvalidShape),
                        }
                    }
                    ok("point", <D as PGAMV<$d>>::pga_point(v.clone()), len == $d)?;
                    ok("sparse point", <S as PGAMV<$d>>::pga_point(v.clone()), len == $d)?;
                    ok("hyperplane", <D as PGAMV<$d>>::pga_hyperplane(v.clone()), len == $d + 1)?;
                    ok("sparse hyperplane", <S as PGAMV<$d>>::pga_hyperplane(v.clone()), len == $d + 1)?;
                    ok("translation", <D as PGAMV<$d>>::pga_translation(v.clone()), len == $d)?;
                    ok("sparse translation", <S as PGAMV<$d>>::pga_translation(v.clone()), len == $d)
                });
            }
        });
    )*};
}
mod pga {
    vharness::tclifford::declare_algebra!(pub P1, [+, 0], []);
    vharness::tclifford::declare_algebra!(pub P2, [+, +, 0], []);
    vharness::tclifford::declare_algebra!(pub P3, [+, +, +, 0], []);
    vharness::tclifford::declare_algebra!(pub P4, [+, +, +, +, 0], []);
    vharness::tclifford::declare_algebra!(pub P7, [+, +, +, +, +, +, +, 0], []);
}
trait Enter {
    fn enter(_: &str) {}
}
impl<A: vharness::tclifford::ClAlgebra> Enter for A {}

struct All<'a>(&'a mut Check);
impl Visitor for All<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let d = sig.len();
        if d <= 12 {
            self.0.alg_task::<A>("dense storage", sig, 1 << d, dense::<A>);
        }
        self.0.alg_task::<A>("sparse storage", sig, 1 << d.min(12), sparse::<A>);
    }
}
struct Shapes<'a>(&'a mut Check);
impl Visitor for Shapes<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("array shapes", sig, 1 << sig.len(), shapes::<A>);
    }
}
impl NdVisitor for Shapes<'_> {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str) {
        self.0.alg_task::<A>("matrix shapes", sig, 1 << sig.len(), shapes2::<A>);
    }
}
fn main() {
    let mut c = Check::full("C11");
    c.bounds = "dimensions 1..63: every index up to 4*2^d for d<=6 and every index within one of a power of two, with high bits set or at the ends of the range otherwise; vectors of 0..d+3, 64, 65, 130 coefficients; grades d+1..d+70, around 2^7..2^63 and the largest; array shapes with axes 0..9 and around the right ones; transforms of 0..2100 coefficients (thorough: 0..9000) and matrices up to 20x20 with every destination length; PGA coordinates 0..d+4, 62..64, 70".into();
    for d in 1..=6 {
        visit_sigs(&counts(d), &mut All(&mut c));
    }
    decl_mid(&mut All(&mut c));
    visit_sigs(&(7..=63).map(mixed).collect::<Vec<_>>(), &mut All(&mut c));
    visit_sigs(&(1..=63).map(|d| "-".repeat(d)).collect::<Vec<_>>(), &mut All(&mut c));
    decl_big(&mut All(&mut c));
    for d in 1..=6 {
        visit_sigs(&counts(d), &mut Shapes(&mut c));
        visit_nd_sigs(&counts(d).into_iter().filter(|s| !s.contains('0')).collect::<Vec<_>>(), &mut Shapes(&mut c));
    }
    decl_small(&mut Shapes(&mut c));
    c.task("raw transforms", 1 << 10, transforms);
    c.task("quaternion storage", 1 << 10, |w| {
        type Q = Quaternion<i64>;
        storage::<Q>(
            w, 2, &[(0, 1), (1, -2), (2, 3), (3, 4)],
            |v| Q::from_vector(v), |v| Q::from_vector_ref(v.iter()),
            |v| Q::from_indexed_iter(v.into_iter()), |v| Q::from_indexed_iter_ref(v.iter().map(|p| (p.0, &p.1))),
        );
    });
    pga_len!(c, pga::P1: 1, pga::P2: 2, pga::P3: 3, pga::P4: 4, pga::P7: 7);
    c.run()
}
