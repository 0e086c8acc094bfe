//! C15: the raw array transforms realise Cl(n) by matrices in every dimension.
use ndarray::{s, Array1, Array2, ArrayView1, ShapeBuilder};
use num::complex::{Complex32, Complex64 as C};
use num::{One, Zero};
use vharness::tclifford::clifft::*;
use vharness::tclifford::quaternion::Quaternion;
use vharness::tclifford::types::DivRing;
use vharness::tclifford::Multivector;
use vharness::*;

fn fw(a: &[C]) -> Result<Array2<C>, String> {
    clifft(ArrayView1::from(a)).map_err(|e| format!("transform refused {} coefficients: {e:?}", a.len()))
}
fn nearm(what: impl FnOnce() -> String, x: &Array2<C>, y: &Array2<C>, tol: f64) -> Result<(), String> {
    let ok = x.dim() == y.dim() && x.iter().zip(y).all(|(a, b)| (a - b).norm() <= tol);
    ensure(what, ok)
}
/// Matrix as rows of non-zero entries.
type Sp = Vec<Vec<(usize, C)>>;
fn sparse(m: &Array2<C>) -> Sp {
    m.rows().into_iter().map(|r| r.iter().enumerate().filter(|(_, c)| !c.is_zero()).map(|(j, c)| (j, *c)).collect()).collect()
}
fn spmul(a: &Sp, b: &Sp) -> Sp {
    a.iter()
        .map(|r| {
            let mut o = std::collections::BTreeMap::<usize, C>::new();
            for (k, x) in r {
                for (j, y) in &b[*k] {
                    *o.entry(*j).or_insert(C::zero()) += x * y;
                }
            }
            o.into_iter().filter(|(_, c)| c.norm() > 1e-9).collect()
        })
        .collect()
}
fn spnear(a: &Sp, b: &Sp, s: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && (p.1 - q.1 * s).norm() < 1e-12))
}
fn speye(n: usize) -> Sp {
    (0..n).map(|i| vec![(i, C::one())]).collect()
}
fn unit(n: usize, k: usize) -> Vec<C> {
    blade(1 << n, k, C::one())
}
fn generators(w: &W, n: usize) -> Option<Vec<Sp>> {
    let mut g = vec![];
    w.case(
        || format!("generators of Cl({n})"),
        || {
            let side = 1usize << ((n + 1) / 2);
            let one = fw(&unit(n, 0))?;
            ensure(|| format!("shape {:?}", one.dim()), one.dim() == (side, side))?;
            ensure(|| "1 is not the identity matrix".into(), spnear(&sparse(&one), &speye(side), 1.))?;
            for k in 0..n {
                let m = sparse(&fw(&unit(n, 1 << k))?);
                w.state(&(n, k));
                g.push(m);
            }
            for k in 0..n {
                w.trans(1 + (n - k) as u64);
                ensure(|| format!("generator {k} does not square to 1"), spnear(&spmul(&g[k], &g[k]), &speye(side), 1.))?;
                for l in k + 1..n {
                    ensure(|| format!("generators {k} and {l} do not anticommute"), spnear(&spmul(&g[k], &g[l]), &spmul(&g[l], &g[k]), -1.))?;
                }
            }
            Ok(())
        },
    )
    .then_some(g)
}
fn blades(w: &W, n: usize, which: &[usize]) {
    let Some(g) = generators(w, n) else { return };
    if g.len() < n {
        return;
    }
    let side = 1usize << ((n + 1) / 2);
    for &b in which {
        w.case(
            || format!("blade {b:#b} of Cl({n})"),
            || {
                let mut p = speye(side);
                for k in word(b) {
                    p = spmul(&p, &g[k as usize]);
                }
                let m = fw(&unit(n, b))?;
                w.state(&(n, b, "blade"));
                w.trans(3);
                ensure(|| "the blade is not the product of its generators".into(), spnear(&sparse(&m), &p, 1.))?;
                let back = iclifft(m.view()).map_err(|e| format!("{e:?}"))?;
                ensure(|| format!("inverse has {} coefficients", back.len()), back.len() == side * side)?;
                let mut want = unit(n, b);
                want.resize(side * side, C::zero());
                near_vec("inverse transform", back.as_slice().unwrap(), &want, 1e-14)
            },
        );
    }
}
fn operands(w: &W, n: usize, a: &[C]) {
    w.case(
        || format!("Cl({n}) a={}", show(a)),
        || {
            let side = 1usize << ((n + 1) / 2);
            let tol = 1e-13 * cmax(a) * a.len() as f64;
            let m = fw(a)?;
            w.state(&(n, fp(a)));
            let mut pad = a.to_vec();
            pad.resize(side * side, C::zero());
            let inv = |m: &Array2<C>| iclifft(m.view()).map(|v| v.to_vec()).map_err(|e| format!("{e:?}"));
            near_vec("inverse transform", &inv(&m)?, &pad, tol)?;
            let mut into = Array1::from_elem(side * side, C::new(7., 7.));
            iclifft_into(m.view(), into.view_mut()).map_err(|e| format!("{e:?}"))?;
            near_vec("inverse transform into an array", into.as_slice().unwrap(), &pad, tol)?;
            let sg = |f: &dyn Fn(usize) -> i8| -> Vec<C> { pad.iter().enumerate().map(|(i, c)| c * f(i) as f64).collect() };
            let rev = sg(&|i| Sig::rev_sign(i));
            let flip = sg(&|i| Sig::flip_sign(i, usize::MAX));
            let imag = sg(&|i| Sig::flip_sign(i, 0xAAAAAAAAAAAAAAAA));
            w.reach(&rev);
            w.reach(&flip);
            w.reach(&imag);
            near_vec("reversal", &inv(&reversal(m.view()).map_err(|e| format!("{e:?}"))?)?, &rev, tol)?;
            near_vec("parity flip", &inv(&parity_flip(m.view()))?, &flip, tol)?;
            near_vec("imaginary flip", &inv(&imaginary_flip(m.view()).map_err(|e| format!("{e:?}"))?)?, &imag, tol)?;
            w.trans(4);
            // other memory layouts of the same data
            let mut wide = Array1::from_elem(a.len() * 3, C::new(9., 9.));
            wide.slice_mut(s![..;3]).assign(&ArrayView1::from(a));
            let m2 = clifft(wide.slice(s![..;3])).map_err(|e| format!("{e:?}"))?;
            nearm(|| "a strided view transforms differently".into(), &m2, &m, tol)?;
            let mut back: Vec<C> = a.to_vec();
            back.reverse();
            let m2 = clifft(Array1::from(back).slice(s![..;-1])).map_err(|e| format!("{e:?}"))?;
            nearm(|| "a reversed view transforms differently".into(), &m2, &m, tol)?;
            let mut f = Array2::zeros(m.raw_dim().f());
            f.assign(&m);
            near_vec("inverse transform of a column-major matrix", &inv(&f)?, &pad, tol)?;
            nearm(|| "reversal of a column-major matrix".into(), &reversal(f.view()).unwrap(), &reversal(m.view()).unwrap(), 0.)?;
            nearm(|| "parity flip of a column-major matrix".into(), &parity_flip(f.view()), &parity_flip(m.view()), 0.)?;
            nearm(|| "imaginary flip of a column-major matrix".into(), &imaginary_flip(f.view()).unwrap(), &imaginary_flip(m.view()).unwrap(), 0.)?;
            // the other coefficient types
            w.trans(10);
            let (lo, hi) = a.iter().filter(|c| !c.is_zero()).fold((1f64, 1f64), |(l, h), c| (l.min(c.norm()), h.max(c.norm())));
            if lo < 1e-30 || hi > 1e30 {
                return Ok(());
            }
            let m32 = clifft(Array1::from_iter(a.iter().map(|c| Complex32::new(c.re as f32, c.im as f32))).view()).map_err(|e| format!("{e:?}"))?;
            nearm(|| "single precision coefficients".into(), &m32, &m, 1e-6 * cmax(a) * a.len() as f64)?;
            if a.iter().all(|c| c.im == 0.) {
                let r = clifft(Array1::from_iter(a.iter().map(|c| c.re)).view()).map_err(|e| format!("{e:?}"))?;
                nearm(|| "real coefficients".into(), &r, &m, tol)?;
                let r = clifft(Array1::from_iter(a.iter().map(|c| c.re as f32)).view()).map_err(|e| format!("{e:?}"))?;
                nearm(|| "real single precision coefficients".into(), &r, &m, 1e-6 * cmax(a) * a.len() as f64)?;
            }
            Ok(())
        },
    );
}
/// A full operand is the sum of its parts.
fn linear(w: &W, n: usize, a: &[C]) {
    w.case(
        || format!("linearity in Cl({n}) of {}", show(a)),
        || {
            let m = fw(a)?;
            let mut s = Array2::<C>::zeros(m.raw_dim());
            for (i, c) in a.iter().enumerate() {
                if !c.is_zero() {
                    s = s + fw(&unit(n, i))? * *c;
                }
            }
            w.state(&(n, "sum", fp(a)));
            w.trans(1 + a.len() as u64);
            nearm(|| "not the sum of its terms".into(), &m, &s, 1e-12 * a.len() as f64)
        },
    );
}
/// Every matrix of an even-dimensional algebra is the transform of its inverse transform.
fn matrices(w: &W, n: usize) {
    let side = 1usize << (n / 2);
    for i in 0..side {
        for j in 0..side {
            for v in [C::one(), C::i()] {
                w.case(
                    || format!("matrix of Cl({n}) with {v} at {i},{j}"),
                    || {
                        let mut m = Array2::zeros((side, side));
                        m[(i, j)] = v;
                        w.state(&(n, i, j, v.im != 0.));
                        w.trans(2);
                        let a = iclifft(m.view()).map_err(|e| format!("{e:?}"))?;
                        nearm(|| "not recovered".into(), &fw(a.as_slice().unwrap())?, &m, 1e-14)
                    },
                );
            }
        }
    }
}
/// The real transform: `+-` alternating algebras, exact coefficients.
fn rank(rows: Vec<Vec<Zp>>) -> usize {
    let mut r = rows;
    let n = r[0].len();
    let mut k = 0;
    for c in 0..n {
        let Some(p) = (k..r.len()).find(|i| !r[*i][c].is_zero()) else { continue };
        r.swap(k, p);
        let inv = r[k][c].inv().unwrap();
        let piv: Vec<Zp> = r[k].iter().map(|x| *x * inv).collect();
        for i in k + 1..r.len() {
            let f = r[i][c];
            if !f.is_zero() {
                for j in c..n {
                    r[i][j] = r[i][j] - f * piv[j];
                }
            }
        }
        k += 1;
    }
    k
}
fn mm<T: Co>(a: &Array2<T>, b: &Array2<T>) -> Array2<T> {
    let n = a.nrows();
    Array2::from_shape_fn((n, n), |(i, j)| {
        let mut s = T::zero();
        for k in 0..n {
            s = s + a[(i, k)].clone() * b[(k, j)].clone();
        }
        s
    })
}
fn real_pair<T: Co + DivRing>(w: &W, m: &Model, a: &[T], b: &[T]) {
    w.case(
        || format!("real transform a={} b={}", show(a), show(b)),
        || {
            let f = |x: &[T]| Multivector::<T, Dy>::new(x).real_fft();
            let (fa, fb) = (f(a), f(b));
            let side = 1usize << (m.d / 2);
            ensure(|| format!("shape {:?}", fa.dim()), fa.dim() == (side, side))?;
            w.state(&(fp(a), fp(b)));
            let p = m.mul(a, b);
            w.reach(&p);
            w.trans(2);
            ensure(|| "not multiplicative".into(), mm(&fa, &fb) == f(&p))?;
            ensure(|| "not additive".into(), &fa.mapv(|x| x) == &fa && Array2::from_shape_fn(fa.raw_dim(), |i| fa[i].clone() + fb[i].clone()) == f(&vadd(a, b)))?;
            // the matrix involutions on the real representation
            let full = m.n - 1;
            ensure(|| "reversal".into(), reversal(fa.view()).unwrap() == f(&m.rev(a)))?;
            ensure(|| "parity flip".into(), parity_flip(fa.view()) == f(&m.flip(a, full)))?;
            ensure(|| "imaginary flip".into(), imaginary_flip(fa.view()).unwrap() == f(&m.flip(a, 0xAAAAAAAA & full)))?;
            w.trans(3);
            Ok(())
        },
    );
}
fn real(w: &W) {
    let m = Model::of::<Dy>();
    let n = m.n;
    w.case(
        || "real transform is faithful".into(),
        || {
            let rows: Vec<Vec<Zp>> = (0..n).map(|i| Multivector::<Zp, Dy>::new(&blade(n, i, Zp::one())).real_fft().iter().cloned().collect()).collect();
            w.state(&"rank");
            w.trans(n as u64);
            same_val("rank of the blades", rank(rows), n)?;
            let one = Multivector::<Zp, Dy>::new(&m.one::<Zp>()).real_fft();
            ensure(|| "1 is not the identity".into(), one == Array2::eye(one.nrows()))
        },
    );
    if m.d <= 6 {
        for i in 0..n {
            for j in 0..n {
                real_pair::<Zp>(w, &m, &blade(n, i, Zn(3)), &blade(n, j, Zn(5)));
            }
        }
    } else {
        for k in 0..m.d {
            for j in 0..n {
                real_pair::<Zp>(w, &m, &blade(n, 1 << k, Zn(3)), &blade(n, j, Zn(5)));
            }
        }
    }
    for s in 0..3 {
        real_pair::<Zp>(w, &m, &spread_zp(n, s), &spread_zp(n, s + 7));
        let q = |salt: usize| -> Vec<Quaternion<Zp>> { ints(4 * n, salt).chunks(4).map(|c| Quaternion::<Zp>::new(&c.iter().map(|x| Zp::new(*x)).collect::<Vec<_>>())).collect() };
        if m.d <= 6 {
            // coefficients that do not commute
            w.case(
                || format!("real transform over quaternions {s}"),
                || {
                    let (a, b) = (q(s as usize), q(s as usize + 50));
                    let f = |x: &[Quaternion<Zp>]| {
                        let mut v = Multivector::<Quaternion<Zp>, Dy>::zero();
                        for (i, c) in x.iter().enumerate() {
                            v = v.set_by_idx(i, c.clone());
                        }
                        v.real_fft()
                    };
                    w.state(&("quaternions", s));
                    w.trans(1);
                    ensure(|| "not multiplicative".into(), mm(&f(&a), &f(&b)) == f(&m.mul(&a, &b)))
                },
            );
        }
    }
    if m.d == 2 {
        let vs = list_vecs(&[-2, -1, 0, 1, 3].map(Zp::new), 4);
        for a in &vs {
            for b in &vs {
                real_pair::<Zp>(w, &m, a, b);
            }
        }
    }
}
fn main() {
    let mut c = Check::full("C15");
    let top = if c.deep { 22 } else { 20 };
    let all = if c.deep { 12 } else { 10 };
    c.bounds = format!("raw transforms: generators for every n<={top}; all blades for n<={all} and a family of blades above; all matrix units for even n<=10; full operands at scales from 2^-900 to 2^900, one-term and (n<=6) two-term operands, operands supported on grades and all small values for n<=3, in four coefficient types and four memory layouts; real transform: d=2..10, all blade pairs (d<=6), generators with blades above, full exact operands, quaternion coefficients, rank of the whole blade table");
    c.assume("complex results compared within 1e-13 of the operand size; the real transform exactly");
    for n in 0..=top {
        c.task(format!("generators and blades of Cl({n})"), 1 << (2 * n), move |w| {
            let which: Vec<usize> = if n <= all { (0..1 << n).collect() } else if n <= 14 { blade_family(n) } else { vec![(1 << n) - 1, 5, 1 << (n - 1) | 3] };
            blades(w, n, &which);
        });
        if n <= 10 {
            c.task(format!("operands of Cl({n})"), 1 << (2 * n), move |w| {
                let l = 1usize << n;
                operands(w, n, &vec![C::zero(); l]);
                for s in 0..6 {
                    operands(w, n, &cints(l, s));
                    operands(w, n, &cx(&ints(l, s)));
                    linear(w, n, &cints(l, s));
                }
                for e in [-900, -480, -80, -40, 40, 80, 480, 900] {
                    operands(w, n, &at_scale(&cints(l, 1), e));
                    operands(w, n, &at_scale(&cx(&ints(l, 1)), e));
                }
                operands(w, n, &mixed_scale(&cints(l, 1), 10));
                operands(w, n, &mixed_scale(&cints(l, 1), 300));
                if n > 0 {
                    for s in grade_supports(n) {
                        operands(w, n, &on(C::zero(), &cints(l, 1), &s));
                    }
                }
                match n {
                    0 | 1 => all_vecs(&[C::new(0., 0.), C::new(1., 0.), C::new(0., -1.), C::new(2., 3.)], l, |v| operands(w, n, v)),
                    2 => all_vecs(&[C::new(0., 0.), C::new(1., 0.), C::new(0., -1.), C::new(2., 3.)], l, |v| operands(w, n, v)),
                    3 => all_vecs(&[-1, 0, 1], l, |v| operands(w, n, &cx(v))),
                    _ => {
                        for s in subsets_upto(l, if n <= 6 || (n == 7 && w.deep) { 2 } else { 1 }) {
                            let mut v = vec![C::zero(); l];
                            for (q, &x) in s.iter().enumerate() {
                                v[x] = C::new(2. + q as f64, -1.);
                            }
                            operands(w, n, &v);
                        }
                    }
                }
            });
        } else if n <= 14 {
            c.task(format!("operands of Cl({n})"), 1 << (2 * n), move |w| {
                operands(w, n, &cints(1 << n, 1));
                operands(w, n, &cx(&ints(1 << n, 2)));
            });
        }
        if n % 2 == 0 && n <= 10 {
            c.task(format!("matrices of Cl({n})"), 1 << (2 * n), move |w| matrices(w, n));
        }
    }
    for m in 1..=5 {
        c.alg_task::<Dy>("real transform", &"+-".repeat(m), 1 << (6 * m), real);
    }
    c.run()
}
