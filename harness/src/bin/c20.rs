//! C20: PGA points, hyperplanes and translations behave like Euclidean geometry.
use vharness::tclifford::algebra::PGAlgebra;
use vharness::tclifford::pga::PGAMV;
use vharness::tclifford::types::WedgeProduct;
use vharness::tclifford::{declare_algebra, ClBasis, FFTRepr, Multivector, SparseMultivector};
use vharness::*;

alg!(Pga1, 2, "+0", [+,0]);
alg!(Pga2, 3, "++0", [+,+,0]);
alg!(Pga3, 4, "+++0", [+,+,+,0]);
alg!(Pga4, 5, "++++0", [+,+,+,+,0]);
alg!(Pga5, 6, "+++++0", [+,+,+,+,+,0]);
alg!(Pga6, 7, "++++++0", [+,+,+,+,+,+,0]);
alg!(Pga7, 8, "+++++++0", [+,+,+,+,+,+,+,0]);
alg!(Pga8, 9, "++++++++0", [+,+,+,+,+,+,+,+,0]);
alg!(Pga9, 10, "+++++++++0", [+,+,+,+,+,+,+,+,+,0]);
alg!(Pga10, 11, "++++++++++0", [+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga11, 12, "+++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga12, 13, "++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga13, 14, "+++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga14, 15, "++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga15, 16, "+++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga16, 17, "++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga20, 21, "++++++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga31, 32, "+++++++++++++++++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga32, 33, "++++++++++++++++++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga33, 34, "+++++++++++++++++++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga40, 41, "++++++++++++++++++++++++++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga47, 48, "+++++++++++++++++++++++++++++++++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);
alg!(Pga62, 63, "++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++0", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0]);

trait Geo<const D: usize>: Mv<f64> + PGAMV<D> + WedgeProduct {}
impl<const D: usize, M: Mv<f64> + PGAMV<D> + WedgeProduct> Geo<D> for M {}

fn close(x: f64, y: f64, tol: f64) -> bool {
    (x - y).abs() <= tol
}
fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// Largest coefficient of a value.
fn size<M: Mv<f64>>(x: &M, n: usize) -> f64 {
    x.vals(n).iter().fold(0., |m, c| m.max(if c.is_nan() { f64::INFINITY } else { c.abs() }))
}
fn extract<const D: usize, M: Geo<D>>(what: &str, x: &M, want: &[f64]) -> Result<(), String> {
    let got = x.pga_extract_point();
    let s = want.iter().fold(1f64, |m, c| m.max(c.abs()));
    for k in 0..D {
        ensure(|| format!("{what} [{}]: coordinates {got:?}, should be {want:?}", M::ST), close(got[k], want[k], 1e-12 * s))?;
    }
    Ok(())
}
fn pt<const D: usize, M: Geo<D>>(p: &[f64]) -> Result<M, String> {
    M::pga_point(p.iter().cloned()).map_err(|e| format!("point refused: {e:?}"))
}
fn hp<const D: usize, M: Geo<D>>(p: &[f64]) -> Result<M, String> {
    M::pga_hyperplane(p.iter().cloned()).map_err(|e| format!("hyperplane refused: {e:?}"))
}
fn tr<const D: usize, M: Geo<D>>(p: &[f64]) -> Result<M, String> {
    M::pga_translation(p.iter().cloned()).map_err(|e| format!("translation refused: {e:?}"))
}
fn moved<const D: usize, M: Geo<D>>(t: &M, x: &M) -> M {
    t.rev_().mul_(x).mul_(t)
}
fn point<const D: usize, M: Geo<D>>(w: &W, p: &[f64]) {
    let n = 2usize << D;
    w.case(
        || format!("{} point {p:?}", M::ST),
        || {
            let x: M = pt(p)?;
            w.state(&(M::ST, "point", fp(p)));
            w.reach(&x.vals(n));
            w.trans(2);
            extract("constructed point", &x, p)?;
            ensure(|| format!("coefficients of the point have length {}", norm(&x.vals(n))), close(norm(&x.vals(n)), 1., 1e-12))?;
            // a point is the same point at any weight
            for s in [2., -3., 1e-20, 1e20] {
                extract("scaled point", &x.scale_forms(&s)[0].clone(), p)?;
                w.trans(1);
            }
            // nothing but grade D
            for (i, c) in x.entries() {
                ensure(|| format!("coefficient {c} at {i:#b}"), c == 0. || i.count_ones() as usize == D)?;
            }
            Ok(())
        },
    );
}
fn incidence<const D: usize, M: Geo<D>>(w: &W, p: &[f64], h: &[f64]) {
    let n = 2usize << D;
    w.case(
        || format!("{} point {p:?} on hyperplane {h:?}", M::ST),
        || {
            let (x, y): (M, M) = (pt(p)?, hp(h)?);
            let v: f64 = p.iter().zip(h).map(|(a, b)| a * b).sum::<f64>() + h[D];
            let scale = norm(h) * (norm(p).powi(2) + 1.).sqrt();
            w.state(&(M::ST, "incidence", fp(p), fp(h)));
            w.trans(3);
            ensure(|| "hyperplane is not of unit length".into(), close(norm(&y.vals(n)), 1., 1e-12))?;
            for (i, c) in y.entries() {
                let want = if i.count_ones() == 1 { h[i.trailing_zeros() as usize] / norm(h) } else { 0. };
                ensure(|| format!("hyperplane coefficient {i:#b} is {c}, should be {want}"), close(c, want, 1e-12))?;
            }
            let (a, b) = (y.wedge(&x), x.wedge(&y));
            w.reach(&a.vals(n));
            for (what, r) in [("h^p", &a), ("p^h", &b)] {
                let got = r.get(n - 1).abs();
                ensure(|| format!("{what} has weight {got}, should be {}", v.abs() / scale), close(got, v.abs() / scale, 1e-12))?;
                ensure(|| format!("{what} has other parts"), close(size(r, n - 1), 0., 1e-12))?;
            }
            // seen from the dual side
            let m = y.meet(&x);
            ensure(|| format!("h meet p is {:?}", m.vals(n)), close(size(&m, n), v.abs() / scale, 1e-12) && close(m.get(0).abs(), v.abs() / scale, 1e-12))
        },
    );
}
fn translation<const D: usize, M: Geo<D>>(w: &W, p: &[f64], t: &[f64]) {
    let n = 2usize << D;
    w.case(
        || format!("{} point {p:?} moved by {t:?}", M::ST),
        || {
            let (x, y): (M, M) = (pt(p)?, tr(t)?);
            let to: Vec<f64> = p.iter().zip(t).map(|(a, b)| a + b).collect();
            w.state(&(M::ST, "move", fp(p), fp(t)));
            let r = moved(&y, &x);
            w.reach(&r.vals(n));
            w.trans(3);
            extract("moved point", &r, &to)?;
            // the translator is a unit: it keeps the weight of the point
            let wgt = |x: &M| x.get((1 << D) - 1).abs();
            ensure(|| "weight of the point changed".into(), close(wgt(&r), wgt(&x), 1e-12))?;
            extract("moved back", &moved(&y.rev_(), &r), p)?;
            same("translation by the opposite vector", &tr::<D, M>(&t.iter().map(|x| -x).collect::<Vec<_>>())?, &y.rev_().vals(n))
        },
    );
}
fn plane_translation<const D: usize, M: Geo<D>>(w: &W, h: &[f64], t: &[f64]) {
    let n = 2usize << D;
    w.case(
        || format!("{} hyperplane {h:?} moved by {t:?}", M::ST),
        || {
            let (x, y): (M, M) = (hp(h)?, tr(t)?);
            let mut to = h.to_vec();
            to[D] -= h.iter().zip(t).map(|(a, b)| a * b).sum::<f64>();
            w.state(&(M::ST, "move plane", fp(h), fp(t)));
            let r = moved(&y, &x);
            w.reach(&r.vals(n));
            w.trans(1);
            for i in 0..n {
                let want = if i.count_ones() == 1 { to[i.trailing_zeros() as usize] / norm(h) } else { 0. };
                ensure(|| format!("coefficient {i:#b} is {}, should be {want}", r.get(i)), close(r.get(i), want, 1e-12 * (1. + norm(&to))))?;
            }
            Ok(())
        },
    );
}
fn composition<const D: usize, M: Geo<D>>(w: &W, s: &[f64], t: &[f64]) {
    let n = 2usize << D;
    w.case(
        || format!("{} translations {s:?} and {t:?}", M::ST),
        || {
            let (x, y): (M, M) = (tr(s)?, tr(t)?);
            let sum: M = tr(&s.iter().zip(t).map(|(a, b)| a + b).collect::<Vec<_>>())?;
            w.state(&(M::ST, "compose", fp(s), fp(t)));
            w.trans(2);
            for p in [x.mul_(&y), y.mul_(&x)] {
                w.reach(&p.vals(n));
                for i in 0..n {
                    ensure(|| format!("coefficient {i:#b} is {}, should be {}", p.get(i), sum.get(i)), close(p.get(i), sum.get(i), 1e-12 * (1. + norm(s) + norm(t))))?;
                }
            }
            Ok(())
        },
    );
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
/// Rank of a list of integer vectors (exact, small sizes).
fn rank(rows: &[Vec<f64>]) -> usize {
    let mut r: Vec<Vec<i128>> = rows.iter().map(|v| v.iter().map(|x| *x as i128).collect()).collect();
    let mut k = 0;
    let n = r[0].len();
    for c in 0..n {
        let Some(p) = (k..r.len()).find(|i| r[*i][c] != 0) else { continue };
        r.swap(k, p);
        for i in k + 1..r.len() {
            let (a, b) = (r[k][c], r[i][c]);
            for j in 0..n {
                r[i][j] = r[i][j] * a - r[k][j] * b;
            }
            let g = r[i].iter().fold(0, |g, x| gcd(g, *x)).max(1);
            r[i].iter_mut().for_each(|x| *x /= g);
        }
        k += 1;
    }
    k
}
/// The join of points contains a further point exactly when it is affinely dependent on them.
fn join<const D: usize, M: Geo<D>>(w: &W, ps: &[Vec<f64>], q: &[f64]) {
    let n = 2usize << D;
    w.case(
        || format!("{} join of {ps:?} with {q:?}", M::ST),
        || {
            let ext = |p: &[f64]| p.iter().cloned().chain([1.]).collect::<Vec<f64>>();
            let rows: Vec<Vec<f64>> = ps.iter().map(|p| ext(p)).collect();
            let mut all = rows.clone();
            all.push(ext(q));
            let mut j: M = pt(&ps[0])?;
            for p in &ps[1..] {
                j = j.meet(&pt(p)?);
            }
            w.state(&(M::ST, "join", fp(&ps.concat()), fp(q)));
            w.reach(&j.vals(n));
            w.trans(1 + ps.len() as u64);
            let indep = rank(&rows) == ps.len();
            ensure(|| format!("the join is {:?} though the points are {}dependent", j.vals(n), if indep { "in" } else { "" }), (size(&j, n) > 1e-9) == indep)?;
            if !indep {
                return Ok(());
            }
            let r = j.meet(&pt(q)?);
            let inside = rank(&all) == ps.len();
            ensure(|| format!("the point lies {} the join, yet join meet point is {:?}", if inside { "in" } else { "outside" }, r.vals(n)), (size(&r, n) <= 1e-9) == inside)?;
            // D points span a hyperplane: its equation vanishes on the points
            if ps.len() == D {
                let eq: Vec<f64> = (0..=D).map(|k| j.get(1 << k)).collect();
                ensure(|| "the join of D points is not a hyperplane".into(), close(norm(&eq), norm(&j.vals(n)), 1e-12))?;
                let at = |p: &[f64]| ext(p).iter().zip(&eq).map(|(a, b)| a * b).sum::<f64>().abs() / norm(&eq);
                for p in ps {
                    ensure(|| format!("point {p:?} is off its hyperplane {eq:?}"), at(p) <= 1e-9)?;
                }
                ensure(|| "incidence through the equation".into(), (at(q) <= 1e-9) == inside)?;
            }
            Ok(())
        },
    );
}
/// D hyperplanes meet in the solution of their equations.
fn intersection<const D: usize, M: Geo<D>>(w: &W, hs: &[Vec<f64>]) {
    let n = 2usize << D;
    w.case(
        || format!("{} intersection of {hs:?}", M::ST),
        || {
            let mut x: M = hp(&hs[0])?;
            for h in &hs[1..] {
                x = x.wedge(&hp(h)?);
            }
            w.state(&(M::ST, "intersection", fp(&hs.concat())));
            w.reach(&x.vals(n));
            w.trans(hs.len() as u64);
            let normals: Vec<Vec<f64>> = hs.iter().map(|h| h[..D].to_vec()).collect();
            if rank(&normals) < D {
                // parallel or dependent: no finite point
                let wgt = x.get((1 << D) - 1).abs();
                return ensure(|| format!("dependent normals give a finite point of weight {wgt}"), wgt <= 1e-9);
            }
            let p = x.pga_extract_point();
            for h in hs {
                let v: f64 = (0..D).map(|k| p[k] * h[k]).sum::<f64>() + h[D];
                ensure(|| format!("{p:?} is not on {h:?} (off by {v})"), v.abs() <= 1e-9)?;
                let y: M = hp(h)?;
                ensure(|| "the intersection is not in one of the hyperplanes".into(), size(&y.wedge(&x), n) <= 1e-9)?;
            }
            Ok(())
        },
    );
}
fn grid(al: &[f64], d: usize) -> Vec<Vec<f64>> {
    list_vecs(al, d)
}
/// Structured points of a higher-dimensional space.
fn few(d: usize) -> Vec<Vec<f64>> {
    let mut r = vec![vec![0.; d], vec![1.; d], (0..d).map(|k| k as f64 - 1.).collect::<Vec<_>>(), (0..d).map(|k| (3 * k % 5) as f64).collect()];
    for k in 0..d {
        let mut e = vec![0.; d];
        e[k] = 2.;
        r.push(e.clone());
        e[(k + 1) % d] -= 3.;
        r.push(e);
    }
    r
}
fn run<const D: usize, M: Geo<D>>(w: &W) {
    let pts: Vec<Vec<f64>> = match D {
        1 => grid(&[-7., -3., -2., -1., 0., 1., 2., 3., 5., 0.5, 1e-3, 1e3], 1),
        2 => grid(&[-3., -1., 0., 1., 2., 5.], 2),
        3 => grid(&[-2., -1., 0., 1., 3.], 3),
        4 => grid(&[-1., 0., 2.], 4),
        _ => grid(&[0., 1.], D).into_iter().chain(few(D)).collect(),
    };
    for p in pts.iter().cloned().chain(few(D)) {
        point::<D, M>(w, &p);
        for e in [-400, -60, -20, 20, 60, 400] {
            point::<D, M>(w, &p.iter().map(|x| x * 2f64.powi(e)).collect::<Vec<_>>());
        }
    }
    let small: Vec<Vec<f64>> = if D <= 2 { pts.clone() } else if D == 3 { grid(if w.deep { &[-2., -1., 0., 1., 2., 5.] } else { &[-2., -1., 0., 2.] }, 3) } else if D == 4 && w.deep { grid(&[-1., 0., 2.], 4) } else { few(D) };
    let planes: Vec<Vec<f64>> = (if D <= 2 { grid(&[-2., -1., 0., 1., 3.], D + 1) } else if D == 3 { grid(&[-2., 0., 1., 2.], 4) } else { few(D + 1).into_iter().chain(grid(&[0., 1.], D + 1)).collect() })
        .into_iter()
        .filter(|h| h.iter().any(|x| *x != 0.))
        .collect();
    for p in &small {
        for h in &planes {
            incidence::<D, M>(w, p, h);
        }
        for t in &small {
            translation::<D, M>(w, p, t);
            composition::<D, M>(w, p, t);
        }
        translation::<D, M>(w, p, &vec![0.25; D]);
        translation::<D, M>(w, p, &vec![1024.; D]);
        if w.stopped() {
            return;
        }
    }
    for h in &planes {
        for t in &few(D) {
            plane_translation::<D, M>(w, h, t);
        }
    }
    // joins
    let base: Vec<Vec<f64>> = match D {
        1 => grid(&[-2., 0., 1., 3.], 1),
        2 => grid(&[-1., 0., 2.], 2),
        3 => grid(if w.deep { &[-1., 0., 1., 2.] } else { &[0., 1., 2.] }, 3),
        _ => few(D).into_iter().take(if D >= 7 { 9 } else { usize::MAX }).collect(),
    };
    for a in &base {
        for c in &base {
            join::<D, M>(w, &[a.clone()], c);
        }
    }
    if D >= 2 {
        for a in &base {
            for b in &base {
                for c in &base {
                    join::<D, M>(w, &[a.clone(), b.clone()], c);
                }
            }
        }
    }
    if D >= 3 {
        let base: Vec<Vec<f64>> = if D == 3 { grid(&[0., 1.], 3) } else { few(D).into_iter().take(if D >= 7 { 5 } else if w.deep { 14 } else { 9 }).collect() };
        for a in &base {
            for b in &base {
                for c in &base {
                    for e in &base {
                        join::<D, M>(w, &[a.clone(), b.clone(), c.clone()], e);
                    }
                }
            }
            if w.stopped() {
                return;
            }
        }
    }
    if D >= 4 {
        let f = few(D);
        for k in 0..f.len() {
            let ps: Vec<Vec<f64>> = (0..D).map(|j| f[(k + 2 * j) % f.len()].clone()).collect();
            for e in &f {
                join::<D, M>(w, &ps, e);
                let mut mid = vec![0.; D];
                for p in &ps {
                    for i in 0..D {
                        mid[i] += p[i];
                    }
                }
                // an affine combination of the points with integer coordinates
                let combo: Vec<f64> = (0..D).map(|i| mid[i] - (D as f64 - 1.) * ps[0][i]).collect();
                join::<D, M>(w, &ps, &combo);
            }
        }
    }
    // intersections of D hyperplanes
    let hs: Vec<Vec<f64>> = match D {
        1 => planes.clone(),
        2 => grid(&[-1., 0., 2.], 3),
        3 => grid(&[0., 1.], 4).into_iter().chain(grid(&[-1., 1.], 4)).collect(),
        _ => few(D + 1),
    }
    .into_iter()
    .filter(|h| h.iter().any(|x| *x != 0.))
    .collect();
    match D {
        1 => hs.iter().for_each(|a| intersection::<D, M>(w, &[a.clone()])),
        2 => {
            for a in &hs {
                for b in &hs {
                    intersection::<D, M>(w, &[a.clone(), b.clone()]);
                }
            }
        }
        3 => {
            for a in &hs {
                for b in &hs {
                    for c in &hs {
                        intersection::<D, M>(w, &[a.clone(), b.clone(), c.clone()]);
                    }
                }
            }
        }
        _ => {
            for k in 0..hs.len() {
                for step in 1..hs.len() {
                    intersection::<D, M>(w, &(0..D).map(|j| hs[(k + step * j) % hs.len()].clone()).collect::<Vec<_>>());
                }
            }
        }
    }
}
/// The same statements in a space of many dimensions, without listing all coefficients.
fn many<const D: usize, M: Geo<D>>(w: &W, wedges: bool) {
    let len = |x: &M| norm(&x.entries().iter().map(|e| e.1).collect::<Vec<_>>());
    let all = (2usize << D) - 1;
    let pts = few(D);
    let planes: Vec<Vec<f64>> = few(D + 1).into_iter().filter(|h| h.iter().any(|x| *x != 0.)).collect();
    for p in &pts {
        for e in [0, -400, -20, 20, 400] {
            let p: Vec<f64> = p.iter().map(|x| x * 2f64.powi(e)).collect();
            w.case(
                || format!("{} point {p:?}", M::ST),
                || {
                    let x: M = pt(&p)?;
                    w.state(&(M::ST, D, "point", fp(&p)));
                    w.trans(2);
                    extract("constructed point", &x, &p)?;
                    extract("scaled point", &x.scale_forms(&-3.)[0].clone(), &p)?;
                    ensure(|| format!("coefficients of the point have length {}", len(&x)), close(len(&x), 1., 1e-12))?;
                    ensure(|| "parts of another grade".into(), x.entries().iter().all(|(i, c)| *c == 0. || i.count_ones() as usize == D))
                },
            );
        }
        for h in if wedges { &planes[..] } else { &[] } {
            w.case(
                || format!("{} point {p:?} on hyperplane {h:?}", M::ST),
                || {
                    let (x, y): (M, M) = (pt(p)?, hp(h)?);
                    let v: f64 = p.iter().zip(h).map(|(a, b)| a * b).sum::<f64>() + h[D];
                    let scale = norm(h) * (norm(p).powi(2) + 1.).sqrt();
                    w.state(&(M::ST, D, "incidence", fp(p), fp(h)));
                    w.trans(3);
                    for (i, c) in y.entries() {
                        let want = if i.count_ones() == 1 { h[i.trailing_zeros() as usize] / norm(h) } else { 0. };
                        ensure(|| format!("hyperplane coefficient {i:#b} is {c}, should be {want}"), close(c, want, 1e-12))?;
                    }
                    ensure(|| "hyperplane is not of unit length".into(), close(len(&y), 1., 1e-12))?;
                    for (what, r, at) in [("h^p", y.wedge(&x), all), ("p^h", x.wedge(&y), all), ("h meet p", y.meet(&x), 0)] {
                        let got = r.get(at).abs();
                        ensure(|| format!("{what} has weight {got}, should be {}", v.abs() / scale), close(got, v.abs() / scale, 1e-12))?;
                        ensure(|| format!("{what} has other parts"), close(len(&r), got, 1e-12))?;
                    }
                    Ok(())
                },
            );
        }
        for t in &pts {
            w.case(
                || format!("{} point and translation {p:?} by {t:?}", M::ST),
                || {
                    let (x, s, y): (M, M, M) = (pt(p)?, tr(p)?, tr(t)?);
                    let to: Vec<f64> = p.iter().zip(t).map(|(a, b)| a + b).collect();
                    w.state(&(M::ST, D, "move", fp(p), fp(t)));
                    w.trans(3);
                    let r = moved(&y, &x);
                    extract("moved point", &r, &to)?;
                    extract("moved back", &moved(&y.rev_(), &r), p)?;
                    // a translator is determined by its terms
                    let sum: M = tr(&to)?;
                    for z in [s.mul_(&y), y.mul_(&s)] {
                        for (i, c) in z.entries().into_iter().chain(sum.entries().iter().map(|e| (e.0, z.get(e.0)))) {
                            ensure(|| format!("composed translation has {c} at {i:#b}, should have {}", sum.get(i)), close(c, sum.get(i), 1e-12 * (1. + norm(p) + norm(t))))?;
                        }
                    }
                    Ok(())
                },
            );
        }
        for h in &planes {
            w.case(
                || format!("{} hyperplane {h:?} moved by {p:?}", M::ST),
                || {
                    let (x, y): (M, M) = (hp(h)?, tr(p)?);
                    let mut to = h.clone();
                    to[D] -= h.iter().zip(p).map(|(a, b)| a * b).sum::<f64>();
                    w.state(&(M::ST, D, "move plane", fp(h), fp(p)));
                    w.trans(1);
                    let r = moved(&y, &x);
                    for (i, c) in r.entries().into_iter().chain((0..=D).map(|k| (1 << k, r.get(1 << k)))) {
                        let want = if i.count_ones() == 1 { to[i.trailing_zeros() as usize] / norm(h) } else { 0. };
                        ensure(|| format!("coefficient {i:#b} is {c}, should be {want}"), close(c, want, 1e-12 * (1. + norm(&to))))?;
                    }
                    Ok(())
                },
            );
        }
        if w.stopped() {
            return;
        }
    }
    if !wedges {
        return;
    }
    // lines: the join of two points contains the points of the line and no other
    for a in pts.iter().step_by(3) {
        for b in pts.iter().step_by(5) {
            let on: Vec<f64> = a.iter().zip(b).map(|(x, y)| 3. * x - 2. * y).collect();
            let mut off = on.clone();
            off[D - 1] += 1.;
            off[0] -= 2.;
            w.case(
                || format!("{} join of {a:?} and {b:?}", M::ST),
                || {
                    let j = pt::<D, M>(a)?.meet(&pt(b)?);
                    w.state(&(M::ST, D, "join", fp(a), fp(b)));
                    w.trans(3);
                    ensure(|| "the join of two points vanishes exactly when they are one".into(), (len(&j) <= 1e-9) == (a == b))?;
                    if a == b {
                        return Ok(());
                    }
                    let ext = |p: &[f64]| p.iter().cloned().chain([1.]).collect::<Vec<f64>>();
                    for q in [&on, &off] {
                        let inside = rank(&[ext(a), ext(b), ext(q)]) == 2;
                        let r = j.meet(&pt(q)?);
                        ensure(|| format!("{q:?} is {} the line, yet join meet point has length {}", if inside { "on" } else { "off" }, len(&r)), (len(&r) <= 1e-9) == inside)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // hyperplanes x_k = c_k (in any order) meet in the point c
    for p in &pts {
        for s in [1, D - 1] {
            w.case(
                || format!("{} intersection of the hyperplanes through {p:?}, {s} apart", M::ST),
                || {
                    let mut x: Option<M> = None;
                    for k in (0..D).map(|k| k * s % D) {
                        let mut h = vec![0.; D + 1];
                        (h[k], h[D]) = (1., -p[k]);
                        let y: M = hp(&h)?;
                        x = Some(x.map_or(y.clone(), |x| x.wedge(&y)));
                    }
                    w.state(&(M::ST, D, "intersection", fp(p), s));
                    w.trans(D as u64);
                    extract("intersection", &x.unwrap(), p)
                },
            );
        }
    }
}
fn tasks<const D: usize, A: Alg + PGAlgebra<D>>(c: &mut Check) {
    let sig = "+".repeat(D) + "0";
    c.alg_task::<A>("dense geometry", &sig, 1 << (2 * D), run::<D, Multivector<f64, A>>);
    c.alg_task::<A>("sparse geometry", &sig, 1 << (2 * D + 1), run::<D, SparseMultivector<f64, A>>);
}
fn main() {
    let mut c = Check::full("C20");
    c.bounds = "Euclidean spaces of dimension 1..8, dense and sparse: points on integer grids (and scaled by 2^-400..2^400), every point of a grid with every hyperplane with small equation coefficients, every pair of grid points as point and translation and as two translations, hyperplanes moved by a family of translations, all joins of one, two and three grid points with a further point, joins of D points and all intersections of D hyperplanes from small families; larger grids in the thorough tier. Spaces of dimension 9..16, 20, 31..33, 40, 47 and 62 (dense to 12): points, hyperplanes, translations, lines and intersections of D hyperplanes from families of 2D+4 vectors".into();
    c.assume("results within 1e-12 of exact values; incidences of integer data decided at 1e-9 against exact integer ranks");
    c.assume("a translator t moves x to rev(t)*x*t, as in the library's own example");
    tasks::<1, Pga1>(&mut c);
    tasks::<2, Pga2>(&mut c);
    tasks::<3, Pga3>(&mut c);
    tasks::<4, Pga4>(&mut c);
    tasks::<5, Pga5>(&mut c);
    tasks::<6, Pga6>(&mut c);
    tasks::<7, Pga7>(&mut c);
    tasks::<8, Pga8>(&mut c);
    macro_rules! more {
        ($($d:literal $a:ident $dense:literal),*) => {$(
            c.task(concat!("sparse geometry of ", $d, " dimensions"), 4000 * $d * $d, |w| many::<$d, SparseMultivector<f64, $a>>(w, true));
            if $dense {
                c.task(concat!("dense geometry of ", $d, " dimensions"), 1000 << $d, |w| many::<$d, Multivector<f64, $a>>(w, false));
            }
        )*};
    }
    more!(9 Pga9 true, 10 Pga10 true, 11 Pga11 true, 12 Pga12 true, 13 Pga13 false, 14 Pga14 false, 15 Pga15 false, 16 Pga16 false);
    more!(20 Pga20 false, 31 Pga31 false, 32 Pga32 false, 33 Pga33 false, 40 Pga40 false, 47 Pga47 false, 62 Pga62 false);
    c.run()
}
