//! C21: quaternions and other division algebras divide correctly.
use num::complex::Complex64 as C;
use num::rational::Ratio;
use num::Zero;
use vharness::tclifford::algebra::DivisionAlgebra;
use vharness::tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use vharness::tclifford::types::DivRing;
use vharness::tclifford::{Multivector, Norm, SparseMultivector};
use vharness::*;

/// Division of multivectors in every owned/borrowed form.
trait DivMv<T: Co>: Mv<T> {
    fn quo(&self, r: &Self) -> [Self; 4];
}
macro_rules! divmv {
    ([$($g:tt)*], $t:ty) => {
        impl<$($g)*> DivMv<T> for $t {
            fn quo(&self, r: &Self) -> [Self; 4] {
                [self / r, self.clone() / r, self / r.clone(), self.clone() / r.clone()]
            }
        }
    };
}
divmv!([T: Co + DivRing, A: Alg + DivisionAlgebra], Multivector<T, A>);
divmv!([T: Co + DivRing, A: Alg + DivisionAlgebra], SparseMultivector<T, A>);
divmv!([T: Co + DivRing + Copy], Quaternion<T>);

/// b times its conjugate, a scalar in these algebras.
fn norm2<T: Co>(m: &Model, b: &[T]) -> T {
    let conj = m.flip(&m.rev(b), m.n - 1);
    let p = m.mul(b, &conj);
    assert!(p[1..].iter().all(|c| c.is_zero()));
    p[0].clone()
}
/// Exact division: a/b is the unique x with x*b = a.
fn exact<T: Co, M: DivMv<T>>(w: &W, m: &Model, a: &[T], b: &[T]) {
    w.case(
        || format!("{} {} / {}", M::ST, show(a), show(b)),
        || {
            let (x, y) = (M::new(a), M::new(b));
            w.state(&(M::ST, std::any::type_name::<T>(), fp(a), fp(b)));
            let q = x.quo(&y);
            let v = q[0].vals(m.n);
            w.reach(&v);
            w.trans(3);
            for (k, r) in q.iter().enumerate() {
                same(&format!("form {k}"), r, &v)?;
            }
            let back = m.mul(&v, b);
            ensure(|| format!("(a/b)*b is {back:?}"), back == a)?;
            same("(a/b)*b in the library", &q[0].mul_(&y), a)?;
            same("a/1", &x.quo(&M::one_())[0], a)?;
            same("dividend afterwards", &x, a)?;
            same("divisor afterwards", &y, b)
        },
    );
}
fn selfs<T: Co, M: DivMv<T>>(w: &W, m: &Model, b: &[T]) {
    w.case(
        || format!("{} {} / itself", M::ST, show(b)),
        || {
            let y = M::new(b);
            w.state(&(M::ST, "self", fp(b)));
            w.trans(3);
            same("b/b", &y.quo(&y)[0], &m.one::<T>())?;
            let i = M::one_().quo(&y)[0].clone();
            same("b*(1/b)", &y.mul_(&i), &m.one::<T>())?;
            same("(1/b)*b", &i.mul_(&y), &m.one::<T>())?;
            same("0/b", &M::zero_().quo(&y)[0], &m.zero::<T>())
        },
    );
}
/// Every pair over a finite field whose divisor is invertible.
fn field<const P: u64, M: DivMv<Zn<P>>>(w: &W, m: &Model) {
    let al: Vec<Zn<P>> = (0..P).map(Zn).collect();
    let vs = list_vecs(&al, m.n);
    for b in &vs {
        let inv = norm2(m, b).inv().is_some();
        w.count(if inv { "invertible divisors" } else { "non-invertible divisors skipped" }, 1);
        if inv {
            selfs::<Zn<P>, M>(w, m, b);
            for a in &vs {
                exact::<Zn<P>, M>(w, m, a, b);
            }
        }
        if w.stopped() {
            return;
        }
    }
}
fn rationals<M: DivMv<Ratio<i64>>>(w: &W, m: &Model, al: &[i64]) {
    let vs: Vec<Vec<Ratio<i64>>> = list_vecs(al, m.n).into_iter().map(|v| v.iter().enumerate().map(|(k, x)| Ratio::new(*x, 1 + k as i64 % 3)).collect()).collect();
    for b in &vs {
        if b.iter().all(|c| c.is_zero()) {
            continue;
        }
        selfs::<Ratio<i64>, M>(w, m, b);
        for a in &vs {
            exact::<Ratio<i64>, M>(w, m, a, b);
        }
    }
}
fn floats<T: Co + DivRing, M: DivMv<T>>(w: &W, m: &Model, vs: &[Vec<T>], of: fn(&T) -> C, eps: f64) {
    for b in vs {
        let cb: Vec<C> = b.iter().map(of).collect();
        let nb = norm2(m, &cb);
        if nb.norm() < 1e-300 {
            continue;
        }
        for a in vs {
            w.case(
                || format!("{} {} / {}", M::ST, show(a), show(b)),
                || {
                    let ca: Vec<C> = a.iter().map(of).collect();
                    let conj = m.flip(&m.rev(&cb), m.n - 1);
                    let want: Vec<C> = m.mul(&ca, &conj).iter().map(|c| c / nb).collect();
                    let q = M::new(a).quo(&M::new(b));
                    w.state(&(M::ST, fp(a), fp(b)));
                    w.reach(&want);
                    for x in &q {
                        w.trans(1);
                        let got: Vec<C> = x.vals(m.n).iter().map(of).collect();
                        near_vec("quotient", &got, &want, eps * (1e-300 + cmax(&ca) * cmax(&cb) / nb.norm()))?;
                    }
                    Ok(())
                },
            );
        }
    }
}
/// The library's quaternions against Hamilton's rules, written in i, j, k coordinates.
fn hamilton(x: [i64; 4], y: [i64; 4]) -> [i64; 4] {
    let [a, b, c, d] = x;
    let [e, f, g, h] = y;
    [a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e]
}
fn quat_basics(w: &W) {
    type Q = Quaternion<i64>;
    let of = |v: &[i64]| Q::one_().scale_forms(&v[0])[0] + Q::i() * v[1] + Q::j() * v[2] + Q::k() * v[3];
    w.case(
        || "units".into(),
        || {
            let (i, j, k) = (Q::i(), Q::j(), Q::k());
            let m1 = -Q::one_();
            w.state(&"units");
            w.trans(9);
            for (n, a, b) in [("i^2", i * i, m1), ("j^2", j * j, m1), ("k^2", k * k, m1), ("ijk", i * j * k, m1), ("ij", i * j, k), ("jk", j * k, i), ("ki", k * i, j), ("ji", j * i, -k), ("kj", k * j, -i), ("ik", i * k, -j)] {
                ensure(|| format!("{n} is {:?}", a.vals(4)), a == b)?;
            }
            Ok(())
        },
    );
    let al: &[i64] = if w.deep { &[-3, -2, -1, 0, 1, 3] } else { &[-2, -1, 0, 1, 3] };
    let vs = list_vecs(al, 4);
    for v in &vs {
        w.case(
            || format!("conjugate and norm of {v:?}"),
            || {
                let q = of(v);
                w.state(&fp(v));
                w.reach(&q.vals(4));
                w.trans(4);
                let neg: Vec<i64> = vec![v[0], -v[1], -v[2], -v[3]];
                ensure(|| "conj".into(), q.conj() == of(&neg))?;
                ensure(|| "conj twice".into(), q.conj().conj() == q)?;
                ensure(|| "conj is flip of rev".into(), q.conj() == q.rev().flip())?;
                let n2: i64 = v.iter().map(|x| x * x).sum();
                ensure(|| "q*conj(q)".into(), q * q.conj() == Q::scalar_(n2) && q.conj() * q == Q::scalar_(n2))?;
                let f = Quaternion::<f64>::new(&q.vals(4).iter().map(|x| *x as f64).collect::<Vec<_>>());
                ensure(|| format!("norm {}", f.norm()), (f.norm() - (n2 as f64).sqrt()).abs() < 1e-12)?;
                let g = Quaternion::<C>::new(&q.vals(4).iter().map(|x| C::new(0., *x as f64)).collect::<Vec<_>>());
                ensure(|| format!("norm over complex numbers {}", g.norm()), (g.norm() - (n2 as f64).sqrt()).abs() < 1e-12)
            },
        );
        for u in &vs {
            w.case(
                || format!("product of {v:?} and {u:?}"),
                || {
                    let (x, y) = (of(v), of(u));
                    let p = hamilton([v[0], v[1], v[2], v[3]], [u[0], u[1], u[2], u[3]]);
                    w.state(&(fp(v), fp(u)));
                    w.trans(4);
                    for (k, r) in [x * y, &x * &y, &x * y, x * &y].iter().enumerate() {
                        ensure(|| format!("product form {k}"), *r == of(&p))?;
                    }
                    ensure(|| "sum".into(), x + y == of(&[v[0] + u[0], v[1] + u[1], v[2] + u[2], v[3] + u[3]]))?;
                    ensure(|| "difference".into(), x - y == of(&[v[0] - u[0], v[1] - u[1], v[2] - u[2], v[3] - u[3]]))?;
                    // the same product in Cl(0,2)
                    let m = Multivector::<i64, QuaternionAlgebra>::new(&x.vals(4)) * Multivector::<i64, QuaternionAlgebra>::new(&y.vals(4));
                    same("dense product", &m, &(x * y).vals(4))?;
                    ensure(|| "conjugate of a product".into(), (x * y).conj() == y.conj() * x.conj())
                },
            );
        }
        if w.stopped() {
            return;
        }
    }
}
fn float_ops(n: usize) -> Vec<Vec<C>> {
    let mut r: Vec<Vec<C>> = list_vecs(if n == 2 { &[-2, -1, 0, 1, 3] } else { &[-1, 0, 2] }, n).iter().map(|v| cx(v)).collect();
    let k = r.len();
    for i in (0..k).step_by(7) {
        for e in [-400, -40, 40, 400] {
            r.push(r[i].iter().map(|c| c * 2f64.powi(e)).collect());
        }
    }
    r.push(vec![C::new(1., 0.), C::new(2f64.powi(-30), 0.), C::new(0., 0.), C::new(2f64.powi(20), 0.)][..n].to_vec());
    r
}
fn f(x: &f64) -> C {
    C::new(*x, 0.)
}
fn g(x: &f32) -> C {
    C::new(*x as f64, 0.)
}
fn h(x: &C) -> C {
    *x
}
fn float_task<A: Alg + DivisionAlgebra>(w: &W) {
    let m = Model::of::<A>();
    let cs = float_ops(m.n);
    let cs: Vec<Vec<C>> = cs.into_iter().filter(|v| { let s = cmax(v); s == 0. || (s > 1e-100 && s < 1e100) }).collect();
    let rs: Vec<Vec<f64>> = cs.iter().map(|v| v.iter().map(|c| c.re).collect()).collect();
    let ss: Vec<Vec<f32>> = rs.iter().filter(|v| v.iter().all(|c| c.abs() < 1e6 && (*c == 0. || c.abs() > 1e-3))).map(|v| v.iter().map(|c| *c as f32).collect()).collect();
    floats::<f64, Multivector<f64, A>>(w, &m, &rs, f, 1e-13);
    floats::<f64, SparseMultivector<f64, A>>(w, &m, &rs, f, 1e-13);
    floats::<f32, Multivector<f32, A>>(w, &m, &ss, g, 1e-5);
    // complex coefficients: divisors may be zero divisors, those are skipped
    let al: &[C] = &[C::new(0., 0.), C::new(1., 0.), C::new(0., -1.), C::new(1., 2.)];
    let vs = list_vecs(al, m.n);
    floats::<C, Multivector<C, A>>(w, &m, &vs, h, 1e-13);
    floats::<C, SparseMultivector<C, A>>(w, &m, &vs, h, 1e-13);
}
fn finite<A: Alg + DivisionAlgebra>(w: &W) {
    let m = Model::of::<A>();
    if m.d == 1 {
        field::<11, Multivector<Zn<11>, A>>(w, &m);
        field::<11, SparseMultivector<Zn<11>, A>>(w, &m);
        field::<13, Multivector<Zn<13>, A>>(w, &m);
        field::<9, Multivector<Zn<9>, A>>(w, &m);
        field::<8, SparseMultivector<Zn<8>, A>>(w, &m);
        rationals::<Multivector<Ratio<i64>, A>>(w, &m, &[-3, -2, -1, 0, 1, 2, 5]);
        rationals::<SparseMultivector<Ratio<i64>, A>>(w, &m, &[-3, -2, -1, 0, 1, 2, 5]);
    } else {
        field::<3, Multivector<Z3, A>>(w, &m);
        field::<3, SparseMultivector<Z3, A>>(w, &m);
        field::<4, Multivector<Z4, A>>(w, &m);
        field::<5, Multivector<Zn<5>, A>>(w, &m);
        field::<5, SparseMultivector<Zn<5>, A>>(w, &m);
        if w.deep {
            field::<7, Multivector<Zn<7>, A>>(w, &m);
        }
        rationals::<Multivector<Ratio<i64>, A>>(w, &m, &[-2, -1, 0, 1, 3]);
        rationals::<SparseMultivector<Ratio<i64>, A>>(w, &m, &[-1, 0, 2]);
    }
    let zp = |s| spread_zp(m.n, s);
    for s in 0..20 {
        exact::<Zp, Multivector<Zp, A>>(w, &m, &zp(s), &zp(s + 30));
        exact::<Zp, SparseMultivector<Zp, A>>(w, &m, &zp(s), &zp(s + 30));
    }
}
fn quat_div(w: &W) {
    let m = Model::of::<QuaternionAlgebra>();
    field::<3, Quaternion<Z3>>(w, &m);
    field::<5, Quaternion<Zn<5>>>(w, &m);
    if w.deep {
        field::<7, Quaternion<Zn<7>>>(w, &m);
    }
    rationals::<Quaternion<Ratio<i64>>>(w, &m, &[-1, 0, 2]);
    for s in 0..20 {
        exact::<Zp, Quaternion<Zp>>(w, &m, &spread_zp(4, s), &spread_zp(4, s + 30));
    }
    let cs: Vec<Vec<C>> = float_ops(4).into_iter().filter(|v| { let s = cmax(v); s == 0. || (s > 1e-100 && s < 1e100) }).collect();
    let rs: Vec<Vec<f64>> = cs.iter().map(|v| v.iter().map(|c| c.re).collect()).collect();
    floats::<f64, Quaternion<f64>>(w, &m, &rs, f, 1e-13);
    let vs = list_vecs(&[C::new(0., 0.), C::new(1., 0.), C::new(1., 2.)], 4);
    floats::<C, Quaternion<C>>(w, &m, &vs, h, 1e-13);
}
fn tasks<A: Alg + DivisionAlgebra>(c: &mut Check, sig: &str) {
    c.alg_task::<A>("exact division", sig, 100, finite::<A>);
    c.alg_task::<A>("floating division", sig, 90, float_task::<A>);
}
fn main() {
    let mut c = Check::full("C21");
    c.bounds = "Cl(0,1): every pair over Z/8, Z/9, Z/11, Z/13 with invertible divisor and rationals; Cl(0,2) dense, sparse and quaternion storage: every pair over Z/3, Z/4, Z/5 (thorough: Z/7), rationals, a large prime field; floating point real and complex values at several scales; quaternion products, sums, conjugates and norms over all small integer pairs against Hamilton's rules".into();
    c.assume("coefficients commute; divisors whose norm is not a unit are skipped");
    c.task("quaternion arithmetic", 1000, quat_basics);
    tasks::<A_m>(&mut c, "-");
    tasks::<A_mm>(&mut c, "--");
    tasks::<QuaternionAlgebra>(&mut c, "--");
    c.task("quaternion division", 800, quat_div);
    c.run()
}
