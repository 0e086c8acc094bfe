//! C08: sums, scalings, comparison and operator forms.
use num::complex::{Complex32, Complex64, Complex64 as C64, ComplexFloat};
use num::rational::Ratio;
use vharness::tclifford::quaternion::Quaternion;
use vharness::tclifford::{Multivector, Norm, SparseMultivector};
use vharness::*;

#[derive(Clone, Copy)]
struct Sums;
impl Bin for Sums {
    fn pair<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, b: &M, ra: &[T], rb: &[T]) -> Result<(), String> {
        let (s, d) = (vadd(ra, rb), vsub(ra, rb));
        w.reach(&s);
        w.reach(&d);
        w.trans(6);
        for (k, x) in a.add_forms(b).iter().enumerate() {
            same(&format!("a+b, form {k}"), x, &s)?;
        }
        for (k, x) in a.sub_forms(b).iter().enumerate() {
            same(&format!("a-b, form {k}"), x, &d)?;
        }
        w.trans(4);
        let eq = ra == rb;
        same_val("a == b", a == b, eq)?;
        same_val("b == a", b == a, eq)?;
        same_val("a != b", a != b, !eq)?;
        same_val("a-b is zero", a.sub_(b).is_zero_(), d.iter().all(|c| c.is_zero()))?;
        // a difference that cancels completely or partly must compare equal to a fresh value
        let x = a.add_(b).sub_(b);
        same("(a+b)-b", &x, &vsub(&s, rb))?;
        same_val("(a+b)-b == a", x == *a, vsub(&s, rb) == ra)?;
        let _ = m;
        Ok(())
    }
}
#[derive(Clone, Copy)]
struct Single;
impl Un for Single {
    fn one<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, ra: &[T]) -> Result<(), String> {
        let neg = vneg(ra);
        w.reach(&neg);
        for (k, x) in a.neg_forms().iter().enumerate() {
            same(&format!("-a, form {k}"), x, &neg)?;
        }
        let two = T::one() + T::one();
        for c in [T::zero(), T::one(), -T::one(), two.clone(), ra[0].clone(), ra[m.n - 1].clone()] {
            let want = vscale(ra, &c);
            w.reach(&want);
            w.trans(3);
            for (k, x) in a.scale_forms(&c).iter().enumerate() {
                same(&format!("a*({c:?}), form {k}"), x, &want)?;
            }
        }
        w.trans(8);
        same_val("is_zero", a.is_zero_(), ra.iter().all(|c| c.is_zero()))?;
        same_val("is_one", a.is_one_(), ra.iter().enumerate().all(|(i, c)| if i == 0 { *c == T::one() } else { c.is_zero() }))?;
        same("a+0", &a.add_(&M::zero_()), ra)?;
        same("0+a", &M::zero_().add_(a), ra)?;
        same("a-0", &a.sub_(&M::zero_()), ra)?;
        same("0-a", &M::zero_().sub_(a), &neg)?;
        ensure(|| "a-a is not zero".into(), a.sub_(a) == M::zero_() && a.sub_(a).is_zero_())?;
        ensure(|| "a != a".into(), a == a && *a == a.clone())?;
        same("a.clone()", &a.clone(), ra)
    }
}
fn consts<A: Alg>(w: &W) {
    fn go<T: Co, M: Mv<T>>(w: &W, m: &Model, c: T) {
        w.case(
            || format!("zero, one, from_scalar over {}, {}", std::any::type_name::<T>(), M::ST),
            || {
                w.state(&(M::ST, std::any::type_name::<T>()));
                w.trans(3);
                same("zero()", &M::zero_(), &m.zero())?;
                same("one()", &M::one_(), &m.one())?;
                same("from_scalar", &M::scalar_(c.clone()), &blade(m.n, 0, c.clone()))?;
                ensure(|| "zero is not zero".into(), M::zero_().is_zero_() && !M::zero_().is_one_())?;
                ensure(|| "one is not one".into(), M::one_().is_one_() && !M::one_().is_zero_())
            },
        );
    }
    let m = Model::of::<A>();
    go::<i64, Multivector<i64, A>>(w, &m, -7);
    go::<i64, SparseMultivector<i64, A>>(w, &m, -7);
    go::<Sym, Multivector<Sym, A>>(w, &m, Sym::var(1));
    go::<Sym, SparseMultivector<Sym, A>>(w, &m, Sym::var(1));
    go::<Complex64, SparseMultivector<Complex64, A>>(w, &m, Complex64::new(1., 2.));
}
/// Division by a coefficient, exactly over the rationals and a prime field.
fn div<A: Alg>(w: &W) {
    fn go<T: Co + vharness::tclifford::types::DivRing, M: MvDiv<T>>(w: &W, m: &Model, a: Vec<T>, cs: &[T]) {
        for c in cs {
            w.case(
                || format!("({}) / {c:?}, {}", show(&a), M::ST),
                || {
                    let want: Vec<T> = a.iter().map(|x| x.clone() / c.clone()).collect();
                    w.state(&(M::ST, fp(&a)));
                    w.reach(&want);
                    let x = M::new(&a);
                    for (k, q) in x.div_forms(c).iter().enumerate() {
                        w.trans(1);
                        same(&format!("a/c, form {k}"), q, &want)?;
                    }
                    same("operand afterwards", &x, &a)
                },
            );
        }
        let _ = m;
    }
    let m = Model::of::<A>();
    let r = |a: i64, b: i64| Ratio::new(a, b);
    let cs = [r(1, 1), r(-1, 1), r(2, 1), r(3, 5), r(-7, 2)];
    let full: Vec<Ratio<i64>> = (0..m.n).map(|i| r(i as i64 - 3, 1 + (i as i64 % 4))).collect();
    go::<_, Multivector<_, A>>(w, &m, full.clone(), &cs);
    go::<_, SparseMultivector<_, A>>(w, &m, full, &cs);
    for i in 0..m.n {
        go::<_, Multivector<_, A>>(w, &m, blade(m.n, i, r(3, 4)), &cs);
        go::<_, SparseMultivector<_, A>>(w, &m, blade(m.n, i, r(3, 4)), &cs);
    }
    // truncating division; coefficients that do not commute
    let ints: Vec<i64> = ints(m.n, 1).iter().map(|x| x * 5).collect();
    go::<i64, Multivector<i64, A>>(w, &m, ints.clone(), &[1, -1, 2, 3, -7, 40, -41]);
    go::<i64, SparseMultivector<i64, A>>(w, &m, ints, &[1, -1, 2, 3, -7, 40, -41]);
    type Q = Quaternion<Ratio<i64>>;
    let q = |v: [i64; 4]| Q::new(&v.map(|x| r(x, 2)));
    let full: Vec<Q> = (0..m.n as i64).map(|i| q([i % 5 - 2, i % 3, i % 7 - 3, 1])).collect();
    let qs = [q([0, 2, 0, 0]), q([1, -1, 1, 1]), q([0, 0, -3, 4])];
    go::<Q, Multivector<Q, A>>(w, &m, full.clone(), &qs);
    go::<Q, SparseMultivector<Q, A>>(w, &m, full, &qs);
    let z: Vec<Zn<7>> = (0..m.n).map(|i| Zn((i as u64 * 3 + 1) % 7)).collect();
    let units: Vec<Zn<7>> = (1..7).map(Zn).collect();
    go::<_, Multivector<_, A>>(w, &m, z.clone(), &units);
    go::<_, SparseMultivector<_, A>>(w, &m, z, &units);
}
/// Division over the floating-point numbers, at several scales, to the last few digits.
fn div_floats<A: Alg>(w: &W) {
    fn go<T: Co + vharness::tclifford::types::DivRing + ComplexFloat<Real = f64>, M: MvDiv<T>>(w: &W, a: Vec<T>, c: T) {
        w.case(
            || format!("({}) / {c:?}, {}", show(&a), M::ST),
            || {
                w.state(&("floats", M::ST, fp(&a)));
                for (k, q) in M::new(&a).div_forms(&c).iter().enumerate() {
                    w.trans(1);
                    for (i, x) in a.iter().enumerate() {
                        let (got, want) = (q.get(i), x.clone() / c.clone());
                        ensure(|| format!("a/c, form {k}: {got:?} at {i:#b}, should be {want:?}"), (got.clone() - want.clone()).abs() <= 4e-15 * want.abs())?;
                    }
                }
                Ok(())
            },
        );
    }
    let n = 1usize << A::sig().len();
    for (e, f) in [(0, 0), (-300, 0), (300, 0), (0, -300), (0, 300), (-300, 300), (300, -300), (200, 200), (-200, -200)] {
        for c in [C64::new(3., 0.), C64::new(-7., 2.)] {
            let a = at_scale(&cints(n, 1), e);
            let c = at_scale(&[c], f)[0];
            go::<f64, Multivector<f64, A>>(w, a.iter().map(|x| x.re).collect(), c.re);
            go::<f64, SparseMultivector<f64, A>>(w, a.iter().map(|x| x.re).collect(), c.re);
            go::<C64, Multivector<C64, A>>(w, a.clone(), c);
            go::<C64, SparseMultivector<C64, A>>(w, a, c);
        }
    }
}
/// approx_eq is true exactly when every coefficient differs by less than the precision.
macro_rules! approx {
    ($w:expr, $n:expr, $mv:ty, $t:ty, $base:expr, $deltas:expr) => {
        for i in 0..$n {
            for j in 0..$n {
                for (dk, d) in $deltas.iter().enumerate() {
                    for (ek, e) in $deltas.iter().enumerate() {
                        for prec in [1e-3f64, 0.5, 1.0, 4.0] {
                            $w.case(
                                || format!("approx_eq {} differing by {d:?} at {i:#b} and {e:?} at {j:#b}, precision {prec}", stringify!($mv)),
                                || {
                                    let a: Vec<$t> = (0..$n).map(|k| $base[k % $base.len()]).collect();
                                    let mut b = a.clone();
                                    b[i] = b[i] + *d;
                                    if i != j {
                                        b[j] = b[j] + *e;
                                    }
                                    let want = a.iter().zip(&b).all(|(x, y)| ((*x - *y).abs() as f64) < prec);
                                    $w.state(&(stringify!($mv), i, j, dk, ek, prec.to_bits()));
                                    $w.trans(2);
                                    let (x, y) = (<$mv>::new(&a), <$mv>::new(&b));
                                    same_val("approx_eq", x.approx_eq(&y, prec), want)?;
                                    same_val("approx_eq swapped", y.approx_eq(&x, prec), want)
                                },
                            );
                        }
                    }
                }
            }
        }
    };
}
fn approx<A: Alg>(w: &W) {
    let n = 1usize << A::sig().len();
    let c = |a, b| Complex64::new(a, b);
    approx!(w, n, Multivector<f64, A>, f64, [0.0f64, 2.0, -1.0], [0.0f64, 0.25, -0.5, 2.0, -8.0]);
    approx!(w, n, SparseMultivector<f64, A>, f64, [0.0f64, 2.0, -1.0], [0.0f64, 0.25, -0.5, 2.0, -8.0]);
    approx!(w, n, SparseMultivector<Complex64, A>, Complex64, [c(0., 1.), c(2., 0.)], [c(0., 0.), c(0., 0.25), c(3., -4.), c(0., -0.5)]);
    approx!(w, n, Multivector<Complex32, A>, Complex32, [Complex32::new(0., 1.), Complex32::new(2., 0.)], [Complex32::new(0., 0.), Complex32::new(0., -0.5), Complex32::new(3., -4.)]);
    approx!(w, n, Multivector<f32, A>, f32, [0.0f32, 2.0], [0.0f32, 0.25, -8.0]);
}
fn quat_approx(w: &W) {
    approx!(w, 4, Quaternion<f64>, f64, [0.0f64, 2.0, -1.0], [0.0f64, 0.25, -0.5, 2.0, -8.0]);
    let m = Model::new(&Sig::new("--"));
    let r = |a: i64, b: i64| Ratio::new(a, b);
    let cs = [r(1, 1), r(-1, 1), r(2, 1), r(3, 5)];
    all_vecs(&[r(0, 1), r(1, 2), r(-3, 1)], 4, |v| {
        for c in &cs {
            w.case(
                || format!("quaternion ({}) / {c}", show(v)),
                || {
                    let want: Vec<_> = v.iter().map(|x| x / c).collect();
                    w.reach(&want);
                    for (k, q) in Quaternion::<Ratio<i64>>::new(v).div_forms(c).iter().enumerate() {
                        w.trans(1);
                        same(&format!("a/c, form {k}"), q, &want)?;
                    }
                    Ok(())
                },
            );
        }
    });
    let _ = m;
    // Norm of scalars as used by approx_eq
    w.case(|| "norms of coefficients".into(), || {
        w.trans(4);
        same_val("f64", Norm::norm(&-2.0f64), 2.0)?;
        same_val("f32", Norm::norm(&-2.0f32), 2.0)?;
        same_val("Complex64", Norm::norm(&Complex64::new(3., -4.)), 5.0)?;
        same_val("Quaternion", Norm::norm(&Quaternion::<f64>::new(&[1., -1., 1., -1.])), 2.0)
    });
}
struct More<'a>(&'a mut Check);
impl Visitor for More<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("constants", sig, 1, consts::<A>);
        self.0.alg_task::<A>("division", sig, 1 << 12, div::<A>);
        self.0.alg_task::<A>("division of floats", sig, 1 << 12, div_floats::<A>);
        if sig.len() <= 3 {
            self.0.alg_task::<A>("approximate equality", sig, 1 << 20, approx::<A>);
        }
    }
}
struct Big<'a>(&'a mut Check);
impl Visitor for Big<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("structured blades", sig, 1 << 22, |w| {
            let f = blade_family(A::sig().len());
            type S<A> = SparseMultivector<i64, A>;
            for &i in &f {
                for &j in &f {
                    w.case(
                        || format!("blades {i:#b}, {j:#b}"),
                        || {
                            w.state(&(i, j));
                            w.trans(5);
                            let (x, y) = (S::<A>::from_blade(i, 3), S::<A>::from_blade(j, -3));
                            let sorted = |v: S<A>| {
                                let mut e = v.entries();
                                e.sort();
                                e
                            };
                            let mut two = vec![(i, 3), (j, -3)];
                            two.sort();
                            same_val("a+b", sorted(x.add_(&y)), if i == j { vec![] } else { two })?;
                            let mut two = vec![(i, 3), (j, 3)];
                            two.sort();
                            same_val("a-b", sorted(x.sub_(&y)), if i == j { vec![(i, 6)] } else { two })?;
                            same_val("-a", sorted(-&x), vec![(i, -3)])?;
                            same_val("a*2", sorted(&x * 2), vec![(i, 6)])?;
                            same_val("a == -b", x == -&y, i == j)
                        },
                    );
                    if w.stopped() {
                        return;
                    }
                }
            }
        });
    }
}
fn main() {
    let mut c = Check::new("C08");
    c.bounds = "every signature with d<=6: symbolic generic operands (full and cancelling), all pairs of blades, one-hole operands, all support pairs (d<=2 quick, d<=3 thorough), all value pairs over Z/4 and small integers (d<=2), values (d<=3); division over rationals, integers, quaternions, a prime field and (to 4e-15) floating-point numbers at nine scales; approx_eq over all pairs of positions and a set of differences around each precision (d<=3); all owned/borrowed forms; d=7..10 full; d up to 63 structured blades; seven signatures each of d=11..14 (thorough 16): full operands (d<=12), families of blades, vectors with full operands".into();
    add_pairs(&mut c, Sums);
    add_ones(&mut c, Single);
    visit_sigs(&legal_upto(4), &mut More(&mut c));
    visit_sigs(&counts(5), &mut More(&mut c));
    visit_sigs(&counts(6), &mut More(&mut c));
    decl_mid(&mut More(&mut c));
    visit_sigs(&big_sigs(), &mut Big(&mut c));
    decl_big(&mut Big(&mut c));
    c.task("quaternions", 1 << 20, quat_approx);
    c.run()
}
