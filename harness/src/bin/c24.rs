//! C24: results depend on the operands only — not on what ran before, what runs in other threads,
//! or what runs inside the coefficient arithmetic.
use num::complex::Complex64 as C64;
use num::{One, Zero};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::ops::{Add, Div, Mul, Neg, Sub};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use vharness::tclifford::clifft;
use vharness::tclifford::pga::PGAMV;
use vharness::tclifford::quaternion::Quaternion;
use vharness::tclifford::types::{FromComplex, IntoComplex64};
use vharness::tclifford::{ClAlgebra, FFTRepr, Multivector, SparseMultivector};
use vharness::*;

// ---- a coefficient whose every operation is a scheduling point ----

thread_local! {
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static CTX: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    /// Operation to run inside the coefficient operation with the given number, and its result.
    static NEST: Cell<Option<(u64, usize)>> = const { Cell::new(None) };
    static INNER: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn tick() {
    let n = SEEN.get() + 1;
    SEEN.set(n);
    if let Some((k, op)) = NEST.get() {
        if k == n {
            NEST.set(None);
            let r = run_op(op);
            INNER.with(|i| *i.borrow_mut() = Some(r));
        }
    }
    CTX.with(|c| {
        if let Some((s, id)) = &*c.borrow() {
            s.point(*id)
        }
    });
}
#[derive(Debug)]
struct Yc(i64);
impl Clone for Yc {
    fn clone(&self) -> Yc {
        tick();
        Yc(self.0)
    }
}
impl Copy for Yc {}
impl PartialEq for Yc {
    fn eq(&self, o: &Yc) -> bool {
        tick();
        self.0 == o.0
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $op:tt) => {
        impl $tr for Yc { type Output = Yc; fn $f(self, r: Yc) -> Yc { tick(); Yc(self.0 $op r.0) } }
        impl $tr<&Yc> for &Yc { type Output = Yc; fn $f(self, r: &Yc) -> Yc { tick(); Yc(self.0 $op r.0) } }
    };
}
bin!(Add, add, +);
bin!(Sub, sub, -);
bin!(Mul, mul, *);
bin!(Div, div, /);
impl Neg for Yc {
    type Output = Yc;
    fn neg(self) -> Yc {
        tick();
        Yc(-self.0)
    }
}
impl Neg for &Yc {
    type Output = Yc;
    fn neg(self) -> Yc {
        tick();
        Yc(-self.0)
    }
}
impl Zero for Yc {
    fn zero() -> Yc {
        tick();
        Yc(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0
    }
}
impl One for Yc {
    fn one() -> Yc {
        tick();
        Yc(1)
    }
}
impl IntoComplex64 for Yc {
    fn into_complex(&self) -> C64 {
        tick();
        C64::new(self.0 as f64, 0.)
    }
}
impl FromComplex for Yc {
    fn from_complex(c: C64) -> Yc {
        tick();
        Yc(c.re.round() as i64)
    }
}
impl std::fmt::Display for Yc {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        tick();
        write!(f, "{}", self.0)
    }
}

impl std::fmt::LowerExp for Yc {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        tick();
        f.write_str(if f.sign_plus() { "+" } else { "" })?;
        write!(f, "{:.*e}", f.precision().unwrap_or(0), self.0 as f64)
    }
}
impl std::fmt::UpperExp for Yc {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        tick();
        write!(f, "{:.*E}", f.precision().unwrap_or(0), self.0 as f64)
    }
}

// ---- the controlled scheduler ----

/// Lets one of the threads run at a time. A schedule is a list of (thread, coefficient operations);
/// when it is used up every thread runs to its end in turn.
struct Sched {
    cur: AtomicUsize,
    steps: AtomicU64,
    limit: AtomicU64,
    st: Mutex<St>,
    cv: Condvar,
}
struct St {
    plan: Vec<(usize, u64)>,
    next: usize,
    done: Vec<bool>,
}
impl Sched {
    fn new(n: usize, plan: &[(usize, u64)]) -> Arc<Sched> {
        let s = Sched {
            cur: AtomicUsize::new(usize::MAX),
            steps: AtomicU64::new(0),
            limit: AtomicU64::new(u64::MAX),
            st: Mutex::new(St { plan: plan.to_vec(), next: 0, done: vec![false; n] }),
            cv: Condvar::new(),
        };
        s.advance(&mut s.st.lock().unwrap());
        Arc::new(s)
    }
    /// Pick the thread that runs next.
    fn advance(&self, st: &mut St) {
        while st.next < st.plan.len() {
            let (t, n) = st.plan[st.next];
            st.next += 1;
            if !st.done[t] {
                self.limit.store(self.steps.load(SeqCst) + n, SeqCst);
                self.cur.store(t, SeqCst);
                self.cv.notify_all();
                return;
            }
        }
        self.limit.store(u64::MAX, SeqCst);
        if let Some(t) = st.done.iter().position(|d| !d) {
            self.cur.store(t, SeqCst);
        }
        self.cv.notify_all();
    }
    fn wait(&self, id: usize) {
        let mut st = self.st.lock().unwrap();
        while self.cur.load(SeqCst) != id {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn point(&self, id: usize) {
        if self.cur.load(SeqCst) != id {
            self.wait(id);
        }
        let n = self.steps.fetch_add(1, SeqCst);
        if n >= self.limit.load(SeqCst) {
            self.advance(&mut self.st.lock().unwrap());
            self.wait(id);
        }
    }
    fn finish(&self, id: usize) {
        let mut st = self.st.lock().unwrap();
        st.done[id] = true;
        if self.cur.load(SeqCst) == id {
            self.advance(&mut st);
        }
        self.cv.notify_all();
    }
    /// Wait for the end. A thread that neither moves nor ends waits for a lock held by a suspended
    /// one: let another go on. Returns how often that happened.
    fn supervise(&self) -> u64 {
        let mut stalls = 0;
        let mut st = self.st.lock().unwrap();
        while !st.done.iter().all(|d| *d) {
            let before = self.steps.load(SeqCst);
            let (g, to) = self.cv.wait_timeout(st, std::time::Duration::from_millis(300)).unwrap();
            st = g;
            let c = self.cur.load(SeqCst);
            if to.timed_out() && self.steps.load(SeqCst) == before && !st.done.iter().all(|d| *d) {
                let n = st.done.len();
                if let Some(t) = (1..n).map(|k| (c + k) % n).find(|t| !st.done[*t]) {
                    stalls += 1;
                    self.limit.store(u64::MAX, SeqCst);
                    self.cur.store(t, SeqCst);
                    self.cv.notify_all();
                }
            }
        }
        stalls
    }
}

// ---- the operations ----

type Fp = String;
fn text<T: std::fmt::Debug>(x: T) -> Fp {
    format!("{x:?}")
}
fn sorted<T: Co, M: Mv<T>>(m: &M) -> Fp {
    let mut e: Vec<(usize, String)> = m.entries().iter().map(|(i, c)| (*i, format!("{c:?}"))).collect();
    e.sort();
    text(e)
}
/// Two operands shared by every operation on them.
struct Pair<A: Alg> {
    x: Multivector<Yc, A>,
    y: Multivector<Yc, A>,
    xs: SparseMultivector<Yc, A>,
    ys: SparseMultivector<Yc, A>,
    /// Made when first asked for, so that other operations run without a transform before them.
    fx: OnceLock<Shared<FFTRepr<A>>>,
}
/// Shared between threads whether or not the compiler agrees; `sharable` reports what it thinks.
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSharable {
    fn sharable(&self) -> bool {
        false
    }
}
impl<T> NotSharable for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn sharable(&self) -> bool {
        true
    }
}

trait System {
    fn run(&self, k: usize) -> Fp;
    fn operands(&self) -> Fp;
}
const OPS: [&str; 45] = [
    "add", "sub", "mul", "neg", "wedge", "meet", "pow", "rev", "flip", "flip_subspace", "dual", "undual", "vdot", "vsdot", "mag2", "scale", "equal", "is_zero",
    "grade", "vector", "convert", "naive products", "set", "clone", "print", "print reversed", "print exponents", "print flags", "zero and one", // for both storages up to here
    "fft", "ifft", "representation product", "representation reversal", "signs",
    "sparse add", "sparse sub", "sparse mul", "sparse wedge", "sparse meet", "sparse rev", "sparse dual", "sparse vdot", "sparse equal", "sparse grade", "sparse convert",
];
fn common<A: Alg, M: Mv<Yc>>(k: usize, x: &M, y: &M) -> Fp {
    let m = |r: M| sorted(&r);
    match OPS[k] {
        "add" => m(x.add_(y)),
        "sub" => m(x.sub_(y)),
        "mul" => m(x.mul_(y)),
        "neg" => m(x.neg_forms()[0].clone()),
        "wedge" => m(x.wedge_(y)),
        "meet" => m(x.meet_(y)),
        "pow" => m(x.pow_(3)),
        "rev" => m(x.rev_()),
        "flip" => m(x.flip_()),
        "flip_subspace" => m(x.flip_sub(1)),
        "dual" => m(x.dual_()),
        "undual" => m(y.undual_()),
        "vdot" => text(x.vdot_(y)),
        "vsdot" => text(x.vsdot_(y)),
        "mag2" => text(x.mag2_()),
        "scale" => m(x.scale_forms(&Yc(3))[0].clone()),
        "equal" => text((x == y, x == x)),
        "is_zero" => text((x.is_zero_(), x.is_one_())),
        "grade" => m(x.grade_(1)),
        "vector" => text(x.vector_()),
        "naive products" => text([sorted(&x.naive_mul(y)), sorted(&x.naive_wedge(y)), sorted(&x.naive_meet(y))]),
        "set" => m(x.clone().set(1, Yc(9))),
        "clone" => m(x.clone()),
        "zero and one" => text([sorted(&M::zero_()), sorted(&M::one_()), sorted(&M::scalar_(Yc(4)))]),
        _ => unreachable!(),
    }
}
impl<A: Alg> Pair<A> {
    fn rep(&self) -> &FFTRepr<A> {
        &self.fx.get_or_init(|| Shared(Multivector::<f64, A>::new(&self.x.entries().iter().map(|e| e.1 .0 as f64).collect::<Vec<_>>()).fft())).0
    }
}
impl<A: Alg> System for Pair<A> {
    fn run(&self, k: usize) -> Fp {
        let (x, y, xs, ys) = (&self.x, &self.y, &self.xs, &self.ys);
        let name = OPS[k];
        if let Some(n) = name.strip_prefix("sparse ") {
            if n == "convert" {
                return sorted(&xs.to_dense());
            }
            return common::<A, _>(OPS.iter().position(|o| *o == n).unwrap(), xs, ys);
        }
        match name {
            "convert" => sorted(&x.to_sparse()),
            "print" => format!("{x} | {y}"),
            "print reversed" => format!("{x:#} | {y:#}"),
            "print exponents" => format!("{x:e} | {y:E} | {x:#e} | {y:#E}"),
            "print flags" => format!("{x:+} | {y:.2} | {x:+#.3e} | {y:.1e}"),
            "fft" => text(x.fft().view()),
            "ifft" => sorted(&self.rep().ifft::<Yc>()),
            "representation product" => sorted(&(&x.fft() * &y.fft()).ifft::<Yc>()),
            "representation reversal" => sorted(&x.fft().rev().flip().ifft::<Yc>()),
            "signs" => {
                let n = 1usize << A::dim();
                text((0..n * n).map(|i| (A::blade_geo_product_sign(i % n, i / n) as i8, A::blade_wedge_product_sign(i % n, i / n) as i8)).collect::<Vec<_>>())
            }
            _ => common::<A, _>(k, x, y),
        }
    }
    fn operands(&self) -> Fp {
        text([sorted(&self.x), sorted(&self.y), sorted(&self.xs), sorted(&self.ys), text(self.rep().view())])
    }
}
fn pair<A: Alg>() -> Box<dyn System> {
    let n = 1usize << A::dim();
    let c = |s: usize| -> Vec<Yc> { (0..n).map(|i| Yc(((i * 7 + s * 5 + 3) % 9) as i64 - 4)).collect() };
    let (a, b) = (c(1), c(2));
    Box::new(Pair::<A> { fx: OnceLock::new(), x: Mv::new(&a), y: Mv::new(&b), xs: Mv::new(&a), ys: Mv::new(&b) })
}
/// Operations without scheduling points of their own: floating-point, matrices, special algebras.
struct Other;
const OTHER: [&str; 34] = [
    "f64 product d=2", "f64 product d=5", "f64 product d=7", "f64 wedge d=6", "f64 wedge d=7", "f64 meet d=6", "f64 dual d=6", "f64 exp d=2", "f64 exp d=3", "complex exp d=2",
    "fft d=3", "fft d=4", "fft d=6", "fft with nulls", "inverse d=3", "inverse d=4", "inverse of a singular one", "representation exp", "representation power", "half spin",
    "real transform d=2", "real transform d=4", "quaternion product", "quaternion quotient", "nested quaternions", "point", "translation", "clifft 4", "clifft 16", "real transform d=6",
    "sparse d=40", "labels", "i64 product d=4", "print precision",
];
fn fvals(n: usize, s: usize) -> Vec<f64> {
    (0..n).map(|i| ((i * 5 + s * 3 + 1) % 7) as f64 - 3.).collect()
}
fn fm<A: Alg>(s: usize) -> Multivector<f64, A> {
    Multivector::new(&fvals(1 << A::dim(), s))
}
impl System for Other {
    fn run(&self, k: usize) -> Fp {
        fn prod<A: Alg>() -> Fp {
            sorted(&(&fm::<A>(1) * &fm::<A>(2)))
        }
        match OTHER[k] {
            "f64 product d=2" => prod::<A_pm>(),
            "f64 product d=5" => prod::<A_mpmpm>(),
            "f64 product d=7" => prod::<A_7>(),
            "f64 wedge d=6" => sorted(&fm::<A_pmpmpm>(1).wedge_(&fm(2))),
            "f64 wedge d=7" => sorted(&fm::<A_7>(1).wedge_(&fm(2))),
            "f64 meet d=6" => sorted(&fm::<A_pmpmpm>(1).meet_(&fm(2))),
            "f64 dual d=6" => sorted(&fm::<A_pmpmpm>(1).dual()),
            "f64 exp d=2" => sorted(&fm::<A_pm>(1).exp()),
            "f64 exp d=3" => sorted(&(fm::<A_mmz>(1) * 0.25).exp()),
            "complex exp d=2" => sorted(&Multivector::<C64, A_pp>::new(&fvals(4, 1).iter().map(|x| C64::new(*x, 0.5)).collect::<Vec<_>>()).exp()),
            "fft d=3" => text(fm::<A_pmm>(1).fft().view()),
            "fft d=4" => text(fm::<A_mmpp>(1).fft().view()),
            "fft d=6" => text((&fm::<A_pmpmpm>(1).fft() * &fm::<A_pmpmpm>(2).fft()).ifft::<f64>().coeff_array_view()),
            "fft with nulls" => text((&fm::<A_pmzz>(1).fft() * &fm::<A_pmzz>(2).fft()).view()),
            "inverse d=3" => text(fm::<A_pmm>(1).fft().inv().map(|i| text(i.view()))),
            "inverse d=4" => text(fm::<A_mmpp>(1).fft().inv().map(|i| text(i.view()))),
            "inverse of a singular one" => text(Multivector::<f64, A_pp>::new(&[1., 1., 0., 0.]).fft().inv().map(|i| text(i.view()))),
            "representation exp" => text((fm::<A_pmm>(1) * 0.1).fft().exp().view()),
            "representation power" => text(fm::<A_pmz>(1).fft().pow(5).view()),
            "half spin" => {
                let (a, b) = fm::<A_mmpp>(1).filter(|i, _| i.count_ones() % 2 == 0).fft().into_half_spin_repr();
                text((a, b))
            }
            "real transform d=2" => text(fm::<A_pm>(1).real_fft()),
            "real transform d=4" => text(fm::<A_pmpm>(1).real_fft()),
            "quaternion product" => {
                let q = Quaternion::<f64>::new(&fvals(4, 1));
                sorted(&(q * Quaternion::new(&fvals(4, 2))))
            }
            "quaternion quotient" => sorted(&(Quaternion::<f64>::new(&fvals(4, 1)) / Quaternion::new(&fvals(4, 2)))),
            "nested quaternions" => {
                type Q = Quaternion<f64>;
                let q = |s: usize| Quaternion::<Q>::new(&(0..4).map(|i| Q::new(&fvals(4, s + i))).collect::<Vec<_>>());
                sorted(&(q(1) * q(2)))
            }
            "point" => {
                let p = Multivector::<f64, A_pppz>::pga_point([1., -2., 3.]).unwrap();
                text((sorted(&p), p.pga_extract_point()))
            }
            "translation" => {
                let t = Multivector::<f64, A_pppz>::pga_translation([4., 0., -3.]).unwrap();
                let h = Multivector::<f64, A_pppz>::pga_hyperplane([1., 2., 2., -4.]).unwrap();
                sorted(&(t.rev() * h * t))
            }
            "clifft 4" => text(clifft::clifft(ndarray::Array1::from(cx(&[1, -2, 3, 5])).view()).unwrap()),
            "clifft 16" => {
                let v: Vec<i64> = (0..16).map(|i| (i * 3) % 7 - 2).collect();
                let m = clifft::clifft(ndarray::Array1::from(cx(&v)).view()).unwrap();
                text((clifft::iclifft(m.view()).unwrap(), m))
            }
            "real transform d=6" => text(fm::<A_pmpmpm>(2).real_fft()),
            "sparse d=40" => {
                let e = A_40::basis_sp::<i64>();
                sorted(&((&e[3] * &e[39] + &e[17] * 5) * (&e[39] + &e[17] - &e[0])).dual_())
            }
            "labels" => text((0..16).map(|i| (A_pmzz::blade_label(i), A_pppz::blade_label_rev(i))).collect::<Vec<_>>()),
            "i64 product d=4" => sorted(&(Multivector::<i64, A_mmpp>::new(&(0..16).map(|i| i % 5 - 2).collect::<Vec<_>>()).pow(2))),
            "print precision" => format!("{:.2} {:+.1e}", fm::<A_pmm>(1), fm::<A_pmm>(2)),
            _ => unreachable!(),
        }
    }
    fn operands(&self) -> Fp {
        String::new()
    }
}
alg!(A_7, 7, "-++-+00", [-,+,+,-,+,0,0]);
alg!(A_8, 8, "+-++-+-+", [+,-,+,+,-,+,-,+]);
alg!(A_9, 9, "--++-+++0", [-,-,+,+,-,+,+,+,0]);
alg!(A_12, 12, "+++-+--++-00", [+,+,+,-,+,-,-,+,+,-,0,0]);
alg!(A_40, 40, "----------++++++++++----------++++++++++", [-,-,-,-,-,-,-,-,-,-,+,+,+,+,+,+,+,+,+,+,-,-,-,-,-,-,-,-,-,-,+,+,+,+,+,+,+,+,+,+]);
alg!(A_pmpm, 4, "+-+-", [+,-,+,-]);
use vharness::tclifford::{declare_algebra, ClBasis};

/// The systems, each with the names of its operations; made when first used.
const MAKE: [(&str, fn() -> Box<dyn System>, &[&str]); 10] = [
    ("Cl[-]", pair::<A_m>, &OPS),
    ("Cl[++]", pair::<A_pp>, &OPS),
    ("Cl[--]", pair::<A_mm>, &OPS),
    ("Cl[-0]", pair::<A_mz>, &OPS),
    ("Cl[+-]", pair::<A_pm>, &OPS),
    ("Cl[+-0]", pair::<A_pmz>, &OPS),
    ("Cl[--+]", pair::<A_mmp>, &OPS),
    ("other types", || Box::new(Other), &OTHER),
    ("Cl[+-] held", || Box::new(statics::SharedIn::<A_pm>(std::marker::PhantomData)), &statics::SHARED),
    ("Cl[--+] held", || Box::new(statics::SharedIn::<A_mmp>(std::marker::PhantomData)), &statics::SHARED),
];
fn system(i: usize) -> &'static dyn System {
    static S: [OnceLock<Shared<Box<dyn System>>>; MAKE.len()] = [const { OnceLock::new() }; MAKE.len()];
    &*S[i].get_or_init(|| Shared(MAKE[i].1())).0
}
/// All (system, operation) pairs; an operation is named by its index here.
fn table() -> &'static [(usize, usize)] {
    static T: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    T.get_or_init(|| MAKE.iter().enumerate().flat_map(|(i, s)| (0..s.2.len()).map(move |k| (i, k))).collect())
}
fn op_name(op: usize) -> String {
    let Some((s, k)) = table().get(op).copied() else {
        return wide()[op - table().len()].name();
    };
    format!("{} in {}", MAKE[s].2[k], MAKE[s].0)
}
fn op_index(sys: usize, name: &str) -> usize {
    table().iter().position(|(s, k)| *s == sys && MAKE[*s].2[*k] == name).unwrap()
}
fn run_op(op: usize) -> Fp {
    let run = || match table().get(op).copied() {
        Some((s, k)) => system(s).run(k),
        None => wide()[op - table().len()].run(),
    };
    match std::panic::catch_unwind(run) {
        Ok(r) => r,
        Err(_) => "panicked".into(),
    }
}
/// The operation on its own, and the number of its scheduling points.
fn solo(op: usize) -> (Fp, u64) {
    SEEN.set(0);
    let r = run_op(op);
    (r, SEEN.get())
}

// ---- operations on plain values, for histories only ----

#[path = "../wide.rs"]
mod wide;
/// Numbered after the operations of the systems.
fn wide() -> &'static [wide::Inst] {
    static L: OnceLock<Vec<wide::Inst>> = OnceLock::new();
    L.get_or_init(wide::list)
}
fn total() -> usize {
    table().len() + wide().len()
}

#[path = "../statics.rs"]
mod statics;

// ---- histories: fresh processes ----

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
/// `--after a,b,c d,e`: run the operations of the first list in a process that has done nothing
/// else, then each of the second in a process forked from that state, printing the results.
fn after(list: &str, last: &str) -> ! {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    for (i, a) in numbers(list).into_iter().enumerate() {
        println!("P{i} {:016x}", hash_of(&run_op(a)));
    }
    let _ = std::io::stdout().flush();
    for op in numbers(last) {
        unsafe {
            let p = fork();
            if p == 0 {
                println!("R{op} {:016x}", hash_of(&run_op(op)));
                let _ = std::io::stdout().flush();
                _exit(0);
            }
            assert!(p > 0);
            let mut st = 0;
            waitpid(p, &mut st, 0);
        }
    }
    std::process::exit(0)
}
fn numbers(l: &str) -> Vec<usize> {
    l.split(',').filter(|a| !a.is_empty()).map(|a| a.parse().unwrap()).collect()
}
/// Results after a history: of the history's own operations, then of each of `last`.
fn histories(list: &[usize], last: &[usize]) -> (Vec<Option<String>>, Vec<Option<String>>) {
    let l = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--after")
        .arg(l(list))
        .arg(l(last))
        .stderr(std::process::Stdio::null())
        .output()
        .expect("child process");
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let got: std::collections::HashMap<&str, &str> = s.lines().filter_map(|x| x.split_once(' ')).collect();
    let get = |k: String| got.get(k.as_str()).map(|h| h.trim().to_string());
    ((0..list.len()).map(|i| get(format!("P{i}"))).collect(), last.iter().map(|i| get(format!("R{i}"))).collect())
}
/// What every operation gives in a process that has done nothing else.
fn fresh(op: usize) -> &'static str {
    static F: OnceLock<Vec<String>> = OnceLock::new();
    &F.get_or_init(|| {
        // every result in a process of its own that has run nothing before
        histories(&[], &(0..total()).collect::<Vec<_>>()).1.into_iter().map(|r| r.unwrap_or("crashed".into())).collect()
    })[op]
}
fn matches(what: &str, op: usize, got: Option<&String>) -> Result<(), String> {
    let got = got.map(|s| s.as_str()).unwrap_or("a crash");
    ensure(|| format!("{what}: {} gives {got}, in a fresh process {}", op_name(op), fresh(op)), got == fresh(op))
}
fn same_as_fresh(what: &str, op: usize, got: &str) -> Result<(), String> {
    let h = format!("{:016x}", hash_of(&got));
    ensure(
        || format!("{what}: {} gives another result than in a fresh process: {}", op_name(op), got.chars().take(300).collect::<String>()),
        h == fresh(op),
    )
}
fn history_task(w: &W, prefix: &[usize], last: &[usize]) {
    let all = OnceLock::new();
    for (k, &op) in last.iter().enumerate() {
        let ok = w.case(
            || format!("{} after {}", op_name(op), prefix.iter().map(|p| op_name(*p)).collect::<Vec<_>>().join(", then ")),
            || {
                let (p, r) = all.get_or_init(|| histories(prefix, last));
                if k == 0 {
                    for (i, a) in prefix.iter().enumerate() {
                        w.trans(1);
                        matches("within the history", *a, p[i].as_ref())?;
                    }
                }
                w.state(&(prefix, &r[k]));
                w.trans(1);
                matches("after the history", op, r[k].as_ref())
            },
        );
        if !ok && w.stopped() {
            break;
        }
    }
}
/// A long run of one operation, then each other one.
fn repeat_task(w: &W, a: usize, last: &[usize]) {
    let v = vec![a; 257];
    history_task(w, &v, last);
}
/// One history through all operations in one process, beginning with `a`, `step` apart.
fn tour_task(w: &W, a: usize, step: usize) {
    let n = total();
    let all: Vec<usize> = (0..n).map(|i| (a + i * step) % n).collect();
    w.case(
        || format!("all operations in turn, {step} apart, from {}", op_name(a)),
        || {
            let (p, _) = histories(&all, &[]);
            for (i, op) in all.iter().enumerate() {
                w.state(&(a, step, i, &p[i]));
                w.trans(1);
                matches("in turn", *op, p[i].as_ref())?;
            }
            Ok(())
        },
    );
}

// ---- interleavings ----

/// Run the operations in threads under one schedule; results and stalls.
fn interleave(ops: &[usize], plan: &[(usize, u64)]) -> (Vec<Fp>, u64) {
    let s = Sched::new(ops.len(), plan);
    let res: Vec<Mutex<Fp>> = ops.iter().map(|_| Mutex::new(String::new())).collect();
    let mut stalls = 0;
    std::thread::scope(|sc| {
        for (id, op) in ops.iter().enumerate() {
            let (s, res) = (s.clone(), &res);
            sc.spawn(move || {
                CTX.with(|c| *c.borrow_mut() = Some((s.clone(), id)));
                s.wait(id);
                let r = run_op(*op);
                CTX.with(|c| *c.borrow_mut() = None);
                *res[id].lock().unwrap() = r;
                s.finish(id);
            });
        }
        stalls = s.supervise();
    });
    (res.into_iter().map(|r| r.into_inner().unwrap()).collect(), stalls)
}
fn check_schedule(w: &W, ops: &[usize], plan: &[(usize, u64)]) {
    w.case(
        || format!("{} under {plan:?}", ops.iter().map(|o| op_name(*o)).collect::<Vec<_>>().join(" || ")),
        || {
            let sys: Vec<usize> = ops.iter().map(|o| table()[*o].0).collect();
            let (r, stalls) = interleave(ops, plan);
            w.count("schedules", 1);
            w.count("schedules_with_a_blocked_thread", (stalls > 0) as u64);
            // where the threads stand at each switch
            let mut at = vec![0; ops.len()];
            for (t, n) in plan {
                at[*t] += n.min(&100_000);
                w.state(&(ops, &at));
            }
            for (op, r) in ops.iter().zip(&r) {
                w.trans(1);
                same_as_fresh("interleaved", *op, r)?;
            }
            for s in sys {
                ensure(|| format!("the shared operands of {} changed", MAKE[s].0), system(s).operands() == *operands_before(s))?;
            }
            Ok(())
        },
    );
}
fn operands_before(s: usize) -> &'static Fp {
    static O: OnceLock<Vec<Fp>> = OnceLock::new();
    &O.get_or_init(|| (0..MAKE.len()).map(|s| system(s).operands()).collect())[s]
}
/// Every schedule of two operations with at most `p` preemptions.
fn schedules(w: &W, a: usize, b: usize, p: usize) {
    let n = [solo(a).1, solo(b).1];
    for start in 0..2usize {
        let (f, g) = (start, 1 - start);
        check_schedule(w, &[a, b], &[(f, u64::MAX / 4)]);
        if p >= 1 {
            for i in 0..n[f] {
                check_schedule(w, &[a, b], &[(f, i), (g, u64::MAX / 4)]);
                if p >= 2 {
                    for j in 0..n[g] {
                        check_schedule(w, &[a, b], &[(f, i), (g, j), (f, u64::MAX / 4)]);
                        if p >= 3 {
                            for k in 0..n[f] - i {
                                check_schedule(w, &[a, b], &[(f, i), (g, j), (f, k), (g, u64::MAX / 4)]);
                            }
                        }
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }
    }
}
/// Three threads: every order of them, every pair of preemption points in the first two.
fn three(w: &W, ops: [usize; 3]) {
    let n = ops.map(|o| solo(o).1);
    for perm in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        for i in 0..n[perm[0]] {
            for j in 0..n[perm[1]] {
                check_schedule(w, &ops, &[(perm[0], i), (perm[1], j), (perm[2], u64::MAX / 4), (perm[0], u64::MAX / 4)]);
            }
        }
    }
}

// ---- operations inside coefficient operations ----

fn nested(w: &W, a: usize) {
    let n = solo(a).1;
    let step = if w.quick { (n / 40).max(1) as usize } else { 1 };
    for k in (1..=n).step_by(step) {
        for b in 0..table().len() {
            // quick: the inner operations take turns over the points of the outer one
            if w.quick && (k as usize / step + b) % 6 != 0 {
                continue;
            }
            w.case(
                || format!("{} inside coefficient operation {k} of {}", op_name(b), op_name(a)),
                || {
                    SEEN.set(0);
                    NEST.set(Some((k, b)));
                    INNER.with(|i| *i.borrow_mut() = None);
                    let r = run_op(a);
                    NEST.set(None);
                    let inner = INNER.with(|i| i.borrow_mut().take());
                    w.state(&(a, k));
                    w.trans(1 + inner.is_some() as u64);
                    w.count("nested_runs", inner.is_some() as u64);
                    same_as_fresh("outer operation", a, &r)?;
                    if let Some(i) = inner {
                        same_as_fresh("inner operation", b, &i)?;
                    }
                    Ok(())
                },
            );
            if w.stopped() {
                return;
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--after") {
        after(&args[2], &args[3]);
    }
    if args.get(1).map(|s| s.as_str()) == Some("--footprints") {
        statics::footprints(&args[2]);
    }
    if args.get(1).map(|s| s.as_str()) == Some("--trapped") {
        statics::trapped(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap());
    }
    let mut c = Check::new("C24");
    let quick = c.quick;
    let n = table().len();
    let others = 7;
    c.bounds = format!(
        "{n} operations over 7 small algebras with a coefficient type that yields at every arithmetic operation, comparison and copy, and over floating-point, matrix, quaternion, projective and 40-dimensional values. Histories: every operation after every history of length 1 and after 257 repetitions of one{}, each in a process of its own; {} operations on plain values (every public function, each in 2 to 9 algebras on {} operand sets), each after {} and all of them in turn from every starting point. Interleavings: every schedule with one preemption of every pair of operations on shared operands (all in one algebra) or in two algebras; every schedule with two preemptions of {} pairs; three threads. Static memory: every access of each of {} operations trapped; of the pairs on the same operands or of the same function {} that meet in a place one of them writes, every schedule with one preemption at these accesses (two, if at most 400), up to {} positions in each order (fewer for pairs with very many accesses), each in a process of its own. Nesting: {} operation run inside coefficient operations of every operation.",
        if quick { "" } else { ", and of length 2 over 60 operations" },
        wide().len(),
        wide::SETS,
        if quick { "the same function in every algebra on every operand set" } else { "each of them" },
        if quick { "some" } else { "many" },
        total(),
        if quick { "(one for each pair of functions and set of places)" } else { "all" },
        if quick { 60 } else { 2000 },
        if quick { "one in six of the pairs (point, inner operation), points thinned to 40, every" } else { "every" }
    );
    c.assume("threads switch at coefficient operations (of a type of the harness) and at accesses to static memory that both threads use and one writes; state kept in heap memory is reached through static memory");
    c.assume("a thread that blocks on a lock held by a suspended one is detected after 300 ms without progress");
    c.task("operands can be shared between threads", 1, |w| {
        macro_rules! sh {
            ($($t:ty),*) => {$(
                w.case(|| stringify!($t).into(), || {
                    w.state(&stringify!($t));
                    w.trans(1);
                    ensure(|| "is not Send + Sync".into(), (&Probe::<$t>(std::marker::PhantomData)).sharable())
                });
            )*};
        }
        sh!(Multivector<f64, A_pp>, SparseMultivector<f64, A_pp>, FFTRepr<A_pp>, Quaternion<f64>, Multivector<Quaternion<f64>, A_pm>, Multivector<C64, A_mz>);
    });
    for a in 0..n {
        c.task(format!("after {}", op_name(a)), 300, move |w| history_task(w, &[a], &(0..n).collect::<Vec<_>>()));
        c.task(format!("after many times {}", op_name(a)), 400, move |w| repeat_task(w, a, &(0..n).collect::<Vec<_>>()));
    }
    // plain values: each operation after itself elsewhere, thorough after everything
    for a in n..total() {
        let same = move |b: &usize| !quick || wide()[*b - n].op == wide()[a - n].op;
        c.task(format!("after {}", op_name(a)), 100, move |w| history_task(w, &[a], &(n..total()).filter(same).collect::<Vec<_>>()));
    }
    for a in 0..total() {
        c.task(format!("all in turn from {}", op_name(a)), 100, move |w| tour_task(w, a, 1));
    }
    let mut picks: Vec<usize> = vec![];
    for s in 0..MAKE.len() {
        for (k, name) in MAKE[s].2.iter().enumerate() {
            let keep = if s == others { true } else { ["mul", "wedge", "dual", "fft", "sparse mul"].contains(name) && s < 6 && s != 4 };
            if keep {
                picks.push(op_index(s, MAKE[s].2[k]));
            }
        }
    }
    if !quick {
        for &a in &picks {
            let p = picks.clone();
            c.task(format!("after {} and another", op_name(a)), 3000, move |w| {
                for &b in &p {
                    history_task(w, &[a, b], &(0..n).collect::<Vec<_>>());
                }
            });
        }
    }
    // one preemption: all pairs of operations, shared operands or another algebra of the same size
    let pairs: Vec<(usize, usize)> = if quick { vec![(2, 2), (1, 2), (0, 3)] } else { vec![(2, 2), (1, 2), (3, 3), (0, 3), (1, 4), (5, 6), (5, 5)] };
    for (s, t) in pairs {
        for k in 0..OPS.len() {
            c.task(format!("one preemption, {} with every operation, Cl {s} and {t}", OPS[k]), 2000, move |w| {
                for l in if s == t { k } else { 0 }..OPS.len() {
                    schedules(w, op_index(s, OPS[k]), op_index(t, OPS[l]), 1);
                }
            });
        }
    }
    let two: Vec<&str> = if quick { vec!["add", "dual", "vdot", "fft"] } else { vec!["add", "mul", "wedge", "meet", "dual", "vdot", "fft", "ifft", "sparse mul", "sparse add", "sparse dual", "print"] };
    let algs: &[(usize, usize)] = if quick { &[(0, 0), (1, 2)] } else { &[(0, 0), (1, 2), (3, 3), (4, 2)] };
    for &(s, t) in algs {
        for (i, a) in two.iter().enumerate() {
            for b in &two[i..] {
                let (a, b) = (op_index(s, a), op_index(t, b));
                c.task(format!("two preemptions, {} with {}", op_name(a), op_name(b)), 5000, move |w| schedules(w, a, b, 2));
            }
        }
    }
    for (a, b) in [("add", "dual"), ("mul", "mul"), ("vdot", "rev")] {
        let (a, b) = (op_index(0, a), op_index(0, b));
        if !quick || a != op_index(0, "mul") {
            c.task(format!("three preemptions, {} with {}", op_name(a), op_name(b)), 6000, move |w| schedules(w, a, b, 3));
        }
    }
    for t in [["mul", "dual", "vdot"], ["add", "wedge", "fft"], ["sparse mul", "mul", "meet"]] {
        let ops = [op_index(0, t[0]), op_index(if quick { 0 } else { 2 }, t[1]), op_index(0, t[2])];
        c.task(format!("three threads: {t:?}"), 5000, move |w| three(w, ops));
    }
    let fun = move |a: usize| table().get(a).map_or_else(|| wide()[a - n].op, |t| MAKE[t.0].2[t.1]);
    // with the operations on the same operands, or the same function elsewhere
    let near = move |a: usize, b: usize| match (table().get(a), table().get(b)) {
        (Some(x), Some(y)) => x.0 == y.0 || MAKE[x.0].2[x.1] == MAKE[y.0].2[y.1],
        (None, None) => wide()[a - n].op == wide()[b - n].op,
        _ => false,
    };
    let planned = move || {
        static P: OnceLock<(Vec<Vec<(usize, u64)>>, u64)> = OnceLock::new();
        P.get_or_init(|| {
            let (mut pairs, mut seen) = (vec![], BTreeSet::new());
            for a in 0..total() {
                for b in (a..total()).filter(|b| near(a, *b)) {
                    let places = statics::conflict(a, b);
                    // quick: once for each pair of functions and places they share
                    if !places.is_empty() && (!quick || seen.insert((fun(a), fun(b), a == b, places))) {
                        pairs.push((a, b));
                    }
                }
            }
            let (pairs, left) = if quick { statics::plan(pairs, 60, 700_000, 20_000_000) } else { statics::plan(pairs, 2000, 1_000_000, 100_000_000) };
            let mut with = vec![vec![]; total()];
            pairs.into_iter().for_each(|(a, b, cap)| with[a].push((b, cap)));
            (with, left)
        })
    };
    for a in 0..total() {
        c.task(format!("static memory used by {}", op_name(a)), 100, move |w| {
            statics::foot_task(w, a);
            w.count("pairs_compared_by_footprint", (a..total()).filter(|b| near(a, *b)).count() as u64);
            let (with, left) = planned();
            if a == 0 {
                w.count("pairs_left_out_as_too_costly", *left);
            }
            for &(b, cap) in &with[a] {
                w.count("pairs_interleaved_at_static_accesses", 1);
                if !w.stopped() {
                    statics::trapped_task(w, a, b, cap);
                }
            }
        });
    }
    for a in 0..n {
        if table()[a].0 < others {
            c.task(format!("inside {}", op_name(a)), 1500, move |w| nested(w, a));
        }
    }
    c.run()
}
