//! C24: interleavings at every access to memory that outlives an operation.
//!
//! The writable static memory of the process (which holds every `static` of the library and the
//! operands shared by the operations here) is made inaccessible while operations run. Each access
//! traps, is a scheduling point, and is then let through for one instruction. An operation's
//! accesses are its footprint; only accesses to places that two operations share, one of them
//! writing, are worth a preemption.
use super::*;
use std::arch::asm;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

const SEEN_MAX: usize = 1 << 20;
/// Control block, in memory of its own that stays accessible and is shared with forked processes.
#[repr(C)]
struct Ctl {
    lo: AtomicU64,
    hi: AtomicU64,
    ready: AtomicU32,
    /// Whose turn it is; 2 when everything has ended, 3 before it begins.
    cur: AtomicU32,
    done: [AtomicU32; 2],
    /// Thread to run, number of points it runs for; then the other; then the first again.
    plan: [[AtomicU64; 2]; 4],
    at: AtomicU64,
    used: AtomicU64,
    /// Accesses in a row without a switch, and those of them to one and the same unit; a thread that
    /// waits for a lock spins.
    row: AtomicU64,
    same: AtomicU64,
    last: AtomicU64,
    stalls: AtomicU64,
    points: [AtomicU64; 2],
    hash: [AtomicU64; 2],
    /// Which 16-byte units count as points; none listed: all of them.
    n_watch: AtomicU64,
    /// The last thread to run does so in open memory.
    open: AtomicU64,
    watch: [AtomicU64; 4096],
    n_seen: AtomicU64,
    seen: [AtomicU64; SEEN_MAX],
}
const FOREVER: u64 = 1 << 40;
const SPIN: u64 = 5_000;
const SPIN_SAME: u64 = 400;

thread_local! {
    static ME: Cell<(*const Ctl, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}
unsafe fn sys(n: i64, a: u64, b: u64, c: u64, d: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") 0, in("r9") 0, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn protect(c: &Ctl, prot: u64) {
    let lo = c.lo.load(SeqCst);
    sys(10, lo, c.hi.load(SeqCst) - lo, prot, 0);
}
unsafe fn await_turn(c: &Ctl, me: usize) {
    loop {
        let t = c.cur.load(SeqCst);
        if t == me as u32 {
            return;
        }
        sys(202, &c.cur as *const _ as u64, 0, t as u64, 0); // futex wait
    }
}
unsafe fn give(c: &Ctl, to: u32) {
    c.cur.store(to, SeqCst);
    sys(202, &c.cur as *const _ as u64, 1, 8, 0); // futex wake
}
/// The thread the plan names now, skipping ended ones.
unsafe fn advance(c: &Ctl) -> u32 {
    loop {
        let k = c.at.fetch_add(1, SeqCst) + 1;
        c.used.store(0, SeqCst);
        c.row.store(0, SeqCst);
        c.same.store(0, SeqCst);
        if k >= 4 {
            c.at.store(3, SeqCst);
            return if c.done[0].load(SeqCst) == 0 { 0 } else if c.done[1].load(SeqCst) == 0 { 1 } else { 2 };
        }
        let t = c.plan[k as usize][0].load(SeqCst);
        if c.done[t as usize].load(SeqCst) == 0 {
            return t as u32;
        }
    }
}
unsafe fn watched(c: &Ctl, unit: u64) -> bool {
    let n = c.n_watch.load(SeqCst) as usize;
    n == 0 || (0..n).any(|i| c.watch[i].load(SeqCst) == unit)
}
unsafe fn point(c: &Ctl, me: usize, unit: u64, write: bool) {
    let k = c.n_seen.fetch_add(1, SeqCst) as usize;
    if k < SEEN_MAX {
        c.seen[k].store(unit << 2 | (write as u64) << 1 | me as u64, SeqCst);
    }
    let row = c.row.fetch_add(1, SeqCst);
    let again = c.last.swap(unit, SeqCst) == unit;
    let same = if again { c.same.load(SeqCst) + 1 } else { 0 };
    c.same.store(same, SeqCst);
    let other = 1 - me;
    if (row >= SPIN || same >= SPIN_SAME) && c.done[other].load(SeqCst) == 0 {
        // spinning on something the other thread holds
        c.stalls.fetch_add(1, SeqCst);
        c.row.store(0, SeqCst);
        c.same.store(0, SeqCst);
        give(c, other as u32);
        await_turn(c, me);
        return;
    }
    if !watched(c, unit) {
        return;
    }
    c.points[me].fetch_add(1, SeqCst);
    let at = c.at.load(SeqCst) as usize;
    if at < 4 && c.plan[at][0].load(SeqCst) == me as u64 {
        if c.used.fetch_add(1, SeqCst) >= c.plan[at][1].load(SeqCst) {
            let t = advance(c);
            // the access that is about to happen belongs to the next turn
            c.used.fetch_add((t == me as u32) as u64, SeqCst);
            if t != me as u32 {
                give(c, t);
                await_turn(c, me);
                c.used.fetch_add(1, SeqCst);
            }
        }
    }
}
unsafe extern "C" fn on_access(_: i32, info: *const u64, ctx: *mut u64) {
    let (c, me) = ME.get();
    let addr = *info.add(2);
    if c.is_null() || addr < (*c).lo.load(SeqCst) || addr >= (*c).hi.load(SeqCst) {
        sys(231, 77, 0, 0, 0); // a real fault: leave with a code of its own
    }
    // ucontext: 40 bytes, then the registers; 17 is the flags, 19 the error code
    let write = *ctx.add(5 + 19) & 2 != 0;
    point(&*c, me, (addr - (*c).lo.load(SeqCst)) >> 4, write);
    protect(&*c, 3);
    *ctx.add(5 + 17) |= 0x100;
}
unsafe extern "C" fn on_step(_: i32, _: *const u64, ctx: *mut u64) {
    let (c, me) = ME.get();
    *ctx.add(5 + 17) &= !0x100;
    if (*c).open.load(SeqCst) == 0 || (*c).done[1 - me].load(SeqCst) == 0 {
        protect(&*c, 0);
    }
}
#[repr(C)]
struct Action {
    handler: unsafe extern "C" fn(i32, *const u64, *mut u64),
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const Action, old: *mut Action) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    static _end: u8;
}
/// The writable part of the executable's own data, as whole pages.
fn range() -> (u64, u64) {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let lo = maps
        .lines()
        .filter(|l| l.contains(" rw-p ") && l.ends_with(exe.to_str().unwrap()))
        .map(|l| u64::from_str_radix(l.split('-').next().unwrap(), 16).unwrap())
        .min()
        .expect("writable data of the executable");
    let hi = (std::ptr::addr_of!(_end) as u64 + 4095) & !4095;
    (lo, hi)
}
struct Outcome {
    hash: [u64; 2],
    points: [u64; 2],
    stalls: u64,
    accesses: u64,
    /// unit -> bits: 1 read by the first, 2 written by it, 4 and 8 the same of the second
    seen: BTreeMap<u64, u8>,
    ok: bool,
}
struct Box_(*const Ctl);
impl Box_ {
    fn new() -> Box_ {
        let (lo, hi) = range();
        unsafe {
            let c = mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), 3, 0x21, -1, 0) as *const Ctl;
            (*c).lo.store(lo, SeqCst);
            (*c).hi.store(hi, SeqCst);
            Box_(c)
        }
    }
    /// Run operations `ops` (the second may be missing) in a forked process under a plan.
    fn run(&self, ops: &[usize], plan: &[(usize, u64)], watch: &[u64], open: bool) -> Outcome {
        unsafe {
            let c = &*self.0;
            c.open.store(open as u64, SeqCst);
            c.n_watch.store(watch.len().min(4096) as u64, SeqCst);
            watch.iter().take(4096).enumerate().for_each(|(i, u)| c.watch[i].store(*u, SeqCst));
            for k in 0..4 {
                let (t, n) = plan.get(k).copied().unwrap_or((plan.last().unwrap().0, FOREVER));
                c.plan[k][0].store(t as u64, SeqCst);
                c.plan[k][1].store(n, SeqCst);
            }
            c.cur.store(3, SeqCst);
            c.ready.store(0, SeqCst);
            for x in [&c.at, &c.used, &c.row, &c.same, &c.last, &c.stalls, &c.n_seen, &c.points[0], &c.points[1], &c.hash[0], &c.hash[1]] {
                x.store(0, SeqCst);
            }
            c.done[0].store(0, SeqCst);
            c.done[1].store((ops.len() < 2) as u32, SeqCst);
            let p = fork();
            if p == 0 {
                warm(ops);
                for (sig, h) in [(11, on_access as unsafe extern "C" fn(_, _, _)), (5, on_step)] {
                    sigaction(sig, &Action { handler: h, mask: [0; 16], flags: 4, restorer: 0 }, std::ptr::null_mut());
                }
                let ptr = self.0 as usize;
                let hs: Vec<_> = ops
                    .iter()
                    .enumerate()
                    .map(|(id, &op)| {
                        std::thread::spawn(move || {
                            let c = &*(ptr as *const Ctl);
                            ME.set((c, id));
                            c.ready.fetch_add(1, SeqCst);
                            await_turn(c, id);
                            protect(c, 0);
                            let r = run_op(op);
                            let h = hash_of(&r);
                            c.hash[id].store(h, SeqCst);
                            protect(c, 3);
                            c.done[id].store(1, SeqCst);
                            let t = advance(c);
                            if t == 2 {
                                give(c, 2);
                                return;
                            }
                            // the other thread goes on in protected memory and ends before this one does
                            if c.open.load(SeqCst) == 0 {
                                protect(c, 0);
                            }
                            give(c, t);
                            await_turn(c, 2);
                        })
                    })
                    .collect();
                // no thread may still be starting when memory is closed
                while c.ready.load(SeqCst) < ops.len() as u32 {
                    sys(24, 0, 0, 0, 0); // yield
                }
                give(c, plan[0].0 as u32);
                await_turn(c, 2);
                hs.into_iter().for_each(|h| drop(h.join()));
                _exit(0);
            }
            assert!(p > 0);
            let mut st = 0;
            // one that does not end is left to the supervisor of the check
            waitpid(p, &mut st, 0);
            let accesses = c.n_seen.load(SeqCst);
            let n = (accesses as usize).min(SEEN_MAX);
            let mut seen = BTreeMap::new();
            for k in 0..n {
                let s = c.seen[k].load(SeqCst);
                *seen.entry(s >> 2).or_insert(0) |= (1u8 << (s >> 1 & 1)) << (2 * (s & 1));
            }
            Outcome {
                hash: [0, 1].map(|i| c.hash[i].load(SeqCst)),
                points: [0, 1].map(|i| c.points[i].load(SeqCst)),
                stalls: c.stalls.load(SeqCst),
                accesses,
                seen,
                ok: st == 0,
            }
        }
    }
}
/// `--footprints list`: for each operation on its own `F op hash ok accesses reads.. writes..`.
pub fn footprints(list: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let b = Box_::new();
    for op in numbers(list) {
        let o = b.run(&[op], &[(0, FOREVER)], &[], false);
        let hex = |m: u8| o.seen.iter().filter(|s| s.1 & m != 0).map(|s| format!("{:x}", s.0)).collect::<Vec<_>>().join(",");
        println!("F {op} {:016x} {} {} {} {}", o.hash[0], o.ok as u8, o.accesses, hex(1) + ";", hex(2) + ";");
    }
    std::process::exit(0)
}
/// Make what the harness itself keeps, so that only the library's own state is written later.
fn warm(ops: &[usize]) {
    let _ = (table().len(), wide().len());
    for op in ops {
        if let Some((s, _)) = table().get(*op) {
            system(*s).operands();
        }
    }
}
/// `--trapped a b cap`: every schedule of two operations with one preemption (two when there are few
/// points) at the accesses to places both use and one writes, each in a process of its own.
pub fn trapped(a: usize, b: usize, cap: u64) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let bx = Box_::new();
    let ops = [a, b];
    let show = |plan: &[(usize, u64)], o: &Outcome| {
        println!("S {} {:016x} {:016x} {} {} {}", plan.iter().map(|p| format!("{}:{}", p.0, p.1)).collect::<Vec<_>>().join("/"), o.hash[0], o.hash[1], o.ok as u8, o.stalls, o.points[0] + o.points[1]);
    };
    // both orders without preemption; their accesses say what the two share
    let mut seen: BTreeMap<u64, u8> = BTreeMap::new();
    for f in 0..2 {
        let plan = [(f, FOREVER), (1 - f, FOREVER)];
        let o = bx.run(&ops, &plan, &[], false);
        show(&plan, &o);
        o.seen.iter().for_each(|(u, m)| *seen.entry(*u).or_insert(0) |= m);
    }
    let watch: Vec<u64> = seen.iter().filter(|(_, m)| *m & 3 != 0 && *m & 12 != 0 && *m & 10 != 0).map(|x| *x.0).collect();
    if watch.is_empty() {
        std::process::exit(0)
    }
    for f in 0..2 {
        let solo = bx.run(&ops, &[(f, FOREVER), (1 - f, FOREVER)], &watch, false);
        let (n, m) = (solo.points[f], solo.points[1 - f]);
        // where there are too many: the first ones, then evenly to the end
        let near = if n > cap { cap / 2 } else { n };
        for i in (0..near).chain((near..cap.min(n)).map(|k| near + (k - near) * (n - near) / (cap - near))) {
            let plan = [(f, i), (1 - f, FOREVER), (f, FOREVER)];
            show(&plan, &bx.run(&ops, &plan, &watch, true));
            if n * m <= 400 {
                for j in 0..m {
                    let plan = [(f, i), (1 - f, j), (f, FOREVER), (1 - f, FOREVER)];
                    show(&plan, &bx.run(&ops, &plan, &watch, true));
                }
            }
        }
    }
    std::process::exit(0)
}

// ---- operations on operands that live in static memory ----

pub const SHARED: [&str; 27] = [
    "shared product", "shared sum", "shared difference", "shared negation", "shared scaling", "shared quotient", "shared reversal", "shared flip", "shared trace", "shared magnitude", "shared inverse",
    "shared exp", "shared power", "shared ifft", "shared view", "shared equality", "shared approx", "shared copy", "shared zero", "shared print", "shared half spin",
    "shared dense product", "shared dense wedge", "shared dense transform", "shared sparse product", "shared sparse grade", "shared dense print",
];
struct Held<A: Alg> {
    f: FFTRepr<A>,
    g: FFTRepr<A>,
    x: Multivector<f64, A>,
    y: Multivector<f64, A>,
    s: SparseMultivector<f64, A>,
}
/// Held in static memory itself, not behind a pointer.
fn shared<A: Alg>() -> &'static dyn System {
    static P: OnceLock<Shared<Held<A_pm>>> = OnceLock::new();
    static Q: OnceLock<Shared<Held<A_mmp>>> = OnceLock::new();
    fn mk<A: Alg>() -> Shared<Held<A>> {
        let (x, y) = (fm::<A>(1), fm::<A>(2));
        Shared(Held { f: x.fft(), g: y.fft(), s: x.to_sparse(), x, y })
    }
    if A::sig() == "+-" { &P.get_or_init(mk).0 } else { &Q.get_or_init(mk).0 }
}
pub struct SharedIn<A: Alg>(pub std::marker::PhantomData<A>);
impl<A: Alg> System for SharedIn<A> {
    fn run(&self, k: usize) -> Fp {
        shared::<A>().run(k)
    }
    fn operands(&self) -> Fp {
        shared::<A>().operands()
    }
}
impl<A: Alg + vharness::tclifford::algebra::NonDegenerate> System for Held<A> {
    fn run(&self, k: usize) -> Fp {
        let Held { f, g, x, y, s } = self;
        let r = |r: FFTRepr<A>| text(r.view());
        match SHARED[k] {
            "shared product" => r(f * g),
            "shared sum" => r(f + g),
            "shared difference" => r(f - g),
            "shared negation" => r(-f),
            "shared scaling" => r(f * 3.),
            "shared quotient" => r(f / 4.),
            "shared reversal" => r(f.rev()),
            "shared flip" => r(f.flip()),
            "shared trace" => text((f.trace(), f.ntrace())),
            "shared magnitude" => text(f.mag2()),
            "shared inverse" => text(f.inv().map(r)),
            "shared exp" => r(f.exp()),
            "shared power" => r(f.pow(5)),
            "shared ifft" => sorted(&f.ifft::<f64>()),
            "shared view" => text((f.view(), f.shape())),
            "shared equality" => text((f == g, f == f, f != g)),
            "shared approx" => text((f.approx_eq(g, 1.), f.approx_eq(g, 100.))),
            "shared copy" => r(f.clone()),
            "shared zero" => text((f.is_zero(), g.is_zero())),
            "shared print" => format!("{f}"),
            "shared half spin" => text(f.clone().into_half_spin_repr()),
            "shared dense product" => sorted(&(x * y)),
            "shared dense wedge" => sorted(&x.wedge_(y)),
            "shared dense transform" => text(x.fft().view()),
            "shared sparse product" => sorted(&(s * s)),
            "shared sparse grade" => sorted(&s.grade_(1)),
            "shared dense print" => format!("{x} {y:.2} {x:#e}"),
            _ => unreachable!(),
        }
    }
    fn operands(&self) -> Fp {
        text([text(self.f.view()), text(self.g.view()), sorted(&self.x), sorted(&self.y), sorted(&self.s)])
    }
}

// ---- the parent's side ----

fn child(args: &[&str]) -> (String, bool) {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("LD_BIND_NOW", "1").stderr(std::process::Stdio::null()).output().expect("child process");
    (String::from_utf8_lossy(&o.stdout).to_string(), o.status.success())
}
pub struct Foot {
    pub reads: Vec<u64>,
    pub writes: Vec<u64>,
    pub accesses: u64,
    pub line: String,
}
/// The footprint of every operation, each in a process of its own.
pub fn foot(op: usize) -> &'static Foot {
    static F: OnceLock<Vec<Foot>> = OnceLock::new();
    &F.get_or_init(|| {
        let n = total();
        let parts: Vec<Vec<usize>> = (0..8).map(|k| (k..n).step_by(8).collect()).collect();
        let mut all: Vec<Foot> = (0..n).map(|_| Foot { reads: vec![], writes: vec![], accesses: 0, line: String::new() }).collect();
        let outs: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = parts.iter().map(|p| s.spawn(|| child(&["--footprints", &p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]).0)).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for l in outs.iter().flat_map(|o| o.lines()) {
            let f: Vec<&str> = l.split(' ').collect();
            if f.len() == 7 && f[0] == "F" {
                let hex = |s: &str| s.trim_end_matches(';').split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                all[f[1].parse::<usize>().unwrap()] = Foot { reads: hex(f[5]), writes: hex(f[6]), accesses: f[4].parse().unwrap(), line: format!("{} {}", f[2], f[3]) };
            }
        }
        all
    })[op]
}
pub fn foot_task(w: &W, op: usize) {
    w.case(
        || format!("{} with every access to static memory trapped", op_name(op)),
        || {
            let f = foot(op);
            w.state(&(op, &f.line));
            w.trans(1);
            w.count("operations_writing_static_memory", !f.writes.is_empty() as u64);
            let want = format!("{} 1", fresh(op));
            ensure(|| format!("gives {}, in a fresh process {want}", if f.line.is_empty() { "nothing" } else { &f.line }), f.line == want)
        },
    );
}
/// The places where two operations meet and that one of them writes.
pub fn conflict(a: usize, b: usize) -> Vec<u64> {
    let (f, g) = (foot(a), foot(b));
    let used = |x: &Foot, u: &u64| x.writes.binary_search(u).is_ok() || x.reads.binary_search(u).is_ok();
    let mut v: Vec<u64> = f.writes.iter().filter(|u| used(g, u)).chain(g.writes.iter().filter(|u| used(f, u))).copied().collect();
    v.sort();
    v.dedup();
    v
}
/// The pairs of operations to interleave and how many positions of a preemption each gets: `most`,
/// fewer (but four) when a pair would make more than `each` accesses. What exceeds four times that
/// even then, and the costliest pairs of what exceeds `all` accesses together, are left out.
pub fn plan(pairs: Vec<(usize, usize)>, most: u64, each: u64, all: u64) -> (Vec<(usize, usize, u64)>, u64) {
    let cost = |a: usize, b: usize, cap: u64| {
        let n = foot(a).accesses + foot(b).accesses;
        let blocked = if n > 400 { SPIN_SAME } else { 0 };
        (4 + n.min(2 * cap)) * (n + blocked)
    };
    let (before, mut kept, mut used) = (pairs.len(), vec![], 0);
    for (a, b) in pairs {
        let mut cap = most;
        while cap > 4 && cost(a, b, cap) > each {
            cap = (cap / 2).max(4);
        }
        kept.push((cost(a, b, cap), (a, b, cap)));
    }
    kept.sort();
    kept.retain(|k| {
        used += k.0;
        k.0 <= 4 * each && used <= all
    });
    let left = before - kept.len();
    (kept.into_iter().map(|k| k.1).collect(), left as u64)
}
pub fn trapped_task(w: &W, a: usize, b: usize, cap: u64) {
    w.case(
        || format!("{} || {} at every access to what both use", op_name(a), op_name(b)),
        || {
            let (s, ok) = child(&["--trapped", &a.to_string(), &b.to_string(), &cap.to_string()]);
            ensure(|| "the exploration did not end".into(), ok)?;
            for l in s.lines() {
                let f: Vec<&str> = l.split(' ').collect();
                if f.len() != 7 {
                    continue;
                }
                w.state(&(a, b, f[1]));
                w.trans(2);
                w.count("schedules_at_static_accesses", 1);
                w.count("schedules_with_a_blocked_thread", (f[5] != "0") as u64);
                ensure(|| format!("crashed under {}", f[1]), f[4] == "1")?;
                for (op, h) in [(a, f[2]), (b, f[3])] {
                    ensure(|| format!("under {} (thread:points) {} gives {h}, in a fresh process {}", f[1], op_name(op), fresh(op)), h == fresh(op))?;
                }
            }
            Ok(())
        },
    );
}
