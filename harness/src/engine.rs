//! Exploration engine: runs the enumeration of a check in worker threads, counts what was
//! covered, turns panics, crashes and hangs into violations, and writes the evidence.
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
const HANG_S: u64 = 120;
const CAP_S: u64 = 840;
const MAX_VIOL: usize = 24;

#[derive(Default, Clone, Copy)]
struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
type U64Set = HashSet<u64, BuildHasherDefault<IdHash>>;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
/// Progress of the workers, shared with the supervising process so that it survives a crash.
/// Slots per worker: task+1 (0 = idle), ordinal of the running case.
struct Progress(*mut AtomicU64);
unsafe impl Send for Progress {}
unsafe impl Sync for Progress {}
impl Progress {
    fn open(path: &str, create: bool) -> Progress {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).unwrap();
        if create {
            f.set_len(4096).unwrap();
        }
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Progress(p as *mut AtomicU64)
    }
    fn slot(&self, w: usize, k: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(w * 4 + k) }
    }
}

#[derive(Clone)]
struct Viol {
    task: usize,
    ord: u64,
    id: String,
    msg: String,
}

type TaskFn = Box<dyn Fn(&W) + Send + Sync>;
pub struct Task {
    name: String,
    cost: u64,
    f: TaskFn,
}

pub struct Check {
    pub prop: &'static str,
    pub level: &'static str,
    /// Thinned bounds.
    pub quick: bool,
    /// Bounds beyond what fits a quick run.
    pub deep: bool,
    pub bounds: String,
    pub assumptions: Vec<String>,
    tasks: Vec<Task>,
}

struct Shared {
    stop: AtomicBool,
    viol: Mutex<Vec<Viol>>,
    samples: Mutex<Vec<(usize, String)>>,
    extra: Mutex<std::collections::BTreeMap<String, u64>>,
    states: AtomicU64,
    trans: AtomicU64,
    traces: AtomicU64,
    only: Option<(usize, u64)>,
}

/// Handle a task uses to report what it explores.
pub struct W<'a> {
    sh: &'a Shared,
    prog: &'a Progress,
    slot: usize,
    task: usize,
    tname: &'a str,
    pub quick: bool,
    pub deep: bool,
    ord: Cell<u64>,
    set: RefCell<U64Set>,
    trans: Cell<u64>,
    ok: Cell<u64>,
    done: Cell<bool>,
    extra: RefCell<std::collections::BTreeMap<String, u64>>,
}

pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

struct HashWrite(DefaultHasher);
impl std::fmt::Write for HashWrite {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.write(s.as_bytes());
        Ok(())
    }
}
/// Fingerprint of a list of coefficients by their printed values.
pub fn fp<T: std::fmt::Debug>(v: &[T]) -> u64 {
    use std::fmt::Write;
    let mut h = HashWrite(DefaultHasher::new());
    for x in v {
        let _ = write!(h, "{x:?},");
    }
    h.0.finish()
}

impl<'a> W<'a> {
    /// Record the register contents an operation leads to, and count the operation.
    pub fn reach<T: std::fmt::Debug>(&self, v: &[T]) {
        self.state(&("result", std::any::type_name::<T>(), fp(v)));
        self.trans(1);
    }
    /// Record a visited state; true when it was not seen before in this task.
    pub fn state(&self, x: &impl Hash) -> bool {
        self.set.borrow_mut().insert(hash_of(x))
    }
    /// Record library operations whose results were compared with the model.
    pub fn trans(&self, n: u64) {
        self.trans.set(self.trans.get() + n);
    }
    /// Extra named counter for the evidence.
    pub fn count(&self, name: &str, n: u64) {
        *self.extra.borrow_mut().entry(name.to_string()).or_insert(0) += n;
    }
    /// True once the task should stop enumerating.
    pub fn stopped(&self) -> bool {
        self.done.get() || self.sh.stop.load(Relaxed)
    }
    /// Run one case on the implementation. `id` names it; `f` reports the first disagreement.
    pub fn case(&self, id: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        if self.stopped() {
            return false;
        }
        let o = self.ord.get();
        self.ord.set(o + 1);
        self.prog.slot(self.slot, 1).store(o, Relaxed);
        let target = matches!(self.sh.only, Some((_, k)) if k == o);
        if target {
            println!("CASE {} :: {}", self.tname, id());
            let _ = std::io::stdout().flush();
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(format!("panicked: {}", payload(e))),
        };
        let good = match r {
            Ok(()) => {
                self.ok.set(self.ok.get() + 1);
                true
            }
            Err(msg) => {
                let v = Viol { task: self.task, ord: o, id: id(), msg };
                let mut l = self.sh.viol.lock().unwrap();
                l.push(v);
                if l.len() >= MAX_VIOL {
                    self.sh.stop.store(true, Relaxed);
                }
                // keep the first few of a task only
                if l.iter().filter(|v| v.task == self.task).count() >= 3 {
                    self.done.set(true);
                }
                false
            }
        };
        if o == 0 || o == 1000 {
            let mut s = self.sh.samples.lock().unwrap();
            s.push((self.task, format!("{} :: {}", self.tname, id())));
        }
        if target {
            println!("{}", if good { "CASE-PASSED" } else { "CASE-FAILED" });
            self.done.set(true);
        }
        good
    }
}

fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
}

impl Check {
    pub fn new(prop: &'static str) -> Check {
        let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let thorough = tier == "thorough";
        Check { prop, level: "model_checking", quick: !thorough, deep: thorough, bounds: String::new(), assumptions: vec![], tasks: vec![] }
    }
    /// A check whose quick tier has nothing thinned.
    pub fn full(prop: &'static str) -> Check {
        Check { quick: false, ..Check::new(prop) }
    }
    pub fn task(&mut self, name: impl Into<String>, cost: u64, f: impl Fn(&W) + Send + Sync + 'static) {
        self.tasks.push(Task { name: name.into(), cost, f: Box::new(f) });
    }
    /// A task inside one algebra.
    pub fn alg_task<A: crate::algs::Alg>(&mut self, what: &str, sig: &str, cost: u64, f: impl Fn(&W) + Send + Sync + 'static) {
        let s = sig.to_string();
        let kind = if std::any::type_name::<A>().ends_with("::Dy") { "" } else { " (declared)" };
        self.task(format!("{what}, Cl[{sig}]{kind}"), cost, move |w| {
            A::enter(&s);
            f(w)
        });
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    fn tier(&self) -> &'static str {
        if self.deep { "thorough" } else { "quick" }
    }

    fn write_evidence(&self, cov: &str, viol: usize, wall: f64) {
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let ass: Vec<String> = self.assumptions.iter().map(|s| jstr(s)).collect();
        let s = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{},\"assumptions\":[{}],\"violations\":{},\"wall_s\":{:.3}}}\n",
            jstr(self.prop), jstr(self.tier()), seed, jstr(self.level), cov, ass.join(","), viol, wall
        );
        std::fs::write(format!("{dir}/{}.json", self.prop), s).unwrap();
    }

    fn report(&self, v: &Viol) -> i32 {
        let name = &self.tasks[v.task].name;
        let dir = format!("{}/evidence/replay", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.txt", self.prop, self.tier());
        let text = format!(
            "property={}\ntier={}\ntask={}\nordinal={}\ncase={}\nmessage={}\n",
            self.prop, self.tier(), v.task, v.ord, format!("{} :: {}", name, v.id), v.msg
        );
        std::fs::write(&path, text).unwrap();
        println!("{}: {} :: {}", self.prop, name, v.id);
        println!("  {}", v.msg);
        println!("VIOLATION property={} replay={}", self.prop, path);
        1
    }

    /// Known findings of this property: lines `known: property=<id> case=<prefix>` of the
    /// committed file.
    fn known(&self) -> Vec<String> {
        let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
        let pre = format!("known: property={} case=", self.prop);
        t.lines().filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string())).collect()
    }

    pub fn run(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        if args.get(1).map(|s| s.as_str()) == Some("--child") {
            let only = args.get(3).map(|s| {
                let (a, b) = s.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            });
            std::process::exit(self.child(&args[2], only));
        }
        if args.get(1).map(|s| s.as_str()) == Some("--case") {
            // replay: TASK:ORDINAL
            let (a, b) = args[2].split_once(':').unwrap();
            let r = self.confirm(a.parse().unwrap(), b.parse().unwrap());
            match r {
                Some((id, how)) => {
                    println!("{id}\n  {how}");
                    std::process::exit(1)
                }
                None => {
                    println!("the case passes");
                    std::process::exit(0)
                }
            }
        }
        std::process::exit(self.supervise())
    }

    fn spawn(&self, prog: &str, only: Option<(usize, u64)>) -> std::process::Child {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg("--child").arg(prog);
        if let Some((t, o)) = only {
            c.arg(format!("{t}:{o}")).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
        }
        c.spawn().unwrap()
    }

    /// Re-run a task up to one case in a fresh process; Some(what happened) if it fails there.
    fn confirm(&self, t: usize, o: u64) -> Option<(String, String)> {
        use std::io::Read;
        let prog = format!("{}/evidence/.progress-{}-confirm-{}", verif_dir(), self.prop, std::process::id());
        Progress::open(&prog, true);
        let mut c = self.spawn(&prog, Some((t, o)));
        let mut out = c.stdout.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = out.read_to_string(&mut s);
            s
        });
        let st = Instant::now();
        let mut how = None;
        loop {
            match c.try_wait().unwrap() {
                Some(s) => {
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(sig) = s.signal() {
                        how = Some(format!("the process was killed by signal {sig}"));
                    } else if s.code() == Some(1) {
                        how = Some("disagrees with the model".to_string());
                    } else if s.code() == Some(77) {
                        how = Some(format!("no progress for {HANG_S} s"));
                    }
                    break;
                }
                None => {
                    if st.elapsed().as_secs() > 3 * HANG_S {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
        }
        let _ = std::fs::remove_file(&prog);
        let s = rd.join().unwrap();
        let id = s.lines().find_map(|l| l.strip_prefix("CASE ").map(|x| x.to_string()));
        match (id, how) {
            (Some(id), Some(how)) => Some((id, how)),
            _ => None,
        }
    }

    fn supervise(&self) -> i32 {
        let st = Instant::now();
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let prog = format!("{}/evidence/.progress-{}-{}", verif_dir(), self.prop, std::process::id());
        let _ = std::fs::remove_file(&prog);
        let p = Progress::open(&prog, true);
        let mut c = self.spawn(&prog, None);
        let code = loop {
            match c.try_wait().unwrap() {
                Some(s) => break s.code(),
                None => {
                    if st.elapsed().as_secs() > CAP_S {
                        let _ = c.kill();
                        let _ = c.wait();
                        let _ = std::fs::remove_file(&prog);
                        eprintln!("{}: time limit", self.prop);
                        return 3;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                }
            }
        };
        let _ = std::fs::remove_file(&prog);
        if let Some(k) = code {
            if k != 77 {
                return if k == 0 || k == 1 { k } else { 2 };
            }
        }
        // crashed or hung: find the case
        let mut cand = vec![];
        for w in 0..WORKERS {
            let t = p.slot(w, 0).load(SeqCst);
            if t != 0 {
                cand.push(((t - 1) as usize, p.slot(w, 1).load(SeqCst)));
            }
        }
        let traces: u64 = (0..WORKERS).map(|w| p.slot(w, 2).load(SeqCst)).sum();
        cand.sort();
        for (t, o) in cand {
            if let Some((id, how)) = self.confirm(t, o) {
                let id = id.split_once(" :: ").map(|x| x.1.to_string()).unwrap_or(id);
                let cov = format!(
                    "{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":{},\"samples\":[{}],\"exhaustive\":false,\"bounds\":{}}}",
                    traces, jstr(&id), jstr(&self.bounds)
                );
                self.write_evidence(&cov, 1, st.elapsed().as_secs_f64());
                return self.report(&Viol { task: t, ord: o, id, msg: how });
            }
        }
        eprintln!("{}: the exploration died ({code:?}) and no single case reproduces it", self.prop);
        2
    }

    fn child(&self, prog: &str, only: Option<(usize, u64)>) -> i32 {
        let st = Instant::now();
        std::panic::set_hook(Box::new(|_| {}));
        let prog = Progress::open(prog, false);
        let sh = Shared {
            stop: AtomicBool::new(false),
            viol: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            extra: Mutex::new(Default::default()),
            states: AtomicU64::new(0),
            trans: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            only,
        };
        let mut order: Vec<usize> = (0..self.tasks.len()).collect();
        order.sort_by_key(|&i| std::cmp::Reverse(self.tasks[i].cost));
        if let Some((t, _)) = only {
            order = vec![t];
        }
        let next = AtomicUsize::new(0);
        let alive = AtomicUsize::new(WORKERS);
        let fail = Mutex::new(None::<String>);
        let times = Mutex::new(Vec::<(f64, String)>::new());
        std::thread::scope(|s| {
            for w in 0..WORKERS {
                let (sh, prog, order, next, alive, fail, times) = (&sh, &prog, &order, &next, &alive, &fail, &times);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        loop {
                            let k = next.fetch_add(1, SeqCst);
                            if k >= order.len() || sh.stop.load(SeqCst) {
                                break;
                            }
                            let t = order[k];
                            let task = &self.tasks[t];
                            prog.slot(w, 1).store(0, SeqCst);
                            prog.slot(w, 0).store(t as u64 + 1, SeqCst);
                            let x = W {
                                sh, prog, slot: w, task: t, tname: &task.name, quick: self.quick, deep: self.deep,
                                ord: Cell::new(0), set: Default::default(), trans: Cell::new(0), ok: Cell::new(0),
                                done: Cell::new(false), extra: Default::default(),
                            };
                            let t0 = Instant::now();
                            if let Err(e) = catch_unwind(AssertUnwindSafe(|| (task.f)(&x))) {
                                *fail.lock().unwrap() = Some(format!("{}: the check itself panicked: {}", task.name, payload(e)));
                                sh.stop.store(true, SeqCst);
                            }
                            times.lock().unwrap().push((t0.elapsed().as_secs_f64(), task.name.clone()));
                            sh.states.fetch_add(x.set.borrow().len() as u64, SeqCst);
                            sh.trans.fetch_add(x.trans.get(), SeqCst);
                            sh.traces.fetch_add(x.ok.get(), SeqCst);
                            prog.slot(w, 2).fetch_add(x.ok.get(), SeqCst);
                            let mut e = sh.extra.lock().unwrap();
                            for (k, v) in x.extra.borrow().iter() {
                                *e.entry(k.clone()).or_insert(0) += v;
                            }
                        }
                        prog.slot(w, 0).store(0, SeqCst);
                        alive.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let mut seen = vec![(0u64, 0u64, Instant::now()); WORKERS];
            while alive.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(5));
                for w in 0..WORKERS {
                    let a = (prog.slot(w, 0).load(SeqCst), prog.slot(w, 1).load(SeqCst));
                    if a.0 == 0 || (seen[w].0, seen[w].1) != a {
                        seen[w] = (a.0, a.1, Instant::now());
                    } else if seen[w].2.elapsed().as_secs() > HANG_S {
                        std::process::exit(77);
                    }
                }
            }
        });
        if let Some(m) = fail.lock().unwrap().take() {
            eprintln!("{m}");
            return 2;
        }
        let mut viol = sh.viol.lock().unwrap().clone();
        if only.is_some() {
            viol.retain(|v| Some((v.task, v.ord)) == only);
            return if viol.is_empty() { 0 } else { 1 };
        }
        viol.sort_by_key(|v| (v.id.len(), v.task, v.ord));
        let known = self.known();
        let mut printed = HashSet::new();
        viol.retain(|v| {
            let full = format!("{} :: {}", self.tasks[v.task].name, v.id);
            match known.iter().find(|k| full.starts_with(k.as_str())) {
                Some(k) => {
                    if printed.insert(k.clone()) {
                        println!("KNOWN-FINDING: property={} {}: {}", self.prop, full, v.msg);
                    }
                    false
                }
                None => true,
            }
        });
        let mut samples = sh.samples.lock().unwrap().clone();
        samples.sort();
        let step = (samples.len() / 12).max(1);
        let samples: Vec<String> = samples.iter().step_by(step).take(16).map(|s| jstr(&s.1)).collect();
        let extra: String = sh.extra.lock().unwrap().iter().map(|(k, v)| format!(",{}:{}", jstr(k), v)).collect();
        let (states, trans, traces) = (sh.states.load(SeqCst), sh.trans.load(SeqCst), sh.traces.load(SeqCst));
        let cov = format!(
            "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"tasks\":{}{},\"exhaustive\":{},\"bounds\":{},\"samples\":[{}]}}",
            states, trans, traces, self.tasks.len(), extra, viol.is_empty(), jstr(&self.bounds), samples.join(",")
        );
        self.write_evidence(&cov, viol.len(), st.elapsed().as_secs_f64());
        if std::env::var("VERIF_TIMES").is_ok() {
            let mut t = times.lock().unwrap().clone();
            t.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            for x in t.iter().take(12) {
                println!("  {:.2}s {}", x.0, x.1);
            }
        }
        if let Some(v) = viol.first() {
            return self.report(v);
        }
        println!(
            "{} {}: held. {} tasks, {} states, {} transitions, {} traces, {:.1} s",
            self.prop, self.tier(), self.tasks.len(), states, trans, traces, st.elapsed().as_secs_f64()
        );
        0
    }
}
