//! Shared driver of the checks: supervised worker process, parallel exhaustive enumeration,
//! violation reporting, known findings and evidence.
//!
//! The process forks: the child explores, the parent watches. Every thread of the child publishes the
//! case it is executing in shared memory, so that a crash by signal, an abort, or a case that never
//! returns is reported as a violation of that case instead of killing the check.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod rng;
pub mod enumerate;
pub use enumerate::*;

const SLOTS: usize = 64;
const SLOT_BYTES: usize = 8192;

#[repr(C)]
struct Slot {
    seq: AtomicU64,
    active: AtomicU64,
    len: AtomicUsize,
    buf: [u8; SLOT_BYTES],
}
#[repr(C)]
struct Shared {
    evaluations: AtomicU64,
    nontrivial: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    violations: AtomicU64,
    slots: [Slot; SLOTS],
}

pub struct Cx {
    pub prop: &'static str,
    pub level: &'static str,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    shared: &'static Shared,
    samples: Mutex<Vec<String>>,
    rules: Mutex<Vec<String>>,
    bounds: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    known_seen: Mutex<BTreeMap<String, u64>>,
    sections: Mutex<Vec<(String, u64, u64)>>,
    stop: std::sync::atomic::AtomicBool,
}

/// A failed case. `key` identifies it for the known findings file.
#[derive(Debug)]
pub struct Bad {
    pub key: String,
    pub msg: String,
}
impl From<String> for Bad {
    fn from(msg: String) -> Self {
        Bad { key: String::new(), msg }
    }
}
impl From<&str> for Bad {
    fn from(msg: &str) -> Self {
        Bad { key: String::new(), msg: msg.to_string() }
    }
}
pub fn bad<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: key.into(), msg: msg.into() })
}
/// Ok(true): the case was non-trivial. Ok(false): trivial (e.g. rejected by both sides).
pub type CaseResult = Result<bool, Bad>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err($crate::Bad::from(format!($($arg)*))); } };
}

thread_local! { static SLOT: Cell<usize> = Cell::new(usize::MAX); static QUIET: Cell<bool> = Cell::new(false); static LASTPANIC: std::cell::RefCell<String> = Default::default(); }
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

fn slot_idx() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, SeqCst) % SLOTS)
        }
        s.get()
    })
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        match c {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*c as char),
            b'\n' => s.push_str("\\n"),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s
}

/// Run f, turning a panic into Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| LASTPANIC.with(|l| l.borrow().clone()))
}

impl Cx {
    pub fn quick(&self) -> bool {
        self.tier != "thorough"
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn states(&self, n: u64) {
        self.shared.states.fetch_add(n, Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.shared.transitions.fetch_add(n, Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.shared.traces.fetch_add(n, Relaxed);
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut l = self.samples.lock().unwrap();
        if l.len() < 12 {
            l.push(s())
        }
    }
    pub fn rule(&self, s: impl Into<String>) {
        self.rules.lock().unwrap().push(s.into())
    }
    pub fn bound(&self, k: impl Into<String>, v: impl ToString) {
        self.bounds.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into())
    }
    /// Name a part of the space; records the evaluations it took.
    pub fn section(&self, name: &str, f: impl FnOnce()) {
        if self.stopped() {
            return;
        }
        let (e0, n0) = (self.shared.evaluations.load(Relaxed), self.shared.nontrivial.load(Relaxed));
        let t = Instant::now();
        f();
        let (e, n) = (self.shared.evaluations.load(Relaxed) - e0, self.shared.nontrivial.load(Relaxed) - n0);
        println!("[{}] {name}: cases={e} nontrivial={n} {:.1}s", self.prop, t.elapsed().as_secs_f64());
        self.sections.lock().unwrap().push((name.to_string(), e, n));
    }
    /// publish what is about to run without counting it (for steps inside a case)
    pub fn mark(&self, key: &[u8]) {
        let s = &self.shared.slots[slot_idx()];
        let l = key.len().min(SLOT_BYTES);
        unsafe { std::ptr::copy_nonoverlapping(key.as_ptr(), s.buf.as_ptr() as *mut u8, l) };
        s.len.store(l, Relaxed);
        s.seq.fetch_add(1, Relaxed);
    }
    /// Execute one case. `key` describes it completely (shown in the replay file).
    #[inline]
    pub fn case(&self, key: &[u8], f: impl FnOnce() -> CaseResult) {
        self.case_k(key, &|| show(key), f)
    }
    pub fn case_k(&self, key: &[u8], descr: &dyn Fn() -> String, f: impl FnOnce() -> CaseResult) {
        if self.stopped() {
            return;
        }
        let slot = &self.shared.slots[slot_idx()];
        self.mark(key);
        slot.active.store(1, Relaxed);
        let r = match no_panic(f) {
            Ok(r) => r,
            Err(p) => Err(Bad { key: format!("panic {p}"), msg: format!("panicked: {p}") }),
        };
        slot.active.store(0, Relaxed);
        self.shared.evaluations.fetch_add(1, Relaxed);
        match r {
            Ok(true) => {
                let n = self.shared.nontrivial.fetch_add(1, Relaxed) + 1;
                // actual cases of this run, ever further apart
                if [1, 7, 60, 500, 4000, 30_000, 250_000, 2_000_000, 16_000_000].contains(&n) {
                    let d = descr();
                    self.sample(|| d.chars().take(400).collect());
                }
            }
            Ok(false) => {}
            Err(b) => self.fail(&descr(), b),
        }
    }
    pub fn fail(&self, case: &str, b: Bad) {
        if let Some((k, d)) = self.known.iter().find(|(k, _)| !k.is_empty() && *k == b.key) {
            let mut seen = self.known_seen.lock().unwrap();
            let c = seen.entry(k.clone()).or_default();
            *c += 1;
            if *c == 1 {
                println!("KNOWN-FINDING: property={} {k}: {d}", self.prop);
            }
            return;
        }
        let n = self.shared.violations.fetch_add(1, SeqCst);
        if n < 3 {
            report_violation(self.prop, &self.tier, n, case, &b.key, &b.msg);
        }
        if n >= 2 {
            self.stop.store(true, SeqCst);
        }
    }
    /// Run f(i) for every i in 0..n on all cores.
    pub fn par(&self, n: u64, f: impl Fn(u64) + Sync) {
        let next = AtomicU64::new(0);
        let chunk = (n / 4096).clamp(1, 2048);
        let workers = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(8).min(SLOTS).min(n.max(1) as usize);
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || self.stopped() {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            f(i)
                        }
                    })
                    .unwrap();
            }
        });
    }
    fn write_evidence(&self, exhaustive: bool) {
        let sh = self.shared;
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        let ev = sh.evaluations.load(SeqCst);
        let traces = sh.traces.load(SeqCst);
        let samples = self.samples.lock().map(|s| s.clone()).unwrap_or_default();
        let rules = self.rules.lock().map(|s| s.join("; ")).unwrap_or_default();
        let bounds = self.bounds.lock().map(|m| m.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(",")).unwrap_or_default();
        let sections = self
            .sections
            .lock()
            .map(|m| m.iter().map(|(k, e, n)| format!("{{\"name\":{},\"cases\":{e},\"nontrivial\":{n}}}", esc(k))).collect::<Vec<_>>().join(","))
            .unwrap_or_default();
        let known = self.known_seen.lock().map(|m| m.iter().map(|(k, n)| format!("{}:{n}", esc(k))).collect::<Vec<_>>().join(",")).unwrap_or_default();
        let mut cov = format!(
            "\"evaluations\":{ev},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":{},\"exhaustive\":{exhaustive},\"bounds\":{{{bounds}}},\"sections\":[{sections}],\"known_findings_seen\":{{{known}}}",
            sh.nontrivial.load(SeqCst),
            esc(&rules),
            list(&samples)
        );
        if self.level == "model_checking" {
            cov.push_str(&format!(
                ",\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{traces}",
                sh.states.load(SeqCst),
                sh.transitions.load(SeqCst)
            ));
        }
        let js = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{cov}}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
            esc(self.prop),
            esc(&self.tier),
            self.seed,
            esc(self.level),
            list(&self.assumptions.lock().map(|s| s.clone()).unwrap_or_default()),
            self.start.elapsed().as_secs_f64(),
            sh.violations.load(SeqCst)
        );
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), js).expect("write evidence");
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}
pub fn repo_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_REPO").map(Into::into).unwrap_or_else(|| "/repo".into())
}

fn report_violation(prop: &str, tier: &str, n: u64, case: &str, key: &str, msg: &str) {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{n}.txt"));
    let mut short = msg.to_string();
    if short.len() > 2000 {
        let mut i = 2000;
        while !short.is_char_boundary(i) {
            i -= 1
        }
        short.truncate(i);
    }
    let _ = std::fs::write(
        &path,
        format!("property: {prop}\ncase: {case}\nkey: {key}\nwhat: {msg}\nreplay: the enumeration is deterministic; `cd /verif && ./run.sh {prop} {tier}` reaches this case again\n"),
    );
    let case: String = case.chars().take(1000).collect();
    println!("  case: {case}\n  what: {short}");
    println!("VIOLATION property={prop} replay={}", path.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    let Ok(txt) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return vec![] };
    txt.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let rest = rest.strip_prefix("key=")?;
            let (k, d) = rest.split_once(" | ")?;
            Some((k.trim().to_string(), d.trim().to_string()))
        })
        .collect()
}

/// Entry point of a check. `f` explores; everything it asserts goes through [Cx::case] / [Cx::fail].
pub fn main(prop: &'static str, level: &'static str, f: impl FnOnce(&Cx)) -> ! {
    let tier = std::env::args().nth(1).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let hang = Duration::from_secs(std::env::var("MC_HANG_S").ok().and_then(|v| v.parse().ok()).unwrap_or(60));
    let mem_gb: u64 = std::env::var("MC_MEM_GB").ok().and_then(|v| v.parse().ok()).unwrap_or(12);
    let shared: &'static Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    let cx = Cx {
        prop,
        level,
        tier: tier.clone(),
        seed,
        start: Instant::now(),
        shared,
        samples: Default::default(),
        rules: Default::default(),
        bounds: Default::default(),
        assumptions: Default::default(),
        known: load_known(prop),
        known_seen: Default::default(),
        sections: Default::default(),
        stop: false.into(),
    };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: mem_gb << 30, rlim_max: mem_gb << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
        }
        let def = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| q.get()) {
                let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("crates/").next().unwrap_or(l.file()), l.line())).unwrap_or_default();
                LASTPANIC.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
            } else {
                def(i)
            }
        }));
        f(&cx);
        let v = cx.shared.violations.load(SeqCst);
        cx.write_evidence(v == 0);
        let sh = cx.shared;
        println!(
            "[{prop}] tier={tier} evaluations={} nontrivial={} states={} transitions={} traces_validated={} violations={v} {:.1}s",
            sh.evaluations.load(SeqCst),
            sh.nontrivial.load(SeqCst),
            sh.states.load(SeqCst),
            sh.transitions.load(SeqCst),
            sh.traces.load(SeqCst),
            cx.start.elapsed().as_secs_f64()
        );
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(if v == 0 { 0 } else { 1 });
    }
    let mut last: Vec<(u64, Instant)> = (0..SLOTS).map(|_| (0, Instant::now())).collect();
    let fatal = |why: String, slot: Option<usize>| -> ! {
        let idx = slot.or_else(|| (0..SLOTS).find(|i| shared.slots[*i].active.load(SeqCst) == 1));
        let case = match idx {
            Some(i) => {
                let s = &shared.slots[i];
                show(&s.buf[..s.len.load(SeqCst).min(SLOT_BYTES)])
            }
            None => "(unknown)".into(),
        };
        shared.violations.fetch_add(1, SeqCst);
        report_violation(prop, &tier, 0, &case, "crash", &why);
        cx.write_evidence(false);
        std::process::exit(1)
    };
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) {
                let code = libc::WEXITSTATUS(st);
                if code == 0 || code == 1 {
                    std::process::exit(code);
                }
                // 101: a panic outside of a case is an error of the check itself
                eprintln!("[{prop}] worker exited with {code}");
                std::process::exit(2);
            }
            let sig = libc::WTERMSIG(st);
            if shared.slots.iter().all(|s| s.active.load(SeqCst) == 0) {
                eprintln!("[{prop}] worker killed by signal {sig} outside of a case");
                std::process::exit(2);
            }
            fatal(format!("the process was killed by signal {sig} while executing this case (abort, stack overflow or out of memory)"), None);
        }
        for (i, s) in shared.slots.iter().enumerate() {
            let q = s.seq.load(SeqCst);
            if q != last[i].0 || s.active.load(SeqCst) == 0 {
                last[i] = (q, Instant::now());
            } else if last[i].1.elapsed() > hang {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                fatal(format!("the case did not return within {hang:?}"), Some(i));
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
