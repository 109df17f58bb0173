//! Controlled scheduler: runs virtual threads one at a time and explores every choice.
//!
//! Every operation on shared state announces itself ([point], [wait_for], [choose]) and stops until the
//! scheduler picks it. An execution is determined by its list of choices; [explore] walks the whole tree
//! of choices, without running anything twice. Executions that only differ in the order of independent
//! operations are visited once (sleep sets), unless a preemption bound is asked for.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};

/// What a thread is about to touch. obj 0: nothing shared. obj u64::MAX: everything.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub obj: u64,
    pub write: bool,
}
pub const NONE: Op = Op { obj: 0, write: false };
pub const ALL: Op = Op { obj: u64::MAX, write: true };
pub fn read(obj: u64) -> Op {
    Op { obj, write: false }
}
pub fn write(obj: u64) -> Op {
    Op { obj, write: true }
}
fn independent(a: Op, b: Op) -> bool {
    a.obj == 0 || b.obj == 0 || (a.obj != u64::MAX && b.obj != u64::MAX && a.obj != b.obj) || (!a.write && !b.write)
}
/// The execution is over: the thread has to end.
#[derive(Debug, Clone, Copy)]
pub struct Over;

type Cond = Box<dyn FnMut() -> bool + Send>;
enum Run {
    Ready,
    Until(Cond),
    Done,
}
struct Th {
    proc: usize,
    run: Run,
    op: Op,
    what: &'static str,
    panic: Option<String>,
    blocked: Arc<AtomicBool>,
    park: Arc<(Mutex<bool>, Condvar)>,
}
#[derive(Clone, Copy)]
struct Step {
    pick: u16,
}
/// an alternative that still has to be explored
struct Item {
    picks: Vec<u16>,
    sleep: Vec<usize>,
}
struct St {
    th: Vec<Th>,
    cur: usize,
    steps: Vec<Step>,
    sleep: Vec<usize>,
    preempts: usize,
    live: usize,
    more: Vec<Item>,
    pruned: bool,
    ended: bool,
    dead: Vec<bool>,
    log: Vec<String>,
    stuck: Vec<(usize, usize, &'static str)>,
    transitions: u64,
    objs: u64,
}
pub struct World {
    /// what the stand-ins of the operating system keep for this execution
    pub ext: std::sync::OnceLock<Arc<dyn std::any::Any + Send + Sync>>,
    st: Mutex<St>,
    prefix: Vec<u16>,
    bound: Option<usize>,
    over: AtomicBool,
    atomic: AtomicBool,
    after: AtomicU64,
    main: (Mutex<bool>, Condvar),
    steps_max: usize,
}
thread_local! { static CTX: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) }; }

pub fn current() -> Option<(Arc<World>, usize)> {
    CTX.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}
/// the virtual process of this thread
pub fn proc_id() -> Option<usize> {
    let (w, t) = current()?;
    let p = w.st.lock().unwrap().th[t].proc;
    Some(p)
}
/// whether this virtual process was killed, or the execution is over
pub fn gone() -> bool {
    match current() {
        None => false,
        Some((w, t)) => w.is_over() || { let s = w.st.lock().unwrap(); s.dead[s.th[t].proc] },
    }
}

/// Threads are used again, to start one costs more than a whole execution.
type Job = Box<dyn FnOnce() + Send>;
type Slot = Arc<(Mutex<Option<Job>>, Condvar)>;
static POOL: Mutex<Vec<Slot>> = Mutex::new(vec![]);
fn pool_run(job: Job) {
    let idle = POOL.lock().unwrap().pop();
    if let Some(slot) = idle {
        *slot.0.lock().unwrap() = Some(job);
        slot.1.notify_one();
        return;
    }
    let slot: Slot = Arc::new((Mutex::new(Some(job)), Condvar::new()));
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || loop {
            let job = {
                let mut g = slot.0.lock().unwrap();
                loop {
                    match g.take() {
                        Some(j) => break j,
                        None => g = slot.1.wait(g).unwrap(),
                    }
                }
            };
            job();
            POOL.lock().unwrap().push(slot.clone());
        })
        .expect("spawn");
}

impl World {
    fn new(item: Item, bound: Option<usize>, steps_max: usize) -> Arc<World> {
        Arc::new(World {
            ext: Default::default(),
            st: Mutex::new(St {
                th: vec![],
                cur: usize::MAX,
                steps: vec![],
                sleep: item.sleep,
                preempts: 0,
                live: 0,
                more: vec![],
                pruned: false,
                ended: false,
                dead: vec![],
                log: vec![],
                stuck: vec![],
                transitions: 0,
                objs: 1,
            }),
            prefix: item.picks,
            bound,
            over: false.into(),
            atomic: false.into(),
            after: 0.into(),
            main: Default::default(),
            steps_max,
        })
    }
    pub fn is_over(&self) -> bool {
        self.over.load(SeqCst)
    }
    /// a number for a shared object
    pub fn obj(&self) -> u64 {
        let mut s = self.st.lock().unwrap();
        s.objs += 1;
        s.objs
    }
    /// Start a virtual thread. Called before the execution runs, or by a virtual thread.
    pub fn spawn(self: &Arc<Self>, proc: usize, f: impl FnOnce() + Send + 'static) -> usize {
        let park: Arc<(Mutex<bool>, Condvar)> = Default::default();
        let tid = {
            let mut s = self.st.lock().unwrap();
            while s.dead.len() <= proc {
                s.dead.push(false)
            }
            s.th.push(Th { proc, run: Run::Ready, op: NONE, what: "start", panic: None, blocked: Default::default(), park: park.clone() });
            s.live += 1;
            s.th.len() - 1
        };
        let w = self.clone();
        pool_run(Box::new(move || {
            CTX.with(|c| *c.borrow_mut() = Some((w.clone(), tid)));
            wait_park(&park);
            let r = if w.is_over() { Ok(()) } else { catch(f) };
            CTX.with(|c| *c.borrow_mut() = None);
            w.finish(tid, r.err());
        }));
        tid
    }
    fn finish(self: &Arc<Self>, tid: usize, panic: Option<String>) {
        let mut s = self.st.lock().unwrap();
        s.th[tid].run = Run::Done;
        let dead = s.dead[s.th[tid].proc];
        if !self.is_over() && !dead {
            s.th[tid].panic = panic;
        }
        s.live -= 1;
        if !self.is_over() {
            self.next(&mut s, tid);
        }
        if s.live == 0 {
            *self.main.0.lock().unwrap() = true;
            self.main.1.notify_all();
        }
    }
    /// choose the thread that runs next and wake it, unless it is `me`. true: me continues
    fn next(self: &Arc<Self>, s: &mut St, me: usize) -> bool {
        if s.steps.len() >= self.steps_max && !s.ended {
            s.log.push(format!("more than {} choices", self.steps_max));
            return self.end(s);
        }
        let mut enabled: Vec<usize> = vec![];
        for t in 0..s.th.len() {
            let ok = match &mut s.th[t].run {
                Run::Ready => true,
                Run::Until(c) => c(),
                Run::Done => false,
            };
            if ok {
                enabled.push(t)
            }
        }
        if let Some(p) = enabled.iter().position(|t| *t == me) {
            enabled.remove(p);
            enabled.insert(0, me);
        }
        let can_stay = enabled.first() == Some(&me);
        if self.bound.is_some_and(|b| can_stay && s.preempts >= b) {
            enabled.truncate(1)
        }
        if enabled.is_empty() {
            return self.end(s);
        }
        // an operation on nothing shared commutes with everything: no other order has to be explored
        let free = if self.bound.is_none() { enabled.iter().position(|t| s.th[*t].op.obj == 0) } else { None };
        let pick = if enabled.len() == 1 && self.bound.is_some() {
            0
        } else if let Some(f) = free {
            f
        } else {
            let at = s.steps.len();
            let n = enabled.len();
            let replay = self.prefix.get(at).copied();
            let pick = match replay {
                Some(p) => {
                    assert!((p as usize) < n, "the execution is not determined by its choices");
                    p as usize
                }
                None => {
                    let sleeping = if self.bound.is_some() { vec![] } else { s.sleep.clone() };
                    let open: Vec<usize> = (0..n).filter(|i| !sleeping.contains(&enabled[*i])).collect();
                    let Some(first) = open.first().copied() else {
                        s.pruned = true;
                        return self.end(s);
                    };
                    let mut before = sleeping.clone();
                    before.push(enabled[first]);
                    for &alt in &open[1..] {
                        let op = s.th[enabled[alt]].op;
                        let sleep = before.iter().copied().filter(|z| independent(s.th[*z].op, op)).collect();
                        let mut picks: Vec<u16> = s.steps.iter().map(|s| s.pick).collect();
                        picks.push(alt as u16);
                        s.more.push(Item { picks, sleep });
                        before.push(enabled[alt]);
                    }
                    let op = s.th[enabled[first]].op;
                    s.sleep = sleeping.into_iter().filter(|z| independent(s.th[*z].op, op)).collect();
                    first
                }
            };
            s.steps.push(Step { pick: pick as u16 });
            pick
        };
        let t = enabled[pick];
        if can_stay && t != me {
            s.preempts += 1
        }
        s.transitions += 1;
        s.th[t].blocked.store(false, SeqCst);
        s.th[t].run = Run::Ready;
        s.cur = t;
        if t == me {
            return true;
        }
        unpark(&s.th[t].park);
        false
    }
    /// no thread can run: the execution is over, let every thread leave
    fn end(&self, s: &mut St) -> bool {
        s.ended = true;
        s.stuck = s.th.iter().enumerate().filter(|(_, t)| !matches!(t.run, Run::Done) && !s.dead[t.proc]).map(|(i, t)| (i, t.proc, t.what)).collect();
        self.over.store(true, SeqCst);
        for t in &s.th {
            if !matches!(t.run, Run::Done) {
                unpark(&t.park)
            }
        }
        true
    }
    fn stop_here(self: &Arc<Self>, tid: usize, op: Op, what: &'static str, cond: Option<Cond>) -> Result<(), Over> {
        if self.is_over() {
            return self.left();
        }
        if self.atomic.load(SeqCst) {
            if let Some(mut c) = cond {
                assert!(c(), "{what} would block in one step");
            }
            return Ok(());
        }
        let park = {
            let mut s = self.st.lock().unwrap();
            if s.dead[s.th[tid].proc] {
                // a killed process: its threads run on without any effect
                return Err(Over);
            }
            s.th[tid].op = op;
            s.th[tid].what = what;
            s.th[tid].blocked.store(cond.is_some(), SeqCst);
            s.th[tid].run = match cond {
                None => Run::Ready,
                Some(c) => Run::Until(c),
            };
            if self.next(&mut s, tid) {
                return if self.is_over() { Err(Over) } else { Ok(()) };
            }
            s.th[tid].park.clone()
        };
        wait_park(&park);
        if self.is_over() {
            return Err(Over);
        }
        let s = self.st.lock().unwrap();
        if s.dead[s.th[tid].proc] {
            return Err(Over);
        }
        Ok(())
    }
    fn gone(&self) {
        let mut s = self.st.lock().unwrap();
        s.live -= 1;
        if s.live == 0 {
            *self.main.0.lock().unwrap() = true;
            self.main.1.notify_all();
        }
    }
    /// the calling thread never does anything again
    fn abandon(&self) -> ! {
        self.gone();
        loop {
            std::thread::sleep(std::time::Duration::from_secs(3600))
        }
    }
    fn left(&self) -> Result<(), Over> {
        // a thread that does not leave would keep the execution from ending
        if self.after.fetch_add(1, SeqCst) > 20_000 {
            self.abandon()
        }
        Err(Over)
    }
}
fn catch(f: impl FnOnce()) -> Result<(), String> {
    kit::no_panic(|| match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => None,
        Err(p) if p.is::<Over>() => None,
        Err(p) => Some(p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or("panic".into())),
    })
    .map_or_else(Err, |p| p.map_or(Ok(()), Err))
}
fn wait_park(p: &(Mutex<bool>, Condvar)) {
    let mut g = p.0.lock().unwrap();
    while !*g {
        g = p.1.wait(g).unwrap();
    }
    *g = false;
}
fn unpark(p: &(Mutex<bool>, Condvar)) {
    *p.0.lock().unwrap() = true;
    p.1.notify_one();
}

/// An operation on shared state happens now; another thread may run before it.
pub fn point(op: Op, what: &'static str) -> Result<(), Over> {
    match current() {
        None => Ok(()),
        Some((w, t)) => w.stop_here(t, op, what, None),
    }
}
/// The operation can only happen once cond holds.
pub fn wait_for(op: Op, what: &'static str, cond: impl FnMut() -> bool + Send + 'static) -> Result<(), Over> {
    let (w, t) = current().expect("a virtual thread");
    w.stop_here(t, op, what, Some(Box::new(cond)))
}
/// leave the execution: unwinds the thread
pub fn leave<T>(r: Result<T, Over>) -> T {
    match r {
        Ok(v) => v,
        Err(o) => {
            if std::thread::panicking() {
                // already unwinding: the value is needed for a destructor that must not unwind again
                current().unwrap().0.abandon()
            }
            std::panic::resume_unwind(Box::new(o))
        }
    }
}
/// 0..n, every value is explored
pub fn choose(n: usize, what: &'static str) -> usize {
    let Some((w, _)) = current() else { return 0 };
    if n <= 1 || w.is_over() {
        return 0;
    }
    let mut s = w.st.lock().unwrap();
    let at = s.steps.len();
    let pick = match w.prefix.get(at) {
        Some(p) => {
            assert!((*p as usize) < n, "the execution is not determined by its choices: {what}");
            *p
        }
        None => {
            for alt in 1..n {
                let mut picks: Vec<u16> = s.steps.iter().map(|s| s.pick).collect();
                picks.push(alt as u16);
                let sleep = s.sleep.clone();
                s.more.push(Item { picks, sleep });
            }
            0
        }
    };
    s.steps.push(Step { pick });
    pick as usize
}
/// Everything f does is one step of the scheduler, done by the virtual process `proc`
pub fn as_one<T>(proc: usize, f: impl FnOnce() -> T) -> Result<T, Over> {
    point(ALL, "setup")?;
    let (w, t) = current().unwrap();
    let set = |p| {
        let mut s = w.st.lock().unwrap();
        while s.dead.len() <= p {
            s.dead.push(false)
        }
        std::mem::replace(&mut s.th[t].proc, p)
    };
    let was = set(proc);
    w.atomic.store(true, SeqCst);
    let r = f();
    w.atomic.store(false, SeqCst);
    set(was);
    Ok(r)
}
/// Set while the thread stands before an operation that has to wait for something. The condition of a
/// [wait_for] with [ALL] may look at it.
pub fn blocked(w: &World, tid: usize) -> Arc<AtomicBool> {
    w.st.lock().unwrap().th[tid].blocked.clone()
}
/// kill the virtual process of this thread: from here on nothing it does has an effect
pub fn kill_self() {
    let (w, t) = current().unwrap();
    let mut s = w.st.lock().unwrap();
    let p = s.th[t].proc;
    s.dead[p] = true;
    // its other threads may leave
    for th in &mut s.th {
        if th.proc == p && !matches!(th.run, Run::Done) {
            th.run = Run::Ready
        }
    }
}
/// add a line to the description of the execution
pub fn note(f: impl FnOnce() -> String) {
    if let Some((w, _)) = current() {
        if !w.is_over() {
            let l = f();
            w.st.lock().unwrap().log.push(l)
        }
    }
}
pub fn obj() -> u64 {
    current().map(|(w, _)| w.obj()).unwrap_or(0)
}

/// How an execution ended
pub struct Outcome {
    pub choices: Vec<u16>,
    pub log: Vec<String>,
    /// threads that did not end by themselves, and what they were waiting for
    pub stuck: Vec<(usize, usize, &'static str)>,
    pub panics: Vec<(usize, String)>,
    pub preempts: usize,
}
pub struct Config {
    /// None: every interleaving (up to independent operations)
    pub preemptions: Option<usize>,
    pub steps: usize,
    pub limit: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config { preemptions: None, steps: 2000, limit: u64::MAX }
    }
}
/// Explore every execution of the scenario. `setup` starts the threads of one execution and gives the
/// judgement of it, which is called once the execution is over. true as judgement: non-trivial.
pub fn explore<J>(cx: &kit::Cx, name: &str, cfg: &Config, setup: impl Fn(&Arc<World>) -> J + Sync) -> (u64, bool)
where
    J: FnOnce(&Outcome) -> kit::CaseResult,
{
    let queue = Mutex::new((vec![Item { picks: vec![], sleep: vec![] }], 0usize));
    let cv = Condvar::new();
    let runs = AtomicU64::new(0);
    let complete = AtomicBool::new(true);
    let workers = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(8);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| loop {
                let item = {
                    let mut q = queue.lock().unwrap();
                    loop {
                        if cx.stopped() || runs.load(Relaxed) >= cfg.limit {
                            if !q.0.is_empty() {
                                complete.store(false, Relaxed);
                                q.0.clear();
                            }
                        }
                        if let Some(i) = q.0.pop() {
                            q.1 += 1;
                            break i;
                        }
                        if q.1 == 0 {
                            cv.notify_all();
                            return;
                        }
                        q = cv.wait(q).unwrap();
                    }
                };
                let more = one(cx, name, cfg, item, &setup, &runs);
                let mut q = queue.lock().unwrap();
                q.0.extend(more);
                q.1 -= 1;
                cv.notify_all();
            });
        }
    });
    (runs.load(Relaxed), complete.load(Relaxed))
}
fn one<J>(cx: &kit::Cx, name: &str, cfg: &Config, item: Item, setup: &(impl Fn(&Arc<World>) -> J + Sync), runs: &AtomicU64) -> Vec<Item>
where
    J: FnOnce(&Outcome) -> kit::CaseResult,
{
    let key = format!("{name} choices {}", item.picks.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("."));
    let mut more = vec![];
    let mut pruned = false;
    let mut tr = 0;
    let describe = RefCell::new(key.clone());
    let go = || -> Result<Option<(J, Outcome)>, kit::Bad> {
        let w = World::new(item, cfg.preemptions, cfg.steps);
        let judge = setup(&w);
        {
            let mut s = w.st.lock().unwrap();
            if s.live > 0 {
                w.next(&mut s, usize::MAX);
                drop(s);
                let mut d = w.main.0.lock().unwrap();
                while !*d {
                    d = w.main.1.wait(d).unwrap();
                }
            }
        }
        let mut s = w.st.lock().unwrap();
        more = std::mem::take(&mut s.more);
        tr = s.transitions;
        pruned = s.pruned;
        if s.pruned {
            return Ok(None);
        }
        let out = Outcome {
            choices: s.steps.iter().map(|s| s.pick).collect(),
            log: std::mem::take(&mut s.log),
            stuck: std::mem::take(&mut s.stuck),
            panics: s.th.iter().enumerate().filter_map(|(i, t)| Some((i, t.panic.clone()?))).collect(),
            preempts: s.preempts,
        };
        Ok(Some((judge, out)))
    };
    cx.case_k(key.as_bytes(), &|| describe.borrow().clone(), || {
        let Some((judge, out)) = go()? else { return Ok(false) };
        *describe.borrow_mut() = format!("{name}\n  {}\n  choices {}", out.log.join("\n  "), out.choices.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("."));
        judge(&out)
    });
    if !pruned {
        runs.fetch_add(1, Relaxed);
        cx.states(1);
        cx.traces(1);
    }
    cx.transitions(tr);
    more
}
