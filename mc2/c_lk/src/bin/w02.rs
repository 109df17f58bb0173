//! Waiting for packets: whatever other processes save and whenever, a wait ends as soon as what it waits for is
//! there, with the result that says why, and nobody sleeps while a packet waits to be delivered.
use c_lk::*;
use core_::env::lmdb::BTreeEnv;
use ipcbus::Moment;
use kit::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll, Wake};
use std::time::Instant;

const START: u64 = 1000;
fn universe() -> &'static [Pkt] {
    static U: OnceLock<Vec<Pkt>> = OnceLock::new();
    let l = |d: &str, s: &str, t: u64| make(link_spec(1, d, s, t, b""), None);
    U.get_or_init(|| vec![l("a", "/a", 7), l("a", "/a", 6), l("b", "/a", 5), make(data_spec(b"z"), None)])
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Idle,
    /// another process saves
    Save(&'static [usize]),
    /// time passes
    Later(u64),
}
struct Wait {
    qid: Option<&'static str>,
    before: Option<(String, u32)>,
    timeout: Option<u64>,
}
struct St {
    m: Model<'static>,
    other: BTreeEnv,
    acts: VecDeque<Act>,
    wait: Wait,
    wrong: Option<Bad>,
    moments: u64,
}
/// the end of an experiment
struct Forever;

impl St {
    fn wrong(&mut self, key: &str, msg: String) {
        if self.wrong.is_none() {
            self.wrong = Some(Bad { key: key.into(), msg });
        }
    }
    fn look(&mut self) -> Option<i64> {
        let q = self.wait.qid.zip(self.wait.before.as_ref());
        let before = q.map(|q| (q.0, q.1.clone()));
        self.m.look(before.as_ref().map(|b| (b.0, &b.1)), self.wait.timeout)
    }
    fn to(&mut self, us: u64) {
        self.m.clock = us;
        vclock::set(us);
    }
    fn act(&mut self, a: Act) {
        match a {
            Act::Idle => {}
            Act::Later(us) => self.to(self.m.clock + us),
            Act::Save(p) => {
                self.m.save(p);
                vclock::set(self.m.clock);
                let l: Vec<&dyn NetPkt> = p.iter().map(|p| &universe()[*p].net as &dyn NetPkt).collect();
                self.other.save_dyn_iter(l.into_iter()).unwrap();
            }
        }
    }
    fn moment(&mut self, m: Moment) {
        self.moments += 1;
        if self.moments > 60 {
            self.wrong("does not end", "60 rounds of waiting without a result".into());
            resume_unwind(Box::new(Forever));
        }
        match m {
            Moment::BeforeListen => {
                if let Some(r) = self.look() {
                    self.wrong("goes on waiting", format!("waits though the result is {r} at {}", self.m.clock));
                    resume_unwind(Box::new(Forever));
                }
                let a = self.acts.pop_front().unwrap_or(Act::Idle);
                self.act(a)
            }
            Moment::Asleep(deadline) => {
                let at = deadline.map_or(u64::MAX, |d| d.saturating_duration_since(Instant::now()).as_micros().try_into().map_or(u64::MAX, |us: u64| self.m.clock.saturating_add(us)));
                if self.m.seen != self.m.head() {
                    self.wrong("sleeps while a packet waits", format!("sleeps at {} with the log processed up to {}, the last packet is from {}", self.m.clock, self.m.seen, self.m.head()));
                }
                let limit = self.wait.timeout.unwrap_or(u64::MAX).min(self.m.next_over());
                if at > limit.max(self.m.clock) && limit < u64::MAX / 2 {
                    self.wrong("sleeps too long", format!("sleeps until {at} instead of {limit}"));
                }
                if self.wrong.is_some() {
                    resume_unwind(Box::new(Forever));
                }
                match self.acts.pop_front() {
                    Some(a @ Act::Save(_)) => self.act(a),
                    Some(Act::Later(us)) if self.m.clock + us <= at => {
                        // somebody announces what is known already
                        self.act(Act::Later(us));
                        self.other.save_dyn_iter([].into_iter()).unwrap();
                    }
                    _ if at > self.m.clock + (1 << 40) => resume_unwind(Box::new(Forever)),
                    _ => self.to(at.max(self.m.clock) + 1),
                }
            }
        }
    }
}
struct Play {
    st: Rc<RefCell<St>>,
    real: Real,
    _dir: Scratch,
}
fn start(setup: &[Op], acts: &[Act]) -> Result<Play, Bad> {
    let pkts = universe();
    let dir = Scratch::new();
    let env = dir.open().map_err(|e| e.to_string())?;
    let other = dir.open().map_err(|e| e.to_string())?;
    let mut m = Model::new(pkts, START);
    m.open();
    let real = Real::new(pkts, env);
    for (i, o) in setup.iter().enumerate() {
        m.op(format!("{i}"), 0, o);
        real.op(format!("{i}"), o);
    }
    let wait = Wait { qid: None, before: None, timeout: None };
    let st = Rc::new(RefCell::new(St { m, other, acts: acts.iter().copied().collect(), wait, wrong: None, moments: 0 }));
    let s2 = st.clone();
    ipcbus::hook(Some(Box::new(move |m| s2.borrow_mut().moment(m))));
    Ok(Play { st, real, _dir: dir })
}
impl Play {
    fn check(&self) -> Result<(), Bad> {
        match self.st.borrow_mut().wrong.take() {
            Some(b) => Err(b),
            None => Ok(()),
        }
    }
    fn finish(self, cx: &Cx) -> CaseResult {
        ipcbus::hook(None);
        self.check()?;
        let st = &mut *self.st.borrow_mut();
        for (i, o) in [Op::Process, Op::Stop("", true)].iter().enumerate() {
            st.m.op(format!("end{i}"), 0, o);
            self.real.op(format!("end{i}"), o);
        }
        cx.states(st.moments + 1);
        cx.transitions(st.m.steps + st.moments);
        cx.traces(1);
        compare_traces(&st.m.out, &self.real.take())?;
        Ok(st.moments > 0)
    }
}
fn play(cx: &Cx, setup: &[Op], qid: Option<&'static str>, timeout: u64, calls: usize, acts: &[Act]) -> CaseResult {
    let _clock = vclock::freeze(START);
    let p = start(setup, acts)?;
    for _ in 0..calls {
        let known = {
            let mut st = p.st.borrow_mut();
            st.wait = Wait { qid, before: qid.and_then(|q| st.m.status(q)), timeout: (timeout > 0).then(|| st.m.clock + timeout) };
            qid.is_none() || st.wait.before.is_some()
        };
        let r = catch_unwind(AssertUnwindSafe(|| linkspace::runtime::lk_process_while(&p.real.lk, qid.map(|q| q.as_bytes()), timeout.into())));
        let r = match r {
            Ok(r) => r,
            Err(e) if e.is::<Forever>() => break,
            Err(e) => resume_unwind(e),
        };
        p.check()?;
        match (r, known) {
            (Ok(r), true) => {
                let mut st = p.st.borrow_mut();
                let want = st.look();
                if want != Some(r as i64) {
                    return bad(format!("result {r}"), format!("returned {r} at {} instead of {}", st.m.clock, want.map_or("waiting".into(), |r| r.to_string())));
                }
            }
            (Err(_), false) => break,
            (Ok(r), false) => return bad("unknown id", format!("{r} for an id that is not registered")),
            (Err(e), true) => return bad("error", format!("{e:#}")),
        }
    }
    p.finish(cx)
}
/// the task that processes in an async program
fn play_async(cx: &Cx, setup: &[Op], acts: &[Act]) -> CaseResult {
    struct Woken(AtomicBool);
    impl Wake for Woken {
        fn wake(self: Arc<Self>) {
            self.0.store(true, SeqCst)
        }
    }
    let _clock = vclock::freeze(START);
    let p = start(setup, acts)?;
    // only BeforeListen is a moment of async waiting: another process comes in between
    let s2 = p.st.clone();
    ipcbus::hook(Some(Box::new(move |_| {
        let mut st = s2.borrow_mut();
        st.moments += 1;
        st.m.process();
        let a = st.acts.pop_front().unwrap_or(Act::Idle);
        st.act(a)
    })));
    let woken = Arc::new(Woken(AtomicBool::new(true)));
    let waker = woken.clone().into();
    let mut ctx = Context::from_waker(&waker);
    let rt: linkspace_common::runtime::Linkspace = p.real.lk.clone().into();
    let mut fut = Box::pin(async {
        loop {
            rt.poll().await;
        }
    });
    for _ in 0..100 {
        if woken.0.swap(false, SeqCst) {
            let Poll::<()>::Pending = Future::poll(fut.as_mut(), &mut ctx) else { unreachable!() };
            continue;
        }
        let mut st = p.st.borrow_mut();
        if st.m.seen != st.m.head() {
            return bad("async sleeps while a packet waits", format!("processed up to {}, the last packet is from {}", st.m.seen, st.m.head()));
        }
        let Some(a) = st.acts.pop_front() else { break };
        st.act(a);
        drop(st);
    }
    ensure!(!woken.0.load(SeqCst), "the task goes on without end");
    drop(fut);
    p.finish(cx)
}
fn only_a() -> Rule {
    rule("domain", "=", "a")
}
fn scenes() -> Vec<Vec<Op>> {
    let s = Script::default;
    let no_db = || n32("i_db", "<", 0);
    let on1 = |ops: Vec<Op>| Script { on: vec![(1, ops)], ..s() };
    vec![
        vec![],
        vec![w("a", "log-asc", vec![], s())],
        vec![Op::Save(vec![0]), w("a", "log-asc", vec![], s())],
        vec![w("a", "log-asc", vec![n32("i_new", "<", 1)], s()), w("b", "log-asc", vec![], s())],
        vec![w("a", "log-asc", vec![recv("<", START + 35)], s())],
        vec![w("a", "log-asc", vec![only_a()], s()), w("b", "log-asc", vec![recv("<=", START + 50)], s())],
        vec![w("a", "log-asc", vec![], on1(vec![Op::Save(vec![3])]))],
        vec![w("a", "log-asc", vec![recv("=", START + 20)], Script { on_stop: vec![w("b", "log-asc", vec![], s())], ..s() })],
        vec![w("a", "log-asc", vec![only_a()], Script { break_at: Some(2), ..s() })],
        vec![w("a", "log-asc", vec![], on1(vec![w("a", "log-asc", vec![no_db()], s())]))],
        vec![w("a", "log-asc", vec![n32("i_new", "=", 1)], s()), w("b", "log-asc", vec![], on1(vec![Op::Stop("a", false)]))],
        vec![w("a", "log-asc", vec![recv("<", START + 15)], Script { on_stop: vec![Op::Save(vec![3])], ..s() }), w("b", "log-asc", vec![], s())],
        // saved but not processed yet
        vec![w("a", "log-asc", vec![], s()), Op::Save(vec![0])],
    ]
}
fn acts() -> Vec<Act> {
    vec![Act::Idle, Act::Save(&[0]), Act::Save(&[2, 1]), Act::Later(25)]
}
fn main() {
    kit::main("W02", "model_checking", |cx| {
        cx.rule("the model looks at the log at every wait: a wait with an id ends when its watch counted a packet (-1), was dropped or replaced (1), one without when no watch is left (1), both when the time is over (0); the sleep may not last beyond the time limit or the last moment a watch can match, and while asleep everything in the log is processed");
        cx.assume("the bus is a stand-in whose announcements arrive at once (ipcbus itself: B01-B03); others act between the last look at the log and the wait, and during the sleep");
        let n = scenes().len();
        let len = cx.pick(5, 7) as usize;
        let (qids, times) = ([None, Some("a"), Some("b"), Some("x")], [0u64, 30, 500]);
        cx.bound("what others do", format!("{:?}, up to {len} in a row", acts()));
        cx.bound("waits", format!("{n} sets of watches, ids {qids:?}, time limits {times:?}, up to 3 in a row"));
        let total = (acts().len() as u64).pow(len as u32);
        cx.section("waiting", || {
            for scene in 0..n {
                cx.par(total, |i| {
                    thread_local! { static S: Vec<Vec<Op>> = scenes(); }
                    S.with(|s| {
                        let a: Vec<Act> = nth_digits(acts().len(), len, i).into_iter().map(|d| acts()[d]).collect();
                        for qid in qids {
                            for t in times {
                                let d = || format!("{}; wait for {qid:?} within {t}; others: {a:?}", show_ops(&s[scene]));
                                cx.case_k(b"", &d, || play(cx, &s[scene], qid, t, 3, &a));
                            }
                        }
                    })
                });
            }
        });
        cx.section("the task of an async program", || {
            for scene in 0..n {
                cx.par(total, |i| {
                    thread_local! { static S: Vec<Vec<Op>> = scenes(); }
                    S.with(|s| {
                        let a: Vec<Act> = nth_digits(acts().len(), len, i).into_iter().map(|d| acts()[d]).collect();
                        let d = || format!("{}; async; others: {a:?}", show_ops(&s[scene]));
                        cx.case_k(b"", &d, || play_async(cx, &s[scene], &a));
                    })
                });
            }
        });
    })
}
