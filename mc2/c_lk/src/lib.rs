//! A reference model of the runtime: a log, the registered watches, and callbacks that use the runtime themselves.
//! The same histories are played on the model and on the code; every event of every handler has to be the same.
pub use c_core::*;
mod lk {
    pub use linkspace::prelude::*;
    pub use linkspace::runtime::*;
}
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::Linkspace;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::rc::Rc;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Script {
    /// after which calls what is done
    pub on: Vec<(u32, Vec<Op>)>,
    pub break_at: Option<u32>,
    pub on_stop: Vec<Op>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub id: &'static str,
    pub mode: &'static str,
    pub rules: Vec<Rule>,
    pub script: Script,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// by this or another process
    Save(Vec<usize>),
    Watch(Rc<Cfg>),
    Stop(&'static str, bool),
    Process,
    Clock(u64),
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Op::Save(v) => write!(f, "save{v:?}"),
            Op::Stop(id, r) => write!(f, "stop({id:?}{})", if *r { ",range" } else { "" }),
            Op::Process => write!(f, "process"),
            Op::Clock(c) => write!(f, "clock={c}"),
            Op::Watch(c) => {
                write!(f, "watch({:?} {} {}", c.id, c.mode, show_rules(&c.rules))?;
                for (n, o) in &c.script.on {
                    write!(f, " on{n}:[{}]", show_ops(o))?
                }
                if let Some(b) = c.script.break_at {
                    write!(f, " break{b}")?
                }
                if !c.script.on_stop.is_empty() {
                    write!(f, " onstop:[{}]", show_ops(&c.script.on_stop))?
                }
                write!(f, ")")
            }
        }
    }
}
pub fn show_ops(o: &[Op]) -> String {
    o.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("; ")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// called with the packet received then
    Got(u64, usize),
    Stopped(&'static str, u32, u32),
    Ret(i64),
}
/// what each handler (named by where it was made) saw, and what each operation returned
pub type Trace = BTreeMap<String, Vec<Ev>>;
pub const ERR: i64 = i64::MIN;
pub const DEPTH: usize = 3;
/// time that passes before each save
pub const TICK: u64 = 10;

// ---- the model
struct Handler {
    uid: String,
    cfg: Rc<Cfg>,
    depth: usize,
    calls: u32,
}
struct W {
    h: Handler,
    total: u32,
    new: u32,
}
enum Pend {
    New(W),
    Close(&'static str, bool),
}
pub struct Model<'a> {
    pub pkts: &'a [Pkt],
    pub log: Vec<(u64, usize)>,
    pub clock: u64,
    /// all up to here was offered to the watches
    pub seen: u64,
    /// what the reader sees
    pub snap: u64,
    busy: bool,
    regs: BTreeMap<&'static str, W>,
    pending: Vec<Pend>,
    opening: Vec<(&'static str, bool)>,
    pub out: Trace,
    pub steps: u64,
}
fn closes(id: &str, range: bool, other: &str) -> bool {
    other == id || range && other.starts_with(id)
}
/// can a count from n on be within the limits?
fn left(rules: &[Rule], name: &str, n: u32) -> bool {
    (n..n.saturating_add(6)).chain([u32::MAX]).any(|i| within(rules, name, i))
}
impl<'a> Model<'a> {
    pub fn new(pkts: &'a [Pkt], clock: u64) -> Self {
        Model { pkts, log: vec![], clock, seen: 0, snap: 0, busy: false, regs: Default::default(), pending: vec![], opening: vec![], out: Default::default(), steps: 0 }
    }
    pub fn head(&self) -> u64 {
        self.log.last().map_or(0, |l| l.0)
    }
    /// open the runtime on what is there
    pub fn open(&mut self) {
        self.seen = self.head();
        self.snap = self.seen;
    }
    pub fn ids(&self) -> Vec<String> {
        self.regs.keys().map(|k| k.to_string()).collect()
    }
    fn emit(&mut self, uid: &str, e: Ev) {
        self.out.entry(uid.to_string()).or_default().push(e)
    }
    pub fn save(&mut self, p: &[usize]) -> i64 {
        let mut n = 0;
        self.clock += TICK;
        for p in p {
            if !self.log.iter().any(|l| l.1 == *p) {
                let recv = self.clock.max(self.head() + 1);
                self.log.push((recv, *p));
                n += 1;
            }
        }
        n
    }
    pub fn op(&mut self, uid: String, depth: usize, op: &Op) {
        self.steps += 1;
        let r = match op {
            Op::Save(p) => self.save(p),
            Op::Clock(c) => {
                self.clock = *c;
                0
            }
            Op::Stop(id, range) => {
                self.close(id, *range);
                0
            }
            Op::Process => self.process() as i64,
            Op::Watch(_) if depth >= DEPTH => return,
            Op::Watch(c) => self.watch(uid.clone(), depth, c),
        };
        self.emit(&uid, Ev::Ret(r))
    }
    fn ops(&mut self, uid: &str, depth: usize, at: &str, ops: &[Op]) {
        for (i, o) in ops.iter().enumerate() {
            self.op(format!("{uid}.{at}.{i}"), depth + 1, o)
        }
    }
    fn call(&mut self, h: &mut Handler, recv: u64) -> bool {
        let pkt = self.log.iter().find(|l| l.0 == recv).unwrap().1;
        h.calls += 1;
        self.emit(&h.uid, Ev::Got(recv, pkt));
        let s = &h.cfg.script;
        for (_, ops) in s.on.iter().filter(|o| o.0 == h.calls) {
            self.ops(&h.uid, h.depth, &format!("c{}", h.calls), ops)
        }
        s.break_at == Some(h.calls)
    }
    fn stopped(&mut self, w: W, reason: &'static str) {
        self.emit(&w.h.uid, Ev::Stopped(reason, w.total, w.new));
        self.ops(&w.h.uid, w.h.depth, "s", &w.h.cfg.script.on_stop)
    }
    fn deregister(&mut self, id: &str, range: bool) {
        let ids: Vec<_> = self.regs.keys().filter(|k| closes(id, range, k)).copied().collect();
        let ws: Vec<W> = ids.iter().map(|i| self.regs.remove(i).unwrap()).collect();
        for w in ws {
            self.stopped(w, "closed")
        }
    }
    fn register(&mut self, w: W) {
        if let Some(w) = self.regs.insert(w.h.cfg.id, w) {
            self.stopped(w, "replaced")
        }
    }
    /// what callbacks closed goes at once
    fn drain_closed(&mut self) {
        while self.pending.iter().any(|p| matches!(p, Pend::Close(..))) {
            let mut new: Vec<W> = vec![];
            for p in std::mem::take(&mut self.pending) {
                match p {
                    Pend::New(w) => new.push(w),
                    Pend::Close(id, range) => {
                        self.deregister(id, range);
                        let mut keep = vec![];
                        for w in new {
                            if closes(id, range, w.h.cfg.id) {
                                self.stopped(w, "closed")
                            } else {
                                keep.push(w)
                            }
                        }
                        new = keep;
                    }
                }
            }
            self.pending.splice(0..0, new.into_iter().map(Pend::New));
        }
    }
    fn drain(&mut self) {
        loop {
            self.drain_closed();
            let new = std::mem::take(&mut self.pending);
            if new.is_empty() {
                return;
            }
            for p in new {
                if let Pend::New(w) = p {
                    self.register(w)
                }
            }
        }
    }
    fn close(&mut self, id: &'static str, range: bool) {
        for o in &mut self.opening {
            o.1 |= closes(id, range, o.0)
        }
        if self.busy {
            return self.pending.push(Pend::Close(id, range));
        }
        self.busy = true;
        self.deregister(id, range);
        self.drain();
        self.busy = false;
    }
    /// offer a packet: was the callback done with it, or will nothing more match
    fn offer(&mut self, w: &mut W, recv: u64, pkt: usize) -> (bool, bool) {
        self.steps += 1;
        let cfg = w.h.cfg.clone();
        if recv_high(&cfg.rules) < recv {
            return (false, true);
        }
        let p = &self.pkts[pkt];
        if !cfg.rules.iter().all(|r| r.holds(p, recv)) {
            return (false, false);
        }
        let ok = within(&cfg.rules, "i_new", w.new) && within(&cfg.rules, "i", w.total);
        w.new += 1;
        w.total += 1;
        let done = !left(&cfg.rules, "i_new", w.new) || !left(&cfg.rules, "i", w.total);
        (ok && self.call(&mut w.h, recv), done)
    }
    pub fn process(&mut self) -> u64 {
        if self.busy {
            return self.seen;
        }
        self.snap = self.head();
        if self.seen >= self.snap {
            return self.seen;
        }
        self.busy = true;
        self.drain();
        let batch: Vec<_> = self.log.iter().filter(|l| l.0 > self.seen).copied().collect();
        for (recv, pkt) in &batch {
            let mut dropped = vec![];
            for (id, mut w) in std::mem::take(&mut self.regs) {
                let (brk, done) = self.offer(&mut w, *recv, *pkt);
                if brk || done {
                    dropped.push((w, if done { "finish" } else { "break" }));
                } else {
                    self.regs.insert(id, w);
                }
            }
            for (w, r) in dropped {
                self.stopped(w, r)
            }
            self.drain_closed();
        }
        self.drain();
        self.busy = false;
        self.seen = batch.last().unwrap().0;
        self.seen
    }
    fn watch(&mut self, uid: String, depth: usize, cfg: &Rc<Cfg>) -> i64 {
        let (id, rules) = (cfg.id, &cfg.rules);
        if id.is_empty() {
            return ERR;
        }
        let mut from = self.seen;
        self.close(id, false);
        let mut w = W { h: Handler { uid, cfg: cfg.clone(), depth, calls: 0 }, total: 0, new: 0 };
        if left(rules, "i_db", 0) && left(rules, "i_branch", 0) {
            let log: Vec<_> = self.log.iter().filter(|l| l.0 <= self.snap).map(|l| (l.0, &self.pkts[l.1])).collect();
            from = self.snap;
            self.opening.push((id, false));
            let mut end = false;
            for (recv, _) in matching(&log, rules, cfg.mode) {
                if !left(rules, "i", w.total) {
                    break;
                }
                w.total += 1;
                if within(rules, "i", w.total - 1) {
                    end = self.call(&mut w.h, recv) || self.opening.last().unwrap().1;
                    if end {
                        break;
                    }
                }
            }
            self.opening.pop();
            if end {
                return w.total as i64;
            }
        }
        if !left(rules, "i_new", 0) || !left(rules, "i", w.total) {
            return w.total as i64;
        }
        self.opening.push((id, false));
        let mut end = false;
        while !end && from < self.seen {
            let Some((recv, pkt)) = self.log.iter().find(|l| l.0 > from && l.0 <= self.snap).copied() else { break };
            from = recv;
            let (brk, done) = self.offer(&mut w, recv, pkt);
            end = brk || done || self.opening.last().unwrap().1;
        }
        self.opening.pop();
        if end || recv_high(rules) <= self.seen {
            return w.total as i64;
        }
        let r = -(w.total as i64);
        if self.busy {
            self.pending.push(Pend::New(w))
        } else {
            self.busy = true;
            self.register(w);
            self.drain();
            self.busy = false;
        }
        r
    }
}

/// the last receive stamp that the statements allow
pub fn recv_high(rules: &[Rule]) -> u64 {
    let v = |r: &Rule| u64::from_be_bytes(r.val[..].try_into().unwrap());
    let one = |r: &Rule| match r.op {
        "<" => v(r) - 1,
        "<=" | "=" => v(r),
        _ => u64::MAX,
    };
    rules.iter().filter(|r| r.name == "recv").map(one).min().unwrap_or(u64::MAX)
}
/// what waiting for packets goes by
impl Model<'_> {
    /// which handler is registered, and how many packets it counted
    pub fn status(&self, id: &str) -> Option<(String, u32)> {
        self.regs.get(id).map(|w| (w.h.uid.clone(), w.total))
    }
    /// the first moment at which a watch can be dropped
    pub fn next_over(&self) -> u64 {
        self.regs.values().map(|w| recv_high(&w.h.cfg.rules).saturating_add(1)).min().unwrap_or(u64::MAX)
    }
    /// drop what can match no packet received from now on
    fn gc(&mut self) -> bool {
        self.busy = true;
        let over: Vec<_> = self.regs.iter().filter(|w| recv_high(&w.1.h.cfg.rules) < self.clock).map(|w| *w.0).collect();
        let ws: Vec<W> = over.iter().map(|i| self.regs.remove(i).unwrap()).collect();
        let any = !ws.is_empty();
        for w in ws {
            self.stopped(w, "finish")
        }
        self.drain();
        self.busy = false;
        any
    }
    /// One look at what there is: the result of waiting, if it ends.
    pub fn look(&mut self, qid: Option<(&str, &(String, u32))>, timeout: Option<u64>) -> Option<i64> {
        loop {
            self.process();
            if let Some((id, before)) = qid {
                match self.status(id) {
                    Some(s) if s.0 == before.0 && s.1 == before.1 => {}
                    Some(s) if s.0 == before.0 => return Some(-1),
                    _ => return Some(1),
                }
            }
            if timeout.is_some_and(|t| t < self.clock) {
                return Some(0);
            }
            let dropped = self.gc();
            if self.regs.is_empty() {
                return Some(1);
            }
            if !dropped {
                return None;
            }
        }
    }
}

// ---- the code
struct Shared {
    trace: RefCell<Trace>,
    hashes: Vec<LkHash>,
    nets: Vec<NetPktBox>,
}
impl Shared {
    fn emit(&self, uid: &str, e: Ev) {
        self.trace.borrow_mut().entry(uid.to_string()).or_default().push(e)
    }
}
pub struct Real {
    pub lk: Linkspace,
    sh: Rc<Shared>,
}
struct RealHandler {
    sh: Rc<Shared>,
    uid: String,
    cfg: Rc<Cfg>,
    depth: usize,
    calls: u32,
}
pub fn compare_traces(want: &Trace, got: &Trace) -> Result<(), kit::Bad> {
    for (k, w) in want {
        let g = got.get(k).map(|v| &v[..]).unwrap_or(&[]);
        if g != w {
            let what = match (w.iter().zip(g).find(|(a, b)| a != b), w.len() > g.len()) {
                (Some((Ev::Got(..), Ev::Got(..))), _) => "other packet",
                (Some((Ev::Ret(_), Ev::Ret(_))), _) => "return value",
                (Some((Ev::Stopped(a, ..), Ev::Stopped(b, ..))), _) if a != b => "stop reason",
                (Some((Ev::Stopped(..), Ev::Stopped(..))), _) => "counts",
                (Some(_), _) => "other events",
                (_, true) => "missing events",
                _ => "extra events",
            };
            return kit::bad(what, format!("{k}: {g:?} instead of {w:?}"));
        }
    }
    if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
        return kit::bad("extra events", format!("{k}: {:?} instead of nothing", got[k]));
    }
    Ok(())
}
pub fn n32(n: &'static str, op: &'static str, v: u32) -> Rule {
    rule(n, op, v.to_be_bytes())
}
pub fn recv(op: &'static str, v: u64) -> Rule {
    rule("recv", op, v.to_be_bytes())
}
pub fn w(id: &'static str, mode: &'static str, rules: Vec<Rule>, script: Script) -> Op {
    Op::Watch(Rc::new(Cfg { id, mode, rules, script }))
}
pub fn lk_query(c: &Cfg) -> Result<lk::Query, String> {
    let mut t = format!(":mode:{}", c.mode);
    if !c.id.is_empty() {
        t = format!("{t}\n:qid:{}", c.id);
    }
    for r in &c.rules {
        t = format!("{t}\n{}", r.text());
    }
    lk::lk_query_parse(lk::lk_query(&lk::Q), &[&t], ()).map_err(|e| format!("{t}: {e:#}"))
}
fn run(lk: &Linkspace, sh: &Rc<Shared>, uid: String, depth: usize, op: &Op) {
    let r = match op {
        Op::Save(p) => {
            vclock::set(vclock::get().unwrap() + TICK);
            let l: Vec<&dyn NetPkt> = p.iter().map(|p| &sh.nets[*p] as &dyn NetPkt).collect();
            match &l[..] {
                [p] => lk::lk_save(lk, *p).unwrap() as i64,
                l => lk::lk_save_all(lk, l).unwrap() as i64,
            }
        }
        Op::Clock(c) => {
            vclock::set(*c);
            0
        }
        Op::Stop(id, range) => {
            lk::lk_stop(lk, id.as_bytes(), *range);
            0
        }
        Op::Process => lk::lk_process(lk).get() as i64,
        Op::Watch(_) if depth >= DEPTH => return,
        Op::Watch(c) => {
            let h = RealHandler { sh: sh.clone(), uid: uid.clone(), cfg: c.clone(), depth, calls: 0 };
            match lk_query(c) {
                Ok(q) => lk::lk_watch(lk, &q, h).map_or(ERR, |v| v as i64),
                Err(_) => ERR + 1,
            }
        }
    };
    sh.emit(&uid, Ev::Ret(r))
}
impl RealHandler {
    fn ops(&self, lk: &Linkspace, at: &str, ops: &[Op]) {
        for (i, o) in ops.iter().enumerate() {
            run(lk, &self.sh, format!("{}.{at}.{i}", self.uid), self.depth + 1, o)
        }
    }
}
impl PktHandler for RealHandler {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, lk: &Linkspace) -> ControlFlow<()> {
        self.calls += 1;
        let i = self.sh.hashes.iter().position(|h| *h == pkt.hash()).unwrap_or(999);
        self.sh.emit(&self.uid, Ev::Got(pkt.get_recv().get(), i));
        for (_, ops) in self.cfg.script.on.iter().filter(|o| o.0 == self.calls) {
            self.ops(lk, &format!("c{}", self.calls), ops)
        }
        if self.cfg.script.break_at == Some(self.calls) {
            return ControlFlow::Break(());
        }
        ControlFlow::Continue(())
    }
    fn stopped(&mut self, _: lk::Query, lk: &Linkspace, reason: StopReason, total: u32, new: u32) {
        let r = match reason {
            StopReason::Break => "break",
            StopReason::Finish => "finish",
            StopReason::Replaced => "replaced",
            StopReason::Closed => "closed",
        };
        self.sh.emit(&self.uid, Ev::Stopped(r, total, new));
        self.ops(lk, "s", &self.cfg.script.on_stop)
    }
}
impl Real {
    pub fn new(pkts: &[Pkt], env: core_::env::lmdb::BTreeEnv) -> Real {
        let rt = linkspace_common::runtime::Linkspace::new_opt_rt(env, Default::default());
        let sh = Shared { trace: Default::default(), hashes: pkts.iter().map(|p| p.hash).collect(), nets: pkts.iter().map(|p| p.net.clone()).collect() };
        Real { lk: rt.into(), sh: Rc::new(sh) }
    }
    pub fn op(&self, uid: String, op: &Op) {
        run(&self.lk, &self.sh, uid, 0, op)
    }
    pub fn ids(&self) -> Vec<String> {
        let mut v = vec![];
        lk::lk_list_watches(&self.lk, &mut |id, _| v.push(String::from_utf8_lossy(id).to_string()));
        v
    }
    pub fn take(&self) -> Trace {
        self.sh.trace.take()
    }
}
