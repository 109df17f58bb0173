//! The status convention: who answers which request with what, when a request is made, and what the asking side sees.
use c_core::{Scratch, PRIVATE};
use core_::prelude::*;
use kit::*;
use linkspace::conventions::status::*;
use linkspace::prelude as lk;
use linkspace::runtime as rt;
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::Linkspace;
use linkspace_core as core_;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::rc::Rc;

const START: u64 = 1_000_000;
const TICK: u64 = 10;
const SPACE: &[u8] = b"\xffstatus";
const TYPES: [&[u8]; 2] = [b"t", b"tt"];
const INST: [&[u8]; 3] = [b"default", b"a", b"b"];

fn dom(n: usize) -> Domain {
    ab(["d", "e"][n].as_bytes())
}
fn grp(n: usize) -> GroupID {
    B64([n as u8 + 1; 32])
}
/// a packet of the log; pointers are positions in the log, None the zero hash
#[derive(Clone, Debug, PartialEq)]
struct P {
    domain: usize,
    private: bool,
    space: Vec<Vec<u8>>,
    links: Vec<(&'static str, Option<usize>)>,
    data: String,
    create: u64,
    signed: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Of {
    /// an answer that was made but not saved yet, or a position in the log
    domain: usize,
    group: usize,
    typ: usize,
    inst: Option<usize>,
}
impl Of {
    fn space(&self) -> Vec<Vec<u8>> {
        let mut v = vec![SPACE.to_vec(), grp(self.group).to_vec(), TYPES[self.typ].to_vec()];
        v.extend(self.inst.map(|i| INST[i].to_vec()));
        v
    }
    fn status(&self, qid: &'static str) -> LkStatus<'static> {
        LkStatus { domain: dom(self.domain), group: grp(self.group), objtype: TYPES[self.typ], instance: self.inst.map(|i| INST[i]), qid: qid.as_bytes() }
    }
    fn all(&self) -> Of {
        Of { inst: None, ..*self }
    }
}
impl P {
    fn of(&self, o: &Of) -> bool {
        self.private && self.domain == o.domain
    }
    fn request(&self) -> bool {
        self.links.is_empty() && self.data.is_empty()
    }
    fn reply(&self) -> bool {
        !self.links.is_empty() && !self.data.is_empty()
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad_ {
    /// of the n-th answer
    Err,
    NoData,
    NoLinks,
    Group,
    Space,
    Domain,
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Set { rt: usize, qid: &'static str, of: Of, bad: Option<(u32, Bad_)> },
    Watch { rt: usize, qid: &'static str, of: Of, timeout: u64, break_at: Option<u32> },
    /// by another process: number of the packet, and how old it claims to be
    Save(usize, u64),
    Process(usize),
    Clock(u64),
}

/// what others save
fn others(i: usize, create: u64) -> P {
    let all = Of { domain: 0, group: 0, typ: 0, inst: None };
    let a = Of { inst: Some(1), ..all };
    let p = |of: Of| P { domain: of.domain, private: true, space: of.space(), links: vec![], data: String::new(), create, signed: false };
    let reply = |of: Of| P { links: vec![("x", None)], data: "OK\n".into(), ..p(of) };
    let with = |mut p: P, c: &[u8]| {
        p.space.push(c.to_vec());
        p
    };
    match i {
        0 => p(all),
        1 => p(a),
        2 => reply(a),
        3 => P { private: false, ..p(all) },
        4 => p(Of { domain: 1, ..all }),
        5 => with(p(a), b"x"),
        6 => P { data: "x".into(), ..p(all) },
        7 => P { links: vec![("x", None)], ..p(all) },
        8 => p(Of { typ: 1, ..all }),
        9 => p(Of { group: 1, ..all }),
        10 => P { signed: true, ..p(all) },
        11 => reply(Of { inst: Some(2), ..all }),
        12 => P { private: false, ..reply(a) },
        13 => P { domain: 1, ..reply(a) },
        14 => P { links: vec![], ..reply(a) },
        15 => P { data: String::new(), ..reply(a) },
        16 => p(Of { inst: Some(2), ..all }),
        17 => with(reply(a), b"x"),
        _ => reply(Of { inst: Some(0), ..all }),
    }
}
const OTHERS: usize = 19;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Got(usize),
    Stopped(&'static str),
    Ret(&'static str),
}
type Trace = BTreeMap<usize, Vec<Ev>>;

// ---- the specification
enum Kind {
    Set { prev: Option<usize>, n: u32, bad: Option<(u32, Bad_)>, of: Of },
    Watch { of: Of, after: u64, until: u64, calls: u32, break_at: Option<u32> },
}
struct Reg {
    op: usize,
    kind: Kind,
}
#[derive(Default)]
struct Spec {
    clock: u64,
    log: Vec<(u64, P)>,
    seen: [usize; 2],
    regs: [BTreeMap<&'static str, Reg>; 2],
    out: Trace,
}
fn answer(of: &Of, n: u32, create: u64, prev: Option<usize>) -> P {
    let tag = if n == 0 { "init" } else { "prev" };
    P { domain: of.domain, private: true, space: of.space(), links: vec![(tag, prev)], data: format!("OK\n{n}"), create, signed: false }
}
impl Spec {
    fn save(&mut self, p: P) -> bool {
        if self.log.iter().any(|l| l.1 == p) {
            return false;
        }
        let recv = self.clock.max(self.log.last().map_or(0, |l| l.0 + 1));
        self.log.push((recv, p));
        true
    }
    fn emit(&mut self, op: usize, e: Ev) {
        self.out.entry(op).or_default().push(e)
    }
    fn drop_reg(&mut self, rt: usize, qid: &str, why: &'static str) {
        if let Some(r) = self.regs[rt].remove(qid) {
            if matches!(r.kind, Kind::Watch { .. }) {
                self.emit(r.op, Ev::Stopped(why))
            }
        }
    }
    fn op(&mut self, n: usize, op: &Op) {
        match op {
            Op::Clock(d) => self.clock += d,
            Op::Save(i, age) => {
                self.clock += TICK;
                self.save(others(*i, self.clock - age));
            }
            Op::Set { rt, qid, of, bad } => {
                let of = Of { inst: of.inst.or(Some(0)), ..*of };
                if matches!(bad, Some((0, _))) {
                    return self.emit(n, Ev::Ret("error"));
                }
                self.clock += TICK;
                let p = answer(&of, 0, self.clock, None);
                self.save(p.clone());
                let at = self.log.iter().position(|l| l.1 == p);
                self.drop_reg(*rt, qid, "closed");
                self.regs[*rt].insert(qid, Reg { op: n, kind: Kind::Set { prev: at, n: 1, bad: *bad, of } });
                self.emit(n, Ev::Ret("ok"))
            }
            Op::Watch { rt, qid, of, timeout, break_at } => {
                self.clock += TICK;
                let after = self.clock.saturating_sub(*timeout);
                let known: Vec<usize> = (0..self.seen[*rt]).filter(|i| self.log[*i].1.of(of) && self.log[*i].1.create > after && self.log[*i].1.space.starts_with(&of.space())).collect();
                let replies: Vec<usize> = known.iter().copied().filter(|i| self.log[*i].1.reply()).collect();
                let calls = replies.len().min(break_at.unwrap_or(u32::MAX) as usize);
                for i in &replies {
                    self.emit(n, Ev::Got(*i))
                }
                let ret = Ev::Ret(if replies.is_empty() { "false" } else { "true" });
                self.drop_reg(*rt, qid, "closed");
                if Some(calls as u32) == *break_at {
                    return self.emit(n, ret);
                }
                let last = known.iter().map(|i| &self.log[*i].1).filter(|p| p.request() && p.space == of.space()).map(|p| p.create).max();
                let last = last.unwrap_or_else(|| {
                    let p = P { domain: of.domain, private: true, space: of.space(), links: vec![], data: String::new(), create: self.clock, signed: false };
                    self.save(p);
                    self.clock
                });
                let until = last.saturating_add(*timeout);
                self.emit(n, ret);
                // a watch that can match nothing more is not registered
                if until > self.log[..self.seen[*rt]].last().map_or(0, |l| l.0) + 1 {
                    self.regs[*rt].insert(qid, Reg { op: n, kind: Kind::Watch { of: *of, after, until, calls: calls as u32, break_at: *break_at } });
                }
            }
            Op::Process(rt) => {
                let to = self.log.len();
                for i in self.seen[*rt]..to {
                    let (recv, p) = self.log[i].clone();
                    for (qid, mut r) in std::mem::take(&mut self.regs[*rt]) {
                        let end = match &mut r.kind {
                            Kind::Watch { until, .. } if *until <= recv => Some("finish"),
                            Kind::Watch { of, after, calls, break_at, .. } => {
                                if p.of(of) && p.reply() && p.create > *after && p.space.starts_with(&of.space()) {
                                    *calls += 1;
                                    self.out.entry(r.op).or_default().push(Ev::Got(i));
                                    (Some(*calls) == *break_at).then_some("break")
                                } else {
                                    None
                                }
                            }
                            Kind::Set { of, prev, n, bad } => {
                                if p.of(of) && p.request() && (p.space == of.space() || p.space == of.all().space()) {
                                    if bad.is_some_and(|b| b.0 == *n) {
                                        Some("break")
                                    } else {
                                        self.clock += TICK;
                                        let a = answer(of, *n, self.clock, *prev);
                                        *n += 1;
                                        self.save(a);
                                        *prev = Some(self.log.len() - 1);
                                        None
                                    }
                                } else {
                                    None
                                }
                            }
                        };
                        match end {
                            Some(why) if matches!(r.kind, Kind::Watch { .. }) => self.out.entry(r.op).or_default().push(Ev::Stopped(why)),
                            Some(_) => (),
                            None => drop(self.regs[*rt].insert(qid, r)),
                        }
                    }
                }
                self.seen[*rt] = to;
            }
        }
    }
}

// ---- the code
struct H {
    op: usize,
    out: Rc<RefCell<BTreeMap<usize, Vec<Result<LkHash, Ev>>>>>,
    calls: u32,
    break_at: Option<u32>,
}
impl H {
    fn emit(&self, e: Result<LkHash, Ev>) {
        self.out.borrow_mut().entry(self.op).or_default().push(e)
    }
}
impl PktHandler for H {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, _: &Linkspace) -> ControlFlow<()> {
        self.calls += 1;
        self.emit(Ok(pkt.hash()));
        if Some(self.calls) == self.break_at {
            return ControlFlow::Break(());
        }
        ControlFlow::Continue(())
    }
    fn stopped(&mut self, _: lk::Query, _: &Linkspace, reason: StopReason, _: u32, _: u32) {
        let r = match reason {
            StopReason::Break => "break",
            StopReason::Finish => "finish",
            StopReason::Replaced => "replaced",
            StopReason::Closed => "closed",
        };
        self.emit(Err(Ev::Stopped(r)))
    }
}
fn buf(space: &[Vec<u8>]) -> RootedSpaceBuf {
    let v: Vec<&[u8]> = space.iter().map(|v| &v[..]).collect();
    RootedSpaceBuf::try_from_iter(&v).unwrap()
}
fn build(p: &P) -> NetPktBox {
    let links: Vec<Link> = p.links.iter().map(|l| Link { tag: ab(l.0.as_bytes()), ptr: PRIVATE }).collect();
    let (d, g, s, c) = (dom(p.domain), if p.private { PRIVATE } else { grp(5) }, buf(&p.space), Some(Stamp::new(p.create)));
    if p.signed {
        lk::lk_keypoint(&c_core::keys()[0], p.data.as_bytes(), d, g, &s, &links, c).unwrap()
    } else {
        lk::lk_linkpoint(p.data.as_bytes(), d, g, &s, &links, c).unwrap()
    }
}
fn read(pkt: &dyn NetPkt, log: &[LkHash]) -> Result<P, String> {
    let links = pkt.get_links().iter().map(|l| {
        let tag = ["init", "prev", "x"].into_iter().find(|t| ab::<16>(t.as_bytes()) == l.tag).ok_or(format!("a link {:?}", l.tag))?;
        let to = if l.ptr == PRIVATE { None } else { Some(log.iter().position(|h| *h == l.ptr).ok_or(format!("a link to {:?}, which is not in the log", l.ptr))?) };
        Ok::<_, String>((tag, to))
    });
    Ok(P {
        domain: (0..2).find(|d| dom(*d) == *pkt.get_domain()).ok_or("a new domain")?,
        private: *pkt.get_group() == PRIVATE,
        space: pkt.get_rooted_spacename().iter().map(|v| v.to_vec()).collect(),
        links: links.collect::<Result<_, _>>()?,
        data: String::from_utf8_lossy(pkt.data()).to_string(),
        create: pkt.get_create_stamp().get(),
        signed: pkt.pubkey().is_some(),
    })
}
fn play(cx: &Cx, ops: &[Op]) -> CaseResult {
    let _clock = vclock::freeze(START);
    let dir = Scratch::new();
    let env = dir.open().map_err(|e| e.to_string())?;
    let rts: Vec<Linkspace> = (0..2).map(|_| linkspace_common::runtime::Linkspace::new_opt_rt(env.clone(), Default::default()).into()).collect();
    let out: Rc<RefCell<BTreeMap<usize, Vec<Result<LkHash, Ev>>>>> = Default::default();
    let mut m = Spec { clock: START, ..Default::default() };
    let end = [Op::Process(0), Op::Process(1), Op::Clock(10_000), Op::Save(8, 0), Op::Process(0), Op::Process(1)];
    for (n, op) in ops.iter().chain(&end).enumerate() {
        m.op(n, op);
        let ret = |e: &'static str| out.borrow_mut().entry(n).or_default().push(Err(Ev::Ret(e)));
        match op {
            Op::Clock(d) => vclock::set(vclock::get().unwrap() + d),
            Op::Save(i, age) => {
                let c = vclock::get().unwrap() + TICK;
                vclock::set(c);
                env.save_dyn_iter([&build(&others(*i, c - age)) as &dyn NetPkt].into_iter()).map_err(|e| e.to_string())?;
            }
            Op::Process(rt) => drop(rt::lk_process(&rts[*rt])),
            Op::Set { rt, qid, of, bad } => {
                let mut n = 0;
                let bad = *bad;
                let r = lk_status_set(&rts[*rt], of.status(qid), move |_, d, g, s, l| {
                    let what = bad.filter(|b| b.0 == n).map(|b| b.1);
                    n += 1;
                    if what.is_none() {
                        vclock::set(vclock::get().unwrap() + TICK);
                    }
                    let data = format!("OK\n{}", n - 1);
                    let other = buf(&[b"other".to_vec()]);
                    let (mut d, mut g, mut s, mut data, mut links) = (d, g, s, data.as_bytes(), vec![l]);
                    match what {
                        Some(Bad_::Err) => anyhow::bail!("no answer"),
                        Some(Bad_::NoData) => data = b"",
                        Some(Bad_::NoLinks) => links.clear(),
                        Some(Bad_::Group) => g = grp(7),
                        Some(Bad_::Space) => s = &other,
                        Some(Bad_::Domain) => d = dom(1),
                        None => (),
                    }
                    lk::lk_linkpoint(data, d, g, s, &links, None)
                });
                ret(if r.is_ok() { "ok" } else { "error" })
            }
            Op::Watch { rt, qid, of, timeout, break_at } => {
                vclock::set(vclock::get().unwrap() + TICK);
                let h = H { op: n, out: out.clone(), calls: 0, break_at: *break_at };
                let r = lk_status_watch(&rts[*rt], of.status(qid), Stamp::new(*timeout), h);
                ret(match r {
                    Ok(true) => "true",
                    Ok(false) => "false",
                    Err(_) => "error",
                })
            }
        }
        for i in 0..2 {
            let mut ids = vec![];
            rt::lk_list_watches(&rts[i], &mut |id, _| ids.push(String::from_utf8_lossy(id).to_string()));
            let want: Vec<_> = m.regs[i].keys().map(|k| k.to_string()).collect();
            if ids != want {
                return bad("registered", format!("after {n} ({op:?}): {ids:?} instead of {want:?}"));
            }
        }
    }
    cx.states(ops.len() as u64 + 6);
    cx.traces(1);
    // the log
    rt::lk_process(&rts[0]);
    let all = lk::lk_query_parse(lk::lk_query(&lk::Q), &[":mode:log-asc"], ()).unwrap();
    let mut hashes = vec![];
    let mut log = vec![];
    let mut err = None;
    rt::lk_get_all(&rts[0], &all, &mut |p| {
        hashes.push(p.hash());
        match read(p, &hashes) {
            Ok(v) => log.push((p.get_recv().get(), v)),
            Err(e) => err = Some(e),
        }
        false
    })
    .unwrap();
    if let Some(e) = err {
        return bad("packet", e);
    }
    if log != m.log {
        let i = (0..).find(|i| log.get(*i) != m.log.get(*i)).unwrap();
        let key = match (log.get(i), m.log.get(i)) {
            (Some((_, a)), Some((_, b))) if a.reply() && b.reply() => "other reply",
            (Some((_, a)), _) if a.reply() => "unasked reply",
            (Some(_), _) => "unneeded request",
            (None, Some((_, a))) if a.reply() => "no reply",
            _ => "no request",
        };
        return bad(key, format!("the log has at {i}: {:?} instead of {:?}", log.get(i), m.log.get(i)));
    }
    // what the callbacks saw
    let out = out.borrow();
    let ops_all: Vec<&Op> = ops.iter().chain(&end).collect();
    for n in 0..ops_all.len() {
        let mut got: Vec<Ev> = vec![];
        for e in out.get(&n).into_iter().flatten() {
            got.push(match e {
                Ok(h) => Ev::Got(hashes.iter().position(|x| x == h).unwrap_or(999)),
                Err(e) => e.clone(),
            })
        }
        let mut want = m.out.get(&n).cloned().unwrap_or_default();
        // the order of what was in the database is not specified, nor which of it an early end leaves out
        let at = |v: &[Ev]| v.iter().position(|e| matches!(e, Ev::Ret(_))).unwrap_or(0);
        let key = |e: &Ev| if let Ev::Got(i) = e { *i } else { 0 };
        let (g, w) = (at(&got), at(&want));
        got[..g].sort_by_key(key);
        if let Op::Watch { break_at: Some(b), .. } = ops_all[n] {
            if (*b as usize) < w {
                let known: Vec<Ev> = want.drain(..w).collect();
                ensure!(g == *b as usize && got[..g].windows(2).all(|v| v[0] != v[1]) && got[..g].iter().all(|e| known.contains(e)), "operation {n} saw {:?} of {known:?}", &got[..g]);
                got.drain(..g);
            }
        }
        if got != want {
            return bad("callback", format!("operation {n} ({:?}) saw {got:?} instead of {want:?}", ops_all[n]));
        }
    }
    Ok(out.values().flatten().any(|e| e.is_ok()) || log.iter().any(|l| l.1.reply()))
}
fn show_ops(ops: &[Op]) -> String {
    format!("{ops:?}")
}

fn main() {
    kit::main("C01", "model_checking", |cx| {
        let all = Of { domain: 0, group: 0, typ: 0, inst: None };
        let a = Of { inst: Some(1), ..all };
        let b = Of { inst: Some(2), ..all };
        let set = |rt, qid, of| Op::Set { rt, qid, of, bad: None };
        let watch = |rt, qid, of, timeout| Op::Watch { rt, qid, of, timeout, break_at: None };
        // 1: what is answered
        cx.rule("a request (in the domain, private, exactly the space of the type or of the instance, no data, no links) is answered once by every instance it is for; anything else is not answered; the first answer links init to the zero hash, later ones prev to the answer before; the answers of one instance form one chain");
        let mut alpha: Vec<Op> = (0..OTHERS).map(|i| Op::Save(i, 0)).collect();
        alpha.extend([Op::Process(0), Op::Process(1)]);
        let n = alpha.len() as u64;
        let len = cx.pick(3, 4);
        for (name, sets) in [
            ("one instance", vec![set(0, "s", a)]),
            ("two instances", vec![set(0, "s", a), set(0, "r", b)]),
            ("two processes", vec![set(0, "s", all), set(1, "s", a)]),
        ] {
            cx.section(&format!("answers: {name}, {len} operations"), || {
                cx.par(n.pow(len), |i| {
                    let ops: Vec<Op> = sets.iter().cloned().chain(nth_digits(n as usize, len as usize, i).into_iter().map(|d| alpha[d].clone())).collect();
                    cx.case_k(b"", &|| show_ops(&ops), || play(cx, &ops));
                })
            });
        }
        // 2: whole conversations
        cx.rule("a request is made only if none for the same space is known that is younger than the timeout; the asking side gets every known answer that is younger than the timeout and every new one received before the last request plus the timeout, each once; an ended callback gets nothing more");
        let mut conv = vec![
            set(0, "s", a),
            set(0, "r", b),
            set(1, "s", all),
            watch(0, "w", all, 100),
            watch(1, "w", all, 100),
            watch(1, "v", a, 40),
            watch(1, "w", b, 5),
            Op::Watch { rt: 1, qid: "w", of: all, timeout: 100, break_at: Some(1) },
            Op::Save(0, 0),
            Op::Save(0, 35),
            Op::Save(1, 0),
            Op::Save(2, 15),
            Op::Process(0),
            Op::Process(1),
            Op::Clock(45),
        ];
        if !cx.quick() {
            conv.extend([watch(0, "v", a, u64::MAX), Op::Save(11, 0), Op::Save(7, 0), Op::Save(6, 0), Op::Save(17, 0), watch(1, "w", all, 0), Op::Watch { rt: 0, qid: "w", of: a, timeout: 100, break_at: Some(2) }])
        }
        let n = conv.len() as u64;
        let len = cx.pick(4, 5);
        cx.section(&format!("conversations: {len} operations"), || {
            cx.par(n.pow(len), |i| {
                let ops: Vec<Op> = nth_digits(n as usize, len as usize, i).into_iter().map(|d| conv[d].clone()).collect();
                cx.case_k(b"", &|| show_ops(&ops), || play(cx, &ops));
            })
        });
        // 3: what is known when asking
        let known: Vec<Op> = (0..OTHERS).flat_map(|i| [Op::Save(i, 0), Op::Save(i, 50)]).collect();
        let n = known.len() as u64;
        let asks: Vec<Op> = [all, a, b]
            .into_iter()
            .flat_map(|of| [0, 1, 11, 31, 60, 10_000, u64::MAX].into_iter().flat_map(move |timeout| [None, Some(1), Some(2)].map(|break_at| Op::Watch { rt: 0, qid: "w", of, timeout, break_at })))
            .collect();
        cx.section("known: two packets, asked about in every way, two packets later", || {
            let m = asks.len() as u64;
            cx.par(n * n * m, |i| {
                let (i, ask) = (i / m, &asks[(i % m) as usize]);
                let k: Vec<Op> = nth_digits(n as usize, 2, i).into_iter().map(|d| known[d].clone()).collect();
                let mut ops = k.clone();
                ops.push(Op::Process(0));
                ops.push(ask.clone());
                ops.extend(k);
                cx.case_k(b"", &|| show_ops(&ops), || play(cx, &ops));
            })
        });
        // 4: answers that are none
        cx.rule("an answer that is no reply to the request is not saved and ends the answering; if it is the first, setting fails and nothing is saved");
        let bads = [Bad_::Err, Bad_::NoData, Bad_::NoLinks, Bad_::Group, Bad_::Space, Bad_::Domain];
        cx.section("wrong answers", || {
            cx.par(6 * 3 * 4, |i| {
                let (b, n, tail) = (bads[(i % 6) as usize], (i / 6 % 3) as u32, i / 18);
                let mut ops = vec![Op::Set { rt: 0, qid: "s", of: a, bad: Some((n, b)) }];
                for _ in 0..=tail {
                    ops.extend([Op::Save(0, 0), Op::Process(0)])
                }
                cx.case_k(b"", &|| show_ops(&ops), || play(cx, &ops));
            })
        });
    })
}
