//! The interface to the database: what is saved can be got as soon as it was processed, and the numbers say what happened.
use c_core::*;
use kit::*;
use linkspace::prelude::*;
use linkspace::query::*;
use linkspace::runtime::*;
use linkspace::{lk_save, Linkspace};
use std::path::Path;

const START: u64 = 5000;

fn packets() -> Vec<Pkt> {
    let l = |g: u8, d: &str, s: &str, t: u64, data: &[u8], k: Option<usize>| make(link_spec(g, d, s, t, data), k);
    let mut far = data_spec(b"far");
    far.head[7] = 9; // another network header
    vec![make(data_spec(b"plain"), None), l(1, "a", "/a", 7, b"", None), l(1, "a", "/a", 9, b"x", Some(0)), l(1, "a", "/a", 8, b"y", Some(0)), l(0, "b", "/a/b", 5, b"private", None), make(far, None)]
}
#[derive(Clone, Debug)]
enum Op {
    Save(usize),
    All(&'static [usize]),
    Ext(&'static [usize]),
    Process(usize),
    Reopen,
}
const LISTS: [&[usize]; 6] = [&[], &[0, 0], &[1, 2, 3], &[5, 0, 4, 5], &[3, 2, 1, 0, 4, 5], &[4]];
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = (0..6).map(Op::Save).collect();
    v.extend(LISTS[..5].iter().map(|l| Op::All(l)));
    v.extend(LISTS.iter().map(|l| Op::Ext(l)));
    v.extend([Op::Process(0), Op::Process(1), Op::Reopen]);
    v
}
fn queries() -> Vec<Vec<Rule>> {
    let n32 = |n: &'static str, op: &'static str, v: u32| rule(n, op, v.to_be_bytes());
    vec![
        vec![],
        vec![rule("domain", "=", "a")],
        vec![rule("pubkey", "=", keys()[0].pubkey_bytes())],
        vec![rule("create", "<", 9u64.to_be_bytes())],
        vec![rule("prefix", "=", flat(&spc("/a")))],
        vec![rule("data_size", ">", 2u16.to_be_bytes()), rule("type", "=", [1])],
        vec![rule("domain", "=", "none")],
        vec![n32("i", "<", 2)],
        vec![n32("i_branch", "<", 1), n32("i", "<", 3)],
        vec![n32("i_db", "<", 3), rule("group", ">", [0; 32])],
        vec![n32("i", "=", 0)],
        vec![n32("i", "<", 0)],
        vec![n32("i_new", "<", 0)],
        vec![rule("recv", "<", (START + 3).to_be_bytes())],
    ]
}
fn seen(p: &dyn NetPkt) -> (Option<u64>, LkHash, Vec<u8>) {
    (p.recv().map(|r| r.get()), p.hash(), p.as_netbox().as_netpkt_bytes().to_vec())
}
struct World<'a> {
    pkts: &'a [Pkt],
    log: Vec<(u64, &'a Pkt)>,
    next: u64,
    /// how much of the log the two readers see
    sees: [usize; 2],
    rt: [Linkspace; 2],
    dir: &'a Path,
}
fn open(dir: &Scratch) -> Result<Linkspace, String> {
    Ok(linkspace_common::runtime::Linkspace::new_opt_rt(dir.open().map_err(|e| e.to_string())?, Default::default()).into())
}
impl<'a> World<'a> {
    fn add(&mut self, l: &[usize], clock: u64) -> (u64, u64) {
        let from = self.next.max(clock);
        let mut at = from;
        for i in l {
            let p = &self.pkts[*i];
            if !self.log.iter().any(|x| x.1.hash == p.hash) {
                self.log.push((at, p));
                at += 1;
                self.next = at
            }
        }
        (from, at)
    }
    fn step(&mut self, op: &Op, clock: u64, dir: &Scratch) -> CaseResult {
        let refs = |l: &[usize]| -> Vec<&dyn NetPkt> { l.iter().map(|i| &self.pkts[*i].net as &dyn NetPkt).collect() };
        match op {
            Op::Save(i) => {
                let got = no_panic(|| lk_save(&self.rt[0], &self.pkts[*i].net))?.map_err(|e| e.to_string())?;
                let (a, b) = self.add(&[*i], clock);
                ensure!(got == (b > a), "saved is {got}, {} are new", b - a)
            }
            Op::All(l) => {
                let v = refs(l);
                let got = no_panic(|| lk_save_all(&self.rt[1], &v))?.map_err(|e| e.to_string())?;
                let (a, b) = self.add(l, clock);
                ensure!(got as u64 == b - a, "{got} are new, not {}", b - a)
            }
            Op::Ext(l) => {
                let v = refs(l);
                let (x, y) = no_panic(|| lk_save_all_ext(&self.rt[0], &v))?.map_err(|e| e.to_string())?;
                let (a, b) = self.add(l, clock);
                ensure!(y.get() - x.get() == b - a && (a == b || x.get() == a), "it used {x}..{y} and not {a}..{b}")
            }
            Op::Process(i) => {
                let r = no_panic(|| lk_process(&self.rt[*i]))?.get();
                self.sees[*i] = self.log.len();
                let last = self.log.last().map(|l| l.0);
                ensure!(last.map_or(true, |l| r == l || r == l + 1), "processed up to {r}, the last is {last:?}")
            }
            Op::Reopen => {
                self.rt[1] = open(dir)?;
                self.sees[1] = self.log.len()
            }
        }
        Ok(true)
    }
    fn look(&self, cx: &Cx, modes: &[&str], qs: &[Vec<Rule>]) -> Result<(), Bad> {
        for h in 0..2 {
            let rt = &self.rt[h];
            let log = &self.log[..self.sees[h]];
            for rules in qs {
                let Ok(base) = query(rules) else { continue };
                for m in modes {
                    let q = Query::from_impl(&base).clone();
                    let q = if m.is_empty() { q } else { lk_query_push(q, "", "mode", m.as_bytes()).map_err(|e| e.to_string())? };
                    let mut want: Vec<_> = matching(log, rules, if m.is_empty() { "tree-desc" } else { m });
                    let mut n = 0;
                    want.retain(|_| {
                        n += 1;
                        within(rules, "i", n - 1)
                    });
                    let ctx = |what: &str| format!("{what}({} {m}) by {h}", show_rules(rules));
                    let first = want.first().map(|(r, p)| (Some(*r), p.hash, p.net.as_netpkt_bytes().to_vec()));
                    let got = no_panic(|| lk_get_ref(rt, &q, &mut |p| seen(p)))?.map_err(|e| format!("{}: {e:#}", ctx("lk_get_ref")))?;
                    ensure_bad(got == first, || format!("{} is {:?}, it should be {:?}", ctx("lk_get_ref"), got.as_ref().map(|g| (g.0, g.1)), first.as_ref().map(|g| (g.0, g.1))))?;
                    let got = no_panic(|| lk_get(rt, &q))?.map_err(|e| format!("{}: {e:#}", ctx("lk_get")))?;
                    ensure_bad(got.as_ref().map(|p| p.as_netpkt_bytes()) == first.as_ref().map(|f| &f.2[..]), || format!("{} is {got:?}", ctx("lk_get")))?;
                    for stop in (1..=want.len() + 1).rev() {
                        let mut calls = vec![];
                        let r = no_panic(|| {
                            lk_get_all(rt, &q, &mut |p| {
                                calls.push(seen(p));
                                calls.len() == stop
                            })
                        })?
                        .map_err(|e| format!("{}: {e:#}", ctx("lk_get_all")))?;
                        let n = want.len().min(stop);
                        let all: Vec<_> = want[..n].iter().map(|(r, p)| (Some(*r), p.hash, p.net.as_netpkt_bytes().to_vec())).collect();
                        ensure_bad(calls == all, || format!("{} gives {:?}, it should be {:?}", ctx("lk_get_all"), calls.iter().map(|c| (c.0, c.1)).collect::<Vec<_>>(), all.iter().map(|c| (c.0, c.1)).collect::<Vec<_>>()))?;
                        ensure_bad(r.unsigned_abs() as usize == n, || format!("{} stopped at {stop} of {} is {r}", ctx("lk_get_all"), want.len()))?;
                        cx.transitions(1);
                    }
                    cx.transitions(2);
                }
            }
            // by hash
            for p in self.pkts {
                let there = log.iter().find(|x| x.1.hash == p.hash);
                let q = lk_hash_query(p.hash);
                let got = no_panic(|| lk_get_ref(rt, &q, &mut |p| seen(p)))?.map_err(|e| e.to_string())?;
                ensure_bad(got == there.map(|(r, p)| (Some(*r), p.hash, p.net.as_netpkt_bytes().to_vec())), || format!("the query of the hash {} is {got:?} by {h}", p.hash))?;
            }
            let gone = LkHash::from([7; 32]);
            let h = |i: usize| self.pkts[i].hash;
            for l in [vec![], vec![h(0)], vec![h(3), h(0), h(1)], vec![gone, h(1), gone, h(1), h(2)], vec![h(5), h(4), h(3), h(2), h(1), h(0)], vec![gone]] {
                let want: Vec<LkHash> = l.iter().copied().filter(|x| log.iter().any(|y| y.1.hash == *x)).collect();
                for stop in (1..=want.len() + 1).rev() {
                    let mut calls = vec![];
                    let r = no_panic(|| {
                        lk_get_hashes(rt, &l, &mut |p| {
                            calls.push(p.hash());
                            calls.len() == stop
                        })
                    })?
                    .map_err(|e| e.to_string())?;
                    let n = want.len().min(stop);
                    ensure_bad(calls == want[..n] && r.unsigned_abs() as usize == n && (r < 0) == (stop <= want.len()), || format!("of the hashes {l:?} it gives {calls:?} and {r}, stopped at {stop}"))?;
                    cx.transitions(1);
                }
            }
            let info = lk_info(rt);
            ensure_bad(info.kind == "lmdb" && info.dir == self.dir, || format!("{info:?}"))?;
        }
        Ok(())
    }
}
fn ensure_bad(ok: bool, f: impl FnOnce() -> String) -> Result<(), Bad> {
    if ok {
        Ok(())
    } else {
        Err(Bad { key: "different".into(), msg: f() })
    }
}
fn play(cx: &Cx, pkts: &[Pkt], ops: &[Op], modes: &[&str], qs: &[Vec<Rule>]) -> CaseResult {
    let _clock = vclock::freeze(START);
    let dir = Scratch::new();
    let mut w = World { pkts, log: vec![], next: 0, sees: [0; 2], rt: [open(&dir)?, open(&dir)?], dir: &dir.0 };
    for (i, op) in ops.iter().enumerate() {
        // the clock goes back and forth
        let now = START + [0, 0, 10, 4][i % 4];
        vclock::set(now);
        w.step(op, now, &dir)?;
        cx.states(1);
        // what is not processed is not seen
        if i + 1 == ops.len() {
            w.look(cx, modes, qs)?;
        }
    }
    for i in 0..2 {
        w.step(&Op::Process(i), START, &dir)?;
    }
    w.look(cx, modes, qs)?;
    cx.traces(1);
    Ok(!w.log.is_empty())
}
fn main() {
    kit::main("L01", "model_checking", |cx| {
        cx.rule("after every history of saving (one, several, repeated, with the stamps that were used), processing and opening, by two runtimes: which packets are new is said right, every query gives the packets that match in its order, once each, to the callback and as the first one, with the moment they were received; a list of hashes gives those that are there in the order of the list; and the numbers returned are the number of calls, whenever the callback stops");
        cx.assume("the sign of what lk_get_all returns is not looked at, as its documentation contradicts itself");
        let pkts = packets();
        let all = ops();
        let qs = queries();
        const MODES: [&str; 7] = ["", "tree-asc", "tree-desc", "log-asc", "log-desc", "hash-asc", "hash-desc"];
        cx.section("single operations in every mode, and two in a row", || {
            let n = all.len() as u64;
            cx.par(n + n * n, |i| {
                let l: Vec<Op> = if i < n { vec![all[i as usize].clone()] } else { nth_digits(all.len(), 2, i - n).into_iter().map(|d| all[d as usize].clone()).collect() };
                cx.case_k(b"", &|| format!("{l:?}"), || play(cx, &pkts, &l, if i < n || !cx.quick() { &MODES } else { &["", "tree-asc", "log-desc", "hash-desc"] }, &qs))
            })
        });
        let few: Vec<Op> = vec![Op::Save(0), Op::Save(2), Op::All(LISTS[1]), Op::All(LISTS[2]), Op::Ext(LISTS[3]), Op::Ext(LISTS[4]), Op::Process(0), Op::Process(1), Op::Reopen];
        let depth = cx.pick(3, 5);
        cx.section(&format!("{depth} in a row, of {}", few.len()), || {
            let n = few.len() as u64;
            cx.par(n.pow(depth as u32), |i| {
                let l: Vec<Op> = nth_digits(few.len(), depth, i).into_iter().map(|d| few[d as usize].clone()).collect();
                cx.case_k(b"", &|| format!("{l:?}"), || play(cx, &pkts, &l, &["", "log-desc", "hash-asc"], &qs))
            })
        });
    })
}
