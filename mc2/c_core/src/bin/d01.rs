//! Saving packets: every history of batches, clocks, failures and deaths leaves a log that has each packet once.
use c_core::*;
use core_::env::lmdb::get::ReadTxn;
use core_::env::lmdb::BTreeEnv;
use core_::env::misc::SaveState;
use core_::env::query_mode::Mode;
use core_::prelude::PktPredicates;
use kit::*;
use lmdb_sys::sim::{Act, Died, Step};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    No,
    Fail(usize),
    Die(usize),
}
#[derive(Clone, Debug)]
struct Op {
    batch: Vec<usize>,
    way: usize,
    clock: i64,
    fault: Fault,
}
fn packets() -> Vec<Pkt> {
    let mut v = vec![];
    let a = link_spec(1, "a", "/a", 5, b"one");
    v.push(make(a.clone(), None));
    v.push(make(link_spec(1, "a", "/a", 5, b"two"), None));
    v.push(make(link_spec(1, "a", "/a/b", 4, b""), Some(1)));
    v.push(make(data_spec(b"data"), None));
    // the first packet again with another header
    let mut b = a;
    b.head[7] = 9;
    b.head[15] = 77;
    v.push(make(b, None));
    assert!(v[0].hash == v[4].hash);
    v
}
type Log = Vec<(u64, usize)>;
fn bytes(p: &NetPktPtr) -> Vec<u8> {
    p.as_netpkt_bytes().to_vec()
}
fn check(what: &str, txn: &ReadTxn, log: &Log, u: &[Pkt]) -> Result<(), Bad> {
    let key = |k: &str| format!("{what} {k}");
    let got: Vec<(u64, Vec<u8>)> = txn.local_pkt_log(Stamp::new(0)).take(50).map(|p| (p.recv.get(), bytes(p.pkt))).collect();
    let want: Vec<(u64, Vec<u8>)> = log.iter().map(|(r, i)| (*r, bytes(u[*i].ptr()))).collect();
    if got != want {
        return bad(key("log"), format!("{what}: the log has {:?} instead of {log:?}", got.iter().map(|g| (g.0, u.iter().position(|p| bytes(p.ptr()) == g.1))).collect::<Vec<_>>()));
    }
    if txn.log_head().get() != log.last().map_or(0, |l| l.0) {
        return bad(key("head"), format!("{what}: head {} of {log:?}", txn.log_head()));
    }
    for p in u {
        let want = log.iter().find(|(_, i)| u[*i].hash == p.hash);
        let ptr = txn.read_ptr(&p.hash).map_err(|e| e.to_string())?.map(|s| s.get());
        if ptr != want.map(|w| w.0) {
            return bad(key("hash"), format!("{what}: the hash index has {ptr:?} instead of {want:?}"));
        }
        let read = txn.read(&p.hash).map_err(|e| e.to_string())?;
        if read.as_ref().map(|r| (r.recv.get(), bytes(r.pkt))) != want.map(|(r, i)| (*r, bytes(u[*i].ptr()))) {
            return bad(key("read"), format!("{what}: reading by hash gives another packet"));
        }
    }
    let all = PktPredicates::default();
    let mut n = 0;
    let mut tree: Vec<(u64, LkHash)> = txn.query("tree-asc".parse::<Mode>().unwrap(), &all, &mut n).map_err(|e| e.to_string())?.take(50).map(|p| (p.recv.get(), p.hash())).collect();
    tree.sort();
    let want: Vec<(u64, LkHash)> = log.iter().filter(|(_, i)| u[*i].spec.is_link()).map(|(r, i)| (*r, u[*i].hash)).collect();
    if tree != want {
        return bad(key("tree"), format!("{what}: the tree has {tree:?} instead of {want:?}"));
    }
    let hashes: Vec<LkHash> = u.iter().map(|p| p.hash).collect();
    let got: Vec<Vec<u8>> = txn.get_pkts_by_hash(hashes.iter().copied()).map(bytes).collect();
    let want: Vec<Vec<u8>> = hashes.iter().filter_map(|h| log.iter().find(|l| u[l.1].hash == *h)).map(|l| bytes(u[l.1].ptr())).collect();
    if got != want {
        return bad(key("by hash"), format!("{what}: {} packets by hash instead of {}", got.len(), want.len()));
    }
    for (at, (r, i)) in log.iter().enumerate() {
        let got: Vec<Vec<u8>> = txn.get_pkts_by_logidx([r - 1, *r, r + 1].into_iter().map(Stamp::new)).map(bytes).collect();
        let want: Vec<Vec<u8>> = log.iter().filter(|l| (r - 1..=r + 1).contains(&l.0)).map(|l| bytes(u[l.1].ptr())).collect();
        if got != want {
            return bad(key("by stamp"), format!("{what}: {} packets by stamp around {r} ({i}) instead of {}", got.len(), want.len()));
        }
        let after: Vec<u64> = txn.pkts_after(Stamp::new(*r)).map(|p| p.recv.get()).collect();
        if after != log[at + 1..].iter().map(|l| l.0).collect::<Vec<_>>() {
            return bad(key("after"), format!("{what}: after {r} are {after:?} of {log:?}"));
        }
        let from: Vec<u64> = txn.local_pkt_log(Stamp::new(*r)).map(|p| p.recv.get()).collect();
        if from != log[at..].iter().map(|l| l.0).collect::<Vec<_>>() {
            return bad(key("from"), format!("{what}: from {r} are {from:?} of {log:?}"));
        }
    }
    Ok(())
}
/// steps it took, and what save said
type Said = (usize, Result<(std::ops::Range<u64>, Vec<SaveState>), String>);
fn save(env: &BTreeEnv, op: &Op, now: u64, u: &[Pkt]) -> (usize, Option<Said>) {
    let n = Rc::new(RefCell::new(0usize));
    let (m, fault) = (n.clone(), op.fault);
    lmdb_sys::sim::hook(Some(Box::new(move |s: Step| {
        if s == Step::Snapshot {
            return Act::Go;
        }
        let i = *m.borrow();
        *m.borrow_mut() += 1;
        match fault {
            Fault::Fail(k) if k == i && s != Step::Committed => Act::Fail([libc::EIO, libc::ENOSPC, lmdb_sys::MDB_MAP_FULL][i % 3]),
            Fault::Die(k) if k == i => Act::Die,
            _ => Act::Go,
        }
    })));
    let clock = vclock::freeze(now);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ptrs: Vec<&NetPktPtr> = op.batch.iter().map(|i| u[*i].ptr()).collect();
        match op.way {
            0 => {
                let mut l: Vec<(&NetPktPtr, SaveState)> = ptrs.iter().map(|p| (*p, SaveState::Pending)).collect();
                env.save_ptr(&mut l).map(|r| (r, l.iter().map(|l| l.1).collect::<Vec<_>>()))
            }
            1 => {
                let mut l: Vec<(&dyn NetPkt, SaveState)> = ptrs.iter().map(|p| (p as &dyn NetPkt, SaveState::Pending)).collect();
                env.save_dyn(&mut l).map(|r| (r, l.iter().map(|l| l.1).collect()))
            }
            2 => env.save_ptr_iter(ptrs.iter().copied()).map(|r| (r, vec![])),
            _ => env.save_dyn_iter(ptrs.iter().map(|p| p as &dyn NetPkt)).map(|r| (r, vec![])),
        }
    }));
    drop(clock);
    lmdb_sys::sim::hook(None);
    let steps = *n.borrow();
    match r {
        Ok(r) => (steps, Some((steps, r.map_err(|e| e.to_string())))),
        Err(p) if p.is::<Died>() => (steps, None),
        Err(p) => std::panic::resume_unwind(p),
    }
}
const T0: u64 = 1_000_000;
/// Returns false when a fault lies after the last step.
fn run(ops: &[Op], u: &[Pkt]) -> CaseResult {
    let dir = Scratch::new();
    let mut env = dir.open().map_err(|e| e.to_string())?;
    let mut log: Log = vec![];
    let mut now = T0;
    for (i, op) in ops.iter().enumerate() {
        let last = i + 1 == ops.len();
        now = now.checked_add_signed(op.clock).unwrap();
        let watcher = dir.open().map_err(|e| e.to_string())?;
        let seen = watcher.0.log_head.val();
        let mut txn = watcher.new_read_txn().map_err(|e| e.to_string())?;
        let (steps, r) = save(&env, op, now, u);
        if let Fault::Fail(k) | Fault::Die(k) = op.fault {
            if k >= steps {
                return Ok(false);
            }
        }
        // the packets of the batch that are new, in order
        let mut new: Vec<usize> = vec![];
        let mut states = vec![];
        for b in &op.batch {
            let have = log.iter().any(|l| u[l.1].hash == u[*b].hash) || new.iter().any(|n| u[*n].hash == u[*b].hash);
            states.push(if have { SaveState::Exists } else { SaveState::Written });
            if !have {
                new.push(*b)
            }
        }
        let before = log.clone();
        let end = log.last().map_or(0, |l| l.0);
        let mut may_be = vec![];
        match &r {
            Some((_, Ok((range, got)))) => {
                if range.end - range.start != new.len() as u64 {
                    return bad("range", format!("saved {new:?} as {range:?}"));
                }
                if !got.is_empty() && *got != states {
                    return bad("states", format!("the states are {got:?} instead of {states:?}"));
                }
                if !new.is_empty() && (range.start <= end || range.start < now) {
                    return bad("stamps", format!("saved as {range:?} at {now} after {end}"));
                }
                log.extend(new.iter().enumerate().map(|(i, p)| (range.start + i as u64, *p)));
            }
            Some((_, Err(e))) => {
                if op.fault == Fault::No {
                    return bad("refused", format!("saving failed: {e}"));
                }
            }
            None => {
                // the process died: all or nothing is there
                let start = now.max(end + 1);
                may_be = log.clone();
                may_be.extend(new.iter().enumerate().map(|(i, p)| (start + i as u64, *p)));
            }
        }
        if let (Fault::Fail(k), Some((_, Ok(_)))) = (op.fault, &r) {
            // only the step after the commit can not fail
            if k + 1 != steps && !new.is_empty() {
                return bad("failure hidden", format!("step {k} of {steps} failed but saving says it succeeded"));
            }
        }
        if last {
            check("an earlier view", &txn, &before, u)?;
            let mut old = watcher.new_read_txn().map_err(|e| e.to_string())?;
            old.refresh();
        }
        let noted = watcher.0.log_head.val();
        match &r {
            Some((_, Ok(_))) if !new.is_empty() => {
                if noted != log.last().unwrap().0 {
                    return bad("not announced", format!("announced {noted} after saving {log:?}"));
                }
            }
            Some(_) => {
                if noted != seen {
                    return bad("announced nothing", format!("announced {noted} though nothing was saved"));
                }
            }
            None => {}
        }
        if r.is_none() {
            // a new process
            drop(std::mem::replace(&mut env, dir.open().map_err(|e| e.to_string())?));
            txn.refresh();
            if check("after a death", &txn, &log, u).is_err() {
                log = may_be;
            }
        }
        txn.refresh();
        check("refreshed", &txn, &log, u)?;
        if last {
            let t = env.new_read_txn().map_err(|e| e.to_string())?;
            check("the saving handle", &t, &log, u)?;
            drop(t);
            drop(txn);
            drop(watcher);
            drop(env);
            dir.forget();
            let env = dir.open().map_err(|e| e.to_string())?;
            let t = env.new_read_txn().map_err(|e| e.to_string())?;
            check("reopened", &t, &log, u)?;
            return Ok(!new.is_empty() || !log.is_empty());
        }
    }
    Ok(true)
}
fn main() {
    kit::main("D01", "model_checking", |cx| {
        cx.rule("A save that succeeds adds exactly the packets that were not there, once each and unchanged, with stamps that increase whatever the clock does, to the log and every index, and announces the last; a save that fails or dies adds all or nothing; other views change only when refreshed");
        cx.assume("an in-memory database stands in for the installed one; its transactions are atomic, and every step can fail or be the last");
        let u = packets();
        let batches: Vec<Vec<usize>> = vec![vec![0], vec![1, 2], vec![0, 0], vec![4, 3, 0], vec![2, 0, 1, 3], vec![]];
        let clocks = [0i64, 1, 7, -3];
        let plain: Vec<Op> = batches.iter().flat_map(|b| clocks.iter().map(move |c| Op { batch: b.clone(), way: 0, clock: *c, fault: Fault::No })).collect();
        let steps = 16;
        let mut faulty = plain.clone();
        for k in 0..steps {
            for f in [Fault::Fail(k), Fault::Die(k)] {
                for (i, b) in batches.iter().enumerate() {
                    faulty.push(Op { batch: b.clone(), way: i % 2, clock: 1, fault: f })
                }
            }
        }
        for way in 1..4 {
            for b in &batches {
                faulty.push(Op { batch: b.clone(), way, clock: 0, fault: Fault::No })
            }
        }
        cx.bound("operations", faulty.len());
        let seq = |cx: &Cx, ops: &[Op]| {
            cx.transitions(ops.len() as u64);
            cx.states(1);
            let d = || ops.iter().map(|o| format!("save {:?} at {:+} {:?} (way {})", o.batch, o.clock, o.fault, o.way)).collect::<Vec<_>>().join(", ");
            cx.case_k(b"", &d, || run(ops, &u));
        };
        cx.section("one or two saves", || {
            cx.par(faulty.len() as u64, |a| {
                let a = &faulty[a as usize];
                seq(cx, &[a.clone()]);
                for b in &faulty {
                    seq(cx, &[a.clone(), b.clone()])
                }
            })
        });
        cx.section("three saves", || {
            let some: Vec<&Op> = plain.iter().step_by(cx.pick(2, 1)).collect();
            cx.par((some.len() * faulty.len()) as u64, |i| {
                let (a, b) = (some[i as usize % some.len()], &faulty[i as usize / some.len()]);
                for c in if cx.quick() { &plain[..] } else { &faulty[..] } {
                    seq(cx, &[a.clone(), b.clone(), c.clone()])
                }
            })
        });
    });
}
