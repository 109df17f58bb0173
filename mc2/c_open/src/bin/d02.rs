//! Opening a database: every interleaving of processes that open it, every point where one dies or a call fails.
use c_core::*;
use kit::*;
use linkspace_core::env::lmdb::BTreeEnv;
use linkspace_core::LNS_ROOTS;
use lmdb_sys::sim::{Act, Step};
use sched::{explore, Config};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

static RUN: AtomicU64 = AtomicU64::new(0);
const DB: u64 = 77;

#[derive(Clone)]
struct Scene {
    openers: usize,
    /// one opens when the one before it is done
    in_turn: bool,
    crashes: usize,
    faults: usize,
    preemptions: Option<usize>,
    roots: bool,
    files: Vec<(&'static str, Vec<u8>)>,
    dirs: Vec<&'static str>,
    make_dir: bool,
    few_cuts: bool,
}
struct Opened {
    id: Option<Vec<u8>>,
    log: Vec<LkHash>,
}
type Res = Option<Result<Opened, String>>;
fn db_steps(dir: String) {
    lmdb_sys::sim::hook(Some(Box::new(move |s: Step| {
        let dir = dir.clone();
        let r = match s {
            Step::Begin => sched::wait_for(sched::write(DB), "begin", move || !lmdb_sys::sim::writing(Path::new(&dir))),
            Step::Commit => sched::point(sched::write(DB), "commit"),
            Step::Committed => sched::point(sched::write(DB), "committed"),
            Step::Snapshot => sched::point(sched::read(DB), "snapshot"),
            Step::Update => return Act::Go,
        };
        if r.is_err() || s != Step::Snapshot && vos::may_die("database") {
            return Act::Die;
        }
        Act::Go
    })));
}
fn log_of(env: &BTreeEnv) -> Result<Vec<LkHash>, String> {
    let t = env.new_read_txn().map_err(|e| e.to_string())?;
    let l: Vec<LkHash> = t.local_pkt_log(Stamp::ZERO).take(50).map(|p| p.pkt.hash()).collect();
    for h in &l {
        if t.read(h).map_err(|e| e.to_string())?.map(|p| p.pkt.hash()) != Some(*h) {
            return Err(format!("{h} is in the log but can not be read"));
        }
    }
    Ok(l)
}
fn open(dir: &str, os: &vos::Os, s: &Scene) -> Res {
    db_steps(dir.to_string());
    let clock = vclock::freeze(1000 + sched::proc_id().unwrap_or(0) as u64);
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Opened, String> {
        let env = BTreeEnv::open(dir.into(), s.make_dir).map_err(|e| e.to_string())?;
        let id = os.file(&format!("{dir}/id"));
        Ok(Opened { id, log: log_of(&env)? })
    }));
    drop(clock);
    lmdb_sys::sim::hook(None);
    if sched::gone() {
        return None;
    }
    Some(r.unwrap_or_else(|p| Err(format!("panic {:?}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()))))))
}
fn scene(cx: &Cx, name: &str, s: &Scene, refuse: bool) -> u64 {
    let cfg = Config { preemptions: s.preemptions, ..Default::default() };
    let mut want: Vec<LkHash> = vec![linkspace_pkt::PUBLIC_GROUP_PKT.hash()];
    if s.roots {
        want.extend(LNS_ROOTS.iter().map(|p| p.hash()))
    }
    want.sort();
    let want = &want;
    let (n, complete) = explore(cx, name, &cfg, |w| {
        let top = format!("/vdb/r{}", RUN.fetch_add(1, SeqCst));
        let dir = format!("{top}/db");
        let files: Vec<(String, Vec<u8>)> = s.files.iter().map(|(n, d)| (format!("{dir}/{n}"), d.clone())).collect();
        let files: Vec<(&str, &[u8])> = files.iter().map(|(n, d)| (&n[..], &d[..])).collect();
        let os = vos::install(w, vos::Cfg { crashes: s.crashes, faults: s.faults, dirs: true, few_cuts: s.few_cuts, ..Default::default() }, &files);
        for d in &s.dirs {
            os.fs.lock().unwrap().dirs.insert(format!("{top}{d}"));
        }
        let got: Arc<Mutex<Vec<Res>>> = Arc::new(Mutex::new((0..s.openers + 2).map(|_| None).collect()));
        let done = Arc::new(AtomicUsize::new(0));
        for p in 0..s.openers {
            let (dir, os, got, done, s) = (dir.clone(), os.clone(), got.clone(), done.clone(), s.clone());
            w.spawn(p, move || {
                if s.in_turn && p > 0 {
                    let d = done.clone();
                    if sched::wait_for(sched::ALL, "turn", move || d.load(SeqCst) == p).is_err() {
                        return;
                    }
                }
                let r = open(&dir, &os, &s);
                got.lock().unwrap()[p] = r;
                done.fetch_add(1, SeqCst);
            });
        }
        {
            let (dir, os, got, done, s) = (dir.clone(), os.clone(), got.clone(), done.clone(), s.clone());
            w.spawn(s.openers, move || {
                let d = done.clone();
                let n = s.openers;
                if sched::wait_for(sched::ALL, "all done", move || d.load(SeqCst) == n).is_err() {
                    return;
                }
                {
                    let mut f = os.fs.lock().unwrap();
                    f.crashes_left = 0;
                    f.faults_left = 0;
                }
                for i in 0..2 {
                    let r = sched::as_one(n + 1 + i, || open(&dir, &os, &s));
                    let Ok(r) = r else { return };
                    got.lock().unwrap()[n + i] = r;
                }
            });
        }
        let s = s.clone();
        move |out: &sched::Outcome| {
            let r = judge(out, &s, &os, &got.lock().unwrap(), want, refuse, &dir);
            lmdb_sys::sim::remove(Path::new(&dir));
            ipcbus::forget(Path::new(&dir));
            r
        }
    });
    cx.bound(name, format!("{n} executions{}", if complete { "" } else { ", not all" }));
    n
}
fn judge(out: &sched::Outcome, s: &Scene, os: &vos::Os, got: &[Res], want: &[LkHash], refuse: bool, dir: &str) -> CaseResult {
    if let Some((t, p)) = out.panics.first() {
        return bad("panic", format!("thread {t}: {p}"));
    }
    if let Some(x) = out.stuck.first() {
        return bad("stuck", format!("{x:?}"));
    }
    let fs = os.fs.lock().unwrap();
    if let Some(e) = fs.escaped.first() {
        return bad("escaped", format!("the real file system is changed: {e}"));
    }
    let (killed, failed, names) = (fs.killed.clone(), fs.failed.clone(), fs.names.keys().cloned().collect::<Vec<_>>());
    drop(fs);
    if refuse {
        for (i, r) in got.iter().enumerate() {
            if let Some(Ok(_)) = r {
                return bad("opened", format!("process {i} opened what is not a database"));
            }
        }
        for (n, d) in &s.files {
            if os.file(&format!("{dir}/{n}")).as_deref() != Some(&d[..]) {
                return bad("changed", format!("{n} was changed"));
            }
        }
        let extra: Vec<_> = names.iter().filter(|n| !s.files.iter().any(|f| **n == format!("{dir}/{}", f.0))).collect();
        if !s.make_dir && !extra.is_empty() {
            return bad("left over", format!("{extra:?}"));
        }
        return Ok(true);
    }
    let id = os.file(&format!("{dir}/id"));
    if id.as_ref().map(|i| i.len()) != Some(8) {
        return bad("id", format!("the identity is {id:?}"));
    }
    for (n, d) in &s.files {
        if ["id", "type"].contains(n) && os.file(&format!("{dir}/{n}")).as_deref() != Some(&d[..]) {
            return bad("changed", format!("{n} was changed"));
        }
    }
    for (i, r) in got.iter().enumerate() {
        let last = i >= s.openers;
        let who = if last { "a later process".to_string() } else { format!("process {i}") };
        match r {
            None if last || !killed.contains(&i) => return bad("no result", format!("{who} has no result")),
            None => {}
            Some(Err(e)) if last || !failed.contains(&i) => return bad(if last { "later" } else { "open" }, format!("{who} can not open the database: {e}")),
            Some(Err(_)) => {}
            Some(Ok(o)) => {
                if o.id != id {
                    return bad("identity", format!("{who} opened {:?}, the database is {id:?}", o.id));
                }
                let mut l = o.log.clone();
                l.sort();
                if l != want {
                    return bad("content", format!("{who} sees {} packets instead of the {} a new database has", l.len(), want.len()));
                }
            }
        }
    }
    Ok(true)
}
fn main() {
    kit::main("D02", "model_checking", |cx| {
        cx.rule("Whatever processes open a database at the same time, die or fail on the way: every other one opens it, with the one identity and the initial packets once each, and what is no database is refused and kept");
        cx.assume("files live in a model of the file system, where a write can be cut short by a kill and a call can fail; the database itself is an in-memory model with atomic transactions");
        let _ = vos::sys::here();
        let _ = linkspace_pkt::PUBLIC_GROUP_PKT.hash();
        std::env::remove_var("LK_FORCE_EMPTY");
        std::env::remove_var("LK_NO_LNS");
        let base = Scene { openers: 1, in_turn: false, crashes: 0, faults: 0, preemptions: None, roots: true, files: vec![], dirs: vec![], make_dir: true, few_cuts: true };
        let q = cx.quick();
        let pre = |a: usize, b: Option<usize>| if q { Some(a) } else { b };
        cx.section("one process dies", || {
            scene(cx, "one process, killed once", &Scene { crashes: 1, few_cuts: false, ..base.clone() }, false);
            scene(cx, "two processes in turn, both killed", &Scene { openers: 2, in_turn: true, crashes: 2, ..base.clone() }, false);
            scene(cx, "two processes in turn, one killed, one call fails", &Scene { openers: 2, in_turn: true, crashes: 1, faults: 1, ..base.clone() }, false);
            scene(cx, "three processes in turn, all killed", &Scene { openers: if q { 2 } else { 3 }, in_turn: true, crashes: 3, ..base.clone() }, false);
        });
        cx.section("at the same time", || {
            scene(cx, "two processes", &Scene { openers: 2, preemptions: pre(2, Some(3)), ..base.clone() }, false);
            scene(cx, "two processes, one killed", &Scene { openers: 2, crashes: 1, preemptions: pre(1, Some(2)), ..base.clone() }, false);
            scene(cx, "two processes, one call fails", &Scene { openers: 2, faults: 1, preemptions: pre(1, Some(2)), ..base.clone() }, false);
            scene(cx, "three processes", &Scene { openers: 3, preemptions: pre(1, Some(2)), ..base.clone() }, false);
        });
        cx.section("what is there already", || {
            let id = || 1234u64.to_be_bytes().to_vec();
            let dirs = vec!["", "/db"];
            let with = |f: Vec<(&'static str, Vec<u8>)>| Scene { files: f, dirs: dirs.clone(), openers: 2, preemptions: Some(1), ..base.clone() };
            scene(cx, "an empty directory", &with(vec![]), false);
            scene(cx, "a type", &with(vec![("type", b"lmdb".to_vec())]), false);
            scene(cx, "a type and an identity", &with(vec![("type", b"lmdb".to_vec()), ("id", id())]), false);
            scene(cx, "another type", &with(vec![("type", b"other".to_vec())]), true);
            scene(cx, "another type and an identity", &with(vec![("type", b"lmdb2".to_vec()), ("id", id())]), true);
            scene(cx, "no directory", &Scene { make_dir: false, ..base.clone() }, true);
        });
        std::env::set_var("LK_NO_LNS", "1");
        cx.section("without roots", || {
            scene(cx, "one process killed", &Scene { crashes: 1, roots: false, ..base.clone() }, false);
            scene(cx, "two processes", &Scene { openers: 2, roots: false, preemptions: pre(2, Some(3)), ..base.clone() }, false);
        });
    });
}
