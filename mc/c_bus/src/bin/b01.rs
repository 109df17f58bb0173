//! Processes agree on the port of a bus, whatever the schedule and wherever one of them dies.
use c_bus::*;
use kit::*;
use sched::{explore, Config};
use std::sync::{Arc, Mutex};

struct Scene {
    name: String,
    /// the calls every process makes
    procs: Vec<Vec<u64>>,
    /// called by one more process once all the others are gone
    after: Vec<u64>,
    map: Option<Vec<u8>>,
    /// whether the map holds whole records, each of them kept
    whole: bool,
    crashes: usize,
    faults: usize,
    preemptions: Option<usize>,
    few_cuts: bool,
}
fn scene(cx: &Cx, s: &Scene) -> (u64, bool) {
    let cfg = Config { preemptions: s.preemptions, ..Default::default() };
    explore(cx, &s.name, &cfg, |w| {
        let files: Vec<(&str, &[u8])> = s.map.iter().map(|m| (MAP, &m[..])).collect();
        let os = vos::install(w, vos::Cfg { crashes: s.crashes, faults: s.faults, files_all: s.crashes > 0 || s.preemptions.is_some(), few_cuts: s.few_cuts, ..Default::default() }, &files);
        // what the calls returned: (process, id, port)
        let got: Arc<Mutex<Vec<(usize, u64, Result<u16, String>)>>> = Default::default();
        let left = Arc::new(Mutex::new(s.procs.len()));
        for (p, ids) in s.procs.iter().enumerate() {
            let (ids, got, left) = (ids.clone(), got.clone(), left.clone());
            w.spawn(p, move || {
                for id in ids {
                    let r = kit::no_panic(|| ipcbus::get_port(id));
                    if sched::gone() {
                        break;
                    }
                    let r = r.and_then(|r| r.map_err(|e| e.to_string()));
                    sched::note(|| format!("process {p}: the bus {id} has the port {r:?}"));
                    got.lock().unwrap().push((p, id, r));
                }
                *left.lock().unwrap() -= 1;
            });
        }
        if !s.after.is_empty() {
            let (ids, got) = (s.after.clone(), got.clone());
            let p = s.procs.len();
            w.spawn(p, move || {
                let l = left.clone();
                if sched::wait_for(sched::ALL, "the others", move || *l.lock().unwrap() == 0).is_err() {
                    return;
                }
                for id in ids {
                    let r = kit::no_panic(|| ipcbus::get_port(id));
                    if sched::gone() {
                        break;
                    }
                    let r = r.and_then(|r| r.map_err(|e| e.to_string()));
                    sched::note(|| format!("process {p}, later: the bus {id} has the port {r:?}"));
                    got.lock().unwrap().push((p, id, r));
                }
            });
        }
        let (whole, map, faults) = (s.whole, s.map.clone(), s.faults);
        move |o| {
            ensure!(o.stuck.is_empty(), "never returns: {:?}", o.stuck);
            let fs = os.fs.lock().unwrap();
            ensure!(fs.escaped.is_empty(), "touched {:?}", fs.escaped);
            let mut known: Vec<(u64, u16)> = vec![];
            if whole {
                known.extend(map.iter().flat_map(|m| m.chunks(10)).map(|b| (u64::from_ne_bytes(b[..8].try_into().unwrap()), u16::from_ne_bytes([b[8], b[9]]))))
            }
            for (p, id, r) in got.lock().unwrap().iter() {
                let port = match r {
                    Ok(p) => *p,
                    Err(_) if fs.failed.contains(p) => continue,
                    Err(e) => return Err(format!("process {p} asks for the bus {id}: {e}").into()),
                };
                for (i, q) in &known {
                    ensure!(i != id || *q == port, "the bus {id} has the ports {q} and {port}");
                    ensure!(i == id || *q != port, "the buses {id} and {i} share the port {port}");
                }
                known.push((*id, port));
            }
            Ok(o.preempts > 0 || !fs.killed.is_empty() || faults > 0 && !fs.failed.is_empty())
        }
    })
}
fn main() {
    setup();
    kit::main("B01", "model_checking", |cx| {
        cx.rule("every interleaving of the file and lock calls of the processes, every call as the place where a process dies (writes also after every byte), every call as the one that fails; non-trivial: another process runs in between, or a process dies, or a call fails");
        let maps: Vec<(&str, Option<Vec<u8>>, bool)> = vec![
            ("no map", None, true),
            ("empty map", Some(vec![]), true),
            ("one record", Some(record(1, 10502)), true),
            ("two records", Some([record(7, 10502), record(1, 10503)].concat()), true),
            ("records out of order", Some([record(7, 12000), record(2, 10502)].concat()), true),
            ("records that descend", Some([record(9, 10504), record(7, 10503), record(2, 10502)].concat()), true),
            ("a cut record", Some(record(1, 10502)[..7].to_vec()), false),
            ("a record and a cut one", Some([record(7, 10502), record(1, 10503)[..3].to_vec()].concat()), false),
        ];
        let run = |what: &str, procs: Vec<Vec<u64>>, after: Vec<u64>, crashes: usize, faults: usize, preemptions: Option<usize>, maps: &[(&str, Option<Vec<u8>>, bool)]| {
            for (mn, m, whole) in maps {
                let name = format!("{what}: {procs:?} then {after:?}, {mn}, {crashes} deaths, {faults} failures, preemptions {preemptions:?}");
                cx.section(&name.clone(), || {
                    let (_, complete) = scene(cx, &Scene { name, procs: procs.clone(), after: after.clone(), map: m.clone(), whole: *whole, crashes, faults, preemptions, few_cuts: crashes > 1 });
                    assert!(complete || cx.stopped());
                })
            }
        };
        run("alone", vec![vec![1, 2, 1, 3, 2, 1]], vec![], 0, 0, None, &maps);
        // every bit of an id counts
        let mut ids: Vec<u64> = (0..64).map(|b| 1 << b).chain([0, u64::MAX, u32::MAX as u64, u64::MAX << 32]).chain((0..8).map(|b| 0xff << (8 * b))).collect();
        run("many ids", vec![ids.clone()], ids.clone(), 0, 0, None, &maps[..2]);
        ids.reverse();
        run("many ids", vec![ids.clone()], ids, 0, 0, None, &maps[2..3]);
        // maps of any size, ports at every byte boundary
        for n in [25u64, 26, 102, 103, 255, 256, 257, 409, 410, 819, 820, 3000, 6553, 6554, 30_000] {
            let m: Vec<u8> = (0..n).flat_map(|i| record(1000 + i, 10502 + i as u16)).collect();
            let mut ids = vec![1000, 1000 + n - 1, 1000 + n / 2, 1, 2, 1, 1000 + n - 2, 1000 + n, 2];
            run(&format!("map of {n} records"), vec![ids.clone()], vec![2, 3, 1000 + n / 3], 0, 0, None, &[("", Some(m.clone()), true)]);
            ids.truncate(5);
            if n <= 256 || !cx.quick() && n < 1000 {
                run(&format!("map of {n} records, dying"), vec![ids[3..].to_vec()], ids.clone(), 1, 0, None, &[("", Some(m.clone()), true)]);
                run(&format!("map of {n} records, two processes"), vec![ids.clone(), vec![2, 1]], ids.clone(), 0, 0, Some(1), &[("", Some(m), true)]);
            }
        }
        for port in [10502u16, 10751, 10752, 16383, 32767, 32768, 65279, 65280, 65530] {
            run(&format!("highest port {port}"), vec![vec![1, 2, 3]], vec![3, 4, 1], 0, 0, None, &[("", Some([record(9, port), record(8, 10502.min(port - 1))].concat()), true)]);
        }
        run("two processes", vec![vec![1], vec![1]], vec![1, 2], 0, 0, None, &maps);
        run("two processes", vec![vec![1], vec![2]], vec![2, 1], 0, 0, None, &maps);
        run("two calls each", vec![vec![1, 2], vec![2, 1]], vec![], 0, 0, Some(2), &maps);
        run("dying", vec![vec![1, 2]], vec![3, 1, 2], 1, 0, None, &maps);
        run("failing", vec![vec![1, 2]], vec![3, 1, 2], 0, 1, None, &maps);
        run("dying and failing", vec![vec![1, 2]], vec![2, 1], 1, 1, None, &maps[..cx.pick(1, 8)]);
        run("one of two dies", vec![vec![1], vec![2]], vec![3, 2, 1], 1, 0, Some(2), &maps[..cx.pick(3, 8)]);
        run("dying twice", vec![vec![1], vec![2]], vec![3, 2, 1, 7], 2, 0, Some(1), &maps[2..cx.pick(3, 8)]);
        run("three processes", vec![vec![1], vec![2], vec![1]], vec![], 0, 0, Some(2), &maps[..cx.pick(2, 8)]);
        if !cx.quick() {
            run("dying twice", vec![vec![1], vec![2]], vec![3, 2, 1, 7], 2, 0, None, &maps[2..5]);
            run("three processes", vec![vec![1], vec![2], vec![1]], vec![], 0, 0, None, &maps[..2]);
            run("three processes", vec![vec![1], vec![2], vec![3]], vec![3, 2, 1], 0, 0, Some(3), &maps);
            run("two calls each", vec![vec![1, 2], vec![2, 1]], vec![], 0, 0, Some(4), &maps);
            run("three dying", vec![vec![1], vec![2], vec![1]], vec![1, 2, 3], 1, 0, Some(2), &maps[..3]);
        }
        cx.assume("virtual processes share one address space; the C library's file calls are replaced by stand-ins that keep one file system, the code and its libraries above them are the real ones");
        cx.assume("a lock of a dead process is released; a write is torn at any byte only by the death of its process");
    })
}
