//! What arrives on the port of a bus: only whole messages of other local processes on the same bus count.
use c_bus::*;
use ipcbus::ProcBus;
use kit::*;
use sched::{explore, Config};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

const LOCAL: [u8; 4] = [127, 0, 0, 1];
#[derive(Clone, Debug)]
struct Gram {
    what: String,
    data: Vec<u8>,
    from: [u8; 4],
    /// the value it carries for the bus
    val: Option<u64>,
    /// whether it may also be read as this value
    maybe: Option<u64>,
}
/// the message another process sends for this value
fn genuine(cx: &Cx, bus: u64, val: u64) -> Vec<u8> {
    genuine_of(cx, bus, val, 1001)
}
fn genuine_of(cx: &Cx, bus: u64, val: u64, pid: u32) -> Vec<u8> {
    let out: Arc<Mutex<Vec<u8>>> = Default::default();
    let name = format!("process 1 emits {val} on the bus {bus}, its id is {pid}");
    explore(cx, &name, &Config::default(), |w| {
        let id = bus.to_be_bytes();
        let map = [record(1, 10502), record(2, 10503)].concat();
        let os = vos::install(w, vos::Cfg { files_local: true, pid1: Some(pid), ..Default::default() }, &[("/vdb/id", &id), (MAP, &map)]);
        w.spawn(1, move || {
            ProcBus::new(std::path::Path::new("/vdb")).unwrap().emit(val);
        });
        let out = out.clone();
        move |o| {
            ensure!(o.panics.is_empty() && o.stuck.is_empty(), "emit: {:?} {:?}", o.panics, o.stuck);
            let f = os.fs.lock().unwrap();
            ensure!(f.sent.len() == 1 && f.sent[0].1 == 10501 + bus as u16, "a new value is sent once, to the port of the bus: {:?}", f.sent);
            *out.lock().unwrap() = f.sent[0].2.clone();
            Ok(true)
        }
    });
    let v = out.lock().unwrap().clone();
    v
}
fn receive(cx: &Cx, seq: &[&Gram], asleep: bool) {
    let name = format!("{:?}, {}", seq.iter().map(|g| &g.what).collect::<Vec<_>>(), if asleep { "somebody waits" } else { "nobody waits" });
    let (_, complete) = explore(cx, &name, &Config { preemptions: Some(0), ..Default::default() }, |w| {
        let id = 1u64.to_be_bytes();
        let os = vos::install(w, vos::Cfg { files_local: true, ..Default::default() }, &[("/vdb/id", &id), (MAP, &record(1, 10502))]);
        let bus: Arc<Mutex<Option<Arc<ProcBus>>>> = Default::default();
        let woken: Arc<Mutex<Option<u64>>> = Default::default();
        let (w2, bus2, woken2, seq2) = (w.clone(), bus.clone(), woken.clone(), seq.iter().map(|g| (*g).clone()).collect::<Vec<_>>());
        let delivered = Arc::new(AtomicBool::new(false));
        let delivered2 = delivered.clone();
        w.spawn(0, move || {
            let Ok(b) = sched::as_one(0, || {
                let b = ProcBus::new(std::path::Path::new("/vdb")).unwrap();
                b.init();
                Arc::new(b)
            }) else {
                return;
            };
            *bus2.lock().unwrap() = Some(b.clone());
            if asleep {
                let t = w2.spawn(0, move || {
                    let v = b.next_deadline(None);
                    if !sched::gone() {
                        *woken2.lock().unwrap() = v
                    }
                });
                let f = sched::blocked(&w2, t);
                if sched::wait_for(sched::ALL, "the waiter", move || f.load(SeqCst)).is_err() {
                    return;
                }
            }
            w2.spawn(1, move || {
                for g in &seq2 {
                    if vos::inject(10502, &g.data, g.from).is_err() {
                        return;
                    }
                }
                delivered2.store(true, SeqCst);
            });
        });
        let seq: Vec<Gram> = seq.iter().map(|g| (*g).clone()).collect();
        move |o| {
            ensure!(o.panics.is_empty(), "panicked: {:?}", o.panics);
            ensure!(delivered.load(SeqCst), "not delivered");
            let want = seq.iter().filter_map(|g| g.val).max().unwrap_or(0);
            let may: Vec<u64> = std::iter::once(want).chain(seq.iter().filter_map(|g| g.maybe).filter(|v| *v > want)).collect();
            let v = bus.lock().unwrap().as_ref().unwrap().val();
            ensure!(may.contains(&v), "the value is {v}, expected {want}");
            ensure!(o.stuck.iter().filter(|s| s.2 == "recv").count() == 1, "nobody receives any more: {:?}", o.stuck);
            let waits = o.stuck.len() > 1;
            ensure!(!(asleep && want > 0 && waits), "the waiter was not woken: {:?}", o.stuck);
            ensure!(os.fs.lock().unwrap().sent.is_empty(), "a received value is sent again");
            Ok(want > 0)
        }
    });
    assert!(complete || cx.stopped());
}
fn main() {
    setup();
    kit::main("B03", "model_checking", |cx| {
        cx.rule("every datagram of the stated kinds, alone and in all sequences; non-trivial: a sequence with a whole message for the bus");
        let mut grams: Vec<Gram> = vec![];
        let mut core: Vec<usize> = vec![];
        let mut full = 0;
        cx.section("messages of other processes", || {
            let m3 = genuine(cx, 1, 3);
            let m5 = genuine(cx, 1, 5);
            let big = genuine(cx, 1, u64::MAX - 1);
            let other = genuine(cx, 2, 9);
            full = m5.len();
            let mut add = |keep: bool, what: String, data: Vec<u8>, from, val, maybe| {
                grams.push(Gram { what, data, from, val, maybe });
                if keep {
                    core.push(grams.len() - 1)
                }
            };
            add(true, "value 5".into(), m5.clone(), LOCAL, Some(5), None);
            add(true, "value 3".into(), m3.clone(), LOCAL, Some(3), None);
            add(true, "the largest value".into(), big.clone(), LOCAL, Some(u64::MAX - 1), None);
            add(false, "value 5 from 127.9.8.7".into(), m5.clone(), [127, 9, 8, 7], Some(5), None);
            add(true, "value 9 of another bus".into(), other.clone(), LOCAL, None, None);
            for from in [[192, 168, 0, 7], [10, 0, 0, 1], [0, 0, 0, 0], [239, 255, 50, 10], [126, 255, 255, 255], [128, 0, 0, 1]] {
                add(from[0] == 192, format!("value 5 from {from:?}"), m5.clone(), from, None, None);
            }
            for n in 0..m5.len() {
                add([0, 7, 8, 12, m5.len() - 1].contains(&n), format!("the first {n} bytes of value 5"), m5[..n].to_vec(), LOCAL, None, None);
                add(false, format!("value 5 without its first {} bytes", n + 1), m5[n + 1..].to_vec(), LOCAL, None, None);
            }
            for extra in 1..=44 {
                for b in [0u8, 255] {
                    add(extra == 1 && b == 255, format!("value 5 and {extra} bytes {b}"), [m5.clone(), vec![b; extra]].concat(), LOCAL, None, Some(5));
                }
            }
            for n in (0..=64).chain([255, 256, 1024, 65_507]) {
                for b in [0u8, 255, b'1'] {
                    add(n == 20 && b == 255, format!("{n} bytes {b}"), vec![b; n], LOCAL, None, None);
                }
            }
            // whoever sends it, the receiver has the process id 1000
            for bit in 0..22 {
                add(bit == 16, format!("value 5 of the process {}", 1000 ^ 1 << bit), genuine_of(cx, 1, 5, 1000 ^ 1 << bit), LOCAL, Some(5), None);
            }
            for pid in [1, 2, 999, 4_194_303] {
                add(false, format!("value 5 of the process {pid}"), genuine_of(cx, 1, 5, pid), LOCAL, Some(5), None);
            }
            // values that differ in single bits
            for bit in 0..64 {
                add(false, format!("the value 2^{bit}"), genuine(cx, 1, 1 << bit), LOCAL, Some(1 << bit), None);
            }
            // one byte of the bus changed: another bus
            for i in 0..8 {
                for bit in 0..8 {
                    let mut d = m5.clone();
                    d[i] ^= 1 << bit;
                    add(false, format!("value 5 with bit {bit} of byte {i} changed"), d, LOCAL, None, None);
                }
            }
        });
        let get = |i: &usize| &grams[*i];
        cx.section("one datagram, then a message", || {
            for g in &grams {
                for asleep in [false, true] {
                    receive(cx, &[g], asleep);
                    receive(cx, &[g, &grams[0]], asleep);
                    receive(cx, &[&grams[1], g, &grams[0]], asleep);
                }
            }
        });
        cx.section("all sequences", || {
            let depth = cx.pick(3, 4);
            for len in 1..=depth {
                enumerate_seqs(core.len(), len, &mut |s| receive(cx, &s.iter().map(|i| get(&core[*i])).collect::<Vec<_>>(), true));
            }
        });
        cx.bound("message length", full as u64);
        cx.assume("the code under test is the real library; the sockets below it are stand-ins that deliver every datagram in order");
    })
}
fn enumerate_seqs(n: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    let mut s = vec![0; len];
    loop {
        f(&s);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            s[i] += 1;
            if s[i] < n {
                break;
            }
            s[i] = 0;
        }
    }
}
