//! The value of a bus only grows, reaches every process, and wakes who waits for it.
use c_bus::*;
use ipcbus::ProcBus;
use kit::*;
use sched::{explore, Config};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Emit(u64),
    Val,
    Wait,
    WaitUntil,
    /// a deadline of a day
    WaitLong,
    WaitAsync,
    /// wait for a value above this one
    After(u64),
    AfterAsync(u64),
}
use Do::*;
#[derive(Clone, Debug)]
struct Scene {
    procs: usize,
    /// (process, how it waits): asleep before anything else happens
    waiters: Vec<(usize, Do)>,
    /// (process, what it does)
    threads: Vec<(usize, Vec<Do>)>,
    send_faults: usize,
    preemptions: Option<usize>,
    /// the bus and its port
    bus: (u64, u16),
}
#[derive(Clone, Debug)]
struct Ev {
    thread: usize,
    what: Do,
    got: Option<u64>,
}
struct Wake(AtomicBool);
impl std::task::Wake for Wake {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}
fn block_on(f: impl std::future::Future<Output = u64>) -> Result<u64, sched::Over> {
    let wk = Arc::new(Wake(false.into()));
    let waker: std::task::Waker = wk.clone().into();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Ok(v);
        }
        let w2 = wk.clone();
        sched::wait_for(sched::ALL, "asleep", move || w2.0.load(SeqCst))?;
        wk.0.store(false, SeqCst);
    }
}
fn scene(cx: &Cx, name: &str, s: &Scene) -> u64 {
    let cfg = Config { preemptions: s.preemptions, ..Default::default() };
    let (id, port) = s.bus;
    let (n, complete) = explore(cx, name, &cfg, |w| {
        let idfile = id.to_be_bytes();
        let map = record(id, port);
        let os = vos::install(w, vos::Cfg { faults: s.send_faults, files_local: true, ..Default::default() }, &[("/vdb/id", &idfile), (MAP, &map)]);
        let buses: Arc<Mutex<Vec<Arc<ProcBus>>>> = Default::default();
        let evs: Arc<Mutex<Vec<Ev>>> = Default::default();
        {
            let (w2, s, buses, evs) = (w.clone(), s.clone(), buses.clone(), evs.clone());
            w.spawn(0, move || {
                for p in 0..s.procs {
                    let r = sched::as_one(p, || {
                        let b = ProcBus::new(std::path::Path::new("/vdb")).unwrap();
                        b.init();
                        b.init();
                        b
                    });
                    let Ok(b) = r else { return };
                    buses.lock().unwrap().push(Arc::new(b));
                }
                let buses = buses.lock().unwrap().clone();
                let act = |thread: usize, p: usize, script: Vec<Do>| {
                    let (bus, evs) = (buses[p].clone(), evs.clone());
                    w2.spawn(p, move || {
                        for d in script {
                            let got = match d {
                                Emit(v) => Some(bus.emit(v)),
                                Val => Some(bus.val()),
                                Wait => bus.next_deadline(None),
                                WaitUntil => bus.next_deadline(Some(std::time::Instant::now())),
                                WaitLong => bus.next_deadline(Some(std::time::Instant::now() + std::time::Duration::from_secs(86_400))),
                                After(v) => bus.next_deadline_after(v, None),
                                AfterAsync(v) => match block_on(bus.next_async_after(v)) {
                                    Ok(v) => Some(v),
                                    Err(_) => return,
                                },
                                WaitAsync => match block_on(bus.next_async()) {
                                    Ok(v) => Some(v),
                                    Err(_) => return,
                                },
                            };
                            if sched::gone() {
                                return;
                            }
                            sched::note(|| format!("process {p} thread {thread} {d:?}: {got:?}"));
                            evs.lock().unwrap().push(Ev { thread, what: d, got });
                        }
                    })
                };
                let flags: Vec<_> = s.waiters.iter().enumerate().map(|(i, (p, d))| sched::blocked(&w2, act(i, *p, vec![*d]))).collect();
                if !flags.is_empty() && sched::wait_for(sched::ALL, "the waiters", move || flags.iter().all(|f| f.load(SeqCst))).is_err() {
                    return;
                }
                for (i, (p, t)) in s.threads.iter().enumerate() {
                    act(s.waiters.len() + i, *p, t.clone());
                }
            });
        }
        let s = s.clone();
        move |o| {
            let evs = evs.lock().unwrap();
            let emitted: Vec<u64> = s.threads.iter().flat_map(|t| t.1.iter()).filter_map(|d| if let Emit(v) = d { Some(*v) } else { None }).collect();
            let max = emitted.iter().copied().max().unwrap_or(0);
            ensure!(o.panics.is_empty(), "panicked: {:?}", o.panics);
            let asleep: Vec<_> = o.stuck.iter().filter(|s| s.2 != "recv").collect();
            ensure!(asleep.is_empty(), "never woken: {asleep:?} (thread, process, waiting for)");
            ensure!(o.stuck.len() == s.procs, "a receiving thread is gone or doubled: {:?}", o.stuck);
            // what a thread sees of its process never goes back
            for t in 0..s.threads.len() + s.waiters.len() {
                let mut seen = 0;
                for e in evs.iter().filter(|e| e.thread == t) {
                    let Some(v) = e.got else {
                        ensure!(e.what == WaitUntil, "no value");
                        continue;
                    };
                    // nobody else emits anything: only the deadline can have ended it
                    if e.what == WaitUntil {
                        let others = s.threads.iter().enumerate().any(|(i, th)| i + s.waiters.len() != t && th.1.iter().any(|d| matches!(d, Emit(_))));
                        ensure!(others && v > 0, "a deadline passed without an emit, but the wait gives {v}");
                    }
                    ensure!(v == 0 || emitted.contains(&v), "the value {v} was never emitted");
                    // everything up to that value was over and done with: only what is larger ends the wait
                    if let After(a) | AfterAsync(a) = e.what {
                        let (mine, others): (Vec<_>, Vec<_>) = s.threads.iter().enumerate().partition(|(i, _)| i + s.waiters.len() == t);
                        let emits = |v: &[(usize, &(usize, Vec<Do>))], f: &dyn Fn(u64) -> bool| v.iter().flat_map(|(_, th)| th.1.iter()).all(|d| !matches!(d, Emit(x) if !f(*x)));
                        if emits(&others, &|x| x > a) && emits(&mine, &|x| x <= a) {
                            ensure!(v > a, "a wait for more than {a} gives {v}");
                        }
                    }
                    match e.what {
                        Emit(own) => {
                            ensure!(v >= own, "emit({own}) gives {v}");
                            seen = seen.max(v);
                        }
                        _ => {
                            ensure!(v >= seen, "the value goes back from {seen} to {v}");
                            seen = v
                        }
                    }
                    ensure!(t >= s.waiters.len() || v > 0 || emitted.contains(&0), "woken without a value");
                }
            }
            let lost = os.fs.lock().unwrap().failed.clone();
            ensure!(os.fs.lock().unwrap().left_machine.is_empty(), "another machine can get what is sent: {:?}", os.fs.lock().unwrap().left_machine);
            for (p, b) in buses.lock().unwrap().iter().enumerate() {
                let own = s.threads.iter().filter(|t| t.0 == p).flat_map(|t| t.1.iter()).filter_map(|d| if let Emit(v) = d { Some(*v) } else { None }).max().unwrap_or(0);
                let want = if lost.is_empty() { max } else { own };
                let v = b.val();
                ensure!(v >= want && v <= max, "process {p} ends with the value {v}, emitted was {max}");
            }
            Ok(o.log.iter().any(|l| l.contains("receives")) || s.procs == 1)
        }
    });
    assert!(complete || cx.stopped());
    n
}
fn main() {
    setup();
    kit::main("B02", "model_checking", |cx| {
        cx.rule("every interleaving of the atomic operations, notifications, sends and receives of the stated threads and processes; non-trivial: at least one message arrives at another process, or there is only one process");
        let run = |kind: &str, s: Scene| {
            let name = format!("{kind}: asleep {:?}, then {:?}, {} processes, {} failing sends, preemptions {:?}", s.waiters, s.threads, s.procs, s.send_faults, s.preemptions);
            cx.section(&name.clone(), || {
                let n = scene(cx, &name, &s);
                if std::env::var("VERBOSE").is_ok() {
                    eprintln!("{n} {name}")
                }
            })
        };
        let sc = |procs, waiters: &[(usize, Do)], threads: &[(usize, &[Do])]| Scene { procs, waiters: waiters.to_vec(), threads: threads.iter().map(|(p, t)| (*p, t.to_vec())).collect(), send_faults: 0, preemptions: None, bus: (1, 10502) };
        run("values", sc(1, &[], &[(0, &[Emit(1), Emit(2)]), (0, &[Val, Val])]));
        run("values", sc(1, &[], &[(0, &[Emit(2)]), (0, &[Emit(1)])]));
        run("values", sc(1, &[], &[(0, &[Emit(2)]), (0, &[Emit(1)]), (0, &[Val, Val])]));
        run("values", sc(2, &[], &[(0, &[Emit(2)]), (1, &[Emit(1)])]));
        run("values", sc(2, &[], &[(0, &[Emit(1), Emit(2)]), (1, &[Val, Val])]));
        run("waking", sc(1, &[(0, Wait)], &[(0, &[Emit(1)])]));
        run("waking", sc(1, &[(0, Wait), (0, Wait)], &[(0, &[Emit(1)])]));
        run("waking", sc(1, &[(0, Wait)], &[(0, &[Emit(2)]), (0, &[Emit(1)])]));
        run("waking", sc(1, &[(0, WaitAsync)], &[(0, &[Emit(1)])]));
        // who sleeps is woken even when the value stays the same
        run("waking", sc(1, &[(0, Wait), (0, WaitAsync)], &[(0, &[Emit(0)])]));
        run("waking", sc(2, &[(1, Wait), (0, WaitLong)], &[(0, &[Emit(0)])]));
        run("deadlines", sc(1, &[], &[(0, &[WaitUntil])]));
        run("deadlines", sc(1, &[(0, WaitLong)], &[(0, &[Emit(1)])]));
        run("deadlines", sc(2, &[(1, WaitLong), (0, WaitLong)], &[(0, &[Emit(1)])]));
        run("deadlines", sc(2, &[(1, WaitLong)], &[(0, &[Emit(2)]), (1, &[Emit(1)])]));
        run("deadlines", sc(1, &[], &[(0, &[Emit(1), WaitUntil, WaitUntil])]));
        run("deadlines", sc(1, &[], &[(0, &[WaitUntil, WaitUntil]), (0, &[Emit(1)])]));
        run("deadlines", sc(2, &[], &[(0, &[Emit(1)]), (1, &[WaitUntil, Val])]));
        run("deadlines", sc(2, &[], &[(0, &[Emit(1), WaitUntil]), (1, &[Val])]));
        run("waking", sc(1, &[(0, WaitAsync)], &[(0, &[WaitUntil, Val]), (0, &[Emit(1)])]));
        run("waking", sc(2, &[(1, Wait)], &[(0, &[Emit(1)])]));
        run("waking", sc(2, &[(1, WaitAsync), (0, Wait)], &[(0, &[Emit(1)])]));
        run("waking", sc(2, &[(1, Wait)], &[(0, &[Emit(2)]), (1, &[Emit(1)])]));
        run("waking", sc(3, &[(1, Wait), (2, WaitAsync)], &[(0, &[Emit(1)])]));
        // no emit goes unnoticed by who knows what it saw
        run("waiting after a value", sc(1, &[], &[(0, &[Emit(1)]), (0, &[After(0)])]));
        run("waiting after a value", sc(1, &[], &[(0, &[Emit(1)]), (0, &[AfterAsync(0)])]));
        run("waiting after a value", sc(2, &[], &[(0, &[Emit(1)]), (1, &[After(0)])]));
        run("waiting after a value", sc(2, &[], &[(0, &[Emit(1)]), (1, &[AfterAsync(0)]), (0, &[After(0)])]));
        run("waiting after a value", sc(2, &[], &[(0, &[Emit(1), Emit(2)]), (1, &[After(0), After(1)])]));
        run("waiting after a value", sc(1, &[], &[(0, &[Emit(1), After(1)]), (0, &[Emit(2)])]));
        run("waiting after a value", sc(1, &[], &[(0, &[Emit(1), AfterAsync(1)]), (0, &[Emit(2)])]));
        run("waiting after a value", sc(2, &[], &[(0, &[Emit(1), After(1)]), (1, &[Emit(2)])]));
        run("waiting after a value", sc(1, &[(0, After(0)), (0, AfterAsync(0))], &[(0, &[Emit(1)])]));
        run("sends fail", Scene { send_faults: 1, ..sc(2, &[(0, Wait)], &[(0, &[Emit(1), Emit(2)])]) });
        run("sends fail", Scene { send_faults: 1, ..sc(2, &[(0, Wait)], &[(0, &[Emit(1)])]) });
        run("sends fail", Scene { send_faults: 1, ..sc(2, &[(0, WaitAsync), (0, WaitLong)], &[(0, &[Emit(1)])]) });
        run("sends fail", Scene { send_faults: 1, ..sc(2, &[], &[(0, &[Emit(1)]), (0, &[After(0), Val])]) });
        run("sends fail", Scene { send_faults: 2, ..sc(2, &[(0, Wait), (1, Wait)], &[(0, &[Emit(1), Emit(2), Emit(3)])]) });
        run("sends fail", Scene { send_faults: 2, ..sc(2, &[], &[(0, &[Emit(1), Emit(2)]), (1, &[Val])]) });
        run("values", sc(3, &[], &[(0, &[Emit(2)]), (1, &[Emit(1)]), (2, &[Val])]));
        run("values", sc(2, &[], &[(0, &[Emit(2)]), (1, &[Emit(1)]), (1, &[Val, Val])]));
        run("values", sc(1, &[], &[(0, &[Emit(3)]), (0, &[Emit(2)]), (0, &[Emit(1)])]));
        run("values", sc(2, &[], &[(0, &[Emit(1), Emit(3)]), (1, &[Emit(2)])]));
        run("waking", sc(2, &[(0, Wait), (1, WaitAsync)], &[(0, &[Emit(2)]), (1, &[Emit(1)])]));
        run("values", Scene { preemptions: Some(0), ..sc(2, &[], &[(0, &[Emit(1), Emit(4)]), (1, &[Emit(3), Emit(2)]), (1, &[Val, Val])]) });
        cx.section("every kind of bus and port", || {
            let ids = (0..64).map(|b| 1u64 << b).chain([0, 255, 0x0102_0304_0506_0708, u64::MAX - 1, u64::MAX]);
            for (n, id) in ids.enumerate() {
                for port in [10501, 10502, 10503, 10751, 10752, 11_007, 16_384, 32_767, 32_768, 49_152, 65_279, 65_280, 65_534, 65_535].into_iter().chain([10_501 + n as u16]) {
                    let s = Scene { preemptions: Some(0), bus: (id, port), ..sc(2, &[(1, Wait)], &[(0, &[Emit(7)])]) };
                    scene(cx, &format!("bus {id:#x} on port {port}"), &s);
                }
            }
        });
        // the whole width of a value counts
        cx.section("large values", || {
            let vals = [1, 2, 255, 256, 65_535, 65_536, i32::MAX as u64, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 32) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
            for a in vals {
                for b in vals {
                    let s = Scene { preemptions: Some(0), ..sc(2, &[(1, Wait)], &[(0, &[Emit(a), Emit(b), Val]), (1, &[Val])]) };
                    scene(cx, &format!("{a} and then {b}"), &s);
                    let s = Scene { preemptions: Some(0), ..sc(2, &[], &[(0, &[Emit(a)]), (1, &[Emit(b), Val])]) };
                    scene(cx, &format!("{a} and {b}"), &s);
                }
            }
        });
        if !cx.quick() {
            run("waking", Scene { preemptions: Some(0), ..sc(2, &[(0, Wait), (1, Wait), (1, WaitAsync)], &[(0, &[Emit(2), Emit(3)]), (1, &[Emit(1), Val])]) });
            run("values", Scene { preemptions: Some(3), ..sc(1, &[], &[(0, &[Emit(3)]), (0, &[Emit(2), Emit(4)]), (0, &[Emit(1)])]) });
            run("values", Scene { preemptions: Some(3), ..sc(2, &[], &[(0, &[Emit(1), Emit(3)]), (1, &[Emit(2), Emit(4)])]) });
            run("values", Scene { preemptions: Some(2), ..sc(2, &[], &[(0, &[Emit(1), Emit(4)]), (1, &[Emit(3), Emit(2)]), (1, &[Val, Val])]) });
            run("waking", Scene { preemptions: Some(1), ..sc(2, &[(0, Wait), (1, Wait), (1, WaitAsync)], &[(0, &[Emit(2), Emit(3)]), (1, &[Emit(1), Val])]) });
            run("waking", Scene { preemptions: Some(0), ..sc(3, &[(0, Wait), (1, Wait), (2, WaitAsync)], &[(0, &[Emit(2), Emit(3)]), (1, &[Emit(1), Val])]) });
        }
        cx.assume("datagrams between the processes of one machine arrive in order and once, unless sending fails");
        cx.assume("the event primitive is a stand-in that follows its documentation: listeners registered before a notification are notified, each at most once; the standard library's atomics are sequentially consistent");
    })
}
