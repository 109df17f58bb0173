//! Watches: every history of saving, watching, stopping and processing, also from inside callbacks, has the effect
//! of the reference model, for every handler.
use c_lk::*;
use kit::*;

fn universe() -> Vec<Pkt> {
    let l = |d: &str, s: &str, t: u64| make(link_spec(1, d, s, t, b""), None);
    vec![l("a", "/a", 7), l("a", "/a", 6), l("b", "/a", 5), make(data_spec(b"z"), None), l("a", "/b", 9)]
}
fn only_a() -> Rule {
    rule("domain", "=", "a")
}
const START: u64 = 1000;

fn play(cx: &Cx, pkts: &[Pkt], before: &[usize], ops: &[Op]) -> CaseResult {
    let _clock = vclock::freeze(START);
    let dir = Scratch::new();
    let env = dir.open().map_err(|e| e.to_string())?;
    let mut m = Model::new(pkts, START);
    if !before.is_empty() {
        m.save(before);
        vclock::set(m.clock);
        let l: Vec<&dyn NetPkt> = before.iter().map(|p| &pkts[*p].net as &dyn NetPkt).collect();
        env.save_dyn_iter(l.into_iter()).map_err(|e| e.to_string())?;
    }
    m.open();
    let r = Real::new(pkts, env);
    let end = [Op::Process, Op::Stop("", true)];
    for (i, o) in ops.iter().chain(&end).enumerate() {
        m.op(format!("{i}"), 0, o);
        r.op(format!("{i}"), o);
        if r.ids() != m.ids() {
            return bad("registered ids", format!("after {i}: registered are {:?} instead of {:?}", r.ids(), m.ids()));
        }
    }
    cx.states(ops.len() as u64 + 2);
    cx.transitions(m.steps);
    cx.traces(1);
    compare_traces(&m.out, &r.take())?;
    Ok(m.out.values().flatten().any(|e| matches!(e, Ev::Got(..))))
}
fn flat_ops(i: u64) -> Vec<Op> {
    let s = Script::default;
    let mut v = vec![
        Op::Save(vec![0]),
        Op::Save(vec![1, 2, 3]),
        Op::Save(vec![2, 4, 0]),
        Op::Process,
        w("a", "tree-desc", vec![], s()),
        w("ab", "log-asc", vec![only_a(), n32("i", "<", 2)], s()),
        w("b", "log-desc", vec![n32("i_new", "<", 1)], s()),
        Op::Stop("a", false),
        Op::Stop("a", true),
        w("b", "hash-asc", vec![n32("i_db", "<", 1), recv("<", START + 2)], Script { break_at: Some(2), ..s() }),
        w("a", "log-asc", vec![n32("i_db", "<", 0), n32("i_new", "=", 1)], s()),
        Op::Clock(START + 50),
    ];
    if i > 0 {
        v.extend([
            w("ab", "tree-asc", vec![n32("i_branch", "<", 1), recv(">", START + 10)], s()),
            w("b", "log-asc", vec![n32("i_new", "<", 0)], s()),
            w("a", "log-asc", vec![rule("recv", "<=", (START + 50).to_be_bytes())], s()),
            Op::Stop("b", true),
            w("", "log-asc", vec![], s()),
        ]);
    }
    v
}
fn leaf_cfgs() -> Vec<Op> {
    let s = Script::default;
    vec![
        w("b", "log-asc", vec![], s()),
        w("a", "log-asc", vec![], s()),
        w("ab", "tree-asc", vec![n32("i", "<", 1)], Script { on: vec![(1, vec![Op::Stop("a", true)])], ..s() }),
        w("0", "log-asc", vec![n32("i_db", "<", 0)], Script { on: vec![(1, vec![Op::Stop("0", false)])], ..s() }),
        w("b", "log-desc", vec![], Script { on: vec![(1, vec![Op::Save(vec![4]), Op::Process])], ..s() }),
        w("a", "log-asc", vec![n32("i_db", "<", 0)], Script { on_stop: vec![Op::Stop("b", false)], ..s() }),
    ]
}
fn inner_ops() -> Vec<Op> {
    let mut v = vec![Op::Save(vec![2]), Op::Process, Op::Stop("a", false), Op::Stop("b", false), Op::Stop("", true)];
    v.extend(leaf_cfgs());
    v
}
fn scripts(thorough: bool) -> Vec<Script> {
    let o = inner_ops();
    let mut seqs: Vec<Vec<Op>> = o.iter().map(|o| vec![o.clone()]).collect();
    for a in &o {
        for b in &o {
            seqs.push(vec![a.clone(), b.clone()]);
            for c in &o {
                seqs.push(vec![a.clone(), b.clone(), c.clone()]);
                if thorough {
                    seqs.extend(o.iter().map(|d| vec![a.clone(), b.clone(), c.clone(), d.clone()]))
                }
            }
        }
    }
    let mut v = vec![];
    // one thing on the first packet, another on the second
    for a in seqs.iter().filter(|s| s.len() <= 2) {
        for b in seqs.iter().filter(|s| s.len() == 1) {
            v.push(Script { on: vec![(1, a.clone()), (2, b.clone())], break_at: None, on_stop: vec![] });
        }
    }
    for s in seqs {
        for break_at in [None, Some(1), Some(2)] {
            v.push(Script { on: vec![(1, s.clone())], break_at, on_stop: vec![] });
        }
        v.push(Script { on: vec![(2, s.clone())], break_at: None, on_stop: vec![] });
        v.push(Script { on: vec![], break_at: Some(2), on_stop: s.clone() });
        v.push(Script { on: vec![(1, vec![s[0].clone()])], break_at: None, on_stop: s });
    }
    v
}
/// what goes on around the watch with the script
fn templates(t: usize, a: &Script) -> (Vec<usize>, Vec<Op>) {
    let s = Script::default;
    let me = |rules: Vec<Rule>| w("a", "log-asc", rules, a.clone());
    let b = || w("b", "log-asc", vec![n32("i_db", "<", 0)], s());
    match t {
        // reads the database
        0 => (vec![0, 1], vec![me(vec![]), Op::Save(vec![3]), Op::Process]),
        // only new packets, with others around
        1 => (vec![], vec![w("0", "log-asc", vec![], s()), me(vec![n32("i_db", "<", 0)]), b(), Op::Save(vec![0, 1]), Op::Process, Op::Save(vec![3])]),
        // stopped by another
        2 => (vec![0], vec![me(vec![]), b(), Op::Save(vec![1]), Op::Process, Op::Stop("a", false), Op::Save(vec![3]), Op::Process]),
        // replaced
        3 => (vec![0], vec![me(vec![]), Op::Save(vec![1]), w("a", "log-desc", vec![], s()), Op::Process, Op::Save(vec![3])]),
        // finished by its limit
        4 => (vec![0], vec![b(), me(vec![n32("i_new", "<", 2)]), Op::Save(vec![1, 3]), Op::Process, Op::Save(vec![4])]),
        // finished by the packets there are
        5 => (vec![0, 1], vec![b(), me(vec![n32("i", "<", 2)]), Op::Save(vec![3]), Op::Process]),
        // a range is stopped
        6 => (vec![0], vec![w("ab", "log-asc", vec![], s()), me(vec![]), Op::Save(vec![1]), b(), Op::Process, Op::Stop("a", true), Op::Process]),
        // limited by the time
        _ => (vec![0], vec![b(), me(vec![recv("<", START + 31)]), Op::Save(vec![1]), Op::Process, Op::Save(vec![3, 4]), Op::Process]),
    }
}
const TEMPLATES: usize = 8;

fn main() {
    kit::main("W01", "model_checking", |cx| {
        let pkts = &universe();
        cx.rule("the model: a log, what was processed, the watches by id; a watch gets the matching packets of the database in the order of its mode, then each new one once in the order of the log, until it breaks, its limits are used up, or it is stopped or replaced; requests made inside a callback take effect when it is done");
        cx.assume("LMDB, the clock and the bus are the stand-ins of the D, Q checks; one runtime per database; some time passes before each save");
        let depth = cx.pick(5, 6);
        for set in 0..2u64 {
            let n_ops = flat_ops(set).len() as u64;
            let d = if set == 0 { depth } else { depth - 1 };
            let mut n = 0;
            cx.section(if set == 0 { "histories" } else { "histories with more kinds of watches" }, || {
                for k in 1..=d {
                    let c = n_ops.pow(k);
                    n += c;
                    cx.par(c, |i| {
                        let all = flat_ops(set);
                        let ops: Vec<Op> = nth_digits(n_ops as usize, k as usize, i).into_iter().map(|d| all[d].clone()).collect();
                        cx.case_k(b"", &|| show_ops(&ops), || play(cx, pkts, &[], &ops));
                    });
                }
            });
            cx.bound(format!("operations in the histories ({set})"), format!("{n_ops} kinds, up to {d} ({n})"));
        }
        cx.section("a database with packets", || {
            let n_ops = flat_ops(1).len() as u64;
            let c = n_ops.pow(depth - 1);
            cx.par(c, |i| {
                let all = flat_ops(1);
                let ops: Vec<Op> = nth_digits(n_ops as usize, depth as usize - 1, i).into_iter().map(|d| all[d].clone()).collect();
                cx.case_k(b"", &|| format!("[0, 1] {}", show_ops(&ops)), || play(cx, pkts, &[0, 1], &ops));
            });
        });
        let thorough = !cx.quick();
        let ns = scripts(thorough).len() as u64;
        cx.bound("scripts of callbacks", format!("{ns} in {TEMPLATES} histories, watches made by callbacks up to {DEPTH} deep"));
        cx.section("callbacks that use the runtime", || {
            cx.par(ns.div_ceil(16), |c| {
                let all = scripts(thorough);
                for s in all.iter().skip(c as usize * 16).take(16) {
                    for t in 0..TEMPLATES {
                        let (before, ops) = templates(t, s);
                        cx.case_k(b"", &|| format!("{before:?} {}", show_ops(&ops)), || play(cx, pkts, &before, &ops));
                    }
                }
            });
        });
    })
}
