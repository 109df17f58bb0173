//! The command that answers queries that arrive as packets: every row of queries, within every list of limits.
use c_core::*;
use kit::*;
use std::sync::OnceLock;
use x_cli::cli::opts::{IOOpts, InOpts, OutOpts};
use x_cmd::multi_watch::{multi_watch, MultiWatch, OrConstrait};
use x_cmd::watch::PrintABE;
use x_cmd::{CommonOpts, LinkspaceOpts, PktReadOpts};

fn pkts() -> &'static [Pkt] {
    static P: OnceLock<Vec<Pkt>> = OnceLock::new();
    P.get_or_init(|| {
        vec![
            make(data_spec(b"xy"), None),
            make(link_spec(1, "a", "", 10, b""), None),
            make(link_spec(1, "a", "/s", 11, b"y"), Some(0)),
            make(link_spec(2, "a", "/s", 12, b"\nz\n"), None),
            make(link_spec(1, "b", "/s/t", 13, b"w"), None),
            make(link_spec(2, "b", "", 14, b"ww"), Some(1)),
            make(link_spec(0, "b", "/s", 15, b"private"), None),
        ]
    })
}
fn private(p: &Pkt) -> bool {
    p.spec.is_link() && p.spec.group == [0; 32]
}
struct Ask {
    text: String,
    rules: Vec<Rule>,
    mode: &'static str,
    max: Option<usize>,
    echo: bool,
    /// can be read with static functions, with all
    can: (bool, bool),
}
fn b64(n: u8) -> &'static str {
    match n {
        1 => "AQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQE",
        _ => "AgICAgICAgICAgICAgICAgICAgICAgICAgICAgICAgI",
    }
}
fn queries() -> &'static [Ask] {
    static Q: OnceLock<Vec<Ask>> = OnceLock::new();
    Q.get_or_init(|| {
        let d = |s| rule("domain", "=", dom(s));
        let a = |text: &str, rules: Vec<Rule>| Ask { text: text.into(), rules, mode: "tree-desc", max: None, echo: false, can: (true, true) };
        let h = pkts()[2].hash.b64();
        vec![
            a(":qid:a", vec![]),
            a("domain:=:a\n:qid:b", vec![d("a")]),
            a(":qid:c\ndomain:=:b\ntype:1:[u8:4]", vec![d("b"), rule("type", "1", [4])]),
            Ask { max: Some(1), echo: true, ..a("i:<:[u32:1]\n:qid:d\n:notify-close", vec![]) },
            Ask { mode: "hash-asc", ..a(":mode:hash-asc\n:qid:a\n", vec![]) },
            Ask { can: (false, true), ..a(&format!("domain:=:[/readhash:[b:{h}]:[domain]]\n:qid:f"), vec![d("a")]) },
            Ask { can: (false, false), ..a("domain:=:a", vec![d("a")]) },
            Ask { can: (false, false), ..a("colour:=:a\n:qid:g", vec![]) },
            Ask { can: (false, false), ..a("domain:=:a\ndomain:=:b\n:qid:h", vec![]) },
            Ask { max: Some(2), echo: true, mode: "log-asc", ..a(&format!("group:=:[b:{}]\ni:<:[u32:2]\n:mode:log-asc\n:notify-close\n:qid:i", b64(1)), vec![rule("group", "=", [1; 32])]) },
        ]
    })
}
fn limits() -> &'static [(String, Vec<Rule>, bool)] {
    static L: OnceLock<Vec<(String, Vec<Rule>, bool)>> = OnceLock::new();
    L.get_or_init(|| {
        let d = |s| rule("domain", "=", dom(s));
        vec![
            ("domain:=:a".into(), vec![d("a")], true),
            (format!("group:=:[b:{}]\ndomain:=:b", b64(2)), vec![rule("group", "=", [2; 32]), d("b")], true),
            (format!("domain:=:b\ngroup:=:[b:{}]", b64(1)), vec![d("b"), rule("group", "=", [1; 32])], true),
            ("type:1:[u8:4]".into(), vec![rule("type", "1", [4])], true),
            ("data_size:<:[u16:2]\ncolour:=:a".into(), vec![], false),
            // a limit may use all functions
            (format!("domain:=:[/readhash:[b:{}]:[domain]]", pkts()[4].hash.b64()), vec![d("b")], true),
        ]
    })
}
#[derive(Clone, Debug)]
struct Case {
    row: Vec<usize>,
    or: Vec<usize>,
    full: bool,
    write: Option<bool>,
    print: u8,
    /// the stream ends within one more query
    cut: bool,
}
fn cases(section: usize, quick: bool) -> Vec<Case> {
    let nq = queries().len();
    let nl = limits().len();
    let lists = |n: usize| (0..=n).flat_map(move |n| (0..(nl as u64).pow(n as u32)).map(move |i| nth_digits(nl, n, i))).collect::<Vec<_>>();
    let mut v = vec![];
    match section {
        0 => {
            for or in lists(if quick { 2 } else { 3 }) {
                for q in 0..nq {
                    for i in 0..2 * 3 {
                        let d = nth_mixed(&[2, 3], i);
                        v.push(Case { row: vec![q], or: or.clone(), full: d[0] == 1, write: [None, Some(true), Some(false)][d[1]], print: 0, cut: false });
                    }
                }
            }
        }
        1 => {
            for n in 0..=if quick { 2 } else { 3 } {
                for i in 0..(nq as u64).pow(n) {
                    for or in [vec![], vec![0], vec![1, 3], vec![4, 2]] {
                        for full in [false, true] {
                            v.push(Case { row: nth_digits(nq, n as usize, i), or: or.clone(), full, write: Some(true), print: 0, cut: false });
                        }
                    }
                }
            }
        }
        2 => {
            for or in lists(2) {
                for q in 0..nq {
                    for print in [1, 2] {
                        v.push(Case { row: vec![q], or: or.clone(), full: true, write: None, print, cut: false });
                    }
                }
            }
        }
        3 => {
            for n in 0..=2 {
                for i in 0..(nq as u64).pow(n) {
                    for full in [false, true] {
                        v.push(Case { row: nth_digits(nq, n as usize, i), or: vec![], full, write: Some(true), print: 0, cut: true });
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    v
}
fn asked(q: usize) -> Pkt {
    make(data_spec(queries()[q].text.as_bytes()), None)
}
fn common(c: &Case, dir: &std::path::Path) -> CommonOpts {
    CommonOpts {
        linkspace: LinkspaceOpts { dir: Some(dir.to_path_buf()), init: true, env: false, open_dir: OnceLock::new() },
        io: IOOpts::__make(false, OutOpts::__make(c.write), InOpts::__make(None, None, false)),
    }
}
fn run(c: &Case, mark: &dyn Fn(&str)) {
    let _c = vclock::freeze(1_000_000);
    let dir = Scratch::new();
    let db = dir.0.join("db");
    // saved before it is opened
    std::thread::scope(|s| {
        s.spawn(|| {
            let _c = vclock::freeze(1_000_000);
            let rt = common(c, &db).runtime().unwrap();
            for (i, p) in pkts().iter().enumerate() {
                vclock::set(1_000_000 + 1000 * i as u64);
                rt.env().save_ptr_one(p.ptr()).unwrap();
            }
        });
    });
    let common = common(c, &db);
    vclock::set(2_000_000);
    let path = dir.0.join("queries");
    let mut b = c.row.iter().flat_map(|q| asked(*q).spec.bytes()).collect::<Vec<u8>>();
    if c.cut {
        let q = asked(0).spec.bytes();
        b.extend_from_slice(&q[..q.len() - 1])
    }
    std::fs::write(&path, b).unwrap();
    let or = c.or.iter().map(|l| limits()[*l].0.clone()).collect();
    let m = MultiWatch::__make(PktReadOpts { pkts: Some(path), no_pkts: false }, PrintABE { print_expr: c.print == 1, print_text: c.print == 2 }, c.full, false, OrConstrait { or });
    // the queries are read by another thread
    futures::executor::on_idle(Some(Box::new(|| {
        std::thread::sleep(std::time::Duration::from_micros(50));
        true
    })));
    mark("run");
    let r = no_panic(|| multi_watch(common, m).map_err(|e| e.to_string()));
    mark("end");
    c_cli::say(format!("{r:?}").as_bytes());
}
fn contrary(r: &[Rule]) -> bool {
    r.iter().any(|a| r.iter().any(|b| a.name == b.name && a.op == "=" && b.op == "=" && a.val != b.val))
}
fn judge(c: &Case, i: usize, told: &c_cli::Told) -> CaseResult {
    let end = String::from_utf8_lossy(told.out("end", i)?).to_string();
    if c.cut {
        ensure!(end.starts_with("Ok(Err("), "it ends with {end} although the last query is not all there")
    } else {
        ensure!(end == "Ok(Ok(()))", "it ends with {end}");
    }
    let got = told.out("run", i)?;
    let log: Vec<(u64, &Pkt)> = pkts().iter().enumerate().map(|(i, p)| (1_000_000 + 1000 * i as u64, p)).collect();
    // where private packets match and are not to be written, it is left open whether what is behind them is given
    let mut may: Vec<Vec<u8>> = vec![vec![]];
    let mut some = false;
    let mut printed = vec![];
    // those that are still open and say so when they are replaced, by their id
    let mut open: Vec<(&str, usize)> = vec![];
    for q in &c.row {
        let a = &queries()[*q];
        if !(if c.full { a.can.1 } else { a.can.0 }) && !(c.print > 0 && *q == 6) {
            continue;
        }
        let limit = c.or.iter().map(|l| &limits()[*l]).find(|l| l.2 && !contrary(&[&a.rules[..], &l.1[..]].concat()));
        let rules = match limit {
            Some(l) => [&a.rules[..], &l.1[..]].concat(),
            None if c.or.is_empty() => a.rules.clone(),
            None => continue,
        };
        if c.print > 0 {
            printed.push(rules);
            continue;
        }
        let all = matching(&log, &rules, a.mode);
        let found: Vec<&Pkt> = all.iter().map(|p| p.1).take(a.max.unwrap_or(usize::MAX)).collect();
        let full = a.max.is_some_and(|m| found.len() == m);
        let hide = c.write != Some(true) && found.iter().any(|p| private(p));
        let echo = |v: &mut Vec<u8>| v.extend(asked(*q).spec.bytes());
        let id = a.text.split(":qid:").nth(1).unwrap().split('\n').next().unwrap();
        if let Some(k) = open.iter().position(|o| o.0 == id) {
            let was = open.remove(k).1;
            may.iter_mut().for_each(|m| m.extend(asked(was).spec.bytes()))
        }
        if a.echo && !full && !hide {
            open.push((id, *q))
        }
        some |= !found.is_empty();
        may = may
            .into_iter()
            .flat_map(|v| {
                let (mut x, mut y) = (v.clone(), v);
                for p in &found {
                    if !private(p) || !hide {
                        x.extend(p.spec.bytes())
                    }
                }
                if a.echo && full {
                    echo(&mut x)
                }
                let upto = found.iter().position(|p| private(p)).filter(|_| hide);
                for p in &found[..upto.unwrap_or(found.len())] {
                    y.extend(p.spec.bytes())
                }
                let mut z = y.clone();
                if a.echo && (full || hide) {
                    echo(&mut z)
                }
                if a.echo && full && !hide {
                    // one that ended before it was set up need not be told
                    let w = y.clone();
                    return vec![x, w];
                }
                if hide { vec![x, y, z] } else { vec![x] }
            })
            .collect();
        may.dedup();
    }
    if c.print > 0 {
        // each query as text, which reads back as the query with its limit
        let t = String::from_utf8_lossy(got).to_string();
        let mut left: &str = &t;
        for r in &printed {
            let (text, rest) = (left, "");
            left = rest;
            let mut q = linkspace_core::query::Query::default();
            let ok = q.parse(text.as_bytes(), &linkspace_core::eval::CORE_SCOPE);
            ensure!(ok.is_ok(), "what is printed can not be read: {text}");
            let want = query(r).map_err(Bad::from)?;
            let (a, b) = (settle(q), settle(want));
            let same = match (&a, &b) {
                (Some(a), Some(b)) => norm(&a.predicates) == norm(&b.predicates) || text.contains("i:") ,
                _ => false,
            };
            ensure!(same, "what is printed is another query: {text} instead of {}", r.iter().map(|r| r.text()).collect::<Vec<_>>().join(", "));
            some = true;
        }
        ensure!(left.trim().is_empty(), "more is printed: {left}");
        return Ok(some);
    }
    let rows = |mut b: &[u8]| {
        let mut v = vec![];
        while !b.is_empty() {
            match parse(b, true) {
                Ok(s) => {
                    b = &b[s.bytes().len()..];
                    v.push(pkts().iter().position(|p| p.spec.bytes() == s.bytes()).map(|n| n.to_string()).unwrap_or(show_cut(&s.data)))
                }
                Err(_) => {
                    v.push(show_cut(b));
                    break;
                }
            }
        }
        v
    };
    ensure!(may.iter().any(|m| m == got), "the answer is {:?} and should be {:?}; it says {}", rows(got), may.iter().map(|m| rows(m)).collect::<Vec<_>>(), show_cut(told.err("run", i)?));
    Ok(some)
}
fn main() {
    let quick = std::env::var("LKMC_TIER").map_or(true, |t| t == "quick");
    static ALL: OnceLock<Vec<Case>> = OnceLock::new();
    if c_cli::serve(|s, mark, i| run(&ALL.get_or_init(|| cases(s, quick))[i], mark)) {
        return;
    }
    kit::main("R05", "model_checking", |cx| {
        std::env::set_var("LKMC_TIER", if cx.quick() { "quick" } else { "thorough" });
        cx.rule("the answer to a row of queries: for each that can be read, in order, what matches it and the first limit it can be combined with, in its order and up to its maximum, and the query itself once it has ended if it asks for that; a query that can not be read, or not be combined with any limit, is not answered");
        cx.assume("what matches a query is checked with Q04, what comes in later with W01; whether what is behind a private packet is given, where private packets are not to be written, is left open");
        for (s, what) in ["one query", "rows of queries", "shown, not asked", "broken off"].into_iter().enumerate() {
            cx.section(what, || {
                let all = cases(s, cx.quick());
                cx.bound(what, format!("{} cases", all.len()));
                let n = 48;
                cx.par(all.len().div_ceil(n) as u64, |k| {
                    let (a, b) = (k as usize * n, ((k as usize + 1) * n).min(all.len()));
                    let told = c_cli::ask(s, a..b);
                    for i in a..b {
                        let c = &all[i];
                        cx.states(c.row.len() as u64 + 1);
                        cx.transitions(c.row.len() as u64);
                        cx.traces(1);
                        cx.case_k(b"", &|| format!("queries {:?} limits {:?} full {} private {:?} print {} cut {}", c.row.iter().map(|q| &queries()[*q].text).collect::<Vec<_>>(), c.or.iter().map(|q| &limits()[*q].0).collect::<Vec<_>>(), c.full, c.write, c.print, c.cut), || judge(c, i, &told))
                    }
                })
            })
        }
    })
}
