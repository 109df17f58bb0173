//! The command that gives what is stored and matches: every place, list of options, order and destination.
use c_core::*;
use core_::matcher::WatchEntry;
use kit::*;
use std::sync::OnceLock;
use x_cli::cli::opts::{IOOpts, InOpts, OutOpts};
use x_cmd::watch::{watch, CLIQuery, DGPDWatchCLIOpts, PrintABE};
use x_cmd::{CommonOpts, LinkspaceOpts};
use x_cli::predicate_aliases::{ExtWatchCLIOpts, PredicateAliases};

fn pkts() -> &'static [Pkt] {
    static P: OnceLock<Vec<Pkt>> = OnceLock::new();
    P.get_or_init(|| {
        vec![
            make(data_spec(b"xy"), None),
            make(link_spec(1, "a", "", 10, b""), None),
            make(link_spec(1, "a", "/s", 14, b"y"), Some(0)),
            make(link_spec(1, "a", "/s", 12, b"\nz\n"), None),
            make(link_spec(1, "a", "/s", 12, b"same stamp"), None),
            make(link_spec(1, "a", "/s/t", 13, b"w"), None),
            make(link_spec(2, "a", "/s/t/u", 9, b"ww"), Some(1)),
            make(link_spec(1, "a", "/st", 11, b"s"), None),
            make(link_spec(0, "a", "/s", 15, b"private"), None),
            make(link_spec(1, "b", "/s", 16, b"b"), None),
            make(data_spec(b""), None),
        ]
    })
}
fn private(p: &Pkt) -> bool {
    p.spec.is_link() && p.spec.group == [0; 32]
}
struct Place {
    text: &'static str,
    group: u8,
    domain: &'static str,
    space: &'static [&'static [u8]],
    below: Option<usize>,
}
const PLACES: [Place; 7] = [
    Place { text: "a:[b:AQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQE]:/s", group: 1, domain: "a", space: &[b"s"], below: Some(0) },
    Place { text: "a:[b:AQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQE]:/s:*", group: 1, domain: "a", space: &[b"s"], below: Some(1) },
    Place { text: "a:[b:AQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQE]::**", group: 1, domain: "a", space: &[], below: None },
    Place { text: "a:[b:AQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQE]", group: 1, domain: "a", space: &[], below: Some(0) },
    Place { text: "a:[b:AgICAgICAgICAgICAgICAgICAgICAgICAgICAgICAgI]:/s/t:3", group: 2, domain: "a", space: &[b"s", b"t"], below: Some(3) },
    Place { text: "a:[#:0]:/s:**", group: 0, domain: "a", space: &[b"s"], below: None },
    Place { text: "c:[#:pub]::**", group: 9, domain: "c", space: &[], below: Some(9) },
];
fn at(p: &Place, k: &Pkt) -> bool {
    let s = &k.spec;
    let space: Vec<Vec<u8>> = p.space.iter().map(|c| c.to_vec()).collect();
    s.is_link() && s.domain[..] == dom(p.domain)[..] && s.group == [p.group; 32] && s.space.starts_with(&space) && p.below.map_or(true, |b| s.space.len() <= space.len() + b)
}
/// a list of rules, what it means, whether it is about nothing but where a packet is
fn exprs() -> &'static [(Vec<String>, Vec<Rule>)] {
    static E: OnceLock<Vec<(Vec<String>, Vec<Rule>)>> = OnceLock::new();
    E.get_or_init(|| {
        let h = &pkts()[3].hash;
        vec![
            (vec![], vec![]),
            (vec!["data_size:<:[u16:2]".into()], vec![rule("data_size", "<", [0, 2])]),
            (vec![format!("hash:=:[b:{}]", h.b64())], vec![rule("hash", "=", h.0)]),
            (vec!["create:>:[u64:11]".into(), "domain:=:a".into()], vec![rule("create", ">", 11u64.to_be_bytes()), rule("domain", "=", dom("a"))]),
            (vec!["recv:<:[u64:1004000]".into()], vec![rule("recv", "<", 1_004_000u64.to_be_bytes())]),
            // nothing is both
            (vec!["domain:=:a".into(), "domain:=:b".into()], vec![rule("domain", "=", dom("a")), rule("domain", "=", dom("b"))]),
            (vec!["colour:=:a".into()], vec![]),
            (vec![":other:x".into()], vec![]),
        ]
    })
}
const NEVER: [usize; 2] = [5, 6];
const MODES: [&str; 6] = ["tree-desc", "tree-asc", "hash-asc", "hash-desc", "log-asc", "log-desc"];
const WRITE: [&[&str]; 6] = [&["file:one"], &["file:one", "file:two"], &["null", "file:one"], &[], &["stdout"], &["file:one", "db"]];
#[derive(Clone, Debug)]
struct Case {
    place: Option<usize>,
    bare: bool,
    exprs: usize,
    signed: u8,
    max: Option<u32>,
    max_db: Option<u32>,
    max_branch: Option<u32>,
    db_only: bool,
    /// none: what is asked for when nothing is
    mode: Option<usize>,
    /// the order is also a statement
    said: bool,
    print: u8,
    write: usize,
    private: Option<bool>,
}
const BASE: Case = Case { place: None, bare: true, exprs: 0, signed: 0, max: None, max_db: None, max_branch: None, db_only: true, mode: Some(0), said: false, print: 0, write: 0, private: Some(true) };
fn cases(section: usize, quick: bool) -> Vec<Case> {
    let mut v = vec![];
    let np = PLACES.len();
    let ne = exprs().len();
    let place = |d: usize| (d.checked_sub(1).map(|d| d % np), d == 0 || d > np);
    let upto = |d: usize| [None, Some(1), Some(2), Some(3), Some(0)][d];
    match section {
        // what matches, in which order
        0 => {
            for i in 0..(np * 2 + 1) as u64 * ne as u64 * 3 * 6 * 5 {
                let d = nth_mixed(&[np * 2 + 1, ne, 3, 6, 5], i);
                let (p, bare) = place(d[0]);
                v.push(Case { place: p, bare, exprs: d[1], signed: d[2] as u8, mode: Some(d[3]), max: upto(d[4]), ..BASE });
            }
        }
        // up to how many
        1 => {
            for i in 0..(np + 1) as u64 * 6 * 5 * 5 * 5 * 2 {
                let d = nth_mixed(&[np + 1, 6, 5, 5, 5, 2], i);
                let (p, bare) = place(d[0]);
                if quick && d[2] > 0 && d[3] > 0 && d[4] > 0 {
                    continue;
                }
                v.push(Case { place: p, bare, mode: Some(d[1]), max: upto(d[2]), max_db: upto(d[3]), max_branch: upto(d[4]), db_only: d[5] == 1, ..BASE });
            }
        }
        // where to, shown
        2 => {
            for i in 0..(np + 1) as u64 * 3 * 3 * 6 * 3 * 2 * 7 * 2 {
                let d = nth_mixed(&[np + 1, 3, 3, 6, 3, 2, 7, 2], i);
                let (p, bare) = place(d[0]);
                if d[6] == 6 && d[7] == 1 || quick && d[6] > 2 && d[6] < 6 {
                    continue;
                }
                v.push(Case { place: p, bare, exprs: [0, 1, 7][d[1]], print: d[2] as u8, write: d[3], private: [None, Some(true), Some(false)][d[4]], max: [None, Some(2)][d[5]], mode: (d[6] < 6).then_some(d[6]), said: d[7] == 1, ..BASE });
            }
        }
        _ => unreachable!(),
    }
    // without an end it waits for others
    v.retain(|c| c.db_only || c.print > 0 || { let f = found(c); hopeless(c) || c.max_db != Some(0) && c.max_branch != Some(0) && c.max.is_some_and(|m| f.len() == m as usize) });
    v
}
fn hopeless(c: &Case) -> bool {
    c.max == Some(0) || c.db_only && (c.max_db == Some(0) || c.max_branch == Some(0)) || NEVER.contains(&c.exprs) || c.exprs == 3 && !c.bare && c.place.is_some_and(|p| PLACES[p].domain != "a")
}
fn mode(c: &Case) -> &'static str {
    MODES[c.mode.unwrap_or(0)]
}
fn log() -> Vec<(u64, &'static Pkt)> {
    pkts().iter().enumerate().map(|(i, p)| (1_000_000 + 1000 * i as u64, p)).collect()
}
fn rules(c: &Case) -> Vec<Rule> {
    let mut r = exprs()[c.exprs].1.clone();
    if let Some(m) = c.max_db {
        r.push(rule("i_db", "<", m.to_be_bytes()))
    }
    if let Some(m) = c.max_branch {
        r.push(rule("i_branch", "<", m.to_be_bytes()))
    }
    r
}
fn found(c: &Case) -> Vec<&'static Pkt> {
    if hopeless(c) {
        return vec![];
    }
    let place = c.place.filter(|_| !c.bare);
    let log: Vec<_> = log().into_iter().filter(|(_, p)| place.map_or(true, |n| at(&PLACES[n], p))).filter(|(_, p)| c.signed == 0 || (p.spec.kind & 4 != 0) == (c.signed == 1)).collect();
    matching(&log, &rules(c), mode(c)).into_iter().map(|p| p.1).take(c.max.map_or(usize::MAX, |m| m as usize)).collect()
}
fn common(c: &Case, dir: &std::path::Path) -> CommonOpts {
    CommonOpts {
        linkspace: LinkspaceOpts { dir: Some(dir.to_path_buf()), init: true, env: false, open_dir: OnceLock::new() },
        io: IOOpts::__make(false, OutOpts::__make(c.private), InOpts::__make(None, None, false)),
    }
}
fn run(c: &Case, mark: &dyn Fn(&str)) {
    let _c = vclock::freeze(1_000_000);
    let dir = Scratch::new();
    let db = dir.0.join("db");
    // saved before it is opened
    std::thread::scope(|s| {
        s.spawn(|| {
            let _c = vclock::freeze(1_000_000);
            let rt = common(c, &db).runtime().unwrap();
            for (i, p) in pkts().iter().enumerate() {
                vclock::set(1_000_000 + 1000 * i as u64);
                rt.env().save_ptr_one(p.ptr()).unwrap();
            }
        });
    });
    vclock::set(2_000_000);
    let file = |n: &str| dir.0.join(n);
    let write = WRITE[c.write].iter().map(|w| w.replace("file:", &format!("file:{}/", dir.0.to_str().unwrap())).parse().unwrap()).collect();
    let mut ex: Vec<String> = exprs()[c.exprs].0.clone();
    if c.said {
        ex.push(format!(":mode:{}", mode(c)))
    }
    let aliases = PredicateAliases { db_only: c.db_only, signed: c.signed == 1, unsigned: c.signed == 2, max: c.max, max_index: c.max_db, max_branch: c.max_branch, ..Default::default() };
    let q = CLIQuery {
        print: PrintABE { print_expr: c.print == 1, print_text: c.print == 2 },
        mode: c.mode.map(|m| MODES[m].parse().unwrap()),
        opts: DGPDWatchCLIOpts { dgpd: c.place.map(|p| PLACES[p].text.parse().unwrap()), watch_opts: ExtWatchCLIOpts { aliases, exprs: ex.iter().map(|e| e.parse().unwrap()).collect() }, bare: c.bare },
    };
    futures::executor::on_idle(Some(Box::new(|| panic!("it waits although nothing more can match"))));
    mark("run");
    let r = no_panic(|| watch(common(c, &db), q, write).map_err(|e| format!("{e:#}")));
    mark("end");
    c_cli::say(match &r {
        Ok(Ok(())) => b"ok".to_vec(),
        Ok(Err(e)) => format!("err {e}").into_bytes(),
        Err(e) => format!("panic {}", e).into_bytes(),
    }
    .as_slice());
    for n in ["one", "two"] {
        mark(n);
        c_cli::say(&std::fs::read(file(n)).unwrap_or_default());
    }
}
fn rows(mut b: &[u8]) -> Vec<String> {
    let mut v = vec![];
    while !b.is_empty() {
        match parse(b, true) {
            Ok(s) => {
                b = &b[s.bytes().len()..];
                v.push(pkts().iter().position(|p| p.spec.bytes() == s.bytes()).map(|n| n.to_string()).unwrap_or(show_cut(&s.data)))
            }
            Err(_) => {
                v.push(show_cut(b));
                break;
            }
        }
    }
    v
}
fn judge(c: &Case, i: usize, told: &c_cli::Told) -> CaseResult {
    let end = String::from_utf8_lossy(told.out("end", i)?).to_string();
    ensure!(!end.starts_with("panic"), "{end}");
    let out = told.out("run", i)?;
    let to = WRITE[c.write];
    let db = to.contains(&"db");
    let all = found(c);
    let hits: Vec<&&Pkt> = all.iter().filter(|p| c.private == Some(true) || !private(p)).collect();
    let hidden = c.private == Some(false) && all.iter().any(|p| private(p));
    let show = c.print > 0 && !db;
    // the first private packet that may not be written is an error: what is behind it is not given
    let upto = if hidden { all.iter().position(|p| private(p)).unwrap() } else { hits.len() };
    let bytes: Vec<u8> = if show || db { vec![] } else { hits[..upto].iter().flat_map(|p| p.spec.bytes()).collect() };
    if db || c.exprs == 6 && hopeless(c) {
        ensure!(end.starts_with("err"), "it ends with {end}");
    } else if !hopeless(c) && !hidden || show && !hopeless(c) {
        ensure!(end == "ok", "it ends with {end}");
    }
    for n in ["one", "two"] {
        let got = told.out(n, i)?;
        let want: &[u8] = if to.contains(&&*format!("file:{n}")) { &bytes } else { b"" };
        ensure!(got == want, "what is written to {n} is {:?} and should be {:?}; {end}", rows(got), rows(want));
    }
    if show {
        if end != "ok" {
            ensure!(hopeless(c), "it ends with {end}");
            return Ok(false);
        }
        // what is shown reads back as a query for the same packets in the same order
        let text = String::from_utf8_lossy(out).to_string();
        let mut q = linkspace_core::query::Query::default();
        let ok = q.parse(text.as_bytes(), &linkspace_core::eval::CORE_SCOPE);
        ensure!(ok.is_ok(), "what is shown can not be read: {text}");
        let m = q.mode().map_err(|e| Bad::from(format!("{e:#}")))?;
        ensure!(m.map(|m| m.to_string()).as_deref() == Some(mode(c)), "the order that is shown is {m:?}: {text}");
        let o = q.get_option(b"other").map_err(|e| Bad::from(format!("{e:#}")))?;
        ensure!(o.is_some() == (c.exprs == 7), "the option is lost: {text}");
        // without the limits
        q.predicates.state = core_::predicate::pkt_predicates::PktPredicates::DEFAULT.state;
        let mut w = WatchEntry::new(vec![], q, 0, (), tracing::Span::none()).map_err(|e| Bad::from(format!("cannot watch: {e:#}")))?;
        let place = c.place.filter(|_| !c.bare);
        for (r, p) in log() {
            let want = place.map_or(true, |n| at(&PLACES[n], p)) && (c.signed == 0 || (p.spec.kind & 4 != 0) == (c.signed == 1)) && exprs()[c.exprs].1.iter().all(|x| x.holds(p, r));
            w.nth_query = 0;
            w.nth_new = 0;
            let got = w.test(p.at(r)).0;
            ensure!(got == want, "what is shown {} {}: {text}", if got { "lets in" } else { "leaves out" }, show_cut(&p.spec.data));
        }
        return Ok(true);
    }
    let want: &[u8] = if to.contains(&"stdout") { &bytes } else { b"" };
    ensure!(out == want, "what is printed is {:?} and should be {:?}; {end}", rows(out), rows(want));
    Ok(!bytes.is_empty())
}
fn main() {
    let quick = std::env::var("LKMC_TIER").map_or(true, |t| t == "quick");
    static ALL: OnceLock<Vec<Case>> = OnceLock::new();
    if c_cli::serve(|s, mark, i| run(&ALL.get_or_init(|| cases(s, quick))[i], mark)) {
        return;
    }
    kit::main("R06", "model_checking", |cx| {
        std::env::set_var("LKMC_TIER", if cx.quick() { "quick" } else { "thorough" });
        cx.rule("what the command gives to each destination: the stored packets at the place and with every rule, in the order asked for, up to each limit, and nothing else; what it shows instead reads back to a query for the same packets");
        cx.assume("what the command does with packets that arrive later is checked with W01, where packets can be written with R03; only commands that can end are run; a limit per branch is not combined with rules that are not about the place");
        for (s, what) in ["what matches", "up to how many", "where to, and shown"].into_iter().enumerate() {
            cx.section(what, || {
                let all = cases(s, cx.quick());
                cx.bound(what, format!("{} cases", all.len()));
                let n = 64;
                cx.par(all.len().div_ceil(n) as u64, |k| {
                    let (a, b) = (k as usize * n, ((k as usize + 1) * n).min(all.len()));
                    let told = c_cli::ask(s, a..b);
                    for i in a..b {
                        let c = &all[i];
                        let n = found(c).len() as u64;
                        cx.states(n + 1);
                        cx.transitions(n);
                        cx.traces(1);
                        cx.case_k(b"", &|| format!("place {:?} rules {:?} mode {:?} {c:?}", c.place.map(|p| PLACES[p].text), exprs()[c.exprs].0, mode(c)), || judge(c, i, &told))
                    }
                })
            })
        }
    })
}
