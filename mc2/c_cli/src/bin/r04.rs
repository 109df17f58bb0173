//! The command that prints packets by a template, on every row of packets and every way to use it.
use c_core::*;
use kit::*;
use std::sync::OnceLock;
use x_cli::cli::opts::{IOOpts, InOpts, OutOpts};
use x_cmd::pktf::{pkt_info, PktFmtOpts};
use x_cmd::{CommonOpts, LinkspaceOpts, PktFmt, PktReadOpts};

fn pkts() -> &'static [Pkt] {
    static P: OnceLock<Vec<Pkt>> = OnceLock::new();
    P.get_or_init(|| {
        let mut l = link_spec(1, "a", "/s", 10, b"k");
        l.links = vec![([7; 16], [9; 32])];
        vec![
            make(data_spec(b""), None),
            make(data_spec(b"x"), None),
            make(data_spec(b"\xff[data]/:\\\n\0"), None),
            make(link_spec(1, "b", "/t/u", 11, b"y\n"), None),
            make(link_spec(0, "p", "/private", 12, b"z"), None),
            make(l, Some(0)),
        ]
    })
}
fn private(p: &Pkt) -> bool {
    p.spec.is_link() && p.spec.group == [0; 32]
}
/// a template, whether it can be read loosely and strictly, what it gives
type Template = (&'static str, bool, bool, fn(&Pkt) -> Option<Vec<u8>>);
const TEMPLATES: [Template; 9] = [
    ("[data]", true, true, |p| Some(p.spec.data.clone())),
    ("h=[hash:str]", true, true, |p| Some(format!("h={}", p.hash.b64()).into_bytes())),
    ("[links_len:str]\\t[data_size:str]\\n", true, true, |p| Some(format!("{}\t{}\n", p.spec.links.len(), p.spec.data.len()).into_bytes())),
    ("[data/size?:=:1]", true, true, |p| (p.spec.data.len() == 1).then(|| p.spec.data.clone())),
    ("a/b:[data]/", true, true, |p| Some([b"a/b:", &p.spec.data[..], b"/"].concat())),
    ("\u{e9}\n[data]", true, false, |p| Some([b"\xc3\xa9\n", &p.spec.data[..]].concat())),
    ("[nope]", true, true, |_| None),
    ("[data", false, false, |_| None),
    ("", true, true, |_| Some(vec![])),
];
const DELIMITERS: [(&str, Option<&[u8]>); 5] = [("\\n", Some(b"\n")), ("", Some(b"")), ("-[u8:0]-", Some(b"-\0-")), ("/:", Some(b"/:")), ("[data]", None)];
const ERRORS: [(&str, Option<&[u8]>); 3] = [("ERR\\f", Some(b"ERR\xff")), ("", Some(b"")), ("[hash]", None)];

#[derive(Clone, Debug)]
struct Case {
    row: Vec<usize>,
    cut: bool,
    fmt: Vec<usize>,
    delim: usize,
    error: Option<usize>,
    join: bool,
    strict: bool,
    fast: bool,
    silent: bool,
    inspect: bool,
    /// "", null, file, file twice
    forward: usize,
    all: bool,
    read: Option<bool>,
    write: Option<bool>,
    hop: Option<bool>,
}
const BASE: Case = Case { row: vec![], cut: false, fmt: vec![], delim: 0, error: None, join: false, strict: false, fast: false, silent: true, inspect: false, forward: 0, all: false, read: None, write: None, hop: None };
fn rows(n: usize) -> Vec<Vec<usize>> {
    (0..=n).flat_map(|n| (0..6u64.pow(n as u32)).map(move |i| nth_digits(6, n, i))).collect()
}
const THREE: [Option<bool>; 3] = [None, Some(true), Some(false)];
fn cases(section: usize, quick: bool) -> Vec<Case> {
    let mut v = vec![];
    let all: Vec<usize> = (0..6).collect();
    match section {
        0 => {
            for row in rows(if quick { 2 } else { 3 }) {
                for t in 0..TEMPLATES.len() {
                    for i in 0..2 * 2 * 4 * 2 {
                        let d = nth_mixed(&[2, 2, 4, 2], i);
                        v.push(Case { row: row.clone(), fmt: vec![t], join: d[0] == 1, strict: d[1] == 1, error: d[2].checked_sub(1), forward: 2 * d[3], ..BASE });
                    }
                }
            }
        }
        1 => {
            for n in 2..=4u32 {
                for i in 0..9u64.pow(n.min(3)) {
                    let mut f = nth_digits(9, n.min(3) as usize, i);
                    if n == 4 {
                        if !quick || i % 9 == 0 {
                            f.push(1)
                        } else {
                            continue;
                        }
                    }
                    for error in [None, Some(0)] {
                        for strict in [false, true] {
                            for row in [all.clone(), vec![5, 3, 1, 0]] {
                                if n >= 3 && quick && (row.len() == 4 || strict) {
                                    continue;
                                }
                                v.push(Case { row, fmt: f.clone(), error, strict, ..BASE });
                            }
                        }
                    }
                }
            }
        }
        2 => {
            for i in 0..2u64 * 3 * 3 * 3 * 4 * 2 * 3 * 2 * 2 {
                let d = nth_mixed(&[2, 3, 3, 3, 4, 2, 3, 2, 2], i);
                v.push(Case { row: if d[7] == 1 { vec![4, 3] } else { all.clone() }, all: d[0] == 1, read: THREE[d[1]], write: THREE[d[2]], hop: THREE[d[3]], forward: d[4], inspect: d[5] == 1, fmt: vec![[0, 3, 1][d[6]]], error: Some(0), join: d[8] == 1, ..BASE });
            }
        }
        3 => {
            for row in rows(2) {
                for i in 0..5 * 2 * 2 * 2 * 3 {
                    let d = nth_mixed(&[5, 2, 2, 2, 3], i);
                    v.push(Case { row: row.clone(), delim: d[0], join: d[1] == 1, fast: d[2] == 1, cut: d[3] == 1, silent: d[4] != 0, fmt: if d[2] == 1 || d[4] == 1 { vec![] } else { vec![0] }, ..BASE });
                }
            }
        }
        _ => unreachable!(),
    }
    v
}
fn common(c: &Case, dir: &std::path::Path) -> CommonOpts {
    CommonOpts {
        linkspace: LinkspaceOpts { dir: Some(dir.join("db")), init: true, env: false, open_dir: OnceLock::new() },
        io: IOOpts::__make(c.all, OutOpts::__make(c.write), InOpts::__make(c.read, c.hop, false)),
    }
}
fn run(c: &Case, mark: &dyn Fn(&str)) {
    let dir = Scratch::new();
    let mut b: Vec<u8> = c.row.iter().flat_map(|p| pkts()[*p].spec.bytes()).collect();
    if c.cut {
        let p = pkts()[3].spec.bytes();
        b.extend_from_slice(&p[..p.len() - 1]);
    }
    std::fs::write(dir.0.join("in"), b).unwrap();
    let file = format!("file:{}", dir.0.join("to").to_str().unwrap());
    let forward: Vec<&str> = match c.forward {
        0 => vec![],
        1 => vec!["null"],
        2 => vec![&file],
        _ => vec!["null", &file],
    };
    let o = PktFmtOpts::__make(
        PktReadOpts { pkts: Some(dir.0.join("in")), no_pkts: false },
        c.inspect,
        c.error.map(|e| ERRORS[e].0.parse().unwrap()),
        c.silent,
        forward.iter().map(|f| f.parse().unwrap()).collect(),
        c.join,
        DELIMITERS[c.delim].0.parse().unwrap(),
        c.strict,
        c.fmt.iter().map(|f| TEMPLATES[*f].0.to_string()).collect(),
        c.fast,
    );
    mark("run");
    let r = no_panic(|| pkt_info(common(c, &dir.0), o).map_err(|e| e.to_string()));
    mark("end");
    c_cli::say(match &r {
        Ok(Ok(())) => b"ok",
        Ok(Err(_)) => b"err",
        Err(_) => b"panic",
    });
    mark("to");
    c_cli::say(&std::fs::read(dir.0.join("to")).unwrap_or_default());
}
fn hopped(c: &Case, p: &Pkt) -> Vec<u8> {
    let mut s = p.spec.clone();
    if c.hop == Some(true) {
        let h = u32::from_be_bytes(s.head[4..8].try_into().unwrap()).saturating_add(1);
        s.head[4..8].copy_from_slice(&h.to_be_bytes());
    }
    s.bytes()
}
fn judge(c: &Case, i: usize, told: &c_cli::Told) -> CaseResult {
    let res = told.out("end", i)?;
    let (mut text, mut to) = (vec![], vec![]);
    let read = |t: usize| if c.strict { TEMPLATES[t].2 } else { TEMPLATES[t].1 };
    let error = c.error.map(|e| ERRORS[e].1);
    let delim = DELIMITERS[c.delim].1;
    let mut ok = c.fmt.iter().take(3).all(|t| read(*t)) && error != Some(None) && delim.is_some();
    let writes = if c.all { Some(true) } else { c.write };
    let reads = if c.all { true } else { c.read.unwrap_or(true) };
    let mut first = true;
    if ok {
        for p in c.row.iter().map(|p| &pkts()[*p]) {
            if private(p) && !reads {
                ok = false;
                break;
            }
            if private(p) && writes == Some(false) {
                continue;
            }
            let n = match p.spec.kind {
                1 => 0,
                3 => 1,
                _ => 2,
            };
            let t = match c.fmt.len() {
                _ if c.fast => Some(PktFmt(&p.net).to_string().into_bytes()),
                0 => Some(default(p)),
                l => (TEMPLATES[c.fmt[n.min(l - 1)]].3)(p),
            };
            let Some(t) = t.or(error.flatten().map(|e| e.to_vec())) else {
                ok = false;
                break;
            };
            let d = delim.unwrap();
            if c.join && !first {
                text.extend_from_slice(d)
            }
            first = false;
            text.extend_from_slice(&t);
            if !c.join {
                text.extend_from_slice(d)
            }
            if !private(p) || writes == Some(true) {
                to.extend(hopped(c, p))
            }
        }
        ok &= !c.cut;
    }
    let got = told.out("run", i)?;
    let forwarded = told.out("to", i)?;
    ensure!(res == if ok { &b"ok"[..] } else { b"err" }, "it ends with {} and should {}", show(res), if ok { "be fine" } else { "be refused" });
    let f: &[u8] = if c.forward >= 2 { &to } else { b"" };
    ensure!(forwarded == f, "passes on {} instead of {}", show_cut(forwarded), show_cut(f));
    if c.inspect {
        let e = told.err("run", i)?;
        ensure!(e == text, "prints {} instead of {}", show_cut(e), show_cut(&text));
        ensure!(got == to, "passes on to the output {} instead of {}", show_cut(got), show_cut(&to));
    } else {
        ensure!(got == text, "prints {} instead of {}", show_cut(got), show_cut(&text));
    }
    Ok(!text.is_empty())
}
/// the template that is used when none is given
fn default(p: &Pkt) -> Vec<u8> {
    let rt = || Err(anyhow::anyhow!("none"));
    let scope = (linkspace_common::eval::lk_scope(&rt, false), linkspace_pkt::pkt_scope(&p.net));
    abe::eval::eval(&scope, &linkspace_pkt::repr::DEFAULT_FMT).unwrap().concat()
}
fn main() {
    let quick = std::env::var("LKMC_TIER").map_or(true, |t| t == "quick");
    static ALL: OnceLock<Vec<Case>> = OnceLock::new();
    if c_cli::serve(|s, mark, i| run(&ALL.get_or_init(|| cases(s, quick))[i], mark)) {
        return;
    }
    kit::main("R04", "model_checking", |cx| {
        std::env::set_var("LKMC_TIER", if cx.quick() { "quick" } else { "thorough" });
        cx.rule("what is printed: for each packet that may be printed, in order, the template for its kind with what the packet has in its place, or the text for errors, and the delimiter after it, or between; without such a text an error ends it; what is passed on: each packet that was printed, as it came");
        cx.assume("which destinations there are is checked with R03, what each field of a packet looks like in a template with P04 and E02; what each of the nine templates gives is written down for this check");
        for (s, what) in ["rows", "templates by kind", "private, hops and where it goes", "delimiters and the default"].into_iter().enumerate() {
            cx.section(what, || {
                let all = cases(s, cx.quick());
                cx.bound(what, format!("{} cases", all.len()));
                let n = 48;
                cx.par(all.len().div_ceil(n) as u64, |k| {
                    let (a, b) = (k as usize * n, ((k as usize + 1) * n).min(all.len()));
                    let told = c_cli::ask(s, a..b);
                    for i in a..b {
                        let c = &all[i];
                        cx.states(c.row.len() as u64 + 1);
                        cx.transitions(c.row.len() as u64);
                        cx.traces(1);
                        cx.case_k(b"", &|| format!("{c:?} templates {:?}", c.fmt.iter().map(|t| TEMPLATES[*t].0).collect::<Vec<_>>()), || judge(c, i, &told))
                    }
                })
            })
        }
    })
}
