//! What a place given on the command line (domain:group:space:depth) and the short options select,
//! against a direct reading of the text and of what the options are documented to do.
use abe::convert::{AnyABE, TypedABE};
use c_core::*;
use core_::eval::CORE_SCOPE;
use core_::matcher::WatchEntry;
use kit::*;
use linkspace_pkt::{Domain, GroupID, B64, PUBLIC};
use x_cli::dgs::*;
use x_cli::predicate_aliases::PredicateAliases;
use x_cli::prelude::{ABList, Query};

type Stmt = TypedABE<ABList>;
/// the statements as a query, as the commands do it
fn built(it: impl IntoIterator<Item = Stmt>) -> Result<Query, String> {
    let mut q = Query::default();
    for s in it {
        let s = s.eval(&CORE_SCOPE).map_err(|e| format!("{e:#}"))?;
        q.add_stmt(s).map_err(|e| format!("{e:#}"))?;
    }
    Ok(q)
}
/// which packets it accepts as the first one
fn accepts(q: &Query, u: &[Pkt], recv: u64) -> Result<Vec<bool>, Bad> {
    let mut w = WatchEntry::new(vec![], q.clone(), 0, (), tracing::Span::none()).map_err(|e| Bad::from(format!("cannot watch: {e:#}")))?;
    Ok(u.iter()
        .map(|p| {
            w.nth_query = 0;
            w.nth_new = 0;
            w.test(p.at(recv)).0
        })
        .collect())
}
struct Place {
    domain: [u8; 16],
    group: [u8; 32],
    space: Vec<Vec<u8>>,
    /// components below the space, or any
    depth: Option<usize>,
}
impl Place {
    fn has(&self, p: &Pkt) -> bool {
        let s = &p.spec;
        s.is_link() && s.domain == self.domain && s.group == self.group && s.space.starts_with(&self.space) && self.depth.map_or(true, |d| s.space.len() <= self.space.len() + d)
    }
}
/// a text, what it stands for if it is one, and whether its number of components can be read off
struct Tok<T> {
    text: &'static str,
    val: Option<T>,
    counted: bool,
}
fn tok<T>(text: &'static str, val: impl Into<Option<T>>) -> Tok<T> {
    Tok { text, val: val.into(), counted: true }
}
fn same(got: &[bool], want: &[bool], u: &[Pkt]) -> CaseResult {
    for (i, p) in u.iter().enumerate() {
        ensure!(got[i] == want[i], "{} the packet {}", if got[i] { "selects" } else { "leaves out" }, p.spec.describe());
    }
    Ok(want.iter().any(|b| *b))
}
fn judge(u: &[Pkt], text: &str, place: Option<&Place>, counted: bool) -> CaseResult {
    let place = place.filter(|p| counted || p.depth.is_none());
    let q = no_panic(|| text.parse::<DGSDExpr>().map_err(|e| format!("{e:#}")).and_then(|e| e.predicate_exprs().map_err(|e| format!("{e:#}")).map(|v| v.map(Into::into).collect::<Vec<Stmt>>())).and_then(built))?;
    match (q, place) {
        (Err(_), None) => Ok(false),
        (Err(e), Some(_)) => bad("refused", format!("refused: {e}")),
        (Ok(q), None) => bad("accepted", format!("accepted as {}", q.to_str(false))),
        (Ok(q), Some(p)) => same(&accepts(&q, u, 10)?, &u.iter().map(|x| p.has(x)).collect::<Vec<_>>(), u),
    }
}
/// the text without a depth
fn judge_plain(u: &[Pkt], text: &str, place: Option<&Place>) -> CaseResult {
    let e = no_panic(|| text.parse::<DGSExpr>())?;
    let (e, p) = match (e, place) {
        (Err(_), None) => return Ok(false),
        (Ok(e), None) => {
            ensure!(no_panic(|| e.clone().resolve(&CORE_SCOPE).is_err())?, "resolved though it is no place");
            return Ok(false);
        }
        (Err(e), Some(_)) => return bad("refused", format!("refused: {e:#}")),
        (Ok(e), Some(p)) => (e, p),
    };
    let want: Vec<bool> = u.iter().map(|x| Place { depth: None, ..*p_ref(p) }.has(x)).collect();
    let q = built(e.clone().as_test_exprs().map(Into::into)).map_err(|e| Bad::from(format!("as statements: {e}")))?;
    same(&accepts(&q, u, 10)?, &want, u)?;
    let mut r = e;
    let dgs = no_panic(|| r.resolve(&CORE_SCOPE))?.map_err(|e| Bad::from(format!("not resolved: {e:#}")))?;
    ensure!(*dgs.domain == p.domain && *dgs.group == p.group, "resolved to {dgs:?}");
    let space: Vec<Vec<u8>> = dgs.space.comps_bytes().iter().filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
    ensure!(space == p.space, "resolved to the space {:?}", dgs.space);
    // resolving is for good
    let again = no_panic(|| r.eval(&CORE_SCOPE))?.map_err(|e| Bad::from(format!("not resolved for good: {e:#}")))?;
    ensure!(again == dgs, "resolved again to {again:?}");
    let mut q = Query::default();
    for x in dgs.as_predicates() {
        q.predicates.add_predicate(&x).map_err(|e| Bad::from(format!("as predicates: {e:#}")))?
    }
    same(&accepts(&q, u, 10)?, &want, u)?;
    let mut q = Query::default();
    for x in dgs.as_predicate_exprs() {
        let x = x.eval(&CORE_SCOPE).map_err(|e| Bad::from(format!("as expressions: {e:#}")))?;
        q.predicates.add_ext_predicate(x).map_err(|e| Bad::from(format!("as expressions: {e:#}")))?
    }
    same(&accepts(&q, u, 10)?, &want, u)
}
fn p_ref(p: &Place) -> Box<Place> {
    Box::new(Place { domain: p.domain, group: p.group, space: p.space.clone(), depth: p.depth })
}
const T0: u64 = 1_700_000_000_000_000;
#[derive(Clone, Debug, Default)]
struct Opt {
    db_only: bool,
    new_only: bool,
    max: [Option<u32>; 4],
    signed: bool,
    unsigned: bool,
    watch: bool,
    qid: Option<&'static str>,
    follow: bool,
    until: Option<(&'static str, u64)>,
}
const NTH: [u32; 8] = [0, 1, 2, 3, 4, 5, u32::MAX - 1, u32::MAX];
fn aliases(u: &[Pkt], o: &Opt, extra: Option<&(String, Place)>) -> CaseResult {
    let [max, max_branch, max_index, max_new] = o.max;
    let a = PredicateAliases {
        db_only: o.db_only,
        new_only: o.new_only,
        max,
        max_branch,
        max_index,
        max_new,
        signed: o.signed,
        unsigned: o.unsigned,
        watch: o.watch,
        qid: o.qid.map(|q| q.parse::<AnyABE>().unwrap()),
        follow: o.follow,
        until: o.until.map(|u| u.0.to_string()),
    };
    let _f = vclock::freeze(T0);
    let q = no_panic(|| {
        let mut v: Vec<Stmt> = vec![];
        if let Some((t, _)) = extra {
            v.extend(t.parse::<DGSDExpr>().unwrap().predicate_exprs().unwrap().map(Into::into))
        }
        v.extend(a.as_predicates().map(Into::into));
        built(v)
    })?;
    let want_index = |n: u32| !o.new_only && max_index.map_or(true, |m| n < m);
    let want_new = |n: u32| !o.db_only && max_new.map_or(true, |m| n < m);
    let want_all = |n: u32| max.map_or(true, |m| n < m);
    let want_branch = |n: u32| max_branch.map_or(true, |m| n < m);
    let kind = |p: &Pkt| !(o.signed && p.spec.kind & 4 == 0) && !(o.unsigned && p.spec.kind & 4 != 0);
    let place = |p: &Pkt| extra.map_or(true, |e| e.1.has(p));
    let hopeless = !want_all(0) || !want_new(0) && !(want_index(0) && want_branch(0)) || o.signed && o.unsigned;
    let mut q = match q {
        Ok(q) => q,
        Err(e) => {
            ensure!(hopeless, "refused: {e}");
            return Ok(false);
        }
    };
    let qid = o.qid.map(|q| if q == "[u8:65]x" { "Ax" } else { q }).or(o.watch.then_some("default"));
    let got = q.qid().map_err(|e| Bad::from(format!("{e:#}")))?;
    ensure!(got == qid.map(|q| (!q.is_empty()).then_some(q.as_bytes())), "the name of the query is {got:?}, should be {qid:?}");
    let f = q.get_option(b"follow").map_err(|e| Bad::from(format!("{e:#}")))?;
    ensure!(f.is_some() == o.follow, "follow is {f:?}");
    for n in NTH {
        let s = &q.predicates.state;
        ensure!(s.i_db.test(n) == want_index(n), "packet {n} from the index: {}", s.i_db.test(n));
        ensure!(s.i_new.test(n) == want_new(n), "new packet {n}: {}", s.i_new.test(n));
        ensure!(s.i_query.test(n) == want_all(n), "packet {n}: {}", s.i_query.test(n));
        ensure!(s.i_branch.test(n) == want_branch(n), "packet {n} of a branch: {}", s.i_branch.test(n));
    }
    // who sent it and when it arrived, without the counters
    q.predicates.state = core_::predicate::pkt_predicates::PktPredicates::DEFAULT.state;
    let mut hit = false;
    let end = o.until.map(|u| T0 + u.1);
    for recv in [T0 - 1, T0, T0 + 999_999, T0 + 1_000_000, T0 + 3_599_999_999, T0 + 3_600_000_000, u64::MAX] {
        let want: Vec<bool> = u.iter().map(|p| kind(p) && place(p) && end.map_or(true, |e| recv < e)).collect();
        hit |= same(&accepts(&q, u, recv)?, &want, u).map_err(|b| Bad { msg: format!("received at the start {:+} µs: {}", recv as i128 - T0 as i128, b.msg), ..b })?;
    }
    Ok(hit && !hopeless)
}
fn main() {
    kit::main("G01", "model_checking", |cx| {
        cx.rule("every row of texts for a domain, a group, a space and a depth, and every combination of the short options, as a query, against packets at, below, beside and above every place; non-trivial: a packet is selected");
        let mut u = universe();
        let dflt = ([5u8; 32], dom("dflt"));
        for (d, g) in [(dom(""), *PUBLIC), (dom("a"), *PUBLIC), (dom("ab"), [0; 32]), (dom("dflt"), [5; 32]), (dom("a"), [5; 32]), (dom("dflt"), [0; 32]), (dom(""), [5; 32]), (dom("dflt"), *PUBLIC)] {
            for s in ["", "/a", "/b", "/a/a", "/a/b", "/aa", "/a/b/c", "/a/b/c/d", "/a/b/c/d/e/f/g", "/a/b/c/d/e/f/g/h"] {
                let mut l = link_spec(0, "", s, 11, b"");
                l.domain = d;
                l.group = g;
                u.push(make(l, None));
            }
        }
        let u = &u;
        cx.bound("packets", u.len() as u64);
        let empty = Tok { text: "", val: None, counted: true };
        let domains = [empty, tok("a", dom("a")), tok("ab", dom("ab")), tok("[u8:97]", dom("a")), tok("a[u8:98]", dom("ab")), tok("abcdefghijklmnopq", None), tok("[nope]", None), tok("/a", None)];
        let b64 = |b: [u8; 32]| -> &'static str { Box::leak(format!("[b:{}]", B64(b)).into_boxed_str()) };
        let groups = [Tok { text: "", val: None, counted: true }, tok("[#:pub]", *PUBLIC), tok("[#:0]", [0; 32]), tok(b64([5; 32]), [5; 32]), tok("[b:AAAA]", None), tok("/[#:0]", None)];
        let deep = "/a/b/c/d/e/f/g/h";
        let spaces = [
            tok("", spc("")),
            tok("/a", spc("/a")),
            tok("/b", spc("/b")),
            tok("/a/b", spc("/a/b")),
            tok("/[u8:97]/b", spc("/a/b")),
            tok("/a/[u8:98]/c", spc("/a/b/c")),
            tok("/aa", spc("/aa")),
            tok("/a/b/c/d/e/f/g", spc("/a/b/c/d/e/f/g")),
            tok(deep, spc(deep)),
            tok("/a/b/c/d/e/f/g/h/i", None),
            tok("/", None),
            tok("/a/", None),
            tok("//a", None),
            tok("a/b", None),
            tok("/[nope]", None),
            Tok { text: "\\x01a", val: Some(spc("/a")), counted: false },
            Tok { text: "\\x01a\\x01b", val: Some(spc("/a/b")), counted: false },
            Tok { text: "\\x02a", val: None, counted: false },
        ];
        
        // the text, and the depth it stands for
        let depths: Vec<(String, Option<Option<usize>>)> = [("", Some(Some(0))), (":", Some(Some(0))), (":*", Some(Some(1))), (":**", Some(None)), (":9", None), (":***", None), (":a", None), (":[u8:1]", None), (":1:", None), (":1:1", None), ("::", None), (":/a", None)]
            .iter()
            .map(|(t, d)| (t.to_string(), *d))
            .chain((0..=8).map(|n| (format!(":{n}"), Some(if n == 8 { None } else { Some(n) }))))
            .collect();
        let n = (domains.len() * groups.len() * spaces.len()) as u64;
        for set in [false, true] {
            cx.section(&format!("places, {}", if set { "with a default of the thread" } else { "without a default" }), || {
                cx.par(n, |i| {
                    // the default of a thread can be set once
                    std::thread::scope(|s| {
                        s.spawn(|| {
                            let dflt = if set { dflt } else { (*PUBLIC, dom("")) };
                            if set {
                                x_cli::thread_local::set_group(GroupID::from(dflt.0));
                                x_cli::thread_local::set_domain(Domain::from(dflt.1));
                            }
                            let d = nth_mixed(&[domains.len(), groups.len(), spaces.len()], i);
                            let (dm, g, sp) = (&domains[d[0]], &groups[d[1]], &spaces[d[2]]);
                            let domain = if dm.text.is_empty() { Some(dflt.1) } else { dm.val };
                            let group = if g.text.is_empty() { Some(dflt.0) } else { g.val };
                            let place = |depth| Some(Place { domain: domain?, group: group?, space: sp.val.clone()?, depth });
                            for (t, depth) in &depths {
                                let mut texts = vec![format!("{}:{}:{}{t}", dm.text, g.text, sp.text)];
                                while t.is_empty() && texts.last().unwrap().ends_with(':') {
                                    // what is empty at the end can be left out
                                    let l = texts.last().unwrap();
                                    texts.push(l[..l.len() - 1].to_string())
                                }
                                for text in texts {
                                    cx.states(1);
                                    cx.case(text.as_bytes(), || judge(u, &text, depth.and_then(place).as_ref(), sp.counted));
                                    if t.is_empty() {
                                        cx.case_k(text.as_bytes(), &|| format!("{text} without a depth"), || judge_plain(u, &text, place(None).as_ref()));
                                    }
                                }
                            }
                        });
                    })
                })
            });
        }
        let counts: &[Option<u32>] = if cx.quick() { &[None, Some(0), Some(2), Some(u32::MAX)] } else { &[None, Some(0), Some(1), Some(3), Some(u32::MAX)] };
        let untils = [None, Some(("1s", 1_000_000)), Some(("1h", 3_600_000_000)), Some(("0s", 0))];
        let qids = [None, Some("x"), Some("[u8:65]x")];
        let places = [None, Some(("a:[#:pub]:/a:*".to_string(), Place { domain: dom("a"), group: *PUBLIC, space: spc("/a"), depth: Some(1) }))];
        let radix = [2, 2, counts.len(), counts.len(), counts.len(), counts.len(), 3, 2, qids.len(), 2, untils.len(), places.len()];
        cx.section("short options", || {
            cx.par(radix.iter().map(|r| *r as u64).product(), |i| {
                let d = nth_mixed(&radix, i);
                let o = Opt { db_only: d[0] == 1, new_only: d[1] == 1, max: [counts[d[2]], counts[d[3]], counts[d[4]], counts[d[5]]], signed: d[6] & 1 == 1, unsigned: d[6] & 2 == 2, watch: d[7] == 1, qid: qids[d[8]], follow: d[9] == 1, until: untils[d[10]] };
                cx.states(1);
                cx.case_k(b"", &|| format!("{o:?} {:?}", places[d[11]].as_ref().map(|p| &p.0)), || aliases(u, &o, places[d[11]].as_ref()));
            })
        });
    })
}
