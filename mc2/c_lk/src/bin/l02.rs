//! The interface to expressions: what is given is in scope and nothing else, and splitting, encoding and queries go by it.
use c_abe::text::components;
use c_core::*;
use kit::*;
use linkspace::abe::scope::{core_scope, lk_scope, scope, LkScope, UserData};
use linkspace::abe::*;
use linkspace::prelude::*;
use linkspace::query::*;
use linkspace::{lk_open, varscope, Linkspace};
use std::sync::OnceLock;

fn packets() -> &'static [Pkt] {
    static P: OnceLock<Vec<Pkt>> = OnceLock::new();
    P.get_or_init(|| {
        let mut l = link_spec(1, "d", "/a/bb", 77, b"data [0] of it");
        l.links = vec![([b't'; 16], [8; 32])];
        vec![make(data_spec(b"plain\n"), None), make(l.clone(), None), make(l, Some(1))]
    })
}
type Args = Vec<&'static [u8]>;
fn argvs() -> Vec<Args> {
    let all: [&[u8]; 9] = [b"zero", b"", b"two/:[", b"\x03\n", b"4", b"[u8:66]", b"\xff\xfe", b"seven", b"eight"];
    (0..=9).map(|n| all[..n].to_vec()).collect()
}
fn opened(seed: u8) -> (Linkspace, Scratch, Pkt) {
    let dir = Scratch::new();
    let lk = lk_open(Some(&dir.0), true).unwrap();
    let p = make(data_spec(&[b'A' + seed; 3]), None);
    linkspace::lk_save(&lk, &p.net).unwrap();
    linkspace::lk_process(&lk);
    (lk, dir, p)
}
/// pieces of expressions, their value by packet and arguments, and whether they are loose text
struct Piece {
    text: &'static str,
    loose: bool,
    val: fn(Option<&Pkt>, &[&[u8]]) -> Option<Vec<u8>>,
}
fn pieces() -> Vec<Piece> {
    fn p(text: &'static str, val: fn(Option<&Pkt>, &[&[u8]]) -> Option<Vec<u8>>) -> Piece {
        Piece { text, loose: false, val }
    }
    fn f(p: Option<&Pkt>, n: &str) -> Option<Vec<u8>> {
        p.and_then(|p| p.spec.fields().into_iter().find(|f| f.0 == n).map(|f| f.1))
    }
    let mut v = vec![
        p("", |_, _| Some(vec![])),
        p("plain ", |_, _| Some(b"plain ".to_vec())),
        p("\\x00\\n\\[", |_, _| Some(b"\0\n[".to_vec())),
        p("[u8:65]", |_, _| Some(b"A".to_vec())),
        p("[:x/[:y]]", |_, _| None),
        p("[0]", |_, a| a.first().map(|v| v.to_vec())),
        p("[1]", |_, a| a.get(1).map(|v| v.to_vec())),
        p("[2]", |_, a| a.get(2).map(|v| v.to_vec())),
        p("[3]", |_, a| a.get(3).map(|v| v.to_vec())),
        p("[4]", |_, a| a.get(4).map(|v| v.to_vec())),
        p("[5]", |_, a| a.get(5).map(|v| v.to_vec())),
        p("[6]", |_, a| a.get(6).map(|v| v.to_vec())),
        p("[7]", |_, a| a.get(7).map(|v| v.to_vec())),
        p("[8]", |_, _| None),
        p("[0:x]", |_, _| None),
        p("[:[0]:x]", |_, a| a.first().map(|v| [v, &b"x"[..]].concat())),
        p("[u8:[4]]", |_, a| a.get(4).map(|_| vec![4])),
        p("[hash]", |p, _| f(p, "hash")),
        p("[data]", |p, _| f(p, "data")),
        p("[hash:str]", |p, _| p.map(|p| p.hash.b64().into_bytes())),
        p("[create]", |p, _| f(p, "create")),
        p("[domain]", |p, _| f(p, "domain")),
        p("[/links:<[tag]>]", |p, _| p.map(|p| p.spec.links.iter().flat_map(|l| [b"<", &l.0[..], b">"].concat()).collect())),
        p("[nosuch]", |_, _| None),
        p("[env:LK_MC_SET]", |_, _| None),
        p("[unclosed", |_, _| None),
    ];
    for text in ["\n", "\u{e9}", "\t\u{1f517}", "\u{7f}\r", "\\q"] {
        v.push(Piece { text, loose: true, val: |_, _| Some(vec![]) });
    }
    v
}
fn value(p: &Piece, pkt: Option<&Pkt>, args: &[&[u8]]) -> Option<Vec<u8>> {
    if p.loose {
        return Some(p.text.as_bytes().to_vec());
    }
    (p.val)(pkt, args)
}
fn udata<'o>(pkt: Option<&'o Pkt>, args: Option<&'o [&'o [u8]]>) -> UserData<'o> {
    UserData { pkt: pkt.map(|p| &p.net as &dyn NetPkt), argv: args }
}
fn same(what: &str, got: Result<Vec<u8>, String>, want: Option<&[u8]>) -> CaseResult {
    match (&got, want) {
        (Ok(g), Some(w)) => ensure!(g == w, "{what} is {} instead of {}", show(g), show(w)),
        (Err(e), Some(w)) => ensure!(false, "{what} fails with {e}, it should be {}", show(w)),
        (Ok(g), None) => ensure!(false, "{what} is {} and should be refused", show(g)),
        (Err(_), None) => {}
    }
    Ok(want.is_some())
}
fn s<T>(r: LkResult<T>) -> Result<T, String> {
    r.map_err(|e| format!("{e:#}"))
}
use linkspace::LkResult;
fn evaluate(ps: &[&Piece], pkt: Option<&Pkt>, args: Option<&[&[u8]]>) -> CaseResult {
    let text: String = ps.iter().map(|p| p.text).collect();
    let a = args.unwrap_or(&[]);
    let fits = a.len() <= 8;
    let val: Option<Vec<u8>> = ps.iter().map(|p| value(p, pkt, a)).collect::<Option<Vec<_>>>().map(|v| v.concat()).filter(|_| fits);
    let loose = ps.iter().any(|p| p.loose);
    let strict = val.clone().filter(|_| !loose);
    let (val, strict) = (val.as_deref(), strict.as_deref());
    let u = || udata(pkt, args);
    same(&format!("lk_eval {text:?}"), no_panic(|| s(lk_eval(&text, u())))?, strict)?;
    // with line ends only a loose reading is possible
    same(&format!("lk_eval_loose {text:?}"), no_panic(|| s(lk_eval_loose(&text, u())))?, val)?;
    if pkt.is_none() && args.is_none() {
        same("without anything", no_panic(|| s(lk_eval(&text, ())))?, strict)?;
    }
    if let (Some(p), None) = (pkt, args) {
        same("with the packet", no_panic(|| s(lk_eval(&text, &p.net as &dyn NetPkt)))?, strict)?;
    }
    if let (None, Some(a)) = (pkt, args) {
        same("with the arguments", no_panic(|| s(lk_eval(&text, a)))?, strict)?;
        if a.len() == 2 {
            let a: &[&[u8]; 2] = &[a[0], a[1]];
            same("with two arguments", no_panic(|| s(lk_eval(&text, a)))?, strict)?;
        }
    }
    if let (Some(p), Some(a)) = (pkt, args) {
        same("with both", no_panic(|| s(lk_eval(&text, (&p.net as &dyn NetPkt, a))))?, strict)?;
    }
    type Mk<'o> = &'o dyn Fn() -> LkResult<LkScope<'o>>;
    let std: [(&str, Mk); 2] = [("scope", &|| scope(u())), ("lk_scope", &|| lk_scope(None, u(), false))];
    for (n, mk) in std {
        for l in [false, true] {
            same(n, no_panic(|| s(mk().and_then(|sc| varscope::lk_eval(sc, &text, l))))?, if l { val } else { strict })?;
        }
    }
    // the core has neither packet nor arguments
    let core: Option<Vec<u8>> = ps.iter().map(|p| value(p, None, &[])).collect::<Option<Vec<_>>>().map(|v| v.concat());
    for l in [false, true] {
        same("core_scope", no_panic(|| s(varscope::lk_eval(core_scope(), &text, l)))?, core.as_deref().filter(|_| l || !loose))?;
    }
    // variables of the system where asked for
    if !text.contains("LK_MC") && fits {
        let t = format!("{text}[env:LK_MC_SET]");
        let want = strict.map(|v| [v, b"is set"].concat());
        same("with variables", no_panic(|| s(lk_scope(None, u(), true).and_then(|sc| varscope::lk_eval(sc, &t, false))))?, want.as_deref())?;
    }
    // a statement of a query
    let st = format!("data_size:=:[u16:7]{text}");
    let _ = no_panic(|| lk_query_parse(lk_query(&Q), &[&st], u()).is_ok())?;
    if let Some(v) = strict {
        if !v.is_empty() && v.len() <= 16 && !loose {
            let q = s(no_panic(|| lk_query_parse(lk_query(&Q), &[&format!("domain:=:{text}")], u()))?);
            // delimiters of the text itself are those of the statement
            if !text.contains('/') {
                let w = s(lk_query_push(lk_query(&Q), "domain", "=", v));
                ensure!(q.as_ref().map(|q| q.to_string()).ok() == w.as_ref().map(|q| q.to_string()).ok(), "the statement with {text} is {q:?} and {w:?} when added");
            }
        }
    }
    Ok(val.is_some())
}
fn tokens(t: &str, excl: &[u8]) -> CaseResult {
    let plain: Vec<u8> = excl.iter().copied().filter(|c| b"/:\n[]".contains(c)).collect();
    let want = components(t.as_bytes(), &plain, b"");
    let n = want.as_ref().map_or(0, |w| w.len());
    for stop in 1..=n + 1 {
        let mut got = vec![];
        let r = no_panic(|| {
            lk_tokenize_abe(t, excl, |c, b, x| {
                got.push((c, b, x.as_bytes().to_vec()));
                got.len() != stop
            })
        })?;
        match &want {
            None => ensure!(r.is_err(), "{t:?} without {} is {got:?} and should be refused", show(excl)),
            Some(w) => {
                ensure!(r.is_ok(), "{t:?} without {} is refused: {:?}", show(excl), r);
                let w = &w[..stop.min(n)];
                ensure!(got == w, "{t:?} without {} is {got:?} and should be {w:?}, stopped at {stop}", show(excl));
            }
        }
    }
    Ok(n > 1)
}
fn encoded(b: &[u8], opts: &str, known: bool) -> CaseResult {
    let t = no_panic(|| lk_encode(b, opts))?;
    ensure!(t.bytes().all(|c| (0x20..0x7f).contains(&c)), "{t:?} is not plain text");
    same(&format!("{t}, which is {} by {opts:?},", show(b)), no_panic(|| s(lk_eval(&t, ())))?, Some(b))?;
    for ignore in [false, true] {
        match no_panic(|| s(lk_try_encode(b, opts, ignore)))? {
            Ok(x) => {
                same(&format!("{x} of lk_try_encode"), no_panic(|| s(lk_eval(&x, ())))?, Some(b))?;
                ensure!(!ignore || x == t, "{opts:?} is {x} and also {t}");
                ensure!(known, "{opts:?} is not well formed and is taken")
            }
            Err(_) => ensure!(!ignore || t == enc_txt(b), "{opts:?} fails and is {t} nevertheless"),
        }
    }
    Ok(t != enc_txt(b))
}
fn enc_txt(b: &[u8]) -> String {
    linkspace_common::abe::abtxt::as_abtxt(b).to_string()
}
fn main() {
    kit::main("L02", "model_checking", |cx| {
        cx.rule("expressions see the packet and the arguments they were given, the core functions, the database of the thread or the one given, variables only where asked for, and else nothing; loose reading takes other bytes as they are and strict reading refuses them; splitting gives the components between the delimiters that are not excluded, until it is stopped; encoding always evaluates to the bytes; statements with expressions are those with their values; a compiled query accepts what the query matches");
        std::env::set_var("LK_MC_SET", "is set");
        std::env::remove_var("LK_PRIVATE");
        let ps = pieces();
        let args = argvs();
        let count = |n: u64| {
            cx.states(1);
            cx.transitions(n);
            cx.traces(1);
        };
        let given: Vec<(Option<&Pkt>, Option<&Args>)> = [None, Some(&packets()[0]), Some(&packets()[1]), Some(&packets()[2])].into_iter().flat_map(|p| std::iter::once((p, None)).chain(args.iter().map(move |a| (p, Some(a))))).collect();
        let depth = cx.pick(2, 3);
        cx.section(&format!("expressions of {depth} pieces with every packet and list of arguments"), || {
            let n = ps.len();
            cx.par((n as u64).pow(depth as u32), |i| {
                let l: Vec<&Piece> = nth_digits(n, depth, i).into_iter().map(|d| &ps[d]).collect();
                for (p, a) in &given {
                    count(12);
                    cx.case_k(b"", &|| format!("{:?} with {:?} and {} arguments", l.iter().map(|p| p.text).collect::<String>(), p.map(|p| p.spec.describe()), a.map_or(-1, |a| a.len() as i64)), || evaluate(&l, *p, a.map(|a| &a[..])))
                }
            })
        });
        cx.section("components", || {
            let cs = ["a", ":", "/", "\n", "[", "]", "\\:", "\\", "\u{e9}"];
            let ex: [u8; 7] = *b":/\n[]a\xff";
            let mut lists: Vec<Vec<u8>> = vec![vec![]];
            for n in 1..=3 {
                for i in 0..7u64.pow(n) {
                    lists.push(nth_digits(7, n as usize, i).into_iter().map(|d| ex[d]).collect())
                }
            }
            let len = cx.pick(4, 5);
            cx.par(lists.len() as u64, |i| {
                let l = &lists[i as usize];
                let len = if l.len() < 3 { len } else { len - 1 };
                for n in 0..=len {
                    for j in 0..9u64.pow(n as u32) {
                        let t: String = nth_digits(9, n, j).into_iter().map(|d| cs[d]).collect();
                        count(n as u64 + 1);
                        cx.case_k(b"", &|| format!("{t:?} without {}", show(l)), || tokens(&t, l))
                    }
                }
            })
        });
        cx.section("encoding", || {
            let mut vals: Vec<Vec<u8>> = vec![vec![], b"abc".to_vec(), vec![0, 0, 0, 8], vec![0, 8], vec![200], b"[u8:3]/:\\\n".to_vec(), (0..=255).collect(), vec![1, 2, 3, 4, 5, 6, 7, 8], vec![0; 16]];
            vals.push(PUBLIC.to_vec());
            vals.push(vec![0; 32]);
            vals.push(keys()[0].pubkey_bytes().to_vec());
            let os = ["", "u8", "u16", "u32", "u64", "b", "2b", "#", "@", ":", "nosuch", "a", "x/y", "[", "b:x"];
            cx.par((vals.len() * os.len()) as u64, |i| {
                let (v, a) = (&vals[i as usize % vals.len()], os[i as usize / vals.len()]);
                for b in std::iter::once(None).chain(os.map(Some)) {
                    let opts = match b {
                        None => a.to_string(),
                        Some(b) => format!("{a}/{b}"),
                    };
                    count(5);
                    cx.case_k(b"", &|| format!("{} by {opts:?}", show(v)), || encoded(v, &opts, !opts.contains('[')))
                }
            })
        });
        cx.section("the database of the thread", || {
            cx.par(8, |i| {
                let (first, second, other) = (i & 1 != 0, i & 2 != 0, i & 4 != 0);
                count(20);
                let run = || -> CaseResult {
                    let h = |p: &Pkt| p.hash.0.iter().map(|b| format!("\\x{b:02x}")).collect::<String>();
                    let a = first.then(|| opened(1));
                    let b = second.then(|| opened(2));
                    // opening in another thread does not count here
                    let c = other.then(|| std::thread::spawn(|| opened(3).2).join().unwrap());
                    let all: Vec<(Option<&Linkspace>, &Pkt)> = [&a, &b].into_iter().flatten().map(|x| (Some(&x.0), &x.2)).chain(c.as_ref().map(|c| (None, c))).collect();
                    for (n, (lk, p)) in all.iter().enumerate() {
                        let t = format!("[readhash:{}:data]", h(p));
                        let data = &p.spec.data[..];
                        let mine = n == 0 && lk.is_some();
                        same(&format!("{t} by default, number {n},"), no_panic(|| s(lk_eval(&t, ())))?, mine.then_some(data))?;
                        same("the same with arguments", no_panic(|| s(lk_eval(&format!("{t}[0]"), &[b"" as &[u8]])))?, mine.then_some(data))?;
                        same("the core", no_panic(|| s(varscope::lk_eval(core_scope(), &t, false)))?, None)?;
                        same("nothing given", no_panic(|| s(lk_scope(None, ().into(), false).and_then(|sc| varscope::lk_eval(sc, &t, false))))?, None)?;
                        for (lk2, p2) in &all {
                            if let Some(lk2) = lk2 {
                                let is = p2.hash == p.hash;
                                same("the one given", no_panic(|| s(lk_scope(Some(lk2), ().into(), false).and_then(|sc| varscope::lk_eval(sc, &t, false))))?, is.then_some(data))?;
                                let q = no_panic(|| lk_scope(Some(lk2), ().into(), false).and_then(|sc| varscope::lk_query_parse(sc, lk_query(&Q), &["data_size:<:[u16:9]", &format!("domain:=:{t}")])))?;
                                let w = lk_query_push(lk_query_push(lk_query(&Q), "data_size", "<", &[0, 9]).unwrap(), "domain", "=", data).unwrap();
                                ensure!(q.as_ref().ok().map(|q| q.to_string()) == is.then(|| w.to_string()), "the query is {q:?}");
                            }
                        }
                    }
                    Ok(first)
                };
                cx.case_k(b"", &|| format!("opened one {first}, another {second}, in another thread {other}"), || std::thread::scope(|s| s.spawn(|| run()).join().unwrap()))
            })
        });
        cx.section("queries", || {
            let u = universe();
            let log: Vec<(u64, &Pkt)> = u.iter().enumerate().map(|(i, p)| (1000 + i as u64, p)).collect();
            let mut rs: Vec<Rule> = vec![];
            for name in ["domain", "group", "hash", "size", "type", "create", "depth", "links_len", "hop", "data_size"] {
                let (n, _) = num(name).unwrap();
                let vals = values(&u, name, n);
                for op in OPS {
                    for v in [&vals[0], &vals[vals.len() / 3], &vals[vals.len() / 2], &vals[vals.len() - 1]] {
                        rs.push(rule(name, op, v.clone()))
                    }
                }
            }
            rs.extend(space_values().into_iter().flat_map(|v| [rule("prefix", "=", v.clone()), rule("spacename", "=", v)]));
            rs.extend([rule("i", "<", 3u32.to_be_bytes()), rule("i", "<", 0u32.to_be_bytes())]);
            let step = cx.pick(31, 1);
            cx.par(rs.len() as u64, |i| {
                for j in (0..rs.len()).skip(i as usize % step).step_by(step) {
                    let l = [rs[i as usize].clone(), rs[j].clone()];
                    count(6);
                    // left to the checks of queries, where a finding is recorded
                    if contradicts(&l) {
                        continue;
                    }
                    cx.case_k(b"", &|| show_rules(&l), || {
                        {
                            let parsed = no_panic(|| lk_query_parse(lk_query(&Q), &[&l[0].text(), &l[1].text()], ()))?;
                            let lines = no_panic(|| lk_query_parse(lk_query(&Q), &[&show_rules(&l).replace(' ', "\n")], ()))?;
                            let pushed = no_panic(|| lk_query_push(lk_query(&Q), l[0].name, l[0].op, &l[0].val).and_then(|q| lk_query_push(q, l[1].name, l[1].op, &l[1].val)))?;
                            let with_arg = no_panic(|| lk_query_parse(lk_query(&Q), &[&format!("{}:{}:[0]", l[0].name, l[0].op)], &[&l[0].val[..]]).and_then(|q| lk_query_push(q, l[1].name, l[1].op, &l[1].val)))?;
                            ensure!(parsed.is_ok() == lines.is_ok() && parsed.is_ok() == pushed.is_ok() && parsed.is_ok() == with_arg.is_ok(), "{parsed:?} {lines:?} {pushed:?} {with_arg:?}");
                            let Ok(q) = parsed else { return Ok(false) };
                            for (n, o) in [("in lines", lines.unwrap()), ("added", pushed.unwrap()), ("with an argument", with_arg.unwrap())] {
                                ensure!(lk_query_print(&o, true) == lk_query_print(&q, true) && o.to_string() == q.to_string(), "{n} it is {o} and not {q}");
                            }
                            // none when no packet can match
                            let full = |q: &Query| settle(q.as_impl().clone()).map(|q| (norm(&q.predicates), q.to_str(true)));
                            for expr in [false, true].into_iter().filter(|_| full(&q).is_some()) {
                                let t = lk_query_print(&q, expr);
                                let back = s(no_panic(|| lk_query_parse(lk_query(&Q), &[&t], ()))?).map_err(|e| format!("{t:?} does not read back: {e}"))?;
                                ensure!(full(&back) == full(&q), "{t:?} reads back as {}", lk_query_print(&back, expr));
                            }
                            let mut c = lk_query(&q);
                            lk_query_clear(&mut c);
                            ensure!(c.to_string() == Q.to_string() && lk_query_print(&q, true) != lk_query_print(&c, true) || l.iter().all(|r| r.op == "?"), "cleared it is {c}");
                            let mut f = no_panic(|| lk_query_compile(q.clone()))?.map_err(|e| e.to_string())?;
                            let mut n = 0;
                            let mut any = false;
                            for (recv, p) in &log {
                                let m = l.iter().all(|r| r.holds(p, *recv));
                                let want = m && within(&l, "i", n);
                                let (got, go) = no_panic(|| f(&p.net))?;
                                ensure!(got == want, "{} is {got}", p.spec.describe());
                                n += m as u32;
                                any |= want;
                                if go.is_break() {
                                    let one = l.iter().any(|r| r.name == "hash" && r.op == "=") && n > 0;
                                    ensure!(one || (n..40).all(|n| !within(&l, "i", n)), "it ends after {n}");
                                    break;
                                }
                            }
                            Ok(any)
                        }
                    })
                }
            })
        });
    })
}
