//! A query and its text are the same; options are found from the top; no text crashes the reader.
use c_core::*;
use core_::eval::CORE_SCOPE;
use core_::predicate::exprs::*;
use core_::predicate::predicate_type::PredicateType;
use core_::prelude::*;
use kit::*;

/// an entry of a query that is no predicate: delimiters and bytes
type Entry = Vec<(u8, Vec<u8>)>;
fn esc(b: &[u8]) -> String {
    b.iter().map(|b| format!("\\x{b:02x}")).collect()
}
fn text(e: &Entry) -> String {
    e.iter().map(|(c, b)| format!("{}{}", *c as char, esc(b))).collect()
}
/// the option by its documentation: the last added that starts with the name
fn find<'a>(list: &'a [Entry], name: &[u8]) -> Result<Option<Option<&'a [u8]>>, ()> {
    for e in list.iter().rev() {
        if e[0].1 == name {
            if e[0].0 == b'/' {
                return Err(());
            }
            return match &e[1..] {
                [] => Ok(Some(None)),
                [(b':', v)] => Ok(Some(Some(v))),
                _ => Err(()),
            };
        }
    }
    Ok(None)
}
const NAMES: [&[u8]; 5] = [b"", b"a", b"mode", b"qid", b"a:b"];
fn same(a: &Query, b: &Query, what: &str) -> Result<(), Bad> {
    if norm(&a.predicates) != norm(&b.predicates) {
        return Err(Bad { key: format!("{what} predicates"), msg: format!("other predicates {what}: {:?} and {:?}", a.to_str(false), b.to_str(false)) });
    }
    if a.to_str(false) != b.to_str(false) || a.to_str(true) != b.to_str(true) || a.to_string() != b.to_string() {
        return Err(Bad { key: format!("{what} text"), msg: format!("other text {what}: {:?} and {:?}", a.to_str(false), b.to_str(false)) });
    }
    for n in NAMES {
        if a.get_option(n).map_err(|_| ()) != b.get_option(n).map_err(|_| ()) {
            return Err(Bad { key: format!("{what} option"), msg: format!("other option {} {what}: {:?} and {:?}", show(n), a.get_option(n), b.get_option(n)) });
        }
    }
    Ok(())
}
fn reread(q: &Query) -> CaseResult {
    let Some(q) = &settle(q.clone()) else { return Ok(false) };
    let mut any = false;
    for (how, t) in [("printed", q.to_str(false)), ("printed as expression", q.to_str(true)), ("displayed", q.to_string())] {
        let mut r = Query::default();
        no_panic(|| r.parse(t.as_bytes(), &CORE_SCOPE))?.map_err(|e| Bad { key: format!("{how} unreadable"), msg: format!("{how} text can not be read: {t:?}: {e:#}") })?;
        same(q, &r, how)?;
        any |= !t.trim().is_empty();
    }
    let p = q.predicates.to_str(true);
    let mut r = Query::default();
    r.parse(p.as_bytes(), &CORE_SCOPE).map_err(|e| format!("printed predicates can not be read: {p:?}: {e:#}"))?;
    if norm(&r.predicates) != norm(&q.predicates) {
        return bad("printed predicates", format!("other predicates from {p:?}"));
    }
    let mut r = PktPredicates::default();
    for p in q.predicates.iter() {
        r.add_predicate(&p).map_err(|e| format!("a listed predicate can not be added: {p}: {e:#}"))?;
    }
    if norm(&r) != norm(&q.predicates) {
        return bad("listed predicates", format!("other predicates from the list of {p:?}"));
    }
    Ok(any)
}
fn entries(values: &[&[u8]]) -> Vec<Entry> {
    let mut v = vec![];
    for n in NAMES {
        for c in [b':', b'/'] {
            v.push(vec![(c, n.to_vec())]);
            for x in values {
                for d in [b':', b'/'] {
                    v.push(vec![(c, n.to_vec()), (d, x.to_vec())]);
                }
            }
        }
        v.push(vec![(b':', n.to_vec()), (b':', b"x".to_vec()), (b':', vec![])]);
    }
    v
}
fn options(list: &[Entry], way: usize) -> CaseResult {
    let mut q = Query::default();
    match way {
        0 => {
            for e in list {
                q.parse(text(e).as_bytes(), &CORE_SCOPE).map_err(|e| format!("{e:#}"))?
            }
        }
        // in one text the first line is on top
        1 => {
            let t: Vec<String> = list.iter().rev().map(text).collect();
            q.parse(t.join("\n").as_bytes(), &CORE_SCOPE).map_err(|e| format!("{e:#}"))?
        }
        _ => {
            for e in list {
                if e.iter().any(|c| c.0 != b':') {
                    return Ok(false);
                }
                let vals: Vec<&[u8]> = e[1..].iter().map(|c| &c.1[..]).collect();
                q.add_option(std::str::from_utf8(&e[0].1).unwrap(), &vals)
            }
        }
    }
    for n in NAMES {
        let want = find(list, n);
        let got = no_panic(|| q.get_option(n).map_err(|_| ()))?;
        if got != want {
            return bad("option", format!("the option {} is {got:?}, expected {want:?} in\n{q}", show(n)));
        }
        let asked = no_panic(|| abe::eval::eval(&(CORE_SCOPE, abe::eval::EScope(&q)), &abe::parse_abe_strict_b(format!("[opt:{}]", esc(n)).as_bytes()).unwrap()))?;
        match (asked, want) {
            (Ok(v), Ok(Some(w))) if v.clone().concat() == w.unwrap_or(&[]) => {}
            (Err(_), Ok(None) | Err(())) => {}
            (a, w) => return bad("opt function", format!("[opt:{}] gives {a:?}, expected {w:?}", show(n))),
        }
    }
    let want: Result<Option<String>, ()> = match find(list, b"mode") {
        Err(()) => Err(()),
        Ok(o) => match o.flatten() {
            None => Ok(None),
            Some(m) => match std::str::from_utf8(m) {
                Ok(m @ ("hash-asc" | "hash-desc" | "tree-asc" | "tree-desc" | "log-asc" | "log-desc")) => Ok(Some(m.to_string())),
                _ => Err(()),
            },
        },
    };
    let got = q.mode().map(|m| m.map(|m| m.to_string())).map_err(|_| ());
    if got != want {
        return bad("mode", format!("the mode is {got:?}, expected {want:?}"));
    }
    let got = q.get_mode().map(|m| m.to_string()).map_err(|_| ());
    if got != want.map(|m| m.unwrap_or("tree-desc".into())) {
        return bad("default mode", format!("the mode used is {got:?}"));
    }
    if q.qid().map_err(|_| ()) != find(list, b"qid") {
        return bad("qid", format!("the id is {:?}", q.qid()));
    }
    if q.predicates != PktPredicates::default() {
        return bad("option as predicate", "an option became a predicate".to_string());
    }
    reread(&q)
}
/// every point has the lowest type bit, and asking for the type asks for that
fn clash(t: &str) -> bool {
    let Some(v) = ["type:0:", "type:=*:", "type:*=:"].iter().find_map(|p| t.strip_prefix(p)) else { return false };
    let Ok(e) = abe::parse_abe_strict_b(v.as_bytes()) else { return false };
    abe::eval::eval(&CORE_SCOPE, &e).is_ok_and(|v| matches!(v.concat()[..], [b] if b & 1 == 0))
}
fn main() {
    kit::main("Q02", "model_checking", |cx| {
        cx.rule("Every printed form of a query reads back to the same predicates and options; an option is the one last added, or the topmost of a text; text that is no statement is refused without a crash, and pushing fields and bytes gives what their text gives");
        cx.assume("an in-memory database, clock and pipe stand in for the installed ones; the query itself is the real code");
        let u = universe();
        let mut one = vec![];
        for (name, n, _) in NUM {
            for op in OPS {
                if name == "recv" && matches!(op, "0" | "1" | "=*" | "*=") {
                    continue;
                }
                let mut vals = if name == "recv" { vec![vec![0; 8], vec![0, 0, 0, 0, 0, 0, 0, 9], vec![255; 8]] } else { values(&u, name, n) };
                if vals.len() > 6 {
                    let step = vals.len() / 5;
                    vals = vals.into_iter().step_by(step).collect();
                }
                for x in vals {
                    match op {
                        "=*" => one.push(rule(name, op, x[..n - 1].to_vec())),
                        "*=" => one.push(rule(name, op, x[1..].to_vec())),
                        _ => one.push(rule(name, op, x)),
                    }
                }
            }
        }
        for s in space_values().into_iter().chain([flat(&[vec![b':', b'/', 0]]), flat(&[vec![255; 200]]), flat(&[b"[]\n".to_vec(), b"a".to_vec()])]) {
            one.push(rule("prefix", "=", s.clone()));
            one.push(rule("spacename", "=", s));
        }
        for n in LIMITS {
            for op in ["=", "<", ">", "<=", ">=", "0", "1"] {
                for v in [0u32, 1, 3, u32::MAX] {
                    one.push(rule(n, op, v.to_be_bytes()))
                }
            }
        }
        cx.bound("statements", one.len());
        let step = cx.pick(9, 1);
        cx.bound("statements in pairs", one.len() / step);
        cx.section("printed queries read back", || {
        cx.par(one.len() as u64, |i| {
            let i = i as usize;
            for j in i..one.len() {
                if i != j && (i % step != 0 || j % step != 0) {
                    continue;
                }
                let l = if i == j { vec![one[i].clone()] } else { vec![one[i].clone(), one[j].clone()] };
                let Ok(Ok(q)) = no_panic(|| query(&l)) else { continue };
                cx.case_k(b"", &|| show_rules(&l), || masks(contradicts(&l), || {
                    let mut r = Query::default();
                    let t: Vec<String> = l.iter().map(|r| r.text()).collect();
                    no_panic(|| r.parse(t.join("\n").as_bytes(), &CORE_SCOPE))?.map_err(|e| format!("refused in one text: {e:#}"))?;
                    same(&q, &r, "as one text")?;
                    reread(&q)
                }));
            }
        });
        });

        cx.section("options", || {
        let all = entries(&[b"", b"x", b"tree-asc", b"log-desc", b"hash-asc", b"\n:\x00/[\\", b"tree-up"]);
        let few: Vec<Entry> = entries(&[b"x", b"hash-desc"]).into_iter().filter(|e| !cx.quick() || (matches!(&e[0].1[..], b"mode" | b"a:b") && e.len() < 3)).collect();
        cx.bound("options alone and in pairs", all.len());
        cx.bound("options in triples", few.len());
        cx.par(all.len() as u64, |i| {
            let i = i as usize;
            for way in 0..3 {
                cx.case_k(b"", &|| format!("way {way} {}", text(&all[i])), || options(&[all[i].clone()], way));
                for b in &all {
                    cx.case_k(b"", &|| format!("way {way} {} {}", text(&all[i]), text(b)), || options(&[all[i].clone(), b.clone()], way));
                }
            }
        });
        cx.par(few.len() as u64, |i| {
            let i = i as usize;
            for b in &few {
                for c in &few {
                    let l = [few[i].clone(), b.clone(), c.clone()];
                    for way in 0..3 {
                        cx.case_k(b"", &|| format!("way {way} {}", l.iter().map(text).collect::<Vec<_>>().join(" ")), || options(&l, way));
                    }
                }
            }
        });
        });

        cx.section("options beside statements", || {
        let lines = ["hash:>:[b:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA]", ":mode:tree-asc", "prefix:=:/a/b", ":qid:x", "depth:<:[u8:5]", "/mode:x", "", ":mode:log-desc", "i:<:[u32:3]"];
        let k = cx.pick(4, 5);
        cx.bound("lines of a text", k);
        cx.par(lines.len() as u64, |i| {
            let i = i as usize;
            fn go(cx: &Cx, lines: &[&str], l: &mut Vec<usize>, k: usize) {
                cx.case_k(b"", &|| format!("{l:?}"), || {
                    let t: Vec<&str> = l.iter().map(|i| lines[*i]).collect();
                    let mut q = Query::default();
                    no_panic(|| q.parse(t.join("\n").as_bytes(), &CORE_SCOPE))?.map_err(|e| format!("refused: {e:#}"))?;
                    // the first line with an option is the one
                    let top = t.iter().find(|l| l.starts_with(":mode") || l.starts_with("/mode"));
                    let want = match top {
                        None => Ok(None),
                        Some(l) if l.starts_with('/') => Err(()),
                        Some(l) => Ok(Some(Some(l[6..].as_bytes()))),
                    };
                    let got = q.get_option(b"mode").map_err(|_| ());
                    if got != want {
                        return bad("repeated option in a text", format!("the mode is {got:?}, expected {want:?}"));
                    }
                    let mut s = PktPredicates::default();
                    for l in t.iter().filter(|l| !l.is_empty() && !l.starts_with([':', '/'])) {
                        let mut one = Query::default();
                        one.parse(l.as_bytes(), &CORE_SCOPE).unwrap();
                        for p in one.predicates.iter() {
                            s.add_predicate(&p).map_err(|e| format!("{e:#}"))?
                        }
                    }
                    let (s, r) = (settle(Query::from(s)).unwrap(), settle(q.clone()).unwrap());
                    if norm(&s.predicates) != norm(&r.predicates) {
                        return bad("predicates of a text", format!("other predicates: {}", q.predicates));
                    }
                    reread(&q)
                });
                if l.len() < k {
                    for i in 0..lines.len() {
                        l.push(i);
                        go(cx, lines, l, k);
                        l.pop();
                    }
                }
            }
            go(cx, &lines, &mut vec![i], k);
        });
        });

        cx.section("statements that are none", || {
        let fields: Vec<String> = RuleType::iter_all().map(|r| r.to_string()).chain(["", "x", "HASH", "h", "[a:hash]", "\\xff", "hash "].map(String::from)).collect();
        let ops = ["", "=", "==", ">", "<", "0", "1", "?", ">=", "<=", "=*", "*=", "in", "\\xff", " =", "[a:=]"];
        let vals = [
            "", "0", "[u8:0]", "[u8:255]", "[u16:1]", "[u32:0]", "[u32:4294967295]", "[u64:0]", "[u64:18446744073709551615]", "a:b", "/a", "/a/b", "//a", "/", "a/b", ":a", "[a:]", "\\x00", "abcdefghijklmnop", "abcdefghijklmnopq",
            "[b:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA]", "[#:pub]", "/a/b/c/d/e/f/g/h", "/a/b/c/d/e/f/g/h/i", "[", "]", "[[u8:1]:u8]", "[now]", "\\xff", "\u{e9}",
        ];
        let seps = [":", "/", "", "::", "\\:"];
        cx.bound("fields", fields.len());
        cx.par(fields.len() as u64, |i| {
            let i = i as usize;
            for a in seps {
                for op in ops {
                    for b in seps {
                        for v in vals {
                            let t = format!("{}{a}{op}{b}{v}", fields[i]);
                            cx.case_k(b"", &|| format!("{t:?}"), || masks(clash(&t), || {
                                let mut q = Query::default();
                                let r = no_panic(|| q.parse(t.as_bytes(), &CORE_SCOPE)).map_err(|msg| Bad { key: format!("panic {}", fields[i]), msg })?;
                                if r.is_err() {
                                    return Ok(false);
                                }
                                if !t.is_empty() && !t.starts_with([':', '/']) && (a != ":" || !format!("{b}{v}").starts_with(':')) {
                                    return bad("wrong delimiters", "accepted with the wrong delimiters".to_string());
                                }
                                reread(&q)
                            }));
                        }
                    }
                }
            }
        });
        });

        cx.section("short texts", || {
        let alpha: Vec<&[u8]> = vec![b"depth", b"i", b"prefix", b":", b"/", b"=", b"<", b"[u8:1]", b"[u32:1]", b"a", b"[", b"]", b"\n", b"[:a/:b]", b"\\x00", b" "];
        let k = cx.pick(4, 6);
        cx.bound("tokens of a text", k);
        all_concats(cx, &alpha, k, |b| {
            cx.case(b, || {
                let mut q = Query::default();
                if no_panic(|| q.parse(b, &CORE_SCOPE))?.is_err() {
                    return Ok(false);
                }
                reread(&q)
            })
        });
        });

        cx.section("pushed as field, test and bytes", || {
        let types: Vec<RuleType> = RuleType::iter_all().collect();
        cx.par(types.len() as u64, |i| {
            let i = i as usize;
            let t = types[i];
            let name = t.to_string();
            let known = PredicateType::ALL.iter().any(|p| p.to_string() == name);
            for op in OPS.iter().chain(&["0", "1", "?"]) {
                for n in [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 300] {
                    for fill in [0u8, 1, 255] {
                        let val = vec![fill; n];
                        cx.case_k(b"", &|| format!("{name} {op} {n} bytes {fill}"), || masks(name == "type" && matches!(*op, "0" | "=*" | "*=") && n == 1 && fill & 1 == 0, || {
                            let mut q = Query::default();
                            let key = |msg: String| Bad { key: format!("panic {name}"), msg };
                            let pushed = no_panic(|| q.predicates.add_ext_predicate(ExtPredicate { kind: name.parse().unwrap(), op: op.parse().unwrap(), val: val.clone().into() })).map_err(key)?;
                            if !known {
                                if pushed.is_ok() {
                                    return bad("no predicate", format!("the field {name} has no predicate but was accepted"));
                                }
                                return Ok(false);
                            }
                            let mut r = Query::default();
                            let read = no_panic(|| r.parse(format!("{name}:{op}:{}", esc(&val)).as_bytes(), &CORE_SCOPE)).map_err(key)?;
                            if pushed.is_ok() != read.is_ok() {
                                return bad("pushed otherwise", format!("pushed {pushed:?} but read {read:?}"));
                            }
                            if pushed.is_err() {
                                return Ok(false);
                            }
                            same(&q, &r, "pushed")?;
                            reread(&q)
                        }));
                    }
                }
            }
        });
        });
    });
}
