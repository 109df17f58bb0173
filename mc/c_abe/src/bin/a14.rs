//! The help names exactly what can be called, and how.
use abe::eval::*;
use abe::scope::help::{DisplayHelp, Help};
use abe::scope::BASIC_SCOPE;
use abe::ABE;
use kit::*;

#[derive(Clone, Copy, Debug, PartialEq)]
struct F {
    id: &'static str,
    style: Option<bool>,
    argc: (usize, usize),
    enc: bool,
}
#[derive(Clone, Debug)]
struct S {
    name: &'static str,
    funcs: Vec<F>,
    macros: Vec<&'static str>,
}
impl EvalScopeImpl for S {
    fn about(&self) -> (String, String) {
        (self.name.into(), format!("about {}", self.name))
    }
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        let v: Vec<ScopeFunc<&'static S>> = self
            .funcs
            .iter()
            .map(|f| ScopeFunc {
                apply: |s: &S, a, init, _| ApplyResult::Value(format!("{}{a:?}{init}", s.name).into_bytes()),
                to_abe: |s, _, _| ApplyResult::Value(format!("[e:{}]", s.name)),
                info: ScopeFuncInfo { id: f.id, init_eq: f.style, to_abe: f.enc, argc: f.argc.0..=f.argc.1, help: "explains" },
            })
            .collect();
        // leaked: the trait wants a borrow of self
        let l: &'static [ScopeFunc<&'static S>] = Box::leak(v.into_boxed_slice());
        unsafe { std::mem::transmute(l) }
    }
    fn list_macros(&self) -> &[ScopeMacro<&Self>] {
        let v: Vec<ScopeMacro<&'static S>> = self.macros.iter().map(|id| ScopeMacro { apply: |s: &S, _, _| ApplyResult::Value(s.name.into()), info: ScopeMacroInfo { id, help: "expands" } }).collect();
        let l: &'static [ScopeMacro<&'static S>] = Box::leak(v.into_boxed_slice());
        unsafe { std::mem::transmute(l) }
    }
}
/// a line about a function as it is printed: name, opens, follows, encodes, shadowed, range
type Line = (String, bool, bool, bool, bool, String);
#[derive(Debug, PartialEq, Default)]
struct Block {
    name: String,
    funcs: Vec<Line>,
    macros: Vec<String>,
}
fn read(text: &str) -> Result<Vec<Block>, Bad> {
    let mut out: Vec<Block> = vec![];
    let mut macros = false;
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("# ") {
            out.push(Block { name: n.trim().into(), ..Default::default() });
            macros = false;
        } else if l.starts_with("## ") {
            macros = l.contains("Macro");
        } else if let (Some(l), Some(b)) = (l.strip_prefix("- "), out.last_mut()) {
            let mut w = l.split_whitespace();
            let id = w.next().ok_or("no name")?.to_string();
            if macros {
                b.macros.push(id);
                continue;
            }
            let rest = l[id.len()..].to_string();
            let dots = rest.find("..=").ok_or("no range")?;
            let lo = rest[..dots].rfind(char::is_whitespace).map_or(0, |p| p + 1);
            let hi = dots + 3 + rest[dots + 3..].find(char::is_whitespace).unwrap_or(rest.len() - dots - 3);
            let head = &rest[..lo];
            b.funcs.push((id, head.contains('['), head.contains('/'), head.contains('?'), head.contains("<partial>"), rest[lo..hi].to_string()));
        }
    }
    Ok(out)
}
fn check(scopes: &[S]) -> CaseResult {
    let e: Vec<EScope<S>> = scopes.iter().cloned().map(EScope).collect();
    let with_help: Vec<&dyn Scope> = e.iter().map(|e| e as &dyn Scope).collect();
    let user: Box<dyn Fn(&mut dyn FnMut(&dyn Scope))> = match &with_help[..] {
        [a] => {
            let a = *a;
            Box::new(move |f| f(&a))
        }
        [a, b] => {
            let p = (*a, *b);
            Box::new(move |f| f(&p))
        }
        [a, b, c] => {
            let p = (*a, *b, *c);
            Box::new(move |f| f(&p))
        }
        _ => unreachable!(),
    };
    let mut out = Ok(false);
    user(&mut |s| out = check_scope(scopes, s));
    out
}
fn check_scope(scopes: &[S], s: &dyn Scope) -> CaseResult {
    let full = (s, EScope(Help));
    let ev = |t: &str| abe::eval::eval(&full, &abe::parse_abe_strict_b(t.as_bytes()).unwrap()).map(|v| String::from_utf8(v.concat()).unwrap());
    let text = DisplayHelp(&full).to_string();
    ensure!(ev("[help]").is_ok_and(|t| t == text), "[help] is another text");
    ensure!(ev("[/help]").is_ok_and(|t| t == text), "[/help] is another text");
    let blocks = read(&text)?;
    ensure!(blocks.len() == scopes.len() + 1, "{} scopes are described, expected {} and the help", blocks.len(), scopes.len());
    let mut seen: Vec<&str> = vec![];
    let mut want = vec![];
    for s in scopes {
        let mut b = Block { name: s.name.into(), macros: s.macros.iter().map(|m| m.to_string()).collect(), funcs: vec![] };
        for f in &s.funcs {
            b.funcs.push((f.id.into(), f.style != Some(false), f.style != Some(true), f.enc, seen.contains(&f.id), format!("{}..={}", f.argc.0, f.argc.1)));
            seen.push(f.id);
        }
        want.push(b);
    }
    for (g, w) in blocks.iter().zip(&want) {
        ensure!(g == w, "described as {g:?} expected {w:?}");
    }
    for sc in scopes {
        ensure!(text.contains(&format!("about {}", sc.name)), "the text about {} is missing", sc.name);
    }
    ensure!(text.matches("explains").count() == seen.len(), "explanations are missing");
    // what is listed first for a name is what answers, and exactly in the ways that are listed
    let all: Vec<&Line> = blocks.iter().flat_map(|b| b.funcs.iter()).collect();
    for id in ["f", "g", "h"] {
        let line = all.iter().find(|l| l.0 == id);
        ensure!(line.map_or(true, |l| !l.4), "the first {id} is listed as shadowed");
        let owner = blocks.iter().find(|b| b.funcs.iter().any(|l| l.0 == id));
        for n in 0..=4usize {
            for init in [true, false] {
                let a = vec![&b"x"[..]; n];
                let r = s.try_apply_func(id.as_bytes(), &a, init, s);
                let Some(l) = line else {
                    ensure!(matches!(r, ApplyResult::NoValue), "{id} is not listed but answers");
                    continue;
                };
                let (lo, hi) = l.5.split_once("..=").unwrap();
                let ok = (lo.parse::<usize>().unwrap()..=hi.parse::<usize>().unwrap()).contains(&n) && if init { l.1 } else { l.2 };
                match r {
                    ApplyResult::Value(v) => {
                        let w = format!("{}{a:?}{init}", owner.unwrap().name);
                        ensure!(ok && v == w.as_bytes(), "{id} with {n} arguments, opening={init}, listed as {l:?}, gives {}", show(&v))
                    }
                    ApplyResult::Err(_) => ensure!(!ok, "{id} with {n} arguments, opening={init}, is listed as {l:?} but fails"),
                    ApplyResult::NoValue => return Err(Bad::from(format!("{id} is listed but nobody answers"))),
                }
            }
        }
        let enc = blocks.iter().find(|b| b.funcs.iter().any(|l| l.0 == id && l.3));
        match s.try_encode(id.as_bytes(), &[], b"v") {
            ApplyResult::Value(v) => ensure!(enc.is_some_and(|b| v == format!("[e:{}]", b.name)), "{id} encodes as {v}, first listed by {enc:?}"),
            _ => ensure!(enc.is_none(), "{id} is listed as an encoder but does not encode"),
        }
        let mac = blocks.iter().find(|b| b.macros.iter().any(|m| m == id));
        match s.try_apply_macro(id.as_bytes(), &[], s) {
            ApplyResult::Value(v) => ensure!(mac.is_some_and(|b| v == b.name.as_bytes()), "the macro {id} answers {}, first listed by {mac:?}", show(&v)),
            _ => ensure!(mac.is_none(), "the macro {id} is listed but does not answer"),
        }
        // help about one name is the description of the first scope with it
        let one = ev(&format!("[help:{id}]")).map_err(|e| Bad::from(format!("[help:{id}]: {e}")))?;
        let got = read(&one)?;
        let first = scopes.iter().find(|s| s.funcs.iter().any(|f| f.id == id) || s.macros.contains(&id));
        match first {
            None => ensure!(got.is_empty() && !one.is_empty(), "help about the unknown {id} describes {got:?}"),
            Some(f) => {
                ensure!(got.len() == 1 && got[0].name == f.name, "help about {id} describes {got:?}");
                let w = want.iter().find(|w| w.name == f.name).unwrap();
                let strip = |l: &Line| (l.0.clone(), l.1, l.2, l.3, l.5.clone());
                ensure!(got[0].macros == w.macros && got[0].funcs.iter().map(strip).eq(w.funcs.iter().map(strip)), "help about {id} gives {got:?} expected {w:?}");
            }
        }
    }
    Ok(!seen.is_empty())
}
/// the standard scope answers nothing that is not listed, and in no other way
fn standard(cx: &Cx) {
    let text = DisplayHelp(&BASIC_SCOPE).to_string();
    let blocks = read(&text).unwrap_or_default();
    let lines: Vec<&Line> = blocks.iter().flat_map(|b| b.funcs.iter()).filter(|l| !l.4).collect();
    let macros: Vec<&String> = blocks.iter().flat_map(|b| b.macros.iter()).collect();
    cx.case(b"the standard scope is described", || {
        let (mut f, mut m) = (0, 0);
        BASIC_SCOPE.describe(&mut |_, _, fs, ms| {
            f += fs.count();
            m += ms.count();
        });
        let n = blocks.iter().map(|b| b.funcs.len()).sum::<usize>();
        ensure!(n == f && macros.len() == m, "{n} functions and {} macros of {f} and {m} are described", macros.len());
        ensure!(f > 30 && m > 3, "hardly anything is described");
        Ok(true)
    });
    for l in &lines {
        let (lo, hi) = l.5.split_once("..=").unwrap();
        let range = lo.parse::<usize>().unwrap()..=hi.parse::<usize>().unwrap();
        for arg in [&b""[..], b"1", b"a", b"AAAA", b"8", b"="] {
            for n in 0..=20usize {
                for init in [true, false] {
                    let listed = range.contains(&n) && if init { l.1 } else { l.2 };
                    cx.states(1);
                    cx.transitions(1);
                    cx.traces(1);
                    cx.case(format!("{} with {n} arguments {}, opening={init}", l.0, show(arg)).as_bytes(), || {
                        let r = BASIC_SCOPE.try_apply_func(l.0.as_bytes(), &vec![arg; n], init, &BASIC_SCOPE);
                        match r {
                            ApplyResult::Err(_) => Ok(listed),
                            ApplyResult::Value(_) => {
                                ensure!(listed, "it answers, but is listed as {l:?}");
                                Ok(true)
                            }
                            ApplyResult::NoValue => {
                                // no answer is for what depends on the value
                                ensure!(listed, "it is listed, but passes on");
                                Ok(false)
                            }
                        }
                    })
                }
            }
        }
    }
    // every name of up to two characters, and those listed with one character more, less or changed
    let mut names: Vec<Vec<u8>> = vec![vec![]];
    for a in 0x20..0x7f_u8 {
        names.push(vec![a]);
        for b in 0x20..0x7f_u8 {
            names.push(vec![a, b]);
        }
    }
    for l in lines.iter().map(|l| &l.0).chain(macros.iter().copied()) {
        let b = l.as_bytes();
        for i in 0..b.len() {
            names.push([&b[..i], &b[i + 1..]].concat());
            for c in [b'x', b'?', b'0', 0u8, b[i] ^ 0x20] {
                let mut v = b.to_vec();
                v[i] = c;
                names.push(v);
                names.push([&b[..i], &[c], &b[i..]].concat());
                names.push([b, &[c]].concat());
            }
        }
    }
    names.sort();
    names.dedup();
    cx.bound("names asked of the standard scope", names.len());
    for n in &names {
        cx.states(1);
        cx.transitions(3);
        cx.traces(1);
        cx.case(n, || {
            let line = lines.iter().find(|l| l.0.as_bytes() == &n[..]);
            let mac = macros.iter().any(|m| m.as_bytes() == &n[..]);
            for k in 0..3usize {
                for init in [true, false] {
                    let r = BASIC_SCOPE.try_apply_func(n, &vec![&b"1"[..]; k], init, &BASIC_SCOPE);
                    ensure!(line.is_some() || matches!(r, ApplyResult::NoValue), "the function is not listed");
                }
            }
            let enc = blocks.iter().flat_map(|b| b.funcs.iter()).any(|l| l.0.as_bytes() == &n[..] && l.3);
            for v in [&b""[..], b"a", &[0; 8], &[7; 16]] {
                let r = BASIC_SCOPE.try_encode(n, &[], v);
                ensure!(enc || matches!(r, ApplyResult::NoValue), "the encoder is not listed");
            }
            let opts: [&[ABE]; 2] = [&[], &[ABE::Ctr(abe::ast::Ctr::Colon)]];
            for o in opts {
                let r = BASIC_SCOPE.try_apply_macro(n, o, &BASIC_SCOPE);
                ensure!(mac || matches!(r, ApplyResult::NoValue), "the macro is not listed");
            }
            Ok(line.is_some() || mac)
        })
    }
}
fn main() {
    kit::main("A14", "model_checking", |cx| {
        cx.rule("every combination of scopes of the stated functions and macros is described and asked in every listed and unlisted way; every name near a standard one is asked; non-trivial: something is listed");
        let mut fs: Vec<F> = vec![];
        for id in ["f", "g"] {
            for style in [None, Some(true), Some(false)] {
                for argc in [(0, 0), (1, 3), (2, 2)] {
                    for enc in [false, true] {
                        fs.push(F { id, style, argc, enc });
                    }
                }
            }
        }
        let few: Vec<F> = fs.iter().copied().filter(|f| f.argc != (2, 2) && f.style != Some(false)).collect();
        let macs: [&[&'static str]; 4] = [&[], &["f"], &["h"], &["g", "f"]];
        let go = |v: Vec<S>| {
            cx.states(1);
            cx.transitions(40);
            cx.traces(1);
            let k = format!("{v:?}");
            cx.case_k(k.as_bytes(), &|| k.clone(), || check(&v))
        };
        let sc = |name, funcs: &[F], macros: &[&'static str]| S { name, funcs: funcs.to_vec(), macros: macros.to_vec() };
        cx.section("one scope", || {
            for m in macs {
                go(vec![sc("s0", &[], m)]);
                for a in &fs {
                    go(vec![sc("s0", &[*a], m)]);
                    for b in &fs {
                        go(vec![sc("s0", &[*a, *b], m)]);
                    }
                }
            }
        });
        cx.section("two scopes", || {
            let opts: Vec<Option<F>> = [None].into_iter().chain(fs.iter().copied().map(Some)).collect();
            let n = opts.len() as u64;
            cx.par(n * n, |i| {
                let (a, b) = (opts[(i / n) as usize], opts[(i % n) as usize]);
                for m in macs {
                    for m2 in macs {
                        go(vec![sc("s0", a.as_slice(), m), sc("s1", b.as_slice(), m2)]);
                    }
                }
            })
        });
        cx.section("three scopes", || {
            let set = if cx.quick() { &few } else { &fs };
            let n = set.len() as u64;
            cx.par(n * n * n, |i| {
                let (a, b, c) = (set[(i / n / n) as usize], set[(i / n % n) as usize], set[(i % n) as usize]);
                go(vec![sc("s0", &[a], &[]), sc("s1", &[b], macs[(i % 4) as usize]), sc("s2", &[c], &["h"])]);
            })
        });
        cx.section("the standard scope", || standard(cx));
    })
}
