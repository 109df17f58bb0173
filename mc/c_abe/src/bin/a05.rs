//! Composition of scopes: precedence, fall through, errors that stop, argument checks, positional arguments.
#![feature(lazy_cell)]
use abe::eval::*;
use abe::scope::argv::{ArgList, ArgV};
use abe::ABE;
use kit::*;
use std::cell::{Cell, LazyCell};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    None,
    Val,
    Err,
}
const ACTS: [A; 3] = [A::None, A::Val, A::Err];
/// answers every request the same way with its own name and counts how often it is asked
#[derive(Clone)]
struct Leaf {
    act: A,
    id: u8,
    asked: Rc<Cell<u32>>,
}
impl Leaf {
    fn new(act: A, id: u8) -> Self {
        Leaf { act, id, asked: Rc::new(Cell::new(0)) }
    }
    fn ans<X>(&self, v: X) -> ApplyResult<X> {
        self.asked.set(self.asked.get() + 1);
        match self.act {
            A::None => ApplyResult::NoValue,
            A::Val => ApplyResult::Value(v),
            // an error may come from deep below
            A::Err => ApplyResult::Err((0..self.id * 3).fold(anyhow::anyhow!("leaf{}", self.id), |e, i| e.context(i)).context(format!("leaf{}", self.id))),
        }
    }
    fn text(&self, what: &str, id: &[u8], more: &str) -> String {
        format!("{what}{}:{}:{more}", self.id, show(id))
    }
}
impl Scope for Leaf {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, _: &dyn Scope) -> ApplyResult {
        self.ans(self.text("f", id, &format!("{a:?}{init}")).into_bytes())
    }
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], _: &dyn Scope) -> ApplyResult {
        self.ans(self.text("m", id, &format!("{abe:?}")).into_bytes())
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> ApplyResult<String> {
        // not evaluated back: asked directly
        self.ans(self.text("e", id, &format!("{o:?}{b:?}")))
    }
    fn describe(&self, cb: Describer) {
        cb(&format!("leaf{}", self.id), "", &mut std::iter::empty(), &mut std::iter::empty())
    }
}
/// `p` asks the scope it is given for `q`
#[derive(Clone)]
struct Asks;
impl Scope for Asks {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, scope: &dyn Scope) -> ApplyResult {
        match id {
            b"p" => scope.try_apply_func(b"q", a, init, scope),
            _ => ApplyResult::NoValue,
        }
    }
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], scope: &dyn Scope) -> ApplyResult {
        match id {
            b"p" => scope.try_apply_macro(b"q", abe, scope),
            _ => ApplyResult::NoValue,
        }
    }
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> {
        ApplyResult::NoValue
    }
}
/// answers `q` only
#[derive(Clone)]
struct Answers;
impl Scope for Answers {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, _: &dyn Scope) -> ApplyResult {
        match id {
            b"q" => ApplyResult::Value(format!("f{a:?}{init}").into_bytes()),
            _ => ApplyResult::NoValue,
        }
    }
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], _: &dyn Scope) -> ApplyResult {
        match id {
            b"q" => ApplyResult::Value(format!("m{abe:?}").into_bytes()),
            _ => ApplyResult::NoValue,
        }
    }
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> {
        ApplyResult::NoValue
    }
}
/// macros of these names, each answering with its place and what it got
struct Macros(Vec<&'static str>);
impl EvalScopeImpl for Macros {
    fn list_macros(&self) -> &[ScopeMacro<&Self>] {
        const PLACE: [fn(&Macros, &[ABE], &dyn Scope) -> ApplyResult; 3] = [
            |_, a, s| ApplyResult::Value(format!("0{a:?}{}", s.try_apply_func(b"q", &[], true, &()).is_value()).into_bytes()),
            |_, a, s| ApplyResult::Value(format!("1{a:?}{}", s.try_apply_func(b"q", &[], true, &()).is_value()).into_bytes()),
            |_, a, s| ApplyResult::Value(format!("2{a:?}{}", s.try_apply_func(b"q", &[], true, &()).is_value()).into_bytes()),
        ];
        let v: Vec<ScopeMacro<&'static Macros>> = self.0.iter().enumerate().map(|(i, id)| ScopeMacro { apply: PLACE[i], info: ScopeMacroInfo { id, help: "" } }).collect();
        let l: &'static [ScopeMacro<&'static Macros>] = Box::leak(v.into_boxed_slice());
        unsafe { std::mem::transmute(l) }
    }
}
trait IsValue {
    fn is_value(self) -> bool;
}
impl IsValue for ApplyResult {
    fn is_value(self) -> bool {
        matches!(self, ApplyResult::Value(_))
    }
}
fn check_outer(s: &dyn Scope) -> CaseResult {
    for init in [true, false] {
        for n in [0, 1, 5] {
            let a = vec![&b"x"[..]; n];
            let got = res(s.try_apply_func(b"p", &a, init, s));
            let want = (1, format!("f{a:?}{init}").into_bytes());
            ensure!(got == want, "p asks for q and gets {:?} {}", got.0, show(&got.1));
        }
    }
    for (e, m) in [("[p]", false), ("[p:a:b]", false), ("[:a/p]", false), ("[/p]", true), ("[/p:a/b]", true), ("[/p:[p]]", true)] {
        let abe = abe::parse_abe_strict_b(e.as_bytes()).unwrap();
        let r = abe::eval::eval(s, &abe);
        ensure!(r.is_ok(), "{e}: {r:?}");
        ensure!(r.unwrap().concat().starts_with(if m { b"m" } else { b"f" }), "{e}: another answer");
    }
    Ok(true)
}
fn res<X: Into<Vec<u8>>>(r: ApplyResult<X>) -> (u8, Vec<u8>) {
    match r {
        ApplyResult::NoValue => (0, vec![]),
        ApplyResult::Value(v) => (1, v.into()),
        ApplyResult::Err(e) => (2, e.to_string().into_bytes()),
    }
}
fn ask(s: &dyn Scope) -> [(u8, Vec<u8>); 3] {
    let opts = [ABE::Expr(abe::ast::Expr::Bytes(b"o".to_vec()))];
    [res(s.try_apply_func(b"i", &[b"x", b""], true, &())), res(s.try_apply_macro(b"i", &opts, &())), res(s.try_encode(b"i", &opts, b"v"))]
}
/// first leaf that answers decides; leaves after it are not asked
fn check(s: &dyn Scope, leaves: &[&Leaf]) -> CaseResult {
    leaves.iter().for_each(|l| l.asked.set(0));
    let got = ask(s);
    let asked: Vec<u32> = leaves.iter().map(|l| l.asked.get()).collect();
    let dec = leaves.iter().position(|l| l.act != A::None);
    let want = match dec {
        None => [(0, vec![]), (0, vec![]), (0, vec![])],
        Some(i) => ask(leaves[i]),
    };
    ensure!(got == want, "got {:?} expected {:?}", got.clone().map(|g| (g.0, show(&g.1))), want.clone().map(|g| (g.0, show(&g.1))));
    for (i, n) in asked.iter().enumerate() {
        let w = if dec.map_or(true, |d| i <= d) { 3 } else { 0 };
        ensure!(*n == w, "scope {i} was asked {n} times for 3 requests, expected {w}");
    }
    // all are described in the order they are asked
    let mut names = vec![];
    s.describe(&mut |n, _, _, _| names.push(n.to_string()));
    names.retain(|n| n.starts_with("leaf"));
    ensure!(names == leaves.iter().map(|l| format!("leaf{}", l.id)).collect::<Vec<_>>(), "described as {names:?}");
    // the same through the evaluator
    let e = abe::eval::eval(s, &abe::parse_abe_strict_b(b"[i:x:]").unwrap());
    let m = abe::eval::eval(s, &abe::parse_abe_strict_b(b"[/i:x]").unwrap());
    let ok = dec.is_some_and(|d| leaves[d].act == A::Val);
    ensure!(e.is_ok() == ok && m.is_ok() == ok, "evaluation: {e:?} {m:?}, expected success={ok}");
    if ok {
        ensure!(e.unwrap().concat() == want[0].1, "evaluated function");
    }
    // an encoder that fails stops, unless errors are ignored; none found is a failure
    if dec.is_none() || leaves[dec.unwrap()].act == A::Err {
        for ignore in [false, true] {
            ensure!(abe::eval::encode(s, b"v", "i", ignore).is_err(), "encode without an encoder succeeded");
            let r = abe::eval::encode(s, b"v", "i/", ignore);
            let want = dec.is_none() || ignore;
            ensure!(r.is_ok() == want, "encode with text fallback ignore={ignore}: {r:?}");
            if want {
                ensure!(r.unwrap() == "v", "fallback");
            }
        }
    }
    Ok(dec.is_some())
}
/// the leaves nested in pairs, around an empty scope
fn stack(leaves: &[Leaf], right: bool, inner: &dyn Scope, f: &mut dyn FnMut(&dyn Scope)) {
    match (leaves, right) {
        ([], _) => f(inner),
        ([rest @ .., l], true) => stack(rest, right, &(l.clone(), inner), f),
        ([l, rest @ ..], false) => stack(rest, right, &(inner, l.clone()), f),
    }
}
type F = ScopeFunc<&'static Tab>;
struct Tab;
struct Imp(Vec<(usize, usize, Option<bool>, bool)>);
/// Functions f0.. with the given argument ranges and call styles
impl EvalScopeImpl for Imp {
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        const NAMES: [&str; 4] = ["f0", "f1", "f2", "f0"];
        let v: Vec<ScopeFunc<&'static Imp>> = self
            .0
            .iter()
            .enumerate()
            .map(|(i, (lo, hi, init, enc))| ScopeFunc {
                apply: |_, a, init, _| ApplyResult::Value(format!("{a:?}{init}").into_bytes()),
                to_abe: |_, b, _| ApplyResult::Value(format!("[e:{}]", b.len())),
                info: ScopeFuncInfo { id: NAMES[i], init_eq: *init, to_abe: *enc, argc: *lo..=*hi, help: "" },
            })
            .collect();
        // leaked: the trait wants a borrow of self
        let l: &'static [ScopeFunc<&'static Imp>] = Box::leak(v.into_boxed_slice());
        unsafe { std::mem::transmute(l) }
    }
}
/// built when it is first asked
fn lazy<'a>(l: &'a Leaf) -> LazyCell<Leaf> {
    // a function without captures: the leaf is handed over beside it
    thread_local!(static NEXT: std::cell::RefCell<Vec<Leaf>> = Default::default());
    NEXT.with(|n| n.borrow_mut().push(l.clone()));
    let c: LazyCell<Leaf> = LazyCell::new(|| NEXT.with(|n| n.borrow_mut().pop().unwrap()));
    LazyCell::force(&c);
    c
}
fn main() {
    let _: Option<F> = None;
    kit::main("A05", "model_checking", |cx| {
        cx.rule("every assignment of {no answer, value, error} to up to three scopes in every composition; every argument count and call style against every declared range; every positional argument index against every list length; non-trivial: some scope answers");
        cx.section("compositions", || {
            for i in 0..27u64 {
                let d = nth_digits(3, 3, i);
                let mk = || [Leaf::new(ACTS[d[0]], 0), Leaf::new(ACTS[d[1]], 1), Leaf::new(ACTS[d[2]], 2)];
                let k = |n: &str| format!("{n} {:?}", d.iter().map(|x| ACTS[*x]).collect::<Vec<_>>()).into_bytes();
                macro_rules! comp {
                    ($name:literal, |$a:ident,$b:ident,$c:ident| $e:expr, [$($l:expr),*]) => {{
                        let [$a, $b, $c] = mk();
                        let (_a,_b,_c) = (&$a,&$b,&$c);
                        let leaves: Vec<Leaf> = [$($l),*].iter().map(|i: &usize| [&$a,&$b,&$c][*i].clone()).collect();
                        let s = $e;
                        cx.states(1); cx.transitions(8); cx.traces(1);
                        cx.case(&k($name), || check(&s, &leaves.iter().collect::<Vec<_>>()));
                    }};
                }
                comp!("a", |a, b, c| a.clone(), [0]);
                comp!("(a,b)", |a, b, c| (a.clone(), b.clone()), [0, 1]);
                comp!("(a,b,c)", |a, b, c| (a.clone(), b.clone(), c.clone()), [0, 1, 2]);
                comp!("((a,b),c)", |a, b, c| ((a.clone(), b.clone()), c.clone()), [0, 1, 2]);
                comp!("(a,(b,c))", |a, b, c| (a.clone(), (b.clone(), c.clone())), [0, 1, 2]);
                comp!("(a,None,b)", |a, b, c| (a.clone(), None::<Leaf>, b.clone()), [0, 1]);
                comp!("((),a,b)", |a, b, c| ((), a.clone(), b.clone()), [0, 1]);
                comp!("(Some a, Rc b, Arc c)", |a, b, c| (Some(a.clone()), Rc::new(b.clone()), Arc::new(c.clone())), [0, 1, 2]);
                comp!("(&a,&dyn b,&c)", |a, b, c| (&a, &b as &dyn Scope, &c), [0, 1, 2]);
                comp!("(Ok a, b)", |a, b, c| (anyhow::Ok(a.clone()), b.clone()), [0, 1]);
                comp!("(lazy a, (b, lazy c))", |a, b, c| (lazy(&a), (b.clone(), lazy(&c))), [0, 1, 2]);
                comp!("(lazy a, lazy b, lazy c)", |a, b, c| (lazy(&a), lazy(&b), lazy(&c)), [0, 1, 2]);
                comp!("(&&a, Some Some b, Rc Rc c)", |a, b, c| (&&a, Some(Some(b.clone())), Rc::new(Rc::new(c.clone()))), [0, 1, 2]);
                comp!("(c,(b,a))", |a, b, c| (c.clone(), (b.clone(), a.clone())), [2, 1, 0]);
            }
            // a scope that could not be built fails every request that reaches it
            for act in ACTS {
                let l = Leaf::new(act, 0);
                let s = (l.clone(), Err::<Leaf, _>(anyhow::anyhow!("unavailable")), Leaf::new(A::Val, 1));
                cx.states(1);
                cx.traces(1);
                cx.case(format!("(a {act:?}, Err, b)").as_bytes(), || {
                    let got = ask(&s).map(|g| g.0);
                    let want = if act == A::Val { 1 } else { 2 };
                    ensure!(got == [want; 3], "got {got:?} expected {want}");
                    Ok(true)
                })
            }
        });
        cx.section("deep stacks", || {
            for n in [4usize, 5, 6, 7, 8, 9, 10, 16, 17, 33, 64] {
                for at in (0..n).filter(|a| n < 11 || a % 7 == 0 || n - a < 3).map(Some).chain([None]) {
                    for (act, after) in [(A::Val, A::Val), (A::Err, A::Val), (A::Val, A::Err), (A::Val, A::None), (A::Err, A::None)] {
                        for right in [true, false] {
                            let leaves: Vec<Leaf> = (0..n)
                                .map(|i| {
                                    let a = match at {
                                        Some(k) if i == k => act,
                                        Some(k) if i > k => after,
                                        _ => A::None,
                                    };
                                    Leaf::new(a, i as u8)
                                })
                                .collect();
                            cx.states(1);
                            cx.transitions(3);
                            cx.traces(1);
                            cx.case(format!("{n} scopes, {at:?} is {act:?} then {after:?}, nested right={right}").as_bytes(), || {
                                let mut r = Ok(false);
                                let all: Vec<&Leaf> = leaves.iter().collect();
                                stack(&leaves, right, &(), &mut |s| r = check(s, &all));
                                r
                            })
                        }
                    }
                }
            }
        });
        cx.section("the scope that is handed over", || {
            macro_rules! outer {
                ($($name:literal $s:expr;)*) => { $({
                    cx.states(1); cx.transitions(12); cx.traces(1);
                    cx.case($name.as_bytes(), || { let s = $s; check_outer(&s) });
                })* };
            }
            let (p, q) = (Asks, Answers);
            let (pd, qd): (&dyn Scope, &dyn Scope) = (&p, &q);
            let lp: fn() -> LazyCell<Asks> = || LazyCell::new(|| Asks);
            let lq: fn() -> LazyCell<Answers> = || LazyCell::new(|| Answers);
            outer! {
                "(p,q)" (p.clone(), q.clone());
                "(q,p)" (q.clone(), p.clone());
                "(p,q,())" (p.clone(), q.clone(), ());
                "(q,p,())" (q.clone(), p.clone(), ());
                "(p,(),q)" (p.clone(), (), q.clone());
                "(q,(),p)" (q.clone(), (), p.clone());
                "((),p,q)" ((), p.clone(), q.clone());
                "((),q,p)" ((), q.clone(), p.clone());
                "((p,()),q)" ((p.clone(), ()), q.clone());
                "(((),p),q)" (((), p.clone()), q.clone());
                "(q,(p,()))" (q.clone(), (p.clone(), ()));
                "(q,((),p))" (q.clone(), ((), p.clone()));
                "((p,(),()),(q,()))" ((p.clone(), (), ()), (q.clone(), ()));
                "(((),p,()),((),q))" (((), p.clone(), ()), ((), q.clone()));
                "(((),(),p),((),(),q))" (((), (), p.clone()), ((), (), q.clone()));
                "(Some p,Some q)" (Some(p.clone()), Some(q.clone()));
                "(Some q,Some p)" (Some(q.clone()), Some(p.clone()));
                "(Rc p,Rc q)" (Rc::new(p.clone()), Rc::new(q.clone()));
                "(Rc q,Rc p)" (Rc::new(q.clone()), Rc::new(p.clone()));
                "(Arc p,Arc q)" (Arc::new(p.clone()), Arc::new(q.clone()));
                "(Arc q,Arc p)" (Arc::new(q.clone()), Arc::new(p.clone()));
                "(&p,&q)" (&p, &q);
                "(&q,&p)" (&q, &p);
                "(&dyn p,&dyn q)" (pd, qd);
                "(&dyn q,&dyn p)" (qd, pd);
                "(Ok p,Ok q)" (anyhow::Ok(p.clone()), anyhow::Ok(q.clone()));
                "(Ok q,Ok p)" (anyhow::Ok(q.clone()), anyhow::Ok(p.clone()));
                "(lazy p,lazy q)" (lp(), lq());
                "(lazy q,lazy p)" (lq(), lp());
                "(Err, after p and q)" (p.clone(), (q.clone(), Err::<Asks, _>(anyhow::anyhow!("unavailable"))));
            }
        });
        cx.section("names of macros", || {
            let names = ["m", "m0", "M", "mm", "", "m\0", "0"];
            for a in names {
                for b in names {
                    for c in names {
                        let have = [a, b, c];
                        let s = EScope(Macros(have.to_vec()));
                        cx.states(1);
                        cx.transitions(names.len() as u64);
                        cx.traces(1);
                        cx.case(format!("{have:?}").as_bytes(), || {
                            let opts = [ABE::Expr(abe::ast::Expr::Bytes(b"o".to_vec()))];
                            for n in names {
                                let r = res(s.try_apply_macro(n.as_bytes(), &opts, &Answers));
                                let want = match have.iter().position(|h| *h == n) {
                                    Some(i) => (1, format!("{i}{opts:?}true").into_bytes()),
                                    None => (0, vec![]),
                                };
                                ensure!(r == want, "{n:?} gives {} {:?}", r.0, show(&r.1));
                                ensure!(res(s.try_apply_func(n.as_bytes(), &[], true, &Answers)).0 == 0, "the macro {n:?} answers as a function");
                            }
                            Ok(have.iter().any(|h| names.contains(h)))
                        })
                    }
                }
            }
        });
        cx.section("argument ranges and call styles", || {
            let styles = [None, Some(true), Some(false)];
            for lo in 0..=4usize {
                for hi in lo..=5usize {
                    for st in styles {
                        for enc in [false, true] {
                            // a second function of the same name is never reached
                            let s = EScope(Imp(vec![(lo, hi, st, enc), (0, 16, None, false), (1, 1, None, false), (0, 16, None, false)]));
                            for n in 0..=6usize {
                                for init in [true, false] {
                                    cx.states(1);
                                    cx.transitions(1);
                                    cx.traces(1);
                                    cx.case(format!("range {lo}..={hi} style {st:?}: {n} arguments, opening={init}").as_bytes(), || {
                                        let args = vec![&b"a"[..]; n];
                                        let ok = (lo..=hi).contains(&n) && st.map_or(true, |s| s == init);
                                        let r = res(s.try_apply_func(b"f0", &args, init, &()));
                                        ensure!(r.0 == if ok { 1 } else { 2 }, "answer {r:?}, expected success={ok}");
                                        if ok {
                                            ensure!(r.1 == format!("{args:?}{init}").into_bytes(), "arguments changed: {}", show(&r.1));
                                        }
                                        ensure!(res(s.try_apply_func(b"f3", &args, init, &())).0 == 0, "unknown name answered");
                                        for no in [&b""[..], b"f", b"F0", b"0", b"f00", b"f0 ", b" f0", b"f0\0", b"\0f0", b"1f", b"f0f0", b"\xff"] {
                                            ensure!(res(s.try_apply_func(no, &args, init, &())).0 == 0, "the name {} answered", show(no));
                                            ensure!(res(s.try_encode(no, &[], b"xy")).0 == 0, "the encoder {} answered", show(no));
                                            ensure!(res(s.try_apply_macro(no, &[], &())).0 == 0, "the macro {} answered", show(no));
                                        }
                                        ensure!(res(s.try_apply_macro(b"f0", &[], &())).0 == 0, "the function answers as a macro");
                                        ensure!(res(s.try_encode(b"f0", &[], b"xy")).0 == enc as u8, "encoder present={enc}");
                                        // through the evaluator: a failure is final even though a later scope has the name
                                        if init {
                                            let e = format!("[f0{}]", ":a".repeat(n));
                                            let l = Leaf::new(A::Val, 7);
                                            let r = abe::eval::eval(&(&s, &l), &abe::parse_abe_strict_b(e.as_bytes()).unwrap());
                                            ensure!(r.is_ok() == ok && l.asked.get() == 0, "{e}: {r:?}, later scope asked {} times", l.asked.get());
                                        }
                                        Ok(ok)
                                    })
                                }
                            }
                        }
                    }
                }
            }
        });
        cx.section("positional arguments", || {
            for n in 0..=12usize {
                let vals: Vec<Vec<u8>> = (0..n).map(|i| vec![b'v', i as u8]).collect();
                let refs: Vec<&[u8]> = vals.iter().map(|v| &v[..]).collect();
                cx.case(format!("at most 8 values: {n}").as_bytes(), || {
                    ensure!(ArgV::try_fit(&refs).is_some() == (n <= 8), "{n} values accepted={}", n > 8);
                    Ok(true)
                });
                for idx in 0..=13usize {
                    cx.states(1);
                    cx.transitions(1);
                    cx.traces(1);
                    cx.case(format!("value {idx} of {n}").as_bytes(), || {
                        let e = abe::parse_abe_strict_b(format!("[{idx}]").as_bytes()).unwrap();
                        let want = vals.get(idx).cloned();
                        let l = ArgList::new(&refs);
                        let r = abe::eval::eval(&l, &e).ok().map(|v| v.concat());
                        ensure!(r == want, "list: [{idx}] of {n} gives {r:?}");
                        if let Some(a) = ArgV::try_fit(&refs) {
                            let r = abe::eval::eval(&EScope(a.clone()), &e).ok().map(|v| v.concat());
                            ensure!(r == want, "argv: [{idx}] of {n} gives {r:?}");
                            // asked for and absent is an error, not a fall through
                            let r = res((EScope(a), Leaf::new(A::Val, 1)).try_apply_func(idx.to_string().as_bytes(), &[], true, &()));
                            if idx < 8 {
                                ensure!(r.0 == if want.is_some() { 1 } else { 2 }, "argv: [{idx}] of {n} falls through {r:?}");
                            }
                        }
                        let r = res((l, Leaf::new(A::Val, 1)).try_apply_func(idx.to_string().as_bytes(), &[], true, &()));
                        ensure!(r.0 == if want.is_some() { 1 } else { 2 }, "list: [{idx}] of {n} falls through {r:?}");
                        for bad in [format!("[{idx}:x]"), format!("[:x/{idx}]")] {
                            let e = abe::parse_abe_strict_b(bad.as_bytes()).unwrap();
                            ensure!(abe::eval::eval(&ArgList::new(&refs), &e).is_err(), "list: {bad} accepted");
                            if let Some(a) = ArgV::try_fit(&refs) {
                                ensure!(abe::eval::eval(&EScope(a), &e).is_err(), "argv: {bad} accepted");
                            }
                        }
                        Ok(want.is_some())
                    })
                }
            }
        });
    })
}
