//! The evaluation pipeline against the reference evaluator, with recording functions.
use abe::eval::{ApplyResult, Scope};
use abe::ABE;
use c_abe::interp::*;
use c_abe::text::*;
use kit::*;
use std::cell::RefCell;

#[derive(Default)]
struct Rec {
    log: RefCell<Vec<Vec<u8>>>,
}
fn render(id: &[u8], args: &[&[u8]], init: bool) -> Vec<u8> {
    let mut o = vec![if init { b'<' } else { b'(' }];
    o.extend_from_slice(id);
    for a in args {
        o.push(b',');
        o.extend_from_slice(a);
    }
    o.push(if init { b'>' } else { b')' });
    o
}
/// f, the unnamed function and aa print their call. n is unknown. x fails. c drops everything. w returns delimiters.
fn call(id: &[u8], args: &[&[u8]], init: bool) -> Option<Result<Vec<u8>, ()>> {
    match id {
        b"f" | b"" | b"aa" => Some(Ok(render(id, args, init))),
        b"x" => Some(Err(())),
        b"c" => Some(Ok(vec![])),
        b"w" => Some(Ok(b":/[w]".to_vec())),
        _ => None,
    }
}
fn mac(id: &[u8], rest: &str) -> Option<Result<Vec<u8>, ()>> {
    match id {
        b"f" | b"" => Some(Ok(format!("{{{}|{rest}}}", String::from_utf8_lossy(id)).into_bytes())),
        b"x" => Some(Err(())),
        _ => None,
    }
}
fn conv(r: Option<Result<Vec<u8>, ()>>) -> ApplyResult {
    match r {
        None => ApplyResult::NoValue,
        Some(Ok(v)) => ApplyResult::Value(v),
        Some(Err(())) => ApplyResult::Err(anyhow::anyhow!("refused")),
    }
}
impl Scope for Rec {
    fn try_apply_func(&self, id: &[u8], args: &[&[u8]], init: bool, _: &dyn Scope) -> ApplyResult {
        self.log.borrow_mut().push(render(id, args, init));
        conv(call(id, args, init))
    }
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], _: &dyn Scope) -> ApplyResult {
        let t = from_abe(abe);
        self.log.borrow_mut().push(print(&t).into_bytes());
        conv(mac(id, &print(&t)))
    }
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> {
        ApplyResult::NoValue
    }
}
struct Ref(RefCell<Vec<Vec<u8>>>);
impl Env for Ref {
    fn func(&self, id: &[u8], args: &[&[u8]], init: bool) -> Option<Val<Vec<u8>>> {
        self.0.borrow_mut().push(render(id, args, init));
        call(id, args, init).map(|r| r.map_err(|_| Stop::Err))
    }
    fn mac(&self, id: &[u8], rest: &[T]) -> Option<Val<Vec<u8>>> {
        self.0.borrow_mut().push(print(rest).into_bytes());
        mac(id, &print(rest)).map(|r| r.map_err(|_| Stop::Err))
    }
}
fn case(t: &[T], a: &[ABE]) -> CaseResult {
    let r = Ref(Default::default());
    let want = eval(&r, t);
    if want == Err(Stop::Unspec) {
        return Ok(false);
    }
    let s = Rec::default();
    let got = abe::eval::eval(&s, a);
    let got_s = got.as_ref().ok().map(slots_of);
    ensure!(got_s == want.clone().ok(), "{:?}: got {got:?} expected {want:?}", print(t));
    ensure!(*s.log.borrow() == *r.0.borrow(), "{:?}: calls {:?} expected {:?}", print(t), s.log.borrow().iter().map(|b| show(b)).collect::<Vec<_>>(), r.0.borrow().iter().map(|b| show(b)).collect::<Vec<_>>());
    if let Ok(l) = got {
        let w = want.unwrap();
        ensure!(l.clone().concat() == flat(&w), "flattened {:?}", l);
        // the printed result evaluates to itself
        let p = l.to_string();
        let again = abe::parse_abe_strict_b(p.as_bytes()).map_err(|e| Bad::from(format!("{p:?}: {e}")))?;
        let again = abe::eval::eval(&(), &again).map_err(|e| Bad::from(format!("{p:?}: {e}")))?;
        ensure!(flat(&slots_of(&again)) == flat(&w), "result {p:?} evaluates to {again:?}");
        Ok(!r.0.borrow().is_empty())
    } else {
        Ok(true)
    }
}
fn main() {
    kit::main("A04", "model_checking", |cx| {
        cx.rule("every expression over the stated tokens that the grammar accepts, evaluated with recording functions and compared (result, failure, and the sequence of calls) with the reference evaluator; expressions whose function names are themselves computed are left open; non-trivial: at least one call, or a failure");
        let run = |k: &[u8]| {
            let Some(t) = parse(k, false) else { return };
            cx.states(1);
            cx.transitions(k.len() as u64 + 1);
            cx.traces(1);
            cx.case(k, || {
                let a = abe::parse_abe_strict_b(k).map_err(|e| Bad::from(e.to_string()))?;
                ensure!(from_abe(&a) == t, "parsed as {a:?}");
                case(&t, &a)
            })
        };
        let t: Vec<&[u8]> = vec![b"[", b"]", b":", b"/", b"f", b"x", b"n"];
        let n = cx.pick(8, 9);
        cx.bound("texts over {[ ] : / f x n} up to length", n);
        cx.section("all expressions", || all_concats(cx, &t, n, run));
        let t: Vec<&[u8]> = vec![b"[f", b"]", b":", b"/", b"[", b"[/", b"a", b"[:", b"/c", b"w", b"\\:"];
        let n = cx.pick(6, 7);
        cx.bound("texts over 11 expression fragments up to length", n);
        cx.section("calls, pipelines, macros", || all_concats(cx, &t, n, run));
        cx.section("argument counts around the limit", || {
            for n in 0..40usize {
                for pre in ["[f", "[", "[f/f", "[:", "[f/", "[/f", "[f:x/f"] {
                    for post in ["]", "/f]", "/f:a]", ":[f]]"] {
                        run(format!("{pre}{}{post}", ":a".repeat(n)).as_bytes())
                    }
                }
            }
            for k in 0..40usize {
                run(format!("[f{}]", "/f:b".repeat(k)).as_bytes());
                run(format!("{}a{}", "[f:".repeat(k), "]".repeat(k)).as_bytes());
            }
        });
        cx.section("many components, calls and stages", || {
            cx.par(c_abe::WIDE.len() as u64, |i| {
                let n = c_abe::WIDE[i as usize];
                for p in [":a", "/a", ":", "[f]", "[f:x]:", ":[:a/f]", "[/c:b]", "a", "\\:", ":[f:[f]]", "/[f/f:y]"] {
                    for e in ["", ":", "[n]", "a[f]", "[n]:[f]"] {
                        run(format!("{}{e}", p.repeat(n)).as_bytes());
                        run(format!("{e}{}", p.repeat(n)).as_bytes());
                    }
                }
                for (p, q) in [("f", "/f"), ("f:a", "/f:b"), (":a:b", "/f"), ("f", "/f:[f]"), ("f", "/f:[n]"), ("f:[:\\:]", "/f:\\/")] {
                    run(format!("[{p}{}]", q.repeat(n)).as_bytes());
                    run(format!("[{p}{}/n{}]", q.repeat(n), q.repeat(3)).as_bytes());
                }
                if n < 130 {
                    for (o, c) in [("[f:", "]"), ("[f:a:", ":b]"), ("[:", "/f]"), ("[/c:", "]"), ("[:a/f:", "]"), ("[f:[f]:", "/f]")] {
                        for m in ["", "a", "[n]", "[f]"] {
                            run(format!("{}{m}{}", o.repeat(n), c.repeat(n)).as_bytes())
                        }
                    }
                }
                // long names and values
                let v = "x".repeat(n);
                for t in [format!("[f:{v}]"), format!("[{v}]"), format!("[f/{v}]"), format!("[f{v}:a]"), format!("[/c:{v}:{v}]"), format!("{v}[f:{v}]{v}:{v}")] {
                    run(t.as_bytes())
                }
            })
        });
        cx.sample(|| {
            let s = Rec::default();
            format!("[f:a/f:b] -> {:?}", abe::eval::eval(&s, &abe::parse_abe_strict_b(b"[f:a/f:b]").unwrap()))
        });
    })
}
