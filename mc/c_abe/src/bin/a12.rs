//! Alternatives, nested evaluation and checks inside expressions, with recorded calls.
use abe::ast::ABE;
use abe::eval::{ApplyErr, ApplyResult, Describer, Scope};
use abe::scope::BASIC_SCOPE;
use c_abe::interp::*;
use c_abe::text::T;
use c_abe::{stdfn, text as tx};
use kit::*;
use std::cell::RefCell;

thread_local! { static LOG: RefCell<Vec<Vec<u8>>> = Default::default(); }
fn apply(id: &[u8], args: &[&[u8]]) -> Option<Result<Vec<u8>, ()>> {
    let mut r = id.to_vec();
    r.extend(args.iter().flat_map(|a| std::iter::once(b'(').chain(a.iter().copied())));
    let o = match id {
        b"ok" => Some(Ok(args.concat())),
        b"no" => Some(Err(())),
        _ => None,
    };
    if o.is_some() {
        LOG.with(|l| l.borrow_mut().push(r));
    }
    o
}
struct Rec;
impl Scope for Rec {
    fn try_apply_func(&self, id: &[u8], args: &[&[u8]], _: bool, _: &dyn Scope) -> ApplyResult {
        match apply(id, args) {
            None => ApplyResult::NoValue,
            Some(Ok(v)) => ApplyResult::Value(v),
            Some(Err(())) => ApplyResult::Err(ApplyErr::msg("no")),
        }
    }
    fn try_apply_macro(&self, _: &[u8], _: &[ABE], _: &dyn Scope) -> ApplyResult {
        ApplyResult::NoValue
    }
    fn describe(&self, _: Describer) {}
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> {
        ApplyResult::NoValue
    }
}
struct Ref;
impl Env for Ref {
    fn func(&self, id: &[u8], args: &[&[u8]], _: bool) -> Option<Val<Vec<u8>>> {
        match id {
            b"size?" | b"val?" => Some(if args.len() == 3 { stdfn::func(std::str::from_utf8(id).unwrap(), args)? } else { Err(Stop::Err) }),
            b"C" => Some(if args.is_empty() || args.len() > 16 { Err(Stop::Err) } else { Ok(vec![]) }),
            b"u8" | b"?a" => Some(if args.len() == 1 { stdfn::func(std::str::from_utf8(id).unwrap(), args)? } else { Err(Stop::Err) }),
            b"eval" => Some(if args.len() == 1 {
                match tx::parse(args[0], false) {
                    None => Err(Stop::Err),
                    Some(t) => eval(self, &t).map(|s| flat(&s)),
                }
            } else {
                Err(Stop::Err)
            }),
            _ => Some(apply(id, args)?.map_err(|_| Stop::Err)),
        }
    }
    fn mac(&self, id: &[u8], rest: &[T]) -> Option<Val<Vec<u8>>> {
        let c = |t: &T| matches!(t, T::Ctr(b':'));
        match id {
            b"or" => {
                let mut it = rest.split(c);
                if it.next().map_or(true, |h| !h.is_empty()) {
                    return Some(Err(Stop::Err));
                }
                for alt in it {
                    match eval(self, alt) {
                        Ok(v) => return Some(Ok(flat(&v))),
                        Err(Stop::Unspec) => return Some(Err(Stop::Unspec)),
                        Err(Stop::Err) => {}
                    }
                }
                Some(Err(Stop::Err))
            }
            b"e" => Some(match rest {
                [h, t @ ..] if c(h) => eval(self, t).map(|v| flat(&v)),
                _ => Err(Stop::Err),
            }),
            _ => None,
        }
    }
}
fn one(s: &[u8]) -> CaseResult {
    let Some(t) = tx::parse(s, false) else { return Ok(false) };
    LOG.with(|l| l.borrow_mut().clear());
    let want = eval(&Ref, &t);
    let wlog = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    if want == Err(Stop::Unspec) {
        return Ok(false);
    }
    let p = abe::parse_abe_strict_b(s).map_err(|e| Bad::from(format!("not parsed: {e}")))?;
    let got = abe::eval::eval(&(&BASIC_SCOPE, Rec), &p);
    let glog = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    ensure!(got.as_ref().ok().map(slots_of) == want.as_ref().ok().cloned(), "gives {:?} expected {:?}", got.as_ref().map(|l| l.to_string()).map_err(|e| e.to_string()), want.as_ref().map(text));
    ensure!(glog == wlog, "calls {:?} expected {:?}", glog.iter().map(|l| show(l)).collect::<Vec<_>>(), wlog.iter().map(|l| show(l)).collect::<Vec<_>>());
    Ok(!wlog.is_empty())
}
fn main() {
    kit::main("A12", "model_checking", |cx| {
        cx.rule("every expression over the tokens that the grammar accepts: value, failure and the sequence of calls compared with the reference evaluator; every operator of the checks with every pair of values; non-trivial: at least one call, or a successful check");
        let run = |s: &[u8]| {
            cx.states(1);
            cx.transitions(s.len() as u64);
            cx.traces(1);
            cx.case(s, || one(s))
        };
        let n = cx.pick(7, 8);
        cx.bound("tokens", n);
        cx.section("alternatives", || {
            let toks: Vec<&[u8]> = vec![b"[/or", b"]", b":", b"[no]", b"[ok:a]", b"b", b"/", b"[nope]"];
            all_concats(cx, &toks, n, run)
        });
        cx.section("nested evaluation", || {
            let toks: Vec<&[u8]> = vec![b"[/e", b"[/or", b"]", b":", b"[ok:a]", b"/eval", b"/ok", b"[no]"];
            all_concats(cx, &toks, n, run)
        });
        cx.section("alternatives side by side", || {
            let alts = ["", "a", "[no]", "[ok:x]", "[nope]", "[u8:256]", "[u8:97]", "[/or:[no]:[ok:i]]", "[/or:[no]]", "[ok:y/no]", "[no/ok]", "[C:[no]]", "[:x/val?:=:x]", "[:x/val?:=:y]", "[/e:[ok:q]/r]", "[ok:\\:]", "a/b"];
            let m = cx.pick(3, 4);
            cx.bound("alternatives", m);
            for m in 0..=m {
                cx.par(count(alts.len(), m), |i| {
                    let d = nth_digits(alts.len(), m, i);
                    let body: String = d.iter().map(|d| format!(":{}", alts[*d])).collect();
                    run(format!("[/or{body}]").as_bytes());
                    run(format!("p[/or{body}]:[/e{body}]").as_bytes());
                })
            }
        });
        cx.section("many alternatives", || {
            for n in c_abe::WIDE {
                for bad in ["[no]", "[nope]", "[ok:y/no]", "[/or:[no]]", "[u8:256]", "[[no]]"] {
                    for good in ["[ok:x]", "b", "", "[no]", "[/or:[no]:[ok:i]]"] {
                        for at in [0, 1, n / 2, n - 1, n] {
                            let mut v = vec![bad; n];
                            v.insert(at, good);
                            run(format!("[/or:{}]", v.join(":")).as_bytes());
                            if at == n {
                                run(format!("q[/or:{}/ok:z]:[ok]", v.join(":")).as_bytes());
                            }
                        }
                    }
                }
                if n < 130 {
                    for m in ["[ok:x]", "[no]", "a"] {
                        run(format!("{}{m}{}", "[/or:[no]:".repeat(n), "]".repeat(n)).as_bytes());
                        run(format!("{}{m}{}", "[/or:".repeat(n), ":b]".repeat(n)).as_bytes());
                        run(format!("{}{m}{}", "[/e:".repeat(n), "]".repeat(n)).as_bytes());
                        run(format!("[:{m}{}]", "/eval".repeat(n)).as_bytes());
                    }
                }
            }
        });
        cx.section("checks of longer values", || {
            for n in c_abe::WIDE.into_iter().chain([0, 1, 2, 14, 18, 19, 511, 1000, 65536]) {
                let v: Vec<u8> = (0..n).map(|i| (i % 256) as u8).collect();
                let n = n as u128;
                for m in [n.saturating_sub(1), n, n + 1, n + 256, n + 65536, n + (1 << 32), n + (1 << 64), n ^ 1, n * 10, n % 256] {
                    for t in [m.to_string(), format!("0{m}"), format!("+{m}"), format!("{m} ")] {
                        cx.states(1);
                        cx.transitions(2);
                        cx.traces(2);
                        cx.case_k(format!("{n} bytes size?:=:{t}").as_bytes(), &|| format!("{n} bytes size?:=:{t}"), || stdfn::check("size?", &[&v, b"=", t.as_bytes()]));
                    }
                }
                for at in 0..v.len().min(70) {
                    let mut w = v.clone();
                    w[at] ^= 0x80;
                    for w in [&w[..], &v[..at], &v[..], &w[at..]] {
                        cx.case_k(format!("{n} bytes val?:= changed at {at}").as_bytes(), &|| format!("{n} bytes val?:= changed at {at}"), || stdfn::check("val?", &[&v, b"=", w]));
                    }
                }
            }
        });
        cx.section("checks", || {
            let vals: [&[u8]; 8] = [b"", b"0", b"a", b"aa", b"1", b"2", b"\x00", b":"];
            let ops: [&[u8]; 7] = [b"=", b"", b"<", b">", b"0", b"==", b"!"];
            for f in ["size?", "val?"] {
                for a in vals {
                    for o in ops {
                        for v in vals {
                            let args = [a, o, v];
                            cx.states(1);
                            cx.transitions(2);
                            cx.traces(2);
                            cx.case(stdfn::expr(f, &args).as_bytes(), || stdfn::check(f, &args))
                        }
                    }
                }
            }
        });
    })
}
