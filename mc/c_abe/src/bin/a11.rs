//! Delimited lists and typed expressions: every way to build, read, print and convert a list agrees with a plain model.
use abe::ast::{Ctr, ABE};
use abe::convert::{eval_vec, AnyABE, ToABE, TypedABE};
use abe::eval::{clist, flist, ABItem, ABList};
use abe::scope::BASIC_SCOPE;
use c_abe::interp::*;
use c_abe::text as tx;
use kit::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Bytes(&'static [u8]),
    Ctr(u8),
}
fn ctr(c: u8) -> Ctr {
    if c == b':' {
        Ctr::Colon
    } else {
        Ctr::FSlash
    }
}
/// the model: the components with the delimiter in front of each; consecutive bytes belong together
fn model(ops: &[Op]) -> Slots {
    let mut s: Slots = vec![];
    for o in ops {
        match o {
            Op::Bytes(b) => match s.last_mut() {
                Some(l) => l.1.extend_from_slice(b),
                None => s.push((0, b.to_vec())),
            },
            Op::Ctr(c) => s.push((*c, vec![])),
        }
    }
    s
}
fn build(ops: &[Op]) -> ABList {
    ops.iter().fold(ABList::DEFAULT, |l, o| match o {
        Op::Bytes(b) => l.push_bytes(b),
        Op::Ctr(c) => l.push_ctr(ctr(*c)),
    })
}
fn raw(s: &Slots) -> Vec<u8> {
    s.iter().flat_map(|(c, b)| (*c != 0).then_some(*c).into_iter().chain(b.iter().copied())).collect()
}
fn list(ops: &[Op]) -> CaseResult {
    let m = model(ops);
    let l = build(ops);
    ensure!(slots_of(&l) == m, "list is {:?}", slots_of(&l));
    let comps: Vec<Vec<u8>> = parts(&m).into_iter().map(|p| p.1).collect();
    ensure!(l.iter_bytes().map(|b| b.to_vec()).collect::<Vec<_>>() == comps, "components {:?}", l.iter_bytes().map(show).collect::<Vec<_>>());
    ensure!(l.clone().into_iter_bytes().collect::<Vec<_>>() == comps, "owned components differ");
    ensure!(l.clone().concat() == raw(&m) && Vec::<u8>::from(l.clone()) == raw(&m), "bytes {}", show(&l.clone().concat()));
    ensure!(l.to_string() == text(&m), "printed {:?}", l.to_string());
    let exact = match &m[..] {
        [] => Some(vec![]),
        [(0, b)] => Some(b.clone()),
        _ => None,
    };
    ensure!(l.as_exact_bytes().ok().map(|b| b.to_vec()) == exact, "single value {:?}", l.as_exact_bytes());
    ensure!(l.clone().into_exact_bytes().ok() == exact, "owned single value differs");
    ensure!(l.is_empty() == exact.as_ref().is_some_and(|b| b.is_empty()), "is_empty");
    // through items, expressions and text
    let norm = parts(&m);
    let norm: Slots = if norm[..] == [(0, vec![])] { vec![] } else { norm };
    let eq = |l: &ABList| {
        let p = parts(&slots_of(l));
        (if p[..] == [(0, vec![])] { vec![] } else { p }) == norm
    };
    ensure!(eq(&l.clone().items().collect()), "items do not give the list back");
    ensure!(eq(&l.item_refs().map(|i| match i { ABItem::Ctr(c) => ABItem::Ctr(c), ABItem::Bytes(b) => ABItem::Bytes(b.to_vec()) }).collect()), "item references do not give the list back");
    let items: Vec<(u8, Vec<u8>)> = m.iter().flat_map(|(c, b)| (*c != 0).then(|| (*c, vec![])).into_iter().chain((!b.is_empty()).then(|| (0, b.clone())))).collect();
    ensure!(l.clone().items().map(|i| match i { ABItem::Ctr(c) => (c as u8, vec![]), ABItem::Bytes(b) => (0, b) }).collect::<Vec<_>>() == items, "items");
    ensure!(l.item_refs().map(|i| match i { ABItem::Ctr(c) => (c as u8, vec![]), ABItem::Bytes(b) => (0, b.to_vec()) }).collect::<Vec<_>>() == items, "item references");
    let abe: Vec<ABE> = l.clone().into();
    // a list with an expression in brackets has no such form, the first of them is named
    if abe.len() < 4 {
        let nested = |n: u8| ABE::Expr(abe::ast::Expr::Lst(vec![ABE::Expr(abe::ast::Expr::Bytes(vec![n]))]));
        for i in 0..=abe.len() {
            for j in i..=abe.len() {
                let mut v = abe.clone();
                v.insert(j, nested(2));
                v.insert(i, nested(1));
                ensure!(ABList::try_from(&v[..]).err() == Some(&nested(1)), "a nested expression is taken for bytes, or not the first is named");
            }
        }
    }
    ensure!(ABList::try_from(&abe[..]).is_ok_and(|l| eq(&l)), "the expression does not give the list back");
    ensure!(l.clone().into_iter().collect::<Vec<_>>() == abe, "iteration differs from the expression");
    let t = l.to_string();
    let p = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| Bad::from(format!("{t:?}: {e}")))?;
    ensure!(abe::eval::eval(&BASIC_SCOPE, &p).is_ok_and(|l| eq(&l)), "{t:?} does not give the list back");
    ensure!(abe::eval::eval(&BASIC_SCOPE, &abe).is_ok_and(|l| eq(&l)), "evaluating the expression does not give the list back");
    ensure!(abe::abconf::parse_ablist_b(t.as_bytes()).is_ok_and(|l| eq(&l)), "reading {t:?} does not give the list back");
    if !m.is_empty() {
        let mut q = l.clone();
        let f = q.pop_front();
        ensure!(f.map(|(c, b)| (c.map_or(0, |c| c as u8), b)) == m.first().cloned() && slots_of(&q) == m[1..], "removing the first");
    }
    if m.first().map_or(true, |f| f.0 == 0) {
        for (c, f) in [(b':', clist as fn(Vec<Vec<u8>>) -> ABList), (b'/', flist)] {
            let r = f(m.iter().map(|s| s.1.clone()).collect());
            let w: Slots = m.iter().enumerate().map(|(i, s)| (if i == 0 { 0 } else { c }, s.1.clone())).collect();
            ensure!(slots_of(&r) == w, "list of values with {}: {:?}", c as char, slots_of(&r));
        }
    }
    Ok(m.len() > 1)
}
/// typed expressions: what they accept and give
fn typed(s: &[u8]) -> CaseResult {
    let Some(p) = tx::parse(s, false) else {
        ensure!(TypedABE::<Vec<u8>>::try_from(s).is_err() && TypedABE::<String>::try_from(s).is_err() && AnyABE::try_from(s).is_err(), "malformed text accepted");
        return Ok(false);
    };
    let direct = abe::parse_abe_strict_b(s).ok().and_then(|p| abe::eval::eval(&BASIC_SCOPE, &p).ok());
    let any = AnyABE::try_from(s).map_err(|e| Bad::from(format!("not accepted: {e}")))?;
    ensure!(any.eval(&BASIC_SCOPE).ok() == direct, "untyped value {:?}", any.eval(&BASIC_SCOPE).ok());
    let v = TypedABE::<Vec<u8>>::try_from(s).map_err(|e| Bad::from(format!("not accepted: {e}")))?;
    let w = direct.clone().map(|d| raw(&slots_of(&d)));
    ensure!(v.eval(&BASIC_SCOPE).ok() == w, "bytes {:?}", v.eval(&BASIC_SCOPE).ok());
    let dflt = v.eval_default(b"dflt".to_vec(), &BASIC_SCOPE).ok();
    let wd = direct.as_ref().map(|d| if d.is_empty() { b"dflt".to_vec() } else { w.clone().unwrap() });
    ensure!(dflt == wd, "bytes with default {dflt:?}");
    let one = p.len() == 1;
    let st = TypedABE::<String>::try_from(s);
    ensure!(st.is_ok() == one, "text type accepted={} components={}", st.is_ok(), p.len());
    if let Ok(st) = &st {
        let ws = direct.as_ref().and_then(|d| d.as_exact_bytes().ok()).and_then(|b| String::from_utf8(b.to_vec()).ok());
        ensure!(st.eval(&BASIC_SCOPE).ok() == ws, "text {:?} expected {ws:?}", st.eval(&BASIC_SCOPE).ok());
    }
    // stored and loaded it is the same expression, and of another type only when it fits that
    let stored = stree::write(&any).map_err(|e| Bad::from(format!("not stored: {e}")))?;
    ensure!(stree::read::<AnyABE>(&stored).is_ok_and(|b| b == any) && stree::read::<TypedABE<Vec<u8>>>(&stored).is_ok_and(|b| b == v), "stored as {stored:?}, which loads differently");
    ensure!(stree::read::<Vec<ABE>>(&stored).is_ok_and(|b| b == *any), "stored as {stored:?}, which loads differently");
    let loaded = stree::read::<TypedABE<String>>(&stored);
    ensure!(loaded.as_ref().ok() == st.as_ref().ok(), "loaded as text: {:?} (accepted {})", loaded.is_ok(), one);
    ensure!(any.clone().try_as::<String>().ok().as_ref() == st.as_ref().ok(), "turned into the text type");
    // printed and read back it is the same expression
    for t in [any.to_string(), v.to_string()] {
        ensure!(AnyABE::try_from(t.as_bytes()).is_ok_and(|b| b == any), "printed as {t:?}, which reads differently");
    }
    Ok(direct.is_some_and(|d| !d.is_empty()))
}
struct Whole(Vec<ABE>);
impl ToABE for Whole {
    fn to_abe(&self) -> Vec<ABE> {
        self.0.clone()
    }
}
struct Pieces(Vec<ABE>);
impl ToABE for Pieces {
    fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
        self.0.iter().cloned().for_each(out)
    }
}
/// several typed expressions: their values in order, or the failure of the first that fails
fn several(ts: &[&str]) -> CaseResult {
    let es = || ts.iter().map(|t| AnyABE::try_from(t.as_bytes())).collect::<Result<Vec<_>, _>>().map_err(|e| Bad::from(format!("not accepted: {e}")));
    let one: Vec<_> = es()?.iter().map(|e| e.eval(&BASIC_SCOPE).map_err(|e| format!("{e:?}"))).collect();
    let want: Result<Vec<ABList>, String> = one.iter().cloned().collect();
    let got = eval_vec(es()?, &BASIC_SCOPE).map_err(|e| format!("{e:?}"));
    ensure!(got == want, "{ts:?} at once give {got:?}, one by one {want:?}");
    let all: Vec<ABE> = es()?.into_iter().flat_map(|e| e.unwrap()).collect();
    let t = abe::print_abe(&all);
    ensure!(Whole(all.clone()).to_abe_str() == t && Pieces(all.clone()).to_abe_str() == t, "{ts:?} as text differs from {t:?}");
    ensure!(Whole(all.clone()).to_abe() == all && Pieces(all.clone()).to_abe() == all, "{ts:?} as an expression differs");
    let mut w = vec![];
    Whole(all.clone()).write_abe(&mut |a| w.push(a));
    ensure!(w == all, "{ts:?} written piece by piece differs");
    Ok(want.is_ok() && ts.len() > 1)
}
fn main() {
    kit::main("A11", "model_checking", |cx| {
        cx.rule("every sequence of up to the stated number of appends (values, delimiters) against a plain list model in every view and conversion; every text over the tokens as an expression of each type; non-trivial: at least two components, or a non-empty value");
        let ops = [Op::Bytes(b"a"), Op::Bytes(b""), Op::Ctr(b':'), Op::Ctr(b'/'), Op::Bytes(b":/[\\\x00\xff\n"), Op::Bytes(b"\\")];
        let n = cx.pick(7, 9);
        cx.bound("appends", n);
        for n in 0..=n {
            cx.section(&format!("{n} appends"), || {
                cx.par(count(ops.len(), n), |i| {
                    let o: Vec<Op> = nth_digits(ops.len(), n, i).into_iter().map(|d| ops[d]).collect();
                    let k = format!("{o:?}");
                    cx.states(1);
                    cx.transitions(n as u64);
                    cx.traces(1);
                    cx.case_k(k.as_bytes(), &|| k.clone(), || list(&o))
                })
            })
        }
        cx.section("long lists", || {
            for n in c_abe::WIDE {
                for a in ops {
                    for b in ops {
                        let base: Vec<Op> = (0..n).map(|i| if i % 2 == 0 { a } else { b }).collect();
                        for at in [0, n / 2, n - 1] {
                            for c in ops {
                                let mut o = base.clone();
                                o[at] = c;
                                cx.states(1);
                                cx.transitions(n as u64);
                                cx.traces(1);
                                let k = || format!("{n} appends of {a:?} and {b:?}, {c:?} at {at}");
                                cx.case_k(k().as_bytes(), &k, || list(&o))
                            }
                        }
                    }
                }
            }
        });
        cx.section("long typed expressions", || {
            for n in c_abe::WIDE {
                for p in [":a", "a", ":", "/[u8:7]", "[:a]", "\\:", "[a:7:1]:"] {
                    for e in ["", ":", "[nope]", "a", "]"] {
                        for s in [format!("{}{e}", p.repeat(n)), format!("{e}{}", p.repeat(n))] {
                            cx.states(1);
                            cx.transitions(3);
                            cx.traces(1);
                            cx.case(s.as_bytes(), || typed(s.as_bytes()))
                        }
                    }
                }
            }
        });
        let texts = ["", "a", ":", "/b:", "[u8:7]", "[]", "[nope]", "[u8:999]", "[[:]]", "\\n", "[:a]b"];
        let n = cx.pick(3, 5);
        cx.section("several typed expressions", || {
            for n in 0..=n {
                cx.par(count(texts.len(), n), |i| {
                    let ts: Vec<&str> = nth_digits(texts.len(), n, i).into_iter().map(|d| texts[d]).collect();
                    cx.states(1);
                    cx.transitions(n as u64 + 4);
                    cx.traces(1);
                    cx.case_k(format!("{ts:?}").as_bytes(), &|| format!("{ts:?}"), || several(&ts))
                })
            }
        });
        let toks: Vec<&[u8]> = vec![b"a", b":", b"/", b"[", b"]", b"\\xff", b"\\:", b"u8", b"7", b"nope"];
        let n = cx.pick(6, 7);
        cx.bound("tokens of a typed expression", n);
        cx.section("typed expressions", || {
            all_concats(cx, &toks, n, |s| {
                cx.states(1);
                cx.transitions(3);
                cx.traces(1);
                cx.case(s, || typed(s))
            })
        });
    })
}
