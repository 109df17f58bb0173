//! Taking expressions apart and putting them together: every shape against a direct definition.
use abe::ast::*;
use abe::eval::{ABList, ApplyResult};
use abe::{abe as abem, abev, TypedABE};
use c_abe::text::{self as tx, T};
use kit::*;

fn vals(n: usize) -> Vec<T> {
    let b = |b: &[u8]| T::Bytes(b.to_vec());
    let all = vec![T::Ctr(b':'), T::Ctr(b'/'), b(b"a"), T::Lst(vec![]), b(b""), T::Lst(vec![T::Ctr(b':'), b(b"a")]), b(b"\xff:"), T::Lst(vec![b(b"a")])];
    all[..n].to_vec()
}
type Take<'a> = Option<(Vec<T>, Vec<T>)>;
fn m<const N: usize>(r: Result<(&[ABE; N], &[ABE]), MatchError>) -> Take<'static> {
    r.ok().map(|(a, b)| (tx::from_abe(a), tx::from_abe(b)))
}
fn expr(e: &Expr) -> T {
    tx::from_abe(&[ABE::Expr(e.clone())]).remove(0)
}
fn takes<const N: usize>(l: &[T], a: &[ABE]) -> CaseResult {
    ensure!(m(take::<N>(a)) == (l.len() >= N).then(|| (l[..N].to_vec(), l[N..].to_vec())), "the first {N}: {:?}", take::<N>(a));
    let e = exact::<N>(a).ok().map(|e| tx::from_abe(e));
    ensure!(e == (l.len() == N).then(|| l.to_vec()), "exactly {N}: {e:?}");
    Ok(true)
}
fn is(c: u8) -> fn(&ABE) -> Result<(), MatchError> {
    match c {
        b':' => is_colon,
        _ => is_fslash,
    }
}
fn apart(l: &[T]) -> CaseResult {
    let a = tx::to_abe(l);
    let a = &a[..];
    ensure!(tx::from_abe(a) == l, "expression changed");
    takes::<0>(l, a)?;
    takes::<1>(l, a)?;
    takes::<2>(l, a)?;
    takes::<3>(l, a)?;
    takes::<5>(l, a)?;
    let one = |r: Result<&ABE, MatchError>| r.ok().map(|e| tx::from_abe(std::slice::from_ref(e)));
    ensure!(take_first(a).ok().map(|(f, r)| (tx::from_abe(std::slice::from_ref(f)), tx::from_abe(r))) == (!l.is_empty()).then(|| (l[..1].to_vec(), l[1..].to_vec())), "first: {:?}", take_first(a));
    ensure!(is_empty(a).is_ok() == l.is_empty(), "empty: {:?}", is_empty(a));
    ensure!(one(single(a)) == (l.len() == 1).then(|| l.to_vec()), "single: {:?}", single(a));
    let w = match l.len() {
        0 => Some(None),
        1 => Some(Some(l.to_vec())),
        _ => None,
    };
    ensure!(one_or(a).ok().map(|o| o.map(|e| tx::from_abe(std::slice::from_ref(e)))) == w, "none or one: {:?}", one_or(a));
    let plain = !l.iter().any(|t| matches!(t, T::Ctr(_)));
    ensure!(no_ctrs(a).ok().map(|a| tx::from_abe(a)) == plain.then(|| l.to_vec()), "no delimiters: {:?}", no_ctrs(a));
    for c in [b':', b'/'] {
        let ct = |t: Option<&T>| matches!(t, Some(T::Ctr(x)) if *x == c);
        let ex = |t: Option<&T>| t.filter(|t| !matches!(t, T::Ctr(_))).cloned();
        let cs = c as char;
        let r = strip_prefix(a, is(c)).ok().map(|a| tx::from_abe(a));
        ensure!(r == ct(l.first()).then(|| l[1..].to_vec()), "after a {cs}: {r:?}");
        let r = take_ctr_expr(a, is(c)).ok().map(|(e, r)| (expr(e), tx::from_abe(r)));
        let w = |l: &[T]| if ct(l.first()) { ex(l.get(1)).map(|e| (e, l[2..].to_vec())) } else { None };
        ensure!(r == w(l), "{cs} and a value: {r:?}");
        let r = take_expr_ctr2(a, is(c)).ok().map(|(e, r)| (expr(e), tx::from_abe(r)));
        let w2 = if ct(l.get(1)) { ex(l.first()).map(|e| (e, l[2..].to_vec())) } else { None };
        ensure!(r == w2, "a value and {cs}: {r:?}");
        let (es, rest) = multi_ctr_expr(a, is(c));
        let (mut we, mut wr) = (vec![], l.to_vec());
        while let Some((e, r)) = w(&wr) {
            we.push(e);
            wr = r
        }
        ensure!(es.iter().map(expr).collect::<Vec<_>>() == we && tx::from_abe(rest) == wr, "values after {cs}: {es:?} {rest:?}");
    }
    for (t, a) in l.iter().zip(a) {
        let (c, b, ls) = match t {
            T::Ctr(c) => (Some(*c), None, None),
            T::Bytes(b) => (None, Some(b.clone()), None),
            T::Lst(v) => (None, None, Some(v.clone())),
        };
        ensure!(is_colon(a).is_ok() == (c == Some(b':')) && a.is_colon() == (c == Some(b':')), "{a:?} as ':'");
        ensure!(is_fslash(a).is_ok() == (c == Some(b'/')) && a.is_fslash() == (c == Some(b'/')), "{a:?} as '/'");
        ensure!(as_bytes(a).ok().map(|b| b.to_vec()) == b, "{a:?} as bytes");
        ensure!(as_abstr(a).ok().map(|b| b.to_string()) == b.as_ref().map(|b| tx::enc(b)), "{a:?} as text");
        ensure!(as_lst(a).ok().map(|l| tx::from_abe(l)) == ls, "{a:?} as a list");
        ensure!(as_expr(a).ok().map(expr) == c.is_none().then(|| t.clone()) && a.expr().is_ok() == c.is_none(), "{a:?} as a value");
        if let Ok(e) = as_expr(a) {
            ensure!(e.as_bytes().ok().map(|b| b.to_vec()) == b, "{e:?} as bytes");
            ensure!(e.as_list().ok().map(|l| tx::from_abe(l)) == ls, "{e:?} as a list");
            ensure!(e.as_abstr().map(|b| b.to_string()) == b.as_ref().map(|b| tx::enc(b)), "{e:?} as text");
        }
    }
    // as one list inside another
    let lst: ABE = a.iter().cloned().collect();
    ensure!(tx::from_abe(&[lst.clone()]) == [T::Lst(l.to_vec())] && ABE::from(Expr::from(a.to_vec())) == lst, "collected: {lst:?}");
    // the types: text takes one component, lists take all
    let st = TypedABE::<String>::from(a.to_vec());
    ensure!(st.is_ok() == (l.len() == 1), "as text: {st:?}");
    ensure!(TypedABE::<Vec<u8>>::try_from(a).is_ok_and(|t| t.unwrap() == a) && TypedABE::<ABList>::try_from(a).is_ok_and(|t| t.unwrap() == a), "typed expression changed");
    Ok(l.len() > 1)
}
fn apply(k: usize, v: u8) -> ApplyResult<u8> {
    match k {
        0 => ApplyResult::NoValue,
        1 => ApplyResult::Value(v),
        _ => ApplyResult::Err(anyhow::anyhow!("e{v}")),
    }
}
/// 0, value or error text
fn seen(r: ApplyResult<u8>) -> Result<Option<u8>, String> {
    match r {
        ApplyResult::NoValue => Ok(None),
        ApplyResult::Value(v) => Ok(Some(v)),
        ApplyResult::Err(e) => Err(format!("{e:#}")),
    }
}
fn fits<const L: usize>(b: &[u8]) -> CaseResult {
    let n = b.len();
    let z = |fill: u8| vec![fill; L.saturating_sub(n)];
    ensure!(abe::fit::<L>(b).ok().map(|v| v.to_vec()) == (n == L).then(|| b.to_vec()), "{n} bytes as exactly {L}: {:?}", abe::fit::<L>(b).ok());
    ensure!(abe::fit_front::<L>(b).ok().map(|v| v.to_vec()) == (n <= L).then(|| [b.to_vec(), z(0)].concat()), "{n} bytes at the front of {L}: {:?}", abe::fit_front::<L>(b).ok());
    ensure!(abe::fit_back::<0, L>(b).ok().map(|v| v.to_vec()) == (n <= L).then(|| [z(0), b.to_vec()].concat()), "{n} bytes at the back of {L}: {:?}", abe::fit_back::<0, L>(b).ok());
    ensure!(abe::fit_back::<255, L>(b).ok().map(|v| v.to_vec()) == (n <= L).then(|| [z(255), b.to_vec()].concat()), "{n} bytes at the back of {L} after ff: {:?}", abe::fit_back::<255, L>(b).ok());
    Ok(n <= L)
}
fn cuts(b: &[u8]) -> CaseResult {
    let lead = |x: u8| b.iter().take_while(|c| **c == x).count();
    ensure!(abe::cut_prefix_nulls(b) == &b[lead(0)..], "without leading nulls: {:?}", abe::cut_prefix_nulls(b));
    ensure!(abe::cut_prefixeq::<255>(b) == &b[lead(255)..], "without leading ff: {:?}", abe::cut_prefixeq::<255>(b));
    ensure!(abe::cut_prefixeq::<1>(b) == &b[lead(1)..], "without leading 01: {:?}", abe::cut_prefixeq::<1>(b));
    let tail = b.iter().rev().take_while(|c| **c == 0).count();
    ensure!(abe::cut_ending_nulls2(b) == &b[..b.len() - tail], "without ending nulls: {:?}", abe::cut_ending_nulls2(b));
    fits::<0>(b)?;
    fits::<1>(b)?;
    fits::<2>(b)?;
    fits::<3>(b)?;
    fits::<4>(b)?;
    fits::<5>(b)?;
    fits::<7>(b)?;
    fits::<8>(b)?;
    fits::<16>(b)?;
    Ok(!b.is_empty())
}
fn main() {
    kit::main("A13", "model_checking", |cx| {
        cx.rule("every list of components up to the stated length is asked for every shape, against a direct definition; every combination of answers; every byte string of the stated alphabet cut and fitted; non-trivial: more than one component, an answer, a byte");
        for (alpha, n) in [(8, cx.pick(5, 6)), (4, cx.pick(8, 9))] {
            let v = vals(alpha);
            cx.bound(&format!("components over {alpha} kinds"), n);
            cx.section(&format!("lists of {alpha} kinds"), || {
                for n in 0..=n {
                    cx.par(count(alpha, n), |i| {
                        let l: Vec<T> = nth_digits(alpha, n, i).into_iter().map(|d| v[d].clone()).collect();
                        let k = format!("{l:?}");
                        cx.states(1);
                        cx.transitions(30);
                        cx.traces(1);
                        cx.case_k(k.as_bytes(), &|| k.clone(), || apart(&l))
                    })
                }
            });
        }
        cx.section("long lists", || {
            let v = vals(8);
            for n in c_abe::WIDE {
                for a in &v {
                    for b in &v {
                        for at in [0, 1, n / 2, n - 1] {
                            let mut l: Vec<T> = (0..n).map(|i| if i % 2 == 0 { a.clone() } else { b.clone() }).collect();
                            l[at] = T::Ctr(b':');
                            cx.states(1);
                            cx.transitions(30);
                            cx.traces(1);
                            let k = format!("{n} of {a:?} {b:?}, delimiter at {at}");
                            cx.case_k(k.as_bytes(), &|| k.clone(), || apart(&l))
                        }
                    }
                }
            }
        });
        cx.section("written in the source", || {
            let inner = abev!("x" : "y");
            let is = |v: Vec<ABE>, t: &str| {
                cx.states(1);
                cx.traces(1);
                cx.case(t.as_bytes(), || {
                    let w = tx::parse(t.as_bytes(), false).unwrap();
                    ensure!(tx::from_abe(&v) == w, "gives {v:?}");
                    Ok(!w.is_empty())
                })
            };
            is(abev!(), "");
            is(abev!(:), ":");
            is(abev!(/), "/");
            is(abev!("a"), "a");
            is(abev!("a\x00/:[" : (b"\xff\n".to_vec())), "a\\0\\/\\:\\[:\\f\\n");
            is(abev!( "a" : / "b" ), "a:/b");
            is(abev!({}), "[]");
            is(abev!({ "a" } : { / { : "b" } }), "[a]:[/[:b]]");
            is(abev!( : +(inner.clone()) / +(inner.clone()) ), ":x:y/x:y");
            is(abev!( { +(inner.clone()) } +(inner.clone().into_iter().rev()) ), "[x:y]y:x");
            is(abev!( +(Vec::<ABE>::new()) : ), ":");
            is(abev!( (String::from("a")) : ([1u8, 2]) / (&b"z"[..]) : (vec![7u8]) (inner.clone()) ), "a:\\x01\\x02/z:\\x07[x:y]");
            is(abem!(<Vec<u8>> "p" : "=" / ).unwrap(), "p:=/");
            is(abem!(<String> { "a" : }).unwrap(), "[a:]");
            is(abem!("a" : "b").collect(), "a:b");
        });
        cx.section("answers", || {
            for i in 0..27u64 {
                let d = nth_digits(3, 3, i);
                cx.states(1);
                cx.transitions(10);
                cx.traces(1);
                cx.case(format!("{d:?}").as_bytes(), || {
                    let (a, b, c) = (|| apply(d[0], 1), || apply(d[1], 2), || apply(d[2], 3));
                    let w = |k: usize, v: u8| seen(apply(k, v));
                    ensure!(seen(a().map(|v| v + 10)) == w(d[0], 1).map(|v| v.map(|v| v + 10)), "mapped");
                    ensure!(a().into_ok().map_err(|e| e.to_string()) == w(d[0], 1), "as a result");
                    ensure!(a().into_opt().transpose().map_err(|e| e.to_string()) == w(d[0], 1), "as an option");
                    let mut asked = 0;
                    let r = seen(a().or_else(|| {
                        asked += 1;
                        b().or_else(|| {
                            asked += 1;
                            c()
                        })
                    }));
                    let first = d.iter().position(|k| *k != 0);
                    let want = first.map_or(Ok(None), |p| w(d[p], p as u8 + 1));
                    ensure!(r == want, "one after the other: {r:?}");
                    ensure!(asked == first.unwrap_or(2), "asked {asked} more");
                    let r = seen(a().require("msg"));
                    ensure!(if d[0] == 0 { r.as_ref().is_err_and(|e| e.contains("msg")) } else { r == w(d[0], 1) }, "required: {r:?}");
                    let r = seen(a().context("ctx"));
                    ensure!(if d[0] == 2 { r.as_ref().is_err_and(|e| e.contains("ctx") && e.contains("e1")) } else { r == w(d[0], 1) }, "with context: {r:?}");
                    // stops at what is no value
                    let all = (|| -> ApplyResult<u8> { ApplyResult::Value(a()? + b()? + c()?) })();
                    let stop = d.iter().position(|k| *k != 1);
                    ensure!(seen(all) == stop.map_or(Ok(Some(6)), |p| w(d[p], p as u8 + 1)), "in sequence");
                    let o: Option<Result<u8, anyhow::Error>> = a().into_opt();
                    ensure!(seen(ApplyResult::from(o)) == w(d[0], 1), "from an option of a result");
                    if d[0] != 2 {
                        let o = a().into_ok().unwrap();
                        ensure!(seen(ApplyResult::from(o)) == w(d[0], 1), "from an option");
                        let r = (|| -> ApplyResult<u8> { ApplyResult::Value(o?) })();
                        ensure!(seen(r) == w(d[0], 1), "through an option");
                    }
                    if d[0] != 0 {
                        let r = a().into_opt().unwrap();
                        ensure!(seen(ApplyResult::from(r)) == w(d[0], 1), "from a result");
                    }
                    Ok(first.is_some())
                })
            }
        });
        let n = cx.pick(8, 10);
        cx.bound("bytes that are cut and fitted", n);
        cx.section("cut and fit", || {
            let al = [0u8, 1, 255, b'a'];
            for n in 0..=n {
                cx.par(count(if n > 6 { 3 } else { 4 }, n), |i| {
                    let b: Vec<u8> = nth_digits(if n > 6 { 3 } else { 4 }, n, i).into_iter().map(|d| al[d]).collect();
                    cx.states(1);
                    cx.transitions(40);
                    cx.traces(1);
                    cx.case(&b, || cuts(&b))
                })
            }
            for n in c_abe::WIDE {
                for at in [0, 1, n / 2, n - 1] {
                    for (fill, x) in [(0u8, 1u8), (255, 0), (1, 0), (0, 255)] {
                        let mut b = vec![fill; n];
                        cx.case(&b, || cuts(&b));
                        b[at] = x;
                        cx.case(&b, || cuts(&b));
                    }
                }
            }
        });
    })
}
