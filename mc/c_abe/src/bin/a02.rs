//! Expression text: parse against the grammar, print/parse round trip, rejection of malformed text.
use abe::ast::*;
use c_abe::text::*;
use kit::*;

fn parse_case(s: &[u8]) -> CaseResult {
    for loose in [false, true] {
        let want = parse(s, loose);
        let got = parse_abe(s, loose).ok();
        let got_t = got.as_ref().map(|g| from_abe(g));
        ensure!(got_t == want, "parse(loose={loose}) of {:?}: got {got_t:?} expected {want:?}", show(s));
        if let Some(g) = &got {
            let p = print_abe(g.iter());
            ensure!(p.bytes().all(|b| (0x20..=0x7e).contains(&b)), "printed form {p:?} is not printable ascii");
            let again = parse_abe_strict_b(p.as_bytes()).map_err(|e| Bad::from(format!("{:?} prints as {p:?} which does not parse: {e}", show(s))))?;
            ensure!(from_abe(&again) == want.clone().unwrap(), "{:?} prints as {p:?} which parses as {again:?}", show(s));
        }
        if !loose {
            ensure!(parse_abe_strict_b(s).ok() == got, "the strict parser disagrees with parse_abe");
        }
    }
    Ok(parse(s, false).is_some())
}
/// every tree: printing must be exact and reading it back must give the normal form
fn tree_case(t: &[T]) -> CaseResult {
    let a = to_abe(t);
    let p = print_abe(a.iter());
    ensure!(p == print(t), "tree {t:?} prints as {p:?} expected {:?}", print(t));
    let back = parse_abe_strict_b(p.as_bytes()).map_err(|e| Bad::from(format!("{t:?} prints as {p:?} which does not parse: {e}")))?;
    ensure!(from_abe(&back) == normal(t), "{t:?} -> {p:?} -> {back:?}");
    let l = parse_abe(p.as_bytes(), true).map_err(|e| Bad::from(format!("{e}")))?;
    ensure!(l == back, "the lenient reader differs on {p:?}");
    // listed text is ascii, so the lenient and the strict reader must agree on it
    Ok(!t.is_empty())
}
/// all trees with exactly n nodes
fn trees(n: usize, atoms: &[T], memo: &mut Vec<Vec<Vec<T>>>) -> Vec<Vec<T>> {
    while memo.len() <= n {
        let k = memo.len();
        let mut out = vec![];
        if k == 0 {
            out.push(vec![])
        } else {
            for first in 1..=k {
                let heads: Vec<T> = if first == 1 { atoms.iter().cloned().chain([T::Lst(vec![])]).collect() } else { memo[first - 1].iter().map(|l| T::Lst(l.clone())).collect() };
                for h in heads {
                    for rest in &memo[k - first] {
                        let mut v = vec![h.clone()];
                        v.extend(rest.iter().cloned());
                        out.push(v)
                    }
                }
            }
        }
        memo.push(out)
    }
    memo[n].clone()
}
fn key(s: &[T]) -> Vec<u8> {
    format!("{s:?}").into_bytes()
}
fn main() {
    kit::main("A02", "model_checking", |cx| {
        cx.rule("every text over the token alphabet up to the stated length, read by the strict and the lenient reader and compared with the grammar; every syntax tree up to the stated size printed and read back; non-trivial: accepted by the strict grammar, non-empty tree");
        let run = |k: &[u8]| {
            cx.states(1);
            cx.transitions(k.len() as u64 + 1);
            cx.traces(2);
            cx.case(k, || parse_case(k));
        };
        let t: Vec<&[u8]> = vec![b"a", b"\\", b"x", b"0", b"[", b"]", b":", b"/", b"\n", b"\xc3", b" "];
        let n = cx.pick(6, 7);
        cx.bound("texts over 11 characters up to length", n);
        cx.section("texts over all token classes", || all_concats(cx, &t, n, run));
        let t: Vec<&[u8]> = vec![b"a", b"[", b"]", b":", b"/"];
        let n = cx.pick(9, 11);
        cx.bound("texts over {a [ ] : /} up to length", n);
        cx.section("bracket structure", || all_concats(cx, &t, n, run));
        cx.section("every single byte in context", || {
            for c in 0..=255u8 {
                for pre in [&b""[..], b"a", b"[", b":", b"\\", b"\\x", b"\\x4"] {
                    for post in [&b""[..], b"a", b"]", b":", b"\\", b"00"] {
                        run(&[pre, &[c], post].concat())
                    }
                }
            }
        });
        cx.section("long texts", || {
            let pieces: [&[u8]; 14] = [b"a", b":", b"/", b"[]", b"[a]", b"\\x00", b"[a:b/c]", b"\\:", b"\\[", b"a:", b"[:[/]]", b"\\n", b"\xc3", b"/[a"];
            let ends: [&[u8]; 9] = [b"", b"]", b"[", b"\\", b":", b"a", b"\n", b"\\x4", b"[x]"];
            let ns: Vec<usize> = c_abe::WIDE.into_iter().chain(c_abe::VERY_WIDE).collect();
            cx.par((ns.len() * pieces.len()) as u64, |i| {
                let (n, p) = (ns[i as usize / pieces.len()], pieces[i as usize % pieces.len()]);
                if p.len() > 3 && n > 1024 || p == b"/[a" && n > 300 {
                    return;
                }
                for e in ends {
                    let s = [&p.repeat(n)[..], e].concat();
                    cx.states(1);
                    cx.transitions(n as u64);
                    cx.traces(2);
                    cx.case_k(format!("{n} times {} then {}", show(p), show(e)).as_bytes(), &|| format!("{n} times {} then {}", show(p), show(e)), || parse_case(&s));
                    let s = [e, &p.repeat(n)[..], e].concat();
                    cx.case_k(format!("{n} times {} between {}", show(p), show(e)).as_bytes(), &|| format!("{n} times {} between {}", show(p), show(e)), || parse_case(&s));
                }
            })
        });
        let atoms = [T::Ctr(b':'), T::Ctr(b'/'), T::Bytes(b"a".to_vec()), T::Bytes(vec![]), T::Bytes(b"[:/]\\\n\0\xff\x80".to_vec())];
        let n = cx.pick(5, 6);
        cx.bound("syntax trees up to nodes", n);
        let mut memo = vec![];
        for k in 0..=n {
            let all = trees(k, &atoms, &mut memo);
            cx.section(&format!("trees of {k} nodes"), || {
                cx.par(all.len() as u64, |i| {
                    let t = &all[i as usize];
                    cx.states(1);
                    cx.transitions(k as u64 + 1);
                    cx.traces(1);
                    cx.case(&key(t), || tree_case(t));
                })
            });
        }
        // nesting: read, print and evaluate on an ordinary 2 MB thread stack
        cx.bound("nesting depth", 32000);
        cx.section("deep nesting", || {
            for d in [1usize, 2, 10, 50, 100, 200, 255, 256, 257, 1000, 3000, 10000, 32000] {
                for (open, close) in [("[", "]"), ("[:", "]"), ("[a:", ":b]"), ("[/e:", "]"), ("[]/[", "]")] {
                    let s = [open.repeat(d), close.repeat(d)].concat().into_bytes();
                    for loose in [false, true] {
                        let key = format!("{open} nested {d} times, lenient={loose}");
                        cx.case(key.as_bytes(), || {
                            let body = || -> CaseResult {
                                let p = match parse_abe(&s, loose) {
                                    Ok(p) => p,
                                    // a limit is fine, as long as it is far beyond what people write
                                    Err(_) if d > 100 => return Ok(false),
                                    Err(e) => return Err(Bad::from(e.to_string())),
                                };
                                ensure!(print_abe(p.iter()).as_bytes() == s, "nesting {d} is not printed back");
                                ensure!(parse_abe(&s[open.len()..], loose).is_err() && parse_abe(&s[..s.len() - close.len()], loose).is_err(), "unbalanced accepted at {d}");
                                let _ = abe::eval::eval(&abe::scope::BASIC_SCOPE, &p);
                                Ok(true)
                            };
                            std::thread::scope(|t| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(t, body).unwrap().join().unwrap_or_else(|_| Err(Bad::from("panicked"))))
                        })
                    }
                }
            }
        });
    })
}
