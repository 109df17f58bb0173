//! Splitting text into its top level components.
use abe::ast::{tokenize_abe, tokenize_abe_b};
use c_abe::text::*;
use kit::*;
const CH: [(u8, u32); 5] = [(b'/', 1), (b':', 2), (b'\n', 4), (b'[', 16), (b']', 32)];
fn set(chars: &[u8]) -> u32 {
    CH.iter().filter(|(c, _)| chars.contains(c)).map(|(_, m)| m).sum()
}
fn case(s: &[u8], plain: &[u8], err: &[u8]) -> CaseResult {
    let want = components(s, plain, err);
    let mut got: Option<Vec<(u8, bool, Vec<u8>)>> = Some(vec![]);
    for (n, c) in tokenize_abe_b(s, set(plain), set(err)).enumerate() {
        ensure!(n <= s.len() + 1, "more components than characters in {:?}", show(s));
        match c {
            Ok((h, i, t)) => got.as_mut().unwrap().push((h, i, t.to_vec())),
            Err(_) => {
                got = None;
                break;
            }
        }
    }
    if got != want && s.last().is_some_and(|c| !plain.contains(c)) && want.as_ref().is_some_and(|w| w.last().unwrap().2.is_empty() && got.as_ref().is_some_and(|g| g[..] == w[..w.len() - 1])) {
        return bad("trailing-empty", format!("the empty last component of {:?} is lost: {got:?} expected {want:?}", show(s)));
    }
    ensure!(got == want, "components of {:?} (plain {:?} refused {:?}): {got:?} expected {want:?}", show(s), show(plain), show(err));
    if let Ok(st) = std::str::from_utf8(s) {
        let g2 = tokenize_abe(st, set(plain), set(err)).ok().map(|v| v.into_iter().map(|(c, i, t)| (c, i, t.as_bytes().to_vec())).collect::<Vec<_>>());
        ensure!(g2 == want, "the str version differs: {g2:?} expected {want:?}");
    }
    if let Some(w) = &got {
        // nothing but delimiters is lost
        let mut back = vec![];
        for (h, _, t) in w {
            if *h != 0 {
                back.push(*h)
            }
            back.extend_from_slice(t)
        }
        ensure!(back == s, "components do not add up to {:?}", show(s));
    }
    Ok(want.is_some_and(|w| w.len() > 1))
}
fn main() {
    kit::main("A03", "model_checking", |cx| {
        cx.rule("every text over the alphabet up to the stated length with every choice of plain and refused delimiters; non-trivial: at least two components");
        let t: Vec<&[u8]> = vec![b"a", b":", b"/", b"[", b"]", b"\n", b"\\", b"\x80"];
        let n = cx.pick(7, 8);
        cx.bound("texts over 8 characters up to length", n);
        let sets: [(&[u8], &[u8]); 9] = [(b"", b""), (b"", b"\n"), (b"/", b""), (b":", b"\n"), (b"/:", b""), (b"", b"/"), (b"", b"[]"), (b"\n", b":"), (b"/:\n", b"")];
        for (i, (p, e)) in sets.into_iter().enumerate() {
            let n = if i < 3 { n } else { n - 2 };
            cx.section(&format!("plain {:?} refused {:?}", show(p), show(e)), || {
                all_concats(cx, &t, n, |s| {
                    cx.states(1);
                    cx.transitions(s.len() as u64 + 1);
                    cx.traces(1);
                    cx.case_k(s, &|| format!("{} plain={:?} refused={:?}", show(s), show(p), show(e)), || case(s, p, e))
                })
            });
        }
        cx.section("many components", || {
            let pieces: [&[u8]; 10] = [b"a", b":", b"/", b"[:]", b":a", b"/[a", b"\\:", b"\n", b"a]/", b"\\x00/"];
            let ends: [&[u8]; 7] = [b"", b"]", b"[", b":", b"a", b"\n", b"\\"];
            let ns: Vec<usize> = c_abe::WIDE.into_iter().chain([1000, 65537]).collect();
            cx.par((ns.len() * pieces.len()) as u64, |i| {
                let (n, x) = (ns[i as usize / pieces.len()], pieces[i as usize % pieces.len()]);
                if n > 300 && x.len() > 2 {
                    return;
                }
                for (p, e) in sets {
                    for end in ends {
                        for s in [[&x.repeat(n)[..], end].concat(), [end, b":", &x.repeat(n)[..], b"/", end].concat()] {
                            cx.states(1);
                            cx.transitions(n as u64);
                            cx.traces(1);
                            let k = || format!("{n} times {} with {} plain={:?} refused={:?}", show(x), show(end), show(p), show(e));
                            cx.case_k(k().as_bytes(), &k, || case(&s, p, e));
                        }
                    }
                }
            })
        });
    })
}
