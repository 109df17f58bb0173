//! Padding, cutting, slicing and replacing functions against their documentation, on every small argument tuple.
use abe::ast::replace_abe;
use c_abe::stdfn::*;
use c_abe::text::*;
use kit::*;
fn run(cx: &Cx, id: &str, a: &[&[u8]]) {
    cx.states(1);
    cx.transitions(2);
    cx.traces(2);
    let k = expr(id, a);
    cx.case(k.as_bytes(), || match check(id, a) {
        Err(mut b) => {
            b.key = format!("{id} {}", b.key);
            Err(b)
        }
        o => o,
    })
}
fn tuples(cx: &Cx, id: &str, dims: &[&[&[u8]]]) {
    let n: u64 = dims.iter().map(|d| d.len() as u64).product();
    let d: Vec<usize> = dims.iter().map(|d| d.len()).collect();
    cx.par(n, |i| {
        let ix = nth_mixed(&d, i);
        let a: Vec<&[u8]> = ix.iter().zip(dims).map(|(i, d)| d[*i]).collect();
        run(cx, id, &a);
    });
}
fn refs(v: &[Vec<u8>]) -> Vec<&[u8]> {
    v.iter().map(|v| &v[..]).collect()
}
fn strings(al: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut o = vec![];
    for n in 0..=max {
        for i in 0..count(al.len(), n) {
            o.push(nth_digits(al.len(), n, i).into_iter().map(|d| al[d]).collect());
        }
    }
    o
}
fn main() {
    kit::main("A07", "model_checking", |cx| {
        cx.rule("every listed function on every tuple of the stated argument sets, called in both styles and compared with the documented meaning; non-trivial: the call succeeds");
        let lens: Vec<Vec<u8>> = ["", "0", "1", "2", "3", "4", "5", "15", "16", "17", "300", "-1", "+2", "x", " 1", "02", "70000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"].iter().map(|s| s.as_bytes().to_vec()).collect();
        let mut bytes = strings(&[0, b'a', 255], 4);
        for n in [15, 16, 17, 299, 300, 301] {
            bytes.push(vec![b'q'; n]);
            bytes.push([vec![0; n - 1], vec![7]].concat());
        }
        let fills: Vec<Vec<u8>> = vec![vec![], vec![0], vec![b'z'], vec![255], vec![b'y', b'z'], vec![b'z', b'z'], vec![0; 3], vec![b'z'; 16], vec![0; 17]];
        let (b, l, f) = (refs(&bytes), refs(&lens), refs(&fills));
        cx.section("padding", || {
            for id in ["a", "f", "lpad", "rpad", "~lpad", "~rpad", "lfixed", "rfixed"] {
                tuples(cx, id, &[&b]);
                tuples(cx, id, &[&b, &l]);
                tuples(cx, id, &[&b, &l, &f]);
                tuples(cx, id, &[]);
                tuples(cx, id, &[&b[..3], &l[..3], &f, &f]);
            }
        });
        cx.section("cutting", || {
            for id in ["lcut", "rcut", "~lcut", "~rcut"] {
                tuples(cx, id, &[&b]);
                tuples(cx, id, &[&b, &l]);
                tuples(cx, id, &[&b[..3], &l[..3], &f]);
            }
        });
        let sl: Vec<Vec<u8>> = (0..=cx.pick(6, 9)).map(|n| (0..n).map(|i| b'a' + i as u8).collect()).collect();
        let idx: Vec<Vec<u8>> = {
            let mut v: Vec<String> = (1..=cx.pick(8i64, 12)).flat_map(|i| [i.to_string(), format!("-{i}")]).collect();
            v.extend(["", "0", "-0", "+1", "x", "-", "--1", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775807", "-9223372036854775808", "-18446744073709551615", "18446744073709551616", "-9223372036854775809"].map(String::from));
            v.into_iter().map(|s| s.into_bytes()).collect()
        };
        let (sl, idx) = (refs(&sl), refs(&idx));
        cx.section("slicing", || {
            tuples(cx, "slice", &[&sl]);
            tuples(cx, "slice", &[&sl, &idx]);
            tuples(cx, "slice", &[&sl, &idx, &idx]);
            tuples(cx, "slice", &[&sl, &idx, &idx, &idx]);
            tuples(cx, "slice", &[&sl, &idx, &idx, &[b"1"], &[b"1"]]);
        });
        let hay = strings(b"ab", cx.pick(7, 9));
        let pat = strings(b"ab", 3);
        let to: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"b".to_vec(), b"ab".to_vec(), b"aba".to_vec()];
        cx.section("replacing", || tuples(cx, "replace", &[&refs(&hay), &refs(&pat), &refs(&to)]));
        cx.section("long values", || {
            let ns: Vec<usize> = c_abe::WIDE.into_iter().chain([511, 512, 1000, 4096, 65535]).rev().collect();
            cx.par(ns.len() as u64, |i| {
                let n = ns[i as usize];
                let v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
                let rep = b"ab".repeat(n);
                let (zl, zr) = ([vec![0; n], b"x".to_vec()].concat(), [b"x".to_vec(), vec![0; n]].concat());
                let near: Vec<String> = [n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2, 2 * n].iter().map(|n| n.to_string()).collect();
                for x in &near {
                    let neg = format!("-{x}");
                    for b in [&v, &zl, &zr] {
                        for id in ["a", "f", "lpad", "rpad", "~lpad", "~rpad", "lfixed", "rfixed", "lcut", "rcut", "~lcut", "~rcut"] {
                            run(cx, id, &[b, x.as_bytes()])
                        }
                        for e in ["9223372036854775807", "-9223372036854775807", "-9223372036854775808", "4294967296", "-4294967297", "-65536"].into_iter().take(if n > 40 { 0 } else { 6 }) {
                            for step in ["1", "-1", "-2", "-7", "3"] {
                                run(cx, "slice", &[b, x.as_bytes(), e.as_bytes(), step.as_bytes()]);
                                run(cx, "slice", &[b, e.as_bytes(), x.as_bytes(), step.as_bytes()]);
                                run(cx, "slice", &[b, b"", e.as_bytes(), step.as_bytes()]);
                                run(cx, "slice", &[b, e.as_bytes(), b"", step.as_bytes()]);
                            }
                        }
                        for y in [x, &neg, &"1".to_string(), &"-1".to_string(), &"0".to_string()] {
                            run(cx, "slice", &[b, y.as_bytes()]);
                            for z in [x.as_str(), &neg, "-1", ""] {
                                run(cx, "slice", &[b, y.as_bytes(), z.as_bytes()]);
                                for step in ["1", "2", "3", "7", "-1", x, "255", "256", "257"].into_iter().take(if n > 300 { 2 } else { 9 }) {
                                    run(cx, "slice", &[b, y.as_bytes(), z.as_bytes(), step.as_bytes()])
                                }
                            }
                        }
                    }
                }
                for (from, to) in [(&b"ab"[..], &b"b"[..]), (b"b", b""), (b"ba", b"abab"), (b"aba", b"c"), (b"", b""), (&rep[..rep.len() / 2], b"y"), (&rep, b""), (&rep[1..], b"q"), (b"abababab", b"ba"), (b"zz", b"y")] {
                    run(cx, "replace", &[&rep, from, to]);
                    run(cx, "replace", &[&v, from, to]);
                    run(cx, "replace", &[from, from, &v]);
                    run(cx, "replace", &[&[&v[..], &rep].concat(), &v, to]);
                }
            })
        });
        cx.section("text forms", || {
            for id in ["?a", "?a0", "~utf8", "C"] {
                tuples(cx, id, &[&b]);
                tuples(cx, id, &[&refs(&strings(&[0, b'a', 0xc3, 0xa9, 0xf0, 0x9f, b':'], 4))]);
                tuples(cx, id, &[]);
                tuples(cx, id, &[&b[..5], &b[..5]]);
            }
        });
        // patterns in expression trees
        cx.section("replacing in expressions", || {
            let al: Vec<T> = vec![T::Ctr(b':'), T::Bytes(b"a".to_vec()), T::Bytes(b"b".to_vec()), T::Lst(vec![T::Bytes(b"a".to_vec()), T::Ctr(b':')]), T::Lst(vec![T::Lst(vec![T::Bytes(b"a".to_vec())])])];
            let seqs = |max: usize| -> Vec<Vec<T>> {
                let mut o = vec![];
                for n in 0..=max {
                    for i in 0..count(al.len(), n) {
                        o.push(nth_digits(al.len(), n, i).into_iter().map(|d| al[d].clone()).collect());
                    }
                }
                o
            };
            let (inp, pats, news) = (seqs(4), seqs(2), seqs(2));
            cx.par((inp.len() * pats.len()) as u64, |i| {
                let (t, p) = (&inp[i as usize / pats.len()], &pats[i as usize % pats.len()]);
                for n in &news {
                    cx.states(1);
                    cx.transitions(1);
                    cx.traces(1);
                    cx.case_k(format!("{t:?} {p:?} {n:?}").as_bytes(), &|| format!("in {:?} replace {:?} by {:?}", print(t), print(p), print(n)), || {
                        let mut v = to_abe(t);
                        replace_abe(&mut v, &to_abe(p), &to_abe(n));
                        let got = from_abe(&v);
                        if p.is_empty() {
                            return Ok(false); // left open, but it must return
                        }
                        let want = repl(t, p, n);
                        ensure!(got == want, "got {:?} expected {:?}", print(&got), print(&want));
                        Ok(want != *t)
                    })
                }
            });
        });
    })
}
/// depth first, then left to right without overlap
fn repl(t: &[T], p: &[T], n: &[T]) -> Vec<T> {
    let t: Vec<T> = t
        .iter()
        .map(|t| match t {
            T::Lst(l) => T::Lst(repl(l, p, n)),
            t => t.clone(),
        })
        .collect();
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with(p) {
            o.extend_from_slice(n);
            i += p.len()
        } else {
            o.push(t[i].clone());
            i += 1
        }
    }
    o
}
