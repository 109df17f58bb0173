//! Integer and base conversion functions against exact arithmetic and the encodings' definitions.
use c_abe::stdfn::*;
use kit::*;
fn run(cx: &Cx, id: &str, a: &[&[u8]]) {
    cx.states(1);
    cx.transitions(2);
    cx.traces(2);
    cx.case_k(expr(id, a).as_bytes(), &|| expr(id, a), || check(id, a))
}
const ALL: [&str; 23] = ["+", "-", "u8", "u16", "u32", "u64", "u128", "?u", "lu", "lu8", "lu16", "lu32", "lu64", "lu128", "?lu", "b2", "b8", "b16", "?b", "2mini", "b", "?bs", "bs"];
fn main() {
    kit::main("A08", "model_checking", |cx| {
        cx.rule("every function on every argument of the stated sets, called in both styles, against exact arithmetic / the definition of the encoding; non-trivial: the call succeeds");
        let bytes: Vec<Vec<u8>> = {
            let al = [0u8, 1, 127, 128, 255];
            let mut v = vec![];
            for n in 0..=4 {
                for i in 0..count(5, n) {
                    v.push(nth_digits(5, n, i).into_iter().map(|d| al[d]).collect::<Vec<u8>>())
                }
            }
            for n in [7, 8, 9, 11, 12, 13, 15, 16, 17, 18, 23, 24, 31, 32, 33, 40, 48, 64] {
                for x in [0, 1, 255, 0x3e, 0xfb] {
                    v.push(vec![x; n]);
                    let mut w = vec![0; n];
                    w[n - 1] = x;
                    v.push(w.clone());
                    w.reverse();
                    v.push(w)
                }
            }
            v
        };
        cx.section("printing of long values", || {
            for n in c_abe::WIDE.into_iter().chain([511, 512, 1000, 2047, 2048, 4095, 4096, 4097, 8200, 65536, 70_001]) {
                let v: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
                for id in ["?b", "?bs", "2mini"] {
                    for v in [&v[..], &vec![0; n], &vec![255; n]] {
                        cx.case_k(b"", &|| format!("{id} of {n} bytes beginning with {}", show(&v[..3])), || check(id, &[v]));
                    }
                }
            }
        });
        cx.section("printing", || {
            for id in ["?u", "?lu", "?b", "?bs", "2mini"] {
                cx.par(bytes.len() as u64, |i| run(cx, id, &[&bytes[i as usize]]));
            }
            cx.par(65536, |i| {
                for id in ["?u", "?lu", "?b", "?bs"] {
                    run(cx, id, &[&(i as u16).to_be_bytes()]);
                    run(cx, id, &[&[(i >> 8) as u8, 7, i as u8]]);
                }
            })
        });
        let ints: Vec<String> = {
            let mut v: Vec<String> = (0..600u32).map(|i| i.to_string()).collect();
            for e in [8, 16, 32, 64, 127] {
                let p = 1u128 << e;
                v.extend([p - 2, p - 1, p, p + 1].map(|x| x.to_string()));
            }
            v.extend(["340282366920938463463374607431768211454", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "3402823669209384634633746074317682114550", "", "+", "-", "-1", "+1", "007", "+0", "-0", " 1", "1 ", "1_0", "0x1", "1e1", "٣", "a", "\0", "12\n"].map(String::from));
            v
        };
        cx.section("reading integers", || {
            for id in ["u8", "u16", "u32", "u64", "u128", "lu", "lu8", "lu16", "lu32", "lu64", "lu128"] {
                for i in &ints {
                    run(cx, id, &[i.as_bytes()]);
                }
                run(cx, id, &[b"\xff"]);
                cx.par(cx.pick(70000, 70000), |i| run(cx, id, &[i.to_string().as_bytes()]));
            }
        });
        cx.section("reading and printing agree", || {
            cx.par(cx.pick(70000, 1 << 20), |i| {
                for (r, p) in [("u32", "?u"), ("lu32", "?lu"), ("u64", "?u"), ("lu", "?lu")] {
                    let e = format!("[{r}:{i}/{p}]");
                    cx.case(e.as_bytes(), || {
                        let v = abe::eval::eval(&abe::scope::BASIC_SCOPE, &abe::parse_abe_strict_b(e.as_bytes()).unwrap()).map_err(|e| Bad::from(e.to_string()))?.concat();
                        ensure!(v == i.to_string().as_bytes(), "{e} = {}", show(&v));
                        Ok(true)
                    })
                }
            })
        });
        cx.section("addition and subtraction", || {
            for id in ["+", "-"] {
                cx.par(65536, |i| {
                    run(cx, id, &[&[(i >> 8) as u8], &[i as u8]]);
                    run(cx, id, &[&[(i >> 8) as u8, 255], &[0, i as u8]]);
                    run(cx, id, &[&[i as u8, (i >> 8) as u8], &[0, 1], &[1, 255]]);
                });
                let al = [0u8, 1, 127, 128, 255];
                // three operands of two bytes, all combinations; lengths that differ; up to four operands of three bytes
                cx.par(5u64.pow(6), |i| {
                    let d = nth_digits(5, 6, i);
                    let v: Vec<u8> = d.iter().map(|d| al[*d]).collect();
                    run(cx, id, &[&v[0..2], &v[2..4], &v[4..6]]);
                    run(cx, id, &[&v[0..3], &v[3..6]]);
                    run(cx, id, &[&v[0..3], &v[3..6], &v[1..4]]);
                    run(cx, id, &[&v[0..3], &v[3..6], &v[1..4], &v[2..5]]);
                    run(cx, id, &[&v[0..1], &v[1..2], &v[2..3], &v[3..4], &v[4..5], &v[5..6]]);
                });
                for n in [0usize, 1, 2, 3, 8, 16, 17, 32] {
                    for m in [0usize, 1, 2, 3, 8, 16, 17, 32] {
                        for (x, y) in [(0u8, 0u8), (255, 255), (255, 1), (1, 255), (0, 255), (128, 128)] {
                            run(cx, id, &[&vec![x; n], &vec![y; m]]);
                            run(cx, id, &[&vec![x; n], &vec![y; m], &vec![x; n]]);
                        }
                    }
                    run(cx, id, &[&vec![9; n]]);
                    for k in 1..=15 {
                        let (v, w, zero) = (vec![200u8; n], vec![3u8; n + 1], vec![0u8; n]);
                        run(cx, id, &vec![&v[..]; k]);
                        // one operand of another size at every place
                        for at in 0..=k.min(14) {
                            let k = k.min(14);
                            for odd in [&w[..], &zero[..n.saturating_sub(1)]] {
                                let mut a = vec![&zero[..]; k];
                                a.insert(at, odd);
                                run(cx, id, &a);
                            }
                        }
                    }
                }
                for n in [33usize, 64, 65, 127, 128, 255, 256, 257, 300, 1000] {
                    for (x, y) in [(0u8, 1u8), (255, 255), (255, 1), (1, 255), (128, 128), (1, 2)] {
                        run(cx, id, &[&vec![x; n], &vec![y; n]]);
                        run(cx, id, &[&vec![x; n], &[y]]);
                        run(cx, id, &[&[y], &vec![x; n]]);
                        run(cx, id, &[&vec![x; n], &vec![y; n - 1], &vec![y; n + 1]]);
                    }
                }
                run(cx, id, &[]);
                // a carry that starts at one byte and ends at another
                let ns: Vec<usize> = (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect();
                cx.par(ns.len() as u64, |i| {
                    let n = ns[i as usize];
                    let places: Vec<usize> = (0..n).filter(|p| n <= 40 || *p < 3 || p % 16 < 2 || *p + 3 > n).collect();
                    for from in &places {
                        for to in places.iter().filter(|t| *t <= from) {
                            let mut x = vec![5u8; n];
                            x[to + 1..=*from].fill(if id == "+" { 255 } else { 0 });
                            if to == from && n > 1 {
                                x[*from] = 255;
                            }
                            let mut y = vec![0u8; n];
                            y[*from] = 1;
                            run(cx, id, &[&x, &y]);
                            run(cx, id, &[&x, &y, &y]);
                        }
                    }
                });
            }
        });
        let m = cx.pick(4, 5);
        cx.bound("encoded texts up to length", m);
        cx.section("reading bases", || {
            for id in ["b2", "b8", "b16", "b", "bs"] {
                let al: Vec<&[u8]> = match id {
                    "b" | "bs" => vec![b"A", b"Q", b"w", b"_", b"/", b"+", b"-", b"=", b"9", b" ", b"\x80"],
                    _ => vec![b"0", b"1", b"7", b"8", b"a", b"F", b"G", b"+", b"-", b"\xc3"],
                };
                all_concats(cx, &al, m, |t| run(cx, id, &[t]));
                for n in (0..140).chain([191, 192, 193, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4096, 70000]) {
                    for c in ["0", "1", "7", "f", "A"] {
                        run(cx, id, &[c.repeat(n).as_bytes()]);
                        run(cx, id, &[format!("1{}", c.repeat(n)).as_bytes()]);
                    }
                }
            }
            for id in ["b2", "b8", "b16", "b", "bs"] {
                for pre in ["", "0x", "0X", "x", "0b", "0o", "#", "\\x", "+", "-", "_", " ", "0_", "\n", "\0"] {
                    for t in ["", "0", "1", "10", "1F", "1f00", "AA==", "AAAA"] {
                        for post in ["", "h", "_", " ", "\n", "=", "\0", "_0"] {
                            run(cx, id, &[format!("{pre}{t}{post}").as_bytes()]);
                        }
                    }
                }
            }
            cx.par(65536, |i| {
                for id in ["b16", "b", "bs", "b8", "b2"] {
                    run(cx, id, &[&[(i >> 8) as u8, i as u8]]);
                }
            });
            // what is printed in a base is read back
            cx.par(bytes.len() as u64, |i| {
                let b = &bytes[i as usize];
                for (id, t) in [("b", b64e(b, true)), ("bs", b64e(b, false))] {
                    run(cx, id, &[t.as_bytes()]);
                    for cut in 1..=t.len().min(3) {
                        run(cx, id, &[t[..t.len() - cut].as_bytes()]);
                    }
                    run(cx, id, &[format!("{t}=").as_bytes()]);
                    run(cx, id, &[format!("{t}A").as_bytes()]);
                }
            });
        });
        cx.section("argument counts", || {
            for id in ALL {
                for n in 0..=15 {
                    if n == 1 {
                        continue;
                    }
                    run(cx, id, &vec![&b"1"[..]; n]);
                }
            }
        });
    })
}
