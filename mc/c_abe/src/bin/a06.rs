//! Encoders: what an encoder prints evaluates to the bytes it was given, the first applicable one is used.
use abe::scope::BASIC_SCOPE;
use c_abe::stdfn::b64e;
use c_abe::text::enc;
use kit::*;

fn ev(s: &str) -> Result<Vec<u8>, String> {
    let p = abe::parse_abe_strict_b(s.as_bytes()).map_err(|e| e.to_string())?;
    abe::eval::eval(&BASIC_SCOPE, &p).map_err(|e| e.to_string())?.as_exact_bytes().map(|b| b.to_vec()).map_err(|_| "delimited".into())
}
/// What one encoder has to print: Some(Some(text)), refuse: Some(None), or fail: None
fn one(id: &str, opts: &[&str], b: &[u8]) -> Option<Option<String>> {
    let lens = || -> Option<Vec<usize>> { opts.iter().map(|o| o.parse().ok()).collect() };
    let uint = |n: usize| {
        (b.len() == n).then(|| {
            let v = b.iter().fold(0u128, |v, x| v << 8 | *x as u128);
            format!("[{id}:{v}]")
        })
    };
    Some(match id {
        "" => Some(enc(b)),
        "u8" => uint(1),
        "u16" => uint(2),
        "u32" => uint(4),
        "u64" => uint(8),
        "u128" => uint(16),
        "b" => {
            let l = lens()?;
            (l.is_empty() || l.contains(&b.len())).then(|| format!("[b:{}]", b64e(b, true)))
        }
        "bs" => Some(format!("[bs:{}]", b64e(b, false).replace('/', "\\/"))),
        "a" => {
            let n = b.iter().take_while(|x| **x == 0).count();
            Some(if b.len() == 16 { format!("[a:{}]", enc(&b[n..])) } else { format!("[a:{}:{}]", enc(&b[n..]), b.len()) })
        }
        // numbers have no leading zero bytes and at most 16 digits of base 256
        "b2" | "b16" => {
            let l = lens()?;
            let number = b == [0] || (!b.is_empty() && b.len() <= 16 && b[0] != 0);
            ((l.is_empty() || l.contains(&b.len())) && number).then(|| if id == "b2" { format!("[b2:{}]", b.iter().map(|b| format!("{b:08b}")).collect::<String>()) } else { format!("[b16:{}]", b.iter().map(|b| format!("{b:02X}")).collect::<String>()) })
        }
        // no encoder of that name
        _ => None?,
    })
}
const KNOWN: [&str; 11] = ["", "u8", "u16", "u32", "u64", "u128", "b", "bs", "a", "b2", "b16"];
/// (name, options): the whole chain
fn chain(c: &[(&str, Vec<&str>)], b: &[u8], ignore: bool) -> Option<String> {
    for (id, o) in c {
        if !KNOWN.contains(id) {
            continue;
        }
        match one(id, o, b) {
            Some(Some(s)) => return Some(s),
            Some(None) => {}
            None if ignore => {}
            None => return None,
        }
    }
    None
}
fn opt_text(c: &[(&str, Vec<&str>)]) -> String {
    c.iter().map(|(id, o)| if o.is_empty() { id.to_string() } else { format!("{id}:{}", o.join(":")) }).collect::<Vec<_>>().join("/")
}
fn case(b: &[u8], c: &[(&str, Vec<&str>)]) -> CaseResult {
    // options of several lengths are separated by ':' which is not a length: one option at most is listed here
    let opts = opt_text(c);
    let mut nontrivial = false;
    for ignore in [false, true] {
        let want = if opts.is_empty() { None } else { chain(c, b, ignore) };
        let got = abe::eval::encode(&BASIC_SCOPE, b, &opts, ignore).ok();
        if let Some(t) = &got {
            let back = ev(t);
            ensure!(back.as_deref() == Ok(b), "{} encoded by {opts:?} is {t:?} which evaluates to {:?}", show(b), back.map(|v| show(&v)));
            ensure!(t.bytes().all(|c| (0x20..=0x7e).contains(&c)), "encoded form {t:?} is not printable ascii");
        }
        ensure!(got == want, "{} encoded by {opts:?} (ignore errors: {ignore}) is {got:?}, expected {want:?}", show(b));
        nontrivial |= got.is_some();
        // the functions and macros of the language do the same
        let quoted = enc(b);
        let m = if ignore { "~?" } else { "?" };
        let r = ev(&format!("[/{m}:[:{quoted}]/{opts}]")).ok();
        let macro_want = want.clone();
        ensure!(r == macro_want.as_ref().map(|s| s.as_bytes().to_vec()), "macro [/{m}:..] with {opts:?}: {:?}, expected {macro_want:?}", r.as_deref().map(show));
        if !ignore {
            let o = enc(opts.as_bytes());
            let r = ev(&format!("[:{quoted}/?:{o}]")).ok();
            ensure!(r == want.as_ref().map(|s| s.as_bytes().to_vec()), "[../?:{opts}]: {:?}", r.as_deref().map(show));
            // and back again inside the language
            if want.is_some() {
                let r = ev(&format!("[:{quoted}/?:{o}/eval]"));
                ensure!(r.as_deref() == Ok(b), "[../?:{opts}/eval]: {r:?}");
                let s2 = ev(&format!("[:{quoted}/??:{o}]"));
                let w = want.as_ref().unwrap();
                let inner = w.strip_prefix('[').and_then(|w| w.strip_suffix(']'));
                ensure!(s2.as_deref() == Ok(inner.unwrap_or(w).as_bytes()), "[../??:{opts}]: {s2:?}");
                let s3 = ev(&format!("[:{quoted}/???:{o}]"));
                let w3 = match inner {
                    None => w,
                    Some(i) => i.split_once(':').map_or("", |i| i.1),
                };
                ensure!(s3.as_deref() == Ok(w3.as_bytes()), "[../???:{opts}]: {s3:?}");
            }
        }
    }
    Ok(nontrivial)
}
fn main() {
    kit::main("A06", "model_checking", |cx| {
        cx.rule("every byte string of the stated set with every encoder chain; the printed expression must evaluate to the same bytes and be the one the first applicable encoder defines; non-trivial: some encoder applied");
        let encs: Vec<(&str, Vec<&str>)> = {
            let mut v: Vec<(&str, Vec<&str>)> = KNOWN.iter().map(|k| (*k, vec![])).collect();
            for id in ["b", "b2", "b16"] {
                for o in ["2", "0", "16", "x"] {
                    v.push((id, vec![o]))
                }
            }
            v.extend([("u16", vec!["7"]), ("a", vec!["3"]), ("b8", vec![]), ("nope", vec![])]);
            v
        };
        let run = |b: &[u8], c: &[(&str, Vec<&str>)]| {
            cx.states(1);
            cx.transitions(6);
            cx.traces(1);
            let mut k = format!("{}|", opt_text(c)).into_bytes();
            k.extend_from_slice(b);
            cx.case(&k, || case(b, c))
        };
        let al = [0u8, 1, b'a', b':', b'/', 255, 0x80];
        let n = cx.pick(4, 5);
        cx.bound("bytes over 7 values up to length", n);
        let mut bytes: Vec<Vec<u8>> = vec![];
        for n in 0..=n {
            for i in 0..count(al.len(), n) {
                bytes.push(nth_digits(al.len(), n, i).into_iter().map(|d| al[d]).collect())
            }
        }
        cx.section("one encoder", || {
            cx.par(bytes.len() as u64, |i| encs.iter().for_each(|e| run(&bytes[i as usize], std::slice::from_ref(e))));
            cx.par(65536, |i| encs.iter().filter(|e| !cx.quick() || (e.1.is_empty() && ["u16", "a", "b16", ""].contains(&e.0))).for_each(|e| run(&(i as u16).to_be_bytes(), std::slice::from_ref(e))));
        });
        let mut long: Vec<Vec<u8>> = vec![];
        for n in 0..=40 {
            for x in [0u8, 1, b'[', 255] {
                long.push(vec![x; n]);
                if n > 0 {
                    let mut v = vec![0; n];
                    v[n - 1] = x;
                    long.push(v.clone());
                    v[0] = 9;
                    long.push(v);
                    let mut v = vec![x; n];
                    v[0] = b'k';
                    long.push(v)
                }
            }
        }
        cx.section("lengths up to 40", || cx.par(long.len() as u64, |i| encs.iter().for_each(|e| run(&long[i as usize], std::slice::from_ref(e)))));
        cx.section("lengths around the sizes of integers, with one and two length options", || {
            let ls = [0usize, 1, 2, 16, 127, 128, 255, 256, 257, 258, 300, 511, 512, 513, 32768, 65535, 65536, 65537, 65792];
            let strs: Vec<String> = ls.iter().map(|l| l.to_string()).chain(["4294967295".to_string()]).collect();
            cx.par(ls.len() as u64, |i| {
                let b: Vec<u8> = (0..ls[i as usize]).map(|x| (x % 251) as u8 | 0x80).collect();
                for (i, s) in strs.iter().enumerate() {
                    run(&b, &[("b", vec![s])]);
                    for t in &strs[i..] {
                        if b.len() < 1000 || s.len() > 3 {
                            run(&b, &[("b", vec![s, t])])
                        }
                    }
                    run(&b, &[("b", vec![s]), ("u16", vec![]), ("b", vec!["257"])]);
                    run(&b, &[("b16", vec![s])]);
                }
                run(&b, &[("a", vec![])]);
                run(&b, &[("bs", vec![])]);
                run(&b, &[("", vec![])]);
            })
        });
        cx.section("long values end up as text or in base64 however long they are", || {
            let mut ls: Vec<usize> = c_abe::WIDE.to_vec();
            ls.extend([1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65534, 65535, 65536, 65537]);
            if !cx.quick() {
                ls.extend((256..6000).step_by(7))
            }
            let chains: [&[&str]; 9] = [&["nope", ""], &["u8", ""], &["b16", "u128", ""], &["bs", ""], &["b", ""], &["", "b"], &["nope", "b"], &["nope", "bs"], &["u8", "a"]];
            cx.par(ls.len() as u64, |i| {
                for fill in [b'a', 0, b'[', 0xff, b'\n'] {
                    let mut b = vec![fill; ls[i as usize]];
                    for last in [fill, b'z', 0] {
                        if let Some(l) = b.last_mut() {
                            *l = last
                        }
                        for c in chains {
                            run(&b, &c.iter().map(|c| (*c, vec![])).collect::<Vec<_>>())
                        }
                    }
                }
            })
        });
        cx.section("the encoding functions take one list of encoders", || {
            for f in ["?", "??", "???"] {
                for n in 0..=10usize {
                    for o in ["b", "", "u8", "2"] {
                        let more = format!(":{o}").repeat(n);
                        cx.case(format!("{f}{n}{o}").as_bytes(), || {
                            let r = ev(&format!("[:aa/{f}{}]", if n > 0 { format!(":b{}", &more[1 + o.len()..]) } else { String::new() }));
                            ensure!(r.is_ok() == (n == 1), "[:aa/{f}..] with {n} arguments: {r:?}");
                            Ok(n == 1)
                        })
                    }
                }
            }
        });
        let small: Vec<&Vec<u8>> = bytes.iter().filter(|b| b.len() <= cx.pick(2, 3)).chain(long.iter().step_by(cx.pick(7, 1))).collect();
        cx.section("chains of two and three encoders", || {
            let k = encs.len() as u64;
            cx.par(k * k, |i| {
                let (a, b) = (&encs[(i / k) as usize], &encs[(i % k) as usize]);
                for s in &small {
                    run(s, &[a.clone(), b.clone()])
                }
                for c in &encs {
                    for s in small.iter().step_by(cx.pick(6, 2)) {
                        run(s, &[a.clone(), b.clone(), c.clone()])
                    }
                }
            })
        });
        cx.section("long chains", || {
            let bytes: [&[u8]; 8] = [b"", b"a", b"\0\x07", b"\0\0\0\x09", b"abcdefgh", b"12345678901234567", b":/[", &[255; 40]];
            let last: Vec<(&str, Vec<&str>)> = encs.iter().filter(|e| e.1.is_empty()).cloned().chain([("b", vec!["2"]), ("b16", vec!["4"])]).collect();
            cx.par(c_abe::WIDE.len() as u64, |i| {
                let n = c_abe::WIDE[i as usize];
                if n > 130 {
                    return;
                }
                for skip in [("u8", vec![]), ("nope", vec![]), ("b", vec!["99"]), ("u128", vec![]), ("a", vec!["3"])] {
                    for l in &last {
                        for b in bytes {
                            let mut c = vec![skip.clone(); n];
                            run(b, &c);
                            c.push(l.clone());
                            run(b, &c);
                            c.insert(n / 2, l.clone());
                            run(b, &c);
                        }
                    }
                }
            })
        });
        cx.sample(|| format!("\\0\\x07 with u8/u16 -> {:?}", abe::eval::encode(&BASIC_SCOPE, &[0, 7], "u8/u16", false)));
        cx.sample(|| format!("\\0\\x07 with b16/ -> {:?}", kit::no_panic(|| abe::eval::encode(&BASIC_SCOPE, &[0, 7], "b16/", false))));
    })
}
