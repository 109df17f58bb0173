use abe::abtxt::*;
use c_abe::text::*;
use kit::*;

fn encode_case(b: &[u8]) -> CaseResult {
    let t = as_abtxt(b);
    let t = t.as_bytes();
    ensure!(t == enc(b).as_bytes(), "text form of {:?} is {:?}, expected {:?}", show(b), show(t), enc(b));
    ensure!(t.iter().all(|c| (0x20..=0x7e).contains(c)), "text form {:?} is not printable ascii", show(t));
    match parse_abtxt_upto_max(t, b.len()) {
        Ok(r) => ensure!(r == b, "{:?} -> {:?} -> {:?}", show(b), show(t), show(&r)),
        Err(e) => return Err(format!("{:?} -> {:?} does not parse back: {e}", show(b), show(t)).into()),
    }
    let mut dest = vec![0xAA; b.len() + 2];
    match parse_abtxt_into(t, &mut dest[..b.len()]) {
        Ok(n) => ensure!(n == b.len() && &dest[..n] == b, "into buffer: {:?} -> {n} {:?}", show(t), show(&dest)),
        Err(e) => return Err(format!("into exactly sized buffer failed: {e}").into()),
    }
    ensure!(dest[b.len()..] == [0xAA, 0xAA], "wrote past the buffer");
    if !b.is_empty() {
        ensure!(parse_abtxt_upto_max(t, b.len() - 1).is_err(), "{:?} accepted with limit {}", show(t), b.len() - 1);
        ensure!(parse_abtxt_into(t, &mut dest[..b.len() - 1]).is_err(), "{:?} fitted in {} bytes", show(t), b.len() - 1);
    }
    Ok(!b.is_empty())
}
fn decode_case(t: &[u8]) -> CaseResult {
    let want = dec(t);
    let got = parse_abtxt_upto_max(t, t.len() + 1).ok();
    ensure!(got == want, "parse of {:?} gives {:?}, expected {:?}", show(t), got.as_deref().map(show), want.as_deref().map(show));
    let mut d = vec![0u8; t.len() + 1];
    let got2 = parse_abtxt_into(t, &mut d).ok().map(|n| d[..n].to_vec());
    ensure!(got2 == want, "buffer parse of {:?} gives {:?}, expected {:?}", show(t), got2.as_deref().map(show), want.as_deref().map(show));
    if let Some(v) = &want {
        // canonical text reached in one step
        let again = as_abtxt(v).into_owned();
        ensure!(parse_abtxt_upto_max(&again, v.len()).ok().as_ref() == Some(v), "canonical text {again:?} is not stable");
    }
    Ok(want.is_some())
}

fn main() {
    kit::main("A01", "model_checking", |cx| {
        cx.rule("every byte string of the stated lengths is written and read back; every text over the token alphabet is read and compared with the grammar; non-trivial: non-empty bytes, or text the grammar accepts");
        let run = |k: &[u8], f: &dyn Fn(&[u8]) -> CaseResult| {
            cx.states(1);
            cx.transitions(k.len() as u64 + 1);
            cx.traces(1);
            cx.case(k, || f(k));
        };
        let all: Vec<[u8; 1]> = (0..=255u8).map(|b| [b]).collect();
        let all: Vec<&[u8]> = all.iter().map(|b| &b[..]).collect();
        let nmax = cx.pick(2, 3);
        cx.bound("all byte strings up to length", nmax);
        cx.section("write/read all byte strings", || all_concats(cx, &all, nmax, |b| run(b, &encode_case)));
        let cls: Vec<&[u8]> = vec![b"\0", b"\xff", b"\n", b"\t", b"\r", b":", b"/", b"[", b"]", b"\\", b" ", b"~", b"\x7f", b"\x80", b"\x1f", b"a", b"f", b"0", b"x"];
        let m = cx.pick(4, 5);
        cx.bound("byte strings over 19 representative bytes up to length", m);
        cx.section("write/read representative bytes", || all_concats(cx, &cls, m, |b| run(b, &encode_case)));
        cx.section("long strings", || {
            for n in [15, 16, 17, 64, 255, 256, 1000, 65000] {
                for b in 0..=255u8 {
                    let mut v = vec![b; n];
                    run(&v.clone(), &encode_case);
                    v[n / 2] = b.wrapping_add(1);
                    run(&v, &encode_case);
                }
            }
        });
        cx.section("every byte in every spelling far inside a long text", || {
            let ends = cx.pick(&[7usize, 8, 15, 16, 31, 63, 64, 127, 128, 255, 256, 300, 511, 512, 1023, 1024, 4095, 4096][..], &[7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 65535, 65536]);
            cx.par(256, |b| {
                let b = b as u8;
                let mut forms = vec![vec![b], format!("\\x{b:02x}").into_bytes(), format!("\\x{b:02X}").into_bytes(), vec![b'\\', b]];
                forms.dedup();
                for n in ends {
                    for f in &forms {
                        for tail in [0, 1, 20, 300] {
                            let t = [&vec![b'a'; *n][..], f, &vec![b'b'; tail]].concat();
                            run(&t, &decode_case);
                        }
                        // after many escapes
                        let t = [&b"\\n".repeat(*n / 2)[..], f].concat();
                        run(&t, &decode_case);
                    }
                }
            })
        });
        cx.section("read every two byte text and every escape", || {
            all_concats(cx, &all, 2, |b| run(b, &decode_case));
            cx.par(65536 * 3, |i| {
                let (k, i) = (i / 65536, i % 65536);
                let mut t = vec![b'\\', b'x', (i >> 8) as u8, i as u8];
                match k {
                    1 => t.push(b'a'),
                    2 => t.insert(0, b'\\'),
                    _ => {}
                }
                run(&t, &decode_case)
            });
        });
        let toks: Vec<&[u8]> = vec![
            b"\\", b"x", b"0", b"f", b"n", b"F", b"g", b":", b"/", b"[", b"]", b"\n", b"\t", b"\r", b" ", b"~", b"\x7f", b"\x80", b"\xff", b"a", b"t", b"r", b"9", b"A", b"\0",
        ];
        let m = cx.pick(4, 5);
        cx.bound("texts over 25 token characters up to length", m);
        cx.section("read every text over the token alphabet", || all_concats(cx, &toks, m, |t| run(t, &decode_case)));
        cx.sample(|| format!("bytes {} <-> text {}", show(&[0, 255, 10, 58]), as_abtxt(&[0, 255, 10, 58])));
    })
}
