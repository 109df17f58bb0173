//! The text forms of a space.
use byte_fmt::abe::{eval::{eval, ABList}, parse_abe, scope::basic_scope, ToABE, TypedABE};
use byte_fmt::eval::EScope;
use c_pkt::*;
use kit::*;
use linkspace_pkt::{space_fmt::*, *};

type Comps = Vec<Vec<u8>>;
fn list(e: &str) -> Result<ABList, String> {
    let x = parse_abe(e, false).map_err(|e| format!("parse: {e}"))?;
    eval(&(basic_scope(), EScope(SpaceFE)), &x).map_err(|e| format!("eval: {e}"))
}
fn ev(e: &str) -> Result<Vec<u8>, String> {
    list(e)?.into_exact_bytes().map_err(|l| format!("delimited: {l:?}"))
}
fn comps(s: &Space) -> Comps {
    s.iter().map(|c| c.to_vec()).collect()
}
fn esc(b: &[u8]) -> String {
    // the reference escape: everything as hex
    b.iter().map(|b| format!("\\x{b:02x}")).collect()
}
fn valid(s: &SpaceBuf) -> Result<(), Bad> {
    let c = comps(s);
    ensure!(space_ok(&c) && s.space_bytes() == flat(&c), "the text gives the space {c:?} which is not one");
    Ok(())
}
fn text(c: &Comps, ranges: bool) -> CaseResult {
    let s = SpaceBuf::try_from_iter(c).map_err(|e| e.to_string())?;
    let r = s.try_into_rooted().map_err(|e| e.to_string())?;
    let st = s.to_string();
    ensure!(st == r.to_string() && st == s.as_space().to_string(), "the forms print other text");
    let back: SpaceBuf = st.parse().map_err(|e| format!("{st}: {e}"))?;
    ensure!(comps(&back) == *c, "{st} is the space {:?}", comps(&back));
    let rb: RootedSpaceBuf = st.parse().map_err(|e| format!("rooted {st}: {e}"))?;
    ensure!(rb.rooted_bytes() == r.rooted_bytes(), "{st} is another rooted space");
    let abe = s.to_abe_str();
    let back = abe.parse::<SpaceExpr>().map_err(|e| format!("{abe}: {e}"))?.eval(&basic_scope()).map_err(|e| format!("{abe}: {e}"))?;
    ensure!(comps(&back) == *c, "{abe} is the space {:?}", comps(&back));
    let back = SpaceBuf::try_from_ablist(s.ablist()).map_err(|e| format!("list: {e}"))?;
    ensure!(comps(&back) == *c, "through a list it is {:?}", comps(&back));
    let l: ABList = s.clone().into();
    ensure!(RootedSpaceBuf::try_from(l).map_err(|e| e.to_string())?.rooted_bytes() == r.rooted_bytes(), "rooted through a list");
    // as an argument
    let want = Ok(flat(c));
    if !c.is_empty() {
        let e = format!("[/{st}]");
        ensure!(ev(&e) == want, "{e} is {:?}", ev(&e));
        let e = format!("[/~{st}]");
        ensure!(ev(&e) == want, "{e} is {:?}", ev(&e));
        let e = format!("[s:{}]", c.iter().map(|c| esc(c)).collect::<Vec<_>>().join(":"));
        ensure!(ev(&e) == want, "{e} is {:?}", ev(&e));
        let e = format!("[/~?:{}/s]", esc(&flat(c)));
        let enc = ev(&e).and_then(|v| String::from_utf8(v).map_err(|e| e.to_string()));
        ensure!(enc.as_ref().map_err(|e| e.clone()).and_then(|e| ev(e)) == want, "{e} is {enc:?}");
    }
    let e = format!("[?space:{}]", esc(&flat(c)));
    ensure!(ev(&e) == Ok(st.clone().into_bytes()), "{e} is {:?}", ev(&e));
    if !ranges {
        return Ok(!c.is_empty());
    }
    for a in 0..=10usize {
        for b in (0..=10usize).map(Some).chain([None, Some(255), Some(usize::MAX)]) {
            let e = format!("[si:{}:{a}{}]", esc(&flat(c)), b.map(|b| format!(":{b}")).unwrap_or_default());
            let end = b.unwrap_or(a + 1).min(8);
            let want = (a <= 8 && end >= a).then(|| flat(&c[a.min(c.len())..end.min(c.len())]));
            let got = no_panic(|| ev(&e))?;
            ensure!(got.clone().ok() == want, "{e} is {got:?} and should be {want:?}");
        }
    }
    let e = format!("[si:{}:{}]", esc(&flat(c)), usize::MAX);
    ensure!(no_panic(|| ev(&e))?.is_err(), "{e} gives something");
    Ok(!c.is_empty())
}
/// text without escapes and expressions: what the space is, or None
fn plain_text(s: &str) -> Option<Comps> {
    if s.is_empty() {
        return Some(vec![]);
    }
    let c: Comps = s.strip_prefix('/')?.split('/').map(|c| c.as_bytes().to_vec()).collect();
    space_ok(&c).then_some(c)
}
fn main() {
    kit::main("P05", "model_checking", |cx| {
        cx.rule("every stated space printed in every text form and read back, and every stated text read as a space; non-trivial: a space with components that came back the same, or a text that is one");
        let alpha: Vec<&[u8]> = vec![b"/", b":", b"\\", b"[", b"]", b"\n", b"\t", b"\0", &[0xff], &[0x80], "é".as_bytes(), b"a", b"@", b"{", b" "];
        let go = |c: Comps, ranges: bool| {
            cx.states(1);
            cx.transitions(if ranges { 160 } else { 17 });
            cx.traces(1);
            cx.case(format!("{:?}", c.iter().map(|c| show(c)).collect::<Vec<_>>()).as_bytes(), || text(&c, ranges));
        };
        cx.section("components of every byte and length", || {
            cx.par(256, |b| {
                let b = b as u8;
                go(vec![vec![b]], false);
                go(vec![vec![b'a', b], vec![b, b'a']], false);
                for n in [15, 16, 17, 31, 32, 33, 64, 200] {
                    go(vec![vec![b; n]], false);
                    let mut v = vec![b'a'; n];
                    v[n / 2] = b;
                    go(vec![b"x".to_vec(), v], false);
                }
            });
            cx.par(201, |n| {
                if n > 0 {
                    go(vec![pattern(n as usize, 1)], false);
                    go(vec![vec![b'z'; n as usize], vec![b'y'; (n as usize).min(240 - n as usize)]], n % 16 == 0);
                }
            });
        });
        cx.section("components of every short text", || {
            all_concats(cx, &alpha, cx.pick(3, 4), |c| {
                if !c.is_empty() {
                    go(vec![c.to_vec()], false);
                    go(vec![c.to_vec(), b"b".to_vec(), c.iter().copied().cycle().take(16).collect(), c.iter().copied().cycle().take(32).collect()], false);
                }
            });
        });
        cx.section("every shape", || {
            // number of components and the length of each
            let lens = [1usize, 2, 16, 32];
            for n in 0..=8usize {
                let total = lens.len().pow(n as u32);
                let step = cx.pick(if n > 5 { 37 } else { 1 }, 1);
                cx.par((total / step) as u64, |i| {
                    let d = nth_mixed(&vec![lens.len(); n], i * step as u64);
                    let c: Comps = d.iter().enumerate().map(|(i, l)| vec![b'a' + i as u8; lens[*l]]).collect();
                    if space_ok(&c) {
                        go(c, n > 5 || i % 8 == 0)
                    }
                });
            }
        });
        cx.section("every short text", || {
            let toks: Vec<&[u8]> = vec![b"/", b"a", b"b", b"\\", b":", b"[", b"]", b"\n", b"\\x00", b"[//a]", b"~", "é".as_bytes()];
            all_concats(cx, &toks, cx.pick(4, 6), |t| {
                let Ok(t) = std::str::from_utf8(t) else { return };
                cx.states(1);
                cx.transitions(4);
                cx.case(t.as_bytes(), || {
                    let got = no_panic(|| t.parse::<SpaceBuf>())?.ok();
                    if let Some(s) = &got {
                        valid(s)?;
                    }
                    let rooted = no_panic(|| t.parse::<RootedSpaceBuf>())?.ok();
                    ensure!(rooted.as_ref().map(|r| comps(r.space())) == got.as_ref().map(|s| comps(s)), "rooted it is another space");
                    if !t.contains(['\\', ':', '[', ']', '\n', 'é']) {
                        ensure!(got.as_ref().map(|s| comps(s)) == plain_text(t), "is the space {:?} and should be {:?}", got.as_ref().map(|s| comps(s)), plain_text(t));
                        let arg = no_panic(|| ev(&format!("[/{t}]")))?.ok();
                        if t.starts_with('/') {
                            // empty components are refused or left out
                            let c: Comps = t.split('/').filter(|c| !c.is_empty()).map(|c| c.as_bytes().to_vec()).collect();
                            ensure!(arg == plain_text(t).map(|c| flat(&c)) || (plain_text(t).is_none() && arg == space_ok(&c).then(|| flat(&c))), "[/{t}] is {arg:?}");
                            let arg = no_panic(|| ev(&format!("[/~{t}]")))?.ok();
                            ensure!(arg == space_ok(&c).then(|| flat(&c)), "[/~{t}] is {arg:?} and should be {c:?}");
                        }
                    }
                    Ok(got.is_some())
                });
            });
        });
        cx.section("too deep, too long", || {
            for n in 7..=12usize {
                for len in [1usize, 20, 26, 29, 30, 31, 40, 199, 200, 201, 255] {
                    let c: Comps = (0..n).map(|i| vec![b'a' + i as u8; len]).collect();
                    for k in 1..=n {
                        let c = &c[..k];
                        cx.case(format!("{k} components of {len}").as_bytes(), || {
                            let t: String = c.iter().map(|c| format!("/{}", String::from_utf8_lossy(c))).collect();
                            let want = space_ok(c).then(|| c.to_vec());
                            let got = no_panic(|| t.parse::<SpaceBuf>())?.ok().map(|s| comps(&s));
                            ensure!(got == want, "text: {:?} accepted", got.map(|c| c.len()));
                            let arg = no_panic(|| ev(&format!("[/{t}]")))?.ok();
                            ensure!(arg == want.as_ref().map(|c| flat(c)), "[/..]: {arg:?}");
                            let e = format!("[s:{}]", c.iter().map(|c| String::from_utf8_lossy(c)).collect::<Vec<_>>().join(":"));
                            let arg = no_panic(|| ev(&e))?.ok();
                            ensure!(arg == want.as_ref().map(|c| flat(c)), "[s:..]: {arg:?}");
                            let bytes = flat(c);
                            let sp = no_panic(|| Space::from_slice(&bytes).is_ok())?;
                            ensure!(sp == (want.is_some() || unflat(&bytes).is_some_and(|c| space_ok(&c))), "bytes: {sp}");
                            let _: Result<TypedABE<SpaceBuf>, _> = t.parse();
                            Ok(want.is_some())
                        });
                    }
                }
            }
        });
    })
}
