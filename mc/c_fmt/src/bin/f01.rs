#![feature(generic_const_exprs)]
#![allow(incomplete_features)]
//! Fixed width byte fields: text, expression and list forms give the same value back.
use abe::scope::BASIC_SCOPE;
use abe::ToABE;
use byte_fmt::*;
use c_abe::interp::slots_of;
use c_abe::stdfn::{b64d, b64e};
use c_abe::text as tx;
use eval::ABList;
use kit::*;

fn pad<const L: usize>(b: &[u8], fill: u8) -> Option<[u8; L]> {
    (b.len() <= L).then(|| {
        let mut v = [fill; L];
        v[L - b.len()..].copy_from_slice(b);
        v
    })
}
fn ev(s: &str) -> Result<Vec<u8>, String> {
    let p = abe::parse_abe_strict_b(s.as_bytes()).map_err(|e| e.to_string())?;
    abe::eval::eval(&BASIC_SCOPE, &p).map_err(|e| e.to_string())?.as_exact_bytes().map(|b| b.to_vec()).map_err(|_| "delimited".into())
}
fn cut(b: &[u8]) -> &[u8] {
    &b[b.iter().take_while(|b| **b == 0).count()..]
}
/// a field of L bytes made from b
fn field<const L: usize>(b: &[u8]) -> CaseResult {
    let want = pad::<L>(b, 0);
    let got = AB::<[u8; L]>::try_fit_byte_slice(b).ok().map(|a| a.0);
    ensure!(got == want, "fitted {:?}", got.map(|g| show(&g)));
    ensure!(AB::<[u8; L]>::try_from(b).ok().map(|a| a.0) == want && try_ab::<L>(b).ok().map(|a| a.0) == want, "conversions differ");
    ensure!(AB::<[u8; L]>::try_fit_slice_filled::<255>(b).ok().map(|a| a.0) == pad::<L>(b, 255), "fitted with \\xff");
    let lst = ABList::from(b.to_vec());
    ensure!(AB::<[u8; L]>::try_from(lst).ok().map(|a| a.0) == want, "from a list");
    ensure!(tx::enc(b).parse::<AB<[u8; L]>>().ok().map(|a| a.0) == want, "from text {}", tx::enc(b));
    ensure!(AB::<[u8; L]>::try_from(ABList::from(b.to_vec()).push_ctr(abe::ast::Ctr::Colon)).is_err(), "a delimited list was accepted");
    let Some(v) = want else { return Ok(false) };
    let f = AB(v);
    value(&f, &v)?;
    ensure!(f.as_str(true).parse::<AB<[u8; L]>>().ok() == Some(f), "short text {:?}", f.as_str(true));
    ensure!(f.to_string().parse::<AB<[u8; L]>>().ok() == Some(f), "text {f}");
    ensure!(TypedEq::<L>::read(&f.to_abe_str()) == Some(v), "typed expression {}", f.to_abe_str());
    ensure!(TypedEq::<L>::eval(f.to_abe()) == Some(v), "typed expression {:?}", f.to_abe());
    ensure!(TypedEq::<L>::read(&tx::enc(b)) == Some(v), "typed text {}", tx::enc(b));
    ensure!(f.utf8().ok() == std::str::from_utf8(cut(&v)).ok(), "utf8 view");
    ensure!(AB::<[u8; L]>::try_from(ABList::from(f)).ok() == Some(f), "through a list");
    ensure!(f.cut_prefix_nulls() == cut(&v), "cut");
    let readable = std::str::from_utf8(cut(&v)).map(|s| s.to_string()).unwrap_or_else(|_| tx::enc(cut(&v)));
    ensure!(f.try_utf8() == readable, "readable text {}", f.try_utf8());
    ensure!(ab::<L>(b).0 == v && Some(abx::<L>(b).0) == pad::<L>(b, 255), "constants");
    // a value printed and read back as another type: the whole text is handed over
    ensure!(AB(&v[..]).parse::<AB<[u8; L]>>().ok() == Some(f) && AB(&v[..]).parse_scope::<AB<[u8; L]>>().ok() == Some(f), "read as a field");
    ensure!(AB(&v[..]).parse::<String>().ok() == Some(tx::enc(&v)) && AB(&v[..]).parse_scope::<String>().ok() == Some(tx::enc(&v)), "read as text");
    let n = std::str::from_utf8(&v).ok().and_then(|s| s.parse::<u8>().ok());
    ensure!(AB(&v[..]).parse::<u8>().ok() == n && AB(&v[..]).parse_scope::<u8>().ok() == n, "read as a number");
    ensure!(AB::<[u8; L]>::parse_abtxt(tx::enc(&v)).ok() == Some(f), "text as bytes");
    let mut out = AB([0u8; L]);
    *out = v;
    ensure!(out == f && AB::from(v) == f && ab_slice(&[v, v]) == [f, f], "wrapping");
    // expression text and expression tree, read back as whatever type
    Ok(true)
}
/// stored and loaded again, of a fixed width or not
fn stored(v: &[u8]) -> CaseResult {
    let (a, b) = (AB(v.to_vec()), B64(v.to_vec()));
    let (sa, sb) = (stree::write(&a).map_err(|e| Bad::from(e.0))?, stree::write(&b).map_err(|e| Bad::from(e.0))?);
    ensure!(stree::read::<AB<Vec<u8>>>(&sa).ok().as_ref() == Some(&a) && stree::read::<B64<Vec<u8>>>(&sb).ok().as_ref() == Some(&b), "stored as {sa:?} and {sb:?}");
    macro_rules! fixed { ($($n:literal),*) => { $(
        let want: Option<[u8; $n]> = v.try_into().ok();
        ensure!(stree::read::<AB<[u8; $n]>>(&sa).ok().map(|a| a.0) == want && stree::read::<B64<[u8; $n]>>(&sb).ok().map(|a| a.0) == want, "loaded into {} bytes", $n);
        if let Some(w) = want {
            ensure!(stree::write(&AB(w)).ok().as_ref() == Some(&sa) && stree::write(&B64(w)).ok().as_ref() == Some(&sb), "stored otherwise");
        }
    )* } }
    fixed!(1, 2, 8, 16, 32);
    Ok(!v.is_empty())
}
fn ensure_size(cx: &Cx) {
    cx.case(b"default width", || {
        ensure!(std::mem::size_of::<B64>() == 32 && B64::<[u8; 32]>::default().0 == [0; 32], "the default base64 value has {} bytes", std::mem::size_of::<B64>());
        Ok(true)
    })
}
struct TypedEq<const L: usize>;
impl<const L: usize> TypedEq<L> {
    fn read(s: &str) -> Option<[u8; L]> {
        s.parse::<abe::TypedABE<AB<[u8; L]>>>().ok()?.eval(&BASIC_SCOPE).ok().map(|a| a.0)
    }
    fn eval(e: Vec<abe::ABE>) -> Option<[u8; L]> {
        abe::TypedABE::<AB<[u8; L]>>::from(e).ok()?.eval(&BASIC_SCOPE).ok().map(|a| a.0)
    }
}
/// the expression of any byte value evaluates to it
fn value<N>(f: &AB<N>, v: &[u8]) -> CaseResult
where
    AB<N>: AsRef<[u8]>,
{
    let s = f.to_abe_str();
    ensure!(ev(&s).as_deref() == Ok(v), "{s} evaluates to {:?}", ev(&s).map(|v| show(&v)));
    let e = f.to_abe();
    let r = abe::eval::eval(&BASIC_SCOPE, &e).map(|l| slots_of(&l));
    ensure!(r.as_ref().is_ok_and(|r| r[..] == [(0, v.to_vec())] || (v.is_empty() && r.iter().all(|s| s.0 == 0 && s.1.is_empty()))), "expression {e:?} evaluates to {:?}", r.map(|r| c_abe::interp::text(&r)).map_err(|e| e.to_string()));
    let printed = abe::print_abe(&e);
    ensure!(ev(&printed).as_deref() == Ok(v), "printed expression {printed} evaluates to {:?}", ev(&printed).map(|v| show(&v)));
    ensure!(f.to_string() == tx::enc(v), "text {f}");
    ensure!(f.as_str(false) == tx::enc(v) && f.as_str(true) == tx::enc(cut(v)), "text {} / {}", f.as_str(false), f.as_str(true));
    ensure!(as_abtxt_c(v, true) == tx::enc(cut(v)) && as_abtxt_c(v, false) == tx::enc(v), "text of the slice");
    Ok(true)
}
fn var(b: &[u8]) -> CaseResult {
    let f = AB(b.to_vec());
    value(&f, b)?;
    ensure!(f.to_string().parse::<AB<Vec<u8>>>().ok() == Some(f.clone()), "text {f}");
    value(&AB(b), b)
}
fn b64<const N: usize>(b: &[u8]) -> CaseResult
where
    [(); std::mem::size_of::<B64<[u8; N]>>()]:,
{
    let v: [u8; N] = b.try_into().unwrap();
    let f = B64(v);
    let t = b64e(b, true);
    ensure!(f.to_string() == t && f.b64() == t && format!("{f:?}") == t, "printed as {f}, expected {t}");
    ensure!(byte_fmt::b64(b, false) == t && byte_fmt::base64(b) == t && byte_fmt::base64_decode(&t).ok().as_deref() == Some(b), "plain base64");
    let m = f.b64_mini();
    ensure!(byte_fmt::b64(b, true) == m && mini_b64(b) == m, "short forms differ");
    if N <= 12 {
        ensure!(m == t, "short form {m} of a short value")
    } else {
        ensure!(m.starts_with(&t[..6]) && m.ends_with(&t[t.len() - 2..]) && m.len() < t.len() && b64d(m.as_bytes(), true).is_none(), "short form {m} of {t}")
    }
    let mut s = "x".to_string();
    f.b64_into(&mut s);
    ensure!(s == format!("x{t}"), "appended as {s}");
    ensure!(t.parse::<B64<[u8; N]>>().ok() == Some(f), "{t} is not read back");
    ensure!(B64::<[u8; N]>::parse_str(&t).ok() == Some(f), "{t} is not read back");
    ensure!(B64::<Vec<u8>>::parse_str(&t).ok().map(|b| b.0).as_deref() == Some(b), "{t} is not read back as bytes");
    ensure!(B64::<[u8; N]>::try_fit_slice(b).ok() == Some(f), "from bytes");
    ensure!(B64::<[u8; N]>::try_fit_bytes_or_b64(b).ok() == Some(f), "from bytes or text: bytes");
    ensure!(B64::<[u8; N]>::try_fit_bytes_or_b64(t.as_bytes()).ok() == Some(f), "from bytes or text: text");
    ensure!(f.into_bytes()[..] == v[..], "bytes");
    ensure!(ev(&f.to_abe_str()).as_deref() == Ok(b), "expression {}", f.to_abe_str());
    let e = f.to_abe();
    ensure!(abe::eval::eval(&BASIC_SCOPE, &e).is_ok_and(|l| l.concat() == b), "expression {e:?}");
    ensure!(abe::TypedABE::<B64<[u8; N]>>::from(e).is_ok_and(|e| e.eval(&BASIC_SCOPE).ok() == Some(f)), "typed expression");
    ensure!(f.to_abe_str().parse::<abe::TypedABE<B64<[u8; N]>>>().is_ok_and(|e| e.eval(&BASIC_SCOPE).ok() == Some(f)), "typed expression text");
    ensure!(B64::<[u8; N]>::try_from(ABList::from(f)).ok() == Some(f), "through a list");
    // one byte less or more is not a value
    let mut more = b.to_vec();
    more.push(0);
    ensure!(B64::<[u8; N]>::try_fit_slice(&more).is_err() && b64e(&more, true).parse::<B64<[u8; N]>>().is_err(), "a longer value was accepted");
    if N > 0 {
        ensure!(B64::<[u8; N]>::try_fit_slice(&b[1..]).is_err() && b64e(&b[1..], true).parse::<B64<[u8; N]>>().is_err(), "a shorter value was accepted");
        ensure!(t[1..].parse::<B64<[u8; N]>>().is_err(), "cut text was accepted");
    }
    for x in [format!("{t}="), format!(" {t}"), format!("{t}\n"), format!("{t}A")] {
        ensure!(x.parse::<B64<[u8; N]>>().is_err(), "{x:?} was accepted");
    }
    let l = ABList::from(t.as_bytes()).push_ctr(abe::ast::Ctr::FSlash);
    ensure!(B64::<[u8; N]>::try_from(l).is_err(), "a delimited list was accepted");
    ensure!(B64::<[u8; N]>::try_from(ABList::DEFAULT.push_ctr(abe::ast::Ctr::Colon).push_bytes(t.as_bytes())).is_err(), "a delimited list was accepted");
    Ok(true)
}
fn b64text<const N: usize>(t: &[u8]) -> CaseResult {
    let want = b64d(t, true).and_then(|b| <[u8; N]>::try_from(b).ok());
    ensure!(B64::<[u8; N]>::parse_str(t).ok().map(|b| b.0) == want, "read as {:?}", B64::<[u8; N]>::parse_str(t).ok());
    let any = b64d(t, true);
    ensure!(B64::<Vec<u8>>::parse_str(t).ok().map(|b| b.0) == any, "read as bytes: {:?}", B64::<Vec<u8>>::parse_str(t).ok());
    ensure!(byte_fmt::base64_decode(t).ok() == any, "decoded to {:?}", byte_fmt::base64_decode(t));
    let raw = want.or_else(|| t.try_into().ok());
    ensure!(B64::<[u8; N]>::try_fit_bytes_or_b64(t).ok().map(|b| b.0) == raw, "read as bytes or text: {:?}", B64::<[u8; N]>::try_fit_bytes_or_b64(t).ok());
    Ok(want.is_some())
}
fn numbers(a: [u8; 32], b: [u8; 32]) -> CaseResult {
    let x: [u8; 32] = std::array::from_fn(|i| a[i] ^ b[i]);
    ensure!((B64(a) ^ B64(b)).0 == x, "xor");
    ensure!(B64(a).cmp(&B64(b)) == a.cmp(&b) && AB(a).cmp(&AB(b)) == a.cmp(&b), "order");
    let (ua, ub) = (B64(a).to_u256(), B64(b).to_u256());
    ensure!(ua.cmp(&ub) == a.cmp(&b), "numeric order");
    ensure!(B64::<[u8; 32]>::from_u256(ua).0 == a && B64::<[u8; 32]>::from(<B64<[u8; 32]> as Into<U256>>::into(B64(a))).0 == a, "through a number");
    let bit = (0..256).filter(|i| ua.bit(255 - i)).collect::<Vec<_>>();
    let want = (0..256).filter(|i| a[i / 8] & (128 >> (i % 8)) != 0).collect::<Vec<_>>();
    ensure!(bit == want, "value of the number");
    let mut w = [0u8; 64];
    w[..32].copy_from_slice(&a);
    w[32..].copy_from_slice(&b);
    ensure!(B64::<[u8; 64]>::from(<B64<[u8; 64]> as Into<U512>>::into(B64(w))).0 == w, "through a 512 bit number");
    let h: [u8; 16] = a[8..24].try_into().unwrap();
    ensure!(AB(h).to_u128() == u128::from_be_bytes(h) && u128::from(AB(h)) == u128::from_be_bytes(h) && AB::from_u128(AB(h).to_u128()).0 == h && AB::<[u8; 16]>::from(u128::from_be_bytes(h)).0 == h, "128 bit number");
    Ok(a != b)
}
/// an expression with a delimiter outside of its brackets is not a field, whatever it evaluates to
fn shape(s: &[u8]) -> CaseResult {
    let Ok(e) = abe::parse_abe_strict_b(s) else { return Ok(false) };
    let plain = !e.iter().any(|e| matches!(e, abe::ABE::Ctr(_)));
    macro_rules! go { ($($t:ty),*) => { $( {
        let t = stringify!($t);
        ensure!(abe::TypedABE::<$t>::try_from(s).is_ok() == plain, "{t}: text");
        ensure!(std::str::from_utf8(s).unwrap().parse::<abe::TypedABE<$t>>().is_ok() == plain, "{t}: text");
        ensure!(abe::TypedABE::<$t>::from(e.clone()).is_ok() == plain, "{t}: expression");
        ensure!(abe::TypedABE::<$t>::try_from(&e[..]).is_ok() == plain, "{t}: part of an expression");
        ensure!(abe::TypedABE::<Vec<u8>>::new_unchecked(e.clone()).try_as::<$t>().is_ok() == plain, "{t}: other type");
    } )* } }
    go!(AB<[u8; 4]>, AB<[u8; 0]>, B64<[u8; 3]>, B64<[u8; 32]>);
    Ok(plain)
}
fn main() {
    kit::main("F01", "model_checking", |cx| {
        cx.rule("every value of the stated shapes in every width, converted to text, expression and list and back, against a direct definition; every short text read as base64; non-trivial: the value fits");
        let al = [0u8, 1, b'a', b':', b'/', b'[', b']', b'\\', b'\n', 0x80, 255, b'=', b' '];
        let n = cx.pick(4, 5);
        cx.bound("bytes over 13 values up to length", n);
        let fields = |b: &[u8]| {
            cx.states(1);
            cx.transitions(12);
            cx.traces(12);
            macro_rules! go { ($($l:literal)*) => { $( cx.case_k(b, &|| format!("{} as a field of {} bytes", show(b), $l), || field::<$l>(b)); )* } }
            go!(0 1 2 3 4 5 8 15 16 17 32);
            cx.case_k(b, &|| format!("{} as bytes", show(b)), || var(b));
        };
        for n in 0..=n {
            cx.section(&format!("fields made from {n} bytes"), || {
                cx.par(count(al.len(), n), |i| {
                    let b: Vec<u8> = nth_digits(al.len(), n, i).into_iter().map(|d| al[d]).collect();
                    fields(&b)
                })
            })
        }
        cx.section("every byte value alone and between padding", || {
            cx.par(256, |i| {
                let i = i as u8;
                for b in [vec![i], vec![0, i], vec![i, 0], vec![255, i], vec![i, 255], vec![255, i, 255, 0], vec![0, i, 0, 255]] {
                    fields(&b)
                }
            })
        });
        cx.section("longer values", || {
            let fills = [0u8, 255, b'a', b':'];
            cx.par(36, |n| {
                for f in fills {
                    for g in [0u8, 255, b'k', b'\\'] {
                        for at in 0..=n as usize {
                            let mut b = vec![f; n as usize];
                            if at < b.len() {
                                b[at] = g
                            }
                            fields(&b);
                            b[at.min(n as usize)..].fill(g);
                            fields(&b);
                        }
                    }
                }
            })
        });
        cx.section("long variable values", || {
            for n in [255usize, 256, 257, 4096, 64999, 65000] {
                let b: Vec<u8> = (0..n).map(|i| (i % 256) as u8).collect();
                cx.states(1);
                cx.case_k(b"long", &|| format!("{n} bytes"), || {
                    let f = AB(b.clone());
                    ensure!(f.to_string().parse::<AB<Vec<u8>>>().ok() == Some(f.clone()), "text is not read back");
                    ensure!(ev(&f.to_abe_str()).ok() == Some(b.clone()), "expression is not read back");
                    Ok(true)
                })
            }
        });
        cx.section("base64 values", || {
            let al = [0u8, 1, 62 << 2, 255, b'A', b'_'];
            macro_rules! go { ($($l:literal)*) => { $(
                cx.par(count(al.len(), $l.min(6)), |i| {
                    let d: Vec<u8> = nth_digits(al.len(), $l.min(6), i).into_iter().map(|d| al[d]).collect();
                    let mut vs = vec![[0u8; $l]];
                    if $l > 6 {
                        if i >= cx.pick(3000, 46656) { return }
                        vs = vec![[0u8; $l], [255; $l], [0x5a; $l]];
                    }
                    for v in &mut vs {
                        for (j, x) in d.iter().enumerate() {
                            if $l <= 6 { v[j] = *x } else { v[if j < 3 { j } else { $l - j + 2 }] = *x }
                        }
                        cx.states(1);
                        cx.transitions(14);
                        cx.traces(1);
                        cx.case_k(&v[..], &|| format!("{} as base64 of {}", show(&v[..]), $l), || b64::<$l>(&v[..]));
                    }
                });
            )* } }
            go!(0usize 1usize 2usize 3usize 4usize 5usize 6usize 16usize 31usize 32usize 33usize 64usize);
        });
        cx.section("shapes", || {
            ensure_size(cx);
            for n in (0..=40usize).chain([255, 256, 65_536]) {
                for x in 0..=255u8 {
                    for at in [0, n / 2, n.saturating_sub(1)] {
                        let mut v = vec![0x41; n];
                        if let Some(b) = v.get_mut(at) {
                            *b = x
                        }
                        if n < 1000 || x % 64 == 0 {
                            cx.case_k(&v, &|| show(&v), || stored(&v))
                        }
                    }
                }
            }
            let toks: Vec<&[u8]> = vec![b":", b"/", b"a", b"AAAA", b"[a:x]", b"[/a:y]", b"[b:AAAA]", b"\\:", b"[::a]"];
            all_concats(cx, &toks, cx.pick(4, 6), |s| {
                cx.states(1);
                cx.transitions(20);
                cx.traces(20);
                cx.case_k(s, &|| show(s), || shape(s))
            })
        });
        cx.section("base64 texts", || {
            let toks: Vec<&[u8]> = vec![b"A", b"Q", b"w", b"_", b"-", b"+", b"/", b"=", b"g", b"4", b" ", b"\x80"];
            all_concats(cx, &toks, cx.pick(5, 6), |s| {
                cx.states(1);
                cx.transitions(5);
                cx.traces(5);
                macro_rules! go { ($($l:literal)*) => { $( cx.case_k(s, &|| format!("{} read as base64 of {} bytes", show(s), $l), || b64text::<$l>(s)); )* } }
                go!(0 1 2 3 4 5);
            })
        });
        cx.section("base64 texts of every final pair", || {
            cx.par(65536, |i| {
                let (x, y) = ((i / 256) as u8, (i % 256) as u8);
                for s in [vec![x, y], vec![b'A', x, y], vec![b'A', b'Q', x, y], vec![x, b'A', b'A', b'A', b'A', y]] {
                    cx.states(1);
                    cx.transitions(5);
                    cx.traces(5);
                    macro_rules! go { ($($l:literal)*) => { $( cx.case_k(&s, &|| format!("{} read as base64 of {} bytes", show(&s), $l), || b64text::<$l>(&s)); )* } }
                    go!(1 2 3 4);
                }
                let mut t = [b'A'; 43];
                t[41] = x;
                t[42] = y;
                cx.case_k(&t, &|| format!("{} read as base64 of 32 bytes", show(&t)), || b64text::<32>(&t));
            })
        });
        cx.section("numbers", || {
            let mut v = vec![];
            for f in [0u8, 255, 0x5a] {
                for at in [0usize, 1, 7, 8, 15, 16, 17, 30, 31] {
                    for g in [0u8, 1, 127, 128, 255] {
                        let mut a = [f; 32];
                        a[at] = g;
                        v.push(a)
                    }
                }
            }
            cx.par(v.len() as u64, |i| {
                for b in &v {
                    cx.states(1);
                    cx.transitions(8);
                    cx.traces(1);
                    cx.case_k(&v[i as usize], &|| format!("{:?} with {b:?}", v[i as usize]), || numbers(v[i as usize], *b))
                }
            })
        });
    })
}
