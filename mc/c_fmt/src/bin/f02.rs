//! Integers with a fixed byte order: value, order, arithmetic, text, expression and list forms.
use abe::scope::BASIC_SCOPE;
use abe::ToABE;
use byte_fmt::endian_types::*;
use byte_fmt::AB;
use eval::ABList;
use kit::*;
use byte_fmt::eval;

fn ev(e: &[abe::ABE]) -> Option<Vec<u8>> {
    abe::eval::eval(&BASIC_SCOPE, e).ok()?.into_exact_bytes().ok()
}
macro_rules! width {
    ($f:ident, $pair:ident, $text:ident, $bytes:ident, $be:ident, $le:ident, $n:ident, $size:literal, $std:literal) => {
        fn $f(v: $n) -> CaseResult {
            let (b, l) = ($be::new(v), $le::new(v));
            ensure!(b.0 == v.to_be_bytes() && l.0 == v.to_le_bytes(), "bytes {:?} {:?}", b.0, l.0);
            ensure!(b.get() == v && l.get() == v && Into::<$n>::into(b) == v && Into::<$n>::into(l) == v, "value {} {}", b.get(), l.get());
            let (mut b2, mut l2) = ($be::ZERO, $le::ZERO);
            b2.set(v);
            l2.set(v);
            ensure!($be::ZERO.get() == 0 && $le::ZERO.get() == 0 && $be::MAX.get() == $n::MAX && $le::MAX.get() == $n::MAX && $be::default() == $be::ZERO && $le::default() == $le::ZERO, "limits");
            ensure!((format!("{b:?}") == format!("{:?}", $be::MAX)) == (v == $n::MAX) && (format!("{l:?}") == format!("{:?}", $le::MAX)) == (v == $n::MAX), "debug text {b:?} {l:?}");
            ensure!(v == $n::MAX || (format!("{b:?}").starts_with(&v.to_string()) && format!("{l:?}").starts_with(&v.to_string())), "debug text {b:?} {l:?}");
            ensure!(b2 == b && l2 == l && $be::from(v) == b && $le::from(v) == l && $be::from(b.0) == b && $le::from(l.0) == l, "other constructors");
            ensure!($be::from(l) == b && $le::from(b) == l, "conversion between byte orders");
            ensure!(b.incr().get() == v.saturating_add(1) && l.incr().get() == v.saturating_add(1), "successor {} {}", b.incr(), l.incr());
            ensure!(b.to_bytes() == b.0 && l.to_bytes() == l.0 && b.as_ref() == &b.0[..] && l[..] == l.0[..], "byte views");
            ensure!(b.align() == [$n::from_ne_bytes(b.0)] && l.align() == [$n::from_ne_bytes(l.0)], "native view");
            ensure!((!b).get() == !v && (!l).get() == !v, "complement");
            ensure!(b.to_string() == v.to_string() && l.to_string() == v.to_string(), "text {b} {l}");
            ensure!(v.to_string().parse::<$be>().ok() == Some(b) && v.to_string().parse::<$le>().ok() == Some(l), "text is not read back");
            let bits: String = v.to_be_bytes().iter().map(|b| format!("_{b:08b}")).collect();
            ensure!(format!("{b:b}") == format!("0b{bits}") && binary_str(&b.0) == format!("0b{bits}"), "bits {b:b}");
            let eb = b.to_abe();
            let el = l.to_abe();
            ensure!(ev(&eb).as_deref() == Some(&b.0[..]) && ev(&el).as_deref() == Some(&l.0[..]), "expression {eb:?} {el:?}");
            ensure!(abe::TypedABE::<$be>::from(eb.clone()).is_ok_and(|e| e.eval(&BASIC_SCOPE).ok() == Some(b)), "typed expression {eb:?}");
            ensure!(abe::TypedABE::<$le>::from(el.clone()).is_ok_and(|e| e.eval(&BASIC_SCOPE).ok() == Some(l)), "typed expression {el:?}");
            ensure!(b.to_abe_str().parse::<abe::TypedABE<$be>>().is_ok_and(|e| e.eval(&BASIC_SCOPE).ok() == Some(b)), "expression text {}", b.to_abe_str());
            ensure!(l.to_abe_str().parse::<abe::TypedABE<$le>>().is_ok_and(|e| e.eval(&BASIC_SCOPE).ok() == Some(l)), "expression text {}", l.to_abe_str());
            let lu = l.lu_abe();
            ensure!(abe::TypedABE::<$le>::from(lu.clone()).is_ok_and(|e| e.eval(&BASIC_SCOPE).ok() == Some(l)), "short expression {lu:?}");
            ensure!($be::try_from(ABList::from(b)).ok() == Some(b) && $le::try_from(ABList::from(l)).ok() == Some(l), "through a list");
            ensure!(AB(b.0).uint() == b, "from a byte field");
            let (sb, sl) = (stree::write(&b), stree::write(&l));
            ensure!(sb.as_ref().is_ok_and(|s| stree::read::<$be>(s).ok() == Some(b)) && sl.as_ref().is_ok_and(|s| stree::read::<$le>(s).ok() == Some(l)), "stored as {sb:?} {sl:?}");
            Ok(v != 0)
        }
        fn $pair(x: $n, y: $n) -> CaseResult {
            let (a, b) = ($be::new(x), $be::new(y));
            let (c, d) = ($le::new(x), $le::new(y));
            ensure!(a.cmp(&b) == x.cmp(&y) && c.cmp(&d) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)) && c.partial_cmp(&d) == Some(x.cmp(&y)), "order of {x} and {y}");
            ensure!((a < b) == (x < y) && (c <= d) == (x <= y) && (a == b) == (x == y) && (c == d) == (x == y), "comparison of {x} and {y}");
            ensure!(a.0.cmp(&b.0) == x.cmp(&y), "byte order of {x} and {y}");
            ensure!(a.saturating_add(b).get() == x.saturating_add(y) && c.saturating_add(d).get() == x.saturating_add(y), "{x} + {y}");
            ensure!(a.saturating_sub(b).get() == x.saturating_sub(y) && c.saturating_sub(d).get() == x.saturating_sub(y), "{x} - {y}");
            ensure!((a & b).get() == x & y && (c & d).get() == x & y, "{x} & {y}");
            ensure!((a | b).get() == x | y && (c | d).get() == x | y, "{x} | {y}");
            Ok(x != y)
        }
        fn $text(s: &str) -> CaseResult {
            let want = s.parse::<$n>().ok();
            ensure!(s.parse::<$be>().ok().map(|v| v.get()) == want && s.parse::<$le>().ok().map(|v| v.get()) == want, "{s:?}: {:?} {:?}", s.parse::<$be>().ok(), s.parse::<$le>().ok());
            Ok(want.is_some())
        }
        fn $bytes(s: &[u8]) -> CaseResult {
            let want: Option<[u8; $size]> = s.try_into().ok();
            ensure!($be::try_from(s).ok().map(|v| v.0) == want && $le::try_from(s).ok().map(|v| v.0) == want, "from bytes");
            ensure!($be::try_from(ABList::from(s.to_vec())).ok().map(|v| v.0) == want, "from a list");
            let short = (s.len() <= $size).then(|| {
                let mut v = [0u8; $size];
                v[..s.len()].copy_from_slice(s);
                v
            });
            ensure!($le::try_fit_slice(s).ok().map(|v| v.0) == short, "fitted");
            ensure!($le::try_from(ABList::from(s.to_vec())).ok().map(|v| v.0) == short, "fitted from a list");
            for c in [abe::ast::Ctr::Colon, abe::ast::Ctr::FSlash] {
                let l = ABList::from(s.to_vec()).push_ctr(c);
                ensure!($be::try_from(l.clone()).is_err() && $le::try_from(l.clone()).is_err() && U8::try_from(l.clone()).is_err(), "a delimited list was accepted");
                let l = ABList::DEFAULT.push_ctr(c).push_bytes(s);
                ensure!($be::try_from(l.clone()).is_err() && $le::try_from(l.clone()).is_err() && U8::try_from(l.clone()).is_err(), "a delimited list was accepted");
            }
            Ok(want.is_some())
        }
    };
}
width!(f16, p16, t16, b16, U16, LU16, u16, 2, "u16");
width!(f32_, p32, t32, b32, U32, LU32, u32, 4, "u32");
width!(f64_, p64, t64, b64, U64, LU64, u64, 8, "u64");
width!(f128, p128, t128, b128, U128, LU128, u128, 16, "u128");

/// an expression with a delimiter outside of its brackets is not a number, whatever it evaluates to
fn shape(s: &[u8]) -> CaseResult {
    let Ok(e) = abe::parse_abe_strict_b(s) else { return Ok(false) };
    let plain = !e.iter().any(|e| matches!(e, abe::ABE::Ctr(_)));
    macro_rules! go { ($($t:ty),*) => { $( {
        let t = stringify!($t);
        ensure!(abe::TypedABE::<$t>::try_from(s).is_ok() == plain, "{t}: text");
        ensure!(abe::TypedABE::<$t>::from(e.clone()).is_ok() == plain, "{t}: expression");
        ensure!(abe::TypedABE::<$t>::try_from(&e[..]).is_ok() == plain, "{t}: part of an expression");
    } )* } }
    go!(U8, U16, U32, U64, U128, LU16, LU32, LU64, LU128);
    Ok(plain)
}
/// values around every byte boundary, every single bit, and some mixed ones
fn interesting(bits: u32) -> Vec<u128> {
    let max = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let mut v = vec![];
    for i in 0..bits {
        let p = 1u128 << i;
        v.extend([p, p.wrapping_sub(1), p | 1]);
        if i % 8 == 0 {
            v.extend([p * 0xff & max, p.wrapping_mul(0x102) & max, max ^ p])
        }
    }
    v.extend([0, max, max - 1, 0x0102030405060708090a0b0c0d0e0f10 & max, max / 3]);
    v.sort();
    v.dedup();
    v
}
fn main() {
    kit::main("F02", "model_checking", |cx| {
        cx.rule("every 16 bit value and the values around every bit and byte boundary of the wider integers, in every conversion; all pairs of them in every operation; all short texts and byte strings; non-trivial: non-zero, unequal, or accepted");
        let one = |k: String, f: &dyn Fn() -> CaseResult| {
            cx.states(1);
            cx.transitions(24);
            cx.traces(1);
            cx.case(k.as_bytes(), f)
        };
        cx.section("every 16 bit value", || cx.par(65536, |i| one(format!("16 bit {i}"), &|| f16(i as u16))));
        cx.section("wider values", || {
            cx.par(2000, |i| {
                let i = i as usize;
                if let Some(v) = interesting(32).get(i) {
                    one(format!("32 bit {v}"), &|| f32_(*v as u32))
                }
                if let Some(v) = interesting(64).get(i) {
                    one(format!("64 bit {v}"), &|| f64_(*v as u64))
                }
                if let Some(v) = interesting(128).get(i) {
                    one(format!("128 bit {v}"), &|| f128(*v))
                }
            })
        });
        if !cx.quick() {
            cx.section("every 24 bit value as 32 bits", || cx.par(1 << 24, |i| one(format!("32 bit {i}"), &|| f32_((i as u32).rotate_left(13)))));
        }
        cx.section("pairs", || {
            let v16: Vec<u128> = if cx.quick() { interesting(16) } else { (0..=65535).step_by(13).chain(interesting(16)).collect() };
            cx.par(v16.len() as u64, |i| v16.iter().for_each(|y| one(format!("16 bit {} {y}", v16[i as usize]), &|| p16(v16[i as usize] as u16, *y as u16))));
            let v = interesting(32);
            cx.par(v.len() as u64, |i| v.iter().for_each(|y| one(format!("32 bit {} {y}", v[i as usize]), &|| p32(v[i as usize] as u32, *y as u32))));
            let v = interesting(64);
            cx.par(v.len() as u64, |i| v.iter().for_each(|y| one(format!("64 bit {} {y}", v[i as usize]), &|| p64(v[i as usize] as u64, *y as u64))));
            let v = interesting(128);
            cx.par(v.len() as u64, |i| v.iter().for_each(|y| one(format!("128 bit {} {y}", v[i as usize]), &|| p128(v[i as usize], *y))));
        });
        cx.section("texts", || {
            let toks: Vec<&[u8]> = vec![b"0", b"1", b"9", b"65535", b"65536", b"4294967295", b"18446744073709551616", b"-", b"+", b" ", b"a", b"340282366920938463463374607431768211455"];
            all_concats(cx, &toks, cx.pick(4, 5), |s| {
                let st = std::str::from_utf8(s).unwrap();
                one(format!("text {st}"), &|| Ok(t16(st)? | t32(st)? | t64(st)? | t128(st)?))
            })
        });
        cx.section("shapes", || {
            let toks: Vec<&[u8]> = vec![b":", b"/", b"a", b"[u8:1]", b"[/u8:1]", b"[u64:7]", b"\\:", b"[::a]"];
            all_concats(cx, &toks, cx.pick(4, 6), |s| {
                cx.states(1);
                cx.transitions(27);
                cx.traces(27);
                cx.case_k(s, &|| show(s), || shape(s))
            })
        });
        cx.section("byte strings", || {
            for n in 0..=20usize {
                for f in [0u8, 1, 255] {
                    for at in 0..=n {
                        let mut v = vec![f; n];
                        if at < n {
                            v[at] = 7
                        }
                        one(format!("bytes {}", show(&v)), &|| {
                            ensure!(U8::try_from(ABList::from(v.clone())).ok().map(|v| v.0) == (v.len() == 1).then(|| v[0]), "one byte");
                            Ok(b16(&v)? | b32(&v)? | b64(&v)? | b128(&v)?)
                        })
                    }
                }
            }
            for v in 0..=255u8 {
                one(format!("byte {v}"), &|| {
                    ensure!(ev(&U8::new(v).to_abe()).as_deref() == Some(&[v][..]) && ev(&U8(v).abe_bits()).as_deref() == Some(&[v][..]), "expression");
                    ensure!(u8::from(U8(v)) == v && U8::try_from(ABList::from(U8(v))).ok() == Some(U8(v)), "through a list");
                    Ok(true)
                })
            }
        });
    })
}
