//! Oracle of the standard functions, written from their help texts.
use crate::interp::*;
use crate::text::*;

fn num<N: std::str::FromStr>(b: &[u8]) -> Val<N> {
    std::str::from_utf8(b).ok().and_then(|s| s.parse().ok()).ok_or(Stop::Err)
}
fn pad(a: &[&[u8]], left: bool, fill: u8, over: u8) -> Val<Vec<u8>> {
    let mut b = a[0].to_vec();
    let len: usize = match a.get(1) {
        Some(v) if !v.is_empty() => num(v)?,
        _ => 16,
    };
    if b.len() > len {
        match over {
            b'e' => return Err(Stop::Err),
            b'k' => return Ok(b),
            _ if left => b.truncate(len),
            _ => b = b[b.len() - len..].to_vec(),
        }
    }
    let fill = match a.get(2) {
        None => fill,
        Some([x]) => *x,
        _ => return Err(Stop::Err),
    };
    if len > 1 << 17 {
        return Err(Stop::Unspec);
    }
    let fill = vec![fill; len - b.len()];
    Ok(if left { [fill, b].concat() } else { [b, fill].concat() })
}
fn cut(a: &[&[u8]], left: bool, strict: bool) -> Val<Vec<u8>> {
    let len: usize = match a.get(1) {
        Some(v) => num(v)?,
        None => 16,
    };
    if len > a[0].len() {
        return if strict { Err(Stop::Err) } else { Ok(a[0].to_vec()) };
    }
    Ok(if left { a[0][..len].to_vec() } else { a[0][a[0].len() - len..].to_vec() })
}
/// python indexing; a zero step and "-0" are left open
pub fn slice_idx(len: usize, a: &[&[u8]]) -> Val<Vec<usize>> {
    let len = len as i128;
    let bound = |v: Option<&&[u8]>| -> Val<Option<i128>> {
        let v = match v {
            None => return Ok(None),
            Some(v) if v.is_empty() => return Ok(None),
            Some(v) => *v,
        };
        if let Some(r) = v.strip_prefix(b"-") {
            let n: usize = num(r)?;
            if n == 0 {
                return Err(Stop::Unspec);
            }
            Ok(Some(len - n as i128))
        } else {
            Ok(Some(num::<usize>(v)? as i128))
        }
    };
    // every argument is read before any is judged
    let s = bound(a.first());
    let e = bound(a.get(1));
    let st: Val<isize> = a.get(2).map_or(Ok(1), |v| num(v));
    if [s.clone().err(), e.clone().err(), st.clone().err()].contains(&Some(Stop::Err)) {
        return Err(Stop::Err);
    }
    let (s, e, st) = (s?, e?, st? as i128);
    if st == 0 {
        return Err(Stop::Unspec);
    }
    let mut out = vec![];
    if st > 0 {
        let mut i = s.unwrap_or(0).clamp(0, len);
        let e = e.unwrap_or(len).clamp(0, len);
        while i < e {
            out.push(i as usize);
            i += st
        }
    } else {
        let mut i = s.unwrap_or(len - 1).clamp(-1, len - 1);
        let e = e.map_or(-1, |e| e.clamp(-1, len - 1));
        while i > e {
            out.push(i as usize);
            i += st
        }
    }
    Ok(out)
}
fn strip0(b: &[u8]) -> &[u8] {
    let n = b.iter().take_while(|b| **b == 0).count();
    &b[n..]
}
const STD: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const URL: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub fn b64e(b: &[u8], url: bool) -> String {
    let al = if url { URL } else { STD };
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(al[(v >> (18 - 6 * i) & 63) as usize] as char)
        }
        if !url {
            for _ in c.len()..3 {
                o.push('=')
            }
        }
    }
    o
}
/// canonical text only
pub fn b64d(s: &[u8], url: bool) -> Option<Vec<u8>> {
    let al = if url { URL } else { STD };
    let mut bits = 0u32;
    let (mut nb, mut out) = (0, vec![]);
    for c in s.iter().filter(|c| url || **c != b'=') {
        let v = al.iter().position(|a| a == c)? as u32;
        bits = bits << 6 | v;
        nb += 6;
        if nb >= 8 {
            nb -= 8;
            out.push((bits >> nb) as u8);
            bits &= (1 << nb) - 1;
        }
    }
    (b64e(&out, url).as_bytes() == s).then_some(out)
}
fn radix(a: &[&[u8]], r: u32) -> Val<Vec<u8>> {
    let s = std::str::from_utf8(a[0]).map_err(|_| Stop::Err)?;
    let mut s = s.strip_prefix('+').unwrap_or(s).chars().peekable();
    if s.peek().is_none() {
        return Err(Stop::Err);
    }
    let mut v = 0u128;
    for c in s {
        let d = c.to_digit(r).ok_or(Stop::Err)?;
        v = v.checked_mul(r as u128).and_then(|v| v.checked_add(d as u128)).ok_or(Stop::Err)?;
    }
    Ok(if v == 0 { vec![0] } else { strip0(&v.to_be_bytes()).to_vec() })
}
fn le_cut(mut b: Vec<u8>) -> Vec<u8> {
    while b.last() == Some(&0) {
        b.pop();
    }
    b
}
fn int(n: usize, b: &[u8]) -> Val<[u8; 16]> {
    let v: u128 = num(b)?;
    if n < 16 && v >> (8 * n) != 0 {
        return Err(Stop::Err);
    }
    Ok(v.to_be_bytes())
}
fn arith(a: &[&[u8]], add: bool) -> Val<Vec<u8>> {
    let n = a[0].len();
    if a.iter().any(|v| v.len() != n) {
        return Err(Stop::Err);
    }
    // digit by digit over i64 columns: exact for any length
    let mut cols: Vec<i64> = a[0].iter().map(|v| *v as i64).collect();
    for v in &a[1..] {
        for i in 0..n {
            cols[i] += if add { v[i] as i64 } else { -(v[i] as i64) }
        }
    }
    let mut carry = 0i64;
    for i in (0..n).rev() {
        let t = cols[i] + carry;
        cols[i] = t.rem_euclid(256);
        carry = t.div_euclid(256);
    }
    Ok(match carry {
        0 => cols.iter().map(|c| *c as u8).collect(),
        c => vec![if c > 0 { 255 } else { 0 }; n],
    })
}
/// None: not a function of this list
pub fn func(id: &str, a: &[&[u8]]) -> Option<Val<Vec<u8>>> {
    let argc = match id {
        "a" | "f" | "lpad" | "rpad" | "~lpad" | "~rpad" | "lfixed" | "rfixed" => 1..=3,
        "lcut" | "rcut" | "~lcut" | "~rcut" => 1..=2,
        "replace" | "size?" | "val?" => 3..=3,
        "slice" => 1..=4,
        "+" | "-" | "C" => 1..=16,
        "?a" | "?a0" | "~utf8" | "u8" | "u16" | "u32" | "u64" | "u128" | "?u" | "lu" | "lu8" | "lu16" | "lu32" | "lu64" | "lu128" | "?lu" | "b2" | "b8" | "b16" | "?b" | "2mini" | "b" | "?bs" | "bs" => 1..=1,
        _ => return None,
    };
    if !argc.contains(&a.len()) {
        return Some(Err(Stop::Err));
    }
    Some(match id {
        "a" | "lpad" => pad(a, true, 0, b'e'),
        "f" => pad(a, true, 255, b'e'),
        "rpad" => pad(a, false, 0, b'e'),
        "~lpad" => pad(a, true, 0, b'k'),
        "~rpad" => pad(a, false, 0, b'k'),
        "lfixed" => pad(a, true, 0, b'c'),
        "rfixed" => pad(a, false, 0, b'c'),
        "lcut" => cut(a, true, true),
        "rcut" => cut(a, false, true),
        "~lcut" => cut(a, true, false),
        "~rcut" => cut(a, false, false),
        "replace" => {
            let (mut b, from, to) = (a[0], a[1], a[2]);
            if from.is_empty() {
                return Some(Err(Stop::Unspec));
            }
            let mut o = vec![];
            while !b.is_empty() {
                if b.starts_with(from) {
                    o.extend_from_slice(to);
                    b = &b[from.len()..]
                } else {
                    o.push(b[0]);
                    b = &b[1..]
                }
            }
            Ok(o)
        }
        "slice" => slice_idx(a[0].len(), &a[1..]).map(|v| v.into_iter().map(|i| a[0][i]).collect()),
        "?a" => Ok(enc(a[0]).into_bytes()),
        "?a0" => Ok(enc(strip0(a[0])).into_bytes()),
        "~utf8" => Ok(String::from_utf8_lossy(a[0]).into_owned().into_bytes()),
        "+" => arith(a, true),
        "-" => arith(a, false),
        "C" => Ok(vec![]),
        "u8" | "u16" | "u32" | "u64" | "u128" => {
            let n = id[1..].parse::<usize>().unwrap() / 8;
            int(n, a[0]).map(|b| b[16 - n..].to_vec())
        }
        "lu8" | "lu16" | "lu32" | "lu64" | "lu128" => {
            let n = id[2..].parse::<usize>().unwrap() / 8;
            int(n, a[0]).map(|b| b[16 - n..].iter().rev().copied().collect())
        }
        "lu" => int(16, a[0]).map(|b| le_cut(b.iter().rev().copied().collect())),
        "?u" | "?lu" => {
            if a[0].len() > 16 {
                Err(Stop::Err)
            } else {
                let it: Vec<u8> = if id == "?u" { a[0].to_vec() } else { a[0].iter().rev().copied().collect() };
                Ok(it.iter().fold(0u128, |v, b| v << 8 | *b as u128).to_string().into_bytes())
            }
        }
        "b2" => radix(a, 2),
        "b8" => radix(a, 8),
        "b16" => radix(a, 16),
        "?b" => Ok(b64e(a[0], true).into_bytes()),
        "b" => b64d(a[0], true).ok_or(Stop::Err),
        "?bs" => Ok(b64e(a[0], false).into_bytes()),
        "bs" => b64d(a[0], false).ok_or(Stop::Err),
        "2mini" => {
            let s = b64e(a[0], true);
            let n = a[0].len();
            if n <= 12 {
                Ok(s.into_bytes())
            } else {
                Ok(format!("{}{}{}{}", &s[..6], ":".repeat(n / 16), if n / 8 % 2 == 1 { "." } else { "" }, &s[s.len() - 2..]).into_bytes())
            }
        }
        "size?" => {
            // the operator is looked at after the number
            let n: Val<usize> = num(a[2]);
            match (n, a[1]) {
                (Ok(n), b"=") if n == a[0].len() => Ok(a[0].to_vec()),
                _ => Err(Stop::Err),
            }
        }
        "val?" => {
            if a[1] == b"=" && a[2] == a[0] {
                Ok(a[0].to_vec())
            } else {
                Err(Stop::Err)
            }
        }
        _ => unreachable!(),
    })
}
/// Call through the evaluator: the arguments are written as escaped text
pub fn expr(id: &str, a: &[&[u8]]) -> String {
    let mut s = format!("[{}", enc(id.as_bytes()));
    for a in a {
        s.push(':');
        s.push_str(&enc(a));
    }
    s + "]"
}
pub fn expr_chain(id: &str, a: &[&[u8]]) -> String {
    let mut s = format!("[:{}/{}", enc(a[0]), enc(id.as_bytes()));
    for a in &a[1..] {
        s.push(':');
        s.push_str(&enc(a));
    }
    s + "]"
}
pub fn check(id: &str, a: &[&[u8]]) -> kit::CaseResult {
    use kit::*;
    let want = func(id, a).unwrap();
    let mut first = None;
    for e in [Some(expr(id, a)), (!a.is_empty()).then(|| expr_chain(id, a))].into_iter().flatten() {
        let p = abe::parse_abe_strict_b(e.as_bytes()).map_err(|x| Bad::from(format!("{e}: {x}")))?;
        let got = abe::eval::eval(&abe::scope::BASIC_SCOPE, &p).ok().map(|v| v.concat());
        match &want {
            // left open, but both call styles agree
            Err(Stop::Unspec) => {
                if first.get_or_insert(got.clone()) != &got {
                    return Err(format!("{e} differs from the other call style").into());
                }
            }
            w => ensure!(got.as_ref() == w.as_ref().ok(), "{e} gives {:?} expected {:?}", got.as_deref().map(show), w.as_deref().ok().map(show)),
        }
    }
    Ok(want.is_ok())
}
