//! Escaped byte text and the expression grammar.

/// The documented text form of one byte.
pub fn enc_byte(b: u8) -> String {
    match b {
        0 => "\\0".into(),
        255 => "\\f".into(),
        b'\n' => "\\n".into(),
        b'\r' => "\\r".into(),
        b'\t' => "\\t".into(),
        b':' | b'/' | b'[' | b']' | b'\\' => format!("\\{}", b as char),
        0x20..=0x7e => (b as char).to_string(),
        _ => format!("\\x{b:02x}"),
    }
}
pub fn enc(b: &[u8]) -> String {
    b.iter().map(|b| enc_byte(*b)).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    Byte(u8),
    Ctr(u8),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum TokErr {
    /// the byte (or escape) has no meaning here
    Meaningless,
    /// `\x` without two hex digits
    Hex,
}
/// One token at the front of `s`, with the number of bytes it takes.
pub fn tok(s: &[u8]) -> Option<Result<(Tok, usize), TokErr>> {
    let hex = |c: u8| (c as char).to_digit(16).map(|v| v as u8);
    Some(match s.first()? {
        b'\\' => match s.get(1) {
            None => Err(TokErr::Meaningless),
            Some(b'x') => match (s.get(2).and_then(|c| hex(*c)), s.get(3).and_then(|c| hex(*c))) {
                (Some(a), Some(b)) => Ok((Tok::Byte(a * 16 + b), 4)),
                _ => Err(TokErr::Hex),
            },
            Some(c) => {
                let v = match c {
                    b'0' => 0,
                    b'f' => 255,
                    b'n' => 10,
                    b'r' => 13,
                    b't' => 9,
                    b':' | b'/' | b'[' | b']' | b'\\' => *c,
                    _ => return Some(Err(TokErr::Meaningless)),
                };
                Ok((Tok::Byte(v), 2))
            }
        },
        c @ (b':' | b'/' | b'[' | b']' | b'\n') => Ok((Tok::Ctr(*c), 1)),
        c @ 0x20..=0x7e => Ok((Tok::Byte(*c), 1)),
        _ => Err(TokErr::Meaningless),
    })
}
/// plain escaped text: no delimiters allowed
pub fn dec(mut s: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    while let Some(t) = tok(s) {
        match t.ok()? {
            (Tok::Byte(b), n) => {
                out.push(b);
                s = &s[n..]
            }
            _ => return None,
        }
    }
    Some(out)
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Ctr(u8),
    Bytes(Vec<u8>),
    Lst(Vec<T>),
}
/// Grammar of expressions. `loose`: meaningless bytes stand for themselves.
pub fn parse(s: &[u8], loose: bool) -> Option<Vec<T>> {
    let mut stack: Vec<Vec<T>> = vec![vec![]];
    let mut i = 0;
    while let Some(t) = tok(&s[i..]) {
        let (t, n) = match t {
            Ok((Tok::Ctr(b'\n'), _)) | Err(TokErr::Meaningless) => {
                if !loose {
                    return None;
                }
                (Tok::Byte(s[i]), 1)
            }
            Err(TokErr::Hex) => return None,
            Ok(t) => t,
        };
        i += n;
        match t {
            Tok::Byte(b) => match stack.last_mut().unwrap().last_mut() {
                Some(T::Bytes(v)) => v.push(b),
                _ => stack.last_mut().unwrap().push(T::Bytes(vec![b])),
            },
            Tok::Ctr(b'[') => stack.push(vec![]),
            Tok::Ctr(b']') => {
                let l = stack.pop().unwrap();
                stack.last_mut()?.push(T::Lst(l));
            }
            Tok::Ctr(c) => stack.last_mut().unwrap().push(T::Ctr(c)),
        }
    }
    if stack.len() != 1 {
        return None;
    }
    stack.pop()
}
pub fn print(t: &[T]) -> String {
    t.iter()
        .map(|t| match t {
            T::Ctr(c) => (*c as char).to_string(),
            T::Bytes(b) => enc(b),
            T::Lst(l) => format!("[{}]", print(l)),
        })
        .collect()
}
pub fn from_abe(a: &[abe::ABE]) -> Vec<T> {
    use abe::ast::*;
    a.iter()
        .map(|a| match a {
            ABE::Ctr(Ctr::Colon) => T::Ctr(b':'),
            ABE::Ctr(Ctr::FSlash) => T::Ctr(b'/'),
            ABE::Expr(Expr::Bytes(b)) => T::Bytes(b.clone()),
            ABE::Expr(Expr::Lst(l)) => T::Lst(from_abe(l)),
        })
        .collect()
}
pub fn to_abe(t: &[T]) -> Vec<abe::ABE> {
    use abe::ast::*;
    t.iter()
        .map(|t| match t {
            T::Ctr(b':') => ABE::Ctr(Ctr::Colon),
            T::Ctr(_) => ABE::Ctr(Ctr::FSlash),
            T::Bytes(b) => ABE::Expr(Expr::Bytes(b.clone())),
            T::Lst(l) => ABE::Expr(Expr::Lst(to_abe(l))),
        })
        .collect()
}
/// what reparsing the printed form yields: adjacent bytes merge, empty bytes vanish
pub fn normal(t: &[T]) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for t in t {
        match t {
            T::Bytes(b) if b.is_empty() => {}
            T::Bytes(b) => match out.last_mut() {
                Some(T::Bytes(v)) => v.extend_from_slice(b),
                _ => out.push(T::Bytes(b.clone())),
            },
            T::Lst(l) => out.push(T::Lst(normal(l))),
            c => out.push(c.clone()),
        }
    }
    out
}
/// Top level components: (leading delimiter or 0, contains brackets, text).
/// `plain`: delimiters that are ordinary characters here. `err`: delimiters that are refused.
pub fn components(s: &[u8], plain: &[u8], err: &[u8]) -> Option<Vec<(u8, bool, Vec<u8>)>> {
    if s.is_empty() {
        return Some(vec![]);
    }
    let mut out = vec![];
    let (mut head, mut start, mut inner, mut depth, mut i) = (0u8, 0, false, 0usize, 0);
    while let Some(t) = tok(&s[i..]) {
        let (t, n) = t.ok()?;
        if let Tok::Ctr(c) = t {
            if err.contains(&c) {
                return None;
            }
            if plain.contains(&c) {
                i += n;
                continue;
            }
            match c {
                b'[' => {
                    depth += 1;
                    inner = true
                }
                b']' => {
                    depth = depth.checked_sub(1)?;
                    inner = true
                }
                c if depth == 0 => {
                    out.push((head, inner, s[start..i].to_vec()));
                    head = c;
                    start = i + n;
                    inner = false;
                }
                _ => {}
            }
        }
        i += n;
    }
    if depth != 0 {
        return None;
    }
    out.push((head, inner, s[start..].to_vec()));
    Some(out)
}
