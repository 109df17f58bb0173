//! Reference evaluator of expressions, and the oracle of the standard functions.
use crate::text::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Err,
    /// the behaviour is left open
    Unspec,
}
pub type Val<V> = Result<V, Stop>;
/// a delimited list: (delimiter or 0, bytes)
pub type Slots = Vec<(u8, Vec<u8>)>;

pub trait Env {
    /// None: no such function
    fn func(&self, id: &[u8], args: &[&[u8]], init: bool) -> Option<Val<Vec<u8>>>;
    fn mac(&self, id: &[u8], rest: &[T]) -> Option<Val<Vec<u8>>>;
}
pub fn dump(out: &mut Vec<u8>, t: &[T]) {
    for t in t {
        match t {
            T::Ctr(c) => out.push(*c),
            T::Bytes(b) => out.extend_from_slice(b),
            T::Lst(l) => {
                out.push(b'[');
                dump(out, l);
                out.push(b']')
            }
        }
    }
}
/// Concatenate a delimited list, delimiters as plain bytes
pub fn flat(s: &Slots) -> Vec<u8> {
    let mut o = vec![];
    for (c, b) in s {
        if *c != 0 {
            o.push(*c)
        }
        o.extend_from_slice(b)
    }
    o
}
pub fn eval(env: &dyn Env, t: &[T]) -> Val<Slots> {
    let mut out: Slots = vec![];
    for t in t {
        let b = match t {
            T::Ctr(c) => {
                out.push((*c, vec![]));
                continue;
            }
            T::Bytes(b) => b.clone(),
            T::Lst(l) => list(env, l)?,
        };
        match out.last_mut() {
            Some((_, v)) => v.extend_from_slice(&b),
            None => out.push((0, b)),
        }
    }
    Ok(out)
}
fn list(env: &dyn Env, l: &[T]) -> Val<Vec<u8>> {
    match l {
        [] => return Ok(vec![]),
        [T::Ctr(b'/'), tail @ ..] => {
            let (id, rest): (&[u8], &[T]) = match tail {
                [] => return Err(Stop::Err),
                [T::Lst(_), ..] => return Err(Stop::Err),
                [T::Ctr(b':'), rest @ ..] => {
                    let mut o = vec![];
                    dump(&mut o, rest);
                    return Ok(o);
                }
                [T::Ctr(_), ..] => (&[], tail),
                [T::Bytes(b), rest @ ..] => (b, rest),
            };
            return env.mac(id, rest).unwrap_or(Err(Stop::Err));
        }
        [T::Lst(_), ..] => return Err(Stop::Err),
        [T::Bytes(_), T::Lst(_) | T::Bytes(_)] => return Err(Stop::Err),
        [T::Bytes(_), T::Lst(_) | T::Bytes(_), ..] => return Err(Stop::Unspec),
        _ => {}
    }
    // a chained function name that is computed is left open
    let mut name = false;
    for (i, t) in l.iter().enumerate() {
        match t {
            T::Ctr(b'/') => name = i > 0,
            T::Ctr(_) => name = false,
            T::Lst(_) if name => return Err(Stop::Unspec),
            _ => {}
        }
    }
    let slots = eval(env, l)?;
    let mut carry: Vec<u8> = vec![];
    let mut i = 0;
    while i < slots.len() {
        let mut j = i + 1;
        while j < slots.len() && slots[j].0 != b'/' {
            j += 1
        }
        let seg = &slots[i..j];
        if seg.len() > 16 {
            return Err(Stop::Err);
        }
        let args: Vec<&[u8]> = seg[1..].iter().map(|s| &s.1[..]).collect();
        carry = match seg[0].0 {
            b':' => seg.iter().map(|s| &s.1[..]).collect::<Vec<_>>().concat(),
            0 => env.func(&seg[0].1, &args, true).unwrap_or(Err(Stop::Err))?,
            _ => {
                let mut a = vec![&carry[..]];
                a.extend(args);
                env.func(&seg[0].1, &a, false).unwrap_or(Err(Stop::Err))?
            }
        };
        i = j;
    }
    Ok(carry)
}
pub fn slots_of(l: &abe::eval::ABList) -> Slots {
    l.as_slice().iter().map(|(c, b)| (c.map(|c| c as u8).unwrap_or(0), b.clone())).collect()
}
pub fn to_list(s: &Slots) -> abe::eval::ABList {
    let mut l = abe::eval::ABList::default();
    for (c, b) in s {
        let c = match c {
            b':' => Some(abe::ast::Ctr::Colon),
            b'/' => Some(abe::ast::Ctr::FSlash),
            _ => None,
        };
        l.push_v((c, b.clone()));
    }
    l
}
/// every list with at most n slots over the given values
pub fn all_slots(n: usize, vals: &[&[u8]]) -> Vec<Slots> {
    let mut out: Vec<Slots> = vec![vec![]];
    let mut last: Vec<Slots> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for l in &last {
            for c in [0, b':', b'/'] {
                if c == 0 && !l.is_empty() {
                    continue;
                }
                for v in vals {
                    let mut l = l.clone();
                    l.push((c, v.to_vec()));
                    next.push(l)
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
/// components: a leading delimiter has an empty component before it
pub fn parts(s: &Slots) -> Vec<(u8, Vec<u8>)> {
    match s.first() {
        Some((c, _)) if *c != 0 => std::iter::once((0, vec![])).chain(s.iter().cloned()).collect(),
        _ => s.clone(),
    }
}
pub fn text(s: &Slots) -> String {
    s.iter().map(|(c, b)| format!("{}{}", if *c == 0 { String::new() } else { (*c as char).to_string() }, enc(b))).collect()
}
