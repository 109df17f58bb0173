//! Rewriting the route fields of a packet: what is asked for is what they are, the rest stays.
use core_::mut_header::*;
use c_core::*;
use kit::*;
use linkspace_pkt::NetPktHeader;

/// name, place in the header
const FIELDS: [(&str, usize, usize); 7] = [("netflags", 3, 1), ("hop", 4, 4), ("stamp", 8, 8), ("ubits0", 16, 4), ("ubits1", 20, 4), ("ubits2", 24, 4), ("ubits3", 28, 4)];
const OTHER: [&str; 12] = ["prefix", "hash", "group", "domain", "create", "data", "pubkey", "recv", "i", "rspacename", "depth", "nope"];

type One = (&'static str, &'static str, Vec<u8>);
fn text(b: &[u8]) -> String {
    b.iter().map(|b| format!("\\x{b:02x}")).collect()
}
/// set to which value, or refused
fn set(o: &One) -> Option<(usize, Vec<u8>)> {
    let f = FIELDS.iter().find(|f| f.0 == o.0)?;
    (o.1 == "=" && o.2.len() == f.2).then(|| (f.1, o.2.clone()))
}
/// room to have a header at every alignment
#[repr(align(32))]
struct Room([u8; 96]);

fn check(list: &[One], heads: &[[u8; 32]]) -> CaseResult {
    let scope = abe::scope::BASIC_SCOPE;
    let want: Option<Vec<(usize, Vec<u8>)>> = list.iter().map(set).collect();
    let exprs: Result<Vec<MutFieldExpr>, _> = list.iter().map(|(f, o, v)| format!("{f}:{o}:{}", text(v)).parse::<MutFieldExpr>()).collect();
    let got = match exprs {
        Err(e) => {
            ensure!(want.is_none(), "is not parsed: {e}");
            return Ok(false);
        }
        Ok(e) => NetHeaderMutate::from_lst(&e, &scope).ok(),
    };
    ensure!(got.is_some() == want.is_some(), "{} instead of {}", if got.is_some() { "accepted" } else { "refused" }, if want.is_some() { "accepted" } else { "refused" });
    let (Some(m), Some(sets)) = (got, want) else { return Ok(false) };
    let mut room = Room([0; 96]);
    for (n, h) in heads.iter().enumerate() {
        for at in [n % 32, 0, 1, 8] {
            room.0 = [0xA5; 96];
            room.0[at..at + 32].copy_from_slice(h);
            // the header has no alignment
            let p = unsafe { &mut *(room.0.as_mut_ptr().add(at) as *mut NetPktHeader) };
            m.mutate(p);
            let mut w = [0xA5; 96];
            w[at..at + 32].copy_from_slice(h);
            for (o, v) in &sets {
                w[at + o..at + o + v.len()].copy_from_slice(v)
            }
            ensure!(room.0 == w, "{} becomes {} instead of {}", c_pkt::hex(h), c_pkt::hex(&room.0[at..at + 32]), c_pkt::hex(&w[at..at + 32]));
        }
    }
    Ok(!sets.is_empty())
}
fn main() {
    kit::main("T02", "model_checking", |cx| {
        cx.rule("a list of settings sets each named field of the route to its value, the last one counts, and no other bit of the header, wherever it lies in memory; a field that is not one of the route, another operator and a value of another size are refused");
        let vals = |n: usize| -> Vec<Vec<u8>> {
            let mut v: Vec<Vec<u8>> = [0u8, 255, 0x5a, 1].iter().map(|b| vec![*b; n]).collect();
            v.push((1..=n as u8).map(|i| i * 0x11).collect());
            v
        };
        let mut good: Vec<One> = FIELDS.iter().flat_map(|f| vals(f.2).into_iter().map(|v| (f.0, "=", v))).collect();
        good.dedup();
        let mut bad: Vec<One> = vec![];
        for f in FIELDS {
            for o in ["<", ">", "<=", ">=", "0", "1", "0=", "1=", "=0", "=1", "*=", "=*", "!"] {
                bad.push((f.0, o, vec![7; f.2]))
            }
            for n in 0..=9 {
                if n != f.2 {
                    bad.push((f.0, "=", vec![7; n]))
                }
            }
        }
        for f in OTHER {
            for n in [1, 4, 8, 16, 32] {
                bad.push((f, "=", vec![0; n]))
            }
        }
        let mut heads: Vec<[u8; 32]> = vec![[0; 32], [255; 32], std::array::from_fn(|i| i as u8), std::array::from_fn(|i| 0xFE - i as u8)];
        for b in 0..cx.pick(32, 256) {
            let mut h = [0; 32];
            h[b % 32] = 1 << (b / 32);
            heads.push(h);
            heads.push(h.map(|x| !x))
        }
        cx.bound("headers", heads.len());
        cx.bound("settings", format!("{} right ones, {} others", good.len(), bad.len()));
        let go = |l: &[One], heads: &[[u8; 32]]| {
            cx.states(heads.len() as u64);
            cx.transitions(l.len() as u64);
            cx.traces(1);
            cx.case_k(b"", &|| format!("{l:?}"), || check(l, heads))
        };
        cx.section("settings", || {
            go(&[], &heads);
            for g in &good {
                go(&[g.clone()], &heads)
            }
            for b in &bad {
                go(&[b.clone()], &heads);
                for g in &good {
                    go(&[b.clone(), g.clone()], &heads[..8]);
                    go(&[g.clone(), b.clone()], &heads[..8])
                }
            }
        });
        cx.section("several settings", || {
            let n = good.len() as u64;
            cx.par(n * n, |i| {
                let (a, b) = (&good[(i / n) as usize], &good[(i % n) as usize]);
                go(&[a.clone(), b.clone()], &heads[..if cx.quick() { 16 } else { heads.len() }]);
                for c in &good {
                    go(&[a.clone(), b.clone(), c.clone()], &heads[..8])
                }
            })
        });
    })
}
