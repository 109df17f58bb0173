//! Moments and durations: sums, differences, texts and ranges are exact, or refused.
use abe::eval::{eval, EScope};
use core_::stamp_fmt::*;
use core_::stamp_range::{IterCmp, StampRange};
use c_core::core_;
use kit::*;
use linkspace_pkt::Stamp;
use std::time::Duration;

/// micro seconds of each unit, the largest first
const UNITS: [(u8, u64); 9] = [
    (b'Y', 365 * 86_400_000_000 + 6 * 3_600_000_000),
    (b'M', 30 * 86_400_000_000),
    (b'W', 7 * 86_400_000_000),
    (b'D', 86_400_000_000),
    (b'h', 3_600_000_000),
    (b'm', 60_000_000),
    (b's', 1_000_000),
    (b'l', 1000),
    (b'u', 1),
];
/// numbers with a unit, from large to small units
fn duration(t: &[u8]) -> Option<u128> {
    let (mut sum, mut from, mut i) = (0, 0, 0);
    while i < t.len() {
        // a sign as numbers have it is let pass
        i += (t[i] == b'+') as usize;
        let s = i;
        while i < t.len() && t[i].is_ascii_digit() {
            i += 1
        }
        let n: u64 = std::str::from_utf8(&t[s..i]).ok()?.parse().ok()?;
        let u = UNITS.iter().position(|u| Some(&u.0) == t.get(i))?;
        if n > u32::MAX as u64 || u < from {
            return None;
        }
        sum += n as u128 * UNITS[u].1 as u128;
        from = u + 1;
        i += 1;
    }
    Some(sum)
}
fn units_text(mut d: u64, precision: usize, units: usize, zeros: bool, delim: &str) -> String {
    let shown: Vec<_> = UNITS[..precision].iter().filter(|u| u.1 <= d).take(units).collect();
    if shown.is_empty() {
        return format!("0{}", UNITS[precision - 1].0 as char);
    }
    let mut s = String::new();
    for (c, u) in shown {
        let n = d / u;
        d %= u;
        if zeros || n > 0 {
            s += &format!("{delim}{n}{}", *c as char)
        }
    }
    s
}
fn delta(from: u64, to: u64, precision: usize, units: usize) -> String {
    format!("{}{}", if to > from { "+" } else { "-" }, units_text(to.abs_diff(from), precision, units, true, " "))
}
fn check_duration(t: &[u8]) -> CaseResult {
    let want = duration(t);
    let got = no_panic(|| parse_duration_str(t).ok()).map_err(|p| Bad { key: "panic".into(), msg: p })?;
    ensure!(got.map(|d| d.as_nanos()) == want.map(|w| w * 1000), "{got:?} instead of {want:?} micro seconds");
    Ok(want.is_some())
}
/// what the functions of the language do with their arguments
fn apply(mut at: u64, now: u64, args: &[&[u8]]) -> Option<Vec<u8>> {
    for (i, a) in args.iter().enumerate() {
        let last = i + 1 == args.len();
        at = match *a {
            [] => at,
            [b'+', b'+', r @ ..] => (at as u128 + duration(r)?).min(u64::MAX as u128) as u64,
            [b'-', b'-', r @ ..] => (at as u128).saturating_sub(duration(r)?) as u64,
            [b'+', r @ ..] => u64::try_from(at as u128 + duration(r)?).ok()?,
            [b'-', r @ ..] => (at as u128).checked_sub(duration(r)?)? as u64,
            b"ticks" if last => return Some(delta(0, at, 9, 2).into()),
            b"val" if last => return Some(delta(0, at, 9, 9).into()),
            b"delta" if last => return Some(delta(now, at, 9, 2).into()),
            _ => return None,
        };
    }
    Some(at.to_be_bytes().to_vec())
}
fn text_of(b: &[u8]) -> String {
    b.iter().map(|b| if b.is_ascii_alphanumeric() || b"+- ".contains(b) { (*b as char).to_string() } else { format!("\\x{b:02x}") }).collect()
}
fn run_expr(now: u64, e: &str) -> Result<Option<Vec<u8>>, Bad> {
    let scope = EScope(StampEF { fixed_now: Some(Stamp::new(now)) });
    no_panic(|| {
        let e = abe::parse_abe_strict_b(e.as_bytes()).unwrap();
        eval(&scope, &e).ok().map(|v| v.concat())
    })
    .map_err(|p| Bad { key: "panic".into(), msg: p })
}
fn check_range(a: u64, b: u64, i: u64) -> CaseResult {
    let r = StampRange::new_u64s(a, b);
    let s = Stamp::new(i);
    let (lo, hi) = (a.min(b), a.max(b));
    let inside = lo <= i && i <= hi;
    ensure!(r.contains(s) == inside && r.contains_u64(i) == inside, "contains is not {inside}");
    ensure!(r.lower_bound().get() == lo && r.upper_bound().get() == hi, "bounds");
    ensure!(r.rev() == StampRange::new_u64s(b, a) && r.rev().contains(s) == inside, "reversed");
    ensure!(r.is_ascending() == (a < b) && r.is_new_first() != r.is_ascending(), "direction");
    let want = match () {
        _ if inside => IterCmp::In,
        _ if (i < lo) == (a <= b) => IterCmp::Pre,
        _ => IterCmp::Post,
    };
    ensure!(r.iter_cmp(s) == want && r.iter_cmp_u64(i) == want, "{:?} instead of {want:?}", r.iter_cmp(s));
    let t = r.to_string();
    ensure!(t.parse::<StampRange>().ok() == Some(r), "{t} is read as {:?}", t.parse::<StampRange>().ok());
    ensure!(StampRange::new(Stamp::new(a), Stamp::new(b)) == r && r.as_bound() == (a..=b), "parts");
    if a < u64::MAX {
        ensure!(StampRange::after(Stamp::new(a)).contains(s) == (i > a), "after {a}");
    }
    ensure!(StampRange::asc_from(Stamp::new(a)).contains(s) == (i >= a), "from {a}");
    Ok(inside)
}
fn stamp_text(t: &[u8], now: Option<u64>) -> Option<u64> {
    match t {
        b"++" => return Some(u64::MAX),
        b"--" | b"0" => return Some(0),
        _ if t.iter().all(|c| c.is_ascii_digit()) => {
            if let Ok(v) = std::str::from_utf8(t).unwrap().parse() {
                return Some(v);
            }
        }
        _ => (),
    }
    let now = now?;
    match t {
        b"now" => Some(now),
        [b'+', r @ ..] => Some((now as u128 + duration(r)?).min(u64::MAX as u128) as u64),
        [b'-', r @ ..] => Some((now as u128).saturating_sub(duration(r)?) as u64),
        _ => None,
    }
}
fn main() {
    kit::main("T01", "model_checking", |cx| {
        cx.rule("whole numbers of micro seconds: a duration is a row of numbers with units from large to small; sums and differences are exact, beyond the ends of the range refused or, where asked, the end; a printed duration has the largest units it has room for, and reads back if all are shown; a range has a direction, and every moment is before, in or after it");
        let toks: Vec<&[u8]> = vec![b"0", b"1", b"07", b"59", b"4294967295", b"4294967296", b"Y", b"M", b"W", b"D", b"h", b"m", b"s", b"l", b"u", b"x", b"S", b" ", b"+", b"-", b"\xff", b".", b"\xc3\xa9"];
        let n = cx.pick(4, 5);
        cx.bound("tokens in a duration", format!("{} kinds, up to {n}", toks.len()));
        cx.section("texts of durations", || {
            for k in 0..=n {
                cx.par((toks.len() as u64).pow(k as u32), |i| {
                    let t: Vec<u8> = nth_digits(toks.len(), k, i).into_iter().flat_map(|d| toks[d].to_vec()).collect();
                    cx.states(1);
                    cx.case_k(b"", &|| show(&t), || check_duration(&t));
                });
            }
            // every choice of units, in every order of two
            cx.par(512, |m| {
                let mut t = vec![];
                for (i, u) in UNITS.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        t.extend_from_slice(format!("{}{}", (i as u64 * 7 + m) % 13, u.0 as char).as_bytes())
                    }
                }
                cx.case_k(b"", &|| show(&t), || check_duration(&t));
                for u in UNITS {
                    let mut t = t.clone();
                    t.extend([b'3', u.0]);
                    cx.case_k(b"", &|| show(&t), || check_duration(&t));
                }
            });
        });
        let mut edges: Vec<u64> = vec![0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 53, (1 << 53) + 1, u64::from(u32::MAX) * 1_000_000];
        for u in UNITS {
            for k in [1u64, 2, 11, 12, 13, 23, 24, 59, 60, 364, 999, 1000, 1001, 47_000] {
                let v = u.1.saturating_mul(k);
                edges.extend([v - 1, v, v.saturating_add(1), (u64::MAX / u.1 * u.1).saturating_sub(k), (u64::MAX / u.1 - k) * u.1 - 1])
            }
        }
        edges.sort();
        edges.dedup();
        cx.bound("moments", edges.len());
        cx.section("printed durations", || {
            cx.par(edges.len() as u64, |i| {
                let v = edges[i as usize];
                cx.case_k(b"", &|| format!("{v}"), || {
                    let d = Duration::from_micros(v);
                    let t = duration_as_stamp_dfmt(d);
                    ensure!(t == units_text(v, 9, 10, false, ""), "as text it is {t}, not {}", units_text(v, 9, 10, false, ""));
                    ensure!(parse_duration_str(&t).ok() == Some(d), "{t} is read as {:?}", parse_duration_str(&t).ok());
                    let x = t.parse::<DurationStr>().map_err(|e| e.to_string())?;
                    ensure!(x.0 == d && x.stamp().get() == v, "{x:?}");
                    Ok(true)
                });
                for from in [0, 1, 3_600_000_000, 1_700_000_000_000_000, u64::MAX] {
                    for precision in 1..=9 {
                        for units in 0..=9 {
                            cx.case_k(b"", &|| format!("{v} from {from} in {units} of {precision}"), || {
                                let t = no_panic(|| delta_stamp_p(Stamp::new(from), Stamp::new(v), precision, units)).map_err(|p| Bad { key: "panic".into(), msg: p })?;
                                let want = delta(from, v, precision, units);
                                ensure!(t == want, "{t} instead of {want}");
                                let f = StampFmt::Delta { from: Stamp::new(from), percision: precision, units };
                                ensure!(f.stringify(Stamp::new(v)) == want, "{} as format", f.stringify(Stamp::new(v)));
                                Ok(v != from)
                            });
                        }
                    }
                    cx.states(100);
                }
                cx.case_k(b"", &|| format!("{v} as number"), || {
                    let t = StampFmt::U64.stringify(Stamp::new(v));
                    ensure!(t == v.to_string() && stamp_from_str(&t, None).ok() == Some(Stamp::new(v)), "{t}");
                    Ok(true)
                })
            });
        });
        let durs: Vec<&[u8]> = vec![b"", b"0u", b"1u", b"1s", b"1Y1u", b"584542Y", b"584543Y", b"4294967295Y", b"1s1Y", b"s", b"x", b"+1s", b"\xff1s", b"18446744073s", b"1M", b"1m", b"1l"];
        let mut args: Vec<Vec<u8>> = vec![];
        for d in &durs {
            for op in ["+", "-", "++", "--"] {
                args.push([op.as_bytes(), d].concat())
            }
        }
        args.extend([b"".to_vec(), b"ticks".to_vec(), b"val".to_vec(), b"delta".to_vec(), b"tick".to_vec(), b"1s".to_vec(), b"now".to_vec(), b"+1M2s".to_vec()]);
        let moments = [0u64, 1, 999_999, 1_700_000_000_000_000, u64::MAX - 1_000_000, u64::MAX];
        cx.bound("arguments", format!("{} kinds, up to {}", args.len(), cx.pick(2, 3)));
        cx.section("the functions of the language", || {
            let now = 1_700_000_000_000_000;
            for k in 0..=cx.pick(2, 3) {
                cx.par((args.len() as u64).pow(k as u32), |i| {
                    let a: Vec<&[u8]> = nth_digits(args.len(), k, i).into_iter().map(|d| &args[d][..]).collect();
                    let t: String = a.iter().map(|a| format!(":{}", text_of(a))).collect();
                    let mut forms: Vec<(String, u64)> = vec![(format!("[us{t}]"), 0), (format!("[now{t}]"), now), (format!("[epoch{t}]"), 0), (format!("[us++{t}]"), u64::MAX)];
                    for m in moments {
                        let b: String = m.to_be_bytes().iter().map(|b| format!("\\x{b:02x}")).collect();
                        forms.push((format!("[:{b}/us{t}]"), m))
                    }
                    for (e, at) in forms {
                        cx.states(1);
                        cx.case_k(b"", &|| e.clone(), || {
                            let got = run_expr(now, &e)?;
                            let want = apply(at, now, &a);
                            ensure!(got == want, "{:?} instead of {:?}", got.as_deref().map(show), want.as_deref().map(show));
                            Ok(want.is_some())
                        })
                    }
                });
            }
            // only eight bytes are a moment
            for n in (0..=20).filter(|n| *n != 8) {
                let e = format!("[:{}/us]", "a".repeat(n));
                cx.case_k(b"", &|| e.clone(), || {
                    ensure!(run_expr(now, &e)?.is_none(), "is a moment");
                    Ok(false)
                })
            }
            // the date is not looked at, but there is one for every moment
            for v in &edges {
                let b: String = v.to_be_bytes().iter().map(|b| format!("\\x{b:02x}")).collect();
                let e = format!("[:{b}/us:str]");
                cx.case_k(b"", &|| e.clone(), || {
                    ensure!(run_expr(now, &e)?.is_some(), "has no date");
                    Ok(true)
                })
            }
        });
        let mut texts: Vec<Vec<u8>> = ["", "++", "--", "0", "00", "now", "+", "-", "1", "18446744073709551615", "18446744073709551616", "+1s", "-1s", "++1s", "--1s", "+584543Y", "-584543Y", "now+1s", "+s", "1s", " 1", "-now", "+-1s"].iter().map(|t| t.as_bytes().to_vec()).collect();
        texts.extend([b"+\xff".to_vec(), b"\xff".to_vec(), b"-\xff1s".to_vec()]);
        cx.section("texts of moments and ranges", || {
            for t in &texts {
                for now in [None, Some(0), Some(1_700_000_000_000_000), Some(u64::MAX)] {
                    cx.case_k(b"", &|| format!("{} at {now:?}", show(t)), || {
                        let got = no_panic(|| stamp_from_str(t, now.map(Stamp::new)).ok().map(Stamp::get)).map_err(|p| Bad { key: "panic".into(), msg: p })?;
                        let want = stamp_text(t, now);
                        // nothing is digits only too, but no number
                        ensure!(got == want, "{got:?} instead of {want:?}");
                        Ok(want.is_some())
                    });
                    for u in &texts {
                        let (Ok(a), Ok(b)) = (std::str::from_utf8(t), std::str::from_utf8(u)) else { continue };
                        for s in [format!("{a}..{b}"), a.to_string()] {
                            cx.case_k(b"", &|| format!("{s} at {now:?}"), || {
                                let got = no_panic(|| StampRange::from_str_at(&s, now.map(Stamp::new)).ok()).map_err(|p| Bad { key: "panic".into(), msg: p })?;
                                let part = |t: &[u8], or: u64| if t.is_empty() { Some(or) } else { stamp_text(t, now) };
                                let want = part(t, u64::MAX).zip(if s.contains("..") { part(u, 0) } else { Some(0) });
                                ensure!(got.map(|r| (r.start, r.end)) == want, "{got:?} instead of {want:?}");
                                Ok(want.is_some())
                            })
                        }
                    }
                }
            }
        });
        cx.section("ranges", || {
            let mut v: Vec<u64> = (0..cx.pick(8, 20)).flat_map(|i| [i, u64::MAX - i]).collect();
            v.extend([255, 256, 257, 1 << 32, 1_700_000_000_000_000, 1 << 63]);
            cx.par((v.len() * v.len()) as u64, |i| {
                let (a, b) = (v[i as usize / v.len()], v[i as usize % v.len()]);
                for i in &v {
                    cx.states(1);
                    cx.case_k(b"", &|| format!("{i} in {a}..{b}"), || check_range(a, b, *i))
                }
            })
        });
    })
}
