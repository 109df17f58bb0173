//! Option lists: lookup finds the latest matching entry, and printing keeps the entries.
use abe::abconf::{parse_ablist_b, ABConf};
use c_abe::interp::*;
use kit::*;

fn conf(es: &[&Slots]) -> ABConf {
    let mut c = ABConf::DEFAULT;
    es.iter().for_each(|e| c.push(to_list(e)));
    c
}
/// newest first
fn matches<'a>(es: &[&'a Slots], want: &[&[u8]]) -> Vec<&'a Slots> {
    es.iter()
        .rev()
        .filter(|e| {
            let p = parts(e);
            p.len() >= want.len() && p.iter().zip(want).all(|(p, w)| p.1 == *w)
        })
        .copied()
        .collect()
}
fn lookup(es: &[&Slots], want: &[&[u8]], c: &ABConf) -> CaseResult {
    let m = matches(es, want);
    let d = || format!("entries {:?} looked up by {:?}", es.iter().map(|e| text(e)).collect::<Vec<_>>(), want.iter().map(|w| show(w)).collect::<Vec<_>>());
    let got: Vec<Slots> = c.get_inner(want).map(slots_of).collect();
    ensure!(got.iter().collect::<Vec<_>>() == m, "{}: found {:?}, expected {:?}", d(), got.iter().map(text).collect::<Vec<_>>(), m.iter().map(|m| text(m)).collect::<Vec<_>>());
    // the checked variant flags entries that match across a '/'
    let chk: Vec<(bool, Slots)> = c.get_checked(want).map(|r| (r.is_ok(), slots_of(r.unwrap_or_else(|e| e)))).collect();
    ensure!(chk.len() == m.len(), "{}: checked lookup found {}", d(), chk.len());
    for ((ok, e), m) in chk.iter().zip(&m) {
        ensure!(e == *m, "{}: checked lookup found {}", d(), text(e));
        let p = parts(m);
        let slash = p.iter().take(want.len()).any(|p| p.0 == b'/');
        let next = p.get(want.len()).is_some_and(|p| p.0 == b'/');
        if slash || !next {
            ensure!(*ok != slash, "{}: {} flagged={}", d(), text(m), !ok);
        }
    }
    if !want.is_empty() {
        let got = c.has_optional_value(want);
        let w = m.first().map(|m| {
            let p = parts(m);
            if p.iter().take(want.len()).any(|p| p.0 == b'/') {
                return Err(());
            }
            match &p[want.len()..] {
                [] => Ok(None),
                [(b':', v)] => Ok(Some(v.clone())),
                _ => Err(()),
            }
        });
        let g = got.map(|r| r.map(|v| v.map(|v| v.to_vec())).map_err(|_| ()));
        ensure!(g == w, "{}: optional value {g:?}, expected {w:?}", d());
    }
    if let [one] = want {
        let g = c.get(one).map(|r| slots_of(r.unwrap_or_else(|e| e)));
        ensure!(g.as_ref() == m.first().copied(), "{}: get {g:?}", d());
    } else if want.is_empty() {
        let _ = c.has_optional_value(want);
    }
    Ok(!m.is_empty())
}
fn entries(c: &ABConf) -> Vec<Slots> {
    c.get_inner(&[]).map(slots_of).map(|s| parts(&s)).filter(|s| !(s.is_empty() || *s == vec![(0, vec![])])).collect()
}
fn roundtrip(es: &[&Slots]) -> CaseResult {
    let c = conf(es);
    let want: Vec<Slots> = es.iter().rev().filter(|s| !s.is_empty() && s[..] != [(0, vec![])]).map(|s| parts(s)).collect();
    ensure!(entries(&c) == want, "entries are not listed newest first");
    let t = c.to_string();
    for t in [t.clone(), format!(":%abctxt\n{t}")] {
        let back = ABConf::try_from(t.as_bytes()).map_err(|e| Bad::from(format!("{t:?} is not read back: {e}")))?;
        ensure!(entries(&back) == want, "{t:?} is read back as {back:?}");
        ensure!(back.to_string().trim_end_matches('\n') == c.to_string().trim_end_matches('\n'), "printing again differs");
    }
    ensure!(ABConf::try_from(format!(":%other\n{t}").as_bytes()).is_err(), "unknown format accepted");
    let mut d = ABConf::DEFAULT;
    d.extend(es.iter().map(|e| to_list(e)).collect());
    let raw = |c: &ABConf| c.get_inner(&[]).map(slots_of).collect::<Vec<_>>();
    for k in 0..=es.len().min(3) {
        let mut d = conf(&es[..k]);
        d.extend(es[k..].iter().map(|e| to_list(e)).collect());
        ensure!(raw(&d) == raw(&c) && d.to_string() == t, "adding the entries after the first {k} at once differs from adding them one by one");
    }
    ensure!(d.to_string() == t && ABConf::new(es.iter().map(|e| to_list(e)).collect()).to_string() == t, "extend/new differ from push");
    Ok(!want.is_empty())
}
fn main() {
    kit::main("A10", "model_checking", |cx| {
        cx.rule("every list of up to three entries of the stated sets and every prefix, against a direct definition of the lookup; every such list printed and read back; non-trivial: something matches");
        let vals: [&[u8]; 3] = [b"", b"a", b"b"];
        let prefixes = |n: usize| -> Vec<Vec<&'static [u8]>> {
            let v: [&'static [u8]; 3] = [b"", b"a", b"b"];
            (0..=n).flat_map(|n| (0..count(3, n)).map(move |i| nth_digits(3, n, i).into_iter().map(|d| v[d]).collect::<Vec<_>>())).collect()
        };
        let go = |es: &[&Slots], ps: &[Vec<&[u8]>]| {
            cx.states(1);
            cx.transitions(ps.len() as u64 + 1);
            cx.traces(1);
            let k = es.iter().map(|e| text(e)).collect::<Vec<_>>().join("\n");
            let c = conf(es);
            for p in ps {
                cx.case_k(k.as_bytes(), &|| format!("{k:?} by {p:?}"), || lookup(es, p, &c))
            }
            cx.case_k(k.as_bytes(), &|| format!("{k:?} printed"), || roundtrip(es));
        };
        let e4 = all_slots(cx.pick(3, 4), &vals);
        let p4 = prefixes(4);
        cx.bound("single entries", e4.len());
        cx.section("one entry", || cx.par(e4.len() as u64, |i| go(&[&e4[i as usize]], &p4)));
        let e2 = all_slots(2, &vals);
        let p2 = prefixes(2);
        cx.section("two entries", || {
            let n = e2.len() as u64;
            cx.par(n * n, |i| go(&[&e2[(i / n) as usize], &e2[(i % n) as usize]], &p4[..]))
        });
        let e3 = all_slots(2, &vals[..2]);
        let few: &Vec<Slots> = if cx.quick() { &e3 } else { &e2 };
        cx.section("three entries", || {
            let n = few.len() as u64;
            cx.par(n * n * n, |i| go(&[&few[(i / n / n) as usize], &few[(i / n % n) as usize], &few[(i % n) as usize]], &p2))
        });
        cx.section("many entries and long entries", || {
            let mode = |v: &[u8]| -> Slots { vec![(b':', b"mode".to_vec()), (b':', v.to_vec())] };
            let other = |v: &[u8]| -> Slots { vec![(b'/', b"o".to_vec()), (b':', v.to_vec())] };
            let ps: Vec<Vec<&[u8]>> = vec![vec![], vec![b""], vec![b"", b"mode"], vec![b"", b"o"], vec![b"", b"mode", b"7"], vec![b"", b"none"]];
            for n in c_abe::WIDE {
                for at in [0, 1, n / 2, n - 1] {
                    let es: Vec<Slots> = (0..n).map(|i| if i == at { mode(b"7") } else { other(i.to_string().as_bytes()) }).collect();
                    go(&es.iter().collect::<Vec<_>>(), &ps);
                    let es: Vec<Slots> = (0..n).map(|i| if i <= at { mode(i.to_string().as_bytes()) } else { vec![(0, vec![b'x'; i % 40])] }).collect();
                    go(&es.iter().collect::<Vec<_>>(), &ps);
                }
                // entries of many components, values of many bytes
                let comps: Vec<Vec<u8>> = (0..n).map(|i| i.to_string().into_bytes()).collect();
                for slash in [usize::MAX, 0, 1, n / 2, n - 1] {
                    let e: Slots = comps.iter().enumerate().map(|(i, c)| (if i == slash { b'/' } else { b':' }, c.clone())).collect();
                    let full: Vec<&[u8]> = [&b""[..]].into_iter().chain(comps.iter().map(|c| &c[..])).collect();
                    let mut wrong = full.clone();
                    *wrong.last_mut().unwrap() = b"x";
                    go(&[&e], &[full.clone(), full[..n].to_vec(), full[..n - 1].to_vec(), full[..2].to_vec(), wrong]);
                    go(&[&e, &mode(b"7"), &e], &[full[..n].to_vec(), vec![b"", b"mode"]]);
                }
                // values and names that differ in one byte only
                if n <= 600 {
                    let long = vec![b'v'; n];
                    let at = [0, 1, 7, 8, 15, 16, 17, 31, 32, 33, n / 2, n - 1];
                    let alike: Vec<Vec<u8>> = at.iter().filter(|i| **i < n).map(|i| { let mut l = long.clone(); l[*i] = b'w'; l }).collect();
                    for o in &alike {
                        let short = &long[..n - 1];
                        go(&[&mode(o), &vec![(0, o.clone()), (b':', long.clone())]], &[vec![b"", b"mode", &long], vec![&long], vec![o, o], vec![o, &long], vec![short], vec![b"", b"mode", short]]);
                    }
                }
                let long = vec![b'v'; n];
                let zeros = vec![0u8; n];
                go(&[&mode(&long), &vec![(0, long.clone()), (b':', zeros.clone())], &mode(&zeros)], &[vec![b"", b"mode"], vec![&long], vec![&long[1..]], vec![b"", b"mode", &long]]);
            }
        });
        cx.section("values of every byte", || {
            for b in 0..=255u8 {
                let e: Slots = vec![(b':', b"mode".to_vec()), (b':', vec![b, b'x', b])];
                go(&[&e], &[vec![b"", b"mode"], vec![b""]]);
            }
        });
        cx.section("reading refuses what is not a list", || {
            let toks: Vec<&[u8]> = vec![b"a", b":", b"/", b"[", b"]", b"\\", b"\n", b"\x80"];
            all_concats(cx, &toks, cx.pick(5, 6), |s| {
                cx.case(s, || {
                    let line = |l: &[u8]| -> Option<Slots> {
                        let t = c_abe::text::parse(l, false)?;
                        struct No;
                        impl Env for No {
                            fn func(&self, _: &[u8], _: &[&[u8]], _: bool) -> Option<Val<Vec<u8>>> {
                                None
                            }
                            fn mac(&self, _: &[u8], _: &[c_abe::text::T]) -> Option<Val<Vec<u8>>> {
                                None
                            }
                        }
                        if t.iter().any(|t| matches!(t, c_abe::text::T::Lst(_))) {
                            return None;
                        }
                        eval(&No, &t).ok()
                    };
                    let want: Option<Vec<Slots>> = s.split(|c| *c == b'\n').map(line).collect();
                    let got = ABConf::try_from(s).ok();
                    ensure!(got.is_some() == want.is_some(), "read={} expected={}", got.is_some(), want.is_some());
                    if let (Some(w), Some(g)) = (&want, got) {
                        let w: Vec<Slots> = w.iter().map(parts).filter(|s| !s.is_empty()).collect();
                        ensure!(entries(&g) == w, "entries {:?}", entries(&g));
                    }
                    if !s.contains(&b'\n') {
                        ensure!(parse_ablist_b(s).ok().map(|l| slots_of(&l)) == line(s), "single line differs");
                    }
                    Ok(want.is_some())
                })
            })
        });
    })
}
