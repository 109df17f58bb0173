//! Keys encrypted with a password: only the password gives the key back, and never another key.
use c_key::*;
use kit::*;
use linkspace_argon2_identity::*;

const CHEAP: [Costs; 7] = [
    INSECURE_COST,
    Costs { mem: 16, times: 2, parallelism: 2 },
    Costs { mem: 9, times: 3, parallelism: 1 },
    Costs { mem: 40, times: 1, parallelism: 5 },
    Costs { mem: 300, times: 1, parallelism: 17 },
    Costs { mem: 1024, times: 17, parallelism: 8 },
    Costs { mem: 4100, times: 1, parallelism: 255 },
];

fn pair(s: &[u8; 32], cost: Costs, pw: &[u8], tries: &[Vec<u8>]) -> CaseResult {
    let k = key(s);
    let s = &secret(&k);
    let e = encrypt(&k, pw, Some(cost));
    ensure!(e == encrypt(&k, pw, Some(cost)), "encrypting twice differs");
    ensure!(e.bytes().all(|b| (0x21..=0x7e).contains(&b)), "{e:?} is not printable");
    ensure!(pubkey(&e).ok() == Some(k.pubkey_bytes()), "public part of {e}");
    for t in tries {
        let r = decrypt(&e, t);
        if t == pw {
            ensure!(r.as_ref().ok().map(secret) == Some(*s), "the password does not give the key back: {r:?}");
        } else {
            ensure!(matches!(r, Err(KeyError::WrongPassword)), "password {} of a key encrypted with {} gives {r:?}", show(t), show(pw));
        }
    }
    Ok(true)
}
/// what a text says: costs, salt and encrypted key. As in the code, parts without '=' among the costs and what
/// follows the third part or the third cost say nothing, and a number may be written with a plus and zeros in front
fn meaning(t: &str) -> Option<([u32; 3], String, String)> {
    let mut parts = t.strip_prefix("$argon2d$v=19$")?.split('$');
    let (costs, salt, hash) = (parts.next()?, parts.next()?, parts.next()?);
    let mut c = [0; 3];
    let mut given = costs.split(',').filter_map(|c| c.split_once('='));
    for (i, name) in ["m", "t", "p"].iter().enumerate() {
        let (k, v) = given.next()?;
        if k != *name || v.is_empty() || !v.strip_prefix('+').unwrap_or(v).bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        c[i] = v.parse().ok()?;
    }
    Some((c, salt.into(), hash.into()))
}
/// a text made by hand: the key `s` encrypted with whatever the text of these costs and this salt gives for the password
fn craft(s: &[u8; 32], pw: &[u8], c: Costs, salt: &[u8], kind: argon2::Variant, version: argon2::Version) -> String {
    use base64::prelude::*;
    let conf = argon2::Config { variant: kind, version, mem_cost: c.mem, time_cost: c.times, lanes: c.parallelism, secret: &[], ad: &[], hash_length: 32 };
    let d = argon2::hash_raw(pw, salt, &conf).unwrap();
    let x: Vec<u8> = d.iter().zip(s).map(|(a, b)| a ^ b).collect();
    format!("${}$v={}$m={},t={},p={}${}${}", kind.as_lowercase_str(), version.as_u32(), c.mem, c.times, c.parallelism, BASE64_STANDARD_NO_PAD.encode(salt), BASE64_STANDARD_NO_PAD.encode(x))
}
/// a changed text is refused or still means the same key; `strict` says it has to be refused
fn changed(e: &str, s: &[u8; 32], pw: &[u8], strict: bool) -> CaseResult {
    let p = pubkey(e);
    match decrypt(e, pw) {
        Ok(k) => {
            ensure!(secret(&k) == secret(&key(s)), "decrypts to another key");
            ensure!(p.ok() == Some(k.pubkey_bytes()), "decrypts, but its public part is another");
            ensure!(!strict, "is accepted");
            let genuine = meaning(&encrypt(&key(s), pw, Some(INSECURE_COST)));
            ensure!(meaning(e) == genuine, "means something else, but opens");
            Ok(true)
        }
        Err(_) => Ok(false),
    }
}
fn main() {
    kit::main("K01", "model_checking", |cx| {
        cx.rule("every key, cost and pair of passwords of the stated sets; every single change (character replaced, removed, inserted, cut, parts exchanged) of an encrypted key; non-trivial: the key is encrypted, or the changed text is still accepted as the same key");
        let mut pws: Vec<Vec<u8>> = ["", "a", "A", "b", "aa", "a ", " a", "hello", "hell", "hello\n", "ü", "password"].iter().map(|s| s.as_bytes().to_vec()).collect();
        pws.extend([vec![0], vec![0, 0], b"a\0".to_vec(), b"\0a".to_vec(), vec![255], vec![0x80; 64], vec![0x80; 65], vec![7; 300], { let mut v = vec![7; 300]; v[299] = 8; v }]);
        let ss = secrets();
        cx.bound("keys", ss.len());
        cx.bound("passwords", pws.len());
        cx.section("every key with every pair of passwords", || {
            let costs = if cx.quick() { &CHEAP[..1] } else { &CHEAP[..5] };
            let n = (ss.len() * pws.len() * costs.len()) as u64;
            cx.par(n, |i| {
                let i = i as usize;
                let (c, i) = (costs[i % costs.len()], i / costs.len());
                let (s, p) = (&ss[i / pws.len()], &pws[i % pws.len()]);
                cx.states(1);
                cx.transitions(pws.len() as u64);
                cx.traces(1);
                cx.case(format!("key {} password {} cost {},{},{}", show(s), show(p), c.mem, c.times, c.parallelism).as_bytes(), || pair(s, c, p, &pws))
            })
        });
        cx.section("other costs", || {
            cx.par((CHEAP.len() * ss.len()) as u64, |i| {
                let (c, s) = (CHEAP[i as usize % CHEAP.len()], &ss[i as usize / CHEAP.len()]);
                cx.states(1);
                cx.transitions(3);
                cx.traces(1);
                cx.case(format!("key {} cost {},{},{}", show(s), c.mem, c.times, c.parallelism).as_bytes(), || pair(s, c, b"pw", &[b"pw".to_vec(), b"pW".to_vec(), vec![]]))
            });
            // the cost is part of the text: the same key under another cost is another text, both open
            for a in CHEAP {
                for b in CHEAP {
                    cx.case(b"costs", || {
                        let k = key(&ss[3]);
                        ensure!((encrypt(&k, b"x", Some(a)) == encrypt(&k, b"x", Some(b))) == (a == b), "the cost is not recorded");
                        Ok(true)
                    })
                }
            }
        });
        let chars: Vec<char> = if cx.quick() { "A4z/+$=,- \0".chars().collect() } else { (0..=127u8).map(|c| c as char).chain(['é']).collect() };
        let keys = cx.pick(2, ss.len());
        cx.section("every single character changed", || {
            for s in &ss[ss.len() - keys..] {
                let pw = b"secret";
                let e = encrypt(&key(s), pw, Some(INSECURE_COST));
                let b: Vec<char> = e.chars().collect();
                // where the numbers of the cost are, a changed digit asks for other work
                let cost_end = e.match_indices('$').nth(3).unwrap().0;
                cx.par(b.len() as u64 + 1, |at| {
                    let at = at as usize;
                    let go = |v: Vec<char>, strict: bool, what: &str| {
                        let t: String = v.into_iter().collect();
                        cx.states(1);
                        cx.transitions(1);
                        cx.traces(1);
                        cx.case_k(t.as_bytes(), &|| format!("{what} at {at}: {t:?}"), || changed(&t, s, pw, strict))
                    };
                    for c in &chars {
                        let mut v = b.clone();
                        v.insert(at, *c);
                        go(v, false, "inserted");
                        if at < b.len() && b[at] != *c {
                            let mut v = b.clone();
                            v[at] = *c;
                            go(v, at > cost_end, "replaced");
                        }
                    }
                    if at < b.len() {
                        let mut v = b.clone();
                        v.remove(at);
                        go(v, true, "removed");
                        go(b[..at].to_vec(), true, "cut");
                        go(b[at..].to_vec(), at > 0, "cut in front");
                    }
                })
            }
        });
        cx.section("parts of two keys exchanged", || {
            let pws: [&[u8]; 2] = [b"one", b"two"];
            let mk = |i: usize, p: &[u8]| encrypt(&key(&ss[i]), p, Some(INSECURE_COST));
            for i in 0..ss.len() {
                for j in 0..ss.len() {
                    for p in pws {
                        for q in pws {
                            let (a, b) = (mk(i, p), mk(j, q));
                            let (a, b): (Vec<&str>, Vec<&str>) = (a.split('$').collect(), b.split('$').collect());
                            for mask in 1..7u32 {
                                let v: Vec<&str> = (0..a.len()).map(|x| if x >= 3 && mask >> (x - 3) & 1 == 1 { b[x] } else { a[x] }).collect();
                                let t = v.join("$");
                                let same = v == a || v == b;
                                cx.states(1);
                                cx.transitions(2);
                                cx.traces(1);
                                cx.case_k(t.as_bytes(), &|| t.clone(), || {
                                    for (pw, s) in [(p, &ss[i]), (q, &ss[j])] {
                                        if let Ok(k) = decrypt(&t, pw) {
                                            ensure!(same && (secret(&k) == secret(&key(s)) || p == q && [i, j].iter().any(|x| secret(&key(&ss[*x])) == secret(&k))), "opens with {}", show(pw));
                                            ensure!(pubkey(&t).ok() == Some(k.pubkey_bytes()), "public part differs");
                                        }
                                    }
                                    Ok(same)
                                })
                            }
                        }
                    }
                }
            }
        });
        cx.section("without a cost", || {
            cx.case(b"encrypted without a cost", || {
                let k = key(&ss[8]);
                let e = encrypt(&k, b"pw", None);
                let c = meaning(&e).map(|m| m.0);
                ensure!(c == Some([DEFAULT_COST.mem, DEFAULT_COST.times, DEFAULT_COST.parallelism]), "the cost is {c:?}");
                let c = Costs::default();
                ensure!(c == DEFAULT_COST && c.mem >= 1 << 16, "the default cost is {},{},{}", c.mem, c.times, c.parallelism);
                ensure!(decrypt(&e, b"pw").ok().map(|k| secret(&k)) == Some(ss[8]) && pubkey(&e).ok() == Some(k.pubkey_bytes()), "the password does not give the key back");
                ensure!(decrypt(&e, b"pW").is_err(), "another password opens it");
                Ok(true)
            })
        });
        // whoever knows the password can make a text that gives any key with any salt
        cx.section("texts made by hand for the password", || {
            use argon2::{Variant, Version};
            let mut salts: Vec<(usize, Vec<u8>)> = vec![];
            for (i, s) in ss.iter().enumerate() {
                let p = key(s).pubkey_bytes();
                salts.push((i, p.to_vec()));
                for at in 0..32 {
                    for x in [1, 0x80] {
                        let mut v = p.to_vec();
                        v[at] ^= x;
                        salts.push((i, v))
                    }
                }
                for n in 8..32 {
                    salts.push((i, p[..n].to_vec()));
                    salts.push((i, p[32 - n..].to_vec()));
                }
                for n in [1, 2, 31, 32, 33, 64] {
                    salts.push((i, [&p[..], &vec![0; n]].concat()));
                    salts.push((i, [&vec![0; n], &p[..]].concat()));
                    salts.push((i, [&p[..], &p[..], &p[..]].concat()[..32 + n].to_vec()));
                }
                salts.extend([(i, vec![0; 32]), (i, vec![0xff; 32]), (i, p.iter().rev().copied().collect())]);
                salts.extend(ss.iter().map(|s| (i, key(s).pubkey_bytes().to_vec())));
            }
            cx.par(salts.len() as u64, |n| {
                let (i, salt) = &salts[n as usize];
                let k = key(&ss[*i]);
                let s = secret(&k);
                for (kind, version) in [(Variant::Argon2d, Version::Version13), (Variant::Argon2d, Version::Version10), (Variant::Argon2i, Version::Version13), (Variant::Argon2id, Version::Version13)] {
                    let t = craft(&s, b"pw", INSECURE_COST, salt, kind, version);
                    let right = *salt == k.pubkey_bytes() && kind == Variant::Argon2d && version == Version::Version13;
                    cx.states(1);
                    cx.transitions(2);
                    cx.traces(1);
                    cx.case_k(t.as_bytes(), &|| t.clone(), || {
                        let r = decrypt(&t, b"pw");
                        ensure!(r.is_ok() == right, "gives {r:?} with the salt {} of the key {}", show(salt), show(&k.pubkey_bytes()));
                        ensure!(!right || t == encrypt(&k, b"pw", Some(INSECURE_COST)), "the text of the key is another");
                        ensure!(r.map(|r| secret(&r) == s).unwrap_or(true), "gives another key");
                        let known = kind == Variant::Argon2d && version == Version::Version13 && salt.len() == 32;
                        ensure!(pubkey(&t).ok().map(|p| p.to_vec()) == known.then(|| salt.clone()), "the public part is {:?}", pubkey(&t));
                        Ok(right)
                    })
                }
            });
            // what the password gives is no number of a key
            for b in bad_secrets() {
                for s in &ss {
                    let t = craft(&b, b"pw", INSECURE_COST, &key(s).pubkey_bytes(), Variant::Argon2d, Version::Version13);
                    cx.case_k(t.as_bytes(), &|| t.clone(), || {
                        ensure!(decrypt(&t, b"pw").is_err(), "opens");
                        Ok(true)
                    })
                }
            }
        });
        cx.section("texts around an encrypted key", || {
            let e = encrypt(&key(&ss[8]), b"secret", Some(INSECURE_COST));
            let rest = e.strip_prefix("$argon2d$v=19$").unwrap_or("");
            let (costs, tail) = rest.split_once('$').unwrap_or(("", ""));
            let around = ["", " ", "\n", "$", "x", "\0", "\u{feff}", "$argon2d$v=19$", "argon2d", "lkpass: "];
            let fronts = ["$argon2d$v=19$", "$argon2id$v=19$", "$argon2i$v=19$", "$argon2$v=19$", "$argon2d$v=16$", "$argon2d$v=18$", "$argon2d$v=20$", "$argon2d$v=190$", "$argon2d$v=019$", "$argon2d$v=$", "$argon2d$", "$argon2d$$", "$Argon2d$v=19$", "$ARGON2D$V=19$", "argon2d$v=19$", "$argon2d$v=19", "$$argon2d$v=19$", "$v=19$", "$", ""];
            let value = |n: &str| ["", "+", "0", "00000000000000000000", " ", "-", "x", "8", "=", "0x"].iter().map(|p| format!("{p}{n}")).chain(["", " ", "\n", ".0", "u32", "=", "0", "_", "\0"].iter().map(|p| format!("{n}{p}"))).chain(["4294967304".into(), "18446744073709551624".into(), "\u{661}".into()]).collect::<Vec<String>>();
            let mut texts: Vec<String> = vec![];
            for a in around {
                for f in fronts {
                    for b in around {
                        texts.push(format!("{a}{f}{rest}{b}"));
                        texts.push(format!("{f}{a}{rest}{b}"));
                    }
                }
            }
            for (m, t, p) in [("m", "t", "p"), ("M", "t", "p"), ("mm", "t", "p"), ("m", "xt", "p"), ("m", "t", "pp"), (" m", "t", "p"), ("m", " t", "p"), ("m", "t", "p "), ("t", "m", "p"), ("", "t", "p"), ("m", "t", "")] {
                let [vm, vt, vp] = [value("8"), value("1"), value("1")];
                for (i, list) in [&vm, &vt, &vp].into_iter().enumerate() {
                    for v in list {
                        let v = |j: usize, d: &str| if i == j { v.clone() } else { d.to_string() };
                        let o = [format!("{m}={}", v(0, "8")), format!("{t}={}", v(1, "1")), format!("{p}={}", v(2, "1"))];
                        for glue in [",", ",,", ";", ", ", ",x,", "&"] {
                            texts.push(format!("$argon2d$v=19${}${tail}", o.join(glue)));
                        }
                        for extra in ["m=8", "t=2", "x=1", "keyid=1", "data=1", "", "p"] {
                            texts.push(format!("$argon2d$v=19${extra},{}${tail}", o.join(",")));
                            texts.push(format!("$argon2d$v=19${},{extra}${tail}", o.join(",")));
                            texts.push(format!("$argon2d$v=19${},{extra},{}${tail}", o[0], o[1..].join(",")));
                        }
                    }
                }
            }
            assert!(costs == "m=8,t=1,p=1");
            cx.par(texts.len() as u64, |i| {
                let t = &texts[i as usize];
                cx.states(1);
                cx.transitions(1);
                cx.traces(1);
                // a great cost takes a great time
                if meaning(t).is_some_and(|m| m.0[0] > 1 << 12 || m.0[1] > 100 || m.0[2] > 300) {
                    return;
                }
                cx.case_k(t.as_bytes(), &|| format!("{t:?}"), || changed(t, &ss[8], b"secret", false))
            })
        });
        cx.section("texts that are no encrypted key", || {
            let toks: Vec<&[u8]> = vec![b"$argon2d$v=19$", b"m=8", b",", b"t=1", b"p=1", b"$", b"tb0anwpH0rSbYe6JLd1Bgtf00QQUAYuhOcBqeSjAgW4", b"kYAtGyF78cfPjRqcm4Y/s1hgQTRysELK/L910P2u27c", b"AAAAAAAAAAA"];
            all_concats(cx, &toks, cx.pick(5, 6), |s| {
                cx.states(1);
                cx.transitions(1);
                cx.traces(1);
                cx.case(s, || {
                    let t = std::str::from_utf8(s).unwrap();
                    ensure!(decrypt(t, b"").is_err(), "opens");
                    Ok(pubkey(t).is_ok())
                })
            });
            // complete texts with every order and number of options
            let opts: Vec<&str> = vec!["m=8", "t=1", "p=1", "t=2", "m=0", "p=0", "t=0", "p=300", "m=7", "m=-8", "m=", "x=1", ""];
            cx.par(count(opts.len(), 3), |i| {
                let o: Vec<&str> = nth_digits(opts.len(), 3, i).into_iter().map(|d| opts[d]).collect();
                let t = format!("$argon2d$v=19${}$tb0anwpH0rSbYe6JLd1Bgtf00QQUAYuhOcBqeSjAgW4$kYAtGyF78cfPjRqcm4Y/s1hgQTRysELK/L910P2u27c", o.join(","));
                cx.states(1);
                cx.transitions(1);
                cx.traces(1);
                cx.case_k(t.as_bytes(), &|| t.clone(), || {
                    let r = decrypt(&t, b"");
                    ensure!(r.is_ok() == (o == ["m=8", "t=1", "p=1"]), "opens: {}", r.is_ok());
                    Ok(r.is_ok())
                })
            })
        });
    })
}
