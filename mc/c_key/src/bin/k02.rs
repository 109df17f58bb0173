//! Signatures and hashes.
use c_key::*;
use kit::*;
use linkspace_cryptography::*;

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn hashes() -> Vec<Hash> {
    let mut v = vec![[0; 32], [0xff; 32], [1; 32]];
    for i in 0..8 {
        let mut h = [0; 32];
        h[i * 4] = 1 << i;
        v.push(h);
        v.push(hash_segments(&[&h, &[i as u8]]))
    }
    v
}
fn flip(b: &mut [u8], bit: usize) {
    b[bit / 8] ^= 1 << (bit % 8)
}
/// BLAKE3 as its paper defines it, one chunk tree, nothing optimised
fn blake3_ref(data: &[u8]) -> [u8; 32] {
    const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
    const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
    fn compress(cv: &[u32; 8], block: &[u8], counter: u64, len: u32, flags: u32) -> [u32; 8] {
        let mut m = [0u32; 16];
        for (i, b) in block.iter().enumerate() {
            m[i / 4] |= (*b as u32) << (8 * (i % 4))
        }
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(cv);
        v[8..12].copy_from_slice(&IV[..4]);
        v[12..].copy_from_slice(&[counter as u32, (counter >> 32) as u32, len, flags]);
        for _ in 0..7 {
            for (k, [a, b, c, d]) in [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15], [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]].into_iter().enumerate() {
                for (x, r, q) in [(m[2 * k], 16, 12), (m[2 * k + 1], 8, 7)] {
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                    v[d] = (v[d] ^ v[a]).rotate_right(r);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(q);
                }
            }
            m = std::array::from_fn(|i| m[PERM[i]]);
        }
        std::array::from_fn(|i| v[i] ^ v[i + 8])
    }
    fn node(data: &[u8], counter: u64, root: u32) -> [u32; 8] {
        if data.len() <= 1024 {
            let mut cv = IV;
            let n = data.chunks(64).count().max(1);
            for i in 0..n {
                let b = &data[i * 64..data.len().min(i * 64 + 64)];
                let f = (i == 0) as u32 | if i == n - 1 { 2 | root } else { 0 };
                cv = compress(&cv, b, counter, b.len() as u32, f)
            }
            return cv;
        }
        // the left side is the largest power of two of chunks that leaves something
        let mut l = 1024;
        while l * 2 < data.len() {
            l *= 2
        }
        let (a, b) = (node(&data[..l], counter, 0), node(&data[l..], counter + l as u64 / 1024, 0));
        let block: Vec<u8> = a.iter().chain(&b).flat_map(|w| w.to_le_bytes()).collect();
        compress(&IV, &block, 0, 64, 4 | root)
    }
    let o: Vec<u8> = node(data, 0, 8).iter().flat_map(|w| w.to_le_bytes()).collect();
    o.try_into().unwrap()
}
/// the other number with the same point up to sign
fn negate(s: &[u8]) -> [u8; 32] {
    let n: [u8; 32] = std::array::from_fn(|i| u8::from_str_radix(&"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"[2 * i..2 * i + 2], 16).unwrap());
    let mut o = [0; 32];
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let d = n[i] as i32 - s[i] as i32 - borrow;
        borrow = (d < 0) as i32;
        o[i] = d.rem_euclid(256) as u8;
    }
    o
}
// the group order and the field size: a signature's two numbers
fn main() {
    kit::main("K02", "model_checking", |cx| {
        cx.rule("every key and hash of the stated sets signed and verified; every single bit of signature, hash and public key changed; every way to cut the stated inputs into segments; non-trivial: a verification that must succeed, or a change that must be refused");
        let ss = secrets();
        let hs = hashes();
        cx.bound("keys", ss.len());
        cx.bound("hashes", hs.len());
        cx.section("every key signs every hash", || {
            cx.par((ss.len() * hs.len()) as u64, |i| {
                let (k, h) = (key(&ss[i as usize / hs.len()]), hs[i as usize % hs.len()]);
                cx.states(1);
                cx.transitions((ss.len() + hs.len()) as u64);
                cx.traces(1);
                cx.case(format!("key {} hash {}", hex(&ss[i as usize / hs.len()]), hex(&h)).as_bytes(), || {
                    let sig = sign_hash(&k, &h);
                    ensure!(sig == sign_hash(&k.clone(), &h), "signing twice differs");
                    for s in &ss {
                        let p = key(s).pubkey_bytes();
                        let ok = validate_signature(&p, &sig, &h).is_ok();
                        ensure!(ok == (p == k.pubkey_bytes()), "verified={ok} under the key {}", hex(&p));
                    }
                    for g in &hs {
                        let ok = validate_signature(&k.pubkey_bytes(), &sig, g).is_ok();
                        ensure!(ok == (*g == h), "verified={ok} for the hash {}", hex(g));
                        // the same nonce for two hashes gives the key away
                        ensure!(*g == h || sign_hash(&k, g)[..32] != sig[..32], "nonce used again for {}", hex(g));
                    }
                    Ok(true)
                })
            });
        });
        cx.section("every single bit changed", || {
            let (nk, nh) = (cx.pick(4, ss.len()), cx.pick(5, hs.len()));
            cx.par((nk * nh * 1024) as u64, |i| {
                let i = i as usize;
                let (bit, i) = (i % 1024, i / 1024);
                let (s, h) = (&ss[ss.len() - 1 - i % nk], hs[hs.len() - 1 - i / nk]);
                let k = key(s);
                cx.states(1);
                cx.transitions(1);
                cx.traces(1);
                cx.case(format!("key {} hash {} bit {bit}", hex(s), hex(&h)).as_bytes(), || {
                    let (mut sig, mut h2, mut p) = (sign_hash(&k, &h), h, k.pubkey_bytes());
                    ensure!(validate_signature(&p, &sig, &h2).is_ok(), "the unchanged signature is refused");
                    match bit {
                        0..=511 => flip(&mut sig, bit),
                        512..=767 => flip(&mut h2, bit - 512),
                        _ => flip(&mut p, bit - 768),
                    }
                    ensure!(validate_signature(&p, &sig, &h2).is_err(), "accepted");
                    ensure!(validate_signature(&p, &sig, &h2).is_err(), "accepted the second time");
                    ensure!(validate_signature(&k.pubkey_bytes(), &sign_hash(&k, &h), &h).is_ok(), "the unchanged signature is refused afterwards");
                    Ok(true)
                })
            });
        });
        cx.section("every bit of every hash", || {
            cx.par((hs.len() * ss.len().min(cx.pick(2, 99))) as u64, |i| {
                let (h, s) = (hs[i as usize % hs.len()], &ss[ss.len() - 1 - i as usize / hs.len()]);
                let k = key(s);
                let (sig, p) = (sign_hash(&k, &h), k.pubkey_bytes());
                for bit in 0..256 {
                    cx.states(1);
                    cx.transitions(1);
                    cx.traces(1);
                    cx.case_k(b"", &|| format!("key {} hash {} bit {bit}", hex(s), hex(&h)), || {
                        let mut g = h;
                        flip(&mut g, bit);
                        ensure!(validate_signature(&p, &sig, &g).is_err(), "accepted");
                        Ok(true)
                    })
                }
            })
        });
        // a number printed at the same place for every key that is always the same byte of the secret gives it away
        cx.section("what printing a key shows", || {
            cx.case(b"all keys", || {
                let mut all = ss.clone();
                for i in 0..24u8 {
                    all.push(hash_segments(&[b"secret", &[i]]))
                }
                let words = |pretty: bool, s: &[u8; 32]| -> Vec<String> {
                    let k = key(s);
                    let t = if pretty { format!("{k:#?}") } else { format!("{k:?}") };
                    t.to_lowercase().split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
                };
                for pretty in [false, true] {
                    let texts: Vec<(Vec<String>, [u8; 32])> = all.iter().map(|s| (words(pretty, s), secret(&key(s)))).collect();
                    let n = texts.iter().map(|t| t.0.len()).min().unwrap_or(0);
                    for back in [false, true] {
                        for w in 0..n {
                            for at in 0..32 {
                                let shows = |f: &dyn Fn(u8) -> String| texts.iter().all(|(t, s)| t[if back { t.len() - 1 - w } else { w }] == f(s[at]));
                                let yes = shows(&|b| b.to_string()) || shows(&|b| format!("{b:02x}")) || shows(&|b| format!("{b:x}")) || shows(&|b| format!("0x{b:02x}")) || shows(&|b| format!("0x{b:x}"));
                                ensure!(!yes, "byte {at} of the secret is printed");
                                // and as a part of a longer number
                                let within = |len: usize| at + len <= 32 && texts.iter().all(|(t, s)| t[if back { t.len() - 1 - w } else { w }].contains(&hex(&s[at..at + len])));
                                ensure!(!within(2), "bytes {at} and {} of the secret are printed", at + 1);
                            }
                        }
                    }
                }
                Ok(true)
            })
        });
        // a source of randomness that gives numbers that are no keys first
        cx.section("generated keys", || {
            struct Rng(Vec<u8>, usize);
            impl rand_core::RngCore for Rng {
                fn next_u32(&mut self) -> u32 {
                    let mut b = [0; 4];
                    self.fill_bytes(&mut b);
                    u32::from_le_bytes(b)
                }
                fn next_u64(&mut self) -> u64 {
                    let mut b = [0; 8];
                    self.fill_bytes(&mut b);
                    u64::from_le_bytes(b)
                }
                fn fill_bytes(&mut self, out: &mut [u8]) {
                    for b in out {
                        let n = self.1;
                        *b = self.0.get(n).copied().unwrap_or_else(|| hash_segments(&[b"rng", &self.0, &(n as u64 / 32).to_le_bytes()])[n % 32]);
                        self.1 += 1
                    }
                }
                fn try_fill_bytes(&mut self, out: &mut [u8]) -> Result<(), rand_core::Error> {
                    self.fill_bytes(out);
                    Ok(())
                }
            }
            impl rand_core::CryptoRng for Rng {}
            let mut starts: Vec<Vec<u8>> = vec![vec![]];
            let mut last = starts.clone();
            for _ in 0..cx.pick(2, 3) {
                last = last.iter().flat_map(|v| bad_secrets().into_iter().chain(ss.clone()).map(move |b| [&v[..], &b[..]].concat())).collect();
                starts.extend(last.clone())
            }
            cx.par(starts.len() as u64, |i| {
                let start = &starts[i as usize];
                cx.states(1);
                cx.transitions(2);
                cx.traces(1);
                cx.case_k(b"", &|| format!("randomness that starts with {}", hex(start)), || {
                    let k = SigningKey::generate_with(&mut Rng(start.clone(), 0));
                    let s = secret(&k);
                    ensure!(SigningKey::try_from(s).map(|k| secret(&k) == s).unwrap_or(false), "is no key");
                    ensure!(validate_signature(&k.pubkey_bytes(), &sign_hash(&k, &hs[3]), &hs[3]).is_ok(), "its signature is refused");
                    Ok(true)
                })
            });
            // different randomness, different keys: every bit of it counts
            cx.case(b"bits of randomness", || {
                let base = hash_segments(&[b"base"]);
                let mut seen = std::collections::HashSet::new();
                for bit in 0..=256 {
                    let mut b = base;
                    if bit < 256 {
                        flip(&mut b, bit)
                    }
                    ensure!(seen.insert(secret(&SigningKey::generate_with(&mut Rng(b.to_vec(), 0)))), "bit {bit} of the randomness does not matter");
                }
                let a: std::collections::HashSet<_> = (0..16).map(|_| secret(&SigningKey::generate())).collect();
                ensure!(a.len() == 16, "two keys made at different times are the same");
                Ok(true)
            })
        });
        cx.section("signatures and keys that are no numbers", || {
            let k = key(&ss[5]);
            let h = hs[4];
            let sig = sign_hash(&k, &h);
            let edge = [bad_secrets(), vec![[0; 32], [0xff; 32], [1; 32], ss[4]]].concat();
            let parts = [edge.clone(), vec![sig[..32].try_into().unwrap(), sig[32..].try_into().unwrap()]].concat();
            for (i, r) in parts.iter().enumerate() {
                for (j, s) in parts.iter().enumerate() {
                    for p in edge.iter().chain([&k.pubkey_bytes()]) {
                        let x: Signature = [*r, *s].concat().try_into().unwrap();
                        cx.states(1);
                        cx.transitions(1);
                        cx.traces(1);
                        cx.case(format!("{} by {}", hex(&x), hex(p)).as_bytes(), || {
                            let genuine = i == parts.len() - 2 && j == parts.len() - 1 && *p == k.pubkey_bytes();
                            ensure!(validate_signature(p, &x, &h).is_ok() == genuine, "accepted={}", !genuine);
                            Ok(genuine)
                        })
                    }
                }
            }
            for b in bad_secrets() {
                cx.case(hex(&b).as_bytes(), || {
                    ensure!(SigningKey::try_from(b).is_err(), "accepted as a key");
                    Ok(true)
                })
            }
            for s in &ss {
                cx.case(hex(s).as_bytes(), || {
                    let k = SigningKey::try_from(*s).map_err(|e| Bad::from(format!("refused: {e}")))?;
                    ensure!(secret(&SigningKey::try_from(secret(&k)).unwrap()) == secret(&k) && k.clone().pubkey_bytes() == k.pubkey_bytes(), "does not survive being written");
                    let d = format!("{k:?}{k:#?}").to_lowercase();
                    let dec: Vec<String> = s.iter().map(|b| b.to_string()).collect();
                    ensure!(!d.contains(&hex(s)) && !d.contains(&dec.join(", ")), "printing shows the secret");
                    Ok(true)
                })
            }
        });
        cx.section("published values", || {
            cx.case(b"BIP-340 vector 0", || {
                let k = key(&ss[2]);
                ensure!(hex(&k.pubkey_bytes()) == "f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9", "public key {}", hex(&k.pubkey_bytes()));
                let s = sign_hash(&k, &[0; 32]);
                ensure!(hex(&s) == "e907831f80848d1069a5371b402410364bdf1c5f8307b0084c55f1ce2dca821525f66a4a85ea8b71e482a74f382d2ce5ebeee8fdb2172f477df4900d310536c0", "signature {}", hex(&s));
                Ok(true)
            });
            for (n, want) in [(0, "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"), (1, "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213")] {
                cx.case(format!("BLAKE3 vector {n}").as_bytes(), || {
                    let d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
                    ensure!(hex(&hash_segments(&[&d])) == want, "{}", hex(&hash_segments(&[&d])));
                    Ok(true)
                })
            }
        });
        cx.section("the hash against its definition", || {
            let mut ns: Vec<usize> = (0..=200).collect();
            for k in [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129] {
                ns.extend([1024 * k - 1, 1024 * k, 1024 * k + 1])
            }
            ns.extend([65000, 65535, 65537, cx.pick(300_001, 3_000_001)]);
            cx.par(ns.len() as u64, |i| {
                let n = ns[ns.len() - 1 - i as usize];
                for k in [1usize, 251] {
                    let d: Vec<u8> = (0..n).map(|i| (i * k % 251) as u8).collect();
                    let want = blake3_ref(&d);
                    let one = |what: &str, segs: &[&[u8]]| {
                        cx.states(1);
                        cx.transitions(segs.len() as u64);
                        cx.traces(1);
                        cx.case(format!("{n} bytes of step {k}, {what}").as_bytes(), || {
                            ensure!(hash_segments(segs) == want, "{}, expected {}", hex(&hash_segments(segs)), hex(&want));
                            Ok(n > 0)
                        })
                    };
                    one("whole", &[&d]);
                    one("after an empty segment", &[&[], &d]);
                    one("before an empty segment", &[&d, &[]]);
                    for c in [1usize, 7, 64, 100, 1024, 65536] {
                        if n / c < 3000 {
                            one(&format!("in pieces of {c}"), &d.chunks(c).collect::<Vec<_>>())
                        }
                    }
                    cx.case(format!("{n} bytes of step {k}, plain").as_bytes(), || {
                        ensure!(blake3_hash(&d).as_bytes() == &want, "{}", hex(blake3_hash(&d).as_bytes()));
                        Ok(n > 0)
                    })
                }
            })
        });
        cx.section("negated numbers", || {
            cx.par((ss.len() * hs.len()) as u64, |i| {
                let (s, h) = (&ss[i as usize / hs.len()], hs[i as usize % hs.len()]);
                let k = key(s);
                cx.states(1);
                cx.transitions(4);
                cx.traces(1);
                cx.case(format!("key {} hash {}", hex(s), hex(&h)).as_bytes(), || {
                    let sig = sign_hash(&k, &h);
                    let p = k.pubkey_bytes();
                    let other: Signature = [&sig[..32], &negate(&sig[32..])].concat().try_into().unwrap();
                    ensure!(validate_signature(&p, &other, &h).is_err(), "the negated number is accepted");
                    let swapped: Signature = [&sig[32..], &sig[..32]].concat().try_into().unwrap();
                    ensure!(validate_signature(&p, &swapped, &h).is_err(), "exchanged halves are accepted");
                    ensure!(validate_signature(&h, &sig, &p).is_err() || h == p, "exchanged key and hash are accepted");
                    // both secrets of a public key make signatures of the same key
                    let n = key(&negate(s));
                    ensure!(n.pubkey_bytes() == p && sign_hash(&n, &h) == sig, "the negated secret is another key");
                    Ok(true)
                })
            })
        });
        cx.section("every way to cut a short input", || {
            let n = cx.pick(12, 16);
            let data: Vec<u8> = (0..n as u8).map(|i| i.wrapping_mul(37) + 1).collect();
            for n in 0..=n {
                let whole = *blake3_hash(&data[..n]).as_bytes();
                cx.par(1 << n, |cuts| {
                    let mut segs: Vec<&[u8]> = vec![];
                    let mut at = 0;
                    for i in 1..n {
                        if cuts >> i & 1 == 1 {
                            segs.push(&data[at..i]);
                            at = i;
                        }
                    }
                    segs.push(&data[at..n]);
                    if cuts & 1 == 1 {
                        segs.insert(segs.len() / 2, &[]);
                    }
                    cx.states(1);
                    cx.transitions(segs.len() as u64);
                    cx.traces(1);
                    cx.case(format!("{n} bytes cut as {:?}", segs.iter().map(|s| s.len()).collect::<Vec<_>>()).as_bytes(), || {
                        ensure!(hash_segments(&segs) == whole, "the hash depends on the cuts");
                        Ok(n > 1)
                    })
                })
            }
        });
        cx.section("cuts around the block sizes", || {
            let data: Vec<u8> = (0..4200usize).map(|i| (i % 251) as u8).collect();
            let at = [0usize, 1, 31, 32, 63, 64, 65, 127, 128, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096, 4200];
            for n in at {
                let whole = *blake3_hash(&data[..n]).as_bytes();
                for i in at.iter().filter(|i| **i <= n) {
                    for j in at.iter().filter(|j| *i <= **j && **j <= n) {
                        cx.states(1);
                        cx.transitions(3);
                        cx.traces(1);
                        cx.case(format!("{n} bytes cut at {i} and {j}").as_bytes(), || {
                            ensure!(hash_segments(&[&data[..*i], &data[*i..*j], &data[*j..n]]) == whole, "the hash depends on the cuts");
                            ensure!(n == 0 || hash_segments(&[&data[..n - 1]]) != whole, "a shorter input has the same hash");
                            Ok(true)
                        })
                    }
                }
            }
        });
    })
}
