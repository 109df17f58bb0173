//! The order of packets and the entries of the tree index; arithmetic of stamps.
use c_pkt::*;
use kit::*;
use linkspace_pkt::{netpkt::cmp::PktCmp, netpkt::tree_order::*, *};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::time::Duration;

type Rank = (u8, [u8; 32], [u8; 16], usize, Vec<u8>, [u8; 32], u64, [u8; 32]);
fn rank(s: &Spec) -> Rank {
    (0, s.group, s.domain, s.space.len(), flat(&s.space), s.key_bytes(), s.stamp, s.hash())
}
fn entry(s: &Spec, p: &NetPktBox, log: u64) -> Result<(), Bad> {
    let Some(e) = TreeEntry::from_pkt(Stamp::new(log), p) else {
        ensure!(!s.is_link(), "has no entry");
        return Ok(());
    };
    ensure!(s.is_link(), "a packet without a group has an entry");
    let want = [&s.group[..], &s.domain, &[s.space.len() as u8], &flat(&s.space), &s.key_bytes()].concat();
    ensure!(e.btree_key.as_bytes() == want, "key is {}", hex(e.btree_key.as_bytes()));
    let (k, v) = (e.btree_key.as_bytes().to_vec(), e.val);
    let r = TreeEntryRef::from_db((&k, &v));
    let o = r.to_owned();
    ensure!(o.partial_cmp(&e) == Some(Ordering::Equal), "a copy differs");
    macro_rules! check {
        ($e:expr) => {{
            let e = &$e;
            ensure!(e.hash().0 == s.hash() && e.create().get() == s.stamp && e.local_log_ptr().get() == log && e.links_len().get() as usize == s.links.len() && e.data_size().get() as usize == s.data.len(), "value {e:?}");
            let key = e.btree_key();
            let (g, d, n, sp, k) = key.fields();
            ensure!(g.0 == s.group && d.0 == s.domain && n as usize == s.space.len() && sp.space_bytes() == flat(&s.space) && k.0 == s.key_bytes(), "fields of {e:?}");
            let _ = format!("{e} {e:?} {key:?}");
        }};
    }
    check!(e);
    check!(r);
    check!(o);
    ensure!(TreeKey::from(&k).map(|t| t.take()) == Some(k.clone()), "key from its bytes");
    ensure!(TreeKey::new(&k[..]).as_bytes() == k, "new key from its bytes");
    Ok(())
}
fn main() {
    kit::main("P06", "model_checking", |cx| {
        cx.rule("every pair of the stated packets, compared in the order of the index and with its reference; every entry; every pair of the stated stamps and durations; non-trivial: packets that differ, or arithmetic that does not overflow");
        let mut specs: Vec<Spec> = vec![];
        let right = |b: &[u8]| { let mut a = [0; 16]; a[16 - b.len()..].copy_from_slice(b); a };
        let groups = [[0u8; 32], { let mut g = [0; 32]; g[31] = 1; g }, [255; 32]];
        let domains = [[0; 16], right(b"a"), [255; 16]];
        let spaces: Vec<Vec<Vec<u8>>> = [&[][..], &[b"a" as &[u8]], &[b"b"], &[b"ab"], &[&[255]], &[b"a", b"a"], &[b"a", b"b"], &[b"ab", b"a"], &[&[0; 32]], &[b"a", &[255; 31]], &[b"a", b"b", b"c", b"d", b"e", b"f", b"g", b"h"]]
            .into_iter()
            .map(|s| s.iter().map(|c| c.to_vec()).collect())
            .collect();
        let keys: Vec<SigningKey> = [[1u8; 32], [2; 32]].iter().map(|k| SigningKey::try_from(*k).unwrap()).collect();
        let stamps = [0, 1, 255, 256, u64::MAX];
        for (ig, g) in groups.iter().enumerate() {
            for (id, d) in domains.iter().enumerate() {
                for (is, s) in spaces.iter().enumerate() {
                    for k in 0..3 {
                        for (it, t) in stamps.iter().enumerate() {
                            for data in [&b""[..], b"x"] {
                                if !cx.quick() || ((ig < 2 || id == 0) && (it < 2 || it == 3 || is < 3) && (data.is_empty() || it == 0)) {
                                    specs.push(Spec { kind: if k == 0 { 3 } else { 7 }, group: *g, domain: *d, space: s.clone(), stamp: *t, data: data.to_vec(), signed: (k > 0).then(|| ([k as u8; 32], [0; 64])), links: if it == 1 { vec![([1; 16], [2; 32])] } else { vec![] }, ..data_spec(&[]) })
                                }
                            }
                        }
                    }
                }
            }
        }
        for n in 0..12u8 {
            specs.push(data_spec(&[n]));
            specs.push(Spec { kind: 0x80, ..data_spec(&[n]) });
        }
        let built: Vec<(Spec, PktCmp<NetPktBox>, Rank)> = {
            let slots: Vec<std::sync::OnceLock<_>> = specs.iter().map(|_| std::sync::OnceLock::new()).collect();
            cx.section("entries", || cx.par(specs.len() as u64, |i| {
                let s = &specs[i as usize];
                cx.states(1);
                cx.transitions(1);
                cx.traces(1);
                cx.case(s.describe().as_bytes(), || {
                    let rs = rspace_buf(&s.space.iter().map(|c| &c[..]).collect::<Vec<_>>());
                    let links = s.link_vec();
                    let key = s.signed.map(|k| &keys[k.0[0] as usize - 1]);
                    let p = build(s, &rs, &links, key).map_err(|e| e.to_string())?.as_netbox();
                    let mut s = s.clone();
                    s.signed = p.signed().map(|v| (v.pubkey.0, v.signature.0));
                    let r = rank(&s);
                    let e = [0, 7, u64::MAX].into_iter().try_for_each(|log| entry(&s, &p, log));
                    let l = s.is_link();
                    let _ = slots[i as usize].set((s, PktCmp(p), r));
                    e?;
                    Ok(l)
                });
            }));
            slots.into_iter().filter_map(|s| s.into_inner()).collect()
        };
        let hash = |p: &PktCmp<NetPktBox>| { let mut h = DefaultHasher::new(); p.hash(&mut h); h.finish() };
        let mut order: Vec<usize> = (0..built.len()).collect();
        order.sort_by(|a, b| built[*a].1.cmp(&built[*b].1));
        cx.section("every pair", || {
            let n = built.len();
            cx.par(n as u64, |i| {
                let mut bad_at = None;
                let i = i as usize;
                let (a, pa, ra) = &built[order[i]];
                for j in 0..n {
                    let (b, pb, rb) = &built[order[j]];
                    let got = pa.cmp(pb);
                    // the sorted list is consistent with every comparison: the order is total
                    let ok = got == i.cmp(&j)
                        && pa.partial_cmp(pb) == Some(got)
                        && (pa == pb) == (i == j)
                        && (i != j || hash(pa) == hash(pb))
                        && (!a.is_link() || !b.is_link() || got == ra.cmp(rb));
                    if !ok && bad_at.is_none() {
                        bad_at = Some((j, got, ra.cmp(rb)));
                    }
                }
                cx.states(n as u64);
                cx.transitions(2 * n as u64);
                cx.traces(n as u64);
                cx.case(a.describe().as_bytes(), || match bad_at {
                    None => Ok(true),
                    Some((j, got, want)) => bad("order", format!("compared with {}: {got:?}, by the fields {want:?}, by the sorted list {:?}", built[order[j]].0.describe(), i.cmp(&j))),
                });
            });
        });
        cx.section("the same packet in another form and with another network header", || {
            for (s, p, _) in built.iter().step_by(cx.pick(7, 1)) {
                cx.case(s.describe().as_bytes(), || {
                    let arc = p.0.as_netarc();
                    let h = NetPktHeader::cfrom([7; 32]);
                    let r = p.0.reroute(h);
                    let (a, b) = (PktCmp(&arc as &dyn NetPkt), PktCmp(&r as &dyn NetPkt));
                    ensure!(a == b && a.cmp(&b) == Ordering::Equal, "differ");
                    Ok(true)
                });
            }
        });
        cx.section("stamps", || {
            let m = u64::MAX;
            let v = [0, 1, 2, 999, 1000, 1_000_000, 1 << 32, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, m / 2 + 7, m - 1_000_000, m - 1000, m - 2, m - 1, m];
            let durs: Vec<Duration> = v.iter().flat_map(|u| [Duration::from_micros(*u), Duration::from_micros(*u) + Duration::from_nanos(999), Duration::from_secs(*u)]).chain([Duration::MAX, Duration::from_nanos(1)]).collect();
            for a in v {
                for d in &durs {
                    cx.case(format!("{a} and {d:?}").as_bytes(), || {
                        cx.states(1);
                        cx.transitions(4);
                        let us = d.as_micros();
                        let (sa, plus, minus) = (Stamp::new(a), a as u128 + us, (a as u128).checked_sub(us));
                        let plus = u64::try_from(plus).ok();
                        ensure!(stamp_add(sa, *d).get() == plus.unwrap_or(m), "stamp_add gives {}", stamp_add(sa, *d));
                        let cadd = plus;
                        ensure!(checked_stamp_add(sa, *d).map(|s| s.get()) == cadd, "checked_stamp_add gives {:?}", checked_stamp_add(sa, *d));
                        ensure!(stamp_sub(sa, *d).get() == minus.unwrap_or(0) as u64, "stamp_sub gives {}", stamp_sub(sa, *d));
                        let csub = minus.map(|v| v as u64);
                        ensure!(checked_stamp_sub(sa, *d).map(|s| s.get()) == csub, "checked_stamp_sub gives {:?}", checked_stamp_sub(sa, *d));
                        Ok(plus.is_some() || minus.is_some())
                    });
                }
                for b in v {
                    cx.case(format!("{a} and {b}").as_bytes(), || {
                        let want = if a > b { Ok(a - b) } else { Err(b - a) };
                        let got = stamp_sub_stamp(Stamp::new(a), Stamp::new(b)).map(|s| s.get()).map_err(|s| s.get());
                        ensure!(got == want, "stamp_sub_stamp gives {got:?}");
                        Ok(true)
                    });
                }
                cx.case(format!("{a}").as_bytes(), || {
                    let s = Stamp::new(a);
                    ensure!(as_duration(s).as_micros() == a as u128, "as_duration");
                    if a >> 63 == 0 {
                        ensure!(from_systime(as_systime(s)) == s, "through the system time it is {}", from_systime(as_systime(s)));
                    }
                    let n0 = now();
                    let age = stamp_age(s);
                    let n1 = now();
                    ensure!(match age { Ok(d) => d.as_micros() >= n0.get().saturating_sub(a) as u128 && d.as_micros() <= n1.get().saturating_sub(a) as u128 && a <= n1.get(), Err(d) => d.as_micros() as u64 <= a - n0.get() && a > n0.get() }, "age is {age:?}");
                    Ok(true)
                });
            }
        });
    })
}
