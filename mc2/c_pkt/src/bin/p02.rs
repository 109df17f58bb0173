//! Untrusted bytes.
use c_pkt::*;
use kit::*;
use linkspace_pkt::SigningKey;

fn signed(mut s: Spec) -> Spec {
    let k = SigningKey::try_from([0x33; 32]).unwrap();
    s.kind = 7;
    s.signed = Some((k.pubkey_bytes(), [0; 64]));
    let h = b3(&s.unsigned_point());
    s.signed = Some((k.pubkey_bytes(), linkspace_cryptography::sign_hash(&k, &h)));
    s
}
fn bases() -> Vec<(&'static str, Spec)> {
    let link = |space: Vec<Vec<u8>>, nl: usize, data: &[u8]| Spec {
        kind: 3,
        group: [3; 32],
        domain: *b"\0\0\0\0\0\0\0\0\0\0domain",
        stamp: 5,
        space,
        links: (0..nl).map(|i| ([i as u8 + 1; 16], [i as u8 + 9; 32])).collect(),
        ..data_spec(data)
    };
    let sp = |n: usize| (0..n).map(|i| vec![b'a' + i as u8]).collect::<Vec<_>>();
    vec![
        ("empty data", data_spec(b"")),
        ("data of 4 bytes", data_spec(b"1234")),
        ("data of 5 bytes", data_spec(b"12345")),
        ("error of 7 bytes", Spec { kind: 0x80, ..data_spec(b"1234567") }),
        ("bare link point", link(vec![], 0, b"")),
        ("link point with data", link(vec![], 0, b"xyz")),
        ("link point with a link", link(vec![], 1, b"")),
        ("one component", link(sp(1), 0, b"")),
        ("two components, a link, data", link(vec![b"hello".to_vec(), b"w".to_vec()], 1, b"data")),
        ("seven components", link(sp(7), 0, b"d")),
        ("eight components", link(sp(8), 0, b"d")),
        ("bare key point", signed(link(vec![], 0, b""))),
        ("key point", signed(link(vec![b"ab".to_vec(), b"c".to_vec()], 1, b"hi"))),
        ("key point, eight components", signed(link(sp(8), 0, b"data!"))),
    ]
}
/// the hash of what the bytes are now
fn rehash(b: &mut [u8]) {
    if b.len() < 68 {
        return;
    }
    let size = u16::from_be_bytes([b[66], b[67]]) as usize;
    let end = 64 + (size + 7) / 8 * 8;
    if end <= b.len() {
        let h = b3(&b[64..end]);
        b[32..64].copy_from_slice(&h)
    }
}
fn main() {
    kit::main("P02", "model_checking", |cx| {
        cx.rule("every single byte change, truncation and extension of the stated packets, every type with every small and limit size, every pair of offsets, and every pair of index bytes, each with and without the hash made to fit; every one at the end of accessible memory and aligned; non-trivial: accepted by the reference reader");
        let bs = bases();
        let look = |name: String, b: &[u8]| {
            cx.states(1);
            cx.transitions(3);
            cx.traces(1);
            cx.case_k(&[name.as_bytes(), b" ", b].concat(), &|| format!("{name}: {}", show_cut(b)), || {
                let mut ok = judge(b, true)? | judge(b, false)?;
                let mut h = b.to_vec();
                rehash(&mut h);
                if h != b {
                    ok |= judge(&h, false)?
                }
                Ok(ok)
            })
        };
        cx.section("every cut and every extension", || {
            for (n, s) in &bs {
                let b = s.bytes();
                for l in 0..b.len() {
                    look(format!("{n} cut to {l}"), &b[..l])
                }
                for x in 0..20 {
                    for f in [0u8, 255] {
                        look(format!("{n} with {x} bytes more"), &[&b[..], &vec![f; x]].concat())
                    }
                }
            }
        });
        cx.section("every byte to every value", || {
            for (n, s) in &bs {
                let b = s.bytes();
                let vals = cx.pick(24, 256usize);
                cx.par((b.len() * vals) as u64, |i| {
                    let (at, v) = (i as usize / vals, i as usize % vals);
                    let structural = (64..72).contains(&at) || at >= 128;
                    // everything in the packet's structure, bits and edges elsewhere
                    let v = match v {
                        _ if !cx.quick() => v as u8,
                        0..=7 => b[at] ^ 1 << v,
                        8 => 0,
                        9 => 255,
                        10 => b[at].wrapping_add(1),
                        11 => b[at].wrapping_sub(1),
                        _ if structural => v as u8 - 12,
                        _ => return,
                    };
                    let mut c = b.clone();
                    c[at] = v;
                    look(format!("{n} byte {at}={v}"), &c)
                })
            }
        });
        cx.section("every type with every size", || {
            let mut sizes: Vec<usize> = (0..=cx.pick(190, 400)).collect();
            sizes.extend([65016, 65017, 65023, 65024, 65025, 65032, 65528, 65529, 65535]);
            let types: Vec<u8> = if cx.quick() { (0..16).chain([0x20, 0x40, 0x80, 0x81, 0x83, 0x87, 0xc0, 0xff]).collect() } else { (0..=255).collect() };
            let fills = [0u8, 255, 1];
            cx.par((sizes.len() * types.len() * fills.len()) as u64, |i| {
                let d = nth_mixed(&[sizes.len(), types.len(), fills.len()], i);
                let (size, ty, f) = (sizes[d[0]], types[d[1]], fills[d[2]]);
                let mut b = head().to_vec();
                b.extend([0; 32]);
                b.extend([0, ty]);
                b.extend((size as u16).to_be_bytes());
                // offsets that fit, when there is room for them
                b.extend([0, 64, 0, 64]);
                b.resize(64 + ((size + 7) / 8 * 8).max(8), f);
                look(format!("type {ty} size {size} filled with {f}"), &b);
                if size % 8 != 0 {
                    b.truncate(64 + size);
                    b.resize(64 + (size + 7) / 8 * 8, 255);
                    look(format!("type {ty} size {size} filled with {f}, padded"), &b);
                }
            })
        });
        cx.section("every pair of offsets", || {
            for (n, s) in bs.iter().filter(|(_, s)| s.is_link()) {
                let b = s.bytes();
                let mut offs: Vec<usize> = (56..=s.point().len() + 9).collect();
                offs.extend([0, 1, 4, 63 + 48 * 3, 64 + 48 * 3, 32767, 32768, 65024, 65535]);
                cx.par((offs.len() * offs.len()) as u64, |i| {
                    let (ro, da) = (offs[i as usize / offs.len()], offs[i as usize % offs.len()]);
                    let mut c = b.clone();
                    c[68..70].copy_from_slice(&(ro as u16).to_be_bytes());
                    c[70..72].copy_from_slice(&(da as u16).to_be_bytes());
                    look(format!("{n} offsets {ro} {da}"), &c)
                })
            }
        });
        cx.section("every pair of index or space bytes", || {
            for (n, s) in bs.iter().filter(|(_, s)| !s.space.is_empty() && s.kind == 3) {
                let b = s.bytes();
                let at = 64 + 64 + 48 * s.links.len();
                let len = rooted(&s.space).len();
                let vals: Vec<u8> = (0..cx.pick(6, len as u8 + 3)).chain(cx.pick(vec![8, 9, 16, 200, 255], vec![127, 128, 199, 200, 201, 254, 255])).collect();
                let pairs: Vec<(usize, usize)> = (0..len).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
                cx.par((pairs.len() * vals.len() * vals.len()) as u64, |i| {
                    let d = nth_mixed(&[pairs.len(), vals.len(), vals.len()], i);
                    let mut c = b.clone();
                    c[at + pairs[d[0]].0] = vals[d[1]];
                    c[at + pairs[d[0]].1] = vals[d[2]];
                    look(format!("{n} space bytes {:?}={} {}", pairs[d[0]], vals[d[1]], vals[d[2]]), &c)
                })
            }
        });
        cx.section("two bytes of the point header and offsets", || {
            for (n, s) in &bs {
                let b = s.bytes();
                let vals = [0u8, 1, 2, 3, 4, 5, 7, 8, 63, 64, 65, 96, 128, 160, 253, 254, 255];
                let k = 72.min(b.len()) - 64;
                let pairs: Vec<(usize, usize)> = (0..k).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
                cx.par((pairs.len() * vals.len() * vals.len()) as u64, |i| {
                    let d = nth_mixed(&[pairs.len(), vals.len(), vals.len()], i);
                    let mut c = b.clone();
                    c[64 + pairs[d[0]].0] = vals[d[1]];
                    c[64 + pairs[d[0]].1] = vals[d[2]];
                    look(format!("{n} header bytes {:?}={} {}", pairs[d[0]], vals[d[1]], vals[d[2]]), &c);
                    c.resize(64 + 65536, 255);
                    look(format!("{n} header bytes {:?}={} {} extended", pairs[d[0]], vals[d[1]], vals[d[2]]), &c)
                })
            }
        });
    })
}
