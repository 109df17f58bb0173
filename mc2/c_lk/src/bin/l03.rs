//! The interface to points: built as asked or refused, read back from the front of a buffer, and private ones only where allowed.
use c_core::*;
use kit::*;
use linkspace::misc::{blake3_hash, bytes2uniform};
use linkspace::point::*;
use linkspace::LkResult;
use std::borrow::Cow;
use std::io::Write;

const NOW: u64 = 1_234_567;
/// everything that can be said about a point
#[derive(Clone)]
struct Ask {
    spec: Spec,
    key: Option<usize>,
    now: bool,
}
impl Ask {
    fn want(&self) -> Option<Spec> {
        let mut s = self.spec.clone();
        if self.now {
            s.stamp = NOW
        }
        if let Some(k) = self.key {
            s.kind = 7;
            s.signed = Some((keys()[k].pubkey_bytes(), [0; 64]));
        }
        if !s.fits() {
            return None;
        }
        if let Some(k) = self.key {
            let h = b3(&s.unsigned_point());
            s.signed = Some((keys()[k].pubkey_bytes(), linkspace_cryptography::sign_hash(&keys()[k], &h)));
        }
        Some(s)
    }
}
fn same_bytes(what: &str, got: LkResult<Vec<u8>>, want: Option<&Spec>) -> Result<(), Bad> {
    match (got, want) {
        (Ok(g), Some(w)) if g == w.bytes() => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), w) => bad("built", format!("{what} gives {} and should give {:?}", show_cut(&g), w.map(|w| show_cut(&w.bytes())))),
        (Err(e), Some(_)) => bad("built", format!("{what} is refused: {e:#}")),
    }
}
fn build(a: &Ask) -> CaseResult {
    let _clock = vclock::freeze(NOW);
    let want = a.want();
    let s = &a.spec;
    let space = SpaceBuf::try_from_iter(&s.space).unwrap().try_into_rooted().unwrap();
    let links = s.link_vec();
    let (g, d) = (GroupID::from(s.group), Domain::from(s.domain));
    let stamp = (!a.now).then(|| Stamp::new(s.stamp));
    let bytes = |p: &dyn NetPkt| p.as_netbox().as_netpkt_bytes().to_vec();
    let w = want.as_ref();
    if s.kind == 1 {
        same_bytes("lk_datapoint", no_panic(|| lk_datapoint(&s.data).map(|p| bytes(&p)))?, w)?;
        same_bytes("lk_datapoint_ref", no_panic(|| lk_datapoint_ref(&s.data).map(|p| bytes(&p)))?, w)?;
    } else if let Some(k) = a.key {
        let k = &keys()[k];
        same_bytes("lk_keypoint", no_panic(|| lk_keypoint(k, &s.data, d, g, &space, &links, stamp).map(|p| bytes(&p)))?, w)?;
        same_bytes("lk_keypoint_ref", no_panic(|| lk_keypoint_ref(k, &s.data, d, g, &space, &links, stamp).map(|p| bytes(&p)))?, w)?;
    } else {
        same_bytes("lk_linkpoint", no_panic(|| lk_linkpoint(&s.data, d, g, &space, &links, stamp).map(|p| bytes(&p)))?, w)?;
        same_bytes("lk_linkpoint_ref", no_panic(|| lk_linkpoint_ref(&s.data, d, g, &space, &links, stamp).map(|p| bytes(&p)))?, w)?;
    }
    let Some(w) = want else { return Ok(false) };
    let all = w.bytes();
    read_all(&all, &[])?;
    read_all(&all, b"and what follows")?;
    read_all(&all[..all.len() - 1], &[])?;
    write_all(&w)?;
    Ok(true)
}
/// reading that from the front of a buffer, by all four ways, at the given alignments
fn read_all(b: &[u8], tail: &[u8]) -> CaseResult {
    let whole = [b, tail].concat();
    let mut any = false;
    for off in [0usize, 1, 4, 7] {
        let mut buf: Vec<u64> = vec![0; whole.len() / 8 + 2];
        let base = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr().cast::<u8>(), buf.len() * 8) };
        base[off..off + whole.len()].copy_from_slice(&whole);
        let at = &base[off..off + whole.len()];
        for private in [false, true] {
            for check in [true, false] {
                let want = parse(&whole, check).ok().filter(|s| private || !s.is_link() || s.group != [0; 32]);
                let got = no_panic(|| {
                    let r: Result<(Cow<NetPktPtr>, &[u8]), _> = if check { lk_read(at, private) } else { lk_read_unchecked(at, private) };
                    r.map(|(p, rest)| (p.as_netpkt_bytes().to_vec(), rest.to_vec(), p.hash().0))
                })?;
                match (&got, &want) {
                    (Ok((p, rest, h)), Some(w)) => {
                        let n = 64 + (w.point_len() + 7) / 8 * 8;
                        ensure!(p[..] == whole[..n] && rest[..] == whole[n..] && h[..] == whole[32..64], "read {} with {} left of {}", p.len(), rest.len(), whole.len());
                        any = true;
                    }
                    (Err(_), None) => {}
                    (g, w) => ensure!(false, "reading (check {check}, private {private}, at {off}) gives {:?} and should give {:?}", g.as_ref().map(|g| g.0.len()).map_err(|e| e.to_string()), w.as_ref().map(|w| w.describe())),
                }
            }
        }
    }
    Ok(any)
}
/// takes a few bytes at a time, and fails at some point
struct Slow {
    got: Vec<u8>,
    step: usize,
    room: usize,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.room);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::other("full"));
        }
        self.got.extend(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn write_all(s: &Spec) -> CaseResult {
    let all = s.bytes();
    let Ok((p, _)) = lk_read(&all, true) else { return bad("read", "it does not read") };
    let private = s.is_link() && s.group == [0; 32];
    let parts = p.as_netparts();
    let forms: [&dyn NetPkt; 3] = [&*p, &parts, &p.as_netarc()];
    for p in forms {
        for allow in [false, true] {
            let full = all.len();
            for (step, room) in [(full, full), (1, full), (63, full + 1), (65, full - 1), (7, 0), (full, full / 2)] {
                let mut w = Slow { got: vec![], step, room };
                let r = no_panic(|| lk_write(p, allow, &mut w))?;
                if private && !allow {
                    ensure!(r.is_err() && w.got.is_empty(), "a private packet was written: {} bytes", w.got.len());
                    continue;
                }
                ensure!(r.is_ok() == (room >= full), "writing to a place for {room} of {full} bytes is {r:?}");
                ensure!(w.got[..] == all[..w.got.len()] && w.got.len() == full.min(room), "it wrote {} to a place for {room}", show_cut(&w.got));
            }
        }
    }
    Ok(true)
}
fn main() {
    kit::main("L03", "model_checking", |cx| {
        cx.rule("points are built with what was given (the present as creation moment if none was) or refused if they do not fit; the first packet of a buffer is read with the rest of it, at any alignment, if it is one (without looking at hash and signature where asked to); what is private is read and written only where allowed; written is all of the packet, however slow the other side is; a fraction of a hash is that fraction");
        let count = |n: u64| {
            cx.states(1);
            cx.transitions(n);
            cx.traces(1);
        };
        let groups: [[u8; 32]; 4] = [[0; 32], PUBLIC.0, [1; 32], { let mut g = [0; 32]; g[31] = 1; g }];
        let spaces = ["", "/a", "/a/bb/c", "/1/2/3/4/5/6/7/8"];
        cx.section("points of every kind", || {
            let mut v: Vec<Ask> = vec![];
            let room = |s: &Spec| 65024 - s.point_len();
            for n in [0, 1, 3, 4, 5, 8, 300, 65019, 65020, 65021, 70000] {
                v.push(Ask { spec: data_spec(&pattern(n, n as u64 as _)), key: None, now: false });
            }
            for (g, d) in groups.iter().flat_map(|g| ["", "d", "sixteen bytes :)"].map(|d| (g, d))) {
                for sp in spaces {
                    for key in [None, Some(0), Some(2)] {
                        for now in [false, true] {
                            for nl in [0, 1, 3] {
                                let mut s = link_spec(1, d, sp, 42, b"");
                                s.group = *g;
                                s.links = (0..nl).map(|i| ([i as u8 + 1; 16], [i as u8; 32])).collect();
                                for n in [0, 1, 6] {
                                    let mut s = s.clone();
                                    s.data = pattern(n, 1);
                                    v.push(Ask { spec: s, key, now });
                                }
                            }
                        }
                    }
                }
            }
            // at the limit
            for (sp, key) in spaces.iter().flat_map(|s| [None, Some(1)].map(|k| (s, k))) {
                for nl in [0usize, 1, 1000, 1350, 1351, 1352, 1353, 1354, 1355, 2000] {
                    let mut s = link_spec(1, "d", sp, 42, b"");
                    s.links = (0..nl).map(|i| ([i as u8; 16], [7; 32])).collect();
                    let mut signed = s.clone();
                    if key.is_some() {
                        signed.kind = 7
                    }
                    let left = 65024usize.checked_sub(signed.point_len());
                    let _ = room;
                    for n in [0, 1].into_iter().chain(left.into_iter().flat_map(|l| [l.saturating_sub(1), l, l + 1])) {
                        let mut s = s.clone();
                        s.data = pattern(n, 2);
                        v.push(Ask { spec: s, key, now: false });
                    }
                }
            }
            cx.par(v.len() as u64, |i| {
                let a = &v[i as usize];
                count(80);
                cx.case_k(b"", &|| format!("{} key {:?} now {}", a.spec.describe(), a.key, a.now), || build(a))
            })
        });
        let small: Vec<Vec<u8>> = {
            let mut l = link_spec(0, "d", "/a/b", 5, b"xy");
            let mut v = vec![make(data_spec(b"12345"), None), make(l.clone(), None)];
            l.group = [1; 32];
            l.links = vec![([1; 16], [2; 32])];
            v.extend([make(l.clone(), None), make(l.clone(), Some(1))]);
            l.group = [0; 32];
            v.push(make(l, Some(1)));
            v.iter().map(|p| p.net.as_netpkt_bytes().to_vec()).collect()
        };
        cx.section("every byte changed, and every length", || {
            cx.par(small.len() as u64, |i| {
                let b = &small[i as usize];
                for at in 0..b.len() {
                    let vals: Vec<u8> = if cx.quick() { [1u8, 2, 4, 0x80, 0xff].map(|x| b[at] ^ x).to_vec() } else { (0..=255).collect() };
                    for x in vals {
                        let mut c = b.clone();
                        c[at] = x;
                        count(16);
                        cx.case_k(b"", &|| format!("packet {i} with byte {at} {x:#x}"), || read_all(&c, b""));
                    }
                    count(16);
                    cx.case_k(b"", &|| format!("packet {i} cut to {at}"), || read_all(&b[..at], b""));
                }
                for n in 0..small.len() {
                    count(16);
                    cx.case_k(b"", &|| format!("packet {i} followed by {n}"), || read_all(b, &small[n]));
                }
            })
        });
        cx.section("numbers from hashes", || {
            let mut v: Vec<Vec<u8>> = vec![vec![0; 8], vec![255; 8], b"some".repeat(8), (0..32).collect()];
            for i in 0..64u32 {
                for x in [1u64 << i, (1u64 << i) - 1, !0u64 << i] {
                    v.push(x.to_be_bytes().to_vec());
                    v.push([&x.to_be_bytes()[..], &[255; 24]].concat());
                }
            }
            cx.par(v.len() as u64, |i| {
                let b = &v[i as usize];
                count(2);
                cx.case_k(b"", &|| show(b), || {
                    let u = no_panic(|| bytes2uniform(b))?;
                    let n = u64::from_be_bytes(b[..8].try_into().unwrap()) >> 12;
                    ensure!((0.0..1.0).contains(&u) && u * (1u64 << 52) as f64 == n as f64, "{u} is not {n}/2^52");
                    ensure!(blake3_hash(b).0 == b3(b), "another hash");
                    for short in 0..8 {
                        ensure!(no_panic(|| bytes2uniform(&b[..short])).is_err(), "it took {short} bytes");
                    }
                    Ok(true)
                })
            })
        });
    })
}
