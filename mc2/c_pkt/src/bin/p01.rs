//! Building packets, and reading them back in every form.
use c_pkt::*;
use kit::*;
use linkspace_pkt::{netpkt::reroute::*, read::read_pkt, *};
use std::sync::OnceLock;

mod ser {
    //! the least of a serializer: takes bytes only
    use serde::ser::{self, Impossible};
    #[derive(Debug)]
    pub struct E;
    impl std::fmt::Display for E {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("not bytes")
        }
    }
    impl std::error::Error for E {}
    impl ser::Error for E {
        fn custom<T: std::fmt::Display>(_: T) -> Self {
            E
        }
    }
    pub struct S;
    type I = Impossible<Vec<u8>, E>;
    macro_rules! no { ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, E> { Err(E) })* } }
    impl ser::Serializer for S {
        type Ok = Vec<u8>;
        type Error = E;
        type SerializeSeq = I;
        type SerializeTuple = I;
        type SerializeTupleStruct = I;
        type SerializeTupleVariant = I;
        type SerializeMap = I;
        type SerializeStruct = I;
        type SerializeStructVariant = I;
        fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, E> {
            Ok(v.to_vec())
        }
        no! {
            serialize_bool(bool) -> Vec<u8>; serialize_i8(i8) -> Vec<u8>; serialize_i16(i16) -> Vec<u8>; serialize_i32(i32) -> Vec<u8>; serialize_i64(i64) -> Vec<u8>;
            serialize_u8(u8) -> Vec<u8>; serialize_u16(u16) -> Vec<u8>; serialize_u32(u32) -> Vec<u8>; serialize_u64(u64) -> Vec<u8>; serialize_f32(f32) -> Vec<u8>; serialize_f64(f64) -> Vec<u8>;
            serialize_char(char) -> Vec<u8>; serialize_str(&str) -> Vec<u8>; serialize_none() -> Vec<u8>; serialize_unit() -> Vec<u8>; serialize_unit_struct(&'static str) -> Vec<u8>;
            serialize_unit_variant(&'static str, u32, &'static str) -> Vec<u8>; serialize_seq(Option<usize>) -> I; serialize_tuple(usize) -> I; serialize_tuple_struct(&'static str, usize) -> I;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> I; serialize_map(Option<usize>) -> I; serialize_struct(&'static str, usize) -> I;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> I;
        }
        fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<Vec<u8>, E> { Err(E) }
        fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<Vec<u8>, E> { Err(E) }
        fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, E> { Err(E) }
    }
    pub fn bytes(v: &(impl serde::Serialize + ?Sized)) -> Result<Vec<u8>, E> {
        v.serialize(S)
    }
    pub fn read<'a, T: serde::Deserialize<'a>>(b: &'a [u8]) -> Result<T, serde::de::value::Error> {
        T::deserialize(serde::de::value::BorrowedBytesDeserializer::new(b))
    }
}

fn keys() -> &'static [SigningKey] {
    static K: OnceLock<Vec<SigningKey>> = OnceLock::new();
    K.get_or_init(|| {
        [[1u8; 32], [0x7f; 32], { let mut k = [0; 32]; k[31] = 1; k }]
            .iter()
            .map(|k| SigningKey::try_from(*k).unwrap())
            .collect()
    })
}
fn aligned(b: &[u8], off: usize) -> (Vec<u64>, usize) {
    let mut v = vec![0u64; b.len() / 8 + 3];
    let d = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr().cast::<u8>(), v.len() * 8) };
    d[off..off + b.len()].copy_from_slice(b);
    (v, b.len())
}
fn view(v: &(Vec<u64>, usize), off: usize) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.0.as_ptr().cast::<u8>().add(off), v.1) }
}
/// all forms of one packet
fn forms(s: &Spec, key: Option<&SigningKey>, deep: bool) -> CaseResult {
    let rs = rspace_buf(&s.space.iter().map(|c| &c[..]).collect::<Vec<_>>());
    let links = s.link_vec();
    if !s.fits() && s.kind == 0x80 {
        return Ok(false); // has no refusing constructor
    }
    let p = build(s, &rs, &links, key);
    if s.is_link() {
        // the room left is what the limit leaves
        let free = calc_free_space(&rs, &links, &s.data, s.kind == 7);
        ensure!(free == 65024 - s.point_len() as isize, "free space is {free}, the point has {} of 65024 bytes", s.point_len());
    }
    if !s.fits() {
        ensure!(p.is_err(), "accepted a point of {} bytes", s.point_len());
        return Ok(true);
    }
    let p = p.map_err(|e| Bad::from(format!("refused: {e}")))?;
    let mut s = s.clone();
    if s.kind == 7 {
        let (k, sig) = (p.get_pubkey().0, p.get_signature().0);
        ensure!(k == key.unwrap().pubkey_bytes(), "public key of another key");
        s.signed = Some((k, sig));
        ensure!(linkspace_cryptography::validate_signature(&k, &sig, &b3(&s.unsigned_point())).is_ok(), "the signature is not one of this point");
    }
    let s = &s;
    let want = s.bytes();
    same("parts", &p, s)?;
    let bx = p.as_netbox();
    same("box", &bx, s)?;
    let arc = p.as_netarc();
    same("arc", &arc, s)?;
    ensure!(ser::bytes(&*bx).ok().as_ref() == Some(&want) && ser::bytes(&arc).ok().as_ref() == Some(&want), "serialised bytes differ");
    for off in if deep { 0..8 } else { 0..2 } {
        for more in [0, 3] {
            let mut b = want.clone();
            b.extend(vec![7; more]);
            let a = aligned(&b, off);
            let v = view(&a, off);
            for skip in [false, true] {
                let r = read_pkt(v, skip).map_err(|e| Bad::from(format!("read at offset {off} with {more} bytes following: {e}")))?;
                same("read", &&*r, s)?;
            }
        }
        let a = aligned(&want, off);
        let v = view(&a, off);
        same("deserialised box", &ser::read::<NetPktBox>(v).map_err(|e| e.to_string())?, s)?;
        same("deserialised arc", &ser::read::<NetPktArc>(v).map_err(|e| e.to_string())?, s)?;
    }
    if !deep {
        return Ok(true);
    }
    same("parts of box", &bx.as_netparts(), s)?;
    same("parts of arc", &arc.as_netparts(), s)?;
    same("arc of box", &bx.as_netarc(), s)?;
    same("box of arc", &arc.as_netbox(), s)?;
    same("box of box", &bx.clone(), s)?;
    same("thin", &bx.thin_netpkt(), s)?;
    same("owned thin", &bx.thin_netpkt().to_owned(), s)?;
    same("reference", &&&p, s)?;
    // raw pointers and reference counts
    let n = arc.refcount();
    let raw = arc.clone().into_raw_arc();
    ensure!(unsafe { &*raw }.with_arc(|a| a.refcount()) == n + 1, "count behind a raw pointer");
    same("raw arc", unsafe { &*raw }, s)?;
    same("arc of a raw arc", &unsafe { &*raw }.as_netarc(), s)?;
    same("arc from raw", &unsafe { NetPktArc::from_raw_arc(raw) }, s)?;
    ensure!(arc.refcount() == n, "count after all others were dropped is {}", arc.refcount());
    let raw = NetPktFatPtr::into_raw_box(bx.clone());
    same("raw box", unsafe { &*raw }, s)?;
    same("box from raw", &unsafe { NetPktFatPtr::from_raw_box(raw) }, s)?;
    let a = aligned(&want, 0);
    same("unchecked bytes", unsafe { NetPktPtr::from_bytes_unchecked(view(&a, 0)) }, s)?;
    ensure!(bx.as_netpkt_bytes() == want && arc.as_netpkt_bytes() == want, "packet bytes");
    // another network header changes nothing else
    let mut t = s.clone();
    t.head = [0x5a; 32];
    t.head[3] = 0x81;
    let nh = NetPktHeader::cfrom(t.head);
    ensure!(nh.cinto() == t.head && NetPktHeader::from(B64(t.head)) == nh && B64::<[u8; 32]>::from(nh).0 == t.head, "header through bytes");
    macro_rules! reroute {
        ($name:literal, $p:expr) => {{
            let mut r = ReroutePkt::new($p);
            same(concat!("rerouted ", $name, " before"), &r, s)?;
            r.net_header = nh;
            same(concat!("rerouted ", $name), &r, &t)?;
            same(concat!("box of rerouted ", $name), &r.as_netbox(), &t)?;
            same(concat!("arc of rerouted ", $name), &r.as_netarc(), &t)?;
            same(concat!("parts of rerouted ", $name), &r.as_netparts(), &t)?;
            *r.net_header_mut().unwrap() = NetPktHeader::cfrom(s.head);
            same(concat!("rerouted back ", $name), &r, s)?;
            r.net_header = nh;
            let mut rr = ReroutePkt::new(r);
            same(concat!("twice rerouted ", $name), &rr, &t)?;
            rr.net_header = NetPktHeader::cfrom(s.head);
            same(concat!("rerouted there and back ", $name), &rr, s)?;
            same(concat!("box of rerouted there and back ", $name), &rr.as_netbox(), s)?;
            same(concat!("arc of rerouted there and back ", $name), &rr.as_netarc(), s)?;
        }};
    }
    reroute!("parts", p);
    reroute!("box", bx.clone());
    reroute!("arc", arc.clone());
    same("rerouted reference", &bx.reroute(nh), &t)?;
    let mut m = bx.clone();
    *m.net_header_mut().unwrap() = nh;
    same("box with another header", &m, &t)?;
    let rc = RecvPkt { recv: Stamp::new(7), pkt: arc.clone() };
    ensure!(rc.recv() == Some(Stamp::new(7)) && rc.get_recv() == Stamp::new(7), "receive stamp");
    same("received", &rc, s)?;
    let own = rc.clone().owned();
    ensure!(own.recv() == Some(Stamp::new(7)), "receive stamp of a copy");
    same("received box", &own, s)?;
    let dy: RecvPkt<NetPktArc> = RecvPkt::from(&own as &dyn NetPkt);
    ensure!(dy.recv == Stamp::new(7), "receive stamp of a second copy");
    same("received arc", &dy, s)?;
    let sh = ShareArcPkt::new(p);
    same("shared", &sh, s)?;
    let (a1, a2) = (sh.as_netarc(), sh.as_netarc());
    ensure!(a1.refcount() == 3 && std::ptr::eq(a1.as_netpkt_bytes(), a2.as_netpkt_bytes()), "shared arc made twice");
    same("shared arc", &a1, s)?;
    same("borrowed shared arc", sh.borrow_arc(), s)?;
    Ok(true)
}
fn main() {
    kit::main("P01", "model_checking", |cx| {
        cx.rule("every combination of the stated kinds, headers, groups, stamps, spaces, links and data, and every point size near the limit, built and compared in every form with an independent encoder; non-trivial: built and compared, or refused as too large");
        let mk = |kind: u8| Spec { kind, ..data_spec(&[]) };
        let one = |s: Spec, k: usize, deep: bool| {
            cx.states(1);
            cx.transitions(if deep { 60 } else { 12 });
            cx.traces(1);
            let key = (s.kind == 7).then(|| &keys()[k]);
            cx.case(s.describe().as_bytes(), || forms(&s, key, deep))
        };
        let spaces: Vec<Vec<Vec<u8>>> = vec![
            vec![],
            vec![b"a".to_vec()],
            vec![b"hello".to_vec(), b"world".to_vec()],
            vec![vec![0], vec![255, 255], vec![b'/'; 3]],
            (0..7).map(|i| vec![i; 1 + i as usize]).collect(),
            (0..8).map(|i| vec![i + 1]).collect(),
            vec![pattern(200, 3)],
            vec![pattern(200, 3), pattern(40, 9)],
            vec![pattern(32, 1), pattern(16, 2), pattern(64, 3)],
            (0..8).map(|i| pattern(if i == 7 { 31 } else { 29 }, i)).collect(),
        ];
        let links: Vec<Vec<([u8; 16], [u8; 32])>> = vec![
            vec![],
            vec![([0; 16], [0; 32])],
            vec![(*b"0123456789abcdef", [7; 32]), ([255; 16], [255; 32])],
            (0..17).map(|i| ([i; 16], [i ^ 0x55; 32])).collect(),
        ];
        cx.section("data and error points of every small size", || {
            cx.par(cx.pick(73, 601), |n| {
                for kind in [1, 0x80] {
                    for seed in [0, 200] {
                        one(Spec { data: pattern(n as usize, seed), ..mk(kind) }, 0, true)
                    }
                }
            });
        });
        cx.section("spaces, links and data sizes", || {
            let nd = cx.pick(17, 41);
            let n = 2 * spaces.len() * links.len() * nd;
            cx.par(n as u64, |i| {
                let d = nth_mixed(&[2, spaces.len(), links.len(), nd], i);
                one(Spec { space: spaces[d[1]].clone(), links: links[d[2]].clone(), data: pattern(d[3], 17), stamp: 0x0102030405060708, group: [9; 32], domain: *b"\0\0\0\0domain-name!", ..mk([3, 7][d[0]]) }, i as usize % 3, true)
            });
        });
        cx.section("headers, groups, domains and stamps", || {
            let heads: Vec<[u8; 32]> = (0..32).map(|i| { let mut h = head(); h[i] = 0x80 + i as u8; h }).chain([[0; 32], [255; 32], head()]).collect();
            cx.par(heads.len() as u64, |i| {
                let h = &heads[i as usize];
                for kind in [1, 3, 7, 0x80] {
                    one(Spec { head: *h, data: pattern(5, 1), space: if kind & 2 != 0 { spaces[1].clone() } else { vec![] }, ..mk(kind) }, 1, true)
                }
            });
            cx.par(17, |at| {
                let at = at as usize;
                for g in [[0; 32], [255; 32], PUBLIC.0] {
                    for st in [0, 1, u64::MAX, 1 << 63, 0x00ff_00ff_00ff_00ff] {
                        for kind in [3, 7] {
                            let mut d = [0; 16];
                            for x in &mut d[at..] {
                                *x = b'x'
                            }
                            one(Spec { group: g, domain: d, stamp: st, ..mk(kind) }, 2, false)
                        }
                    }
                }
            });
        });
        cx.section("sizes at the limit", || {
            let step = cx.pick(1, 1);
            let _ = step;
            let mut v = vec![];
            for kind in [1, 3, 7] {
                for sp in if kind == 1 { &spaces[..1] } else { &spaces[..] } {
                    for ln in if kind == 1 { &links[..1] } else { &links[..] } {
                        let s = Spec { space: sp.clone(), links: ln.clone(), ..mk(kind) };
                        let room = 65024 - s.point_len();
                        for n in room - cx.pick(2, 9)..=room + cx.pick(2, 9) {
                            v.push((s.clone(), n))
                        }
                    }
                }
                v.push((mk(kind), 65535));
                v.push((mk(kind), 65536));
                v.push((mk(kind), 70000));
                v.push((mk(kind), 1 << 20));
            }
            cx.par(v.len() as u64, |i| {
                let (s, n) = &v[i as usize];
                one(Spec { data: pattern(*n, 5), ..s.clone() }, 0, false)
            });
            let v: Vec<usize> = (0..=1400).filter(|n| cx.pick(*n < 3 || *n > 1345, true)).collect();
            // as many links as fit, with and without a space, and more
            cx.par(v.len() as u64, |i| {
                for kind in [3, 7] {
                    for sp in [0, 1, 9] {
                        for data in [0, 17] {
                            let links = (0..v[i as usize]).map(|i| ([i as u8; 16], [(i >> 3) as u8; 32])).collect();
                            one(Spec { space: spaces[sp].clone(), links, data: pattern(data, 1), ..mk(kind) }, 0, false)
                        }
                    }
                }
            });
        });
    })
}
