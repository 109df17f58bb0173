#![feature(exact_size_is_empty)]
//! A reference model of packets, written from their documented layout and not from the code.
use kit::*;
use linkspace_pkt::*;
pub use linkspace_pkt;

/// what a packet says
#[derive(Clone, PartialEq, Debug)]
pub struct Spec {
    pub head: [u8; 32],
    pub kind: u8, // 1 data, 3 link, 7 key, 0x80 error
    pub group: [u8; 32],
    pub domain: [u8; 16],
    pub stamp: u64,
    pub space: Vec<Vec<u8>>,
    pub links: Vec<([u8; 16], [u8; 32])>,
    pub data: Vec<u8>,
    /// public key and signature of a key point
    pub signed: Option<([u8; 32], [u8; 64])>,
}
pub fn head() -> [u8; 32] {
    let mut h = [0; 32];
    h[..3].copy_from_slice(b"LK1");
    h[8..16].copy_from_slice(&[255; 8]);
    h
}
pub fn data_spec(data: &[u8]) -> Spec {
    Spec { head: head(), kind: 1, group: [0; 32], domain: [0; 16], stamp: 0, space: vec![], links: vec![], data: data.to_vec(), signed: None }
}
pub fn b3(b: &[u8]) -> [u8; 32] {
    *linkspace_cryptography::blake3_hash(b).as_bytes()
}
/// the space as stored in a packet
pub fn rooted(space: &[Vec<u8>]) -> Vec<u8> {
    if space.is_empty() {
        return vec![];
    }
    let mut b = vec![0; 8];
    b[0] = space.len() as u8;
    let mut at = 0;
    for i in 0..8 {
        if i < space.len() {
            at += 1 + space[i].len()
        }
        if i < 7 {
            b[i + 1] = at as u8
        }
    }
    b.extend(flat(space));
    b
}
pub fn flat(space: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![];
    for c in space {
        b.push(c.len() as u8);
        b.extend(c)
    }
    b
}
pub fn space_ok(space: &[Vec<u8>]) -> bool {
    space.len() <= 8 && space.iter().all(|c| (1..=200).contains(&c.len())) && flat(space).len() <= 242
}
/// Some(components) when the bytes are the stored form of a space
pub fn unroot(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    let s = unflat(b.get(8..)?)?;
    // eight zero bytes also say "no components"
    ((s.is_empty() && b == [0; 8]) || (!s.is_empty() && space_ok(&s) && rooted(&s) == b)).then_some(s)
}
pub fn unflat(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut v = vec![];
    while let Some((l, r)) = b.split_first() {
        if *l == 0 || r.len() < *l as usize {
            return None;
        }
        v.push(r[..*l as usize].to_vec());
        b = &r[*l as usize..];
    }
    Some(v)
}
impl Spec {
    pub fn key_bytes(&self) -> [u8; 32] {
        self.signed.map(|s| s.0).unwrap_or([0; 32])
    }
    pub fn is_link(&self) -> bool {
        self.kind == 3 || self.kind == 7
    }
    /// the point up to the signature, which the signature is about
    pub fn unsigned_point(&self) -> Vec<u8> {
        let mut body = vec![];
        if self.is_link() {
            let off = 64 + self.links.len() * 48;
            let r = rooted(&self.space);
            body.extend((off as u16).to_be_bytes());
            body.extend(((off + r.len()) as u16).to_be_bytes());
            body.extend(self.stamp.to_be_bytes());
            body.extend(self.group);
            body.extend(self.domain);
            for (t, p) in &self.links {
                body.extend(t);
                body.extend(p);
            }
            body.extend(r);
        }
        body.extend(&self.data);
        let size = 4 + body.len() + if self.kind == 7 { 96 } else { 0 };
        let mut b = vec![0, self.kind];
        b.extend((size as u16).to_be_bytes());
        b.extend(body);
        while b.len() % 8 != 0 {
            b.push(255)
        }
        b
    }
    pub fn point(&self) -> Vec<u8> {
        let mut b = self.unsigned_point();
        if let Some((k, s)) = &self.signed {
            b.extend(k);
            b.extend(s);
        }
        b
    }
    pub fn hash(&self) -> [u8; 32] {
        b3(&self.point())
    }
    pub fn bytes(&self) -> Vec<u8> {
        let p = self.point();
        [&self.head[..], &b3(&p), &p].concat()
    }
    pub fn point_len(&self) -> usize {
        4 + self.data.len()
            + if self.is_link() { 60 + self.links.len() * 48 + if self.space.is_empty() { 0 } else { 8 + flat(&self.space).len() } } else { 0 }
            + if self.kind == 7 { 96 } else { 0 }
    }
    pub fn fits(&self) -> bool {
        self.point_len() <= 65024
    }
    /// every field as the evaluation language names it
    pub fn fields(&self) -> Vec<(&'static str, Vec<u8>)> {
        let mut v: Vec<(&'static str, Vec<u8>)> = vec![
            ("netflags", self.head[3..4].to_vec()),
            ("hop", self.head[4..8].to_vec()),
            ("stamp", self.head[8..16].to_vec()),
            ("ubits0", self.head[16..20].to_vec()),
            ("ubits1", self.head[20..24].to_vec()),
            ("ubits2", self.head[24..28].to_vec()),
            ("ubits3", self.head[28..32].to_vec()),
            ("hash", self.hash().to_vec()),
            ("type", vec![self.kind]),
            ("size", ((64 + self.point().len()) as u16).to_be_bytes().to_vec()),
            ("pubkey", self.key_bytes().to_vec()),
            ("signature", self.signed.map(|s| s.1).unwrap_or([0; 64]).to_vec()),
            ("group", self.group.to_vec()),
            ("domain", self.domain.to_vec()),
            ("create", self.stamp.to_be_bytes().to_vec()),
            ("depth", vec![self.space.len() as u8]),
            ("links_len", (self.links.len() as u16).to_be_bytes().to_vec()),
            ("data_size", (self.data.len() as u16).to_be_bytes().to_vec()),
            ("spacename", flat(&self.space)),
            ("rspacename", rooted(&self.space)),
            ("data", self.data.clone()),
        ];
        for (i, n) in ["comp0", "comp1", "comp2", "comp3", "comp4", "comp5", "comp6", "comp7"].into_iter().enumerate() {
            v.push((n, self.space.get(i).cloned().unwrap_or_default()))
        }
        v
    }
    pub fn link_vec(&self) -> Vec<Link> {
        self.links.iter().map(|(t, p)| Link { tag: AB(*t), ptr: B64(*p) }).collect()
    }
    pub fn describe(&self) -> String {
        format!(
            "type={:#x} head={} group={} domain={} stamp={} space={:?} links={} data={} bytes {}",
            self.kind,
            hex(&self.head),
            hex(&self.group[..4]),
            show(&self.domain),
            self.stamp,
            self.space.iter().map(|c| if c.len() > 8 { format!("{} bytes", c.len()) } else { show(c) }).collect::<Vec<_>>(),
            self.links.len(),
            self.data.len(),
            show(&self.data[..self.data.len().min(12)])
        )
    }
}
pub fn hex(b: &[u8]) -> String {
    let d = |n: u8| b"0123456789abcdef"[n as usize] as char;
    b.iter().flat_map(|b| [d(b >> 4), d(b & 15)]).collect()
}
#[derive(Debug, PartialEq, Clone)]
pub enum No {
    /// more bytes are needed: at least this many
    More(usize),
    Bad,
}
/// what the bytes say, if they are a well formed packet
pub fn parse(b: &[u8], with_hash: bool) -> Result<Spec, No> {
    if b.len() < 68 {
        return Err(No::More(68));
    }
    let kind = b[65];
    let size = u16::from_be_bytes([b[66], b[67]]) as usize;
    let least = match kind {
        1 | 0x80 => 4,
        3 => 64,
        7 => 160,
        _ => return Err(No::Bad),
    };
    if b[64] != 0 || size < least || size > 65024 {
        return Err(No::Bad);
    }
    let padded = (size + 7) / 8 * 8;
    if b.len() < 64 + padded {
        return Err(No::More(64 + padded));
    }
    let p = &b[64..64 + padded];
    let mut s = data_spec(&[]);
    s.head.copy_from_slice(&b[..32]);
    s.kind = kind;
    let sig = if kind == 7 { 96 } else { 0 };
    let (end, pend) = (size - sig, padded - sig);
    if p[end..pend].iter().any(|b| *b != 255) {
        return Err(No::Bad);
    }
    if s.is_link() {
        let (ro, da) = (u16::from_be_bytes([p[4], p[5]]) as usize, u16::from_be_bytes([p[6], p[7]]) as usize);
        if ro < 64 || da < ro || da > end || (ro - 64) % 48 != 0 {
            return Err(No::Bad);
        }
        s.stamp = u64::from_be_bytes(p[8..16].try_into().unwrap());
        s.group.copy_from_slice(&p[16..48]);
        s.domain.copy_from_slice(&p[48..64]);
        s.links = p[64..ro].chunks(48).map(|c| (c[..16].try_into().unwrap(), c[16..].try_into().unwrap())).collect();
        s.space = unroot(&p[ro..da]).ok_or(No::Bad)?;
        s.data = p[da..end].to_vec();
        if kind == 7 {
            s.signed = Some((p[pend..pend + 32].try_into().unwrap(), p[pend + 32..].try_into().unwrap()))
        }
    } else {
        s.data = p[4..end].to_vec()
    }
    if with_hash {
        if b3(p) != b[32..64] {
            return Err(No::Bad);
        }
        if let Some((k, sg)) = &s.signed {
            if linkspace_cryptography::validate_signature(k, sg, &b3(&p[..pend])).is_err() {
                return Err(No::Bad);
            }
        }
    }
    Ok(s)
}

/// Every way to ask a packet about itself agrees with the specification
pub fn same(form: &str, p: &dyn NetPkt, s: &Spec) -> Result<(), Bad> {
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {
            if ($a) != ($b) {
                return bad(format!("{} differs", $what), format!("{form}: {} is {:?} and should be {:?}", $what, $a, $b));
            }
        };
    }
    let point = s.point();
    let all = s.bytes();
    eq!("hash", p.hash().0, b3(&point));
    eq!("network header", *p.net_header().as_bytes(), s.head);
    eq!("network header reference", *p.net_header_ref().as_bytes(), s.head);
    let sg = p.byte_segments();
    eq!("length of the segments", sg.len(), all.len());
    eq!("emptiness of the segments", sg.is_empty(), false);
    eq!("bytes", show_cut(&sg.clone().to_bytes()), show_cut(&all));
    eq!("bytes one by one", sg.clone().eq(all.iter().copied()), true);
    let mut w = vec![];
    sg.clone().write_into(&mut w).map_err(|e| e.to_string())?;
    eq!("written bytes", w == all, true);
    eq!("size", p.size() as usize, all.len());
    for (form, q) in [(form.to_string(), p.as_point()), (format!("{form} as point"), p.as_point())] {
        let _ = form;
        eq!("point bytes", show_cut(&q.pkt_segments().to_bytes()), show_cut(&point));
        eq!("computed hash", q.compute_hash().0, b3(&point));
        eq!("padding", q.padding().len(), point.len() - s.point_len());
        eq!("data", show_cut(q.data()), show_cut(&s.data));
        eq!("type", q.point_header().point_type.bits(), s.kind);
        eq!("point size", q.point_header().uset_bytes.get() as usize, s.point_len());
        eq!("is a data point", q.is_datapoint(), s.kind == 1);
        eq!("is a link point", q.is_linkpoint(), s.kind == 3);
        eq!("is a key point", q.is_keypoint(), s.kind == 7);
        let l = s.is_link();
        eq!("group", q.group().map(|v| v.0), l.then_some(s.group));
        eq!("domain", q.domain().map(|v| v.0), l.then_some(s.domain));
        eq!("create stamp", q.create_stamp().map(|v| v.get()), l.then_some(s.stamp));
        eq!("group or none", q.get_group().0, s.group);
        eq!("domain or none", q.get_domain().0, s.domain);
        eq!("create stamp or none", q.get_create_stamp().get(), s.stamp);
        eq!("public key", q.pubkey().map(|v| v.0), s.signed.map(|v| v.0));
        eq!("signature", q.signature().map(|v| v.0), s.signed.map(|v| v.1));
        eq!("public key or none", q.get_pubkey().0, s.key_bytes());
        eq!("links", q.links().map(|l| l.to_vec()), l.then(|| s.link_vec()));
        eq!("links or none", q.get_links().to_vec(), s.link_vec());
        eq!("depth", q.depth().copied(), l.then_some(s.space.len() as u8));
        eq!("space", q.spacename().map(|v| v.space_bytes().to_vec()), l.then(|| flat(&s.space)));
        eq!("space components", q.get_spacename().iter().map(|v| v.to_vec()).collect::<Vec<_>>(), s.space);
        let r = q.get_rooted_spacename();
        eq!("rooted components", r.iter().map(|v| v.to_vec()).collect::<Vec<_>>(), s.space);
        eq!("rooted component array", r.comps_bytes().map(|v| v.to_vec()).to_vec(), (0..8).map(|i| s.space.get(i).cloned().unwrap_or_default()).collect::<Vec<_>>());
        eq!("private", q.check_private().is_err(), l && s.group == [0; 32]);
        let parts = q.parts();
        eq!("bytes of the parts", show_cut(&parts.pkt_segments().to_bytes()), show_cut(&point));
        eq!("common index", parts.fields.common_idx().map(|(h, sp, k)| (h.group.0, h.domain.0, h.create_stamp.get(), sp.space_bytes().to_vec(), k.map(|k| k.0))),
            l.then(|| (s.group, s.domain, s.stamp, flat(&s.space), s.signed.map(|v| v.0))));
    }
    for (name, want) in s.fields() {
        let f = FieldEnum::try_from_name(name).ok_or(format!("no field {name}"))?;
        let mut out = vec![];
        f.bytes(p, &mut out).map_err(|e| e.to_string())?;
        // eight zero bytes are a second way to store "no components"
        let empty_space = name == "rspacename" && s.space.is_empty() && (out.is_empty() || out == [0; 8]);
        if out != want && !empty_space {
            return bad(format!("field {name}"), format!("{form}: field {name} is {} and should be {}", show_cut(&out), show_cut(&want)));
        }
    }
    Ok(())
}
pub fn show_cut(b: &[u8]) -> String {
    if b.len() <= 200 {
        return hex(b);
    }
    format!("{} bytes {} .. {} hash {}", b.len(), hex(&b[..80]), hex(&b[b.len() - 16..]), hex(&b3(b)[..8]))
}
/// build the packet through the public constructors. Err = refused
pub fn build<'t>(s: &'t Spec, rs: &'t RootedSpace, links: &'t [Link], key: Option<&SigningKey>) -> Result<NetPktParts<'t>, Error> {
    let h = NetPktHeader::cfrom(s.head);
    match s.kind {
        1 => try_datapoint_ref(&s.data, h.into()),
        0x80 => Ok(errorpoint(&s.data, h)),
        3 => try_linkpoint_ref(s.group.into(), s.domain.into(), rs, links, &s.data, Stamp::new(s.stamp), h.into()),
        7 => try_keypoint_ref(s.group.into(), s.domain.into(), rs, links, &s.data, Stamp::new(s.stamp), key.unwrap(), h.into()),
        _ => unreachable!(),
    }
}
pub fn pattern(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed) ^ (i >> 8) as u8).collect()
}
/// Bytes that end exactly where the accessible memory ends.
pub struct Edge {
    base: *mut u8,
    len: usize,
}
impl Edge {
    pub fn new() -> Edge {
        let len = 17 * 4096;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), len + 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0).cast::<u8>();
            assert!(base as isize != -1);
            assert!(libc::mprotect(base.add(len).cast(), 4096, libc::PROT_NONE) == 0);
            Edge { base, len }
        }
    }
    pub fn put(&mut self, b: &[u8]) -> &[u8] {
        unsafe {
            let at = self.base.add(self.len - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            std::slice::from_raw_parts(at, b.len())
        }
    }
}
impl Drop for Edge {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.cast(), self.len + 4096) };
    }
}
thread_local! { pub static EDGE: std::cell::RefCell<Edge> = std::cell::RefCell::new(Edge::new()); }
/// Read untrusted bytes and compare the verdict and the contents with the reference reader
pub fn judge(b: &[u8], skip: bool) -> CaseResult {
    let want = parse(b, !skip);
    EDGE.with(|e| {
        let mut e = e.borrow_mut();
        let v = e.put(b);
        judge_at(v, skip, &want)
    })?;
    // and somewhere aligned
    let mut buf = vec![0u64; b.len() / 8 + 1];
    let v = unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), buf.as_mut_ptr().cast::<u8>(), b.len());
        std::slice::from_raw_parts(buf.as_ptr().cast::<u8>(), b.len())
    };
    judge_at(v, skip, &want)?;
    Ok(want.is_ok())
}
fn judge_at(v: &[u8], skip: bool, want: &Result<Spec, No>) -> Result<(), Bad> {
    match (read::read_pkt(v, skip), want) {
        (Ok(p), Ok(s)) => {
            if s.bytes() == v[..64 + s.point().len()] {
                return same("read", &&*p, s);
            }
            // read without looking at the hash, or eight zero bytes as an empty space
            ensure!(p.as_netpkt_bytes() == &v[..p.size() as usize] && p.size() as usize >= 64 + s.point().len(), "other bytes");
            ensure!(*p.net_header().as_bytes() == s.head && p.hash().0 == v[32..64], "header or hash");
            ensure!(p.data() == s.data && p.get_links() == s.link_vec() && p.get_group().0 == s.group && p.get_domain().0 == s.domain && p.get_create_stamp().get() == s.stamp, "fields");
            ensure!(p.signed().map(|v| (v.pubkey.0, v.signature.0)) == s.signed, "signature");
            ensure!(p.get_spacename().iter().map(|c| c.to_vec()).collect::<Vec<_>>() == s.space, "space");
            ensure!(p.get_rooted_spacename().iter().map(|c| c.to_vec()).collect::<Vec<_>>() == s.space && *p.get_depth() as usize == s.space.len(), "rooted space");
            Ok(())
        }
        (Err(e), Err(w)) => {
            let more = e.clone().requires_more();
            match w {
                No::More(n) => ensure!(more == Some(*n), "asks for {more:?} bytes in all, {n} are needed ({e})"),
                No::Bad => ensure!(more.is_none(), "asks for {more:?} bytes of a malformed packet"),
            }
            Ok(())
        }
        (Ok(p), Err(w)) => bad(format!("accepted {w:?}"), format!("accepted what is {w:?}: {p:?}")),
        (Err(e), Ok(_)) => bad(format!("refused {e}"), format!("refused a well formed packet: {e}")),
    }
}
