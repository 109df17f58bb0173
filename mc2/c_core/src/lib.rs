//! What the checks of the core crate share: packets, a naive meaning of predicates, and databases to throw away.
pub use c_pkt::*;
pub use linkspace_core as core_;
use core_::env::lmdb::BTreeEnv;
use core_::prelude::*;
pub use linkspace_pkt::{self, *};
use linkspace_pkt::reroute::RecvPkt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

/// One statement of a query: field, operator, value
#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub name: &'static str,
    pub op: &'static str,
    pub val: Vec<u8>,
}
pub fn rule(name: &'static str, op: &'static str, val: impl Into<Vec<u8>>) -> Rule {
    Rule { name, op, val: val.into() }
}
/// field, size in bytes, point types that have it
pub const NUM: [(&str, usize, u8); 18] = [
    ("netflags", 1, 1),
    ("hop", 4, 1),
    ("stamp", 8, 1),
    ("ubits0", 4, 1),
    ("ubits1", 4, 1),
    ("ubits2", 4, 1),
    ("ubits3", 4, 1),
    ("hash", 32, 1),
    ("type", 1, 1),
    ("size", 2, 1),
    ("pubkey", 32, 4),
    ("group", 32, 2),
    ("domain", 16, 2),
    ("create", 8, 2),
    ("depth", 1, 2),
    ("links_len", 2, 2),
    ("data_size", 2, 1),
    ("recv", 8, 0),
];
pub const LIMITS: [&str; 4] = ["i", "i_new", "i_db", "i_branch"];
pub fn num(name: &str) -> Option<(usize, u8)> {
    NUM.iter().find(|n| n.0 == name).map(|n| (n.1, n.2))
}
pub fn compare(op: &str, v: &[u8], r: &[u8]) -> bool {
    match op {
        "?" => true,
        "=" => v == r,
        "<" => v < r,
        ">" => v > r,
        "<=" => v <= r,
        ">=" => v >= r,
        "0" => v.iter().zip(r).all(|(v, r)| v & !r == 0),
        "1" => v.iter().zip(r).all(|(v, r)| v & r == *r),
        "=*" => v.starts_with(r),
        "*=" => v.ends_with(r),
        _ => unreachable!("{op}"),
    }
}
fn esc(b: &[u8]) -> String {
    b.iter().map(|b| format!("\\x{b:02x}")).collect()
}
impl Rule {
    /// the bytes the field is compared to: short domains stand for their padded form
    pub fn value(&self) -> Vec<u8> {
        let mut v = self.val.clone();
        if self.name == "domain" && self.op != "=*" && self.op != "*=" {
            while v.len() < 16 {
                v.insert(0, 0)
            }
        }
        v
    }
    pub fn text(&self) -> String {
        if let "prefix" | "spacename" = self.name {
            let comps = unflat(&self.val).unwrap();
            let c: String = comps.iter().map(|c| format!("/{}", esc(c))).collect();
            return format!("{}:{}:{}", self.name, self.op, c);
        }
        format!("{}:{}:{}", self.name, self.op, esc(&self.val))
    }
    pub fn limit(&self) -> bool {
        LIMITS.contains(&self.name)
    }
    /// does the packet satisfy it (counters aside)
    pub fn holds(&self, p: &Pkt, recv: u64) -> bool {
        let s = &p.spec;
        if self.limit() {
            return true;
        }
        match self.name {
            "recv" => compare(self.op, &recv.to_be_bytes(), &self.val),
            "prefix" => s.is_link() && s.space.starts_with(&unflat(&self.val).unwrap()),
            "spacename" => s.is_link() && s.space == unflat(&self.val).unwrap(),
            n => {
                let (_, kinds) = num(n).unwrap();
                s.kind & kinds == kinds && compare(self.op, p.field(n), &self.value())
            }
        }
    }
    /// is the counter within it
    pub fn counts(&self, i: u32) -> bool {
        compare(self.op, &i.to_be_bytes(), &self.val)
    }
}
pub fn show_rules(r: &[Rule]) -> String {
    r.iter().map(|r| r.text()).collect::<Vec<_>>().join(" ")
}
/// the predicates of the rules, added through the text form
pub fn query(r: &[Rule]) -> Result<Query, String> {
    let mut q = Query::default();
    for r in r {
        q.parse(r.text().as_bytes(), &core_::eval::CORE_SCOPE).map_err(|e| format!("{}: {e:#}", r.text()))?
    }
    Ok(q)
}

#[derive(Clone, Debug)]
pub struct Pkt {
    pub spec: Spec,
    pub net: NetPktBox,
    pub hash: LkHash,
    /// group, domain, depth, space, public key: the branch of the tree
    pub key: Vec<u8>,
    fields: Vec<(&'static str, Vec<u8>)>,
}
pub fn keys() -> &'static [SigningKey; 3] {
    static K: OnceLock<[SigningKey; 3]> = OnceLock::new();
    K.get_or_init(|| {
        // sorted by public key, so that the first is the smallest
        let mut v: Vec<SigningKey> = (1u8..=24).map(|i| SigningKey::try_from([i; 32]).unwrap()).collect();
        v.sort_by_key(|k| k.pubkey_bytes());
        [v[0].clone(), v[11].clone(), v[23].clone()]
    })
}
pub fn make(mut s: Spec, key: Option<usize>) -> Pkt {
    let sp = SpaceBuf::try_from_iter(&s.space).unwrap().try_into_rooted().unwrap();
    let links = s.link_vec();
    s.kind = match key {
        Some(_) => 7,
        None => s.kind,
    };
    let net = build(&s, &sp, &links, key.map(|k| &keys()[k])).unwrap().as_netbox();
    let mut bytes = vec![];
    net.byte_segments().write_into(&mut bytes).unwrap();
    let spec = parse(&bytes, true).unwrap();
    let key = tree_key(&spec);
    Pkt { hash: net.hash(), fields: spec.fields(), spec, net, key }
}
pub fn tree_key(s: &Spec) -> Vec<u8> {
    [&s.group[..], &s.domain, &[s.space.len() as u8], &flat(&s.space), &s.key_bytes()].concat()
}
pub fn spc(s: &str) -> Vec<Vec<u8>> {
    s.split('/').filter(|c| !c.is_empty()).map(|c| c.as_bytes().to_vec()).collect()
}
pub fn dom(d: &str) -> [u8; 16] {
    let mut v = [0; 16];
    v[16 - d.len()..].copy_from_slice(d.as_bytes());
    v
}
pub fn link_spec(group: u8, domain: &str, space: &str, stamp: u64, data: &[u8]) -> Spec {
    Spec { kind: 3, group: [group; 32], domain: dom(domain), space: spc(space), stamp, ..data_spec(data) }
}
impl Pkt {
    pub fn field(&self, name: &str) -> &[u8] {
        &self.fields.iter().find(|f| f.0 == name).unwrap().1
    }
    pub fn ptr(&self) -> &NetPktPtr {
        &self.net
    }
    pub fn at(&self, recv: u64) -> RecvPkt<&NetPktPtr> {
        RecvPkt { recv: Stamp::new(recv), pkt: &self.net }
    }
}

static DIRS: AtomicU64 = AtomicU64::new(0);
/// a directory for one database, gone when dropped
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static EMPTY: OnceLock<()> = OnceLock::new();
        EMPTY.get_or_init(|| std::env::set_var("LK_FORCE_EMPTY", "1"));
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        // a process of the same number may have been ended before it could clean up
        let p = loop {
            let p = base.join(format!("lkmc-{}-{}", std::process::id(), DIRS.fetch_add(1, SeqCst)));
            match std::fs::create_dir(&p) {
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => continue,
                r => r.unwrap(),
            }
            break p;
        };
        Scratch(p.canonicalize().unwrap())
    }
    pub fn open(&self) -> std::io::Result<BTreeEnv> {
        BTreeEnv::open(self.0.clone(), true)
    }
    /// of a directory in it
    pub fn open_in(&self, sub: &str) -> std::io::Result<BTreeEnv> {
        BTreeEnv::open(self.0.join(sub), true)
    }
    /// forget what the processes of this database had in memory
    pub fn forget(&self) {
        ipcbus::forget(&self.0);
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        lmdb_sys::sim::remove(&self.0);
        ipcbus::forget(&self.0);
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// packets that differ in every field a query can ask about
pub fn universe() -> Vec<Pkt> {
    let mut v = vec![];
    let mut d = data_spec(b"");
    v.push(make(d.clone(), None));
    d.data = b"x".to_vec();
    d.head[3] = 1; // netflags
    d.head[7] = 1; // hop
    d.head[15] = 254; // stamp
    v.push(make(d.clone(), None));
    d.data = pattern(300, 1);
    d.head[3] = 0x80;
    d.head[4..8].copy_from_slice(&[0, 0, 1, 0]);
    d.head[8..16].copy_from_slice(&[0, 0, 0, 0, 0, 0, 1, 2]);
    d.head[16..32].copy_from_slice(&[0, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0]);
    v.push(make(d.clone(), None));
    let mut l = link_spec(1, "a", "", 10, b"");
    v.push(make(l.clone(), None));
    l.head[16..32].copy_from_slice(&[255; 16]);
    l.links = vec![([7; 16], [9; 32])];
    v.push(make(l.clone(), None));
    v.push(make(l.clone(), Some(0)));
    l = link_spec(1, "a", "/a", 11, b"y");
    v.push(make(l.clone(), None));
    v.push(make(l.clone(), Some(1)));
    l = link_spec(1, "b", "/a/b", 12, b"yy");
    l.links = vec![([7; 16], [9; 32]); 2];
    v.push(make(l.clone(), None));
    v.push(make(l.clone(), Some(2)));
    l = link_spec(2, "ab", "/b", u64::MAX, &pattern(600, 3));
    v.push(make(l.clone(), None));
    l = link_spec(255, "a", "/a/b/c/d/e/f/g/h", 0, b"zz");
    l.domain = [255; 16];
    v.push(make(l.clone(), None));
    v.push(make(l.clone(), Some(0)));
    l.group[31] = 0;
    l.stamp = 256;
    v.push(make(l.clone(), Some(0)));
    l = link_spec(0, "", "/aa/b", 11, b"");
    v.push(make(l, None));
    v
}
/// every value of the field among the packets, its neighbours and the extremes
pub fn values(u: &[Pkt], name: &str, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![0; n], vec![255; n]];
    for p in u {
        let x = p.field(name).to_vec();
        for d in [1u8, 255] {
            let mut y = x.clone();
            for b in y.iter_mut().rev() {
                let (s, c) = if d == 1 { b.overflowing_add(1) } else { b.overflowing_sub(1) };
                *b = s;
                if !c {
                    break;
                }
            }
            v.push(y)
        }
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}
pub const OPS: [&str; 10] = ["=", "<", ">", "0", "1", "?", ">=", "<=", "=*", "*="];
pub fn space_values() -> Vec<Vec<u8>> {
    ["/a", "/b", "/a/b", "/aa", "/a/b/c", "/a/b/c/d/e/f/g/h", "/a/bb"].iter().map(|s| flat(&spc(s))).collect()
}

/// Do the statements ask for a bit of a field that is both set and unset?
/// (Statements about a field also ask for the point types that have it.)
pub fn contradicts(rules: &[Rule]) -> bool {
    let mut masks: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![];
    let mut add = |name: &'static str, must: Vec<u8>, may: Vec<u8>| {
        let m = match masks.iter_mut().find(|m| m.0 == name) {
            Some(m) => m,
            None => {
                masks.push((name, vec![0; must.len()], vec![255; must.len()]));
                masks.last_mut().unwrap()
            }
        };
        m.1.iter_mut().zip(must).for_each(|(a, b)| *a |= b);
        m.2.iter_mut().zip(may).for_each(|(a, b)| *a &= b);
    };
    for r in rules {
        let n = if r.limit() { 4 } else { num(r.name).map_or(0, |n| n.0) };
        let kinds = if r.limit() { 0 } else { num(r.name).map_or(2, |n| n.1) };
        if kinds != 0 {
            add("type", vec![kinds], vec![255]);
        }
        let v = r.value();
        if n == 0 || v.len() > n {
            continue;
        }
        let pad = n - v.len();
        match r.op {
            "0" if pad == 0 => add(r.name, vec![0; n], v),
            "1" if pad == 0 => add(r.name, v, vec![255; n]),
            "=*" => add(r.name, [&v[..], &vec![0; pad]].concat(), [&v[..], &vec![255; pad]].concat()),
            "*=" => add(r.name, [&vec![0; pad], &v[..]].concat(), [&vec![255; pad], &v[..]].concat()),
            _ => {}
        }
    }
    masks.iter().any(|(_, must, may)| must.iter().zip(may).any(|(a, b)| a & !b != 0))
}
/// A recorded defect: bits that must be both set and unset. What goes wrong with such a case is ascribed to it.
pub fn masks(contradictory: bool, f: impl FnOnce() -> kit::CaseResult) -> kit::CaseResult {
    if !contradictory {
        return f();
    }
    match kit::no_panic(f) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => kit::bad("contradictory mask", e.msg),
        Err(e) => kit::bad("contradictory mask", e),
    }
}

/// is this count within the limits of that name
pub fn within(rules: &[Rule], name: &str, i: u32) -> bool {
    rules.iter().filter(|r| r.name == name).all(|r| r.counts(i))
}
/// The packets of a log that match in the order of the mode ('i' aside).
pub fn matching<'a>(log: &[(u64, &'a Pkt)], rules: &[Rule], mode: &str) -> Vec<(u64, &'a Pkt)> {
    let mut v: Vec<(u64, &Pkt)> = log.iter().filter(|(r, p)| rules.iter().all(|x| x.holds(p, *r))).copied().collect();
    let (table, order) = mode.split_once('-').unwrap();
    let desc = order == "desc";
    match table {
        "log" => {
            if desc {
                v.reverse()
            }
        }
        "hash" => {
            v.sort_by(|a, b| a.1.hash.0.cmp(&b.1.hash.0));
            if desc {
                v.reverse()
            }
        }
        _ => {
            v.retain(|(_, p)| p.spec.is_link());
            v.sort_by(|a, b| {
                let in_branch = (a.1.spec.stamp, a.1.hash.0).cmp(&(b.1.spec.stamp, b.1.hash.0));
                a.1.key.cmp(&b.1.key).then(if desc { in_branch.reverse() } else { in_branch })
            });
            let mut n = 0;
            let mut last: Option<Vec<u8>> = None;
            v.retain(|(_, p)| {
                if last.as_ref() != Some(&p.key) {
                    last = Some(p.key.clone());
                    n = 0;
                }
                n += 1;
                within(rules, "i_branch", n - 1)
            });
        }
    }
    let mut n = 0;
    v.retain(|_| {
        n += 1;
        within(rules, "i_db", n - 1)
    });
    v
}
/// What a query implies without saying so when built, but says when printed.
/// A hash limited to one value without saying "=" is printed as "=", which also says that one result is enough.
pub fn settle(mut q: Query) -> Option<Query> {
    let h = q.predicates.hash;
    if h.bound.low == h.bound.high && h.has_any() {
        let b = U256::from(h.bound.low);
        q.predicates.add_predicate(&Predicate::from(RuleType::Field(FieldEnum::PktHashF), TestOp::Equal, LkHash::from(b).to_vec())).ok()?;
    }
    for _ in 0..2 {
        // every statement says that the packet has the field
        for p in q.predicates.iter().collect::<Vec<_>>() {
            if let RuleType::Field(f) = p.kind {
                q.predicates.add_predicate(&Predicate::from(RuleType::Field(FieldEnum::PktTypeF), TestOp::Mask1, vec![f.info().pkts.bits()])).ok()?;
            }
        }
    }
    Some(q)
}
/// all empty sets of a counter are the same
pub fn norm(p: &PktPredicates) -> PktPredicates {
    let mut p = p.clone();
    for i in QSCOPES {
        let s = p.state.idx(i);
        if !s.has_any() {
            *s = Default::default();
            s.add(TestOp::Less, 0);
        }
    }
    p
}
