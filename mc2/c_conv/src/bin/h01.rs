//! The handshake: whatever an attacker delivers to clients and servers of honest keys, whoever accepts a key talked to
//! its holder in this very run.
use c_core::{keys, PRIVATE};
use kit::*;
use linkspace::prelude as lk;
use linkspace_common::prelude::*;
use linkspace_common::protocols::handshake::*;
use std::collections::{BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

const START: u64 = 1_000_000_000;
const LIMIT: u64 = 15_000_000;
/// two honest keys and the attacker's
const NAMES: [&str; 3] = ["A", "B", "E"];
const E: usize = 2;

/// a packet somebody saw, named by how it came to be
#[derive(Clone)]
struct Msg {
    name: String,
    pkt: Arc<NetPktBox>,
}
impl Msg {
    fn short(&self) -> &str {
        match &self.name[..] {
            n if n.starts_with("e ") => "e",
            n => n,
        }
    }
}
#[derive(Clone, Default)]
struct Client {
    me: usize,
    p0: Option<Msg>,
    /// the peer, the answer it accepted, what it sent
    done: Option<(usize, String, Msg)>,
}
#[derive(Clone, Default)]
struct Server {
    me: usize,
    p0: Option<Msg>,
    p1: Option<Msg>,
    done: Option<usize>,
}
#[derive(Clone)]
struct State {
    clock: u64,
    known: Vec<Msg>,
    clients: Vec<Client>,
    servers: Vec<Server>,
    /// packets honest keys still sign outside of handshakes
    others: u32,
    waits: u32,
    path: Vec<String>,
}
fn key(i: usize) -> &'static SigningKey {
    &keys()[i]
}
fn pk(i: usize) -> PubKey {
    key(i).pubkey()
}
fn who(k: &PubKey) -> usize {
    (0..3).find(|i| pk(*i) == *k).unwrap_or(9)
}
fn group(a: usize, b: usize) -> GroupID {
    let (x, y) = (pk(a).0, pk(b).0);
    let mut g = [0; 32];
    for i in 0..32 {
        g[i] = x[i] ^ y[i]
    }
    B64(g)
}
fn hs() -> Domain {
    ab(b"\xFFhandshake")
}
/// the fields an attacker chooses
#[derive(Clone)]
struct F {
    key: Option<usize>,
    group: GroupID,
    domain: Domain,
    space: &'static [u8],
    links: Vec<Link>,
    data: &'static [u8],
    stamp: u64,
}
fn build(f: &F) -> NetPktBox {
    let s = RootedSpaceBuf::try_from_iter([f.space]).unwrap();
    let c = Some(Stamp::new(f.stamp));
    match f.key {
        Some(k) => lk::lk_keypoint(key(k), f.data, f.domain, f.group, &s, &f.links, c).unwrap(),
        None => lk::lk_linkpoint(f.data, f.domain, f.group, &s, &f.links, c).unwrap(),
    }
}
fn link(p: &NetPktBox, tag: &[u8]) -> Link {
    Link { tag: ab(tag), ptr: p.hash() }
}
/// a message of the right form, and each way in which it can be wrong
fn variants(f: &F, other: Link, now: u64) -> Vec<(String, NetPktBox)> {
    let mut v: Vec<(&str, F)> = vec![("", f.clone())];
    let mut add = |n: &'static str, g: &dyn Fn(&mut F)| {
        let mut x = f.clone();
        g(&mut x);
        v.push((n, x))
    };
    add(" in another domain", &|f| f.domain = ab(b"handshake"));
    add(" at another space", &|f| f.space = b"other");
    add(" in another group", &|f| f.group = B64([7; 32]));
    add(" in the private group", &|f| f.group = PRIVATE);
    add(" linking another", &|f| f.links = vec![other]);
    if !f.links.is_empty() {
        add(" without links", &|f| f.links.clear());
    }
    add(" unsigned", &|f| f.key = None);
    add(" too old", &|f| f.stamp = now - LIMIT);
    add(" old", &|f| f.stamp = now - LIMIT + 1);
    add(" too new", &|f| f.stamp = now + LIMIT);
    add(" new", &|f| f.stamp = now + LIMIT - 1);
    v.into_iter().map(|(n, f)| (n.to_string(), build(&f))).collect()
}
fn hop(p: &NetPktBox) -> NetPktBox {
    let mut p = p.as_netbox();
    p._net_header = p.net_header().hop();
    p
}
fn sees(f: impl FnOnce() -> anyhow::Result<NetPktBox>) -> Result<Option<NetPktBox>, Bad> {
    match no_panic(f) {
        Ok(r) => Ok(r.ok()),
        Err(p) => bad("panic", p),
    }
}
fn space_of(p: &NetPktBox) -> Vec<Vec<u8>> {
    p.get_rooted_spacename().iter().map(|v| v.to_vec()).collect()
}
/// what all messages have in common
fn form(p: &NetPktBox, g: GroupID) -> bool {
    p.domain() == Some(&hs()) && p.group() == Some(&g) && space_of(p) == vec![b"sentinal".to_vec()]
}
fn fresh(p: &NetPktBox, now: u64) -> bool {
    let s = p.get_create_stamp().get();
    s.abs_diff(now) < LIMIT
}
impl State {
    fn key(&self) -> String {
        let known: BTreeSet<&str> = self.known.iter().map(|m| &m.name[..]).collect();
        let c: Vec<_> = self.clients.iter().map(|c| (c.p0.is_some(), c.done.as_ref().map(|d| (d.0, &d.1)))).collect();
        let s: Vec<_> = self.servers.iter().map(|s| (s.p0.as_ref().map(|m| &m.name), s.done)).collect();
        format!("{known:?} {c:?} {s:?} {} {}", self.others, self.waits)
    }
    fn learn(&mut self, name: String, p: NetPktBox) -> Msg {
        let m = Msg { name, pkt: Arc::new(p) };
        self.known.push(m.clone());
        m
    }
    fn step(&self, what: String) -> State {
        let mut s = self.clone();
        s.clock += 1;
        vclock::set(s.clock);
        s.path.push(what);
        s
    }
    /// every state one move further
    fn next(&self, cx: &Cx) -> Result<Vec<State>, Bad> {
        let mut out = vec![];
        vclock::set(self.clock);
        for i in 0..self.clients.len() {
            let c = &self.clients[i];
            if c.p0.is_none() {
                let mut s = self.step(format!("client {i} ({}) starts", NAMES[c.me]));
                let p = sees(|| Ok(phase0_client_init(key(c.me)).0))?.unwrap();
                if !form(&p, pk(c.me)) || !p.get_links().is_empty() || p.pubkey() != Some(&pk(c.me)) || p.get_create_stamp().get() != s.clock {
                    return bad("first message", format!("{:?}", p.as_netbox().hash()));
                }
                s.clients[i].p0 = Some(s.learn(format!("c{i}"), p));
                out.push(s);
            } else if c.done.is_none() {
                out.extend(self.client_gets(cx, i)?)
            }
        }
        for i in 0..self.servers.len() {
            match &self.servers[i] {
                Server { p0: None, .. } => out.extend(self.server_gets_first(cx, i)?),
                Server { done: None, .. } => out.extend(self.server_gets_last(cx, i)?),
                _ => (),
            }
        }
        if self.others > 0 {
            // honest keys sign any packets, but no handshake messages
            for me in 0..2 {
                for m in self.known.iter().filter(|m| !m.name.starts_with('o')) {
                    for g in [group(0, 1), group(me, E), pk(me)] {
                        for (w, domain, space) in [("app", ab(b"app"), b"sentinal" as &[u8]), ("space", hs(), b"other")] {
                            let mut s = self.step(format!("{} signs another packet ({w}) with a link to {}", NAMES[me], m.name));
                            s.others -= 1;
                            let p = build(&F { key: Some(me), group: g, domain, space, links: vec![link(&m.pkt, b"signed")], data: b"", stamp: s.clock });
                            s.learn(format!("o{w}{}{}({})", NAMES[me], who_group(&g), m.name), p);
                            out.push(s);
                        }
                    }
                }
            }
        }
        if self.waits > 0 {
            for d in [LIMIT - 20, 2 * LIMIT] {
                let mut s = self.step(format!("{d} pass"));
                s.clock += d;
                s.waits -= 1;
                // what is known is now old
                for m in &mut s.known {
                    if !fresh(&m.pkt, s.clock) && !m.name.ends_with('~') {
                        m.name.push('~')
                    }
                }
                out.push(s)
            }
        }
        Ok(out)
    }
    /// all that can be delivered: what is known, and what the attacker makes up
    fn offers(&self, f: &F) -> Vec<Msg> {
        let other = self.known.first().map_or(Link { tag: ab(b"x"), ptr: PRIVATE }, |m| link(&m.pkt, b"auth"));
        let mut v = self.known.clone();
        // made-up messages that are accepted are alike in all that follows
        v.extend(variants(f, other, self.clock + 1).into_iter().map(|(n, p)| Msg { name: format!("e{n}"), pkt: Arc::new(p) }));
        v
    }
    fn server_gets_first(&self, cx: &Cx, i: usize) -> Result<Vec<State>, Bad> {
        let me = self.servers[i].me;
        let mut out = vec![];
        let f = F { key: Some(E), group: pk(E), domain: hs(), space: b"sentinal", links: vec![], data: b"", stamp: self.clock };
        for m in self.offers(&f) {
            let mut s = self.step(format!("server {i} ({}) gets {} first", NAMES[me], m.name));
            cx.transitions(1);
            let r = sees(|| phase1_server_signs(&Phase0(hop(&m.pkt)), key(me), None).map(|p| p.0))?;
            let from = m.pkt.pubkey().copied();
            let right = from.is_some_and(|k| form(&m.pkt, k) && k != pk(me)) && fresh(&m.pkt, s.clock);
            let exact = right && m.pkt.get_links().is_empty();
            match r {
                None if exact => return bad("first message refused", s.path.join("; ")),
                None => (),
                Some(_) if !right => return bad("wrong first message accepted", s.path.join("; ")),
                Some(p) => {
                    let f = who(&from.unwrap());
                    if !form(&p, group(f, me)) || p.pubkey() != Some(&pk(me)) || !p.get_links().iter().any(|l| l.ptr == m.pkt.hash()) {
                        return bad("answer", s.path.join("; "));
                    }
                    s.servers[i].p0 = Some(Msg { name: m.short().into(), ..m.clone() });
                    s.servers[i].p1 = Some(s.learn(format!("s{i}({})", m.short()), p));
                    out.push(s)
                }
            }
        }
        Ok(out)
    }
    fn client_gets(&self, cx: &Cx, i: usize) -> Result<Vec<State>, Bad> {
        let c = &self.clients[i];
        let p0 = c.p0.as_ref().unwrap();
        let mut out = vec![];
        let f = F { key: Some(E), group: group(E, c.me), domain: hs(), space: b"sentinal", links: vec![link(&p0.pkt, b"auth")], data: b"", stamp: self.clock };
        for m in self.offers(&f) {
            let mut s = self.step(format!("client {i} ({}) gets {}", NAMES[c.me], m.name));
            cx.transitions(1);
            let mut peer = None;
            let r = sees(|| {
                phase2_client_signs(&Phase0(p0.pkt.as_netbox()), &Phase1(hop(&m.pkt)), key(c.me), None).map(|(p, k)| {
                    peer = Some(k);
                    p.0
                })
            })?;
            let from = m.pkt.pubkey().copied();
            let right = from.is_some_and(|k| form(&m.pkt, group(who(&k), c.me))) && fresh(&m.pkt, s.clock) && m.pkt.get_links().iter().any(|l| l.ptr == p0.pkt.hash());
            match r {
                None if right => return bad("answer refused", s.path.join("; ")),
                None => (),
                Some(_) if !right => return bad("wrong answer accepted", s.path.join("; ")),
                Some(p) => {
                    let k = who(&from.unwrap());
                    if peer.map(|k| who(&k)) != Some(k) {
                        return bad("another peer", s.path.join("; "));
                    }
                    if k != E && !self.servers.iter().any(|v| v.me == k && v.p1.as_ref().is_some_and(|q| q.pkt.hash() == m.pkt.hash()) && v.p0.as_ref().unwrap().pkt.hash() == p0.pkt.hash()) {
                        return bad("client deceived", s.path.join("; "));
                    }
                    if !form(&p, group(k, c.me)) || p.pubkey() != Some(&pk(c.me)) || !p.get_links().iter().any(|l| l.ptr == m.pkt.hash()) {
                        return bad("last message", s.path.join("; "));
                    }
                    let q = s.learn(format!("c{i}({})", m.short()), p);
                    s.clients[i].done = Some((k, m.short().into(), q));
                    out.push(s)
                }
            }
        }
        Ok(out)
    }
    fn server_gets_last(&self, cx: &Cx, i: usize) -> Result<Vec<State>, Bad> {
        let v = &self.servers[i];
        let (p0, p1) = (v.p0.as_ref().unwrap(), v.p1.as_ref().unwrap());
        let from = who(p0.pkt.pubkey().unwrap());
        let mut out = vec![];
        let f = F { key: Some(E), group: group(E, v.me), domain: hs(), space: b"sentinal", links: vec![link(&p1.pkt, b"signed")], data: b"", stamp: self.clock };
        let mut offers = self.offers(&f);
        offers.push(Msg { name: "e as if from the first".into(), pkt: Arc::new(build(&F { group: group(from, v.me), ..f.clone() })) });
        for m in offers {
            let mut s = self.step(format!("server {i} ({}) gets {} last", NAMES[v.me], m.name));
            cx.transitions(1);
            let mut peer = None;
            sees(|| {
                peer = Some(phase3_server_verify(&Phase0(hop(&p0.pkt)), &Phase1(p1.pkt.as_netbox()), &Phase2(hop(&m.pkt)), key(v.me))?);
                Ok(m.pkt.as_netbox())
            })?;
            let right = m.pkt.pubkey() == p0.pkt.pubkey() && form(&m.pkt, group(from, v.me)) && m.pkt.get_links().iter().any(|l| l.ptr == p1.pkt.hash());
            match peer {
                None if right => return bad("last message refused", s.path.join("; ")),
                None => (),
                Some(k) if who(&k) != from => return bad("another peer", s.path.join("; ")),
                Some(_) => {
                    if from != E && !self.clients.iter().any(|c| c.me == from && c.done.as_ref().is_some_and(|d| d.0 == v.me && d.2.pkt.hash() == m.pkt.hash())) {
                        return bad("server deceived", s.path.join("; "));
                    }
                    if !right {
                        return bad("wrong last message accepted", s.path.join("; "));
                    }
                    s.servers[i].done = Some(from);
                    out.push(s)
                }
            }
        }
        Ok(out)
    }
}
fn who_group(g: &GroupID) -> &'static str {
    match () {
        _ if *g == group(0, 1) => "AB",
        _ if *g == group(0, E) => "AE",
        _ if *g == group(1, E) => "BE",
        _ => "own",
    }
}
fn explore(cx: &Cx, clients: &[usize], servers: &[usize], others: u32, waits: u32) {
    let first = State {
        clock: START,
        known: vec![],
        clients: clients.iter().map(|me| Client { me: *me, ..Default::default() }).collect(),
        servers: servers.iter().map(|me| Server { me: *me, ..Default::default() }).collect(),
        others,
        waits,
        path: vec![],
    };
    let mut seen: HashSet<String> = HashSet::from([first.key()]);
    let mut todo = vec![first];
    let mut done = BTreeSet::new();
    while !todo.is_empty() {
        let found = Mutex::new(vec![]);
        cx.par(todo.len() as u64, |i| {
            let s = &todo[i as usize];
            let _clock = vclock::freeze(s.clock);
            cx.states(1);
            cx.case_k(b"", &|| format!("clients {clients:?}, servers {servers:?}: {}", s.path.join("; ")), || {
                let next: Vec<(String, State)> = s.next(cx)?.into_iter().map(|n| (n.key(), n)).collect();
                let any = !next.is_empty();
                found.lock().unwrap().extend(next);
                Ok(any)
            });
        });
        if cx.stopped() {
            return;
        }
        let mut found = found.into_inner().unwrap();
        found.sort_by(|a, b| (&a.0, &a.1.path).cmp(&(&b.0, &b.1.path)));
        todo = vec![];
        for (k, n) in found {
            for v in &n.servers {
                if let Some(k) = v.done {
                    done.insert(format!("{} accepted {}", NAMES[v.me], NAMES[k]));
                }
            }
            if seen.insert(k) {
                todo.push(n)
            }
        }
    }
    // println!("clients {clients:?}, servers {servers:?}, {others} other packets, {waits} waits: {} states", seen.len());
    // an attacker with a key of its own gets through to any server, and honest ones to each other
    for me in servers {
        let want: Vec<usize> = clients.iter().copied().filter(|c| c != me).chain([E]).collect();
        for k in want {
            let t = format!("{} accepted {}", NAMES[*me], NAMES[k]);
            if !done.contains(&t) {
                cx.fail(&format!("clients {clients:?}, servers {servers:?}"), Bad { key: "never completes".into(), msg: format!("no way in which {t}") });
            }
        }
    }
}
fn main() {
    kit::main("H01", "model_checking", |cx| {
        cx.rule("every state that honest clients and servers with the keys A and B (each key both a client and a server) can reach while an attacker with a key of its own delivers any packet seen so far, or one it makes up, in any order: a server accepts a key only for the last message of a client of that key that accepted this server's answer; a client accepts a key only for the answer of a server of that key to its own first message; messages of another form, too old or too new are refused; nothing panics; every pair can complete");
        cx.assume("signatures and hashes can not be forged: the attacker signs with its own key only; the receiving channel counts hops, as the reader does");
        let mut sets: Vec<(&[usize], &[usize], u32, u32)> = vec![
            (&[0], &[1], 0, 0),
            (&[0], &[1], 1, 0),
            (&[0], &[1], 0, 1),
            (&[0], &[1], 1, 1),
            (&[], &[0, 1], 0, 0),
            (&[0, 1], &[], 0, 0),
            (&[0, 0], &[1], 0, 0),
            (&[0], &[1, 1], 0, 0),
            (&[0], &[0, 1], 0, 0),
            (&[0, 1], &[0, 1], 0, 0),
            (&[0], &[0, 1], 0, 1),
            (&[0], &[0, 1], 1, 0),
        ];
        if !cx.quick() {
            let more: Vec<(&[usize], &[usize], u32, u32)> = vec![(&[0, 0], &[1], 1, 0), (&[0], &[1, 1], 1, 0), (&[0, 1], &[0, 1], 0, 1), (&[0, 0, 1], &[0, 1], 0, 0), (&[0, 1], &[0, 1, 1], 0, 0), (&[0], &[1], 2, 0), (&[0, 1], &[0, 1], 1, 0)];
            sets.extend(more);
        }
        cx.section("all states", || {
            for (c, s, o, w) in &sets {
                explore(cx, c, s, *o, *w)
            }
        });
    })
}
