//! Expressions that read the database: the packet that was named, and nothing that is private.
use abe::eval::{eval, ABList};
use abe::ToABE;
use c_core::*;
use kit::*;
use linkspace_common::eval::lk_scope;
use linkspace_common::runtime::Linkspace;
use std::sync::OnceLock;

const START: u64 = 1_000_000;

fn packets() -> &'static [Pkt] {
    static P: OnceLock<Vec<Pkt>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![make(data_spec(b"plain"), None), make(data_spec(b""), None)];
        let mut l = |g: u8, d: &str, s: &str, t: u64, data: &[u8], key: Option<usize>, links: usize| {
            let mut x = link_spec(g, d, s, t, data);
            x.links = (0..links).map(|i| ([b'a' + i as u8; 16], [i as u8; 32])).collect();
            if g == 1 {
                x.group = PUBLIC.0;
            }
            v.push(make(x, key))
        };
        // the same place at different times, in different order of hashes
        for t in [5, 9, 7] {
            l(1, "d", "/a", t, b"at a", None, 0);
            l(1, "d", "/a", t, b"by 0", Some(0), 1);
        }
        l(1, "d", "/a", 9, b"at a again", None, 0);
        l(1, "d", "/a", 9, b"by 2", Some(2), 3);
        // deeper and beside
        l(1, "d", "/a/b", 20, b"below a", None, 2);
        l(1, "d", "/a/b", 21, b"below a by 0", Some(0), 0);
        l(1, "d", "/c/d", 22, b"only below c", None, 0);
        l(1, "d", "", 3, b"at the root", None, 0);
        l(1, "e", "/a", 30, b"in e", None, 0);
        l(1, "f", "/x", 31, b"only below the root of f", Some(2), 0);
        l(2, "d", "/a", 40, b"in another group", None, 1);
        l(2, "d", "/a", 41, b"in another group by 2", Some(2), 0);
        l(0, "d", "/a", 50, b"private", None, 1);
        l(0, "d", "/a", 51, b"private by 0", Some(0), 0);
        v
    })
}
fn hx(b: &[u8]) -> String {
    b.iter().map(|b| format!("\\x{b:02x}")).collect()
}
fn parse(t: &str) -> Vec<abe::ABE> {
    abe::parse_abe_strict_b(t.as_bytes()).unwrap()
}
type Got = Result<Vec<u8>, String>;
fn flatten(r: Result<ABList, abe::eval::EvalError>) -> Got {
    r.map(|v| v.concat()).map_err(|e| format!("{e:?}"))
}
struct Env {
    rt: Linkspace,
    dir: Scratch,
    _clock: vclock::Frozen,
    /// saved and seen, only saved
    saved: Vec<bool>,
}
impl Env {
    /// save those, look, then save the others of these
    fn new(seen: &dyn Fn(usize) -> bool, later: &dyn Fn(usize) -> bool) -> Env {
        let _clock = vclock::freeze(START);
        let dir = Scratch::new();
        let env = dir.open().unwrap();
        let rt = Linkspace::new_opt_rt(env.clone(), Default::default());
        vclock::set(START + 1000);
        let pick = |f: &dyn Fn(usize) -> bool| (0..packets().len()).filter(|i| f(*i)).collect::<Vec<_>>();
        for i in pick(seen) {
            env.save_dyn_one(&packets()[i].net).unwrap();
        }
        rt.process();
        vclock::set(START + 2000);
        for i in pick(later) {
            env.save_dyn_one(&packets()[i].net).unwrap();
        }
        Env { rt, dir, _clock, saved: (0..packets().len()).map(seen).collect() }
    }
    fn eval(&self, t: &str, outer: Option<&Pkt>) -> Result<Got, String> {
        let rt = || Ok(self.rt.clone());
        no_panic(|| {
            let scope = (outer.map(|p| pkt_scope(&p.net)), lk_scope(&rt, false));
            flatten(eval(&scope, &parse(t)))
        })
    }
    /// as if it were evaluated with this packet
    fn with(&self, t: &str, p: &Pkt) -> Result<Got, String> {
        let rt = || Ok(self.rt.clone());
        let reader = self.rt.get_reader();
        let stored = reader.read(&p.hash).ok().flatten();
        no_panic(|| match &stored {
            Some(q) => flatten(eval(&(pkt_scope(q), lk_scope(&rt, false)), &parse(t))),
            None => flatten(eval(&(pkt_scope(&p.net), lk_scope(&rt, false)), &parse(t))),
        })
    }
    fn is(&self, t: &str, outer: Option<&Pkt>, want: Option<&[u8]>) -> CaseResult {
        let got = self.eval(t, outer)?;
        match (&got, want) {
            (Ok(g), Some(w)) => ensure!(g == w, "{t} is {} instead of {}", show(g), show(w)),
            (Err(e), Some(w)) => ensure!(false, "{t} fails with {e}, it should be {}", show(w)),
            (Ok(g), None) => ensure!(false, "{t} is {} and should be refused", show(g)),
            (Err(_), None) => {}
        }
        Ok(want.is_some())
    }
}
/// what can be asked about a packet, by function and arguments
const ASK: &[&str] = &[
    "", "pkt", "hash", "hash:", "hash:bytes", "hash:str", "hash:abe", "hash:x", "hash:str:str", "group", "group:str", "domain", "domain:str", "domain:abe", "create", "create:str", "create:abe", "data", "data:str", "data:abe", "spacename", "spacename:str", "rspacename",
    "comp0", "comp1:str", "depth:str", "pubkey", "pubkey:abe", "type:str", "size:str", "links", "links:,", "links:,:1", "links:,:0:1", "link:a", "link:bb", "netbytes", "point", "netpkt", "pkt-quick", "pkt-quick:true:3", "html-quick", "recv", "recv_now", "recv:str", "recv_now:abe", "nosuch", "u8:3", "links_len:str", "signature",
    "data_size:abe", "ubits0:str", "stamp:str", "hop", "netflags:str",
];
/// what can be evaluated with it
const EXPR: &[&str] = &[
    "[hash]", "x[hash:str]y", "[hash/?b]", "[data]", "", "text", "[group:str][domain:str]", "[data][nosuch]", "[:a/cut:1]", "[pkt]", "a/[hash]", "[/links::[tag][ptr]]", "[create/?u]", "[links_len:str]", "[recv_now][recv]",
];
fn private(p: &Pkt) -> bool {
    p.spec.is_link() && p.spec.group == [0; 32]
}
fn by_hash(e: &Env, i: usize, may: bool) -> CaseResult {
    let p = &packets()[i];
    let there = e.saved[i] && (may || !private(p));
    let h = hx(&p.hash.0);
    for q in ASK {
        // as if called with the packet
        let direct = if q.is_empty() { "[pkt]".to_string() } else { format!("[{q}]") };
        let want = if there && *q != "u8:3" { e.with(&direct, p)?.ok() } else { None };
        let want = want.as_deref();
        let q1 = if q.is_empty() { String::new() } else { format!(":{q}") };
        e.is(&format!("[readhash:{h}{q1}]"), None, want)?;
        e.is(&format!("[:{h}/readhash{q1}]"), None, want)?;
        e.is(&format!("[b:{}/readhash{q1}]", p.hash.b64()), None, want)?;
        if let Some(f) = q.split(':').next().filter(|_| there && !q.contains(':')) {
            if let Some((_, raw)) = p.spec.fields().iter().find(|x| x.0 == f) {
                ensure!(want == Some(raw) || f == "spacename" || f == "rspacename" || want.is_none(), "{f} is {want:?}")
            }
        }
    }
    // not a hash
    for n in [0, 1, 31, 33, 64] {
        e.is(&format!("[readhash:{}]", hx(&p.hash.0.repeat(2)[..n])), None, None)?;
        e.is(&format!("[/readhash:{}:x:y]", hx(&p.hash.0.repeat(2)[..n])), None, None)?;
    }
    e.is("[readhash]", None, None)?;
    Ok(there)
}
fn by_expr(e: &Env, i: usize, may: bool) -> CaseResult {
    let p = &packets()[i];
    let there = e.saved[i];
    let shown = may || !private(p);
    let h = hx(&p.hash.0);
    let other = &packets()[(i + 3) % packets().len()];
    let outers = [None, Some(other), Some(p)];
    for (n, x) in EXPR.iter().enumerate() {
        let inner = if there { Some(e.with(x, p)?.ok()) } else { None };
        let alt = EXPR[(n + 1) % EXPR.len()];
        for o in outers {
            // the alternative is evaluated where the expression stands
            let alt_val = e.eval(alt, o)?.ok();
            let found = inner.clone().map(|v| v.filter(|_| shown));
            e.is(&format!("[/readhash:{h}:{x}]"), o, found.clone().flatten().as_deref())?;
            let want = found.clone().unwrap_or(alt_val);
            e.is(&format!("[/readhash:{h}:{x}:{alt}]"), o, want.as_deref())?;
            if let Some(f) = found.flatten() {
                // inside of another, and through the hash of a packet
                e.is(&format!("<[/readhash:{h}:([/readhash:{h}:{x}])]>"), o, Some(&[b"<(", &f[..], b")>"].concat()))?;
                e.is(&format!("[/readhash:[:{h}]:{x}]"), o, Some(&f))?;
            } else if there && !shown {
                e.is(&format!("[/readhash:{h}:x]"), o, None)?;
            }
        }
        if !there {
            e.is(&format!("[/readhash:{h}:{x}:a:b]"), None, None)?;
        }
    }
    for bad in ["[/readhash]", "[/readhash:]", "[/readhash:x]", &format!("[/readhash:{h}]"), &format!("[/readhash{h}:x]")] {
        e.is(bad, None, None)?;
    }
    Ok(there)
}
/// domain, group, space, key (or that and nothing behind it), what is asked
fn by_place(e: &Env, d: &str, g: &[u8; 32], s: &str, k: Option<[u8; 32]>, depth: usize, may: bool) -> CaseResult {
    let space = spc(s);
    let dm = dom(d);
    let (g, space) = (if depth < 2 { PUBLIC.0 } else { *g }, if depth < 3 { vec![] } else { space });
    let key = if depth < 4 { [0; 32] } else { k.unwrap_or([0; 32]) };
    let fit = |i: &usize| {
        let p = &packets()[*i].spec;
        e.saved[*i] && p.is_link() && p.domain == dm && p.group == g && p.space == space && p.key_bytes() == key
    };
    let best = (0..packets().len()).filter(fit).max_by_key(|i| (packets()[*i].spec.stamp, packets()[*i].hash.0)).filter(|_| may || g != [0; 32]);
    let gt = LkHash::from(g);
    let kt = PubKey::from(key);
    let sp = if s.is_empty() { String::new() } else { format!("[/{s}]") };
    let forms = [(hx(&g), hx(&key)), (gt.b64(), kt.b64()), (gt.to_abe_str(), kt.to_abe_str())];
    for (gt, kt) in forms {
        let args = [d.to_string(), gt, sp.clone(), kt][..depth].join(":");
        let best = best.map(|i| &packets()[i]);
        if depth < 4 {
            let want = best.map(|p| e.with("[pkt]", p)).transpose()?.and_then(|v| v.ok());
            e.is(&format!("[read:{args}]"), None, want.as_deref().filter(|_| depth > 1))?;
        } else {
            for q in ["", ":pkt", ":hash", ":hash:str", ":data", ":create:abe", ":comp0", ":link:b", ":links:,:1", ":nosuch", ":hash:x"] {
                let f = if q.is_empty() { "[pkt]".to_string() } else { format!("[{}]", &q[1..]) };
                let want = best.map(|p| e.with(&f, p)).transpose()?.and_then(|v| v.ok());
                e.is(&format!("[read:{args}{q}]"), None, want.as_deref())?;
            }
            let recv = e.eval(&format!("[read:{args}:recv_now]"), None)?.ok().map(|v| u64::from_be_bytes(v.try_into().unwrap()));
            ensure!(recv.is_some() == best.is_some() && recv.unwrap_or(START + 1000) / 1000 == START / 1000 + 1, "it was received at {recv:?}");
        }
    }
    Ok(best.is_some())
}
fn main() {
    kit::main("E02", "model_checking", |cx| {
        cx.rule("reading by hash or by place gives what the same function gives with that very packet; of several packets in one place it is the one created last; what was not saved before the last look is not there, and then the alternative is what stands behind; private packets are read only when that was allowed, and variables of the system only when that was enabled");
        cx.assume("of packets created at the same moment in one place the one with the larger hash counts");
        let n = packets().len();
        let all = move |_: usize| true;
        let none = |_: usize| false;
        let count = |n: u64| {
            cx.states(1);
            cx.transitions(n);
            cx.traces(1);
        };
        let places = |cx: &Cx, mk: &(dyn Fn() -> Env + Sync), may: bool, note: &str| {
            let doms = ["d", "e", "f", "", "dd"];
            let groups = [PUBLIC.0, [2; 32], [0; 32], [3; 32]];
            let spaces = ["", "/a", "/a/b", "/c", "/c/d", "/a/b/c", "/x", "/aa"];
            let ks: Vec<Option<[u8; 32]>> = vec![None, Some(keys()[0].pubkey_bytes()), Some(keys()[1].pubkey_bytes()), Some(keys()[2].pubkey_bytes())];
            cx.par((doms.len() * groups.len()) as u64, |i| {
                let e = mk();
                let (d, g) = (doms[i as usize % doms.len()], groups[i as usize / doms.len()]);
                for s in spaces {
                    for depth in 1..=4 {
                        for k in &ks[..if depth == 4 { ks.len() } else { 1 }] {
                            count(if depth == 4 { 33 } else { 3 });
                            cx.case_k(b"", &|| format!("{note}: read {d:?} group {} space {s:?} by {:?}, {depth} of them given", g[0], k.map(|k| k[0])), || by_place(&e, d, &g, s, *k, depth, may))
                        }
                    }
                }
            })
        };
        let hashes = |cx: &Cx, mk: &(dyn Fn() -> Env + Sync), may: bool, note: &str| {
            cx.par(n as u64, |i| {
                let e = mk();
                count(3 * ASK.len() as u64 + 10);
                let name = |w: &str| format!("{note}: {w} of {:?}", packets()[i as usize].spec.describe());
                cx.case_k(b"", &|| name("fields"), || by_hash(&e, i as usize, may));
                count(15 * EXPR.len() as u64);
                cx.case_k(b"", &|| name("expressions"), || by_expr(&e, i as usize, may));
            })
        };
        std::env::remove_var("LK_PRIVATE");
        let sets: Vec<(String, Box<dyn Fn(usize) -> bool + Sync>, Box<dyn Fn(usize) -> bool + Sync>)> = vec![
            ("all".into(), Box::new(all), Box::new(none)),
            ("nothing".into(), Box::new(none), Box::new(none)),
            ("all saved and not yet looked at".into(), Box::new(none), Box::new(all)),
            ("every second".into(), Box::new(|i| i % 2 == 0), Box::new(|i| i % 2 == 1)),
            ("every second the other way".into(), Box::new(|i| i % 2 == 1), Box::new(|i| i % 2 == 0)),
        ];
        for (name, seen, later) in &sets {
            cx.section(&format!("saved: {name}"), || {
                hashes(cx, &|| Env::new(seen, later), false, name);
                places(cx, &|| Env::new(seen, later), false, name);
            })
        }
        cx.section("all but one, and one alone", || {
            cx.par(2 * n as u64, |i| {
                let (one, but) = ((i / 2) as usize, i % 2 == 0);
                let e = Env::new(&|x| (x == one) != but, &|x| (x == one) == but);
                let p = &packets()[one].spec;
                for j in 0..n {
                    count(3 * ASK.len() as u64);
                    cx.case_k(b"", &|| format!("{} {one}: fields of {j}", if but { "all but" } else { "only" }), || by_hash(&e, j, false));
                }
                if p.is_link() {
                    for s in ["", "/a", "/a/b", "/c", "/c/d", "/x"] {
                        for k in [None, Some(p.key_bytes())] {
                            count(33);
                            let d = String::from_utf8(p.domain.iter().copied().filter(|b| *b != 0).collect()).unwrap();
                            cx.case_k(b"", &|| format!("{} {one}: read {d} {s}", if but { "all but" } else { "only" }), || by_place(&e, &d, &p.group, s, k, 4, false));
                        }
                    }
                }
            })
        });
        cx.section("what may be read", || {
            for (v, may) in [("true", true), ("false", false), ("", false), ("1", false)] {
                std::env::set_var("LK_PRIVATE", v);
                let name = format!("LK_PRIVATE={v}");
                hashes(cx, &|| Env::new(&all, &none), may, &name);
                places(cx, &|| Env::new(&all, &none), may, &name);
            }
            std::env::remove_var("LK_PRIVATE");
            std::env::set_var("LK_MC_A", "value");
            let e = Env::new(&all, &none);
            let rt = || Ok(e.rt.clone());
            let gone = || anyhow::bail!("there is none");
            for (on, db) in [(false, false), (false, true), (true, false), (true, true)] {
                let ev = |t: &str| {
                    no_panic(|| if db { flatten(eval(&lk_scope(&rt, on), &parse(t))) } else { flatten(eval(&lk_scope(&gone, on), &parse(t))) })
                };
                count(6);
                cx.case(format!("variables {on}, database {db}").as_bytes(), || {
                    for (t, want) in [("[env:LK_MC_A]", on.then_some(&b"value"[..])), ("[env:LK_MC_B]", None), ("[:LK_MC_A/env]", on.then_some(&b"value"[..])), ("[env]", None), ("[env:LK_MC_A:x]", None), ("a[u8:66]", Some(b"aB"))] {
                        let got = ev(t)?;
                        ensure!(got.as_deref().ok() == want, "{t} is {got:?}");
                    }
                    let h = hx(&packets()[0].hash.0);
                    for t in [format!("[readhash:{h}:data]"), format!("[/readhash:{h}:[data]]"), format!("[/readhash:{h}:[data]:plain]")] {
                        let got = ev(&t)?;
                        ensure!(got.as_deref().ok() == db.then_some(&b"plain"[..]), "{t} is {got:?}");
                    }
                    Ok(on || db)
                });
            }
            drop(e.dir);
        });
    })
}
