//! Local names: a name is the key it was given last, and a key is the name that was given it last.
use c_core::Scratch;
use kit::*;
use linkspace::prelude as lk;
use linkspace_argon2_identity as identity;
use linkspace_common::eval::lk_scope;
use linkspace_common::protocols::lns::{self, name::Name};
use linkspace_cryptography::SigningKey;
use std::sync::OnceLock;

const START: u64 = 1_000_000;

/// keys, sealed with a password each
fn keys() -> &'static [([u8; 32], String, &'static [u8])] {
    static K: OnceLock<Vec<([u8; 32], String, &'static [u8])>> = OnceLock::new();
    K.get_or_init(|| {
        [(7u8, b"" as &[u8]), (8, b"p"), (9, b""), (10, b"q")]
            .into_iter()
            .map(|(n, p)| {
                let k = SigningKey::try_from([n; 32]).unwrap();
                (k.pubkey_bytes(), identity::encrypt(&k, p, Some(identity::INSECURE_COST)), p)
            })
            .collect()
    })
}
/// by components, with what it is called in an expression
const NAMES: [(&[&[u8]], &str); 7] = [
    (&[b"a", b"local"], "a:local"),
    (&[b"b", b"local"], "b:local"),
    (&[b"local"], "local"),
    (&[b"\xff:/", b"local"], "\\f\\:\\/:local"),
    (&[b"a", b"a", b"local"], "a:a:local"),
    (&[b"local", b"a"], "local:a"),
    (&[b"Local"], "Local"),
];
/// those that can be given
const CAN: usize = 4;

#[derive(Clone, Copy, PartialEq)]
enum Op {
    /// name, key, over what it was
    Give(usize, usize, bool),
    /// name, password, made if there is none
    Key(usize, &'static [u8], bool),
    /// see what is saved
    Look,
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Give(n, k, o) => write!(f, "{}={k}{}", NAMES[*n].1, if *o { "!" } else { "" }),
            Op::Look => write!(f, "look"),
            Op::Key(n, p, c) => write!(f, "open {} {}{}", NAMES[*n].1, show(p), if *c { " or make" } else { "" }),
        }
    }
}
type Key = [u8; 32];
#[derive(Default, Clone)]
struct Model {
    /// sealed by, password
    made: Vec<(Key, Vec<u8>)>,
    names: [Option<Key>; NAMES.len()],
    /// names by when they were given, the last one first
    order: Vec<usize>,
}
impl Model {
    fn give(&mut self, n: usize, k: Key) {
        self.names[n] = Some(k);
        self.order.retain(|o| *o != n);
        self.order.insert(0, n);
    }
    fn name_of(&self, k: &Key) -> Option<usize> {
        self.order.iter().copied().find(|n| self.names[*n] == Some(*k))
    }
    fn password(&self, k: &Key) -> Vec<u8> {
        let k0 = keys().iter().find(|x| x.0 == *k).map(|x| x.2.to_vec());
        k0.or_else(|| self.made.iter().find(|x| x.0 == *k).map(|x| x.1.clone())).unwrap()
    }
}
struct Env {
    rtm: lk::Linkspace,
    _dir: std::rc::Rc<Scratch>,
}
fn b64(k: &Key) -> String {
    lk::B64(*k).to_string()
}
impl Env {
    fn rt(&self) -> &linkspace_common::runtime::Linkspace {
        self.rtm.as_impl()
    }
    fn eval(&self, t: &str) -> Result<Option<Vec<u8>>, String> {
        let rt = || Ok(self.rt().clone());
        no_panic(|| {
            let e = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| e.to_string()).unwrap();
            abe::eval::eval(&lk_scope(&rt, false), &e).map(|v| v.concat()).ok()
        })
    }
    fn encode(&self, k: &Key, opts: &str) -> Result<Option<String>, String> {
        let rt = || Ok(self.rt().clone());
        no_panic(|| abe::eval::encode(&lk_scope(&rt, false), k, opts, true).ok())
    }
    fn check(&self, m: &Model, latest: &Model) -> Result<(), Bad> {
        macro_rules! same {
            ($key:expr, $what:expr, $got:expr, $want:expr) => {{
                let (got, want) = ($got, $want);
                if got != want { return Err(Bad { key: $key.into(), msg: format!("{}: {got:?} instead of {want:?}", $what) }) }
            }};
        }
        for (n, (comps, text)) in NAMES.iter().enumerate() {
            let name = Name::from(comps).unwrap();
            let want = m.names[n];
            same!("pubkey", text, no_panic(|| lns::lookup_pubkey(self.rt(), &name).map(|k| k.map(|k| k.0)).map_err(|e| e.to_string())), Ok(Ok(want)));
            let enc = no_panic(|| lns::lookup_enckey(self.rt(), &name).ok().flatten());
            match (enc, latest.names[n]) {
                (Ok(None), None) => (),
                (Ok(Some((k, e))), Some(w)) if k.0 == w => {
                    let open = identity::decrypt(&e, &latest.password(&w)).ok().map(|k| k.pubkey_bytes());
                    same!("sealed", text, open, Some(w))
                }
                (e, w) => return Err(Bad { key: "sealed".into(), msg: format!("the sealed key of {text}: {e:?} instead of {w:?}") }),
            }
            for f in ["@", "private@"] {
                same!("forward", format!("{f} {text}"), self.eval(&format!("[{f}:{text}]")), Ok(want.map(|k| k.to_vec())));
            }
            for f in ["#", "private#"] {
                same!("group", format!("{f} {text}"), self.eval(&format!("[{f}:{text}]")), Ok(None));
            }
            for f in ["lns", "private-lns"] {
                same!("claim", format!("{f} {text}"), self.eval(&format!("[/{f}:{text}/[hash]]")).map(|v| v.is_some()), Ok(want.is_some()));
            }
        }
        let all = keys().iter().map(|k| k.0).chain(m.made.iter().map(|k| k.0)).chain([[0; 32], [255; 32]]);
        for k in all {
            let want = m.name_of(&k).map(|n| NAMES[n].1);
            for f in ["?@", "?private@"] {
                same!("reverse", &b64(&k), self.eval(&format!("[{f}:{}]", b64(&k))), Ok(want.map(|w| w.as_bytes().to_vec())));
            }
            same!("reverse group", &b64(&k), self.eval(&format!("[?#:{}]", b64(&k))), Ok(None));
            if k != [0; 32] && k != [255; 32] {
                let want = want.map(|w| format!("[@:{w}]")).unwrap_or(b64(&k));
                same!("printed", &b64(&k), self.encode(&k, "@/private@/b").map(|v| v.map(|v| v.replace("[b:", "").replace("private", ""))), Ok(Some(want.clone())).map(|v: Option<String>| v.map(|v| if v.starts_with('[') { v } else { format!("{v}]") })));
            }
        }
        Ok(())
    }
    /// without its checks
    fn apply(&self, m: &mut Model, o: Op) -> Result<(), Bad> {
        match o {
            Op::Give(n, k, over) => {
                let (key, sealed, _) = &keys()[k];
                let got = no_panic(|| lns::setup_special_keyclaim(self.rt(), Name::from(NAMES[n].0).unwrap(), sealed, over).map(|k| k.0).map_err(|_| ()));
                let can = n < CAN && (m.names[n].is_none() || over);
                if can {
                    m.give(n, *key)
                }
                let want = Ok(if can { Ok(*key) } else { Err(()) });
                ensure!(got == want, "giving: {got:?} instead of {want:?}");
            }
            Op::Key(n, p, create) => {
                let got = no_panic(|| linkspace::key::lk_key(&self.rtm, Some(p), Some(NAMES[n].1), create).map_err(|_| ()).map(|k| k.pubkey_bytes()))?;
                match m.names[n] {
                    Some(k) => {
                        let want = (m.password(&k) == p).then_some(k).ok_or(());
                        ensure!(got == want, "opening: {got:?} instead of {want:?}")
                    }
                    None if create && n < CAN => {
                        let Ok(k) = got else { return bad("make", "no key is made") };
                        ensure!(m.made.iter().all(|m| m.0 != k), "a key is made twice");
                        m.made.push((k, p.to_vec()));
                        m.give(n, k)
                    }
                    None => ensure!(got.is_err(), "there is no key and it is opened"),
                }
            }
            Op::Look => drop(self.rt().process()),
        }
        Ok(())
    }
}
/// who does what; each looks after all it does, or only when told to
fn case(ops: &[(usize, Op)], always: bool) -> CaseResult {
    let _c = vclock::freeze(START);
    let dir = std::rc::Rc::new(Scratch::new());
    let env = dir.open().unwrap();
    let new = |_| Env { rtm: linkspace_common::runtime::Linkspace::new_opt_rt(env.clone(), Default::default()).into(), _dir: dir.clone() };
    let who: Vec<Env> = (0..2).map(new).collect();
    let mut seen = [Model::default(), Model::default()];
    let mut m = Model::default();
    let at = |i: usize, b: Bad| Bad { msg: format!("operation {i}: {}", b.msg), ..b };
    for (i, (w, o)) in ops.iter().enumerate() {
        vclock::set(START + 1000 * (i as u64 + 1));
        who[*w].apply(&mut m, *o).map_err(|b| at(i, b))?;
        if always || *o == Op::Look {
            vclock::set(START + 1000 * (i as u64 + 1) + 500);
            who[*w].rt().process();
            seen[*w] = m.clone();
        }
    }
    // shorter histories are cases of their own
    vclock::set(START + 1000 * (ops.len() as u64 + 1));
    let (w, _) = ops.last().unwrap();
    who[*w].check(&seen[*w], &m).map_err(|b| at(ops.len(), b))?;
    Ok(!m.order.is_empty())
}
/// what can be a name, how it is written, and that looking for it is no harm
fn a_name(e: &Env, comps: &[&[u8]]) -> CaseResult {
    let size: usize = comps.iter().map(|c| c.len() + 1).sum();
    let fine = !comps.is_empty() && comps.len() <= 7 && size <= 240 && comps.iter().all(|c| !c.is_empty() && c.len() <= 200);
    // sizes between are looked at, not judged
    let unsure = comps.iter().any(|c| c.len() > 200) || size > 200;
    let name = no_panic(|| Name::from(comps))?;
    let Ok(name) = name else {
        ensure!(!fine || unsure, "refused: {name:?}");
        return Ok(false);
    };
    ensure!(fine || unsure, "taken");
    let text = no_panic(|| name.to_string())?;
    let back = no_panic(|| {
        let e = abe::parse_abe_strict_b(text.as_bytes()).map_err(|e| e.to_string())?;
        let v = abe::eval::eval(&linkspace_core::eval::core_scope(), &e).map_err(|e| e.to_string())?;
        let l: Vec<Vec<u8>> = v.clone().iter_bytes().map(|v| v.to_vec()).collect();
        Name::try_from(v).map(|n| (n, l)).map_err(|e| e.to_string())
    })?;
    ensure!(back == Ok((name.clone(), comps.iter().map(|c| c.to_vec()).collect())), "it is written {text} which reads as {back:?}");
    ensure!(Name::from_space(name.space()) == Ok(name.clone()), "from its space it is {:?}", Name::from_space(name.space()));
    let got = no_panic(|| lns::lookup_pubkey(e.rt(), &name).map_err(|_| ()).map(|v| v.is_some()))?;
    ensure!(got != Ok(true), "there is a key by this name");
    let k = &keys()[0];
    if comps.last() == Some(&&b"local"[..]) && comps.len() <= 2 && !unsure {
        let got = no_panic(|| lns::setup_special_keyclaim(e.rt(), name.clone(), &k.1, true).map_err(|e| e.to_string()))?;
        ensure!(got.is_ok(), "it can not be given: {got:?}");
        vclock::set(START + 2000);
        e.rt().process();
        let got = no_panic(|| lns::lookup_pubkey(e.rt(), &name).map_err(|e| e.to_string()))?;
        ensure!(got == Ok(Some(k.0.into())), "its key is {got:?}");
        return Ok(true);
    }
    Ok(true)
}
fn main() {
    kit::main("N01", "model_checking", |cx| {
        cx.rule("what a name is: the key it was given last, by every way of asking; which name a key has: of the names that are this key now, the one that was given last; a name that is taken is given again only if asked to, and names that are not local or too deep not at all; opening a name gives its key if the password fits, and makes one if there is none and it is asked to; giving and opening go by what is saved, the other ways of asking by what was saved at the last look");
        cx.assume("time passes between two operations; no two processes give names at the same moment");
        keys();
        let go = |ops: &[(usize, Op)], always: bool| {
            cx.states(ops.len() as u64 + 1);
            cx.transitions(ops.len() as u64);
            cx.traces(1);
            cx.case_k(b"", &|| if always { ops.iter().map(|o| format!("{:?} ", o.1)).collect() } else { format!("{ops:?}") }, || case(ops, always))
        };
        let rows = |what: &str, ops: &[(usize, Op)], n: u32, always: bool| {
            cx.bound(what, format!("{} operations, {n} in a row", ops.len()));
            for n in 1..=n {
                cx.par((ops.len() as u64).pow(n), |i| go(&nth_digits(ops.len(), n as usize, i).into_iter().map(|d| ops[d]).collect::<Vec<_>>(), always))
            }
        };
        let mut all = vec![];
        for n in 0..NAMES.len() {
            for k in 0..keys().len() {
                all.extend([Op::Give(n, k, false), Op::Give(n, k, true)])
            }
            for p in [b"" as &[u8], b"p"] {
                all.push(Op::Key(n, p, false))
            }
            all.push(Op::Key(n, b"", true));
        }
        let by = |who: usize, l: &[Op]| l.iter().map(|o| (who, *o)).collect::<Vec<_>>();
        cx.section("all names", || rows("all names", &by(0, &all), 2, true));
        let mut few = vec![];
        for n in 0..2 {
            for k in 0..3 {
                few.push(Op::Give(n, k, true))
            }
        }
        few.extend([Op::Give(0, 0, false), Op::Key(0, b"", true), Op::Key(1, b"", true)]);
        cx.section("names", || {
            let parts: [&[u8]; 10] = [b"a", b"", b"local", b"\xff:/[\\]\0", b"pub", b"Local", &[b'x'; 50], &[b'y'; 100], &[b'z'; 199], &[b'w'; 230]];
            let mut l: Vec<Vec<&[u8]>> = vec![];
            for n in 1..=cx.pick(3, 4) {
                l.extend((0..10u64.pow(n)).map(|i| nth_digits(10, n as usize, i).into_iter().map(|d| parts[d]).collect()));
            }
            for n in 4..=9 {
                l.extend((0..3u64.pow(n)).map(|i| nth_digits(3, n as usize, i).into_iter().map(|d| [parts[0], parts[2], parts[3]][d]).collect()));
            }
            cx.bound("names", l.len());
            cx.par(l.len() as u64, |i| {
                let c = &l[i as usize];
                cx.states(1);
                cx.case_k(b"", &|| c.iter().map(|c| show(c)).collect::<Vec<_>>().join(" "), || {
                    let _c = vclock::freeze(START);
                    let dir = std::rc::Rc::new(Scratch::new());
                    let rtm = linkspace_common::runtime::Linkspace::new_opt_rt(dir.open().unwrap(), Default::default()).into();
                    vclock::set(START + 1000);
                    a_name(&Env { rtm, _dir: dir }, c)
                })
            })
        });
        cx.section("histories", || rows("histories on two names", &by(0, &few), cx.pick(4, 5), true));
        let one = [Op::Give(0, 0, true), Op::Give(0, 2, true), Op::Give(0, 0, false), Op::Give(1, 0, true), Op::Key(0, b"", true), Op::Look];
        cx.section("two that look at different times", || rows("histories of two that look at different times", &[by(0, &one), by(1, &one)].concat(), cx.pick(3, 5), false));
    })
}
