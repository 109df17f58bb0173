//! The command that makes, shows and changes the keys a user signs with, in every way to ask for one.
use c_core::*;
use kit::*;
use linkspace_argon2_identity as identity;
use linkspace_cryptography::SigningKey;
use std::collections::HashMap;
use std::io::Write;
use std::sync::OnceLock;
use x_cli::cli::opts::{IOOpts, InOpts, OutOpts};
use x_cli::protocols::lns::{self, name::Name};
use x_cmd::keys::{keygen, KeyGenOpts, KeyOpts};
use x_cmd::{CommonOpts, LinkspaceOpts};

const MARK: &str = "\u{1}";
const NAMES: [(&[&[u8]], &str, bool); 4] = [
    (&[b"a", b"local"], "a:local", true),
    (&[b"b", b"local"], "b:local", true),
    (&[b"a", b"a", b"local"], "a:a:local", false),
    (&[b"a", b"com"], "a:com", false),
];
/// sealed keys from elsewhere, with the password
fn outside() -> &'static [(String, Option<([u8; 32], &'static [u8])>)] {
    static K: OnceLock<Vec<(String, Option<([u8; 32], &'static [u8])>)>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<_> = [(7u8, b"p" as &[u8]), (8, b"q"), (9, b"")]
            .into_iter()
            .map(|(n, p)| {
                let k = SigningKey::try_from([n; 32]).unwrap();
                (identity::encrypt(&k, p, Some(identity::INSECURE_COST)), Some((k.pubkey_bytes(), p)))
            })
            .collect();
        let s = v[0].0.clone();
        v.push(("$argon2d".into(), None));
        v.push((s[..s.len() - 3].into(), None));
        v
    })
}
/// how a password is given: the text, and its bytes as an expression and as it stands
const PASS: [(&str, Option<&[u8]>, &[u8]); 6] = [
    ("p", Some(b"p"), b"p"),
    ("q", Some(b"q"), b"q"),
    ("", Some(b""), b""),
    ("\\x70", Some(b"p"), b"\\x70"),
    ("[u8:112]", Some(b"p"), b"[u8:112]"),
    ("[", None, b"["),
];
#[derive(Clone, Copy, PartialEq)]
struct Cmd {
    name: usize,
    pass: Option<usize>,
    plain: bool,
    show: bool,
    outside: Option<usize>,
    over: bool,
    unchecked: bool,
    new_only: bool,
    old_only: bool,
    alone: bool,
    no_key: bool,
    no_pub: bool,
    cost: usize,
    ask_new: bool,
    new: Option<usize>,
    /// the key is asked for to sign with
    open: bool,
}
const BASE: Cmd = Cmd { name: 0, pass: Some(0), plain: false, show: false, outside: None, over: false, unchecked: false, new_only: false, old_only: false, alone: false, no_key: false, no_pub: false, cost: 0, ask_new: false, new: None, open: false };
impl std::fmt::Debug for Cmd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", if self.open { "open" } else { "key" })?;
        if !self.alone {
            write!(f, " {}", NAMES[self.name].1)?
        }
        let mut w = |b: bool, s: &str| if b { write!(f, " {s}") } else { Ok(()) };
        w(self.pass.is_some(), &format!("pass {:?}", self.pass.map(|p| PASS[p].0).unwrap_or("")))?;
        w(self.plain, "plain")?;
        w(self.show, "shown")?;
        w(self.outside.is_some(), &format!("of outside key {:?}", self.outside))?;
        w(self.over, "overwrite")?;
        w(self.unchecked, "no-check")?;
        w(self.new_only, "error-some")?;
        w(self.old_only, "error-none")?;
        w(self.alone, "no-lk")?;
        w(self.no_key, "no-enckey")?;
        w(self.no_pub, "no-pubkey")?;
        w(self.cost != 0, &format!("cost {}", self.cost))?;
        w(self.ask_new, "new-pass")?;
        w(self.new.is_some(), &format!("new-pass-str {:?}", self.new.map(|p| PASS[p].0).unwrap_or("")))
    }
}
impl Cmd {
    fn pack(&self) -> String {
        let o = |v: Option<usize>| v.map(|v| v as u8 + 1).unwrap_or(0);
        let b = [self.plain, self.show, self.over, self.unchecked, self.new_only, self.old_only, self.alone, self.no_key, self.no_pub, self.ask_new, self.open];
        let bits: u32 = b.iter().enumerate().map(|(i, b)| (*b as u32) << i).sum();
        format!("{}.{}.{}.{}.{}.{bits}", self.name, o(self.pass), o(self.outside), o(self.new), self.cost)
    }
    fn unpack(s: &str) -> Cmd {
        let v: Vec<usize> = s.split('.').map(|v| v.parse().unwrap()).collect();
        let b = |i: usize| v[5] >> i & 1 == 1;
        Cmd { name: v[0], pass: v[1].checked_sub(1), outside: v[2].checked_sub(1), new: v[3].checked_sub(1), cost: v[4], plain: b(0), show: b(1), over: b(2), unchecked: b(3), new_only: b(4), old_only: b(5), alone: b(6), no_key: b(7), no_pub: b(8), ask_new: b(9), open: b(10) }
    }
    fn bytes(&self, p: Option<usize>) -> Option<Vec<u8>> {
        p.and_then(|p| if self.plain { Some(PASS[p].2) } else { PASS[p].1 }).map(|v| v.to_vec())
    }
    fn run(&self, common: &CommonOpts) -> Result<Option<[u8; 32]>, String> {
        let text = |p: Option<usize>| p.map(|p| PASS[p].0.to_string());
        let name = if self.alone { "me:local" } else { NAMES[self.name].1 };
        let key = KeyOpts::__make(text(self.pass), self.show, self.plain, name.parse().unwrap(), self.outside.map(|o| outside()[o].0.clone()), OnceLock::new());
        no_panic(|| {
            if self.open {
                let k = key.identity(common, true).map(|k| k.pubkey_bytes()).map_err(|e| e.to_string())?;
                let again = key.identity(common, true).map(|k| k.pubkey_bytes()).map_err(|e| e.to_string())?;
                return if again == k { Ok(Some(k)) } else { Err("another key when asked again".into()) };
            }
            let o = KeyGenOpts::__make(self.over, self.unchecked, self.new_only, self.old_only, self.alone, key, self.no_key, self.no_pub, self.cost, self.ask_new, text(self.new));
            keygen(common, o).map(|_| None).map_err(|e| e.to_string())
        })
        .map_err(|p| format!("{MARK}{p}"))?
    }
}
/// runs the commands of each case on a database of its own and says what came of each
fn child(cases: &str) {
    for (n, c) in cases.split(';').enumerate() {
        println!("\n{MARK}case {n}");
        std::thread::scope(|s| {
            s.spawn(|| {
                let _c = vclock::freeze(1_000_000);
                let dir = Scratch::new();
                let common = || CommonOpts {
                    linkspace: LinkspaceOpts { dir: Some(dir.0.join("db")), init: true, env: false, open_dir: OnceLock::new() },
                    io: IOOpts::__make(false, OutOpts::__make(None), InOpts::__make(None, None, false)),
                };
                let mine = common();
                for (i, c) in c.split(',').enumerate() {
                    vclock::set(1_000_000 + 1000 * (i as u64 + 1));
                    let c = Cmd::unpack(c);
                    println!("\n{MARK}run");
                    let r = c.run(&mine);
                    println!("\n{MARK}end");
                    match r {
                        Ok(k) => println!("ok {}", k.map(|k| hex(&k)).unwrap_or_default()),
                        Err(e) => println!("err {}", e.replace('\n', " ")),
                    }
                    vclock::set(1_000_000 + 1000 * (i as u64 + 1) + 500);
                    // with no database none is made
                    if c.alone && i == 0 && dir.0.join("db").exists() {
                        println!("made a database")
                    }
                    if c.alone && c == BASE {
                        continue;
                    }
                    let rt = mine.runtime().unwrap();
                    for (n, (comps, _, _)) in NAMES.iter().enumerate() {
                        let name = Name::from(comps).unwrap();
                        match lns::lookup_enckey(&rt, &name) {
                            Ok(Some((p, k))) => println!("name {n} {} {k}", hex(&p.0)),
                            Ok(None) => {}
                            Err(e) => println!("name {n} error {e}"),
                        }
                    }
                }
            });
        });
    }
    println!("\n{MARK}done");
    let _ = std::io::stdout().flush();
}
#[derive(Clone, PartialEq, Debug)]
struct Kept {
    public: String,
    pass: Vec<u8>,
    text: String,
}
/// what a command should do
#[derive(Debug, PartialEq)]
enum Do {
    Refuse,
    /// opened by the user
    Opened(String),
    /// this text is shown
    Show(String, String),
    /// this key is shown under another password
    Changed(String, Vec<u8>),
    /// a key is made
    Make(Vec<u8>),
}
/// and whether what is shown is kept
fn should(names: &HashMap<usize, Kept>, c: &Cmd) -> (Do, bool) {
    let no = (Do::Refuse, false);
    let (_, _, can) = NAMES[c.name];
    let there = match c.outside {
        Some(o) => Some(outside()[o].1.map(|(k, p)| (hex(&k), p.to_vec(), outside()[o].0.clone()))),
        None if c.alone => None,
        None => names.get(&c.name).map(|k| Some((k.public.clone(), k.pass.clone(), k.text.clone()))),
    };
    let pass = c.bytes(c.pass);
    if c.open {
        return match there {
            Some(Some((k, p, _))) if Some(&p) == pass.as_ref() => (Do::Opened(k), false),
            _ => no,
        };
    }
    if c.outside.is_none() && (c.new_only && there.is_some() || c.old_only && there.is_none()) {
        return no;
    }
    // a text that is no key is of no use
    let mut key = match there {
        Some(None) => return no,
        Some(Some(k)) => Some(k),
        None => None,
    };
    let change = c.ask_new || c.new.is_some();
    if change {
        match &mut key {
            None => return no,
            Some(k) => {
                // the old password is always asked for
                let Some(new) = c.bytes(c.new) else { return no };
                if pass.as_ref() != Some(&k.1) {
                    return no;
                }
                k.1 = new;
                k.2.clear();
            }
        }
    }
    let shown = |k: (String, Vec<u8>, String)| if k.2.is_empty() { Do::Changed(k.0, k.1) } else { Do::Show(k.0, k.2) };
    if c.over {
        if !can {
            return no;
        }
        return match key {
            Some(k) if c.outside.is_some() || change => {
                if !change && !c.unchecked && pass.as_ref() != Some(&k.1) {
                    return no;
                }
                (shown(k), true)
            }
            _ => match pass {
                Some(p) => (Do::Make(p), true),
                None => no,
            },
        };
    }
    if c.outside.is_some() && !c.alone {
        return no;
    }
    match key {
        Some(k) => {
            if !change && !c.unchecked && pass.as_ref() != Some(&k.1) {
                return no;
            }
            (shown(k), false)
        }
        None => match pass {
            Some(p) if c.alone || can => (Do::Make(p), !c.alone),
            _ => no,
        },
    }
}
fn costs(t: &str) -> String {
    t.split('$').nth(3).unwrap_or("").split(',').filter(|p| p.starts_with("m=") || p.starts_with("t=") || p.starts_with("p=")).collect::<Vec<_>>().join(",")
}
fn judge(cmds: &[Cmd], told: &str) -> CaseResult {
    let mut names: HashMap<usize, Kept> = HashMap::new();
    let mut made: Vec<String> = vec![];
    let steps: Vec<&str> = told.split(&format!("\n{MARK}run\n")).skip(1).collect();
    ensure!(steps.len() == cmds.len(), "it ended after {} commands: {}", steps.len(), show_cut(told.as_bytes()));
    let mut some = false;
    for (i, (c, t)) in cmds.iter().zip(steps).enumerate() {
        let at = format!("command {} ({c:?})", i + 1);
        let Some((said, rest)) = t.split_once(&format!("\n{MARK}end\n")) else { return bad("ended", format!("{at}: the process ended")) };
        let mut rest = rest.lines().filter(|l| !l.is_empty());
        let r = rest.next().unwrap_or("");
        ensure!(!r.contains(MARK), "{at}: it panics: {r}");
        let mut lines: Vec<&str> = said.split('\n').collect();
        if lines.last() == Some(&"") {
            lines.pop();
        }
        let (want, keep) = should(&names, c);
        let has = |l: &str| if l.is_empty() { None } else { lines.iter().position(|x| *x == l) };
        // the passwords that are shown
        if c.show {
            for (n, p) in [c.bytes(c.pass), c.bytes(c.new)].into_iter().enumerate() {
                let Some(p) = p else { continue };
                let asked = match n {
                    0 => want != Do::Refuse && !(c.unchecked && matches!(want, Do::Show(..))),
                    _ => want != Do::Refuse && c.new.is_some(),
                };
                let t = abe::abtxt::as_abtxt(&p).to_string();
                ensure!(!asked || t.is_empty() || has(&t).is_some(), "{at}: the password is not shown: {lines:?}");
            }
            let all: Vec<String> = [c.bytes(c.pass), c.bytes(c.new)].into_iter().flatten().map(|p| abe::abtxt::as_abtxt(&p).to_string()).collect();
            lines.retain(|l| !all.iter().any(|p| p == l));
        }
        let mut now: HashMap<usize, (String, String)> = HashMap::new();
        let mut other = vec![];
        for l in rest {
            match l.strip_prefix("name ").and_then(|l| l.split_once(' ')).and_then(|(n, l)| Some((n.parse().ok()?, l.split_once(' ')?))) {
                Some((n, (k, t))) => {
                    now.insert(n, (k.into(), t.into()));
                }
                None => other.push(l),
            }
        }
        ensure!(other.is_empty(), "{at}: {other:?}");
        // what is shown
        let fine = r.starts_with("ok");
        if want == Do::Refuse {
            ensure!(!fine, "{at}: it is not refused, and says {lines:?}");
            ensure!(lines.is_empty(), "{at}: it is refused and still shows {lines:?}");
        } else {
            ensure!(fine, "{at}: it is refused: {r}");
        }
        let mut kept = None;
        if let Do::Opened(k) = &want {
            ensure!(r == format!("ok {k}"), "{at}: opens another key: {r}");
            ensure!(lines.is_empty(), "{at}: it shows {lines:?}");
        } else if want != Do::Refuse {
            let mut l = lines.iter();
            let text = if c.no_key { None } else { Some(l.next().copied().unwrap_or("")) };
            let public = if c.no_pub { None } else { Some(l.next().copied().unwrap_or("")) };
            ensure!(l.next().is_none(), "{at}: it shows more: {lines:?}");
            // the key it should be about
            let (must, pass, exact) = match &want {
                Do::Show(k, t) => (Some(k.clone()), None, Some(t.clone())),
                Do::Changed(k, p) => (Some(k.clone()), Some(p.clone()), None),
                Do::Make(p) => (None, Some(p.clone()), None),
                _ => unreachable!(),
            };
            let stored = now.get(&c.name).filter(|_| keep).cloned();
            let text_is = text.map(String::from).or(stored.as_ref().map(|s| s.1.clone()));
            if keep {
                let Some(s) = &stored else { return bad("kept", format!("{at}: nothing is kept")) };
                if let Some(t) = text {
                    ensure!(t == s.1, "{at}: it shows {t} and keeps {}", s.1);
                }
            }
            if let (Some(e), Some(t)) = (&exact, &text_is) {
                ensure!(e == t, "{at}: another text {t} instead of {e}");
            }
            let mut id = must.clone();
            if let Some(t) = &text_is {
                if let Some(p) = &pass {
                    let k = no_panic(|| identity::decrypt(t, p).map(|k| hex(&k.pubkey_bytes())).map_err(|e| format!("{e:?}")))?;
                    match (k, &must) {
                        (Ok(k), Some(m)) => ensure!(k == *m, "{at}: it is another key now"),
                        (Ok(k), None) => {
                            ensure!(!made.contains(&k) && outside().iter().all(|o| o.1.map(|o| hex(&o.0)) != Some(k.clone())), "{at}: a key is made twice");
                            made.push(k.clone());
                            id = Some(k)
                        }
                        (Err(e), _) => return bad("opens", format!("{at}: its password does not open it: {e}")),
                    }
                    let cost = match c.cost {
                        0 => identity::INSECURE_COST,
                        1 => identity::DEFAULT_COST,
                        _ => identity::EXPENSIVE_COST,
                    };
                    let like = costs(&identity::encrypt(&SigningKey::try_from([1; 32]).unwrap(), b"", Some(cost)));
                    ensure!(costs(t) == like, "{at}: it costs {} and should {like}", costs(t));
                }
                ensure!(!pass.as_ref().or(c.bytes(c.pass).as_ref()).is_some_and(|p| p.len() > 3 && t.as_bytes().windows(p.len()).any(|w| w == p)), "{at}: the password is in the text");
            }
            if let (Some(p), Some(id)) = (public, &id) {
                let b: [u8; 32] = (0..32).map(|i| u8::from_str_radix(&id[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<_>>().try_into().unwrap();
                let t = byte_fmt::B64(b).to_string();
                ensure!(p == t, "{at}: it shows the public key {p} instead of {t}");
            }
            if keep {
                let s = stored.unwrap();
                ensure!(Some(&s.0) == id.as_ref(), "{at}: the key kept is {} instead of {id:?}", s.0);
                let pass = pass.or_else(|| c.outside.and_then(|o| outside()[o].1.map(|o| o.1.to_vec())));
                kept = Some((c.name, Kept { public: s.0, pass: pass.unwrap(), text: s.1 }));
            }
            some = true;
        }
        if let Some((n, k)) = kept {
            names.insert(n, k);
        }
        // and nothing else changes
        for n in 0..NAMES.len() {
            let want = names.get(&n).map(|k| (k.public.clone(), k.text.clone()));
            ensure!(now.get(&n) == want.as_ref(), "{at}: the key of {} is {:?} instead of {want:?}", NAMES[n].1, now.get(&n));
        }
    }
    Ok(some)
}
fn batch(cx: &Cx, cases: &[Vec<Cmd>]) {
    let text: Vec<String> = cases.iter().map(|c| c.iter().map(|c| c.pack()).collect::<Vec<_>>().join(",")).collect();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env("N03_CASES", text.join(";")).stderr(std::process::Stdio::null()).stdin(std::process::Stdio::null()).output().unwrap();
    let told = String::from_utf8_lossy(&out.stdout).to_string();
    let parts: Vec<&str> = told.split(&format!("\n{MARK}case ")).skip(1).collect();
    for (i, c) in cases.iter().enumerate() {
        cx.states(c.len() as u64 + 1);
        cx.transitions(c.len() as u64);
        cx.traces(1);
        cx.case_k(b"", &|| format!("{c:?}"), || judge(c, parts.get(i).copied().unwrap_or("").split(&format!("\n{MARK}done")).next().unwrap()))
    }
}
fn main() {
    if let Ok(c) = std::env::var("N03_CASES") {
        return child(&c);
    }
    kit::main("N03", "model_checking", |cx| {
        cx.rule("what each command should do, from the names and passwords so far: shows the key there is if the password fits or is not to be checked, makes one if there is none, takes the place of one only if told to, gives a key another password; refuses otherwise, and then shows nothing and keeps everything as it was; what is kept is what is shown, and opens with its password to the key with the public key shown");
        cx.assume("nobody types a password; options that the command line refuses together are not used together, nor overwriting a key from elsewhere together with the demand that there is none, or is one");
        outside();
        let go = |what: &str, all: Vec<Vec<Cmd>>| {
            cx.bound(what, format!("{} histories", all.len()));
            let n = if what == "costs" { 1 } else { 24 };
            cx.par(all.len().div_ceil(n) as u64, |i| batch(cx, &all[i as usize * n..((i as usize + 1) * n).min(all.len())]))
        };
        let starts = [vec![], vec![Cmd { no_key: true, ..BASE }], vec![Cmd { over: true, outside: Some(1), pass: Some(1), ..BASE }]];
        cx.section("every way to ask", || {
            let mut all = vec![];
            for s in &starts {
                for i in 0..2u64 * 2 * 3 * 4 * 4 * 4 * 3 {
                    let d = nth_mixed(&[2, 2, 3, 4, 4, 4, 3], i);
                    let c = Cmd { over: d[0] == 1, unchecked: d[1] == 1, new_only: d[2] == 1, old_only: d[2] == 2, no_key: d[3] & 1 == 1, no_pub: d[3] & 2 == 2, outside: [None, Some(0), Some(2), Some(3)][d[4]], pass: [None, Some(0), Some(1), Some(2)][d[5]], new: [None, Some(1), Some(2)][d[6]], ..BASE };
                    if c.over && c.outside.is_some() && (c.new_only || c.old_only) || cx.quick() && (c.no_key && d[3] == 1 && s.is_empty()) {
                        continue;
                    }
                    all.push(s.iter().copied().chain([c]).collect());
                }
            }
            go("every way to ask", all)
        });
        cx.section("without a database", || {
            let mut all = vec![];
            for i in 0..2u64 * 4 * 6 * 4 * 4 * 2 {
                let d = nth_mixed(&[2, 4, 6, 4, 4, 2], i);
                all.push(vec![Cmd { alone: true, unchecked: d[0] == 1, no_key: d[1] & 1 == 1, no_pub: d[1] & 2 == 2, outside: d[2].checked_sub(1), pass: [None, Some(0), Some(1), Some(2)][d[3]], new: [None, Some(1), Some(2), Some(0)][d[4]], ask_new: d[5] == 1, ..BASE }]);
            }
            go("without a database", all)
        });
        cx.section("passwords", || {
            let mut all = vec![];
            for i in 0..6u64 * 2 * 2 * 7 * 6 * 2 * 3 {
                let d = nth_mixed(&[6, 2, 2, 7, 6, 2, 3], i);
                let first = Cmd { pass: Some(d[0]), plain: d[1] == 1, show: d[2] == 1, ..BASE };
                let then = Cmd { pass: Some(d[4]), plain: d[5] == 1, show: d[2] == 1, new: d[3].checked_sub(1), over: d[6] == 1, open: d[6] == 2, ..BASE };
                if then.open && then.new.is_some() {
                    continue;
                }
                all.push(vec![first, then]);
            }
            go("passwords", all)
        });
        cx.section("histories", || {
            let mut few = vec![BASE, Cmd { pass: Some(1), ..BASE }];
            few.push(Cmd { over: true, ..BASE });
            few.push(Cmd { over: true, pass: Some(1), new: Some(0), ..BASE });
            few.push(Cmd { over: true, new: Some(1), ..BASE });
            few.push(Cmd { new: Some(1), ..BASE });
            few.push(Cmd { over: true, outside: Some(0), ..BASE });
            few.push(Cmd { over: true, outside: Some(1), unchecked: true, pass: None, ..BASE });
            few.push(Cmd { over: true, outside: Some(0), new: Some(1), ..BASE });
            few.push(Cmd { new_only: true, name: 1, ..BASE });
            few.push(Cmd { old_only: true, unchecked: true, pass: None, ..BASE });
            few.push(Cmd { open: true, ..BASE });
            few.push(Cmd { name: 1, over: true, outside: Some(0), ..BASE });
            few.push(Cmd { name: 2, ..BASE });
            few.push(Cmd { name: 3, over: true, ..BASE });
            few.push(Cmd { alone: true, ..BASE });
            let mut all = vec![];
            let n = cx.pick(3, 4);
            for n in 2..=n {
                all.extend((0..(few.len() as u64).pow(n)).map(|i| nth_digits(few.len(), n as usize, i).into_iter().map(|d| few[d]).collect()))
            }
            go("histories", all)
        });
        cx.section("costs", || {
            let mut all = vec![];
            for cost in 0..cx.pick(2, 3) {
                all.push(vec![Cmd { cost, ..BASE }]);
                if cost < cx.pick(1, 2) {
                    all.push(vec![BASE, Cmd { cost, new: Some(1), ..BASE }]);
                }
            }
            go("costs", all)
        })
    })
}
