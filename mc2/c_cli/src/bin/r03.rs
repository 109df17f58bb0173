//! The commands that take packets in and give packets out, on every row of packets and every way to use them,
//! against what they are documented to do with each packet.
use c_core::*;
use kit::*;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;
use x_cmd::collect::{collect, Collect};
use x_cmd::filter::{select, Filter};
use x_cmd::get_links::{exec, GetLinks, GetLinksMode};
use x_cmd::keys::KeyOpts;
use x_cmd::point::{linkpoint, MultiOpts, PointOpts};
use x_cmd::rewrite::{rewrite, Rewrite, SignMode};
use x_cmd::save::{save, SaveForward};
use x_cmd::watch::DGPDWatchCLIOpts;
use x_cmd::{CommonOpts, DataReadOpts, LinkspaceOpts, PktReadOpts, WriteDestSpec};
use x_cli::cli::opts::{IOOpts, InOpts, OutOpts};
use x_cli::cli::reader::{CommonReadOpts, EMode};
use x_cli::predicate_aliases::{ExtWatchCLIOpts, PredicateAliases};

/// what may be private, and whether a hop is counted
#[derive(Clone, Copy, Debug, Default)]
struct Io {
    private: bool,
    read: Option<bool>,
    write: Option<bool>,
    hop: Option<bool>,
}
impl Io {
    fn reads(&self) -> bool {
        self.private || self.read == Some(true)
    }
    /// is it written? None is an error
    fn writes(&self) -> Option<bool> {
        match self.write {
            _ if self.private => Some(true),
            Some(false) => None,
            Some(true) => Some(true),
            None => Some(false),
        }
    }
    fn common(&self, dir: &Path) -> CommonOpts {
        CommonOpts {
            linkspace: LinkspaceOpts { dir: Some(dir.to_path_buf()), init: true, env: false, open_dir: OnceLock::new() },
            io: IOOpts::__make(self.private, OutOpts::__make(self.write), InOpts::__make(self.read, self.hop, false)),
        }
    }
}
fn bytes(p: &Pkt) -> Vec<u8> {
    p.spec.bytes()
}
fn private(s: &Spec) -> bool {
    s.is_link() && s.group == [0; 32]
}
/// the packets of a stream of bytes
fn packets(mut b: &[u8]) -> Result<Vec<Spec>, Bad> {
    let mut v = vec![];
    while !b.is_empty() {
        let s = parse(b, true).map_err(|_| Bad::from("what was written is no row of packets".to_string()))?;
        b = &b[s.bytes().len()..];
        v.push(s)
    }
    Ok(v)
}
fn same_rows(what: &str, got: &[u8], want: &[Spec]) -> Result<(), Bad> {
    let wb: Vec<u8> = want.iter().flat_map(|s| s.bytes()).collect();
    if got == wb {
        return Ok(());
    }
    let got = packets(got)?;
    let d = |v: &[Spec]| v.iter().map(|s| format!("\n    {} links {:?} data {}", s.describe(), s.links.iter().map(|l| format!("{}:{}", show(&l.0), hex(&l.1[..3]))).collect::<Vec<_>>(), show_cut(&s.data))).collect::<String>();
    bad(what.to_string(), format!("{what}: {} packets{}\n  and should be {}:{}", got.len(), d(&got), want.len(), d(want)))
}
struct Place {
    dir: PathBuf,
}
impl Place {
    fn path(&self, n: &str) -> PathBuf {
        self.dir.join(n)
    }
    fn dest(&self, n: &str) -> Vec<WriteDestSpec> {
        match n {
            "" => vec![],
            "null" | "db" => vec![n.parse().unwrap()],
            n => vec![format!("file:{}", self.path(n).to_str().unwrap()).parse().unwrap()],
        }
    }
    fn put(&self, row: &[&Pkt]) -> PktReadOpts {
        let p = self.path("in");
        std::fs::write(&p, row.iter().flat_map(|p| bytes(p)).collect::<Vec<u8>>()).unwrap();
        PktReadOpts { pkts: Some(p), no_pkts: false }
    }
    fn take(&self, n: &str) -> Vec<u8> {
        let p = self.path(n);
        let b = std::fs::read(&p).unwrap_or_default();
        let _ = std::fs::remove_file(&p);
        b
    }
}
fn key(k: usize) -> KeyOpts {
    let l = OnceLock::new();
    let _ = l.set(keys()[k].clone());
    KeyOpts::__make(None, false, false, "me:local".parse().unwrap(), None, l)
}
/// what a row of written packets becomes on its way out: the packets and whether an error ends it
fn out(io: &Io, s: &Spec, to: &mut Vec<Spec>) -> bool {
    if private(s) {
        match io.writes() {
            Some(true) => {}
            Some(false) => return true,
            None => return false,
        }
    }
    to.push(s.clone());
    true
}
fn hopped(io: &Io, s: &Spec) -> Spec {
    let mut s = s.clone();
    if io.hop == Some(true) {
        let h = u32::from_be_bytes(s.head[4..8].try_into().unwrap()).saturating_add(1);
        s.head[4..8].copy_from_slice(&h.to_be_bytes());
    }
    s
}

// ---- filter
#[derive(Clone)]
struct Ask {
    text: &'static str,
    stmts: Vec<&'static str>,
    rules: Vec<Rule>,
    max: Option<u32>,
    /// accepts what is newer than what it accepted last
    rising: bool,
    place: Option<&'static str>,
    alias: fn() -> PredicateAliases,
}
fn ask(text: &'static str, rules: Vec<Rule>) -> Ask {
    Ask { text, stmts: text.split(' ').filter(|s| !s.is_empty()).collect(), rules, max: None, rising: false, place: None, alias: PredicateAliases::default }
}
fn asks() -> Vec<Ask> {
    let d = |s| rule("domain", "=", dom(s));
    let mut v = vec![
        ask("", vec![]),
        ask("domain:=:a", vec![d("a")]),
        ask("domain:=:a data_size:>:[u16:0]", vec![d("a"), rule("data_size", ">", [0, 0])]),
        ask("create:<:[u64:12]", vec![rule("create", "<", 12u64.to_be_bytes())]),
        ask("type:1:[u8:4]", vec![rule("type", "1", [4])]),
        ask("links_len:=:[u16:0]", vec![rule("links_len", "=", [0, 0])]),
    ];
    for n in [1, 2] {
        v.push(Ask { max: Some(n), ..ask(if n == 1 { "i:<:[u32:1]" } else { "i:<:[u32:2] domain:=:a" }, if n == 1 { vec![] } else { vec![d("a")] }) });
    }
    v.push(Ask { max: Some(1), ..ask("i_new:<:[u32:1] data_size:<:[u16:2]", vec![rule("data_size", "<", [0, 2])]) });
    v.push(Ask { rising: true, ..ask("create:>:[/or:[create]:[u64:0]]", vec![rule("create", ">", [0; 8])]) });
    v.push(Ask { rising: true, max: Some(2), ..ask("create:>:[/or:[create]:[u64:0]] i:<:[u32:2]", vec![rule("create", ">", [0; 8])]) });
    let mut p = ask("", vec![d("a"), rule("group", "=", [1; 32]), rule("prefix", "=", flat(&spc("/a"))), rule("depth", "<", [3])]);
    p.place = Some("a:[b:AQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQE]:/a:*");
    v.push(p);
    v.push(Ask { alias: || PredicateAliases { signed: true, ..Default::default() }, ..ask("", vec![rule("type", "1", [4])]) });
    v.push(Ask { alias: || PredicateAliases { unsigned: true, max: Some(2), ..Default::default() }, max: Some(2), ..ask("", vec![rule("type", "0", [!4])]) });
    v
}
fn filter(at: &Place, row: &[&Pkt], a: &Ask, datapoint: bool, live: bool, lost: &str, io: Io) -> CaseResult {
    let common = io.common(&at.dir.join("db"));
    let q = DGPDWatchCLIOpts { dgpd: a.place.map(|p| p.parse().unwrap()), watch_opts: ExtWatchCLIOpts { aliases: (a.alias)(), exprs: a.stmts.iter().map(|s| s.parse().unwrap()).collect() }, bare: false };
    let f = Filter::__make(datapoint, q, at.dest("kept"), at.dest(lost), at.put(row), false, live);
    let got = no_panic(|| select(common, f))?.is_ok();
    let (mut kept, mut left) = (vec![], vec![]);
    let (mut n, mut last) = (0, None);
    let mut ok = true;
    // nothing is newer than the greatest stamp: whether asking for it is an error is left open
    let mut open = false;
    for p in row {
        if private(&p.spec) && !io.reads() {
            ok = false;
            break;
        }
        let s = hopped(&io, &p.spec);
        if datapoint && p.spec.kind == 1 {
            ok &= out(&io, &s, &mut kept);
            continue;
        }
        let yes = a.rules.iter().all(|r| r.holds(p, 0)) && !(a.rising && live && last.is_some_and(|l| p.spec.stamp <= l));
        if yes {
            n += 1;
            if !out(&io, &s, &mut kept) {
                ok = false;
                break;
            }
            last = Some(p.spec.stamp);
            open = live && a.rising && last == Some(u64::MAX);
            if a.max == Some(n) || open {
                break;
            }
        } else if lost != "null" && !out(&io, &s, &mut left) {
            ok = false;
            break;
        }
    }
    let (k, l) = (at.take("kept"), at.take("lost"));
    same_rows("kept", &k, &kept)?;
    same_rows("left out", &l, &left)?;
    ensure!(open || got == ok, "it ends {} an error", if got { "without" } else { "with" });
    Ok(!kept.is_empty())
}

// ---- rewrite
#[derive(Clone, Debug)]
struct Change {
    group: Option<&'static str>,
    domain: Option<&'static str>,
    space: Option<&'static str>,
    create: Option<&'static str>,
    data: Option<&'static str>,
}
fn data_opts(d: Option<&str>) -> DataReadOpts {
    match d {
        None => DataReadOpts::default(),
        // the data of the packet and a letter
        Some("[data]!") => DataReadOpts { common: CommonReadOpts { data_str: Some("[data]!".into()), data_repeat: true, ..Default::default() }, data_eval: true, ..Default::default() },
        // one letter for each packet
        Some(s) => DataReadOpts { common: CommonReadOpts { data_str: Some(s.into()), ..Default::default() }, data_bufsize: Some(1), data_overflow: Some(EMode::Error), ..Default::default() },
    }
}
fn rewrites(at: &Place, row: &[&Pkt], c: &Change, mode: SignMode, forward: &str, io: Io) -> CaseResult {
    let common = io.common(&at.dir.join("db"));
    let b = |s: &'static str| s.to_string();
    let r = Rewrite::__make(
        c.group.map(|s| b(s).parse().unwrap()),
        c.domain.map(|s| b(s).parse().unwrap()),
        c.space.map(|s| b(s).parse().unwrap()),
        c.create.map(|s| b(s).parse().unwrap()),
        c.data.is_some(),
        mode,
        at.dest("new"),
        at.dest(forward),
        at.put(row),
        key(1),
        data_opts(c.data),
    );
    let got = no_panic(|| rewrite(&common, r))?;
    let (mut new, mut old) = (vec![], vec![]);
    let mut ok = true;
    let mut letters = c.data.filter(|d| *d != "[data]!").map(|d| d.bytes());
    for p in row {
        let s = &hopped(&io, &p.spec);
        if private(s) && !io.reads() {
            ok = false;
            break;
        }
        let sign = match (mode, s.kind) {
            (_, 1) => None,
            (SignMode::SignAll, _) => Some(true),
            (SignMode::Resign, 7) => Some(true),
            (SignMode::Skip, 7) => None,
            _ => Some(false),
        };
        let made = match sign {
            None => Some(s.clone()),
            Some(sign) => (|| {
                let mut n = s.clone();
                n.head = head();
                n.kind = 3;
                n.signed = None;
                match c.group {
                    Some("[#:0]") => n.group = [0; 32],
                    Some("[#:pub]") => n.group = *PUBLIC.as_ref(),
                    _ => {}
                }
                match c.domain {
                    Some(_) => n.domain = dom("z"),
                    None => {}
                }
                match c.space {
                    Some("/n") => n.space = spc("/n"),
                    Some(_) => n.space = vec![s.hash().to_vec(), b"d".to_vec()],
                    _ => {}
                }
                match c.create {
                    Some("[u64:7]") => n.stamp = 7,
                    Some(_) => n.stamp = s.stamp.checked_add(1_000_000)?,
                    _ => {}
                }
                match (&c.data, &mut letters) {
                    (None, _) => {}
                    (_, None) => n.data.push(b'!'),
                    (_, Some(l)) => n.data = vec![l.next()?],
                }
                Some(make(n, sign.then_some(1)).spec)
            })(),
        };
        let Some(made) = made else {
            ok = false;
            break;
        };
        if !out(&io, &made, &mut new) || forward != "null" && !out(&io, s, &mut old) {
            ok = false;
            break;
        }
    }
    let (n, o) = (at.take("new"), at.take("old"));
    same_rows("rewritten", &n, &new)?;
    same_rows("forwarded", &o, &old)?;
    ensure!(got.is_ok() == ok, "it ends with {:?}", got.map_err(|e| format!("{e:#}")));
    Ok(!new.is_empty())
}

// ---- collect
#[derive(Clone, Debug)]
struct Gather {
    tag: &'static str,
    chain: bool,
    empty: bool,
    init: usize,
    fixed: bool,
    max: usize,
    data: Option<&'static str>,
    signed: bool,
    same_file: bool,
}
const NOW: u64 = 1_700_000_000_000_000;
fn tag16(t: &[u8]) -> [u8; 16] {
    let mut v = [0; 16];
    v[16 - t.len()..].copy_from_slice(t);
    v
}
fn gather(at: &Place, row: &[&Pkt], g: &Gather, io: Io) -> CaseResult {
    let _c = vclock::freeze(NOW);
    let common = io.common(&at.dir.join("db"));
    let link = |n: u8| -> ([u8; 16], [u8; 32]) { (tag16(&[b'l', n]), [n; 32]) };
    let text = |n: u8| format!("l{}:[b:{}]", n as char, B64([n; 32]));
    let (fw, wr) = if g.same_file { ("all", "all") } else { ("seen", "made") };
    let build = PointOpts {
        create: None,
        create_int: (!g.same_file).then(|| Stamp::new(77)),
        sign: g.signed,
        read: data_opts(g.data),
        key: key(0),
        dgs: "c:[#:pub]:/s/t".parse().unwrap(),
        link: if g.fixed { vec![text(b'f').parse().unwrap()] } else { vec![] },
    };
    let c = Collect::__make(g.tag.parse().unwrap(), g.chain.then(|| "chain".parse().unwrap()), g.empty, (0..g.init).map(|n| text(b'a' + n as u8).parse().unwrap()).collect(), g.max, None, at.dest(fw), at.dest(wr), at.put(row), build);
    let got = no_panic(|| collect(&common, c))?;
    let mut letters = g.data.map(|d| d.bytes());
    let fixed: Vec<_> = g.fixed.then(|| link(b'f')).into_iter().collect();
    let mut links: Vec<_> = (0..g.init).map(|n| link(b'a' + n as u8)).chain(fixed.clone()).collect();
    let (mut seen, mut made, mut all) = (vec![], vec![], vec![]);
    let mut n = 0;
    let mut ok = true;
    let mut result = |links: &mut Vec<([u8; 16], [u8; 32])>, made: &mut Vec<Spec>, all: &mut Vec<Spec>| -> bool {
        let data = match &mut letters {
            None => vec![],
            Some(l) => match l.next() {
                Some(b) => vec![b],
                None => return false,
            },
        };
        let s = Spec { kind: 3, group: *PUBLIC.as_ref(), domain: dom("c"), space: spc("/s/t"), stamp: if g.same_file { NOW } else { 77 }, links: std::mem::take(links), ..data_spec(&data) };
        let p = make(s, g.signed.then_some(0));
        if g.chain {
            links.push((tag16(b"chain"), p.hash.0))
        }
        links.extend(fixed.iter().copied());
        made.push(p.spec.clone());
        all.push(p.spec);
        true
    };
    let mut more = true;
    for p in row {
        if private(&p.spec) && !io.reads() {
            (ok, more) = (false, false);
            break;
        }
        let t = match g.tag {
            "[now]" => tag16(&NOW.to_be_bytes()),
            "[data_size:str]" => tag16(p.spec.data.len().to_string().as_bytes()),
            "[domain]" if p.spec.is_link() => p.spec.domain,
            "[domain]" => [0; 16],
            t => tag16(t.as_bytes()),
        };
        links.push((t, p.hash.0));
        n += 1;
        let s = hopped(&io, &p.spec);
        let before = seen.len();
        if !out(&io, &s, &mut seen) {
            (ok, more) = (false, false);
            break;
        }
        all.extend_from_slice(&seen[before..]);
        if n >= g.max {
            n = 0;
            if !result(&mut links, &mut made, &mut all) {
                more = false;
                break;
            }
        }
    }
    let want: (Vec<Spec>, Vec<Spec>) = (made.clone(), all.clone());
    if more && !links.is_empty() {
        result(&mut links, &mut made, &mut all);
    }
    // what is left at the end may be only the links that every result has
    let judge = |made: &[Spec], all: &[Spec], files: &[Vec<u8>]| -> Result<(), Bad> {
        if g.same_file {
            return same_rows("written", &files[0], all);
        }
        same_rows("forwarded", &files[0], &seen)?;
        same_rows("made", &files[1], made)
    };
    let files = if g.same_file { vec![at.take("all")] } else { vec![at.take("seen"), at.take("made")] };
    if let Err(e) = judge(&made, &all, &files) {
        if n > 0 || judge(&want.0, &want.1, &files).is_err() {
            return Err(e);
        }
    }
    ensure!(got.is_ok() == ok, "it ends with {:?}", got.map_err(|e| format!("{e:#}")));
    Ok(!made.is_empty())
}

// ---- points from data
fn points(at: &Place, blocks: &[u8], multi: bool, chain: bool, links: usize, signed: bool, io: Io, group: &'static str) -> CaseResult {
    let common = io.common(&at.dir.join("db"));
    let text: String = blocks.iter().map(|b| *b as char).collect();
    let opts = PointOpts {
        create: Some("[u64:9]".parse().unwrap()),
        create_int: None,
        sign: signed,
        read: data_opts(Some(&text)),
        key: key(2),
        dgs: format!("p:{group}:").parse().unwrap(),
        link: (0..links).map(|n| format!("l{n}:[b:{}]", B64([n as u8; 32])).parse().unwrap()).collect(),
    };
    let mut dest = common.open(&at.dest("made")).map_err(|e| Bad::from(e.to_string()))?;
    let got = no_panic(|| linkpoint(common, opts, MultiOpts::__make(multi, chain.then(|| "prev".parse().unwrap())), &mut dest))?;
    let mut want: Vec<Spec> = vec![];
    // what is asked for explicitly may be private, unless that is forbidden
    let io = Io { write: io.write.or(Some(true)), ..io };
    let fixed: Vec<_> = (0..links).map(|n| (tag16(format!("l{n}").as_bytes()), [n as u8; 32])).collect();
    let mut ok = !blocks.is_empty();
    for b in blocks.iter().take(if multi { usize::MAX } else { 1 }) {
        let mut l = fixed.clone();
        if chain {
            l.extend(want.last().map(|p| (tag16(b"prev"), p.hash())));
        }
        let s = Spec { kind: 3, group: if group == "[#:0]" { [0; 32] } else { *PUBLIC.as_ref() }, domain: dom("p"), stamp: 9, links: l, ..data_spec(&[*b]) };
        if !out(&io, &make(s, signed.then_some(2)).spec, &mut want) {
            ok = false;
            break;
        }
    }
    same_rows("points", &at.take("made"), &want)?;
    ensure!(got.is_ok() == ok, "it ends with {:?}", got.map_err(|e| format!("{e:#}")));
    Ok(!want.is_empty())
}
// ---- links of packets
/// what is written for a packet: the packets its links lead to, each before its own links, down to a depth
fn linked(p: &Spec, known: &[(Pkt, bool)], depth: usize, stop: bool, to: &mut Vec<Spec>) -> bool {
    for (_, ptr) in &p.links {
        match known.iter().find(|k| k.1 && k.0.hash.0 == *ptr) {
            None if stop => return false,
            None => {}
            Some((t, _)) => {
                to.push(t.spec.clone());
                if depth > 0 && !linked(&t.spec, known, depth - 1, stop, to) {
                    return false;
                }
            }
        }
    }
    true
}
fn follow(at: &Place, row: &[&Pkt], known: &[(Pkt, bool)], mode: GetLinksMode, depth: usize, endless: bool, io: Io) -> CaseResult {
    let common = io.common(&at.dir.join("db"));
    let stop = matches!(mode, GetLinksMode::Error | GetLinksMode::Pause);
    let cmd = GetLinks::__make(at.put(row), at.dest("fw"), at.dest("links"), (!endless).then_some(depth), endless, mode);
    let got = no_panic(|| exec(common, cmd))?;
    let (mut links, mut seen) = (vec![], vec![]);
    let mut ok = true;
    for p in row {
        let s = hopped(&io, &p.spec);
        ok = linked(&s, known, if endless { 99 } else { depth }, stop, &mut links);
        if !ok {
            break;
        }
        seen.push(s);
    }
    let (f, l) = (at.take("fw"), at.take("links"));
    same_rows("forwarded", &f, &seen)?;
    same_rows("of the links", &l, &links)?;
    ensure!(got.is_ok() == ok, "it ends with {:?}", got.map_err(|e| format!("{e:#}")));
    Ok(!links.is_empty())
}
// ---- saving
fn saves(at: &Place, row: &[&Pkt], db: &mut Vec<Pkt>, old: &str, new: &str, io: Io) -> CaseResult {
    let common = io.common(&at.dir.join("db"));
    let mut to = at.dest(new);
    to.push("db".parse().unwrap());
    let cmd = SaveForward::__make(to, at.dest(old), false, at.put(row));
    let got = no_panic(|| save(cmd, common.clone()))?;
    let (mut fresh, mut known) = (vec![], vec![]);
    let mut ok = true;
    let io = Io { hop: io.hop.or(Some(true)), ..io };
    for p in row {
        if private(&p.spec) && !io.reads() {
            ok = false;
            break;
        }
        let s = hopped(&io, &p.spec);
        let is_new = !db.iter().any(|d| d.hash == p.hash);
        if is_new {
            let mut d = (*p).clone();
            d.spec = s.clone();
            db.push(d)
        }
        let (name, to) = if is_new { (new, &mut fresh) } else { (old, &mut known) };
        if name != "null" && !out(&io, &s, to) {
            ok = false;
            break;
        }
    }
    let (n, o) = (at.take("new"), at.take("old"));
    same_rows("new", &n, &fresh)?;
    same_rows("known", &o, &known)?;
    ensure!(got.is_ok() == ok, "it ends with {:?}", got.map_err(|e| format!("{e:#}")));
    let lk = common.runtime().map_err(|e| Bad::from(e.to_string()))?;
    let txn = lk.env().new_read_txn().map_err(|e| Bad::from(e.to_string()))?;
    let bytes: Vec<u8> = txn.pkts_after(Stamp::ZERO).flat_map(|p| p.pkt.byte_segments().to_bytes().to_vec()).collect();
    same_rows("saved", &bytes, &db.iter().map(|p| p.spec.clone()).collect::<Vec<_>>())?;
    Ok(!row.is_empty())
}
fn main() {
    kit::main("R03", "model_checking", |cx| {
        cx.rule("every row of packets of the stated lengths through every command with every combination of its options of the stated sets; what is written where, in which order and how it ends, is compared byte for byte with what the options say; non-trivial: a packet is written");
        let base = Scratch::new();
        let mut l = link_spec(1, "a", "/a", 11, b"y");
        l.head[4..8].copy_from_slice(&[0, 0, 0, 3]);
        let mut far = link_spec(2, "b", "/b/c", u64::MAX, b"zz");
        far.links = vec![([7; 16], [9; 32]); 2];
        let all: Vec<Pkt> = vec![
            make(data_spec(b"x"), None),
            make(l.clone(), None),
            make(link_spec(1, "a", "/a/b", 10, b""), Some(0)),
            make(far, None),
            make(link_spec(2, "a", "", 12, b"long enough"), Some(1)),
            make(link_spec(0, "a", "/p", 5, b"q"), None),
        ];
        let rows_of = |u: usize, n: usize| -> Vec<Vec<usize>> { (0..=n).flat_map(|k| (0..count(u, k)).map(move |i| nth_digits(u, k, i))).collect() };
        let place = |name: String| {
            let dir = base.0.join(name);
            std::fs::create_dir_all(dir.join("db")).unwrap();
            Place { dir }
        };
        let plain = Io::default();
        let ios = {
            let mut v = vec![];
            for private in [false, true] {
                for read in [None, Some(false), Some(true)] {
                    for write in [None, Some(false), Some(true)] {
                        for hop in [None, Some(true)] {
                            v.push(Io { private, read, write, hop })
                        }
                    }
                }
            }
            v
        };
        cx.bound("packets", all.len() as u64);
        // each row in a directory and a thread of its own, as a thread opens one database only
        let each = |cx: &Cx, tag: &str, rows: &[Vec<usize>], f: &(dyn Fn(&Place, &[&Pkt], &str) + Sync)| {
            cx.par(rows.len() as u64, |i| {
                let at = place(format!("{tag}{i}"));
                let row: Vec<&Pkt> = rows[i as usize].iter().map(|n| &all[*n]).collect();
                let name = format!("packets {:?}", rows[i as usize]);
                std::thread::scope(|s| {
                    s.spawn(|| f(&at, &row, &name));
                });
                let _ = std::fs::remove_dir_all(&at.dir);
            })
        };
        let n = cx.pick(3, 4);
        cx.bound("packets in a row", n as u64);
        let asks = asks();
        let run = |name: String, f: &dyn Fn() -> CaseResult| {
            cx.states(1);
            cx.transitions(1);
            cx.traces(1);
            cx.case_k(b"", &|| name.clone(), f)
        };
        cx.section("filter", || {
            each(cx, "f", &rows_of(5, n), &|at, row, name| {
                for a in &asks {
                    for k in 0..8 {
                        let (d, live, lost) = (k & 1 == 1, k & 2 == 2, if k & 4 == 4 { "lost" } else { "null" });
                        run(format!("filter {} {:?} {:?} datapoints {d} live {live} others to {lost}: {name}", a.text, a.place, (a.alias)()), &|| filter(at, row, a, d, live, lost, plain))
                    }
                }
            });
            each(cx, "g", &rows_of(6, 2), &|at, row, name| {
                for io in &ios {
                    for a in [&asks[0], &asks[1], &asks[4]] {
                        run(format!("filter {} {io:?}: {name}", a.text), &|| filter(at, row, a, false, false, "lost", *io))
                    }
                }
            })
        });
        let modes = [SignMode::SignAll, SignMode::Unsign, SignMode::Skip, SignMode::Resign];
        let mut changes = vec![];
        for group in [None, Some("[#:pub]"), Some("[#:0]"), Some("[group]")] {
            for domain in [None, Some("z")] {
                for space in [None, Some("/n"), Some("/[hash]/d")] {
                    for create in [None, Some("[u64:7]"), Some("[create/us:+1s]")] {
                        for data in [None, Some("[data]!"), Some("AB"), Some("")] {
                            let some = [group.is_some(), domain.is_some(), space.is_some(), create.is_some(), data.is_some()];
                            if some.iter().filter(|b| **b).count() <= cx.pick(2, 5) {
                                changes.push(Change { group, domain, space, create, data })
                            }
                        }
                    }
                }
            }
        }
        cx.section("rewrite", || {
            each(cx, "r", &rows_of(5, n - 1), &|at, row, name| {
                for c in &changes {
                    for m in modes {
                        run(format!("rewrite {c:?} {m:?}: {name}"), &|| rewrites(at, row, c, m, if c.group.is_none() { "old" } else { "null" }, plain))
                    }
                }
            });
            each(cx, "s", &rows_of(6, 2), &|at, row, name| {
                for io in &ios {
                    for c in changes.iter().step_by(17) {
                        for m in modes {
                            run(format!("rewrite {c:?} {m:?} {io:?}: {name}"), &|| rewrites(at, row, c, m, "old", *io))
                        }
                    }
                }
            })
        });
        let tags = ["[now]", "t", "[data_size:str]", "[domain]"];
        let datas = [None, Some("AB"), Some("")];
        let radix = [tags.len(), 2, 2, 3, 2, 4, datas.len(), 2, 2];
        cx.section("collect", || {
            each(cx, "c", &rows_of(3, n), &|at, row, name| {
                for i in 0..radix.iter().product::<usize>() as u64 {
                    let d = nth_mixed(&radix, i);
                    if cx.quick() && d.iter().filter(|x| **x > 0).count() > 3 {
                        continue;
                    }
                    let g = Gather { tag: tags[d[0]], chain: d[1] == 1, empty: d[2] == 1, init: d[3], fixed: d[4] == 1, max: [1, 2, 3, 1000][d[5]], data: datas[d[6]], signed: d[7] == 1, same_file: d[8] == 1 };
                    run(format!("collect {g:?}: {name}"), &|| gather(at, row, &g, plain))
                }
            });
            each(cx, "d", &rows_of(6, 2), &|at, row, name| {
                for io in &ios {
                    for max in [1, 2] {
                        for same_file in [false, true] {
                            let g = Gather { tag: "t", chain: true, empty: false, init: 0, fixed: false, max, data: None, signed: false, same_file };
                            run(format!("collect {g:?} {io:?}: {name}"), &|| gather(at, row, &g, *io))
                        }
                    }
                }
            })
        });
        // a graph of links, and one that nobody knows
        let graph: Vec<Pkt> = {
            let mut v: Vec<Pkt> = vec![make(data_spec(b"leaf"), None)];
            let to = |v: &[Pkt], l: &[usize]| l.iter().enumerate().map(|(i, n)| (tag16(&[b'0' + i as u8]), v[*n].hash.0)).collect::<Vec<_>>();
            for (i, l) in [&[0][..], &[1, 0, 0], &[2, 1]].iter().enumerate() {
                let mut s = link_spec(1, "a", "/g", i as u64, b"");
                s.links = to(&v, l);
                v.push(make(s, (i == 1).then_some(0)))
            }
            let mut s = link_spec(1, "a", "/h", 9, b"");
            s.links = vec![(tag16(b"z"), [0xee; 32]), to(&v, &[3])[0], to(&v, &[0])[0]];
            v.push(make(s, None));
            v
        };
        cx.section("links", || {
            let rows = rows_of(graph.len(), cx.pick(2, 3));
            cx.par(1 << graph.len(), |set| {
                let at = place(format!("l{set}"));
                let known: Vec<(Pkt, bool)> = graph.iter().enumerate().map(|(i, p)| (p.clone(), set >> i & 1 == 1)).collect();
                let fill = || {
                    let lk = Io::default().common(&at.dir.join("db")).runtime().unwrap();
                    for (p, yes) in &known {
                        if *yes {
                            lk.env().save_dyn_one(&p.net).unwrap();
                        }
                    }
                };
                std::thread::scope(|s| s.spawn(fill).join().unwrap());
                for r in &rows {
                    let row: Vec<&Pkt> = r.iter().map(|n| &graph[*n]).collect();
                    for (depth, endless) in [(0, false), (1, false), (2, false), (0, true)] {
                        for (m, mode) in [GetLinksMode::Skip, GetLinksMode::Error, GetLinksMode::Pause, GetLinksMode::Watch].into_iter().enumerate() {
                            // two of the modes wait for what is not known
                            if m > 1 && !row.iter().all(|p| linked(&p.spec, &known, if endless { 99 } else { depth }, true, &mut vec![])) {
                                continue;
                            }
                            // a command is a process of its own
                            let body = || run(format!("links down to {depth} endless {endless} mode {m} of {r:?} knowing {set:b}"), &|| follow(&at, &row, &known, mode, depth, endless, plain));
                            std::thread::scope(|s| {
                                s.spawn(body);
                            })
                        }
                    }
                }
                let _ = std::fs::remove_dir_all(&at.dir);
            })
        });
        cx.section("save", || {
            let rows = rows_of(4, cx.pick(2, 3));
            let pick = [&all[0], &all[1], &all[2], &all[5]];
            let names: Vec<_> = [("null", "null"), ("old", "new"), ("old", "null")].into_iter().collect();
            cx.par((rows.len() * rows.len() * names.len()) as u64, |i| {
                let d = nth_mixed(&[rows.len(), rows.len(), names.len()], i);
                let at = place(format!("v{i}"));
                let body = || {
                    let mut db = vec![];
                    for (k, r) in [&rows[d[0]], &rows[d[1]]].into_iter().enumerate() {
                        for io in [plain, Io { private: true, hop: Some(false), ..plain }] {
                            let row: Vec<&Pkt> = r.iter().map(|n| pick[*n]).collect();
                            let (old, new) = names[d[2]];
                            let was = std::cell::RefCell::new(std::mem::take(&mut db));
                            run(format!("save {r:?} as number {k} after {:?} old to {old} new to {new} {io:?}", rows[d[0]]), &|| saves(&at, &row, &mut was.borrow_mut(), old, new, io));
                            db = was.into_inner();
                        }
                    }
                };
                std::thread::scope(|s| {
                    s.spawn(body);
                });
                let _ = std::fs::remove_dir_all(&at.dir);
            })
        });
        cx.section("no packets", || {
            let at = place("none".into());
            let none = || PktReadOpts { pkts: None, no_pkts: true };
            let db = at.dir.join("db");
            let calls: [(&str, &dyn Fn() -> anyhow::Result<()>); 5] = [
                ("filter", &|| select(plain.common(&db), Filter::__make(false, DGPDWatchCLIOpts { dgpd: None, watch_opts: ExtWatchCLIOpts { aliases: PredicateAliases::default(), exprs: vec![] }, bare: false }, at.dest("to"), at.dest("to"), none(), false, false))),
                ("rewrite", &|| rewrite(&plain.common(&db), Rewrite::__make(None, None, None, None, false, SignMode::Unsign, at.dest("to"), at.dest("to"), none(), key(1), data_opts(None)))),
                ("collect", &|| {
                    let build = PointOpts { create: None, create_int: None, sign: false, read: data_opts(None), key: key(0), dgs: "c:[#:pub]:/s/t".parse().unwrap(), link: vec![] };
                    collect(&plain.common(&db), Collect::__make("t".parse().unwrap(), None, false, vec![], 1, None, at.dest("to"), at.dest("to"), none(), build))
                }),
                ("links", &|| exec(plain.common(&db), GetLinks::__make(none(), at.dest("to"), at.dest("to"), None, true, GetLinksMode::Error))),
                ("save", &|| save(SaveForward::__make(vec!["db".parse().unwrap()], at.dest("to"), false, none()), plain.common(&db))),
            ];
            for (name, f) in &calls {
                run(format!("{name} without any packet to read"), &|| {
                    let r = no_panic(f)?;
                    ensure!(r.is_ok(), "it ends with {r:?}");
                    ensure!(at.take("to").is_empty(), "something was written");
                    Ok(true)
                })
            }
        });
        cx.section("points", || {
            let rows: Vec<Vec<usize>> = (0..5).map(|n| vec![0; n]).collect();
            each(cx, "p", &rows, &|at, row, _| {
                let blocks = &b"ABCDE"[..row.len()];
                for io in &ios {
                    for k in 0..8 {
                        for links in 0..3 {
                            for g in ["[#:pub]", "[#:0]"] {
                                let (m, c, s) = (k & 1 == 1, k & 2 == 2, k & 4 == 4);
                                if c && !m {
                                    continue;
                                }
                                run(format!("point {} multi {m} chained {c} signed {s} {links} links in {g} {io:?}", show(blocks)), &|| points(at, blocks, m, c, links, s, *io, g))
                            }
                        }
                    }
                }
            })
        });
    })
}
