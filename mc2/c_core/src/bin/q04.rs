//! A database query yields exactly the packets that match, each once, in the order of the index that was asked for.
use c_core::*;
use core_::env::lmdb::BTreeEnv;
use core_::env::query_mode::Mode;
use core_::env::misc::SaveState;
use kit::*;

const MODES: [&str; 6] = ["tree-asc", "tree-desc", "log-asc", "log-desc", "hash-asc", "hash-desc"];
const FIRST: u64 = 1000;

fn universe4() -> Vec<Pkt> {
    let mut v = vec![];
    let l = |g: u8, d: &str, s: &str, t: u64, data: &[u8], k: Option<usize>| make(link_spec(g, d, s, t, data), k);
    v.push(l(1, "a", "", 5, b"", None));
    v.push(l(1, "a", "/a", 5, b"", None));
    v.push(l(1, "a", "/a", 6, b"x", Some(0)));
    v.push(l(1, "a", "/a", 6, b"yy", Some(0)));
    v.push(l(1, "a", "/a", 7, b"", Some(0)));
    v.push(l(1, "a", "/a", 5, b"", Some(2)));
    v.push(l(1, "a", "/a/b", 6, b"", None));
    v.push(l(1, "a", "/a/b", 5, b"", Some(1)));
    v.push(l(1, "a", "/a/b", 7, b"", Some(1)));
    v.push(l(1, "a", "/b", 6, b"", Some(1)));
    v.push(l(1, "a", "/b/a", 6, b"", Some(0)));
    v.push(l(1, "a", "/aa/b", 6, b"", Some(2)));
    v.push(l(1, "a", "/a/b/c", 6, b"", Some(2)));
    v.push(l(1, "a", "/b/b/c", 6, b"", None));
    v.push(l(1, "b", "/a/b", 6, b"", Some(1)));
    v.push(l(1, "b", "/b", 5, b"", None));
    v.push(l(2, "a", "/a", 6, b"", Some(1)));
    v.push(l(2, "a", "/a", 7, b"", Some(1)));
    v.push(l(2, "a", "/a", 8, b"", Some(1)));
    v.push(l(2, "a", "/a/b", 5, b"", Some(2)));
    let mut s = link_spec(1, "a", "", 6, b"");
    // a component whose bytes are below every key, and one above
    s.space = vec![b"a".to_vec(), vec![0; 1]];
    v.push(make(s.clone(), Some(1)));
    s.space = vec![b"a".to_vec(), vec![255; 40]];
    v.push(make(s.clone(), Some(1)));
    s.space = spc("/a/b");
    s.links = vec![([7; 16], [9; 32])];
    v.push(make(s, None));
    v.push(make(data_spec(b""), None));
    v.push(make(data_spec(b"z"), None));
    v
}
struct Db<'a> {
    env: BTreeEnv,
    /// in order of arrival
    log: Vec<(u64, &'a Pkt)>,
    _dir: Scratch,
}
fn fill<'a>(pkts: &[&'a Pkt]) -> Result<Db<'a>, String> {
    let dir = Scratch::new();
    let env = dir.open().map_err(|e| e.to_string())?;
    let mut l: Vec<(&NetPktPtr, SaveState)> = pkts.iter().map(|p| (p.ptr(), SaveState::Pending)).collect();
    let clock = vclock::freeze(FIRST);
    let r = env.save_ptr(&mut l).map_err(|e| e.to_string())?;
    drop(clock);
    if r != (FIRST..FIRST + pkts.len() as u64) {
        return Err(format!("saved as {r:?}"));
    }
    Ok(Db { env, log: pkts.iter().enumerate().map(|(i, p)| (FIRST + i as u64, *p)).collect(), _dir: dir })
}
fn want(db: &Db, rules: &[Rule], mode: &str) -> Vec<u64> {
    matching(&db.log, rules, mode).into_iter().enumerate().filter(|(n, _)| within(rules, "i", *n as u32)).map(|x| x.1 .0).collect()
}
fn ask(db: &Db, rules: &[Rule], modes: &[&str]) -> CaseResult {
    let Ok(q) = no_panic(|| query(rules))? else {
        if !want(db, rules, "log-asc").is_empty() {
            return bad("refused", "refused though there are results".to_string());
        }
        return Ok(false);
    };
    let mut any = false;
    let has = |n: &str| rules.iter().any(|r| r.name == n);
    for m in modes {
        let mode: Mode = m.parse().map_err(|_| format!("unknown mode {m}"))?;
        let want = want(db, rules, m);
        let got = no_panic(|| -> Result<Vec<(u64, bool)>, String> {
            let txn = db.env.new_read_txn().map_err(|e| e.to_string())?;
            let mut nth = 0;
            let it = txn.query(mode, &q.predicates, &mut nth).map_err(|e| e.to_string())?;
            let mut v = vec![];
            for p in it {
                let same = db.log.iter().any(|(r, x)| *r == p.recv.get() && x.hash == p.hash());
                v.push((p.recv.get(), same));
                if v.len() > db.log.len() + 3 {
                    break;
                }
            }
            Ok(v)
        })
        .map_err(|msg| Bad { key: format!("{m} panic {}", msg.split(" at ").next().unwrap_or("")), msg })??;
        any |= !want.is_empty();
        let list: Vec<u64> = got.iter().map(|g| g.0).collect();
        if list != want || got.iter().any(|g| !g.1) {
            let what = if list.len() > want.len() { "too many" } else if list.len() < want.len() { "missing" } else { "other order or packet" };
            let kind = if has("i_branch") { " i_branch" } else { "" };
            return bad(format!("{m} {what}{kind}"), format!("{m}: {list:?} instead of {want:?} of {}", db.log.iter().map(|(r, p)| format!("{r}: {}", p.spec.describe())).collect::<Vec<_>>().join("; ")));
        }
    }
    Ok(any)
}
fn opts(name: &'static str, l: &[(&'static str, Vec<u8>)]) -> Vec<Vec<Rule>> {
    std::iter::once(vec![]).chain(l.iter().map(|(op, v)| vec![rule(name, op, v.clone())])).collect()
}
fn product(sets: &[&[Vec<Rule>]]) -> Vec<Vec<Rule>> {
    let mut v: Vec<Vec<Rule>> = vec![vec![]];
    for s in sets {
        v = v.iter().flat_map(|a| s.iter().map(|b| [&a[..], &b[..]].concat())).collect()
    }
    v
}
fn main() {
    kit::main("Q04", "model_checking", |cx| {
        cx.rule("For every database and query each mode yields exactly the matching packets, each once, in the order of its index, limited per branch, per database and in all as the counters say");
        cx.assume("an in-memory database stands in for the installed one; it has its key order, duplicate order, cursors and transactions");

        let u = universe4();
        let key = |i: usize| keys()[i].pubkey_bytes().to_vec();
        let stamp = |v: u64| v.to_be_bytes().to_vec();
        let spaces: Vec<Vec<Rule>> = std::iter::once(vec![])
            .chain(["/a", "/a/b", "/b", "/aa"].iter().map(|s| vec![rule("prefix", "=", flat(&spc(s)))]))
            .chain(["/a", "/a/b"].iter().map(|s| vec![rule("spacename", "=", flat(&spc(s)))]))
            .collect();
        let depth = opts("depth", &[("=", vec![0]), ("=", vec![1]), ("=", vec![2]), ("=", vec![3]), (">", vec![0]), (">", vec![1]), (">", vec![8]), ("<", vec![2]), ("0", vec![1]), ("1", vec![1]), ("1", vec![2])]);
        let pubkey = opts("pubkey", &[("=", key(0)), ("=", key(1)), ("=", key(2)), (">", key(0)), ("<", key(2)), ("<", key(1))]);
        let group = opts("group", &[("=", vec![1; 32]), ("=", vec![2; 32]), (">", vec![1; 32]), ("<", vec![2; 32]), ("=", vec![3; 32])]);
        let domain = opts("domain", &[("=", dom("a").to_vec()), ("=", dom("b").to_vec()), (">", dom("a").to_vec()), ("<", dom("b").to_vec()), ("=", vec![255; 16])]);
        let create = opts("create", &[("=", stamp(6)), (">", stamp(5)), ("<", stamp(6)), (">", stamp(6)), ("0", stamp(1)), ("=", stamp(9))]);
        let entry: Vec<Vec<Rule>> = [
            opts("hash", &[("=", u[3].hash.to_vec()), ("<", u[7].hash.to_vec()), (">", u[7].hash.to_vec()), ("=", u[u.len() - 1].hash.to_vec()), ("1", [vec![1], vec![0; 31]].concat())]),
            opts("links_len", &[("=", vec![0, 1]), ("=", vec![0, 0])]),
            opts("data_size", &[("=", vec![0, 1]), (">", vec![0, 0])]),
            opts("recv", &[("=", stamp(FIRST + 2)), ("<", stamp(FIRST + 2)), (">", stamp(FIRST + 1)), ("<", stamp(FIRST)), (">", stamp(FIRST + 30)), ("=", stamp(FIRST)), ("<=", stamp(FIRST + 30))]),
        ]
        .concat();
        let late: Vec<Vec<Rule>> = [opts("type", &[("=", vec![1]), ("=", vec![3]), ("=", vec![7]), ("0", vec![4])]), opts("size", &[("<", vec![1, 0]), (">", vec![1, 0])])].concat();

        let small: Vec<Vec<Rule>> = [
            product(&[&spaces, &depth, &pubkey]),
            product(&[&group, &domain, &[vec![], vec![rule("prefix", "=", flat(&spc("/a")))], vec![rule("depth", "=", vec![2])]]]),
            product(&[&create, &pubkey]),
            product(&[&create, &depth]),
            product(&[&entry, &create[..3]]),
            product(&[&late, &spaces]),
        ]
        .concat();
        let mut small = small;
        let mut seen = std::collections::HashSet::new();
        small.retain(|r| seen.insert(show_rules(r)));
        let k = cx.pick(2, 4);
        cx.bound("packets", u.len());
        cx.bound("queries of small databases", small.len());
        cx.bound("packets of a small database", k);
        let mut subsets: Vec<Vec<usize>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..k {
            let to = subsets.len();
            for i in from..to {
                let first = subsets[i].last().map_or(0, |l| l + 1);
                for j in first..u.len() {
                    let s = [&subsets[i][..], &[j]].concat();
                    subsets.push(s)
                }
            }
            from = to;
        }
        cx.states(subsets.len() as u64);
        let run = |sub: &[usize], qs: &[Vec<Rule>], modes: &[&str]| {
            let pkts: Vec<&Pkt> = sub.iter().map(|i| &u[*i]).collect();
            let mut db = None;
            cx.case_k(format!("save {sub:?}").as_bytes(), &|| format!("save {sub:?}"), || {
                db = Some(no_panic(|| fill(&pkts))??);
                Ok(true)
            });
            let Some(db) = db else { return };
            cx.transitions((qs.len() * modes.len()) as u64);
            for q in qs {
                let t = || format!("packets {sub:?}: {}", show_rules(q));
                cx.case_k(b"", &t, || masks(contradicts(q), || ask(&db, q, modes)));
            }
        };
        cx.section("small databases", || {
            cx.par(subsets.len() as u64, |i| run(&subsets[i as usize], &small, &MODES));
        });
        let all: Vec<usize> = (0..u.len()).collect();
        // every other order of arrival
        let mixed: Vec<usize> = (0..u.len()).map(|i| (i * 7 + 3) % u.len()).collect();
        assert!({
            let mut m = mixed.clone();
            m.sort();
            m == all
        });
        cx.section("all packets and all but one", || {
            let big = product(&[&spaces, &depth, &pubkey[..cx.pick(4, 7)], &group[..cx.pick(3, 6)], &domain[..cx.pick(3, 6)], &create[..cx.pick(2, 6)]]);
            cx.bound("queries of all packets", big.len());
            let chunk = 500;
            cx.par(big.len().div_ceil(chunk) as u64, |i| {
                let qs = &big[i as usize * chunk..][..chunk.min(big.len() - i as usize * chunk)];
                run(if i % 2 == 0 { &all } else { &mixed }, qs, if cx.quick() { &MODES[..3] } else { &MODES });
            });
            cx.par(u.len() as u64, |i| {
                let mut l = mixed.clone();
                l.retain(|x| *x != i as usize);
                run(&l, &small, &MODES);
            });
        });
        cx.section("counters", || {
            let num = |n: u32| n.to_be_bytes().to_vec();
            let lim = |name| opts(name, &[("=", num(0)), ("=", num(1)), ("=", num(3)), ("<", num(2)), (">", num(0)), ("<", num(5)), ("1", num(1)), ("0", num(1)), ("<", num(0)), (">", num(40))]);
            let (b, d, i) = (lim("i_branch"), lim("i_db"), lim("i"));
            let base = product(&[&spaces[..3], &depth[..7], &pubkey[..3], &create[..4]]);
            let base: Vec<_> = base.into_iter().step_by(cx.pick(3, 1)).collect();
            let qs: Vec<Vec<Rule>> = [product(&[&base, &b]), product(&[&base, &d, &i[..4]]), product(&[&base[..8], &b, &d, &i]), product(&[&late, &d, &i]), product(&[&entry, &b, &d[..4], &i[..4]])].concat();
            cx.bound("queries with counters", qs.len());
            let chunk = 500;
            cx.par(qs.len().div_ceil(chunk) as u64, |i| {
                let qs = &qs[i as usize * chunk..][..chunk.min(qs.len() - i as usize * chunk)];
                run(if i % 2 == 0 { &all } else { &mixed }, qs, &MODES);
            });
        });
    });
}
