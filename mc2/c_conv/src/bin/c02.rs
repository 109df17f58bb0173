//! The pull convention: which packet a query becomes, and that the query can be read back from it.
use c_core::{PRIVATE, *};
use kit::*;
use linkspace::prelude as lk;
use linkspace::runtime as rt;
use linkspace_core as core_;

const START: u64 = 1_000_000;

#[derive(Clone, Debug)]
enum St {
    R(Rule),
    /// an option by its values
    O(Vec<Vec<u8>>),
}
fn text(l: &[St]) -> String {
    l.iter()
        .map(|s| match s {
            St::R(r) => r.text(),
            St::O(v) => v.iter().map(|v| show(v)).fold(String::new(), |a, v| format!("{a}:{v}")),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
fn group(n: u8) -> Vec<u8> {
    vec![n; 32]
}
fn statements(thorough: bool) -> Vec<St> {
    let r = |n, op, v: Vec<u8>| St::R(rule(n, op, v));
    let o = |v: &[&[u8]]| St::O(v.iter().map(|v| v.to_vec()).collect());
    let mut v = vec![
        r("group", "=", group(1)),
        r("group", "=", group(0)),
        r("group", "<", group(2)),
        r("group", ">", group(0)),
        r("domain", "=", dom("a").to_vec()),
        r("domain", "=", dom("").to_vec()),
        r("domain", ">", dom("a").to_vec()),
        r("domain", "=*", dom("").to_vec()),
        o(&[b"qid", b"a"]),
        o(&[b"qid", b"a:/[\\]\n\xff\0"]),
        o(&[b"qid", b""]),
        o(&[b"qid"]),
        o(&[b"qid", &[b'q'; 200]]),
        o(&[b"qid", &[b'q'; 165]]),
        o(&[b"mode", b"log-asc"]),
        o(&[b"follow"]),
        o(&[b"other", b"x", b":y"]),
        n32("i", "<", 3).into(),
        St::R(rule("prefix", "=", core_::prelude::rspace_buf(&[b"x", b"\xff"]).space_bytes().to_vec())),
        St::R(rule("create", ">", 5u64.to_be_bytes())),
    ];
    if thorough {
        v.extend([
            r("group", "0", group(1)),
            r("domain", "<", dom("zzz").to_vec()),
            o(&[b"qid", b"b"]),
            St::R(rule("hash", "=", group(9))),
            St::R(rule("data_size", "<", 9u16.to_be_bytes())),
            n32("i_db", "=", 0).into(),
        ])
    }
    v
}
fn n32(n: &'static str, op: &'static str, v: u32) -> Rule {
    rule(n, op, v.to_be_bytes())
}
impl From<Rule> for St {
    fn from(r: Rule) -> St {
        St::R(r)
    }
}
/// the only value the statements about the field leave, if it is given as such
fn exact(l: &[St], name: &str) -> Option<Option<Vec<u8>>> {
    let rs: Vec<&Rule> = l.iter().filter_map(|s| if let St::R(r) = s { (r.name == name).then_some(r) } else { None }).collect();
    match rs.iter().find(|r| r.op == "=") {
        Some(r) => Some(Some(r.val.clone())),
        // a range that leaves one value may count
        None if rs.len() > 1 => None,
        None => Some(None),
    }
}
fn check(cx: &Cx, rtm: &linkspace::Linkspace, l: &[St]) -> CaseResult {
    let mut q = lk::lk_query(&lk::Q);
    for s in l {
        q = match s {
            St::R(r) => match lk::lk_query_push(q, r.name, r.op, &r.val) {
                Ok(q) => q,
                Err(_) => return Ok(false),
            },
            St::O(v) => {
                let t = v.iter().fold(String::new(), |a, v| format!("{a}:{}", lk::lk_encode(v, "")));
                match lk::lk_query_parse(q, &[&t], ()) {
                    Ok(q) => q,
                    Err(e) => return bad("option", format!("{t}: {e:#}")),
                }
            }
        };
    }
    let r = match no_panic(|| lk::lk_pull(rtm, &q)) {
        Ok(r) => r,
        Err(p) => return bad("panic", p),
    };
    cx.traces(1);
    let (g, d) = (exact(l, "group"), exact(l, "domain"));
    let id = l.iter().rev().find_map(|s| if let St::O(v) = s { (v[0] == b"qid").then(|| v.get(1).cloned()) } else { None }).flatten();
    let space: Option<Vec<Vec<u8>>> = match (&g, &d, &id) {
        (Some(Some(g)), Some(Some(d)), Some(i)) if !i.is_empty() => Some(vec![b"pull".to_vec(), g.clone(), d.clone(), i.clone()]),
        (Some(None), ..) | (_, Some(None), _) | (_, _, None) => None,
        (_, _, Some(i)) if i.is_empty() => None,
        _ => return Ok(false),
    };
    let fits = |s: &[Vec<u8>]| s.iter().all(|c| c.len() <= 200) && s.iter().map(|c| c.len() + 1).sum::<usize>() + 8 <= MAX_ROOTED_SPACENAME_SIZE;
    let space = space.filter(|s| fits(s));
    let hash = match (r, &space) {
        (Err(_), None) => return Ok(false),
        (Err(_), Some(_)) if lk::lk_query_print(&q, true).len() > 60_000 => return Ok(false),
        (Err(e), Some(_)) => return bad("refused", format!("{e:#}")),
        (Ok(h), None) => return bad("not refused", format!("{h}")),
        (Ok(h), Some(_)) => h,
    };
    let space = space.unwrap();
    rt::lk_process(rtm);
    let mut found = None;
    rt::lk_get_hashes(rtm, &[hash], &mut |p| {
        found = Some(p.as_netbox());
        true
    })
    .map_err(|e| e.to_string())?;
    let Some(pkt) = found else { return bad("not saved", format!("{hash}")) };
    ensure!(*pkt.get_domain() == EXCHANGE, "domain {:?}", pkt.get_domain());
    ensure!(*pkt.get_group() == PRIVATE, "group {:?}", pkt.get_group());
    ensure!(pkt.get_links().is_empty() && pkt.pubkey().is_none(), "links or a key");
    let got: Vec<Vec<u8>> = pkt.get_rooted_spacename().iter().map(|c| c.to_vec()).collect();
    ensure!(got == space, "space {got:?} instead of {space:?}");
    let t = String::from_utf8(pkt.data().to_vec()).map_err(|e| e.to_string())?;
    let back = match lk::lk_query_parse(lk::lk_query(&lk::Q), &[&t], ()) {
        Ok(b) => b,
        Err(e) => return bad("read back", format!("{t:?}: {e:#}")),
    };
    let Some(want) = settle(q.as_impl().clone()) else { return Ok(false) };
    let back = back.as_impl();
    if norm(&back.predicates) != norm(&want.predicates) || back.to_str(false) != want.to_str(false) {
        return bad("read back", format!("{t:?} reads as {:?} instead of {:?}", back.to_str(false), want.to_str(false)));
    }
    Ok(true)
}
const EXCHANGE: Domain = abx(b"exchange");

fn main() {
    kit::main("C02", "model_checking", |cx| {
        cx.rule("a query with an exact group, an exact domain and an id becomes a private packet without links in the exchange domain, at /pull/GROUP/DOMAIN/ID, whose data reads back as the query; it is saved; any other query, and an id that does not fit, is refused without a panic");
        let all = statements(!cx.quick());
        let n = all.len();
        cx.section("queries that barely fit or do not fit a packet", || {
            let r = |n, op, v: Vec<u8>| St::R(rule(n, op, v));
            let lens: Vec<usize> = (64_000..66_000).step_by(cx.pick(37, 3)).chain([70_000, 200_000]).collect();
            cx.par(lens.len() as u64, |i| {
                let _clock = vclock::freeze(START);
                let dir = Scratch::new();
                let rtm: linkspace::Linkspace = linkspace_common::runtime::Linkspace::new_opt_rt(dir.open().unwrap(), Default::default()).into();
                let n = lens[i as usize];
                let l = [r("group", "=", group(1)), r("domain", "=", dom("a").to_vec()), St::O(vec![b"qid".to_vec(), b"a".to_vec()]), St::O(vec![b"o".to_vec(), vec![b'x'; n]])];
                cx.case_k(b"", &|| format!("an option of {n} bytes"), || check(cx, &rtm, &l));
            });
        });
        for k in 0..=cx.pick(4u32, 5) {
            cx.section(&format!("{k} statements"), || {
                let c = (n as u64).pow(k);
                let chunk = 2000;
                cx.par(c.div_ceil(chunk), |j| {
                    let _clock = vclock::freeze(START);
                    let dir = Scratch::new();
                    let env = dir.open().unwrap();
                    let rtm: linkspace::Linkspace = linkspace_common::runtime::Linkspace::new_opt_rt(env, Default::default()).into();
                    for i in j * chunk..((j + 1) * chunk).min(c) {
                        if cx.stopped() {
                            return;
                        }
                        vclock::set(START + i % chunk * 10);
                        let all = statements(!cx.quick());
                        let l: Vec<St> = nth_digits(n, k as usize, i).into_iter().map(|d| all[d].clone()).collect();
                        cx.case_k(b"", &|| text(&l), || check(cx, &rtm, &l));
                    }
                });
            });
        }
    })
}
