//! A query accepts exactly the packets that satisfy each of its predicates.
use c_core::*;
use core_::matcher::WatchEntry;
use kit::*;

const RECV: [u64; 5] = [0, 9, 10, 11, u64::MAX];
fn all_rules(u: &[Pkt], wide: bool) -> Vec<Rule> {
    let mut v = vec![];
    for (name, n, _) in NUM {
        let mut vals = if name == "recv" { RECV.iter().map(|v| v.to_be_bytes().to_vec()).collect() } else { values(u, name, n) };
        if !wide && vals.len() > 8 {
            let step = vals.len() / 5;
            vals = vals.into_iter().step_by(step).collect();
        }
        for op in OPS {
            if name == "recv" && matches!(op, "0" | "1" | "=*" | "*=") {
                // a stamp of arrival is only a range
                continue;
            }
            for x in &vals {
                match op {
                    "=*" | "*=" => {
                        for k in [0, 1, n / 2, n - 1, n] {
                            v.push(rule(name, op, if op == "=*" { x[..k].to_vec() } else { x[n - k..].to_vec() }))
                        }
                    }
                    _ => v.push(rule(name, op, x.clone())),
                }
                if name == "domain" {
                    // the short form
                    let cut = x.iter().take_while(|b| **b == 0).count();
                    for k in [cut, 15] {
                        v.push(rule(name, op, x[k.min(15)..].to_vec()))
                    }
                }
            }
        }
    }
    for s in space_values() {
        v.push(rule("prefix", "=", s.clone()));
        v.push(rule("spacename", "=", s));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|r| seen.insert(r.text()));
    v
}
fn judge(u: &[Pkt], rules: &[Rule]) -> CaseResult {
    let q = no_panic(|| query(rules))?;
    let ranged = rules.iter().any(|r| r.name == "recv");
    let recvs = if ranged { &RECV[..] } else { &RECV[2..3] };
    let want = |p: &Pkt, recv: u64| rules.iter().all(|r| r.holds(p, recv));
    let q = match q {
        Ok(q) => q,
        Err(e) => {
            for p in u {
                for r in recvs {
                    if want(p, *r) {
                        return bad("refused a query with results", format!("refused ({e}) though it has results: {}", p.spec.describe()));
                    }
                }
            }
            return Ok(false);
        }
    };
    let mut w = WatchEntry::new(vec![], q.clone(), 0, (), tracing::Span::none()).map_err(|e| format!("cannot watch: {e:#}"))?;
    let mut compiled = q.compile().map_err(|e| format!("cannot compile: {e:#}"))?;
    let mut hit = false;
    let mut first = true;
    for p in u {
        for r in recvs {
            w.nth_query = 0;
            w.nth_new = 0;
            let (got, flow) = w.test(p.at(*r));
            let want = want(p, *r);
            hit |= want;
            if got != want {
                return bad(
                    format!("{} {} {}", if got { "accepts" } else { "refuses" }, rules[0].name, rules[0].op),
                    format!("{} the packet received at {r}: {}", if got { "accepts" } else { "refuses" }, p.spec.describe()),
                );
            }
            let above = rules.iter().any(|x| x.name == "recv" && (matches!(x.op, "<") && *r >= be(&x.val) || matches!(x.op, "<=" | "=") && *r > be(&x.val)));
            let once = want && rules.iter().any(|x| x.name == "hash" && x.op == "=");
            ensure!(flow.is_break() == (above || once), "it {} after a packet received at {r}: {}", if flow.is_break() { "stops" } else { "goes on" }, p.spec.describe());
            // (copying a signed packet checks its signature in a debug build)
            if !ranged && (first || !once) && (p.spec.kind != 7 || rules.len() == 1) {
                ensure!(compiled(&p.net).0 == (want && first), "the compiled query says {}", !want);
                first &= !once;
            }
        }
    }
    Ok(hit)
}
/// counting: the n-th match is accepted when both counters allow n, and it stops when neither can again
fn counters(u: &[Pkt], rules: &[Rule], seen: u32, word: u64, len: u32) -> CaseResult {
    let (hit, miss) = (&u[6], &u[0]);
    let ok = |name: &str, i: u32| rules.iter().filter(|r| r.name == name).all(|r| r.counts(i));
    let some = |name: &str, at: u32| (at..at + 40).chain(u32::MAX - 40..=u32::MAX).any(|x| ok(name, x));
    let can = |new: u32, i: u32| some("i_new", new) && some("i", i);
    let mut all = vec![rule("domain", "=", dom("a"))];
    all.extend_from_slice(rules);
    let q = match no_panic(|| query(&all))? {
        Ok(q) => q,
        Err(e) => {
            // no match can ever be the wanted one: nothing from the index and nothing new, or no count at all
            ensure!(!some("i", 0) || !some("i_new", 0), "refused: {e}");
            return Ok(false);
        }
    };
    let mut w = match WatchEntry::new(vec![], q, seen, (), tracing::Span::none()) {
        Ok(w) => {
            ensure!(can(0, seen), "it can be watched though it can never match");
            w
        }
        Err(e) => {
            ensure!(!can(0, seen), "cannot be watched: {e:#}");
            return Ok(false);
        }
    };
    let (mut new, mut i) = (0, seen);
    for k in 0..len {
        let m = word >> k & 1 == 1;
        let (got, flow) = w.test(if m { hit } else { miss }.at(10));
        let want = m && ok("i_new", new) && ok("i", i);
        ensure!(got == want, "packet {k} ({}match, {new} new and {i} in all before it) is {}", if m { "" } else { "no " }, if got { "accepted" } else { "refused" });
        if m {
            new += 1;
            i += 1;
        }
        ensure!(!flow.is_break() || !can(new, i), "it stops after packet {k} though more is wanted");
        // plain upper limits stop it
        let done = |n: &str, at: u32| rules.iter().any(|r| r.name == n && matches!(r.op, "<" | "<=" | "=") && !(at..300).chain(u32::MAX - 40..=u32::MAX).any(|x| r.counts(x)));
        ensure!(!m || flow.is_break() || !(done("i_new", new) || done("i", i)), "it goes on after packet {k}");
        if flow.is_break() {
            break;
        }
        ensure!(w.status().nth_query == i, "it counts {} matches of {i}", w.status().nth_query);
    }
    Ok(true)
}
fn be(b: &[u8]) -> u64 {
    u64::from_be_bytes(b.try_into().unwrap())
}
fn main() {
    kit::main("Q03", "model_checking", |cx| {
        cx.rule("A packet is accepted exactly when it has every field asked about and each statement holds for it; adding statements in any order gives the same; only a query that nothing can satisfy is refused");
        let u = universe();
        cx.bound("packets", u.len());
        let wide = all_rules(&u, true);
        cx.bound("statements alone", wide.len());
        cx.section("one statement", || {
            cx.par(wide.len() as u64, |i| {
                let r = &wide[i as usize..][..1];
                cx.transitions(u.len() as u64);
                let t = r[0].text();
                cx.case_k(t.as_bytes(), &|| t.clone(), || masks(contradicts(r), || judge(&u, r)));
            })
        });
        cx.section("operators that do not apply", || {
            for op in ["0", "1", "=*", "*="] {
                for v in [0u64, 1, 10, u64::MAX] {
                    let r = rule("recv", op, v.to_be_bytes());
                    cx.case_k(r.text().as_bytes(), &|| r.text(), || {
                        // bits of the stamp of arrival are either compared or refused
                        match no_panic(|| query(&[r.clone()]))? {
                            Ok(_) => judge(&u, &[r.clone()]),
                            Err(_) => Ok(true),
                        }
                    });
                }
            }
        });
        let few: Vec<Rule> = {
            let all = all_rules(&u, false);
            let step = 1;
            all.into_iter().enumerate().filter(|(i, r)| i % step == 0 || r.name == "prefix" || r.name == "spacename").map(|x| x.1).collect()
        };
        cx.bound("statements in pairs", few.len());
        cx.section("two statements", || {
            cx.par(few.len() as u64, |a| {
                for b in 0..few.len() {
                    let rs = [few[a as usize].clone(), few[b].clone()];
                    // two fields at a time, and everything about one field
                    cx.transitions(u.len() as u64);
                    let t = show_rules(&rs);
                    cx.case_k(t.as_bytes(), &|| t.clone(), || masks(contradicts(&rs), || judge(&u, &rs)));
                }
            })
        });
        // every field with the values that tell the packets apart
        let one: Vec<Rule> = {
            let mut v = vec![];
            for (name, n, _) in NUM {
                let x = if name == "recv" { 10u64.to_be_bytes().to_vec() } else { u[7].field(name).to_vec() };
                for op in ["=", "<", ">", ">=", "<=", "0", "1"] {
                    if !(name == "recv" && matches!(op, "0" | "1")) {
                        v.push(rule(name, op, x.clone()))
                    }
                }
                let _ = n;
            }
            for s in ["/a", "/b", "/a/b"] {
                v.push(rule("prefix", "=", flat(&spc(s))));
                v.push(rule("spacename", "=", flat(&spc(s))));
            }
            v
        };
        cx.bound("statements in triples", one.len());
        cx.section("three statements", || {
            cx.par(one.len() as u64, |a| {
                for b in 0..one.len() {
                    for c in 0..one.len() {
                        if cx.quick() && (a as usize + b + c) % 4 != 0 {
                            continue;
                        }
                        let rs = [one[a as usize].clone(), one[b].clone(), one[c].clone()];
                        let t = show_rules(&rs);
                        cx.case_k(t.as_bytes(), &|| t.clone(), || masks(contradicts(&rs), || judge(&u, &rs)));
                    }
                }
            })
        });
        let lim: Vec<Rule> = ["i", "i_new"]
            .iter()
            .flat_map(|n| ["=", "<", ">", "<=", ">=", "0", "1"].into_iter().flat_map(move |op| [0u32, 1, 2, 3, 5, u32::MAX - 1, u32::MAX].map(move |v| rule(n, op, v.to_be_bytes()))))
            .collect();
        let len = cx.pick(5u32, 7);
        cx.bound("packets counted", len);
        cx.section("counted matches", || {
            let n = lim.len() as u64;
            cx.par(n * (n + 1), |x| {
                let (a, b) = ((x % n) as usize, (x / n) as usize);
                let mut rs = vec![lim[a].clone()];
                if b < n as usize {
                    rs.push(lim[b].clone())
                }
                for seen in [0u32, 1, 2, 4] {
                    for word in 0..1u64 << len {
                        cx.transitions(len as u64);
                        let t = format!("{} after {seen} word {word:b}", show_rules(&rs));
                        cx.case(t.as_bytes(), || masks(contradicts(&rs), || counters(&u, &rs, seen, word, len)));
                    }
                }
            })
        });
    })
}
