//! Filters on streams: repeats are taken out, data passes when it is linked.
use c_core::{data_spec, link_spec, make, Pkt};
use kit::*;
use linkspace_common::pkt_stream_utils::{Buffer, QuickDedup};
use linkspace_common::prelude::*;

fn dedup(cap: usize, hashes: &[[u8; 32]], seq: &[usize]) -> CaseResult {
    let mut d = QuickDedup::new(cap);
    let mut slots = vec![None; cap.max(1)];
    let mut any = false;
    for (n, i) in seq.iter().enumerate() {
        let h = hashes[*i];
        let got = d.probable_contains(B64(h));
        if got && !seq[..n].contains(i) {
            return bad("new one taken out", format!("item {n} was not there before"));
        }
        if !got && n > 0 && seq[n - 1] == *i {
            return bad("repeat passed", format!("item {n} is the one before it"));
        }
        // the latest of those that share a place is remembered
        let at = (u64::from_le_bytes(h[..8].try_into().unwrap()) % cap.max(1) as u64) as usize;
        let want = slots[at].replace(*i) == Some(*i);
        ensure!(got == want, "item {n} is {}", if got { "taken out" } else { "passed" });
        any |= got;
    }
    Ok(any)
}
fn buffer(pkts: &[Pkt], seq: &[usize]) -> CaseResult {
    let mut b = Buffer::default();
    let (mut waiting, mut linked): (Vec<usize>, Vec<LkHash>) = (vec![], vec![]);
    let mut any = false;
    for (n, i) in seq.iter().enumerate() {
        let p = &pkts[*i];
        let got: Vec<LkHash> = b.push(p.net.clone()).iter().map(|p| p.hash()).collect();
        let mut want = vec![];
        if p.spec.is_link() {
            linked = p.net.get_links().iter().map(|l| l.ptr).collect();
            want.extend(waiting.drain(..).filter(|w| linked.contains(&pkts[*w].net.hash())));
            want.push(*i);
        } else if linked.contains(&p.net.hash()) {
            want.push(*i)
        } else {
            waiting.push(*i)
        }
        let w: Vec<LkHash> = want.iter().map(|i| pkts[*i].net.hash()).collect();
        if got != w {
            let name = |h: &LkHash| pkts.iter().position(|p| p.net.hash() == *h);
            return bad("passed", format!("item {n} lets pass {:?} instead of {want:?}", got.iter().map(name).collect::<Vec<_>>()));
        }
        any |= want.len() > 1;
    }
    Ok(any)
}
fn main() {
    kit::main("T03", "model_checking", |cx| {
        cx.rule("a packet is taken out only if it passed before, and is if it came directly before; a data packet passes, once, if the next link packet or the last one before links it, in the order they came");
        cx.assume("no packet has the hash zero");
        let mut hashes: Vec<[u8; 32]> = vec![];
        for n in [1u64, 2, 4, 257, u64::MAX] {
            for last in [0u8, 9] {
                let mut h = [last; 32];
                h[..8].copy_from_slice(&n.to_le_bytes());
                hashes.push(h)
            }
        }
        let caps = [0usize, 1, 2, 3, 5, 256];
        let len = cx.pick(5, 6);
        cx.bound("repeats", format!("{} hashes that share places, {caps:?} places, up to {len} in a row", hashes.len()));
        cx.section("repeats", || {
            let n = (hashes.len() as u64).pow(len as u32);
            for cap in caps {
                cx.par(n, |i| {
                    let seq = nth_digits(hashes.len(), len, i);
                    cx.states(len as u64);
                    cx.transitions(len as u64);
                    cx.traces(1);
                    cx.case_k(b"", &|| format!("{cap} places: {seq:?}"), || dedup(cap, &hashes, &seq))
                })
            }
        });
        let data: Vec<Pkt> = (0..3u8).map(|i| make(data_spec(&[i]), None)).collect();
        let ptr = |i: usize| (*b"0123456789abcdef", data[i].hash.0);
        let link = |l: &[usize], key: Option<usize>| {
            let mut s = link_spec(1, "a", "/a", 5, b"");
            s.links = l.iter().map(|i| ptr(*i)).collect();
            make(s, key)
        };
        let mut pkts = vec![data[0].clone(), data[1].clone(), data[2].clone()];
        pkts.extend([link(&[], None), link(&[0], None), link(&[1, 0], None), link(&[1, 1], Some(0)), link(&[2, 1, 0], Some(1))]);
        // one that is private, and one that links a link packet
        let mut s = link_spec(0, "a", "/a", 5, b"");
        s.links = vec![ptr(2), (*b"0123456789abcdef", pkts[3].hash.0)];
        pkts.push(make(s, None));
        let len = cx.pick(5, 6);
        cx.bound("links", format!("{} packets, up to {len} in a row", pkts.len()));
        cx.section("links", || {
            let n = (pkts.len() as u64).pow(len as u32);
            cx.par(n, |i| {
                let seq = nth_digits(pkts.len(), len, i);
                cx.states(len as u64);
                cx.transitions(len as u64);
                cx.traces(1);
                cx.case_k(b"", &|| format!("{seq:?}"), || buffer(&pkts, &seq))
            })
        });
    })
}
