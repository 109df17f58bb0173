//! Packet streams: whatever way the bytes arrive, the same packets are read, and a broken stream ends with an error.
use c_core::{data_spec, keys, link_spec, make, parse, NetPkt, No, Pkt, Spec};
use kit::*;
use linkspace_common::pkt_reader::NetPktDecoder;
use std::io::{Error, ErrorKind, Read};

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    /// deliver up to here first
    Cut,
    Zero,
    Interrupted,
    Fail,
}
/// delivers the bytes up to each position, in reads of at most `max`, with what happens there
struct Src<'a> {
    bytes: &'a [u8],
    at: usize,
    max: usize,
    then: Vec<(usize, What)>,
    eof_error: bool,
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some((p, w)) = self.then.first().copied() {
            if p <= self.at {
                self.then.remove(0);
                match w {
                    What::Cut => (),
                    What::Zero => return Ok(0),
                    What::Interrupted => return Err(ErrorKind::Interrupted.into()),
                    What::Fail => return Err(Error::new(ErrorKind::Other, "broken")),
                }
            }
        }
        let to = self.then.first().map_or(self.bytes.len(), |t| t.0.max(self.at + 1)).min(self.bytes.len());
        let n = (to - self.at).min(self.max).min(buf.len());
        if n == 0 && self.eof_error {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        buf[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
#[derive(Clone, Copy, Debug)]
struct Opts {
    hop: bool,
    private: bool,
    skip_hash: bool,
}
#[derive(Debug, PartialEq)]
enum Out {
    Pkt(Vec<u8>),
    Err,
    End,
}
/// what the reader should say about these bytes: packets, then the end or an error
fn expect(mut b: &[u8], o: Opts) -> Vec<Out> {
    let mut v = vec![];
    loop {
        if b.is_empty() {
            v.push(Out::End);
            return v;
        }
        match parse(b, !o.skip_hash) {
            Ok(s) if o.private || !s.is_link() || s.group != [0; 32] => {
                let n = 64 + (s.point_len() + 7) / 8 * 8;
                let mut p = b[..n].to_vec();
                if o.hop {
                    let h = u32::from_be_bytes(p[4..8].try_into().unwrap()).saturating_add(1);
                    p[4..8].copy_from_slice(&h.to_be_bytes());
                    p[3] &= 0x7f;
                }
                v.push(Out::Pkt(p));
                b = &b[n..];
            }
            _ => {
                v.push(Out::Err);
                return v;
            }
        }
    }
}
fn run(cx: &Cx, bytes: &[u8], max: usize, then: &[(usize, What)], eof_error: bool, o: Opts, want: &[Out]) -> CaseResult {
    cx.states(want.len() as u64);
    cx.transitions(want.len() as u64);
    cx.traces(1);
    let mut d = NetPktDecoder::new(Src { bytes, at: 0, max, then: then.to_vec(), eof_error });
    d.hop = o.hop;
    d.allow_private = o.private;
    d.skip_hash = o.skip_hash;
    let mut got = vec![];
    let r = no_panic(|| {
        while got.len() <= want.len() {
            got.push(match d.next() {
                None => Out::End,
                Some(Err(_)) => Out::Err,
                Some(Ok(p)) => {
                    let mut v = vec![];
                    p.byte_segments().write_into(&mut v).unwrap();
                    Out::Pkt(v)
                }
            });
            if !matches!(got.last(), Some(Out::Pkt(_))) {
                return;
            }
        }
    });
    if let Err(p) = r {
        return bad("panic", p);
    }
    if got != want {
        let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
        let key = match (got.get(i), want.get(i)) {
            (Some(Out::Pkt(_)), Some(Out::Pkt(_))) => "another packet",
            (Some(Out::Pkt(_)), _) => "accepted",
            (Some(Out::End), Some(Out::Err)) => "silent end",
            (Some(Out::End), _) => "packet lost",
            _ => "refused",
        };
        return bad(key, format!("item {i} is {:?} instead of {:?}", show_out(got.get(i)), show_out(want.get(i))));
    }
    Ok(want.iter().any(|o| matches!(o, Out::Pkt(_))))
}
fn show_out(o: Option<&Out>) -> String {
    match o {
        Some(Out::Pkt(p)) => format!("a packet of {} bytes, hash {}", p.len(), c_core::hex(&p[32..40])),
        o => format!("{o:?}"),
    }
}
fn packets() -> Vec<(&'static str, Vec<u8>)> {
    let with = |mut s: Spec, f: &dyn Fn(&mut Spec)| {
        f(&mut s);
        s
    };
    let b = |p: Pkt| p.spec.bytes();
    vec![
        ("data", b(make(data_spec(b"some data"), None))),
        ("empty data", b(make(data_spec(b""), None))),
        ("link", b(make(with(link_spec(1, "d", "/a/b", 7, b"x"), &|s| s.links = vec![([1; 16], [2; 32])]), None))),
        ("key", b(make(link_spec(2, "d", "", 9, b"signed"), Some(0)))),
        ("private", b(make(link_spec(0, "d", "/p", 9, b""), None))),
        ("hops", {
            let mut v = b(make(link_spec(3, "e", "/q", 1, b"12345678"), None));
            v[3] = 0x8f;
            v[4..8].copy_from_slice(&[255, 255, 255, 254]);
            v
        }),
        ("most hops", {
            let mut v = b(make(data_spec(b"12"), None));
            v[4..8].copy_from_slice(&[255; 4]);
            v
        }),
    ]
}
fn show_then(t: &[(usize, What)]) -> String {
    t.iter().map(|(p, w)| format!("{w:?}@{p}")).collect::<Vec<_>>().join(" ")
}

fn main() {
    let _ = keys();
    kit::main("R01", "model_checking", |cx| {
        let all = packets();
        let opts: Vec<Opts> = (0..8).map(|i| Opts { hop: i & 1 == 0, private: i & 2 != 0, skip_hash: i & 4 != 0 }).collect();
        cx.rule("the packets of the stream, in order, with one more hop (if asked for), however the bytes are cut; at the end of the stream, the end; an error for the first packet that is cut off, malformed, has another hash or signature, or is private (unless allowed); a read that was interrupted changes nothing, one that fails is an error");
        // every way to cut
        let seqs: Vec<Vec<usize>> = (0..all.len()).flat_map(|a| std::iter::once(vec![a]).chain((0..all.len()).map(move |b| vec![a, b]))).chain([vec![0, 3, 2, 1], vec![]]).collect();
        cx.bound("streams", seqs.len());
        cx.section("two cuts", || {
            cx.par(seqs.len() as u64, |i| {
                let s = &seqs[i as usize];
                let names: Vec<_> = s.iter().map(|p| all[*p].0).collect();
                let bytes: Vec<u8> = s.iter().flat_map(|p| all[*p].1.clone()).collect();
                for o in &opts {
                    let want = expect(&bytes, *o);
                    let (one, quick) = (s.len() < 2, cx.quick());
                    let step = if !quick { 1 } else if one { 2 } else { 61 };
                    for a in (0..=bytes.len()).step_by(if quick && o.skip_hash { 3 } else { 1 }) {
                        for b in (a..=bytes.len()).step_by(step) {
                            let then = [(a, What::Cut), (b, What::Cut)];
                            cx.case_k(b"", &|| format!("{names:?} {o:?} {}", show_then(&then)), || run(cx, &bytes, usize::MAX, &then, false, *o, &want));
                        }
                    }
                    for max in (1..=bytes.len().min(300)).step_by(if quick && !one { 3 } else { 1 }) {
                        cx.case_k(b"", &|| format!("{names:?} {o:?} at most {max} per read"), || run(cx, &bytes, max, &[], max % 2 == 0, *o, &want));
                    }
                }
            });
        });
        // interruptions and failures
        let kinds = [What::Interrupted, What::Fail];
        cx.section("interruptions, failures and empty reads", || {
            cx.par(seqs.len() as u64, |i| {
                let s = &seqs[i as usize];
                let names: Vec<_> = s.iter().map(|p| all[*p].0).collect();
                let bytes: Vec<u8> = s.iter().flat_map(|p| all[*p].1.clone()).collect();
                let o = Opts { hop: true, private: true, skip_hash: false };
                let whole = expect(&bytes, o);
                // what was complete before the failure
                let until = |p: usize| {
                    let mut v: Vec<Out> = vec![];
                    let mut at = 0;
                    for w in expect(&bytes, o) {
                        match w {
                            Out::Pkt(b) if at + b.len() <= p => {
                                at += b.len();
                                v.push(Out::Pkt(b))
                            }
                            _ => break,
                        }
                    }
                    v.push(Out::Err);
                    v
                };
                for a in 0..=bytes.len() {
                    for k in kinds {
                        let then = [(a, k)];
                        let want = if k == What::Fail { until(a) } else { expect(&bytes, o) };
                        cx.case_k(b"", &|| format!("{names:?} {}", show_then(&then)), || run(cx, &bytes, usize::MAX, &then, false, o, &want));
                    }
                    if s.len() < 2 || !cx.quick() || a % 4 == 0 {
                        for b in (a..=bytes.len()).step_by(if s.len() < 2 || !cx.quick() { 1 } else { 11 }) {
                            let then = [(a, What::Interrupted), (b, What::Interrupted)];
                            cx.case_k(b"", &|| format!("{names:?} {}", show_then(&then)), || run(cx, &bytes, usize::MAX, &then, false, o, &whole));
                        }
                    }
                }
                // an empty read between packets is not the end yet
                let mut at = 0;
                for w in &whole {
                    for n in 1..=3 {
                        let then = vec![(at, What::Zero); n];
                        cx.case_k(b"", &|| format!("{names:?} {}", show_then(&then)), || run(cx, &bytes, usize::MAX, &then, false, o, &whole));
                    }
                    if let Out::Pkt(p) = w {
                        at += p.len()
                    }
                }
            });
        });
        cx.section("streams that end early", || {
            cx.par(seqs.len() as u64, |i| {
                let s = &seqs[i as usize];
                let names: Vec<_> = s.iter().map(|p| all[*p].0).collect();
                let bytes: Vec<u8> = s.iter().flat_map(|p| all[*p].1.clone()).collect();
                for (j, o) in opts.iter().enumerate() {
                    for n in 0..bytes.len() {
                        let want = expect(&bytes[..n], *o);
                        cx.case_k(b"", &|| format!("{names:?} {o:?} cut off after {n}"), || run(cx, &bytes[..n], [usize::MAX, 1, 40][j % 3], &[], j % 2 == 1, *o, &want));
                    }
                }
            });
        });
        cx.section("changed bytes", || {
            let vals = |b: u8| -> Vec<u8> {
                if cx.quick() {
                    vec![b ^ 1, b ^ 0x80, 0, 255, b.wrapping_add(8)]
                } else {
                    (0..=255).collect()
                }
            };
            cx.par(seqs.len() as u64, |i| {
                let s = &seqs[i as usize];
                let names: Vec<_> = s.iter().map(|p| all[*p].0).collect();
                let bytes: Vec<u8> = s.iter().flat_map(|p| all[*p].1.clone()).collect();
                for n in 0..bytes.len() {
                    for v in vals(bytes[n]) {
                        let mut b = bytes.clone();
                        b[n] = v;
                        for o in [Opts { hop: true, private: false, skip_hash: false }, Opts { hop: false, private: true, skip_hash: true }] {
                            let want = expect(&b, o);
                            // without the hash, some broken padding or signature may pass
                            if o.skip_hash && want != expect(&b, Opts { skip_hash: false, ..o }) && matches!(parse(&b, false), Err(No::Bad)) {
                                continue;
                            }
                            cx.case_k(b"", &|| format!("{names:?} {o:?} byte {n} is {v}"), || run(cx, &b, usize::MAX, &[], false, o, &want));
                        }
                    }
                }
            });
        });
    })
}
