//! A source of data is cut into blocks: every way to cut it, to limit it and to deal with what does not fit,
//! against a model of the source as one string of bytes.
use abe::eval::eval;
use abe::scope::BASIC_SCOPE;
use c_core::Scratch;
use kit::*;
use std::path::PathBuf;
use x_cli::cli::reader::*;

#[derive(Clone, Debug)]
struct Cfg {
    file: bool,
    delim: bool,
    bufsize: Option<usize>,
    reads: Option<usize>,
    over: Option<EMode>,
    eval: bool,
    repeat: bool,
    none: bool,
    free: Vec<usize>,
}
/// what the options say
struct Model<'a> {
    src: &'a [u8],
    pos: usize,
    reads: usize,
    rest: Option<Vec<u8>>,
    ended: bool,
}
#[derive(Debug, PartialEq, Clone)]
enum Out {
    Block(Vec<u8>),
    End,
    Refused,
}
impl Model<'_> {
    fn read(&mut self, c: &Cfg, free: usize) -> Result<Option<Vec<u8>>, ()> {
        if self.reads == 0 || self.ended {
            return Ok(None);
        }
        self.reads -= 1;
        if c.none {
            return Ok(Some(vec![]));
        }
        if self.pos == self.src.len() {
            if !c.repeat || self.src.is_empty() {
                self.ended = true;
                return Ok(None);
            }
            self.pos = 0;
        }
        let s = &self.src[self.pos..];
        // a read that is limited by the packet only reads one byte more, to notice what does not fit
        let max = c.bufsize.unwrap_or(if c.delim { free.saturating_add(1) } else { free }).min(s.len());
        let mut b = &s[..max];
        self.pos += max;
        if c.delim {
            if let Some(i) = s.iter().position(|b| *b == b',').filter(|i| *i <= max) {
                b = &s[..i];
                self.pos += i + 1;
                self.pos -= max;
            }
        }
        if c.eval {
            let v = abe::parse_abe_strict_b(b).map_err(|_| ())?;
            return Ok(Some(eval(&BASIC_SCOPE, &v).map_err(|_| ())?.concat()));
        }
        Ok(Some(b.to_vec()))
    }
    fn call(&mut self, c: &Cfg, free: usize) -> Out {
        let over = c.over.unwrap_or_default();
        let mut b = match self.rest.take() {
            Some(mut r) => {
                if over == EMode::Carry {
                    match self.read(c, free) {
                        Ok(n) => r.extend(n.unwrap_or_default()),
                        Err(()) => return Out::Refused,
                    }
                }
                r
            }
            None => match self.read(c, free) {
                Ok(Some(b)) => b,
                Ok(None) => return Out::End,
                Err(()) => return Out::Refused,
            },
        };
        if b.len() > free {
            let rest = b.split_off(free);
            match over {
                EMode::Error => return Out::Refused,
                EMode::Trim => {}
                EMode::Split | EMode::Carry => self.rest = Some(rest),
            }
        }
        Out::Block(b)
    }
}
fn opts(c: &Cfg, text: &str, path: &PathBuf) -> DataReadOpts {
    DataReadOpts {
        common: CommonReadOpts {
            data: (c.file && !c.none).then(|| path.clone()),
            data_stdin: false,
            data_str: (!c.file && !c.none).then(|| text.to_string()),
            no_data: c.none,
            data_repeat: c.repeat,
        },
        data_delim: c.delim.then(|| ",".parse().unwrap()),
        data_bufsize: c.bufsize,
        data_reads: c.reads,
        data_overflow: c.over,
        data_eval: c.eval,
    }
}
fn run(c: &Cfg, text: &str, path: &PathBuf, calls: usize) -> CaseResult {
    let o = opts(c, text, path);
    let mut r = o.open_reader(false, &BASIC_SCOPE).map_err(|e| Bad::from(format!("does not open: {e}")))?;
    let mut m = Model { src: text.as_bytes(), pos: 0, reads: c.reads.unwrap_or(usize::MAX), rest: None, ended: false };
    let mut ended = 0;
    let (mut blocks, mut all) = (0, vec![]);
    for i in 0..calls {
        let free = c.free[i % c.free.len()];
        let mut buf = vec![];
        let got = match no_panic(|| r.read_next_data(&BASIC_SCOPE, free, &mut buf))? {
            Ok(Some(())) => Out::Block(buf),
            Ok(None) => Out::End,
            Err(_) => Out::Refused,
        };
        let want = m.call(c, free);
        let show_out = |o: &Out| match o {
            Out::Block(b) => format!("the block {}", show(b)),
            Out::End => "the end".into(),
            Out::Refused => "an error".into(),
        };
        ensure!(got == want, "call {} (with {free} bytes free) gives {}, expected {}", i + 1, show_out(&got), show_out(&want));
        match got {
            Out::Refused => return Ok(blocks > 0),
            Out::End => {
                ended += 1;
                if ended == 3 {
                    break;
                }
            }
            Out::Block(b) => {
                ensure!(b.len() <= free, "the block {} does not fit in {free} bytes", show(&b));
                blocks += 1;
                all.extend(b)
            }
        }
    }
    // nothing is lost, said without the model
    if ended == 3 && !c.none && !c.repeat && !c.eval && c.reads.is_none() && matches!(c.over, Some(EMode::Split | EMode::Carry)) {
        let want: Vec<u8> = text.bytes().filter(|b| !c.delim || *b != b',').collect();
        ensure!(all == want, "all blocks together are {}", show(&all));
    }
    Ok(blocks > 1)
}
fn main() {
    kit::main("R02", "model_checking", |cx| {
        cx.rule("every source of the stated lengths with delimiters at every set of places, read with every combination of delimiter, size of a read, number of reads, handling of what does not fit, repetition and free space, call by call against a model of the source as one string; non-trivial: at least two blocks");
        let dir = Scratch::new();
        let overs = [None, Some(EMode::Error), Some(EMode::Split), Some(EMode::Carry), Some(EMode::Trim)];
        let frees: Vec<Vec<usize>> = vec![vec![1], vec![2], vec![3], vec![6], vec![usize::MAX], vec![2, 3], vec![3, 1], vec![1, 4, 2]];
        let n = cx.pick(6, 9);
        let calls = cx.pick(14, 24);
        cx.bound("bytes of the source", n);
        cx.bound("calls", calls);
        let each = |cx: &Cx, texts: &[String], eval: bool, frees: &[Vec<usize>], sizes: &[Option<usize>], reads: &[Option<usize>]| {
            cx.par(texts.len() as u64, |i| {
                let t = &texts[i as usize];
                let path = dir.0.join(format!("{eval}{i}"));
                std::fs::write(&path, t).unwrap();
                for k in 0..count(2, 3) * 5 {
                    let d = nth_digits(2, 3, k / 5);
                    for free in frees {
                        for bufsize in sizes {
                            for reads in reads {
                                let c = Cfg { file: d[0] == 1, delim: d[1] == 1, repeat: d[2] == 1, over: overs[(k % 5) as usize], bufsize: *bufsize, reads: *reads, eval, none: false, free: free.clone() };
                                cx.states(1);
                                cx.transitions(calls as u64);
                                cx.traces(1);
                                cx.case_k(b"", &|| format!("{t:?} with {c:?}"), || run(&c, t, &path, calls));
                            }
                        }
                    }
                }
                std::fs::remove_file(&path).unwrap();
            })
        };
        let sizes = [None, Some(1), Some(2), Some(3), Some(7)];
        let reads = [None, Some(0), Some(1), Some(2), Some(3)];
        for len in 0..=n {
            // every byte has its own letter, so that order and loss are seen
            let texts: Vec<String> = (0..1u32 << len).map(|m| (0..len).map(|i| if m >> i & 1 == 1 { ',' } else { (b'a' + i as u8) as char }).collect()).collect();
            cx.section(&format!("sources of {len} bytes"), || each(cx, &texts, false, &frees, &sizes, &reads));
        }
        cx.section("no data", || {
            for over in overs {
                for reads in reads {
                    for delim in [false, true] {
                        for repeat in [false, true] {
                            let c = Cfg { file: false, delim, repeat, over, bufsize: None, reads, eval: false, none: true, free: vec![4, 1] };
                            cx.case_k(b"", &|| format!("{c:?}"), || run(&c, "", &dir.0, calls));
                        }
                    }
                }
            }
        });
        let toks = ["a", ",", "[u8:66]", "[a:x:4]", ":", "[nope]", "\\n", "["];
        let n = cx.pick(3, 4);
        cx.bound("tokens of an evaluated source", n);
        cx.section("evaluated sources", || {
            let texts: Vec<String> = (0..=n).flat_map(|n| (0..count(toks.len(), n)).map(move |i| nth_digits(toks.len(), n, i).into_iter().map(|d| toks[d]).collect())).collect();
            each(cx, &texts, true, &[vec![3], vec![9], vec![usize::MAX], vec![8, 2]], &[None, Some(7), Some(9)], &[None, Some(1)])
        });
        cx.section("sources larger than any buffer", || {
            for len in [4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 200_001] {
                for step in [1000, 8191, 8192, 8193, 30_000] {
                    let t: String = (0..len).map(|i| if i % step == step - 1 { ',' } else { (b'a' + (i / 7 % 26) as u8) as char }).collect();
                    let path = dir.0.join("large");
                    std::fs::write(&path, &t).unwrap();
                    for k in 0..count(2, 3) {
                        let d = nth_digits(2, 3, k);
                        for (bufsize, free) in [(None, vec![65000]), (Some(8192), vec![65000]), (Some(8193), vec![8192]), (Some(70_000), vec![1 << 16, 999]), (None, vec![8192])] {
                            for over in overs {
                                let c = Cfg { file: d[0] == 1, delim: d[1] == 1, repeat: d[2] == 1, over, bufsize, reads: None, eval: false, none: false, free: free.clone() };
                                cx.states(1);
                                cx.transitions(40);
                                cx.traces(1);
                                cx.case_k(b"", &|| format!("{len} bytes, a delimiter every {step}, with {c:?}"), || run(&c, &t, &path, 40));
                            }
                        }
                    }
                    std::fs::remove_file(&path).unwrap();
                }
            }
        });
        cx.section("delimiters", || {
            for d in ["", "ab", ",", "\\n", "\\0", "[u8:255]", ":", "[u16:1]", "[nope]", "a:"] {
                cx.case(d.as_bytes(), || {
                    let o = DataReadOpts { common: CommonReadOpts { data_str: Some("x".into()), ..Default::default() }, data_delim: Some(d.parse().map_err(|_| Bad::from("not read".to_string()))?), ..Default::default() };
                    let want = abe::parse_abe_strict_b(d.as_bytes()).ok().and_then(|e| eval(&BASIC_SCOPE, &e).ok()).map(|v| v.concat()).filter(|v| v.len() == 1);
                    let got = o.open_reader(false, &BASIC_SCOPE);
                    ensure!(got.is_ok() == want.is_some(), "opened={} a single byte={}", got.is_ok(), want.is_some());
                    let Some(w) = want else { return Ok(false) };
                    let o = DataReadOpts { common: CommonReadOpts { data: Some(dir.0.join("bytes")), ..Default::default() }, ..o };
                    std::fs::write(dir.0.join("bytes"), [&[w[0] ^ 1][..], &w, &w, &[w[0] ^ 2]].concat()).unwrap();
                    let mut r = o.open_reader(false, &BASIC_SCOPE).map_err(|e| Bad::from(e.to_string()))?;
                    for want in [vec![w[0] ^ 1], vec![], vec![w[0] ^ 2]] {
                        let mut b = vec![];
                        let x = r.read_next_data(&BASIC_SCOPE, 9, &mut b);
                        ensure!(matches!(x, Ok(Some(()))) && b == want, "block {}, expected {}", show(&b), show(&want));
                    }
                    Ok(true)
                })
            }
            for missing in ["nothing-here", "a/b"] {
                cx.case(missing.as_bytes(), || {
                    let o = DataReadOpts { common: CommonReadOpts { data: Some(dir.0.join(missing)), ..Default::default() }, ..Default::default() };
                    ensure!(o.open_reader(false, &BASIC_SCOPE).is_err(), "a file that is not there is opened");
                    Ok(false)
                })
            }
        });
    })
}
