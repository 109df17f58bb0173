//! Space names: every operation against a list of components.
use c_pkt::*;
use kit::*;
use linkspace_pkt::*;

type M = Vec<Vec<u8>>;
fn desc(m: &M) -> String {
    m.iter().map(|c| if c.len() > 6 { format!("/<{}>", c.len()) } else { format!("/{}", show(c)) }).collect()
}
fn own(s: &Space) -> M {
    s.iter().map(|c| c.to_vec()).collect()
}
/// everything that can be asked of one space
fn observe(m: &M, s: &SpaceBuf) -> Result<(), Bad> {
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            if a != b {
                return bad(format!("{} differs", $what), format!("{} of {} is {:?} and should be {:?}", $what, desc(m), a, b));
            }
        }};
    }
    let f = flat(m);
    let n = m.len();
    eq!("bytes", s.space_bytes(), &f[..]);
    eq!("size", s.size(), f.len());
    eq!("check", s.check_components(), Ok(n as u8));
    eq!("depth", s.calc_depth(), n);
    eq!("iteration", own(s), m.clone());
    eq!("checked iteration", s.checked_iter().unwrap().map(|c| c.map(|c| c.to_vec())).collect::<Vec<_>>(), m.iter().cloned().map(Ok).collect::<Vec<_>>());
    eq!("components", s.to_array().iter().map(|c| c.to_vec()).collect::<Vec<_>>(), m.clone());
    eq!("emptiness", s.is_empty(), n == 0);
    eq!("head", s.head().map(|c| c.to_vec()), m.first().cloned());
    eq!("first", s.first().to_vec(), m.first().cloned().unwrap_or_default());
    eq!("tail", own(s.tail()), m.iter().skip(1).cloned().collect::<M>());
    eq!("split first", s.split_first().map(|(a, b)| (a.to_vec(), own(b))), m.first().map(|c| (c.clone(), m[1..].to_vec())));
    eq!("parent", s.parent().map(own), (n > 0).then(|| m[..n - 1].to_vec()));
    let (a, b) = s.split_last();
    eq!("split last", (own(a), b.map(own)), (m[..n.saturating_sub(1)].to_vec(), m.last().map(|c| vec![c.clone()])));
    let (a, b) = s.pop();
    eq!("pop", (own(a), b.map(|c| c.to_vec())), (m[..n.saturating_sub(1)].to_vec(), m.last().cloned()));
    for i in 0..=9 {
        let (a, b) = s.split_at(i);
        eq!(format!("split at {i}"), (own(a), own(b)), (m[..i.min(n)].to_vec(), m[i.min(n)..].to_vec()));
    }
    eq!("scan", s.scan_space().map(own).collect::<Vec<_>>(), (1..=n).map(|i| m[..i].to_vec()).collect::<Vec<_>>());
    let mut t = s.track();
    for i in 0..=n {
        eq!("track", (own(t.upto()), t.component().map(|c| c.to_vec()), own(t.rest())), (m[..i].to_vec(), m.get(i).cloned(), m[i..].to_vec()));
        match t.next() {
            Some(x) => t = x,
            None => eq!("end of track", i, n),
        }
    }
    let mut x = s.clone();
    x.truncate_last();
    eq!("truncate", own(&x), m[..n.saturating_sub(1)].to_vec());
    eq!("from bytes", Space::from_slice(&f).map(own), Ok(m.clone()));
    eq!("from bytes, owned", SpaceBuf::try_from_inner(f.clone()).map(|s| own(&s)), Ok(m.clone()));
    eq!("from components", SpaceBuf::try_from_iter(m).map(|s| own(&s)), Ok(m.clone()));
    // with an index
    let r = rooted(m);
    let rs = s.try_into_rooted();
    eq!("indexed bytes", rs.as_ref().map(|r| r.rooted_bytes().to_vec()), Ok(r.clone()));
    let rs = rs.unwrap();
    eq!("index check", rs.check_components(), Ok(()));
    eq!("indexed depth", (rs.depth(), *rs.space_depth(), rs.is_empty()), (n, n as u8, n == 0));
    eq!("indexed space", own(rs.space()), m.clone());
    eq!("indexed iteration", RootedSpace::iter(&rs).map(|c| c.to_vec()).collect::<Vec<_>>(), m.clone());
    eq!("last", rs.last().to_vec(), m.last().cloned().unwrap_or_default());
    eq!("indexed read", RootedSpace::from(&r).map(|r| own(r.space())), Ok(m.clone()));
    eq!("indexed from components", RootedSpaceBuf::try_from_iter(m).map(|s| s.rooted_bytes().to_vec()), Ok(r.clone()));
    for i in 0..8 {
        let c = m.get(i).cloned().unwrap_or_default();
        let get = [rs.comp0(), rs.comp1(), rs.comp2(), rs.comp3(), rs.comp4(), rs.comp5(), rs.comp6(), rs.comp7()][i];
        eq!("component", get, &c[..]);
        eq!("component by number", rs.comp(i), &c[..]);
        if n > 0 {
            eq!("component as space", own(rs.components()[i]), m.get(i).cloned().into_iter().collect::<M>());
        }
        eq!("component bytes", rs.comps_bytes()[i], &c[..]);
        for j in i..=8 {
            eq!(format!("range {i}..{j}"), own(rs.range(i..j)), m[i.min(n)..j.min(n)].to_vec());
        }
    }
    Ok(())
}
#[derive(Clone)]
enum Op {
    Push(Vec<u8>),
    Front(Vec<u8>),
    Append(M),
    Prepend(M),
    Join(M),
    Truncate,
    Tail,
    Parent,
    Split(usize),
    Root(Vec<u8>),
    RootJoin(M),
}
impl Op {
    fn model(&self, m: &M) -> Option<M> {
        let mut m = m.clone();
        match self {
            Op::Push(c) | Op::Root(c) => m.push(c.clone()),
            Op::Front(c) => m.insert(0, c.clone()),
            Op::Append(s) | Op::Join(s) | Op::RootJoin(s) => m.extend(s.clone()),
            Op::Prepend(s) => drop(m.splice(0..0, s.clone())),
            Op::Truncate | Op::Parent => drop(m.pop()),
            Op::Tail => drop(m.drain(..1.min(m.len()))),
            Op::Split(n) => drop(m.drain(..(*n).min(m.len()))),
        }
        space_ok(&m).then_some(m)
    }
    fn real(&self, s: &SpaceBuf) -> Result<SpaceBuf, SpaceError> {
        let sp = |m: &M| SpaceBuf::try_from_iter(m).unwrap();
        let t = s.clone();
        Ok(match self {
            Op::Push(c) => t.try_push(c)?,
            Op::Front(c) => t.try_push_front(c)?,
            Op::Append(m) => t.try_append(&sp(m))?,
            Op::Prepend(m) => t.try_prepend(&sp(m))?,
            Op::Join(m) => SpaceBytes::try_join(&t, &sp(m))?,
            Op::Truncate => {
                let mut t = t;
                t.truncate_last();
                t
            }
            Op::Tail => t.tail().into_spacebuf(),
            Op::Parent => t.parent().unwrap_or(Space::empty()).into_spacebuf(),
            Op::Split(n) => t.split_at(*n).1.into_spacebuf(),
            Op::Root(c) => {
                let mut r = t.try_into_rooted()?;
                r.try_append_component(c)?;
                r.check_components()?;
                r.space().into_spacebuf()
            }
            Op::RootJoin(m) => {
                let r = t.try_into_rooted()?.try_join(&sp(m))?;
                r.check_components()?;
                r.space().into_spacebuf()
            }
        })
    }
    fn name(&self) -> String {
        match self {
            Op::Push(c) => format!("push {}", desc(&vec![c.clone()])),
            Op::Front(c) => format!("push front {}", desc(&vec![c.clone()])),
            Op::Append(m) => format!("append {}", desc(m)),
            Op::Prepend(m) => format!("prepend {}", desc(m)),
            Op::Join(m) => format!("join {}", desc(m)),
            Op::Truncate => "truncate".into(),
            Op::Tail => "tail".into(),
            Op::Parent => "parent".into(),
            Op::Split(n) => format!("rest from {n}"),
            Op::Root(c) => format!("index, append {}", desc(&vec![c.clone()])),
            Op::RootJoin(m) => format!("index, join {}", desc(m)),
        }
    }
}
fn main() {
    kit::main("P03", "model_checking", |cx| {
        cx.rule("breadth first over all operation sequences from the stated spaces to the stated depth, each state observed in every way and compared with a list of components; every byte string of the stated alphabet as a space and as an indexed space; non-trivial: a valid space");
        let comps: Vec<Vec<u8>> = vec![vec![], vec![b'a'], vec![0], vec![b'/', 255], pattern(40, 1), pattern(199, 1), pattern(200, 2), pattern(201, 3), pattern(255, 4), pattern(256, 5)];
        let spaces: Vec<M> = vec![
            vec![],
            vec![vec![b'b']],
            vec![vec![1], vec![0, 0]],
            (0..4).map(|i| vec![i]).collect(),
            (0..8).map(|i| vec![i; 2]).collect(),
            vec![pattern(41, 1)],
            vec![pattern(200, 1), pattern(40, 2)],
            (0..8).map(|i| pattern(if i == 7 { 31 } else { 29 }, i)).collect(),
        ];
        let mut ops = vec![Op::Truncate, Op::Tail, Op::Parent, Op::Split(2), Op::Split(8)];
        for c in &comps {
            ops.extend([Op::Push(c.clone()), Op::Front(c.clone()), Op::Root(c.clone())])
        }
        for m in &spaces {
            ops.extend([Op::Append(m.clone()), Op::Prepend(m.clone()), Op::Join(m.clone()), Op::RootJoin(m.clone())])
        }
        // at the limits of bytes and of components
        let mut front: Vec<M> = spaces.clone();
        for total in 236..=242usize {
            front.push(vec![pattern(199, 0), pattern(total - 201, 1)]);
        }
        for n in 6..=8 {
            front.push((0..n).map(|i| vec![i + 1]).collect());
        }
        let mut seen: std::collections::HashSet<M> = front.iter().cloned().collect();
        let seenm = std::sync::Mutex::new(());
        let depth = cx.pick(3, 5);
        for d in 0..depth {
            let next = std::sync::Mutex::new(std::collections::HashSet::new());
            cx.section(&format!("states after {d} operations"), || {
                cx.par(front.len() as u64, |i| {
                    let m = &front[i as usize];
                    cx.states(1);
                    cx.case_k(&[&rooted(m)[..], &[d as u8]].concat(), &|| format!("space {}", desc(m)), || {
                        let s = SpaceBuf::from_vec_unchecked(flat(m));
                        observe(m, &s)?;
                        Ok(true)
                    });
                    for op in &ops {
                        cx.transitions(1);
                        cx.case_k(format!("{} {}", show(&rooted(m)), op.name()).as_bytes(), &|| format!("space {} then {}", desc(m), op.name()), || {
                            let s = SpaceBuf::from_vec_unchecked(flat(m));
                            let (want, got) = (op.model(m), op.real(&s));
                            match (&want, &got) {
                                (Some(w), Ok(g)) => {
                                    ensure!(flat(w) == g.space_bytes(), "gives {:?} and should give {}", g, desc(w));
                                    if d + 1 < depth {
                                        next.lock().unwrap().insert(w.clone());
                                    }
                                }
                                (None, Err(_)) => {}
                                (None, Ok(g)) => return bad("invalid space made", format!("gives {g:?} of {} components and {} bytes", own(g).len(), g.size())),
                                (Some(w), Err(e)) => return bad("valid space refused", format!("refuses {}: {e}", desc(w))),
                            }
                            Ok(want.is_some())
                        })
                    }
                });
            });
            let _l = seenm.lock().unwrap();
            front = next.into_inner().unwrap().into_iter().filter(|m| seen.insert(m.clone())).collect();
            front.sort();
        }
        cx.section("prefixes", || {
            let mut all: Vec<M> = vec![];
            for n in 0..=3 {
                for i in 0..kit::enumerate::count(3, n) {
                    let dg = nth_digits(3, n, i);
                    all.push(dg.iter().map(|d| [vec![1u8], vec![1, 1], vec![2, 1]][*d].clone()).collect())
                }
            }
            for a in &all {
                for b in &all {
                    cx.states(1);
                    cx.case(format!("{} under {}", desc(a), desc(b)).as_bytes(), || {
                        let (x, y) = (SpaceBuf::try_from_iter(a).unwrap(), SpaceBuf::try_from_iter(b).unwrap());
                        let p = a.starts_with(b);
                        ensure!(x.starts_with(&y) == p, "starts with is {}", !p);
                        ensure!(x.strip_prefix(&y).map(own) == p.then(|| a[b.len()..].to_vec()), "without the prefix: {:?}", x.strip_prefix(&y));
                        ensure!((x == y) == (a == b), "equality");
                        Ok(p)
                    })
                }
            }
        });
        cx.section("bytes as a space", || {
            let toks: Vec<&[u8]> = vec![&[0], &[1], &[2], &[3], &[200], &[201], &[255]];
            let one = |b: &[u8]| {
                cx.states(1);
                cx.case(b, || {
                    let want = unflat(b).filter(|m| space_ok(m));
                    let got = Space::from_slice(b);
                    ensure!(got.is_ok() == want.is_some(), "accepted is {} and should be {}", got.is_ok(), want.is_some());
                    let owned = SpaceBuf::try_from_inner(b.to_vec());
                    ensure!(owned.is_ok() == want.is_some(), "accepted as owned is {}", owned.is_ok());
                    if let (Ok(g), Some(w)) = (got, &want) {
                        ensure!(own(g) == *w, "components are {g:?}");
                    }
                    // an index for what is not a space is refused and not made up
                    if unflat(b).is_none() || want.is_some() {
                        let r = no_panic(|| Space::from_unchecked(b).try_into_rooted().is_ok());
                        ensure!(r == Ok(want.is_some()), "an index was made: {r:?}");
                    }
                    let want = unroot(b);
                    let got = RootedSpace::from(b);
                    ensure!(got.is_ok() == want.is_some(), "accepted with index is {} and should be {}", got.is_ok(), want.is_some());
                    if let (Ok(g), Some(w)) = (got, &want) {
                        ensure!(g.depth() == w.len() && RootedSpace::iter(g).map(|c| c.to_vec()).collect::<M>() == *w, "indexed components are {g:?}");
                    }
                    Ok(want.is_some() || got.is_ok())
                })
            };
            all_concats(cx, &toks, cx.pick(5, 7), one);
            let tail: Vec<u8> = (0..9).flat_map(|i| [1, b'a' + i]).collect();
            // every index in front of every number of components
            for n in 0..=9usize {
                for d in 0..=255u8 {
                    for at in 0..8 {
                        for v in [0u8, 1, 2, 3, 14, 16, 18, 255] {
                            let mut b = rooted(&(0..n.min(8)).map(|i| vec![b'a' + i as u8]).collect::<M>());
                            b.resize(8, 0);
                            b.extend(&tail[b.len() - 8..n * 2]);
                            b[0] = d;
                            if at > 0 {
                                b[at] = v
                            }
                            one(&b);
                        }
                    }
                }
            }
            for n in 0..=12usize {
                one(&tail.iter().cycle().take(n * 2).copied().collect::<Vec<_>>());
            }
            for n in 238..=260usize {
                let c = n - 201 - 1;
                one(&[&[200][..], &pattern(200, 1), &[c as u8], &pattern(c, 2)].concat());
            }
        });
    })
}
