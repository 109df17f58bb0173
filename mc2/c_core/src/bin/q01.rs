//! Value sets: what is in them, what comes next, when they are empty, and the rules they print.
use core_::predicate::bitset_test::BitTestSet;
use core_::predicate::*;
use c_core::{core_, masks};
use kit::*;
use linkspace_pkt::{AB, B64, U256};

const OPS: [TestOp; 6] = [TestOp::Nop, TestOp::Equal, TestOp::Less, TestOp::Greater, TestOp::Mask0, TestOp::Mask1];
/// 256 bits, one per value of a byte
type Bits = [u64; 4];
fn has(b: &Bits, v: u8) -> bool {
    b[v as usize / 64] >> (v % 64) & 1 == 1
}
fn and(a: &Bits, b: &Bits) -> Bits {
    std::array::from_fn(|i| a[i] & b[i])
}
fn holds(op: TestOp, v: u8, r: u8) -> bool {
    match op {
        TestOp::Nop => true,
        TestOp::Equal => v == r,
        TestOp::Less => v < r,
        TestOp::Greater => v > r,
        TestOp::Mask0 => (0..8).all(|i| r >> i & 1 == 1 || v >> i & 1 == 0),
        TestOp::Mask1 => (0..8).all(|i| r >> i & 1 == 0 || v >> i & 1 == 1),
    }
}
fn members(op: TestOp, r: u8) -> Bits {
    let mut b = [0; 4];
    for v in 0..=255u8 {
        if holds(op, v, r) {
            b[v as usize / 64] |= 1 << (v % 64)
        }
    }
    b
}
fn next(b: &Bits, from: u8) -> Option<u8> {
    (from..=255).find(|v| has(b, *v))
}
/// everything a set of bytes says, against the bitmap
fn judge(t: &TestSet<u8>, want: &Bits, deep: bool) -> CaseResult {
    let any = *want != [0; 4];
    ensure!(t.has_any() == any && t.is_empty() != any, "has members: {} and should be {any}", t.has_any());
    ensure!(t.min_value() == next(want, 0), "smallest {:?}, should be {:?}", t.min_value(), next(want, 0));
    for v in 0..=255u8 {
        ensure!(t.test(v) == has(want, v), "test({v}) is {}", t.test(v));
    }
    // the rules it prints are the set again
    let mut again = TestSet::<u8>::DEFAULT;
    for (op, v) in t.rules() {
        again.add(op, v);
    }
    ensure!((0..=255).all(|v| again.test(v) == has(want, v)), "its rules {:?} are another set", t.rules().collect::<Vec<_>>());
    ensure!(t.new_eq_is(want), "as_eq");
    if !any {
        return Ok(false);
    }
    for v in 0..=255u8 {
        let i = t.info(v);
        let n = next(want, v);
        ensure!(i.val == n, "the member at or after {v} is {:?}, should be {n:?}", i.val);
        ensure!(i.in_set == has(want, v), "info({v}) says {}", i.in_set);
    }
    if deep {
        let all: Vec<u8> = (0..=255).filter(|v| has(want, *v)).collect();
        for start in [0, 1, 2, 127, 128, 254, 255u8] {
            let tail: Vec<u8> = all.iter().copied().filter(|v| *v >= start).collect();
            ensure!(t.enumerate(start).take(300).collect::<Vec<_>>() == tail, "enumerate({start})");
            let mut at = start;
            // the booleans go on until no member can follow. At the last value of the type they may repeat it
            let got: Vec<bool> = t.iter_contains(&mut at).take(256 - start as usize).collect();
            ensure!(tail.iter().all(|v| got.get((*v - start) as usize) == Some(&true)), "iter_contains({start}) misses a member");
            ensure!(got.iter().enumerate().all(|(i, b)| *b == has(want, start + i as u8)), "iter_contains({start}) {got:?}");
            let mut it = t.iter(start);
            for i in 0..256 - start as usize {
                let p = it.peek();
                let n = it.next();
                ensure!(p == n || (n.is_none() && p == Some(false)), "peek {p:?} and then {n:?}");
                let Some(n) = n else {
                    ensure!(tail.iter().all(|v| ((*v - start) as usize) < i), "iter({start}) ends before a member");
                    break;
                };
                ensure!(n == has(want, start + i as u8), "iter({start}) at {i}");
            }
        }
    }
    Ok(true)
}
trait EqIs {
    fn new_eq_is(&self, want: &Bits) -> bool;
}
impl EqIs for TestSet<u8> {
    /// when it says it is one value, it is that value (or nothing)
    fn new_eq_is(&self, want: &Bits) -> bool {
        self.as_eq().map_or(true, |e| (0..=255).all(|v| !has(want, v) || v == e))
    }
}
/// is there a bit that must be set and unset
fn clash(rules: &[(TestOp, u8)]) -> bool {
    let must = rules.iter().filter(|r| r.0 == TestOp::Mask1).fold(0, |a, r| a | r.1);
    let may = rules.iter().filter(|r| r.0 == TestOp::Mask0).fold(255, |a, r| a & r.1);
    must & !may != 0
}
fn seq(rules: &[(TestOp, u8)], mem: &dyn Fn(TestOp, u8) -> Bits, deep: bool) -> CaseResult {
    let mut t = TestSet::<u8>::DEFAULT;
    let mut want = [u64::MAX; 4];
    let mut ok = true;
    let mut tried = Some(TestSet::<u8>::DEFAULT);
    for (op, v) in rules {
        t.add(*op, *v);
        want = and(&want, &mem(*op, *v));
        if let Some(mut x) = tried.take() {
            ok = x.try_add(*op, *v).is_ok();
            ensure!(ok == (want != [0; 4]), "adding {op:?} {v}: {}", if ok { "accepted though nothing is left" } else { "refused though something is left" });
            tried = ok.then_some(x);
        }
    }
    if let Some(x) = tried {
        ensure!(x == t, "add and try_add differ");
    }
    judge(&t, &want, deep)?;
    Ok(rules.len() > 1 && ok)
}

// ---- the other widths -----------------------------------------------------
type Big = Vec<u8>; // big endian
fn bit(b: &[u8], i: usize) -> bool {
    let n = b.len() * 8;
    b[(n - 1 - i) / 8] >> (i % 8) & 1 == 1
}
fn one(n: usize) -> Big {
    let mut v = vec![0; n];
    v[n - 1] = 1;
    v
}
fn inc(b: &[u8]) -> Option<Big> {
    let mut v = b.to_vec();
    for i in (0..v.len()).rev() {
        v[i] = v[i].wrapping_add(1);
        if v[i] != 0 {
            return Some(v);
        }
    }
    None
}
#[derive(Clone)]
struct Model {
    low: Big,
    high: Big,
    must: Big,
    may: Big,
    empty: bool,
}
impl Model {
    fn new(n: usize) -> Model {
        Model { low: vec![0; n], high: vec![255; n], must: vec![0; n], may: vec![255; n], empty: false }
    }
    fn add(&mut self, op: TestOp, v: &[u8]) {
        let n = v.len();
        match op {
            TestOp::Nop => {}
            TestOp::Equal => {
                self.low = self.low.clone().max(v.to_vec());
                self.high = self.high.clone().min(v.to_vec());
            }
            TestOp::Greater => match inc(v) {
                Some(v) => self.low = self.low.clone().max(v),
                None => self.empty = true,
            },
            TestOp::Less => {
                let mut x = v.to_vec();
                let mut i = n;
                loop {
                    if i == 0 {
                        self.empty = true;
                        break;
                    }
                    i -= 1;
                    x[i] = x[i].wrapping_sub(1);
                    if x[i] != 255 {
                        self.high = self.high.clone().min(x);
                        break;
                    }
                }
            }
            TestOp::Mask0 => self.may.iter_mut().zip(v).for_each(|(a, b)| *a &= b),
            TestOp::Mask1 => self.must.iter_mut().zip(v).for_each(|(a, b)| *a |= b),
        }
    }
    fn test(&self, v: &[u8]) -> bool {
        !self.empty && v >= &self.low[..] && v <= &self.high[..] && v.iter().zip(&self.may).all(|(v, m)| v & !m == 0) && v.iter().zip(&self.must).all(|(v, m)| v & m == *m)
    }
    /// the smallest member that is at least `from`
    fn next(&self, from: &[u8]) -> Option<Big> {
        if self.empty || self.must.iter().zip(&self.may).any(|(a, b)| a & !b != 0) {
            return None;
        }
        let from = from.to_vec().max(self.low.clone());
        let n = from.len() * 8;
        // equal to `from` above bit i, larger at bit i, smallest below; or equal
        let fits = |v: &[u8], lo: usize| (lo..n).all(|i| if bit(v, i) { bit(&self.may, i) } else { !bit(&self.must, i) });
        let found = if fits(&from, 0) {
            Some(from)
        } else {
            (0..n).filter(|i| !bit(&from, *i)).find_map(|i| {
                let mut v = from.clone();
                let at = |i: usize| ((n - 1 - i) / 8, 1u8 << (i % 8));
                let (b, m) = at(i);
                v[b] |= m;
                for j in 0..i {
                    let (b, m) = at(j);
                    v[b] = v[b] & !m | self.must[b] & m;
                }
                fits(&v, i).then_some(v)
            })
        }?;
        (found <= self.high).then_some(found)
    }
}
fn wide<U: UInt>(cx: &Cx, name: &str, n: usize, of: &(dyn Fn(&[u8]) -> U + Sync)) {
    let mut vals: Vec<Big> = vec![vec![0; n], vec![255; n], one(n)];
    let mut v = vec![255; n];
    v[n - 1] = 254;
    vals.push(v);
    for at in [0, n / 2, n - 1] {
        for b in cx.pick(&[0x01u8, 0x80, 0x5a][..], &[0x01u8, 0x02, 0x80, 0x5a, 0xfe, 0x7f][..]) {
            let mut z = vec![0; n];
            z[at] = *b;
            vals.push(z.clone());
            vals.push(z.iter().map(|b| !b).collect());
            if n > 1 {
                // all ones below: the carry crosses bytes
                z[at + 1..].iter_mut().for_each(|b| *b = 255);
                vals.push(z);
            }
        }
    }
    vals.sort();
    vals.dedup();
    let ops = &OPS[1..];
    let k = (ops.len() * vals.len()) as u64;
    cx.bound(format!("rules per width ({name})"), k);
    let rule = |i: u64| (ops[i as usize % ops.len()], &vals[i as usize / ops.len()]);
    let depth3 = !cx.quick() && n <= 4;
    cx.par(k, |a| {
        for b in 0..k {
            for c in (0..k).step_by(if depth3 { 7 } else { k as usize }) {
                let rules: Vec<_> = if depth3 { vec![rule(a), rule(b), rule(c)] } else { vec![rule(a), rule(b)] };
                let key = format!("{name} {}", rules.iter().map(|(o, v)| format!("{o}{}", hex(v))).collect::<Vec<_>>().join(" "));
                cx.transitions(rules.len() as u64);
                let mut all = Model::new(n);
                rules.iter().for_each(|(o, v)| all.add(*o, v));
                let clash = all.must.iter().zip(&all.may).any(|(a, b)| a & !b != 0);
                cx.case(key.as_bytes(), || masks(clash, || {
                    let mut m = Model::new(n);
                    let mut t = TestSet::<U>::DEFAULT;
                    let mut alive = true;
                    for (op, v) in &rules {
                        m.add(*op, v);
                        let any = m.next(&vec![0; n]).is_some();
                        if alive {
                            let ok = t.try_add(*op, of(v)).is_ok();
                            ensure!(ok == any, "adding {op} {} gives {ok}", hex(v));
                            alive = ok;
                        }
                    }
                    let min = m.next(&vec![0; n]);
                    if !alive {
                        return Ok(false);
                    }
                    ensure!(t.has_any() == min.is_some() && t.min_value() == min.as_deref().map(of), "smallest is {:?}, should be {:?}", t.min_value(), min.map(|m| hex(&m)));
                    let mut again = TestSet::<U>::DEFAULT;
                    t.rules().for_each(|(o, v)| again.add(o, v));
                    for v in &vals {
                        ensure!(t.test(of(v)) == m.test(v), "test({}) is {}", hex(v), t.test(of(v)));
                        ensure!(again.test(of(v)) == m.test(v), "printed rules: test({}) is {}", hex(v), again.test(of(v)));
                        let want = m.next(v);
                        let i = t.info(of(v));
                        ensure!(i.in_set == m.test(v) && i.val == want.as_deref().map(of), "from {}: {i:?}, should be {:?}", hex(v), want.map(|v| hex(&v)));
                        if let Some(w) = &want {
                            ensure!(t.test(of(w)), "member {} is not", hex(w));
                        }
                    }
                    Ok(true)
                }));
            }
        }
    });
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn main() {
    kit::main("Q01", "model_checking", |cx| {
        cx.rule("A set has exactly the values for which every rule added to it holds; the smallest member and the member at or after any value are found; a set is reported empty when nothing is in it; its printed rules are the same set");
        let mem: Vec<Vec<Bits>> = OPS.iter().map(|o| (0..=255).map(|v| members(*o, v)).collect()).collect();
        let mem = |o: TestOp, v: u8| mem[OPS.iter().position(|x| *x == o).unwrap()][v as usize];
        cx.section("every pair of masks of a byte", || {
            cx.par(256, |ones| {
                for zeros in 0..=255u8 {
                    let ones = ones as u8;
                    cx.states(1);
                    cx.case(&[1, ones, zeros], || masks(ones & !zeros != 0, || {
                        let m = Mask { ones, zeros };
                        let w: Vec<bool> = (0..=255u8).map(|v| v & ones == ones && v & !zeros == 0).collect();
                        ensure!(m.has_any() == w.contains(&true), "has_any {}", m.has_any());
                        let mut nx = None;
                        for v in (0..=255u8).rev() {
                            if w[v as usize] {
                                nx = Some(v)
                            }
                            ensure!(m.test(&v) == w[v as usize], "test({v})");
                            ensure!(m.in_set(v) == nx, "member at or after {v}: {:?}, should be {nx:?}", m.in_set(v));
                        }
                        Ok(nx.is_some())
                    }))
                }
            });
        });
        let edge: Vec<u8> = cx.pick(vec![0u8, 1, 2, 3, 0x0f, 0x10, 0x55, 0x7f, 0x80, 0x81, 0xaa, 0xf0, 0xfd, 0xfe, 255], (0..=255).collect());
        cx.bound("first rule of a byte set: values", edge.len());
        cx.section("two rules on a byte", || {
            cx.par(edge.len() as u64, |i| {
                for a in OPS {
                    for b in OPS {
                        for v in 0..=255u8 {
                            let r = [(a, edge[i as usize]), (b, v)];
                            cx.transitions(2);
                            cx.case(&[2, a.into_byte(), r[0].1, b.into_byte(), v], || masks(clash(&r), || seq(&r, &mem, cx.quick() && v % 5 == 0)));
                        }
                    }
                }
            })
        });
        let vals: &[u8] = cx.pick(&[0, 1, 0x55, 0x80, 0xfe, 255], &[0, 1, 2, 0x0f, 0x55, 0x7f, 0x80, 0xaa, 0xf0, 0xfe, 255]);
        let k = (OPS.len() - 1) * vals.len();
        let r = |i: usize| (OPS[1 + i % 5], vals[i / 5]);
        cx.section("three rules on a byte", || {
            cx.par(k as u64, |a| {
                for b in 0..k {
                    for c in 0..k {
                        let rs = [r(a as usize), r(b), r(c)];
                        cx.transitions(3);
                        cx.case(&[3, rs[0].0.into_byte(), rs[0].1, rs[1].0.into_byte(), rs[1].1, rs[2].0.into_byte(), rs[2].1], || masks(clash(&rs), || seq(&rs, &mem, true)));
                        if !cx.quick() && a < 12 {
                            for d in 0..k {
                                let rs = [rs[0], rs[1], rs[2], r(d)];
                                cx.case(&[4, rs[0].0.into_byte(), rs[0].1, rs[1].0.into_byte(), rs[1].1, rs[2].0.into_byte(), rs[2].1, rs[3].0.into_byte(), rs[3].1], || masks(clash(&rs), || seq(&rs, &mem, false)));
                            }
                        }
                    }
                }
            })
        });
        cx.section("the other widths", || {
            wide::<u16>(cx, "u16", 2, &|b| u16::from_be_bytes(b.try_into().unwrap()));
            wide::<u32>(cx, "u32", 4, &|b| u32::from_be_bytes(b.try_into().unwrap()));
            wide::<u64>(cx, "u64", 8, &|b| u64::from_be_bytes(b.try_into().unwrap()));
            wide::<u128>(cx, "u128", 16, &|b| u128::from_be_bytes(b.try_into().unwrap()));
            wide::<U256>(cx, "256 bits", 32, &|b| U256::from_be_bytes::<32>(b.try_into().unwrap()));
            wide::<B64<[u8; 32]>>(cx, "32 bytes", 32, &|b| B64(b.try_into().unwrap()));
            wide::<AB<[u8; 16]>>(cx, "16 bytes", 16, &|b| AB(b.try_into().unwrap()));
        });
        cx.section("depth sets", || {
            cx.par(512, |bits| {
                cx.case(&[5, bits as u8, (bits >> 8) as u8], || {
                    let b: BitTestSet = BitTestSet(bits as u32);
                    let from = BitTestSet::<8>::from_el_iter((0..9).filter(|i| bits >> i & 1 == 1));
                    ensure!(b == from, "from members");
                    for v in 0..=255u8 {
                        let c = v < 9 && bits >> v & 1 == 1;
                        let after = (v as u32 + 1..9).find(|i| bits >> i & 1 == 1).map(|i| i as u8);
                        ensure!(b.contains(v) == c && b.next_depth(v) == after, "at {v}: {} {:?}", b.contains(v), b.next_depth(v));
                        let i = b.info(v);
                        ensure!(i.in_set == c && i.val == if c { Some(v) } else { after }, "info({v}) {i:?}");
                        ensure!(b.contains_min(v) == (c || after.is_some()), "contains_min({v})");
                    }
                    Ok(bits != 0)
                })
            });
            cx.par(256, |v| {
                for a in OPS {
                    for b in OPS {
                        for w in (0..=255u8).filter(|w| *w < 12 || *w > 250) {
                            cx.case(&[6, a.into_byte(), v as u8, b.into_byte(), w], || masks(clash(&[(a, v as u8), (b, w)]), || {
                                let mut t = TestSet::<u8>::DEFAULT;
                                t.add(a, v as u8);
                                t.add(b, w);
                                let s = BitTestSet::<8>::from_rules(&t);
                                for d in 0..=40u8 {
                                    let want = d <= 8 && holds(a, d, v as u8) && holds(b, d, w);
                                    ensure!(s.contains(d) == want, "depth {d}: {}", s.contains(d));
                                }
                                Ok(s.0 != 0)
                            }))
                        }
                    }
                }
            })
        });
    })
}
