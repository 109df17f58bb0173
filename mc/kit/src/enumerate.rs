//! Exhaustive enumeration helpers, shortest first.
use crate::Cx;
/// number of strings of length n over k symbols
pub fn count(k: usize, n: usize) -> u64 {
    (k as u64).pow(n as u32)
}
/// the i-th string of length n over `alpha`, where each symbol is itself a byte string
pub fn nth_concat(alpha: &[&[u8]], n: usize, mut i: u64, out: &mut Vec<u8>) {
    out.clear();
    for _ in 0..n {
        out.extend_from_slice(alpha[(i % alpha.len() as u64) as usize]);
        i /= alpha.len() as u64;
    }
}
pub fn nth_digits(k: usize, n: usize, mut i: u64) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = (i % k as u64) as usize;
            i /= k as u64;
            d
        })
        .collect()
}
/// every concatenation of 0..=max symbols of alpha, in parallel, shortest first
pub fn all_concats(cx: &Cx, alpha: &[&[u8]], max: usize, f: impl Fn(&[u8]) + Sync) {
    for n in 0..=max {
        cx.par(count(alpha.len(), n), |i| {
            let mut b = Vec::with_capacity(n * 2);
            nth_concat(alpha, n, i, &mut b);
            f(&b)
        });
    }
}
pub fn nth_mixed(dims: &[usize], mut i: u64) -> Vec<usize> {
    dims.iter()
        .map(|d| {
            let r = (i % *d as u64) as usize;
            i /= *d as u64;
            r
        })
        .collect()
}
/// all distinct permutations-with-repetition are covered by nth_digits; subsets by bits
pub fn bits(n: u64, width: usize) -> Vec<bool> {
    (0..width).map(|i| n >> i & 1 == 1).collect()
}
