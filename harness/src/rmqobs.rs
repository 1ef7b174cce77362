//! Arrays and observations for the range-minimum structures.
use crate::*;
use std::ops::{Bound, RangeBounds};
use vers_vecs::{BinaryRmq, FastRmq};

pub trait Rmq {
    fn q(&self, i: usize, j: usize) -> usize;
    fn r<R: RangeBounds<usize>>(&self, r: R) -> usize;
    fn data(&self) -> (usize, bool, Vec<u64>);
}
impl Rmq for BinaryRmq {
    fn q(&self, i: usize, j: usize) -> usize { self.range_min(i, j) }
    fn r<R: RangeBounds<usize>>(&self, r: R) -> usize { self.range_min_with_range(r) }
    fn data(&self) -> (usize, bool, Vec<u64>) { (self.len(), self.is_empty(), self.iter().copied().collect()) }
}
impl Rmq for FastRmq {
    fn q(&self, i: usize, j: usize) -> usize { self.range_min(i, j) }
    fn r<R: RangeBounds<usize>>(&self, r: R) -> usize { self.range_min_with_range(r) }
    fn data(&self) -> (usize, bool, Vec<u64>) { (self.len(), self.is_empty(), self.iter().copied().collect()) }
}

pub const PATS: usize = 14;
pub fn gen(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    match k {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|_| r.below(3)).collect(),
        3 => (0..n).map(|_| r.below(n * 2)).collect(),
        4 => vec![0; n],
        5 => (0..n).map(|i| if i < n / 2 { i } else { n - i }).collect(),
        6 => (0..n).map(|i| if i < n / 2 { n - i } else { i }).collect(),
        7 => { let p = r.below(n); (0..n).map(|i| usize::from(i != p)).collect() }
        8 => (0..n).map(|i| (i * 7919) % 128 + r.below(2)).collect(),
        // block minima at block borders
        9 => (0..n).map(|i| if i % 128 == 127 { r.below(5) } else { 5 + r.below(50) }).collect(),
        10 => (0..n).map(|i| if i % 128 == 0 { r.below(5) } else { 5 + r.below(50) }).collect(),
        // slow decrease with noise
        11 => (0..n).map(|i| 2 * n - i + r.below(6)).collect(),
        12 => (0..n).map(|i| i + r.below(6)).collect(),
        _ => { let w = r.range(1, 40); (0..n).map(|i| (i / w) * 31 % 17 + r.below(2)).collect() }
    }
}

pub fn dict_for(v: &[usize], r: &mut Rng) -> Vec<u64> {
    let m = v.iter().max().unwrap() + 1;
    match r.below(4) {
        0 => (0..m as u64).collect(),
        1 => (0..m as u64).map(|i| u64::MAX - m as u64 + 1 + i).collect(),
        // values that differ in the top bit, and around 2^32
        2 => (0..m as u64).map(|i| if i < m as u64 / 2 { i } else { (1 << 63) + i }).collect(),
        _ => (0..m as u64).map(|i| (i + 1) << 32 | (m as u64 - i)).collect(),
    }
}

pub fn start(t: &mut T, name: &str, v: &[usize], dict: &[u64]) {
    t.episode(name);
    let vi: Vec<i64> = v.iter().map(|&x| x as i64).collect();
    t.ev("Build").a("vals", &vi).ws("dict", dict).done();
}

pub fn observe<Q: Rmq>(t: &mut T, q: &Q, dict: &[u64], mode: u8, r: &mut Rng) {
    let Ok((n, e, d)) = call(|| q.data()) else { t.ev("ReadPanic").done(); return };
    let d: Vec<i64> = d.iter().map(|x| dict.binary_search(x).map_or(UNKNOWN, |i| i as i64)).collect();
    t.ev("Read").i("n", n as i64).i("empty", i64::from(e)).a("vals", &d).done();
    let f = |i: usize, j: usize| ru(|| q.q(i, j));
    if mode == 2 {
        let rs: Vec<Vec<i64>> = (0..n).map(|i| (i..n).map(|j| f(i, j)).collect()).collect();
        t.ev("All").aa("rs", &rs).cost((n * n * 4) as u64).done();
    } else {
        let rows = if n > 10_000 { 3 } else { 6 };
        for k in 0..rows {
            let i = match k { 0 => 0, 1 => (r.below(n / 128 + 1) * 128).min(n - 1), 2 => (r.below(n / 128 + 1) * 128 + 127).min(n - 1), _ => r.below(n) };
            let w: Vec<i64> = (i..n).map(|j| f(i, j)).collect();
            t.ev("RowR").i("i", i as i64).a("r", &w).cost(w.len() as u64 * 10).done();
            let w: Vec<i64> = (0..=i).rev().map(|j| f(j, i)).collect();
            t.ev("RowL").i("j", i as i64).a("r", &w).cost(w.len() as u64 * 10).done();
        }
    }
    // range expressions
    let mut qs: Vec<Vec<i64>> = Vec::new();
    let far = [n, n + 1, n + 200, usize::MAX, usize::MAX - 1, 1 << 63];
    let cnt = if n > 5000 { 4 } else { 14 };
    for k in 0..cnt {
        let mut p = |r: &mut Rng| if r.chance(1, 5) { *r.pick(&far) } else { r.below(n + 1) };
        let (s, e) = (p(r), p(r));
        // mostly non-empty
        let (s, e) = if k % 4 != 0 && s > e { (e, s) } else { (s, e) };
        let mut put = |sk: i64, ek: i64, x: i64| qs.push(vec![sk, cap(s), ek, cap(e), x]);
        put(1, 2, ru(|| q.r(s..e)));
        put(1, 1, ru(|| q.r(s..=e)));
        put(1, 0, ru(|| q.r(s..)));
        put(0, 2, ru(|| q.r(..e)));
        put(0, 1, ru(|| q.r(..=e)));
        put(2, 1, ru(|| q.r((Bound::Excluded(s), Bound::Included(e)))));
        put(2, 2, ru(|| q.r((Bound::Excluded(s), Bound::Excluded(e)))));
        put(2, 0, ru(|| q.r((Bound::Excluded(s), Bound::Unbounded))));
    }
    qs.push(vec![0, 0, 0, 0, ru(|| q.r(..))]);
    for s in [0, n / 2, n.saturating_sub(1)] { qs.push(vec![1, s as i64, 2, s as i64 + 1, ru(|| q.r(s..s + 1))]); }
    t.ev("Ranges").aa("q", &qs).cost((cnt * n * 10) as u64).done();
}

/// range expressions with extreme bounds
pub fn extreme<Q: Rmq>(t: &mut T, q: &Q, n: usize, r: &mut Rng, m: usize) {
    let es = crate::obs::extremes_few(n, r, m);
    let mut qs: Vec<Vec<i64>> = Vec::new();
    for &s in &es {
        for &e in &es {
            let mut put = |sk: i64, ek: i64, x: i64| qs.push(vec![sk, cap(s), ek, cap(e), x]);
            match (s ^ e) % 8 {
                0 => put(1, 2, ru(|| q.r(s..e))),
                1 => put(1, 1, ru(|| q.r(s..=e))),
                2 => put(1, 0, ru(|| q.r(s..))),
                3 => put(0, 2, ru(|| q.r(..e))),
                4 => put(0, 1, ru(|| q.r(..=e))),
                5 => put(2, 1, ru(|| q.r((Bound::Excluded(s), Bound::Included(e))))),
                6 => put(2, 2, ru(|| q.r((Bound::Excluded(s), Bound::Excluded(e))))),
                _ => put(2, 0, ru(|| q.r((Bound::Excluded(s), Bound::Unbounded)))),
            }
            put(1, 2, ru(|| q.r(s..e)));
        }
    }
    t.ev("Ranges").aa("q", &qs).cost((qs.len() * n) as u64).done();
}
