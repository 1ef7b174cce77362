//! Sorted sequences for Elias-Fano: bins with many elements (binary search), runs of duplicates,
//! empty bins, lower width 0, offsets up to 2^64 - 1.
use crate::Rng;

pub fn tiny(maxn: usize, alpha: &[u64]) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = vec![vec![]];
    let mut lvl: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..maxn {
        let mut nx = Vec::new();
        for s in &lvl {
            let lo = s.last().copied().unwrap_or(0);
            for j in lo..alpha.len() { let mut u = s.clone(); u.push(j); nx.push(u); }
        }
        out.extend(nx.iter().map(|s| s.iter().map(|&j| alpha[j]).collect()));
        lvl = nx;
    }
    out
}

pub const STYLES: usize = 14;
pub fn gen(r: &mut Rng, n: usize, style: usize) -> Vec<u64> {
    let nn = n as u64;
    let mut v: Vec<u64> = match style {
        0 => (0..n).map(|_| r.below(n / 2 + 1) as u64).collect(),
        1 => (0..n).map(|_| r.next()).collect(),
        2 => (0..n).map(|_| u64::MAX - r.below(4 * n + 1) as u64).collect(),
        3 => (0..n).map(|_| (1 << 40) + r.below(n * 3 + 1) as u64).collect(),
        // everything in the first bin but one outlier
        4 => (0..n).map(|i| if i == 0 { 1 << 50 } else { r.below(n * 20 + 1) as u64 + 7 }).collect(),
        // everything in the last bin but one outlier
        5 => (0..n).map(|i| if i == 0 { 3 } else { (1 << 50) - r.below(n * 20 + 1) as u64 }).collect(),
        // clusters
        6 => {
            let c: Vec<u64> = (0..(n / 20 + 1)).map(|_| r.next() >> 4).collect();
            (0..n).map(|_| *r.pick(&c) + r.below(300) as u64).collect()
        }
        // heavy duplicates in a few bins
        7 => {
            let c: Vec<u64> = (0..5).map(|_| r.next() >> 20).collect();
            (0..n).map(|_| *r.pick(&c) + r.below(3) as u64).collect()
        }
        8 => (0..nn).collect(),
        9 => (0..nn).map(|i| 2 * i + 9).collect(),
        10 => vec![r.next(); n],
        11 => (0..n).map(|_| r.next() >> r.below(64)).collect(),
        // full range, both extremes present
        12 => (0..n).map(|i| match i { 0 => 0, 1 => u64::MAX, _ => r.next() }).collect(),
        // one bin of duplicates between spread elements
        _ => {
            let c = r.next() >> 10;
            (0..n).map(|i| if i % 3 == 0 { r.next() >> 9 } else { c + u64::from(r.below(40) == 0) }).collect()
        }
    };
    v.sort();
    v
}
