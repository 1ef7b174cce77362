//! Bit strings at the scales where the structures change behaviour: single limbs (64), blocks
//! (512), super blocks and select blocks (8192), the bisection inside select (more than 8 super
//! blocks between two samples) and the sparse comparison threshold (4 million bits).
use crate::{Bits, Rng};

pub fn tiny(maxn: usize) -> Vec<(String, Bits)> {
    let mut v = Vec::new();
    for n in 0..=maxn {
        for m in 0..(1u64 << n) {
            v.push((format!("tiny{n}:{m}"), Bits { n, w: if n == 0 { vec![] } else { vec![m] } }));
        }
    }
    v
}

fn pat(n: usize, k: usize, r: &mut Rng) -> Bits {
    match k {
        0 => Bits::zeros(n),
        1 => Bits::ones(n),
        2 => Bits::from_fn(n, |i| i % 2 == 0),
        3 => Bits::random(n, 1, 2, r),
        4 => Bits::random(n, 1, 50, r),
        5 => Bits::random(n, 49, 50, r),
        6 => Bits::from_fn(n, |i| i % 64 == 63),
        7 => Bits::from_fn(n, |i| i % 512 == 0),
        8 => Bits::from_fn(n, |i| i % 512 != 511),
        9 => Bits::from_fn(n, |i| (i / 512) % 2 == 0),
        10 => Bits::from_fn(n, |i| i + 1 == n),
        11 => Bits::from_fn(n, |i| i + 1 != n),
        12 => Bits::from_fn(n, |i| i == 0),
        13 => Bits::from_fn(n, |i| i >= n / 2),
        14 => Bits::from_fn(n, |i| i < n / 2),
        15 => Bits::from_fn(n, |i| (i / 64) % 8 == 7),
        16 => Bits::from_fn(n, |i| (i / 8192) % 2 == 1),
        _ => {
            // random runs of random scale
            let mut b = Bits::zeros(n);
            let mut i = 0;
            let mut v = r.chance(1, 2);
            while i < n {
                let s = *r.pick(&[1usize, 3, 20, 64, 130, 512, 1000, 8192]);
                let k = r.range(1, s).min(n - i);
                if v { for j in i..i + k { b.set(j, true); } }
                i += k;
                v = !v;
            }
            b
        }
    }
}
pub const PATS: usize = 18;

/// every length around a multiple of the limb, block and super-block size, several patterns each
pub fn edges(r: &mut Rng, per_len: usize) -> Vec<(String, Bits)> {
    let mut lens = vec![];
    for base in [64usize, 128, 192, 448, 512, 576, 1024, 4096, 7680, 8192, 8704, 16384, 24576] {
        for d in [-2i64, -1, 0, 1, 2] { lens.push((base as i64 + d) as usize); }
    }
    // nearly full super blocks: the vectorised block search needs all 16 descriptors
    for b in [0usize, 8192] { for k in [1usize, 8, 14, 15] { for d in [0usize, 1, 511] { lens.push(b + k * 512 + d); } } }
    lens.extend([7, 31, 33, 100, 300, 700, 2000, 5000, 9000, 20000]);
    let mut v = Vec::new();
    for (j, &n) in lens.iter().enumerate() {
        for t in 0..per_len {
            let k = if per_len >= PATS { t } else if t < 2 { PATS - 1 - 14 * (t & 1) } else { (j * per_len + t + r.below(3)) % PATS };
            v.push((format!("edge{n}:{k}"), pat(n, k, r)));
        }
    }
    v
}

/// vectors of 10^5 .. 6*10^6 bits with structure that exercises the sampling of select
pub fn large(r: &mut Rng, thorough: bool) -> Vec<(String, Bits)> {
    let sb = 8192usize;
    let mut v: Vec<(String, Bits)> = Vec::new();
    // all zeros / all ones over many super blocks
    v.push(("z40".into(), Bits::zeros(40 * sb + 17)));
    v.push(("o40".into(), Bits::ones(40 * sb + 17)));
    // exactly k select blocks
    v.push(("z8".into(), Bits::zeros(8 * sb)));
    v.push(("o8".into(), Bits::ones(8 * sb)));
    // clusters of ones separated by many empty super blocks, and the inverse
    for (gap, cl) in [(9usize, 8192usize), (12, 100), (40, 9000), (70, 5000), (17, 4096)] {
        let n = gap * 6 * sb + 77;
        let off = r.below(sb);
        let b = Bits::from_fn(n, |i| (i + off) % (gap * sb) < cl);
        v.push((format!("cl{gap}x{cl}"), b.not()));
        v.push((format!("cl{gap}x{cl}"), b));
    }
    // one in every super block, so that a single select block spans everything
    let b = Bits::from_fn(300 * sb + 3, |i| i % sb == 4097);
    v.push(("one_per_sb".into(), b.not()));
    v.push(("one_per_sb".into(), b));
    // sparse random and dense random
    let b = Bits::random(1_500_000, 1, 2000, r);
    v.push(("sparse".into(), b.not()));
    v.push(("sparse".into(), b));
    v.push(("rnd".into(), Bits::random(30 * sb + 5, 1, 2, r)));
    v.push(("rnd1/8".into(), Bits::random(60 * sb, 1, 8, r)));
    // density changes: dense head, then a desert, then a dense tail
    let n = 200 * sb;
    let b = Bits::from_fn(n, |i| i < 5 * sb || i >= 180 * sb || i % (11 * sb) == 5);
    v.push(("desert".into(), b.not()));
    v.push(("desert".into(), b));
    // random runs on all scales
    for _ in 0..if thorough { 20 } else { 4 } {
        let n = r.range(100_000, 800_000);
        let mut b = Bits::zeros(n);
        let mut i = 0;
        let mut on = r.chance(1, 2);
        while i < n {
            let s = *r.pick(&[64usize, 1000, 8192, 20_000, 100_000, 200_000]);
            let k = r.range(1, s).min(n - i);
            if on { for j in i..i + k { b.set(j, true); } }
            i += k;
            on = !on;
        }
        v.push(("mixruns".into(), b));
    }
    // select samples at exact multiples: 8192 ones every second word
    v.push(("alt_words".into(), Bits::from_fn(20 * sb, |i| (i / 64) % 2 == 0)));
    v.push(("alt_blocks".into(), Bits::from_fn(40 * sb, |i| (i / 512) % 2 == 1)));
    // above the sparse comparison threshold
    v.push(("4M".into(), Bits::from_fn(4_000_070, |i| i % 65_536 == 65_535 || i > 3_990_000)));
    if thorough {
        let b = Bits::from_fn(33_000_000, |i| i % 1_000_003 < 9000);
        v.push(("33M".into(), b.not()));
        v.push(("33M".into(), b));
    }
    v
}
