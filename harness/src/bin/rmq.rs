//! C13 BinaryRmq, C14 FastRmq.
use vers_vecs::{BinaryRmq, FastRmq};
use vharness::{rmqobs::*, *};

fn arrays(a: &Args, fast: bool, r: &mut Rng) -> Vec<(String, Vec<usize>, u8)> {
    // last field: 2 all pairs, 1 rows
    let mut v: Vec<(String, Vec<usize>, u8)> = Vec::new();
    let (l, al) = if a.thorough { (7, 3) } else { (5, 3) };
    let mut lvl: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..l {
        let mut nx = Vec::new();
        for s in &lvl { for j in 0..al { let mut u = s.clone(); u.push(j); nx.push(u); } }
        v.extend(nx.iter().map(|s| ("tiny".to_string(), s.clone(), 2)));
        lvl = nx;
    }
    let sizes: Vec<usize> = if fast { vec![6, 17, 63, 64, 65, 100, 127, 128, 129, 130, 191, 192, 200, 255, 256, 257, 300, 383, 384, 385, 420] }
        else { vec![6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] };
    let pats = if a.thorough { PATS } else { 5 };
    for (j, &n) in sizes.iter().enumerate() {
        for p in 0..pats {
            let k = if a.thorough { p } else { (j * pats + p + r.below(2)) % PATS };
            let all = n <= 130 || a.thorough || p < 2;
            v.push((format!("n{n}p{k}"), gen(r, n, k), if all { 2 } else { 1 }));
        }
    }
    for n in [511usize, 512, 513, 640, 1000, 1024, 1025, 2047, 2048, 2049, 5000, 128 * 17, 128 * 64 + 3, 128 * 130 + 77, 40_000] {
        for p in 0..if a.thorough { 8 } else { 2 } { let k = r.below(PATS); v.push((format!("n{n}p{k}.{p}"), gen(r, n, k), 1)); }
    }
    for (n, k) in [(66_000usize, 0usize), (66_100, 1), (140_000, 7), (70_001, 3)] { v.push((format!("huge n{n}p{k}"), gen(r, n, k), 1)); }
    v
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    if a.cmd == "c24" {
        for n in [1usize, 2, 3, 63, 64, 65, 127, 128, 129, 256, 300] {
            for k in [0usize, 1, 2, 4] {
                let v = gen(&mut r, n, k);
                let dict = dict_for(&v, &mut r);
                let data: Vec<u64> = v.iter().map(|&j| dict[j]).collect();
                for f in [false, true] {
                    start(&mut t, "total", &v, &dict);
                    let m = if a.thorough { 60 } else { 12 };
                    if f { match call(|| FastRmq::from_vec(roomy(&data, &mut r))) { Ok(q) => extreme(&mut t, &q, n, &mut r, m), Err(()) => t.ev("BuildPanic").done() } }
                    else { match call(|| BinaryRmq::from_vec(roomy(&data, &mut r))) { Ok(q) => extreme(&mut t, &q, n, &mut r, m), Err(()) => t.ev("BuildPanic").done() } }
                }
            }
        }
        return;
    }
    if a.cmd == "c13big" || a.cmd == "c14big" { big(&a, &mut t, &mut r, a.cmd == "c14big"); return; }
    let fast = a.cmd == "c14";
    for (i, (name, v, mode)) in arrays(&a, fast, &mut r).iter().enumerate() {
        let dict = dict_for(v, &mut r);
        let data: Vec<u64> = v.iter().map(|&j| dict[j]).collect();
        start(&mut t, name, v, &dict);
        if fast {
            let Ok(q) = call(|| match i % 3 { 0 => FastRmq::from_vec(roomy(&data, &mut r)), 1 => FastRmq::from(roomy(&data, &mut r)), _ => loose(data.iter().copied()).collect() }) else { t.ev("BuildPanic").done(); continue };
            observe(&mut t, &q, &dict, *mode, &mut r);
        } else {
            let Ok(q) = call(|| match i % 3 { 0 => BinaryRmq::from_vec(roomy(&data, &mut r)), 1 => BinaryRmq::from(roomy(&data, &mut r)), _ => loose(data.iter().copied()).collect() }) else { t.ev("BuildPanic").done(); continue };
            observe(&mut t, &q, &dict, *mode, &mut r);
        }
    }
}

/// an array of arithmetic progressions (length, first value, step) of values up to 2^29
fn pieces(r: &mut Rng, n: usize, style: usize) -> Vec<Vec<i64>> {
    let mut v: Vec<Vec<i64>> = Vec::new();
    let mut left = n;
    let mut cur: i64 = 1 << 28;
    let mut put = |v: &mut Vec<Vec<i64>>, len: usize, first: i64, step: i64, left: &mut usize| {
        let len = len.min(*left);
        if len > 0 { v.push(vec![len as i64, first, step]); *left -= len; }
        first + step * len as i64
    };
    match style {
        // falling, rising, valley, mountain
        0 => { put(&mut v, n, 1 << 28, -1, &mut left); }
        1 => { put(&mut v, n, 1 << 20, 1, &mut left); }
        2 => { let k = n - n / 23 - r.below(5000); cur = put(&mut v, k, cur, -1, &mut left); put(&mut v, n, cur, 1, &mut left); }
        3 => { let k = n / 2 + r.below(5000); cur = put(&mut v, k, cur, 1, &mut left); put(&mut v, n, cur, -1, &mut left); }
        // constant with a few dips, the later the deeper / the shallower / equal
        4 | 5 | 6 => {
            let mut d = 5_000i64;
            while left > 0 {
                let k = r.below(n / 12) + 1;
                put(&mut v, k, 1 << 20, 0, &mut left);
                d += match style { 4 => -7, 5 => 7, _ => 0 };
                let k = r.below(300) + 1;
                put(&mut v, k, d, 0, &mut left);
            }
        }
        // zigzag of long slopes with drift
        _ => {
            while left > 0 {
                let k = r.below(n / 15) + 1;
                let s = r.range(0, 2) as i64 - 1;
                cur = put(&mut v, k, cur, s, &mut left) + r.range(0, 2) as i64 - 1;
            }
        }
    }
    v
}

fn big(a: &Args, t: &mut T, r: &mut Rng, fast: bool) {
    let sizes: Vec<usize> = match (fast, a.thorough) {
        (true, false) => vec![70_600 * 128 + 77],
        (true, true) => vec![65_536 * 128 - 1, 65_600 * 128 + 77, 70_600 * 128 + 77, 70_000 * 128, 140_000 * 128 + 5, 2000 * 128 + 1],
        (false, false) => vec![300_000, 4_300_000],
        (false, true) => vec![131_073, 300_000, 1 << 20, (1 << 20) + 1, 3_000_000, 9_000_000, 18_000_000],
    };
    for n in sizes {
        for style in 0..8 {
            if !a.thorough && fast && style % 2 == (a.seed as usize) % 2 && style != 2 { continue; }
            if (n > 10_000_000 || !a.thorough && n > 1_000_000) && !fast && style != 2 && style != (a.seed as usize) % 8 { continue; }
            let ps = pieces(r, n, style);
            let (base, scale) = *r.pick(&[(0u64, 1u64), (u64::MAX - (1 << 30), 1), (12_345, (1 << 33) + 1), (1 << 47, 1 << 20)]);
            let mut data: Vec<u64> = Vec::with_capacity(n);
            for p in &ps { for x in 0..p[0] { data.push(base + (p[1] + x * p[2]) as u64 * scale); } }
            t.episode(&format!("big{n}s{style}"));
            t.ev("Build").aa("pieces", &ps).done();
            // interesting positions: ends of the pieces, of the array, powers of two, block borders
            let mut pos: Vec<usize> = vec![0, 1, n - 1, n - 2];
            let mut s = 0usize;
            for p in &ps { pos.extend([s, s + 1, s.saturating_sub(1), s + 128, s.saturating_sub(128)]); s += p[0] as usize; }
            for k in 7..31 { for d in [0usize, 1, 128] { pos.push((1usize << k) + d); pos.push((1usize << k).saturating_sub(d)); pos.push(n.saturating_sub(1 << k)); } }
            pos.retain(|&x| x < n);
            let mut qs: Vec<(usize, usize)> = Vec::new();
            for _ in 0..if a.thorough { 6000 } else { 1500 } {
                let i = if r.chance(2, 3) { *r.pick(&pos) } else { r.below(n) };
                let j = match r.below(4) {
                    0 => *r.pick(&pos),
                    1 => r.below(n),
                    2 => i + ((1usize << r.below(24)) + r.below(5)).saturating_sub(2),
                    _ => i + r.below(600),
                }.min(n - 1);
                qs.push((i.min(j), i.max(j)));
            }
            // lengths around every power of two that fits, at the ends and somewhere inside
            for k in 0..usize::BITS - n.leading_zeros() {
                for d in 0..5 {
                    let len = ((1usize << k) + d).saturating_sub(2);
                    if len < n { for i in [0, n - 1 - len, r.below(n - len), r.below(n - len)] { qs.push((i, i + len)); } }
                }
            }
            let mut run = |f: &dyn Fn(usize, usize) -> usize| {
                for c in qs.chunks(250) {
                    let q: Vec<Vec<i64>> = c.iter().map(|&(i, j)| vec![i as i64, j as i64, ru(|| f(i, j))]).collect();
                    t.ev("Mins").aa("q", &q).cost(20_000).done();
                }
            };
            if fast {
                match call(|| FastRmq::from_vec(data)) {
                    Ok(q) => { run(&|i, j| q.range_min(i, j)); t.ev("Len").i("n", ru(|| q.len())).done(); }
                    Err(()) => t.ev("BuildPanic").done(),
                }
            } else {
                match call(|| BinaryRmq::from_vec(data)) {
                    Ok(q) => { run(&|i, j| q.range_min(i, j)); t.ev("Len").i("n", ru(|| q.len())).done(); }
                    Err(()) => t.ev("BuildPanic").done(),
                }
            }
        }
    }
}
