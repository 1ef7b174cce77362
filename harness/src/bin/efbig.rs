//! Elias-Fano and sparse vectors of millions of elements: C09 iterators, C10 access, C11 search, C12 sparse.
use vers_vecs::{BitVec, EliasFanoVec, SparseRSVec};
use vharness::*;

type Piece = (u64, u64, u64);

fn evs(t: &mut T, ps: &[Piece], len: u64, sparse: bool) {
    let s: Vec<String> = ps.iter().map(|p| format!("[{},{:?},{:?}]", p.0, limbs(p.1), limbs(p.2))).collect();
    t.ev("Build").raw("pieces", &format!("[{}]", s.join(","))).w("len", len).i("sparse", i64::from(sparse)).done();
}

fn fill(ps: &[Piece]) -> Vec<u64> {
    let mut v = Vec::with_capacity(ps.iter().map(|p| p.0 as usize).sum());
    for p in ps { for i in 0..p.0 { v.push(p.1 + i * p.2); } }
    v
}

/// n elements up to at most top, in progressions; strict: no duplicates
fn pieces(r: &mut Rng, n: u64, top: u64, style: usize, strict: bool) -> Vec<Piece> {
    let mut v: Vec<Piece> = Vec::new();
    let m0 = u64::from(strict);
    let mut left = n;
    let mut at = match style % 3 { 0 => 0, 1 => r.next() % 1000, _ => top / 3 };
    let avg = ((top - at) / n).max(1);
    while left > 0 {
        let last = v.len() >= 24;
        let k = match style {
            0 => n,                                                     // one progression over the whole universe
            1 | 2 => (n / 9 + r.next() % (n / 9)).min(left),
            _ => match r.below(4) { 0 => 1 + r.next() % 5, 1 => 1 + r.next() % 3000, _ => 1 + r.next() % (n / 3) },
        };
        let k = if last { left } else { k.min(left) };
        let room = (top - at) / k / if last { 1 } else { 3 };
        let mut s = match style {
            0 => avg,
            1 => r.next() % (2 * avg),
            2 => [m0, 1, 1 << 20][r.below(3)],
            _ => match r.below(5) { 0 => m0, 1 => 1, 2 => 1 + r.next() % 9, 3 => avg, _ => avg / 7 },
        }.min(room);
        if strict && s == 0 { s = 1; }
        v.push((k, at, s));
        left -= k;
        at += (k - 1) * s;
        if left > 0 {
            let gap = match r.below(4) { 0 => m0, 1 => 1 + r.next() % 100, 2 => avg * (1 + r.next() % 1000), _ => (top - at) / 4 };
            at += gap.min((top - at).saturating_sub(left + 2)).max(m0);
        }
    }
    v
}

fn idx(r: &mut Rng, ps: &[Piece], n: usize, m: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n - 1, n - 2, n, n + 1];
    let mut at = 0;
    for p in ps { for d in 0..3 { v.push(at + d); v.push((at + d).saturating_sub(2)); } at += p.0 as usize; }
    for k in [1usize << 16, 1 << 20, 8192, n / 8192 * 8192] { v.extend([k, k - 1, k + 1]); }
    for _ in 0..m { v.push(r.below(n)); v.push(n - 1 - r.below(n / 20 + 1)); }
    v.retain(|&i| i < n + 2);
    v
}

fn qs(r: &mut Rng, xs: &[u64], ps: &[Piece], len: u64, m: usize) -> Vec<u64> {
    let mut q = vec![0, 1, u64::MAX, len, len.wrapping_sub(1), len.saturating_add(1)];
    for p in ps { let e = p.1 + (p.0 - 1) * p.2; for d in 0..3u64 { q.extend([p.1.wrapping_sub(d), p.1.wrapping_add(d), e.wrapping_add(d), e.wrapping_sub(d)]); } q.push(p.1 + p.2 / 2); }
    for _ in 0..m {
        let x = xs[r.below(xs.len())];
        q.extend([x, x.wrapping_add(1), x.wrapping_sub(1)]);
        let (a, b) = (xs[0], xs[xs.len() - 1]);
        let y = if b - a == u64::MAX { r.next() } else { a + r.next() % (b - a + 1) };
        q.push(y);
        q.push(y >> 34 << 34);
    }
    q
}

fn below(xs: &[u64], q: u64) -> i64 { xs.partition_point(|&x| x < q) as i64 }
fn upto(xs: &[u64], q: u64) -> i64 { xs.partition_point(|&x| x <= q) as i64 }

fn walk(t: &mut T, mut it: impl DoubleEndedIterator<Item = u64> + ExactSizeIterator, n: usize, r: &mut Rng) {
    t.ev("ItOpen").done();
    let mut left = n;
    for i in 0..40 {
        let what = ["nth", "nth_back", "len"][r.below(3)];
        let k = match r.below(6) { 0 | 1 => 0, 2 => r.below(100), 3 => r.below(70_000), 4 => if left > 0 { r.below(left + 1) / 2 } else { 0 }, _ => if i > 30 { left.saturating_sub(r.below(3)) } else { r.below(9000) } };
        let res = match what {
            "nth" => if k == 0 { row(|| it.next()) } else { row(|| it.nth(k)) },
            "nth_back" => if k == 0 { row(|| it.next_back()) } else { row(|| it.nth_back(k)) },
            _ => rw(|| it.len() as u64),
        };
        if what != "len" { left = left.saturating_sub(k + 1); }
        t.ev("It").st("what", what).i("k", k as i64).a("r", &res).done();
    }
}

fn sparse_obs(t: &mut T, sp: &SparseRSVec, xs: &[u64], ps: &[Piece], len: u64, m: usize, r: &mut Rng) {
    t.ev("SpLen").a("r", &rw(|| sp.len())).done();
    for ch in qs(r, xs, ps, len, m).chunks(200) {
        let c: Vec<i64> = ch.iter().map(|&q| below(xs, q)).collect();
        let g: Vec<i64> = ch.iter().map(|&q| if q % 2 == 0 { ro64(|| sp.get(q)) } else { rob(|| sp.is_set(q)) }).collect();
        t.ev("SpGet").ws("q", ch).a("c", &c).a("rs", &g).cost(6000).done();
        let g: Vec<i64> = ch.iter().map(|&q| ru64(|| sp.rank1(q))).collect();
        t.ev("Rank").ws("q", ch).a("rs", &g).cost(6000).done();
        let c: Vec<i64> = ch.iter().map(|&q| below(xs, q.min(len))).collect();
        let g: Vec<Vec<i64>> = ch.iter().map(|&q| rw(|| sp.rank0(q))).collect();
        t.ev("SpRank0").ws("q", ch).a("c", &c).aa("rs", &g).cost(6000).done();
    }
    let ix = idx(r, ps, xs.len(), m);
    let g: Vec<Vec<i64>> = ix.iter().map(|&i| rw(|| sp.select1(i))).collect();
    t.ev("SpSel").a("is", &ix.iter().map(|&i| i as i64).collect::<Vec<_>>()).aa("rs", &g).cost(6000).done();
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    let m = if a.thorough { 1500 } else { 120 };
    let mut todo: Vec<(u64, u64, usize)> = Vec::new();      // elements, largest value, style
    let u = u64::MAX;
    for st in 0..5 { todo.push((if st == 0 { 1 << 20 } else { 300_000 + r.below(900_000) as u64 }, *r.pick(&[u, 1 << 62, 1 << 40]), st)); }
    if a.thorough { for st in 0..40 { todo.push((100_000 + r.below(12_000_000) as u64, u >> r.below(36), st % 5)); } }
    // index times width of the low parts reaches 2^32
    let huge = 117_000_000;
    if a.cmd != "c09" { todo.push((huge, u, if a.thorough { 4 } else { a.seed as usize % 5 })); }
    if a.thorough { for st in 0..4 { todo.push((huge + r.below(10_000_000) as u64, u, st)); } }
    for (n, top, st) in todo {
        let sparse = a.cmd == "c12";
        let ps = pieces(&mut r, n, top - 1, st, sparse);
        let xs = fill(&ps);
        let last = xs[xs.len() - 1];
        let len = if sparse { if r.chance(1, 2) { last + 1 } else { last.saturating_add(1 + r.next() % 1000) } } else { 0 };
        t.episode(&format!("big n{n} s{st}"));
        evs(&mut t, &ps, len, sparse);
        if sparse {
            match call(|| SparseRSVec::new(&xs, len)) { Ok(sp) => sparse_obs(&mut t, &sp, &xs, &ps, len, m, &mut r), Err(()) => t.ev("BuildPanic").done() }
            continue;
        }
        let Ok(ef) = call(|| EliasFanoVec::from_slice(&xs)) else { t.ev("BuildPanic").done(); continue };
        match a.cmd.as_str() {
            "c09" => { for _ in 0..6 { walk(&mut t, ef.iter(), xs.len(), &mut r); } walk(&mut t, ef.into_iter(), xs.len(), &mut r); }
            "c10" => {
                t.ev("Len").i("r", ru(|| ef.len())).done();
                for ch in idx(&mut r, &ps, xs.len(), 4 * m).chunks(400) {
                    let ix: Vec<i64> = ch.iter().map(|&i| i as i64).collect();
                    let g: Vec<Vec<i64>> = ch.iter().map(|&i| if i % 2 == 0 { row(|| ef.get(i)) } else { row(|| ef.select(i)) }).collect();
                    t.ev("Get").a("is", &ix).aa("rs", &g).cost(6000).done();
                    let g: Vec<Vec<i64>> = ch.iter().map(|&i| row(|| ef.delta(i))).collect();
                    t.ev("Delta").a("is", &ix).aa("rs", &g).cost(6000).done();
                }
            }
            "c11" => for ch in qs(&mut r, &xs, &ps, last, m).chunks(200) {
                let c: Vec<i64> = ch.iter().map(|&q| upto(&xs, q)).collect();
                let g: Vec<Vec<i64>> = ch.iter().map(|&q| row(|| ef.predecessor(q))).collect();
                t.ev("Pred").ws("q", ch).a("c", &c).aa("rs", &g).cost(6000).done();
                let c: Vec<i64> = ch.iter().map(|&q| below(&xs, q)).collect();
                let g: Vec<Vec<i64>> = ch.iter().map(|&q| row(|| ef.successor(q))).collect();
                t.ev("Succ").ws("q", ch).a("c", &c).aa("rs", &g).cost(6000).done();
                let g: Vec<i64> = ch.iter().map(|&q| ru64(|| ef.rank(q))).collect();
                t.ev("Rank").ws("q", ch).a("rs", &g).cost(6000).done();
            },
            c => panic!("{c}"),
        }
    }
    if a.cmd != "c12" { return; }
    // converted from bit vectors, the longest of more than 2^32 bits
    let mut sizes: Vec<u64> = vec![70_001, 3_000_000, (1 << 32) + 300_000];
    if a.thorough { sizes.extend([65_536, 65_537, 1 << 20, 50_000_000, (1 << 32) + 64]); }
    for (j, n) in sizes.into_iter().enumerate() {
        let inv = (j + a.seed as usize) % 2 == 0;
        let mut ps: Vec<Piece> = Vec::new();
        let mut at = r.next() % 3000;
        while at < n && ps.len() < 60 {
            let k = (1 + match r.below(3) { 0 => r.next() % 3, 1 => r.next() % 90, _ => r.next() % 3000 }).min(n - at);
            ps.push((k, at, 1));
            at += k + 1 + match r.below(3) { 0 => r.next() % 3, 1 => r.next() % 200, _ => r.next() % (n / 9) };
        }
        if ps.is_empty() || at + 10 <= n { ps.push((9, n - 9 - r.below(2) as u64, 1)); }
        let xs = fill(&ps);
        t.episode(&format!("from bits {n}"));
        evs(&mut t, &ps, n, true);
        let s = call(|| {
            let mut b = if inv { BitVec::from_ones(n as usize) } else { BitVec::from_zeros(n as usize) };
            for &x in &xs { b.flip_bit(x as usize); }
            if inv { SparseRSVec::from_bitvec_inverted(&b) } else { SparseRSVec::from_bitvec(&b) }
        });
        match s { Ok(sp) => sparse_obs(&mut t, &sp, &xs, &ps, n, m, &mut r), Err(()) => t.ev("BuildPanic").done() }
    }
}
