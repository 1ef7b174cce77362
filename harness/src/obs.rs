//! Observation procedures shared by several bins.
use crate::*;
use vers_vecs::RsVec;

pub fn ones_of(t: &mut T, op: &str, how: &str, n: usize, f: impl Fn(usize) -> i64) {
    let mut r = Runs::default();
    let mut bad = Vec::new();
    for p in 0..n {
        match f(p) {
            0 => {}
            1 => r.push(p as i64),
            x => if bad.len() < 10 { bad.push(vec![p as i64, x]) },
        }
    }
    t.ev(op).st("how", how).a("ones", &r.0).aa("bad", &bad).done();
}

/// rank(0), rank(1), ..., rank(n) as step positions
pub fn rank_all(t: &mut T, z: bool, n: usize, f: impl Fn(usize) -> i64) {
    let mut r = Runs::default();
    let mut bad = Vec::new();
    let at0 = f(0);
    let mut prev = at0;
    for p in 0..n {
        let c = f(p + 1);
        if c < 0 || prev < 0 || (c != prev && c != prev + 1) {
            if bad.len() < 10 { bad.push(vec![p as i64, prev, c]); }
        } else if c == prev + 1 {
            r.push(p as i64);
        }
        prev = c;
    }
    t.ev("RankAll").b("z", z).i("at0", at0).a("steps", &r.0).aa("bad", &bad).done();
}

pub fn past(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![n, n + 1, n + 2, n + 63, n + 64, n + 65, n + 511, n + 512, n + 8192, 2 * n + 1];
    v.extend([usize::MAX, usize::MAX - 1, usize::MAX - 63, usize::MAX - 64, 1 << 63, (1 << 63) - 1, 1 << 32, usize::MAX / 64, (1usize << 58) - 1, 1 << 58]);
    v.retain(|&p| p >= n);
    v
}

/// arguments around the length and far beyond it, up to the largest integer
pub fn extremes(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(1), n.saturating_sub(2), n, n + 1, n + 2, 63, 64, 65, n + 63, n + 64, n / 64 * 64, n / 64 * 64 + 64, 511, 512, 513, 8191, 8192];
    for b in [31u32, 32, 33, 57, 58, 59, 60, 61, 62, 63] { let x = 1usize << b; v.extend([x - 1, x, x + 1, x - n, x + n]); }
    for d in [0usize, 1, 2, 62, 63, 64, 65, 126, 127, 128, 511, 512, 513] { v.push(usize::MAX - d); v.push(usize::MAX - n - d); v.push(usize::MAX / 64 - d); }
    for w in [2usize, 3, 5, 7, 13, 33, 63] { v.extend([usize::MAX / w, usize::MAX / w + 1]); }
    v.sort_unstable();
    v.dedup();
    v
}
/// a few of them
pub fn extremes_few(n: usize, r: &mut Rng, m: usize) -> Vec<usize> {
    let e = extremes(n);
    let mut v = vec![0, n.saturating_sub(1), n, n + 1, usize::MAX, usize::MAX - 63, 1 << 63];
    for _ in 0..m { v.push(*r.pick(&e)); }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn val_runs(pos: usize, len: usize, r: Result<Option<u64>, ()>) -> Vec<i64> {
    let mut q = vec![cap(pos), cap(len)];
    match r {
        Err(()) => q.push(PANIC),
        Ok(None) => q.push(NONE),
        Ok(Some(v)) => { q.push(0); q.extend(word_runs(v, pos as i64)); }
    }
    q
}

pub fn rs_rank(t: &mut T, rs: &RsVec, r: &mut Rng, pts: bool) {
    let n = rs.len();
    for z in [false, true] {
        let f = |p: usize| ru(|| if z { rs.rank0(p) } else { rs.rank1(p) });
        rank_all(t, z, n, f);
        let mut ps = past(n);
        if pts { for _ in 0..20 { ps.push(r.below(n + 1)); } ps.extend([0, n / 2, n.saturating_sub(1)]); }
        let rs_: Vec<i64> = ps.iter().map(|&p| f(p)).collect();
        let ps: Vec<i64> = ps.iter().map(|&p| cap(p)).collect();
        t.ev("RankPts").b("z", z).a("ps", &ps).a("rs", &rs_).done();
    }
}

pub fn rs_len(t: &mut T, rs: &RsVec) {
    t.ev("Len").i("n", ru(|| rs.len())).i("empty", rb(|| rs.is_empty())).done();
}

pub fn getbits_queries(n: usize, r: &mut Rng, count: usize) -> Vec<(usize, usize)> {
    let mut q = Vec::new();
    for _ in 0..count {
        let len = *r.pick(&[0usize, 1, 2, 7, 31, 32, 33, 62, 63, 64, 64, 65, 100]);
        let pos = match r.below(6) {
            0 => n.saturating_sub(len),
            1 => (n + 1).saturating_sub(len),
            2 => (r.below(n / 64 + 1)) * 64,
            3 => ((r.below(n / 64 + 1)) * 64 + 63).min(n),
            _ => r.below(n + 1),
        };
        q.push((pos, len));
    }
    for p in [n, n + 1, usize::MAX, usize::MAX - 63, usize::MAX - 64, 1 << 63] {
        for l in [0, 1, 63, 64, 65, usize::MAX, 1 << 63] { q.push((p, l)); }
    }
    for l in [0, 65, usize::MAX, usize::MAX - 63] { q.push((0, l)); q.push((n / 2, l)); }
    q
}

pub fn rs_get(t: &mut T, rs: &RsVec, r: &mut Rng, big: bool) {
    let n = rs.len();
    ones_of(t, "GetAll", "get", n, |p| ro64(|| rs.get(p)));
    if !big {
        ones_of(t, "GetAll", "get_unchecked", n, |p| ru64(|| rs.get_unchecked(p)));
    }
    let ps = past(n);
    let g: Vec<i64> = ps.iter().map(|&p| ro64(|| rs.get(p))).collect();
    t.ev("GetPts").a("ps", &ps.iter().map(|&p| cap(p)).collect::<Vec<_>>()).a("rs", &g).done();
    let qs = getbits_queries(n, r, if n < 64 { 20 } else { 60 });
    let q: Vec<Vec<i64>> = qs.iter().map(|&(p, l)| val_runs(p, l, call(|| rs.get_bits(p, l)))).collect();
    t.ev("GetBits").aa("q", &q).done();
    let q: Vec<Vec<i64>> = qs.iter().filter(|&&(p, l)| l >= 1 && l <= 64 && p <= n && l <= n - p)
        .map(|&(p, l)| val_runs(p, l, call(|| Some(rs.get_bits_unchecked(p, l))))).collect();
    t.ev("GetBitsU").aa("q", &q).done();
}

pub fn rs_select(t: &mut T, rs: &RsVec, b: &Bits) {
    let ones = b.count();
    for z in [false, true] {
        let tot = if z { b.n - ones } else { ones };
        let f = |k: usize| ru(|| if z { rs.select0(k) } else { rs.select1(k) });
        let mut v = Runs::default();
        for k in 0..tot { v.push(f(k)); }
        t.ev("SelAll").b("z", z).a("vals", &v.0).done();
        let ks: Vec<usize> = past(tot);
        let rs_: Vec<i64> = ks.iter().map(|&k| f(k)).collect();
        t.ev("SelPast").b("z", z).a("ks", &ks.iter().map(|&k| cap(k)).collect::<Vec<_>>()).a("rs", &rs_).done();
    }
}

// ------------------------------------------------------------------ Elias-Fano, sparse
use vers_vecs::{EliasFanoVec, SparseRSVec};

fn words(v: &[Vec<i64>]) -> Vec<Vec<i64>> { v.to_vec() }

pub fn ef_access(t: &mut T, ef: &EliasFanoVec, n: usize) {
    t.ev("Len").i("n", ru(|| ef.len())).i("empty", rb(|| ef.is_empty())).done();
    let g: Vec<Vec<i64>> = (0..n).map(|i| row(|| ef.get(i))).collect();
    t.ev("GetAll").st("how", "get").aa("ws", &g).done();
    let g: Vec<Vec<i64>> = (0..n).map(|i| row(|| ef.select(i))).collect();
    t.ev("GetAll").st("how", "select").aa("ws", &g).done();
    let g: Vec<Vec<i64>> = (0..n).map(|i| rw(|| ef.get_unchecked(i))).collect();
    t.ev("GetAll").st("how", "get_unchecked").aa("ws", &g).done();
    let g: Vec<Vec<i64>> = (0..n).map(|i| row(|| ef.delta(i))).collect();
    t.ev("DeltaAll").aa("ws", &g).done();
    let it = call(|| ef.iter().take(n + 3).map(limbs).collect::<Vec<_>>()).unwrap_or(vec![vec![PANIC]]);
    t.ev("GetAll").st("how", "iter").aa("ws", &it).done();
    let it = call(|| { let mut v = ef.clone().into_iter().rev().take(n + 3).map(limbs).collect::<Vec<_>>(); v.reverse(); v }).unwrap_or(vec![vec![PANIC]]);
    t.ev("GetAll").st("how", "into_iter.rev").aa("ws", &it).done();
    let ks = past(n);
    for how in ["get", "select", "delta"] {
        let r: Vec<Vec<i64>> = ks.iter().map(|&k| row(|| match how { "get" => ef.get(k), "select" => ef.select(k), _ => ef.delta(k) })).collect();
        t.ev("Past").st("how", how).a("ks", &ks.iter().map(|&k| cap(k)).collect::<Vec<_>>()).aa("rs", &words(&r)).done();
    }
}

pub fn ef_search(t: &mut T, ef: &EliasFanoVec, xs: &[u64], qs: &[u64]) {
    for ch in qs.chunks(2000) {
        let c = ch.len() as u64 * 400;
        let r: Vec<Vec<i64>> = ch.iter().map(|&q| row(|| ef.predecessor(q))).collect();
        t.ev("Pred").st("how", "checked").ws("q", ch).aa("r", &r).cost(c).done();
        let r: Vec<Vec<i64>> = ch.iter().map(|&q| row(|| ef.successor(q))).collect();
        t.ev("Succ").st("how", "checked").ws("q", ch).aa("r", &r).cost(c).done();
        let r: Vec<i64> = ch.iter().map(|&q| ru64(|| ef.rank(q))).collect();
        t.ev("Rank").ws("q", ch).a("r", &r).cost(c).done();
    }
    if xs.is_empty() { return; }
    let u: Vec<u64> = qs.iter().copied().filter(|&q| q >= xs[0]).take(300).collect();
    let r: Vec<Vec<i64>> = u.iter().map(|&q| rw(|| ef.predecessor_unchecked(q))).collect();
    t.ev("Pred").st("how", "unchecked").ws("q", &u).aa("r", &r).done();
    let u: Vec<u64> = qs.iter().copied().filter(|&q| q <= xs[xs.len() - 1]).take(300).collect();
    let r: Vec<Vec<i64>> = u.iter().map(|&q| rw(|| ef.successor_unchecked(q))).collect();
    t.ev("Succ").st("how", "unchecked").ws("q", &u).aa("r", &r).done();
}

pub fn sp_obs(t: &mut T, sp: &SparseRSVec, xs: &[u64], len: u64, qs: &[u64]) {
    let n = xs.len();
    t.ev("SpLen").a("w", &rw(|| sp.len())).i("empty", rb(|| sp.is_empty())).done();
    for ch in qs.chunks(2000) {
        let c = ch.len() as u64 * 400;
        let r: Vec<i64> = ch.iter().map(|&q| ro64(|| sp.get(q))).collect();
        t.ev("SpGet").st("how", "get").ws("q", ch).a("r", &r).cost(c).done();
        let r: Vec<i64> = ch.iter().map(|&q| rob(|| sp.is_set(q))).collect();
        t.ev("SpGet").st("how", "is_set").ws("q", ch).a("r", &r).cost(c).done();
        let r: Vec<i64> = ch.iter().map(|&q| ru64(|| sp.rank1(q))).collect();
        t.ev("Rank").ws("q", ch).a("r", &r).cost(c).done();
        let r: Vec<Vec<i64>> = ch.iter().map(|&q| rw(|| sp.rank0(q))).collect();
        t.ev("SpRank0").ws("q", ch).aa("r", &r).cost(c).done();
    }
    let u: Vec<u64> = qs.iter().copied().filter(|&q| q < len).collect();
    let r: Vec<i64> = u.iter().map(|&q| ru64(|| sp.get_unchecked(q))).collect();
    t.ev("SpGetU").st("how", "get").ws("q", &u).a("r", &r).done();
    let r: Vec<i64> = u.iter().map(|&q| rb(|| sp.is_set_unchecked(q))).collect();
    t.ev("SpGetU").st("how", "is_set").ws("q", &u).a("r", &r).done();
    let mut ks: Vec<usize> = (0..n).collect();
    ks.extend(past(n));
    let r: Vec<Vec<i64>> = ks.iter().map(|&k| rw(|| sp.select1(k))).collect();
    t.ev("SpSel").a("ks", &ks.iter().map(|&k| cap(k)).collect::<Vec<_>>()).aa("r", &r).done();
    let it = call(|| sp.iter1().take(n + 3).map(limbs).collect::<Vec<_>>()).unwrap_or(vec![vec![PANIC]]);
    t.ev("GetAll").st("how", "iter1").aa("ws", &it).done();
}

/// queries around the elements, between them, at the borders of their bit prefixes, and anywhere
pub fn queries(xs: &[u64], r: &mut Rng, limit: usize) -> Vec<u64> {
    let mut q: Vec<u64> = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32];
    let n = xs.len();
    let step = (3 * n / limit.max(1)).max(1);
    let off = r.below(step);
    for i in (off..n).step_by(step) {
        let x = xs[i];
        q.extend([x, x.wrapping_sub(1), x.wrapping_add(1)]);
    }
    if n > 0 {
        let (a, b) = (xs[0], xs[n - 1]);
        q.extend([a, a.wrapping_sub(1), a.wrapping_add(1), b, b.wrapping_sub(1), b.wrapping_add(1)]);
        for _ in 0..40 {
            let w = b - a;
            let x = if w == u64::MAX { r.next() } else { a + r.next() % (w + 1) };
            let s = r.below(64);
            // offsets from the first element with many low zeros or ones
            let lowz = a.wrapping_add((x - a) >> s << s);
            q.extend([x, lowz, lowz.wrapping_sub(1), lowz.wrapping_add(1)]);
            let i = r.below(n);
            if i + 1 < n { q.push(xs[i] + (xs[i + 1] - xs[i]) / 2); }
        }
    }
    q
}
