//! Sequences of k-bit words and observations of wavelet matrices.
use crate::*;
use vers_vecs::{BitVec, WaveletMatrix};

/// a k-bit word, least significant limb first
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Word(pub Vec<u64>);
impl PartialOrd for Word { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Word { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) } }
impl Word {
    pub fn bit(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
    pub fn bv(&self, k: usize) -> BitVec { let mut b = BitVec::new(); for i in 0..k { b.append(self.bit(i)); } b }
    pub fn u(&self) -> u64 { self.0[0] }
    pub fn chunks(&self) -> Vec<i64> {
        let mut v = Vec::new();
        for l in self.0.iter().rev() { for s in [48, 32, 16, 0] { v.push((l >> s & 0xFFFF) as i64); } }
        v
    }
}
fn mask(mut w: Word, k: usize) -> Word { if k % 64 != 0 { let n = w.0.len(); w.0[n - 1] &= (1 << (k % 64)) - 1; } w }
fn rand_word(k: usize, r: &mut Rng) -> Word { mask(Word((0..k.div_ceil(64)).map(|_| r.next()).collect()), k) }
fn flip(w: &Word, i: usize) -> Word { let mut w = w.clone(); w.0[i / 64] ^= 1 << (i % 64); w }
/// w with the lowest i bits replaced
fn suffix(w: &Word, i: usize, s: &Word) -> Word {
    let mut x = w.clone();
    for b in 0..i { if x.bit(b) != s.bit(b) { x = flip(&x, b); } }
    x
}
fn step(w: &Word, k: usize, up: bool) -> Word {
    let mut x = w.clone();
    for l in x.0.iter_mut() {
        let (v, c) = if up { l.overflowing_add(1) } else { l.overflowing_sub(1) };
        *l = v;
        if !c { break; }
    }
    mask(x, k)
}

pub struct Seq { pub k: usize, pub dict: Vec<Word>, pub v: Vec<usize> }
impl Seq {
    fn of(k: usize, ws: Vec<Word>, extra: Vec<Word>) -> Seq {
        let mut dict: Vec<Word> = ws.iter().cloned().chain(extra).collect();
        dict.sort();
        dict.dedup();
        let v = ws.iter().map(|w| dict.binary_search(w).unwrap()).collect();
        Seq { k, dict, v }
    }
    pub fn idx(&self, w: &Word) -> i64 { self.dict.binary_search(w).map_or(UNKNOWN, |i| i as i64) }
    pub fn ib(&self, f: impl FnOnce() -> BitVec) -> i64 { call(f).map_or(PANIC, |b| self.of_bv(&b)) }
    pub fn iob(&self, f: impl FnOnce() -> Option<BitVec>) -> i64 { call(f).map_or(PANIC, |o| o.map_or(NONE, |b| self.of_bv(&b))) }
    pub fn iu(&self, f: impl FnOnce() -> u64) -> i64 { call(f).map_or(PANIC, |x| self.idx(&Word(vec![x]))) }
    pub fn iou(&self, f: impl FnOnce() -> Option<u64>) -> i64 { call(f).map_or(PANIC, |o| o.map_or(NONE, |x| self.idx(&Word(vec![x])))) }
    pub fn of_bv(&self, b: &BitVec) -> i64 {
        if b.len() != self.k { return UNKNOWN; }
        let mut w = Word(vec![0; self.k.div_ceil(64)]);
        for i in 0..self.k { if b.is_bit_set_unchecked(i) { w.0[i / 64] |= 1 << (i % 64); } }
        self.idx(&w)
    }
}

pub const SHAPES: usize = 10;
pub fn gen(r: &mut Rng, k: usize, n: usize, shape: usize) -> Seq {
    let zero = Word(vec![0; k.div_ceil(64)]);
    let ones = mask(Word(vec![u64::MAX; k.div_ceil(64)]), k);
    let mut ws: Vec<Word> = match shape {
        0 => { let m = r.range(1, 6); let p: Vec<Word> = (0..m).map(|_| rand_word(k, r)).collect(); (0..n).map(|_| r.pick(&p).clone()).collect() }
        1 => (0..n).map(|_| rand_word(k, r)).collect(),
        2 | 3 => { let mut x: Vec<Word> = (0..n).map(|_| rand_word(k, r)).collect(); x.sort(); if shape == 3 { x.reverse(); } x }
        4 => { let w = rand_word(k, r); vec![w; n] }
        // only some bits vary
        5 => { let w = rand_word(k, r); (0..n).map(|_| flip(&w, *r.pick(&[0, k - 1, k / 2]))).collect() }
        // shared prefixes: a trie with few branches, words differ in random suffixes
        6 | 7 => {
            let mut p = vec![rand_word(k, r)];
            for _ in 0..n.min(40) { let w = r.pick(&p).clone(); let i = r.range(1, k); let s = rand_word(k, r); p.push(suffix(&flip(&w, i - 1), i - 1, &s)); }
            if shape == 6 { (0..n).map(|_| r.pick(&p).clone()).collect() } else { p.iter().cycle().take(n).cloned().collect() }
        }
        // extremes and their neighbours
        8 => { let p = [zero.clone(), ones.clone(), step(&zero, k, true), step(&ones, k, false), flip(&zero, k - 1), flip(&ones, k - 1)]; (0..n).map(|_| r.pick(&p).clone()).collect() }
        // runs
        _ => { let mut x = Vec::new(); while x.len() < n { let w = rand_word(k, r); let l = r.range(1, n / 3 + 1); for _ in 0..l { x.push(w.clone()); } } x.truncate(n); x }
    };
    if n > 3 && r.chance(1, 4) { ws[n - 1] = if r.chance(1, 2) { ones.clone() } else { zero.clone() }; }
    // words that do not occur: neighbours, words leaving the trie at some level, extremes
    let mut ex = vec![zero, ones];
    for _ in 0..12 {
        if n > 0 {
            let w = r.pick(&ws).clone();
            let up = r.chance(1, 2);
            ex.push(step(&w, k, up));
            let i = r.below(k);
            ex.push(flip(&w, i));
            let s = rand_word(k, r);
            ex.push(suffix(&flip(&w, i), i, &s));
        }
        ex.push(rand_word(k, r));
    }
    Seq::of(k, ws, ex)
}
/// words of k <= 8 bits in which two symbols (the lower one first in every order) occur more than 2^16 times
pub fn skewed(r: &mut Rng, k: usize, n: usize) -> Seq {
    let m = 1usize << k;
    let (a, b) = (r.below(m - 1), m - 1 - r.below(2).min(m - 1));
    let b = if b == a { m - 1 } else { b };
    let ws = (0..n).map(|_| Word(vec![match r.below(40) { 0 => r.below(m), x if x % 2 == 0 => a, _ => b } as u64])).collect();
    Seq::of(k, ws, (0..m.min(64) as u64).map(|x| Word(vec![x])).collect())
}
/// all sequences over {0..m-1} of k-bit words, k small; the dictionary is all k-bit words
pub fn tiny(k: usize, l: usize) -> Vec<Seq> {
    let m = 1usize << k;
    let all: Vec<Word> = (0..m as u64).map(|x| Word(vec![x])).collect();
    let mut out = Vec::new();
    for n in 0..=l {
        for c in 0..m.pow(n as u32) {
            let mut c = c;
            let ws: Vec<Word> = (0..n).map(|_| { let x = c % m; c /= m; all[x].clone() }).collect();
            out.push(Seq::of(k, ws, all.clone()));
        }
    }
    out
}

pub const CTORS: usize = 4;
pub fn build(t: &mut T, name: &str, s: &Seq, ctor: usize, r: &mut Rng) -> Option<WaveletMatrix> {
    t.episode(name);
    let d: Vec<Vec<i64>> = s.dict.iter().map(Word::chunks).collect();
    let v: Vec<i64> = s.v.iter().map(|&x| x as i64).collect();
    t.ev("Build").i("k", s.k as i64).aa("dict", &d).a("vals", &v).st("ctor", ["bitvec", "slice", "bitvec_pc", "slice_pc"][ctor]).done();
    let k = s.k as u16;
    let w = call(|| {
        if ctor % 2 == 0 {
            let mut b = Bits::zeros(s.v.len() * s.k);
            for (i, &x) in s.v.iter().enumerate() { for j in 0..s.k { if s.dict[x].bit(j) { b.set(i * s.k + j, true); } } }
            let h = *r.pick(&[0, 1, 2, 3, 4]);
            let bv = make(&b, h, r);
            if ctor == 0 { WaveletMatrix::from_bit_vec(&bv, k) } else { WaveletMatrix::from_bit_vec_pc(&bv, k) }
        } else {
            let x: Vec<u64> = s.v.iter().map(|&x| s.dict[x].u()).collect();
            if ctor == 1 { WaveletMatrix::from_slice(&x, k) } else { WaveletMatrix::from_slice_pc(&x, k) }
        }
    });
    match w { Ok(w) => Some(w), Err(()) => { t.ev("BuildPanic").done(); None } }
}
/// constructors usable for width k
pub fn ctors(k: usize) -> &'static [usize] { if k <= 20 { &[0, 1, 2, 3] } else if k <= 64 { &[0, 1] } else { &[0] } }

fn far(n: usize) -> [usize; 7] { [n, n + 1, n + 63, n + 512, 1 << 40, 1 << 63, usize::MAX] }

#[allow(deprecated)]
pub fn access(t: &mut T, w: &WaveletMatrix, s: &Seq) {
    let n = s.v.len();
    t.ev("Shape").i("n", ru(|| w.len())).i("empty", rb(|| w.is_empty())).i("k", ru(|| w.bits_per_element())).i("bl", ru(|| w.bit_len() as usize)).done();
    let mut all = |v: Vec<i64>| t.ev("GetAll").a("r", &v).done();
    all((0..n).map(|i| s.iob(|| w.get_value(i))).collect());
    all((0..n).map(|i| s.ib(|| w.get_value_unchecked(i))).collect());
    if s.k <= 64 {
        all((0..n).map(|i| s.iou(|| w.get_u64(i))).collect());
        all((0..n).map(|i| s.iu(|| w.get_u64_unchecked(i))).collect());
    }
    let f = far(n);
    let ks: Vec<i64> = f.iter().map(|&x| cap(x)).collect();
    t.ev("GetPast").a("ks", &ks).a("rs", &f.map(|i| s.iob(|| w.get_value(i)))).done();
    t.ev("GetPast").a("ks", &ks).a("rs", &f.map(|i| s.iou(|| w.get_u64(i)))).done();
    if s.k > 64 {
        let v: Vec<i64> = (0..n).map(|i| s.iou(|| w.get_u64(i))).collect();
        t.ev("Wide").a("rs", &v).done();
        t.ev("Wide").a("rs", &[rob(|| w.iter_u64().map(|_| true))]).done();
    }
}

fn rows(n: usize, r: &mut Rng, full: bool) -> Vec<usize> {
    if full { (0..n).collect() } else if n == 0 { vec![] } else { let mut v = vec![0, r.below(n), n - 1 - r.below(n.min(3))]; v.dedup(); v }
}
fn syms(s: &Seq, r: &mut Rng, full: bool, m: usize) -> Vec<usize> {
    if full || s.dict.len() <= m { (0..s.dict.len()).collect() } else {
        (0..m).map(|i| if i % 3 != 0 && !s.v.is_empty() { *r.pick(&s.v) } else { r.below(s.dict.len()) }).collect()
    }
}

/// rank_range / rank_offset / rank and their variants
fn rank_by(w: &WaveletMatrix, s: &Seq, m: usize, i: usize, j: usize, c: usize, b: &BitVec) -> i64 {
    let u = s.dict[c].u();
    match m {
        0 => ro(|| w.rank_range(i..j, b)),
        1 => ro(|| w.rank_offset(i, j, b)),
        2 => ru(|| w.rank_range_unchecked(i..j, b)),
        3 => ru(|| w.rank_offset_unchecked(i, j, b)),
        4 => ro(|| w.rank_range_u64(i..j, u)),
        5 => ro(|| w.rank_offset_u64(i, j, u)),
        6 => ru(|| w.rank_range_u64_unchecked(i..j, u)),
        7 => ru(|| w.rank_offset_u64_unchecked(i, j, u)),
        8 => ro(|| w.rank(j, b)),
        9 => ru(|| w.rank_unchecked(j, b)),
        10 => ro(|| w.rank_u64(j, u)),
        _ => ru(|| w.rank_u64_unchecked(j, u)),
    }
}
fn rank_methods(k: usize, zero: bool) -> Vec<usize> {
    (0..12).filter(|m| (k <= 64 || matches!(m, 0..=3 | 8 | 9)) && (zero || *m < 8)).collect()
}
fn sel_by(w: &WaveletMatrix, s: &Seq, m: usize, o: usize, rk: usize, c: usize, b: &BitVec) -> i64 {
    let u = s.dict[c].u();
    match m {
        0 => ro(|| w.select_offset(o, rk, b)),
        1 => ro(|| w.select_offset_u64(o, rk, u)),
        2 => ro(|| w.select(rk, b)),
        3 => ro(|| w.select_u64(rk, u)),
        4 => ru(|| w.select_offset_unchecked(o, rk, b)),
        5 => ru(|| w.select_offset_u64_unchecked(o, rk, u)),
        6 => ru(|| w.select_unchecked(rk, b)),
        _ => ru(|| w.select_u64_unchecked(rk, u)),
    }
}

pub fn rank_select(t: &mut T, w: &WaveletMatrix, s: &Seq, r: &mut Rng, full: bool) {
    let n = s.v.len();
    let lim = if n > 2000 { 3 } else { 8 };
    for o in rows(n, r, full) {
        for c in syms(s, r, full, lim) {
            let b = s.dict[c].bv(s.k);
            let ms = rank_methods(s.k, o == 0);
            // each row mixes the methods at random positions, so every method meets every kind of range
            let row: Vec<i64> = (o..=n).map(|j| rank_by(w, s, *r.pick(&ms), o, j, c, &b)).collect();
            t.ev("RankRow").i("o", o as i64).i("c", c as i64).a("r", &row).cost(row.len() as u64 * 10).done();
            let occ = s.v[o..].iter().filter(|&&x| x == c).count();
            let ms: Vec<usize> = [0, 2, 1, 3].into_iter().filter(|m| (s.k <= 64 || m % 2 == 0) && (o == 0 || *m < 2)).collect();
            let step: Vec<usize> = (0..occ + 3).collect();
            let row: Vec<i64> = step.iter().map(|&k| sel_by(w, s, *r.pick(&ms), o, k, c, &b)).collect();
            t.ev("SelRow").i("o", o as i64).i("c", c as i64).a("r", &row).cost(n as u64 * 10).done();
            let row: Vec<i64> = (0..occ).map(|k| sel_by(w, s, *r.pick(&ms) + 4, o, k, c, &b)).collect();
            t.ev("SelRowU").i("o", o as i64).i("c", c as i64).a("r", &row).cost(n as u64 * 10).done();
        }
    }
    // single queries, good and bad
    let mut qr: Vec<Vec<i64>> = Vec::new();
    let mut qs: Vec<Vec<i64>> = Vec::new();
    let f = far(n);
    let cnt = if full { 12 } else if n > 2000 { 12 } else { 40 };
    for i in 0..cnt {
        let c = if i % 2 == 0 && n > 0 { *r.pick(&s.v) } else { r.below(s.dict.len()) };
        let b = s.dict[c].bv(s.k);
        let (mut x, mut y) = (r.below(n + 1), r.below(n + 1));
        if i % 3 == 0 { if r.chance(1, 2) { x = *r.pick(&f) } if r.chance(1, 2) { y = *r.pick(&f) } } else if i % 6 != 1 && x > y { std::mem::swap(&mut x, &mut y); }
        for m in [0, 1, 4, 5] { if s.k <= 64 || m < 2 { qr.push(vec![cap(x), cap(y), c as i64, rank_by(w, s, m, x, y, c, &b)]); } }
        for m in [8, 10] { if s.k <= 64 || m < 10 { qr.push(vec![0, cap(y), c as i64, rank_by(w, s, m, 0, y, c, &b)]); } }
        for m in 0..4 { if s.k <= 64 || m % 2 == 0 {
            let o = if m < 2 { x } else { 0 };
            let k = if r.chance(1, 2) { r.below(4) } else { y };
            qs.push(vec![cap(o), cap(k), c as i64, sel_by(w, s, m, o, k, c, &b)]);
        } }
    }
    t.ev("Rank").aa("q", &qr).cost((cnt * n * 10) as u64).done();
    t.ev("Sel").aa("q", &qs).cost((cnt * n * 10) as u64).done();
    // wrong symbol widths and integer calls on wide words
    let mut bad = Vec::new();
    for l in [0, 1, s.k - 1, s.k + 1, s.k + 64] {
        if l == s.k { continue; }
        for b in [BitVec::from_zeros(l), BitVec::from_ones(l)] {
            bad.push(ro(|| w.rank_range(0..n, &b)));
            bad.push(ro(|| w.rank_offset(0, n, &b)));
            bad.push(ro(|| w.rank(n, &b)));
            bad.push(ro(|| w.select_offset(0, 0, &b)));
            bad.push(ro(|| w.select(0, &b)));
            for i in [0, n.saturating_sub(1), n / 2] { bad.push(ro(|| w.rank_range(i..i, &b))); }
        }
    }
    t.ev("Refused").a("rs", &bad).done();
    if s.k > 64 {
        let mut v = Vec::new();
        for u in [0, 1, u64::MAX] { for i in [0, n / 2] {
            v.extend([ro(|| w.rank_range_u64(i..n, u)), ro(|| w.rank_offset_u64(i, n, u)), ro(|| w.rank_u64(n, u)), ro(|| w.select_offset_u64(i, 0, u)), ro(|| w.select_u64(0, u))]);
        } }
        t.ev("Wide").a("rs", &v).done();
    }
}

/// every checked operation with extreme arguments
pub fn extreme(t: &mut T, w: &WaveletMatrix, s: &Seq, r: &mut Rng, m: usize) {
    let n = s.v.len();
    let small = s.k <= 64;
    let ex = crate::obs::extremes(n);
    let ks: Vec<usize> = ex.iter().copied().filter(|&x| x >= n).collect();
    let kc: Vec<i64> = ks.iter().map(|&x| cap(x)).collect();
    t.ev("GetPast").a("ks", &kc).a("rs", &ks.iter().map(|&i| s.iob(|| w.get_value(i))).collect::<Vec<_>>()).done();
    t.ev("GetPast").a("ks", &kc).a("rs", &ks.iter().map(|&i| s.iou(|| w.get_u64(i))).collect::<Vec<_>>()).done();
    t.ev("GetPast").a("ks", &kc).a("rs", &ks.iter().map(|&i| s.iob(|| w.get_sorted(i))).collect::<Vec<_>>()).done();
    t.ev("GetPast").a("ks", &kc).a("rs", &ks.iter().map(|&i| s.iou(|| w.get_sorted_u64(i))).collect::<Vec<_>>()).done();
    let es = crate::obs::extremes_few(n, r, m);
    let (mut qr, mut qs, mut mm, mut qb, mut wide) = (Vec::new(), Vec::new(), Vec::new(), Vec::new(), Vec::new());
    for &x in &es {
        for &y in &es {
            let c = if n > 0 && r.chance(1, 2) { *r.pick(&s.v) } else { r.below(s.dict.len()) };
            let b = s.dict[c].bv(s.k);
            for m in [0, 1, 4, 5, 8, 10] {
                let z = if m < 8 { x } else { 0 };
                let v = rank_by(w, s, m, z, y, c, &b);
                if small || matches!(m, 0 | 1 | 8) { qr.push(vec![cap(z), cap(y), c as i64, v]); } else { wide.push(v); }
            }
            for m in 0..4 {
                let z = if m < 2 { x } else { 0 };
                let v = sel_by(w, s, m, z, y, c, &b);
                if small || m % 2 == 0 { qs.push(vec![cap(z), cap(y), c as i64, v]); } else { wide.push(v); }
            }
            if x >= y || y > n {
                for z in [[s.iob(|| w.range_min(x..y)), s.iob(|| w.range_max(x..y)), s.iob(|| w.range_median(x..y))],
                          [s.iou(|| w.range_min_u64(x..y)), s.iou(|| w.range_max_u64(x..y)), s.iou(|| w.range_median_u64(x..y))]] {
                    mm.push(vec![cap(x), cap(y), z[0], z[1], z[2]]);
                }
                for op in ["Pred", "Succ"] {
                    let v = if op == "Pred" { [s.iob(|| w.predecessor(x..y, &b)), s.iou(|| w.predecessor_u64(x..y, s.dict[c].u()))] } else { [s.iob(|| w.successor(x..y, &b)), s.iou(|| w.successor_u64(x..y, s.dict[c].u()))] };
                    t.ev(op).i("i", cap(x)).i("j", cap(y)).a("cs", &[c as i64; 2]).a("r", &v).done();
                }
            }
            for &q in &[0, n, *r.pick(&es), usize::MAX] {
                if x < y && y <= n && q < y - x { continue; }
                qb.push(vec![cap(x), cap(y), cap(q), s.iob(|| w.quantile(x..y, q))]);
                qb.push(vec![cap(x), cap(y), cap(q), s.iou(|| w.quantile_u64(x..y, q))]);
            }
        }
    }
    t.ev("Rank").aa("q", &qr).done();
    t.ev("Sel").aa("q", &qs).done();
    t.ev("MMMBad").aa("q", &mm).done();
    t.ev("QuantBad").aa("q", &qb).done();
    if !small { t.ev("Wide").a("rs", &wide).done(); }
}

fn ranges(n: usize, r: &mut Rng, full: bool, m: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    if n == 0 { return v; }
    if full { for i in 0..n { for j in i + 1..=n { v.push((i, j)); } } } else {
        v.push((0, n));
        v.push((0, 1));
        v.push((n - 1, n));
        while v.len() < m { let (a, b) = (r.below(n), r.below(n)); v.push((a.min(b), a.max(b) + 1)); }
    }
    v
}

/// certificate for the sorted range, validated by the specification
fn sort_ev(t: &mut T, s: &Seq, i: usize, j: usize) {
    let mut p: Vec<usize> = (i..j).collect();
    p.sort_by_key(|&x| s.v[x]);
    let so: Vec<i64> = p.iter().map(|&x| s.v[x] as i64).collect();
    let p: Vec<i64> = p.iter().map(|&x| x as i64).collect();
    t.ev("Sort").i("i", i as i64).i("j", j as i64).a("s", &so).a("p", &p).cost((j - i) as u64 * 10).done();
}

pub fn order(t: &mut T, w: &WaveletMatrix, s: &Seq, r: &mut Rng, full: bool) {
    let n = s.v.len();
    let small = s.k <= 64;
    for (i, j) in ranges(n, r, full, if n > 2000 { 4 } else { 10 }) {
        sort_ev(t, s, i, j);
        let row: Vec<i64> = (0..j - i).map(|q| match r.below(if small { 4 } else { 2 }) {
            0 => s.iob(|| w.quantile(i..j, q)),
            1 => s.ib(|| w.quantile_unchecked(i..j, q)),
            2 => s.iou(|| w.quantile_u64(i..j, q)),
            _ => s.iu(|| w.quantile_u64_unchecked(i..j, q)),
        }).collect();
        t.ev("QuantAll").i("i", i as i64).i("j", j as i64).a("r", &row).cost((j - i) as u64 * 20).done();
    }
    let mut mm = Vec::new();
    let mut qb = Vec::new();
    let mut rg = ranges(n, r, full, if n > 2000 { 6 } else { 25 });
    let good = rg.len();
    let f = far(n);
    for x in [0, n / 2, n] { rg.push((x, x)); for &y in &f { rg.push((x, y)); rg.push((y, x)); } }
    for a in f { for b in f { rg.push((a, b)); } }
    for (c, &(i, j)) in rg.iter().enumerate() {
        let (ci, cj) = (cap(i), cap(j));
        let ok = c < good;
        if !ok && i < j && j <= n { continue; }
        let x = vec![s.iob(|| w.range_min(i..j)), s.iob(|| w.range_max(i..j)), s.iob(|| w.range_median(i..j))];
        let y = vec![s.iou(|| w.range_min_u64(i..j)), s.iou(|| w.range_max_u64(i..j)), s.iou(|| w.range_median_u64(i..j))];
        if ok {
            let mut rs = vec![x];
            if small { rs.push(y); }
            rs.push(vec![s.ib(|| w.range_min_unchecked(i..j)), s.ib(|| w.range_max_unchecked(i..j)), s.ib(|| w.range_median_unchecked(i..j))]);
            if small { rs.push(vec![s.iu(|| w.range_min_u64_unchecked(i..j)), s.iu(|| w.range_max_u64_unchecked(i..j)), s.iu(|| w.range_median_u64_unchecked(i..j))]); }
            sort_ev(t, s, i, j);
            t.ev("MinMaxMed").i("i", ci).i("j", cj).aa("rs", &rs).done();
        } else { for z in [x, y] { mm.push(vec![ci, cj, z[0], z[1], z[2]]); } }
        let ks: Vec<usize> = if ok { vec![j - i, j - i + 1, n, usize::MAX].into_iter().filter(|&q| q >= j - i).collect() } else { vec![0, 1, n, usize::MAX] };
        if c % 3 == 0 || !ok { for q in ks {
            if i.checked_add(1).is_some() && i < (1 << 30) && j < (1 << 30) && i < j && j <= n && q < j - i { continue; }
            qb.push(vec![ci, cj, cap(q), s.iob(|| w.quantile(i..j, q))]);
            qb.push(vec![ci, cj, cap(q), s.iou(|| w.quantile_u64(i..j, q))]);
        } }
    }
    t.ev("MMMBad").aa("q", &mm).done();
    t.ev("QuantBad").aa("q", &qb).done();
    if n > 0 { sort_ev(t, s, 0, n); }
    let mut all = |v: Vec<i64>| t.ev("SortedAll").a("r", &v).cost(n as u64 * 20).done();
    all((0..n).map(|i| s.iob(|| w.get_sorted(i))).collect());
    all((0..n).map(|i| s.ib(|| w.get_sorted_unchecked(i))).collect());
    all(call(|| w.iter_sorted().collect::<Vec<_>>()).map_or(vec![PANIC], |v| v.iter().map(|b| s.of_bv(b)).collect()));
    all(call(|| w.clone().into_iter_sorted().collect::<Vec<_>>()).map_or(vec![PANIC], |v| v.iter().map(|b| s.of_bv(b)).collect()));
    if small {
        all((0..n).map(|i| s.iou(|| w.get_sorted_u64(i))).collect());
        all((0..n).map(|i| s.iu(|| w.get_sorted_u64_unchecked(i))).collect());
        all(call(|| w.iter_sorted_u64().map(|i| i.collect::<Vec<_>>())).ok().flatten().map_or(vec![PANIC], |v| v.iter().map(|&x| s.idx(&Word(vec![x]))).collect()));
        all(call(|| w.clone().into_iter_sorted_u64().map(|i| i.collect::<Vec<_>>())).ok().flatten().map_or(vec![PANIC], |v| v.iter().map(|&x| s.idx(&Word(vec![x]))).collect()));
    } else {
        let mut v: Vec<i64> = (0..n).map(|i| s.iou(|| w.get_sorted_u64(i))).collect();
        for (i, j) in ranges(n, r, full, 6) {
            v.extend([s.iou(|| w.quantile_u64(i..j, 0)), s.iou(|| w.range_min_u64(i..j)), s.iou(|| w.range_max_u64(i..j)), s.iou(|| w.range_median_u64(i..j))]);
        }
        v.push(rob(|| w.iter_sorted_u64().map(|_| true)));
        t.ev("Wide").a("rs", &v).done();
    }
    let ks: Vec<i64> = f.iter().map(|&x| cap(x)).collect();
    t.ev("GetPast").a("ks", &ks).a("rs", &f.map(|i| s.iob(|| w.get_sorted(i)))).done();
    t.ev("GetPast").a("ks", &ks).a("rs", &f.map(|i| s.iou(|| w.get_sorted_u64(i)))).done();
}

pub fn pred_succ(t: &mut T, w: &WaveletMatrix, s: &Seq, r: &mut Rng, full: bool) {
    let n = s.v.len();
    let small = s.k <= 64;
    let mut rg = ranges(n, r, full, if n > 2000 { 4 } else { 14 });
    let f = far(n);
    rg.extend([(0, 0), (n, n), (n / 2, n / 2), (n, 0), (0, *r.pick(&f)), (*r.pick(&f), *r.pick(&f)), (*r.pick(&f), 0), (usize::MAX, usize::MAX), (0, n + 1), (n.saturating_sub(1), n + 1)]);
    for (i, j) in rg {
        if i < j && j <= n { sort_ev(t, s, i, j); }
        let cs = syms(s, r, full, if n > 2000 { 30 } else { 70 });
        let ci: Vec<i64> = cs.iter().map(|&c| c as i64).collect();
        let mut put = |op: &str, v: Vec<i64>| t.ev(op).i("i", cap(i)).i("j", cap(j)).a("cs", &ci).a("r", &v).cost(n as u64 * 10).done();
        put("Pred", cs.iter().map(|&c| { let b = s.dict[c].bv(s.k); s.iob(|| w.predecessor(i..j, &b)) }).collect());
        put("Succ", cs.iter().map(|&c| { let b = s.dict[c].bv(s.k); s.iob(|| w.successor(i..j, &b)) }).collect());
        if small {
            put("Pred", cs.iter().map(|&c| { let u = s.dict[c].u(); s.iou(|| w.predecessor_u64(i..j, u)) }).collect());
            put("Succ", cs.iter().map(|&c| { let u = s.dict[c].u(); s.iou(|| w.successor_u64(i..j, u)) }).collect());
        }
    }
    let mut bad = Vec::new();
    for l in [0, 1, s.k - 1, s.k + 1, s.k + 64] {
        if l == s.k { continue; }
        for b in [BitVec::from_zeros(l), BitVec::from_ones(l)] {
            bad.push(s.iob(|| w.predecessor(0..n, &b)));
            bad.push(s.iob(|| w.successor(0..n, &b)));
        }
    }
    t.ev("Refused").a("rs", &bad).done();
    if !small {
        let mut v = Vec::new();
        for u in [0, 1, u64::MAX] { v.extend([s.iou(|| w.predecessor_u64(0..n, u)), s.iou(|| w.successor_u64(0..n, u))]); }
        t.ev("Wide").a("rs", &v).done();
    }
}
