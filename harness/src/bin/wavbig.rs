//! Wavelet matrices of millions of elements: C15 access, C16 rank and select, C17 order statistics, C18 predecessor and successor.
use vers_vecs::{BitVec, WaveletMatrix};
use vharness::{wavobs::Word, *};

struct S { k: usize, dict: Vec<Word>, runs: Vec<(usize, usize)>, n: usize }
impl S {
    fn idx(&self, w: &Word) -> i64 { self.dict.binary_search(w).map_or(UNKNOWN, |i| i as i64) }
    fn bv(&self, b: BitVec) -> i64 {
        if b.len() != self.k { return UNKNOWN; }
        let mut w = Word(vec![0; self.k.div_ceil(64)]);
        for i in 0..self.k { if b.is_bit_set_unchecked(i) { w.0[i / 64] |= 1 << (i % 64); } }
        self.idx(&w)
    }
    fn ob(&self, f: impl FnOnce() -> Option<BitVec>) -> i64 { call(f).map_or(PANIC, |o| o.map_or(NONE, |b| self.bv(b))) }
    fn ou(&self, f: impl FnOnce() -> Option<u64>) -> i64 { call(f).map_or(PANIC, |o| o.map_or(NONE, |x| self.idx(&Word(vec![x])))) }
    fn gen(r: &mut Rng, k: usize, n: usize, style: usize) -> S {
        let l = k.div_ceil(64);
        let m = if k < 6 { 1usize << k } else { 12 };
        let mask = |mut w: Vec<u64>| { if k % 64 != 0 { w[l - 1] &= (1 << (k % 64)) - 1; } Word(w) };
        let base: Vec<u64> = (0..l).map(|_| r.next()).collect();
        let mut dict: Vec<Word> = vec![mask(vec![0; l]), mask(vec![u64::MAX; l])];
        for _ in 0..m * 2 {
            let mut w: Vec<u64> = match r.below(3) { 0 => base.clone(), _ => (0..l).map(|_| r.next()).collect() };
            let b = r.below(k);
            w[b / 64] ^= 1 << (b % 64);
            dict.push(mask(w));
        }
        dict.sort();
        dict.dedup();
        let m = dict.len();
        let mut live: Vec<usize> = (0..m).filter(|_| r.chance(3, 4)).collect();
        live.push(r.below(m));
        let mut runs: Vec<(usize, usize)> = Vec::new();
        let mut left = n;
        while left > 0 {
            let x = *r.pick(&live);
            let c = match (style, r.below(4)) {
                (0, _) => 1 + r.below(n / 3),
                (_, 0) => 1,
                (_, 1) => 1 + r.below(600),
                _ => 1 + r.below(n / 20),
            };
            // one word often has the majority
            let c = if runs.len() == 4 && style > 0 { n * 3 / 5 } else { c };
            let c = if runs.len() > 150 { left } else { c.min(left) };
            runs.push((c, x));
            left -= c;
        }
        // the last element is a run of its own, and not the same word as the first
        let z = runs.len() - 1;
        if runs[z].0 > 1 { runs[z].0 -= 1; runs.push((1, (runs[0].1 + 1) % m)); }
        S { k, dict, runs, n }
    }
    fn ev(&self, t: &mut T) {
        let d: Vec<Vec<i64>> = self.dict.iter().map(Word::chunks).collect();
        let v: Vec<Vec<i64>> = self.runs.iter().map(|x| vec![x.0 as i64, x.1 as i64]).collect();
        t.ev("Build").i("k", self.k as i64).aa("dict", &d).aa("runs", &v).done();
    }
    fn build(&self, ctor: usize) -> WaveletMatrix {
        if ctor % 2 == 0 {
            let mut b = BitVec::with_capacity(self.n * self.k);
            for &(c, x) in &self.runs { for _ in 0..c {
                let mut left = self.k;
                for &w in &self.dict[x].0 { let m = left.min(64); b.append_bits(w, m); left -= m; }
            } }
            if ctor == 0 { WaveletMatrix::from_bit_vec(&b, self.k as u16) } else { WaveletMatrix::from_bit_vec_pc(&b, self.k as u16) }
        } else {
            let mut v = Vec::with_capacity(self.n);
            for &(c, x) in &self.runs { let w = self.dict[x].u(); v.resize(v.len() + c, w); }
            if ctor == 1 { WaveletMatrix::from_slice(&v, self.k as u16) } else { WaveletMatrix::from_slice_pc(&v, self.k as u16) }
        }
    }
    fn points(&self, r: &mut Rng, m: usize) -> Vec<usize> {
        let mut p = vec![0, 1, self.n, self.n - 1, self.n / 2, 65_535, 65_536, 65_537];
        let mut at = 0usize;
        for x in &self.runs { p.extend([at, at + 1, at.saturating_sub(1)]); at += x.0; }
        for _ in 0..m { p.push(r.below(self.n)); }
        p.retain(|&x| x <= self.n);
        p
    }
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    let mut todo: Vec<(usize, usize)> = vec![(1, 3_000_000), (2, 2_600_000), (7, 1_500_000), (16, 300_000), (40, 200_000), (64, 150_000), (90, 70_000), (3, 65_535), (4, 65_536), (3, 65_537), (20, 65_537), (70, 65_537)];
    if a.thorough {
        for k in [1usize, 3, 5, 8, 12, 33, 63, 65, 128] { todo.push((k, 4_000_000 / (k / 8 + 1) + r.below(100_000))); }
        todo.push((2, 40_000_000));
        if a.cmd == "c15" || a.cmd == "c16" { todo.push((62, 70_000_000)); }       // more than 2^32 bits of input
    }
    let m = if a.thorough { 1200 } else { 200 };
    for (j, (k, n)) in todo.into_iter().enumerate() {
        let s = S::gen(&mut r, k, n, (j + a.seed as usize) % 3);
        let cs: &[usize] = if k <= 16 { &[0, 1, 2, 3] } else if k <= 64 { &[0, 1] } else { &[0] };
        for (i, &c) in cs.iter().enumerate() {
            if (n > 65_537 && !a.thorough || n > 10_000_000) && i != (j + a.seed as usize) % cs.len() { continue; }
            t.episode(&format!("big k{k} n{n} c{c}"));
            s.ev(&mut t);
            let Ok(w) = call(|| s.build(c)) else { t.ev("BuildPanic").done(); continue };
            let ps = s.points(&mut r, m);
            let range = |r: &mut Rng| {
                let (x, y) = (*r.pick(&ps), *r.pick(&ps));
                match r.below(12) { 0 => (x.max(y), x.min(y)), 1 => (x, s.n + 1), 2 => (x, x), 3 => (x, (x + 1).min(s.n)), _ => (x.min(y), x.max(y)) }
            };
            let num = k <= 64;
            let d = s.dict.len();
            match a.cmd.as_str() {
                "c15" => {
                    t.ev("Len").i("r", ru(|| w.len())).done();
                    let q: Vec<Vec<i64>> = ps.iter().enumerate().map(|(i, &p)| vec![p as i64, if num && i % 2 == 0 { s.ou(|| w.get_u64(p)) } else { s.ob(|| w.get_value(p)) }]).collect();
                    for q in q.chunks(300) { t.ev("Get").aa("q", q).cost(4000).done(); }
                }
                "c16" => {
                    let mut q: Vec<Vec<i64>> = Vec::new();
                    for i in 0..m { let (x, y) = range(&mut r); let c = r.below(d); let wd = &s.dict[c];
                        let res = match i % 6 { _ if !num => ro(|| w.rank_range(x..y, &wd.bv(k))), 0 => ro(|| w.rank_range_u64(x..y, wd.u())), 1 => ro(|| w.rank_range(x..y, &wd.bv(k))),
                            2 => ro(|| w.rank_offset_u64(x, y, wd.u())), 3 => ro(|| w.rank_offset(x, y, &wd.bv(k))), _ => ro(|| w.rank_range_u64(x..y, wd.u())) };
                        q.push(vec![x as i64, y as i64, c as i64, res]); }
                    for q in q.chunks(200) { t.ev("Rank").aa("q", q).cost(8000).done(); }
                    let mut q: Vec<Vec<i64>> = Vec::new();
                    for i in 0..m { let o = *r.pick(&ps); if o >= s.n { continue; } let c = r.below(d); let wd = &s.dict[c];
                        let occ: usize = { let mut at = 0usize; let mut z = 0usize; for x in &s.runs { let e = at + x.0; if x.1 == c && e > o { z += e - at.max(o); } at = e; } z };
                        let j = match r.below(4) { 0 => occ, 1 => occ.saturating_sub(1), 2 => 0, _ => r.below(occ + 1) };
                        let res = match i % 4 { _ if !num => ro(|| w.select_offset(o, j, &wd.bv(k))), 0 | 1 => ro(|| w.select_offset_u64(o, j, wd.u())), 2 => ro(|| w.select_offset(o, j, &wd.bv(k))), _ => if o == 0 { ro(|| w.select_u64(j, wd.u())) } else { ro(|| w.select_offset_u64(o, j, wd.u())) } };
                        q.push(vec![o as i64, j as i64, c as i64, res]); }
                    for q in q.chunks(150) { t.ev("Sel").aa("q", q).cost(12_000).done(); }
                }
                "c17" => {
                    let mut q: Vec<Vec<i64>> = Vec::new();
                    for i in 0..m { let (x, y) = range(&mut r); let z = y.saturating_sub(x);
                        let (j, res) = match i % 5 {
                            0 => (0, if num { s.ou(|| w.range_min_u64(x..y)) } else { s.ob(|| w.range_min(x..y)) }),
                            1 => (z.saturating_sub(1), if num { s.ou(|| w.range_max_u64(x..y)) } else { s.ob(|| w.range_max(x..y)) }),
                            2 => (z.saturating_sub(1) / 2, if num { s.ou(|| w.range_median_u64(x..y)) } else { s.ob(|| w.range_median(x..y)) }),
                            _ => { let j = r.below(z + 2); (j, if num && i % 2 == 0 { s.ou(|| w.quantile_u64(x..y, j)) } else { s.ob(|| w.quantile(x..y, j)) }) }
                        };
                        q.push(vec![x as i64, y as i64, j as i64, res]); }
                    for i in 0..m / 4 { let j = r.below(s.n + 1); q.push(vec![0, s.n as i64, j as i64, if num && i % 2 == 0 { s.ou(|| w.get_sorted_u64(j)) } else { s.ob(|| w.get_sorted(j)) }]); }
                    for q in q.chunks(150) { t.ev("Quant").aa("q", q).cost(12_000).done(); }
                }
                "c18" => for up in [false, true] {
                    let mut q: Vec<Vec<i64>> = Vec::new();
                    for i in 0..m { let (x, y) = range(&mut r); let c = r.below(d); let wd = &s.dict[c];
                        let res = if num && i % 2 == 0 { s.ou(|| if up { w.successor_u64(x..y, wd.u()) } else { w.predecessor_u64(x..y, wd.u()) }) }
                            else { s.ob(|| if up { w.successor(x..y, &wd.bv(k)) } else { w.predecessor(x..y, &wd.bv(k)) }) };
                        q.push(vec![x as i64, y as i64, c as i64, res]); }
                    for q in q.chunks(150) { t.ev(if up { "Succ" } else { "Pred" }).aa("q", q).cost(12_000).done(); }
                },
                c => panic!("{c}"),
            }
        }
    }
}
