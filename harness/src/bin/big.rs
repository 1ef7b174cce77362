//! Vectors of more than 2^32 bits: C01 edits and reads, C05 rank and access, C06 select, C07 position iterators, C08 equality.
use vers_vecs::{BitVec, RsVec};
use vharness::*;

const G: u64 = 1 << 32;

struct V { n: u64, runs: Vec<(u64, u64)> }
impl V {
    fn complement(&self) -> V {
        let mut r = Vec::new();
        let mut at = 0;
        for &(a, b) in &self.runs { if at < a { r.push((at, a)); } at = b; }
        if at < self.n { r.push((at, self.n)); }
        V { n: self.n, runs: r }
    }
    fn make(&self) -> BitVec {
        let mut w = vec![0u64; self.n.div_ceil(64) as usize];
        for &(a, b) in &self.runs {
            let (x, y) = ((a / 64) as usize, ((b - 1) / 64) as usize);
            let (lo, hi) = (u64::MAX << (a % 64), u64::MAX >> (63 - (b - 1) % 64));
            if x == y { w[x] |= lo & hi; } else { w[x] |= lo; w[x + 1..y].fill(u64::MAX); w[y] |= hi; }
        }
        let tot = w.len() as u64 * 64;
        let mut v = BitVec::from_vec(w);
        v.drop_last((tot - self.n) as usize);
        v
    }
    fn ev(&self, t: &mut T) {
        let mut s = String::from("[");
        for (i, &(a, b)) in self.runs.iter().enumerate() {
            if i > 0 { s.push(','); }
            s += &format!("[{:?},{:?}]", limbs(a), limbs(b));
        }
        s.push(']');
        t.ev("Build").w("n", self.n).raw("runs", &s).done();
    }
    fn count(&self, z: bool) -> u64 { let o: u64 = self.runs.iter().map(|r| r.1 - r.0).sum(); if z { self.n - o } else { o } }
    /// positions around run borders, word/block/super-block borders near 2^31, 2^32, the end, and anywhere
    fn points(&self, r: &mut Rng, m: usize) -> Vec<u64> {
        let mut p = Vec::new();
        for &(a, b) in &self.runs { for d in [0u64, 1, 2] { p.extend([a + d, a.wrapping_sub(d), b + d, b - d]); } }
        for x in [1u64 << 16, 1u64 << 31, G, self.n, self.n / 512 * 512, self.n / 8192 * 8192, self.n / 64 * 64] {
            for d in [0u64, 1, 63, 64, 65, 511, 512, 513, 8191, 8192, 8193, 16384] { p.extend([x + d, x.wrapping_sub(d)]); }
        }
        for _ in 0..m { p.push(r.next() % self.n); if self.n > G { p.push(G + r.next() % (self.n - G)); } }
        p.sort_unstable();
        p.dedup();
        p
    }
    /// ranks around the borders of the runs
    fn ranks(&self, z: bool, r: &mut Rng, m: usize) -> Vec<u64> {
        let c = if z { self.complement() } else { V { n: self.n, runs: self.runs.clone() } };
        let tot = self.count(z);
        let mut p = Vec::new();
        let mut acc = 0u64;
        for &(a, b) in &c.runs { acc += b - a; for d in [0u64, 1, 2, 64, 512, 8192] { p.extend([acc + d, acc.wrapping_sub(d)]); } }
        for x in [1u64 << 31, G, tot, tot / 8192 * 8192, 8192, 0] { for d in [0u64, 1, 2, 511, 512, 8191, 8192, 8193] { p.extend([x + d, x.wrapping_sub(d)]); } }
        for _ in 0..m { p.push(r.next() % tot); if tot > G { p.push(G + r.next() % (tot - G)); } }
        p.sort_unstable();
        p.dedup();
        p
    }
}

fn vecs(r: &mut Rng) -> Vec<(&'static str, V)> {
    // mostly zeros: clusters of ones on both sides of 2^32, then the complement
    let n = G + 70 * 8192 + 77;
    let mut runs = vec![(5, 9), (8192 * 3, 8192 * 5 + 1)];
    let mut at = (1 << 31) - 700;
    for _ in 0..6 { let l = r.range(1, 3000) as u64; runs.push((at, at + l)); at += l + r.range(1, 5000) as u64; }
    at = G - 30_000;
    while at < n - 20_000 { let l = *r.pick(&[1u64, 64, 500, 4000, 9000]) + r.below(70) as u64; runs.push((at, at + l)); at += l + *r.pick(&[1u64, 70, 600, 9000, 30_000]); }
    runs.retain(|x| x.1 < n - 10);
    runs.push((n - 9, n));
    let a = V { n, runs };
    let b = a.complement();
    vec![("sparse", a), ("dense", b)]
}

fn ws(v: &[u64]) -> Vec<Vec<i64>> { v.iter().map(|&x| limbs(x)).collect() }

fn edits(t: &mut T, name: &str, v: &V, r: &mut Rng) {
    t.episode(name);
    v.ev(t);
    let make = || if v.count(true) > v.count(false) {
        let mut b = BitVec::from_zeros(v.n as usize);
        for &(x, y) in &v.runs { for p in x..y { let _ = b.set(p as usize, 1); } }
        b
    } else {
        let mut b = BitVec::from_ones(v.n as usize);
        for &(x, y) in &v.complement().runs { for p in x..y { b.flip_bit(p as usize); } }
        b
    };
    let Ok(mut b) = call(make) else { t.ev("BuildPanic").done(); return };
    let mut n = v.n;
    let mut reads = |t: &mut T, b: &BitVec, n: u64, r: &mut Rng, extra: &[u64]| {
        t.ev("Len").a("r", &rw(|| b.len() as u64)).done();
        t.ev("Count").b("z", false).a("r", &rw(|| b.count_ones())).done();
        t.ev("Count").b("z", true).a("r", &rw(|| b.count_zeros())).done();
        let w = V { n, runs: v.runs.clone() };
        let mut ps = w.points(r, 20);
        ps.extend(extra);
        ps.extend([u64::MAX, 1 << 63, n + (1 << 32), n - (1 << 32)]);
        let rs: Vec<i64> = ps.iter().map(|&p| match p % 2 { 0 => ro64(|| b.get(p as usize)), _ => rob(|| b.is_bit_set(p as usize)) }).collect();
        t.ev("Get").aa("ps", &ws(&ps)).a("rs", &rs).done();
        let q: Vec<(u64, usize)> = ps.iter().filter(|&&p| p < n + 100).step_by(3).map(|&p| (p, *r.pick(&[1usize, 7, 32, 63, 64]))).collect();
        let rs: Vec<Vec<i64>> = q.iter().map(|&(p, l)| row(|| b.get_bits(p as usize, l))).collect();
        let p: Vec<u64> = q.iter().map(|x| x.0).collect();
        let l: Vec<i64> = q.iter().map(|x| x.1 as i64).collect();
        t.ev("GetBits").aa("ps", &ws(&p)).a("lens", &l).aa("rs", &rs).done();
        // packed elements: index * width beyond 2^32
        let q: Vec<(u64, usize)> = (0..30).map(|i| { let w = [1usize, 2, 3, 7, 17, 33, 63, 64][i % 8]; ((if i % 3 == 0 { n } else { G + r.next() % (n - G) }) / w as u64, w) }).collect();
        let rs: Vec<Vec<i64>> = q.iter().map(|&(i, w)| row(|| b.unpack_element(i as usize, w))).collect();
        let p: Vec<u64> = q.iter().map(|x| x.0 * x.1 as u64).collect();
        let l: Vec<i64> = q.iter().map(|x| x.1 as i64).collect();
        t.ev("GetBits").aa("ps", &ws(&p)).a("lens", &l).aa("rs", &rs).done();
    };
    reads(t, &b, n, r, &[]);
    for round in 0..2 {
        let mut ps: Vec<u64> = (0..40).map(|i| match i % 4 { 0 => r.next() % n, 1 => n - 1 - r.below(100) as u64, 2 => G + r.next() % (n - G), _ => G - 200 + r.below(400) as u64 }).collect();
        for (i, &p) in ps.iter().enumerate() {
            if i % 2 == 0 { let ok = call(|| b.flip_bit(p as usize)).is_ok(); t.ev("Flip").w("p", p).b_("ok", ok).done(); }
            else { let x = r.below(2) as u64; let ok = call(|| b.set(p as usize, x).is_ok()).map_or(PANIC, i64::from); t.ev("Set").w("p", p).i("v", x as i64).i("ok", ok).done(); }
        }
        for p in [n, n + 1, n + G] { let ok = call(|| b.set(p as usize, 1).is_ok()).map_or(PANIC, i64::from); t.ev("Set").w("p", p).i("v", 1).i("ok", ok).done(); }
        if round == 0 {
            let k = r.range(1, 500) as u64;
            let ok = call(|| b.drop_last(k as usize)).is_ok();
            t.ev("Drop").w("k", k).b_("ok", ok).done();
            n -= k;
        }
        for l in [64usize, 13, 1, 63, 64, 50] {
            let w = r.next();
            let ok = call(|| b.append_bits(w, l)).is_ok();
            t.ev("Append").w("w", w).i("len", l as i64).b_("ok", ok).done();
            n += l as u64;
        }
        ps.retain(|&p| p < n);
        reads(t, &b, n, r, &ps);
    }
}

/// a vector goes through conversions that must not change it (C26)
fn conversions(t: &mut T, name: &str, v: &V, rounds: usize, r: &mut Rng) {
    use vers_vecs::BpTree;
    t.episode(name);
    v.ev(t);
    let mut b = v.make();
    for k in 0..rounds {
        let at = (match r.below(4) { 0 => r.next() % (v.n + 1), 1 => v.n / 64 * 64, 2 => v.runs.last().map_or(0, |x| x.1), _ => (r.next() % (v.n + 1)) / 64 * 64 + 1 }).min(v.n) as usize;
        let small = v.n < 1 << 26;
        let how = if small { (k + r.below(3)) % 10 } else { [0, 4, 0][k % 3] };
        let c = std::mem::take(&mut b);
        let d = call(|| match how {
            0 => RsVec::from_bit_vec(c).into_bit_vec(),
            1 => BitVec::from(RsVec::from(c)),
            2 => BpTree::<512>::from_bit_vector(c).into_parentheses_vec().into_bit_vec(),
            3 => BitVec::from(BpTree::<64>::from_bit_vector(c)),
            4 => { let (mut x, y) = c.split_at(at).unwrap(); x.extend_bitvec(&y); x }
            5 => { let m = BitVec::from_zeros(c.len()); c.mask_xor(&m).unwrap().to_bit_vec() }
            6 => { let m = BitVec::from_ones(c.len()); c.mask_and(&m).unwrap().to_bit_vec() }
            7 => BitVec::from_bits_iter(loose(c.iter().map(|x| x as u8))),
            8 => { let (x, y) = c.split_at(at).unwrap(); let h = y.len() / 2; let z = y.split_at(h).unwrap(); let mut y = z.0; y.extend_bitvec(&z.1); let mut x = x; x.extend_bitvec(&y); x }
            _ => BitVec::from_bool_iter(loose(c.into_iter().map(|x| x == 1))),
        });
        let Ok(d) = d else { t.ev("BuildPanic").done(); return };
        b = d;
        t.ev("Len").a("r", &rw(|| b.len() as u64)).done();
        t.ev("Count").b("z", false).a("r", &rw(|| b.count_ones())).done();
        t.ev("Count").b("z", true).a("r", &rw(|| b.count_zeros())).done();
        let mut ps = v.points(r, 20);
        ps.extend([u64::MAX, at as u64]);
        let rs: Vec<i64> = ps.iter().map(|&p| ro64(|| b.get(p as usize))).collect();
        t.ev("Get").aa("ps", &ws(&ps)).a("rs", &rs).done();
        let q: Vec<(u64, usize)> = ps.iter().filter(|&&p| p < v.n + 100).step_by(3).map(|&p| (p, *r.pick(&[1usize, 7, 32, 63, 64]))).collect();
        let rs: Vec<Vec<i64>> = q.iter().map(|&(p, l)| row(|| b.get_bits(p as usize, l))).collect();
        let p: Vec<u64> = q.iter().map(|x| x.0).collect();
        let l: Vec<i64> = q.iter().map(|x| x.1 as i64).collect();
        t.ev("GetBits").aa("ps", &ws(&p)).a("lens", &l).aa("rs", &rs).done();
        if small {
            let o = v.make();
            let e = rb(|| b == o);
            t.ev("Eq").aa("ps", &[]).a("rs", &[e, rb(|| o == b), e]).done();
        }
    }
}

/// n bits with runs of many sizes, or none, the last stretch all zeros or all ones
fn spread(n: u64, k: usize, r: &mut Rng) -> V {
    let mut runs = Vec::new();
    let mut at = r.below(300) as u64;
    let stop = match k % 3 { 0 => n, 1 => n / 2, _ => n - n / 50 };
    while at < stop {
        let l = 1 + match r.below(3) { 0 => r.below(3) as u64, 1 => r.below(700) as u64, _ => r.below(n as usize / 9) as u64 };
        let e = (at + l).min(n);
        runs.push((at, e));
        at = e + 1 + match r.below(3) { 0 => r.below(3) as u64, 1 => r.below(700) as u64, _ => r.below(n as usize / 9) as u64 };
    }
    let v = V { n, runs };
    if k % 2 == 1 { v.complement() } else { v }
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    let m = if a.thorough { 3000 } else { 150 };
    if a.cmd == "c26" {
        let sizes: &[u64] = if a.thorough { &[5000, 65_535, 65_536, 65_537, 70_000, 131_072, 1 << 20, 5_000_001, 40_000_000] } else { &[65_536, 70_001, 1 << 20, 3_000_001] };
        for &n in sizes { for k in 0..if a.thorough { 24 } else { 6 } { let v = spread(n, k, &mut r); conversions(&mut t, &format!("conv{n}.{k}"), &v, if a.thorough { 20 } else { 8 }, &mut r); } }
        for (name, v) in vecs(&mut r) { conversions(&mut t, name, &v, if a.thorough { 6 } else { 2 }, &mut r); }
        return;
    }
    for (name, v) in vecs(&mut r) {
        if a.cmd == "c09" {
            t.episode(name);
            v.ev(&mut t);
            let b = v.make();
            for rep in 0..if a.thorough { 60 } else { 5 } { walk(&mut t, Elems(b.iter()), 0, v.n, rep, &mut r); }
            let Ok(x) = call(|| RsVec::from_bit_vec(b)) else { t.ev("BuildPanic").done(); continue };
            for rep in 0..if a.thorough { 60 } else { 4 } { walk(&mut t, Elems(x.iter()), 0, v.n, rep, &mut r); }
            if name == "sparse" { walk(&mut t, Elems(x.into_iter()), 0, v.n, 1, &mut r); }
            else { walk(&mut t, Elems(x.into_bit_vec().into_iter()), 0, v.n, 0, &mut r); }
            continue;
        }
        if a.cmd == "c01" { edits(&mut t, name, &v, &mut r); continue; }
        t.episode(name);
        v.ev(&mut t);
        let Ok(x) = call(|| RsVec::from_bit_vec(v.make())) else { t.ev("BuildPanic").done(); continue };
        match a.cmd.as_str() {
            "c05" => {
                t.ev("Len").a("r", &rw(|| x.len() as u64)).done();
                let mut ps = v.points(&mut r, m);
                ps.extend([u64::MAX, 1 << 63, v.n + G, v.n - G]);
                for z in [false, true] {
                    let rs: Vec<Vec<i64>> = ps.iter().map(|&p| rw(|| if z { x.rank0(p as usize) } else { x.rank1(p as usize) } as u64)).collect();
                    t.ev("Rank").b("z", z).aa("ps", &ws(&ps)).aa("rs", &rs).done();
                }
                let rs: Vec<i64> = ps.iter().map(|&p| ro64(|| x.get(p as usize))).collect();
                t.ev("Get").aa("ps", &ws(&ps)).a("rs", &rs).done();
                let q: Vec<(u64, usize)> = ps.iter().filter(|&&p| p < v.n + 100).map(|&p| (p, *r.pick(&[1usize, 7, 32, 63, 64]))).collect();
                let rs: Vec<Vec<i64>> = q.iter().map(|&(p, l)| row(|| x.get_bits(p as usize, l))).collect();
                let p: Vec<u64> = q.iter().map(|x| x.0).collect();
                let l: Vec<i64> = q.iter().map(|x| x.1 as i64).collect();
                t.ev("GetBits").aa("ps", &ws(&p)).a("lens", &l).aa("rs", &rs).done();
            }
            "c06" => for z in [false, true] {
                let mut ks = v.ranks(z, &mut r, m);
                ks.extend([u64::MAX, 1 << 63, v.n, v.count(z) + G]);
                let rs: Vec<Vec<i64>> = ks.iter().map(|&k| rw(|| if z { x.select0(k as usize) } else { x.select1(k as usize) } as u64)).collect();
                t.ev("Sel").b("z", z).aa("ps", &ws(&ks)).aa("rs", &rs).done();
            },
            "c07" => for z in [false, true] { for rep in 0..if a.thorough { 60 } else { 8 } {
                if z { walk(&mut t, x.iter0(), 1, v.count(z), rep, &mut r) } else { walk(&mut t, x.iter1(), 2, v.count(z), rep, &mut r) }
            } },
            "c08" => {
                for ps in [vec![], vec![v.n - 3], vec![G + 5000], vec![17]] {
                    let Ok(y) = call(|| { let mut b = v.make(); for &p in &ps { b.flip_bit(p as usize); } RsVec::from_bit_vec(b) }) else { t.ev("BuildPanic").done(); continue };
                    let sp = if name == "sparse" { rb(|| x.sparse_equals::<false>(&y)) } else { rb(|| x.sparse_equals::<true>(&y)) };
                    t.ev("Eq").aa("ps", &ws(&ps)).a("rs", &[rb(|| x == y), rb(|| x.full_equals(&y)), sp]).done();
                }
            }
            c => panic!("{c}"),
        }
    }
}

/// an iterator over bits, seen as one over integers
struct Elems<I>(I);
impl<I: Iterator<Item = u64>> Iterator for Elems<I> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> { self.0.next().map(|x| x as usize) }
    fn nth(&mut self, k: usize) -> Option<usize> { self.0.nth(k).map(|x| x as usize) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<I: DoubleEndedIterator<Item = u64>> DoubleEndedIterator for Elems<I> {
    fn next_back(&mut self) -> Option<usize> { self.0.next_back().map(|x| x as usize) }
    fn nth_back(&mut self, k: usize) -> Option<usize> { self.0.nth_back(k).map(|x| x as usize) }
}
impl<I: ExactSizeIterator<Item = u64>> ExactSizeIterator for Elems<I> { fn len(&self) -> usize { self.0.len() } }

/// what: 0 bits, 1 positions of zeros, 2 positions of ones
fn walk<I: DoubleEndedIterator<Item = usize> + ExactSizeIterator>(t: &mut T, mut it: I, what: i64, tot: u64, rep: usize, r: &mut Rng) {
    t.ev("ItOpen").i("over", what).done();
    let mut left = tot;
    for i in 0..30 {
        let what = ["nth", "nth_back", "len"][if i < 2 { (i + rep) % 2 } else { r.below(3) }];
        let k: u64 = match r.below(7) {
            0 | 1 => 0,
            2 => r.below(100) as u64,
            3 => r.below(20_000) as u64,
            4 => if left > 0 { r.next() % (left + 1) / 2 } else { 0 },
            5 if left > G => left - G,
            _ => if i > 20 { left.saturating_sub(r.below(3) as u64) } else { r.below(9000) as u64 },
        };
        let res = match what {
            "nth" => if k == 0 { row(|| it.next().map(|x| x as u64)) } else { row(|| it.nth(k as usize).map(|x| x as u64)) },
            "nth_back" => if k == 0 { row(|| it.next_back().map(|x| x as u64)) } else { row(|| it.nth_back(k as usize).map(|x| x as u64)) },
            _ => rw(|| it.len() as u64),
        };
        if what != "len" { left = left.saturating_sub(k + 1); }
        t.ev("It").st("what", what).w("k", k).a("r", &res).done();
    }
}
