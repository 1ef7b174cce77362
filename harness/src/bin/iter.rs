//! C07 (positions of set / unset bits) and C09 (elements): iterator protocol.
use std::collections::BTreeMap;
use vers_vecs::{BitVec, EliasFanoVec, RsVec, WaveletMatrix};
use vharness::{cases, *};

const NEXT: i64 = 0; const BACK: i64 = 1; const NTH: i64 = 2; const NTHB: i64 = 3; const LEN: i64 = 4;
const LO: i64 = 5; const HI: i64 = 6; const COUNT: i64 = 7; const LAST: i64 = 8; const MIN: i64 = 9; const MAX: i64 = 10; const FORK: i64 = 11;

trait It: DoubleEndedIterator + ExactSizeIterator + Clone {}
impl<I: DoubleEndedIterator + ExactSizeIterator + Clone> It for I {}
type MM<I> = Option<(fn(I) -> Option<<I as Iterator>::Item>, fn(I) -> Option<<I as Iterator>::Item>)>;
fn mm<I: Iterator>() -> MM<I> where I::Item: Ord { Some((|i| i.min(), |i| i.max())) }

fn real(n: i64) -> usize { if n >= CAP { usize::MAX } else { n as usize } }

/// run (op, n) pairs on it; logs op, n, result triples
fn drive<I: It>(it: &mut I, ops: &[(i64, usize)], enc: &dyn Fn(I::Item) -> i64, mm: MM<I>) -> Vec<i64> {
    let mut o = Vec::with_capacity(ops.len() * 3);
    for &(op, n) in ops {
        let opt = |x: Option<I::Item>| x.map_or(NONE, enc);
        let r = call(|| match op {
            NEXT => opt(it.next()),
            BACK => opt(it.next_back()),
            NTH => opt(it.nth(n)),
            NTHB => opt(it.nth_back(n)),
            LEN => cap(it.len()),
            LO => cap(it.size_hint().0),
            HI => it.size_hint().1.map_or(NONE, cap),
            COUNT => cap(it.clone().count()),
            LAST => opt(it.clone().last()),
            MIN => match mm { Some(m) => opt((m.0)(it.clone())), None => UNKNOWN },
            MAX => match mm { Some(m) => opt((m.1)(it.clone())), None => UNKNOWN },
            FORK => { let c = it.clone(); *it = c; NONE }
            _ => UNKNOWN,
        });
        if matches!(op, MIN | MAX) && mm.is_none() { continue; }
        let r = r.unwrap_or(PANIC);
        o.extend([op, cap(n), r]);
        if r == PANIC { break; }
    }
    o
}

/// what is left, at most `limit` elements
fn rest<I: It>(it: &mut I, dir: i64, how: usize, enc: &dyn Fn(I::Item) -> i64, limit: usize) -> (Vec<i64>, i64) {
    let mut v = Vec::new();
    let r = call(|| {
        // the consuming ways on a copy; the original is then exhausted step by step
        let c = it.clone();
        let n = std::cell::Cell::new(0);
        let e = |x| { n.set(n.get() + 1); assert!(n.get() <= limit + 8); enc(x) };
        match (how, dir) {
            (1, 0) => v = c.fold(Vec::new(), |mut v, x| { v.push(e(x)); v }),
            (1, _) => v = c.rfold(Vec::new(), |mut v, x| { v.push(e(x)); v }),
            (2, 0) => c.for_each(|x| v.push(e(x))),
            (2, _) => c.rev().for_each(|x| v.push(e(x))),
            (3, 0) => v = c.map(e).collect(),
            (3, _) => v = c.map(e).rev().collect(),
            (4, 0) => for x in c { v.push(e(x)); },
            (4, _) => v.extend(c.rev().map(e)),
            _ => {}
        }
        if how > 0 { let mut k = 0; while k <= limit && (if dir == 0 { it.next() } else { it.next_back() }).is_some() { k += 1; } }
        while how == 0 && v.len() <= limit {
            match if dir == 0 { it.next() } else { it.next_back() } { Some(x) => v.push(enc(x)), None => break }
        }
        // exhausted from both sides
        let a = it.next().map_or(NONE, enc);
        let b = it.next_back().map_or(NONE, enc);
        if a == NONE && it.len() == 0 { b } else if a == NONE { UNKNOWN } else { a }
    });
    (v, r.unwrap_or(PANIC))
}

fn script<I: It>(t: &mut T, kind: &str, mk: &dyn Fn() -> I, ops: &[(i64, usize)], dir: i64, enc: &dyn Fn(I::Item) -> i64, mm: MM<I>, limit: usize) {
    let Ok(mut it) = call(mk) else { t.ev("OpenPanic").st("kind", kind).done(); return };
    let sc = drive(&mut it, ops, enc, mm);
    let how = (sc.len() / 3 + limit) % 5;
    let (v, then) = rest(&mut it, dir, how, enc, limit);
    t.ev("Script").st("kind", kind).i("how", how as i64).a("sc", &sc).i("dir", dir).a("rest", &v).i("then", then).cost(sc.len() as u64 * 10).done();
}

fn random_ops(r: &mut Rng, n: usize, len: usize, all: bool) -> Vec<(i64, usize)> {
    let mut left = n;
    (0..len).map(|_| {
        let k = r.below(if all { 15 } else { 9 });
        let j = match r.below(12) {
            0..=2 => r.below(3),
            3 => left.saturating_sub(1),
            4 => left,
            5 => left + 1,
            6 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 63]),
            7 | 8 => r.below(left / 4 + 1),
            9 => r.below(left / 16 + 1),
            10 => r.below(left / 2 + 1),
            _ => r.below(10).min(left),
        };
        let (op, n) = match k { 0 | 1 => (NEXT, 0), 2 | 3 => (BACK, 0), 4 | 5 => (NTH, j), 6 | 7 => (NTHB, j), 8 => (LEN, 0),
            9 => (LO, 0), 10 => (HI, 0), 11 => (COUNT, 0), 12 => (LAST, 0), 13 => (FORK, 0), _ => (if r.chance(1, 2) { MIN } else { MAX }, 0) };
        match op { NEXT | BACK => left = left.saturating_sub(1), NTH | NTHB => left = left.saturating_sub(n.saturating_add(1)), _ => {} }
        (op, n)
    }).collect()
}

type Scripts = Vec<Vec<(i64, usize)>>;

struct Ctx { t: T, r: Rng, gen: BTreeMap<usize, Scripts> }

impl Ctx {
    /// all scripts for a source of this many elements: the generated ones if it is tiny, random ones
    fn scripts(&mut self, n: usize, count: usize) -> Scripts {
        let mut v: Scripts = Vec::new();
        for _ in 0..count {
            let len = *self.r.pick(&[3usize, 6, 10, 25]);
            v.push(random_ops(&mut self.r, n, len, true));
        }
        v
    }
    fn kind<I: It>(&mut self, kind: &str, mk: &dyn Fn() -> I, enc: &dyn Fn(I::Item) -> i64, mm: MM<I>, n: usize, count: usize, gen: bool) {
        if gen {
            let g = self.gen.get(&n).cloned().unwrap_or_default();
            for (i, s) in g.iter().enumerate() {
                let mut s = s.clone();
                // observe at the end as well
                s.extend([(LEN, 0), (HI, 0), (COUNT, 0), (LAST, 0), (MIN, 0), (MAX, 0)]);
                script(&mut self.t, kind, mk, &s, (i % 2) as i64, enc, mm, 50);
            }
        }
        for s in self.scripts(n, count) {
            let dir = self.r.below(2) as i64;
            script(&mut self.t, kind, mk, &s, dir, enc, mm, n + 10);
        }
        // complete sweeps in both directions
        for dir in [0, 1] { for k in 0..5 { script(&mut self.t, kind, mk, &[], dir, enc, mm, n + 10 + k); } }
    }
}

fn load_gen(a: &Args) -> BTreeMap<usize, Scripts> {
    let mut m: BTreeMap<usize, Scripts> = BTreeMap::new();
    let Some(p) = &a.input else { return m };
    for line in std::fs::read_to_string(p).unwrap().lines() {
        let v: Vec<i64> = line.trim_matches(|c| c == '[' || c == ']').split(',').map(|x| x.trim().parse().unwrap()).collect();
        m.entry(v[0] as usize).or_default().push(v[1..].chunks(2).map(|c| (c[0], real(c[1]))).collect());
    }
    m
}

// ------------------------------------------------------------------ C09
fn dict<T: Ord + Clone>(xs: &[T]) -> (Vec<T>, Vec<i64>) {
    let mut d = xs.to_vec();
    d.sort(); d.dedup();
    let v = xs.iter().map(|x| d.binary_search(x).unwrap() as i64).collect();
    (d, v)
}
fn code<T: Ord>(d: &[T], x: &T) -> i64 { d.binary_search(x).map_or(UNKNOWN, |i| i as i64) }

fn bits_key(b: &BitVec) -> Vec<u64> { (0..b.len()).map(|i| b.get(i).unwrap_or(9)).rev().collect() }

fn c09_bits(c: &mut Ctx, b: &Bits, count: usize, gen: bool) {
    let n = b.n;
    let h = c.r.below(HOWS);
    c.t.episode("bits");
    c.t.ev("Source").b("sorted", false).a("vals", &b.dense()).done();
    let Ok(bv) = call(|| make(b, h, &mut c.r)) else { c.t.ev("BuildPanic").done(); return };
    let enc = |x: u64| cap64(x);
    c.kind("BitVec.iter", &|| bv.iter(), &enc, mm(), n, count, gen);
    c.kind("BitVec.into_iter", &|| bv.clone().into_iter(), &enc, mm(), n, count, gen);
    c.kind("&BitVec", &|| (&bv).into_iter(), &enc, mm(), n, 1, false);
    let Ok(rs) = call(|| RsVec::from_bit_vec(bv.clone())) else { c.t.ev("BuildPanic").done(); return };
    c.kind("RsVec.iter", &|| rs.iter(), &enc, mm(), n, count, gen);
    c.kind("RsVec.into_iter", &|| rs.clone().into_iter(), &enc, mm(), n, count, gen);
    c.kind("&RsVec", &|| (&rs).into_iter(), &enc, mm(), n, 1, false);
}

fn c09_ef(c: &mut Ctx, xs: &[u64], count: usize, gen: bool) {
    let (d, v) = dict(xs);
    c.t.episode("ef");
    c.t.ev("Source").b("sorted", v.is_sorted()).a("vals", &v).done();
    let Ok(ef) = call(|| EliasFanoVec::from_slice(xs)) else { c.t.ev("BuildPanic").done(); return };
    let enc = |x: u64| code(&d, &x);
    c.kind("EF.iter", &|| ef.iter(), &enc, mm(), xs.len(), count, gen);
    c.kind("EF.into_iter", &|| ef.clone().into_iter(), &enc, mm(), xs.len(), count, gen);
    c.kind("&EF", &|| (&ef).into_iter(), &enc, mm(), xs.len(), 1, false);
}

fn c09_wm(c: &mut Ctx, xs: &[u64], k: u16, wide: bool, count: usize, gen: bool) {
    // wide: elements of k > 64 bits whose top 64 bits are xs (low bits constant 1)
    let n = xs.len();
    let (d, v) = dict(xs);
    let mut sorted = v.clone();
    sorted.sort();
    let keys: Vec<Vec<u64>> = d.iter().map(|&x| {
        let mut s: Vec<u64> = (0..64).rev().map(|i| x >> i & 1).collect();
        if wide { s.extend((0..k as usize - 64).map(|_| 1)); } else { s = s[64 - k as usize..].to_vec(); }
        s
    }).collect();
    let wm = if wide {
        let mut bv = BitVec::new();
        for &x in xs { for _ in 0..k as usize - 64 { bv.append(true); } bv.append_word(x); }
        call(|| WaveletMatrix::from_bit_vec(&bv, k))
    } else { call(|| WaveletMatrix::from_slice(xs, k)) };
    let Ok(wm) = wm else { c.t.episode("wm"); c.t.ev("BuildPanic").done(); return };
    let enc = |x: u64| code(&d, &x);
    let encb = |x: BitVec| code(&keys, &bits_key(&x));
    c.t.episode("wm");
    c.t.ev("Source").b("sorted", v.is_sorted()).a("vals", &v).done();
    c.kind("WM.iter", &|| wm.iter(), &encb, None, n, count, gen);
    c.kind("WM.into_iter", &|| wm.clone().into_iter(), &encb, None, n, count, false);
    if k <= 64 {
        c.kind("WM.iter_u64", &|| wm.iter_u64().unwrap(), &enc, mm(), n, count, gen);
        c.kind("WM.into_iter_u64", &|| wm.clone().into_iter_u64().unwrap(), &enc, mm(), n, count, false);
    }
    c.t.episode("wm_sorted");
    c.t.ev("Source").b("sorted", true).a("vals", &sorted).done();
    c.kind("WM.iter_sorted", &|| wm.iter_sorted(), &encb, None, n, count, gen);
    c.kind("WM.into_iter_sorted", &|| wm.clone().into_iter_sorted(), &encb, None, n, count, false);
    if k <= 64 {
        c.kind("WM.iter_sorted_u64", &|| wm.iter_sorted_u64().unwrap(), &enc, mm(), n, count, gen);
        c.kind("WM.into_iter_sorted_u64", &|| wm.clone().into_iter_sorted_u64().unwrap(), &enc, mm(), n, count, false);
    }
}

fn ef_values(r: &mut Rng, n: usize, style: usize) -> Vec<u64> {
    let mut v: Vec<u64> = match style {
        0 => (0..n).map(|_| r.below(n / 2 + 1) as u64).collect(),
        1 => (0..n).map(|_| r.next()).collect(),
        2 => (0..n).map(|_| u64::MAX - r.below(1000) as u64).collect(),
        3 => (0..n).map(|_| (1 << 40) + r.below(n * 3 + 1) as u64).collect(),
        4 => (0..n).map(|i| if i < n / 2 { r.below(64) as u64 + 7 } else { (1 << 50) + r.below(200) as u64 }).collect(),
        _ => (0..n).map(|_| r.next() >> r.below(64)).collect(),
    };
    v.sort();
    v
}

fn c09(a: &Args, c: &mut Ctx) {
    for n in 0..=4usize {
        for (j, m) in [0b0101u64, 0b0110].iter().enumerate() {
            let b = Bits { n, w: if n == 0 { vec![] } else { vec![m & ((1 << n) - 1)] } };
            c09_bits(c, &b, 3, j == 0 || a.thorough);
        }
        let base = [0u64, 5, u64::MAX - 100, 1 << 33];
        for (j, &o) in base.iter().enumerate() {
            let xs: Vec<u64> = [0u64, 3, 3, 90].iter().take(n).map(|x| x + o).collect();
            c09_ef(c, &xs, 3, j < 2 || a.thorough);
        }
        c09_ef(c, &[1u64, 1 << 20, 1 << 45, u64::MAX][..n], 3, true);
        c09_wm(c, &[2u64, 0, 3, 2][..n], 2, false, 2, true);
        c09_wm(c, &[2u64, 7, 3, 2][..n], 64, false, 2, false);
        c09_wm(c, &[2u64, 7, 3, u64::MAX][..n], 70, true, 2, true);
    }
    let reps = if a.thorough { 40 } else { 4 };
    for _ in 0..reps {
        for n in [5usize, 17, 63, 64, 65, 127, 128, 129, 200, 511, 513, 1000] {
            let b = Bits::random(n, 1, 2, &mut c.r);
            c09_bits(c, &b, 4, false);
            let st = c.r.below(6);
            let xs = ef_values(&mut c.r, n, st);
            c09_ef(c, &xs, 8, false);
        }
        for n in [5usize, 40, 64, 100, 300] {
            for k in [1u16, 3, 8, 33, 64] {
                let xs: Vec<u64> = (0..n).map(|_| c.r.next() >> (64 - k)).collect();
                c09_wm(c, &xs, k, false, 2, false);
            }
            let xs: Vec<u64> = (0..n).map(|_| c.r.next() >> 60).collect();
            c09_wm(c, &xs, 67, true, 2, false);
        }
    }
    for n in [9000usize, 20_000, 70_000] {
        for st in 0..6 {
            if n > 9000 && !a.thorough && st % 3 != 0 { continue; }
            let xs = ef_values(&mut c.r, n, st);
            c09_ef(c, &xs, 12, false);
        }
    }
}

// ------------------------------------------------------------------ C07
fn cum(runs: &[i64]) -> Vec<i64> {
    let mut s = 0;
    runs.chunks(2).map(|c| { let x = s; s += c[1]; x }).collect()
}

/// positions of a sweep as runs; in reverse they are collected from the back and reversed
fn sweep(it: impl Iterator<Item = usize>, limit: usize) -> Result<(Vec<usize>, i64), ()> {
    call(|| {
        let mut it = it;
        let mut v = Vec::new();
        while v.len() <= limit { match it.next() { Some(x) => v.push(x), None => break } }
        let a = it.next().map_or(NONE, cap);
        let b = it.next().map_or(NONE, cap);
        (v, if a == NONE { b } else { a })
    })
}
fn to_runs(v: impl Iterator<Item = usize>) -> Vec<i64> {
    let mut r = Runs::default();
    for x in v { r.push(cap(x)); }
    r.0
}

fn long<I: It<Item = usize>>(c: &mut Ctx, kind: &str, mk: &dyn Fn() -> I, n: usize, sweeps: usize, parts: usize) {
    let enc = |x: usize| cap(x);
    for i in 0..parts {
        c.t.ev("Open").st("kind", kind).done();
        let Ok(mut it) = call(mk) else { c.t.ev("OpenPanic").done(); return };
        let mut ops = random_ops(&mut c.r, n, 30, false);
        // stay short of the end at first: jumps of all sizes
        let mut left = n;
        for o in ops.iter_mut().take(25) {
            if o.0 == NTH || o.0 == NTHB { o.1 = o.1.min(left / 3); left = left.saturating_sub(o.1 + 1); }
        }
        for ch in ops.chunks(10) {
            let sc = drive(&mut it, ch, &enc, None);
            c.t.ev("Part").a("sc", &sc).cost(300).done();
            if sc.contains(&PANIC) { return; }
        }
        if i < sweeps && n <= 400_000 {
            let dir = i % 2 == 1;
            let res = if dir { sweep(it.clone().rev(), n + 10).map(|(mut v, e)| { v.reverse(); (v, e) }) } else { sweep(it.clone(), n + 10) };
            match res {
                Ok((v, e)) => c.t.ev("Sweep").b("rev", dir).a("runs", &to_runs(v.into_iter())).i("then", e).done(),
                Err(()) => c.t.ev("SweepPanic").done(),
            }
        }
    }
    if kind.starts_with("into") && n > 100_000 { return; }
    for dir in [false, true] {
        let Ok(it) = call(mk) else { return };
        let res = if dir { sweep(it.rev(), n + 10).map(|(mut v, e)| { v.reverse(); (v, e) }) } else { sweep(it, n + 10) };
        match res {
            Ok((v, e)) => c.t.ev("SweepAll").st("kind", kind).b("rev", dir).a("runs", &to_runs(v.into_iter())).i("then", e).done(),
            Err(()) => c.t.ev("SweepPanic").done(),
        }
    }
}

fn c07_one(c: &mut Ctx, b: &Bits, name: &str, count: usize, gen: bool, big: bool) {
    let h = if b.n > 40_000 { *c.r.pick(&[1usize, 3, 4]) } else { c.r.below(HOWS) };
    let Ok(rs) = call(|| RsVec::from_bit_vec(make(b, h, &mut c.r))) else { c.t.episode(name); c.t.ev("BuildPanic").done(); return };
    let ones = b.count();
    for z in [false, true] {
        let n = if z { b.n - ones } else { ones };
        let r = if z { b.not().runs() } else { b.runs() };
        c.t.episode(name);
        c.t.ev("SourceRuns").i("n", b.n as i64).a("ones", &b.runs()).b("z", z).a("runs", &r).a("cum", &cum(&r)).done();
        let enc = |x: usize| cap(x);
        let parts = if big { count } else { 2 };
        if z {
            if !big {
                c.kind("iter0", &|| rs.iter0(), &enc, mm(), n, count, gen);
                c.kind("into_iter0", &|| rs.clone().into_iter0(), &enc, mm(), n, count, gen);
                c.kind("select_iter<true>", &|| rs.select_iter::<true>(), &enc, mm(), n, 1, false);
                c.kind("into_select_iter<true>", &|| rs.clone().into_select_iter::<true>(), &enc, mm(), n, 1, false);
            } else {
                long(c, "iter0", &|| rs.iter0(), n, 2, parts);
                long(c, "into_iter0", &|| rs.clone().into_iter0(), n, 1, parts);
            }
        } else if !big {
            c.kind("iter1", &|| rs.iter1(), &enc, mm(), n, count, gen);
            c.kind("into_iter1", &|| rs.clone().into_iter1(), &enc, mm(), n, count, gen);
            c.kind("select_iter<false>", &|| rs.select_iter::<false>(), &enc, mm(), n, 1, false);
            c.kind("into_select_iter<false>", &|| rs.clone().into_select_iter::<false>(), &enc, mm(), n, 1, false);
        } else {
            long(c, "iter1", &|| rs.iter1(), n, 2, parts);
            long(c, "into_iter1", &|| rs.clone().into_iter1(), n, 1, parts);
        }
    }
}

fn c07(a: &Args, c: &mut Ctx) {
    for (name, b) in cases::tiny(if a.thorough { 6 } else { 4 }) {
        // the generated scripts once per number of matching positions, on several layouts
        let o = b.count();
        let g = b.n <= 4 && (b.n == 4 || o == b.n || o == 0);
        c07_one(c, &b, &name, 2, g, false);
    }
    // four ones spread over blocks and super blocks
    for pos in [[0usize, 511, 512, 8191], [8191, 8192, 16384, 24000], [1, 600, 9000, 70_000], [100, 101, 90_000, 90_001]] {
        let mut b = Bits::zeros(pos[3] + 1 + c.r.below(600));
        for p in pos { b.set(p, true); }
        c07_one(c, &b, "spread", 0, false, true);
        let rs = RsVec::from_bit_vec(make(&b, 1, &mut c.r));
        c.t.episode("spread");
        let r = b.runs();
        c.t.ev("SourceRuns").i("n", b.n as i64).a("ones", &b.runs()).b("z", false).a("runs", &r).a("cum", &cum(&r)).done();
        let enc = |x: usize| cap(x);
        c.kind("iter1", &|| rs.iter1(), &enc, mm(), 4, 0, true);
        let nb = b.not();
        let rs = RsVec::from_bit_vec(make(&nb, 1, &mut c.r));
        c.t.episode("spread0");
        c.t.ev("SourceRuns").i("n", b.n as i64).a("ones", &nb.runs()).b("z", true).a("runs", &r).a("cum", &cum(&r)).done();
        c.kind("iter0", &|| rs.iter0(), &enc, mm(), 4, 0, true);
    }
    for (name, b) in cases::edges(&mut c.r, if a.thorough { 18 } else { 4 }) {
        let big = b.n > 1200;
        c07_one(c, &b, &name, if big { 3 } else { 4 }, false, big);
    }
    for (name, b) in cases::large(&mut c.r, a.thorough) {
        c07_one(c, &b, &name, if a.thorough { 20 } else { 5 }, false, true);
    }
}

/// the set-bit iterators, or, in builds that have none, the select iterators they must agree with
macro_rules! set_bits {
    ($rs:expr, $a:ident, $b:ident, $n:expr) => {{
        #[cfg(all(feature = "simd", target_feature = "avx512vl", target_feature = "avx512bw"))]
        { sweep($rs.$a(), $n) }
        #[cfg(not(all(feature = "simd", target_feature = "avx512vl", target_feature = "avx512bw")))]
        { sweep($rs.$b(), $n) }
    }};
}
fn bit_set(c: &mut Ctx, b: &Bits, name: &str) {
    let h = if b.n > 40_000 { *c.r.pick(&[1usize, 3, 4]) } else { c.r.below(HOWS) };
    let Ok(rs) = call(|| RsVec::from_bit_vec(make(b, h, &mut c.r))) else { c.t.episode(name); c.t.ev("BuildPanic").done(); return };
    for z in [false, true] {
        let n = if z { b.n - b.count() } else { b.count() };
        let r = if z { b.not().runs() } else { b.runs() };
        c.t.episode(name);
        c.t.ev("SourceRuns").i("n", b.n as i64).a("ones", &b.runs()).b("z", z).a("runs", &r).a("cum", &cum(&r)).done();
        let res = if z { set_bits!(rs, bit_set_iter0, iter0, n + 10) } else { set_bits!(rs, bit_set_iter1, iter1, n + 10) };
        match res {
            Ok((v, e)) => c.t.ev("SweepAll").st("kind", "bit_set").b("rev", false).a("runs", &to_runs(v.into_iter())).i("then", e).done(),
            Err(()) => c.t.ev("SweepPanic").done(),
        }
    }
}

fn c07bs(a: &Args, c: &mut Ctx) {
    let mut v = cases::tiny(if a.thorough { 10 } else { 8 });
    for n in 0..200 { v.push((format!("r{n}"), Bits::random(n, 1, 2, &mut c.r))); v.push((format!("o{n}"), Bits::ones(n))); v.push((format!("z{n}"), Bits::zeros(n))); }
    v.extend(cases::edges(&mut c.r, if a.thorough { 18 } else { 6 }));
    v.extend(cases::large(&mut c.r, a.thorough));
    for (name, b) in v { bit_set(c, &b, &name); }
}

fn main() {
    let a = args();
    let t = T::start(&a);
    let mut c = Ctx { t, r: Rng::new(a.seed), gen: load_gen(&a) };
    match a.cmd.as_str() {
        "c07" => c07(&a, &mut c),
        "c07bs" => c07bs(&a, &mut c),
        "c09" => c09(&a, &mut c),
        x => panic!("{x}"),
    }
}
