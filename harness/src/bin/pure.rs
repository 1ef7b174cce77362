//! C28: a structure that is only queried answers every query in the same way, whatever was asked
//! before, by whom, on which copy, and however badly.  Answers are logged as small integers (a hash of the
//! full answer); the recorder never compares them.
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use vers_vecs::trees::bp::BpTree;
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree};
use vers_vecs::*;
use vharness::{efcases, *};

/// any answer as an integer; a panic is an answer, too
fn code<R: Hash>(f: impl FnOnce() -> R) -> i64 {
    match call(f) {
        Ok(r) => {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            r.hash(&mut h);
            (h.finish() >> 34) as i64
        }
        Err(()) => PANIC,
    }
}
type Q<X> = Box<dyn Fn(&X) -> i64 + Sync + Send>;
macro_rules! q { ($v:ident, $f:expr) => { $v.push(Box::new(move |x| { let g = $f; code(|| g(x)) })) }; }

// whether a type may be shared between threads and sent to another one, decided by the compiler
struct Probe<X>(PhantomData<X>);
trait NotSync { const SYNC: bool = false; }
impl<X> NotSync for Probe<X> {}
#[allow(dead_code)]
impl<X: Sync> Probe<X> { const SYNC: bool = true; }
struct Probe2<X>(PhantomData<X>);
trait NotSend { const SEND: bool = false; }
impl<X> NotSend for Probe2<X> {}
#[allow(dead_code)]
impl<X: Send> Probe2<X> { const SEND: bool = true; }
macro_rules! shareable { ($t:expr, $x:ty) => { $t.ev("Shareable").b("sync", Probe::<$x>::SYNC).b("send", Probe2::<$x>::SEND).done() }; }
struct Force<X>(X);
unsafe impl<X> Sync for Force<X> {}
unsafe impl<X> Send for Force<X> {}
impl<X: Copy> Force<X> {
    fn get(&self) -> X { self.0 }
    fn slow(&self) -> bool { cfg!(debug_assertions) }
}

fn ask(t: &mut T, o: i64, who: i64, what: &[(i64, i64)]) {
    let qs: Vec<i64> = what.iter().map(|x| x.0).collect();
    let rs: Vec<i64> = what.iter().map(|x| x.1).collect();
    t.ev("Ask").i("o", o).i("who", who).a("qs", &qs).a("rs", &rs).cost(1000).done();
}
/// `m` random questions, locally repeated, with misuse in between
fn wander<X>(x: &X, qs: &[Q<X>], bad: &[Q<X>], m: usize, r: &mut Rng) -> Vec<(i64, i64)> {
    let mut v = Vec::with_capacity(m);
    let mut k = r.below(qs.len());
    for _ in 0..m {
        k = match r.below(4) { 0 => r.below(qs.len()), 1 => (k + 1) % qs.len(), 2 => (k + qs.len() - 1) % qs.len(), _ => k };
        if !bad.is_empty() && r.chance(1, 8) { let b = r.pick(bad); b(x); }
        v.push((k as i64, qs[k](x)));
    }
    v
}
/// the same questions to two structures in turns: both alive, or one after the other in the same place
fn swap<X: Clone>(t: &mut T, x: &X, x2: &X, qs: &[Q<X>], quick: &[usize], m: usize, r: &mut Rng) {
    let mut log: Vec<(i64, i64, i64)> = Vec::new();
    let mut put = |o: usize, k: usize, a: i64| { log.push((o as i64 + 1, k as i64, a)); };
    let any = |r: &mut Rng| if quick.is_empty() || r.chance(1, 50) { r.below(qs.len()) } else { *r.pick(quick) };
    let both = [x, x2];
    // both alive, and as neighbours
    let pair = [x.clone(), x2.clone()];
    for i in 0..m {
        let k = any(r);
        let o = i % 2;
        put(o, k, qs[k](both[o])); put(1 - o, k, qs[k](both[1 - o]));
        put(o, k, qs[k](&pair[o])); put(1 - o, k, qs[k](&pair[1 - o]));
    }
    drop(pair);
    // moved out of the place and replaced: the same variable, different memory behind it
    let (mut here, mut there) = (x.clone(), x2.clone());
    let mut o = 0;
    for _ in 0..m {
        let k = any(r);
        put(o, k, qs[k](&here));
        std::mem::swap(&mut here, &mut there);
        o = 1 - o;
        put(o, k, qs[k](&here));
    }
    drop((here, there));
    // dropped and rebuilt: the allocator hands out the same memory again
    let mut slot: Option<X> = None;
    let mut b: Option<Box<X>> = None;
    for i in 0..m.min(120) {
        let k = any(r);
        for o in [i % 2, 1 - i % 2] {
            drop(slot.take());
            slot = Some(both[o].clone());
            put(o, k, qs[k](slot.as_ref().unwrap()));
        }
        drop(slot.take());
        for o in [i % 2, 1 - i % 2] {
            drop(b.take());
            b = Some(Box::new(both[o].clone()));
            put(o, k, qs[k](b.as_ref().unwrap()));
        }
        drop(b.take());
        for o in [i % 2, 1 - i % 2] {
            // overwritten without being dropped first
            match &mut slot { Some(s) => *s = both[o].clone(), None => slot = Some(both[o].clone()) }
            put(o, k, qs[k](slot.as_ref().unwrap()));
        }
        beat();
    }
    log.sort_unstable();
    log.dedup();
    for c in log.chunks(400) {
        let f = |g: &dyn Fn(&(i64, i64, i64)) -> i64| c.iter().map(g).collect::<Vec<i64>>();
        t.ev("Both").a("os", &f(&|x| x.0)).a("qs", &f(&|x| x.1)).a("rs", &f(&|x| x.2)).cost(1000).done();
    }
}
fn drive<X: Clone>(t: &mut T, (x, x2): (X, X), qs: Vec<Q<X>>, bad: Vec<Q<X>>, a: &Args, r: &mut Rng) {
    // one after the other, each on a copy that has answered nothing yet
    let mut quick: Vec<usize> = Vec::new();
    let first: Vec<(i64, i64)> = qs.iter().enumerate().map(|(k, f)| {
        let y = x.clone();
        let since = std::time::Instant::now();
        let r = f(&y);
        if since.elapsed().as_micros() < 30 { quick.push(k); }
        (k as i64, r)
    }).collect();
    ask(t, 1, 0, &first);
    let other: Vec<(i64, i64)> = qs.iter().enumerate().map(|(k, f)| { let y = Box::new(x2.clone()); (k as i64, f(&y)) }).collect();
    ask(t, 2, 0, &other);
    swap(t, &x, &x2, &qs, &quick, if a.thorough { 2000 } else { 400 }, r);
    let m = qs.len() * 2;
    ask(t, 1, 1, &wander(&x, &qs, &[], m, r));
    ask(t, 1, 2, &wander(&x, &qs, &bad, m, r));
    let y = Box::new(x.clone());
    ask(t, 1, 3, &wander(&*y, &qs, &bad, m, r));
    // several threads at once, on the same structure; each logs what it saw, repetitions of
    // question and answer left out
    let rounds = if a.thorough { 40 } else { 6 };
    let f = Force(&x);
    let seeds: Vec<u64> = (0..6).map(|_| r.next()).collect();
    // the cheap questions are asked in small groups by all threads at once, again and again
    let hot: Vec<Vec<usize>> = (0..rounds * 4).map(|_| (0..r.range(2, 6)).filter(|_| !quick.is_empty()).map(|_| *r.pick(&quick)).collect()).collect();
    let gate = std::sync::Barrier::new(6);
    let (qs, bad) = (Force(&qs), Force(&bad));
    let logs: Vec<Vec<(i64, i64)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds.iter().enumerate().map(|(j, &seed)| {
            let (f, qs, bad, hot, gate) = (&f, &qs, &bad, &hot, &gate);
            s.spawn(move || {
                let mut r = Rng::new(seed);
                let mut log: Vec<(i64, i64)> = Vec::new();
                for _ in 0..rounds {
                    log.extend(wander(f.get(), qs.get(), if j % 2 == 0 { &[] } else { bad.get() }, m, &mut r));
                    log.sort_unstable();
                    log.dedup();
                    beat();
                }
                for h in hot {
                    gate.wait();
                    if h.is_empty() { continue; }
                    let n = log.len();
                    for _ in 0..if f.slow() { 300 } else { 1500 } {
                        let k = *r.pick(h);
                        log.push((k as i64, qs.get()[k](f.get())));
                    }
                    log[n..].sort_unstable();
                    log.dedup();
                    beat();
                }
                log.sort_unstable();
                log.dedup();
                log
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (j, l) in logs.iter().enumerate() { ask(t, 1, 10 + j as i64, l); }
    ask(t, 1, 4, &wander(&x, qs.0, &[], m, r));
    let z = x.clone();
    drop(x);
    ask(t, 1, 5, &wander(&z, qs.0, &[], m, r));
}

fn spots(n: usize, m: usize, r: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..m).map(|_| r.below(n + 1)).collect();
    v.extend([0, 1, n / 2, n.saturating_sub(1), n]);
    v
}
const WILD: [usize; 5] = [0, 1, 64, 1 << 40, usize::MAX];

fn bits(n: usize, r: &mut Rng) -> Bits {
    let b = match r.below(5) { 0 => Bits::random(n, 1, 2, r), 1 => Bits::random(n, 1, 40, r), 2 => Bits::random(n, 1, 900, r),
        3 => { let m = r.range(1, 9000); Bits::from_fn(n, |i| i / m % 2 == 0) } _ => Bits::random(n, 39, 40, r) };
    if r.chance(1, 4) { b.not() } else { b }
}

fn bitvec(t: &mut T, n: usize, a: &Args, r: &mut Rng) {
    t.episode(&format!("bv{n}"));
    shareable!(t, BitVec);
    let b = bits(n, r);
    let c = bits(n, r);
    let x2 = (make_big(&c, r), make_big(&bits(n, r), r));
    let x = (make_big(&b, r), make_big(&c, r));
    let mut v: Vec<Q<(BitVec, BitVec)>> = Vec::new();
    for p in spots(n, 20, r) {
        let k = r.range(1, 64);
        q!(v, |x: &(BitVec, BitVec)| x.0.get(p));
        q!(v, |x: &(BitVec, BitVec)| x.0.is_bit_set(p));
        q!(v, |x: &(BitVec, BitVec)| x.0.get_bits(p, k));
        q!(v, |x: &(BitVec, BitVec)| x.0.unpack_element(p / k, k));
        q!(v, |x: &(BitVec, BitVec)| x.0.mask_xor(&x.1).unwrap().get_bits(p, k));
        q!(v, |x: &(BitVec, BitVec)| x.0.mask_and(&x.1).unwrap().get(p));
    }
    q!(v, |x: &(BitVec, BitVec)| x.0.count_ones());
    q!(v, |x: &(BitVec, BitVec)| x.0.count_zeros());
    q!(v, |x: &(BitVec, BitVec)| (x.0.len(), x.0.is_empty(), x.0.heap_size(), x.0 == x.1));
    q!(v, |x: &(BitVec, BitVec)| x.0.iter().collect::<Vec<_>>());
    q!(v, |x: &(BitVec, BitVec)| x.0.iter().rev().step_by(3).collect::<Vec<_>>());
    q!(v, |x: &(BitVec, BitVec)| x.0.clone());
    q!(v, |x: &(BitVec, BitVec)| x.0.mask_or(&x.1).unwrap().count_ones());
    q!(v, |x: &(BitVec, BitVec)| x.0.mask_or(&x.1).unwrap().to_bit_vec());
    let mut w: Vec<Q<(BitVec, BitVec)>> = Vec::new();
    for p in WILD {
        let p = p.saturating_add(n);
        q!(w, |x: &(BitVec, BitVec)| x.0.get_unchecked(p));
        q!(w, |x: &(BitVec, BitVec)| x.0.is_bit_set_unchecked(p));
        q!(w, |x: &(BitVec, BitVec)| x.0.get_bits_unchecked(p, 33));
        q!(w, |x: &(BitVec, BitVec)| x.0.get_bits(p, 65));
        q!(w, |x: &(BitVec, BitVec)| x.0.unpack_element_unchecked(p, 7));
        q!(w, |x: &(BitVec, BitVec)| x.0.mask_or(&x.1).unwrap().get_unchecked(p));
        q!(w, |x: &(BitVec, BitVec)| x.0.mask_or(&BitVec::from_zeros(p.min(99))).is_ok());
        q!(w, |x: &(BitVec, BitVec)| x.0.clone().flip_bit(p));
        q!(w, |x: &(BitVec, BitVec)| x.0.clone().set_unchecked(p, 1));
        q!(w, |x: &(BitVec, BitVec)| x.0.mask_custom(&x.1, |_, _| panic!()).unwrap().count_ones());
    }
    drive(t, (x, x2), v, w, a, r);
}

fn rsvec(t: &mut T, n: usize, a: &Args, r: &mut Rng) {
    t.episode(&format!("rs{n}"));
    shareable!(t, RsVec);
    let b = bits(n, r);
    let c = bits(n, r);
    let (x, x2) = (RsVec::from_bit_vec(make_big(&b, r)), RsVec::from_bit_vec(make_big(&c, r)));
    let ones = b.count();
    let mut v: Vec<Q<RsVec>> = Vec::new();
    for p in spots(n, 20, r) {
        let k = r.range(1, 64);
        q!(v, |x: &RsVec| x.rank1(p));
        q!(v, |x: &RsVec| x.rank0(p));
        q!(v, |x: &RsVec| (x.get(p), x.get_bits(p, k)));
    }
    for p in spots(ones, 20, r) { q!(v, |x: &RsVec| x.select1(p)); q!(v, |x: &RsVec| { let mut i = x.iter1(); (i.nth(p), i.next(), i.next_back(), i.len()) }); }
    for p in spots(n - ones, 20, r) { q!(v, |x: &RsVec| x.select0(p)); q!(v, |x: &RsVec| { let mut i = x.iter0(); (i.nth_back(p), i.next(), i.next_back(), i.len()) }); }
    q!(v, |x: &RsVec| x.iter0().collect::<Vec<_>>());
    q!(v, |x: &RsVec| x.iter1().rev().collect::<Vec<_>>());
    q!(v, |x: &RsVec| x.iter().collect::<Vec<_>>());
    #[cfg(all(feature = "simd", target_arch = "x86_64", target_feature = "avx", target_feature = "avx2", target_feature = "avx512f", target_feature = "avx512bw"))]
    {
        q!(v, |x: &RsVec| x.bit_set_iter1().collect::<Vec<_>>());
        q!(v, |x: &RsVec| x.bit_set_iter0().collect::<Vec<_>>());
    }
    q!(v, |x: &RsVec| (x.len(), x.is_empty(), x.heap_size(), x == &x.clone(), x.sparse_equals::<true>(&x.clone()), x.full_equals(&x.clone())));
    let mut w: Vec<Q<RsVec>> = Vec::new();
    for p in WILD {
        let p = p.saturating_add(n);
        q!(w, |x: &RsVec| x.get_unchecked(p));
        q!(w, |x: &RsVec| x.get_bits_unchecked(p, 20));
        q!(w, |x: &RsVec| (x.rank0(p), x.select1(p), x.select0(p)));
        q!(w, |x: &RsVec| { let mut i = x.iter1(); i.nth(p); i.nth_back(p); (i.next(), i.next_back()) });
    }
    drive(t, (x, x2), v, w, a, r);
}

fn sparse(t: &mut T, n: usize, a: &Args, r: &mut Rng) {
    t.episode(&format!("sp{n}"));
    shareable!(t, SparseRSVec);
    let b = bits(n, r);
    let c = bits(n, r);
    let (x, x2) = (SparseRSVec::from_bitvec(&make_big(&b, r)), SparseRSVec::from_bitvec(&make_big(&c, r)));
    let mut v: Vec<Q<SparseRSVec>> = Vec::new();
    for p in spots(n, 40, r) {
        q!(v, |x: &SparseRSVec| (x.get(p as u64), x.is_set(p as u64)));
        q!(v, |x: &SparseRSVec| x.rank1(p as u64));
        q!(v, |x: &SparseRSVec| x.rank0(p as u64));
    }
    for p in spots(b.count().min(c.count()), 20, r) { q!(v, |x: &SparseRSVec| x.select1(p)); }
    q!(v, |x: &SparseRSVec| x.iter1().collect::<Vec<_>>());
    q!(v, |x: &SparseRSVec| (x.len(), x.is_empty(), x.heap_size()));
    let mut w: Vec<Q<SparseRSVec>> = Vec::new();
    for p in WILD {
        let p = p.saturating_add(n);
        q!(w, |x: &SparseRSVec| x.get_unchecked(p as u64));
        q!(w, |x: &SparseRSVec| x.is_set_unchecked(p as u64));
        q!(w, |x: &SparseRSVec| (x.rank0(p as u64), x.rank1(p as u64), x.select1(p)));
    }
    drive(t, (x, x2), v, w, a, r);
}

fn ef(t: &mut T, n: usize, style: usize, a: &Args, r: &mut Rng) {
    t.episode(&format!("ef{n}.{style}"));
    shareable!(t, EliasFanoVec);
    let e = efcases::gen(r, n, style);
    let x = EliasFanoVec::from_slice(&e);
    let s2 = r.below(efcases::STYLES);
    let x2 = EliasFanoVec::from_slice(&efcases::gen(r, n, s2));
    let mut v: Vec<Q<EliasFanoVec>> = Vec::new();
    for p in spots(n, 20, r) { q!(v, |x: &EliasFanoVec| x.get(p)); q!(v, |x: &EliasFanoVec| { let mut i = x.iter(); (i.nth(p), i.next_back(), i.next(), i.len()) }); }
    let mut vals: Vec<u64> = (0..25).map(|_| if e.is_empty() { r.next() } else { r.pick(&e).wrapping_add(r.next() % 3).wrapping_sub(1) }).collect();
    vals.extend([0, u64::MAX, r.next()]);
    for u in vals {
        q!(v, |x: &EliasFanoVec| x.predecessor(u));
        q!(v, |x: &EliasFanoVec| x.successor(u));
        q!(v, |x: &EliasFanoVec| x.rank(u));
    }
    q!(v, |x: &EliasFanoVec| x.iter().collect::<Vec<_>>());
    q!(v, |x: &EliasFanoVec| x.iter().rev().collect::<Vec<_>>());
    q!(v, |x: &EliasFanoVec| (x.len(), x.is_empty(), x.heap_size()));
    let mut w: Vec<Q<EliasFanoVec>> = Vec::new();
    for p in WILD {
        let u = p as u64;
        let p = p.saturating_add(n);
        q!(w, |x: &EliasFanoVec| x.get_unchecked(p));
        q!(w, |x: &EliasFanoVec| x.predecessor_unchecked(u));
        q!(w, |x: &EliasFanoVec| x.successor_unchecked(u));
    }
    drive(t, (x, x2), v, w, a, r);
}

macro_rules! rmq {
    ($t:expr, $x:ty, $n:expr, $a:expr, $r:expr) => {{
        let (t, n, a, r): (&mut T, usize, &Args, &mut Rng) = ($t, $n, $a, $r);
        t.episode(&format!("rmq{n}"));
        shareable!(t, $x);
        let m = *r.pick(&[2u64, 10, 1000, u64::MAX]);
        let d: Vec<u64> = (0..n).map(|_| r.next() % m).collect();
        let x = <$x>::from_vec(d);
        let x2 = <$x>::from_vec((0..n).map(|_| r.next() % m).collect());
        let mut v: Vec<Q<$x>> = Vec::new();
        for _ in 0..60 {
            let i = r.below(n);
            let j = r.range(i, n - 1);
            let j = if r.chance(1, 2) { j } else { (i + r.below(200)).min(n - 1) };
            q!(v, |x: &$x| x.range_min(i, j));
            q!(v, |x: &$x| x.range_min_with_range(i..=j));
        }
        q!(v, |x: &$x| (x.len(), x.to_vec(), x.heap_size()));
        let mut w: Vec<Q<$x>> = Vec::new();
        for p in WILD {
            let p = p.saturating_add(n);
            q!(w, |x: &$x| x.range_min(0, p));
            q!(w, |x: &$x| x.range_min(p, p));
            q!(w, |x: &$x| x.range_min(n - 1, 0));
            q!(w, |x: &$x| x.range_min_with_range(5..p));
        }
        drive(t, (x, x2), v, w, a, r);
    }};
}

fn wavelet(t: &mut T, n: usize, k: u16, a: &Args, r: &mut Rng) {
    t.episode(&format!("wav{n}.{k}"));
    shareable!(t, WaveletMatrix);
    let top = if k < 64 { 1u64 << k } else { 0 };
    let few: Vec<u64> = (0..9).map(|_| r.next()).map(|u| if top > 0 { u % top } else { u }).collect();
    let mk = |r: &mut Rng| {
        let d: Vec<u64> = (0..n).map(|_| if r.chance(1, 2) { *r.pick(&few) } else { let u = r.next(); if top > 0 { u % top } else { u } }).collect();
        let p = BitVec::pack_sequence_u64(&d, k as usize);
        if k <= 20 && r.chance(1, 2) { WaveletMatrix::from_bit_vec_pc(&p, k) } else { WaveletMatrix::from_bit_vec(&p, k) }
    };
    let (x, x2) = (mk(r), mk(r));
    let sym = |u: u64| BitVec::pack_sequence_u64(&[u], k as usize);
    let mut v: Vec<Q<WaveletMatrix>> = Vec::new();
    for i in spots(n, 14, r) {
        let j = r.range(i.min(n), n);
        let u = *r.pick(&few);
        let c = r.below(n / 3 + 1);
        let s = sym(u);
        q!(v, |x: &WaveletMatrix| (x.get_value(i), x.get_u64(i), x.get_sorted(i), x.get_sorted_u64(i)));
        q!(v, |x: &WaveletMatrix| x.rank_u64(i, u));
        q!(v, |x: &WaveletMatrix| x.rank_range_u64(i..j, u));
        q!(v, |x: &WaveletMatrix| x.select_u64(c, u));
        q!(v, |x: &WaveletMatrix| x.select_offset_u64(i, c, u));
        q!(v, |x: &WaveletMatrix| x.quantile_u64(i..j, c));
        q!(v, |x: &WaveletMatrix| x.range_median_u64(i..j));
        q!(v, |x: &WaveletMatrix| (x.range_min_u64(i..j), x.range_max_u64(i..j)));
        q!(v, |x: &WaveletMatrix| (x.predecessor_u64(i..j, u), x.successor_u64(i..j, u)));
        q!(v, |x: &WaveletMatrix| { let s = &s; (x.rank(i, s), x.rank_range(i..j, s), x.select(c, s), x.predecessor(i..j, s), x.successor(i..j, s)) });
        q!(v, |x: &WaveletMatrix| (x.quantile(i..j, c), x.range_median(i..j), x.range_min(i..j), x.range_max(i..j)));
    }
    q!(v, |x: &WaveletMatrix| x.iter_u64().map(|i| i.collect::<Vec<_>>()));
    q!(v, |x: &WaveletMatrix| x.iter().collect::<Vec<_>>());
    q!(v, |x: &WaveletMatrix| x.iter_sorted_u64().map(|i| i.rev().collect::<Vec<_>>()));
    q!(v, |x: &WaveletMatrix| (x.len(), x.is_empty(), x.bits_per_element(), x.heap_size()));
    let mut w: Vec<Q<WaveletMatrix>> = Vec::new();
    for p in WILD {
        let u = p as u64;
        let p = p.saturating_add(n);
        let s = sym(3);
        q!(w, |x: &WaveletMatrix| x.get_value_unchecked(p));
        q!(w, |x: &WaveletMatrix| x.get_u64_unchecked(p));
        q!(w, |x: &WaveletMatrix| x.rank_range_unchecked(p..p, &s));
        let s = sym(3);
        q!(w, |x: &WaveletMatrix| x.rank_unchecked(p, &s));
        q!(w, |x: &WaveletMatrix| x.rank_u64_unchecked(p, u));
        q!(w, |x: &WaveletMatrix| x.rank_offset_u64_unchecked(p, 0, u));
        q!(w, |x: &WaveletMatrix| x.select_u64_unchecked(p, u));
        q!(w, |x: &WaveletMatrix| x.quantile_u64_unchecked(0..p, p));
        q!(w, |x: &WaveletMatrix| x.quantile_unchecked(0..n, p));
        q!(w, |x: &WaveletMatrix| x.get_sorted_u64_unchecked(p));
        q!(w, |x: &WaveletMatrix| x.range_max_u64_unchecked(p..0));
        q!(w, |x: &WaveletMatrix| x.range_median_unchecked(3..p));
        q!(w, |x: &WaveletMatrix| x.rank(0, &BitVec::from_ones(1)));
    }
    drive(t, (x, x2), v, w, a, r);
}

fn tree<const B: usize>(t: &mut T, n: usize, a: &Args, r: &mut Rng) {
    t.episode(&format!("bp{n}.{B}"));
    shareable!(t, BpTree<B>);
    // a random balanced string with one root
    let mk = |r: &mut Rng| {
        let mut b = Bits::zeros(2 * n);
        let (mut open, mut left) = (1usize, n - 1);
        b.set(0, true);
        let bias = r.range(2, 9);
        for i in 1..2 * n {
            if left > 0 && (open == 1 || r.below(bias) > 0 && r.chance(1, 2) || r.chance(1, 3)) { b.set(i, true); open += 1; left -= 1; } else { open -= 1; }
        }
        b
    };
    let (b, c) = (mk(r), mk(r));
    let nodes: Vec<usize> = (0..2 * n).filter(|&i| b.get(i) && c.get(i)).collect();
    let (x, x2) = (BpTree::<B>::from_bit_vector(make_big(&b, r)), BpTree::<B>::from_bit_vector(make_big(&c, r)));
    let mut v: Vec<Q<BpTree<B>>> = Vec::new();
    for _ in 0..16 {
        let p = r.below(2 * n);
        let u = *r.pick(&nodes);
        let o = *r.pick(&nodes);
        let d = r.below(12) as i64 - 6;
        q!(v, |x: &BpTree<B>| (x.fwd_search(p, d), x.bwd_search(p, d)));
        q!(v, |x: &BpTree<B>| (x.close(p), x.open(p), x.enclose(p), x.excess(p)));
        q!(v, |x: &BpTree<B>| (x.parent(u), x.first_child(u), x.last_child(u), x.next_sibling(u), x.previous_sibling(u)));
        q!(v, |x: &BpTree<B>| (x.node_index(u), x.is_leaf(u), x.depth(u), x.node_handle(u % n)));
        q!(v, |x: &BpTree<B>| (x.level_ancestor(u, 2), x.level_next(u), x.level_prev(u), x.level_leftmost(3), x.level_rightmost(2)));
        q!(v, |x: &BpTree<B>| (x.is_ancestor(u, o), x.subtree_size(u), x.children(u).collect::<Vec<_>>()));
    }
    q!(v, |x: &BpTree<B>| x.dfs_iter().collect::<Vec<_>>());
    q!(v, |x: &BpTree<B>| x.dfs_post_iter().collect::<Vec<_>>());
    q!(v, |x: &BpTree<B>| (x.size(), x.is_empty(), x.root(), x.heap_size()));
    let mut w: Vec<Q<BpTree<B>>> = Vec::new();
    for p in WILD {
        let p = p.saturating_add(2 * n);
        let c = 2 * n - 1 - r.below(n / 2 + 1);
        q!(w, |x: &BpTree<B>| x.fwd_search(p, -1));
        q!(w, |x: &BpTree<B>| x.bwd_search(p, 0));
        q!(w, |x: &BpTree<B>| x.parent(p));
        q!(w, |x: &BpTree<B>| x.first_child(c));
        q!(w, |x: &BpTree<B>| x.next_sibling(p));
        q!(w, |x: &BpTree<B>| x.subtree_size(p));
        q!(w, |x: &BpTree<B>| x.node_handle(p));
        q!(w, |x: &BpTree<B>| x.depth(p));
        q!(w, |x: &BpTree<B>| x.level_ancestor(c, 5));
    }
    drive(t, (x, x2), v, w, a, r);
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    let rounds = if a.thorough { 6 } else { 1 };
    for _ in 0..rounds {
        for n in [0usize, 1, 100, 700, 5000, 20_000, 70_000] {
            bitvec(&mut t, n, &a, &mut r);
            rsvec(&mut t, n, &a, &mut r);
            sparse(&mut t, n, &a, &mut r);
        }
        for n in [100_000usize, 200_003] { rsvec(&mut t, n, &a, &mut r); sparse(&mut t, n, &a, &mut r); }
        for n in [0usize, 1, 2, 40, 300, 3000, 20_000] { let s = r.below(efcases::STYLES); ef(&mut t, n, s, &a, &mut r); }
        for n in [1usize, 2, 100, 130, 600, 5000] { rmq!(&mut t, FastRmq, n, &a, &mut r); rmq!(&mut t, BinaryRmq, n, &a, &mut r); }
        for (n, k) in [(0usize, 5u16), (1, 3), (100, 2), (300, 64), (700, 9), (2000, 12), (50, 100), (5000, 6)] { wavelet(&mut t, n, k, &a, &mut r); }
        for n in [1usize, 2, 50, 400, 3000, 10_000] { tree::<512>(&mut t, n, &a, &mut r); tree::<64>(&mut t, n, &a, &mut r); tree::<7>(&mut t, n, &a, &mut r); }
    }
}
