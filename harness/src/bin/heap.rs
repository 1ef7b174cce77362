//! C27: what the structures hold on the heap, what they report, and what they give back.
use vers_vecs::trees::bp::{BpBuilder, BpTree};
use vers_vecs::trees::TreeBuilder;
use vers_vecs::*;
use vharness::{efcases, *};

fn log(t: &mut T, op: &str, h: i64, l: &Ledger) { t.ev(op).i("h", h).a("a", &l.a).a("f", &l.f).done(); }
/// what mem_dbg says is used and held, beyond the value itself
#[cfg(feature = "memdbg")]
trait Mem: mem_dbg::MemSize {}
#[cfg(feature = "memdbg")]
impl<X: mem_dbg::MemSize> Mem for X {}
#[cfg(feature = "memdbg")]
fn memory<X: Mem>(t: &mut T, x: &X, h: i64) {
    let s = |f| call(|| x.mem_size(f) as i64 - size_of::<X>() as i64).unwrap_or(-1);
    t.ev("Sizes").i("h", h).i("used", s(mem_dbg::SizeFlags::default())).i("held", s(mem_dbg::SizeFlags::CAPACITY)).done();
}
#[cfg(not(feature = "memdbg"))]
trait Mem {}
#[cfg(not(feature = "memdbg"))]
impl<X> Mem for X {}
#[cfg(not(feature = "memdbg"))]
fn memory<X: Mem>(_: &mut T, _: &X, _: i64) {}
/// report, copy, drop the copy
fn measure<X: Clone + Mem>(t: &mut T, x: &X, size: impl Fn(&X) -> usize) {
    let h = ru(|| size(x));
    let (c, l) = ledger(|| call(|| x.clone()));
    log(t, "Measure", h, &l);
    let (_, l) = ledger(|| drop(c));
    log(t, "CopyDrop", h, &l);
    memory(t, x, h);
}
fn whole<X: Clone + Mem>(t: &mut T, name: &str, build: impl FnOnce() -> X, size: impl Fn(&X) -> usize) {
    t.episode(name);
    let (x, l) = ledger(|| call(build));
    log(t, "Mutate", 0, &l);
    let Ok(x) = x else { t.ev("BuildPanic").done(); return };
    measure(t, &x, &size);
    let (_, l) = ledger(|| drop(x));
    log(t, "Drop", 0, &l);
}

fn bitvec(t: &mut T, n: usize, how: usize, r: &mut Rng) {
    t.episode(&format!("bv{n}.{how}"));
    let b = Bits::random(n, 1, 3, r);
    let (mut v, l) = ledger(|| make(&b, how, r));
    log(t, "Mutate", 0, &l);
    measure(t, &v, BitVec::heap_size);
    for _ in 0..12 {
        let k = r.below(130);
        let m = r.below(v.len() + 1);
        let ((), l) = match r.below(9) {
            0 => ledger(|| for i in 0..k { v.append_bit(i as u64) }),
            1 => ledger(|| for _ in 0..k / 8 { v.append_word(u64::MAX) }),
            2 => ledger(|| v.append_bits(5, k.min(64))),
            3 => ledger(|| v.drop_last(k)),
            4 => ledger(|| v.drop_last(m)),
            5 => {
                let o = BitVec::from_ones(k * if r.chance(1, 2) { 3 } else { 50 });
                let ((), l) = ledger(|| v.extend_bitvec(&o));
                log(t, "Extend", o.len() as i64, &l);
                measure(t, &v, BitVec::heap_size);
                continue;
            }
            6 => ledger(|| { let (a, b) = std::mem::take(&mut v).split_at_unchecked(m); v = b; drop(a) }),
            7 => ledger(|| { let (a, b) = std::mem::take(&mut v).split_at_unchecked(m); v = a; drop(b) }),
            _ => ledger(|| { for i in 0..v.len().min(9) { v.flip_bit(i) } }),
        };
        log(t, "Mutate", 0, &l);
        measure(t, &v, BitVec::heap_size);
    }
    let (_, l) = ledger(|| drop(v));
    log(t, "Drop", 0, &l);
}

/// room reserved in advance, then appended to: up to the reservation, and past it
fn reserved(t: &mut T, c: usize, r: &mut Rng) {
    t.episode(&format!("cap{c}"));
    let (v, l) = ledger(|| call(|| BitVec::with_capacity(c)));
    log(t, "Reserve", c as i64, &l);
    let Ok(mut v) = v else { t.ev("BuildPanic").done(); return };
    let style = r.below(7);
    let past = c + r.below(200);
    let mut n = 0;
    while n < past {
        let left = if n < c { c - n } else { past - n };
        let big = left.min(r.range(1, 1 + c / 3 + 70));
        let k = left.min(r.range(0, 64));
        let how = if style < 6 && !r.chance(1, 5) { style } else { r.below(6) };
        let (op, d, l) = match how {
            0 => { let ((), l) = ledger(|| for i in 0..big { v.append_bit(i as u64) }); ("Append", big, l) }
            1 => { let ((), l) = ledger(|| for i in 0..big { v.append(i % 3 == 0) }); ("Append", big, l) }
            2 if left >= 64 => { let ((), l) = ledger(|| v.append_word(0x1234_5678_9ABC_DEF0)); ("Append", 64, l) }
            3 => { let ((), l) = ledger(|| v.append_bits(u64::MAX, k)); ("Append", k, l) }
            4 => { let ((), l) = ledger(|| v.append_bits_unchecked((1u64 << (k / 2)) - 1, k)); ("Append", k, l) }
            _ => {
                let o = make(&Bits::random(big, 1, 2, r), r.below(HOWS), r);
                let ((), l) = ledger(|| v.extend_bitvec(&o));
                ("Extend", o.len(), l)
            }
        };
        log(t, op, d as i64, &l);
        n += d;
    }
    measure(t, &v, BitVec::heap_size);
    let (_, l) = ledger(|| drop(v));
    log(t, "Drop", 0, &l);
}

/// a structure consumed by a conversion or an owning iterator gives back what the result does not hold
fn consumed<X: Clone, Y: Clone + Mem>(t: &mut T, name: &str, x: &X, conv: impl FnOnce(X) -> Y, size: impl Fn(&Y) -> usize) {
    t.episode(name);
    let (x, l) = ledger(|| x.clone());
    log(t, "Mutate", 0, &l);
    let (y, l) = ledger(|| call(|| conv(x)));
    log(t, "Mutate", 0, &l);
    let Ok(y) = y else { t.ev("BuildPanic").done(); return };
    measure(t, &y, &size);
    let (_, l) = ledger(|| drop(y));
    log(t, "Drop", 0, &l);
}
fn iterated<X: Clone, I: Iterator>(t: &mut T, name: &str, x: &X, k: usize, conv: impl FnOnce(X) -> I) {
    t.episode(name);
    let (x, l) = ledger(|| x.clone());
    log(t, "Mutate", 0, &l);
    let (it, l) = ledger(|| call(|| { let mut it = conv(x); for _ in 0..k { it.next(); } it }));
    log(t, "Mutate", 0, &l);
    let Ok(it) = it else { t.ev("BuildPanic").done(); return };
    let (_, l) = ledger(|| drop(it));
    log(t, "Drop", 0, &l);
}

/// a tree builder with room for c nodes, each entered and left, and some more
fn builder<const B: usize>(t: &mut T, c: usize, r: &mut Rng) {
    t.episode(&format!("nodes{c}"));
    let (v, l) = ledger(|| call(|| BpBuilder::<B>::with_capacity(c as u64)));
    log(t, "Reserve", 2 * c as i64, &l);
    let Ok(mut v) = v else { t.ev("BuildPanic").done(); return };
    let total = c + if r.chance(1, 2) { r.below(100) } else { 0 };
    let (mut open, mut left) = (0usize, total);
    let step = r.range(1, 1 + c / 2 + 40);
    while open + left > 0 {
        let within = 2 * (total - left) - open < 2 * c;
        let k = if within { step.min(2 * c - (2 * (total - left) - open)) } else { step };
        let k = k.min(2 * left + open);
        let turns: Vec<bool> = (0..k).map(|_| { let e = left > 0 && (open == 0 || r.chance(1, 2)); if e { open += 1; left -= 1 } else { open -= 1 }; e }).collect();
        let ((), l) = ledger(|| for &e in &turns { if e { v.enter_node() } else { v.leave_node() } });
        log(t, "Append", k as i64, &l);
    }
    if r.chance(1, 2) {
        let (_, l) = ledger(|| drop(v));
        log(t, "Drop", 0, &l);
    } else {
        let (x, l) = ledger(|| call(|| v.build()));
        log(t, "Mutate", 0, &l);
        let Ok(Ok(x)) = x else { t.ev("BuildPanic").done(); return };
        measure(t, &x, BpTree::heap_size);
        let (_, l) = ledger(|| drop(x));
        log(t, "Drop", 0, &l);
    }
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    let mut sizes = vec![0usize, 1, 2, 3, 7, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1000, 4095, 4096, 8191, 8192, 8193, 16_384, 20_000, 65_537, 100_000, 1_000_003];
    let rounds = if a.thorough { 12 } else { 2 };
    if a.thorough { sizes.extend([300_000, 4_000_064, 70_000_000]); }
    for &n in &sizes {
        for k in 0..rounds {
            if n <= 20_000 { for how in 0..HOWS { if a.thorough || (how + k) % 2 == 0 { bitvec(&mut t, n, how, &mut r); } } }
            let den = *r.pick(&[2u64, 3, 50, 1000]);
            let b = Bits::random(n, 1, den, &mut r);
            let b = if r.chance(1, 3) { b.not() } else { b };
            let bv = make_big(&b, &mut r);
            whole(&mut t, &format!("rs{n}.{k}"), || RsVec::from_bit_vec(bv.clone()), RsVec::heap_size);
            whole(&mut t, &format!("sb{n}.{k}"), || SparseRSVec::from_bitvec(&bv), SparseRSVec::heap_size);
            whole(&mut t, &format!("si{n}.{k}"), || SparseRSVec::from_bitvec_inverted(&bv), SparseRSVec::heap_size);
            whole(&mut t, &format!("bp{n}.{k}"), || BpTree::<512>::from_bit_vector(bv.clone()), BpTree::heap_size);
            whole(&mut t, &format!("bq{n}.{k}"), || BpTree::<64>::from_bit_vector(bv.clone()), BpTree::heap_size);
            whole(&mut t, &format!("br{n}.{k}"), || BpTree::<7>::from_bit_vector(bv.clone()), BpTree::heap_size);
            let rs = RsVec::from_bit_vec(bv.clone());
            let tree = BpTree::<32>::from_bit_vector(bv.clone());
            consumed(&mut t, &format!("c0.{n}.{k}"), &rs, RsVec::into_bit_vec, BitVec::heap_size);
            consumed(&mut t, &format!("c1.{n}.{k}"), &rs, BitVec::from, BitVec::heap_size);
            consumed(&mut t, &format!("c2.{n}.{k}"), &bv, RsVec::from, RsVec::heap_size);
            consumed(&mut t, &format!("c3.{n}.{k}"), &tree, BitVec::from, BitVec::heap_size);
            consumed(&mut t, &format!("c4.{n}.{k}"), &tree, RsVec::from, RsVec::heap_size);
            consumed(&mut t, &format!("c5.{n}.{k}"), &tree, BpTree::into_parentheses_vec, RsVec::heap_size);
            consumed(&mut t, &format!("c6.{n}.{k}"), &bv, BpTree::<16>::from, BpTree::heap_size);
            consumed(&mut t, &format!("c7.{n}.{k}"), &bv, SparseRSVec::from, SparseRSVec::heap_size);
            for k in [0, 1, n / 2, n] {
                iterated(&mut t, &format!("i0.{n}.{k}"), &bv, k, BitVec::into_iter);
                iterated(&mut t, &format!("i1.{n}.{k}"), &rs, k, RsVec::into_iter);
                iterated(&mut t, &format!("i2.{n}.{k}"), &rs, k, RsVec::into_iter0);
                iterated(&mut t, &format!("i3.{n}.{k}"), &rs, k, RsVec::into_iter1);
                iterated(&mut t, &format!("i4.{n}.{k}"), &tree, k, BpTree::into_iter);
            }
            if n <= 100_000 {
                whole(&mut t, &format!("bb{n}.{k}"), || { let mut x = BpBuilder::<512>::new(); for _ in 0..n { x.enter_node(); } for _ in 0..n { x.leave_node(); } x.build().ok().unwrap() }, BpTree::heap_size);
                let s = r.next() >> r.range(1, 60);
                let mut v: Vec<u64> = (0..n).map(|_| if s == 0 { 0 } else { r.next() % s }).collect();
                whole(&mut t, &format!("fr{n}.{k}"), || FastRmq::from_vec(roomy(&v, &mut r)), FastRmq::heap_size);
                whole(&mut t, &format!("bi{n}.{k}"), || BinaryRmq::from_vec(roomy(&v, &mut r)), BinaryRmq::heap_size);
                whole(&mut t, &format!("fc{n}.{k}"), || v.iter().copied().collect::<FastRmq>(), FastRmq::heap_size);
                let w = r.range(1, 64) as u16;
                whole(&mut t, &format!("wa{n}.{k}"), || WaveletMatrix::from_slice(&v, w), WaveletMatrix::heap_size);
                let p = BitVec::pack_sequence_u64(&v, 13);
                whole(&mut t, &format!("wb{n}.{k}"), || WaveletMatrix::from_bit_vec(&p, 13), WaveletMatrix::heap_size);
                whole(&mut t, &format!("wp{n}.{k}"), || WaveletMatrix::from_bit_vec_pc(&p, 13), WaveletMatrix::heap_size);
                if n <= 20_000 {
                    let wm = WaveletMatrix::from_bit_vec(&p, 13);
                    for k in [0, 1, n / 2, n] {
                        iterated(&mut t, &format!("i5.{n}.{k}"), &wm, k, WaveletMatrix::into_iter);
                        iterated(&mut t, &format!("i6.{n}.{k}"), &wm, k, WaveletMatrix::into_iter_sorted);
                        iterated(&mut t, &format!("i7.{n}.{k}"), &wm, k, |w| w.into_iter_u64().unwrap());
                        iterated(&mut t, &format!("i8.{n}.{k}"), &wm, k, |w| w.into_iter_sorted_u64().unwrap());
                    }
                }
                let wide = if n > 0 { 100 } else { 70 };
                let q = BitVec::pack_sequence_u64(&v[..n.min(5000)], wide);
                whole(&mut t, &format!("ww{n}.{k}"), || WaveletMatrix::from_bit_vec(&q, wide as u16), WaveletMatrix::heap_size);
                v.sort_unstable();
                whole(&mut t, &format!("ef{n}.{k}"), || EliasFanoVec::from_slice(&v), EliasFanoVec::heap_size);
                let ef = EliasFanoVec::from_slice(&v);
                for k in [0, 1, n / 2, n] { iterated(&mut t, &format!("i9.{n}.{k}"), &ef, k, EliasFanoVec::into_iter); }
                let top = v.last().map_or(r.next() % 9, |x| x + 1 + r.next() % 1000);
                v.dedup();
                whole(&mut t, &format!("sp{n}.{k}"), || SparseRSVec::new(&v, top), SparseRSVec::heap_size);
            }
        }
    }
    for c in (0..140).chain([191, 192, 193, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 30_000, 100_003]) {
        for _ in 0..if a.thorough { 25 } else { 3 } {
            reserved(&mut t, c, &mut r);
            if c % 2 == 0 { builder::<512>(&mut t, c, &mut r) } else { builder::<8>(&mut t, c, &mut r) }
        }
    }
    for style in 0..efcases::STYLES {
        for n in [1usize, 2, 5, 64, 200, 1000, 3000] {
            let v = efcases::gen(&mut r, n, style);
            whole(&mut t, &format!("es{n}.{style}"), || EliasFanoVec::from_slice(&v), EliasFanoVec::heap_size);
        }
    }
}
