//! C30: the sizes of the structures, next to what they represent.
use vers_vecs::trees::bp::{BpBuilder, BpTree};
use vers_vecs::trees::TreeBuilder;
use vers_vecs::*;
use vharness::{efcases, *};

fn net(l: &Ledger) -> i64 { l.a.iter().sum::<i64>() - l.f.iter().sum::<i64>() }
fn build(t: &mut T, kind: &str, n: usize, k: usize, u: u64) { t.ev("Build").st("kind", kind).i("n", n as i64).i("k", k as i64).w("u", u).done(); }
fn measure<X: Clone>(t: &mut T, x: &X, size: impl Fn(&X) -> usize) {
    let (c, l) = ledger(|| call(|| x.clone()));
    let h = ru(|| size(x));
    t.ev("Measure").i("h", h).i("c", if c.is_ok() { net(&l) } else { -1 }).done();
}
#[allow(clippy::too_many_arguments)]
fn one<X: Clone>(t: &mut T, kind: &str, n: usize, k: usize, u: u64, make: impl FnOnce() -> X, size: impl Fn(&X) -> usize) {
    t.episode(&format!("{kind} n{n} k{k} u{u}"));
    build(t, kind, n, k, u);
    let Ok(x) = call(make) else { t.ev("BuildPanic").done(); return };
    measure(t, &x, size);
}
fn span(v: &[u64]) -> u64 { v.last().map_or(0, |x| x - v[0]) }

fn bits(t: &mut T, n: usize, how: usize, r: &mut Rng) {
    let b = Bits::random(n, 1, 3, r);
    t.episode(&format!("bits n{n} h{how}"));
    build(t, "bits", n, 1, 0);
    let mut v = make(&b, how, r);
    measure(t, &v, BitVec::heap_size);
    for _ in 0..15 {
        let k = r.below(130);
        let m = r.below(v.len() + 1);
        match r.below(10) {
            0 => for i in 0..k { v.append_bit(i as u64) },
            1 => for _ in 0..k / 8 { v.append_word(u64::MAX) },
            2 => v.append_bits(5, k.min(64)),
            3 => v.drop_last(k),
            4 => v.drop_last(m),
            5 => v.extend_bitvec(&BitVec::from_ones(k * if r.chance(1, 2) { 3 } else { 50 })),
            6 => v = std::mem::take(&mut v).split_at_unchecked(m).1,
            7 => v = std::mem::take(&mut v).split_at_unchecked(m).0,
            8 => v = RsVec::from_bit_vec(v).into_bit_vec(),
            _ => { let n = v.len(); v.drop_last(n - n / 3); }
        }
        build(t, "bits", v.len(), 1, 0);
        measure(t, &v, BitVec::heap_size);
    }
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    let mut sizes = vec![0usize, 1, 2, 3, 7, 63, 64, 65, 128, 129, 511, 512, 513, 1000, 4095, 4096, 8191, 8192, 8193, 16_384, 20_000, 65_535, 65_536, 65_537, 100_000, 131_073, 1_000_003];
    if a.thorough { sizes.extend([300_000, 524_289, 4_000_064, 20_000_000]); }
    for &n in &sizes {
        for round in 0..if a.thorough { 6 } else { 2 } {
            if n <= 20_000 { for how in 0..HOWS { bits(&mut t, n, how, &mut r); } }
            for den in [1u64, 2, 50, 3000] {
                let b = Bits::random(n, 1, den, &mut r);
                let b = if r.chance(1, 2) { b.not() } else { b };
                let bv = make_big(&b, &mut r);
                one(&mut t, "rs", n, 1, 0, || RsVec::from_bit_vec(bv.clone()), RsVec::heap_size);
                one(&mut t, "tree", n, 512, 0, || BpTree::<512>::from_bit_vector(bv.clone()), BpTree::heap_size);
                one(&mut t, "tree", n, 64, 0, || BpTree::<64>::from_bit_vector(bv.clone()), BpTree::heap_size);
                one(&mut t, "tree", n, 7, 0, || BpTree::<7>::from_bit_vector(bv.clone()), BpTree::heap_size);
                let pos = |bit: u64| -> Vec<u64> { (0..n).filter(|&i| bv.get(i) == Some(bit)).map(|i| i as u64).collect() };
                let (p1, p0) = (pos(1), pos(0));
                one(&mut t, "ef", p1.len(), 1, span(&p1), || SparseRSVec::from_bitvec(&bv), SparseRSVec::heap_size);
                one(&mut t, "ef", p0.len(), 1, span(&p0), || SparseRSVec::from_bitvec_inverted(&bv), SparseRSVec::heap_size);
                one(&mut t, "ef", p1.len(), 1, span(&p1), || SparseRSVec::from(&bv), SparseRSVec::heap_size);
            }
            if n <= 131_073 || a.thorough && round == 0 && n < 1_000_000 {
                one(&mut t, "tree", 2 * n, 512, 0, || { let mut x = BpBuilder::<512>::new(); for _ in 0..n { x.enter_node(); } for _ in 0..n { x.leave_node(); } x.build().ok().unwrap() }, BpTree::heap_size);
                let v: Vec<u64> = (0..n).map(|_| r.next() >> 20).collect();
                if n > 0 {
                    one(&mut t, "rmq", n, 1, 0, || FastRmq::from_vec(v.clone()), FastRmq::heap_size);
                    one(&mut t, "rmq", n, 1, 0, || v.iter().copied().collect::<FastRmq>(), FastRmq::heap_size);
                    one(&mut t, "table", n, 1, 0, || BinaryRmq::from_vec(v.clone()), BinaryRmq::heap_size);
                }
                for k in [1usize, 1 + r.below(64), 64] { one(&mut t, "wavelet", n, k, 0, || WaveletMatrix::from_slice(&v, k as u16), WaveletMatrix::heap_size); }
                let k = 1 + r.below(13);
                let p = BitVec::pack_sequence_u64(&v, k);
                one(&mut t, "wavelet", n, k, 0, || WaveletMatrix::from_bit_vec(&p, k as u16), WaveletMatrix::heap_size);
                one(&mut t, "wavelet", n, k, 0, || WaveletMatrix::from_bit_vec_pc(&p, k as u16), WaveletMatrix::heap_size);
                // gaps of every average size
                for e in [0usize, 1, 2, 5, 10, 20, 30, 40, 50, 60, 63, 64] {
                    if n == 0 || round > 0 && !r.chance(1, 2) { continue; }
                    let top = if e == 64 { u64::MAX } else { (1u64 << e) - u64::from(e > 0 && r.chance(1, 3)) };
                    let base = if r.chance(1, 2) { 0 } else { r.next() % (u64::MAX - top).max(1) };
                    let mut v: Vec<u64> = (0..n).map(|_| base + if top == u64::MAX { r.next() } else { r.next() % (top + 1) }).collect();
                    v[0] = base;
                    v[n - 1] = base + top;
                    v.sort_unstable();
                    one(&mut t, "ef", n, 1, span(&v), || EliasFanoVec::from_slice(&v), EliasFanoVec::heap_size);
                    v.dedup();
                    let len = v[v.len() - 1].saturating_add(1 + r.next() % 100);
                    one(&mut t, "ef", v.len(), 1, span(&v), || SparseRSVec::new(&v, len), SparseRSVec::heap_size);
                }
            }
        }
    }
    for style in 0..efcases::STYLES {
        for n in [1usize, 2, 3, 5, 8, 17, 64, 200, 1000, 3000, 10_000] {
            let v = efcases::gen(&mut r, n, style);
            one(&mut t, "ef", n, 1, span(&v), || EliasFanoVec::from_slice(&v), EliasFanoVec::heap_size);
        }
    }
}
