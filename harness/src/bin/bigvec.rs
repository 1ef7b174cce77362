//! Bit vectors of thousands to billions of bits: C02 constructors, C03 equality, C04 masks, C01/C29 edits and
//! refusals, C23 serialization, C26 conversions; contents are observed in full, as the positions where the bit changes.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vers_vecs::{trees::bp::BpTree, BitVec, RsVec, SparseRSVec};
use vharness::*;

const G: u64 = 1 << 32;
type Es = Vec<u64>;

fn mask_fn(tt: usize) -> fn(u64, u64) -> u64 {
    fn f<const T: usize>(a: u64, b: u64) -> u64 {
        (if T & 1 != 0 { !a & !b } else { 0 }) | (if T & 2 != 0 { !a & b } else { 0 }) | (if T & 4 != 0 { a & !b } else { 0 }) | (if T & 8 != 0 { a & b } else { 0 })
    }
    [f::<0>, f::<1>, f::<2>, f::<3>, f::<4>, f::<5>, f::<6>, f::<7>, f::<8>, f::<9>, f::<10>, f::<11>, f::<12>, f::<13>, f::<14>, f::<15>][tt]
}
const OR: usize = 14;
const AND: usize = 8;
const XOR: usize = 6;

/// positions where the bit changes; stops after a while if there are too many
struct Edges { es: Es, prev: u64, at: u64 }
impl Edges {
    fn new() -> Edges { Edges { es: vec![], prev: 0, at: 0 } }
    fn bit(&mut self, b: u64) { if b != self.prev { if self.es.len() < 3000 { self.es.push(self.at); } self.prev = b; } self.at += 1; }
    fn word(&mut self, w: u64, len: u64) {
        if len == 64 && (w == 0 && self.prev == 0 || w == u64::MAX && self.prev == 1) { self.at += 64; return; }
        for i in 0..len { self.bit(w >> i & 1); }
    }
}
fn words(n: u64, es: &[u64]) -> Vec<u64> {
    let mut w = vec![0u64; n.div_ceil(64) as usize];
    for (k, &a) in es.iter().enumerate().step_by(2) {
        let b = es.get(k + 1).copied().unwrap_or(n);
        let (x, y) = ((a / 64) as usize, ((b - 1) / 64) as usize);
        let (lo, hi) = (u64::MAX << (a % 64), u64::MAX >> (63 - (b - 1) % 64));
        if x == y { w[x] |= lo & hi; } else { w[x] |= lo; w[x + 1..y].fill(u64::MAX); w[y] |= hi; }
    }
    w
}

struct M { v: Vec<BitVec>, n: Vec<u64>, k: Vec<usize>, r: Rng, t: T }
fn ok<R>(x: Result<R, ()>) -> i64 { if x.is_ok() { 0 } else { PANIC } }

impl M {
    fn episode(&mut self, name: &str) { self.t.episode(name); self.v = vec![BitVec::new(); 5]; self.n = vec![0; 5]; self.k = vec![0; 5]; }
    fn word(&mut self) -> u64 { match self.r.below(6) { 0 => 0, 1 => u64::MAX, 2 => u64::MAX << self.r.below(64), 3 => u64::MAX >> self.r.below(64), _ => self.r.next() & self.r.next() } }
    fn edges(&mut self, n: u64, k: usize) -> Es {
        let mut e: Es = (0..k).map(|_| match self.r.below(5) { 0 => self.r.next() % n.min(70_000), 1 => n - 1 - self.r.next() % n.min(200), 2 => self.r.next() % n / 64 * 64, 3 if n > G => G - 500 + self.r.below(1000) as u64, _ => self.r.next() % n }).collect();
        e.retain(|&x| x < n);
        e.sort_unstable();
        e.dedup();
        e
    }
    fn fill(&mut self, s: usize, n: u64, b: i64) {
        let x = call(|| if b == 1 { BitVec::from_ones(n as usize) } else { BitVec::from_zeros(n as usize) });
        self.t.ev("Fill").i("s", s as i64).w("n", n).i("b", b).i("r", i64::from(x.is_err()) * PANIC).done();
        self.v[s] = x.unwrap_or_default(); self.n[s] = n; self.k[s] = 1;
    }
    /// the string with these changes, through one of the constructors
    fn build(&mut self, s: usize, n: u64, es: &[u64], how: usize) {
        let w = words(n, es);
        let junk = self.r.next();
        let bit = |i: usize| w[i / 64] >> (i % 64) & 1;
        let hi = |i: usize| (i as u64).wrapping_mul(junk) << 1;
        let nn = n as usize;
        let x = call(|| match how {
            0 => { let mut x = w.clone(); if n % 64 != 0 { *x.last_mut().unwrap() |= junk << (n % 64); } let mut v = BitVec::from_vec(x); v.drop_last((64 - nn % 64) % 64); v }
            1 => { let mut v = BitVec::from_limbs(&w); v.drop_last((64 - nn % 64) % 64); v }
            2 => BitVec::from_bits(&(0..nn).map(|i| (bit(i) | hi(i)) as u8).collect::<Vec<_>>()),
            3 => BitVec::from_bits_u16(&(0..nn).map(|i| (bit(i) | hi(i)) as u16).collect::<Vec<_>>()),
            4 => BitVec::from_bits_u32(&(0..nn).map(|i| (bit(i) | hi(i)) as u32).collect::<Vec<_>>()),
            5 => BitVec::from_bits_u64(&(0..nn).map(|i| bit(i) | hi(i)).collect::<Vec<_>>()),
            6 => BitVec::from_bits_iter(loose((0..nn).map(|i| (bit(i) | hi(i)) as u8))),
            7 => BitVec::from_bits_iter((0..nn).map(|i| bit(i) | hi(i)).collect::<Vec<_>>()),
            8 => BitVec::from_bools(&(0..nn).map(|i| bit(i) == 1).collect::<Vec<_>>()),
            9 => BitVec::from_bool_iter(loose((0..nn).map(|i| bit(i) == 1))),
            10 => { let mut v = BitVec::from_limbs_iter(loose(w.iter().copied())); v.drop_last((64 - nn % 64) % 64); v }
            11 => { let mut v = loose(w.iter().copied()).collect::<BitVec>(); v.drop_last((64 - nn % 64) % 64); v }
            12 => { let mut v = BitVec::from(&w[..]); v.drop_last((64 - nn % 64) % 64); v }
            13 => { let mut v = BitVec::with_capacity(nn); for i in 0..nn { v.append(bit(i) == 1); } v }
            14 => { let mut v = BitVec::new(); for (i, &x) in w.iter().enumerate() { if nn - i * 64 >= 64 { v.append_word(x) } else { v.append_bits(x | junk << (n % 64), nn % 64) } } v }
            15 => { let mut v = BitVec::from_zeros(nn); for (k, &a) in es.iter().enumerate().step_by(2) { for p in a..es.get(k + 1).copied().unwrap_or(n) { v.set(p as usize, 1).unwrap(); } } v }
            16 => BitVec::pack_sequence_u8(&(0..nn).map(|i| bit(i) as u8).collect::<Vec<_>>(), 1),
            _ => BitVec::pack_from_iter_u64(loose((0..nn).map(|i| bit(i))), 1),
        });
        self.t.ev("Build").i("s", s as i64).w("n", n).ws("es", es).i("how", how as i64).i("r", i64::from(x.is_err()) * PANIC).done();
        self.v[s] = x.unwrap_or_default(); self.n[s] = n; self.k[s] = es.len();
    }
    /// packed elements: long stretches of zeros and all-ones, a few others between them
    fn pack(&mut self, s: usize, n: u64, width: usize, how: usize) {
        let max = [u64::from(u8::MAX), u64::from(u16::MAX), u64::from(u32::MAX), u64::MAX][how % 4];
        let bits = [8usize, 16, 32, 64][how % 4];
        let mut els: Vec<(u64, usize)> = vec![];
        let mut left = n as usize / width;
        let mut k = 0;
        while left > 0 && k < 5 {
            let c = (match self.r.below(3) { 0 => 1 + self.r.below(5), 1 => left / 3, _ => self.r.below(left) }).clamp(1, left);
            els.push((if width <= bits && self.r.chance(1, 2) { max } else { 0 }, c));
            left -= c;
            if left > 0 { els.push((self.word() & max, 1)); left -= 1; }
            k += 1;
        }
        if left > 0 { els.push((0, left)); }
        if !els.is_empty() { els.push((max, 1)); }
        let it = || els.iter().flat_map(|&(w, c)| std::iter::repeat_n(w, c));
        let x = call(|| match how {
            0 => BitVec::pack_sequence_u8(&it().map(|x| x as u8).collect::<Vec<_>>(), width),
            1 => BitVec::pack_sequence_u16(&it().map(|x| x as u16).collect::<Vec<_>>(), width),
            2 => BitVec::pack_sequence_u32(&it().map(|x| x as u32).collect::<Vec<_>>(), width),
            3 => BitVec::pack_sequence_u64(&it().collect::<Vec<_>>(), width),
            4 => BitVec::pack_from_iter_u8(loose(it().map(|x| x as u8)), width),
            5 => BitVec::pack_from_iter_u16(loose(it().map(|x| x as u16)), width),
            6 => BitVec::pack_from_iter_u32(loose(it().map(|x| x as u32)), width),
            _ => BitVec::pack_from_iter_u64(loose(it()), width),
        });
        let mut e = String::from("[");
        for (i, &(w, c)) in els.iter().enumerate() { if i > 0 { e.push(','); } e += &format!("[{:?},{c}]", limbs(w)); }
        e.push(']');
        self.t.ev("Pack").i("s", s as i64).raw("els", &e).i("width", width as i64).i("how", how as i64).i("r", i64::from(x.is_err()) * PANIC).done();
        let count: usize = els.iter().map(|x| x.1).sum();
        self.v[s] = x.unwrap_or_default(); self.n[s] = (count * width) as u64; self.k[s] = 200;
        if width <= 64 {
            let mut is: Vec<u64> = vec![0, 1, count as u64, count as u64 + 1];
            let mut at = 0;
            for &(_, c) in &els { at += c as u64; is.extend([at - 1, at, at / 2]); }
            self.unpack(s, &is, width);
        }
    }
    fn unpack(&mut self, s: usize, is: &[u64], width: usize) {
        let v = &self.v[s];
        let rs: Vec<Vec<i64>> = is.iter().map(|&i| row(|| v.unpack_element(i as usize, width))).collect();
        self.t.ev("Unpack").i("s", s as i64).i("tt", -1).aa("ps", &is.iter().map(|&x| limbs(x)).collect::<Vec<_>>()).a("lens", &vec![width as i64; is.len()]).aa("rs", &rs).done();
    }
    fn copy(&mut self, s: usize, d: usize, how: usize) {
        let src = self.v[s].clone();
        let n = self.n[s] as usize;
        let x = call(|| match how {
            0 => src,
            1 => RsVec::from_bit_vec(src).into_bit_vec(),
            2 => { let mut v = BitVec::new(); v.extend_bitvec(&src); v }
            3 => { let (mut a, b) = src.split_at(n / 3).unwrap(); a.extend_bitvec(&b); a }
            4 => { let mut v = BitVec::from_limbs_iter(src.iter_limbs()); let k = v.len() - n; v.drop_last(k); v }
            5 => BitVec::from_bits_iter(src.iter()),
            6 => { let z = BitVec::from_zeros(n); let v = src.mask_or(&z).unwrap().to_bit_vec(); v }
            // limbs in a vector with room to spare, or none
            7 => { let mut x = Vec::with_capacity(n / 64 * 3 + 7); x.extend(src.iter_limbs()); let mut v = BitVec::from(x); let k = v.len() - n; v.drop_last(k); v }
            8 => { let mut x = Vec::with_capacity(n / 64 * 3 + 7); x.extend(src.iter_limbs()); let mut v = BitVec::from_vec(x); let k = v.len() - n; v.drop_last(k); v }
            9 => { let x: Vec<u64> = src.iter_limbs().collect(); let mut v = BitVec::from(x); let k = v.len() - n; v.drop_last(k); v }
            10 => BitVec::from(BpTree::<512>::from(src)),
            11 => { let x: RsVec = BpTree::<64>::from_bit_vector(src).into(); x.into() }
            12 => BitVec::from_bits_iter(RsVec::from(src).into_iter()),
            13 => { let x = RsVec::from(src); BitVec::from_bits_iter(loose(x.iter())) }
            14 => { let x = SparseRSVec::from(&src); let mut v = BitVec::from_zeros(x.len() as usize); for p in x.iter1() { v.set(p as usize, 1).unwrap(); } v }
            15 => { let x = SparseRSVec::from_bitvec_inverted(&src); let mut v = BitVec::from_ones(x.len() as usize); for p in x.iter1() { v.set(p as usize, 0).unwrap(); } v }
            16 => { let x = SparseRSVec::from(src); BitVec::from_bits_iter((0..x.len()).map(|p| x.get(p).unwrap())) }
            17 => { let x = RsVec::from(src); let mut v = BitVec::from_zeros(x.len()); for p in x.iter1() { v.flip_bit(p); } v }
            18 => { let x = RsVec::from(src); let mut v = BitVec::from_ones(x.len()); for p in x.into_iter0() { v.set(p, 0).unwrap(); } v }
            _ => { let (a, b) = src.split_at(n / 2 / 64 * 64).unwrap(); let mut v = a.clone(); v.extend([b]); v }
        });
        self.t.ev("Copy").i("s", s as i64).i("d", d as i64).i("how", how as i64).i("r", i64::from(x.is_err()) * PANIC).done();
        self.v[d] = x.unwrap_or_default(); self.n[d] = self.n[s]; self.k[d] = self.k[s];
    }
    #[cfg(feature = "ser")]
    fn reload(&mut self, s: usize, d: usize) {
        let fmt = self.r.below(reload::FORMATS);
        let x = reload::round(&self.v[s], fmt);
        self.t.ev("Copy").i("s", s as i64).i("d", d as i64).i("how", 100 + fmt as i64).i("r", i64::from(x.is_none()) * PANIC).done();
        self.v[d] = x.unwrap_or_default(); self.n[d] = self.n[s]; self.k[d] = self.k[s];
    }
    fn append(&mut self, s: usize, w: u64, len: usize) {
        let v = &mut self.v[s];
        let r = ok(call(|| match len { 64 if w % 2 == 0 => v.append_word(w), 1 if w % 4 < 2 => v.append(w % 2 == 1), 1 => v.append_bit(w), _ => v.append_bits(w, len) }));
        self.t.ev("Append").i("s", s as i64).w("w", w).i("len", len as i64).i("r", r).done();
        self.n[s] += len as u64; self.k[s] += 20;
    }
    fn too_long(&mut self, s: usize, len: usize) {
        let v = &mut self.v[s];
        let r = ok(call(|| v.append_bits(5, len)));
        self.t.ev("TooLong").i("s", s as i64).i("r", r).done();
    }
    fn extend(&mut self, s: usize, js: &[usize], how: usize) {
        let others: Vec<BitVec> = js.iter().map(|&j| self.v[j].clone()).collect();
        let v = &mut self.v[s];
        let r = ok(call(|| match how { 0 => for o in &others { v.extend_bitvec(o) }, 1 => v.extend(others.iter()), _ => v.extend(others) }));
        self.t.ev("Extend").i("s", s as i64).a("js", &js.iter().map(|&j| j as i64).collect::<Vec<_>>()).i("how", how as i64).i("r", r).done();
        let (n, k) = (js.iter().map(|&j| self.n[j]).sum::<u64>(), js.iter().map(|&j| self.k[j]).sum::<usize>());
        self.n[s] += n; self.k[s] += k + 1;
    }
    fn drop_last(&mut self, s: usize, k: u64) {
        let v = &mut self.v[s];
        let r = ok(call(|| v.drop_last(k as usize)));
        self.t.ev("Drop").i("s", s as i64).w("k", k).i("r", r).done();
        self.n[s] -= k.min(self.n[s]);
    }
    fn flip(&mut self, s: usize, p: u64) {
        let v = &mut self.v[s];
        let r = ok(call(|| v.flip_bit(p as usize)));
        self.t.ev("Flip").i("s", s as i64).w("p", p).i("r", r).done();
        self.k[s] += 2;
    }
    fn set(&mut self, s: usize, p: u64, b: u64) {
        let v = &mut self.v[s];
        let r = match call(|| v.set(p as usize, b).is_ok()) { Err(()) => PANIC, Ok(true) => 0, Ok(false) => NONE };
        self.t.ev("Set").i("s", s as i64).w("p", p).i("b", (b % 2) as i64).i("r", r).done();
        self.k[s] += 2;
    }
    fn split(&mut self, s: usize, p: u64, d: usize) {
        let src = std::mem::take(&mut self.v[s]);
        let r = match call(|| src.split_at(p as usize)) {
            Err(()) => PANIC,
            Ok(Ok((a, b))) => { self.v[s] = a; self.v[d] = b; 0 }
            Ok(Err(a)) => { self.v[s] = a; NONE }
        };
        self.t.ev("Split").i("s", s as i64).w("p", p).i("d", d as i64).i("r", r).done();
        if p <= self.n[s] { self.n[d] = self.n[s] - p; self.n[s] = p; self.k[d] = self.k[s]; }
    }
    /// in place (d = s) or into another slot
    fn mask(&mut self, s: usize, j: usize, tt: usize, d: usize, custom: bool) {
        let f = mask_fn(tt);
        let r = if d == s {
            let m = self.v[j].clone();
            let v = &mut self.v[s];
            match call(|| match tt { OR if !custom => v.apply_mask_or(&m).is_ok(), AND if !custom => v.apply_mask_and(&m).is_ok(), XOR if !custom => v.apply_mask_xor(&m).is_ok(), _ => v.apply_mask_custom(&m, f).is_ok() }) { Err(()) => PANIC, Ok(true) => 0, Ok(false) => NONE }
        } else {
            let x = { let (a, b) = (&self.v[s], &self.v[j]); call(|| match tt {
                OR if !custom => a.mask_or(b).ok().map(|m| m.to_bit_vec()), AND if !custom => a.mask_and(b).ok().map(|m| m.to_bit_vec()),
                XOR if !custom => a.mask_xor(b).ok().map(|m| m.to_bit_vec()), _ => a.mask_custom(b, f).ok().map(|m| m.to_bit_vec()) }) };
            match x { Err(()) => PANIC, Ok(None) => NONE, Ok(Some(v)) => { self.v[d] = v; 0 } }
        };
        self.t.ev("Mask").i("s", s as i64).i("j", j as i64).i("tt", tt as i64).i("d", d as i64).b("custom", custom).i("r", r).done();
        if self.n[s] == self.n[j] { self.n[d] = self.n[s]; self.k[d] = self.k[s] + self.k[j] + 1; }
    }

    // ------------------------------------------------------------ observations
    fn points(&mut self, s: usize, m: usize) -> Vec<u64> {
        let n = self.n[s];
        let mut p: Vec<u64> = vec![0, 1, 63, 64, n / 2, n, n + 1, n + 63, n + 64, n + G, u64::MAX, u64::MAX - 63, 1 << 63];
        for d in 1..4 { p.push(n.saturating_sub(d)); }
        if n > 0 { for _ in 0..m { p.push(self.r.next() % n); } }
        for b in [16u64, 22, 31, 32] { for d in 0..3 { p.push((1 << b) + d - 1); } }
        p
    }
    fn queries(&mut self, s: usize, m: usize) -> Vec<(u64, usize)> {
        let n = self.n[s];
        (0..m).map(|i| { let l = *self.r.pick(&[1usize, 7, 31, 33, 63, 64]); (match i % 4 { 0 => n.saturating_sub(l as u64), 1 => n.saturating_sub(l as u64 - 1), 2 => self.r.next() % (n + 1), _ => self.r.next() % (n + 1) / 64 * 64 + 60 }, l) })
            .chain([(n, 1), (u64::MAX, 64), (u64::MAX - 62, 63), (0, 65)]).collect()
    }
    fn len(&mut self, s: usize) {
        let v = &self.v[s];
        self.t.ev("Len").i("s", s as i64).a("r", &rw(|| v.len() as u64)).i("empty", rb(|| v.is_empty())).done();
    }
    fn count(&mut self, s: usize) {
        let v = &self.v[s];
        self.t.ev("Count").i("s", s as i64).i("j", 1).i("tt", -1).a("ones", &rw(|| v.count_ones())).a("zeros", &rw(|| v.count_zeros())).done();
    }
    fn get(&mut self, s: usize) {
        let (ps, q) = (self.points(s, 12), self.queries(s, 14));
        let v = &self.v[s];
        let rs: Vec<i64> = ps.iter().map(|&p| if p % 2 == 0 { ro64(|| v.get(p as usize)) } else { rob(|| v.is_bit_set(p as usize)) }).collect();
        self.t.ev("Get").i("s", s as i64).i("j", 1).i("tt", -1).aa("ps", &ps.iter().map(|&p| limbs(p)).collect::<Vec<_>>()).a("rs", &rs).done();
        let rs: Vec<Vec<i64>> = q.iter().map(|&(p, l)| row(|| v.get_bits(p as usize, l))).collect();
        self.t.ev("GetBits").i("s", s as i64).i("j", 1).i("tt", -1).aa("ps", &q.iter().map(|x| limbs(x.0)).collect::<Vec<_>>()).a("lens", &q.iter().map(|x| x.1 as i64).collect::<Vec<_>>()).aa("rs", &rs).done();
        let w = *self.r.pick(&[1usize, 2, 5, 7, 17, 33, 63, 64]);
        let e = self.n[s] / w as u64;
        let is = [0, e.saturating_sub(1), e, e + 1, e / 2, self.r.next() % (e + 1)];
        self.unpack(s, &is, w);
    }
    fn emit_scan(&mut self, s: usize, j: usize, tt: i64, how: usize, e: Result<Edges, ()>) {
        let e = e.unwrap_or(Edges { es: vec![], prev: 0, at: u64::MAX });
        self.t.ev("Scan").i("s", s as i64).i("j", j as i64).i("tt", tt).i("how", how as i64).w("n", e.at).ws("es", &e.es).done();
    }
    /// read everything
    fn scan(&mut self, s: usize, how: usize) {
        let n = self.n[s] as usize;
        let v = &self.v[s];
        let e = call(|| {
            let mut e = Edges::new();
            match how {
                0 => { let mut left = n as u64; for w in v.iter_limbs() { let k = left.min(64); e.word(w, k); left -= k; } }
                1 => { let mut p = 0; while p + 64 <= n { e.word(v.get_bits(p, 64).unwrap_or(0xA5), 64); p += 64; } if p < n { e.word(v.get_bits(p, n - p).unwrap_or(0xA5), (n - p) as u64); } }
                2 => { let mut p = 0; let k = 61; while p + k <= n { e.word(v.get_bits_unchecked(p, k), k as u64); p += k; } if p < n { e.word(v.get_bits(p, n - p).unwrap_or(0xA5), (n - p) as u64); } }
                3 => for b in v.iter() { e.bit(b) },
                4 => for b in v.clone() { e.bit(b) },
                5 => for p in 0..n { e.bit(v.get(p).unwrap_or(2)) },
                6 => for p in 0..n { e.bit(v.get_unchecked(p)) },
                7 => for p in 0..n { e.bit(v.is_bit_set(p).map_or(2, u64::from)) },
                8 => for p in 0..n { e.bit(u64::from(v.is_bit_set_unchecked(p))) },
                9 => { let k = n / 7; for i in 0..k { e.word(v.unpack_element(i, 7).unwrap_or(0x55), 7); } if k * 7 < n { e.word(v.get_bits(k * 7, n - k * 7).unwrap_or(0x55), (n - k * 7) as u64); } }
                _ => { let mut x: Vec<u64> = v.iter().rev().collect(); x.reverse(); for b in x { e.bit(b) } }
            }
            e
        });
        self.emit_scan(s, 1, -1, how, e);
    }
    fn light(&mut self, s: usize) {
        self.len(s);
        let hows = if self.n[s] > 1 << 28 { 2 } else { 11 };
        let h = self.r.below(hows);
        self.scan(s, h);
        match self.r.below(3) { 0 => self.count(s), 1 => self.get(s), _ => {} }
    }
    fn full(&mut self, s: usize) {
        self.len(s); self.count(s); self.get(s);
        let hows = if self.n[s] > 1 << 28 { 2 } else { 11 };
        for h in 0..hows { self.scan(s, h); }
    }
    fn eq(&mut self, s: usize, j: usize) {
        let (a, b) = (&self.v[s], &self.v[j]);
        let h = |v: &BitVec| call(|| { let mut d = DefaultHasher::new(); v.hash(&mut d); limbs(d.finish()) }).unwrap_or(vec![PANIC]);
        let (x, y) = (h(a), h(b));
        self.t.ev("Eq").i("s", s as i64).i("j", j as i64).i("eq", rb(|| a == b)).i("ne", rb(|| a != b)).a("hi", &x).a("hj", &y).done();
    }
    fn view(&mut self, s: usize, j: usize, tt: usize) {
        let (ps, q) = (self.points(s, 12), self.queries(s, 14));
        let n = self.n[s] as usize;
        let big = self.n[s] > 1 << 28;
        let how = self.r.below(if big { 1 } else { 5 });
        let f = mask_fn(tt);
        macro_rules! go { ($m:expr) => {{
            let m = call(|| $m);
            let r = match &m { Err(()) => PANIC, Ok(Ok(_)) => 0, Ok(Err(_)) => NONE };
            let mut out = None;
            if let Ok(Ok(m)) = &m {
                let gs: Vec<i64> = ps.iter().map(|&p| if p % 2 == 0 { ro64(|| m.get(p as usize)) } else { rob(|| m.is_bit_set(p as usize)) }).collect();
                let bs: Vec<Vec<i64>> = q.iter().map(|&(p, l)| row(|| m.get_bits(p as usize, l))).collect();
                let e = call(|| {
                    let mut e = Edges::new();
                    match how {
                        0 => { let mut p = 0; while p + 64 <= n { e.word(m.get_bits(p, 64).unwrap_or(0xA5), 64); p += 64; } if p < n { e.word(m.get_bits(p, n - p).unwrap_or(0xA5), (n - p) as u64); } }
                        1 => for p in 0..n { e.bit(m.get(p).unwrap_or(2)) },
                        2 => for p in 0..n { e.bit(m.get_unchecked(p)) },
                        3 => for p in 0..n { e.bit(m.is_bit_set(p).map_or(2, u64::from)) },
                        _ => { let mut p = 0; let k = 59; while p + k <= n { e.word(m.get_bits_unchecked(p, k), k as u64); p += k; } if p < n { e.word(m.get_bits(p, n - p).unwrap_or(0xA5), (n - p) as u64); } }
                    }
                    e
                });
                out = Some((gs, bs, e, rw(|| m.count_ones()), rw(|| m.count_zeros())));
            }
            (r, out)
        }}; }
        let (r, out) = { let (a, b) = (&self.v[s], &self.v[j]); match (tt, self.r.below(2)) {
            (OR, 0) => go!(a.mask_or(b)), (AND, 0) => go!(a.mask_and(b)), (XOR, 0) => go!(a.mask_xor(b)), _ => go!(a.mask_custom(b, f)) } };
        let ev = |t: &mut T, op: &str| t.ev(op).i("s", s as i64).i("j", j as i64).i("tt", tt as i64);
        ev(&mut self.t, "ViewNew").i("r", r).done();
        if let Some((gs, bs, e, c1, c0)) = out {
            ev(&mut self.t, "Get").aa("ps", &ps.iter().map(|&p| limbs(p)).collect::<Vec<_>>()).a("rs", &gs).done();
            ev(&mut self.t, "GetBits").aa("ps", &q.iter().map(|x| limbs(x.0)).collect::<Vec<_>>()).a("lens", &q.iter().map(|x| x.1 as i64).collect::<Vec<_>>()).aa("rs", &bs).done();
            ev(&mut self.t, "Count").a("ones", &c1).a("zeros", &c0).done();
            self.emit_scan(s, j, tt as i64, how, e);
        }
    }
    fn refuse(&mut self, s: usize) {
        let n = self.n[s];
        let p = match self.r.below(6) { 0 => n, 1 => n + 1, 2 => n + G, 3 => u64::MAX, 4 => n.div_ceil(64) * 64, _ => u64::MAX - self.r.below(130) as u64 };
        let d = self.r.range(1, 3);
        match self.r.below(6) {
            0 => self.flip(s, p.max(n)),
            1 => { let b = self.r.next(); self.set(s, p.max(n), b) }
            2 => { let k = *self.r.pick(&[65usize, 128, 129, 1 << 32, usize::MAX]); self.too_long(s, k) }
            3 => if d != s { self.split(s, p.max(n + 1), d) },
            4 => if self.n[d] != n { self.mask(s, d, XOR, s, false) },
            _ => if self.n[d] != n { self.mask(s, d, AND, 4, false) },
        }
    }
    fn step(&mut self, maxn: u64) {
        let (s, d) = (self.r.range(1, 3), self.r.range(1, 3));
        let n = self.n[s];
        let pos = match self.r.below(5) { 0 => n.saturating_sub(1), 1 => n / 64 * 64, 2 => (1 << 16) + self.r.below(100) as u64, _ => self.r.next() % (n + 1) };
        match self.r.below(14) {
            0 => { let k = 1 + self.r.next() % maxn; let b = self.r.below(2) as i64; self.fill(s, k, b) }
            1 | 2 if self.k[s] < 300 => { let w = self.word(); let l = *self.r.pick(&[1usize, 1, 7, 63, 64, 64, 33]); self.append(s, w, l) }
            3 | 4 if n + self.n[d] < 2 * maxn && self.k[s] + self.k[d] < 400 => { let h = self.r.below(3); self.extend(s, &[d], h) }
            5 => { let k = match self.r.below(5) { 0 => n / 2, 1 => n + self.r.below(2) as u64, 2 => self.r.next() % (n + 1), _ => self.r.below(200) as u64 }; self.drop_last(s, k) }
            6 => if pos < n { self.flip(s, pos) },
            7 => if pos < n { let b = self.r.next(); self.set(s, pos, b) },
            8 | 9 => if d != s && pos <= n { self.split(s, pos, d); self.light(d) },
            10 | 11 if self.k[s] + self.k[d] < 300 => {
                let tt = *self.r.pick(&[OR, AND, XOR, XOR, 9, 1, 7, 4]);
                if self.n[d] > n { let k = self.n[d] - n; self.drop_last(d, k); } else if n > self.n[d] { let k = n - self.n[d]; self.drop_last(s, k); }
                let c = self.r.chance(1, 2);
                self.mask(s, d, tt, s, c)
            }
            12 => { let h = self.r.below(if n > 1 << 28 { 4 } else { 7 }); self.copy(s, d, h) }
            _ => { let k = 1 + self.r.next() % maxn; let es = self.edges(k, 12); let h = self.r.below(2); self.build(s, k, &es, h) }
        }
        self.light(s);
    }
}

fn main() {
    let a = args();
    let t = T::start(&a);
    let mut m = M { v: vec![], n: vec![], k: vec![], r: Rng::new(a.seed), t };
    let th = a.thorough;
    let sizes: Vec<u64> = if th { vec![4096, 10_000, 65_535, 65_536, 65_537, 70_001, 100_000, 131_072, 1 << 20, 4_194_303, 4_194_304, 4_300_000, 9_000_001] }
        else { vec![65_535, 65_536, 65_537, 70_001, 1 << 20, 4_300_000] };
    let huge = G + 100_000 + m.r.below(1000) as u64;
    match a.cmd.as_str() {
        "c02" => {
            for &n in &sizes {
                for how in 0..18 {
                    m.episode(&format!("build{n}.{how}"));
                    let es = m.edges(n, 24);
                    m.build(1, n, &es, how);
                    m.len(1); m.count(1); m.get(1); m.scan(1, 0); m.scan(1, 1 + how % 10);
                    m.append(1, 0, 13); m.append(1, 0x1234_5678, 64); m.scan(1, 0);
                }
                m.episode(&format!("fill{n}"));
                for b in [0, 1] { m.fill(1, n, b); m.full(1); m.append(1, 0, 7); m.append(1, u64::MAX, 64); m.full(1); }
            }
            for (i, &n) in sizes.iter().enumerate() {
                for how in 0..8 {
                    for k in 0..if th { 8 } else { 2 } {
                        let w = *m.r.pick(&[1usize, 2, 3, 5, 7, 8, 13, 16, 17, 31, 32, 33, 63, 64, 65, 100]);
                        m.episode(&format!("pack{i}.{how}.{k}"));
                        m.pack(1, n, w, how);
                        m.len(1); m.count(1); m.get(1); m.scan(1, 0);
                    }
                }
            }
            for b in [0, 1] {
                m.episode("huge");
                m.fill(1, huge, b);
                m.full(1); m.append(1, 0x1234_5678_9ABC_DEF0, 61); m.flip(1, G + 77); m.full(1);
            }
            m.episode("hugebuild");
            let es = m.edges(huge, 20);
            m.build(1, huge, &es, 14); m.full(1);
            m.episode("hugepack");
            m.pack(1, huge, 63, 7); m.len(1); m.count(1); m.get(1); m.scan(1, 0);
        }
        "c03" => {
            for &n in sizes.iter().chain([&huge]) {
                for k in 0..if n > G { 1 } else if th { 10 } else { 4 } {
                    m.episode(&format!("eq{n}.{k}"));
                    let es = m.edges(n, 20);
                    let (h1, h2) = if n > G { (0, 1) } else { (m.r.below(18), m.r.below(18)) };
                    m.build(1, n, &es, h1); m.build(2, n, &es, h2);
                    m.eq(1, 2); m.eq(2, 1);
                    let mut ps = vec![0, 1, n - 1, n / 2, n / 64 * 64, 64, 65_535, 65_536, n / 3];
                    ps.extend([n.saturating_sub(130), n.saturating_sub(1000), n - n / 50, 1 << 20, 1 << 22, (1 << 22) + 64 * 3]);
                    for _ in 0..4 { ps.push(m.r.next() % n); }
                    if n > G { ps.truncate(2); ps.push(G + 3); ps.push(n - 1); }
                    ps.retain(|&p| p < n);
                    for p in ps { m.flip(1, p); m.eq(1, 2); m.flip(1, p); }
                    m.eq(1, 2);
                    m.append(1, 0, 1); m.eq(1, 2); m.drop_last(1, 1); m.eq(2, 1);
                    m.append(1, u64::MAX, 33); m.drop_last(1, 33); m.eq(1, 2);
                    if n > G { continue; }
                    m.fill(3, 64 + n % 7, 0); m.extend(1, &[3], 0); m.eq(1, 2); m.extend(2, &[3], 1); m.eq(1, 2);
                    m.fill(3, n, 0); m.extend(1, &[3], 0); m.eq(1, 2);
                    // the same number of bits, off by 2^16 positions
                    if n > 65_600 { m.fill(1, n, 0); m.fill(2, n, 0); m.flip(1, 13); m.flip(2, 13 + 65_536); m.eq(1, 2); }
                    m.scan(1, 0); m.scan(2, 0);
                }
            }
        }
        "c04" => {
            for &n in sizes.iter().chain([&huge]) {
                for k in 0..if n > G { 2 } else if th { 16 } else { 6 } {
                    m.episode(&format!("mask{n}.{k}"));
                    for s in [1, 2] { let es = m.edges(n, 14); let h = if n > G { s - 1 } else { *m.r.pick(&[0usize, 1, 6, 14]) }; m.build(s, n, &es, h); }
                    let tt = if k < 3 { [OR, AND, XOR][k] } else { m.r.below(16) };
                    m.view(1, 2, tt);
                    if n < G { m.view(2, 1, tt); }
                    m.mask(1, 2, tt, 3, k % 2 == 1); m.full(3);
                    m.mask(1, 2, tt, 1, k % 2 == 0); m.light(1);
                    m.append(1, 0x7F31, 40); m.light(1);
                    m.mask(1, 2, tt, 1, false); m.mask(2, 1, tt, 3, false); m.view(1, 2, tt); m.light(1);
                }
            }
        }
        "c01" | "c29" => {
            for i in 0..if th { 80 } else { 14 } {
                let maxn = *m.r.pick(&[70_000u64, 140_000, 1 << 20, 5_000_000]);
                m.episode(&format!("hist{i}"));
                for _ in 0..25 { m.step(maxn); if a.cmd == "c29" { let s = m.r.range(1, 3); for _ in 0..2 { m.refuse(s); } m.light(s); } }
                for s in 1..=3 { m.full(s); }
            }
            if a.cmd == "c29" {
                m.episode("huge");
                let es = m.edges(huge, 20);
                m.build(1, huge, &es, 0); m.fill(2, 1000, 1);
                for _ in 0..if th { 40 } else { 16 } { m.refuse(1); }
                m.full(1);
            } else {
                m.episode("huge");
                m.fill(1, huge, 1); m.fill(2, G / 2 + 777, 0);
                m.flip(2, 5); m.extend(2, &[2], 0); m.light(2);
                m.split(1, G - 12_345, 3); m.light(1); m.light(3);
                m.extend(3, &[1], 1); m.light(3);
                m.drop_last(3, G - 70); m.light(3);
            }
        }
        "c26" => {
            for &n in &sizes {
                for k in 0..if th { 4 } else { 1 } {
                    for how in 0..20 {
                        m.episode(&format!("conv{n}.{k}.{how}"));
                        let mut es = m.edges(n, 16);
                        // often the string ends in a long stretch of equal bits
                        if (how + k) % 2 == 0 { es.retain(|&e| e < n - n / 4); }
                        let h = *m.r.pick(&[0usize, 1, 14, 13]);
                        m.build(1, n, &es, h);
                        m.copy(1, 2, how);
                        m.len(2); m.count(2); m.get(2); m.scan(2, 0); m.eq(1, 2);
                        m.append(2, 0, 5); m.append(2, u64::MAX, 64); m.scan(2, 1); m.scan(1, 0);
                    }
                }
            }
            for how in [0, 1, 2, 3, 4, 8, 11, 19] {
                m.episode(&format!("convhuge.{how}"));
                let es = m.edges(huge, 16);
                m.build(1, huge, &es, 0); m.copy(1, 2, how); m.len(2); m.scan(2, 0); m.get(2);
            }
        }
        #[cfg(feature = "ser")]
        "c23" => {
            for i in 0..if th { 60 } else { 12 } {
                let n = *m.r.pick(&[65_535u64, 65_536, 70_001, 300_000, 1 << 20, 4_300_000]);
                m.episode(&format!("ser{i}"));
                let es = m.edges(n, 20);
                let h = *m.r.pick(&[0usize, 1, 14]);
                m.build(1, n, &es, h);
                m.reload(1, 2); m.full(2); m.eq(1, 2);
                for _ in 0..4 { m.step(n); let (s, d) = (m.r.range(1, 3), m.r.range(1, 3)); m.reload(s, d); m.light(d); m.eq(s, d); }
            }
        }
        x => panic!("{x}"),
    }
}
