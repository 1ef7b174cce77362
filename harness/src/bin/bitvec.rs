//! C01 mutation histories, C02 constructors and packing, C03 equality and hash, C04 masks,
//! C26 conversions: histories over three bit vectors.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vers_vecs::{BinaryRmq, BitVec, BpTree, FastRmq, RsVec, WaveletMatrix};
use vharness::{obs::*, *};

/// hasher that keeps what was written, so that equal hashes mean equal hash input
#[derive(Default)]
struct Log(u64, u64);
impl Hasher for Log {
    fn finish(&self) -> u64 { self.0 ^ self.1.rotate_left(17) }
    fn write(&mut self, b: &[u8]) {
        for &x in b { self.0 = (self.0 ^ u64::from(x)).wrapping_mul(0x100_0000_01b3); self.1 += 1; }
    }
}

fn mask_fn(tt: usize) -> fn(u64, u64) -> u64 {
    fn f<const T: usize>(a: u64, b: u64) -> u64 {
        let mut r = 0;
        if T & 1 != 0 { r |= !a & !b; }
        if T & 2 != 0 { r |= !a & b; }
        if T & 4 != 0 { r |= a & !b; }
        if T & 8 != 0 { r |= a & b; }
        r
    }
    [f::<0>, f::<1>, f::<2>, f::<3>, f::<4>, f::<5>, f::<6>, f::<7>, f::<8>, f::<9>, f::<10>, f::<11>, f::<12>, f::<13>, f::<14>, f::<15>][tt]
}
const OR: usize = 14;
const AND: usize = 8;
const XOR: usize = 6;

struct M { v: Vec<BitVec>, n: Vec<usize>, tidy: Vec<bool>, r: Rng, t: T, maxn: usize }

fn ok<R>(x: Result<R, ()>) -> i64 { if x.is_ok() { 0 } else { PANIC } }

impl M {
    fn new(t: T, seed: u64) -> M {
        M { v: vec![BitVec::new(); 4], n: vec![0; 4], tidy: vec![true; 4], r: Rng::new(seed), t, maxn: 700 }
    }
    fn episode(&mut self, name: &str) {
        self.t.episode(name);
        self.v = vec![BitVec::new(); 4];
        self.n = vec![0; 4];
        self.tidy = vec![true; 4];
    }
    fn set_n(&mut self, s: usize, n: usize, tidy: bool) { self.n[s] = n; self.tidy[s] = tidy || n % 64 == 0; }
    fn word(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => 1 << 63,
            4 => u64::MAX << self.r.below(64),
            5 => u64::MAX >> self.r.below(64),
            _ => self.r.next(),
        }
    }
    fn small(&mut self) -> usize { *self.r.pick(&[0usize, 1, 2, 3, 7, 31, 32, 33, 61, 62, 63, 64, 64, 63, 1, 5]) }

    // ---------------------------------------------------- constructors
    fn zeros(&mut self, s: usize, n: usize) {
        self.t.ev("FromZeros").i("s", s as i64).i("n", n as i64).done();
        self.v[s] = call(|| BitVec::from_zeros(n)).unwrap_or_default();
        self.set_n(s, n, true);
    }
    fn ones(&mut self, s: usize, n: usize) {
        self.t.ev("FromOnes").i("s", s as i64).i("n", n as i64).done();
        self.v[s] = call(|| BitVec::from_ones(n)).unwrap_or_default();
        self.set_n(s, n, true);
    }
    fn fresh(&mut self, s: usize, k: usize) {
        self.t.ev("New").i("s", s as i64).done();
        self.v[s] = match k % 3 { 0 => BitVec::new(), 1 => BitVec::default(), _ => BitVec::with_capacity(k * 7) };
        self.set_n(s, 0, true);
    }
    fn from_low(&mut self, s: usize, ws: &[u64], how: usize) {
        let w8: Vec<u8> = ws.iter().map(|&w| w as u8).collect();
        let w16: Vec<u16> = ws.iter().map(|&w| w as u16).collect();
        let w32: Vec<u32> = ws.iter().map(|&w| w as u32).collect();
        let shown: Vec<u64> = match how { 0 | 4 => w8.iter().map(|&x| x.into()).collect(), 1 | 5 => w16.iter().map(|&x| x.into()).collect(), 2 | 6 => w32.iter().map(|&x| x.into()).collect(), _ => ws.to_vec() };
        self.t.ev("FromLow").i("s", s as i64).ws("ws", &shown).i("how", how as i64).done();
        self.v[s] = call(|| match how {
            0 => BitVec::from_bits(&w8),
            1 => BitVec::from_bits_u16(&w16),
            2 => BitVec::from_bits_u32(&w32),
            3 => BitVec::from_bits_u64(ws),
            4 => BitVec::from_bits_iter(loose(w8.iter().copied())),
            5 => BitVec::from_bits_iter(loose(w16.iter().copied())),
            6 => BitVec::from_bits_iter(loose(w32.into_iter())),
            _ => BitVec::from_bits_iter(ws.to_vec()),
        }).unwrap_or_default();
        self.set_n(s, ws.len(), true);
    }
    fn from_bools(&mut self, s: usize, b: &Bits, how: usize) {
        let bs: Vec<bool> = (0..b.n).map(|i| b.get(i)).collect();
        self.t.ev("FromBools").i("s", s as i64).a("bs", &b.dense()).i("how", how as i64).done();
        self.v[s] = call(|| if how == 0 { BitVec::from_bools(&bs) } else { BitVec::from_bool_iter(loose(bs.iter().copied())) }).unwrap_or_default();
        self.set_n(s, b.n, true);
    }
    fn from_limbs(&mut self, s: usize, ws: &[u64], how: usize) {
        let w: Vec<u64> = if how == 4 { ws.iter().map(|&x| u64::from(x as u32)).collect() } else { ws.to_vec() };
        self.t.ev("FromLimbs").i("s", s as i64).ws("ws", &w).i("how", how as i64).done();
        self.v[s] = call(|| match how {
            0 => BitVec::from_limbs(&w),
            1 => BitVec::from_vec(roomy(&w, &mut self.r)),
            2 => BitVec::from(&w[..]),
            3 => BitVec::from(roomy(&w, &mut self.r)),
            4 => BitVec::from_limbs_iter(loose(w.iter().map(|&x| x as u32))),
            5 => loose(w.iter().copied()).collect::<BitVec>(),
            _ => BitVec::from_limbs_iter(w.clone()),
        }).unwrap_or_default();
        self.set_n(s, w.len() * 64, true);
    }
    fn pack(&mut self, s: usize, ws: &[u64], width: usize, how: usize) {
        let w8: Vec<u8> = ws.iter().map(|&w| w as u8).collect();
        let w16: Vec<u16> = ws.iter().map(|&w| w as u16).collect();
        let w32: Vec<u32> = ws.iter().map(|&w| w as u32).collect();
        let shown: Vec<u64> = match how % 4 { 0 => w8.iter().map(|&x| x.into()).collect(), 1 => w16.iter().map(|&x| x.into()).collect(), 2 => w32.iter().map(|&x| x.into()).collect(), _ => ws.to_vec() };
        self.t.ev("Pack").i("s", s as i64).ws("ws", &shown).i("width", width as i64).i("how", how as i64).done();
        self.v[s] = match call(|| match how {
            0 => BitVec::pack_sequence_u8(&w8, width),
            1 => BitVec::pack_sequence_u16(&w16, width),
            2 => BitVec::pack_sequence_u32(&w32, width),
            3 => BitVec::pack_sequence_u64(ws, width),
            4 => BitVec::pack_from_iter_u8(loose(w8.iter().copied()), width),
            5 => BitVec::pack_from_iter_u16(loose(w16.iter().copied()), width),
            6 => BitVec::pack_from_iter_u32(loose(w32.iter().copied()), width),
            _ => BitVec::pack_from_iter_u64(loose(ws.iter().copied()), width),
        }) { Ok(v) => v, Err(()) => { self.t.ev("PackPanic").done(); BitVec::new() } };
        self.set_n(s, ws.len() * width, false);
        // unpacking every element returns it
        if width > 0 && width <= 64 {
            let v = &self.v[s];
            let mut q = Vec::new();
            for i in 0..ws.len() {
                q.push(wq(i, width, call(|| v.unpack_element(i, width))));
                q.push(wq(i, width, call(|| Some(v.unpack_element_unchecked(i, width)))));
            }
            for i in [ws.len(), ws.len() + 1, usize::MAX / width, usize::MAX] { q.push(wq(i, width, call(|| v.unpack_element(i, width)))); }
            self.t.ev("Unpack").i("s", s as i64).aa("q", &q).done();
        }
    }
    fn copy(&mut self, s: usize, d: usize) {
        self.t.ev("Copy").i("s", s as i64).i("d", d as i64).done();
        self.v[d] = self.v[s].clone();
        self.n[d] = self.n[s];
        self.tidy[d] = self.tidy[s];
    }
    fn convert(&mut self, s: usize, d: usize, how: usize) {
        let src = self.v[s].clone();
        let n = self.n[s];
        let x = call(|| match how {
            0 => RsVec::from_bit_vec(src).into_bit_vec(),
            1 => BitVec::from(RsVec::from(src)),
            2 => BitVec::from(BpTree::<512>::from_bit_vector(src)),
            3 => BpTree::<16>::from(src).into_parentheses_vec().into_bit_vec(),
            4 => BitVec::from_bits_iter(src.iter()),
            5 => BitVec::from_bits_iter(src.into_iter()),
            6 => { let mut v = BitVec::from_limbs_iter(src.iter_limbs()); let l = v.len(); v.drop_last(l - n); v }
            7 => { let mut v = BitVec::new(); v.extend_bitvec(&src); v }
            8 => { let z = BitVec::from_zeros(n); let v = src.mask_or(&z).unwrap().to_bit_vec(); v }
            9 => { let z = BitVec::from_ones(n); let v = src.mask_and(&z).unwrap().to_bit_vec(); v }
            10 => RsVec::from(src).iter().collect::<Vec<u64>>().iter().map(|&b| b == 1).collect::<Vec<_>>().iter().fold(BitVec::new(), |mut v, &b| { v.append(b); v }),
            11 => BitVec::from(RsVec::from(BpTree::<64>::from(src))),
            12 => { let rs = RsVec::from(src); let mut v = BitVec::from_zeros(n); for p in rs.iter1() { v.set(p, 1).unwrap(); } v }
            13 => { let mut v = BitVec::new(); for i in 0..n { v.append_bit(src.get(i).unwrap()); } v }
            14 => { let mut v = BitVec::new(); v.extend([&src]); v }
            _ => src,
        });
        self.t.ev("Convert").i("s", s as i64).i("d", d as i64).i("how", how as i64).i("r", if x.is_ok() { 0 } else { PANIC }).done();
        self.v[d] = x.unwrap_or_default();
        self.set_n(d, n, false);
    }

    #[cfg(feature = "ser")]
    fn reload(&mut self, s: usize, d: usize) {
        let fmt = self.r.below(reload::FORMATS);
        let x = reload::round(&self.v[s], fmt);
        self.t.ev("Reload").i("s", s as i64).i("d", d as i64).st("how", reload::NAMES[fmt]).b("ok", x.is_some()).done();
        self.v[d] = x.unwrap_or_default();
        let n = self.n[s];
        self.set_n(d, n, false);
    }
    // ---------------------------------------------------- mutations
    fn append(&mut self, s: usize, b: bool) {
        let v = &mut self.v[s];
        let r = ok(call(|| v.append(b)));
        self.t.ev("Append").i("s", s as i64).i("b", b.into()).i("r", r).done();
        let (n, td) = (self.n[s] + 1, self.tidy[s]);
        self.set_n(s, n, td);
    }
    fn append_bit(&mut self, s: usize, w: u64, how: usize) {
        let v = &mut self.v[s];
        let w = match how { 0 => w, 1 => u64::from(w as u32), 2 => u64::from(w as u16), _ => u64::from(w as u8) };
        let r = ok(call(|| match how { 0 => v.append_bit(w), 1 => v.append_bit_u32(w as u32), 2 => v.append_bit_u16(w as u16), _ => v.append_bit_u8(w as u8) }));
        self.t.ev("AppendBit").i("s", s as i64).w("w", w).i("how", how as i64).i("r", r).done();
        let (n, td) = (self.n[s] + 1, self.tidy[s]);
        self.set_n(s, n, td);
    }
    fn append_word(&mut self, s: usize, w: u64) {
        let v = &mut self.v[s];
        let r = ok(call(|| v.append_word(w)));
        self.t.ev("AppendWord").i("s", s as i64).w("w", w).i("r", r).done();
        let n = self.n[s] + 64;
        self.set_n(s, n, true);
    }
    fn append_bits(&mut self, s: usize, w: u64, len: usize, unchecked: bool) {
        if unchecked && (!self.tidy[s] || len > 64) { return; }
        let v = &mut self.v[s];
        let r = ok(call(|| if unchecked { v.append_bits_unchecked(w, len) } else { v.append_bits(w, len) }));
        self.t.ev(if unchecked { "AppendBitsU" } else { "AppendBits" }).i("s", s as i64).w("w", w).i("len", cap(len)).i("r", r).done();
        if len <= 64 {
            let n = self.n[s] + len;
            self.set_n(s, n, len == 64 || w >> len == 0);
        }
    }
    fn extend(&mut self, s: usize, js: &[usize], how: usize) {
        if js.iter().map(|&j| self.n[j]).sum::<usize>() + self.n[s] > self.maxn * 3 { return; }
        let others: Vec<BitVec> = js.iter().map(|&j| self.v[j].clone()).collect();
        let v = &mut self.v[s];
        let r = ok(call(|| match how {
            0 => for o in &others { v.extend_bitvec(o) },
            1 => v.extend(others.iter()),
            _ => v.extend(others),
        }));
        let n = self.n[s] + js.iter().map(|&j| self.n[j]).sum::<usize>();
        self.t.ev("Extend").i("s", s as i64).a("js", &js.iter().map(|&j| j as i64).collect::<Vec<_>>()).i("how", how as i64).i("r", r).done();
        self.set_n(s, n, false);
    }
    fn drop_last(&mut self, s: usize, k: usize) {
        let v = &mut self.v[s];
        let r = ok(call(|| v.drop_last(k)));
        self.t.ev("DropLast").i("s", s as i64).i("n", cap(k)).i("r", r).done();
        let (n, td) = (self.n[s] - k.min(self.n[s]), k == 0 && self.tidy[s]);
        self.set_n(s, n, td);
    }
    fn flip(&mut self, s: usize, p: usize, unchecked: bool) {
        if unchecked && p >= self.n[s] { return; }
        let v = &mut self.v[s];
        let r = ok(call(|| if unchecked { v.flip_bit_unchecked(p) } else { v.flip_bit(p) }));
        self.t.ev(if unchecked { "FlipU" } else { "Flip" }).i("s", s as i64).i("p", cap(p)).i("r", r).done();
    }
    fn set(&mut self, s: usize, p: usize, w: u64, unchecked: bool) {
        if unchecked && p >= self.n[s] { return; }
        let v = &mut self.v[s];
        let r = match call(|| if unchecked { v.set_unchecked(p, w); true } else { v.set(p, w).is_ok() }) { Err(()) => PANIC, Ok(true) => 0, Ok(false) => NONE };
        self.t.ev(if unchecked { "SetU" } else { "Set" }).i("s", s as i64).i("p", cap(p)).w("w", w).i("r", r).done();
    }
    fn split(&mut self, s: usize, at: usize, d: usize, unchecked: bool) {
        if d == s || unchecked && at > self.n[s] { return; }
        let src = std::mem::take(&mut self.v[s]);
        let x = call(|| if unchecked { Ok(src.split_at_unchecked(at)) } else { src.split_at(at) });
        let r = match x {
            Err(()) => PANIC,
            Ok(Ok((a, b))) => { self.v[s] = a; self.v[d] = b; 0 }
            Ok(Err(a)) => { self.v[s] = a; NONE }
        };
        self.t.ev(if unchecked { "SplitU" } else { "SplitAt" }).i("s", s as i64).i("at", cap(at)).i("d", d as i64).i("r", r).done();
        if at <= self.n[s] { let n = self.n[s]; self.set_n(s, at, false); self.set_n(d, n - at, false); }
    }
    fn apply_mask(&mut self, s: usize, j: usize, tt: usize, custom: bool) {
        let m = self.v[j].clone();
        let v = &mut self.v[s];
        let f = mask_fn(tt);
        let r = match call(|| if custom { v.apply_mask_custom(&m, f).is_ok() } else { match tt { OR => v.apply_mask_or(&m).is_ok(), AND => v.apply_mask_and(&m).is_ok(), XOR => v.apply_mask_xor(&m).is_ok(), _ => v.apply_mask_custom(&m, f).is_ok() } }) { Err(()) => PANIC, Ok(true) => 0, Ok(false) => NONE };
        self.t.ev("ApplyMask").i("s", s as i64).i("j", j as i64).i("tt", tt as i64).b("custom", custom).i("r", r).done();
        if self.n[s] == self.n[j] { let n = self.n[s]; self.set_n(s, n, false); }
    }
    fn mask_to_vec(&mut self, s: usize, j: usize, tt: usize, d: usize) {
        let x = { let (a, b) = (&self.v[s], &self.v[j]); call(|| match tt {
            OR => a.mask_or(b).ok().map(|m| m.to_bit_vec()),
            AND => a.mask_and(b).ok().map(|m| m.to_bit_vec()),
            XOR => a.mask_xor(b).ok().map(|m| m.to_bit_vec()),
            _ => a.mask_custom(b, mask_fn(tt)).ok().map(|m| m.to_bit_vec()),
        }) };
        let r = match x { Err(()) => PANIC, Ok(None) => NONE, Ok(Some(v)) => { self.v[d] = v; 0 } };
        self.t.ev("MaskToVec").i("s", s as i64).i("j", j as i64).i("tt", tt as i64).i("d", d as i64).i("r", r).done();
        if self.n[s] == self.n[j] { let n = self.n[s]; self.set_n(d, n, false); }
    }

    // ---------------------------------------------------- observations
    fn len(&mut self, s: usize) {
        let v = &self.v[s];
        let (n, e) = (ru(|| v.len()), rb(|| v.is_empty()));
        self.t.ev("Len").i("s", s as i64).i("n", n).i("empty", e).done();
    }
    fn read(&mut self, s: usize, how: usize) {
        let n = self.n[s];
        let v = &self.v[s];
        let x: Vec<i64> = match how {
            0 => (0..n).map(|p| ro64(|| v.get(p))).collect(),
            1 => (0..n).map(|p| ru64(|| v.get_unchecked(p))).collect(),
            2 => (0..n).map(|p| rob(|| v.is_bit_set(p))).collect(),
            3 => (0..n).map(|p| rb(|| v.is_bit_set_unchecked(p))).collect(),
            4 => call(|| v.iter().map(cap64).collect()).unwrap_or(vec![PANIC]),
            5 => call(|| v.clone().into_iter().map(cap64).collect()).unwrap_or(vec![PANIC]),
            6 => call(|| { let mut x: Vec<i64> = v.iter().rev().map(cap64).collect(); x.reverse(); x }).unwrap_or(vec![PANIC]),
            _ => call(|| (&*v).into_iter().map(cap64).collect()).unwrap_or(vec![PANIC]),
        };
        self.t.ev("Read").i("s", s as i64).i("how", how as i64).a("v", &x).done();
    }
    fn oob(&mut self, s: usize) {
        let v = &self.v[s];
        let ps = past(self.n[s]);
        let mut rs: Vec<i64> = ps.iter().map(|&p| ro64(|| v.get(p))).collect();
        rs.extend(ps.iter().map(|&p| rob(|| v.is_bit_set(p))));
        let mut pc: Vec<i64> = ps.iter().map(|&p| cap(p)).collect();
        pc.extend(pc.clone());
        self.t.ev("Get").i("s", s as i64).a("ps", &pc).a("rs", &rs).done();
    }
    fn ranges(&mut self, s: usize, k: usize) {
        let n = self.n[s];
        let qs = { let mut q = getbits_queries(n, &mut self.r, k); if k < 20 { q.truncate(k + 6); } q };
        let v = &self.v[s];
        let mut q: Vec<Vec<i64>> = qs.iter().map(|&(p, l)| wq(p, l, call(|| v.get_bits(p, l)))).collect();
        q.extend(qs.iter().filter(|&&(p, l)| l >= 1 && l <= 64 && p <= n && l <= n - p)
            .map(|&(p, l)| wq(p, l, call(|| Some(v.get_bits_unchecked(p, l))))));
        self.t.ev("Range").i("s", s as i64).aa("q", &q).done();
    }
    fn unpack(&mut self, s: usize) {
        let n = self.n[s];
        let mut q = Vec::new();
        for _ in 0..12 {
            let w = *self.r.pick(&[1usize, 2, 3, 5, 8, 13, 32, 33, 63, 64, 65, 0]);
            let i = *self.r.pick(&[0usize, n / w.max(1), (n / w.max(1)).saturating_sub(1), (n / w.max(1)) / 2, usize::MAX, usize::MAX / w.max(1), (usize::MAX / w.max(1)) + usize::from(w > 1)]);
            let v = &self.v[s];
            q.push(wq(i, w, call(|| v.unpack_element(i, w))));
        }
        self.t.ev("Unpack").i("s", s as i64).aa("q", &q).done();
    }
    fn counts(&mut self, s: usize) {
        let v = &self.v[s];
        let (a, b) = (ru64(|| v.count_ones()), ru64(|| v.count_zeros()));
        self.t.ev("Counts").i("s", s as i64).i("ones", a).i("zeros", b).done();
    }
    fn limbs(&mut self, s: usize) {
        let v = &self.v[s];
        let w = call(|| v.iter_limbs().collect::<Vec<_>>()).unwrap_or_default();
        self.t.ev("Limbs").i("s", s as i64).ws("ws", &w).done();
    }
    fn eq_hash(&mut self, i: usize, j: usize) {
        let (a, b) = (&self.v[i], &self.v[j]);
        let h = |v: &BitVec| -> Vec<i64> {
            call(|| {
                let mut d = DefaultHasher::new();
                v.hash(&mut d);
                let mut g = Log::default();
                v.hash(&mut g);
                let mut o = vharness::limbs(d.finish());
                o.extend(vharness::limbs(g.finish()));
                o
            }).unwrap_or(vec![PANIC])
        };
        let (x, y) = (h(a), h(b));
        let (e, n) = (rb(|| a == b), rb(|| a != b));
        self.t.ev("EqHash").i("s", i as i64).i("j", j as i64).i("eq", e).i("ne", n).a("hi", &x).a("hj", &y).done();
    }
    fn mask_view(&mut self, s: usize, j: usize, tt: usize, k: usize) {
        macro_rules! view { ($m:expr) => {{
            let m = { let (a, b) = (&self.v[s], &self.v[j]); $m(a, b) };
            let r = match &m { Err(()) => PANIC, Ok(Ok(_)) => 0, Ok(Err(_)) => NONE };
            self.t.ev("MaskNew").i("s", s as i64).i("j", j as i64).i("tt", tt as i64).i("r", r).done();
            if let Ok(Ok(m)) = m {
                let n = self.n[s];
                let x: Vec<i64> = (0..n).map(|p| match k % 4 { 0 => ro64(|| m.get(p)), 1 => ru64(|| m.get_unchecked(p)), 2 => rob(|| m.is_bit_set(p)), _ => rb(|| m.is_bit_set_unchecked(p)) }).collect();
                let ps = past(n);
                let mut rs: Vec<i64> = ps.iter().map(|&p| ro64(|| m.get(p))).collect();
                rs.extend(ps.iter().map(|&p| rob(|| m.is_bit_set(p))));
                let mut pc: Vec<i64> = ps.iter().map(|&p| cap(p)).collect();
                pc.extend(pc.clone());
                let qs = getbits_queries(n, &mut self.r, 30);
                let mut q: Vec<Vec<i64>> = qs.iter().map(|&(p, l)| wq(p, l, call(|| m.get_bits(p, l)))).collect();
                q.extend(qs.iter().filter(|&&(p, l)| l >= 1 && l <= 64 && p <= n && l <= n - p)
                    .map(|&(p, l)| wq(p, l, call(|| Some(m.get_bits_unchecked(p, l))))));
                let (c1, c0) = (ru64(|| m.count_ones()), ru64(|| m.count_zeros()));
                let f = |t: &mut T, op: &str| t.ev(op).i("s", s as i64).i("j", j as i64).i("tt", tt as i64);
                f(&mut self.t, "MaskRead").i("how", (k % 4) as i64).a("v", &x).done();
                f(&mut self.t, "MaskGet").a("ps", &pc).a("rs", &rs).done();
                f(&mut self.t, "MaskRange").aa("q", &q).done();
                f(&mut self.t, "MaskCounts").i("ones", c1).i("zeros", c0).done();
            }
        }}; }
        match tt {
            OR if k % 2 == 0 => view!(|a, b| call(|| BitVec::mask_or(a, b))),
            AND if k % 2 == 0 => view!(|a, b| call(|| BitVec::mask_and(a, b))),
            XOR if k % 2 == 0 => view!(|a, b| call(|| BitVec::mask_xor(a, b))),
            _ => { let f = mask_fn(tt); view!(|a, b| call(|| BitVec::mask_custom(a, b, f))) }
        }
    }
    fn mask_extremes(&mut self, s: usize, j: usize, tt: usize) {
        let (a, b) = (self.v[s].clone(), self.v[j].clone());
        let Ok(Ok(m)) = call(|| a.mask_custom(&b, mask_fn(tt))) else { self.t.ev("MaskPanic").done(); return };
        let ex = extremes(self.n[s]);
        let mut ps: Vec<i64> = ex.iter().map(|&p| cap(p)).collect();
        let mut rs: Vec<i64> = ex.iter().map(|&p| ro64(|| m.get(p))).collect();
        rs.extend(ex.iter().map(|&p| rob(|| m.is_bit_set(p))));
        ps.extend(ps.clone());
        let mut q = Vec::new();
        for &p in &ex { for l in [0usize, 1, 2, 63, 64, 65, 128, 1 << 32, 1 << 63, usize::MAX - 63, usize::MAX - 64, usize::MAX] { q.push(wq(p, l, call(|| m.get_bits(p, l)))); } }
        let f = |t: &mut T, op: &str| t.ev(op).i("s", s as i64).i("j", j as i64).i("tt", tt as i64);
        f(&mut self.t, "MaskGet").a("ps", &ps).a("rs", &rs).done();
        f(&mut self.t, "MaskRange").aa("q", &q).done();
    }
    fn full(&mut self, s: usize) {
        self.len(s);
        for h in 0..8 { self.read(s, h); }
        self.oob(s);
        self.ranges(s, 30);
        self.unpack(s);
        self.counts(s);
        self.limbs(s);
    }
    fn light(&mut self, s: usize) {
        self.len(s);
        let h = self.r.below(8);
        self.read(s, h);
        match self.r.below(5) { 0 => self.ranges(s, 10), 1 => self.counts(s), 2 => self.limbs(s), 3 => self.unpack(s), _ => {} }
    }

    // ---------------------------------------------------- one operation from numbers (TLC behaviours)
    fn step(&mut self, o: &[i64]) {
        let u = |i: usize| o[i] as usize;
        let w = |i: usize| (o[i] as u64) << 48 | (o[i + 1] as u64) << 24 | o[i + 2] as u64;
        let k = self.r.below(2) == 0;
        match o[0] {
            1 => self.zeros(u(1), u(2)),
            2 => self.ones(u(1), u(2)),
            3 => self.fresh(u(1), u(2)),
            4 => self.append(u(1), o[2] == 1),
            5 => self.append_bit(u(1), w(2), self.r.clone().below(4)),
            6 => self.append_word(u(1), w(2)),
            7 => self.append_bits(u(1), w(3), u(2), false),
            8 => self.append_bits(u(1), w(3), u(2), true),
            9 => { let h = self.r.below(3); self.extend(u(1), &[u(2)], h) }
            10 => self.drop_last(u(1), u(2)),
            11 => self.flip(u(1), u(2), k),
            12 => self.set(u(1), u(2), w(3), k),
            13 => self.split(u(1), u(2), u(3), k),
            14 => self.apply_mask(u(1), u(2), u(3), k),
            15 => self.mask_to_vec(u(1), u(2), u(3), u(4)),
            16 => self.copy(u(1), u(2)),
            x => panic!("opcode {x}"),
        }
    }
    /// an operation that must be refused, or that lies outside the contract
    fn refuse(&mut self, s: usize) {
        let n = self.n[s];
        let d = self.r.range(1, 3);
        let past = match self.r.below(7) { 0 => n, 1 => n + 1, 2 => n.div_ceil(64) * 64, 3 => (n.div_ceil(64) * 64).max(n + 1) - 1, 4 => n + self.r.below(200), 5 => usize::MAX, _ => usize::MAX - self.r.below(130) };
        let w = self.word();
        match self.r.below(12) {
            0 => self.flip(s, past, false),
            1 => self.set(s, past, w, false),
            2 => { let k = *self.r.pick(&[65usize, 66, 127, 128, 129, usize::MAX]); self.append_bits(s, w, k, false) }
            3 => { let k = self.r.chance(1, 2); if self.n[d] != n { self.apply_mask(s, d, XOR, k) } }
            4 => { if self.n[d] != n { self.mask_to_vec(s, d, AND, 3) } }
            5 => { let at = if past == n { n + 1 } else { past }; self.split(s, at, d, false) }
            6 | 7 => { let r = ok(call(|| self.v[s].flip_bit_unchecked(past))); self.outside("FlipOut", s, past, r) }
            8 | 9 => { let r = ok(call(|| self.v[s].set_unchecked(past, w))); self.outside("SetOut", s, past, r) }
            _ => {
                let k = self.r.range(1, 64);
                let v = &self.v[s];
                let r = ok(call(|| v.get_unchecked(past)).and(call(|| v.get_bits_unchecked(past, k))).and(call(|| v.unpack_element_unchecked(past, k))).and(call(|| u64::from(v.is_bit_set_unchecked(past)))));
                self.t.ev("ReadOut").i("s", s as i64).i("p", cap(past)).i("r", r).done();
            }
        }
    }
    fn outside(&mut self, op: &str, s: usize, p: usize, r: i64) {
        self.t.ev(op).i("s", s as i64).i("p", cap(p)).i("r", r).done();
        if self.n[s] % 64 != 0 { self.tidy[s] = false; }
    }
    fn must_panic<R>(&mut self, what: &str, f: impl FnOnce() -> R) {
        let r = ok(call(f));
        self.t.ev("MustPanic").st("what", what).i("r", r).done();
    }
    fn random_step(&mut self) {
        let s = self.r.range(1, 3);
        let d = self.r.range(1, 3);
        let n = self.n[s];
        let full = n > self.maxn;
        let pos = match self.r.below(6) { 0 => n, 1 => n.saturating_sub(1), 2 => n / 64 * 64, 3 => 0, _ => self.r.below(n + 1) };
        let x = self.r.below(30);
        match x {
            0 => { let k = self.r.below(200); self.zeros(s, k) }
            1 => { let k = self.r.below(200); self.ones(s, k) }
            2 => { let k = self.r.below(50); self.fresh(s, k) }
            3 => { let w = self.word(); let h = self.r.below(4); self.append_bit(s, w, h) }
            4 => { let b = self.r.chance(1, 2); self.append(s, b) }
            5 | 6 if !full => { let w = self.word(); self.append_word(s, w) }
            7..=11 if !full => { let w = self.word(); let k = self.small(); self.append_bits(s, w, k, false) }
            12 | 13 if !full => { let w = self.word(); let k = self.small(); self.append_bits(s, w, k, true) }
            14 => { let w = self.word(); let k = *self.r.pick(&[65usize, 66, 128, usize::MAX]); self.append_bits(s, w, k, false) }
            15 | 16 if !full => { let h = self.r.below(3); let js = if self.r.chance(1, 3) { vec![d, s] } else { vec![d] }; self.extend(s, &js, h) }
            17..=19 => { let k = *self.r.pick(&[0usize, 1, 2, 63, 64, 65, n, n.saturating_sub(1), n + 1, n / 2, n % 64, usize::MAX]); self.drop_last(s, k) }
            20 => { let k = self.r.chance(1, 2); self.flip(s, pos, k) }
            21 | 22 => { let w = self.word(); let k = self.r.chance(1, 3); self.set(s, pos, w, k) }
            23 | 24 => { let k = self.r.chance(1, 3); let at = if self.r.chance(1, 8) { n + 1 } else { pos }; self.split(s, at, d, k) }
            25 | 26 => {
                let tt = *self.r.pick(&[OR, AND, XOR, 9, 1, 7, 4]);
                if self.r.chance(2, 3) && self.n[d] > n { let k = self.n[d] - n; self.drop_last(d, k); }
                let k = self.r.chance(1, 2);
                self.apply_mask(s, d, tt, k)
            }
            27 => self.copy(s, d),
            28 => { let tt = self.r.below(16); self.mask_to_vec(s, s, tt, d) }
            29 => { let k = self.r.range(1, 5); let ws: Vec<u64> = (0..k).map(|_| self.word()).collect(); let h = self.r.below(7); self.from_limbs(s, &ws, h) }
            _ => { self.drop_last(s, n / 2) }
        }
        self.light(s);
        if d != s && matches!(x, 23 | 24 | 28) { self.light(d); }
    }
}

/// << pos, len, tag, word >>
fn wq(p: usize, l: usize, r: Result<Option<u64>, ()>) -> Vec<i64> {
    let mut q = vec![cap(p), cap(l)];
    match r { Err(()) => q.push(PANIC), Ok(None) => q.push(NONE), Ok(Some(v)) => { q.push(0); q.extend(limbs(v)); } }
    q
}

fn parse(line: &str) -> Vec<Vec<i64>> {
    let mut out = Vec::new();
    let mut cur: Vec<i64> = Vec::new();
    let mut depth = 0;
    let mut num = String::new();
    for c in line.chars() {
        match c {
            '[' => { depth += 1; if depth == 2 { cur.clear(); } }
            ']' => {
                if !num.is_empty() { cur.push(num.parse().unwrap()); num.clear(); }
                if depth == 2 { out.push(cur.clone()); }
                depth -= 1;
            }
            ',' => if !num.is_empty() { cur.push(num.parse().unwrap()); num.clear(); },
            c if c.is_ascii_digit() || c == '-' => num.push(c),
            _ => {}
        }
    }
    out
}

fn main() {
    let a = args();
    let t = T::start(&a);
    let mut m = M::new(t, a.seed);
    let f = if a.thorough { 8 } else { 1 };
    match a.cmd.as_str() {
        "c01" => {
            for i in 0..120 * f {
                m.maxn = if i % 10 == 9 { 3000 } else { *m.r.clone().pick(&[70usize, 140, 300, 700]) };
                m.r.next();
                m.episode(&format!("hist{i}"));
                for _ in 0..40 { m.random_step(); }
                for s in 1..=3 { m.full(s); }
            }
        }
        // refused and out-of-contract operations between ordinary ones
        "c29" => {
            for i in 0..110 * f {
                m.maxn = *m.r.clone().pick(&[70usize, 140, 300, 700]);
                m.r.next();
                m.episode(&format!("refuse{i}"));
                for _ in 0..14 {
                    m.random_step();
                    let s = m.r.range(1, 3);
                    for _ in 0..3 { m.refuse(s); m.light(s); }
                }
                for s in 1..=3 { m.full(s); }
            }
            for i in 0..60 * f {
                m.episode(&format!("reject{i}"));
                let k = *m.r.pick(&[1usize, 2, 3, 5, 7, 8, 31, 32, 33, 60, 63, 64, 65, 70, 128, 1000]);
                let wide = *m.r.pick(&[65u16, 66, 127, 128, 1000, u16::MAX]);
                let n = m.r.range(1, 400);
                let v = make(&Bits::random(if k > 1 && n % k == 0 { n + 1 } else { n }, 1, 2, &mut m.r.clone()), m.r.clone().below(HOWS), &mut m.r.clone());
                if k > 1 { m.must_panic("WaveletMatrix::from_bit_vec", || WaveletMatrix::from_bit_vec(&v, k as u16)); }
                if k > 1 && k <= 64 { m.must_panic("WaveletMatrix::from_bit_vec_pc", || WaveletMatrix::from_bit_vec_pc(&v, k as u16)); }
                let seq: Vec<u64> = (0..m.r.range(1, 40)).map(|_| m.word()).collect();
                m.must_panic("WaveletMatrix::from_slice", || WaveletMatrix::from_slice(&seq, wide));
                m.must_panic("WaveletMatrix::from_slice_pc", || WaveletMatrix::from_slice_pc(&seq, wide));
                let whole = BitVec::from_ones(wide as usize * 2);
                m.must_panic("WaveletMatrix::from_bit_vec_pc", || WaveletMatrix::from_bit_vec_pc(&whole, wide));
                let j = m.r.below(5);
                m.must_panic("FastRmq::range_min_with_range", || FastRmq::from_vec(vec![]).range_min_with_range(..=j));
                m.must_panic("BinaryRmq::range_min_with_range", || BinaryRmq::from_vec(vec![]).range_min_with_range(..=j));
                m.must_panic("FastRmq::range_min_with_range", || FastRmq::from_vec(vec![]).range_min_with_range(..));
                m.must_panic("BinaryRmq::range_min_with_range", || BinaryRmq::from_vec(vec![]).range_min_with_range(..));
            }
        }
        // behaviours generated from the specification by TLC
        "c01gen" => {
            let txt = std::fs::read_to_string(a.input.unwrap()).unwrap();
            for (i, line) in txt.lines().enumerate() {
                m.episode(&format!("tlc{i}"));
                let ops = parse(line);
                for o in &ops {
                    m.step(o);
                    m.light(o[1] as usize);
                }
                for s in 1..=3 { m.full(s); }
            }
        }
        "c02" => {
            let mut lens: Vec<usize> = vec![0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 300, 511, 512, 513];
            if a.thorough { lens.extend([640, 1000, 4096, 4097]); }
            for &n in &lens {
                m.episode(&format!("fill{n}"));
                m.zeros(1, n); m.full(1); m.ones(2, n); m.full(2);
                // constructors leave nothing behind: later appends see clean padding
                for s in [1, 2] { m.append_bits(s, 0, 5, true); m.append_word(s, u64::MAX); m.light(s); }
                for how in (0..8).chain(if n > 60 { 4..8 } else { 0..0 }) {
                    m.episode(&format!("low{n}:{how}"));
                    let ws: Vec<u64> = (0..n).map(|_| m.word()).collect();
                    m.from_low(1, &ws, how); m.full(1);
                }
                for how in 0..2 {
                    m.episode(&format!("bool{n}:{how}"));
                    let b = Bits::random(n, 1, 2, &mut m.r);
                    m.from_bools(1, &b, how); m.full(1);
                }
            }
            for k in 0..6 {
                for how in 0..7 {
                    m.episode(&format!("limbs{k}:{how}"));
                    let ws: Vec<u64> = (0..k).map(|_| m.word()).collect();
                    m.from_limbs(1, &ws, how); m.full(1);
                }
            }
            let widths: Vec<usize> = if a.thorough { (0..=200).collect() } else { (0..=72).chain([80, 96, 100, 127, 128, 129, 130, 160, 191, 192, 193]).collect() };
            for &w in &widths {
                for how in 0..8 {
                    m.episode(&format!("pack{w}:{how}"));
                    let k = *m.r.pick(&[0usize, 1, 2, 3, 5, 9, 17]);
                    let ws: Vec<u64> = (0..k).map(|_| m.word()).collect();
                    m.pack(1, &ws, w, how);
                    m.light(1); m.counts(1); m.read(1, 0); m.limbs(1);
                    let x = m.word();
                    m.append_bits(1, x, 20, false);
                    m.light(1);
                }
            }
        }
        "c03" => {
            // the same content through two histories, then contents differing in one bit or in length
            for i in 0..260 * f {
                let n = match i % 5 { 0 => i % 67, 1 => 64 * (1 + i % 5), 2 => 64 * (1 + i % 4) + 1, 3 => 64 * (1 + i % 4) - 1, _ => m.r.below(400) };
                let b = Bits::random(n, 1, 2, &mut m.r);
                m.episode(&format!("eq{i}"));
                let (h1, h2) = (m.r.below(HOWS), m.r.below(HOWS));
                for (s, h) in [(1, h1), (2, h2)] {
                    m.from_bools(s, &b, 0);
                    let mut r = m.r.clone();
                    m.r.next();
                    m.v[s] = call(|| make(&b, h, &mut r)).unwrap_or_default();
                }
                m.eq_hash(1, 2); m.eq_hash(2, 1); m.eq_hash(1, 1);
                let flips: Vec<usize> = { let mut p = vec![0, n / 2, n.wrapping_sub(1), n / 64 * 64, (n / 64 * 64).wrapping_sub(1)]; p.retain(|&x| x < n); p };
                for p in flips {
                    m.flip(1, p, false); m.eq_hash(1, 2); m.eq_hash(2, 1);
                    m.flip(1, p, false); m.eq_hash(1, 2);
                }
                m.append(1, false); m.eq_hash(1, 2); m.drop_last(1, 1); m.eq_hash(1, 2);
                m.append_bits(1, u64::MAX, 64, false); m.eq_hash(1, 2); m.drop_last(1, 64); m.eq_hash(2, 1);
                m.append_bits(2, u64::MAX, 7, false); m.drop_last(2, 7); m.eq_hash(1, 2);
                if n > 0 { m.drop_last(1, 1); m.eq_hash(1, 2); m.append_bit(1, u64::from(b.get(n - 1)), 0); m.eq_hash(1, 2); }
                m.extend(1, &[2], 0); m.extend(2, &[2], 1); m.eq_hash(1, 2);
                m.split(1, n, 3, false); m.eq_hash(1, 3); m.eq_hash(3, 1);
                m.copy(1, 3); m.eq_hash(1, 3);
                m.ones(3, n); m.apply_mask(1, 3, XOR, false); m.eq_hash(1, 2); m.apply_mask(1, 3, XOR, true);
                m.split(2, n, 3, true); m.eq_hash(1, 2);
                m.read(1, 0); m.read(2, 0);
            }
            // all-zero and all-one vectors of every length around limb boundaries
            for n in [0usize, 1, 63, 64, 65, 127, 128, 129, 192, 256] {
                m.episode(&format!("const{n}"));
                m.zeros(1, n); m.ones(2, n); m.eq_hash(1, 2);
                m.zeros(3, n + 1); m.eq_hash(1, 3); m.zeros(3, n + 64); m.eq_hash(1, 3); m.eq_hash(3, 1);
                m.apply_mask(2, 2, XOR, false); m.eq_hash(1, 2);
                m.drop_last(3, 64); m.eq_hash(1, 3);
            }
        }
        "c04" => {
            let mut lens: Vec<usize> = vec![0, 1, 2, 5, 31, 63, 64, 65, 66, 100, 127, 128, 129, 130, 191, 192, 193, 200, 256, 300, 333];
            if a.thorough { lens.extend([511, 512, 513, 640, 1000, 2000]); }
            for (i, &n) in lens.iter().enumerate() {
                for k in 0..if a.thorough { 12 } else { 6 } {
                    m.episode(&format!("mask{n}:{k}"));
                    for s in [1, 2] {
                        let b = Bits::random(n, 1, 2, &mut m.r);
                        m.from_bools(s, &b, 0);
                        let h = (i + k * 3 + s * 5) % HOWS;
                        let mut r = m.r.clone();
                        m.r.next();
                        m.v[s] = call(|| make(&b, h, &mut r)).unwrap_or_default();
                    }
                    let tts = if k < 3 { vec![[OR, AND, XOR][k], [OR, AND, XOR][k], (i + k) % 16] } else { vec![(i * 3 + k * 5) % 16, (i + 7 * k) % 16] };
                    for (z, &tt) in tts.iter().enumerate() {
                        m.mask_view(1, 2, tt, z + 2 * (k % 4));
                        m.mask_view(2, 1, tt, z);
                        m.mask_to_vec(1, 2, tt, 3);
                        m.light(3); m.counts(3); m.read(3, 0);
                        m.copy(1, 3);
                        m.apply_mask(3, 2, tt, z % 2 == 1);
                        m.light(3); m.counts(3); m.read(3, 0);
                        let x = m.word();
                        m.append_bits(3, x, 13, false);
                        m.read(3, 0);
                        // different lengths are rejected and change nothing
                        m.apply_mask(3, 2, tt, z % 2 == 0);
                        m.read(3, 0);
                        m.mask_view(3, 2, tt, z); m.mask_view(2, 3, tt, z + 1);
                        m.mask_to_vec(2, 3, tt, 1);
                    }
                    m.mask_view(1, 1, XOR, k);
                }
            }
        }
        "c26" => {
            for i in 0..140 * f {
                let n = match i % 6 { 0 => i % 67, 1 => 64 * (1 + i % 5), 2 => 64 * (1 + i % 4) + 1, 3 => 64 * (1 + i % 4) - 1, 4 => 2 * m.r.below(300), _ => m.r.below(600) };
                let b = Bits::random(n, 1, 2, &mut m.r);
                m.episode(&format!("conv{i}"));
                let h = i % HOWS;
                m.from_bools(1, &b, 0);
                let mut r = m.r.clone();
                m.r.next();
                m.v[1] = call(|| make(&b, h, &mut r)).unwrap_or_default();
                for c in 0..15 {
                    m.convert(1, 2, c);
                    m.len(2); m.read(2, 0); m.counts(2);
                    if c % 5 == i % 5 { m.full(2); let x = m.word(); m.append_bits(2, x, 9, false); m.read(2, 0); }
                }
                for at in [0, 1, 63, 64, 65, n / 2, n.saturating_sub(1), n] {
                    if at > n { continue; }
                    m.copy(1, 2);
                    m.split(2, at, 3, i % 2 == 0);
                    m.light(2); m.light(3); m.counts(3); m.counts(2); m.limbs(3);
                    m.extend(2, &[3], i % 3);
                    m.light(2); m.eq_hash(1, 2);
                    m.convert(2, 3, i % 15);
                    m.read(3, 0);
                }
                m.full(1);
            }
        }
        // checked operations with extreme arguments
        "c24" => {
            let ns = [0usize, 1, 2, 63, 64, 65, 127, 128, 130, 192, 200];
            for (i, &n) in ns.iter().enumerate() {
                for h in 0..if a.thorough { HOWS } else { 3 } {
                    let b = Bits::random(n, 1, 2, &mut m.r);
                    m.episode(&format!("total{n}"));
                    m.from_bools(1, &b, 0);
                    let mut r = m.r.clone();
                    m.r.next();
                    let how = (i * 3 + h) % HOWS;
                    m.v[1] = call(|| make(&b, how, &mut r)).unwrap_or_default();
                    let ex = extremes(n);
                    let v = &m.v[1];
                    let mut ps: Vec<i64> = ex.iter().map(|&p| cap(p)).collect();
                    let mut rs: Vec<i64> = ex.iter().map(|&p| ro64(|| v.get(p))).collect();
                    rs.extend(ex.iter().map(|&p| rob(|| v.is_bit_set(p))));
                    ps.extend(ps.clone());
                    m.t.ev("Get").i("s", 1).a("ps", &ps).a("rs", &rs).done();
                    let ls = [0usize, 1, 2, 31, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 1 << 32, (1 << 32) + 64, 1 << 63, usize::MAX, usize::MAX - 1, usize::MAX - 63, usize::MAX - 64];
                    let mut q = Vec::new();
                    let mut u = Vec::new();
                    for &p in &ex { for &l in &ls { q.push(wq(p, l, call(|| v.get_bits(p, l)))); u.push(wq(p, l, call(|| v.unpack_element(p, l)))); } }
                    m.t.ev("Range").i("s", 1).aa("q", &q).done();
                    m.t.ev("Unpack").i("s", 1).aa("q", &u).done();
                    for &p in &ex {
                        if p >= n { m.set(1, p, u64::MAX, false); }
                        if p > n { m.split(1, p, 3, false); }
                    }
                    m.read(1, 0);
                    for &p in &ex {
                        m.copy(1, 2);
                        if p >= n { m.drop_last(2, p); m.len(2); m.append(2, true); m.read(2, 0); }
                    }
                    m.copy(1, 2);
                    m.append_bits(2, u64::MAX, 1 + h * 20, false);
                    for tt in [OR, AND, XOR, 9] {
                        m.apply_mask(1, 2, tt, tt == 9 || h == 1); m.apply_mask(2, 1, tt, h == 2);
                        m.mask_view(1, 2, tt, 0); m.mask_view(2, 1, tt, 1);
                        m.mask_to_vec(1, 2, tt, 3);
                    }
                    m.read(1, 0);
                    m.copy(1, 3);
                    m.mask_extremes(1, 3, [OR, AND, XOR, 6][h % 4]);
                }
            }
        }
        // histories with serialization round trips in between
        #[cfg(feature = "ser")]
        "c23bv" => {
            for i in 0..60 * f {
                m.maxn = *m.r.clone().pick(&[70usize, 140, 300, 700]);
                m.r.next();
                m.episode(&format!("ser{i}"));
                for k in 0..24 {
                    m.random_step();
                    if k % 3 == 0 {
                        let (s, d) = (m.r.range(1, 3), m.r.range(1, 3));
                        m.reload(s, d);
                        m.light(d);
                        m.eq_hash(s, d);
                    }
                }
                for s in 1..=3 { m.reload(s, s); m.full(s); }
            }
        }
        x => panic!("{x}"),
    }
}
