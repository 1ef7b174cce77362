//! Trace recording for the vers-vecs conformance harness.
//!
//! Every bin of this crate drives the real library through its public API and records what
//! it observed as ndjson events.  The bins never judge an observation: the TLA+ trace
//! specifications under /verif/spec do.
//!
//! Result encodings (see spec/Base.tla): integers are logged as themselves, capped at 2^30;
//! None = -1, panic = -2.  64-bit words are logged as [hi16, mid24, lo24], None = [], panic = [-2].

pub mod cases;
pub mod efcases;
pub mod obs;
pub mod bpobs;
pub mod rmqobs;
pub mod wavobs;
#[cfg(feature = "ser")]
pub mod reload;
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use vers_vecs::BitVec;

pub const NONE: i64 = -1;
pub const PANIC: i64 = -2;
pub const UNKNOWN: i64 = -3;
pub const CAP: i64 = 1 << 30;

// ---------------------------------------------------------------- memory
/// fills fresh and freed memory with junk, so that code that reads past what it wrote, or after
/// it freed, answers differently from the specification instead of reading convenient zeros
struct Poison;
static POISON: AtomicU64 = AtomicU64::new(0);
const PATTERNS: [u8; 4] = [0x1D, 0xFF, 0x01, 0x0B];
/// sizes of the chunks allocated and freed while the ledger is open (the last slot takes the rest)
const SLOTS: usize = 48;
struct Book { n: AtomicU64, v: [AtomicU64; SLOTS] }
impl Book {
    const fn new() -> Book { Book { n: AtomicU64::new(0), v: [const { AtomicU64::new(0) }; SLOTS] } }
    fn add(&self, k: usize) {
        if !OPEN.with(|o| o.get()) { return; }
        let i = self.n.fetch_add(1, Ordering::Relaxed) as usize;
        self.v[i.min(SLOTS - 1)].fetch_add(k as u64, Ordering::Relaxed);
    }
    fn take(&self) -> Vec<i64> {
        let n = (self.n.swap(0, Ordering::Relaxed) as usize).min(SLOTS);
        (0..n).map(|i| self.v[i].swap(0, Ordering::Relaxed) as i64).collect()
    }
}
// per thread: the watchdog's own allocations are not the library's
thread_local! { static OPEN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
static TAKEN: Book = Book::new();
static FREED: Book = Book::new();
pub struct Ledger { pub a: Vec<i64>, pub f: Vec<i64> }
/// run `f` and record what it allocates and frees
pub fn ledger<R>(f: impl FnOnce() -> R) -> (R, Ledger) {
    OPEN.with(|o| o.set(true));
    let r = f();
    OPEN.with(|o| o.set(false));
    (r, Ledger { a: TAKEN.take(), f: FREED.take() })
}
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        TAKEN.add(l.size());
        let p = std::alloc::System.alloc(l);
        if !p.is_null() && l.size() <= 1 << 16 {
            let k = POISON.fetch_add(1, Ordering::Relaxed) as usize;
            std::ptr::write_bytes(p, PATTERNS[(k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % 4], l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        FREED.add(l.size());
        if l.size() <= 1 << 16 { std::ptr::write_bytes(p, 0xE7, l.size()); }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { TAKEN.add(l.size()); std::alloc::System.alloc_zeroed(l) }
    // realloc: the default one, alloc + copy + dealloc
}
#[global_allocator]
static GLOBAL: Poison = Poison;

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

// ---------------------------------------------------------------- arguments
pub struct Args {
    pub cmd: String,
    pub out: String,
    pub seed: u64,
    pub thorough: bool,
    pub shards: usize,
    pub input: Option<String>,
}

pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    let mut r = Args { cmd: a[1].clone(), out: a[2].clone(), seed: 1, thorough: false, shards: 1, input: None };
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--seed" => { r.seed = a[i + 1].parse().unwrap(); i += 2; }
            "--shards" => { r.shards = a[i + 1].parse().unwrap(); i += 2; }
            "--input" => { r.input = Some(a[i + 1].clone()); i += 2; }
            "--thorough" => { r.thorough = true; i += 1; }
            x => panic!("unknown argument {x}"),
        }
    }
    r
}

// ---------------------------------------------------------------- trace
struct Shard { file: File, bytes: u64 }
static SHARDS: Mutex<Vec<Shard>> = Mutex::new(Vec::new());
static CUR: AtomicU64 = AtomicU64::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);

pub struct T;

impl T {
    pub fn start(a: &Args) -> T {
        std::panic::set_hook(Box::new(|_| {}));
        {
            let mut s = SHARDS.lock().unwrap();
            for k in 0..a.shards {
                let p = format!("{}.{}.ndjson", a.out, k);
                s.push(Shard { file: File::create(&p).unwrap(), bytes: 0 });
            }
        }
        let limit: u64 = std::env::var("VH_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
        std::thread::spawn(move || {
            let mut last = BEAT.load(Ordering::Relaxed);
            let mut since = std::time::Instant::now();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let b = BEAT.load(Ordering::Relaxed);
                if b != last { last = b; since = std::time::Instant::now(); }
                if since.elapsed().as_secs() > limit {
                    if let Ok(mut s) = SHARDS.lock() {
                        let c = CUR.load(Ordering::Relaxed) as usize;
                        let _ = s[c].file.write_all(b"{\"op\":\"Hang\"}\n");
                        let _ = s[c].file.flush();
                    }
                    std::process::exit(42);
                }
            }
        });
        T
    }
    /// begin an independent episode; episodes are spread over the shards by size
    pub fn episode(&mut self, name: &str) {
        let mut s = SHARDS.lock().unwrap();
        let k = (0..s.len()).min_by_key(|&k| s[k].bytes).unwrap();
        CUR.store(k as u64, Ordering::Relaxed);
        let line = format!("{{\"op\":\"Episode\",\"name\":\"{name}\"}}\n");
        s[k].bytes += line.len() as u64;
        s[k].file.write_all(line.as_bytes()).unwrap();
        BEAT.fetch_add(1, Ordering::Relaxed);
    }
    pub fn ev(&mut self, op: &str) -> Ev {
        let mut s = String::with_capacity(64);
        write!(s, "{{\"op\":\"{op}\"").unwrap();
        Ev { s, extra: 0 }
    }
}

pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }

pub struct Ev { s: String, extra: u64 }

fn put(s: &mut String, xs: &[i64]) {
    s.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 { s.push(','); }
        let _ = write!(s, "{x}");
    }
    s.push(']');
}

impl Ev {
    pub fn i(mut self, k: &str, v: i64) -> Self { let _ = write!(self.s, ",\"{k}\":{v}"); self }
    pub fn b(mut self, k: &str, v: bool) -> Self { let _ = write!(self.s, ",\"{k}\":{v}"); self }
    pub fn b_(self, k: &str, v: bool) -> Self { self.i(k, i64::from(v)) }
    /// JSON text
    pub fn raw(mut self, k: &str, v: &str) -> Self { let _ = write!(self.s, ",\"{k}\":{v}"); self }
    pub fn st(mut self, k: &str, v: &str) -> Self { let _ = write!(self.s, ",\"{k}\":\"{v}\""); self }
    pub fn a(mut self, k: &str, v: &[i64]) -> Self {
        let _ = write!(self.s, ",\"{k}\":");
        put(&mut self.s, v);
        self
    }
    pub fn aa(mut self, k: &str, v: &[Vec<i64>]) -> Self {
        let _ = write!(self.s, ",\"{k}\":[");
        for (i, x) in v.iter().enumerate() {
            if i > 0 { self.s.push(','); }
            put(&mut self.s, x);
        }
        self.s.push(']');
        self
    }
    /// u64 word as limb tuple
    pub fn w(self, k: &str, v: u64) -> Self { let l = limbs(v); self.a(k, &l) }
    pub fn ws(self, k: &str, v: &[u64]) -> Self {
        let l: Vec<Vec<i64>> = v.iter().map(|&x| limbs(x)).collect();
        self.aa(k, &l)
    }
    /// hint for balancing the shards: this event costs TLC as much as that many bytes
    pub fn cost(mut self, c: u64) -> Self { self.extra += c; self }
    pub fn done(mut self) {
        self.s.push_str("}\n");
        let mut s = SHARDS.lock().unwrap();
        let c = CUR.load(Ordering::Relaxed) as usize;
        s[c].bytes += self.s.len() as u64 + 200 + self.extra;
        s[c].file.write_all(self.s.as_bytes()).unwrap();
        BEAT.fetch_add(1, Ordering::Relaxed);
    }
}

// ---------------------------------------------------------------- iterators as arguments
/// an iterator whose (correct) size hint is exact, unknown, or anything in between
pub struct Loose<I>(I, u64);
static LOOSE: AtomicU64 = AtomicU64::new(0);
pub fn loose<I: Iterator>(it: I) -> Loose<I> { Loose(it, LOOSE.fetch_add(1, Ordering::Relaxed)) }
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (a, b) = self.0.size_hint();
        match self.1 % 5 { 0 => (a, b), 1 => (0, None), 2 => (a / 2, None), 3 => (0, b), _ => (a.min(1), b.map(|x| x * 2 + 100)) }
    }
}

// ---------------------------------------------------------------- results
/// call into the library; a panic is data
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| { std::mem::forget(e); })
}
pub fn cap(v: usize) -> i64 { (v as u64).min(CAP as u64) as i64 }
pub fn cap64(v: u64) -> i64 { v.min(CAP as u64) as i64 }
pub fn limbs(v: u64) -> Vec<i64> {
    vec![(v >> 48) as i64, ((v >> 24) & 0xFF_FFFF) as i64, (v & 0xFF_FFFF) as i64]
}
/// usize result
pub fn ru(f: impl FnOnce() -> usize) -> i64 { call(f).map_or(PANIC, cap) }
pub fn ru64(f: impl FnOnce() -> u64) -> i64 { call(f).map_or(PANIC, cap64) }
pub fn rb(f: impl FnOnce() -> bool) -> i64 { call(f).map_or(PANIC, i64::from) }
/// Option<usize> result
pub fn ro(f: impl FnOnce() -> Option<usize>) -> i64 { call(f).map_or(PANIC, |o| o.map_or(NONE, cap)) }
pub fn ro64(f: impl FnOnce() -> Option<u64>) -> i64 { call(f).map_or(PANIC, |o| o.map_or(NONE, cap64)) }
pub fn rob(f: impl FnOnce() -> Option<bool>) -> i64 { call(f).map_or(PANIC, |o| o.map_or(NONE, i64::from)) }
/// u64 word results as limb tuples
pub fn rw(f: impl FnOnce() -> u64) -> Vec<i64> { call(f).map_or(vec![PANIC], limbs) }
pub fn row(f: impl FnOnce() -> Option<u64>) -> Vec<i64> { call(f).map_or(vec![PANIC], |o| o.map_or(vec![], limbs)) }
/// signed result: small signed integers as a 2-tuple <<0, v>>; panic <<-2>>
pub fn rs(f: impl FnOnce() -> i64) -> Vec<i64> {
    call(f).map_or(vec![PANIC], |v| vec![0, v.clamp(-CAP, CAP)])
}

// ---------------------------------------------------------------- run encodings
/// a sequence of integers as maximal runs of consecutive values: start, length, ...
#[derive(Default, Clone)]
pub struct Runs(pub Vec<i64>);
impl Runs {
    pub fn push(&mut self, v: i64) {
        let n = self.0.len();
        if n >= 2 && self.0[n - 2] + self.0[n - 1] == v && v > 0 {
            self.0[n - 1] += 1;
        } else {
            self.0.push(v);
            self.0.push(1);
        }
    }
}
/// bits of a word as runs of set positions, offset by `base`
pub fn word_runs(v: u64, base: i64) -> Vec<i64> {
    let mut r = Runs::default();
    for i in 0..64 { if v >> i & 1 == 1 { r.push(base + i); } }
    r.0
}

// ---------------------------------------------------------------- ideal bit strings
/// The bits the harness asked for: the argument of constructors, never read back from the library.
#[derive(Clone)]
pub struct Bits { pub n: usize, pub w: Vec<u64> }
impl Bits {
    pub fn zeros(n: usize) -> Bits { Bits { n, w: vec![0; n.div_ceil(64)] } }
    pub fn ones(n: usize) -> Bits { let mut b = Bits { n, w: vec![u64::MAX; n.div_ceil(64)] }; b.trim(); b }
    pub fn trim(&mut self) {
        if self.n % 64 != 0 { let k = self.n / 64; self.w[k] &= (1 << (self.n % 64)) - 1; }
    }
    pub fn get(&self, i: usize) -> bool { self.w[i / 64] >> (i % 64) & 1 == 1 }
    pub fn set(&mut self, i: usize, v: bool) {
        if v { self.w[i / 64] |= 1 << (i % 64) } else { self.w[i / 64] &= !(1 << (i % 64)) }
    }
    pub fn from_fn(n: usize, f: impl Fn(usize) -> bool) -> Bits {
        let mut b = Bits::zeros(n);
        for i in 0..n { if f(i) { b.set(i, true); } }
        b
    }
    pub fn random(n: usize, num: u64, den: u64, r: &mut Rng) -> Bits {
        let mut b = Bits::zeros(n);
        if num * 2 == den {
            for w in &mut b.w { *w = r.next(); }
            b.trim();
        } else {
            for i in 0..n { if r.chance(num, den) { b.set(i, true); } }
        }
        b
    }
    pub fn not(&self) -> Bits { let mut b = Bits { n: self.n, w: self.w.iter().map(|x| !x).collect() }; b.trim(); b }
    pub fn runs(&self) -> Vec<i64> {
        let mut r: Vec<i64> = Vec::new();
        let mut i = 0;
        while i < self.n {
            let w = self.w[i / 64];
            if i % 64 == 0 && w == 0 { i += 64; continue; }
            if i % 64 == 0 && w == u64::MAX && i + 64 <= self.n {
                let k = r.len();
                if k >= 2 && r[k - 2] + r[k - 1] == i as i64 { r[k - 1] += 64 } else { r.push(i as i64); r.push(64) }
                i += 64;
                continue;
            }
            if self.get(i) {
                let k = r.len();
                if k >= 2 && r[k - 2] + r[k - 1] == i as i64 { r[k - 1] += 1 } else { r.push(i as i64); r.push(1) }
            }
            i += 1;
        }
        r
    }
    pub fn dense(&self) -> Vec<i64> { (0..self.n).map(|i| i64::from(self.get(i))).collect() }
    pub fn count(&self) -> usize { self.w.iter().map(|w| w.count_ones() as usize).sum() }
    pub fn slice(&self, a: usize, b: usize) -> Bits { Bits::from_fn(b - a, |i| self.get(a + i)) }
}

pub const HOWS: usize = 10;
/// Produce a BitVec holding `b` through one of several histories, many of which leave stale bits
/// behind the end of the vector.
/// the same words in a vector with spare capacity (a little, a lot or none)
pub fn roomy(w: &[u64], r: &mut Rng) -> Vec<u64> {
    let mut v = Vec::with_capacity(w.len() + match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(8), _ => 5 * w.len() + 100 + r.below(100) });
    v.extend_from_slice(w);
    v
}
pub fn make(b: &Bits, how: usize, r: &mut Rng) -> BitVec {
    let n = b.n;
    let junk = r.next() | 1 << 63 | 1;
    match how {
        0 => {
            let mut v = BitVec::new();
            for i in 0..n { v.append(b.get(i)); }
            v
        }
        1 => {
            // whole limbs with junk in the last one, then drop
            let mut w = b.w.clone();
            if n % 64 != 0 { let k = n / 64; w[k] |= junk << (n % 64); }
            let mut v = BitVec::from_limbs(&w);
            v.drop_last(w.len() * 64 - n);
            v
        }
        2 => {
            // chunks of varying width, the unused part of each word set
            let mut v = BitVec::with_capacity(n);
            let mut i = 0;
            while i < n {
                let k = r.range(1, 64).min(n - i);
                let mut x = b.w[i / 64] >> (i % 64);
                if i % 64 != 0 && i / 64 + 1 < b.w.len() { x |= b.w[i / 64 + 1] << (64 - i % 64); }
                if k < 64 { x = (x & ((1 << k) - 1)) | (junk << k); }
                v.append_bits(x, k);
                i += k;
            }
            v
        }
        3 => {
            let mut v = BitVec::new();
            for i in 0..n / 64 { v.append_word(b.w[i]); }
            if n % 64 != 0 { v.append_bits(b.w[n / 64] | junk << (n % 64), n % 64); }
            v
        }
        4 => {
            // surplus words appended and dropped again
            let mut v = BitVec::from_vec(roomy(&b.w, r));
            if n % 64 != 0 { v.drop_last(64 - n % 64); }
            for _ in 0..3 { v.append_word(junk); }
            v.append_bits(junk, 37);
            v.drop_last(37 + 192);
            v
        }
        5 => {
            // right half of a split
            let k = r.below(200);
            let mut v = BitVec::from_ones(k);
            v.extend_bitvec(&make(b, 1, r));
            v.split_at(k).map(|x| x.1).unwrap_or_default()
        }
        6 => {
            // left half of a split
            let mut v = make(b, 3, r);
            v.extend_bitvec(&BitVec::from_ones(r.below(200) + 1));
            v.split_at(n).map(|x| x.0).unwrap_or_default()
        }
        7 => {
            let mut v = BitVec::from_ones(n);
            let nb = b.not();
            let rr = nb.runs();
            for c in rr.chunks(2) { for p in c[0]..c[0] + c[1] { v.flip_bit(p as usize); } }
            v
        }
        8 => {
            let mut v = BitVec::from_zeros(n);
            let rr = b.runs();
            for c in rr.chunks(2) { for p in c[0]..c[0] + c[1] { let _ = v.set(p as usize, u64::MAX); } }
            v
        }
        _ => {
            // xor with ones (stale bits set in the padding by the mask)
            let mut v = make(&b.not(), 1, r);
            let m = make(&Bits::ones(n), 1, r);
            let _ = v.apply_mask_xor(&m);
            v
        }
    }
}
/// a way suitable for big vectors
pub fn make_big(b: &Bits, r: &mut Rng) -> BitVec {
    let h = *r.pick(&[1, 3, 4]);
    make(b, h, r)
}
