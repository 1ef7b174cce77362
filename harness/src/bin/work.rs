//! C31: the work of queries and constructions, in machine instructions, counted by callgrind.
//! Run by the check, it starts itself again under valgrind ("child") and joins the counts with
//! the list of queries that the child measured.
use std::hint::black_box as bb;
use std::io::Write;
use vers_vecs::trees::bp::{BpBuilder, BpTree};
use vers_vecs::trees::*;
use vers_vecs::*;
use vharness::*;

#[inline(never)]
#[cfg(target_arch = "x86_64")]
fn request(code: u64) {
    let args: [u64; 6] = [code, 0, 0, 0, 0, 0];
    let mut _r: u64 = 0;
    unsafe { std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx", inout("rdx") _r, in("rax") args.as_ptr(), out("rdi") _); }
}
const CT: u64 = ((b'C' as u64) << 24) | ((b'T' as u64) << 16);

const WALK: usize = 500;
struct Log(String);
impl Log {
    fn build(&mut self, kind: &str, n: usize, k: usize) { self.0 += &format!("B {kind} {n} {k}\n"); }
    /// run once, count the instructions; `q` names the class of work, `m` its size if it is a whole traversal
    fn w<R>(&mut self, q: &str, m: usize, f: impl FnOnce() -> R) -> R {
        request(CT + 1);
        let r = bb(f());
        request(CT);
        self.0 += &format!("W {q} {m}\n");
        r
    }
}

/// positions worth asking about: both ends, borders of blocks, and random ones
fn spots(n: usize, r: &mut Rng, more: usize) -> Vec<usize> {
    if n == 0 { return vec![]; }
    let mut v = vec![0, n - 1, n / 2, n / 3 * 2, n.saturating_sub(65), 8191.min(n - 1), 8192.min(n - 1), n - n / 16 - 1];
    for _ in 0..more { v.push(r.below(n)); }
    v
}

fn rsvec(l: &mut Log, b: &Bits, r: &mut Rng) {
    let n = b.n;
    let bv = BitVec::from_limbs(&b.w);
    let bv = { let mut v = bv; let d = v.len() - n; v.drop_last(d); v };
    l.build("bits", n, 1);
    let mut m = bv.clone();
    for p in spots(n, r, 2) {
        l.w("get", 0, || bv.get(p));
        l.w("get_bits", 0, || bv.get_bits(p.min(n - 64), 64));
        l.w("set", 0, || m.set(p, 1));
        l.w("flip", 0, || m.flip_bit(p));
    }
    { let v = bv.mask_xor(&m).unwrap(); for p in spots(n, r, 2) { l.w("get", 0, || v.get(p)); l.w("get_bits", 0, || v.get_bits(p.min(n - 64), 64)); } l.w("scan", n, || v.count_ones()); l.w("scan", n, || v.to_bit_vec()); }
    { let mut a = BitVec::with_capacity(n + 1000); a.extend_bitvec(&bv); a.append_bit(1); l.w("append", 0, || a.append_bit(1)); l.w("append", 0, || a.append_word(7)); l.w("append", 0, || a.append_bits(7, 50)); l.w("append", 0, || a.drop_last(3)); l.w("append", 0, || a.drop_last(n / 2)); }
    l.w("scan", n, || bv.count_ones());
    l.w("scan", n, || bv == m);
    l.w("scan", n, || m.apply_mask_or(&bv));
    l.w("scan", n, || m.split_at(n / 2 + 1));
    l.w("walk", n.min(WALK), || bv.iter().take(WALK).sum::<u64>());
    l.build("rs", n, 1);
    let rs = l.w("build", n, || RsVec::from_bit_vec(bv));
    let (n0, n1) = (rs.rank0(n), rs.rank1(n));
    for p in spots(n, r, 6) { l.w("rank", 0, || rs.rank0(p)); l.w("rank", 0, || rs.rank1(p)); l.w("get", 0, || rs.get(p)); }
    l.w("rank", 0, || rs.rank1(n));
    for p in spots(n0, r, 12) { l.w("select", 0, || rs.select0(p)); }
    for p in spots(n1, r, 12) { l.w("select", 0, || rs.select1(p)); }
    l.w("select", 0, || rs.select1(n1));
    l.w("select", 0, || rs.select0(n0));
    l.w("walk", n.min(WALK), || rs.iter().take(WALK).sum::<u64>());
    l.w("walk", n0.min(WALK), || rs.iter0().take(WALK).fold(0, |a, x| a ^ x));
    l.w("walk", n1.min(WALK), || rs.iter1().take(WALK).fold(0, |a, x| a ^ x));
    l.w("walk", n0.min(WALK), || rs.iter0().rev().take(WALK).fold(0, |a, x| a ^ x));
    l.w("walk", n1.min(WALK), || rs.iter1().rev().take(WALK).fold(0, |a, x| a ^ x));
    for p in spots(n1, r, 3) { l.w("nth", 0, || rs.iter1().nth(p)); }
    for p in spots(n0, r, 3) { l.w("nth", 0, || rs.iter0().nth_back(p)); }
    for p in spots(n, r, 3) { l.w("step", 0, || rs.iter().nth(p)); }
    l.w("step", 0, || rs.iter1().len());
    l.w("step", 0, || rs.iter().count());
    l.w("step", 0, || rs.iter0().count());
    l.w("step", 0, || rs.iter1().size_hint());
    l.w("nth", 0, || rs.iter1().last());
    l.w("nth", 0, || rs.iter0().last());
    for p in spots(n, r, 2) { l.w("get", 0, || rs.get_unchecked(p)); l.w("get", 0, || rs.get_bits(p.min(n - 64), 64)); l.w("step", 0, || rs.iter().nth_back(p)); }
    let same = rs.clone();
    l.w("scan", n, || rs.full_equals(&same));
    let pos = |bit: u64| -> Vec<u64> { (0..n).filter(|&i| rs.get(i) == Some(bit)).map(|i| i as u64).collect() };
    for ps in [pos(1), pos(0)] { if ps.len() > 1 && ps.len() * 4 < n && n < 50_000_000 { sparse(l, &ps, n as u64, r); } }
}

fn sparse(l: &mut Log, v: &[u64], len: u64, r: &mut Rng) {
    l.build("sparse", v.len(), 1);
    let s = SparseRSVec::new(v, len);
    for p in spots(len as usize, r, 8) {
        l.w("rank", 0, || s.rank1(p as u64));
        l.w("rank", 0, || s.rank0(p as u64));
        l.w("rank", 0, || s.get(p as u64));
    }
    for p in spots(v.len(), r, 4) { l.w("select", 0, || s.select1(p)); }
}

fn ef(l: &mut Log, v: &[u64], r: &mut Rng) {
    let n = v.len();
    l.build("ef", n, 1);
    let e = l.w("build", n, || EliasFanoVec::from_slice(v));
    for p in spots(n, r, 6) { l.w("select", 0, || e.get(p)); l.w("select", 0, || e.delta(p)); }
    let mut qs: Vec<u64> = spots(n, r, 12).into_iter().flat_map(|p| [v[p], v[p].saturating_add(1), v[p].saturating_sub(1)]).collect();
    for _ in 0..6 { qs.push(v[0] + r.next() % (v[n - 1] - v[0]).max(1)); }
    for q in qs {
        l.w("search", 0, || e.predecessor(q));
        l.w("search", 0, || e.successor(q));
        l.w("search", 0, || e.rank(q));
        if v[0] <= q { l.w("search", 0, || e.predecessor_unchecked(q)); }
        if q <= v[n - 1] { l.w("search", 0, || e.successor_unchecked(q)); }
    }
    l.w("walk", n.min(WALK), || e.iter().take(WALK).fold(0u64, |a, x| a ^ x));
    l.w("walk", n.min(WALK), || e.iter().rev().take(WALK).fold(0u64, |a, x| a ^ x));
    l.w("step", 0, || e.iter().len());
    l.w("select", 0, || e.iter().max());
    l.w("select", 0, || e.iter().last());
    l.w("step", 0, || e.iter().count());
    l.w("select", 0, || e.iter().min());
    for p in spots(n, r, 3) { l.w("select", 0, || e.iter().nth(p)); l.w("select", 0, || e.iter().nth_back(p)); l.w("select", 0, || e.get_unchecked(p)); }
}

fn rmq(l: &mut Log, v: &[u64], r: &mut Rng) {
    let n = v.len();
    let mut qs: Vec<(usize, usize)> = vec![(0, n - 1), (0, 0), (1, n - 2), (n / 2, n - 1), (0, n / 2), (127, 128), (128, 255), (1, 126), (127, 256)];
    for _ in 0..12 { let (a, b) = (r.below(n), r.below(n)); qs.push((a.min(b), a.max(b))); }
    for _ in 0..8 { let a = r.below(n - 130); qs.push((a, a + r.below(130))); }
    qs.retain(|q| q.0 <= q.1 && q.1 < n);
    l.build("rmq", n, 1);
    let f = l.w("build", n, || FastRmq::from_vec(v.to_vec()));
    for &(a, b) in &qs { l.w("query", 0, || f.range_min(a, b)); l.w("query", 0, || f.range_min_with_range(a..=b)); }
    if n > 70_000 { return; }
    l.build("table", n, 1);
    let f = l.w("build", n, || BinaryRmq::from_vec(v.to_vec()));
    for &(a, b) in &qs { l.w("query", 0, || f.range_min(a, b)); l.w("query", 0, || f.range_min_with_range(a..=b)); }
}

fn wavelet(l: &mut Log, v: &[u64], k: usize, r: &mut Rng) {
    let n = v.len();
    l.build("wavelet", n, k);
    let w = l.w("build", n, || WaveletMatrix::from_slice(v, k as u16));
    if k <= 12 { l.w("build", n, || WaveletMatrix::from_slice_pc(v, k as u16)); }
    let top = if k == 64 { u64::MAX } else { (1 << k) - 1 };
    for p in spots(n, r, 2) {
        let (a, b) = (p.min(n / 3), p.max(n / 3));
        let s = if r.chance(2, 3) { v[p] } else { r.next() & top };
        let sb = BitVec::pack_sequence_u64(&[s], k);
        l.w("query", 0, || w.get_u64(p));
        l.w("query", 0, || w.get_value(p));
        l.w("query", 0, || w.rank_u64(p, s));
        l.w("query", 0, || w.rank(p, &sb));
        l.w("query", 0, || w.rank_range_u64(a..b, s));
        l.w("query", 0, || w.rank_offset_u64(a, b, s));
        l.w("query", 0, || w.quantile_u64(a..b + 1, (b - a) / 2));
        l.w("query", 0, || w.quantile(a..b + 1, (b - a) / 3));
        l.w("query", 0, || w.get_sorted_u64(p));
        l.w("query", 0, || w.range_min_u64(a..b + 1));
        l.w("query", 0, || w.range_max_u64(a..b + 1));
        l.w("query", 0, || w.range_median_u64(a..b + 1));
        l.w("query", 0, || w.range_min_u64_unchecked(a..b + 1));
        l.w("query", 0, || w.range_max_u64_unchecked(a..b + 1));
        l.w("query", 0, || w.range_median_u64_unchecked(a..b + 1));
        l.w("query", 0, || w.quantile_u64_unchecked(a..b + 1, (b - a) / 2));
        l.w("query", 0, || w.rank_range_u64_unchecked(a..b + 1, s));
        l.w("query", 0, || w.rank_range_unchecked(a..b + 1, &sb));
        l.w("query", 0, || w.rank_range(a..b + 1, &sb));
        l.w("query", 0, || w.rank_offset(a, b, &sb));
        l.w("query", 0, || w.rank_offset_u64_unchecked(a, b, s));
        l.w("query", 0, || w.rank_offset_unchecked(a, b, &sb));
        l.w("query", 0, || w.rank_u64_unchecked(p, s));
        l.w("query", 0, || w.rank_unchecked(p, &sb));
        l.w("query", 0, || w.get_u64_unchecked(p));
        l.w("query", 0, || w.get_value_unchecked(p));
        l.w("query", 0, || w.get_sorted(p));
        l.w("query", 0, || w.get_sorted_unchecked(p));
        l.w("query", 0, || w.get_sorted_u64_unchecked(p));
        l.w("query", 0, || w.range_min(a..b + 1));
        l.w("query", 0, || w.range_max(a..b + 1));
        l.w("query", 0, || w.range_median(a..b + 1));
        l.w("query", 0, || w.range_min_unchecked(a..b + 1));
        l.w("query", 0, || w.range_max_unchecked(a..b + 1));
        l.w("query", 0, || w.range_median_unchecked(a..b + 1));
        l.w("query", 0, || w.quantile_unchecked(a..b + 1, (b - a) / 2));
        l.w("query", 0, || w.predecessor_u64(a..b + 1, s));
        l.w("query", 0, || w.successor_u64(a..b + 1, s));
        l.w("query", 0, || w.predecessor(a..b + 1, &sb));
        l.w("query", 0, || w.successor(a..b + 1, &sb));
        let c = w.rank_u64(n, s).unwrap_or(0);
        l.w("select", 0, || w.select_u64(c / 2, s));
        l.w("select", 0, || w.select(c.saturating_sub(1), &sb));
        l.w("select", 0, || w.select(c, &sb));
        if c > 0 { l.w("select", 0, || w.select_u64_unchecked(c - 1, s)); l.w("select", 0, || w.select_unchecked(c - 1, &sb)); }
        let d = w.rank_range_u64(a..n, s).unwrap_or(0);
        if d > 0 { l.w("select", 0, || w.select_offset_u64_unchecked(a, d - 1, s)); l.w("select", 0, || w.select_offset_unchecked(a, d - 1, &sb)); }
        l.w("select", 0, || w.select_offset(a, d, &sb));
        l.w("select", 0, || w.select_offset_u64(a, d / 2, s));
    }
    if let Some(it) = w.iter_u64() { l.w("walk", n.min(200), || it.take(200).fold(0, |a, x| a ^ x)); }
    if let Some(it) = w.iter_sorted_u64() { l.w("walk", n.min(200), || it.take(200).fold(0, |a, x| a ^ x)); }
}

fn tree<const B: usize>(l: &mut Log, shape: usize, nodes: usize, r: &mut Rng) {
    let mut b = BpBuilder::<B>::with_capacity(nodes as u64);
    b.enter_node();
    match shape {
        0 => { for _ in 1..nodes { b.enter_node(); } for _ in 1..nodes { b.leave_node(); } }        // a path
        1 => { for _ in 1..nodes { b.enter_node(); b.leave_node(); } }                               // a star
        2 => { let mut d = 1usize; for _ in 1..nodes { while d > 1 && r.chance(1, 2) { b.leave_node(); d -= 1; } b.enter_node(); d += 1; } for _ in 1..d { b.leave_node(); } }
        3 => { for _ in 0..nodes / 2 { b.enter_node(); b.enter_node(); b.leave_node(); } for _ in 0..nodes / 2 { b.leave_node(); } }   // a comb
        _ => { let h = nodes / 4; for _ in 0..h { b.enter_node(); } for _ in 0..h { b.leave_node(); } for _ in 0..h { b.enter_node(); b.leave_node(); } for _ in 0..h { b.enter_node(); } for _ in 0..h { b.leave_node(); } }
    }
    b.leave_node();
    let t = b.build().ok().unwrap();
    let bv: BitVec = t.clone().into();
    let n = bv.len();
    l.build("tree", n, B);
    let t = l.w("build", n, || BpTree::<B>::from_bit_vector(bv));
    let size = t.size();
    for i in spots(size, r, 10) {
        let v = l.w("query", 0, || t.node_handle(i));
        l.w("query", 0, || t.node_index(v));
        l.w("query", 0, || t.parent(v));
        l.w("query", 0, || t.first_child(v));
        l.w("query", 0, || t.last_child(v));
        l.w("query", 0, || t.next_sibling(v));
        l.w("query", 0, || t.previous_sibling(v));
        l.w("query", 0, || t.is_leaf(v));
        let d = l.w("query", 0, || t.depth(v));
        l.w("query", 0, || t.subtree_size(v));
        l.w("query", 0, || t.is_ancestor(0, v));
        let c = l.w("query", 0, || t.close(v));
        l.w("query", 0, || t.open(c.unwrap_or(0)));
        l.w("query", 0, || t.enclose(v));
        l.w("query", 0, || t.excess(v));
        for a in [1, d / 2, d, d + 1] { l.w("query", 0, || t.level_ancestor(v, a)); l.w("query", 0, || t.level_leftmost(a)); l.w("query", 0, || t.level_rightmost(a)); }
        l.w("query", 0, || t.level_next(v));
        l.w("query", 0, || t.level_prev(v));
        for e in [-(d as i64), 1, 5, -3, 1000, n as i64, -(n as i64)] { l.w("query", 0, || t.fwd_search(v, e)); l.w("query", 0, || t.bwd_search(v, e)); }
        l.w("query", 0, || { let mut c = t.children(v); (c.next(), c.next()) });
        l.w("query", 0, || { let mut c = t.rev_children(v); (c.next(), c.next()) });
    }
    l.w("walk", size.min(WALK), || t.dfs_iter().take(WALK).fold(0, |a, x| a ^ x));
    l.w("walk", size.min(WALK), || t.dfs_post_iter().take(WALK).fold(0, |a, x| a ^ x));
    l.w("walk", size.min(WALK), || t.subtree_iter(0).take(WALK).fold(0, |a, x| a ^ x));
}

fn sorted(n: usize, style: usize, r: &mut Rng) -> Vec<u64> {
    let mut v: Vec<u64> = match style {
        0 => (0..n).map(|_| r.next() >> 10).collect(),
        1 => (0..n as u64).map(|i| 1000 + 3 * i).collect(),
        2 => (0..n as u64).map(|i| if i + 3 > n as u64 { u64::MAX - i } else { 2 * i }).collect(),      // dense, and a few far away
        3 => (0..n as u64).map(|i| i / 5000).collect(),                                                 // long runs of equal values
        4 => (0..n as u64).map(|i| (i % 7) * (1 << 55) + i).collect(),                                  // clusters
        _ => { let mut v = vec![7u64; n]; v[n - 1] = 1 << 40; v }
    };
    v.sort_unstable();
    v
}

fn child(part: usize, out: &str, seed: u64, thorough: bool) {
    let mut l = Log(String::new());
    let mut r = Rng::new(seed);
    if part == 0 { bits(&mut l, &mut r, thorough) } else { others(part, &mut l, &mut r, thorough) }
    std::fs::File::create(out).unwrap().write_all(l.0.as_bytes()).unwrap();
}
fn bits(l: &mut Log, r: &mut Rng, thorough: bool) {
    let mut sizes = vec![10_000usize, 300_000, 30_000_000];
    if thorough { sizes.extend([1 << 16, 1_000_003, 100_000_000]); }
    for &n in &sizes {
        let half = Bits::random(n, 1, 2, r);
        rsvec(l, &half, r);
        let few = Bits::from_fn(n, |i| i % 6000 == 17);
        rsvec(l, &few, r);
        if n < 1_000_000 || thorough { rsvec(l, &few.not(), r); }
        let rare = Bits::from_fn(n, |i| i % (n / 7) == 99);
        rsvec(l, &rare, r);
        rsvec(l, &rare.not(), r);
        // dense ends, nothing in between
        let ends = Bits::from_fn(n, |i| (i < n / 20 || i > n - n / 20) && i % 3 > 0);
        rsvec(l, &ends, r);
    }
}
fn others(part: usize, l: &mut Log, r: &mut Rng, thorough: bool) {
    let mut sizes = vec![2_000usize, 60_000, 1_000_000];
    if thorough { sizes.extend([1 << 16, 3_000_000]); }
    for &n in &sizes {
        if part == 2 { for shape in 0..5 { tree::<512>(l, shape, n, r); } continue; }
        if part == 3 { for shape in 0..5 { tree::<64>(l, shape, n, r); } continue; }
        if part == 1 { for style in 0..6 { let v = sorted(n, style, r); ef(l, &v, r); } }
        let up: Vec<u64> = (0..n as u64).collect();
        let down: Vec<u64> = up.iter().rev().copied().collect();
        let any: Vec<u64> = (0..n).map(|_| r.next()).collect();
        if part == 1 { for v in [&up, &down, &any, &vec![5; n]] { rmq(l, v, r); } continue; }
        for k in [3usize, 10, 64] {
            if n * k > 10_000_000 { continue; }
            let v: Vec<u64> = any.iter().map(|x| x >> (64 - k)).collect();
            wavelet(l, &v, k, r);
            let v: Vec<u64> = (0..n as u64).map(|i| u64::from(i % 1000 == 0)).collect();
            wavelet(l, &v, k, r);
        }
    }
}

const PARTS: usize = 5;

fn main() {
    let a = args();
    if let Some(p) = a.cmd.strip_prefix("child") { child(p.parse().unwrap(), &a.out, a.seed, a.thorough); return; }
    let mut t = T::start(&a);
    let me = std::env::current_exe().unwrap();
    let (list, counts) = (|k: usize| format!("{}.{k}.list", a.out), |k: usize| format!("{}.{k}.counts", a.out));
    let mut ps: Vec<_> = (0..PARTS).map(|k| {
        let mut c = std::process::Command::new("valgrind");
        c.args(["--tool=callgrind", "--combine-dumps=yes", "--dump-instr=no", "--dump-line=no", "--quiet", &format!("--callgrind-out-file={}", counts(k))])
            .arg(&me).args([&format!("child{k}"), &list(k), "--seed", &a.seed.to_string()])
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        if a.thorough { c.arg("--thorough"); }
        c.spawn().expect("valgrind")
    }).collect();
    let limit = if a.thorough { 2000 } else { 250 };
    let from = std::time::Instant::now();
    for k in 0..PARTS {
        let status = loop {
            beat();
            if let Some(s) = ps[k].try_wait().unwrap() { break Some(s); }
            if from.elapsed().as_secs() > limit { break None; }
            std::thread::sleep(std::time::Duration::from_millis(100));
        };
        if !status.is_some_and(|s| s.success()) {
            for p in &mut ps { let _ = p.kill(); let _ = p.wait(); }
            t.episode("work");
            t.ev(if status.is_none() { "Hang" } else { "Crash" }).done();
            return;
        }
    }
    for k in 0..PARTS {
        let counts = std::fs::read_to_string(counts(k)).unwrap();
        let mut costs = counts.lines().filter_map(|x| x.strip_prefix("summary: ")).map(|x| x.trim().parse::<i64>().unwrap());
        for line in std::fs::read_to_string(list(k)).unwrap().lines() {
            let f: Vec<&str> = line.split(' ').collect();
            let i = |k: usize| f[k].parse::<i64>().unwrap();
            if f[0] == "B" {
                t.episode(&format!("{} n{} k{}", f[1], f[2], f[3]));
                t.ev("Build").st("kind", f[1]).i("n", i(2)).i("k", i(3)).done();
            } else {
                t.ev("Work").st("q", f[1]).i("m", i(2)).i("c", costs.next().unwrap().min(CAP)).done();
            }
        }
    }
}
