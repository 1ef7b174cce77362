//! Parenthesis strings, the tables describing them (certificates, validated by the
//! specification) and observations of balanced parenthesis trees.
use crate::*;
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree};
use vers_vecs::{BitVec, BpTree};

pub struct Par {
    pub b: Vec<i64>,
    pub e: Vec<i64>,
    pub top: Vec<i64>,
    pub cl: Vec<i64>,
    pub nodes: Vec<usize>,
}
impl Par {
    pub fn new(b: &[bool]) -> Par {
        let n = b.len();
        let mut e = vec![0i64];
        let mut top = vec![-1i64];
        let mut cl = vec![-1i64; n];
        let mut st: Vec<usize> = Vec::new();
        for i in 0..n {
            e.push(e[i] + if b[i] { 1 } else { -1 });
            if b[i] { st.push(i) } else if let Some(o) = st.pop() { cl[o] = i as i64; }
            top.push(st.last().map_or(-1, |&x| x as i64));
        }
        Par { b: b.iter().map(|&x| i64::from(x)).collect(), e, top, cl, nodes: (0..n).filter(|&i| b[i]).collect() }
    }
    pub fn n(&self) -> usize { self.b.len() }
    pub fn size(&self, i: usize) -> usize { (self.cl[i] as usize + 1 - i) / 2 }
    pub fn kids(&self, i: usize) -> usize {
        let (mut j, mut k) = (i + 1, 0);
        while self.b[j] == 1 { k += 1; j = self.cl[j] as usize + 1; }
        k
    }
    pub fn is_tree(&self) -> bool { let n = self.n(); n > 0 && self.e[n] == 0 && self.e[1..n].iter().all(|&x| x > 0) }
    pub fn bits(&self) -> Bits { Bits::from_fn(self.n(), |i| self.b[i] == 1) }
    pub fn ev_build(&self, t: &mut T, bs: usize) { t.ev("Build").a("b", &self.b).i("bs", bs as i64).done(); }
    pub fn ev_excess(&self, t: &mut T) {
        let lo = *self.e.iter().min().unwrap();
        let hi = *self.e.iter().max().unwrap();
        let mut lv = vec![Vec::new(); (hi - lo + 1) as usize];
        for (i, x) in self.e.iter().enumerate() { lv[(x - lo) as usize].push(i as i64); }
        t.ev("Excess").i("lo", lo).a("e", &self.e).aa("levels", &lv).cost(self.n() as u64 * 20).done();
    }
    pub fn ev_match(&self, t: &mut T) { t.ev("Match").a("top", &self.top).a("cl", &self.cl).cost(self.n() as u64 * 20).done(); }
    pub fn ev_tree(&self, t: &mut T) {
        let mut ix = vec![0i64; self.n()];
        for (k, &p) in self.nodes.iter().enumerate() { ix[p] = k as i64 + 1; }
        let mut kids = vec![Vec::new(); self.nodes.len()];
        for &p in &self.nodes { if self.top[p] >= 0 { kids[ix[self.top[p] as usize] as usize - 1].push(p as i64); } }
        let nd: Vec<i64> = self.nodes.iter().map(|&x| x as i64).collect();
        t.ev("Tree").a("nodes", &nd).a("ix", &ix).aa("kids", &kids).cost(self.n() as u64 * 20).done();
    }
    pub fn ev_levels(&self, t: &mut T) -> usize {
        let d: Vec<i64> = self.nodes.iter().map(|&x| self.e[x]).collect();
        let mut lv = vec![Vec::new(); (*d.iter().max().unwrap_or(&-1) + 1) as usize];
        for (k, &x) in d.iter().enumerate() { lv[x as usize].push(self.nodes[k] as i64); }
        t.ev("Levels").a("d", &d).aa("lv", &lv).cost(self.n() as u64 * 20).done();
        lv.len()
    }
}

/// all strings of length 0..=l
pub fn strings(l: usize) -> Vec<Vec<bool>> {
    let mut v = Vec::new();
    for n in 0..=l { for c in 0..1u64 << n { v.push((0..n).map(|i| c >> i & 1 == 1).collect()); } }
    v
}
/// all single-rooted trees with at most m nodes
pub fn trees(m: usize) -> Vec<Vec<bool>> {
    let mut v = Vec::new();
    for k in 1..=m {
        let n = 2 * k - 2;
        for c in 0..1u64 << n {
            let mut b = vec![true];
            b.extend((0..n).map(|i| c >> i & 1 == 1));
            b.push(false);
            if Par::new(&b).is_tree() { v.push(b); }
        }
    }
    v
}

pub const TSHAPES: usize = 11;
/// a tree with m nodes
pub fn tree(r: &mut Rng, m: usize, shape: usize) -> Vec<bool> {
    // parent choice by depth: build as a sequence of depths
    let mut b: Vec<bool> = Vec::with_capacity(2 * m);
    let mut depth = 0i64; // open parentheses
    let mut left = m;
    let period = r.range(2, 60);
    let mut k = 0usize;
    while left > 0 || depth > 0 {
        let go = if left == 0 { false } else if depth <= 1 { true } else {
            match shape {
                0 => true,                                       // path
                1 => depth < 2,                                  // star
                2 => r.chance(1, 2),                             // random walk
                3 => r.chance(2, 3),                             // deep
                4 => r.chance(2, 5),                             // flat
                5 => (k / period) % 2 == 0,                      // zigzag
                6 => depth < (period as i64),                    // broom: depth-limited
                7 => if (k / 200) % 2 == 0 { r.chance(4, 5) } else { r.chance(1, 4) },
                8 => left > m / 2 || (left % 7 != 0 && r.chance(1, 2)),   // long spine, then bushes
                9 => !(k % 3 == 2),                              // caterpillar
                _ => if depth > 20 { r.chance(1, 3) } else { r.chance(3, 5) },
            }
        };
        if go { b.push(true); depth += 1; left -= 1; } else { b.push(false); depth -= 1; if depth == 0 && left > 0 { b.pop(); depth = 1; b.push(true); depth += 1; left -= 1; } }
        k += 1;
    }
    b
}
pub const USHAPES: usize = 10;
/// an arbitrary parenthesis string
pub fn any(r: &mut Rng, n: usize, shape: usize) -> Vec<bool> {
    match shape {
        0 => (0..n).map(|_| r.chance(1, 2)).collect(),
        1 => vec![true; n],
        2 => vec![false; n],
        3 => (0..n).map(|i| i % 2 == 0).collect(),
        4 => (0..n).map(|i| i % 2 == 1).collect(),
        5 => (0..n).map(|i| i < n / 2).collect(),
        6 => (0..n).map(|i| i >= n / 2).collect(),
        7 => { let p = r.range(1, 80); (0..n).map(|i| (i / p) % 2 == 0).collect() }
        8 => { let mut v = Vec::new(); while v.len() < n { let x = r.chance(1, 2); for _ in 0..r.range(1, 40) { v.push(x); } } v.truncate(n); v }
        _ => { let mut v: Vec<bool> = tree(r, n / 2 + 1, 2); v.truncate(n); if n > 0 { let p = r.below(n); v[p] = !v[p]; } v }
    }
}

pub const SIZES: [usize; 16] = [1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 24, 32, 64, 100, 512, 1024];
#[macro_export]
macro_rules! with_block {
    ($bs:expr, $f:ident ( $($a:expr),* )) => {
        match $bs {
            1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*), 5 => $f::<5>($($a),*),
            7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*), 12 => $f::<12>($($a),*), 16 => $f::<16>($($a),*),
            20 => $f::<20>($($a),*), 24 => $f::<24>($($a),*), 32 => $f::<32>($($a),*), 64 => $f::<64>($($a),*),
            100 => $f::<100>($($a),*), 512 => $f::<512>($($a),*), 1024 => $f::<1024>($($a),*),
            x => panic!("{x}"),
        }
    };
}

pub fn build<const B: usize>(t: &mut T, name: &str, p: &Par, how: usize, r: &mut Rng) -> Option<BpTree<B>> {
    t.episode(name);
    p.ev_build(t, B);
    let b = p.bits();
    let x = call(|| { let bv: BitVec = make(&b, how, r); if how % 2 == 0 { BpTree::<B>::from_bit_vector(bv) } else { BpTree::<B>::from(bv) } });
    match x { Ok(x) => Some(x), Err(()) => { t.ev("BuildPanic").done(); None } }
}

fn sample(n: usize, m: usize, r: &mut Rng) -> Vec<usize> {
    if n <= m { (0..n).collect() } else {
        let mut v: Vec<usize> = (0..m).map(|i| match i % 4 { 0 => r.below(n), 1 => i / 4, 2 => n - 1 - i / 4, _ => (r.below(n) / 8 * 8 + r.below(3)).min(n - 1) }).collect();
        v.sort_unstable(); v.dedup(); v
    }
}
fn far(n: usize) -> [usize; 7] { [n, n + 1, n + 7, n + 600, 1 << 33, 1 << 63, usize::MAX] }
fn caps(v: &[usize]) -> Vec<i64> { v.iter().map(|&x| cap(x)).collect() }
fn pairs(v: &[usize], f: impl Fn(usize) -> i64) -> Vec<Vec<i64>> { v.iter().map(|&i| vec![cap(i), f(i)]).collect() }

/// C19
pub fn search<const B: usize>(t: &mut T, x: &BpTree<B>, p: &Par, r: &mut Rng, mode: u8) {
    let n = p.n();
    p.ev_excess(t);
    p.ev_match(t);
    let m = match mode { 2 => 100_000, 1 => 500, _ => 300 };
    let mut is = sample(n, m, r);
    let fa = far(n);
    is.extend(fa);
    let ic = caps(&is);
    let exc: Vec<i64> = is.iter().map(|&i| call(|| x.excess(i)).map_or(CAP, |v| v.clamp(-CAP, CAP))).collect();
    t.ev("Exc").a("is", &ic).a("r", &exc).done();
    let span = p.e.iter().max().unwrap() - p.e.iter().min().unwrap();
    let mut rels: Vec<i64> = vec![-2, -1, 0, 1, 2];
    if mode == 2 && span <= 12 { rels = (-span - 1..=span + 1).collect(); } else {
        rels.extend([-3, 3, span, -span, span / 2, -span / 2, span + 1]);
        for _ in 0..if mode == 2 { 6 } else { 3 } { rels.push(r.below(2 * span as usize + 1) as i64 - span); }
        rels.sort_unstable();
        rels.dedup();
    }
    rels.extend([i64::MAX, i64::MIN, i64::MIN + 1, 1 << 40, -(1 << 40)]);
    for rel in rels {
        let js: Vec<usize> = if rel.abs_diff(0) > span as u64 + 1 { sample(n, 20, r) } else if mode == 0 { let mut s = sample(n, 250, r); s.extend(fa); s } else { is.clone() };
        let jc = caps(&js);
        let rc = rel.clamp(-CAP, CAP);
        let f: Vec<i64> = js.iter().map(|&i| ro(|| x.fwd_search(i, rel))).collect();
        t.ev("Fwd").i("rel", rc).a("is", &jc).a("r", &f).cost(js.len() as u64 * 30).done();
        let f: Vec<i64> = js.iter().map(|&i| ro(|| x.bwd_search(i, rel))).collect();
        t.ev("Bwd").i("rel", rc).a("is", &jc).a("r", &f).cost(js.len() as u64 * 30).done();
    }
    let s = sample(n, if mode == 0 { 2000 } else { m }, r);
    let (o, c): (Vec<usize>, Vec<usize>) = s.iter().partition(|&&i| p.b[i] == 1);
    t.ev("Close").aa("q", &pairs(&o, |i| ro(|| x.close(i)))).done();
    t.ev("Open").aa("q", &pairs(&c, |i| ro(|| x.open(i)))).done();
    t.ev("Enclose").aa("q", &pairs(&s, |i| ro(|| x.enclose(i)))).done();
    for f in [|x: &BpTree<B>, i| x.close(i), |x: &BpTree<B>, i| x.open(i), |x: &BpTree<B>, i| x.enclose(i)] {
        t.ev("Past").aa("q", &pairs(&fa, |i| ro(|| f(x, i)))).done();
    }
    // "meaningless" combinations must still not panic
    let mut v: Vec<i64> = c.iter().take(100).map(|&i| ro(|| x.close(i))).collect();
    v.extend(o.iter().take(100).map(|&i| ro(|| x.open(i))));
    t.ev("Total").a("rs", &v).done();
}

fn shape<const B: usize>(t: &mut T, x: &BpTree<B>) {
    t.ev("Shape").i("size", ru(|| x.size())).i("empty", rb(|| x.is_empty())).i("root", ro(|| x.root())).done();
}
fn row(t: &mut T, op: &str, p: &Par, f: impl Fn(usize) -> i64) {
    let v: Vec<i64> = p.nodes.iter().map(|&i| f(i)).collect();
    t.ev(op).a("r", &v).cost(p.n() as u64 * 10).done();
}
fn list(f: impl FnOnce() -> Vec<usize>) -> Vec<i64> { call(f).map_or(vec![PANIC], |v| caps(&v)) }

/// One walk over an iterator: after k calls of next, what it says about the rest, and what it then does.
/// Row: x, k, lower and upper size hint, count of the rest, nth(k) of a fresh one, last of a fresh one, next after the end (twice).
fn walk<I: Iterator<Item = usize>>(x: usize, k: usize, f: impl Fn() -> I) -> Vec<i64> {
    let adv = |k: usize| { let mut it = f(); for _ in 0..k { it.next(); } it };
    let end = |m: usize| { let mut it = f(); while it.next().is_some() {} for _ in 1..m { it.next(); } it.next() };
    vec![x as i64, k as i64, ru(|| adv(k).size_hint().0), ro(|| adv(k).size_hint().1), ru(|| adv(k).count()), ro(|| f().nth(k)), ro(|| f().last()), ro(|| end(1)), ro(|| end(2))]
}
fn walks<I: Iterator<Item = usize>>(t: &mut T, kind: &str, xs: &[usize], m: impl Fn(usize) -> usize, r: &mut Rng, f: impl Fn(usize) -> I) {
    let mut q: Vec<Vec<i64>> = vec![];
    for &x in xs {
        let m = m(x);
        let mut ks = vec![0, 1, m / 2, m.saturating_sub(1), m, m + 1];
        ks.push(r.below(m + 1));
        ks.sort_unstable();
        ks.dedup();
        for k in ks { q.push(walk(x, k, || f(x))); }
    }
    t.ev("Walk").st("kind", kind).aa("q", &q).done();
}

/// C20
pub fn navigate<const B: usize>(t: &mut T, x: &BpTree<B>, p: &Par) {
    shape(t, x);
    if !p.is_tree() {
        p.ev_excess(t);
        t.ev("DepthU").aa("q", &pairs(&p.nodes, |i| ru64(|| x.depth(i)))).done();
        return;
    }
    p.ev_excess(t);
    p.ev_match(t);
    p.ev_tree(t);
    row(t, "Parents", p, |i| ro(|| x.parent(i)));
    row(t, "FirstChildren", p, |i| ro(|| x.first_child(i)));
    row(t, "LastChildren", p, |i| ro(|| x.last_child(i)));
    row(t, "NextSiblings", p, |i| ro(|| x.next_sibling(i)));
    row(t, "PrevSiblings", p, |i| ro(|| x.previous_sibling(i)));
    row(t, "Leaves", p, |i| rb(|| x.is_leaf(i)));
    row(t, "Depths", p, |i| ru64(|| x.depth(i)));
    row(t, "NodeIndices", p, |i| ru(|| x.node_index(i)));
    let v: Vec<i64> = (0..p.nodes.len()).map(|k| ru(|| x.node_handle(k))).collect();
    t.ev("NodeHandles").a("r", &v).done();
    let v: Vec<Vec<i64>> = p.nodes.iter().map(|&i| list(|| x.children(i).take(2 * p.n() + 2).collect())).collect();
    t.ev("Children").aa("r", &v).cost(p.n() as u64 * 10).done();
    let v: Vec<Vec<i64>> = p.nodes.iter().map(|&i| list(|| x.rev_children(i).take(2 * p.n() + 2).collect())).collect();
    t.ev("RevChildren").aa("r", &v).cost(p.n() as u64 * 10).done();
    let r = &mut Rng::new(p.n() as u64);
    let deg = |i: usize| p.kids(i);
    let mut xs: Vec<usize> = if p.nodes.len() <= 12 { p.nodes.clone() } else { (0..10).map(|_| *r.pick(&p.nodes)).collect() };
    xs.push(0);
    xs.retain(|&i| deg(i) <= 5000);
    walks(t, "kids", &xs, deg, r, |i| x.children(i));
    walks(t, "rkids", &xs, deg, r, |i| x.rev_children(i));
}

/// C21
pub fn levels<const B: usize>(t: &mut T, x: &BpTree<B>, p: &Par, r: &mut Rng, full: bool) {
    let n = p.n();
    let clone_into = |t: &mut T| { let v = list(|| x.clone().into_iter().collect()); t.ev("Pre").a("r", &v).done(); };
    for k in 0..2 {
        let v = list(|| if k == 0 { x.iter().collect() } else { x.dfs_iter().collect() });
        t.ev("Pre").a("r", &v).done();
    }
    clone_into(t);
    if !p.is_tree() {
        p.ev_match(t);
        t.ev("SizeU").aa("q", &pairs(&p.nodes, |i| ro(|| x.subtree_size(i)))).done();
        let m = p.nodes.len();
        let q: Vec<Vec<i64>> = (0..if full { m * m } else { 300.min(m * m) }).map(|k| if full { (p.nodes[k / m], p.nodes[k % m]) } else { (p.nodes[r.below(m)], p.nodes[r.below(m)]) })
            .map(|(a, d)| vec![a as i64, d as i64, rob(|| x.is_ancestor(a, d))]).collect();
        t.ev("AncU").aa("q", &q).done();
        if n == 0 {
            let v = [0u64, 1, 2, 100, u64::MAX / 2].iter().flat_map(|&l| [ro(|| x.level_leftmost(l)), ro(|| x.level_rightmost(l))]).map(|z| vec![0, z]).collect::<Vec<_>>();
            t.ev("Past").aa("q", &v).done();
        }
        return;
    }
    p.ev_excess(t);
    p.ev_match(t);
    p.ev_tree(t);
    let h = p.ev_levels(t);
    row(t, "Sizes", p, |i| ro(|| x.subtree_size(i)));
    row(t, "LevelNext", p, |i| ro(|| x.level_next(i)));
    row(t, "LevelPrev", p, |i| ro(|| x.level_prev(i)));
    let mut ls: Vec<u64> = if h <= 300 { (0..h as u64 + 3).collect() } else { (0..200).map(|i| if i < 20 { i } else if i < 40 { h as u64 + 2 - (i - 20) } else { r.below(h) as u64 }).collect() };
    ls.extend([n as u64, 2 * n as u64, 1 << 40, i64::MAX as u64]);
    let q: Vec<Vec<i64>> = ls.iter().map(|&l| vec![cap64(l), ro(|| x.level_leftmost(l)), ro(|| x.level_rightmost(l))]).collect();
    t.ev("LevelMost").aa("q", &q).done();
    let m = p.nodes.len();
    let pick: Vec<usize> = if full { (0..m).collect() } else { let mut v: Vec<usize> = (0..if m > 3000 { 4 } else { 12 }).map(|_| r.below(m)).collect(); v.push(0); v.push(m - 1); v };
    for &k in &pick {
        let a = p.nodes[k];
        let v: Vec<i64> = p.nodes.iter().map(|&d| rob(|| x.is_ancestor(a, d))).collect();
        t.ev("AncRow").i("a", a as i64).a("r", &v).cost(m as u64 * 10).done();
        let d = p.e[a] as u64;
        let v: Vec<i64> = (0..d + 3).map(|l| ro(|| x.level_ancestor(a, l))).collect();
        t.ev("AncChain").i("x", a as i64).a("r", &v).cost(d * 10).done();
        let v = list(|| x.subtree_iter(a).collect());
        t.ev("SubPre").i("x", a as i64).a("r", &v).cost(v.len() as u64 * 10).done();
        let v = list(|| x.subtree_post_iter(a).collect());
        t.ev("SubPost").i("x", a as i64).a("r", &v).cost(v.len() as u64 * 20).done();
    }
    let v = list(|| x.dfs_post_iter().collect());
    t.ev("SubPost").i("x", 0).a("r", &v).cost(v.len() as u64 * 20).done();
    let q: Vec<Vec<i64>> = (0..if full { 20 } else { 300 }).map(|k| {
        let a = p.nodes[r.below(m)];
        let d = p.e[a] as u64;
        let l = match k % 5 { 0 => d, 1 => d + 1, 2 => *r.pick(&[1 << 20, 1 << 40, i64::MAX as u64, 1 << 62]), _ => r.below(d as usize + 1) as u64 };
        vec![a as i64, cap64(l), ro(|| x.level_ancestor(a, l))]
    }).collect();
    t.ev("AncPts").aa("q", &q).done();
    let mut xs: Vec<usize> = pick.iter().map(|&k| p.nodes[k]).filter(|&i| p.size(i) <= 3000).take(12).collect();
    walks(t, "pre", &xs, |i| p.size(i), r, |i| x.subtree_iter(i));
    walks(t, "post", &xs, |i| p.size(i), r, |i| x.subtree_post_iter(i));
    xs = vec![0];
    if m <= 3000 {
        walks(t, "pre", &xs, |i| p.size(i), r, |_| x.iter());
        walks(t, "pre", &xs, |i| p.size(i), r, |_| x.dfs_iter());
        walks(t, "pre", &xs, |i| p.size(i), r, |_| x.clone().into_iter());
        walks(t, "post", &xs, |i| p.size(i), r, |_| x.dfs_post_iter());
    }
}

/// C24: every checked operation with extreme arguments
pub fn extreme<const B: usize>(t: &mut T, x: &BpTree<B>, p: &Par, r: &mut Rng) {
    let n = p.n();
    p.ev_excess(t);
    shape(t, x);
    let ex = crate::obs::extremes(n);
    let ec = caps(&ex);
    let exc: Vec<i64> = ex.iter().map(|&i| call(|| x.excess(i)).map_or(CAP, |v| v.clamp(-CAP, CAP))).collect();
    t.ev("Exc").a("is", &ec).a("r", &exc).done();
    let mut rels: Vec<i64> = vec![-1, 0, 1, n as i64, -(n as i64), i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1];
    for b in [31, 32, 40, 61, 62] { rels.extend([1i64 << b, -(1i64 << b), (1i64 << b) - 1]); }
    for d in [2i64, 8, 64, n as i64 + 1] { rels.extend([i64::MAX - d, i64::MIN + d]); }
    for rel in rels {
        let rc = rel.clamp(-CAP, CAP);
        let f: Vec<i64> = ex.iter().map(|&i| ro(|| x.fwd_search(i, rel))).collect();
        t.ev("Fwd").i("rel", rc).a("is", &ec).a("r", &f).done();
        let f: Vec<i64> = ex.iter().map(|&i| ro(|| x.bwd_search(i, rel))).collect();
        t.ev("Bwd").i("rel", rc).a("is", &ec).a("r", &f).done();
    }
    let far: Vec<usize> = ex.iter().copied().filter(|&i| i >= n).collect();
    for f in [|x: &BpTree<B>, i| x.close(i), |x: &BpTree<B>, i| x.open(i), |x: &BpTree<B>, i| x.enclose(i)] {
        t.ev("Past").aa("q", &pairs(&far, |i| ro(|| f(x, i)))).done();
    }
    let lvl: Vec<u64> = ex.iter().map(|&i| i as u64).filter(|&i| i <= i64::MAX as u64).collect();
    if n == 0 {
        let q: Vec<Vec<i64>> = lvl.iter().flat_map(|&l| [vec![0, ro(|| x.level_leftmost(l))], vec![0, ro(|| x.level_rightmost(l))]]).collect();
        t.ev("Past").aa("q", &q).done();
        for _ in 0..3 { let v = list(|| x.iter().collect()); t.ev("Pre").a("r", &v).done(); }
    }
    if p.is_tree() {
        p.ev_match(t);
        p.ev_tree(t);
        p.ev_levels(t);
        let q: Vec<Vec<i64>> = lvl.iter().map(|&l| vec![cap64(l), ro(|| x.level_leftmost(l)), ro(|| x.level_rightmost(l))]).collect();
        t.ev("LevelMost").aa("q", &q).done();
        let q: Vec<Vec<i64>> = lvl.iter().flat_map(|&l| { let a = *r.pick(&p.nodes); [a, p.nodes[0], p.nodes[p.nodes.len() - 1]].map(|a| vec![a as i64, cap64(l), ro(|| x.level_ancestor(a, l))]) }).collect();
        t.ev("AncPts").aa("q", &q).done();
    }
}
