//! C19 searches and matching, C20 navigation, C21 levels and traversals, C22 builder.
use vers_vecs::trees::{Tree, TreeBuilder};
use vers_vecs::{BitVec, BpBuilder};
use vharness::{bpobs::*, with_block, *};

fn one<const B: usize>(t: &mut T, cmd: &str, name: &str, b: &[bool], mode: u8, how: usize, r: &mut Rng) {
    let p = Par::new(b);
    let Some(x) = build::<B>(t, name, &p, how, r) else { return };
    match cmd {
        "c19" => search(t, &x, &p, r, mode),
        "c20" => navigate(t, &x, &p),
        "c21" => levels(t, &x, &p, r, mode == 2),
        "c24" => extreme(t, &x, &p, r),
        y => panic!("{y}"),
    }
}

fn builder<const B: usize>(t: &mut T, name: &str, cs: &[bool], k: usize, r: &mut Rng) {
    t.episode(name);
    let v: Vec<i64> = cs.iter().map(|&x| i64::from(x)).collect();
    // calls in a few batches
    let mut i = 0;
    while i < v.len() { let j = (i + r.range(1, v.len())).min(v.len()); t.ev("Calls").a("cs", &v[i..j]).done(); i = j; }
    let res = call(|| {
        let mut bld = match k % 3 { 0 => BpBuilder::<B>::new(), 1 => BpBuilder::<B>::with_capacity(r.below(cs.len() + 2) as u64), _ => BpBuilder::<B>::default() };
        for &c in cs { if c { bld.enter_node() } else { bld.leave_node() } }
        bld.build().map(|tree| {
            let size = tree.size();
            let bv: BitVec = if k % 2 == 0 { tree.into() } else { tree.into_parentheses_vec().into_bit_vec() };
            (size, bv.iter().map(|x| x as i64).collect::<Vec<_>>())
        })
    });
    match res {
        Ok(Ok((s, b))) => t.ev("Built").i("ok", 1).i("err", 0).i("size", s as i64).a("bits", &b).cost(v.len() as u64 * 20).done(),
        Ok(Err(e)) => t.ev("Built").i("ok", 0).i("err", e.clamp(-CAP, CAP)).i("size", 0).a("bits", &[]).done(),
        Err(()) => t.ev("BuildPanic").done(),
    }
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    if a.cmd.ends_with("big") { big(&a, &mut t, &mut r); return; }
    if a.cmd == "c22" {
        let txt = std::fs::read_to_string(a.input.as_ref().unwrap()).unwrap();
        for (k, line) in txt.lines().enumerate() {
            let cs: Vec<bool> = line.trim_matches(|c| c == '[' || c == ']').split(',').filter(|s| !s.is_empty()).map(|s| s.trim() == "1").collect();
            let bs = SIZES[k % SIZES.len()];
            with_block!(bs, builder(&mut t, "gen", &cs, k, &mut r));
        }
        let reps = if a.thorough { 30 } else { 4 };
        for k in 0..reps * 40 {
            let n = *r.pick(&[20usize, 63, 64, 65, 127, 128, 129, 200, 512, 513, 1000, 3000]);
            let cs = if k % 2 == 0 { tree(&mut r, n / 2, k % TSHAPES) } else { any(&mut r, n, k % USHAPES) };
            let bs = *r.pick(&SIZES);
            with_block!(bs, builder(&mut t, "long", &cs, k, &mut r));
        }
        // depths and deficits beyond 16-bit counters
        for (k, m) in [33_000usize, 66_000, 66_000].into_iter().enumerate() {
            let mut cs = tree(&mut r, m, [0, 8, 0][k]);
            if k == 2 { cs.truncate(m + 300); }
            builder::<512>(&mut t, "deep", &cs, k, &mut r);
        }
        let mut cs = any(&mut r, 40_000, 6);
        builder::<64>(&mut t, "deficit", &cs, 0, &mut r);
        cs.reverse();
        cs.extend(vec![true; 70_000]);
        builder::<64>(&mut t, "surplus", &cs, 1, &mut r);
        return;
    }
    if a.cmd == "c24" {
        for (k, b) in strings(if a.thorough { 6 } else { 4 }).iter().enumerate() { let bs = SIZES[k % SIZES.len()]; with_block!(bs, one(&mut t, "c24", "tiny", b, 2, k % HOWS, &mut r)); }
        for n in [7usize, 8, 9, 16, 63, 64, 65, 129, 511, 512, 513, 1100] {
            for sh in 0..USHAPES { if a.thorough || (sh + n) % 3 == 0 { let b = any(&mut r, n, sh); let bs = *r.pick(&SIZES); with_block!(bs, one(&mut t, "c24", "any", &b, 2, sh % HOWS, &mut r)); } }
            for sh in 0..TSHAPES { if a.thorough || (sh + n) % 3 == 0 { let b = tree(&mut r, n / 2 + 1, sh); let bs = *r.pick(&SIZES); with_block!(bs, one(&mut t, "c24", "tree", &b, 2, sh % HOWS, &mut r)); } }
        }
        return;
    }
    let mut jobs: Vec<(String, Vec<bool>, u8, usize)> = Vec::new();
    let th = a.thorough;
    if a.cmd == "c19" {
        for (k, b) in strings(if th { 10 } else { 7 }).into_iter().enumerate() { jobs.push(("tiny".into(), b, 2, [1, 2, 3, 4, 5, 8, 512][k % 7])); }
        for (j, n) in [9usize, 12, 15, 16, 17, 24, 31, 33, 40, 63, 64, 65, 80, 100, 130, 200, 260, 300].into_iter().enumerate() {
            for s in 0..if th { USHAPES } else { 3 } {
                let sh = if th { s } else { (j * 3 + s + r.below(2)) % USHAPES };
                jobs.push((format!("any n{n}s{sh}"), any(&mut r, n, sh), 2, *r.pick(&SIZES)));
            }
        }
        for n in [600usize, 1030, 2100, 5000] {
            for sh in 0..USHAPES { if th || (sh + n) % 3 == 0 { jobs.push((format!("any n{n}s{sh}"), any(&mut r, n, sh), 1, *r.pick(&SIZES))); } }
        }
    } else {
        for (k, b) in trees(if th { 8 } else { 6 }).into_iter().enumerate() { jobs.push(("tiny".into(), b, 2, [1, 2, 3, 4, 5, 8, 512][k % 7])); }
        for (k, b) in strings(if th { 8 } else { 5 }).into_iter().enumerate() { if !Par::new(&b).is_tree() { jobs.push(("unbalanced".into(), b, 2, SIZES[k % SIZES.len()])); } }
        for n in [20usize, 64, 200, 700] { for sh in 0..USHAPES { jobs.push((format!("any n{n}s{sh}"), any(&mut r, n, sh), 1, *r.pick(&SIZES))); } }
    }
    for (j, m) in [8usize, 16, 30, 50, 100, 150].into_iter().enumerate() {
        for s in 0..if th { TSHAPES } else { 4 } {
            let sh = if th { s } else { (j * 5 + s) % TSHAPES };
            jobs.push((format!("tree m{m}s{sh}"), tree(&mut r, m, sh), 2, *r.pick(&SIZES)));
        }
    }
    for m in [300usize, 520, 1100, 2500] {
        for sh in 0..TSHAPES { if th || (sh + m) % 3 != 0 { jobs.push((format!("tree m{m}s{sh}"), tree(&mut r, m, sh), 1, *r.pick(&SIZES))); } }
    }
    for (j, m) in [5_000usize, 9_000].into_iter().enumerate() {
        for sh in 0..TSHAPES { if th || sh % 4 == j { jobs.push((format!("tree m{m}s{sh}"), tree(&mut r, m, sh), 0, *r.pick(&[4, 8, 16, 64, 512, 1024]))); } }
    }
    // more parentheses, blocks and depth than 16 bits hold
    for (m, sh, bs) in if th { vec![(40_000usize, 0usize, 512usize), (70_000, 0, 1024), (140_000, 8, 2), (70_000, 2, 512), (70_000, 1, 64)] } else { vec![(34_000, 0, 512), (66_500, 8, 1024), (33_500, 2, 1), (66_000, 1, 64)] } {
        jobs.push((format!("huge m{m}s{sh}"), tree(&mut r, m, sh), 0, bs));
    }
    for (k, (name, b, mode, bs)) in jobs.iter().enumerate() {
        // 6 and 5 (splits) are slow or irrelevant for big strings
        let how = if b.len() > 2000 { 1 } else { k % HOWS };
        let name = format!("{name} B{bs}");
        with_block!(*bs, one(&mut t, &a.cmd, &name, b, *mode, how, &mut r));
    }
}

/// piecewise parenthesis strings of about n parentheses: (1, k) opens, (-1, k) closes, (0, k) is "()" k/2 times
fn pieces(r: &mut Rng, n: usize, style: usize, tree: bool) -> Vec<Vec<i64>> {
    let n = n as i64 / 2 * 2;
    let mut v: Vec<Vec<i64>> = Vec::new();
    let mut e = 0i64;
    let mut left = n;
    let mut put = |v: &mut Vec<Vec<i64>>, k: i64, len: i64, e: &mut i64, left: &mut i64| {
        let len = if k == 0 { len / 2 * 2 } else { len };
        if len > 0 { v.push(vec![k, len]); *e += k * len; *left -= len; }
    };
    put(&mut v, 1, 1 + i64::from(!tree) * r.below(3) as i64, &mut e, &mut left);
    match style {
        0 => put(&mut v, 1, n / 2 - 1, &mut e, &mut left),                       // path
        1 => put(&mut v, 0, left - e, &mut e, &mut left),                        // star
        2 => { let k = left / 5; put(&mut v, 1, k, &mut e, &mut left); let k = left - e; put(&mut v, 0, k, &mut e, &mut left); }   // broom
        3 => { // combs on a long spine, going up and coming down
            for k in 0..24 { let d = left / 60; put(&mut v, 1, d + r.below(5) as i64, &mut e, &mut left); if k % 3 > 0 { let z = r.below(900) as i64 * 2; put(&mut v, 0, z, &mut e, &mut left); } }
            for _ in 0..10 { let d = (e / 12).max(1); if e - d > 1 { put(&mut v, -1, d, &mut e, &mut left); } let z = r.below(70_000) as i64; put(&mut v, 0, z.min(left - e), &mut e, &mut left); }
        }
        4 => { // subtrees of equal depth far apart
            for _ in 0..40 { let d = left / 120 + 1; put(&mut v, 1, d, &mut e, &mut left); put(&mut v, -1, d, &mut e, &mut left); let z = (left - e) / 90; put(&mut v, 0, z, &mut e, &mut left); }
        }
        _ => while left - e > n / 50 {
            let len = 1 + match r.below(4) { 0 => r.below(4) as i64, 1 => r.below(700) as i64, _ => r.below(n as usize / 12) as i64 };
            match r.below(3) {
                0 => put(&mut v, 1, len.min((left - e) / 2), &mut e, &mut left),
                1 => { let m = if tree { e - 1 } else { len }; put(&mut v, -1, len.min(m).min(left), &mut e, &mut left) }
                _ => put(&mut v, 0, len.min(left - e), &mut e, &mut left),
            }
        },
    }
    if tree || style % 2 == 0 { let k = e; put(&mut v, -1, k, &mut e, &mut left); }
    v
}

fn big_one<const B: usize>(t: &mut T, cmd: &str, name: &str, ps: &[Vec<i64>], is_tree: bool, m: usize, r: &mut Rng) {
    use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize};
    use vers_vecs::BpTree;
    let n: i64 = ps.iter().map(|p| p[1]).sum();
    t.episode(name);
    t.ev("Build").aa("pieces", ps).done();
    let mut bits = Bits::zeros(n as usize);
    let mut st = vec![0i64];
    for p in ps {
        let s = *st.last().unwrap();
        for x in 0..p[1] { if p[0] == 1 || (p[0] == 0 && x % 2 == 0) { bits.set((s + x) as usize, true); } }
        st.push(s + p[1]);
    }
    let x = if cmd == "c22big" {
        // the same calls in the same order, counted in small and large batches
        let res = call(|| {
            let mut b = match n % 3 { 0 => BpBuilder::<B>::new(), 1 => BpBuilder::<B>::with_capacity(n as u64), _ => BpBuilder::<B>::with_capacity(3) };
            for i in 0..n as usize { if bits.get(i) { b.enter_node() } else { b.leave_node() } }
            b.build()
        });
        let (ok, err) = match &res { Ok(Ok(_)) => (1, 0), Ok(Err(e)) => (0, (*e).clamp(-CAP, CAP)), Err(()) => (PANIC, 0) };
        t.ev("Built").i("ok", ok).i("err", err).done();
        let Ok(Ok(x)) = res else { return };
        x
    } else {
        let bv = make_big(&bits, r);
        let Ok(x) = call(|| BpTree::<B>::from_bit_vector(bv)) else { t.ev("BuildPanic").done(); return };
        x
    };
    // interesting positions: around the ends of pieces, powers of two, block borders, anywhere
    let mut pos: Vec<i64> = Vec::new();
    for &s in &st { for d in [0i64, 1, 2, 3, B as i64, 511] { pos.push(s + d); pos.push(s - d); } }
    for _ in 0..40 { let s = *r.pick(&st); for k in 13..22 { pos.push(s - (1 << k) + r.below(3) as i64 - 1); pos.push(s - (1 << k)); } }
    for k in 9..27 { for d in [0i64, 1, 2] { pos.push((1 << k) + d); pos.push((1 << k) - d); pos.push(n - (1 << k) + d); } }
    for _ in 0..60 { pos.push(r.below(n as usize) as i64 / B as i64 * B as i64); }
    pos.retain(|&p| 0 <= p && p < n);
    pos.sort_unstable();
    pos.dedup();
    let pick = |r: &mut Rng| if r.chance(2, 3) { *r.pick(&pos) as usize } else { r.below(n as usize) };
    let node = |r: &mut Rng, b: bool| { let mut p = pick(r); for _ in 0..5000 { if bits.get(p) == b { break; } p = if r.chance(1, 200) { pick(r) } else { (p + 1) % n as usize }; } p };
    let qs = |t: &mut T, what: &str, v: Vec<Vec<i64>>| for c in v.chunks(250) { t.ev("Q").st("what", what).aa("q", c).cost(15_000).done(); };
    let i1 = |p: usize, v: i64| vec![p as i64, v];
    match cmd {
        "c19big" => {
            let ex: Vec<_> = (0..m).map(|_| { let p = pick(r); i1(p, call(|| x.excess(p)).map_or(CAP, |v| v.clamp(-CAP, CAP))) }).collect();
            qs(t, "excess", ex);
            let rels: Vec<i64> = (0..16).map(|k| match k % 4 { 0 => [-1, 0, 1, -2][k / 4], 1 => 1i64 << r.below(22), 2 => -(1i64 << r.below(22)), _ => r.below(n as usize) as i64 - n / 2 }).collect();
            let f: Vec<_> = (0..m * 2).map(|_| { let p = pick(r); let l = *r.pick(&rels); vec![p as i64, l, ro(|| x.fwd_search(p, l))] }).collect();
            qs(t, "fwd", f);
            let f: Vec<_> = (0..m * 2).map(|_| { let p = pick(r); let l = *r.pick(&rels); vec![p as i64, l, ro(|| x.bwd_search(p, l))] }).collect();
            qs(t, "bwd", f);
            if bits.count() > 0 { let f: Vec<_> = (0..m).map(|_| node(r, true)).filter(|&p| bits.get(p)).map(|p| i1(p, ro(|| x.close(p)))).collect(); qs(t, "close", f); }
            let f: Vec<_> = (0..m).map(|_| node(r, false)).filter(|&p| !bits.get(p)).map(|p| i1(p, ro(|| x.open(p)))).collect();
            qs(t, "open", f);
            let f: Vec<_> = (0..m).map(|_| pick(r)).map(|p| i1(p, ro(|| x.enclose(p)))).collect();
            qs(t, "enclose", f);
        }
        "c22big" => {
            t.ev("Shape").i("size", ru(|| x.size())).b_("empty", x.is_empty()).i("root", ro(|| x.root())).done();
            let ex: Vec<_> = (0..m * 2).map(|_| { let p = pick(r); i1(p, call(|| x.excess(p)).map_or(CAP, |v| v.clamp(-CAP, CAP))) }).collect();
            qs(t, "excess", ex);
            let v = x.into_parentheses_vec();
            let f = (0..m * 4).map(|_| { let p = pick(r); i1(p, ro64(|| v.get(p))) }).collect();
            qs(t, "bit", f);
        }
        "c20big" => {
            if is_tree { t.ev("Tree").done(); }
            t.ev("Shape").i("size", ru(|| x.size())).b_("empty", x.is_empty()).i("root", ro(|| x.root())).done();
            let nodes: Vec<usize> = (0..m).map(|_| node(r, true)).filter(|&p| bits.get(p)).collect();
            let mut go = |t: &mut T, w: &str, f: &dyn Fn(usize) -> i64| { let v = nodes.iter().map(|&p| i1(p, f(p))).collect(); qs(t, w, v) };
            go(t, "parent", &|p| ro(|| x.parent(p)));
            go(t, "first_child", &|p| ro(|| x.first_child(p)));
            go(t, "last_child", &|p| ro(|| x.last_child(p)));
            go(t, "next_sibling", &|p| ro(|| x.next_sibling(p)));
            go(t, "prev_sibling", &|p| ro(|| x.previous_sibling(p)));
            go(t, "leaf", &|p| rb(|| x.is_leaf(p)));
            go(t, "depth", &|p| ru64(|| x.depth(p)));
            go(t, "index", &|p| ru(|| x.node_index(p)));
            let tot = bits.count();
            let v = (0..m).map(|k| { let k = match k { 0 => 0, 1 => tot - 1, _ => if r.chance(1, 3) { (1usize << r.below(25)) - 1 } else { r.below(tot) } }.min(tot - 1); i1(k, ru(|| x.node_handle(k))) }).collect();
            qs(t, "handle", v);
            let v = nodes.iter().take(10).map(|&p| p).chain([0]).map(|p| vec![p as i64, ru(|| x.children(p).count()), ru(|| x.rev_children(p).count())]).collect();
            qs(t, "kids", v);
        }
        "c21big" => {
            if is_tree { t.ev("Tree").done(); }
            let nodes: Vec<usize> = (0..m).map(|_| node(r, true)).filter(|&p| bits.get(p)).collect();
            let mut go = |t: &mut T, w: &str, f: &dyn Fn(usize) -> i64| { let v = nodes.iter().map(|&p| i1(p, f(p))).collect(); qs(t, w, v) };
            go(t, "size", &|p| ro(|| x.subtree_size(p)));
            go(t, "level_next", &|p| ro(|| x.level_next(p)));
            go(t, "level_prev", &|p| ro(|| x.level_prev(p)));
            let v = (0..m).map(|_| { let (a, b) = (*r.pick(&nodes), *r.pick(&nodes)); let (a, b) = if r.chance(3, 4) { (a.min(b), a.max(b)) } else { (a, b) }; vec![a as i64, b as i64, call(|| x.is_ancestor(a, b)).map_or(PANIC, |o| o.map_or(NONE, i64::from))] }).collect();
            qs(t, "anc", v);
            let mut deep: Vec<u64> = (0..23).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).collect();
            let dep: Vec<u64> = nodes.iter().map(|&p| x.depth(p)).collect();
            let v = nodes.iter().zip(&dep).map(|(&p, &d)| { let l = match r.below(5) { 0 => d, 1 => d + 1, 2 => *r.pick(&deep), 3 => d.saturating_sub(*r.pick(&deep)), _ => r.next() % (d + 2) }; vec![p as i64, cap64(l), ro(|| x.level_ancestor(p, l))] }).collect();
            qs(t, "level_anc", v);
            deep.extend(dep.iter().take(40)); deep.extend(dep.iter().take(40).map(|d| d + 1));
            let v = deep.iter().map(|&d| vec![d as i64, ro(|| x.level_leftmost(d))]).collect();
            qs(t, "leftmost", v);
            let v = deep.iter().map(|&d| vec![d as i64, ro(|| x.level_rightmost(d))]).collect();
            qs(t, "rightmost", v);
            let v = nodes.iter().take(if n > 1_000_000 || B > 2000 { 0 } else { 3 }).map(|&p| p).chain([0].into_iter().filter(|_| B < 2000)).map(|p| vec![p as i64, ru(|| x.subtree_iter(p).count()), ru(|| x.subtree_post_iter(p).count())]).collect();
            qs(t, "walk", v);
        }
        y => panic!("{y}"),
    }
}

fn big(a: &Args, t: &mut T, r: &mut Rng) {
    let c19 = a.cmd == "c19big" || a.cmd == "c22big";
    let m = if a.thorough { 1500 } else { 120 };
    let sizes: &[usize] = if a.thorough { &[140_000, 1 << 21, 5_000_000, 40_000_000] } else { &[150_000, 5_000_000] };
    // blocks whose excess does not fit 16 bits
    for style in [0usize, 2, 3, 6] {
        let bs = [131_072usize, 100_003, 4096, 65_536][style % 4];
        let tree = !c19 || style % 3 == 0;
        let ps = pieces(r, 700_000, style, tree);
        let name = format!("huge block s{style} B{bs}");
        match bs {
            4096 => big_one::<4096>(t, &a.cmd, &name, &ps, tree, m, r),
            65_536 => big_one::<65_536>(t, &a.cmd, &name, &ps, tree, m, r),
            100_003 => big_one::<100_003>(t, &a.cmd, &name, &ps, tree, m, r),
            _ => big_one::<131_072>(t, &a.cmd, &name, &ps, tree, m, r),
        }
    }
    // more than 2^22 blocks, depth beyond 2^23
    for (k, style) in [(a.seed as usize) % 7, 2].into_iter().enumerate() {
        if k == 1 && !a.thorough { continue; }
        let ps = pieces(r, 8 * (1 << 22) + 10, style, true);
        let name = format!("many blocks s{style} B8");
        big_one::<8>(t, &a.cmd, &name, &ps, true, m, r);
    }
    for &n in sizes {
        for style in 0..if a.thorough { 12 } else { 7 } {
            let big_blocks = n > 1_000_000;
            let bs = if big_blocks { *r.pick(&[64usize, 512, 1024]) } else { *r.pick(&[1usize, 2, 8, 64, 512]) };
            let tree = !c19 || style % 2 == 0;
            let ps = pieces(r, n, style, tree);
            let name = format!("big n{n}s{style}t{} B{bs}", u8::from(tree));
            with_block!(bs, big_one(t, &a.cmd, &name, &ps, tree, m, r));
            if c19 && style >= 5 || a.cmd == "c22big" && style >= 3 {
                let ps = pieces(r, n, style, false);
                with_block!(bs, big_one(t, &a.cmd, &name, &ps, false, m, r));
            }
        }
    }
}
