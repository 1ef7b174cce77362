//! C05 rank and access, C06 select, C08 equality of RsVec.
use vers_vecs::RsVec;
use vharness::{cases, obs::*, *};

fn build(t: &mut T, name: &str, b: &Bits, how: usize, r: &mut Rng) -> Option<RsVec> {
    t.episode(&format!("{name}/h{how}"));
    t.ev("Build").i("n", b.n as i64).a("ones", &b.runs()).done();
    let bv = match call(|| make(b, how, r)) { Ok(v) => v, Err(()) => { t.ev("BuildPanic").done(); return None; } };
    match call(|| if how % 2 == 0 { RsVec::from_bit_vec(bv) } else { RsVec::from(bv) }) {
        Ok(v) => Some(v),
        Err(()) => { t.ev("BuildPanic").done(); None }
    }
}

fn inputs(a: &Args, r: &mut Rng) -> Vec<(String, Bits, bool)> {
    let mut v: Vec<(String, Bits, bool)> = Vec::new();
    v.extend(cases::tiny(if a.thorough { 9 } else { 6 }).into_iter().map(|(s, b)| (s, b, false)));
    v.extend(cases::edges(r, if a.thorough { cases::PATS } else { 6 }).into_iter().map(|(s, b)| (s, b, false)));
    v.extend(cases::large(r, a.thorough).into_iter().map(|(s, b)| (s, b, true)));
    v
}

fn how_for(b: &Bits, i: usize, r: &mut Rng) -> usize {
    if b.n > 40_000 { *r.pick(&[1, 3, 4]) } else { (i + r.below(3)) % HOWS }
}

fn eq_case(t: &mut T, name: &str, x: &Bits, y: &Bits, i: usize, r: &mut Rng) {
    let (h1, h2) = (how_for(x, i, r), how_for(y, i / 7 + 1, r));
    let Some(a) = build(t, name, x, h1, r) else { return };
    let Ok(b) = call(|| RsVec::from_bit_vec(make(y, h2, r))) else { t.ev("BuildPanic").done(); return };
    t.ev("Eq").i("n", y.n as i64).a("ones", &y.runs())
        .i("full", rb(|| a.full_equals(&b))).i("s0", rb(|| a.sparse_equals::<true>(&b)))
        .i("s1", rb(|| a.sparse_equals::<false>(&b))).i("eq", rb(|| a == b)).i("ne", rb(|| a != b))
        .i("rfull", rb(|| b.full_equals(&a))).i("rs0", rb(|| b.sparse_equals::<true>(&a)))
        .i("rs1", rb(|| b.sparse_equals::<false>(&a))).i("req", rb(|| b == a)).done();
}

/// y differs from x by: nothing, one flipped bit, a swapped pair, a longer or shorter tail
fn variants(x: &Bits, r: &mut Rng) -> Vec<Bits> {
    let n = x.n;
    let mut v = vec![x.clone()];
    let mut ps: Vec<usize> = vec![0, n.wrapping_sub(1), n / 2, 63, 64, 511, 512, 8191, 8192, n / 64 * 64, (n / 64 * 64).wrapping_sub(1)];
    ps.push(r.below(n + 1));
    ps.retain(|&p| p < n);
    ps.sort(); ps.dedup();
    for &p in &ps { let mut y = x.clone(); y.set(p, !x.get(p)); v.push(y); }
    // same number of ones: move a one to the position of a zero
    let o: Vec<usize> = (0..n).filter(|&i| x.get(i)).collect();
    let z: Vec<usize> = (0..n).filter(|&i| !x.get(i)).collect();
    if !o.is_empty() && !z.is_empty() {
        for k in 0..5 {
            let mut y = x.clone();
            let (p, q) = match k {
                0 => (o[0], z[0]),
                1 => (o[o.len() - 1], z[z.len() - 1]),
                2 => (o[0], z[z.len() - 1]),
                3 => (o[o.len() - 1], z[0]),
                _ => (*r.pick(&o), *r.pick(&z)),
            };
            y.set(p, false); y.set(q, true);
            v.push(y);
        }
    }
    // other lengths with the same ones / same prefix
    for d in [1usize, 63, 64] {
        let mut y = Bits::zeros(n + d);
        for (i, w) in x.w.iter().enumerate() { y.w[i] |= w; }
        v.push(y);
        if n >= d { v.push(x.slice(0, n - d)); }
    }
    v
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    match a.cmd.as_str() {
        "c05" => for (i, (name, b, big)) in inputs(&a, &mut r).iter().enumerate() {
            let h = how_for(b, i, &mut r);
            let Some(rs) = build(&mut t, name, b, h, &mut r) else { continue };
            rs_len(&mut t, &rs);
            rs_rank(&mut t, &rs, &mut r, b.n < 3000);
            rs_get(&mut t, &rs, &mut r, *big);
        },
        "c06" => for (i, (name, b, _)) in inputs(&a, &mut r).iter().enumerate() {
            let h = how_for(b, i, &mut r);
            let Some(rs) = build(&mut t, name, b, h, &mut r) else { continue };
            rs_select(&mut t, &rs, b);
        },
        "c08" => {
            let mut i = 0;
            for (name, b) in cases::tiny(4) {
                for (_, c) in cases::tiny(4) {
                    if b.n.abs_diff(c.n) <= 1 { eq_case(&mut t, &name, &b, &c, i, &mut r); i += 1; }
                }
            }
            for (name, b) in cases::edges(&mut r, if a.thorough { 9 } else { 3 }) {
                for y in variants(&b, &mut r) { eq_case(&mut t, &name, &b, &y, i, &mut r); i += 1; }
            }
            for n in [3_999_999usize, 4_000_000, 4_000_001, 4_100_100] {
                for den in [3000u64, 1] {
                    let x = if den == 1 { Bits::random(n, 2999, 3000, &mut r) } else { Bits::random(n, 1, den, &mut r) };
                    for y in variants(&x, &mut r) { eq_case(&mut t, "big", &x, &y, i, &mut r); i += 1; }
                }
            }
        }
        "c24" => {
            let mut v = cases::tiny(2);
            for n in [1usize, 63, 64, 65, 511, 512, 513, 1024, 8191, 8192, 8193, 20_000] {
                for k in 0..4 { v.push((format!("n{n}k{k}"), match k { 0 => Bits::zeros(n), 1 => Bits::ones(n), 2 => Bits::random(n, 1, 2, &mut r), _ => Bits::random(n, 1, 30, &mut r) })); }
            }
            for (i, (name, b)) in v.iter().enumerate() {
                let Some(x) = build(&mut t, name, b, i % HOWS, &mut r) else { continue };
                let ex = extremes(b.n);
                let pc: Vec<i64> = ex.iter().map(|&p| cap(p)).collect();
                for z in [false, true] {
                    let rs: Vec<i64> = ex.iter().map(|&p| ru(|| if z { x.rank0(p) } else { x.rank1(p) })).collect();
                    t.ev("RankPts").b("z", z).a("ps", &pc).a("rs", &rs).done();
                    let tot = if z { b.n - b.count() } else { b.count() };
                    let ks: Vec<usize> = extremes(tot).into_iter().chain(ex.clone()).filter(|&k| k >= tot).collect();
                    let rs: Vec<i64> = ks.iter().map(|&p| ru(|| if z { x.select0(p) } else { x.select1(p) })).collect();
                    t.ev("SelPast").b("z", z).a("ks", &ks.iter().map(|&p| cap(p)).collect::<Vec<_>>()).a("rs", &rs).done();
                }
                let rs: Vec<i64> = ex.iter().map(|&p| ro64(|| x.get(p))).collect();
                t.ev("GetPts").a("ps", &pc).a("rs", &rs).done();
                let mut q = Vec::new();
                for &p in &ex { for l in [0usize, 1, 2, 63, 64, 65, 127, 128, 1 << 32, 1 << 63, usize::MAX - 64, usize::MAX - 63, usize::MAX - 1, usize::MAX] {
                    q.push(val_runs(p, l, call(|| x.get_bits(p, l))));
                } }
                t.ev("GetBits").aa("q", &q).done();
            }
        }
        x => panic!("{x}"),
    }
}
