//! C10 / C11 Elias-Fano, C12 sparse rank/select vector.
use vers_vecs::{EliasFanoVec, SparseRSVec};
use vharness::{cases, efcases, obs::*, *};

fn lists(a: &Args, r: &mut Rng) -> Vec<(String, Vec<u64>)> {
    let mut v: Vec<(String, Vec<u64>)> = Vec::new();
    for (j, o) in [0u64, 1, u64::MAX - 9].iter().enumerate() {
        let alpha: Vec<u64> = [0u64, 1, 2, 3, 5, 9].iter().map(|x| x + o).collect();
        let l = if j == 0 { if a.thorough { 6 } else { 5 } } else { if a.thorough { 5 } else { 3 } };
        v.extend(efcases::tiny(l, &alpha).into_iter().map(|x| (format!("tiny+{o}"), x)));
    }
    // alphabet spread over bins: many elements per bin with gaps, all sequences
    let alpha = [0u64, 1, 7, 8, 9, 63, 64, 1000];
    v.extend(efcases::tiny(if a.thorough { 5 } else { 4 }, &alpha).into_iter().map(|x| ("spread".into(), x)));
    for st in 0..efcases::STYLES {
        for n in [1usize, 2, 3, 5, 6, 7, 8, 9, 12, 17, 31, 33, 64, 65, 100, 200, 500] {
            for _ in 0..if a.thorough { 8 } else { 1 } { v.push((format!("s{st}n{n}"), efcases::gen(r, n, st))); }
        }
        for n in [1500usize, 5000] { v.push((format!("s{st}n{n}"), efcases::gen(r, n, st))); }
        if st == 1 || st == 8 || (a.thorough && st % 4 == 0) { v.push((format!("s{st}huge"), efcases::gen(r, 66_000, st))); }
        if a.thorough || st % 3 == 1 { v.push((format!("s{st}big"), efcases::gen(r, 20_000, st))); }
    }
    v
}

fn build_ef(t: &mut T, name: &str, xs: &[u64]) -> Option<EliasFanoVec> {
    t.episode(name);
    t.ev("BuildEF").ws("ws", xs).done();
    match call(|| EliasFanoVec::from_slice(xs)) { Ok(e) => Some(e), Err(()) => { t.ev("BuildPanic").done(); None } }
}

fn build_sp(t: &mut T, name: &str, xs: &[u64], len: u64, f: impl FnOnce() -> SparseRSVec) -> Option<SparseRSVec> {
    t.episode(name);
    t.ev("BuildSp").ws("ws", xs).w("len", len).done();
    match call(f) { Ok(e) => Some(e), Err(()) => { t.ev("BuildPanic").done(); None } }
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    match a.cmd.as_str() {
        "c10" => for (name, xs) in lists(&a, &mut r) {
            let Some(ef) = build_ef(&mut t, &name, &xs) else { continue };
            ef_access(&mut t, &ef, xs.len());
        },
        "c11" => for (name, xs) in lists(&a, &mut r) {
            let Some(ef) = build_ef(&mut t, &name, &xs) else { continue };
            let qs = queries(&xs, &mut r, if a.thorough { 6000 } else { 1500 });
            ef_search(&mut t, &ef, &xs, &qs);
        },
        "c12" => {
            for (name, mut xs) in lists(&a, &mut r) {
                xs.dedup();
                let last = xs.last().copied();
                let lens: Vec<u64> = match last {
                    None => vec![0, 1, 64, u64::MAX],
                    Some(u64::MAX) => { xs.pop(); vec![u64::MAX] }
                    Some(x) => vec![*r.pick(&[x + 1, x.saturating_add(2), x.saturating_add(100), u64::MAX])],
                };
                for len in lens {
                    let Some(sp) = build_sp(&mut t, &name, &xs, len, || SparseRSVec::new(&xs, len)) else { continue };
                    let mut qs = queries(&xs, &mut r, if a.thorough { 3000 } else { 500 });
                    qs.extend([len, len.wrapping_sub(1), len.saturating_add(1), len / 2]);
                    sp_obs(&mut t, &sp, &xs, len, &qs);
                }
            }
            let mut bs = cases::tiny(if a.thorough { 8 } else { 5 });
            bs.extend(cases::edges(&mut r, if a.thorough { 6 } else { 2 }));
            for (i, (name, b)) in bs.iter().enumerate() {
                let inv = i % 2 == 1;
                let eff = if inv { b.not() } else { b.clone() };
                let xs: Vec<u64> = (0..b.n).filter(|&p| eff.get(p)).map(|p| p as u64).collect();
                let h = i % HOWS;
                let Ok(bv) = call(|| make(b, h, &mut r)) else { continue };
                let len = b.n as u64;
                let Some(sp) = build_sp(&mut t, name, &xs, len, || if inv { SparseRSVec::from_bitvec_inverted(&bv) } else { match i / 2 % 3 { 0 => SparseRSVec::from_bitvec(&bv), 1 => SparseRSVec::from(&bv), _ => SparseRSVec::from(bv.clone()) } }) else { continue };
                let mut qs: Vec<u64> = if b.n <= 600 { (0..len).collect() } else { (0..400).map(|_| r.below(b.n) as u64).collect() };
                qs.extend([len, len + 1, len + 64, u64::MAX, len.wrapping_sub(1), 1 << 63]);
                sp_obs(&mut t, &sp, &xs, len, &qs);
            }
        }
        "c24" => {
            let m = u64::MAX;
            let mut ls: Vec<Vec<u64>> = vec![vec![], vec![0], vec![m], vec![0, m], vec![0, 0], vec![m, m], vec![m - 1, m], vec![1 << 63], vec![(1 << 63) - 1, 1 << 63],
                vec![0, 1, 2, 3], vec![5; 70], vec![m; 70], vec![0, 0, 0, m, m, m], (0..100).collect(), (m - 99..=m).collect()];
            for st in 0..efcases::STYLES { for n in [3usize, 20, 130] { ls.push(efcases::gen(&mut r, n, st)); } }
            for xs in &ls {
                let Some(ef) = build_ef(&mut t, "total", xs) else { continue };
                ef_access(&mut t, &ef, xs.len());
                let ks: Vec<usize> = extremes(xs.len()).into_iter().filter(|&k| k >= xs.len()).collect();
                for how in ["get", "select", "delta"] {
                    let r: Vec<Vec<i64>> = ks.iter().map(|&k| row(|| match how { "get" => ef.get(k), "select" => ef.select(k), _ => ef.delta(k) })).collect();
                    t.ev("Past").st("how", how).a("ks", &ks.iter().map(|&k| cap(k)).collect::<Vec<_>>()).aa("rs", &r).done();
                }
                let mut qs = queries(xs, &mut r, 100);
                qs.extend(extremes(xs.len()).iter().map(|&x| x as u64));
                if let (Some(a), Some(b)) = (xs.first(), xs.last()) { for d in [0u64, 1, 2, 63, 64, 65, 1 << 32] { qs.extend([a.wrapping_sub(d), b.wrapping_add(d), a.saturating_sub(d), b.saturating_add(d)]); } }
                ef_search(&mut t, &ef, xs, &qs);
            }
            for xs in &mut ls {
                xs.dedup();
                if xs.last() == Some(&m) { xs.pop(); }
                let lo = xs.last().map_or(0, |x| x + 1);
                for len in [lo, lo.saturating_add(1), m] {
                    let Some(sp) = build_sp(&mut t, "total", xs, len, || SparseRSVec::new(xs, len)) else { continue };
                    let mut qs = queries(xs, &mut r, 60);
                    qs.extend(extremes(xs.len()).iter().map(|&x| x as u64));
                    for d in [0u64, 1, 2, 63, 64, 65] { qs.extend([len.wrapping_sub(d), len.saturating_add(d)]); }
                    sp_obs(&mut t, &sp, xs, len, &qs);
                }
            }
        }
        x => panic!("{x}"),
    }
}
