//! C23: every structure, serialized and deserialized, then observed like the original.
use vers_vecs::{BinaryRmq, EliasFanoVec, FastRmq, RsVec, SparseRSVec};
use vharness::{bpobs, cases, efcases, obs::*, reload::*, rmqobs, wavobs, with_block, *};

fn bp<const B: usize>(t: &mut T, b: &[bool], mode: u8, how: usize, fmt: usize, r: &mut Rng) {
    let p = bpobs::Par::new(b);
    let Some(x) = bpobs::build::<B>(t, "bp", &p, how, r) else { return };
    let Some(x) = reload(t, &x, fmt, |_, _| true) else { return };
    match (fmt + how) % 3 {
        0 => bpobs::search(t, &x, &p, r, mode),
        1 => bpobs::navigate(t, &x, &p),
        _ => bpobs::levels(t, &x, &p, r, mode == 2),
    }
}

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed ^ 0x23);
    let th = a.thorough;
    match a.cmd.as_str() {
        "rs" => {
            let mut v = cases::tiny(if th { 7 } else { 4 });
            v.extend(cases::edges(&mut r, if th { 6 } else { 2 }));
            v.extend(cases::large(&mut r, th).into_iter().take(if th { 40 } else { 8 }));
            for (i, (name, b)) in v.iter().enumerate() {
                t.episode(name);
                t.ev("Build").i("n", b.n as i64).a("ones", &b.runs()).done();
                let h = if b.n > 40_000 { *r.pick(&[1, 3, 4]) } else { i % HOWS };
                let Ok(rs) = call(|| RsVec::from_bit_vec(make(b, h, &mut r))) else { t.ev("BuildPanic").done(); continue };
                let Some(y) = reload(&mut t, &rs, i % FORMATS, |x, y| x == y && y == x && x.full_equals(y)) else { continue };
                rs_len(&mut t, &y);
                rs_rank(&mut t, &y, &mut r, b.n < 3000);
                rs_get(&mut t, &y, &mut r, b.n > 40_000);
                rs_select(&mut t, &y, b);
            }
        }
        "ef" => {
            let mut l: Vec<Vec<u64>> = efcases::tiny(if th { 4 } else { 3 }, &[0, 1, 2, 9, u64::MAX]);
            for st in 0..efcases::STYLES {
                for n in [1usize, 2, 5, 9, 33, 65, 200, 700] { l.push(efcases::gen(&mut r, n, st)); }
                if th { l.push(efcases::gen(&mut r, 5000, st)); }
            }
            for (i, xs) in l.iter().enumerate() {
                t.episode("ef");
                t.ev("BuildEF").ws("ws", xs).done();
                let Ok(ef) = call(|| EliasFanoVec::from_slice(xs)) else { t.ev("BuildPanic").done(); continue };
                let Some(y) = reload(&mut t, &ef, i % FORMATS, |_, _| true) else { continue };
                ef_access(&mut t, &y, xs.len());
                let qs = queries(xs, &mut r, 300);
                ef_search(&mut t, &y, xs, &qs);
            }
            for (i, mut xs) in l.into_iter().enumerate() {
                xs.dedup();
                if xs.last() == Some(&u64::MAX) { xs.pop(); }
                let len = xs.last().map_or(*r.pick(&[0, 1, 70]), |x| *r.pick(&[x + 1, x.saturating_add(100), u64::MAX]));
                t.episode("sparse");
                t.ev("BuildSp").ws("ws", &xs).w("len", len).done();
                let Ok(sp) = call(|| SparseRSVec::new(&xs, len)) else { t.ev("BuildPanic").done(); continue };
                let Some(y) = reload(&mut t, &sp, (i + 1) % FORMATS, |_, _| true) else { continue };
                let mut qs = queries(&xs, &mut r, 200);
                qs.extend([len, len.wrapping_sub(1), len.saturating_add(1)]);
                sp_obs(&mut t, &y, &xs, len, &qs);
            }
        }
        "rmq" => {
            for (i, n) in [1usize, 2, 3, 17, 64, 127, 128, 129, 130, 200, 256, 257, 400, 640, 1500, 5000].into_iter().enumerate() {
                for k in 0..if th { rmqobs::PATS } else { 4 } {
                    let k = if th { k } else { (i * 4 + k) % rmqobs::PATS };
                    let v = rmqobs::gen(&mut r, n, k);
                    let dict = rmqobs::dict_for(&v, &mut r);
                    let data: Vec<u64> = v.iter().map(|&j| dict[j]).collect();
                    let mode = if n <= 260 { 2 } else { 1 };
                    rmqobs::start(&mut t, "fast", &v, &dict);
                    match call(|| FastRmq::from_vec(data.clone())) {
                        Ok(q) => if let Some(y) = reload(&mut t, &q, k % FORMATS, |_, _| true) { rmqobs::observe(&mut t, &y, &dict, mode, &mut r); },
                        Err(()) => t.ev("BuildPanic").done(),
                    }
                    rmqobs::start(&mut t, "binary", &v, &dict);
                    match call(|| BinaryRmq::from_vec(data)) {
                        Ok(q) => if let Some(y) = reload(&mut t, &q, (k + 1) % FORMATS, |_, _| true) { rmqobs::observe(&mut t, &y, &dict, mode, &mut r); },
                        Err(()) => t.ev("BuildPanic").done(),
                    }
                }
            }
        }
        "wav" => {
            let mut seqs = wavobs::tiny(2, if th { 4 } else { 2 });
            for k in [1usize, 2, 5, 8, 16, 33, 64, 65, 100] {
                for n in [0usize, 1, 3, 20, 64, 130, 600] {
                    for _ in 0..if th { 4 } else { 1 } { let sh = r.below(wavobs::SHAPES); seqs.push(wavobs::gen(&mut r, k, n, sh)); }
                }
            }
            for (i, s) in seqs.iter().enumerate() {
                let cs = wavobs::ctors(s.k);
                let Some(w) = wavobs::build(&mut t, "wav", s, cs[i % cs.len()], &mut r) else { continue };
                let Some(w) = reload(&mut t, &w, i % FORMATS, |_, _| true) else { continue };
                let full = s.v.len() <= 3;
                wavobs::access(&mut t, &w, s);
                match i % 3 {
                    0 => wavobs::rank_select(&mut t, &w, s, &mut r, full),
                    1 => wavobs::order(&mut t, &w, s, &mut r, full),
                    _ => wavobs::pred_succ(&mut t, &w, s, &mut r, full),
                }
            }
        }
        "bp" => {
            let mut jobs: Vec<(Vec<bool>, u8, usize)> = Vec::new();
            for (k, b) in bpobs::strings(if th { 6 } else { 4 }).into_iter().enumerate() { jobs.push((b, 2, bpobs::SIZES[k % bpobs::SIZES.len()])); }
            for (k, b) in bpobs::trees(if th { 6 } else { 4 }).into_iter().enumerate() { jobs.push((b, 2, bpobs::SIZES[k % bpobs::SIZES.len()])); }
            for m in [10usize, 40, 130, 300, 900] {
                for s in 0..bpobs::TSHAPES { if th || (s + m) % 2 == 0 { let bs = *r.pick(&bpobs::SIZES); jobs.push((bpobs::tree(&mut r, m, s), if m <= 40 { 2 } else { 1 }, bs)); } }
                for s in 0..bpobs::USHAPES { if th || (s + m) % 4 == 0 { let bs = *r.pick(&bpobs::SIZES); jobs.push((bpobs::any(&mut r, m, s), if m <= 40 { 2 } else { 1 }, bs)); } }
            }
            for (k, (b, mode, bs)) in jobs.iter().enumerate() {
                let how = if b.len() > 2000 { 1 } else { k % HOWS };
                with_block!(*bs, bp(&mut t, b, *mode, how, k % FORMATS, &mut r));
            }
        }
        x => panic!("{x}"),
    }
}
