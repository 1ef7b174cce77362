//! C15 access, C16 rank/select, C17 order statistics, C18 predecessor/successor of WaveletMatrix.
use vharness::{wavobs::*, *};

const KS: [usize; 22] = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 70, 100, 130];

fn main() {
    let a = args();
    let mut t = T::start(&a);
    let mut r = Rng::new(a.seed);
    if a.cmd == "c24" {
        let mut i = 0;
        for &k in &[1usize, 2, 8, 16, 63, 64, 65, 130] {
            for n in [0usize, 1, 2, 5, 64, 130] {
                for sh in [0, 8] {
                    let s = gen(&mut r, k, n, sh);
                    let cs = ctors(k);
                    let Some(w) = build(&mut t, "total", &s, cs[i % cs.len()], &mut r) else { continue };
                    i += 1;
                    extreme(&mut t, &w, &s, &mut r, if a.thorough { 60 } else { 8 });
                    access(&mut t, &w, &s);
                    if n <= 5 { rank_select(&mut t, &w, &s, &mut r, true); order(&mut t, &w, &s, &mut r, true); pred_succ(&mut t, &w, &s, &mut r, true); }
                }
            }
        }
        return;
    }
    // (sequence, full observation, all constructors)
    let mut seqs: Vec<(String, Seq, bool)> = Vec::new();
    for (k, l) in if a.thorough { [(1, 8), (2, 5), (3, 4)] } else { [(1, 5), (2, 3), (3, 2)] } {
        seqs.extend(tiny(k, l).into_iter().map(|s| (format!("tiny k{k}"), s, true)));
    }
    let reps = if a.thorough { 3 } else { 1 };
    for (j, &k) in KS.iter().enumerate() {
        for (m, n) in [0usize, 1, 2, 5, 9, 20, 63, 65, 130, 300].into_iter().enumerate() {
            for q in 0..reps {
                let sh = if a.thorough { r.below(SHAPES) } else { (j * 3 + m + q + r.below(3)) % SHAPES };
                seqs.push((format!("k{k}n{n}s{sh}"), gen(&mut r, k, n, sh), n <= 9));
            }
        }
    }
    for &(k, n) in &[(1usize, 600usize), (2, 1100), (4, 2000), (10, 1500), (20, 1100), (64, 1100), (80, 700)] {
        for _ in 0..reps { let sh = r.below(SHAPES); seqs.push((format!("k{k}n{n}s{sh}"), gen(&mut r, k, n, sh), false)); }
    }
    for &(k, n) in &[(1usize, 9000usize), (3, 8200), (6, 17_000), (13, 9000), (66, 8500)] {
        for _ in 0..reps { let sh = *r.pick(&[0, 5, 6, 8, 9]); seqs.push((format!("big k{k}n{n}s{sh}"), gen(&mut r, k, n, sh), false)); }
    }
    // more elements than 16-bit counters hold, and words wider than 8-bit widths
    for &(k, n) in &[(1usize, 66_000usize), (5, 70_000)] {
        let sh = *r.pick(&[0, 4, 9]);
        seqs.push((format!("huge k{k}n{n}s{sh}"), gen(&mut r, k, n, sh), false));
    }
    for k in [1usize, 2, 4] { seqs.push((format!("skewed k{k}"), skewed(&mut r, k, 140_000 + 5000 * k), false)); }
    for &(k, n) in &[(255usize, 5usize), (256, 3), (257, 9), (300, 6), (700, 4)] { let sh = r.below(SHAPES); seqs.push((format!("wide k{k}n{n}s{sh}"), gen(&mut r, k, n, sh), true)); }
    // prefix counting over large alphabets
    if a.cmd == "c15" {
        for (i, k) in if a.thorough { vec![18usize, 19, 21, 22, 23, 24, 25, 26] } else { vec![18, 22, 24] }.into_iter().enumerate() {
            for c in [2, 3] {
                let sh = [0, 8, 5, 9][(i + c) % 4];
                let s = gen(&mut r, k, 200 + 300 * i, sh);
                let Some(w) = build(&mut t, &format!("alphabet k{k}s{sh}"), &s, c, &mut r) else { continue };
                access(&mut t, &w, &s);
            }
        }
    }
    for (i, (name, s, full)) in seqs.iter().enumerate() {
        let cs = ctors(s.k);
        let all = a.cmd == "c15" && (a.thorough || i % 3 == 0 || *full || s.v.len() > 50_000);
        for (j, &c) in cs.iter().enumerate() {
            if !all && j != i % cs.len() { continue; }
            let Some(w) = build(&mut t, name, s, c, &mut r) else { continue };
            match a.cmd.as_str() {
                "c15" => access(&mut t, &w, s),
                "c16" => rank_select(&mut t, &w, s, &mut r, *full),
                "c17" => order(&mut t, &w, s, &mut r, *full),
                "c18" => pred_succ(&mut t, &w, s, &mut r, *full),
                x => panic!("{x}"),
            }
        }
    }
}
