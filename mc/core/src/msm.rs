//! C18: multi-scalar multiplications. C19: batched additions and inversions.
use crate::{chunks, name, ok, visit, word};
use bls12_381::batch_addition::{batch_addition_binary_tree_stride, multi_batch_addition_binary_tree_stride};
use bls12_381::batch_inversion::{batch_inverse, batch_inverse_scratch_pad};
use bls12_381::fixed_base_msm::{FixedBaseMSM, FixedBaseMSMPrecompBLST, UsePrecomp};
use bls12_381::fixed_base_msm_window::FixedBaseMSMPrecompWindow;
use bls12_381::{g1_batch_normalize, g2_batch_normalize};
use bls12_381::lincomb::{g1_lincomb, g1_lincomb_unsafe, g2_lincomb, g2_lincomb_unsafe};
use mc_common::*;

/// logs of the point alphabet: O, G, -G, P, -P, 2G
fn point_logs() -> Vec<Fr> {
    let p = generic(11);
    vec![Fr::ZERO, Fr::ONE, -Fr::ONE, p, -p, Fr::from(2)]
}
fn scalar_alphabet() -> Vec<Fr> {
    let top = pow(Fr::from(2), 254);
    vec![Fr::ZERO, Fr::ONE, -Fr::ONE, Fr::from(2), generic(12), top, -Fr::from(2), pow(Fr::from(2), 128)]
}
fn dot(a: &[Fr], b: &[Fr]) -> Fr {
    a.iter().zip(b).fold(Fr::ZERO, |s, (x, y)| s + *x * y)
}
fn g2(k: Fr) -> G2Affine {
    (G2Projective::generator() * k).to_affine()
}

#[derive(Clone, Copy)]
enum Grp {
    G1,
    G2,
}
/// Runs the variable-base combinations on points with known logs.
fn check_var(grp: Grp, logs: &[Fr], p1: &[G1Affine], p2: &[G2Affine], s: &[Fr]) -> Result<&'static str, String> {
    let e = dot(logs, s);
    let no_identity = logs.iter().all(|l| *l != Fr::ZERO) && !logs.is_empty();
    match grp {
        Grp::G1 => {
            let want = G1Projective::generator() * e;
            let got = g1_lincomb(p1, s).ok_or("g1_lincomb returned None")?;
            if got != want {
                return Err("g1_lincomb is not the sum".into());
            }
            if no_identity {
                let got = g1_lincomb_unsafe(p1, s).ok_or("g1_lincomb_unsafe returned None")?;
                if got != want {
                    return Err("g1_lincomb_unsafe is not the sum".into());
                }
            }
        }
        Grp::G2 => {
            let want = G2Projective::generator() * e;
            let got = g2_lincomb(p2, s).ok_or("g2_lincomb returned None")?;
            if got != want {
                return Err("g2_lincomb is not the sum".into());
            }
            if no_identity {
                let got = g2_lincomb_unsafe(p2, s).ok_or("g2_lincomb_unsafe returned None")?;
                if got != want {
                    return Err("g2_lincomb_unsafe is not the sum".into());
                }
            }
        }
    }
    Ok(if e == Fr::ZERO { "sum-is-identity" } else { "sum" })
}

pub fn c18() -> i32 {
    let run = Run::new("C18");
    let pl = point_logs();
    let sc = scalar_alphabet();
    let k = pl.len() * sc.len();
    let a1: Vec<G1Affine> = pl.iter().map(|l| g1(*l)).collect();
    let a2: Vec<G2Affine> = pl.iter().map(|l| g2(*l)).collect();
    // A. all short lists over the alphabets
    for (grp, gname, max) in [(Grp::G1, "g1", run.pick(3, 3)), (Grp::G2, "g2", run.pick(2, 3))] {
        for len in 0..=max {
            let n = k.pow(len as u32);
            par_jobs(&run, &chunks(n, 64), || (), |_, (a, b)| {
                for i in *a..*b {
                    let w = word(i, k, len);
                    let case = format!("{gname}/word/{}", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
                    visit(&run, &case, || {
                        let logs: Vec<Fr> = w.iter().map(|x| pl[x / sc.len()]).collect();
                        let p1: Vec<_> = w.iter().map(|x| a1[x / sc.len()]).collect();
                        let p2: Vec<_> = w.iter().map(|x| a2[x / sc.len()]).collect();
                        let s: Vec<Fr> = w.iter().map(|x| sc[x % sc.len()]).collect();
                        check_var(grp, &logs, &p1, &p2, &s)
                    });
                }
            });
        }
    }
    run.sample("g1/word/9.23.41: three (point, scalar) letters; 6 points x 8 scalars");
    if run.thorough() {
        // all words of length 4 over a smaller alphabet
        let (ps, ss) = ([0usize, 1, 2, 3], [0usize, 1, 2, 4]);
        par_jobs(&run, &chunks(16usize.pow(4), 64), || (), |_, (a, b)| {
            for i in *a..*b {
                let w = word(i, 16, 4);
                visit(&run, &format!("g1/word4/{}", name(&w)), || {
                    let ix: Vec<usize> = w.iter().map(|x| ps[x / 4]).collect();
                    let logs: Vec<Fr> = ix.iter().map(|x| pl[*x]).collect();
                    let p1: Vec<_> = ix.iter().map(|x| a1[*x]).collect();
                    let s: Vec<Fr> = w.iter().map(|x| sc[ss[x % 4]]).collect();
                    check_var(Grp::G1, &logs, &p1, &[], &s)
                });
            }
        });
    }
    // B. long lists: a generic list with one position set to each special (point, scalar), and
    //    lists of one repeated letter, alternating opposite points, and cancelling halves.
    let mut lens: Vec<usize> = (4..=run.pick(40, 70)).collect();
    lens.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]);
    lens.extend(run.pick(vec![1024], vec![511, 512, 513, 1000, 1024, 2048, 4095, 4096, 4097]));
    let maxlen = *lens.iter().max().unwrap();
    let glog: Vec<Fr> = (0..maxlen).map(|i| generic(1000 + i as u64)).collect();
    let gsc: Vec<Fr> = (0..maxlen).map(|i| generic(900000 + i as u64) + generic(77)).collect();
    let g1s = mul_many(&glog);
    let n2 = run.pick(70, 300).min(maxlen);
    let g2s: Vec<G2Affine> = glog[..n2].iter().map(|l| g2(*l)).collect();
    let mut jobs: Vec<(Grp, usize, usize)> = Vec::new(); // (group, length, position)
    for &n in &lens {
        let full = n <= run.pick(33, 70);
        for p in 0..n {
            if full || p < 2 || p + 2 > n || p == n / 2 {
                jobs.push((Grp::G1, n, p));
                if n <= run.pick(20, 40) || (p == n / 2 && n <= n2) {
                    jobs.push((Grp::G2, n, p));
                }
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, (grp, n, p)| {
        let (n, p) = (*n, *p);
        let gname = if matches!(grp, Grp::G1) { "g1" } else { "g2" };
        for l in 0..4 {
            for s in 0..6 {
                visit(&run, &format!("{gname}/long/{n}/{p}/{l}.{s}"), || {
                    let mut logs = glog[..n].to_vec();
                    let mut sv = gsc[..n].to_vec();
                    logs[p] = pl[l];
                    sv[p] = sc[s];
                    let (mut p1, mut p2) = (vec![], vec![]);
                    match grp {
                        Grp::G1 => {
                            p1 = g1s[..n].to_vec();
                            p1[p] = a1[l];
                        }
                        Grp::G2 => {
                            p2 = g2s[..n].to_vec();
                            p2[p] = a2[l];
                        }
                    }
                    check_var(*grp, &logs, &p1, &p2, &sv)
                });
            }
        }
    });
    par_jobs(&run, &lens, || (), |_, &n| {
        for shape in 0..6 {
            for s in 0..sc.len() {
                visit(&run, &format!("g1/shape/{n}/{shape}.{s}"), || {
                    let (mut logs, mut p1, mut sv) = (Vec::new(), Vec::new(), Vec::new());
                    for i in 0..n {
                        let (l, p, v) = match shape {
                            0 => (pl[3], a1[3], sc[s]),                                   // all equal
                            1 => (pl[3 + i % 2], a1[3 + i % 2], sc[s]),                   // P,-P,P,-P
                            2 => (pl[0], a1[0], sc[s]),                                   // all identity
                            3 => (pl[i % 6], a1[i % 6], sc[(i + s) % sc.len()]),          // mixed
                            4 => (glog[i], g1s[i], sc[s]),                                // one scalar
                            _ => (glog[i / 2], g1s[i / 2], if i % 2 == 0 { gsc[i] } else { -gsc[i - 1] }), // pairs cancel
                        };
                        logs.push(l);
                        p1.push(p);
                        sv.push(v);
                    }
                    check_var(Grp::G1, &logs, &p1, &[], &sv)
                });
            }
        }
    });
    // C. unequal lengths: nothing, whatever the points and scalars
    let ml = run.pick(5usize, 7);
    for n in 0..=ml {
        for m in 0..=ml {
            if n == m {
                continue;
            }
            for mask in 0..1usize << n {
                for s in 0..3 {
                    visit(&run, &format!("mismatch/{n}/{m}/{mask:b}/{s}"), || {
                        let p1: Vec<_> = (0..n).map(|i| if mask >> i & 1 == 1 { a1[0] } else { g1s[i] }).collect();
                        let p2: Vec<_> = (0..n).map(|i| if mask >> i & 1 == 1 { a2[0] } else { g2s[i] }).collect();
                        let sv: Vec<Fr> = (0..m).map(|i| [Fr::ZERO, Fr::ONE, gsc[i]][s]).collect();
                        let got = [
                            g1_lincomb(&p1, &sv).is_some(),
                            g1_lincomb_unsafe(&p1, &sv).is_some(),
                            g2_lincomb(&p2, &sv).is_some(),
                            g2_lincomb_unsafe(&p2, &sv).is_some(),
                        ];
                        ok(got == [false; 4], "refused", || {
                            format!("{n} points and {m} scalars gave a sum (g1, g1 unsafe, g2, g2 unsafe: {got:?})")
                        })
                    });
                }
            }
        }
    }
    // D. fixed base. Every window width; every digit at every window position, alone and on a
    //    background of ones (so that carries run), one generator.
    let maxw = run.pick(10, 13);
    let mut jobs = Vec::new();
    for w in 1..=maxw {
        let nwin = 255 / w + 1;
        for i in 0..nwin {
            jobs.push((w, i));
        }
    }
    let tables: Vec<FixedBaseMSMPrecompWindow> =
        (1..=maxw).map(|w| FixedBaseMSMPrecompWindow::new(&g1s[..1], w)).collect();
    par_jobs(&run, &jobs, || (), |_, &(w, i)| {
        let full = w <= run.pick(6, 8);
        let mut digits: Vec<u64> = (0..1u64 << w).collect();
        if !full {
            let h = 1u64 << (w - 1);
            digits = vec![0, 1, 2, 3, h - 2, h - 1, h, h + 1, h + 2, 2 * h - 2, 2 * h - 1];
        }
        for d in digits {
            for bg in 0..3 {
                visit(&run, &format!("digit/{w}/{i}/{d}/{bg}"), || {
                    // 0: digit alone; 1: all ones below it; 2: all ones everywhere else
                    let sh = |v: Fr, e: usize| v * pow2(e);
                    let v = Fr::from(d);
                    let s = match bg {
                        0 => sh(v, i * w),
                        1 => sh(v, i * w) + pow2(i * w) - Fr::ONE,
                        _ => pow2(254) - Fr::ONE - sh(pow2(w) - Fr::ONE, i * w) + sh(v, i * w),
                    };
                    let want = G1Projective::generator() * (glog[0] * s);
                    ok(tables[w - 1].msm(&[s]) == want, "fixed-base", || format!("width {w}: wrong multiple"))
                });
            }
        }
    });
    // all contents of two neighbouring windows for small widths
    let maxw2 = run.pick(4, 5);
    let mut jobs = Vec::new();
    for w in 2..=maxw2 {
        for i in 0..255 / w {
            jobs.push((w, i));
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(w, i)| {
        for d in 0..1u64 << (2 * w) {
            visit(&run, &format!("digits2/{w}/{i}/{d}"), || {
                let s = Fr::from(d) * pow2(i * w);
                let want = G1Projective::generator() * (glog[0] * s);
                ok(tables[w - 1].msm(&[s]) == want, "fixed-base", || format!("width {w}: wrong multiple"))
            });
        }
    });
    // every number of independent generators, every width, several scalar patterns
    let maxn = run.pick(40, 70);
    let mut jobs = Vec::new();
    for n in 0..=maxn {
        for w in 0..=run.pick(8usize, 9) {
            jobs.push((n, w));
        }
    }
    jobs.push((64, 8));
    jobs.push((128, 8));
    if run.thorough() {
        jobs.extend([(64, 10), (64, 12), (64, 14), (200, 6), (513, 4)]);
    }
    jobs.reverse();
    par_jobs(&run, &jobs, || (), |_, &(n, w)| {
        if run.filter.as_ref().is_some_and(|f| !f.starts_with(&format!("fixed/{n}/{w}/"))) {
            return;
        }
        let m = match guard(|| {
            let pre = if w == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: w } };
            FixedBaseMSM::new(g1s[..n].to_vec(), pre)
        }) {
            Ok(m) => m,
            Err(p) => {
                run.fail(&format!("fixed/{n}/{w}/new"), format!("panic: {p}"));
                return;
            }
        };
        for pat in 0..6 + sc.len() {
            visit(&run, &format!("fixed/{n}/{w}/{pat}"), || {
                let sv: Vec<Fr> = (0..n)
                    .map(|i| match pat {
                        0 => gsc[i],
                        1 => sc[i % sc.len()],
                        2 => if i % 3 == 0 { gsc[i] } else { Fr::ZERO },
                        3 => if i + 1 == n { gsc[i] } else { Fr::ZERO },
                        4 => Fr::from(i as u64),
                        5 => -Fr::from(i as u64 * i as u64 * 977),
                        k => sc[k - 6],
                    })
                    .collect();
                let want = G1Projective::generator() * dot(&glog[..n], &sv);
                ok(m.msm(sv) == want, "fixed-base", || format!("{n} generators, width {w}: wrong sum"))
            });
        }
        // blst's own table (widths it supports, at least one generator)
        if n > 0 && (2..=8).contains(&w) && n % 8 == 1 {
            let b = FixedBaseMSMPrecompBLST::new(g1s[..n].to_vec(), w);
            for pat in 0..sc.len() + 1 {
                visit(&run, &format!("fixed/{n}/{w}/blst{pat}"), || {
                    let sv: Vec<Fr> = (0..n).map(|i| if pat == 0 { gsc[i] } else { sc[pat - 1] }).collect();
                    let want = G1Projective::generator() * dot(&glog[..n], &sv);
                    ok(b.msm(sv) == want, "fixed-base-blst", || format!("{n} generators, width {w}: wrong sum"))
                });
            }
        }
    });
    run.note("point_alphabet", "O, G, -G, P, -P, 2G");
    run.note("max_fixed_width", maxw);
    run.note("max_length", maxlen);
    run.finish(
        "A state is a list of (point, scalar) letters (or a pair of lists of unequal length, or a fixed-base table and a scalar list); \
         transitions extend or change it by one letter. All lists to length 3 over 6 points x 8 scalars; every length to the bound with \
         every special letter at every position of a generic list; every digit at every window position for every width; every pair of \
         unequal lengths with every identity mask. Oracle: logs of all points are known, so the sum is (sum k_i s_i)*G.",
        &["fixed-base generators are distinct points with unrelated logs (the documented precondition)"],
    )
}

fn pow2(e: usize) -> Fr {
    let mut r = Fr::ONE;
    for _ in 0..e {
        r = r.double();
    }
    r
}

pub fn c19() -> i32 {
    let run = Run::new("C19");
    let g = generic(31);
    // Small positive multiples of one generic point: no partial sum is ever opposite another
    // or the identity, while equal partial sums occur at every level of any addition tree.
    let small: Vec<Fr> = (0..9).map(|i| g * Fr::from(i)).collect();
    let smallp: Vec<G1Affine> = small.iter().map(|l| g1(*l)).collect();
    let logs: Vec<Fr> = (0..600).map(|i| generic(5000 + i)).collect();
    let pts = mul_many(&logs);
    let gp = G1Projective::generator();
    let sum_small = |w: &[usize]| gp * (g * Fr::from(w.iter().sum::<usize>() as u64));
    let check1 = |case: String, w: &[usize]| {
        visit(&run, &case, || {
            let v: Vec<G1Affine> = w.iter().map(|x| smallp[*x]).collect();
            ok(batch_addition_binary_tree_stride(v) == sum_small(w), "single", || format!("wrong sum"))
        });
    };
    // all words over {P, 2P}: short ones completely, then at the lengths around the threshold
    let mut lens: Vec<usize> = (0..=10).collect();
    lens.extend(run.pick(vec![16, 17], vec![11, 12, 16, 17, 18, 19, 20]));
    for n in lens {
        par_jobs(&run, &chunks(1 << n, 256), || (), |_, (a, b)| {
            for i in *a..*b {
                let w: Vec<usize> = word(i, 2, n).into_iter().map(|x| x + 1).collect();
                check1(format!("one/{}", name(&w)), &w);
            }
        });
    }
    run.sample("one/12212...: list of multiples of one point, all 2^17 of length 17");
    // every length to the bound: constant, periodic, and every pair of equal points in a generic list
    let maxn = run.pick(72, 140);
    let ns: Vec<usize> = (0..=maxn).collect();
    par_jobs(&run, &ns, || (), |_, &n| {
        for per in 1..=8usize {
            for a in 1..=3 {
                let w: Vec<usize> = (0..n).map(|i| 1 + (i / per + a) % 3).collect();
                check1(format!("period/{n}/{per}/{a}"), &w);
                let w: Vec<usize> = (0..n).map(|i| 1 + (i % per == 0) as usize * a).collect();
                check1(format!("comb/{n}/{per}/{a}"), &w);
            }
        }
        for a in 1..=8 {
            check1(format!("constant/{n}/{a}"), &vec![a; n]);
        }
        if n <= run.pick(40, 70) {
            for i in 0..n {
                for j in i..n {
                    // i == j: all points distinct
                    visit(&run, &format!("pair/{n}/{i}/{j}"), || {
                        let (mut v, mut l) = (pts[..n].to_vec(), logs[..n].to_vec());
                        v[j] = v[i];
                        l[j] = l[i];
                        let e = l.iter().fold(Fr::ZERO, |s, x| s + x);
                        ok(batch_addition_binary_tree_stride(v) == gp * e, "single", || "wrong sum".into())
                    });
                }
            }
        }
    });
    // many lists at once: all shapes over a set of lengths
    let sizes = [0usize, 1, 2, 3, 7, 16, 17, 33];
    let depth = run.pick(4, 5);
    let mut shapes: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![vec![]];
    for _ in 0..depth {
        let mut next = Vec::new();
        for s in &shapes {
            for x in 0..sizes.len() {
                let mut t: Vec<usize> = s.clone();
                t.push(x);
                next.push(t);
            }
        }
        all.extend(next.clone());
        shapes = next;
    }
    par_jobs(&run, &all, || (), |_, shape| {
        for pat in 0..3 {
            visit(&run, &format!("lists/{}/{pat}", name(shape)), || {
                let mut k = 0;
                let (mut v, mut want) = (Vec::new(), Vec::new());
                for (li, x) in shape.iter().enumerate() {
                    let (mut l, mut e) = (Vec::new(), Fr::ZERO);
                    for i in 0..sizes[*x] {
                        let (p, lg) = match pat {
                            0 => (pts[k], logs[k]),
                            1 => (smallp[1 + (i + li) % 2], small[1 + (i + li) % 2]),
                            _ => (smallp[1 + li % 3], small[1 + li % 3]),
                        };
                        l.push(p);
                        e += lg;
                        k += 1;
                    }
                    v.push(l);
                    want.push(gp * e);
                }
                let got = multi_batch_addition_binary_tree_stride(v);
                ok(got == want, "lists", || "a list's sum is wrong".into())
            });
        }
    });
    // long lists, around every power of two, and lists of very different lengths side by side
    let mut long = Vec::new();
    for k in 7..=run.pick(13u32, 15) {
        long.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    long.extend([600, 1000, 3000, 5000, 10000]);
    long.sort();
    long.reverse();
    let gen_log = |i: usize| logs[i % logs.len()] + Fr::from(i as u64 / logs.len() as u64);
    let longest = long[0];
    let lpts = mul_many(&(0..longest).map(gen_log).collect::<Vec<_>>());
    par_jobs(&run, &long, || (), |_, &n| {
        for a in [1usize, 8] {
            check1(format!("constant/{n}/{a}"), &vec![a; n]);
        }
        for per in [1usize, 2, 3, 64, 1000] {
            check1(format!("period/{n}/{per}/1"), &(0..n).map(|i| 1 + (i / per + 1) % 3).collect::<Vec<_>>());
        }
        visit(&run, &format!("generic/{n}"), || {
            let e = (0..n).map(gen_log).fold(Fr::ZERO, |s, x| s + x);
            ok(batch_addition_binary_tree_stride(lpts[..n].to_vec()) == gp * e, "single", || "wrong sum".into())
        });
    });
    let wide = [0usize, 1, 2, 15, 32, 63, 64, 65, 128, 257, 512, 1025];
    let mut jobs = Vec::new();
    for a in wide {
        for b in wide {
            jobs.push(vec![a, b]);
            for c in run.pick(vec![1usize, 64, 257], wide.to_vec()) {
                jobs.push(vec![a, b, c]);
                jobs.push(vec![a, c, 5, b]);
            }
        }
    }
    jobs.sort_by_key(|s| std::cmp::Reverse(s.iter().sum::<usize>()));
    jobs.dedup();
    par_jobs(&run, &jobs, || (), |_, shape| {
        for pat in 0..2 {
            let nm = shape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
            visit(&run, &format!("wide/{nm}/{pat}"), || {
                let (mut v, mut want, mut k) = (Vec::new(), Vec::new(), 0);
                for (li, n) in shape.iter().enumerate() {
                    let (mut l, mut e) = (Vec::new(), Fr::ZERO);
                    for i in 0..*n {
                        if pat == 0 {
                            l.push(lpts[k]);
                            e += gen_log(k);
                        } else {
                            l.push(smallp[1 + (i + li) % 2]);
                            e += small[1 + (i + li) % 2];
                        }
                        k += 1;
                    }
                    v.push(l);
                    want.push(gp * e);
                }
                ok(multi_batch_addition_binary_tree_stride(v) == want, "lists", || "a list's sum is wrong".into())
            });
        }
    });
    // conversion to affine form: all words over O, P, -P, 2P, Q (in representations with different
    // denominators), then every length with identities at every place
    let nl = [Fr::ZERO, g, -g, g.double(), generic(32)];
    let den = |k: Fr, i: usize| gp * (k + gen_log(i)) - gp * gen_log(i);
    let den2 = |k: Fr, i: usize| G2Projective::generator() * (k + gen_log(i)) - G2Projective::generator() * gen_log(i);
    let np: Vec<Vec<G1Projective>> = (0..6).map(|i| nl.iter().map(|k| den(*k, i)).collect()).collect();
    let np2: Vec<Vec<G2Projective>> = (0..6).map(|i| nl.iter().map(|k| den2(*k, i)).collect()).collect();
    let (na, na2): (Vec<G1Affine>, Vec<G2Affine>) = (nl.iter().map(|k| g1(*k)).collect(), nl.iter().map(|k| g2(*k)).collect());
    for n in 0..=run.pick(5usize, 6) {
        par_jobs(&run, &chunks(5usize.pow(n as u32), 64), || (), |_, (a, b)| {
            for i in *a..*b {
                let w = word(i, 5, n);
                visit(&run, &format!("affine/{}", name(&w)), || {
                    let a = g1_batch_normalize(&w.iter().enumerate().map(|(i, x)| np[i][*x]).collect::<Vec<_>>());
                    let b = g2_batch_normalize(&w.iter().enumerate().map(|(i, x)| np2[i][*x]).collect::<Vec<_>>());
                    ok(a == w.iter().map(|x| na[*x]).collect::<Vec<_>>() && b == w.iter().map(|x| na2[*x]).collect::<Vec<_>>(),
                        "affine", || "a converted point differs".into())
                });
            }
        });
    }
    let mut jobs: Vec<usize> = (6..=run.pick(70usize, 140)).collect();
    jobs.extend([127, 128, 129, 255, 256, 257, 1023, 1024, 1025]);
    jobs.extend(run.pick(vec![4097usize], vec![2049, 4095, 4096, 4097, 8193]));
    jobs.reverse();
    par_jobs(&run, &jobs, || (), |_, &n| {
        let proj: Vec<G1Projective> = (0..n).map(|i| lpts[i] + gp).collect();
        let aff: Vec<G1Affine> = proj.iter().map(|p| p.to_affine()).collect();
        let mut marks: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), (0..n).step_by(2).collect(), (0..n).step_by(3).collect(), (n / 2..n).collect()];
        if n <= 140 {
            marks.extend((0..n).map(|i| vec![i]));
        }
        marks.extend([vec![0, n - 1], vec![n / 2], vec![n - 2, n - 1], vec![0, 1]]);
        for (m, ids) in marks.iter().enumerate() {
            visit(&run, &format!("affinelen/{n}/{m}"), || {
                let (mut v, mut want) = (proj.clone(), aff.clone());
                for i in ids {
                    v[*i] = G1Projective::identity();
                    want[*i] = G1Affine::identity();
                }
                ok(g1_batch_normalize(&v) == want, "affine", || "a converted point differs".into())
            });
        }
    });
    // one list inside many: every number of equal-sized lists
    par_jobs(&run, &ns, || (), |_, &n| {
        for len in 0..=run.pick(5, 9) {
            visit(&run, &format!("grid/{n}/{len}"), || {
                let v: Vec<Vec<G1Affine>> =
                    (0..n).map(|i| (0..len).map(|j| smallp[1 + (i * 7 + j) % 8]).collect()).collect();
                let want: Vec<G1Projective> =
                    (0..n).map(|i| sum_small(&(0..len).map(|j| 1 + (i * 7 + j) % 8).collect::<Vec<_>>())).collect();
                ok(multi_batch_addition_binary_tree_stride(v) == want, "lists", || "a list's sum is wrong".into())
            });
        }
    });
    // all words over {P,2P} in one list of 33 split positions: two lists sharing the batch
    let w2 = run.pick(14, 18);
    par_jobs(&run, &chunks(1 << w2, 128), || (), |_, (a, b)| {
        for i in *a..*b {
            let bits: Vec<usize> = word(i, 2, w2).into_iter().map(|x| x + 1).collect();
            visit(&run, &format!("two/{}", name(&bits)), || {
                // lists of w2/2 and w2/2 letters, padded by constant lists so that the batch runs
                let (x, y) = bits.split_at(w2 / 2);
                let mk = |w: &[usize]| w.iter().map(|k| smallp[*k]).collect::<Vec<_>>();
                let pad = vec![3usize; 21];
                let v = vec![mk(x), mk(&pad), mk(y)];
                let want = vec![sum_small(x), sum_small(&pad), sum_small(y)];
                ok(multi_batch_addition_binary_tree_stride(v) == want, "lists", || "a list's sum is wrong".into())
            });
        }
    });
    // inversion: all short vectors over an alphabet, in both fields' types, then all lengths
    let al: Vec<Fr> = vec![Fr::ONE, -Fr::ONE, Fr::from(2), generic(41), root_of_unity(4)];
    for n in 0..=run.pick(6usize, 7) {
        par_jobs(&run, &chunks(5usize.pow(n as u32), 256), || (), |_, (a, b)| {
            for i in *a..*b {
                let w = word(i, 5, n);
                visit(&run, &format!("inv/{}", name(&w)), || {
                    let mut v: Vec<Fr> = w.iter().map(|x| al[*x]).collect();
                    batch_inverse(&mut v);
                    ok(v.iter().zip(&w).all(|(y, x)| *y * al[*x] == Fr::ONE), "inverse", || "not the inverse".into())
                });
            }
        });
    }
    let fpv = |i: usize| lpts[i].x();
    let mut ns: Vec<usize> = (0..=run.pick(300usize, 600)).collect();
    ns.extend(long.iter().filter(|n| **n > 300));
    let mut step: Vec<usize> = (310..longest).step_by(run.pick(173, 41)).collect();
    ns.append(&mut step);
    ns.sort();
    ns.reverse();
    par_jobs(&run, &ns, || (), |_, &n| {
        visit(&run, &format!("invlen/{n}"), || {
            let mut v: Vec<Fr> = (0..n).map(|i| generic(70000 + i as u64)).collect();
            batch_inverse(&mut v);
            let good = v.iter().enumerate().all(|(i, y)| *y * generic(70000 + i as u64) == Fr::ONE);
            let mut f: Vec<Fp> = (0..n).map(fpv).collect();
            batch_inverse(&mut f);
            let good = good && f.iter().enumerate().all(|(i, y)| *y * fpv(i) == Fp::ONE);
            ok(good, "inverse", || "not the inverse".into())
        });
    });
    // a shared scratch pad: all histories of sizes
    let szs = [0usize, 1, 2, 5, 9, 20];
    for d in 1..=run.pick(4, 5) {
        for i in 0..szs.len().pow(d as u32) {
            let w = word(i, szs.len(), d);
            visit(&run, &format!("scratch/{}", name(&w)), || {
                let mut pad = vec![Fr::from(99); 3];
                for (r, x) in w.iter().enumerate() {
                    let src: Vec<Fr> = (0..szs[*x]).map(|i| generic((r * 100 + i) as u64)).collect();
                    let mut v = src.clone();
                    batch_inverse_scratch_pad(&mut v, &mut pad);
                    if !v.iter().zip(&src).all(|(a, b)| *a * b == Fr::ONE) {
                        return Err(format!("call {r} (size {}) is wrong", szs[*x]));
                    }
                }
                Ok("scratch")
            });
        }
    }
    run.finish(
        "A state is the list (or lists) given to one batched call, or the history of a scratch pad. All words over {P,2P} at the lengths \
         around the batching threshold (collisions at every level of the addition tree), every length with constant, periodic and \
         one-equal-pair arrangements, all shapes of up to 4 lists over 8 lengths, lists around every power of two to 8193 alone and side by side with lists of other lengths, \
         all words over 5 field elements to length 6, inversions at every length to 300 and around every power of two, all \
         histories of scratch-pad sizes; conversions to affine form of all words over 5 points to length 5 and of longer lists with \
         identities at every place. Oracle: known logs and x*y=1.",
        &["points are not the identity and no two partial sums are opposite (documented precondition)"],
    )
}
