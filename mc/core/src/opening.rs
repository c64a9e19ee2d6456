//! C23: the multi-opening scheme at every small parameter choice, with a setup whose secret
//! the model knows.
use crate::{name, visit, word};
use bls12_381::fixed_base_msm::UsePrecomp;
use kzg_multi_open::commit_key::CommitKey;
use kzg_multi_open::verification_key::VerificationKey;
use kzg_multi_open::{Prover, ProverInput, Verifier};
use mc_common::*;

struct World {
    m: Model,
    mono: Vec<G1Affine>,
    verifier: Verifier,
}
fn world(n: usize, m: usize, l: usize) -> World {
    world_extra(n, m, l, 0)
}
/// A verification key with `extra` more powers in each group than needed.
fn world_extra(n: usize, m: usize, l: usize, extra: usize) -> World {
    let model = Model::new(n, m, l, generic(TAU_SEED + (n * 1000 + m * 10 + l) as u64));
    let (mono, _, mut g2) = model.setup_points();
    for k in 0..extra {
        g2.push((G2Projective::generator() * pow(model.tau, (l + 1 + k) as u64)).to_affine());
    }
    let g1s = if extra == 0 { mono[..l.max(1)].to_vec() } else { (0..l + 1 + extra).map(|k| g1(pow(model.tau, k as u64))).collect() };
    let vk = VerificationKey::new(g1s, g2, l, n);
    let verifier = Verifier::new(vk, m, m / l);
    World { mono: mono[..n].to_vec(), m: model, verifier }
}

#[derive(Clone)]
struct Item {
    commit: Fr,
    k: usize,
    cell: Vec<Fr>,
    proof: Fr,
    what: String,
}

pub fn c23() -> i32 {
    let run = Run::new("C23");
    let maxn = run.pick(32usize, 128);
    let mut shapes = Vec::new();
    let mut n = 2;
    while n <= maxn {
        let mut l = 1;
        while l < n {
            for f in [1usize, 2, 4] {
                let m = n * f;
                if m > l && m <= run.pick(64, 256) {
                    shapes.push((n, m, l));
                }
            }
            l *= 2;
        }
        n *= 2;
    }
    run.note("shapes", shapes.len());
    // proving
    let mut jobs = Vec::new();
    for s in &shapes {
        for w in run.pick(vec![0usize, 1, 3, 8], vec![0, 1, 2, 3, 4, 5, 6, 7, 8]) {
            if w > 3 && s.1 > run.pick(16, 64) && w != 8 {
                continue;
            }
            jobs.push((*s, w));
        }
    }
    jobs.reverse();
    let g = generic(81);
    par_jobs(&run, &jobs, || (), |_, &((n, m, l), w)| {
        let tag = format!("{n}.{m}.{l}/w{w}");
        if run.filter.as_ref().is_some_and(|f| !f.contains(&tag)) {
            return;
        }
        let wd = world(n, m, l);
        let pre = if w == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: w } };
        let pr = match guard(|| Prover::new(CommitKey::new(wd.mono.clone()), n, l, m, pre)) {
            Ok(p) => p,
            Err(e) => {
                run.fail(&format!("prover/{tag}"), format!("panic: {e}"));
                return;
            }
        };
        visit(&run, &format!("prover/{tag}"), || if pr.num_proofs() == m / l { Ok("prover") } else { Err("number of proofs".into()) });
        // polynomials by coefficients and data vectors
        let mut vs: Vec<(String, Vec<Fr>)> = Vec::new();
        let al = [Fr::ZERO, g, -Fr::ONE];
        if n <= run.pick(4, 4) {
            for i in 0..3usize.pow(n as u32) {
                let wv = word(i, 3, n);
                vs.push((name(&wv), wv.iter().map(|x| al[*x]).collect()));
            }
        } else {
            if n == 8 && (run.thorough() || w == 0) {
                for i in 0..256 {
                    let wv = word(i, 2, n);
                    vs.push((name(&wv), wv.iter().map(|x| al[*x]).collect()));
                }
            }
            vs.push(("zero".into(), vec![Fr::ZERO; n]));
            for i in 0..n {
                let mut v = vec![Fr::ZERO; n];
                v[i] = if i % 2 == 0 { Fr::ONE } else { g };
                vs.push((format!("unit{i}"), v));
                let mut v: Vec<Fr> = (0..n).map(|i| generic(8100 + i as u64)).collect();
                v[i] = Fr::ZERO;
                vs.push((format!("hole{i}"), v));
            }
        }
        vs.push(("dense".into(), (0..n).map(|i| generic(8200 + i as u64)).collect()));
        vs.push(("max".into(), vec![-Fr::ONE; n]));
        for (vn, v) in &vs {
            for data in [false, true] {
                visit(&run, &format!("prove/{tag}/{}{vn}", if data { "data:" } else { "poly:" }), || {
                    let inp = || if data { ProverInput::Data(v.clone()) } else { ProverInput::PolyCoeff(v.clone()) };
                    let blob = if data { v.clone() } else { wd.m.from_coeffs(v) };
                    let (c, ext) = (wd.m.commit(&blob), wd.m.extend(&blob));
                    let gp = G1Projective::generator();
                    if G1Projective::from(pr.commit(inp())) != gp * c {
                        return Err("commitment is not p(tau)*G".into());
                    }
                    let (proofs, cells) = pr.compute_multi_opening_proofs(inp());
                    if cells.len() != m / l || proofs.len() != m / l {
                        return Err(format!("{} cells and {} proofs", cells.len(), proofs.len()));
                    }
                    for k in 0..m / l {
                        if cells[k] != ext[k * l..(k + 1) * l] {
                            return Err(format!("evaluations of set {k}"));
                        }
                        if G1Projective::from(proofs[k]) != gp * wd.m.proof(c, k, &cells[k]) {
                            return Err(format!("proof of set {k}"));
                        }
                    }
                    if data && n <= m && cells.concat()[..n] != v[..] {
                        return Err("data is not in front of the evaluations".into());
                    }
                    Ok("proved")
                });
            }
        }
    });
    run.sample("prove/8.16.4/w3/data:01100101: n=8 coefficients, m=16 points, l=4 per proof, window 3");
    // verifying: every batch over an alphabet of true and false items
    let vshapes: Vec<(usize, usize, usize)> = shapes.iter().copied().filter(|s| s.0 <= run.pick(16, 64)).collect();
    let deep = |s: (usize, usize, usize)| s == (4, 8, 2) || (s == (2, 4, 1) || s == (8, 8, 4)) ;
    let mut jobs: Vec<((usize, usize, usize), usize, usize)> = Vec::new();
    for s in &vshapes {
        for part in 0..8 {
            jobs.push((*s, part, 0));
            if part < run.pick(2, 8) {
                jobs.push((*s, part, 1));
                jobs.push((*s, part, 2 * s.2 + 3));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &((n, m, l), part, extra)| {
        let wd = world_extra(n, m, l, extra);
        let tag = if extra == 0 { format!("{n}.{m}.{l}") } else { format!("{n}.{m}.{l}+{extra}") };
        let nk = m / l;
        let blobs = [
            (0..n).map(|i| generic(8300 + i as u64)).collect::<Vec<Fr>>(),
            wd.m.from_coeffs(&[vec![Fr::from(5)], vec![Fr::ZERO; n - 1]].concat()),
            vec![Fr::ZERO; n],
        ];
        let coms: Vec<Fr> = blobs.iter().map(|b| wd.m.commit(b)).collect();
        let ks: Vec<usize> = if nk <= 4 { (0..nk).collect() } else { vec![0, 1, nk / 2, nk - 1] };
        let mut items: Vec<Item> = Vec::new();
        for (bi, b) in blobs.iter().enumerate() {
            let ext = wd.m.extend(b);
            for &k in &ks {
                let cell = ext[k * l..(k + 1) * l].to_vec();
                let pf = wd.m.proof(coms[bi], k, &cell);
                let base = Item { commit: coms[bi], k, cell, proof: pf, what: format!("b{bi}k{k}") };
                items.push(base.clone());
                if bi == 1 && k != ks[0] && !run.thorough() {
                    continue;
                }
                for j in 0..l {
                    if j == 0 || j + 1 == l {
                        let mut x = base.clone();
                        x.cell[j] += Fr::ONE;
                        x.what += &format!("+cell{j}");
                        items.push(x);
                    }
                }
                let mut x = base.clone();
                x.proof += Fr::ONE;
                x.what += "+proof";
                items.push(x);
                let mut x = base.clone();
                x.proof = Fr::ZERO;
                x.what += "+noproof";
                items.push(x);
                let mut x = base.clone();
                x.commit = coms[(bi + 1) % 3];
                x.what += "+commit";
                items.push(x);
                let mut x = base.clone();
                x.k = (k + 1) % nk;
                x.what += "+index";
                items.push(x);
            }
        }
        let pts: Vec<(G1Affine, G1Affine)> = items.iter().map(|i| (g1(i.commit), g1(i.proof))).collect();
        let truth: Vec<bool> = items.iter().map(|i| wd.m.item_true(i.commit, i.k, &i.cell, i.proof)).collect();
        // dedup: commitments listed once, in order of first use; or (layout 1) all listed separately;
        // or (layout 2) once in reverse order with an unused one first
        let batch = |w: &[usize], layout: usize| {
            let ids: Vec<String> = w.iter().map(|i| items[*i].what.clone()).collect();
            visit(&run, &format!("verify/{tag}/{layout}/{}", ids.join(",")), || {
                let (mut dc, mut ci): (Vec<G1Affine>, Vec<u64>) = (vec![], vec![]);
                if layout == 1 {
                    dc = w.iter().map(|i| pts[*i].0).collect();
                    ci = (0..w.len() as u64).collect();
                } else {
                    if layout == 2 {
                        dc = vec![g1(g)];
                        for i in w.iter().rev() {
                            if !dc.contains(&pts[*i].0) {
                                dc.push(pts[*i].0);
                            }
                        }
                    }
                    for i in w {
                        let p = dc.iter().position(|x| *x == pts[*i].0).unwrap_or_else(|| {
                            dc.push(pts[*i].0);
                            dc.len() - 1
                        });
                        ci.push(p as u64);
                    }
                }
                let ix: Vec<u64> = w.iter().map(|i| items[*i].k as u64).collect();
                let ev: Vec<Vec<Fr>> = w.iter().map(|i| items[*i].cell.clone()).collect();
                let pf: Vec<G1Affine> = w.iter().map(|i| pts[*i].1).collect();
                let got = wd.verifier.verify_multi_opening(&dc, &ci, &ix, &ev, &pf).is_ok();
                let want = w.iter().all(|i| truth[*i]);
                if got == want {
                    Ok(if want { "accepted" } else { "rejected" })
                } else if got {
                    Err("accepted a batch with a false item".into())
                } else {
                    Err("rejected a batch of true items".into())
                }
            });
        };
        if part == 0 {
            batch(&[], 0);
        }
        for a in 0..items.len() {
            if a % 8 != part {
                continue;
            }
            for lay in 0..3 {
                batch(&[a], lay);
            }
            if extra == 0 && (deep((n, m, l)) || run.thorough() && n <= 16) {
                for b in 0..items.len() {
                    batch(&[a, b], (a + b) % 3);
                }
            }
            // one item at each place of the batch of all true items
            let honest: Vec<usize> = (0..items.len()).filter(|i| truth[*i]).take(10).collect();
            for p in [0, honest.len() / 2, honest.len()] {
                let mut w = honest.clone();
                w.insert(p, a);
                batch(&w, (a + p) % 3);
            }
        }
    });
    // many sets: more of them than a byte or a small table can number
    let wide = run.pick(
        vec![(128usize, 256usize, 1usize), (256, 512, 1), (256, 1024, 2), (1024, 2048, 4), (2048, 2048, 64)],
        vec![(128, 256, 1), (256, 512, 1), (512, 512, 1), (256, 1024, 2), (1024, 2048, 1), (1024, 4096, 2), (1024, 2048, 4), (2048, 8192, 4), (2048, 2048, 64), (4096, 8192, 16)],
    );
    let jobs: Vec<_> = wide.iter().flat_map(|s| (0..8).map(move |part| (*s, part))).rev().collect();
    par_jobs(&run, &jobs, || (), |_, &((n, m, l), part)| {
        let tag = format!("{n}.{m}.{l}");
        let nk = m / l;
        let wd = world(n, m, l);
        let blobs = [(0..n).map(|i| generic(8300 + i as u64)).collect::<Vec<Fr>>(), wd.m.from_coeffs(&[vec![Fr::ZERO; n - 1], vec![Fr::from(5)]].concat())];
        let coms: Vec<Fr> = blobs.iter().map(|b| wd.m.commit(b)).collect();
        let exts: Vec<Vec<Fr>> = blobs.iter().map(|b| wd.m.extend(b)).collect();
        if part < 4 {
            // proving, with and without tables
            let w = [0usize, 5][part % 2];
            let b = part / 2;
            visit(&run, &format!("wide/{tag}/prove/w{w}/{b}"), || {
                let pre = if w == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: w } };
                let pr = Prover::new(CommitKey::new(wd.mono.clone()), n, l, m, pre);
                let gp = G1Projective::generator();
                if G1Projective::from(pr.commit(ProverInput::Data(blobs[b].clone()))) != gp * coms[b] {
                    return Err("commitment is not p(tau)*G".into());
                }
                let (proofs, cells) = pr.compute_multi_opening_proofs(ProverInput::Data(blobs[b].clone()));
                if cells.len() != nk || proofs.len() != nk {
                    return Err(format!("{} cells and {} proofs", cells.len(), proofs.len()));
                }
                for k in 0..nk {
                    if cells[k] != exts[b][k * l..(k + 1) * l] {
                        return Err(format!("evaluations of set {k}"));
                    }
                    if G1Projective::from(proofs[k]) != gp * wd.m.proof(coms[b], k, &cells[k]) {
                        return Err(format!("proof of set {k}"));
                    }
                }
                Ok("proved")
            });
        }
        // batches: items (blob, set), the one at `bad` with a wrong evaluation
        let batch = |what: String, its: &[(usize, usize)], bad: Option<usize>| {
            visit(&run, &format!("wide/{tag}/{what}"), || {
                let dc: Vec<G1Affine> = coms.iter().map(|c| g1(*c)).collect();
                let ci: Vec<u64> = its.iter().map(|i| i.0 as u64).collect();
                let ix: Vec<u64> = its.iter().map(|i| i.1 as u64).collect();
                let mut ev: Vec<Vec<Fr>> = its.iter().map(|(b, k)| exts[*b][k * l..(k + 1) * l].to_vec()).collect();
                let pf: Vec<G1Affine> = its.iter().zip(&ev).map(|((b, k), e)| g1(wd.m.proof(coms[*b], *k, e))).collect();
                if let Some(p) = bad {
                    ev[p][l / 2] += Fr::ONE;
                }
                let got = wd.verifier.verify_multi_opening(&dc, &ci, &ix, &ev, &pf).is_ok();
                match (got, bad) {
                    (true, None) => Ok("accepted"),
                    (false, Some(_)) => Ok("rejected"),
                    (true, _) => Err("accepted a batch with a false item".into()),
                    _ => Err("rejected a batch of true items".into()),
                }
            });
        };
        let mut count = 0;
        let mut mine = || {
            count += 1;
            count % 8 == part
        };
        let bits = nk.trailing_zeros();
        for bit in 0..bits {
            let d = 1usize << bit;
            for k in [0, 1, nk - 1 - d, (nk - d) / 2] {
                if k + d >= nk {
                    continue;
                }
                for (bn, (x, y)) in [(0, 0), (0, 1), (1, 0)].into_iter().enumerate() {
                    for bad in [None, Some(0), Some(1)] {
                        if mine() {
                            batch(format!("pair/{bn}/{k},{}/{bad:?}", k + d), &[(x, k), (y, k + d)], bad);
                        }
                    }
                }
            }
        }
        // all sets at once
        for bn in 0..2 {
            let all: Vec<(usize, usize)> = (0..nk).map(|k| (bn * (k & 1), k)).collect();
            for bad in [None, Some(0), Some(nk - 1), Some(nk / 2)] {
                if mine() {
                    batch(format!("all/{bn}/{bad:?}"), &all, bad);
                }
            }
        }
    });
    run.sample("wide/256.512.1/pair/1/128,256/None: a batch of two true items 128 sets apart");
    run.finish(
        "A state is (n, m, l, precomputation, polynomial) for the prover and (n, m, l, batch, layout of commitments) for the verifier. All \
         power-of-two shapes n <= bound, l < n, m in {n,2n,4n}; all vectors over {0,g,-1} for n <= 4 (over {0,g} for n = 8), every unit and \
         every single hole for larger n, as coefficients and as data; batches: empty, every item alone in three commitment layouts, all \
         pairs on three shapes, every item at three places of an honest batch; verification keys with exactly the needed powers and with more; shapes of up to 512 (thorough: 2048) sets with every pair of sets a power of two apart and all sets at once. Oracle: field arithmetic with the known secret.",
        &["polynomial length equals the setup's, cell size below it, at least as many opened points as coefficients (the constructor's preconditions)"],
    )
}
