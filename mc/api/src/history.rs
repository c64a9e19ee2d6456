//! C11: operation histories on one context. Every operation's result is determined by its
//! arguments alone (the model's), so the reachable result state of a context is one state; the
//! explored graph is that of histories, covered by de Bruijn walks: every word of operations of
//! the bound occurs as a contiguous part of a walk on one context.
use crate::util::*;
use std::sync::Arc;

#[derive(Clone)]
pub enum Op {
    Commit(Blob, Option<[u8; 48]>),
    Compute(Blob, Option<Arc<Row>>),
    Verify(Arc<Req>, Verdict),
    Recover(Arc<(Vec<u64>, Vec<CellB>)>, Option<Arc<Row>>),
}
impl Op {
    pub fn run(&self, ctx: &DASContext) -> Result<(), String> {
        match self {
            Op::Commit(b, want) => {
                let got = commit(ctx, b)?.ok();
                if got != *want {
                    return Err(format!("commitment {:?} instead of {:?}", got.map(|x| hex(&x)), want.map(|x| hex(&x))));
                }
            }
            Op::Compute(b, want) => match (compute(ctx, b)?, want) {
                (Ok((c, p)), Some(r)) => {
                    if let Some(d) = diff_cells(&c, &r.cell_bytes).or_else(|| diff_proofs(&p, &r.proof_bytes)) {
                        return Err(d);
                    }
                }
                (Err(()), None) => {}
                (g, w) => return Err(format!("success {} instead of {}", g.is_ok(), w.is_some())),
            },
            Op::Verify(r, want) => {
                let got = verify(ctx, r);
                if got != *want {
                    return Err(format!("verdict {got:?} instead of {want:?}"));
                }
            }
            Op::Recover(q, want) => {
                let cells: Vec<&[u8; 2048]> = q.1.iter().map(|c| &**c).collect();
                match (recover(ctx, &q.0, &cells)?, want) {
                    (Ok((c, p)), Some(r)) => {
                        if let Some(d) = diff_cells(&c, &r.cell_bytes).or_else(|| diff_proofs(&p, &r.proof_bytes)) {
                            return Err(d);
                        }
                    }
                    (Err(()), None) => {}
                    (g, w) => return Err(format!("success {} instead of {}", g.is_ok(), w.is_some())),
                }
            }
        }
        Ok(())
    }
}

/// Operations whose arguments are near to each other (one component apart), so that a result
/// remembered from one and given to another is wrong.
pub fn alphabet(w: &World) -> (Vec<(String, Op)>, Vec<(String, Op)>) {
    let a = w.row("gen:1");
    let b = w.row("gen:1+4095=g2"); // same but the last element
    let c = w.row("gen:1+0=g2"); // same but the first element
    let z = w.row("const:0");
    let mut light: Vec<(String, Op)> = vec![];
    let mut heavy: Vec<(String, Op)> = vec![];
    for (n, r) in [("A", &a), ("B", &b), ("C", &c), ("Z", &z)] {
        light.push((format!("commit{n}"), Op::Commit(r.blob_bytes.clone(), Some(r.commit_bytes))));
    }
    let bad = |r: &Row, p: usize| {
        let mut x = r.blob_bytes.clone();
        x[32 * p..32 * p + 32].copy_from_slice(&R_BE);
        x
    };
    light.push(("commitBad".into(), Op::Commit(bad(&a, 4095), None)));
    light.push(("computeBad".into(), Op::Compute(bad(&b, 4095), None)));
    let req = |items: &[(&Row, usize)]| Req {
        commits: items.iter().map(|(r, _)| r.commit_bytes).collect(),
        idx: items.iter().map(|(_, k)| *k as u64).collect(),
        cells: items.iter().map(|(r, k)| r.cell_bytes[*k].clone()).collect(),
        proofs: items.iter().map(|(r, k)| r.proof_bytes[*k]).collect(),
    };
    let base = [(&*a, 5), (&*b, 5), (&*a, 77)];
    let mut v = |n: &str, q: Req, want: Verdict| light.push((n.to_string(), Op::Verify(Arc::new(q), want)));
    v("verify", req(&base), Verdict::Accept);
    let mut q = req(&base);
    q.proofs.swap(0, 2);
    v("verifySwapP", q, Verdict::InvalidProof);
    let mut q = req(&base);
    q.cells[2] = a.cell_bytes[78].clone();
    v("verifyWrongCell", q, Verdict::InvalidProof);
    let mut q = req(&base);
    q.idx[1] = 6;
    v("verifyWrongIdx", q, Verdict::InvalidProof);
    let mut q = req(&base);
    q.commits[1] = a.commit_bytes;
    v("verifyWrongC", q, Verdict::InvalidProof);
    let mut q = req(&base);
    q.proofs[0] = [0xff; 48];
    v("verifyBadP", q, Verdict::Error);
    let mut q = req(&base);
    q.proofs.pop();
    v("verifyShort", q, Verdict::Error);
    v("verifyEmpty", req(&[]), Verdict::Accept);
    v("verifyZero", req(&[(&z, 3), (&a, 3)]), Verdict::Accept);
    // the same x coordinates with the other sign, points with the same leading bytes
    let neg = |b: &[u8; 48]| {
        let mut n = *b;
        n[0] ^= 0x20;
        n
    };
    let mut q = req(&base);
    q.commits[0] = neg(&q.commits[0]);
    q.commits[2] = q.commits[0];
    v("verifyNegC", q, Verdict::InvalidProof);
    let mut q = req(&base);
    q.proofs[1] = neg(&q.proofs[1]);
    v("verifyNegP", q, Verdict::InvalidProof);
    let mut q = req(&base);
    q.commits[2][47] ^= 1; // the last byte: another x, or none
    let want = if point_ok(&q.commits[2]) { Verdict::InvalidProof } else { Verdict::Error };
    v("verifyNearC", q, want);
    let mut q = req(&base);
    q.proofs[2][0] &= 0x7f; // the same without the compression flag
    v("verifyFlagP", q, Verdict::Error);
    let mut q = req(&base);
    q.cells.rotate_left(1);
    v("verifyRotCells", q, Verdict::InvalidProof);
    // the same values written with the group order added: not canonical
    let plus_r = |x: &mut [u8]| {
        let mut c = 0u16;
        for i in (0..32).rev() {
            let t = x[i] as u16 + R_BE[i] as u16 + c;
            x[i] = t as u8;
            c = t >> 8;
        }
        assert_eq!(c, 0);
    };
    let mut q = req(&base);
    plus_r(&mut q.cells[1][2016..]);
    v("verifyCell+r", q, Verdict::Error);
    let mut x = a.blob_bytes.clone();
    plus_r(&mut x[..32]);
    light.push(("commitA+r".into(), Op::Commit(x.clone(), None)));
    light.push(("computeA+r".into(), Op::Compute(x, None)));
    // the same elements in another order
    let mut sw = a.blob.clone();
    sw.swap(17, 4000);
    let sw = Arc::new(Row::new(&w.m, "gen:1 swapped", sw));
    light.push(("commitSwapped".into(), Op::Commit(sw.blob_bytes.clone(), Some(sw.commit_bytes))));
    heavy.push(("computeSwapped".into(), Op::Compute(sw.blob_bytes.clone(), Some(sw.clone()))));
    let rq = |r: &Row, s: &[usize]| (s.iter().map(|i| *i as u64).collect::<Vec<_>>(), s.iter().map(|i| r.cell_bytes[*i].clone()).collect::<Vec<_>>());
    let s64: Vec<usize> = (0..64).map(|i| 2 * i + (i % 3 == 0) as usize).collect();
    let s65: Vec<usize> = (0..65).collect();
    let mut x = rq(&a, &s65);
    x.1[64] = b.cell_bytes[64].clone();
    light.push(("recoverInconsistent".into(), Op::Recover(Arc::new(x), None)));
    light.push(("recoverFew".into(), Op::Recover(Arc::new(rq(&a, &s64[..63])), None)));
    let mut x = rq(&a, &s64);
    x.0[1] = x.0[0];
    light.push(("recoverDup".into(), Op::Recover(Arc::new(x), None)));

    heavy.push(("computeA".into(), Op::Compute(a.blob_bytes.clone(), Some(a.clone()))));
    heavy.push(("computeB".into(), Op::Compute(b.blob_bytes.clone(), Some(b.clone()))));
    heavy.push(("computeZ".into(), Op::Compute(z.blob_bytes.clone(), Some(z.clone()))));
    heavy.push(("recoverA".into(), Op::Recover(Arc::new(rq(&a, &s64)), Some(a.clone()))));
    heavy.push(("recoverB".into(), Op::Recover(Arc::new(rq(&b, &s64)), Some(b.clone()))));
    let mut rev = s64.clone();
    rev.reverse();
    heavy.push(("recoverArev".into(), Op::Recover(Arc::new(rq(&a, &rev)), Some(a.clone()))));
    heavy.push(("recoverC65".into(), Op::Recover(Arc::new(rq(&c, &s65)), Some(c.clone()))));
    // cell sets with the same count, first and last index, sum; the same set with two cells exchanged
    let e1: Vec<usize> = (0..32).chain(96..128).collect();
    let mut e2 = e1.clone();
    (e2[10], e2[50]) = (40, 84); // 10 and 114 replaced: the sum is the same
    e2.sort();
    assert_eq!(e1.iter().sum::<usize>(), e2.iter().sum::<usize>());
    heavy.push(("recoverE1".into(), Op::Recover(Arc::new(rq(&a, &e1)), Some(a.clone()))));
    heavy.push(("recoverE2".into(), Op::Recover(Arc::new(rq(&a, &e2)), Some(a.clone()))));
    let first: Vec<usize> = (0..64).collect();
    let mut exch = rq(&a, &first);
    exch.1.swap(2, 3);
    let mut eb = a.blob.clone();
    for j in 0..N_CELL {
        eb.swap(2 * N_CELL + j, 3 * N_CELL + j);
    }
    heavy.push(("recoverFirst".into(), Op::Recover(Arc::new(rq(&a, &first)), Some(a.clone()))));
    heavy.push(("recoverExchanged".into(), Op::Recover(Arc::new(exch), Some(Arc::new(Row::new(&w.m, "gen:1 cells exchanged", eb))))));
    (light, heavy)
}

/// A cyclic sequence over k symbols in which every word of length n occurs exactly once.
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    db(1, 1, n, k, &mut a, &mut out);
    out
}

pub fn c11() -> i32 {
    let run = Run::new("C11");
    let w = World::new(8);
    let (light, heavy) = alphabet(&w);
    let mut all = light.clone();
    all.extend(heavy.iter().cloned());
    // walks: (name, operations, order n, symbols, threads)
    let pick = |names: &[&str]| -> Vec<(String, Op)> { names.iter().map(|n| all.iter().find(|x| x.0 == *n).unwrap_or_else(|| panic!("{n}")).clone()).collect() };
    let cheap3 = ["verify", "verifySwapP", "verifyBadP", "verifyEmpty", "commitBad", "recoverFew", "recoverDup", "verifyShort"];
    let mixed3 = ["computeA", "recoverB", "verifyWrongCell", "commitA"];
    let mut walks: Vec<(String, Vec<(String, Op)>, usize, usize)> = vec![
        ("light2".into(), light.clone(), 2, 1),
        ("heavy2".into(), heavy.clone(), 2, 1),
        ("points3".into(), pick(&["verify", "verifyNegC", "verifyNegP", "verifyNearC", "verifyFlagP", "verifyBadP", "verifyWrongC", "verifyZero"]), 3, 1),
        ("cheap3".into(), pick(&cheap3), 3, 1),
        ("mixed2".into(), pick(&["computeA", "computeBad", "recoverA", "recoverInconsistent", "verify", "verifyWrongC", "commitB", "recoverArev"]), 2, 1),
        ("mixed2m".into(), pick(&["computeA", "computeBad", "recoverA", "recoverInconsistent", "verify", "verifyWrongC", "commitB", "recoverArev"]), 2, 4),
        ("mixed3".into(), pick(&mixed3), 3, 1),
        ("light2m".into(), light.clone(), 2, 4),
    ];
    if run.thorough() {
        walks.push(("light3".into(), light.clone(), 3, 1));
        walks.push(("heavy3".into(), heavy.clone(), 3, 1));
        walks.push(("all2".into(), all.clone(), 2, 1));
        walks.push(("cheap4".into(), pick(&cheap3), 4, 1));
        walks.push(("mixed4".into(), pick(&mixed3), 4, 1));
    }
    // split the walks into parts of bounded cost, each on its own fresh context; parts overlap
    // by n-1 operations so that every word stays inside one part
    struct Part {
        walk: usize,
        seq: Vec<usize>,
        at: usize,
    }
    let mut parts = vec![];
    for (wi, (_, ops, n, _)) in walks.iter().enumerate() {
        let mut s = de_bruijn(ops.len(), *n);
        let head: Vec<usize> = s[..n - 1].to_vec();
        s.extend(head);
        let heavy_walk = ops.iter().any(|o| o.0.starts_with("recoverA") || o.0 == "computeA");
        let len = run.pick(if heavy_walk { 40 } else { 220 }, if heavy_walk { 150 } else { 2500 });
        let mut i = 0;
        loop {
            let e = (i + len + n - 1).min(s.len());
            parts.push(Part { walk: wi, seq: s[i..e].to_vec(), at: i });
            i += len;
            if i + n - 1 >= s.len() {
                break;
            }
        }
    }
    run.note("walk_parts", parts.len());
    run.note("alphabet", all.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" "));
    let order: Vec<usize> = (0..parts.len()).collect();
    par_jobs(&run, &order, || (), |_, &pi| {
        let p = &parts[pi];
        let (name, ops, n, threads) = &walks[p.walk];
        let case = format!("{name}@{}", p.at);
        if !run.wants(&case) {
            return;
        }
        let ctx = make_ctx(&w.setup, *threads, None);
        let mut hist: Vec<usize> = vec![];
        for o in &p.seq {
            hist.push(*o);
            run.transition();
            // the state: which context, and the last n operations it served
            let tail: Vec<&str> = hist.iter().rev().take(*n).map(|x| ops[*x].0.as_str()).collect();
            run.state(&(name, &tail));
            let r = ops[*o].1.run(&ctx);
            run.validated("result equals the one of a fresh context");
            if let Err(e) = r {
                let tail: Vec<&str> = hist.iter().rev().take(6).rev().map(|x| ops[*x].0.as_str()).collect();
                run.fail(&case, format!("after the history ..{} (operation {} of the walk): {e}", tail.join(","), hist.len()));
                return;
            }
        }
    });
    // long lives: one context serves many different arguments of one kind, then the same again
    // (and, for verification, the same with a neighbour's component)
    let blobs = run.pick(130usize, 1100);
    let (n_compute, n_recover) = run.pick((40usize, 40usize), (300, 600));
    let lives = ["commit", "compute", "recover-sets", "recover-blobs", "verify", "batch", "refused"];
    par_jobs(&run, &lives, || (), |_, life| {
        let case = format!("life:{life}");
        if !run.wants(&case) {
            return;
        }
        let ctx = make_ctx(&w.setup, 1, None);
        let a = w.row("gen:1");
        let mut served = 0usize;
        let mut go = |op: Op, what: String| -> bool {
            served += 1;
            run.transition();
            run.state(&(&case, served));
            run.validated("result equals the one of a fresh context");
            match op.run(&ctx) {
                Err(e) => {
                    run.fail(&case, format!("operation {served} ({what}): {e}"));
                    false
                }
                Ok(()) => true,
            }
        };
        let sparse = |i: usize| {
            // blobs that differ in two elements only
            let mut b = a.blob.clone();
            b[i % N_BLOB] = generic(500_000 + i as u64);
            b[(i * 31 + 7) % N_BLOB] = Fr::from(i as u64);
            b
        };
        match *life {
            "commit" => {
                for round in 0..2 {
                    for i in 0..blobs {
                        let b = sparse(i);
                        if !go(Op::Commit(to_blob(&b), Some(g1_bytes(w.m.commit(&b)))), format!("blob {i}, round {round}")) {
                            return;
                        }
                    }
                }
            }
            "compute" => {
                for round in 0..2 {
                    for i in 0..if round == 0 { n_compute } else { n_compute.min(5) } {
                        let r = Arc::new(Row::new(&w.m, "life", sparse(i)));
                        if !go(Op::Compute(r.blob_bytes.clone(), Some(r.clone())), format!("blob {i}, round {round}")) {
                            return;
                        }
                    }
                }
            }
            "recover-sets" | "recover-blobs" => {
                for round in 0..2 {
                    for i in 0..if round == 0 { n_recover } else { n_recover.min(5) } {
                        let r = if *life == "recover-sets" { a.clone() } else { Arc::new(Row::new(&w.m, "life", sparse(i))) };
                        // all but a different single cell, or half with a different start
                        let set: Vec<usize> = match (*life, i % 2) {
                            ("recover-blobs", _) => (0..64).map(|k| (k * 3) % 128).collect(),
                            (_, 0) => (0..128).filter(|k| *k != i * 5 % 128).collect(),
                            _ => (0..64).map(|k| (k + i) % 128).collect(),
                        };
                        let q = (set.iter().map(|k| *k as u64).collect(), set.iter().map(|k| r.cell_bytes[*k].clone()).collect());
                        if !go(Op::Recover(Arc::new(q), Some(r)), format!("request {i}, round {round}")) {
                            return;
                        }
                    }
                }
            }
            "verify" => {
                // constants: the commitment is the value, the proof the identity
                let n = run.pick(900usize, 20_000);
                let pts: Vec<[u8; 48]> = mul_many(&(1..=n as u64).map(Fr::from).collect::<Vec<_>>()).iter().map(|p| p.to_compressed()).collect();
                let id = g1_bytes(Fr::ZERO);
                for round in 0..2 {
                    for i in 0..n {
                        let req = |c: usize, k: usize| Arc::new(Req {
                            commits: vec![pts[c]],
                            idx: vec![k as u64],
                            cells: vec![to_cell(&vec![Fr::from(i as u64 + 1); N_CELL])],
                            proofs: vec![id],
                        });
                        let k = (i + round) % N_CELLS;
                        if !go(Op::Verify(req(i, k), Verdict::Accept), format!("item {i}, round {round}"))
                            || !go(Op::Verify(req((i + 1) % n, k), Verdict::InvalidProof), format!("item {i} with the next commitment, round {round}"))
                        {
                            return;
                        }
                    }
                }
            }
            "batch" => {
                // every batch full of new points
                let n = 700u64;
                let id = g1_bytes(Fr::ZERO);
                for b in 0..run.pick(12u64, 60) {
                    let ks: Vec<Fr> = (0..n).map(|i| Fr::from(b / 2 * n + i + 1)).collect();
                    let pts: Vec<[u8; 48]> = mul_many(&ks).iter().map(|p| p.to_compressed()).collect();
                    let cells: Vec<CellB> = ks.iter().map(|k| to_cell(&vec![*k; N_CELL])).collect();
                    let mut req = Req { commits: pts, idx: (0..n).map(|i| (i + b) % 128).collect(), cells, proofs: vec![id; n as usize] };
                    if !go(Op::Verify(Arc::new(Req { commits: req.commits.clone(), idx: req.idx.clone(), cells: req.cells.clone(), proofs: req.proofs.clone() }), Verdict::Accept), format!("batch {b}")) {
                        return;
                    }
                    let p = (b * 97 % n) as usize;
                    req.commits[p] = req.commits[(p + 256) % n as usize];
                    if !go(Op::Verify(Arc::new(req), Verdict::InvalidProof), format!("batch {b} with one commitment of another item")) {
                        return;
                    }
                }
            }
            _ => {
                // more refusals than any counter of 16 bits holds
                let cheap: Vec<&(String, Op)> = light.iter().filter(|x| ["recoverFew", "recoverDup", "verifyShort", "verifyEmpty"].contains(&x.0.as_str())).collect();
                assert_eq!(cheap.len(), 4);
                for i in 0..run.pick(70_000usize, 300_000) {
                    let (n, o) = cheap[i % 4];
                    if !go(o.clone(), format!("{n}, {i}")) {
                        return;
                    }
                }
                for (n, o) in light.iter().chain(heavy.iter().filter(|x| x.0.ends_with('A'))) {
                    if !go(o.clone(), format!("{n} after the refusals")) {
                        return;
                    }
                }
            }
        }
    });
    // several contexts: all interleavings of create/use/drop of two contexts in which each is
    // created, used and dropped once (20 interleavings of CUD and CUD; contexts of different
    // setups and settings)
    let m2 = Model::new(N_BLOB, N_EXT, N_CELL, generic(4242));
    let setup2 = TrustedSetup::from_json_unchecked(&crate::util::setup_json(&m2));
    let row2 = Row::new(&m2, "gen:1", named_blob(&m2, "gen:1"));
    let row1 = w.row("gen:1");
    let mut inter = vec![];
    for mask in 0u32..64 {
        if mask.count_ones() == 3 {
            inter.push(mask);
        }
    }
    let inter: Vec<u32> = if run.thorough() { inter } else { inter.into_iter().step_by(3).collect() };
    par_jobs(&run, &inter, || (), |_, mask| {
        let case = format!("contexts:{mask:06b}");
        if !run.wants(&case) {
            return;
        }
        run.state(&case);
        let mut c: [Option<DASContext>; 2] = [None, None];
        let mut step = [0; 2];
        for i in 0..6 {
            run.transition();
            let who = (mask >> i & 1) as usize;
            match step[who] {
                0 => c[who] = Some(make_ctx(if who == 0 { &w.setup } else { &setup2 }, 1, None)),
                1 => {
                    let r = if who == 0 { &*row1 } else { &row2 };
                    let x = c[who].as_ref().unwrap();
                    run.validated("result equals the one of a fresh context");
                    run.expect(commit(x, &r.blob_bytes) == Ok(Ok(r.commit_bytes)), &case, || format!("wrong commitment on context {who}"));
                    let q = |commit: [u8; 48]| Req { commits: vec![commit], idx: vec![9], cells: vec![r.cell_bytes[9].clone()], proofs: vec![r.proof_bytes[9]] };
                    run.expect(verify(x, &q(r.commit_bytes)) == Verdict::Accept, &case, || format!("honest item refused on context {who}"));
                    let foreign = if who == 0 { row2.commit_bytes } else { row1.commit_bytes };
                    run.expect(verify(x, &q(foreign)) == Verdict::InvalidProof, &case, || format!("false item not rejected on context {who}"));
                }
                _ => c[who] = None,
            }
            step[who] += 1;
        }
    });
    run.sample("light2: every ordered pair of the light operations occurs on one context");
    run.sample("cheap3: de Bruijn walk of order 3 over 8 cheap operations (512 words)");
    run.sample("contexts:010110 (create/use/drop of two contexts with different setups, interleaved)");
    #[cfg(feature = "small")]
    mc_small::c11(&run);
    run.finish(
        "transitions are operations executed on a live context, states are (walk, last n operations served); de Bruijn walks make every word of 2 (3, 4) operations of the alphabet occur on one context, operations differ from each other in one component (a last element, one proof, one cell, one index, the order of cells) or are malformed; every result is compared with the model's, which depends on the arguments only; plus long lives of one context (hundreds of different arguments of one kind, then the same again; 70000 refusals) and interleavings of creation, use and destruction of two contexts with different setups",
        &["dependence on histories longer than the bound is only seen as far as the walks (hundreds of operations each) happen to contain them"],
    )
}
