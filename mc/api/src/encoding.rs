//! C10: every enumerated encoding at every place of the interface.
use crate::util::*;

pub fn c10() -> i32 {
    let run = Run::new("C10");
    let w = World::new(8);
    let mut scal = scalar_encodings();
    // the first of them go to many places, the words of limbs to one of each kind
    let many = scal.len();
    scal.extend(scalar_limb_words());
    let pts = point_encodings();
    run.note("scalar_encodings", scal.len());
    run.note("point_encodings", pts.len());
    let row = w.row("gen:1");
    let row2 = w.row("gen:2");

    let lab = |s: String| s.replace(' ', "_");
    // (1) blobs: encodings x positions; a canonical one must be taken at its value
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (k, e) in scal.iter().enumerate() {
        let ps = if e.2 || k >= many { vec![(k * 997) % N_BLOB] } else { vec![0, 4095, (k * 997) % N_BLOB, (k * 131 + 64) % N_BLOB] };
        for p in ps {
            jobs.push((k, p));
        }
    }
    let bad_at: Vec<usize> = scal.iter().enumerate().filter(|(_, e)| ["r+0", "r+1", "max", "bit0"].contains(&e.0.as_str())).map(|x| x.0).collect();
    assert_eq!(bad_at.len(), 4);
    for p in 0..N_BLOB {
        jobs.push((bad_at[p % 4], p));
        if run.thorough() {
            for b in &bad_at {
                jobs.push((*b, p));
            }
        }
    }
    let r_minus_1 = scal.iter().position(|e| e.0 == "r-1").unwrap();
    for p in run.pick(positions(N_BLOB, 64), (0..N_BLOB).collect()) {
        jobs.push((r_minus_1, p));
    }
    let fr_of = |b: &[u8; 32]| -> Fr { Option::<Fr>::from(Fr::from_bytes_be(b)).unwrap() };
    par_jobs(&run, &jobs, || (), |_, &(k, p)| {
        let case = lab(format!("blob:{p}:{}", scal[k].0));
        run.transition();
        if !run.wants(&case) || !run.state(&(0u8, p, scal[k].1)) {
            return;
        }
        let mut b = row.blob_bytes.clone();
        b[32 * p..32 * p + 32].copy_from_slice(&scal[k].1);
        let got = commit(&w.ctx, &b);
        if scal[k].2 {
            let d = fr_of(&scal[k].1) - row.blob[p];
            let want = g1_bytes(row.commit + d * w.m.blob_lagrange(p));
            run.validated("canonical element accepted at its value");
            run.expect(got == Ok(Ok(want)), &case, || format!("canonical element: {:?}", got.map(|r| r.is_ok())));
        } else {
            run.validated("non-canonical element refused");
            run.expect(got == Ok(Err(())), &case, || format!("non-canonical element: {:?}", got.map(|r| r.is_ok())));
            let got = compute(&w.ctx, &b);
            run.expect(matches!(got, Ok(Err(()))), &lab(format!("blob:{p}:{}", scal[k].0)), || {
                "compute_cells_and_kzg_proofs did not refuse a non-canonical element".into()
            });
        }
    });
    // canonical boundary values through compute (dear: a few)
    let some: Vec<usize> = scal.iter().enumerate().filter(|(k, e)| e.2 && (["0", "r-1", "r-2"].contains(&e.0.as_str()) || (run.thorough() && k % 3 == 0))).map(|x| x.0).collect();
    par_jobs(&run, &some, || (), |_, &k| {
        let case = lab(format!("compute:{}", scal[k].0));
        run.transition();
        if !run.wants(&case) || !run.state(&(1u8, scal[k].1)) {
            return;
        }
        let mut v = row.blob.clone();
        v[k % N_BLOB] = fr_of(&scal[k].1);
        let r = Row::new(&w.m, &case, v);
        let mut b = row.blob_bytes.clone();
        b[32 * (k % N_BLOB)..32 * (k % N_BLOB) + 32].copy_from_slice(&scal[k].1);
        match compute(&w.ctx, &b) {
            Ok(Ok((c, p))) => {
                run.validated("canonical element accepted at its value");
                if let Some(d) = diff_cells(&c, &r.cell_bytes).or_else(|| diff_proofs(&p, &r.proof_bytes)) {
                    run.fail(&case, d);
                }
            }
            o => run.fail(&case, format!("canonical element refused: {:?}", o.map(|r| r.is_ok()))),
        }
    });
    // (2) cells to verify: encodings x element positions
    let mut jobs = vec![];
    for k in 0..scal.len() {
        for j in 0..N_CELL {
            let at = if k < many { (k * 5 + j) % run.pick(8, 1) == 0 || j == 0 || j == 63 } else { j == (k * 5) % N_CELL };
            if at {
                jobs.push((k, j));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(k, j)| {
        let case = lab(format!("cell:{j}:{}", scal[k].0));
        run.transition();
        if !run.wants(&case) || !run.state(&(2u8, j, scal[k].1)) {
            return;
        }
        let c = 17;
        let mut cell = row.cell_bytes[c].clone();
        cell[32 * j..32 * j + 32].copy_from_slice(&scal[k].1);
        // the model's proof for the changed cell, so that a canonical value is accepted as true
        let proof = if scal[k].2 {
            let mut v = row.cells[c].clone();
            v[j] = fr_of(&scal[k].1);
            g1_bytes(w.m.proof(row.commit, c, &v))
        } else {
            row.proof_bytes[c]
        };
        let req = Req {
            commits: vec![row2.commit_bytes, row.commit_bytes],
            idx: vec![3, c as u64],
            cells: vec![row2.cell_bytes[3].clone(), cell],
            proofs: vec![row2.proof_bytes[3], proof],
        };
        let want = if scal[k].2 { Verdict::Accept } else { Verdict::Error };
        let got = verify(&w.ctx, &req);
        run.validated(if scal[k].2 { "canonical element accepted at its value" } else { "non-canonical element refused" });
        run.expect(got == want, &case, || format!("{got:?} instead of {want:?}"));
    });
    // (3) cells to recover from: non-canonical refused; canonical value accepted (64 cells: any
    // cells are consistent, so a changed element gives another blob; the cells given come back)
    let mut jobs = vec![];
    let canon: Vec<usize> = run.pick(vec![r_minus_1, 0], scal.iter().enumerate().filter(|(k, e)| e.2 && k % 5 == 0).map(|x| x.0).collect());
    for k in 0..scal.len() {
        if scal[k].2 {
            continue;
        }
        for (n, (q, j)) in [(k % 64, (k * 3) % 64), (0usize, 0usize), (63, 63), ((k * 7) % 64, (k * 11) % 64)].into_iter().enumerate() {
            if k < many || n == 0 {
                jobs.push((k, q, j));
            }
        }
    }
    for k in canon {
        jobs.push((k, k % 64, (k * 3) % 64));
    }
    par_jobs(&run, &jobs, || (), |_, &(k, q, j)| {
        let case = lab(format!("recover:{q}:{j}:{}", scal[k].0));
        run.transition();
        if !run.wants(&case) || !run.state(&(3u8, q, j, scal[k].1)) {
            return;
        }
        let mut cells: Vec<CellB> = row.cell_bytes[..64].to_vec();
        cells[q][32 * j..32 * j + 32].copy_from_slice(&scal[k].1);
        let refs: Vec<&[u8; 2048]> = cells.iter().map(|c| &**c).collect();
        let idx: Vec<u64> = (0..64).collect();
        let got = recover(&w.ctx, &idx, &refs);
        if scal[k].2 {
            run.validated("canonical element accepted at its value");
            let mut v = row.blob.clone();
            v[q * 64 + j] = fr_of(&scal[k].1);
            let r = Row::new(&w.m, &case, v);
            match got {
                Ok(Ok((c, p))) => {
                    if let Some(d) = diff_cells(&c, &r.cell_bytes).or_else(|| diff_proofs(&p, &r.proof_bytes)) {
                        run.fail(&case, d);
                    }
                }
                o => run.fail(&case, format!("canonical element refused: {:?}", o.map(|r| r.is_ok()))),
            }
        } else {
            run.validated("non-canonical element refused");
            run.expect(matches!(got, Ok(Err(()))), &case, || "non-canonical element accepted or panic".into());
        }
    });
    // (4) points as commitments and proofs, alone and inside a batch. A canonical point makes a
    // well-formed request: a verdict (true only where the model can say so); others an error.
    let mut jobs = vec![];
    for k in 0..pts.len() {
        for place in 0..4 {
            jobs.push((k, place));
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(k, place)| {
        let case = lab(format!("point:{place}:{}", pts[k].0));
        run.transition();
        if !run.wants(&case) || !run.state(&(4u8, place, &pts[k].1[..])) {
            return;
        }
        let mut req = Req {
            commits: vec![row2.commit_bytes, row.commit_bytes, row.commit_bytes],
            idx: vec![3, 17, 18],
            cells: vec![row2.cell_bytes[3].clone(), row.cell_bytes[17].clone(), row.cell_bytes[18].clone()],
            proofs: vec![row2.proof_bytes[3], row.proof_bytes[17], row.proof_bytes[18]],
        };
        match place {
            0 => req.commits[1] = pts[k].1,
            1 => req.proofs[2] = pts[k].1,
            2 => {
                req = Req { commits: vec![pts[k].1], idx: vec![0], cells: vec![row.cell_bytes[0].clone()], proofs: vec![row.proof_bytes[0]] }
            }
            _ => {
                req = Req { commits: vec![row.commit_bytes], idx: vec![0], cells: vec![row.cell_bytes[0].clone()], proofs: vec![pts[k].1] }
            }
        }
        let want = if pts[k].2 { Verdict::InvalidProof } else { Verdict::Error };
        let got = verify(&w.ctx, &req);
        run.validated(if pts[k].2 { "canonical point gets a verdict" } else { "bad point refused" });
        run.expect(got == want, &case, || format!("{got:?} instead of {want:?}"));
    });
    // (4b) components outside the prime-order group that cancel each other: every assignment of
    // {0, T, -T} to the commitments and proofs of a request, for T of several orders
    let tor = torsion_g1();
    let slots = 6usize;
    let mut jobs = vec![];
    for t in 0..tor.len() {
        for a in 0..3usize.pow(slots as u32) {
            jobs.push((t, a));
        }
    }
    let honest = [(&row2, 3usize), (&row, 17), (&row, 18)];
    let base: Vec<G1Projective> = honest.iter().map(|(r, _)| g1(r.commit).into()).chain(honest.iter().map(|(r, k)| g1(r.proofs[*k]).into())).collect();
    run.note("torsion_assignments", jobs.len());
    par_jobs(&run, &jobs, || (), |_, &(t, a)| {
        let digits: Vec<usize> = (0..slots).map(|i| a / 3usize.pow(i as u32) % 3).collect();
        let case = format!("torsion:{}:{digits:?}", tor[t].0).replace(' ', "");
        run.transition();
        if !run.wants(&case) || !run.state(&(7u8, if a == 0 { 9 } else { t }, a)) {
            return;
        }
        let p: Vec<[u8; 48]> = digits
            .iter()
            .zip(&base)
            .map(|(d, b)| match d { 0 => *b, 1 => *b + tor[t].1, _ => *b - tor[t].1 }.to_affine().to_compressed())
            .collect();
        assert!(p.iter().zip(&digits).all(|(b, d)| point_ok(b) == (*d == 0)), "model bug");
        let req = Req { commits: p[..3].to_vec(), idx: honest.iter().map(|h| h.1 as u64).collect(), cells: honest.iter().map(|h| h.0.cell_bytes[h.1].clone()).collect(), proofs: p[3..].to_vec() };
        let want = if a == 0 { Verdict::Accept } else { Verdict::Error };
        let got = verify(&w.ctx, &req);
        run.validated(if a == 0 { "honest request accepted" } else { "bad points refused" });
        run.expect(got == want, &case, || format!("{got:?} instead of {want:?}"));
    });
    // the same pairwise in a wider request, between any two of its points
    let n = 12usize;
    let mut jobs = vec![];
    for i in 0..2 * n {
        for j in i + 1..2 * n {
            for t in 0..tor.len() {
                jobs.push((i, j, t));
            }
        }
    }
    let wide: Vec<G1Projective> = (0..n).map(|k| g1([row.commit, row2.commit][k % 2]).into()).chain((0..n).map(|k| g1([&row, &row2][k % 2].proofs[5 * k]).into())).collect();
    par_jobs(&run, &jobs, || (), |_, &(i, j, t)| {
        let case = format!("torsion-pair:{}:{i},{j}", tor[t].0);
        run.transition();
        if !run.wants(&case) || !run.state(&(8u8, i, j, t)) {
            return;
        }
        let mut p = wide.clone();
        p[i] += tor[t].1;
        p[j] -= tor[t].1;
        let p: Vec<[u8; 48]> = p.iter().map(|x| x.to_affine().to_compressed()).collect();
        let req = Req { commits: p[..n].to_vec(), idx: (0..n).map(|k| 5 * k as u64).collect(), cells: (0..n).map(|k| [&row, &row2][k % 2].cell_bytes[5 * k].clone()).collect(), proofs: p[n..].to_vec() };
        let got = verify(&w.ctx, &req);
        run.validated("bad points refused");
        run.expect(got == Verdict::Error, &case, || format!("{got:?} instead of Error"));
    });
    // the identity where it is true: zero blob's commitment and proofs, constants' proofs
    for (name, ks) in [("const:0", 0..8usize), ("const:9", 60..68), ("deg:64:1", 10..14)] {
        let r = w.row(name);
        for k in ks {
            let case = format!("identity:{name}:{k}");
            run.transition();
            if run.wants(&case) && run.state(&(5u8, name, k)) {
                let req = Req { commits: vec![r.commit_bytes], idx: vec![k as u64], cells: vec![r.cell_bytes[k].clone()], proofs: vec![r.proof_bytes[k]] };
                let got = verify(&w.ctx, &req);
                run.validated("identity accepted where true");
                run.expect(got == Verdict::Accept, &case, || format!("{got:?}"));
            }
        }
    }
    // (5) what is returned is canonical and accepted back
    let names: Vec<&str> = run.pick(
        vec!["gen:3", "const:0", "const:-1", "const:5", "mono:64", "mono:1", "deg:64:1", "cells:1:2", "const:0+4095=-1"],
        vec!["gen:3", "const:0", "const:-1", "const:5", "mono:64", "mono:1", "deg:64:1", "cells:1:2", "const:0+4095=-1", "ramp", "mono:4095", "deg:65:3", "const:1", "const:2^254", "gen:8", "gen:9", "cells:ff:1", "mono:2048", "deg:4032:1"],
    );
    par_jobs(&run, &names, || (), |_, name| {
        let case = format!("roundtrip:{name}");
        run.transition();
        if !run.wants(&case) || !run.state(&(6u8, name)) {
            return;
        }
        let b = to_blob(&named_blob(&w.m, name));
        let (Ok(Ok(c)), Ok(Ok((cells, proofs)))) = (commit(&w.ctx, &b), compute(&w.ctx, &b)) else {
            run.fail(&case, "no result for a canonical blob");
            return;
        };
        run.validated("outputs canonical and accepted back");
        let canon = point_ok(&c) && proofs.iter().all(point_ok) && cells.iter().all(|x| x.chunks(32).all(scalar_is_canonical));
        run.expect(canon, &case, || "an output is not canonical".into());
        let req = Req { commits: vec![c; 128], idx: (0..128).collect(), cells: cells.clone(), proofs: proofs.clone() };
        let v = verify(&w.ctx, &req);
        run.expect(v == Verdict::Accept, &case, || format!("own outputs not accepted: {v:?}"));
        let flat: Vec<u8> = cells[..64].iter().flat_map(|c| c.to_vec()).collect();
        let back: Blob = flat.into_boxed_slice().try_into().unwrap();
        run.expect(commit(&w.ctx, &back) == Ok(Ok(c)), &case, || "the first 64 cells are not accepted back as the blob".into());
        let refs: Vec<&[u8; 2048]> = cells[64..].iter().map(|c| &**c).collect();
        match recover(&w.ctx, &(64..128).collect::<Vec<_>>(), &refs) {
            Ok(Ok((c2, p2))) => run.expect(c2 == cells && p2 == proofs, &case, || "recovered cells or proofs differ from the computed ones".into()),
            _ => run.fail(&case, "the last 64 cells are not accepted for recovery"),
        }
    });
    run.sample("blob:4095:r+0");
    run.sample("cell:63:r-1 with the proof the model computes for that cell");
    run.sample("point:1:gen/flags4 (compression bit only: generator or its negative)");
    #[cfg(feature = "small")]
    mc_small::c10(&run);
    run.finish(
        "states are (place, position, encoding): every encoding of the alphabet (integers around the group order bytewise and bitwise, single bits, multiples, byte-reversed, words of limbs around the order; points with all flag combinations, x around the field modulus, off-curve, off-subgroup, off-subgroup components cancelling between the points of one request, every single bit flip of the identity and of a valid point) at the places blob, cell to verify, cell to recover from, commitment and proof; canonical ones must be taken at their value, others refused; outputs are fed back",
        &["blst's primitive decode, subgroup test and encode define canonical points"],
    )
}
