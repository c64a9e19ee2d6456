//! C01, C02, C03: blobs reached from base blobs by edits; every state is committed to and
//! extended by the real code and compared, byte for byte, with the model.
use crate::util::*;

/// The state graph: base blobs, then edits "set position p to v" up to the given depth.
fn edits(names: &mut Vec<String>, base: &str, pos: &[usize], vals: &[&str]) {
    for p in pos {
        for v in vals {
            names.push(format!("{base}+{p}={v}"));
        }
    }
}

/// Polynomials with few coefficients, with special coefficients, and with the identity as
/// commitment or as one of the proofs.
fn special_polynomials(run: &Run, names: &mut Vec<String>) {
    for d in run.pick(vec![1, 63, 64, 4095], vec![1, 2, 63, 64, 65, 127, 128, 2048, 4031, 4032, 4094, 4095]) {
        names.push(format!("troot:{d}:2"));
    }
    let ds = run.pick(vec![1, 4031], vec![1, 2, 63, 64, 65, 1984, 3967, 3968, 4030, 4031]);
    for k in run.pick(vec![0, 1, 63, 64, 127], (0..128).step_by(3).collect::<Vec<_>>()) {
        for d in &ds {
            names.push(format!("tproof:{k}:{d}:2"));
        }
    }
    for s in run.pick(0..2, 0..32) {
        names.push(format!("limbs:{s}"));
        names.push(format!("limbcoef:{s}"));
    }
    for p in run.pick(vec![2, 3, 16, 63, 64, 128, 2048], vec![2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 512, 1000, 1024, 2047, 2048, 4095]) {
        names.push(format!("period:{p}:2"));
    }
    names.push("mirror:2".into());
    for (a, b) in run.pick(vec![(0, 1), (0, 63), (31, 32), (5, 37)], (0..64).flat_map(|a| [(a, (a + 1) % 64), (a, (a + 32) % 64)]).collect()) {
        names.push(format!("equal:{a}:{b}:2"));
    }
    // two coefficients: within a block of 64, a block apart, at the ends
    let pairs = run.pick(
        vec![(0, 1), (0, 64), (63, 64), (64, 128), (65, 129), (1, 4095), (4031, 4095), (4032, 4095), (2047, 2048)],
        positions(N_BLOB, 512).iter().flat_map(|a| positions(N_BLOB, 512).into_iter().map(|b| (*a, b)).collect::<Vec<_>>()).filter(|(a, b)| a < b).collect(),
    );
    for (a, b) in pairs {
        names.push(format!("poly:{a}=1:{b}=-1"));
        names.push(format!("poly:{a}=g1:{b}=g2"));
        names.push(format!("poly:{a}=1:{b}=1"));
    }
}

/// Zero coefficients in every arrangement of up to two runs of blocks, and at strides.
fn sparse_polynomials(names: &mut Vec<String>, dense: bool) {
    let step = if dense { 1 } else { 7 };
    for k in (0..64).step_by(step) {
        let b = |i: u32| 1u64 << (i % 64);
        let mut masks = vec![!b(k), b(0) | b(k), b(k) | b(63), !(b(k) | b(k + 1))];
        if dense {
            masks.extend([b(k), b(k) | b(k + 2), !(b(0) | b(k)), !(b(k) | b(63)), !(b(k) | b(k + 2)), (b(k) - 1) | b(63), !(b(k) - 1)]);
        }
        for m in masks {
            if m != 0 {
                names.push(format!("coefs:{m:x}:2"));
            }
        }
    }
    for q in if dense { vec![2usize, 3, 4, 16, 63, 64, 65, 128, 1024, 2048] } else { vec![2, 64, 128] } {
        for r in [0, 1, q - 1] {
            names.push(format!("stride:{r}:{q}:2"));
            names.push(format!("unstride:{r}:{q}:2"));
        }
    }
}

pub fn c01() -> i32 {
    let run = Run::new("C01");
    let w = World::new(8);
    let mut names: Vec<String> = vec![];
    for v in ["0", "1", "2", "-1", "-2", "half", "2^64", "2^128", "2^254", "g1"] {
        names.push(format!("const:{v}"));
    }
    names.push("ramp".into());
    for s in 1..=4 {
        names.push(format!("gen:{s}"));
    }
    let monos = run.pick(positions(N_BLOB, 97), (0..N_BLOB).collect());
    for j in &monos {
        names.push(format!("mono:{j}"));
    }
    for d in run.pick(positions(N_BLOB + 1, 257), positions(N_BLOB + 1, 17)) {
        if d > 0 {
            names.push(format!("deg:{d}:3"));
        }
    }
    let units = run.pick(positions(N_BLOB, 5), (0..N_BLOB).collect());
    edits(&mut names, "const:0", &units, &["g7"]);
    let few = run.pick(positions(N_BLOB, 53), positions(N_BLOB, 3));
    edits(&mut names, "gen:5", &few, &["0", "-1"]);
    let fewer = run.pick(positions(N_BLOB, 409), positions(N_BLOB, 7));
    edits(&mut names, "gen:5", &fewer, &["1", "2^64", "2^254"]);
    edits(&mut names, "const:-1", &fewer, &["0", "g3"]);
    edits(&mut names, "const:0", &fewer, &["1", "-1", "2^128"]);
    // depth 2: two cooperating positions
    for p in run.pick(positions(N_BLOB, 2048), positions(N_BLOB, 256)) {
        for q in run.pick(positions(N_BLOB, 2048), positions(N_BLOB, 256)) {
            if p < q {
                names.push(format!("const:0+{p}=1+{q}=-1"));
            }
        }
    }
    special_polynomials(&run, &mut names);
    sparse_polynomials(&mut names, true);
    for k in run.pick((0..256).step_by(3).collect::<Vec<_>>(), (0..256).collect()) {
        names.push(format!("const:0+{}=L{k}", (k * 37 + 11) % N_BLOB));
        names.push(format!("gen:6+{}=L{k}", (k * 53 + 5) % N_BLOB));
    }
    for k in 0..64 {
        names.push(format!("cells:{:x}:9", 1u64 << k));
        names.push(format!("cells:{:x}:9", !(1u64 << k)));
        names.push(format!("cells:{:x}:9", (1u64 << k).wrapping_sub(1)));
    }
    run.note("blobs_enumerated", names.len());
    run.sample(format!("first blobs: {}", names[..8].join(", ")));
    run.sample(format!("last blobs: {}", names[names.len() - 4..].join(", ")));
    par_jobs(&run, &names, || (), |_, name| {
        run.transitions_add(1 + name.matches('+').count() as u64);
        if !run.wants(name) {
            return;
        }
        let blob = named_blob(&w.m, name);
        let bytes = to_blob(&blob);
        if !run.state(&bytes[..]) {
            return;
        }
        let want = g1_bytes(w.m.commit(&blob));
        match commit(&w.ctx, &bytes) {
            Ok(Ok(got)) => {
                run.validated("commitment equals p(tau)*G");
                run.expect(got == want, name, || format!("commitment {} instead of {}", hex(&got), hex(&want)))
            }
            o => run.fail(name, format!("no commitment to a canonical blob: {o:?}")),
        }
    });

    // The public setup: the Lagrange points of the ceremony file are the oracle (the file's
    // consistency is C24's business).
    let main = TrustedSetup::default();
    let ctx = make_ctx(&main, 8, None);
    // The file holds the Lagrange points in natural order, blobs are in bit-reversed order.
    let lag: Vec<G1Affine> = (0..N_BLOB)
        .map(|i| {
            let b: [u8; 48] = unhex(&main.g1_lagrange[brp(i, 12)]).try_into().unwrap();
            Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(&b)).unwrap()
        })
        .collect();
    let mut jobs: Vec<Vec<(usize, &str)>> = vec![];
    for p in run.pick(positions(N_BLOB, 101), positions(N_BLOB, 5)) {
        jobs.push(vec![(p, "1")]);
        jobs.push(vec![(p, "g4"), ((p * 31 + 7) % N_BLOB, "-1"), ((p * 17 + 5) % N_BLOB, "g9")]);
    }
    par_jobs(&run, &jobs, || (), |_, job| {
        let case = format!("mainnet:{job:?}").replace(' ', "").replace('"', "");
        run.transitions_add(job.len() as u64);
        if !run.wants(&case) {
            return;
        }
        let mut blob = vec![Fr::ZERO; N_BLOB];
        for (p, v) in job {
            blob[*p] = value(v);
        }
        if !run.state(&(1u8, &to_blob(&blob)[..])) {
            return;
        }
        let sum = blob
            .iter()
            .enumerate()
            .filter(|(_, v)| **v != Fr::ZERO)
            .fold(G1Projective::identity(), |a, (p, v)| a + lag[p] * v);
        let want = sum.to_affine().to_compressed();
        match commit(&ctx, &to_blob(&blob)) {
            Ok(Ok(got)) => {
                run.validated("mainnet commitment equals the sum of Lagrange points");
                run.expect(got == want, &case, || format!("commitment {} instead of {}", hex(&got), hex(&want)))
            }
            o => run.fail(&case, format!("no commitment to a canonical blob: {o:?}")),
        }
    });
    #[cfg(feature = "small")]
    mc_small::c01(&run);
    run.finish(
        "states are blobs reached from base blobs (constants, ramp, generic, every kind of monomial and low-degree polynomial, cell patterns, two-term polynomials, zero coefficients in runs of blocks and at strides, special limbs, tau among the roots) by edits of positions; duplicates by content are merged; the commitment of every state is compared with p(tau)*G computed in the field with the known tau of the setup, and on the public setup with sums of its Lagrange points",
        &["blst/blstrs field and k*G are right", "values outside the alphabet {0,1,2,-1,-2,1/2,2^64,2^128,2^254,generic, 256 patterns of limbs} behave like those in it"],
    )
}

fn blobs_for_cells(run: &Run) -> Vec<String> {
    let mut names: Vec<String> = vec![];
    for v in ["0", "1", "-1", "2^254", "g1"] {
        names.push(format!("const:{v}"));
    }
    names.push("ramp".into());
    names.push("gen:1".into());
    names.push("gen:2".into());
    let mut monos = run.pick(positions(N_BLOB, 512), positions(N_BLOB, 13));
    for k in 60..70 {
        monos.push(k);
    }
    monos.sort();
    monos.dedup();
    for j in &monos {
        names.push(format!("mono:{j}"));
    }
    // degree boundaries at multiples of the cell size, where Toeplitz columns become empty
    for c in run.pick(vec![1, 2, 3, 31, 32, 33, 62, 63], (1..64).collect::<Vec<_>>()) {
        for d in [64 * c - 1, 64 * c, 64 * c + 1] {
            names.push(format!("deg:{d}:3"));
        }
    }
    for d in [1, 2, 63, 4095] {
        names.push(format!("deg:{d}:5"));
    }
    let units = run.pick(positions(N_BLOB, 67), (0..N_BLOB).collect());
    edits(&mut names, "const:0", &units, &["1"]);
    edits(&mut names, "gen:5", &run.pick(positions(N_BLOB, 1024), positions(N_BLOB, 16)), &["0"]);
    edits(&mut names, "const:-1", &run.pick(positions(N_BLOB, 4096), positions(N_BLOB, 64)), &["0"]);
    for k in run.pick((0..64).step_by(9).collect::<Vec<_>>(), (0..64).collect()) {
        names.push(format!("cells:{:x}:9", 1u64 << k));
        names.push(format!("cells:{:x}:9", !(1u64 << k)));
    }
    special_polynomials(run, &mut names);
    sparse_polynomials(&mut names, run.thorough());
    if run.thorough() {
        for p in positions(N_BLOB, 2048) {
            for q in positions(N_BLOB, 2048) {
                if p < q {
                    names.push(format!("const:0+{p}=1+{q}=-1"));
                }
            }
        }
    }
    names
}

pub fn c02_c03(id: &str) -> i32 {
    let run = Run::new(id);
    let w = World::new(8);
    let names = blobs_for_cells(&run);
    run.note("blobs_enumerated", names.len());
    run.sample(format!("first blobs: {}", names[..10].join(", ")));
    run.sample(format!("last blobs: {}", names[names.len() - 4..].join(", ")));
    par_jobs(&run, &names, || (), |_, name| {
        run.transitions_add(1 + name.matches('+').count() as u64);
        if !run.wants(name) {
            return;
        }
        let blob = named_blob(&w.m, name);
        let bytes = to_blob(&blob);
        if !run.state(&bytes[..]) {
            return;
        }
        match compute(&w.ctx, &bytes) {
            Ok(Ok((cells, proofs))) => {
                if id == "C02" {
                    let ext = w.m.extend(&blob);
                    let want: Vec<CellB> = ext.chunks(N_CELL).map(to_cell).collect();
                    run.validated("128 cells equal the evaluations");
                    if let Some(d) = diff_cells(&cells, &want) {
                        run.fail(name, d);
                    }
                    let flat: Vec<u8> = cells.iter().take(64).flat_map(|c| c.to_vec()).collect();
                    run.expect(flat == bytes[..], name, || "the first 64 cells are not the blob".into());
                } else {
                    let row = Row::new(&w.m, name, blob);
                    run.validated("128 proofs equal q_i(tau)*G");
                    if let Some(d) = diff_proofs(&proofs, &row.proof_bytes) {
                        run.fail(name, d);
                    }
                }
            }
            o => run.fail(name, format!("no cells for a canonical blob: {:?}", o.map(|r| r.is_ok()))),
        }
    });
    if id == "C03" {
        // On the public setup tau is unknown: proofs for the same polynomials must open by the
        // pairing equation of the definition, checked with blst directly.
        let main = TrustedSetup::default();
        let ctx = make_ctx(&main, 8, None);
        let names = run.pick(vec!["gen:3", "mono:70", "const:5"], vec!["gen:3", "gen:4", "mono:70", "mono:4095", "const:5", "const:0", "deg:129:2", "cells:f0:1"]);
        let mono: Vec<G1Projective> = main.g1_monomial[..64]
            .iter()
            .map(|s| {
                let b: [u8; 48] = unhex(s).try_into().unwrap();
                Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(&b)).unwrap().into()
            })
            .collect();
        let g2 = |i: usize| -> G2Affine {
            let b: [u8; 96] = unhex(&main.g2_monomial[i]).try_into().unwrap();
            Option::<G2Affine>::from(G2Affine::from_compressed_unchecked(&b)).unwrap()
        };
        let tau64 = g2(64);
        par_jobs(&run, &names, || (), |_, name| {
            let case = format!("mainnet:{name}");
            run.transition();
            if !run.wants(&case) {
                return;
            }
            run.state(&case);
            let blob = named_blob(&w.m, name);
            let b = to_blob(&blob);
            let (Ok(Ok(c)), Ok(Ok((_, proofs)))) = (commit(&ctx, &b), compute(&ctx, &b)) else {
                run.fail(&case, "no result on the public setup");
                return;
            };
            let dec = |b: &[u8; 48]| -> Option<G1Affine> { Option::from(G1Affine::from_compressed(b)) };
            let (Some(c), ext) = (dec(&c), w.m.extend(&blob)) else {
                run.fail(&case, "undecodable commitment");
                return;
            };
            for k in 0..N_CELLS {
                let ys = &ext[k * N_CELL..(k + 1) * N_CELL];
                // interpolation polynomial on the coset h*<w64>: coefficients from the inverse DFT
                let h = w.m.points[k * N_CELL];
                let nat: Vec<Fr> = (0..N_CELL).map(|i| ys[brp(i, 6)]).collect();
                let mut co = dft(&nat, inv(root_of_unity(64)));
                let hi = inv(h);
                let mut s = inv(Fr::from(64));
                for x in co.iter_mut() {
                    *x *= s;
                    s *= hi;
                }
                let i_tau = co.iter().zip(&mono).fold(G1Projective::identity(), |a, (c, p)| a + *p * c);
                let Some(pi) = dec(&proofs[k]) else {
                    run.fail(&case, "undecodable proof");
                    return;
                };
                let hl = pow(h, 64);
                // e(C - I + h^64 pi, G2) = e(pi, tau^64 G2)
                let lhs = (G1Projective::from(c) - i_tau + pi * hl).to_affine();
                let ok = pairing(&lhs, &G2Affine::generator()) == pairing(&pi, &tau64);
                run.validated("mainnet proof satisfies the opening equation");
                run.expect(ok, &case, || format!("proof {k} does not open the commitment to cell {k}"));
            }
        });
    }
    #[cfg(feature = "small")]
    mc_small::c02_c03(&run, id);
    run.finish(
        "states are blobs reached from base blobs (constants, ramp, generic, monomials, every degree around multiples of the cell size, unit vectors, cell patterns, two-term polynomials, zero coefficients in runs of blocks and at strides, special limbs, polynomials whose commitment or one of whose proofs is the identity) by edits of positions; duplicates by content are merged; all 128 cells (C02) or all 128 proofs (C03) of every state are compared byte for byte with the model",
        &["blst/blstrs field and k*G are right", "a fault that needs values or positions outside the enumerated alphabet is not reached; the same code is explored exhaustively at small parameters by C20 and C23"],
    )
}
