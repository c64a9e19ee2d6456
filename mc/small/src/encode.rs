use crate::sys::*;

/// Every encoding of the alphabets at every place of every operation.
pub fn c10(run: &Run) {
    for name in run.pick(vec!["2x1", "4x2", "8x4"], vec!["2x1", "4x2", "8x4", "4x1", "8x2", "16x4", "32x16"]) {
        let sh = shape(name);
        let (n, l, cells) = (sh.m.n, sh.m.l, sh.cells());
        let row = sh.named("gen:3");
        let sc = scalar_encodings();
        let want_row = |b: &[u8]| scalars_of(b);
        // blobs: commitment and cells
        sweep(run, &sh, sc.len() * n, |ctx, i| {
            let (e, p) = (&sc[i % sc.len()], i / sc.len());
            let case = format!("small:{name}:blob:{p}:{}", e.0).replace(' ', "_");
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.state(&case);
            let mut b = row.bytes.clone();
            b[32 * p..32 * p + 32].copy_from_slice(&e.1);
            let v = want_row(&b);
            assert_eq!(v.is_some(), e.2);
            let want = v.map(|v| sh.poly(v));
            match (ctx.commit(&b), &want) {
                (Ok(Ok(g)), Some(w)) => run.expect(g == g1_bytes(w.commit), &case, || format!("commitment {}", hex(&g))),
                (Ok(Err(_)), None) => {}
                (g, w) => run.fail(&case, format!("commitment: {g:?}, canonical: {}", w.is_some())),
            }
            let w = want.as_ref().map(|w| (w.cell_bytes.clone(), g1_bytes_many(&w.proofs)));
            if let Some(d) = diff(&ctx.compute(&b), w.as_ref()) {
                run.fail(&case, d);
            }
            run.validated(if e.2 { "tiny instance: accepted" } else { "tiny instance: refused" });
        });
        // cells to recover from: all sets of sizes half, half+1 and all that begin at each cell
        let sets: Vec<Vec<usize>> = (0..cells)
            .flat_map(|a| [cells / 2, cells / 2 + 1, cells].map(|c| (0..c).map(|i| (a + i) % cells).collect::<Vec<_>>()))
            .collect();
        let places: Vec<(usize, usize, usize)> =
            (0..sets.len()).flat_map(|s| (0..sets[s].len()).flat_map(move |p| (0..l).map(move |j| (s, p, j)))).collect();
        let step = run.pick(if l == 1 { 1 } else { 7 }, 1);
        sweep(run, &sh, sc.len() * places.len(), |ctx, i| {
            let (e, (s, p, j)) = (&sc[i % sc.len()], places[i / sc.len()]);
            if (i % sc.len() + i / sc.len()) % step != 0 {
                return;
            }
            let case = format!("small:{name}:recover:{s}:{p}:{j}:{}", e.0).replace(' ', "_");
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.state(&case);
            let set = &sets[s];
            let mut c: Vec<Vec<u8>> = set.iter().map(|k| row.cell_bytes[*k].clone()).collect();
            c[p][32 * j..32 * j + 32].copy_from_slice(&e.1);
            let idx: Vec<u64> = set.iter().map(|k| *k as u64).collect();
            let refs: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect();
            let (ok, d) = sh.check_recover(ctx, &idx, &refs, None);
            if let Some(d) = d {
                run.fail(&case, d);
            }
            run.validated(if ok { "tiny instance: accepted" } else { "tiny instance: refused" });
        });
        // points and cells to verify, in batches of one to three
        let pe = point_encodings();
        let places: Vec<(usize, usize)> = (1..=3).flat_map(|len| (0..len).map(move |p| (len, p))).collect();
        sweep(run, &sh, places.len() * 2 * pe.len(), |ctx, i| {
            let (e, i2) = (&pe[i % pe.len()], i / pe.len());
            let (proof, (len, p)) = (i2 % 2 == 1, places[i2 / 2]);
            let case = format!("small:{name}:point:{len}:{p}:{proof}:{}", e.0).replace(' ', "_");
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.state(&case);
            let mut cs = vec![sh.pt(row.commit); len];
            let mut ps: Vec<[u8; 48]> = (0..len).map(|k| sh.pt(row.proofs[k])).collect();
            if proof {
                ps[p] = e.1;
            } else {
                cs[p] = e.1;
            }
            let idx: Vec<u64> = (0..len as u64).collect();
            let cells: Vec<&[u8]> = (0..len).map(|k| &row.cell_bytes[k][..]).collect();
            // the alphabet does not hold the item's own points
            let same = e.1 == sh.pt(row.commit) || e.1 == sh.pt(row.proofs[p]);
            let want = if same { Ok(Ok(())) } else { Ok(Err(e.2)) };
            let got = ctx.verify(&cs, &idx, &cells, &ps);
            run.expect(got == want, &case, || format!("{got:?} instead of {want:?}"));
            run.validated(if e.2 { "tiny instance: accepted" } else { "tiny instance: refused" });
        });
        sweep(run, &sh, places.len() * l * sc.len(), |ctx, i| {
            let (e, i2) = (&sc[i % sc.len()], i / sc.len());
            let (j, (len, p)) = (i2 % l, places[i2 / l]);
            let case = format!("small:{name}:cell:{len}:{p}:{j}:{}", e.0).replace(' ', "_");
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.state(&case);
            let mut c: Vec<Vec<u8>> = (0..len).map(|k| row.cell_bytes[k].clone()).collect();
            c[p][32 * j..32 * j + 32].copy_from_slice(&e.1);
            let got = ctx.verify(
                &vec![sh.pt(row.commit); len],
                &(0..len as u64).collect::<Vec<_>>(),
                &c.iter().map(|x| &x[..]).collect::<Vec<_>>(),
                &(0..len).map(|k| sh.pt(row.proofs[k])).collect::<Vec<_>>(),
            );
            let want = if c[p] == row.cell_bytes[p] { Ok(Ok(())) } else { Ok(Err(e.2)) };
            run.expect(got == want, &case, || format!("{got:?} instead of {want:?}"));
            run.validated(if e.2 { "tiny instance: accepted" } else { "tiny instance: refused" });
        });
    }
}
