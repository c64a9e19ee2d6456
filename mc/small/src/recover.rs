use crate::sys::*;

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
fn permutations(v: &[usize]) -> Vec<Vec<usize>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in permutations(&r) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}
fn rotations(v: &[usize]) -> Vec<Vec<usize>> {
    let mut w = v.to_vec();
    w.reverse();
    vec![v.to_vec(), w]
}

/// Every set of at least half of the cells, in every order where that is affordable, of every
/// blob of a short alphabet.
pub fn c08(run: &Run) {
    // (shape, values of the alphabet for all blobs (0: three blobs), sizes with all orders)
    let plan: Vec<(&str, usize, Vec<usize>, Vec<usize>)> = run.pick(
        vec![
            ("2x1", 3, vec![2, 3, 4], vec![]),
            ("4x2", 2, vec![2, 3, 4], vec![]),
            ("8x4", 0, vec![2, 3, 4], vec![]),
            ("32x16", 0, vec![2, 3, 4], vec![]),
            ("4x1", 0, vec![4], vec![5, 6, 7, 8]),
            ("8x2", 0, vec![4], vec![5, 6, 7, 8]),
            ("16x4", 0, vec![], vec![4, 5, 6, 7, 8]),
        ],
        vec![
            ("2x1", 9, vec![2, 3, 4], vec![]),
            ("4x2", 5, vec![2, 3, 4], vec![]),
            ("8x4", 2, vec![2, 3, 4], vec![]),
            ("32x16", 0, vec![2, 3, 4], vec![]),
            ("4x1", 2, vec![4], vec![5, 6, 7, 8]),
            ("8x2", 0, vec![4, 5, 6, 7, 8], vec![]),
            ("16x4", 0, vec![4, 5, 6], vec![7, 8]),
            ("16x2", 0, vec![], (8..=16).collect()),
        ],
    );
    for (name, k, all, some) in plan {
        let sh = shape(name);
        let n = sh.cells();
        let mut orders = vec![];
        for c in all {
            orders.extend(subsets(n, c).iter().flat_map(|s| permutations(s)));
        }
        for c in some {
            orders.extend(subsets(n, c).iter().flat_map(|s| rotations(s)));
        }
        let blobs: Vec<Vec<Fr>> = if k > 0 {
            words(k, sh.m.n).map(|w| w.into_iter().map(|a| value(ALPHA[a])).collect()).collect()
        } else {
            ["gen:3", "const:0", "deg:1:4", "troot:1:1", "limbcoef:5"].iter().map(|b| named_blob(&sh.m, b)).collect()
        };
        let polys: Vec<(Poly, CellsProofs)> = blobs
            .into_iter()
            .map(|b| {
                let p = sh.poly(b);
                let w = sh.want(&p);
                (p, w)
            })
            .collect();
        sweep(run, &sh, orders.len() * polys.len(), |ctx, i| {
            let (o, (p, w)) = (&orders[i % orders.len()], &polys[i / orders.len()]);
            let case = format!("small:{name}:{}:{}", i / orders.len(), o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.state(&case);
            let idx: Vec<u64> = o.iter().map(|x| *x as u64).collect();
            let cells: Vec<&[u8]> = o.iter().map(|x| &p.cell_bytes[*x][..]).collect();
            if let Some(d) = sh.check_recover(ctx, &idx, &cells, Some(w)).1 {
                run.fail(&case, d);
            }
            run.validated("tiny instance: recovered");
        });
        run.note(&format!("tiny instance {name}: requests"), orders.len() * polys.len());
    }
}

/// Every request over an alphabet of (index, cell) items, to a length; the model interpolates and
/// says which are refused and what the others give.
pub fn c09(run: &Run) {
    for (name, lens, wide) in run.pick(
        vec![("2x1", 4, true), ("4x2", 4, false), ("8x4", 3, false), ("32x16", 3, false), ("4x1", 5, false)],
        vec![("2x1", 5, true), ("4x2", 5, false), ("8x4", 4, true), ("32x16", 4, false), ("4x1", 6, false), ("8x2", 6, false)],
    ) {
        let sh = shape(name);
        let n = sh.cells();
        let rows = [sh.named("gen:3"), sh.named(&format!("gen:3+{}=g9", sh.m.n - 1)), sh.named("const:0")];
        let mut items: Vec<(u64, Vec<u8>)> = vec![];
        let small = n == 4;
        for k in 0..n {
            items.push((k as u64, rows[0].cell_bytes[k].clone()));
            if wide {
                items.push((k as u64, rows[1].cell_bytes[k].clone()));
            }
        }
        // one wrong element, another row's cell, an index out of range, a bad scalar
        let mut c = rows[0].cells[n - 1].clone();
        *c.last_mut().unwrap() += Fr::ONE;
        items.push((n as u64 - 1, bytes_of(&c)));
        items.push((0, rows[2].cell_bytes[0].clone()));
        items.push((n as u64, rows[0].cell_bytes[0].clone()));
        if small {
            items.push((1, rows[1].cell_bytes[1].clone()));
            items.push((u64::MAX, rows[0].cell_bytes[1].clone()));
            items.push((1 << 32, rows[0].cell_bytes[0].clone()));
        }
        let mut b = rows[0].cell_bytes[1].clone();
        let e = b.len() - 32;
        b[e..].copy_from_slice(&R_BE);
        items.push((1, b));
        items.sort();
        items.dedup();
        let k = items.len();
        for len in 0..=lens {
            // the longest words of the larger alphabets: without their rotations
            let total = k.pow(len as u32);
            sweep(run, &sh, total, |ctx, i| {
                let w = word(i, k, len);
                let case = format!("small:{name}:{}", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
                if !run.wants(&case) {
                    return;
                }
                run.transition();
                run.state(&case);
                let idx: Vec<u64> = w.iter().map(|x| items[*x].0).collect();
                let cells: Vec<&[u8]> = w.iter().map(|x| &items[*x].1[..]).collect();
                let (ok, d) = sh.check_recover(ctx, &idx, &cells, None);
                if let Some(d) = d {
                    run.fail(&case, d);
                }
                run.validated(if ok { "tiny instance: recovered" } else { "tiny instance: refused" });
            });
            run.note(&format!("tiny instance {name}: requests of {len} items"), total);
        }
        // lists of different lengths, over honest items
        for a in 0..=n + 1 {
            for b in 0..=n + 1 {
                let case = format!("small:{name}:len:{a},{b}");
                if a == b || !run.wants(&case) {
                    continue;
                }
                run.transition();
                run.state(&case);
                let ctx = sh.ctx();
                let idx: Vec<u64> = (0..a as u64).map(|x| x % n as u64).collect();
                let cells: Vec<&[u8]> = (0..b).map(|x| &rows[0].cell_bytes[x % n][..]).collect();
                if let Some(d) = sh.check_recover(&*ctx, &idx, &cells, None).1 {
                    run.fail(&case, d);
                }
                run.validated("tiny instance: refused");
            }
        }
        // every error pattern: every subset of the elements of all cells moved by one
        let m = sh.m.m;
        if m <= 8 || (run.thorough() && m <= 16) {
            let subs: Vec<u32> = (0..1u32 << m).collect();
            let give: Vec<Vec<usize>> = (sh.half()..=n).flat_map(|c| subsets(n, c)).collect();
            sweep(run, &sh, subs.len() * give.len(), |ctx, i| {
                let (mask, g) = (subs[i % subs.len()], &give[i / subs.len()]);
                let case = format!("small:{name}:mask:{mask:x}:{}", g.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
                if !run.wants(&case) {
                    return;
                }
                run.transition();
                run.state(&case);
                let l = sh.m.l;
                let cells: Vec<Vec<u8>> = g
                    .iter()
                    .map(|k| bytes_of(&(0..l).map(|j| rows[0].cells[*k][j] + Fr::from((mask >> (k * l + j) & 1) as u64)).collect::<Vec<_>>()))
                    .collect();
                let cells: Vec<&[u8]> = cells.iter().map(|c| &c[..]).collect();
                let idx: Vec<u64> = g.iter().map(|x| *x as u64).collect();
                let (ok, d) = sh.check_recover(ctx, &idx, &cells, None);
                if let Some(d) = d {
                    run.fail(&case, d);
                }
                run.validated(if ok { "tiny instance: recovered" } else { "tiny instance: refused" });
            });
            run.note(&format!("tiny instance {name}: error patterns x cell sets"), subs.len() * give.len());
        }
    }
}
