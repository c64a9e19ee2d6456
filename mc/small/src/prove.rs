use crate::sys::*;

/// Blobs of a shape: all words over the first `k` values.
fn spaces(run: &Run, heavy: bool) -> Vec<(&'static str, usize)> {
    if heavy {
        run.pick(
            vec![("2x1", 10), ("4x1", 4), ("4x2", 6), ("8x2", 3), ("8x4", 3), ("16x4", 0), ("16x2", 0), ("32x16", 0)],
            vec![("2x1", 14), ("4x1", 9), ("4x2", 9), ("8x2", 4), ("8x4", 4), ("16x4", 2), ("16x2", 2), ("32x16", 0)],
        )
    } else {
        run.pick(
            vec![("2x1", 14), ("4x1", 8), ("8x2", 3), ("16x4", 0), ("32x16", 0)],
            vec![("2x1", 14), ("4x1", 14), ("8x2", 5), ("16x4", 2), ("32x16", 0)],
        )
    }
}
/// k = 0: a generic blob with two elements replaced, every pair of positions and every pair of
/// values of a short alphabet.
/// Then the polynomials with special structure.
fn count(sh: &Shape, k: usize) -> usize {
    let n = sh.m.n;
    (if k > 0 { k.pow(n as u32) } else { n * n * 9 }) + special(sh).len()
}
/// Roots at tau, identity proofs, every pair of coefficients, special limbs.
fn special(sh: &Shape) -> Vec<String> {
    let (n, l) = (sh.m.n, sh.m.l);
    let mut v: Vec<String> = (1..n).map(|d| format!("troot:{d}:1")).collect();
    for k in 0..sh.cells() {
        v.extend((1..n - l).map(|d| format!("tproof:{k}:{d}:1")));
    }
    for a in 0..n {
        for b in 0..n {
            if a < b {
                v.push(format!("poly:{a}=1:{b}=-1"));
                v.push(format!("poly:{a}=g1:{b}=g2"));
            }
        }
        v.push(format!("mono:{a}"));
        v.push(format!("deg:{}:2", a + 1));
    }
    for s in 0..32 {
        v.push(format!("limbs:{s}"));
        v.push(format!("limbcoef:{s}"));
    }
    v
}
fn blob(sh: &Shape, k: usize, i: usize) -> Vec<Fr> {
    let n = sh.m.n;
    let plain = if k > 0 { k.pow(n as u32) } else { n * n * 9 };
    if i >= plain {
        return named_blob(&sh.m, &special(sh)[i - plain]);
    }
    if k > 0 {
        return word(i, k, n).into_iter().map(|a| value(ALPHA[a])).collect();
    }
    let (p, v) = (i / 9, i % 9);
    let mut b: Vec<Fr> = (0..n).map(|j| if v % 2 == 0 { generic(500 + j as u64) } else { Fr::ZERO }).collect();
    b[p / n] = value(["0", "1", "-1"][v / 3]);
    b[p % n] = value(["0", "-1", "g7"][v % 3]);
    b
}
fn label(b: &[Fr]) -> String {
    b.iter().map(|x| short(&x.to_bytes_be())[..4].to_string()).collect::<Vec<_>>().join(".")
}

pub fn c01(run: &Run) {
    for (name, k) in spaces(run, false) {
        let sh = shape(name);
        sweep(run, &sh, count(&sh, k), |ctx, i| {
            let b = blob(&sh, k, i);
            let case = format!("small:{name}:{i}:{}", label(&b));
            if !run.wants(&case) {
                return;
            }
            run.transition();
            if !run.state(&("small", name, bytes_of(&b))) {
                return;
            }
            let want = g1_bytes(sh.m.commit(&b));
            match ctx.commit(&bytes_of(&b)) {
                Ok(Ok(g)) => run.expect(g == want, &case, || format!("{} instead of {}", hex(&g), hex(&want))),
                Ok(Err(_)) => run.fail(&case, "an error instead of a commitment"),
                Err(p) => run.fail(&case, format!("panicked: {p}")),
            }
            run.validated("tiny instance: commitment");
        });
        run.note(&format!("tiny instance {name}: blobs"), count(&sh, k));
    }
}

pub fn c02_c03(run: &Run, id: &str) {
    for (name, k) in spaces(run, true) {
        let sh = shape(name);
        sweep(run, &sh, count(&sh, k), |ctx, i| {
            let b = blob(&sh, k, i);
            let case = format!("small:{name}:{i}:{}", label(&b));
            if !run.wants(&case) {
                return;
            }
            run.transition();
            if !run.state(&("small", name, bytes_of(&b))) {
                return;
            }
            let p = sh.poly(b);
            match ctx.compute(&p.bytes) {
                Ok(Ok(mut g)) => {
                    let mut w: CellsProofs = (p.cell_bytes.clone(), vec![]);
                    if id == "C02" {
                        g.1.clear();
                    } else {
                        w.1 = g1_bytes_many(&p.proofs);
                        // cells are the other property's
                        g.0 = w.0.clone();
                    }
                    if let Some(d) = diff(&Ok(Ok(g)), Some(&w)) {
                        run.fail(&case, d);
                    }
                }
                Ok(Err(_)) => run.fail(&case, "an error instead of cells and proofs"),
                Err(p) => run.fail(&case, format!("panicked: {p}")),
            }
            run.validated("tiny instance: cells and proofs");
        });
        run.note(&format!("tiny instance {name}: blobs"), count(&sh, k));
    }
}
