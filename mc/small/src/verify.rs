use crate::sys::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    True,
    False,
    Malformed,
}
#[derive(Clone)]
struct It {
    label: String,
    c: [u8; 48],
    k: u64,
    cell: Vec<u8>,
    p: [u8; 48],
    kind: Kind,
}
/// an item from its parts; parts that are no field elements or points make it malformed
fn item(sh: &Shape, label: String, c: &Pt, k: u64, cell: &[u8], p: &Pt) -> It {
    let kind = match (c.1, scalars_of(cell), p.1) {
        (Some(c), Some(v), Some(p)) if k < sh.cells() as u64 => {
            if sh.m.item_true(c, k as usize, &v, p) {
                Kind::True
            } else {
                Kind::False
            }
        }
        _ => Kind::Malformed,
    };
    It { label, c: c.0, k, cell: cell.to_vec(), p: p.0, kind }
}
/// an encoding and, if it is one of a group element, its logarithm
#[derive(Clone)]
struct Pt([u8; 48], Option<Fr>);
fn pt(sh: &Shape, k: Fr) -> Pt {
    Pt(sh.pt(k), Some(k))
}
fn bad_points() -> Vec<(&'static str, Pt)> {
    let mut v = vec![("zeros", [0u8; 48]), ("ones", [0xff; 48])];
    let mut b = g1_bytes(generic(5));
    b[0] &= 0x7f;
    v.push(("uncompressed flag", b));
    let mut b = [0u8; 48];
    b[0] = 0xe0;
    v.push(("signed identity", b));
    // on the curve, outside the group
    let (_, t) = torsion_g1()[0];
    v.push(("torsion", (t + G1Projective::generator()).to_affine().to_compressed()));
    let mut b = [0u8; 48];
    b[0] = 0x80;
    b[47] = 1;
    v.push(("x=1", b));
    for (_, b) in &v {
        assert!(!point_ok(b));
    }
    v.into_iter().map(|(n, b)| (n, Pt(b, None))).collect()
}
fn honest(sh: &Shape, name: &str, r: &Poly, k: usize) -> It {
    item(sh, format!("{name}@{k}"), &pt(sh, r.commit), k as u64, &r.cell_bytes[k], &pt(sh, r.proofs[k]))
}
fn check(run: &Run, ctx: &dyn Sys, case: &str, its: &[&It]) {
    run.transition();
    run.state(case);
    let commits: Vec<[u8; 48]> = its.iter().map(|i| i.c).collect();
    let idx: Vec<u64> = its.iter().map(|i| i.k).collect();
    let cells: Vec<&[u8]> = its.iter().map(|i| &i.cell[..]).collect();
    let proofs: Vec<[u8; 48]> = its.iter().map(|i| i.p).collect();
    let want = if its.iter().any(|i| i.kind == Kind::Malformed) {
        Err(false)
    } else if its.iter().any(|i| i.kind == Kind::False) {
        Err(true)
    } else {
        Ok(())
    };
    judge(run, case, ctx.verify(&commits, &idx, &cells, &proofs), want);
}
fn judge(run: &Run, case: &str, got: Out<()>, want: Result<(), bool>) {
    let say = |r: &Result<(), bool>| match r {
        Ok(()) => "accepted",
        Err(true) => "invalid proof",
        Err(false) => "error",
    };
    match got {
        Err(p) => run.fail(case, format!("panicked: {p}")),
        Ok(g) => run.expect(g == want, case, || format!("{} instead of {}", say(&g), say(&want))),
    }
    run.validated(&format!("tiny instance: {}", say(&want)));
}
/// all words of the items to the given length
fn all_words(run: &Run, sh: &Shape, what: &str, items: &[It], len: usize, keep: impl Fn(&[&It]) -> bool + Sync) {
    let k = items.len();
    for n in 0..=len {
        sweep(run, sh, k.pow(n as u32), |ctx, i| {
            let w: Vec<&It> = word(i, k, n).into_iter().map(|x| &items[x]).collect();
            if !keep(&w) {
                return;
            }
            let case = format!("small:{}:{what}:{}", sh.name, w.iter().map(|x| x.label.as_str()).collect::<Vec<_>>().join(",").replace(' ', "_"));
            if run.wants(&case) {
                check(run, ctx, &case, &w);
            }
        });
        run.note(&format!("tiny instance {}: {what}: words of length {n}", sh.name), k.pow(n as u32));
    }
}

const ROWS: &[&str] = &["gen:3", "const:0", "const:g7", "gen:4"];
fn rows(sh: &Shape, n: usize) -> Vec<(&'static str, Poly)> {
    ROWS[..n].iter().map(|r| (*r, sh.named(r))).collect()
}

pub fn c04(run: &Run) {
    for (name, r, len) in run.pick(
        vec![("2x1", 3, 4), ("4x2", 3, 3), ("4x1", 2, 3), ("8x4", 3, 3), ("16x2", 2, 2), ("32x16", 3, 2)],
        vec![("2x1", 4, 4), ("4x2", 3, 4), ("4x1", 3, 3), ("8x4", 3, 3), ("8x2", 3, 3), ("16x4", 3, 3), ("16x2", 3, 2), ("32x16", 3, 3)],
    ) {
        let sh = shape(name);
        let rs = rows(&sh, r);
        let items: Vec<It> = rs.iter().flat_map(|(n, p)| (0..sh.cells()).map(|k| honest(&sh, n, p, k)).collect::<Vec<_>>()).collect();
        assert!(items.iter().all(|i| i.kind == Kind::True));
        all_words(run, &sh, "honest", &items, len, |_| true);
    }
    // every blob of an alphabet: all its cells at once, in two orders and twice over
    for (name, k) in run.pick(vec![("2x1", 8), ("4x2", 4), ("4x1", 3), ("8x4", 2)], vec![("2x1", 14), ("4x2", 9), ("4x1", 7), ("8x4", 4), ("8x2", 4), ("16x4", 2)]) {
        let sh = shape(name);
        let total = k_pow(k, sh.m.n);
        sweep(run, &sh, total, |ctx, i| {
            let case = format!("small:{name}:blob:{i}");
            if !run.wants(&case) {
                return;
            }
            let p = sh.poly(word(i, k, sh.m.n).into_iter().map(|a| value(ALPHA[a])).collect());
            let its: Vec<It> = (0..sh.cells()).map(|c| honest(&sh, "blob", &p, c)).collect();
            let mut w: Vec<&It> = its.iter().collect();
            check(run, ctx, &case, &w);
            w.extend(its.iter().rev());
            check(run, ctx, &case, &w);
        });
        run.note(&format!("tiny instance {name}: every blob of an alphabet"), total);
    }
}
fn k_pow(k: usize, n: usize) -> usize {
    k.pow(n as u32)
}

/// items that are one component away from a true one
fn near(sh: &Shape, rs: &[(&'static str, Poly)], bads: bool) -> Vec<It> {
    let n = sh.cells();
    let mut out = vec![];
    for (name, r) in rs {
        for k in 0..n {
            let c = pt(sh, r.commit);
            let p = pt(sh, r.proofs[k]);
            let cell = &r.cell_bytes[k];
            let l = |x: &str| format!("{name}@{k}{x}");
            for (d, t) in [(Fr::ONE, "+1"), (-Fr::ONE, "-1")] {
                out.push(item(sh, l(&format!("C{t}")), &pt(sh, r.commit + d), k as u64, cell, &p));
                out.push(item(sh, l(&format!("P{t}")), &c, k as u64, cell, &pt(sh, r.proofs[k] + d)));
                for j in [0, sh.m.l - 1] {
                    let mut v = r.cells[k].clone();
                    v[j] += d;
                    out.push(item(sh, l(&format!("e{j}{t}")), &c, k as u64, &bytes_of(&v), &p));
                    if sh.m.l == 1 {
                        break;
                    }
                }
            }
            out.push(item(sh, l("P=0"), &c, k as u64, cell, &pt(sh, Fr::ZERO)));
            out.push(item(sh, l("C=0"), &pt(sh, Fr::ZERO), k as u64, cell, &p));
            out.push(item(sh, l("-P"), &c, k as u64, cell, &pt(sh, -r.proofs[k])));
            for k2 in 0..n {
                if k2 != k {
                    out.push(item(sh, l(&format!("k{k2}")), &c, k2 as u64, cell, &p));
                    out.push(item(sh, l(&format!("P{k2}")), &c, k as u64, cell, &pt(sh, r.proofs[k2])));
                    out.push(item(sh, l(&format!("cell{k2}")), &c, k as u64, &r.cell_bytes[k2], &p));
                }
            }
            if bads {
                for (i, v) in [n as u64, n as u64 + 1, 2 * n as u64, 1 << 32, 1 << 63, u64::MAX].iter().enumerate() {
                    out.push(item(sh, l(&format!("idx{i}")), &c, *v, cell, &p));
                }
                for (t, b) in bad_points() {
                    out.push(item(sh, l(&format!("C:{t}")), &b, k as u64, cell, &p));
                    out.push(item(sh, l(&format!("P:{t}")), &c, k as u64, cell, &b));
                }
                for j in [0, sh.m.l - 1] {
                    let mut b = cell.clone();
                    b[32 * j..32 * j + 32].copy_from_slice(&R_BE);
                    out.push(item(sh, l(&format!("e{j}=r")), &c, k as u64, &b, &p));
                }
            }
        }
    }
    out.retain(|i| i.kind != Kind::True);
    out.sort_by(|a, b| a.label.cmp(&b.label));
    out.dedup_by(|a, b| a.label == b.label);
    out
}

pub fn c05(run: &Run) {
    // (1) every combination of four components of single items
    for (name, r) in run.pick(vec![("2x1", 3), ("4x2", 2)], vec![("2x1", 4), ("4x2", 3), ("4x1", 2), ("8x4", 3), ("32x16", 2)]) {
        let sh = shape(name);
        let rs = rows(&sh, r);
        let mut cs: Vec<Pt> = rs.iter().map(|r| pt(&sh, r.1.commit)).collect();
        cs.push(pt(&sh, Fr::ONE));
        let mut ps: Vec<Pt> = rs.iter().flat_map(|r| r.1.proofs.clone()).chain([Fr::ONE]).map(|k| pt(&sh, k)).collect();
        ps.sort_by_key(|p| p.0);
        ps.dedup_by_key(|p| p.0);
        let mut es: Vec<Vec<u8>> = rs.iter().flat_map(|r| r.1.cell_bytes.clone()).collect();
        es.push(bytes_of(&vec![Fr::ONE; sh.m.l]));
        es.sort();
        es.dedup();
        let n = sh.cells();
        let total = cs.len() * ps.len() * es.len() * n;
        sweep(run, &sh, total, |ctx, i| {
            let (k, i) = (i % n, i / n);
            let (c, i) = (i % cs.len(), i / cs.len());
            let (p, e) = (i % ps.len(), i / ps.len());
            let case = format!("small:{name}:parts:{c}:{k}:{e}:{p}");
            if run.wants(&case) {
                let it = item(&sh, String::new(), &cs[c], k as u64, &es[e], &ps[p]);
                check(run, ctx, &case, &[&it]);
            }
        });
        run.note(&format!("tiny instance {name}: commitment x index x cell x proof"), total);
    }
    // (2) two items near to true ones
    for (name, r) in run.pick(vec![("2x1", 1), ("4x2", 1)], vec![("2x1", 3), ("4x2", 2), ("8x4", 2), ("4x1", 1), ("32x16", 1)]) {
        let sh = shape(name);
        let rs = rows(&sh, r);
        all_words(run, &sh, "near", &near(&sh, &rs, false), 2, |_| true);
    }
    // (3) words of true and false items
    for (name, len) in run.pick(vec![("2x1", 5), ("4x1", 4), ("8x4", 3), ("32x16", 2)], vec![("2x1", 6), ("4x1", 5), ("8x4", 5), ("16x2", 4), ("32x16", 4)]) {
        let sh = shape(name);
        let rs = rows(&sh, 4);
        let n = sh.cells();
        let mut items = vec![honest(&sh, "a", &rs[0].1, 0), honest(&sh, "a", &rs[0].1, n - 1), honest(&sh, "b", &rs[3].1, 0), honest(&sh, "z", &rs[1].1, 1)];
        let all = near(&sh, &rs[..1], false);
        for l in ["gen:3@0P+1", "gen:3@0P-1", "gen:3@0e0+1", "gen:3@0k1"] {
            items.push(all.iter().find(|i| i.label == l).unwrap().clone());
        }
        all_words(run, &sh, "mixed", &items, len, |w| w.iter().any(|i| i.kind != Kind::True));
    }
}

pub fn c07(run: &Run) {
    // (1) every word of true, false and malformed items
    for (name, len) in run.pick(vec![("2x1", 4), ("4x2", 3), ("8x4", 3), ("4x1", 3), ("16x2", 2), ("32x16", 2)], vec![("2x1", 4), ("4x2", 4), ("8x4", 3), ("4x1", 3), ("16x2", 3), ("32x16", 3)]) {
        let sh = shape(name);
        let rs = rows(&sh, 2);
        let all = near(&sh, &rs[..1], true);
        let mut items = vec![honest(&sh, "a", &rs[0].1, 0), honest(&sh, "z", &rs[1].1, 1)];
        items.push(all.iter().find(|i| i.kind == Kind::False).unwrap().clone());
        items.extend(all.iter().filter(|i| i.kind == Kind::Malformed && i.label.starts_with("gen:3@0")).cloned());
        all_words(run, &sh, "malformed", &items, len, |w| w.iter().any(|i| i.kind == Kind::Malformed));
    }
    // (2) lists of all lengths
    for name in run.pick(vec!["2x1", "8x4"], vec!["2x1", "4x1", "8x4", "16x2", "32x16"]) {
        let sh = shape(name);
        let rs = rows(&sh, 2);
        let top = run.pick(4usize, 6);
        let all = near(&sh, &rs[..1], true);
        let bads: Vec<&It> = all.iter().filter(|i| i.label.starts_with("gen:3@0") && i.kind != Kind::True).collect();
        let base: Vec<It> = (0..top).map(|k| honest(&sh, "a", &rs[k % 2].1, k % sh.cells())).collect();
        let tuples = k_pow(top + 1, 4);
        // without a defect, and with each defect first or last
        sweep(run, &sh, tuples * (1 + 2 * bads.len()), |ctx, i| {
            let (t, v) = (word(i % tuples, top + 1, 4), i / tuples);
            let mut its = base.clone();
            if v > 0 {
                let p = if v % 2 == 1 { 0 } else { *t.iter().max().unwrap() };
                if p >= top {
                    return;
                }
                its[p] = bads[(v - 1) / 2].clone();
            }
            if t.iter().all(|x| *x == t[0]) || (v > 0 && !run.thorough() && (i % tuples + v) % 7 != 0) {
                return;
            }
            let case = format!("small:{name}:lengths:{}.{}.{}.{}:{v}", t[0], t[1], t[2], t[3]);
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.state(&case);
            let commits: Vec<[u8; 48]> = its[..t[0]].iter().map(|i| i.c).collect();
            let idx: Vec<u64> = its[..t[1]].iter().map(|i| i.k).collect();
            let cells: Vec<&[u8]> = its[..t[2]].iter().map(|i| &i.cell[..]).collect();
            let proofs: Vec<[u8; 48]> = its[..t[3]].iter().map(|i| i.p).collect();
            judge(run, &case, ctx.verify(&commits, &idx, &cells, &proofs), Err(false));
        });
        run.note(&format!("tiny instance {name}: list lengths x defects"), tuples * (1 + 2 * bads.len()));
    }
}
