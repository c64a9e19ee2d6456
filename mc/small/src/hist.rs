use crate::sys::*;

/// One operation with its result as the model has it.
pub enum Op {
    Commit(Vec<u8>, Option<[u8; 48]>),
    Compute(Vec<u8>, Option<CellsProofs>),
    Recover(Vec<u64>, Vec<Vec<u8>>, Option<CellsProofs>),
    Verify(Vec<[u8; 48]>, Vec<u64>, Vec<Vec<u8>>, Vec<[u8; 48]>, Result<(), bool>),
}
impl Op {
    pub fn run(&self, ctx: &dyn Sys) -> Option<String> {
        match self {
            Op::Commit(b, w) => {
                let g = ctx.commit(b);
                match (&g, w) {
                    (Ok(Ok(g)), Some(w)) if g == w => None,
                    (Ok(Err(_)), None) => None,
                    _ => Some(format!("commitment {:?} instead of {:?}", g.map(|x| x.map(|y| hex(&y))), w.map(|x| hex(&x)))),
                }
            }
            Op::Compute(b, w) => diff(&ctx.compute(b), w.as_ref()),
            Op::Recover(i, c, w) => diff(&ctx.recover(i, &c.iter().map(|x| &x[..]).collect::<Vec<_>>()), w.as_ref()),
            Op::Verify(c, i, e, p, w) => {
                let g = ctx.verify(c, i, &e.iter().map(|x| &x[..]).collect::<Vec<_>>(), p);
                if g == Ok(*w) { None } else { Some(format!("verdict {g:?} instead of {w:?}")) }
            }
        }
    }
}

/// Operations whose arguments differ from each other's in one component.
pub fn operations(sh: &Shape) -> Vec<(String, Op)> {
    let n = sh.m.n;
    let cells = sh.cells();
    let a = sh.named("gen:3");
    let b = sh.named(&format!("gen:3+{}=g9", n - 1));
    let z = sh.named("const:0");
    let mut v: Vec<(String, Op)> = vec![];
    let mut add = |n: &str, o: Op| v.push((n.to_string(), o));
    let bad = |p: &Poly| {
        let mut x = p.bytes.clone();
        x[32 * (n - 1)..].copy_from_slice(&R_BE);
        x
    };
    for (t, p) in [("A", &a), ("B", &b), ("Z", &z)] {
        add(&format!("commit{t}"), Op::Commit(p.bytes.clone(), Some(sh.pt(p.commit))));
        add(&format!("compute{t}"), Op::Compute(p.bytes.clone(), Some(sh.want(p))));
    }
    add("commitBad", Op::Commit(bad(&a), None));
    add("computeBad", Op::Compute(bad(&a), None));
    let rec = |p: &Poly, s: &[usize]| {
        let idx: Vec<u64> = s.iter().map(|x| *x as u64).collect();
        let c: Vec<Vec<u8>> = s.iter().map(|x| p.cell_bytes[*x].clone()).collect();
        let w = sh.recover_model(&idx, &c.iter().map(|x| &x[..]).collect::<Vec<_>>()).map(|b| sh.want(&sh.poly(b)));
        Op::Recover(idx, c, w)
    };
    let even: Vec<usize> = (0..cells).step_by(2).collect();
    let odd: Vec<usize> = (1..cells).step_by(2).collect();
    let high: Vec<usize> = (cells / 2..cells).collect();
    add("recoverAeven", rec(&a, &even));
    add("recoverBeven", rec(&b, &even));
    add("recoverAodd", rec(&a, &odd));
    add("recoverAhigh", rec(&a, &high));
    let mut r = high.clone();
    r.reverse();
    add("recoverArev", rec(&a, &r));
    add("recoverAall", rec(&a, &(0..cells).collect::<Vec<_>>()));
    add("recoverFew", rec(&a, &even[1..]));
    let mut d = even.clone();
    d[0] = d[1];
    add("recoverDup", rec(&a, &d));
    // one cell of another blob among too many
    let mut i: Vec<u64> = even.iter().map(|x| *x as u64).collect();
    let mut c: Vec<Vec<u8>> = even.iter().map(|x| a.cell_bytes[*x].clone()).collect();
    i.push(cells as u64 - 1);
    c.push(b.cell_bytes[cells - 1].clone());
    let w = sh.recover_model(&i, &c.iter().map(|x| &x[..]).collect::<Vec<_>>()).map(|b| sh.want(&sh.poly(b)));
    assert!(w.is_none());
    add("recoverMixed", Op::Recover(i, c, w));
    // cells exchanged: those of another polynomial
    let mut c: Vec<Vec<u8>> = even.iter().map(|x| a.cell_bytes[*x].clone()).collect();
    c.swap(0, 1);
    let i: Vec<u64> = even.iter().map(|x| *x as u64).collect();
    let w = sh.recover_model(&i, &c.iter().map(|x| &x[..]).collect::<Vec<_>>()).map(|b| sh.want(&sh.poly(b)));
    add("recoverSwapped", Op::Recover(i, c, w));
    let base = [(&a, 0), (&b, 0), (&a, cells - 1)];
    type Q = (Vec<[u8; 48]>, Vec<u64>, Vec<Vec<u8>>, Vec<[u8; 48]>);
    let req = || -> Q {
        (
            base.iter().map(|(r, _)| sh.pt(r.commit)).collect(),
            base.iter().map(|(_, k)| *k as u64).collect(),
            base.iter().map(|(r, k)| r.cell_bytes[*k].clone()).collect(),
            base.iter().map(|(r, k)| sh.pt(r.proofs[*k])).collect(),
        )
    };
    // the model's verdict: the logarithms of all points used are known
    let known: std::collections::HashMap<[u8; 48], Fr> =
        [&a, &b].iter().flat_map(|r| r.proofs.iter().chain([&r.commit])).flat_map(|k| [*k, -*k]).map(|k| (sh.pt(k), k)).collect();
    let verdict = |q: &Q| -> Result<(), bool> {
        let len = q.1.len();
        if q.0.len() != len || q.2.len() != len || q.3.len() != len || q.1.iter().any(|k| *k >= cells as u64) {
            return Err(false);
        }
        let mut all = true;
        for i in 0..len {
            match (known.get(&q.0[i]), scalars_of(&q.2[i]), known.get(&q.3[i])) {
                (Some(c), Some(v), Some(p)) => all &= sh.m.item_true(*c, q.1[i] as usize, &v, *p),
                _ => return Err(false),
            }
        }
        if all { Ok(()) } else { Err(true) }
    };
    let mut ver = |n: &str, f: &dyn Fn(&mut Q)| {
        let mut q = req();
        f(&mut q);
        let w = verdict(&q);
        v.push((n.to_string(), Op::Verify(q.0, q.1, q.2, q.3, w)));
    };
    ver("verify", &|_| {});
    ver("verifyEmpty", &|q| *q = Default::default());
    ver("verifySwapP", &|q| q.3.swap(0, 2));
    ver("verifyWrongCell", &|q| q.2[0] = b.cell_bytes[n / sh.m.l - 1].clone());
    ver("verifyWrongIdx", &|q| q.1[1] = 1);
    ver("verifyWrongC", &|q| q.0[1] = q.0[0]);
    ver("verifyNegC", &|q| { q.0[0][0] ^= 0x20; q.0[2][0] ^= 0x20 });
    ver("verifyBadP", &|q| q.3[1] = [0xff; 48]);
    ver("verifyShort", &|q| { q.3.pop(); });
    ver("verifyRange", &|q| q.1[2] = cells as u64);
    v
}

/// A cyclic sequence over k symbols in which every word of length n occurs exactly once.
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    db(1, 1, n, k, &mut a, &mut out);
    out
}

pub fn c11(run: &Run) {
    for (name, len) in run.pick(vec![("2x1", 3), ("4x2", 3), ("8x4", 3), ("4x1", 2), ("32x16", 2)], vec![("2x1", 4), ("4x2", 3), ("8x4", 3), ("4x1", 3), ("32x16", 2), ("16x2", 2)]) {
        let sh = shape(name);
        let ops = operations(&sh);
        let walk = de_bruijn(ops.len(), len);
        // pieces overlap by a word, each on one context
        let pieces = ncpu();
        let size = (walk.len() + pieces - 1) / pieces;
        let jobs: Vec<usize> = (0..pieces).collect();
        par_jobs(run, &jobs, || (), |_, j| {
            let ctx = sh.ctx();
            let at = |p: usize| &ops[walk[p % walk.len()]];
            for p in j * size..((j + 1) * size).min(walk.len()) + len - 1 {
                if run.broken() {
                    return;
                }
                let case = format!("small:{name}:walk:{p}");
                if run.filter.as_ref().is_some_and(|f| f != &case && !f.starts_with(&format!("small:{name}:walk"))) {
                    return;
                }
                run.transition();
                let hist: Vec<&str> = (p.saturating_sub(len - 1)..=p).map(|q| at(q).0.as_str()).collect();
                run.state(&("small", name, &hist));
                if let Some(d) = at(p).1.run(&*ctx) {
                    run.fail(&case, format!("{d}, after {}", hist.join(" ")));
                }
                run.validated("tiny instance: as alone");
            }
        });
        run.note(&format!("tiny instance {name}: histories"), format!("every word of {len} of {} operations", ops.len()));
    }
    // long lives: one context serves many different arguments, then the same again, then each in
    // turn with a neighbour's; a memory of any size has been filled and turned over by then
    for name in ["2x1", "4x2", "16x4"] {
        let sh = shape(name);
        let polys: Vec<Poly> = (0..run.pick(700, 5000)).map(|i| sh.named(&format!("gen:{}", i + 100))).collect();
        let cells = sh.cells();
        let kinds = ["commit", "compute", "recover", "verify", "batch", "mixed", "refused"];
        par_jobs(run, &kinds, || (), |_, kind| {
            let case = format!("small:{name}:life:{kind}");
            if !run.wants(&case) {
                return;
            }
            let ctx = sh.ctx();
            let mut served = 0usize;
            let mut go = |op: Op, round: usize| -> bool {
                served += 1;
                run.transition();
                run.state(&(&case, served));
                run.validated("tiny instance: as alone");
                match op.run(&*ctx) {
                    Some(d) => {
                        run.fail(&case, format!("operation {served}, round {round}: {d}"));
                        false
                    }
                    None => true,
                }
            };
            let commit = |p: &Poly| Op::Commit(p.bytes.clone(), Some(sh.pt(p.commit)));
            let compute = |p: &Poly| Op::Compute(p.bytes.clone(), Some(sh.want(p)));
            let recover = |p: &Poly, i: usize| {
                // half of the cells, those of the i-th subset of that size
                let mut left = i % 97;
                let set: Vec<usize> = (0..cells)
                    .filter(|k| {
                        left = left * 3 + k;
                        left % 5 < 2
                    })
                    .collect();
                let set: Vec<usize> = if set.len() < cells / 2 { (0..cells).filter(|k| !set.contains(k)).collect() } else { set };
                Op::Recover(set.iter().map(|k| *k as u64).collect(), set.iter().map(|k| p.cell_bytes[*k].clone()).collect(), Some(sh.want(p)))
            };
            let verify = |p: &Poly, q: &Poly, k: usize| {
                // the commitment is p's, the rest q's
                let t = sh.m.item_true(p.commit, k, &q.cells[k], q.proofs[k]);
                Op::Verify(vec![sh.pt(p.commit)], vec![k as u64], vec![q.cell_bytes[k].clone()], vec![sh.pt(q.proofs[k])], if t { Ok(()) } else { Err(true) })
            };
            for round in 0..3 {
                if *kind == "batch" {
                    let ix: Vec<usize> = (0..polys.len()).collect();
                    let c: Vec<_> = ix.iter().map(|i| sh.pt(polys[*i].commit)).collect();
                    let k: Vec<u64> = ix.iter().map(|i| ((i + round) % cells) as u64).collect();
                    let y: Vec<_> = ix.iter().map(|i| polys[*i].cell_bytes[k[*i] as usize].clone()).collect();
                    let q: Vec<_> = ix.iter().map(|i| sh.pt(polys[*i].proofs[k[*i] as usize])).collect();
                    for bad in [None, Some(0), Some(polys.len() / 2), Some(polys.len() - 1), None] {
                        let (mut c, mut w) = (c.clone(), Ok(()));
                        if let Some(b) = bad {
                            c[b] = c[(b + 1) % c.len()];
                            w = Err(true);
                        }
                        if !go(Op::Verify(c, k.clone(), y.clone(), q.clone(), w), round) {
                            return;
                        }
                    }
                    continue;
                }
                for (i, p) in polys.iter().enumerate() {
                    let next = &polys[(i + 1) % polys.len()];
                    let good = match *kind {
                        "commit" => go(commit(p), round),
                        "compute" => i % 3 > 0 || go(compute(p), round),
                        "recover" => i % 3 > 0 || go(recover(p, i + round), round),
                        "verify" => go(verify(p, p, i % cells), round) && go(verify(p, next, i % cells), round) && go(verify(next, p, (i + round) % cells), round),
                        "refused" => {
                            let k = i % cells;
                            let mut bad = p.bytes.clone();
                            bad[..32].copy_from_slice(&R_BE);
                            go(Op::Commit(bad.clone(), None), round)
                                && go(Op::Compute(bad, None), round)
                                && go(Op::Recover(vec![k as u64; 2 * cells], vec![p.cell_bytes[k].clone(); 2 * cells], None), round)
                                && go(Op::Verify(vec![[0xff; 48]], vec![k as u64], vec![p.cell_bytes[k].clone()], vec![sh.pt(p.proofs[k])], Err(false)), round)
                                && (i % 100 < 99 || go(commit(p), round) && go(compute(p), round) && go(recover(p, i), round) && go(verify(p, p, k), round))
                        }
                        _ => match (i + round) % 4 {
                            0 => go(commit(p), round),
                            1 => go(compute(p), round),
                            2 => go(recover(p, i), round),
                            _ => go(verify(p, p, i % cells), round) && go(verify(p, next, i % cells), round),
                        },
                    };
                    if !good || run.broken() {
                        return;
                    }
                }
            }
        });
        run.note(&format!("tiny instance {name}: long lives"), format!("{} lives over {} blobs, three rounds", kinds.len(), polys.len()));
    }
    // other contexts come and go: every nested and crossed order of two more contexts
    let sh = shape("4x2");
    let other = shape("2x1");
    let ops = operations(&sh);
    let oops = operations(&other);
    let n = ops.len();
    // events: a second context of the same shape is made (m) and dropped (d), one of another
    // shape (o, p), operations between (x)
    let orders: Vec<Vec<char>> = all_orders();
    run.note("tiny instance: orders of contexts", orders.len());
    par_jobs(run, &orders, || (), |_, o| {
        let case = format!("small:contexts:{}", o.iter().collect::<String>());
        if !run.wants(&case) {
            return;
        }
        let ctx = sh.ctx();
        let (mut second, mut third): (Option<Box<dyn Sys>>, Option<Box<dyn Sys>>) = (None, None);
        let mut at = hash_of(o) as usize;
        for e in o {
            run.transition();
            match e {
                'm' => second = Some(sh.ctx()),
                'd' => second = None,
                'o' => third = Some(other.ctx()),
                'p' => third = None,
                _ => {
                    for _ in 0..3 {
                        at += 1;
                        let mut r = ops[at % n].1.run(&*ctx);
                        if let (None, Some(s)) = (&r, &second) {
                            r = ops[(at + 1) % n].1.run(&**s);
                        }
                        if let (None, Some(t)) = (&r, &third) {
                            r = oops[at % oops.len()].1.run(&**t);
                        }
                        if let Some(d) = r {
                            run.fail(&case, d);
                        }
                        run.validated("tiny instance: as alone");
                    }
                }
            }
            run.state(&(&case, at));
        }
    });
}
fn all_orders() -> Vec<Vec<char>> {
    // all words over m d o p x of length up to 6 in which contexts are made before they go
    let mut out = vec![];
    fn go(w: &mut Vec<char>, out: &mut Vec<Vec<char>>) {
        if w.last() == Some(&'x') {
            out.push(w.clone());
        }
        if w.len() == 6 {
            return;
        }
        let has = |a: char, b: char| w.iter().filter(|c| **c == a).count() > w.iter().filter(|c| **c == b).count();
        let (second, third) = (has('m', 'd'), has('o', 'p'));
        for c in ['m', 'd', 'o', 'p', 'x'] {
            let ok = match c {
                'm' => !second,
                'd' => second,
                'o' => !third,
                'p' => third,
                _ => w.last() != Some(&'x'),
            };
            if ok {
                w.push(c);
                go(w, out);
                w.pop();
            }
        }
    }
    go(&mut vec![], &mut out);
    out
}

/// Every pool size and precomputation width: every operation gives the model's result.
pub fn c13(run: &Run) {
    for name in run.pick(vec!["2x1", "4x2", "4x1", "8x4", "32x16"], SHAPES.iter().map(|s| s.0).collect()) {
        let sh = shape(name);
        let ops = operations(&sh);
        let mut jobs = vec![];
        for t in [1usize, 2, 3, 5, 8, 16, 65, 0] {
            for w in [None, Some(1usize), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7), Some(8), Some(9), Some(10), Some(11), Some(12)] {
                let thr = if cfg!(feature = "mt") { t } else { 1 };
                if thr == t && (run.thorough() || t <= 2 || w.is_none_or(|w| (w + t) % 4 == 0)) && w.is_none_or(|w| sh.m.n <= 8 || w <= 10) {
                    jobs.push((t, w));
                }
            }
        }
        let extra: Vec<Vec<Fr>> = match sh.m.n {
            2 => words(run.pick(5, 9), 2),
            4 => words(run.pick(2, 4), 4),
            8 => words(run.pick(1, 2), 8),
            n => words(1, n),
        }
        .map(|w| w.into_iter().map(|a| value(ALPHA[a])).collect())
        .collect();
        par_jobs(run, &jobs, || (), |_, (t, w)| {
            let case = format!("small:{FLAVOUR}:{name}:{t}:{}", w.map_or("none".into(), |w| w.to_string()));
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.case(&case);
            let ctx = match guard(|| sh.ctx_with(*t, *w)) {
                Ok(c) => c,
                Err(p) => {
                    run.fail(&case, format!("context creation panicked: {p}"));
                    return;
                }
            };
            for (n, o) in &ops {
                run.transition();
                run.state(&("small", name, t, w, n));
                if let Some(d) = o.run(&*ctx) {
                    run.fail(&case, format!("{n}: {d}"));
                }
                run.validated("tiny instance: as in any configuration");
            }
            for b in &extra {
                run.transition();
                let p = sh.poly(b.clone());
                run.state(&("small", name, t, w, &p.bytes));
                if let Some(d) = diff(&ctx.compute(&p.bytes), Some(&sh.want(&p))) {
                    run.fail(&case, format!("blob {}: {d}", hex(&p.bytes)));
                }
                run.validated("tiny instance: as in any configuration");
            }
        });
        run.note(&format!("tiny instance {name}: configurations"), jobs.len());
    }
}
