//! C04, C05, C07: batches built item by item; the verdict of every reached batch is compared
//! with the truth the model computes.
use crate::util::*;

fn expect_verdict(run: &Run, case: &str, got: &Verdict, want: &Verdict, what: &str) {
    run.validated(&format!("{want:?} as the model says"));
    run.expect(got == want, case, || format!("{got:?} instead of {want:?} ({what})"));
}

/// restricted growth strings: all ways to split n items into groups
fn set_partitions(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, max: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for g in 0..=max {
            cur.push(g);
            go(n, cur, max.max(g + 1), out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], 0, &mut out);
    out
}

const ROWS: [&str; 8] = ["gen:1", "gen:2", "const:0", "const:7", "mono:1", "gen:3", "deg:64:2", "cells:1:4"];

pub fn c04() -> i32 {
    let run = Run::new("C04");
    let w = World::new(8);
    let pts = PtCache::default();
    let rows: Vec<_> = ROWS.iter().map(|n| w.row(n)).collect();

    // (1) every sequence over an alphabet of items, up to a depth
    let cols = [0usize, 1, 64, 127];
    let nrows = run.pick(5, 5);
    let alphabet: Vec<Item> = rows[..nrows].iter().flat_map(|r| cols.iter().map(|k| Item::honest(r, *k))).collect();
    let depth = run.pick(3, 4);
    let mut jobs: Vec<Vec<usize>> = vec![vec![]];
    let mut frontier = jobs.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for f in &frontier {
            for a in 0..alphabet.len() {
                let mut v = f.clone();
                v.push(a);
                next.push(v);
            }
        }
        jobs.extend(next.iter().cloned());
        frontier = next;
    }
    // (2) all ways of sharing commitments among up to 6 items
    let mut part_jobs = vec![];
    for n in 2..=run.pick(6, 8) {
        for p in set_partitions(n) {
            if p.iter().max().unwrap() < &rows.len() {
                part_jobs.push(p);
            }
        }
    }
    // (3) sizes
    let sizes: Vec<usize> = run.pick((0..=64).chain(positions(321, 20)).collect(), (0..=520).collect());
    let shapes = ["cols", "rows", "reverse", "same", "stride"];
    let mut size_jobs = vec![];
    for n in &sizes {
        for s in shapes {
            size_jobs.push((*n, s));
        }
    }
    // (4) each cell of each row on its own
    let mut single = vec![];
    for r in 0..rows.len() {
        for k in 0..N_CELLS {
            single.push((r, k));
        }
    }
    run.note("sequences", jobs.len());
    run.note("partitions", part_jobs.len());
    run.note("sized_batches", size_jobs.len());

    let go = |case: String, items: &[Item]| {
        run.transitions_add(items.len().max(1) as u64);
        if !run.wants(&case) {
            return;
        }
        let req = pts.req(items);
        if !run.state(&req.hash()) {
            return;
        }
        for i in items {
            assert!(i.is_true(&w.m), "model bug");
        }
        let got = verify(&w.ctx, &req);
        expect_verdict(&run, &case, &got, &Verdict::Accept, &format!("batch of {} honest items", items.len()));
    };
    par_jobs(&run, &jobs, || (), |_, j| {
        let items: Vec<Item> = j.iter().map(|a| alphabet[*a].clone()).collect();
        go(format!("seq:{j:?}").replace(' ', ""), &items);
    });
    par_jobs(&run, &part_jobs, || (), |_, p| {
        let items: Vec<Item> = p.iter().enumerate().map(|(i, g)| Item::honest(&rows[*g], (i * 37 + 3) % N_CELLS)).collect();
        go(format!("groups:{p:?}").replace(' ', ""), &items);
    });
    par_jobs(&run, &size_jobs, || (), |_, (n, s)| {
        let items: Vec<Item> = (0..*n)
            .map(|i| match *s {
                "cols" => Item::honest(&rows[(i / N_CELLS) % rows.len()], i % N_CELLS),
                "rows" => Item::honest(&rows[i % rows.len()], (i / rows.len()) % N_CELLS),
                "reverse" => {
                    let i = n - 1 - i;
                    Item::honest(&rows[(i / N_CELLS) % 3], i % N_CELLS)
                }
                "same" => Item::honest(&rows[*n % rows.len()], *n % N_CELLS),
                _ => Item::honest(&rows[i % 2], (i * 45) % N_CELLS),
            })
            .collect();
        go(format!("size:{n}:{s}"), &items);
    });
    par_jobs(&run, &single, || (), |_, (r, k)| {
        go(format!("single:{}@{k}", ROWS[*r]), &[Item::honest(&rows[*r], *k)]);
    });
    if run.thorough() {
        let mut pairs = vec![];
        for a in 0..N_CELLS {
            for b in 0..N_CELLS {
                pairs.push((a, b));
            }
        }
        par_jobs(&run, &pairs, || (), |_, (a, b)| {
            go(format!("pair:{a},{b}"), &[Item::honest(&rows[0], *a), Item::honest(&rows[(*a + *b) % 2], *b)]);
        });
    }
    // (5) honest blobs with special structure: constants, zero cells, low degree, monomials
    let special: Vec<String> = ["const:1", "const:-1", "const:0+0=1", "const:0+4095=1", "mono:63", "mono:64", "mono:65", "mono:4095", "deg:65:1", "deg:2:1", "ramp", "cells:8000000000000000:1", "cells:f:2", "mono:128", "mono:2048", "troot:1:3", "troot:65:3", "troot:4095:3", "tproof:0:1:3", "tproof:63:4031:3", "tproof:127:70:3", "poly:0=1:64=-1", "limbs:1", "limbcoef:1"]
        .iter().map(|s| s.to_string()).collect();
    par_jobs(&run, &special, || (), |_, name| {
        let r = w.row_once(name);
        let all: Vec<Item> = (0..N_CELLS).map(|k| Item::honest(&r, k)).collect();
        go(format!("all:{name}"), &all);
        for k in [0, 1, 63, 64, 127] {
            go(format!("one:{name}@{k}"), &all[k..k + 1]);
        }
        let mut mixed = all[..5].to_vec();
        mixed.push(Item::honest(&rows[0], 9));
        mixed.push(Item::honest(&rows[2], 9));
        go(format!("mixed:{name}"), &mixed);
    });
    // (5b) true claims whose commitment, proof, cell or opening is degenerate, in words
    let crafted = crafted(&w, &rows[0]);
    let len = run.pick(2, 3);
    let mut words: Vec<Vec<usize>> = vec![];
    for n in 1..=len {
        let k = crafted.len();
        words.extend((0..k.pow(n)).map(|mut x| {
            (0..n)
                .map(|_| {
                    let d = x % k;
                    x /= k;
                    d
                })
                .collect()
        }));
    }
    run.note("words_of_crafted_items", words.len());
    par_jobs(&run, &words, || (), |_, word| {
        let items: Vec<Item> = word.iter().map(|i| crafted[*i].clone()).collect();
        go(format!("crafted:{}", items.iter().map(|i| i.label.as_str()).collect::<Vec<_>>().join(",")), &items);
    });
    // (6) batches of many different commitments: constants c with distinct c (proof: identity),
    // and arbitrary commitments with the proof the model computes for an arbitrary cell
    let mut many: Vec<(usize, usize)> = vec![];
    for n in run.pick((0..=300).chain(positions(1030, 64)).collect::<Vec<_>>(), (0..=1100).collect()) {
        many.push((n, 0));
        many.push((n, 1));
        if n < 300 {
            many.push((n, 2));
        }
    }
    many.extend([(2047, 0), (2049, 1), (4096, 0), (4097, 1), (8193, 1)]);
    many.sort_by_key(|x| std::cmp::Reverse(x.0));
    run.note("many_commitments", many.len());
    par_jobs(&run, &many, || (), |_, &(n, kind)| {
        go(format!("many:{n}:{kind}"), &(0..n).map(|i| wide_item(&w, &rows[0], n, i, kind)).collect::<Vec<_>>());
    });
    for n in run.pick(vec![65537usize], vec![16385, 32769, 65535, 65536, 65537, 131073]) {
        let case = format!("huge:{n}");
        run.transitions_add(n as u64);
        if run.wants(&case) && run.state(&case) {
            let got = verify(&w.ctx, &huge(n, None));
            expect_verdict(&run, &case, &got, &Verdict::Accept, &format!("batch of {n} honest items of {n} blobs"));
        }
    }
    run.sample("seq:[0,9,3] = items gen:1@0, const:0@1, gen:1@127");
    run.sample("many:257:1 (257 items of 257 different commitments, one of them shown twice)");
    run.sample(format!("groups:{:?}", part_jobs[part_jobs.len() / 2]));
    run.sample("size:321:rows");
    #[cfg(feature = "small")]
    mc_small::c04(&run);
    run.finish(
        "states are batches of honest items (content-deduplicated); the graph appends one item of the alphabet {8 rows incl. the zero blob, constants and low-degree blobs} x columns at a time: all sequences to the depth bound, all partitions of items into commitment groups, batch sizes in five arrangements, every single cell, true claims with degenerate parts (identity commitments and proofs, proof equal to plus or minus the commitment) in all words to a length; every state must be accepted",
        &["blst/blstrs field and k*G are right; the pairing of blst is right"],
    )
}

/// True claims with every degenerate part: commitment and cell from short lists, the proof being
/// the one that makes the claim true; and the commitments for which that proof is the identity.
fn crafted(w: &World, r: &Row) -> Vec<Item> {
    let mut out = vec![];
    for k in [0usize, 1, 64, 127] {
        let cells: Vec<(&str, Vec<Fr>)> = vec![
            ("zero", vec![Fr::ZERO; N_CELL]),
            ("one", vec![Fr::ONE; N_CELL]),
            ("row", r.cells[(k + 1) % N_CELLS].clone()),
            ("unit", (0..N_CELL).map(|j| if j == 5 { Fr::ONE } else { Fr::ZERO }).collect()),
        ];
        for (cn, cell) in cells {
            let i = w.m.interp_at_tau(k, &cell);
            // commitment: identity, generator, the one with the identity as proof, its negative,
            // those with the generator, the commitment or its negative as proof
            let z = w.m.z[k];
            let mut cs = vec![("0", Fr::ZERO), ("1", Fr::ONE), ("I", i), ("-I", -i), ("I+Z", i + z)];
            if i != Fr::ZERO {
                // c - i = c z
                cs.push(("P", i * inv(Fr::ONE - z)));
                // c - i = -c z
                cs.push(("-P", i * inv(Fr::ONE + z)));
            }
            for (n, c) in cs {
                let proof = w.m.proof(c, k, &cell);
                out.push(Item { label: format!("{n}/{cn}@{k}"), commit: c, idx: k, cell: cell.clone(), proof });
            }
        }
    }
    out
}

/// The crafted claims with other proofs: among them those that make one side of the opening
/// equation, or a part of it, the identity. Grouped by (commitment, cell, proof) kind over columns.
fn degenerate(w: &World, r: &Row) -> Vec<Vec<Item>> {
    let mut kinds: std::collections::BTreeMap<String, Vec<Item>> = Default::default();
    for it in crafted(w, r) {
        let k = it.idx;
        let (c, i) = (it.commit, w.m.interp_at_tau(k, &it.cell));
        let hl = pow(w.m.points[k * N_CELL], N_CELL as u64);
        let taul = w.m.z[k] + hl;
        for (n, p) in [
            ("0", Fr::ZERO),
            ("1", Fr::ONE),
            ("-true", -it.proof),
            ("C", c),
            ("-C", -c),
            ("I", i),
            ("C-I", c - i),
            ("I-C", i - c),
            ("(I-C)/h", (i - c) * inv(hl)),  // C - I + h^l P = 0
            ("(C-I)/h", (c - i) * inv(hl)),
            ("(C-I)/t", (c - i) * inv(taul)), // tau^l P = C - I
            ("I/h", i * inv(hl)),             // h^l P = I
            ("-C/h", -c * inv(hl)),           // C + h^l P = 0
            ("C/t", c * inv(taul)),
            ("-I/t", -i * inv(taul)),
        ] {
            let kind = format!("{}:{n}", it.label.split('@').next().unwrap());
            let item = Item { label: format!("{kind}@{k}"), proof: p, ..it.clone() };
            kinds.entry(kind).or_default().push(item);
        }
    }
    kinds.into_values().collect()
}

/// A true item of a wide batch. kind 0: constant polynomials with different values; 1: arbitrary
/// commitments with the proof for an arbitrary cell, the first one shown again at the end; 2:
/// two commitments alternating after a run of different ones.
fn wide_item(w: &World, r: &Row, n: usize, i: usize, kind: usize) -> Item {
    let id = match kind {
        1 if i + 1 == n => 0,
        2 if i >= n / 2 => i % 2,
        _ => i,
    };
    let c = Fr::from(id as u64 + 2);
    let k = (i * 5 + 1) % N_CELLS;
    if kind == 0 {
        Item { label: format!("const:{}@{k}", id + 2), commit: c, idx: k, cell: vec![c; N_CELL], proof: Fr::ZERO }
    } else {
        let cell = r.cells[(i * 3) % N_CELLS].clone();
        let proof = w.m.proof(c, k, &cell);
        Item { label: format!("any:{}@{k}", id + 2), commit: c, idx: k, cell, proof }
    }
}
/// n constants, one commitment each; optionally one false item at a position
fn huge(n: usize, bad: Option<usize>) -> Req {
    let ks: Vec<Fr> = (0..n).map(|i| Fr::from(i as u64 + 1)).collect();
    let pts: Vec<[u8; 48]> = mul_many(&ks).iter().map(|p| p.to_compressed()).collect();
    let id = g1_bytes(Fr::ZERO);
    let mut cells: Vec<CellB> = ks.iter().map(|k| to_cell(&vec![*k; N_CELL])).collect();
    if let Some(b) = bad {
        cells[b] = to_cell(&vec![ks[b] + Fr::ONE; N_CELL]);
    }
    Req { commits: pts, idx: (0..n).map(|i| (i % N_CELLS) as u64).collect(), cells, proofs: vec![id; n] }
}

/// every single-component fault of an item
fn faults(w: &World, base: &Item, level: usize) -> Vec<Item> {
    let mut out = vec![];
    let mut add = |label: String, f: &dyn Fn(&mut Item)| {
        let mut x = base.clone();
        f(&mut x);
        x.label = format!("{}!{}", base.label, label);
        out.push(x);
    };
    let (r1, r2) = (w.row("gen:1"), w.row("gen:2"));
    // commitment
    add("C=0".into(), &|x| x.commit = Fr::ZERO);
    add("C+1".into(), &|x| x.commit += Fr::ONE);
    add("-C".into(), &|x| x.commit = -x.commit);
    add("C=other".into(), &|x| x.commit = if x.commit == r1.commit { r2.commit } else { r1.commit });
    // proof
    add("P=0".into(), &|x| x.proof = Fr::ZERO);
    add("P+1".into(), &|x| x.proof += Fr::ONE);
    add("-P".into(), &|x| x.proof = -x.proof);
    add("P=next".into(), &|x| x.proof = r1.proofs[(x.idx + 1) % N_CELLS]);
    add("P=otherrow".into(), &|x| x.proof = r2.proofs[x.idx]);
    // index
    let idxs: Vec<usize> = match level {
        0 => vec![base.idx ^ 1],
        1 => (0..7).map(|b| base.idx ^ (1 << b)).chain([127 - base.idx]).collect(),
        _ => (0..N_CELLS).collect(),
    };
    for k in idxs {
        if k != base.idx {
            add(format!("idx={k}"), &|x| x.idx = k);
        }
    }
    // cell
    let els: Vec<usize> = match level {
        0 => vec![0, 63],
        1 => vec![0, 1, 2, 31, 32, 62, 63],
        _ => (0..N_CELL).collect(),
    };
    for j in els {
        add(format!("y{j}+1"), &|x| x.cell[j] += Fr::ONE);
        if level > 0 {
            add(format!("y{j}=0"), &|x| x.cell[j] = Fr::ZERO);
            add(format!("-y{j}"), &|x| x.cell[j] = -x.cell[j]);
            add(format!("y{j}<->y{}", (j + 1) % N_CELL), &|x| x.cell.swap(j, (j + 1) % N_CELL));
        }
    }
    add("Y=0".into(), &|x| x.cell = vec![Fr::ZERO; N_CELL]);
    add("Y rot".into(), &|x| x.cell.rotate_left(1));
    if level > 0 {
        add("Y rev".into(), &|x| x.cell.reverse());
        add("Y rot32".into(), &|x| x.cell.rotate_left(32));
        add("Y=next".into(), &|x| x.cell = r1.cells[(x.idx + 1) % N_CELLS].clone());
        add("Y=otherrow".into(), &|x| x.cell = r2.cells[x.idx].clone());
        add("all+1".into(), &|x| x.cell.iter_mut().for_each(|y| *y += Fr::ONE));
        add("-C,-Y".into(), &|x| {
            x.commit = -x.commit;
            x.cell.iter_mut().for_each(|y| *y = -*y);
        });
        add("-Y,-P".into(), &|x| {
            x.proof = -x.proof;
            x.cell.iter_mut().for_each(|y| *y = -*y);
        });
        // consistent sign change of everything is true again: must be accepted
        add("-C,-Y,-P".into(), &|x| {
            x.commit = -x.commit;
            x.proof = -x.proof;
            x.cell.iter_mut().for_each(|y| *y = -*y);
        });
        add("C+1,Y+1".into(), &|x| {
            x.commit += Fr::ONE;
            x.cell.iter_mut().for_each(|y| *y += Fr::ONE);
        });
    }
    out
}

pub fn c05() -> i32 {
    let run = Run::new("C05");
    let w = World::new(8);
    let pts = PtCache::default();
    let rows: Vec<_> = ROWS.iter().map(|n| w.row(n)).collect();
    let go = |case: String, items: &[Item]| {
        run.transition();
        if !run.wants(&case) {
            return;
        }
        let req = pts.req(items);
        if !run.state(&req.hash()) {
            return;
        }
        let want = if items.iter().all(|i| i.is_true(&w.m)) { Verdict::Accept } else { Verdict::InvalidProof };
        let got = verify(&w.ctx, &req);
        expect_verdict(&run, &case, &got, &want, &format!("{} items", items.len()));
    };
    // (1) one item, every fault of every component
    let mut jobs: Vec<Item> = vec![];
    let cols = run.pick(vec![0, 1, 2, 63, 64, 97, 127], (0..N_CELLS).collect::<Vec<_>>());
    for r in &rows[..run.pick(5, 8)] {
        for k in &cols {
            jobs.extend(faults(&w, &Item::honest(r, *k), if *k <= 64 || run.thorough() { 2 } else { 1 }));
        }
    }
    run.note("single_item_faults", jobs.len());
    par_jobs(&run, &jobs, || (), |_, it| go(format!("one:{}", it.label).replace(' ', "_"), &[it.clone()]));
    // (2) every position in batches of several sizes and compositions
    let mut jobs = vec![];
    for n in run.pick(vec![2, 3, 7, 16, 33, 64, 128], vec![2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200]) {
        for shape in 0..3 {
            for p in 0..n {
                jobs.push((n, shape, p));
            }
        }
    }
    run.note("batch_positions", jobs.len());
    par_jobs(&run, &jobs, || (), |_, (n, shape, p)| {
        let items: Vec<Item> = (0..*n)
            .map(|i| match shape {
                0 => Item::honest(&rows[0], i % N_CELLS),
                1 => Item::honest(&rows[i % rows.len()], (i / rows.len()) * 5 % N_CELLS),
                _ => Item::honest(&rows[1], 77),
            })
            .collect();
        for f in faults(&w, &items[*p], if *n <= 7 { 1 } else { 0 }) {
            let mut v = items.clone();
            v[*p] = f;
            go(format!("batch:{n}:{shape}:{p}:{}", v[*p].label).replace(' ', "_"), &v);
        }
    });
    // (3) two faults at once, and components exchanged between two items
    let base: Vec<Item> = vec![Item::honest(&rows[0], 3), Item::honest(&rows[1], 3), Item::honest(&rows[0], 70)];
    let mut jobs = vec![];
    for i in 0..3 {
        for j in i + 1..3 {
            let (fi, fj) = (faults(&w, &base[i], 1), faults(&w, &base[j], run.pick(0, 1)));
            for a in &fi {
                for b in &fj {
                    let mut v = base.clone();
                    v[i] = a.clone();
                    v[j] = b.clone();
                    jobs.push((format!("two:{},{}", a.label, b.label), v));
                }
            }
            for mask in 1..16 {
                let mut v = base.clone();
                let (x, y) = (base[i].clone(), base[j].clone());
                if mask & 1 > 0 {
                    (v[i].commit, v[j].commit) = (y.commit, x.commit);
                }
                if mask & 2 > 0 {
                    (v[i].idx, v[j].idx) = (y.idx, x.idx);
                }
                if mask & 4 > 0 {
                    (v[i].cell, v[j].cell) = (y.cell.clone(), x.cell.clone());
                }
                if mask & 8 > 0 {
                    (v[i].proof, v[j].proof) = (y.proof, x.proof);
                }
                jobs.push((format!("swap:{i},{j}:{mask}"), v));
            }
        }
    }
    run.note("double_faults", jobs.len());
    par_jobs(&run, &jobs, || (), |_, (c, v)| go(c.replace(' ', "_"), v));
    // (4) a wrong combination of every pair of cells: item k shown as k'
    let mut jobs = vec![];
    for a in 0..N_CELLS {
        for b in run.pick(vec![(a + 1) % 128, a ^ 64, (a + 64 + 1) % 128, 127 - a], (0..128).collect::<Vec<_>>()) {
            jobs.push((a, b));
        }
    }
    par_jobs(&run, &jobs, || (), |_, (a, b)| {
        let r = &rows[0];
        for (c, y, p) in [(*a, *b, *b), (*a, *b, *a), (*a, *a, *b)] {
            go(
                format!("mix:{c},{y},{p}"),
                &[Item { label: "mix".into(), commit: r.commit, idx: c, cell: r.cells[y].clone(), proof: r.proofs[p] }],
            );
        }
    });
    // (5) long batches with many different commitments: a fault at every position of some, at
    // index-arithmetic positions of others
    let mut jobs = vec![];
    for (n, ps) in run.pick(
        vec![(130usize, (0..130).collect::<Vec<_>>()), (258, positions(258, 8)), (515, positions(515, 64)), (1027, vec![0, 255, 256, 511, 512, 1023, 1024, 1026])],
        vec![(130, (0..130).collect()), (258, (0..258).collect()), (515, (0..515).collect()), (1027, positions(1027, 8)), (4099, positions(4099, 256))],
    ) {
        for p in ps {
            jobs.push((n, p));
        }
    }
    run.note("wide_positions", jobs.len());
    par_jobs(&run, &jobs, || (), |_, &(n, p)| {
        for kind in 0..3 {
            let mut v: Vec<Item> = (0..n).map(|i| wide_item(&w, &rows[0], n, i, kind)).collect();
            let honest = v[p].clone();
            let mut bad: Vec<(&str, Item)> = vec![("y0+1", honest.clone()), ("P+1", honest.clone()), ("C=prev", honest.clone()), ("C=+256", honest.clone())];
            bad[0].1.cell[0] += Fr::ONE;
            bad[1].1.proof += Fr::ONE;
            bad[2].1.commit = v[(p + n - 1) % n].commit;
            bad[3].1.commit = v[(p + 256) % n].commit;
            for (what, b) in bad.into_iter().skip(if n > 200 { (p + kind) % 3 } else { 0 }).take(if n > 200 { 2 } else { 4 }) {
                v[p] = b;
                go(format!("wide:{n}:{kind}:{p}:{what}"), &v);
            }
        }
    });
    for (n, p) in run.pick(vec![(65537usize, 65536usize)], vec![(65537, 65536), (65537, 0), (65537, 65535), (65536, 32768), (131073, 131072)]) {
        let case = format!("huge:{n}:{p}");
        run.transitions_add(n as u64);
        if run.wants(&case) && run.state(&case) {
            let got = verify(&w.ctx, &huge(n, Some(p)));
            expect_verdict(&run, &case, &got, &Verdict::InvalidProof, &format!("batch of {n} items, item {p} false"));
        }
    }
    // (6) parts that vanish: claims for which one side of the equation is the identity, alone, with
    // an honest item, and in batches made only of such claims
    let kinds = degenerate(&w, &rows[0]);
    run.note("degenerate_kinds", kinds.len());
    par_jobs(&run, &kinds, || (), |_, items| {
        let kind = items[0].label.split('@').next().unwrap().to_string();
        for it in items {
            go(format!("part:{}", it.label), &[it.clone()]);
            go(format!("part:{}:twice", it.label), &[it.clone(), it.clone()]);
        }
        go(format!("part:{kind}:honest-first"), &[Item::honest(&rows[1], 9), items[0].clone()]);
        go(format!("part:{kind}:honest-last"), &[items[1].clone(), Item::honest(&rows[0], 64)]);
        for n in run.pick(vec![4usize, 65], vec![2, 3, 4, 5, 31, 32, 33, 64, 65, 128, 129]) {
            let v: Vec<Item> = (0..n).map(|i| items[i % items.len()].clone()).collect();
            go(format!("part:{kind}:{n}"), &v);
            // the same beside a true claim at the end
            let mut v = v;
            v[n - 1] = Item::honest(&rows[1], 77);
            go(format!("part:{kind}:{n}:last-true"), &v);
        }
    });
    run.sample("one:gen:1@0!y63+1 (one item whose last element is off by one)");
    run.sample("batch:64:1:41:const:7@25!P+1");
    run.sample("swap:0,2:8 (proofs of items 0 and 2 exchanged)");
    #[cfg(feature = "small")]
    mc_small::c05(&run);
    run.finish(
        "states are well-formed batches reached from honest ones by corrupting one component of one item (all 64 elements, all 127 other indices, commitments and proofs of other items, signs, identity), at every position of batches of many sizes and compositions, by pairs of such corruptions, by exchanging components between items, and from claims for which a part of the opening equation is the identity, alone and in batches; the model decides the truth of each item in the field, and the verdict must be accept or invalid proof accordingly",
        &["blst/blstrs field, k*G and pairing are right", "a false batch whose errors cancel under the hash-derived coefficients (probability about 2^-255) does not occur among the enumerated ones"],
    )
}

pub fn c07() -> i32 {
    let run = Run::new("C07");
    let w = World::new(8);
    let rows: Vec<_> = ROWS.iter().map(|n| w.row(n)).collect();
    let pts = PtCache::default();
    let go = |case: String, req: &Req, what: &str| {
        run.transition();
        if !run.wants(&case) {
            return;
        }
        if !run.state(&req.hash()) {
            return;
        }
        let got = verify(&w.ctx, req);
        expect_verdict(&run, &case, &got, &Verdict::Error, what);
    };
    let honest = |n: usize, shape: usize| -> Vec<Item> {
        (0..n)
            .map(|i| match shape {
                0 => Item::honest(&rows[0], i % N_CELLS),
                1 => Item::honest(&rows[i % 3], (i * 7) % N_CELLS),
                _ => Item::honest(&rows[2], i % N_CELLS),
            })
            .collect()
    };
    // (1) all length combinations
    let max = run.pick(3usize, 5);
    let mut jobs = vec![];
    for a in 0..=max {
        for b in 0..=max {
            for c in 0..=max {
                for d in 0..=max {
                    for shape in 0..3 {
                        if !(a == b && b == c && c == d) {
                            jobs.push((a, b, c, d, shape));
                        }
                    }
                }
            }
        }
    }
    for n in [64usize, 127, 128, 129] {
        for k in 0..4 {
            for d in [0, 1, n - 1, n + 1] {
                let mut l = [n; 4];
                l[k] = d;
                jobs.push((l[0], l[1], l[2], l[3], 0));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(a, b, c, d, shape)| {
        let all = pts.req(&honest(a.max(b).max(c).max(d), shape));
        let req = Req {
            commits: all.commits[..a].to_vec(),
            idx: all.idx[..b].to_vec(),
            cells: all.cells[..c].to_vec(),
            proofs: all.proofs[..d].to_vec(),
        };
        go(format!("len:{a},{b},{c},{d}:{shape}"), &req, "lists of different lengths");
        // the same with an out-of-range index and with undecodable bytes in it
        if a + b + c + d > 0 {
            let mut r2 = Req { commits: req.commits.clone(), idx: req.idx.clone(), cells: req.cells.clone(), proofs: req.proofs.clone() };
            if let Some(x) = r2.idx.last_mut() {
                *x = u64::MAX;
            }
            if let Some(x) = r2.proofs.first_mut() {
                *x = [0xff; 48];
            }
            go(format!("len+bad:{a},{b},{c},{d}:{shape}"), &r2, "lists of different lengths");
        }
    });
    // (2) one defect at every position
    let mut defects: Vec<(String, Box<dyn Fn(&mut Req, usize) + Sync + Send>)> = vec![];
    let big = |e: u32| 1u64 << e;
    let mut idxs = vec![128u64, 129, 130, 191, 192, 255, 256, 383, 8191, 8192, u64::MAX, u64::MAX - 127];
    for e in 8..64 {
        idxs.push(big(e));
        idxs.push(big(e) + 1);
        idxs.push(big(e).wrapping_add(127));
    }
    for i in idxs {
        defects.push((format!("idx={i}"), Box::new(move |r, p| r.idx[p] = i)));
    }
    let bad_points: Vec<_> = point_encodings().into_iter().filter(|e| !e.2).collect();
    let bad_scalars: Vec<_> = scalar_encodings().into_iter().filter(|e| !e.2).collect();
    let pick_pts = run.pick(13, 1);
    for (k, (n, b, _)) in bad_points.iter().enumerate() {
        if k % pick_pts == 0 || !n.contains("bit") {
            let (b1, b2) = (*b, *b);
            defects.push((format!("C={n}"), Box::new(move |r, p| r.commits[p] = b1)));
            defects.push((format!("P={n}"), Box::new(move |r, p| r.proofs[p] = b2)));
        }
    }
    for (k, (n, b, _)) in bad_scalars.iter().enumerate() {
        if k % run.pick(9, 1) != 0 && !(n.starts_with("r+") || n == "max") {
            continue;
        }
        for j in 0..N_CELL {
            if (k + j) % run.pick(16, 1) != 0 && !n.starts_with("r+0") {
                continue;
            }
            let b = *b;
            defects.push((format!("y{j}={n}"), Box::new(move |r, p| r.cells[p][32 * j..32 * j + 32].copy_from_slice(&b))));
        }
    }
    run.note("defects", defects.len());
    let shapes: Vec<(usize, usize, Vec<usize>)> = vec![
        (1, 0, vec![0]),
        (1, 2, vec![0]),
        (3, 1, vec![0, 1, 2]),
        (run.pick(20, 128), 0, run.pick(vec![19], vec![0, 63, 127])),
    ];
    let mut jobs = vec![];
    for d in 0..defects.len() {
        for (s, (_, _, ps)) in shapes.iter().enumerate() {
            for p in ps {
                jobs.push((d, s, *p));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(d, s, p)| {
        let (n, shape, _) = shapes[s];
        let mut req = pts.req(&honest(n, shape));
        (defects[d].1)(&mut req, p);
        go(format!("defect:{n}:{shape}:{p}:{}", defects[d].0).replace(' ', "_"), &req, "one malformed component");
    });
    // every position of a large batch, a few defects
    let few: Vec<usize> = (0..defects.len())
        .filter(|d| ["idx=128", "idx=18446744073709551615", "C=ones/flags7", "P=ones/flags7", "y0=r+0", "y63=r+0"].contains(&defects[*d].0.as_str()))
        .collect();
    assert!(few.len() >= 5);
    let mut jobs = vec![];
    for n in run.pick(vec![128], vec![64, 128, 129, 256]) {
        for p in 0..n {
            for d in &few {
                jobs.push((n, p, *d));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(n, p, d)| {
        let mut req = pts.req(&honest(n, 1));
        (defects[d].1)(&mut req, p);
        go(format!("pos:{n}:{p}:{}", defects[d].0), &req, "one malformed component");
    });
    // (3) pairs of defects, and a defect beside a false item: an error, not a verdict
    let kinds: Vec<usize> = (0..defects.len()).filter(|d| ["idx=128", "idx=4294967296", "C=ones/flags7", "P=x1/flags4", "y5=r+0"].contains(&defects[*d].0.as_str())).collect();
    for i in 0..3 {
        for j in 0..3 {
            for a in &kinds {
                for b in &kinds {
                    let mut req = pts.req(&honest(3, 1));
                    (defects[*a].1)(&mut req, i);
                    (defects[*b].1)(&mut req, j);
                    go(format!("two:{i}:{}:{j}:{}", defects[*a].0, defects[*b].0), &req, "two malformed components");
                }
                let mut items = honest(3, 1);
                items[j].proof += Fr::ONE;
                items[j].cell[7] += Fr::ONE;
                let mut req = pts.req(&items);
                (defects[*a].1)(&mut req, i);
                go(format!("false:{i}:{}:{j}", defects[*a].0), &req, "a malformed component beside a false item");
            }
        }
    }
    // (4) defects that cancel each other: points shifted by T and -T outside the prime-order
    // group, at two positions (0..n: commitments, n..2n: proofs)
    let tor = torsion_g1();
    for n in [2usize, 5] {
        for i in 0..2 * n {
            for j in i + 1..2 * n {
                for (name, t) in &tor {
                    let items = honest(n, 1);
                    let mut req = pts.req(&items);
                    for (p, d) in [(i, *t), (j, -*t)] {
                        let k = if p < n { items[p].commit } else { items[p - n].proof };
                        let b = (G1Projective::from(g1(k)) + d).to_affine().to_compressed();
                        if p < n { req.commits[p] = b } else { req.proofs[p - n] = b }
                    }
                    go(format!("cancel:{n}:{name}:{i},{j}"), &req, "two points outside the prime-order group whose defects cancel");
                }
            }
        }
    }
    // two scalars whose excess cancels modulo the group order
    for (a, b) in [(0usize, 1usize), (0, 63), (5, 37)] {
        let mut req = pts.req(&honest(3, 1));
        for j in [a, b] {
            let mut c = 0u16;
            for k in (0..32).rev() {
                let t = req.cells[1][32 * j + k] as u16 + R_BE[k] as u16 + c;
                req.cells[1][32 * j + k] = t as u8;
                c = t >> 8;
            }
        }
        go(format!("cancel:y{a},y{b}"), &req, "two elements given plus the group order");
    }
    run.sample("len:2,3,2,2:1");
    run.sample("defect:3:1:2:P=p+1/flags4");
    run.sample("pos:128:101:y63=r+0");
    #[cfg(feature = "small")]
    mc_small::c07(&run);
    run.finish(
        "states are malformed requests: every combination of list lengths up to the bound (and off-by-one around 64 and 128), every out-of-range index in the alphabet, every bad point encoding as commitment and proof, every bad scalar at element positions, at positions of batches of several sizes, and pairs of defects and defects beside false items; every state must give an error that is not an invalid-proof verdict, without a panic",
        &["blst's decoding and subgroup test, used one by one, decide which encodings are bad"],
    )
}
