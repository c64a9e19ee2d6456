//! C08, C09: recovery from every enumerated subset and order; refusal of every enumerated defect.
use crate::util::*;
use std::sync::Arc;

/// A named set of cells: how a request is built, in a given order.
fn order(name: &str, mut s: Vec<usize>) -> Vec<usize> {
    match name {
        "asc" => {}
        "desc" => s.reverse(),
        "rot" => {
            let k = s.len() / 3;
            s.rotate_left(k)
        }
        "interleave" => {
            let h = s.len() / 2;
            let (a, b) = s.split_at(h);
            let mut v = vec![];
            for i in 0..b.len() {
                v.push(b[i]);
                if i < a.len() {
                    v.push(a[i]);
                }
            }
            s = v;
        }
        "mix" => s.sort_by_key(|x| hash_of(x)),
        "brp" => s.sort_by_key(|x| brp(*x, 7)),
        "swap" => {
            // two neighbours exchanged in the middle
            let m = s.len() / 2;
            s.swap(m, m - 1)
        }
        x => panic!("{x}"),
    }
    s
}
const ORDERS: [&str; 7] = ["asc", "desc", "rot", "interleave", "mix", "brp", "swap"];

fn subset(name: &str) -> Vec<usize> {
    let f: Vec<&str> = name.split(':').collect();
    let n = |i: usize| -> usize { f[i].parse().unwrap() };
    match f[0] {
        // window of size k from start (cyclic)
        "win" => {
            let mut v: Vec<usize> = (0..n(2)).map(|i| (n(1) + i) % 128).collect();
            v.sort();
            v
        }
        // all but the window
        "stride" => (0..64).map(|i| (n(1) + n(2) * i) % 128).collect::<std::collections::BTreeSet<_>>().into_iter().collect(),
        // all except the listed
        "miss" => {
            let m: Vec<usize> = f[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            (0..128).filter(|i| !m.contains(i)).collect()
        }
        // pairs 2i,2i+1: choose one by a 64-bit mask
        "pairs" => {
            let m = u64::from_str_radix(f[1], 16).unwrap();
            (0..64).map(|i| 2 * i + (m >> i & 1) as usize).collect()
        }
        // halves: of the blocks of size b, every other one, plus extra cells
        "blocks" => {
            let (b, o) = (n(1), n(2));
            (0..128).filter(|i| (i / b) % 2 == o).collect()
        }
        // the cells whose bit-reversed index is in a window
        "brpwin" => {
            let mut v: Vec<usize> = (0..n(2)).map(|i| brp((n(1) + i) % 128, 7)).collect();
            v.sort();
            v
        }
        // generic subset of given size
        "gen" => {
            let mut v: Vec<usize> = (0..128).collect();
            let s = n(1);
            v.sort_by_key(|x| hash_of(&(s, x)));
            v.truncate(n(2));
            v.sort();
            v
        }
        x => panic!("{x}"),
    }
}

fn subsets(run: &Run) -> Vec<String> {
    let mut v = vec![];
    let sizes = run.pick(vec![64, 65, 95, 127, 128], (64..=128).collect::<Vec<_>>());
    let starts = run.pick((0..128).step_by(11).collect::<Vec<_>>(), (0..128).step_by(3).collect());
    for s in &starts {
        v.push(format!("win:{s}:64"));
        v.push(format!("brpwin:{s}:64"));
    }
    for s in [0, 64, 1, 127] {
        v.push(format!("win:{s}:64"));
    }
    for k in &sizes {
        v.push(format!("win:0:{k}"));
        v.push(format!("win:64:{k}"));
        v.push(format!("brpwin:5:{k}"));
        v.push(format!("gen:7:{k}"));
    }
    for b in [1usize, 2, 4, 8, 16, 32, 64] {
        for o in 0..2 {
            v.push(format!("blocks:{b}:{o}"));
        }
    }
    for i in run.pick(positions(128, 16), (0..128).collect()) {
        v.push(format!("miss:{i}"));
    }
    for i in run.pick((0..64).step_by(16).collect::<Vec<_>>(), (0..64).collect()) {
        v.push(format!("pairs:{:x}", 1u64 << i));
        v.push(format!("pairs:{:x}", !(1u64 << i)));
        v.push(format!("pairs:{:x}", (1u64 << i) - 1));
        v.push(format!("miss:{},{}", i, i + 64));
    }
    if run.thorough() {
        for i in 0..128 {
            for j in [i + 1, i + 2, i + 32, i + 64] {
                if j < 128 {
                    v.push(format!("miss:{i},{j}"));
                }
            }
        }
        for s in 1..200 {
            v.push(format!("gen:{s}:{}", 64 + s % 65));
            v.push(format!("gen:{s}:64"));
        }
    } else {
        for s in 1..12 {
            v.push(format!("gen:{s}:64"));
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c08() -> i32 {
    let run = Run::new("C08");
    let w = World::new(8);
    let subs = subsets(&run);
    let mut jobs: Vec<(String, String, String)> = vec![];
    for (i, s) in subs.iter().enumerate() {
        jobs.push(("gen:1".into(), s.clone(), ORDERS[i % ORDERS.len()].into()));
        if run.thorough() {
            jobs.push(("gen:2".into(), s.clone(), ORDERS[(i + 3) % ORDERS.len()].into()));
        }
    }
    for o in ORDERS {
        jobs.push(("gen:1".into(), "gen:3:64".into(), o.into()));
        jobs.push(("gen:1".into(), "miss:".into(), o.into()));
        jobs.push(("gen:1".into(), "gen:3:77".into(), o.into()));
    }
    let blobs: Vec<String> = ["const:0", "const:1", "const:-1", "mono:1", "mono:64", "mono:4095", "deg:64:1", "deg:65:1", "deg:4095:1", "cells:1:1", "cells:8000000000000000:1", "const:0+0=1", "const:0+4095=-1", "ramp", "const:2^254", "troot:1:1", "troot:4095:1", "tproof:0:1:1", "tproof:64:4031:1", "poly:0=1:64=-1", "poly:63=g1:4032=g2", "limbs:2", "limbcoef:2", "period:64:1", "period:2:1", "mirror:1", "equal:0:63:1", "coefs:8000000000000001:1", "stride:1:64:1", "const:g1+7=0"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let bsubs: Vec<&str> = run.pick(vec!["win:0:64", "win:64:64", "pairs:5555555555555555"], vec!["win:0:64", "win:64:64", "pairs:5555555555555555", "blocks:1:0", "gen:3:64", "gen:4:80", "miss:5", "miss:", "brpwin:3:64"]);
    for b in &blobs {
        for s in &bsubs {
            jobs.push((b.clone(), s.to_string(), "asc".into()));
        }
        jobs.push((b.clone(), "gen:9:90".into(), "mix".into()));
    }
    if run.thorough() {
        for k in 0..200 {
            jobs.push((format!("gen:{}", 10 + k), format!("gen:{}:{}", k, 64 + k % 3), ORDERS[k % 7].into()));
        }
    }
    run.note("requests_enumerated", jobs.len());
    run.sample(format!("{:?}", jobs[0]));
    run.sample(format!("{:?}", jobs[jobs.len() / 2]));
    run.sample(format!("{:?}", jobs[jobs.len() - 1]));
    par_jobs(&run, &jobs, || (), |_, (b, s, o)| {
        let case = format!("{b}/{s}/{o}");
        let set = order(o, subset(s));
        run.transitions_add(set.len() as u64);
        if !run.wants(&case) {
            return;
        }
        if !run.state(&(b, &set)) {
            return;
        }
        let row: Arc<Row> = w.row(b);
        assert!(set.len() >= 64);
        let idx: Vec<u64> = set.iter().map(|i| *i as u64).collect();
        let cells: Vec<&[u8; 2048]> = set.iter().map(|i| &*row.cell_bytes[*i]).collect();
        match recover(&w.ctx, &idx, &cells) {
            Ok(Ok((c, p))) => {
                run.validated("everything recovered exactly");
                if let Some(d) = diff_cells(&c, &row.cell_bytes).or_else(|| diff_proofs(&p, &row.proof_bytes)) {
                    run.fail(&case, d);
                }
            }
            o => run.fail(&case, format!("no recovery from {} honest cells: {:?}", set.len(), o.map(|r| r.is_ok()))),
        }
    });
    #[cfg(feature = "small")]
    mc_small::c08(&run);
    run.finish(
        "states are recovery requests (blob, ordered set of present cells), reached by adding one cell at a time; sets are all windows, complements, strides, blocks, bit-reversed windows, single and double erasures, pair choices and generic sets of the bound, orders are seven permutations; all 128 cells and proofs of every state are compared with the model",
        &["blst/blstrs field and k*G are right", "erasure patterns outside the enumerated families are covered only at small code shapes (C22 enumerates all of them there)"],
    )
}

pub fn c09() -> i32 {
    let run = Run::new("C09");
    let w = World::new(8);
    let row = w.row("gen:1");
    let other = w.row("gen:2");
    let zero = w.row("const:0");
    type R = (Vec<u64>, Vec<CellB>);
    let honest = |r: &Row, set: &[usize]| -> R {
        (set.iter().map(|i| *i as u64).collect(), set.iter().map(|i| r.cell_bytes[*i].clone()).collect())
    };
    let go = |case: String, what: &str, r: &R| {
        run.transitions_add(1);
        if !run.wants(&case) {
            return;
        }
        if !run.state(r) {
            return;
        }
        let cells: Vec<&[u8; 2048]> = r.1.iter().map(|c| &**c).collect();
        match recover(&w.ctx, &r.0, &cells) {
            Ok(Err(())) => run.validated(&format!("refused: {what}")),
            Ok(Ok(_)) => run.fail(&case, format!("data returned although {what}")),
            Err(p) => run.fail(&case, format!("panic ({p}) when {what}")),
        }
    };
    // (1) too few cells: every count, several families and orders
    let mut jobs = vec![];
    for n in 0..64 {
        for f in ["win:0", "win:64", "win:100", "brpwin:3", "gen:5"] {
            jobs.push((n, f));
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(n, f)| {
        for o in ["asc", "desc", "mix"] {
            if n < 2 && o != "asc" {
                continue;
            }
            let set = order(o, subset(&format!("{f}:{n}")));
            go(format!("few:{n}:{f}:{o}"), "fewer than 64 cells", &honest(&row, &set));
            if o == "asc" {
                go(format!("few0:{n}:{f}"), "fewer than 64 cells", &honest(&zero, &set));
            }
        }
    });
    // (2) repeated indices: at every pair of positions of requests of several sizes
    let mut jobs = vec![];
    for n in [64usize, 65, 128, 129, 192, 256] {
        for a in 0..n {
            for b in run.pick(vec![(a + 1) % n, 0, n - 1], vec![(a + 1) % n, 0, n - 1, n / 2, 63, 64 % n]) {
                if a != b {
                    jobs.push((n, a, b));
                }
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(n, a, b)| {
        let set: Vec<usize> = (0..n).map(|i| if i == a { b % 128 } else { i % 128 }).collect();
        go(format!("dup:{n}:{a}={b}"), "an index is repeated", &honest(&row, &set));
        // repeated index with another cell's content
        let mut r = honest(&row, &set);
        r.1[a] = row.cell_bytes[a % 128].clone();
        go(format!("dup':{n}:{a}={b}"), "an index is repeated", &r);
    });
    // (3) out-of-range indices at every position
    let mut vals = vec![128u64, 129, 191, 192, 255, 256, 8192, u64::MAX, u64::MAX - 63];
    for e in 8..64 {
        vals.push(1 << e);
        vals.push((1 << e) + 5);
    }
    let mut jobs = vec![];
    for n in [1usize, 64, 65, 128] {
        for p in 0..n {
            for v in &vals {
                if (p + *v as usize % 7) % run.pick(3, 1) == 0 || p == 0 || p + 1 == n {
                    jobs.push((n, p, *v));
                }
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(n, p, v)| {
        let mut r = honest(&row, &(0..n).collect::<Vec<_>>());
        r.0[p] = v;
        go(format!("range:{n}:{p}={v}"), "an index is out of range", &r);
    });
    // an out-of-range index added to a full honest request
    for n in 64..=128 {
        for v in [128u64, u64::MAX, 1 << 32] {
            let mut r = honest(&row, &(0..n).collect::<Vec<_>>());
            r.0.push(v);
            r.1.push(row.cell_bytes[0].clone());
            go(format!("range+:{n}={v}"), "an index is out of range", &r);
        }
    }
    // (4) different numbers of cells and indices
    let lens: Vec<usize> = [0, 1, 2, 63, 64, 65, 66, 100, 127, 128, 129].to_vec();
    for a in &lens {
        for b in &lens {
            if a != b {
                let ia: Vec<u64> = (0..*a as u64).map(|i| i % 128).collect();
                let cb: Vec<CellB> = (0..*b).map(|i| row.cell_bytes[i % 128].clone()).collect();
                go(format!("len:{a},{b}"), "the numbers of cells and indices differ", &(ia, cb));
            }
        }
    }
    // (5) a non-canonical element at every (cell, element) position
    let bad: Vec<_> = scalar_encodings().into_iter().filter(|e| !e.2).collect();
    let mut jobs = vec![];
    for n in [64usize, 128] {
        for p in 0..n {
            for j in 0..N_CELL {
                if (p + j) % run.pick(8, 1) == 0 || j == 63 || p == n - 1 {
                    jobs.push((n, p, j, (p * 64 + j) % bad.len()));
                }
            }
        }
    }
    for k in 0..bad.len() {
        jobs.push((64, k % 64, (k * 7) % 64, k));
        jobs.push((65, 64, (k * 11) % 64, k));
    }
    par_jobs(&run, &jobs, || (), |_, &(n, p, j, k)| {
        let mut r = honest(&row, &(0..n).collect::<Vec<_>>());
        r.1[p][32 * j..32 * j + 32].copy_from_slice(&bad[k].1);
        go(format!("scalar:{n}:{p}:{j}:{}", bad[k].0).replace(' ', "_"), "an element is not canonical", &r);
    });
    // (6) inconsistent cells: one element off, at every position, with 65..128 cells
    let mut jobs: Vec<(usize, usize, usize, &str, u8)> = vec![];
    for (n, fam) in [(65usize, "win:0"), (65, "win:64"), (65, "gen:2"), (66, "brpwin:1"), (96, "gen:3"), (127, "win:1"), (128, "win:0")] {
        for p in 0..n {
            for j in 0..N_CELL {
                let h = hash_of(&(n, p, j));
                if run.thorough() || h % 23 == 0 || ((p == 0 || p == n - 1) && h % 4 == 0) {
                    jobs.push((n, p, j, fam, (h >> 20) as u8 % 3));
                }
            }
        }
    }
    run.note("inconsistent_elements", jobs.len());
    let gone = |(n, p, j, fam, kind): (usize, usize, usize, &str, u8)| {
        let set = subset(&format!("{fam}:{n}"));
        let mut r = honest(&row, &set);
        let mut cell = row.cells[set[p]].clone();
        match kind {
            0 => cell[j] += Fr::ONE,
            1 => cell[j] = Fr::ZERO,
            _ => cell[j] = -cell[j],
        }
        r.1[p] = to_cell(&cell);
        go(format!("element:{n}:{fam}:{p}:{j}:{kind}"), "the cells are not from one polynomial of degree below 4096", &r);
    };
    par_jobs(&run, &jobs, || (), |_, j| gone(*j));
    // (7) cells exchanged, misplaced, from another blob, or all of a polynomial of high degree
    let mut jobs = vec![];
    for (n, fam) in [(65usize, "win:0"), (65, "gen:4"), (80, "brpwin:9"), (128, "win:0")] {
        for p in 0..n {
            jobs.push((n, fam, p));
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(n, fam, p)| {
        let set = subset(&format!("{fam}:{n}"));
        let why = "the cells are not from one polynomial of degree below 4096";
        let mut r = honest(&row, &set);
        r.1[p] = other.cell_bytes[set[p]].clone();
        go(format!("foreign:{n}:{fam}:{p}"), why, &r);
        let mut r = honest(&row, &set);
        r.1.swap(p, (p + 1) % n);
        go(format!("swapped:{n}:{fam}:{p}"), why, &r);
        let mut r = honest(&row, &set);
        r.1[p] = zero.cell_bytes[0].clone();
        go(format!("zeroed:{n}:{fam}:{p}"), why, &r);
        let mut r = honest(&zero, &set);
        r.1[p] = row.cell_bytes[set[p]].clone();
        go(format!("nonzero:{n}:{fam}:{p}"), why, &r);
        let mut r = honest(&zero, &set);
        let mut c = vec![Fr::ZERO; N_CELL];
        c[p % N_CELL] = Fr::ONE;
        r.1[p] = to_cell(&c);
        go(format!("unit:{n}:{fam}:{p}"), why, &r);
        // indices exchanged instead of cells
        let mut r = honest(&row, &set);
        r.0.swap(p, (p + 7) % n);
        go(format!("misindexed:{n}:{fam}:{p}"), why, &r);
    });
    // polynomials of degree d >= 4096: evaluations of x^d alone and added to honest cells
    let mut jobs = vec![];
    for d in run.pick(vec![4096usize, 4097, 4159, 4160, 6000, 8191], (4096..8192).step_by(37).chain([4096, 4097, 8190, 8191]).collect::<Vec<_>>()) {
        for n in [65usize, 128] {
            for with in [false, true] {
                jobs.push((d, n, with));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(d, n, with)| {
        let mut co = vec![Fr::ZERO; N_EXT];
        co[d] = Fr::ONE;
        let e = dft(&co, root_of_unity(N_EXT));
        let set = subset(&format!("gen:6:{n}"));
        let cells: Vec<CellB> = set
            .iter()
            .map(|k| {
                to_cell(
                    &(0..N_CELL)
                        .map(|j| {
                            let x = e[brp(k * N_CELL + j, 13)];
                            if with { x + row.cells[*k][j] } else { x }
                        })
                        .collect::<Vec<_>>(),
                )
            })
            .collect();
        // with 65 cells a word of degree d >= 4096 is consistent with degree < 4160 only: always refused
        go(format!("degree:{d}:{n}:{with}"), "the polynomial has degree 4096 or more", &(set.iter().map(|i| *i as u64).collect(), cells));
    });
    run.sample("few:63:win:64:desc");
    run.sample("dup:64:63=0");
    run.sample("element:65:gen:2:64:63:1 (last element of the 65th cell set to zero)");
    run.sample("degree:4096:65:true");
    #[cfg(feature = "small")]
    mc_small::c09(&run);
    run.finish(
        "states are defective recovery requests: every count below 64, repeated and out-of-range indices at every position, all length mismatches of the alphabet, every bad scalar, one wrong element at (cell, element) positions of requests of 65 to 128 cells, exchanged, foreign and high-degree cells; every state must be refused with an error and no panic",
        &["a wrong element in exactly 64 cells is undetectable by definition and not enumerated"],
    )
}
