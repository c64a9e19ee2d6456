//! C22: the erasure code and the placement of cells, at every small shape.
use crate::{chunks, name, visit, word};
use erasure_codes::{BlockErasureIndices, ReedSolomon};
use kzg_multi_open::recover_evaluations_in_domain_order;
use mc_common::*;

/// The unique polynomial of fewer than n coefficients through the known symbols, if any.
/// (Lagrange from the definition on the first n known points, then a check of all others.)
fn decode(n: usize, xs: &[Fr], known: &[usize], word: &[Fr]) -> Option<Vec<Fr>> {
    assert!(known.len() >= n);
    let base = &known[..n];
    let mut out = vec![Fr::ZERO; n];
    for &i in base {
        let mut num = vec![Fr::ONE];
        let mut den = Fr::ONE;
        for &j in base {
            if j == i {
                continue;
            }
            let mut t = vec![Fr::ZERO; num.len() + 1];
            for (k, c) in num.iter().enumerate() {
                t[k + 1] += c;
                t[k] -= *c * xs[j];
            }
            num = t;
            den *= xs[i] - xs[j];
        }
        let s = word[i] * inv(den);
        for (k, c) in num.iter().enumerate() {
            out[k] += *c * s;
        }
    }
    known.iter().all(|&i| eval(&out, xs[i]) == word[i]).then_some(out)
}

pub fn c22() -> i32 {
    let run = Run::new("C22");
    let g = generic(71);
    // shapes (message length, expansion, block size)
    let mut shapes = Vec::new();
    for n in [1usize, 2, 4, 8, 16] {
        for e in [1usize, 2, 4, 8] {
            let m = n * e;
            if m > run.pick(32, 64) {
                continue;
            }
            let mut b = 1;
            while b <= m {
                if b <= run.pick(8, 16) {
                    shapes.push((n, e, b));
                }
                b *= 2;
            }
        }
    }
    let mut jobs = Vec::new();
    for s in &shapes {
        for (a, b) in chunks(1 << s.2, 64) {
            jobs.push((*s, a, b));
        }
    }
    par_jobs(&run, &jobs, || (), |_, &((n, e, bs), a, b)| {
        let m = n * e;
        let rs = ReedSolomon::new(n, e, bs);
        let nb = m / bs;
        let w = root_of_unity(m);
        let xs: Vec<Fr> = (0..m).map(|i| pow(w, i as u64)).collect();
        let tol = (m - n) / nb;
        visit(&run, &format!("shape/{n}.{e}.{bs}"), || {
            if rs.codeword_length() != m || rs.acceptable_num_block_erasures() != tol {
                return Err(format!("length {} tolerance {}", rs.codeword_length(), rs.acceptable_num_block_erasures()));
            }
            Ok("shape")
        });
        // messages
        let mut msgs: Vec<(String, Vec<Fr>)> = vec![
            ("zero".into(), vec![Fr::ZERO; n]),
            ("dense".into(), (0..n).map(|i| generic(700 + i as u64)).collect()),
            ("ones".into(), vec![Fr::ONE; n]),
        ];
        for i in 0..n {
            let mut v = vec![Fr::ZERO; n];
            v[i] = if i % 2 == 0 { g } else { -Fr::ONE };
            msgs.push((format!("unit{i}"), v));
        }
        for mask in a..b {
            let erased: Vec<usize> = (0..bs).filter(|i| mask >> i & 1 == 1).collect();
            let known: Vec<usize> = (0..m).filter(|i| mask >> (i % bs) & 1 == 0).collect();
            let tolerable = erased.len() <= tol;
            for (mn, msg) in &msgs {
                let cw: Vec<Fr> = xs.iter().map(|x| eval(msg, *x)).collect();
                let tag = format!("{n}.{e}.{bs}/{mask:x}/{mn}");
                if mask == 0 {
                    visit(&run, &format!("encode/{tag}"), || match rs.encode(msg.clone()) {
                        Ok(c) if c == cw => Ok("encoded"),
                        r => Err(format!("encode: {:?}", r.map(|_| "wrong codeword"))),
                    });
                }
                // what stands in the erased places must not matter; neither must their order
                for fill in 0..3 {
                    for order in 0..2 {
                        if order == 1 && erased.len() < 2 {
                            continue;
                        }
                        visit(&run, &format!("erase/{tag}/{fill}{order}"), || {
                            let mut rx = cw.clone();
                            for i in 0..m {
                                if mask >> (i % bs) & 1 == 1 {
                                    rx[i] = [Fr::ZERO, generic(i as u64), cw[i]][fill];
                                }
                            }
                            let mut er = erased.clone();
                            if order == 1 {
                                er.reverse();
                            }
                            match (rs.recover_polynomial_coefficient(rx, BlockErasureIndices(er)), tolerable) {
                                (Ok(p), true) if p == *msg => Ok("recovered"),
                                (Ok(_), true) => Err("recovered a wrong message".into()),
                                (Err(x), true) => Err(format!("refused a tolerable pattern: {x:?}")),
                                (Ok(_), false) => Err("accepted more erasures than the tolerance".into()),
                                (Err(_), false) => Ok("too-many-refused"),
                            }
                        });
                    }
                }
                if !tolerable || (mn.starts_with("unit") && n > 4) {
                    continue;
                }
                // every single wrong symbol outside the erased blocks; all pairs on small shapes
                let mut errs: Vec<Vec<usize>> = known.iter().map(|i| vec![*i]).collect();
                if m <= 8 || (run.thorough() && m <= 16 && mn == "dense") {
                    for i in 0..known.len() {
                        for j in i + 1..known.len() {
                            errs.push(vec![known[i], known[j]]);
                        }
                    }
                }
                if mn == "dense" {
                    errs.push(known.clone());
                    if known.len() > n {
                        errs.push(known[n..].to_vec());
                        errs.push(known[..n].to_vec());
                    }
                }
                for er in errs {
                    for d in 0..2 {
                        visit(&run, &format!("error/{tag}/{er:?}/{d}"), || {
                            let mut rx = cw.clone();
                            for i in &er {
                                rx[*i] += [Fr::ONE, generic(300 + *i as u64)][d];
                            }
                            let want = decode(n, &xs, &known, &rx);
                            for i in 0..m {
                                if mask >> (i % bs) & 1 == 1 {
                                    rx[i] = Fr::ZERO;
                                }
                            }
                            let got = rs.recover_polynomial_coefficient(rx, BlockErasureIndices(erased.clone()));
                            match (got, want) {
                                (Ok(p), Some(q)) if p == q => Ok("another-message"),
                                (Ok(_), Some(_)) => Err("returned a message that does not explain the word".into()),
                                (Ok(_), None) => Err("returned a message although none explains the word".into()),
                                (Err(_), None) => Ok("inconsistent-refused"),
                                (Err(x), Some(_)) => Err(format!("refused a codeword: {x:?}")),
                            }
                        });
                    }
                }
            }
            // an invalid index at every place of the erasure list
            let cw: Vec<Fr> = xs.iter().map(|x| eval(&msgs[1].1, *x)).collect();
            for p in 0..=erased.len() {
                for bad in [bs, bs + 1, 2 * bs, m, usize::MAX] {
                    visit(&run, &format!("badindex/{n}.{e}.{bs}/{mask:x}/{p}/{bad}"), || {
                        let mut er = erased.clone();
                        er.insert(p, bad);
                        match rs.recover_polynomial_coefficient(cw.clone(), BlockErasureIndices(er)) {
                            Ok(_) => Err("accepted an index that names no block".into()),
                            Err(_) => Ok("bad-index-refused"),
                        }
                    });
                }
            }
        }
        if a == 0 {
            for extra in 1..=m + 1 {
                for last in [Fr::ONE, Fr::ZERO] {
                    visit(&run, &format!("toolong/{n}.{e}.{bs}/{extra}/{}", last == Fr::ONE), || {
                        let mut v = msgs[1].1.clone();
                        v.resize(n + extra, Fr::ZERO);
                        *v.last_mut().unwrap() = last;
                        match rs.encode(v) {
                            Ok(_) => Err("encoded a message longer than declared".into()),
                            Err(_) => Ok("too-long-refused"),
                        }
                    });
                }
            }
            for len in 0..n {
                visit(&run, &format!("short/{n}.{e}.{bs}/{len}"), || {
                    let v = msgs[1].1[..len].to_vec();
                    let want: Vec<Fr> = xs.iter().map(|x| eval(&v, *x)).collect();
                    match rs.encode(v) {
                        Ok(c) if c == want => Ok("encoded"),
                        _ => Err("short message encoded wrongly".into()),
                    }
                });
            }
        }
    });
    run.sample("error/4.2.8/a1/dense/[3]/0: message length 4, expansion 2, 8 block positions, erased set a1, wrong symbol 3");
    // the library's own shape: erased sets that are intervals and combs, with every single error place class
    let big = ReedSolomon::new(4096, 2, 128);
    let m = 8192;
    let msg: Vec<Fr> = (0..4096).map(|i| generic(100000 + i)).collect();
    let mut full = msg.clone();
    full.resize(m, Fr::ZERO);
    let cw = dft(&full, root_of_unity(m));
    let mut jobs: Vec<(String, Vec<usize>)> = Vec::new();
    for k in (0..=66).step_by(run.pick(6, 1)) {
        jobs.push((format!("first{k}"), (0..k).collect()));
        jobs.push((format!("last{k}"), (128 - k..128).collect()));
        jobs.push((format!("even{k}"), (0..k.min(64)).map(|i| 2 * i).collect()));
        jobs.push((format!("step63.{k}"), (0..k).map(|i| (i * 63 + 5) % 128).collect()));
    }
    par_jobs(&run, &jobs, || (), |_, (nm, er)| {
        visit(&run, &format!("big/{nm}"), || {
            let mut rx = cw.clone();
            for i in 0..m {
                if er.contains(&(i % 128)) {
                    rx[i] = Fr::ZERO;
                }
            }
            match big.recover_polynomial_coefficient(rx, BlockErasureIndices(er.clone())) {
                Ok(p) if er.len() <= 64 && p == msg => Ok("recovered"),
                Ok(_) => Err("wrong message or too many erasures accepted".into()),
                Err(_) if er.len() > 64 => Ok("too-many-refused"),
                Err(x) => Err(format!("refused a tolerable pattern: {x:?}")),
            }
        });
        if er.len() < 64 && !er.is_empty() {
            for p in run.pick(vec![1usize, 4095, 8191], vec![0, 1, 63, 64, 127, 128, 4095, 4096, 8063, 8191]) {
                let p = (p..m).chain(0..p).find(|i| !er.contains(&(i % 128))).unwrap();
                visit(&run, &format!("bigerror/{nm}/{p}"), || {
                    let mut rx = cw.clone();
                    for i in 0..m {
                        if er.contains(&(i % 128)) {
                            rx[i] = Fr::ZERO;
                        }
                    }
                    rx[p] += Fr::ONE;
                    match big.recover_polynomial_coefficient(rx, BlockErasureIndices(er.clone())) {
                        Ok(_) => Err("returned a message although none explains the word".into()),
                        Err(_) => Ok("inconsistent-refused"),
                    }
                });
            }
        }
    });
    // placement: every shape, every ordered selection of cells to a depth and every subset
    let mut pl = Vec::new();
    for m in [1usize, 2, 4, 8, 16, 32, 64, 8192] {
        let mut l = 1;
        while l <= m {
            if m < 8192 || l == 64 {
                pl.push((m, l));
            }
            l *= 2;
        }
    }
    par_jobs(&run, &pl, || (), |_, &(m, l)| {
        let c = m / l;
        let place = |case: String, sel: Vec<usize>| {
            visit(&run, &case, || {
                let val = |k: usize, j: usize| Fr::from((1 + k * l + j) as u64);
                let ev: Vec<Vec<Fr>> = sel.iter().map(|k| (0..l).map(|j| val(*k, j)).collect()).collect();
                let got = recover_evaluations_in_domain_order(m, sel.clone(), ev);
                let bad = sel.is_empty() || sel.iter().any(|k| *k >= c);
                let Some((ix, el)) = got else {
                    return if bad { Ok("place-refused") } else { Err("refused honest cells".into()) };
                };
                if bad {
                    return Err("placed a cell that does not exist (or nothing)".into());
                }
                let mut want = vec![Fr::ZERO; m];
                for k in &sel {
                    for j in 0..l {
                        want[brp(k * l + j, log2(m))] = val(*k, j);
                    }
                }
                if el != want {
                    return Err("an element is not at its own domain point".into());
                }
                let wi: Vec<usize> = sel.iter().map(|k| brp(*k, log2(c))).collect();
                if ix != wi {
                    return Err("a cell's position is wrong".into());
                }
                // the positions name exactly the elements i with i mod c = position
                for (k, p) in sel.iter().zip(&ix) {
                    if !(0..m).filter(|i| i % c == *p).all(|i| want[i] != Fr::ZERO || l == 0) {
                        return Err(format!("cell {k} is not spread from position {p}"));
                    }
                }
                Ok("placed")
            });
        };
        // all ordered selections of up to 3 distinct cells (and one index past the end)
        let top = (c + 1).min(run.pick(18, 66));
        place(format!("place/{m}.{l}/"), vec![]);
        for a in 0..top {
            place(format!("place/{m}.{l}/{a}"), vec![a]);
            for b in 0..top {
                if a != b {
                    place(format!("place/{m}.{l}/{a}.{b}"), vec![a, b]);
                    if c <= run.pick(8, 16) {
                        for d in 0..top {
                            if d != a && d != b {
                                place(format!("place/{m}.{l}/{a}.{b}.{d}"), vec![a, b, d]);
                            }
                        }
                    }
                }
            }
        }
        for big in [c, c + 1, 2 * c, m, m + 1] {
            for p in 0..=2usize.min(c) {
                let mut s: Vec<usize> = (0..2usize.min(c)).collect();
                s.insert(p.min(s.len()), big);
                place(format!("place/{m}.{l}/past{big}.{p}"), s);
            }
        }
        if c <= run.pick(8, 16) {
            for mask in 1..1usize << c {
                for rev in 0..2 {
                    let mut s: Vec<usize> = (0..c).filter(|i| mask >> i & 1 == 1).collect();
                    if rev == 1 {
                        s.reverse();
                    }
                    place(format!("subset/{m}.{l}/{mask:x}/{rev}"), s);
                }
            }
        }
        for a in 0..c {
            place(format!("single/{m}.{l}/{a}"), vec![a]);
        }
        place(format!("all/{m}.{l}"), (0..c).collect());
        place(format!("all/{m}.{l}/rev"), (0..c).rev().collect());
        // unequal cell lengths
        for n in 2..=4usize.min(c) {
            for p in 0..n {
                for d in [l + 1, l * 2, l - 1] {
                    if d == 0 {
                        continue;
                    }
                    visit(&run, &format!("unequal/{m}.{l}/{n}.{p}.{d}"), || {
                        let ev: Vec<Vec<Fr>> = (0..n).map(|i| vec![Fr::ONE; if i == p { d } else { l }]).collect();
                        match recover_evaluations_in_domain_order(m, (0..n).collect(), ev) {
                            None => Ok("place-refused"),
                            Some(_) => Err("placed cells of different lengths".into()),
                        }
                    });
                }
            }
        }
    });
    let _ = (name(&[]), word(0, 1, 0));
    run.finish(
        "A state is (code shape, erased set, contents of erased places, wrong symbols) or (domain, cell length, selection of cells). All \
         shapes with message length to 16 and expansion to 8, all erased sets over up to 8 (16) block positions, every single wrong symbol \
         (all pairs when the word has 8 symbols), every invalid index at every place; all ordered selections of up to 3 cells and all \
         subsets. Oracle: interpolation through the known symbols from the definition; bit-reversed placement.",
        &[],
    )
}
