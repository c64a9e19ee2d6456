//! C06: an adversary against the batching. It knows the setup's secret (so the error of every
//! item is a number it can compute) and sees the coefficients of any batch it submits, at the
//! boundary to blst. It forges by changing one component after seeing them.
use crate::util::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
/// scalar vectors passed to multi-scalar multiplications, and single multipliers
static SEEN: Mutex<Vec<Vec<[u8; 32]>>> = Mutex::new(Vec::new());

extern "C" {
    fn __real_blst_p1s_mult_pippenger(ret: *mut u8, points: *const *const u8, n: usize, scalars: *const *const u8, nbits: usize, scratch: *mut u64);
    fn __real_blst_p1_mult(out: *mut u8, p: *const u8, scalar: *const u8, nbits: usize);
}
fn read(p: *const u8, nbits: usize) -> [u8; 32] {
    let n = ((nbits + 7) / 8).min(32);
    let mut b = [0u8; 32];
    unsafe { std::ptr::copy_nonoverlapping(p, b.as_mut_ptr(), n) };
    b
}
#[no_mangle]
unsafe extern "C" fn __wrap_blst_p1s_mult_pippenger(ret: *mut u8, points: *const *const u8, n: usize, scalars: *const *const u8, nbits: usize, scratch: *mut u64) {
    if ON.load(Ordering::Relaxed) {
        let nbytes = (nbits + 7) / 8;
        let mut v = vec![];
        let mut next = scalars;
        let mut cur: *const u8 = std::ptr::null();
        for _ in 0..n {
            // blst's convention: a null entry continues the previous array
            if !(*next).is_null() {
                cur = *next;
                next = next.add(1);
            } else {
                cur = cur.add(nbytes);
            }
            v.push(read(cur, nbits));
        }
        SEEN.lock().unwrap().push(v);
    }
    __real_blst_p1s_mult_pippenger(ret, points, n, scalars, nbits, scratch)
}
#[no_mangle]
unsafe extern "C" fn __wrap_blst_p1_mult(out: *mut u8, p: *const u8, scalar: *const u8, nbits: usize) {
    if ON.load(Ordering::Relaxed) {
        SEEN.lock().unwrap().push(vec![read(scalar, nbits)]);
    }
    __real_blst_p1_mult(out, p, scalar, nbits)
}

/// Makes blst's own thread pool start with one thread, so that it calls the functions above.
fn single_threaded_blst() {
    extern "C" {
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
        fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    }
    unsafe {
        let mut all = [0u64; 16];
        sched_getaffinity(0, 128, all.as_mut_ptr());
        let w = all.iter().position(|x| *x != 0).unwrap();
        let mut one = [0u64; 16];
        one[w] = 1 << all[w].trailing_zeros();
        sched_setaffinity(0, 128, one.as_ptr());
        let p = vec![G1Projective::generator(); 40];
        let s = vec![Fr::from(3); 40];
        assert_eq!(G1Projective::multi_exp(&p, &s), G1Projective::generator() * Fr::from(120));
        sched_setaffinity(0, 128, all.as_ptr());
    }
}

fn observe(ctx: &DASContext, req: &Req) -> (Verdict, Vec<Vec<Fr>>) {
    SEEN.lock().unwrap().clear();
    ON.store(true, Ordering::SeqCst);
    let v = verify(ctx, req);
    ON.store(false, Ordering::SeqCst);
    let s = std::mem::take(&mut *SEEN.lock().unwrap());
    let s = s
        .into_iter()
        .map(|v| v.iter().filter_map(|b| Option::<Fr>::from(Fr::from_bytes_le(b))).collect())
        .collect();
    (v, s)
}
fn key(x: &Fr) -> [u8; 32] {
    x.to_bytes_le()
}
/// the scalars whose square (and, with four items, cube) was used too: candidates for the
/// challenge whose powers combine the batch
fn challenges(seen: &[Vec<Fr>], n: usize) -> Vec<Fr> {
    let all: Vec<Fr> = seen.iter().flatten().copied().collect();
    let set: HashSet<[u8; 32]> = all.iter().map(key).collect();
    let mut out: Vec<Fr> = vec![];
    for x in &all {
        if *x == Fr::ZERO || *x == Fr::ONE || *x == -Fr::ONE || out.contains(x) {
            continue;
        }
        if set.contains(&key(&(x.square()))) && (n < 4 || set.contains(&key(&(x.square() * x)))) {
            out.push(*x);
        }
    }
    out
}
/// coefficient vectors the batch may have been combined with
fn coefficients(seen: &[Vec<Fr>], n: usize) -> Vec<Vec<Fr>> {
    let mut out: Vec<Vec<Fr>> = vec![];
    let mut add = |v: Vec<Fr>| {
        if v.iter().all(|x| *x != Fr::ZERO) && !out.contains(&v) {
            out.push(v);
        }
    };
    for v in seen {
        if v.len() == n && n > 1 {
            add(v.clone());
        }
    }
    let rs: Vec<Fr> = if n >= 3 { challenges(seen, n) } else { seen.iter().filter(|v| v.len() <= 2).flatten().copied().collect() };
    for r in rs {
        add((0..n).map(|i| pow(r, i as u64)).collect());
    }
    out
}

#[derive(Clone, Copy, Debug)]
enum Comp {
    Commit,
    Proof,
    El(usize),
}
/// the change of item b's component that adds d to its error
fn shift(m: &Model, it: &mut Item, c: Comp, d: Fr) {
    match c {
        Comp::Commit => it.commit += d,
        Comp::Proof => it.proof -= d * inv(m.z[it.idx]),
        Comp::El(j) => it.cell[j] -= d * inv(m.cell_lagrange(it.idx, j)),
    }
}
fn error(m: &Model, it: &Item) -> Fr {
    it.commit - m.interp_at_tau(it.idx, &it.cell) - it.proof * m.z[it.idx]
}

pub fn c06() -> i32 {
    let run = Run::new("C06");
    single_threaded_blst();
    let w = World::new(8);
    let pts = PtCache::default();
    let rows: Vec<_> = ["gen:1", "gen:2", "gen:3", "gen:4", "mono:3", "gen:6", "gen:7", "gen:8"].iter().map(|n| w.row(n)).collect();
    // shapes: which row and column the i-th item has
    let item = |shape: usize, i: usize| -> Item {
        match shape {
            0 => Item::honest(&rows[i % 8], (i / 8 * 9 + 4) % N_CELLS), // different rows, equal columns
            1 => Item::honest(&rows[0], (i * 3) % N_CELLS),             // one row
            2 => Item::honest(&rows[i % 2], (i * 5) % N_CELLS),         // two rows alternating
            _ => Item::honest(&rows[(i / 2) % 8], 77),                  // one column, pairs of equal items
        }
    };
    let reject = |case: String, items: &[Item], what: &str| {
        run.transition();
        if !run.wants(&case) {
            return;
        }
        let req = pts.req(items);
        if !run.state(&req.hash()) {
            return;
        }
        let false_items = items.iter().filter(|i| !i.is_true(&w.m)).count();
        assert!(false_items > 0, "model bug: nothing false in {case}");
        let got = verify(&w.ctx, &req);
        run.validated("rejected as an invalid proof");
        run.expect(got == Verdict::InvalidProof, &case, || format!("{got:?} for a batch with {false_items} false items ({what})"));
    };

    // (1) errors that cancel whatever the challenge, if two coefficients have a simple ratio
    let mut jobs = vec![];
    for n in run.pick(vec![2usize, 3, 4, 6], vec![2, 3, 4, 5, 6, 8, 12]) {
        for shape in 0..4 {
            for a in 0..n {
                for b in 0..n {
                    if a != b {
                        jobs.push((n, shape, a, b));
                    }
                }
            }
        }
    }
    for n in [32usize, 65] {
        for shape in 0..4 {
            for a in run.pick(positions(n, 16), (0..n).collect()) {
                jobs.push((n, shape, a, (a + 1) % n));
                jobs.push((n, shape, a, n - 1 - a));
            }
        }
    }
    // equal or opposite coefficients far apart
    for n in run.pick(vec![129usize, 260], vec![129, 130, 260, 520, 1030]) {
        for shape in run.pick(0..2, 0..4) {
            for d in positions(n, n).into_iter().filter(|d| *d > 0) {
                for a in [0, 1, n - 1 - d, (n - d) / 2] {
                    if a + d < n {
                        jobs.push((n, shape, a, a + d));
                    }
                }
            }
        }
    }
    jobs.retain(|(_, _, a, b)| a != b);
    jobs.sort();
    jobs.dedup();
    par_jobs(&run, &jobs, || (), |_, &(n, shape, a, b)| {
        let base: Vec<Item> = (0..n).map(|i| item(shape, i)).collect();
        let mut ratios: Vec<(String, Fr)> = vec![];
        if n <= 6 {
            for (x, y) in [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1), (1, 4)] {
                ratios.push((format!("{x}/{y}"), Fr::from(x) * inv(Fr::from(y))));
                ratios.push((format!("-{x}/{y}"), -Fr::from(x) * inv(Fr::from(y))));
            }
        } else {
            ratios.push(("1/1".into(), Fr::ONE));
            ratios.push(("-1/1".into(), -Fr::ONE));
        }
        // a challenge from a small set, or of the index of the items
        if n <= 6 {
            for r in 2..run.pick(6u64, 40) {
                let q = pow(Fr::from(r), b as u64) * inv(pow(Fr::from(r), a as u64));
                ratios.push((format!("r={r}"), q));
            }
            ratios.push(("z".into(), w.m.z[base[b].idx] * inv(w.m.z[base[a].idx])));
            let h = |k: usize| pow(w.m.points[k * N_CELL], N_CELL as u64);
            ratios.push(("h".into(), h(base[b].idx) * inv(h(base[a].idx))));
        }
        let comps = [Comp::Proof, Comp::El(0), Comp::El(63), Comp::Commit];
        for (rn, q) in &ratios {
            for (k, (ca, cb)) in [(0, 0), (1, 1), (2, 1), (0, 1), (3, 0), (3, 3)].into_iter().enumerate() {
                if n > 6 && k > 1 {
                    continue;
                }
                if matches!(comps[ca], Comp::Commit) && shape != 0 {
                    continue;
                }
                // e_a = -q * e_b: cancels if c_b = q c_a
                let d = generic(88);
                let mut v = base.clone();
                shift(&w.m, &mut v[a], comps[ca], -(*q * d));
                shift(&w.m, &mut v[b], comps[cb], d);
                reject(format!("ratio:{n}:{shape}:{a},{b}:{rn}:{k}"), &v, "errors in a simple ratio");
            }
        }
    });

    // (2) adaptive forgeries
    struct Seen {
        tag: String,
        items: Vec<Item>,
        a: usize,
        coeffs: Vec<Vec<Fr>>,
    }
    let mut observed: Vec<Seen> = vec![];
    let sizes = run.pick(vec![2usize, 3, 4, 9, 33, 66, 130, 258], vec![2, 3, 4, 5, 6, 8, 9, 16, 17, 33, 64, 65, 66, 129, 130, 258, 515]);
    for n in &sizes {
        for shape in 0..run.pick(if *n > 64 { 2 } else { 4 }, 4) {
            let falses: Vec<usize> = if *n <= 4 { (0..*n).collect() } else { vec![0, n / 2, n - 1] };
            for a in falses {
                let mut items: Vec<Item> = (0..*n).map(|i| item(shape, i)).collect();
                items[a].proof += generic(3);
                let tag = format!("{n}:{shape}:{a}");
                run.transition();
                let (v, seen) = observe(&w.ctx, &pts.req(&items));
                if v != Verdict::InvalidProof {
                    run.fail(&format!("base:{tag}"), format!("{v:?} for a batch with one false item"));
                }
                let coeffs = coefficients(&seen, *n);
                observed.push(Seen { tag, items, a, coeffs });
            }
        }
    }
    run.note("batches_observed", observed.len());
    run.note("coefficient_vectors_learned", observed.iter().map(|o| o.coeffs.len()).sum::<usize>());
    let mut jobs = vec![];
    for (oi, o) in observed.iter().enumerate() {
        let n = o.items.len();
        for b in 0..n {
            if n > 9 && b % run.pick(4, 1) != 0 && b != n - 1 && b != 1 {
                continue;
            }
            if n > 64 && ![1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, n / 2 + 1, n - 2, n - 1].contains(&b) {
                continue;
            }
            for ci in 0..o.coeffs.len() {
                jobs.push((oi, b, ci));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(oi, b, ci)| {
        let o = &observed[oi];
        let n = o.items.len();
        let c = &o.coeffs[ci];
        let mut comps = vec![Comp::Proof, Comp::Commit];
        if b == o.a {
            return;
        }
        if n == 2 || (n == 3 && run.thorough()) {
            comps.extend((0..N_CELL).map(Comp::El));
        } else if n <= 9 {
            comps.extend([0, 1, 31, 32, 63].map(Comp::El));
        } else {
            comps.extend([0, 63].map(Comp::El));
        }
        let total: Fr = o.items.iter().zip(c).fold(Fr::ZERO, |s, (i, c)| s + error(&w.m, i) * c);
        for comp in comps {
            let d = -total * inv(c[b]);
            let mut v = o.items.clone();
            shift(&w.m, &mut v[b], comp, d);
            reject(format!("adaptive:{}:{b}:{comp:?}:{ci}", o.tag), &v, "one component chosen after the coefficients were known");
            // all items of the group moved together: the commitment itself is the free component
            if let Comp::Commit = comp {
                let old = o.items[b].commit;
                let sum: Fr = o.items.iter().zip(c).filter(|(i, _)| i.commit == old).fold(Fr::ZERO, |s, (_, c)| s + c);
                if sum != Fr::ZERO {
                    let mut v = o.items.clone();
                    for x in v.iter_mut().filter(|i| i.commit == old) {
                        x.commit -= total * inv(sum);
                    }
                    if v.iter().any(|x| !x.is_true(&w.m)) {
                        reject(format!("adaptive:{}:{b}:Group:{ci}", o.tag), &v, "a commitment chosen after the coefficients were known");
                    }
                }
            }
        }
        // two components of the same item
        let mut v = o.items.clone();
        shift(&w.m, &mut v[b], Comp::Proof, generic(12));
        shift(&w.m, &mut v[b], Comp::El(5), -total * inv(c[b]) - generic(12));
        reject(format!("adaptive:{}:{b}:both:{ci}", o.tag), &v, "proof and cell chosen after the coefficients were known");
        // the item appended afterwards
        if b == n - 1 && o.a != b && n >= 3 {
            let mut small = o.items[..n - 1].to_vec();
            let mut last = o.items[b].clone();
            let t: Fr = small.iter().zip(c).fold(Fr::ZERO, |s, (i, c)| s + error(&w.m, i) * c);
            shift(&w.m, &mut last, Comp::Proof, -t * inv(c[b]));
            small.push(last);
            reject(format!("adaptive:{}:append:{ci}", o.tag), &small, "an item chosen after the coefficients were known");
        }
    });
    // an item appended to a batch whose challenge is known
    let mut jobs = vec![];
    for (oi, o) in observed.iter().enumerate() {
        if o.items.len() >= 3 {
            for ci in 0..o.coeffs.len() {
                jobs.push((oi, ci));
            }
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(oi, ci)| {
        let o = &observed[oi];
        let n = o.items.len();
        let c = &o.coeffs[ci];
        // the next coefficient if they are powers
        let next = c[1] * inv(c[0]) * c[n - 1];
        let total: Fr = o.items.iter().zip(c).fold(Fr::ZERO, |s, (i, c)| s + error(&w.m, i) * c);
        for (k, comp) in [Comp::Proof, Comp::El(0), Comp::Commit].into_iter().enumerate() {
            let mut v = o.items.clone();
            let mut x = item(0, n + 3);
            shift(&w.m, &mut x, comp, -total * inv(next));
            v.push(x);
            reject(format!("extended:{}:{k}:{ci}", o.tag), &v, "an item appended after the coefficients were known");
        }
    });

    // (3) every component, discrete ones included, changes the challenge
    let mut compared = 0u64;
    for n in run.pick(vec![3usize, 6, 66, 131], vec![3, 4, 6, 17, 40, 66, 131, 259]) {
        for shape in 0..if n > 40 { 2 } else { 4 } {
            let base: Vec<Item> = (0..n).map(|i| item(shape, i)).collect();
            let chal = |v: &[Item]| challenges(&observe(&w.ctx, &pts.req(v)).1, n);
            let c0 = chal(&base);
            run.transition();
            if c0.is_empty() {
                continue;
            }
            let mut variants: Vec<(String, Vec<Item>)> = vec![];
            for b in 0..n {
                if n > 6 && n <= 40 && b % 5 != 0 && b != n - 1 {
                    continue;
                }
                if n > 40 && ![0, 64, 65, 129, 257, n - 1].contains(&b) {
                    continue;
                }
                let mut add = |l: String, f: &dyn Fn(&mut Vec<Item>)| {
                    let mut v = base.clone();
                    f(&mut v);
                    variants.push((format!("bind:{n}:{shape}:{b}:{l}"), v));
                };
                for bit in 0..if n > 40 { 1 } else { 7 } {
                    add(format!("idx^{bit}"), &|v| v[b].idx ^= 1 << bit);
                }
                for j in run.pick(if n > 40 { vec![63] } else { vec![0, 1, 17, 31, 32, 33, 62, 63] }, (0..N_CELL).collect::<Vec<_>>()) {
                    add(format!("y{j}"), &|v| v[b].cell[j] += Fr::ONE);
                    // and by something in every other part of the element
                    for p in run.pick(if n > 6 { vec![] } else { vec![64u64, 128, 250] }, vec![8, 32, 63, 64, 127, 128, 191, 192, 250]) {
                        let d = Fr::from(2u64).pow([p]);
                        add(format!("y{j}+2^{p}"), &|v| v[b].cell[j] += d);
                    }
                }
                add("P".into(), &|v| v[b].proof += Fr::ONE);
                add("-P".into(), &|v| v[b].proof = -v[b].proof);
                add("C".into(), &|v| v[b].commit += Fr::ONE);
                add("-C".into(), &|v| v[b].commit = -v[b].commit);
                for o in 0..if n > 40 { 2 } else { n } {
                    if base[o].commit != base[b].commit {
                        add(format!("C=C{o}"), &|v| v[b].commit = base[o].commit);
                    }
                }
                let nb = (b + 1) % n;
                if base[b].idx != base[nb].idx {
                    add("idx<->".into(), &|v| {
                        let t = v[b].idx;
                        v[b].idx = v[nb].idx;
                        v[nb].idx = t;
                    });
                }
                add("P<->".into(), &|v| {
                    let t = v[b].proof;
                    v[b].proof = v[nb].proof;
                    v[nb].proof = t;
                });
                add("Y<->".into(), &|v| {
                    let t = v[b].cell.clone();
                    v[b].cell = v[nb].cell.clone();
                    v[nb].cell = t;
                });
            }
            for (case, v) in variants {
                run.transition();
                if !run.wants(&case) {
                    continue;
                }
                let req = pts.req(&v);
                if req.hash() == pts.req(&base).hash() || !run.state(&("bind", req.hash())) {
                    continue;
                }
                let c1 = chal(&v);
                compared += 1;
                run.validated("a changed component changed the challenge");
                if let Some(r) = c1.iter().find(|r| c0.contains(r)) {
                    run.fail(&case, format!("the challenge {} does not depend on this component", hex(&r.to_bytes_be())));
                }
                if run.broken() {
                    break;
                }
            }
        }
    }
    // which of many commitments an item belongs to: every bit of that number counts
    for bits in run.pick(9usize..10, 8..17) {
        let top = 1usize << (bits - 1);
        let honest = Item::honest(&rows[0], 5);
        let mut base: Vec<Item> = (0..=top).map(|i| Item { commit: Fr::from(1000 + i as u64), idx: i % N_CELLS, ..honest.clone() }).collect();
        base.push(Item { commit: base[0].commit, idx: 9, ..honest.clone() });
        let last = top + 1;
        let chal = |v: &[Item]| challenges(&observe(&w.ctx, &pts.req(v)).1, last + 1);
        run.transition();
        let c0 = chal(&base);
        if c0.is_empty() {
            continue;
        }
        for bit in 0..bits {
            let case = format!("bind:row:{top}:{bit}");
            run.transition();
            if !run.wants(&case) {
                continue;
            }
            let mut v = base.clone();
            v[last].commit = v[1 << bit].commit;
            if !run.state(&("bind", pts.req(&v).hash())) {
                continue;
            }
            compared += 1;
            run.validated("a changed component changed the challenge");
            if let Some(r) = chal(&v).iter().find(|r| c0.contains(r)) {
                run.fail(&case, format!("the challenge {} does not depend on whether the last item belongs to commitment 0 or {}", hex(&r.to_bytes_be()), 1 << bit));
            }
        }
    }
    run.note("challenges_compared", compared);
    run.sample("ratio:4:0:1,3:-2/1:1 (two wrong cells whose errors are in the ratio -2)");
    run.sample("adaptive:2:0:0:1:El(63):0 (last element of item 1 chosen after the coefficients were seen)");
    run.sample("bind:3:2:1:C=C0 (only the grouping of item 1 changes)");
    run.finish(
        "states are batches with false items made by an adversary that knows tau: error pairs in every simple ratio (constant, equal, small or index-derived coefficients), and for every observed batch and every coefficient vector seen at the blst boundary, every single component of every other item changed so that the combined error is zero under those coefficients, items appended likewise; all must be rejected as invalid proofs; and for every component, including indices and grouping, the challenge seen must differ when only that component differs",
        &["SHA-256 is collision resistant", "the coefficients are visible as scalars of blst multiplications (where they are not, only the ratio part decides)"],
    )
}
