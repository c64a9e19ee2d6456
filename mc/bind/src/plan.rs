//! The requests explored on every binding, with the result the Rust interface gives.
use mc_common::{guard, hash_of, Run};
use rust_eth_kzg::DASContext;
use sha2::{Digest, Sha256};
use std::collections::HashMap;

/// Pool entry of a list element, or none for a null element.
pub type P = Option<usize>;
pub type List = Option<Vec<P>>;
pub type Idx = Option<Vec<String>>;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Op {
    Commit(P),
    Compute(P),
    /// cells only (Node)
    Cells(P),
    Verify { c: List, i: Idx, x: List, p: List },
    Recover { i: Idx, x: List },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exp {
    Ok(String),
    Bool(bool),
    Err,
}
impl Exp {
    pub fn text(&self) -> String {
        match self {
            Exp::Ok(h) => format!("ok:{h}"),
            Exp::Bool(b) => b.to_string(),
            Exp::Err => "err".into(),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Exp::Ok(_) => "value",
            Exp::Bool(true) => "true",
            Exp::Bool(false) => "false",
            Exp::Err => "error",
        }
    }
}

pub struct Case {
    pub id: String,
    /// empty: the default context; otherwise a context configuration such as p0t2
    pub ctx: String,
    /// s: one call after the other; a: asynchronous calls, all in flight; anything else is the
    /// driver's own
    pub mode: String,
    pub ops: Vec<Op>,
}

#[derive(Default)]
pub struct Pool {
    pub v: Vec<Vec<u8>>,
    seen: HashMap<Vec<u8>, usize>,
}
impl Pool {
    pub fn add(&mut self, b: &[u8]) -> usize {
        if let Some(i) = self.seen.get(b) {
            return *i;
        }
        self.v.push(b.to_vec());
        self.seen.insert(b.to_vec(), self.v.len() - 1);
        self.v.len() - 1
    }
    pub fn file(&self) -> Vec<u8> {
        let mut o = (self.v.len() as u32).to_le_bytes().to_vec();
        for b in &self.v {
            o.extend((b.len() as u32).to_le_bytes());
            o.extend(b);
        }
        o
    }
    pub fn read(f: &[u8]) -> Pool {
        let u = |p: usize| u32::from_le_bytes(f[p..p + 4].try_into().unwrap()) as usize;
        let mut p = 4;
        let mut o = Pool::default();
        for _ in 0..u(0) {
            let n = u(p);
            o.v.push(f[p + 4..p + 4 + n].to_vec());
            p += 4 + n;
        }
        o
    }
}

pub fn digest<'a>(lists: &[Vec<&'a [u8]>]) -> String {
    let mut h = Sha256::new();
    for l in lists {
        h.update((l.len() as u32).to_le_bytes());
        for e in l {
            h.update((e.len() as u32).to_le_bytes());
            h.update(e);
        }
    }
    mc_common::model::hex(&h.finalize())
}

/// What the Rust interface gives.
pub struct Oracle<'a> {
    pub ctx: &'a DASContext,
    pub pool: &'a Pool,
    /// Java passes indices as the bits of a signed 64-bit integer.
    pub signed: bool,
}
impl Oracle<'_> {
    fn arr<const N: usize>(&self, p: P) -> Option<&[u8; N]> {
        self.pool.v[p?].as_slice().try_into().ok()
    }
    fn list<const N: usize>(&self, l: &List) -> Option<Vec<&[u8; N]>> {
        l.as_ref()?.iter().map(|p| self.arr::<N>(*p)).collect()
    }
    fn idx(&self, i: &Idx) -> Option<Vec<u64>> {
        i.as_ref()?
            .iter()
            .map(|s| if self.signed { s.parse::<i64>().ok().map(|x| x as u64) } else { s.parse::<u64>().ok() })
            .collect()
    }
    pub fn expect(&self, op: &Op) -> Exp {
        guard(|| self.expect_inner(op)).ok().flatten().unwrap_or(Exp::Err)
    }
    fn expect_inner(&self, op: &Op) -> Option<Exp> {
        match op {
            Op::Commit(b) => {
                let c = self.ctx.blob_to_kzg_commitment(self.arr(*b)?).ok()?;
                Some(Exp::Ok(digest(&[vec![&c[..]]])))
            }
            Op::Compute(b) | Op::Cells(b) => {
                let (x, p) = self.ctx.compute_cells_and_kzg_proofs(self.arr(*b)?).ok()?;
                let mut l: Vec<Vec<&[u8]>> = vec![x.iter().map(|c| &c[..]).collect()];
                if matches!(op, Op::Compute(_)) {
                    l.push(p.iter().map(|c| &c[..]).collect());
                }
                Some(Exp::Ok(digest(&l)))
            }
            Op::Verify { c, i, x, p } => {
                match self.ctx.verify_cell_kzg_proof_batch(self.list(c)?, self.idx(i)?, self.list(x)?, self.list(p)?) {
                    Ok(()) => Some(Exp::Bool(true)),
                    Err(e) if e.invalid_proof() => Some(Exp::Bool(false)),
                    Err(_) => None,
                }
            }
            Op::Recover { i, x } => {
                let (x, p) = self.ctx.recover_cells_and_kzg_proofs(self.idx(i)?, self.list(x)?).ok()?;
                let l = [x.iter().map(|c| &c[..]).collect(), p.iter().map(|c| &c[..]).collect()];
                Some(Exp::Ok(digest(&l)))
            }
        }
    }
}

fn lst(l: &List) -> String {
    match l {
        None => "null".into(),
        Some(v) if v.is_empty() => "-".into(),
        Some(v) => v.iter().map(|p| p.map_or("n".into(), |x| x.to_string())).collect::<Vec<_>>().join(","),
    }
}
fn ids(l: &Idx) -> String {
    match l {
        None => "null".into(),
        Some(v) if v.is_empty() => "-".into(),
        Some(v) => v.join(","),
    }
}
pub fn op_text(op: &Op) -> String {
    let p = |p: &P| p.map_or("n".into(), |x| x.to_string());
    match op {
        Op::Commit(b) => format!("commit {}", p(b)),
        Op::Compute(b) => format!("compute {}", p(b)),
        Op::Cells(b) => format!("cells {}", p(b)),
        Op::Verify { c, i, x, p } => format!("verify {} {} {} {}", lst(c), ids(i), lst(x), lst(p)),
        Op::Recover { i, x } => format!("recover {} {}", ids(i), lst(x)),
    }
}
pub fn case_text(c: &Case) -> String {
    let ctx = if c.ctx.is_empty() { "p0t1" } else { &c.ctx };
    let ops: Vec<String> = c.ops.iter().map(op_text).collect();
    format!("{} {} {} | {}", c.id, ctx, c.mode, ops.join(" | "))
}
pub fn parse_op(s: &str) -> Op {
    let f: Vec<&str> = s.split_whitespace().collect();
    let p = |s: &str| s.parse::<usize>().ok();
    let l = |s: &str| match s {
        "null" => None,
        "-" => Some(vec![]),
        s => Some(s.split(',').map(p).collect()),
    };
    let i = |s: &str| match s {
        "null" => None,
        "-" => Some(vec![]),
        s => Some(s.split(',').map(|x| x.to_string()).collect()),
    };
    match f[0] {
        "commit" => Op::Commit(p(f[1])),
        "compute" => Op::Compute(p(f[1])),
        "cells" => Op::Cells(p(f[1])),
        "verify" => Op::Verify { c: l(f[1]), i: i(f[2]), x: l(f[3]), p: l(f[4]) },
        "recover" => Op::Recover { i: i(f[1]), x: l(f[2]) },
        o => panic!("op {o}"),
    }
}

/// Which argument shapes a language can express.
#[derive(Clone, Copy, PartialEq)]
pub enum Lang {
    C,
    Java,
    Node,
    Go,
}

/// Two blobs with everything the Rust interface says about them, as pool entries.
struct RowP {
    blob: usize,
    commit: usize,
    cells: Vec<usize>,
    proofs: Vec<usize>,
}

pub struct Builder<'a> {
    pub lang: Lang,
    pub thorough: bool,
    pub pool: Pool,
    pub cases: Vec<Case>,
    pub ctx: &'a DASContext,
}

impl Builder<'_> {
    fn push(&mut self, id: impl Into<String>, ops: Vec<Op>) {
        self.push_mode(id, "", "s", ops)
    }
    pub fn push_mode(&mut self, id: impl Into<String>, ctx: &str, mode: &str, ops: Vec<Op>) {
        let id: String = id.into().replace(' ', "_");
        self.cases.push(Case { id, ctx: ctx.into(), mode: mode.into(), ops });
    }
    fn row(&mut self, seed: u64) -> RowP {
        let m = 4096usize;
        let blob: Vec<u8> =
            (0..m).flat_map(|i| mc_common::model::generic(seed * 1_000_003 + i as u64).to_bytes_be()).collect();
        let b: &[u8; 131072] = blob.as_slice().try_into().unwrap();
        let c = self.ctx.blob_to_kzg_commitment(b).expect("commitment");
        let (x, p) = self.ctx.compute_cells_and_kzg_proofs(b).expect("cells");
        RowP {
            blob: self.pool.add(&blob),
            commit: self.pool.add(&c),
            cells: x.iter().map(|c| self.pool.add(&c[..])).collect(),
            proofs: p.iter().map(|c| self.pool.add(&c[..])).collect(),
        }
    }

    pub fn build(&mut self) {
        let sized = self.lang != Lang::C;
        let nulls = self.lang == Lang::Java;
        // ---- blobs
        let a = self.row(1);
        let b = self.row(2);
        let mut blobs: Vec<(String, usize)> = vec![("gen1".into(), a.blob), ("gen2".into(), b.blob)];
        let base = self.pool.v[a.blob].clone();
        let zero = vec![0u8; 131072];
        blobs.push(("zero".into(), self.pool.add(&zero)));
        for (name, at) in [("first", 0usize), ("last", 4095), ("mid", 2048)] {
            let mut z = zero.clone();
            z[at * 32 + 31] = 1;
            blobs.push((format!("unit-{name}"), self.pool.add(&z)));
        }
        let mut ramp = vec![];
        for i in 0..4096u64 {
            let mut e = [0u8; 32];
            e[24..].copy_from_slice(&i.to_be_bytes());
            ramp.extend(e);
        }
        blobs.push(("ramp".into(), self.pool.add(&ramp)));
        let enc = mc_common::model::scalar_encodings();
        let r1 = enc.iter().find(|e| e.0 == "r-1").unwrap().1;
        blobs.push(("r-1".into(), self.pool.add(&r1.repeat(4096))));
        let mut bad: Vec<(String, usize)> = vec![];
        for pos in [0usize, 1, 2047, 4094, 4095] {
            for (n, e, ok) in enc.iter() {
                let few = ["r+0", "r+1", "max", "2r", "r,byte0+1", "bit0", "r-1", "r-256"].contains(&n.as_str());
                if !few && !(self.thorough && pos != 1 && pos != 4094) {
                    continue;
                }
                let mut z = base.clone();
                z[pos * 32..][..32].copy_from_slice(e);
                let p = self.pool.add(&z);
                if *ok {
                    if pos == 0 || self.lang == Lang::Go {
                        blobs.push((format!("at{pos}:{n}"), p));
                    }
                } else {
                    bad.push((format!("at{pos}:{n}"), p));
                }
            }
        }
        let mut sizes: Vec<(String, usize)> = vec![];
        if sized {
            for s in [0usize, 1, 31, 32, 48, 2048, 4096, 65536, 131040, 131071, 131073, 131104, 262144] {
                let v: Vec<u8> = base.iter().cycle().take(s).copied().collect();
                sizes.push((format!("size{s}"), self.pool.add(&v)));
            }
        }
        for (n, p) in blobs.iter().chain(&bad).chain(&sizes) {
            self.push(format!("commit/{n}"), vec![Op::Commit(Some(*p))]);
        }
        if self.lang == Lang::Go {
            self.words(&[
                ("ok1", Op::Commit(Some(a.blob))),
                ("ok2", Op::Commit(Some(b.blob))),
                ("bad", Op::Commit(Some(bad[0].1))),
                ("size", Op::Commit(Some(sizes[0].1))),
            ]);
            // collections while a call runs; the last use of a context; many calls; calls at once
            let sync: Vec<(String, Vec<Op>)> = self
                .cases
                .iter()
                .filter(|c| self.thorough || !c.id.starts_with("commit/at"))
                .map(|c| (c.id.clone(), c.ops.clone()))
                .collect();
            for (id, ops) in sync {
                self.push_mode(format!("gc/{id}"), "", "gc", ops.clone());
                if ops.len() > 1 {
                    self.push_mode(format!("par/{id}"), "", "par", ops);
                }
            }
            for (n, p) in [("ok", a.blob), ("bad", bad[0].1), ("size", sizes[0].1)] {
                self.push_mode(format!("last/{n}"), "last", "last", vec![Op::Commit(Some(p))]);
                self.push_mode(format!("lastgc/{n}"), &format!("lastgc-{n}"), "lastgc", vec![Op::Commit(Some(p))]);
            }
            for (n, p) in [("ok", a.blob), ("bad", bad[0].1)] {
                self.push_mode(format!("lastalone/{n}"), &format!("lastalone-{n}"), "lastalone", vec![Op::Commit(Some(p))]);
            }
            self.push_mode("drop", "drop", "drop", vec![Op::Commit(Some(a.blob)), Op::Commit(Some(bad[0].1)), Op::Commit(Some(sizes[0].1))]);
            self.push_mode("nil", "", "nil", vec![Op::Commit(None)]);
            return;
        }
        let ncompute = if self.thorough { blobs.len() } else { 3 };
        for (n, p) in blobs.iter().take(ncompute).chain(&bad).chain(&sizes) {
            self.push(format!("compute/{n}"), vec![Op::Compute(Some(*p))]);
            if self.lang == Lang::Node {
                self.push(format!("cells/{n}"), vec![Op::Cells(Some(*p))]);
            }
        }
        if nulls {
            self.push("commit/null", vec![Op::Commit(None)]);
            self.push("compute/null", vec![Op::Compute(None)]);
        }

        // ---- verification
        // items: (commitment, index, cell, proof)
        type It = (usize, String, usize, usize);
        let item = |r: &RowP, k: usize| -> It { (r.commit, k.to_string(), r.cells[k], r.proofs[k]) };
        let ver = |v: &[It]| Op::Verify {
            c: Some(v.iter().map(|t| Some(t.0)).collect()),
            i: Some(v.iter().map(|t| t.1.clone()).collect()),
            x: Some(v.iter().map(|t| Some(t.2)).collect()),
            p: Some(v.iter().map(|t| Some(t.3)).collect()),
        };
        let t = [item(&a, 0), item(&b, 127), item(&a, 5)];
        let f: It = (a.commit, "1".into(), a.cells[0], a.proofs[0]);
        let n = if self.thorough { 4 } else { 3 };
        for w in 0..n * n * n * n {
            let l = [w % n, w / n % n, w / n / n % n, w / n / n / n];
            self.push(
                format!("verify/lengths/{}{}{}{}", l[0], l[1], l[2], l[3]),
                vec![Op::Verify {
                    c: Some(t[..l[0]].iter().map(|t| Some(t.0)).collect()),
                    i: Some(t[..l[1]].iter().map(|t| t.1.clone()).collect()),
                    x: Some(t[..l[2]].iter().map(|t| Some(t.2)).collect()),
                    p: Some(t[..l[3]].iter().map(|t| Some(t.3)).collect()),
                }],
            );
        }
        let alpha: Vec<(char, It)> =
            vec![('A', t[0].clone()), ('B', t[1].clone()), ('F', f.clone()), ('C', item(&b, 0))];
        let k = if self.thorough { 4 } else { 3 };
        for len in 0..=if self.thorough { 4 } else { 3 } {
            for w in 0..usize::pow(k, len) {
                let mut w = w;
                let mut s = String::new();
                let mut v = vec![];
                for _ in 0..len {
                    s.push(alpha[w % k].0);
                    v.push(alpha[w % k].1.clone());
                    w /= k;
                }
                self.push(format!("verify/word/{s}-"), vec![ver(&v)]);
            }
        }
        // big batches: all cells of both blobs, with one wrong item at each named place
        let all: Vec<It> = (0..128).flat_map(|k| [item(&a, k), item(&b, k)]).collect();
        self.push("verify/big/true", vec![ver(&all)]);
        for at in [0usize, 1, 127, 128, 255] {
            for comp in 0..4 {
                let mut v = all.clone();
                let o = all[(at + 2) % 256].clone();
                match comp {
                    0 => v[at].0 = all[(at + 1) % 256].0,
                    1 => v[at].1 = o.1,
                    2 => v[at].2 = o.2,
                    _ => v[at].3 = o.3,
                }
                self.push(format!("verify/big/wrong{comp}@{at}"), vec![ver(&v)]);
            }
        }
        // indices
        let mut ixs: Vec<String> = ["126", "127", "128", "129", "255", "256", "4096", "9223372036854775807"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        match self.lang {
            Lang::Java => ixs.extend(
                ["-1", "-128", "-9223372036854775808", "-9223372036854775807", "4294967296", "4294967301"]
                    .map(String::from),
            ),
            _ => ixs.extend(
                ["9223372036854775808", "18446744073709551615", "18446744073709551614", "4294967296", "4294967301"]
                    .map(String::from),
            ),
        }
        if self.lang == Lang::Node {
            // numbers whose low 64 or 128 bits would be the right index 5
            ixs.extend(
                [
                    "18446744073709551616",                      // 2^64
                    "18446744073709551621",                      // 2^64+5
                    "36893488147419103237",                      // 2^65+5
                    "340282366920938463463374607431768211456",   // 2^128
                    "340282366920938463463374607431768211461",   // 2^128+5
                    "680564733841876926926749214863536422917",   // 2^129+5
                    "115792089237316195423570985008687907853269984665640564039457584007913129639941", // 2^256+5
                    "170141183460469231731687303715884105733",   // 2^127+5
                    "-1",
                    "-5",
                    "-18446744073709551611", // -(2^64-5)
                    "-18446744073709551616", // -2^64
                    "-340282366920938463463374607431768211451", // -(2^128-5)
                ]
                .map(String::from),
            );
        }
        for s in &ixs {
            for (base, at) in [(vec![t[2].clone()], 0), (vec![t[0].clone(), t[2].clone()], 1), (vec![t[2].clone(), t[1].clone()], 0)] {
                let mut v: Vec<It> = base;
                v[at].1 = s.clone();
                self.push(format!("verify/index/{}of{}/{s}", at, v.len()), vec![ver(&v)]);
            }
        }
        // encodings of points and scalars
        let pts = mc_common::model::point_encodings();
        for (n, e, ok) in &pts {
            if !self.thorough && n.contains("^bit") && n.len() % 3 != 0 && !ok {
                continue;
            }
            let p = self.pool.add(e);
            for (pl, at) in [("c", 0usize), ("p", 1)] {
                let mut v = vec![t[0].clone(), t[1].clone()];
                if pl == "c" {
                    v[at].0 = p
                } else {
                    v[at].3 = p
                }
                self.push(format!("verify/point/{pl}/{n}"), vec![ver(&v)]);
            }
        }
        for (n, e, ok) in &enc {
            if !self.thorough && (n.starts_with("bit") || n.contains(",byte")) && *ok {
                continue;
            }
            for at in [0usize, 1, 31, 62, 63] {
                let mut c = self.pool.v[a.cells[0]].clone();
                c[at * 32..][..32].copy_from_slice(e);
                let p = self.pool.add(&c);
                let mut v = vec![t[1].clone(), t[0].clone()];
                v[1].2 = p;
                self.push(format!("verify/scalar@{at}/{n}"), vec![ver(&v)]);
            }
        }
        // sizes of the byte arrays
        let szs = |n: usize| vec![0, 1, n - 1, n + 1, 2 * n, n - 32, n + 32];
        let resize = |b: &[u8], s: usize| -> Vec<u8> { b.iter().cycle().take(s).copied().collect() };
        if sized {
            for which in 0..3 {
                for at in 0..3 {
                    for s in szs(if which == 1 { 2048 } else { 48 }) {
                        let mut v = t.to_vec();
                        let slot = match which {
                            0 => &mut v[at].0,
                            1 => &mut v[at].2,
                            _ => &mut v[at].3,
                        };
                        let nb = resize(&self.pool.v[*slot], s);
                        *slot = self.pool.add(&nb);
                        self.push(format!("verify/size/{which}@{at}={s}"), vec![ver(&v)]);
                    }
                }
            }
            // one too short and one too long: the total is right
            for which in 0..3 {
                for sh in [-1i64, 1] {
                    let mut v = t.to_vec();
                    for (at, d) in [(0usize, sh), (1, -sh)] {
                        let slot = match which {
                            0 => &mut v[at].0,
                            1 => &mut v[at].2,
                            _ => &mut v[at].3,
                        };
                        let n = self.pool.v[*slot].len() as i64 + d;
                        let nb = resize(&self.pool.v[*slot], n as usize);
                        *slot = self.pool.add(&nb);
                    }
                    self.push(format!("verify/size/balanced{which}{sh:+}"), vec![ver(&v)]);
                }
            }
            // commitments and proofs the wrong way round: cells where proofs belong
            let mut v = t.to_vec();
            v[0] = (v[0].0, v[0].1.clone(), v[0].3, v[0].2);
            let Op::Verify { c, i, x, p } = ver(&v) else { unreachable!() };
            self.push("verify/size/swapped", vec![Op::Verify { c, i, x, p }]);
        }
        if nulls {
            let Op::Verify { c, i, x, p } = ver(&t) else { unreachable!() };
            for which in 0..4 {
                let (mut c, mut i, mut x, mut p) = (c.clone(), i.clone(), x.clone(), p.clone());
                match which {
                    0 => c = None,
                    1 => i = None,
                    2 => x = None,
                    _ => p = None,
                }
                self.push(format!("verify/null/{which}"), vec![Op::Verify { c, i, x, p }]);
            }
            for which in 0..3 {
                for at in 0..3 {
                    let (mut c, mut x, mut p) = (c.clone(), x.clone(), p.clone());
                    match which {
                        0 => c.as_mut().unwrap()[at] = None,
                        1 => x.as_mut().unwrap()[at] = None,
                        _ => p.as_mut().unwrap()[at] = None,
                    }
                    self.push(format!("verify/nullelement/{which}@{at}"), vec![Op::Verify { c, i: i.clone(), x, p }]);
                }
            }
        }

        // ---- recovery
        let rec = |ks: &[String], xs: &[usize]| Op::Recover {
            i: Some(ks.to_vec()),
            x: Some(xs.iter().map(|p| Some(*p)).collect()),
        };
        let num = |ks: &[usize]| -> Vec<String> { ks.iter().map(|k| k.to_string()).collect() };
        let cellsof = |r: &RowP, ks: &[usize]| -> Vec<usize> { ks.iter().map(|k| r.cells[*k]).collect() };
        let half: Vec<usize> = (0..64).collect();
        let full: Vec<usize> = (0..128).collect();
        let mut sets: Vec<(&str, Vec<usize>)> = vec![
            ("first64", half.clone()),
            ("last64", (64..128).collect()),
            ("odd", (0..64).map(|k| 2 * k + 1).collect()),
            ("none", vec![]),
            ("one", vec![0]),
            ("63", (0..63).collect()),
            ("65", (0..65).collect()),
            ("rev64", (0..64).rev().collect()),
            ("127", (1..128).collect()),
            ("all", full.clone()),
        ];
        if self.thorough {
            sets.push(("rev128", (0..128).rev().collect()));
            sets.push(("even", (0..64).map(|k| 2 * k).collect()));
            sets.push(("mix", (0..128).filter(|k| k % 3 != 1).collect()));
            sets.push(("96", (16..112).collect()));
            sets.push(("two", vec![127, 0]));
        }
        for (n, ks) in &sets {
            self.push(format!("recover/set/{n}"), vec![rec(&num(ks), &cellsof(&a, ks))]);
        }
        // defects
        let good = cellsof(&a, &half);
        for at in [0usize, 1, 63] {
            for s in &ixs {
                let mut ks = num(&half);
                ks[at] = s.clone();
                self.push(format!("recover/index@{at}/{s}"), vec![rec(&ks, &good)]);
            }
            if sized {
                for s in szs(2048) {
                    let mut xs = good.clone();
                    let nb = resize(&self.pool.v[xs[at]], s);
                    xs[at] = self.pool.add(&nb);
                    self.push(format!("recover/size@{at}={s}"), vec![rec(&num(&half), &xs)]);
                }
            }
            let mut ks = half.clone();
            ks[at] = ks[(at + 1) % 64];
            self.push(format!("recover/dup@{at}"), vec![rec(&num(&ks), &cellsof(&a, &ks))]);
            for e in ["r+0", "max", "r,byte0+1", "bit0"] {
                let e32 = enc.iter().find(|x| x.0 == e).unwrap().1;
                for pos in [0usize, 63] {
                    let mut c = self.pool.v[good[at]].clone();
                    c[pos * 32..][..32].copy_from_slice(&e32);
                    let mut xs = good.clone();
                    xs[at] = self.pool.add(&c);
                    self.push(format!("recover/scalar@{at}.{pos}/{e}"), vec![rec(&num(&half), &xs)]);
                }
            }
            // a cell of another blob: with 64 cells that is another polynomial, with more an error
            let mut xs = good.clone();
            xs[at] = b.cells[at];
            if at == 0 || self.thorough {
                self.push(format!("recover/foreign64@{at}"), vec![rec(&num(&half), &xs)]);
            }
            let ks: Vec<usize> = (0..66).collect();
            let mut xs = cellsof(&a, &ks);
            xs[at] = b.cells[at];
            self.push(format!("recover/foreign66@{at}"), vec![rec(&num(&ks), &xs)]);
        }
        for (li, lx) in [(63usize, 64usize), (64, 63), (64, 0), (0, 64), (64, 65), (65, 64), (128, 64), (64, 128), (128, 127)] {
            self.push(format!("recover/lengths/{li}x{lx}"), vec![rec(&num(&full[..li]), &cellsof(&a, &full[..lx]))]);
        }
        let mut over: Vec<usize> = full.clone();
        over.push(0);
        self.push("recover/129", vec![rec(&num(&over), &cellsof(&a, &over))]);
        let mut ks = num(&full);
        ks.push("128".into());
        self.push("recover/129fresh", vec![rec(&ks, &cellsof(&a, &over))]);
        if nulls {
            self.push("recover/null/i", vec![Op::Recover { i: None, x: Some(good.iter().map(|p| Some(*p)).collect()) }]);
            self.push("recover/null/x", vec![Op::Recover { i: Some(num(&half)), x: None }]);
            for at in [0usize, 63] {
                let mut x: Vec<P> = good.iter().map(|p| Some(*p)).collect();
                x[at] = None;
                self.push(format!("recover/nullelement@{at}"), vec![Op::Recover { i: Some(num(&half)), x: Some(x) }]);
            }
        }

        // ---- words of calls on one context
        let letters: Vec<(&str, Op)> = vec![
            ("c", Op::Commit(Some(a.blob))),
            ("e", Op::Commit(Some(bad[0].1))),
            ("t", ver(&t)),
            ("f", ver(&[t[0].clone(), f.clone()])),
            ("x", Op::Verify { c: Some(vec![]), i: Some(vec!["0".into()]), x: Some(vec![]), p: Some(vec![]) }),
        ];
        self.words(&letters);
        let slow = [
            ("P", Op::Compute(Some(b.blob))),
            ("R", rec(&num(&half), &good)),
            ("r", rec(&num(&half[..63]), &good[..63])),
            ("c", Op::Commit(Some(a.blob))),
        ];
        for (n1, o1) in &slow {
            for (n2, o2) in &slow {
                if (*n1 == "P" || *n1 == "R") && (*n2 == "P" || *n2 == "R") && !self.thorough {
                    continue;
                }
                self.push(format!("words/slow/{n1}{n2}"), vec![o1.clone(), o2.clone(), o1.clone()]);
            }
        }
        // ---- the same requests on other configurations
        let mut few = vec![
            ("commit", Op::Commit(Some(b.blob))),
            ("bad", Op::Commit(Some(bad[0].1))),
            ("compute", Op::Compute(Some(b.blob))),
            ("true", ver(&t)),
            ("false", ver(&[t[0].clone(), f.clone()])),
            ("short", Op::Verify { c: Some(vec![]), i: Some(vec!["0".into()]), x: Some(vec![]), p: Some(vec![]) }),
            ("recover", rec(&num(&half), &good)),
            ("few", rec(&num(&half[..63]), &good[..63])),
        ];
        if self.lang == Lang::Node {
            few.push(("cells", Op::Cells(Some(b.blob))));
        }
        let mut cfgs = vec!["p0t0", "p0t2", "p1t1"];
        if self.thorough {
            cfgs.extend(["p1t0", "p0t8", "p1t3", "p0t200"]);
        }
        for c in cfgs {
            for (n, o) in &few {
                self.push_mode(format!("config/{c}/{n}"), c, "s", vec![o.clone()]);
            }
        }
        if self.lang == Lang::Node {
            self.in_flight(&few);
            // the context is collectable while the calls run
            for (n, o) in &few {
                self.push_mode(format!("dropped/{n}"), "", "d", vec![o.clone(), few[3].1.clone(), o.clone()]);
            }
            // every request once more, asynchronously
            let sync: Vec<(String, Vec<Op>)> = self
                .cases
                .iter()
                .filter(|c| c.mode == "s" && c.ops.len() == 1 && c.ctx.is_empty())
                .map(|c| (c.id.clone(), c.ops.clone()))
                .collect();
            for (id, ops) in sync {
                self.push_mode(format!("async/{id}"), "", "a", ops);
            }
        }
    }

    /// All words of up to three calls.
    fn words(&mut self, letters: &[(&str, Op)]) {
        let k = letters.len();
        for len in 2..=if self.thorough { 4 } else { 3 } {
            for w in 0..k.pow(len) {
                let v: Vec<usize> = (0..len).map(|j| w / k.pow(j) % k).collect();
                let s: String = v.iter().map(|x| letters[*x].0).collect::<Vec<_>>().join("");
                self.push(format!("words/{s}"), v.iter().map(|x| letters[*x].1.clone()).collect());
            }
        }
    }
    /// All words of asynchronous calls that are in flight at the same time. The letters take
    /// very different times, so the orders of completion differ from the orders of the calls.
    fn in_flight(&mut self, few: &[(&str, Op)]) {
        let pick = |n: &str| few.iter().find(|x| x.0 == n).unwrap().1.clone();
        let letters = [
            ('v', pick("true")),
            ('w', pick("false")),
            ('e', pick("short")),
            ('c', pick("commit")),
            ('b', pick("bad")),
            ('P', pick("compute")),
            ('R', pick("recover")),
        ];
        let k = letters.len();
        for cfg in ["", "p0t2"] {
            for len in 2..=3u32 {
                for w in 0..k.pow(len) {
                    let v: Vec<usize> = (0..len).map(|j| w / k.pow(j) % k).collect();
                    let heavy = v.iter().filter(|x| **x >= 5).count();
                    if heavy > 1 && !(self.thorough || len == 2) {
                        continue;
                    }
                    if len == 3 && !cfg.is_empty() && !self.thorough {
                        continue;
                    }
                    let s: String = v.iter().map(|x| letters[*x].0).collect();
                    self.push_mode(
                        format!("flight{cfg}/{s}"),
                        cfg,
                        "a",
                        v.iter().map(|x| letters[*x].1.clone()).collect(),
                    );
                }
            }
        }
    }
}

/// Rough cost of a case in milliseconds, for an even split.
pub fn cost(c: &Case) -> u64 {
    let reps = 1;
    c.ops
        .iter()
        .map(|o| match o {
            Op::Commit(_) => 100,
            Op::Compute(_) | Op::Cells(_) => 700,
            Op::Verify { x, .. } => 7 + x.as_ref().map_or(0, |x| x.len() as u64 / 2),
            Op::Recover { i, .. } => {
                if i.as_ref().map_or(0, |i| i.len()) >= 64 {
                    400
                } else {
                    20
                }
            }
        })
        .sum::<u64>()
        * reps
        + 1
}

/// Expected results of all distinct operations, in parallel.
pub fn expectations(run: &Run, ctx: &DASContext, pool: &Pool, cases: &[Case], signed: bool) -> HashMap<Op, Exp> {
    let mut ops: Vec<Op> = cases.iter().flat_map(|c| c.ops.iter().cloned()).collect();
    let mut seen = HashMap::new();
    ops.retain(|o| seen.insert(o.clone(), ()).is_none());
    let out = std::sync::Mutex::new(HashMap::new());
    mc_common::par_jobs(run, &ops, || (), |_, o| {
        let e = Oracle { ctx, pool, signed }.expect(o);
        out.lock().unwrap().insert(o.clone(), e);
    });
    let _ = hash_of(&0u8);
    out.into_inner().unwrap()
}
