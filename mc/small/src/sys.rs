//! Contexts of all shapes behind one interface, and the model's view of a shape.
pub use mc_common::model::*;
pub use mc_common::*;
use std::collections::HashMap;
use std::sync::Mutex;

/// Ok(Ok) is success, Ok(Err(true)) the invalid-proof verdict, Ok(Err(false)) another error,
/// Err a panic.
pub type Out<T> = Result<Result<T, bool>, String>;
pub type CellsProofs = (Vec<Vec<u8>>, Vec<[u8; 48]>);

pub const FLAVOUR: &str = if cfg!(feature = "mt") {
    "multithreaded"
} else if cfg!(feature = "st") {
    "singlethreaded"
} else {
    "plain"
};

pub trait Sys: Send + Sync {
    fn commit(&self, blob: &[u8]) -> Out<[u8; 48]>;
    fn compute(&self, blob: &[u8]) -> Out<CellsProofs>;
    fn recover(&self, idx: &[u64], cells: &[&[u8]]) -> Out<CellsProofs>;
    fn verify(&self, commits: &[[u8; 48]], idx: &[u64], cells: &[&[u8]], proofs: &[[u8; 48]]) -> Out<()>;
}

macro_rules! shapes {
    ($($name:literal $krate:ident $n:literal $l:literal;)*) => {
        $(mod $krate {
            use super::{guard, CellsProofs, Out, Sys};
            use ::$krate::{constants::*, DASContext, TrustedSetup, UsePrecomp};
            pub struct S(DASContext);
            pub fn make(json: &str, checked: bool, threads: usize, width: Option<usize>) -> Box<dyn Sys> {
                let setup = if checked { TrustedSetup::from_json(json) } else { TrustedSetup::from_json_unchecked(json) };
                let pre = match width {
                    None => UsePrecomp::No,
                    Some(width) => UsePrecomp::Yes { width },
                };
                #[cfg(feature = "mt")]
                {
                    use ::$krate::ThreadCount::*;
                    let t = match threads {
                        0 => SensibleDefault,
                        1 => Single,
                        n => Multi(n),
                    };
                    Box::new(S(DASContext::with_threads(&setup, t, pre)))
                }
                #[cfg(not(feature = "mt"))]
                {
                    let _ = threads;
                    Box::new(S(DASContext::new(&setup, pre)))
                }
            }
            fn boxes(x: ([::$krate::Cell; CELLS_PER_EXT_BLOB], [[u8; 48]; CELLS_PER_EXT_BLOB])) -> CellsProofs {
                (x.0.iter().map(|c| c.to_vec()).collect(), x.1.to_vec())
            }
            impl Sys for S {
                fn commit(&self, blob: &[u8]) -> Out<[u8; 48]> {
                    let b: &[u8; BYTES_PER_BLOB] = blob.try_into().unwrap();
                    guard(|| self.0.blob_to_kzg_commitment(b).map_err(|_| false))
                }
                fn compute(&self, blob: &[u8]) -> Out<CellsProofs> {
                    let b: &[u8; BYTES_PER_BLOB] = blob.try_into().unwrap();
                    guard(|| self.0.compute_cells_and_kzg_proofs(b).map(boxes).map_err(|_| false))
                }
                fn recover(&self, idx: &[u64], cells: &[&[u8]]) -> Out<CellsProofs> {
                    let c: Vec<&[u8; BYTES_PER_CELL]> = cells.iter().map(|c| (*c).try_into().unwrap()).collect();
                    guard(|| self.0.recover_cells_and_kzg_proofs(idx.to_vec(), c).map(boxes).map_err(|_| false))
                }
                fn verify(&self, commits: &[[u8; 48]], idx: &[u64], cells: &[&[u8]], proofs: &[[u8; 48]]) -> Out<()> {
                    let c: Vec<&[u8; BYTES_PER_CELL]> = cells.iter().map(|c| (*c).try_into().unwrap()).collect();
                    guard(|| {
                        self.0
                            .verify_cell_kzg_proof_batch(commits.iter().collect(), idx.to_vec(), c, proofs.iter().collect())
                            .map_err(|e| e.invalid_proof())
                    })
                }
            }
        })*
        pub const SHAPES: &[(&str, usize, usize)] = &[$(($name, $n, $l)),*];
        pub fn make(shape: &str, json: &str, checked: bool, threads: usize, width: Option<usize>) -> Box<dyn Sys> {
            match shape {
                $($name => $krate::make(json, checked, threads, width),)*
                x => panic!("no shape {x}"),
            }
        }
    };
}
shapes! {
    "2x1" rust_eth_kzg_2x1 2 1;
    "4x1" rust_eth_kzg_4x1 4 1;
    "4x2" rust_eth_kzg_4x2 4 2;
    "8x2" rust_eth_kzg_8x2 8 2;
    "8x4" rust_eth_kzg_8x4 8 4;
    "16x2" rust_eth_kzg_16x2 16 2;
    "16x4" rust_eth_kzg_16x4 16 4;
    "32x16" rust_eth_kzg_32x16 32 16;
}

pub fn setup_json(m: &Model) -> String {
    let (mono, lag, g2) = m.setup_points();
    let lag: Vec<G1Affine> = (0..lag.len()).map(|i| lag[brp(i, log2(lag.len()))]).collect();
    let g1s = |v: &[G1Affine]| v.iter().map(|p| hex(&p.to_compressed())).collect::<Vec<_>>();
    json_of(&g1s(&mono), &g1s(&lag), &g2.iter().map(|p| hex(&p.to_compressed())).collect::<Vec<_>>())
}
pub fn json_of(mono: &[String], lag: &[String], g2: &[String]) -> String {
    let j = |v: &[String]| v.iter().map(|p| format!("\"0x{p}\"")).collect::<Vec<_>>().join(",");
    format!("{{\"g1_monomial\":[{}],\"g1_lagrange\":[{}],\"g2_monomial\":[{}]}}", j(mono), j(lag), j(g2))
}

/// A shape with its model, its setup and what the model needs to decode requests.
pub struct Shape {
    pub name: &'static str,
    pub m: Model,
    pub json: String,
    pts: Mutex<HashMap<[u8; 32], [u8; 48]>>,
}
pub fn shape(name: &str) -> Shape {
    let (name, n, l) = *SHAPES.iter().find(|s| s.0 == name).unwrap();
    let m = Model::new(n, 2 * n, l, generic(TAU_SEED));
    let json = setup_json(&m);
    Shape { name, m, json, pts: Default::default() }
}

pub fn bytes_of(v: &[Fr]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bytes_be()).collect()
}
pub fn scalars_of(b: &[u8]) -> Option<Vec<Fr>> {
    b.chunks(32)
        .map(|c| {
            let a: [u8; 32] = c.try_into().unwrap();
            Option::from(Fr::from_bytes_be(&a))
        })
        .collect()
}
/// A blob and all the model says about it.
pub struct Poly {
    pub blob: Vec<Fr>,
    pub bytes: Vec<u8>,
    pub commit: Fr,
    pub cells: Vec<Vec<Fr>>,
    pub cell_bytes: Vec<Vec<u8>>,
    pub proofs: Vec<Fr>,
}

impl Shape {
    pub fn of(name: &'static str, m: Model, json: String) -> Shape {
        Shape { name, m, json, pts: Default::default() }
    }
    pub fn ctx(&self) -> Box<dyn Sys> {
        make(self.name, &self.json, false, 1, None)
    }
    pub fn ctx_with(&self, threads: usize, width: Option<usize>) -> Box<dyn Sys> {
        make(self.name, &self.json, false, threads, width)
    }
    pub fn cells(&self) -> usize {
        self.m.cells()
    }
    pub fn half(&self) -> usize {
        self.m.cells() / 2
    }
    /// k*G, remembered
    pub fn pt(&self, k: Fr) -> [u8; 48] {
        let key = k.to_bytes_le();
        if let Some(b) = self.pts.lock().unwrap().get(&key) {
            return *b;
        }
        let b = g1_bytes(k);
        let mut p = self.pts.lock().unwrap();
        if p.len() < 1 << 20 {
            p.insert(key, b);
        }
        b
    }
    pub fn poly(&self, blob: Vec<Fr>) -> Poly {
        let m = &self.m;
        let commit = m.commit(&blob);
        let cells: Vec<Vec<Fr>> = m.extend(&blob).chunks(m.l).map(|c| c.to_vec()).collect();
        let proofs = cells.iter().enumerate().map(|(k, c)| m.proof(commit, k, c)).collect();
        Poly {
            bytes: bytes_of(&blob),
            cell_bytes: cells.iter().map(|c| bytes_of(c)).collect(),
            blob,
            commit,
            cells,
            proofs,
        }
    }
    pub fn named(&self, name: &str) -> Poly {
        self.poly(named_blob(&self.m, name))
    }
    pub fn want(&self, p: &Poly) -> CellsProofs {
        (p.cell_bytes.clone(), p.proofs.iter().map(|k| self.pt(*k)).collect())
    }
    /// The value of the polynomial through (x_i, y_i) at every point of the shape.
    pub fn interpolate(&self, xs: &[Fr], ys: &[Fr]) -> Vec<Fr> {
        // Newton's divided differences
        let k = xs.len();
        let mut c = ys.to_vec();
        for j in 1..k {
            for i in (j..k).rev() {
                c[i] = (c[i] - c[i - 1]) * inv(xs[i] - xs[i - j]);
            }
        }
        self.m
            .points
            .iter()
            .map(|x| (0..k).rev().fold(Fr::ZERO, |a, i| a * (x - xs[i]) + c[i]))
            .collect()
    }
    /// What recovery gives for any request whatever: the blob it determines, or a refusal.
    pub fn recover_model(&self, idx: &[u64], cells: &[&[u8]]) -> Option<Vec<Fr>> {
        let n = self.cells();
        if idx.len() != cells.len() || idx.len() < self.half() || idx.iter().any(|i| *i >= n as u64) {
            return None;
        }
        for (i, a) in idx.iter().enumerate() {
            if idx[..i].contains(a) {
                return None;
            }
        }
        let vals: Vec<Vec<Fr>> = cells.iter().map(|c| scalars_of(c)).collect::<Option<_>>()?;
        let l = self.m.l;
        let (mut xs, mut ys) = (vec![], vec![]);
        for (i, v) in idx.iter().zip(&vals).take(self.half()) {
            xs.extend_from_slice(&self.m.points[*i as usize * l..(*i as usize + 1) * l]);
            ys.extend_from_slice(v);
        }
        let all = self.interpolate(&xs, &ys);
        for (i, v) in idx.iter().zip(&vals) {
            if all[*i as usize * l..(*i as usize + 1) * l] != v[..] {
                return None;
            }
        }
        Some(all[..self.m.n].to_vec())
    }
    /// Runs recovery and says what differs from the model.
    pub fn check_recover(&self, ctx: &dyn Sys, idx: &[u64], cells: &[&[u8]], want: Option<&CellsProofs>) -> (bool, Option<String>) {
        let got = ctx.recover(idx, cells);
        let owned;
        let want = match want {
            Some(w) => Some(w),
            None => match self.recover_model(idx, cells) {
                Some(b) => {
                    owned = self.want(&self.poly(b));
                    Some(&owned)
                }
                None => None,
            },
        };
        let ok = want.is_some();
        (ok, diff(&got, want))
    }
}

pub fn diff(got: &Out<CellsProofs>, want: Option<&CellsProofs>) -> Option<String> {
    match (got, want) {
        (Err(p), _) => Some(format!("panicked: {p}")),
        (Ok(Err(_)), None) => None,
        (Ok(Err(_)), Some(_)) => Some("an error instead of data".into()),
        (Ok(Ok(_)), None) => Some("data instead of an error".into()),
        (Ok(Ok(g)), Some(w)) => {
            if g.0.len() != w.0.len() || g.1.len() != w.1.len() {
                return Some("wrong numbers of cells or proofs".into());
            }
            for i in 0..g.0.len() {
                if g.0[i] != w.0[i] {
                    return Some(format!("cell {i} is {} instead of {}", hex(&g.0[i]), hex(&w.0[i])));
                }
            }
            for i in 0..g.1.len() {
                if g.1[i] != w.1[i] {
                    return Some(format!("proof {i} is {} instead of {}", hex(&g.1[i]), hex(&w.1[i])));
                }
            }
            None
        }
    }
}

/// All words of length n over 0..k, as an iterator of counters.
pub fn words(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = k.pow(n as u32);
    (0..total).map(move |mut x| {
        let mut w = vec![0; n];
        for d in w.iter_mut() {
            *d = x % k;
            x /= k;
        }
        w
    })
}
pub fn word(mut x: usize, k: usize, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = x % k;
            x /= k;
            d
        })
        .collect()
}
/// Shares 0..total out in blocks; each worker thread has a context of its own.
pub fn sweep(run: &Run, sh: &Shape, total: usize, f: impl Fn(&dyn Sys, usize) + Sync) {
    let block = (total / (ncpu() * 16)).clamp(1, 512);
    let starts: Vec<usize> = (0..total).step_by(block).collect();
    par_jobs(run, &starts, || sh.ctx(), |c, s| {
        for i in *s..(*s + block).min(total) {
            if run.broken() {
                return;
            }
            f(&**c, i);
        }
    });
}
pub const ALPHA: &[&str] = &["0", "1", "g7", "-1", "2", "g8", "2^128", "half", "2^64", "-2", "2^254", "g9", "3", "17"];
