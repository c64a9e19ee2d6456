//! The code under test behind a uniform interface: outcomes instead of Results and panics.
pub use mc_common::model::*;
pub use mc_common::*;
pub use rust_eth_kzg::{DASContext, TrustedSetup, UsePrecomp};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[cfg(feature = "mt")]
pub const FLAVOUR: &str = "multithreaded";
#[cfg(all(feature = "st", not(feature = "mt")))]
pub const FLAVOUR: &str = "singlethreaded";
#[cfg(not(any(feature = "st", feature = "mt")))]
pub const FLAVOUR: &str = "plain";

/// threads: 0 = sensible default, 1 = single, n = Multi(n). Ignored where the flavour has none.
pub fn make_ctx(setup: &TrustedSetup, threads: usize, width: Option<usize>) -> DASContext {
    let pre = match width {
        None => UsePrecomp::No,
        Some(w) => UsePrecomp::Yes { width: w },
    };
    #[cfg(feature = "mt")]
    {
        use rust_eth_kzg::ThreadCount::*;
        let t = match threads {
            0 => SensibleDefault,
            1 => Single,
            n => Multi(n),
        };
        DASContext::with_threads(setup, t, pre)
    }
    #[cfg(not(feature = "mt"))]
    {
        let _ = threads;
        DASContext::new(setup, pre)
    }
}

pub fn setup_json(m: &Model) -> String {
    let (mono, lag, g2) = m.setup_points();
    let g1s = |v: &[G1Affine]| -> String {
        v.iter().map(|p| format!("\"0x{}\"", hex(&p.to_compressed()))).collect::<Vec<_>>().join(",")
    };
    // natural order, as in the public file
    let lag: Vec<G1Affine> = (0..lag.len()).map(|i| lag[brp(i, log2(lag.len()))]).collect();
    let g2s: Vec<String> = g2.iter().map(|p| format!("\"0x{}\"", hex(&p.to_compressed()))).collect();
    format!(
        "{{\"g1_monomial\":[{}],\"g1_lagrange\":[{}],\"g2_monomial\":[{}]}}",
        g1s(&mono),
        g1s(&lag),
        g2s.join(",")
    )
}

pub struct World {
    pub m: Model,
    pub setup: TrustedSetup,
    pub ctx: DASContext,
    rows: Mutex<HashMap<String, Arc<Row>>>,
}
impl World {
    pub fn new(threads: usize) -> World {
        let m = Model::eip7594();
        let setup = TrustedSetup::from_json_unchecked(&setup_json(&m));
        let ctx = make_ctx(&setup, threads, None);
        World { m, setup, ctx, rows: Default::default() }
    }
    pub fn row(&self, name: &str) -> Arc<Row> {
        if let Some(r) = self.rows.lock().unwrap().get(name) {
            return r.clone();
        }
        let r = Arc::new(Row::new(&self.m, name, named_blob(&self.m, name)));
        self.rows.lock().unwrap().entry(name.into()).or_insert(r).clone()
    }
    /// for one-off blobs: not kept
    pub fn row_once(&self, name: &str) -> Row {
        Row::new(&self.m, name, named_blob(&self.m, name))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    InvalidProof,
    Error,
    Panic(String),
}
pub struct Req {
    pub commits: Vec<[u8; 48]>,
    pub idx: Vec<u64>,
    pub cells: Vec<CellB>,
    pub proofs: Vec<[u8; 48]>,
}
impl Req {
    pub fn hash(&self) -> u64 {
        hash_of(&(&self.commits, &self.idx, &self.cells, &self.proofs))
    }
}
pub fn verify(ctx: &DASContext, r: &Req) -> Verdict {
    let o = guard(|| {
        ctx.verify_cell_kzg_proof_batch(
            r.commits.iter().collect(),
            r.idx.clone(),
            r.cells.iter().map(|c| &**c).collect(),
            r.proofs.iter().collect(),
        )
    });
    match o {
        Ok(Ok(())) => Verdict::Accept,
        Ok(Err(e)) => {
            if e.invalid_proof() {
                Verdict::InvalidProof
            } else {
                Verdict::Error
            }
        }
        Err(p) => Verdict::Panic(p),
    }
}

#[derive(Clone)]
pub struct Item {
    pub label: String,
    pub commit: Fr,
    pub idx: usize,
    pub cell: Vec<Fr>,
    pub proof: Fr,
}
impl Item {
    pub fn honest(r: &Row, k: usize) -> Item {
        Item {
            label: format!("{}@{}", r.name, k),
            commit: r.commit,
            idx: k,
            cell: r.cells[k].clone(),
            proof: r.proofs[k],
        }
    }
    pub fn is_true(&self, m: &Model) -> bool {
        m.item_true(self.commit, self.idx, &self.cell, self.proof)
    }
}
/// bytes of points are cached: G-multiples are the dearest part of building a request
#[derive(Default)]
pub struct PtCache(Mutex<HashMap<[u8; 32], [u8; 48]>>);
impl PtCache {
    pub fn get(&self, k: Fr) -> [u8; 48] {
        let key = k.to_bytes_le();
        if let Some(b) = self.0.lock().unwrap().get(&key) {
            return *b;
        }
        let b = g1_bytes(k);
        self.0.lock().unwrap().insert(key, b);
        b
    }
    pub fn req(&self, items: &[Item]) -> Req {
        Req {
            commits: items.iter().map(|i| self.get(i.commit)).collect(),
            idx: items.iter().map(|i| i.idx as u64).collect(),
            cells: items.iter().map(|i| to_cell(&i.cell)).collect(),
            proofs: items.iter().map(|i| self.get(i.proof)).collect(),
        }
    }
}

pub type CellsProofs = (Vec<CellB>, Vec<[u8; 48]>);
pub fn compute(ctx: &DASContext, blob: &Blob) -> Result<Result<CellsProofs, ()>, String> {
    guard(|| {
        ctx.compute_cells_and_kzg_proofs(blob).map(|(c, p)| (c.to_vec(), p.to_vec())).map_err(|_| ())
    })
}
pub fn commit(ctx: &DASContext, blob: &Blob) -> Result<Result<[u8; 48], ()>, String> {
    guard(|| ctx.blob_to_kzg_commitment(blob).map_err(|_| ()))
}
pub fn recover(ctx: &DASContext, idx: &[u64], cells: &[&[u8; 2048]]) -> Result<Result<CellsProofs, ()>, String> {
    guard(|| {
        ctx.recover_cells_and_kzg_proofs(idx.to_vec(), cells.to_vec())
            .map(|(c, p)| (c.to_vec(), p.to_vec()))
            .map_err(|_| ())
    })
}
pub fn diff_cells(got: &[CellB], want: &[CellB]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} cells instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            let e = (0..N_CELL).find(|j| g[32 * j..32 * j + 32] != w[32 * j..32 * j + 32]).unwrap();
            return Some(format!(
                "cell {i} element {e} is {} instead of {}",
                hex(&g[32 * e..32 * e + 32]),
                hex(&w[32 * e..32 * e + 32])
            ));
        }
    }
    None
}
pub fn diff_proofs(got: &[[u8; 48]], want: &[[u8; 48]]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} proofs instead of {}", got.len(), want.len()));
    }
    (0..got.len())
        .find(|i| got[*i] != want[*i])
        .map(|i| format!("proof {i} is {} instead of {}", hex(&got[i]), hex(&want[i])))
}
/// positions where index arithmetic tends to break: ends, powers of two and neighbours, cell
/// boundaries, and a stride through the rest
pub fn positions(n: usize, stride: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 1usize;
    while p <= n {
        for d in [p.wrapping_sub(1), p, p + 1, n.wrapping_sub(p), (n.wrapping_sub(p)).wrapping_sub(1)] {
            v.push(d);
        }
        p *= 2;
    }
    let mut i = 0;
    while i < n {
        v.push(i);
        i += stride;
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}
