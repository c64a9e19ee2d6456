//! The operations threads carry out, and their data, for the real parameters and for tiny ones.
use mc_common::model::{brp, hex, log2, G1Affine, Model, TAU_SEED};
use mc_common::{generic, hash_of};

pub const DATASETS: usize = 3;

pub trait Ctx: Send + Sync {
    /// What operation `op` gives for the data set `i`, as text.
    fn run(&self, i: usize, op: char) -> String;
}
pub struct Size {
    pub name: &'static str,
    /// what every context needs, made once
    pub prepare: fn(),
    pub context: fn(usize) -> Box<dyn Ctx>,
    /// the data of the operations, by way of a context
    pub make: fn(&str),
    pub load: fn(&str),
}

#[cfg_attr(not(feature = "small"), allow(dead_code))]
fn tiny_setup(n: usize, l: usize) -> String {
    let m = Model::new(n, 2 * n, l, generic(TAU_SEED));
    let (mono, lag, g2) = m.setup_points();
    let lag: Vec<G1Affine> = (0..lag.len()).map(|i| lag[brp(i, log2(lag.len()))]).collect();
    let j = |v: Vec<String>| v.iter().map(|p| format!("\"0x{p}\"")).collect::<Vec<_>>().join(",");
    format!(
        "{{\"g1_monomial\":[{}],\"g1_lagrange\":[{}],\"g2_monomial\":[{}]}}",
        j(mono.iter().map(|p| hex(&p.to_compressed())).collect()),
        j(lag.iter().map(|p| hex(&p.to_compressed())).collect()),
        j(g2.iter().map(|p| hex(&p.to_compressed())).collect())
    )
}

macro_rules! size {
    ($name:literal $module:ident $krate:ident $setup:expr) => {
        mod $module {
            use super::*;
            use std::io::{Read, Write};
            use std::sync::OnceLock;
            use ::$krate::constants::*;
            use ::$krate::{Cell, DASContext, Error, KZGProof, TrustedSetup, UsePrecomp};

            pub struct Data {
                blob: Box<[u8; BYTES_PER_BLOB]>,
                bad: Box<[u8; BYTES_PER_BLOB]>,
                commitment: [u8; 48],
                cells: Vec<Cell>,
                proofs: Vec<KZGProof>,
            }
            static DATA: OnceLock<Vec<Data>> = OnceLock::new();
            static SETUP: OnceLock<TrustedSetup> = OnceLock::new();
            pub fn prepare() {
                SETUP.get_or_init(|| {
                    let text: Option<String> = $setup;
                    text.map_or_else(TrustedSetup::default, |t| TrustedSetup::from_json_unchecked(&t))
                });
            }
            fn real(threads: usize) -> DASContext {
                prepare();
                let setup = SETUP.get().unwrap();
                #[cfg(feature = "mt")]
                {
                    use ::$krate::ThreadCount;
                    DASContext::with_threads(setup, ThreadCount::Multi(threads), UsePrecomp::No)
                }
                #[cfg(not(feature = "mt"))]
                {
                    let _ = threads;
                    DASContext::new(setup, UsePrecomp::No)
                }
            }
            pub fn context(threads: usize) -> Box<dyn Ctx> {
                Box::new(Real(real(threads)))
            }
            fn blob(i: usize) -> (Box<[u8; BYTES_PER_BLOB]>, Box<[u8; BYTES_PER_BLOB]>) {
                let n = FIELD_ELEMENTS_PER_BLOB;
                let v: Vec<u8> = (0..n).flat_map(|j| generic((i * 5000 + j) as u64).to_bytes_be()).collect();
                let blob: Box<[u8; BYTES_PER_BLOB]> = v.into_boxed_slice().try_into().unwrap();
                let mut bad = blob.clone();
                bad[32 * ((100 + i) % n)..][..32].fill(0xff);
                (blob, bad)
            }
            pub fn make(path: &str) {
                let ctx = real(1);
                let mut f = std::fs::File::create(path).unwrap();
                for i in 0..DATASETS {
                    let (b, _) = blob(i);
                    f.write_all(&ctx.blob_to_kzg_commitment(&b).unwrap()).unwrap();
                    let (cells, proofs) = ctx.compute_cells_and_kzg_proofs(&b).unwrap();
                    for c in &cells {
                        f.write_all(&c[..]).unwrap();
                    }
                    for p in &proofs {
                        f.write_all(p).unwrap();
                    }
                }
            }
            pub fn load(path: &str) {
                let mut f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
                let v = (0..DATASETS)
                    .map(|i| {
                        let mut commitment = [0; 48];
                        f.read_exact(&mut commitment).unwrap();
                        let cells = (0..CELLS_PER_EXT_BLOB)
                            .map(|_| {
                                let mut c = vec![0; BYTES_PER_CELL];
                                f.read_exact(&mut c).unwrap();
                                c.into_boxed_slice().try_into().unwrap()
                            })
                            .collect();
                        let proofs = (0..CELLS_PER_EXT_BLOB)
                            .map(|_| {
                                let mut p = [0; 48];
                                f.read_exact(&mut p).unwrap();
                                p
                            })
                            .collect();
                        let (blob, bad) = blob(i);
                        Data { blob, bad, commitment, cells, proofs }
                    })
                    .collect();
                let _ = DATA.set(v);
            }
            fn show<T: std::hash::Hash>(r: Result<T, Error>) -> String {
                match r {
                    Ok(x) => format!("ok:{:016x}", hash_of(&x)),
                    Err(e) => {
                        let s = format!("{e:?}");
                        format!("err:{}", s.split(['(', '{', ' ']).next().unwrap_or(""))
                            + &format!(":{:08x}", hash_of(&s) as u32)
                    }
                }
            }
            struct Real(DASContext);
            impl Ctx for Real {
                fn run(&self, i: usize, op: char) -> String {
                    const C: usize = CELLS_PER_EXT_BLOB;
                    let ctx = &self.0;
                    let d = DATA.get().unwrap();
                    let x = &d[i % DATASETS];
                    let y = &d[(i + 1) % DATASETS];
                    let have = |n: usize| -> (Vec<u64>, Vec<&[u8; BYTES_PER_CELL]>) {
                        // the three data sets keep the first half, the even and the odd cells
                        let ids: Vec<u64> = (0..C as u64)
                            .filter(|k| match i % DATASETS {
                                0 => *k < C as u64 / 2,
                                1 => k % 2 == 0,
                                _ => k % 2 == 1,
                            })
                            .take(n)
                            .collect();
                        let cells = ids.iter().map(|k| &*x.cells[*k as usize]).collect();
                        (ids, cells)
                    };
                    let (v, a, b, f) = ((3 + i) % C, 5 % C, 70 % C, 9 % C);
                    match op {
                        'v' => show(ctx.verify_cell_kzg_proof_batch(vec![&x.commitment], vec![v as u64], vec![&x.cells[v]], vec![&x.proofs[v]])),
                        'b' => show(ctx.verify_cell_kzg_proof_batch(
                            vec![&x.commitment, &x.commitment, &y.commitment],
                            vec![a as u64, b as u64, a as u64],
                            vec![&x.cells[a], &x.cells[b], &y.cells[a]],
                            vec![&x.proofs[a], &x.proofs[b], &y.proofs[a]],
                        )),
                        'f' => show(ctx.verify_cell_kzg_proof_batch(vec![&x.commitment], vec![f as u64], vec![&x.cells[f]], vec![&y.proofs[f]])),
                        'm' => show(ctx.verify_cell_kzg_proof_batch(vec![&x.commitment, &y.commitment], vec![f as u64], vec![&x.cells[f]], vec![&x.proofs[f]])),
                        'e' => show(ctx.verify_cell_kzg_proof_batch(vec![], vec![], vec![], vec![])),
                        'c' => show(ctx.blob_to_kzg_commitment(&x.blob)),
                        'x' => show(ctx.blob_to_kzg_commitment(&x.bad)),
                        'P' => show(ctx.compute_cells_and_kzg_proofs(&x.blob)),
                        'R' => {
                            let (i, c) = have(C / 2);
                            show(ctx.recover_cells_and_kzg_proofs(i, c))
                        }
                        'r' => {
                            let (i, c) = have(C / 2 - 1);
                            show(ctx.recover_cells_and_kzg_proofs(i, c))
                        }
                        // one cell too many that is not of the same blob
                        'w' => {
                            let (mut i, mut c) = have(C / 2);
                            let k = (0..C as u64).find(|k| !i.contains(k)).unwrap();
                            i.push(k);
                            c.push(&y.cells[k as usize]);
                            show(ctx.recover_cells_and_kzg_proofs(i, c))
                        }
                        _ => panic!("unknown operation {op}"),
                    }
                }
            }
        }
    };
}
macro_rules! sizes {
    ($($name:literal $module:ident $krate:ident $setup:expr;)*) => {
        $(size!($name $module $krate $setup);)*
        pub const SIZES: &[Size] = &[$(Size {
            name: $name,
            prepare: $module::prepare,
            context: $module::context,
            make: $module::make,
            load: $module::load,
        }),*];
    };
}
#[cfg(feature = "small")]
sizes! {
    "full" full rust_eth_kzg None;
    "2x1" s2x1 rust_eth_kzg_2x1 Some(tiny_setup(2, 1));
    "4x2" s4x2 rust_eth_kzg_4x2 Some(tiny_setup(4, 2));
    "8x2" s8x2 rust_eth_kzg_8x2 Some(tiny_setup(8, 2));
}
#[cfg(not(feature = "small"))]
sizes! {
    "full" full rust_eth_kzg None;
}
pub fn size(name: &str) -> Option<&'static Size> {
    SIZES.iter().find(|s| s.name == name)
}
/// The operation on no context: only the one that makes its own.
pub fn run_new(size: &str, threads: usize, i: usize, op: char) -> String {
    assert!(op == 'N');
    let c = (self::size(size).unwrap().context)(threads);
    let r = c.run(i, 'v');
    drop(c);
    r
}
