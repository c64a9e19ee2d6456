//! The reference model: EIP-7594 written down from its definition, over a trusted setup whose
//! secret the model knows, so that commitments, proofs and the truth of any claim are field
//! arithmetic. Uses blst/blstrs (trusted base) for the field and for k*G; nothing of /repo.
pub use blstrs::{pairing, Fp, G1Affine, G1Projective, G2Affine, G2Projective, Scalar as Fr};
pub use ff::{Field, PrimeField};
pub use group::{prime::PrimeCurveAffine, Curve, Group};
use std::collections::HashMap;

pub const N_BLOB: usize = 4096;
pub const N_EXT: usize = 8192;
pub const N_CELL: usize = 64;
pub const N_CELLS: usize = 128;
pub const BLOB_BYTES: usize = N_BLOB * 32;
pub const CELL_BYTES: usize = N_CELL * 32;

/// The group order r, big endian.
pub const R_BE: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05,
    0x53, 0xbd, 0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];

pub fn brp(i: usize, bits: u32) -> usize {
    let mut r = 0;
    for b in 0..bits {
        if i & (1 << b) != 0 {
            r |= 1 << (bits - 1 - b);
        }
    }
    r
}
pub fn log2(n: usize) -> u32 {
    assert!(n.is_power_of_two());
    n.trailing_zeros()
}
pub fn pow(x: Fr, mut e: u64) -> Fr {
    let mut b = x;
    let mut r = Fr::ONE;
    while e > 0 {
        if e & 1 == 1 {
            r *= b;
        }
        b = b.square();
        e >>= 1;
    }
    r
}
/// The primitive n-th root of unity 7^((r-1)/n) the specification uses.
pub fn root_of_unity(n: usize) -> Fr {
    // (r-1)/2^32, then square down from 2^32 to n.
    let mut e = [0u8; 32];
    e.copy_from_slice(&R_BE);
    e[31] -= 1; // r - 1; the low 32 bits are zero
    let mut acc = Fr::ONE;
    for byte in &e[..28] {
        for b in (0..8).rev() {
            acc = acc.square();
            if byte >> b & 1 == 1 {
                acc *= Fr::from(7);
            }
        }
    }
    let mut k = 1u64 << 32;
    while k > n as u64 {
        acc = acc.square();
        k >>= 1;
    }
    acc
}
/// sum_j a_j w^(ij), recursively (independent of the code's in-place transform)
pub fn dft(a: &[Fr], w: Fr) -> Vec<Fr> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let ev: Vec<Fr> = a.iter().step_by(2).copied().collect();
    let od: Vec<Fr> = a.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (dft(&ev, w * w), dft(&od, w * w));
    let mut out = vec![Fr::ZERO; n];
    let mut x = Fr::ONE;
    for i in 0..n / 2 {
        out[i] = e[i] + x * o[i];
        out[i + n / 2] = e[i] - x * o[i];
        x *= w;
    }
    out
}
pub fn eval(p: &[Fr], x: Fr) -> Fr {
    p.iter().rev().fold(Fr::ZERO, |a, c| a * x + c)
}
pub fn inv(x: Fr) -> Fr {
    x.invert().unwrap()
}
pub fn generic(seed: u64) -> Fr {
    let mut m = crate::Mix(seed.wrapping_mul(0x5851f42d4c957f2d) ^ 0x1234);
    let mut b = [0u8; 32];
    for c in b[..31].chunks_mut(8) {
        let v = m.next().to_le_bytes();
        let l = c.len();
        c.copy_from_slice(&v[..l]);
    }
    Fr::from_bytes_le(&b).unwrap()
}

pub fn g1(k: Fr) -> G1Affine {
    (G1Projective::generator() * k).to_affine()
}
pub fn g1_bytes(k: Fr) -> [u8; 48] {
    g1(k).to_compressed()
}
pub fn g1_bytes_many(ks: &[Fr]) -> Vec<[u8; 48]> {
    let p: Vec<G1Projective> = ks.iter().map(|k| G1Projective::generator() * k).collect();
    let mut a = vec![G1Affine::identity(); p.len()];
    if !p.is_empty() {
        G1Projective::batch_normalize(&p, &mut a);
    }
    a.iter().map(|x| x.to_compressed()).collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches("0x");
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn short(b: &[u8]) -> String {
    format!("{:016x}", crate::hash_of(b))
}

pub type Blob = Box<[u8; BLOB_BYTES]>;
pub type CellB = Box<[u8; CELL_BYTES]>;

pub fn to_blob(v: &[Fr]) -> Blob {
    let mut b: Vec<u8> = Vec::with_capacity(BLOB_BYTES);
    for x in v {
        b.extend_from_slice(&x.to_bytes_be());
    }
    b.into_boxed_slice().try_into().unwrap()
}
pub fn to_cell(v: &[Fr]) -> CellB {
    let mut b: Vec<u8> = Vec::with_capacity(CELL_BYTES);
    for x in v {
        b.extend_from_slice(&x.to_bytes_be());
    }
    b.into_boxed_slice().try_into().unwrap()
}
pub fn scalar_is_canonical(b: &[u8]) -> bool {
    b < &R_BE[..]
}

/// The model at one parameter choice: polynomials of `n` coefficients, `m` opened points,
/// cells of `l` points, setup secret `tau`.
#[derive(Clone)]
pub struct Model {
    pub n: usize,
    pub m: usize,
    pub l: usize,
    pub tau: Fr,
    /// the m evaluation points in bit-reversed order; cell k owns points[k*l..(k+1)*l]
    pub points: Vec<Fr>,
    /// L_i(tau) for the n blob points in bit-reversed order
    blob_lag: Vec<Fr>,
    /// Lagrange basis of each cell's points at tau
    cell_lag: Vec<Vec<Fr>>,
    /// vanishing polynomial of each cell's points at tau
    pub z: Vec<Fr>,
    w_n: Fr,
    w_m: Fr,
}

pub const TAU_SEED: u64 = 0x7a75;

impl Model {
    pub fn eip7594() -> Model {
        Model::new(N_BLOB, N_EXT, N_CELL, generic(TAU_SEED))
    }
    pub fn new(n: usize, m: usize, l: usize, tau: Fr) -> Model {
        let (w_n, w_m) = (root_of_unity(n), root_of_unity(m));
        let brp_points = |k: usize, w: Fr| -> Vec<Fr> {
            let mut nat = Vec::with_capacity(k);
            let mut x = Fr::ONE;
            for _ in 0..k {
                nat.push(x);
                x *= w;
            }
            (0..k).map(|i| nat[brp(i, log2(k))]).collect()
        };
        let points = brp_points(m, w_m);
        let bp = brp_points(n, w_n);
        let batch_inv = |v: Vec<Fr>| -> Vec<Fr> { v.into_iter().map(inv).collect() };
        // L_i(tau) = (tau^n - 1)/n * w_i/(tau - w_i)
        let scale = (pow(tau, n as u64) - Fr::ONE) * inv(Fr::from(n as u64));
        let d = batch_inv(bp.iter().map(|w| tau - w).collect());
        let blob_lag = bp.iter().zip(&d).map(|(w, d)| scale * w * d).collect();
        let mut cell_lag = Vec::new();
        let mut z = Vec::new();
        for k in 0..m / l {
            let pts = &points[k * l..(k + 1) * l];
            let hl = pow(pts[0], l as u64);
            for p in pts {
                assert_eq!(pow(*p, l as u64), hl);
            }
            let zk = pow(tau, l as u64) - hl;
            // L_j(tau) = Z(tau)/(Z'(x_j)(tau - x_j)), Z'(x) = l x^(l-1) = l h^l / x
            let s = zk * inv(Fr::from(l as u64) * hl);
            let d = batch_inv(pts.iter().map(|x| tau - x).collect());
            cell_lag.push(pts.iter().zip(&d).map(|(x, d)| s * x * d).collect());
            z.push(zk);
        }
        Model { n, m, l, tau, points, blob_lag, cell_lag, z, w_n, w_m }
    }
    pub fn cells(&self) -> usize {
        self.m / self.l
    }
    /// log of the commitment to a blob
    pub fn commit(&self, blob: &[Fr]) -> Fr {
        blob.iter().zip(&self.blob_lag).fold(Fr::ZERO, |a, (b, l)| a + *b * l)
    }
    pub fn blob_lagrange(&self, i: usize) -> Fr {
        self.blob_lag[i]
    }
    pub fn coeffs(&self, blob: &[Fr]) -> Vec<Fr> {
        let n = self.n;
        let nat: Vec<Fr> = (0..n).map(|i| blob[brp(i, log2(n))]).collect();
        let ninv = inv(Fr::from(n as u64));
        dft(&nat, inv(self.w_n)).into_iter().map(|x| x * ninv).collect()
    }
    pub fn from_coeffs(&self, c: &[Fr]) -> Vec<Fr> {
        let n = self.n;
        let mut c = c.to_vec();
        c.resize(n, Fr::ZERO);
        let e = dft(&c, self.w_n);
        (0..n).map(|i| e[brp(i, log2(n))]).collect()
    }
    /// all m evaluations, bit-reversed order
    pub fn extend(&self, blob: &[Fr]) -> Vec<Fr> {
        let mut c = self.coeffs(blob);
        c.resize(self.m, Fr::ZERO);
        let e = dft(&c, self.w_m);
        (0..self.m).map(|i| e[brp(i, log2(self.m))]).collect()
    }
    pub fn interp_at_tau(&self, k: usize, cell: &[Fr]) -> Fr {
        cell.iter().zip(&self.cell_lag[k]).fold(Fr::ZERO, |a, (y, l)| a + *y * l)
    }
    pub fn cell_lagrange(&self, k: usize, j: usize) -> Fr {
        self.cell_lag[k][j]
    }
    /// log of the proof for cell k
    pub fn proof(&self, commit: Fr, k: usize, cell: &[Fr]) -> Fr {
        (commit - self.interp_at_tau(k, cell)) * inv(self.z[k])
    }
    /// Is the claim true? (what the pairing equation of the definition states)
    pub fn item_true(&self, commit: Fr, k: usize, cell: &[Fr], proof: Fr) -> bool {
        commit - self.interp_at_tau(k, cell) == proof * self.z[k]
    }
    /// The setup as JSON text.
    pub fn setup_points(&self) -> (Vec<G1Affine>, Vec<G1Affine>, Vec<G2Affine>) {
        let mut t = Fr::ONE;
        let mut pw = Vec::new();
        for _ in 0..self.n.max(self.l + 1) {
            pw.push(t);
            t *= self.tau;
        }
        let mono = mul_many(&pw);
        let lag = mul_many(&self.blob_lag);
        let g2: Vec<G2Affine> = pw[..self.l + 1]
            .iter()
            .map(|k| (G2Projective::generator() * k).to_affine())
            .collect();
        (mono, lag, g2)
    }
}

/// k_i * G for many k, on all cores
pub fn mul_many(ks: &[Fr]) -> Vec<G1Affine> {
    let n = crate::ncpu();
    let chunk = (ks.len() + n - 1) / n;
    std::thread::scope(|s| {
        let hs: Vec<_> = ks
            .chunks(chunk.max(1))
            .map(|c| s.spawn(move || c.iter().map(|k| g1(*k)).collect::<Vec<_>>()))
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}

/// A blob with everything the model says about it.
pub struct Row {
    pub name: String,
    pub blob: Vec<Fr>,
    pub blob_bytes: Blob,
    pub commit: Fr,
    pub commit_bytes: [u8; 48],
    pub cells: Vec<Vec<Fr>>,
    pub cell_bytes: Vec<CellB>,
    pub proofs: Vec<Fr>,
    pub proof_bytes: Vec<[u8; 48]>,
}
impl Row {
    pub fn new(m: &Model, name: &str, blob: Vec<Fr>) -> Row {
        let commit = m.commit(&blob);
        let ext = m.extend(&blob);
        let cells: Vec<Vec<Fr>> = ext.chunks(m.l).map(|c| c.to_vec()).collect();
        let proofs: Vec<Fr> = cells.iter().enumerate().map(|(k, c)| m.proof(commit, k, c)).collect();
        Row {
            name: name.into(),
            blob_bytes: to_blob(&blob),
            commit_bytes: g1_bytes(commit),
            cell_bytes: cells.iter().map(|c| to_cell(c)).collect(),
            proof_bytes: g1_bytes_many(&proofs),
            blob,
            commit,
            cells,
            proofs,
        }
    }
}

/// Named values used as the alphabet of scalar values.
pub fn value(name: &str) -> Fr {
    match name {
        "0" => Fr::ZERO,
        "1" => Fr::ONE,
        "2" => Fr::from(2),
        "-1" => -Fr::ONE,
        "-2" => -Fr::from(2),
        "half" => inv(Fr::from(2)),
        "2^64" => Fr::from(1 << 32) * Fr::from(1 << 32),
        "2^128" => pow(Fr::from(2), 128),
        "2^254" => pow(Fr::from(2), 254),
        s if s.starts_with('g') => generic(s[1..].parse().unwrap()),
        s if s.starts_with('L') => limbs(s[1..].parse().unwrap()),
        s => Fr::from(s.parse::<u64>().unwrap()),
    }
}

/// The 256 scalars whose four 64-bit limbs each are 0, 1, (almost) all ones or generic.
pub fn limbs(k: usize) -> Fr {
    let mut b = [0u8; 32];
    for i in 0..4 {
        let limb: u64 = match k >> (2 * i) & 3 {
            0 => 0,
            1 => 1,
            // one less than the top limb of the order keeps the whole below the order
            2 if i == 3 => 0x73eda753299d7d47,
            2 => u64::MAX,
            _ => 0x2545f4914f6cdd1d,
        };
        b[32 - 8 * (i + 1)..32 - 8 * i].copy_from_slice(&limb.to_be_bytes());
    }
    Option::from(Fr::from_bytes_be(&b)).unwrap()
}

/// A named blob: a base followed by edits, "base" or "base+pos=value+...".
/// Bases: const:<v>, ramp, gen:<seed>, mono:<j> (evaluations of x^j), cells:<hexmask>:<seed>
/// (generic values in the cells of the 64-bit mask, zero elsewhere), deg:<d>:<seed> (generic polynomial of
/// degree d-1), poly:<j>=<v>:... (a few coefficients), troot:<d>:<seed> (vanishing at tau: the
/// identity as commitment), tproof:<k>:<d>:<seed> (generic, but the proof of cell k is the
/// identity), coefs:<hexmask>:<seed> (generic coefficients in some sixty-fourths),
/// period:<p>:<seed>, mirror:<seed>, equal:<a>:<b>:<seed> (repeated values), stride:<r>:<q>:<seed> (at positions r mod q only; unstride: everywhere else), limbs:<s> and limbcoef:<s> (values resp. coefficients with special limbs).
pub fn named_blob(m: &Model, name: &str) -> Vec<Fr> {
    let mut parts = name.split('+');
    let base = parts.next().unwrap();
    let f: Vec<&str> = base.split(':').collect();
    let n = m.n;
    let mut v: Vec<Fr> = match f[0] {
        "const" => vec![value(f[1]); n],
        "ramp" => (0..n).map(|i| Fr::from(i as u64)).collect(),
        "gen" => {
            let s: u64 = f[1].parse().unwrap();
            (0..n).map(|i| generic(s * 1_000_003 + i as u64)).collect()
        }
        "mono" => {
            let j: u64 = f[1].parse().unwrap();
            (0..n)
                .map(|i| pow(m.w_n, (brp(i, log2(n)) as u64 * j) % n as u64))
                .collect()
        }
        "cells" => {
            let mask = u64::from_str_radix(f[1], 16).unwrap();
            let s: u64 = f[2].parse().unwrap();
            (0..n)
                .map(|i| {
                    if mask >> (i / m.l) & 1 == 1 { generic(s * 1_000_003 + i as u64) } else { Fr::ZERO }
                })
                .collect()
        }
        "deg" => {
            let d: usize = f[1].parse().unwrap();
            let s: u64 = f[2].parse().unwrap();
            let c: Vec<Fr> = (0..d).map(|i| generic(s * 7919 + i as u64)).collect();
            m.from_coeffs(&c)
        }
        "poly" => {
            let mut c = vec![Fr::ZERO; n];
            for e in &f[1..] {
                let (j, x) = e.split_once('=').unwrap();
                c[j.parse::<usize>().unwrap()] = value(x);
            }
            m.from_coeffs(&c)
        }
        // repeated values: with a period, mirrored, or with two equal cells
        "period" => {
            let (p, s): (usize, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap());
            (0..n).map(|i| generic(s * 9001 + (i % p) as u64)).collect()
        }
        "mirror" => {
            let s: u64 = f[1].parse().unwrap();
            (0..n).map(|i| generic(s * 9007 + i.min(n - 1 - i) as u64)).collect()
        }
        "equal" => {
            let (a, b, s): (usize, usize, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
            (0..n).map(|i| generic(s * 9011 + if i / m.l == b { i % m.l + a * m.l } else { i } as u64)).collect()
        }
        // generic coefficients in the blocks (sixty-fourths) of a mask
        "coefs" => {
            let mask = u64::from_str_radix(f[1], 16).unwrap();
            let s: u64 = f[2].parse().unwrap();
            let c: Vec<Fr> = (0..n)
                .map(|i| if mask >> (i * 64 / n) & 1 == 1 { generic(s * 7001 + i as u64) } else { Fr::ZERO })
                .collect();
            m.from_coeffs(&c)
        }
        // generic coefficients at the positions congruent to r modulo q (or everywhere else)
        "stride" | "unstride" => {
            let (r, q, s): (usize, usize, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
            let c: Vec<Fr> = (0..n)
                .map(|i| if (i % q == r) == (f[0] == "stride") { generic(s * 8009 + i as u64) } else { Fr::ZERO })
                .collect();
            m.from_coeffs(&c)
        }
        "troot" => {
            let (d, s): (usize, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap());
            let c: Vec<Fr> = (0..d).map(|i| generic(s * 6007 + i as u64)).collect();
            let c = times_x_minus(&c, m.tau);
            assert!(c.len() <= n);
            m.from_coeffs(&c)
        }
        "tproof" => {
            let k: usize = f[1].parse().unwrap();
            let (d, s): (usize, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap());
            let g: Vec<Fr> = (0..d).map(|i| generic(s * 5003 + i as u64)).collect();
            let g = times_x_minus(&g, m.tau);
            // remainder + (x^l - h^l) g
            let hl = pow(m.points[k * m.l], m.l as u64);
            let mut c: Vec<Fr> = (0..m.l).map(|i| generic(s * 4001 + i as u64)).collect();
            c.resize(m.l + g.len(), Fr::ZERO);
            assert!(c.len() <= n);
            for (i, x) in g.iter().enumerate() {
                c[i + m.l] += *x;
                c[i] -= hl * x;
            }
            m.from_coeffs(&c)
        }
        "limbs" | "limbcoef" => {
            let s: usize = f[1].parse().unwrap();
            let v: Vec<Fr> = (0..n).map(|i| limbs((i * (2 * s + 1) + i / 256 * s + s) % 256)).collect();
            if f[0] == "limbs" { v } else { m.from_coeffs(&v) }
        }
        x => panic!("unknown blob base {x}"),
    };
    for e in parts {
        let (p, x) = e.split_once('=').unwrap();
        v[p.parse::<usize>().unwrap()] = value(x);
    }
    v
}

/// (x - t) c(x)
fn times_x_minus(c: &[Fr], t: Fr) -> Vec<Fr> {
    let mut out = vec![Fr::ZERO; c.len() + 1];
    for (i, x) in c.iter().enumerate() {
        out[i + 1] += *x;
        out[i] -= t * x;
    }
    out
}

/// Encodings of points around every acceptance boundary, with the model's verdict:
/// (label, bytes, Some(())=canonical encoding of a group element).
pub fn point_encodings() -> Vec<(String, [u8; 48], bool)> {
    let mut out: Vec<(String, [u8; 48], bool)> = Vec::new();
    let gen = g1(Fr::ONE).to_compressed();
    let ident = {
        let mut b = [0u8; 48];
        b[0] = 0xc0;
        b
    };
    let p_be: [u8; 48] = unhex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
        .try_into()
        .unwrap();
    let bodies: Vec<(String, [u8; 48])> = {
        let mut v: Vec<(String, [u8; 48])> = Vec::new();
        let strip = |mut b: [u8; 48]| {
            b[0] &= 0x1f;
            b
        };
        v.push(("gen".into(), strip(gen)));
        v.push(("2gen".into(), strip(g1(Fr::from(2)).to_compressed())));
        v.push(("-gen".into(), strip(g1(-Fr::ONE).to_compressed())));
        v.push(("generic".into(), strip(g1(generic(5)).to_compressed())));
        v.push(("zero".into(), [0; 48]));
        for k in [1u8, 2, 3, 4, 5, 6, 7, 8] {
            let mut b = [0u8; 48];
            b[47] = k;
            v.push((format!("x{k}"), b));
        }
        v.push(("p".into(), p_be));
        for d in [1u8, 2, 3, 4] {
            let mut b = p_be;
            b[47] -= d;
            v.push((format!("p-{d}"), b));
            let mut b = p_be;
            b[47] += d;
            v.push((format!("p+{d}"), b));
        }
        let mut b = [0xffu8; 48];
        b[0] = 0x1f;
        v.push(("ones".into(), b));
        // x of generator plus p: the same residue, not canonical (if it fits in 381 bits)
        let mut s = strip(gen);
        let mut carry = 0u16;
        for i in (0..48).rev() {
            let t = s[i] as u16 + p_be[i] as u16 + carry;
            s[i] = t as u8;
            carry = t >> 8;
        }
        if s[0] & 0xe0 == 0 {
            v.push(("gen+p".into(), s));
        }
        let mut s = [0u8; 48];
        let mut carry = 4u16;
        for i in (0..48).rev() {
            let t = p_be[i] as u16 + carry;
            s[i] = t as u8;
            carry = t >> 8;
        }
        v.push(("p+4b".into(), s));
        v
    };
    for (name, body) in &bodies {
        for flags in 0u8..8 {
            let mut b = *body;
            b[0] |= flags << 5;
            out.push((format!("{name}/flags{flags}"), b, point_ok(&b)));
        }
    }
    // the identity with every single stray bit
    for bit in 0..384 {
        let mut b = ident;
        b[bit / 8] ^= 0x80 >> (bit % 8);
        out.push((format!("ident^bit{bit}"), b, point_ok(&b)));
    }
    // a valid point with every single bit flipped
    for bit in 0..384 {
        let mut b = g1(generic(6)).to_compressed();
        b[bit / 8] ^= 0x80 >> (bit % 8);
        out.push((format!("pt^bit{bit}"), b, point_ok(&b)));
    }
    out.push(("ident".into(), ident, true));
    out.push(("valid".into(), gen, true));
    let mut seen = HashMap::new();
    out.retain(|(_, b, _)| seen.insert(*b, ()).is_none());
    out
}

/// k*P by plain double-and-add: right for points outside the prime-order group too, where the
/// libraries' fast multiplications are not.
pub fn slow_mul<G: Group>(p: G, k_hex: &str) -> G {
    let mut r = G::identity();
    for b in unhex(k_hex) {
        for i in (0..8).rev() {
            r = r.double();
            if b >> i & 1 == 1 {
                r += p;
            }
        }
    }
    r
}
const R_HEX: &str = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
/// Points of the curve with no component in the prime-order group: of order 3, of order 11, and
/// of a large order dividing the cofactor.
pub fn torsion_g1() -> Vec<(&'static str, G1Projective)> {
    // the order of the curve is 3 * 11^2 * 10177^2 * 859267^2 * 52437899^2 * r
    let mut p = None;
    for k in 1..40u8 {
        let mut b = [0u8; 48];
        b[0] = 0x80;
        b[47] = k;
        if let Some(a) = Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(&b)) {
            let big = slow_mul(G1Projective::from(a), R_HEX);
            let t3 = slow_mul(big, "13242eaac71ca0722eaae38e55558e39");
            let t11 = slow_mul(big, "00797dfbc5773068627ab75c63702343");
            if !bool::from(t3.is_identity()) && !bool::from(t11.is_identity()) {
                p = Some((t3, t11, big));
                break;
            }
        }
    }
    let (t3, t11, big) = p.unwrap();
    assert!(bool::from((t3 + t3 + t3).is_identity()) && bool::from(slow_mul(t11, "0b").is_identity()));
    vec![("order3", t3), ("order11", t11), ("cofactor", big)]
}
/// The same in the other group: of order 13 and of a large order.
pub fn torsion_g2() -> Vec<(&'static str, G2Projective)> {
    for k in 1..60u8 {
        let mut b = [0u8; 96];
        b[0] = 0x80;
        b[95] = k;
        if let Some(a) = Option::<G2Affine>::from(G2Affine::from_compressed_unchecked(&b)) {
            let big = slow_mul(G2Projective::from(a), R_HEX);
            let t13 = slow_mul(big, "08d5fc7522f6c4d5a3c5663541d68b60a5f9bdc250555d81be2a9b0c6483045a5b213dcb71085945e0aef29c5e8629edf4046db800a8373336b3150941cfdd");
            if !bool::from(t13.is_identity()) {
                assert!(bool::from(slow_mul(t13, "0d").is_identity()));
                return vec![("order13", t13), ("cofactor", big)];
            }
        }
    }
    unreachable!()
}

/// The model's verdict on a compressed G1 encoding, on blst's primitives used one by one:
/// decode, check that it is in the subgroup, and that encoding it again gives the same bytes.
pub fn point_ok(b: &[u8; 48]) -> bool {
    unsafe {
        let mut a = blst::blst_p1_affine::default();
        if blst::blst_p1_uncompress(&mut a, b.as_ptr()) != blst::BLST_ERROR::BLST_SUCCESS {
            return false;
        }
        if !blst::blst_p1_affine_in_g1(&a) {
            return false;
        }
        let mut o = [0u8; 48];
        blst::blst_p1_affine_compress(o.as_mut_ptr(), &a);
        &o == b
    }
}

/// Encodings around the modulus for comparisons made limb by limb, in limbs of any size: all words
/// of 64-bit limbs over {0, r-1, r, r+1, max} of each limb, and every pair of limbs of 1, 2 or 4
/// bytes one off, the rest those of r, zero or full.
pub fn scalar_limb_words() -> Vec<(String, [u8; 32], bool)> {
    let mut v: Vec<(String, [u8; 32])> = Vec::new();
    let limb = |k: usize| u64::from_be_bytes(R_BE[8 * k..8 * k + 8].try_into().unwrap());
    for w in 0..5usize.pow(4) {
        let mut b = [0u8; 32];
        for k in 0..4 {
            let l = match w / 5usize.pow(k as u32) % 5 {
                0 => 0,
                1 => limb(k).wrapping_sub(1),
                2 => limb(k),
                3 => limb(k).wrapping_add(1),
                _ => u64::MAX,
            };
            b[8 * k..8 * k + 8].copy_from_slice(&l.to_be_bytes());
        }
        v.push((format!("limbs{w}"), b));
    }
    for size in [1usize, 2, 4] {
        let n = 32 / size;
        for i in 0..n {
            for j in i + 1..n {
                for di in [-1i64, 1] {
                    for dj in [-1i64, 1] {
                        for fill in 0..if size == 1 { 1 } else { 3 } {
                            let mut b = R_BE;
                            for k in i + 1..n {
                                if fill > 0 && k != j {
                                    b[k * size..(k + 1) * size].fill(if fill == 1 { 0 } else { 0xff });
                                }
                            }
                            for (k, d) in [(i, di), (j, dj)] {
                                let x = b[k * size..(k + 1) * size].iter().fold(0i64, |a, y| a << 8 | *y as i64) + d;
                                for t in 0..size {
                                    b[(k + 1) * size - 1 - t] = (x >> (8 * t)) as u8;
                                }
                            }
                            v.push((format!("{size}:{i}{di:+},{j}{dj:+}:{fill}"), b));
                        }
                    }
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.1));
    v.into_iter().map(|(n, b)| (n, b, scalar_is_canonical(&b))).collect()
}
/// 32-byte strings around the canonical boundary, with the model's verdict.
pub fn scalar_encodings() -> Vec<(String, [u8; 32], bool)> {
    let mut v: Vec<(String, [u8; 32])> = Vec::new();
    v.push(("0".into(), [0; 32]));
    let add = |d: i32| {
        let mut b = R_BE;
        let mut c = d;
        for i in (0..32).rev() {
            let t = b[i] as i32 + c;
            b[i] = t.rem_euclid(256) as u8;
            c = t.div_euclid(256);
        }
        b
    };
    for d in [-3, -2, -1, 0, 1, 2, 3, 255, 256, -256] {
        v.push((format!("r{d:+}"), add(d)));
    }
    for i in 0..32 {
        let mut b = R_BE;
        b[i] = b[i].wrapping_add(1);
        v.push((format!("r,byte{i}+1"), b));
        let mut b = R_BE;
        b[i] = b[i].wrapping_sub(1);
        v.push((format!("r,byte{i}-1"), b));
    }
    for i in 0..256 {
        let mut b = [0u8; 32];
        b[i / 8] = 0x80 >> (i % 8);
        v.push((format!("bit{i}"), b));
        if i < 8 || i % 16 == 0 {
            let mut b = R_BE;
            b[i / 8] ^= 0x80 >> (i % 8);
            v.push((format!("r^bit{i}"), b));
        }
    }
    let mut b = [0u8; 32];
    let mut c = 0u16;
    for i in (0..32).rev() {
        let t = 2 * R_BE[i] as u16 + c;
        b[i] = t as u8;
        c = t >> 8;
    }
    v.push(("2r".into(), b));
    v.push(("max".into(), [0xff; 32]));
    let mut le = R_BE;
    le.reverse();
    v.push(("r little endian".into(), le));
    let mut le1 = add(-1);
    le1.reverse();
    v.push(("r-1 little endian".into(), le1));
    v.into_iter().map(|(n, b)| (n, b, scalar_is_canonical(&b))).collect()
}
