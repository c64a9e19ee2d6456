//! C26: commitment keys, pairing checks and the reduction of bytes to scalars.
use crate::{chunks, name, ok, visit, word};
use bls12_381::{multi_pairings, reduce_bytes_to_scalar_bias, G2Prepared};
use kzg_multi_open::commit_key::CommitKey;
use kzg_multi_open::verification_key::VerificationKey;
use mc_common::*;

fn g2(k: Fr) -> G2Affine {
    (G2Projective::generator() * k).to_affine()
}
fn dot(a: &[Fr], b: &[Fr]) -> Fr {
    a.iter().zip(b).fold(Fr::ZERO, |s, (x, y)| s + *x * y)
}

pub fn c26() -> i32 {
    let run = Run::new("C26");
    commitments(&run);
    pairings(&run);
    reduction(&run);
    run.finish(
        "A state is the argument of one operation: a key with a polynomial no longer than it, a list of pairs, or 32 bytes. All words of \
         key points over {O,G,-G,P,2P} with all polynomials over {0,1,-1,s} to a length, long keys with every length and arrangements of \
         zero coefficients; all lists of pairs over 5 logs per group to length 3, long lists completed to the identity and one step away \
         from it at every place; all words of 64-bit limbs over 9 values, every byte value at every place on four backgrounds, all pairs \
         of bits, neighbourhoods of the multiples of the group order. Oracle: known logs and Horner's rule in the field.",
        &["blst/blstrs field, k*G and pairing are right"],
    )
}

fn commitments(run: &Run) {
    let p = generic(301);
    let pl = [Fr::ZERO, Fr::ONE, -Fr::ONE, p, p.double()];
    let al = [Fr::ZERO, Fr::ONE, -Fr::ONE, generic(302)];
    let (a1, a2): (Vec<G1Affine>, Vec<G2Affine>) = (pl.iter().map(|l| g1(*l)).collect(), pl.iter().map(|l| g2(*l)).collect());
    let (gp1, gp2) = (G1Projective::generator(), G2Projective::generator());
    for n in 1..=run.pick(3usize, 4) {
        par_jobs(run, &chunks(5usize.pow(n as u32), 4), || (), |_, (a, b)| {
            for i in *a..*b {
                let kw = word(i, 5, n);
                let logs: Vec<Fr> = kw.iter().map(|x| pl[*x]).collect();
                let (k1, k2): (Vec<G1Affine>, Vec<G2Affine>) = (kw.iter().map(|x| a1[*x]).collect(), kw.iter().map(|x| a2[*x]).collect());
                let ck = CommitKey::new(k1.clone());
                // the key must have more elements in the second group than the cell size
                let vk = VerificationKey::new(k1, k2, n - 1, n);
                for m in 0..=n {
                    for j in 0..4usize.pow(m as u32) {
                        let w = word(j, 4, m);
                        visit(run, &format!("commit/{}/{}:{m}", name(&kw), name(&w)), || {
                            let poly: Vec<Fr> = w.iter().map(|x| al[*x]).collect();
                            let e = dot(&poly, &logs);
                            ok(ck.commit_g1(&poly) == gp1 * e && vk.commit_g1(&poly) == gp1 * e && vk.commit_g2(&poly) == gp2 * e,
                                "commitment", || "not the sum of coefficient times point".into())
                        });
                    }
                }
                visit(run, &format!("gen/{}", name(&kw)), || ok(vk.g2_gen() == a2[kw[0]], "generator", || "not the first point".into()));
            }
        });
    }
    run.sample("commit/413/20:2: the key 2P,G,P with the polynomial -1 + 0x");
    // long keys: every length around the powers of two; dense, and with zeros in every sixteenth
    let top = run.pick(4096usize, 8192);
    let logs: Vec<Fr> = (0..top).map(|i| generic(31000 + i as u64)).collect();
    let co: Vec<Fr> = (0..top).map(|i| generic(52000 + i as u64)).collect();
    let pts = mul_many(&logs);
    let n2 = run.pick(66usize, 258);
    let pts2: Vec<G2Affine> = logs[..n2].iter().map(|l| g2(*l)).collect();
    let ck = CommitKey::new(pts.clone());
    let vk = VerificationKey::new(pts.clone(), pts2, n2 - 1, top);
    let mut jobs: Vec<(usize, usize)> = Vec::new();
    let mut lens: Vec<usize> = (0..=run.pick(140usize, 300)).collect();
    for k in 8..=top.trailing_zeros() {
        lens.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    lens.extend([192, 320, 1000, 3000, 4032]);
    lens.retain(|n| *n <= top);
    lens.sort();
    lens.dedup();
    lens.reverse();
    for n in lens {
        for s in 0..if n > 1025 { 44 } else { 12 } {
            jobs.push((n, s));
        }
    }
    par_jobs(run, &jobs, || (), |_, &(n, s)| {
        visit(run, &format!("long/{n}/{s}"), || {
            let q = n.div_ceil(16).max(1);
            let poly: Vec<Fr> = (0..n)
                .map(|i| {
                    let keep = match s {
                        0 => true,
                        1 => i % 2 == 0,
                        2 => i % 2 == 1,
                        3 => i == 0,
                        4 => i + 1 == n,
                        5 => i == 0 || i + 1 == n,
                        6 => i != 0,
                        7 => i + 1 != n,
                        8 => i % 64 == 0,
                        9 => i % 64 == 63,
                        10 => i < n / 2,
                        11 => i >= n / 2,
                        12..=27 => i / q != s - 12,
                        _ => i / q == s - 28 || i == 0,
                    };
                    if keep { co[i] } else { Fr::ZERO }
                })
                .collect();
            let e = dot(&poly, &logs);
            if ck.commit_g1(&poly) != gp1 * e || vk.commit_g1(&poly) != gp1 * e {
                return Err("not the sum of coefficient times point".into());
            }
            if n <= n2 && vk.commit_g2(&poly) != gp2 * e {
                return Err("not the sum in the second group".into());
            }
            Ok("commitment")
        });
    });
}

fn pairings(run: &Run) {
    let (g, h) = (generic(303), generic(304));
    let l1 = [Fr::ZERO, Fr::ONE, -Fr::ONE, g, Fr::from(2)];
    let l2 = [Fr::ZERO, Fr::ONE, -Fr::ONE, h, inv(Fr::from(2))];
    let a1: Vec<G1Affine> = l1.iter().map(|l| g1(*l)).collect();
    let a2: Vec<G2Prepared> = l2.iter().map(|l| G2Prepared::from(g2(*l))).collect();
    let judge = |got: bool, e: Fr| {
        ok(got == (e == Fr::ZERO), if got { "one" } else { "not-one" }, || format!("the check answered {got}"))
    };
    for n in 0..=3usize {
        par_jobs(run, &chunks(25usize.pow(n as u32), 32), || (), |_, (a, b)| {
            for i in *a..*b {
                let w = word(i, 25, n);
                visit(run, &format!("pairs/{}", name(&w)), || {
                    let pairs: Vec<_> = w.iter().map(|x| (&a1[x / 5], &a2[x % 5])).collect();
                    judge(multi_pairings(&pairs), w.iter().fold(Fr::ZERO, |s, x| s + l1[x / 5] * l2[x % 5]))
                });
            }
        });
    }
    if run.thorough() {
        // length 4 over the 9 letters without identities and doubles
        par_jobs(run, &chunks(9usize.pow(4), 32), || (), |_, (a, b)| {
            for i in *a..*b {
                let w = word(i, 9, 4);
                visit(run, &format!("pairs4/{}", name(&w)), || {
                    let pairs: Vec<_> = w.iter().map(|x| (&a1[1 + x / 3], &a2[1 + x % 3])).collect();
                    judge(multi_pairings(&pairs), w.iter().fold(Fr::ZERO, |s, x| s + l1[1 + x / 3] * l2[1 + x % 3]))
                });
            }
        });
    }
    run.sample("pairs/6c: e(G,G) e(-G,-1 G2): not one");
    // long lists: generic pairs, the last one completing the product to one; then the same with
    // one element, at every place, replaced
    let mut lens: Vec<usize> = (2..=run.pick(34usize, 70)).collect();
    lens.extend(run.pick(vec![64usize, 65, 128, 129], vec![127, 128, 129, 255, 256, 257, 513]));
    lens.reverse();
    let top = lens.iter().copied().max().unwrap();
    let x: Vec<Fr> = (0..top).map(|i| generic(32000 + i as u64)).collect();
    let y: Vec<Fr> = (0..top).map(|i| generic(33000 + i as u64)).collect();
    let px = mul_many(&x);
    let py: Vec<G2Prepared> = y.iter().map(|l| G2Prepared::from(g2(*l))).collect();
    let jobs: Vec<(usize, usize)> = lens
        .iter()
        .flat_map(|n| (0..*n).filter(|p| *n <= 34 || p % 16 == 0 || p + 1 == *n).map(|p| (*n, p)).collect::<Vec<_>>())
        .collect();
    par_jobs(run, &jobs, || (), |_, &(n, p)| {
        for kind in 0..4 {
            visit(run, &format!("long-pairs/{n}/{p}/{kind}"), || {
                // position p completes the product
                let mut logs = x[..n].to_vec();
                let mut pts = px[..n].to_vec();
                let rest = (0..n).filter(|i| *i != p).fold(Fr::ZERO, |s, i| s + x[i] * y[i]);
                logs[p] = -rest * inv(y[p]) + Fr::from((kind == 1) as u64);
                pts[p] = g1(logs[p]);
                match kind {
                    2 => {
                        // an identity at the next place instead of its point
                        let q = (p + 1) % n;
                        logs[q] = Fr::ZERO;
                        pts[q] = G1Affine::identity();
                    }
                    3 => {
                        // the sign of one element changed
                        let q = (p + n / 2) % n;
                        logs[q] = -logs[q];
                        pts[q] = -pts[q];
                    }
                    _ => {}
                }
                let pairs: Vec<_> = pts.iter().zip(&py).collect();
                judge(multi_pairings(&pairs), dot(&logs, &y))
            });
        }
    });
}

fn reduction(run: &Run) {
    let horner = |b: &[u8; 32]| b.iter().fold(Fr::ZERO, |s, x| s * Fr::from(256) + Fr::from(*x as u64));
    let check = |case: String, b: [u8; 32]| {
        visit(run, &case, || ok(reduce_bytes_to_scalar_bias(b) == horner(&b), "reduced", || hex(&b)));
    };
    // all words of limbs
    for i in 0..9usize.pow(4) {
        let w = word(i, 9, 4);
        let mut b = [0u8; 32];
        for (j, x) in w.iter().enumerate() {
            let r = u64::from_be_bytes(R_BE[8 * j..8 * j + 8].try_into().unwrap());
            let v = [0, 1, u64::MAX, 1 << 63, 1 << 32, r, r.wrapping_sub(1), r.wrapping_add(1), r.wrapping_mul(2)][*x];
            b[8 * j..8 * j + 8].copy_from_slice(&v.to_be_bytes());
        }
        check(format!("limbs/{}", name(&w)), b);
    }
    // every byte value at every place
    for (k, bg) in [[0u8; 32], [0xff; 32], R_BE, [0x5a; 32]].iter().enumerate() {
        for p in 0..32 {
            for v in 0..=255u8 {
                let mut b = *bg;
                b[p] = v;
                check(format!("byte/{k}/{p}/{v}"), b);
            }
        }
    }
    // all pairs of bits
    for p in 0..256 {
        for q in 0..=p {
            let mut b = [0u8; 32];
            b[p / 8] |= 1 << (p % 8);
            b[q / 8] |= 1 << (q % 8);
            check(format!("bits/{p}/{q}"), b);
        }
    }
    // around the multiples of the order
    for k in 0..=2u32 {
        for d in -600i32..=600 {
            // k*r + d as 257 bits; those outside 256 bits wrap to the other end
            let mut v = [0i64; 32];
            for j in 0..32 {
                v[j] = R_BE[j] as i64 * k as i64;
            }
            v[31] += d as i64;
            let mut b = [0u8; 32];
            let mut carry = 0i64;
            for j in (0..32).rev() {
                let t = v[j] + carry;
                b[j] = t.rem_euclid(256) as u8;
                carry = t.div_euclid(256);
            }
            check(format!("multiple/{k}/{d}"), b);
        }
    }
    run.sample("limbs/5570: the group order's top limbs with special lower ones");
}
