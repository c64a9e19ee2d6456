//! C20: Fourier transforms. C21: polynomial arithmetic.
use crate::{chunks, name, ok, visit, word};
use mc_common::*;
use polynomial::domain::Domain;
use polynomial::poly_coeff::*;
use polynomial::CosetFFT;

fn powers(w: Fr, n: usize) -> Vec<Fr> {
    let mut v = Vec::with_capacity(n);
    let mut x = Fr::ONE;
    for _ in 0..n {
        v.push(x);
        x *= w;
    }
    v
}
/// The definition: sum_j a_j (shift x_i)^j at every domain point.
fn evals(a: &[Fr], roots: &[Fr], shift: Fr) -> Vec<Fr> {
    roots.iter().map(|x| eval(a, *x * shift)).collect()
}

pub fn c20() -> i32 {
    let run = Run::new("C20");
    let g = generic(51);
    let alpha = [Fr::ZERO, g, Fr::ONE, -Fr::ONE];
    let maxlog = run.pick(13u32, 14);
    // the domains themselves, for every requested size
    let sizes: Vec<usize> = (1..=run.pick(520, 2100)).chain((9..=maxlog).map(|k| 1 << k)).collect();
    par_jobs(&run, &sizes, || (), |_, &n| {
        visit(&run, &format!("domain/{n}"), || {
            let d = Domain::new(n);
            let m = n.next_power_of_two();
            let w = d.generator;
            if d.roots.len() != m {
                return Err(format!("{} points instead of {m}", d.roots.len()));
            }
            if pow(w, m as u64) != Fr::ONE || (m > 1 && pow(w, m as u64 / 2) != -Fr::ONE) {
                return Err("generator does not have the domain's order".into());
            }
            if w != root_of_unity(m) {
                return Err("not the domain the specification names".into());
            }
            ok(d.roots == powers(w, m) && d.generator_inv * w == Fr::ONE
                && d.domain_size == Fr::from(m as u64) && d.domain_size_inv * d.domain_size == Fr::ONE,
                "domain", || "roots or constants are wrong".into())
        });
    });
    let shifts = [Fr::ONE, Fr::from(7), generic(52), -Fr::ONE, root_of_unity(1 << 13), Fr::from(2)];
    // all words over the alphabet on small domains, all input lengths
    for (log, k) in [(0u32, 4usize), (1, 4), (2, 4), (3, run.pick(3, 4)), (4, run.pick(0, 2))] {
        let n = 1usize << log;
        if k == 0 {
            continue;
        }
        let d = Domain::new(n);
        let roots = powers(root_of_unity(n), n);
        let cosets: Vec<CosetFFT> = shifts.iter().map(|s| CosetFFT::new(*s)).collect();
        for len in 0..=n {
            par_jobs(&run, &chunks(k.pow(len as u32), 64), || (), |_, (a, b)| {
                for i in *a..*b {
                    let w = word(i, k, len);
                    visit(&run, &format!("word/{n}/{}", name(&w)), || {
                        let v: Vec<Fr> = w.iter().map(|x| alpha[*x]).collect();
                        let mut full = v.clone();
                        full.resize(n, Fr::ZERO);
                        let e = evals(&v, &roots, Fr::ONE);
                        if d.fft_scalars(v.clone()) != e {
                            return Err("fft_scalars is not the evaluations".into());
                        }
                        if d.ifft_scalars(e) != full {
                            return Err("ifft_scalars is not the coefficients".into());
                        }
                        // the input read as evaluations (zero beyond its end)
                        if evals(&d.ifft_scalars(v.clone()), &roots, Fr::ONE) != full {
                            return Err("ifft_scalars of the input does not evaluate to it".into());
                        }
                        for (s, c) in shifts.iter().zip(&cosets) {
                            let e = evals(&v, &roots, *s);
                            if d.coset_fft_scalars(v.clone(), c) != e {
                                return Err("coset_fft_scalars is not the evaluations".into());
                            }
                            if d.coset_ifft_scalars(e, c) != full {
                                return Err("coset_ifft_scalars is not the coefficients".into());
                            }
                            if evals(&d.coset_ifft_scalars(v.clone(), c), &roots, *s) != full {
                                return Err("coset_ifft_scalars of the input does not evaluate to it".into());
                            }
                        }
                        Ok("scalars")
                    });
                }
            });
        }
    }
    run.sample("word/8/01201201: coefficient vector over {0,g,1,-1} on the domain of 8 points");
    // every unit vector at every size; every single zero in a dense vector; dense prefixes
    let mut jobs = Vec::new();
    for log in 3..=maxlog {
        let n = 1usize << log;
        for (a, b) in chunks(n, (1 << 17 >> log).max(1)) {
            jobs.push((n, a, b));
        }
    }
    let doms: Vec<(Domain, Vec<Fr>)> =
        (0..=maxlog).map(|l| (Domain::new(1 << l), powers(root_of_unity(1 << l), 1 << l))).collect();
    let dense: Vec<Fr> = (0..1usize << maxlog).map(|i| generic(8000 + i as u64)).collect();
    let dfts: Vec<Vec<Fr>> = (0..=maxlog as usize).map(|l| dft(&dense[..1 << l], root_of_unity(1 << l))).collect();
    par_jobs(&run, &jobs, || (), |_, &(n, a, b)| {
        let l = log2(n) as usize;
        let (d, roots) = &doms[l];
        let ninv = inv(Fr::from(n as u64));
        for i in a..b {
            visit(&run, &format!("unit/{n}/{i}"), || {
                let mut v = vec![Fr::ZERO; i + 1];
                v[i] = g;
                let fwd: Vec<Fr> = (0..n).map(|j| g * roots[i * j % n]).collect();
                if d.fft_scalars(v.clone()) != fwd {
                    return Err("fft_scalars of a monomial".into());
                }
                let bwd: Vec<Fr> = (0..n).map(|j| g * ninv * roots[(n - i * j % n) % n]).collect();
                if d.ifft_scalars(v.clone()) != bwd {
                    return Err("ifft_scalars of a unit vector".into());
                }
                // a dense vector with the i-th element zeroed
                let mut v = dense[..n].to_vec();
                v[i] = Fr::ZERO;
                let e: Vec<Fr> = (0..n).map(|j| dfts[l][j] - dense[i] * roots[i * j % n]).collect();
                if d.fft_scalars(v.clone()) != e {
                    return Err("fft_scalars of a dense vector with one zero".into());
                }
                if d.ifft_scalars(e) != v {
                    return Err("ifft_scalars of its evaluations".into());
                }
                Ok("scalars")
            });
            if i % (n / 8) == 1 % (n / 8) || n <= 64 {
                for (si, s) in shifts.iter().enumerate() {
                    visit(&run, &format!("coset/{n}/{i}/{si}"), || {
                        let c = CosetFFT::new(*s);
                        let si = pow(*s, i as u64);
                        let mut v = vec![Fr::ZERO; i + 1];
                        v[i] = g;
                        let fwd: Vec<Fr> = (0..n).map(|j| g * si * roots[i * j % n]).collect();
                        if d.coset_fft_scalars(v.clone(), &c) != fwd {
                            return Err("coset_fft_scalars of a monomial".into());
                        }
                        v.resize(n, Fr::ZERO);
                        if d.coset_ifft_scalars(fwd, &c) != v {
                            return Err("coset_ifft_scalars of its evaluations".into());
                        }
                        // dense prefix of i+1 elements
                        let p = &dense[..i + 1];
                        let scaled: Vec<Fr> = powers(*s, n).iter().enumerate()
                            .map(|(j, x)| if j <= i { p[j] * x } else { Fr::ZERO }).collect();
                        let e = dft(&scaled, root_of_unity(n));
                        if d.coset_fft_scalars(p.to_vec(), &c) != e {
                            return Err("coset_fft_scalars of a dense prefix".into());
                        }
                        let mut full = p.to_vec();
                        full.resize(n, Fr::ZERO);
                        ok(d.coset_ifft_scalars(e, &c) == full, "cosets", || "coset_ifft_scalars of a dense prefix".into())
                    });
                }
            }
        }
    });
    // domains beyond those the library uses: sparse inputs, whose transforms are sums of a few
    // geometric sequences
    let mut jobs = Vec::new();
    for log in maxlog + 1..=run.pick(18u32, 21) {
        let n = 1usize << log;
        let mut marks = vec![0, 1, 2, 3, n / 4, n / 2, n / 2 + 1, n - 2, n - 1, 65535, 65536, 65537, 65536 + 3, n / 3, 2 * (n / 3) + 1];
        marks.retain(|i| *i < n);
        marks.sort();
        marks.dedup();
        for i in marks {
            jobs.push((log, i));
        }
    }
    jobs.reverse();
    par_jobs(&run, &jobs, || (), |_, &(log, i)| {
        let n = 1usize << log;
        visit(&run, &format!("large/{n}/{i}"), || {
            let d = Domain::new(n);
            let w = root_of_unity(n);
            let (i2, h) = ((i * 5 + 7) % n, generic(53));
            let mut v = vec![Fr::ZERO; n];
            v[i] += g;
            v[i2] += h;
            let geo = |w: Fr, s: Fr| {
                let (mut a, mut b, r1, r2) = (g * s, h * s, pow(w, i as u64), pow(w, i2 as u64));
                (0..n).map(|_| { let x = a + b; a *= r1; b *= r2; x }).collect::<Vec<Fr>>()
            };
            let fwd = geo(w, Fr::ONE);
            if d.fft_scalars(v.clone()) != fwd {
                return Err("fft_scalars of two monomials".into());
            }
            if d.ifft_scalars(fwd) != v {
                return Err("ifft_scalars of its evaluations".into());
            }
            if d.ifft_scalars(v) != geo(inv(w), inv(Fr::from(n as u64))) {
                return Err("ifft_scalars of two unit vectors".into());
            }
            Ok("scalars")
        });
    });
    run.sample("large/262144/65536: two monomials on a domain of 2^18 points");
    // group transforms: logs are known, so the expected points are the scalar transforms times G
    let gp = G1Projective::generator();
    let glog = [Fr::ZERO, g, Fr::ONE, -Fr::ONE];
    let gpt: Vec<G1Projective> = glog.iter().map(|l| gp * l).collect();
    let same = |got: &[G1Projective], logs: &[Fr]| got.len() == logs.len() && got.iter().zip(logs).all(|(p, l)| *p == gp * l);
    for (log, k) in [(0u32, 4usize), (1, 4), (2, 4), (3, run.pick(2, 3))] {
        let n = 1usize << log;
        let (d, roots) = &doms[log as usize];
        let ninv = inv(Fr::from(n as u64));
        for len in 0..=n {
            par_jobs(&run, &chunks(k.pow(len as u32), 16), || (), |_, (a, b)| {
                for i in *a..*b {
                    let w = word(i, k, len);
                    visit(&run, &format!("g1word/{n}/{}", name(&w)), || {
                        let v: Vec<Fr> = w.iter().map(|x| glog[*x]).collect();
                        let p: Vec<G1Projective> = w.iter().map(|x| gpt[*x]).collect();
                        let f = evals(&v, roots, Fr::ONE);
                        let mut full = v.clone();
                        full.resize(n, Fr::ZERO);
                        let b: Vec<Fr> = dft(&full, inv(root_of_unity(n))).iter().map(|x| *x * ninv).collect();
                        if !same(&d.fft_g1(p.clone()), &f) {
                            return Err("fft_g1 is not the linear map".into());
                        }
                        if !same(&d.ifft_g1(p.clone()), &b) {
                            return Err("ifft_g1 is not the linear map".into());
                        }
                        for t in 0..n {
                            if !same(&d.ifft_g1_take_n(p.clone(), Some(t)), &b[..t]) {
                                return Err(format!("the first {t} of ifft_g1 are wrong"));
                            }
                        }
                        Ok("group")
                    });
                }
            });
        }
    }
    let mut jobs = Vec::new();
    for log in 3..=run.pick(6u32, 8) {
        for i in 0..1usize << log {
            jobs.push((log, i));
        }
    }
    par_jobs(&run, &jobs, || (), |_, &(log, i)| {
        let n = 1usize << log;
        let (d, roots) = &doms[log as usize];
        let ninv = inv(Fr::from(n as u64));
        visit(&run, &format!("g1unit/{n}/{i}"), || {
            let mut p = vec![G1Projective::identity(); i + 1];
            p[i] = gpt[1];
            let f: Vec<Fr> = (0..n).map(|j| g * roots[i * j % n]).collect();
            let b: Vec<Fr> = (0..n).map(|j| g * ninv * roots[(n - i * j % n) % n]).collect();
            if !same(&d.fft_g1(p.clone()), &f) || !same(&d.ifft_g1(p.clone()), &b) {
                return Err("transform of a unit vector".into());
            }
            if !same(&d.ifft_g1_take_n(p, Some(i)), &b[..i]) {
                return Err("truncated transform of a unit vector".into());
            }
            // dense with one identity
            let mut v = dense[..n].to_vec();
            v[i] = Fr::ZERO;
            let p: Vec<G1Projective> = v.iter().map(|l| gp * l).collect();
            let f = dft(&v, root_of_unity(n));
            let q = d.fft_g1(p);
            if !same(&q, &f) {
                return Err("transform of a dense vector".into());
            }
            ok(same(&d.ifft_g1(q), &v), "group", || "inverse transform of a dense vector".into())
        });
    });
    if run.thorough() {
        par_jobs(&run, &[9u32, 10, 11, 12, 13], || (), |_, &log| {
            visit(&run, &format!("g1dense/{log}"), || {
                let n = 1usize << log;
                let v = &dense[..n];
                let p: Vec<G1Projective> = v.iter().map(|l| gp * l).collect();
                let q = doms[log as usize].0.fft_g1(p);
                if !same(&q, &dfts[log as usize]) {
                    return Err("fft_g1 of a dense vector".into());
                }
                ok(same(&doms[log as usize].0.ifft_g1_take_n(q, Some(n / 2)), &v[..n / 2]), "group", || "ifft".into())
            });
        });
    }
    run.note("largest_domain", 1u64 << maxlog);
    run.finish(
        "A state is (domain, input vector, shift). All words over {0,g,1,-1} of every length on domains of 1 to 8 (16) points; on every \
         power of two to the bound every monomial, every single zero in a dense vector, and dense prefixes on 6 cosets; every requested \
         domain size to 520; group transforms on all words and unit vectors with every truncation. Oracle: evaluation by Horner's rule \
         at the powers of the specification's root of unity; for points, their known logs.",
        &[],
    )
}

fn trim(p: &[Fr]) -> &[Fr] {
    let n = p.iter().rposition(|c| *c != Fr::ZERO).map_or(0, |i| i + 1);
    &p[..n]
}
fn same_poly(a: &[Fr], b: &[Fr]) -> bool {
    trim(a) == trim(b)
}

pub fn c21() -> i32 {
    let run = Run::new("C21");
    let al = [Fr::ZERO, Fr::ONE, -Fr::ONE, generic(61)];
    // evaluation points: more of them than any enumerated degree, so agreement everywhere
    let xs: Vec<Fr> = (0..14).map(|i| Fr::from(i)).chain([-Fr::ONE, generic(62), root_of_unity(8)]).collect();
    let maxlen = run.pick(3usize, 4);
    let mut vecs: Vec<(String, Vec<Fr>)> = Vec::new();
    for n in 0..=maxlen {
        for i in 0..4usize.pow(n as u32) {
            let w = word(i, 4, n);
            vecs.push((format!("{}:{}", n, name(&w)), w.iter().map(|x| al[*x]).collect()));
        }
    }
    for n in [5usize, 8] {
        vecs.push((format!("{n}:dense"), (0..n).map(|i| generic(600 + i as u64)).collect()));
        vecs.push((format!("{n}:zeros"), vec![Fr::ZERO; n]));
        for i in 0..n {
            let mut v = vec![Fr::ZERO; n];
            v[i] = al[3];
            vecs.push((format!("{n}:unit{i}"), v));
        }
    }
    // single-argument laws
    for (nm, v) in &vecs {
        visit(&run, &format!("one/{nm}"), || {
            for x in &xs {
                // sum of c_i x^i from the definition
                let mut e = Fr::ZERO;
                for (i, c) in v.iter().enumerate() {
                    e += *c * pow(*x, i as u64);
                }
                if poly_eval(v, x) != e {
                    return Err("evaluation is not the sum of c_i x^i".into());
                }
                if eval(&poly_neg(v.clone()), *x) != -e {
                    return Err("negation".into());
                }
            }
            Ok("one")
        });
    }
    par_jobs(&run, &vecs, || (), |_, (an, a)| {
        for (bn, b) in &vecs {
            visit(&run, &format!("two/{an}/{bn}"), || {
                let (s, d, m) = (poly_add(a.clone(), b.clone()), poly_sub(a.clone(), b.clone()), poly_mul(a.clone(), b.clone()));
                for x in &xs {
                    let (ea, eb) = (eval(a, *x), eval(b, *x));
                    if eval(&s, *x) != ea + eb {
                        return Err("sum does not evaluate to the sum".into());
                    }
                    if eval(&d, *x) != ea - eb {
                        return Err("difference does not evaluate to the difference".into());
                    }
                    if eval(&m, *x) != ea * eb {
                        return Err("product does not evaluate to the product".into());
                    }
                }
                ok(s.len() <= a.len().max(b.len()) && d.len() <= a.len().max(b.len()) && m.len() <= a.len() + b.len(),
                    "two", || "a result is longer than its degree allows".into())
            });
        }
    });
    run.sample("two/3:013/2:31: coefficient vectors over {0,1,-1,g}");
    // lengths: every pair of lengths with dense coefficients
    let ml = run.pick(24usize, 48);
    let dense: Vec<Fr> = (0..300).map(|i| generic(6000 + i)).collect();
    par_jobs(&run, &(0..=ml).collect::<Vec<_>>(), || (), |_, &n| {
        for m in 0..=ml {
            visit(&run, &format!("len/{n}/{m}"), || {
                let (a, b) = (dense[..n].to_vec(), dense[100..100 + m].to_vec());
                let (s, d, p) = (poly_add(a.clone(), b.clone()), poly_sub(a.clone(), b.clone()), poly_mul(a.clone(), b.clone()));
                for i in 0..(n + m + 1) as u64 {
                    let x = Fr::from(i);
                    let (ea, eb) = (eval(&a, x), eval(&b, x));
                    if eval(&s, x) != ea + eb || eval(&d, x) != ea - eb || eval(&p, x) != ea * eb {
                        return Err(format!("disagrees with evaluation at {i}"));
                    }
                }
                Ok("two")
            });
        }
    });
    // long operands: every pair of lengths around the powers of two, dense and with runs of zeros;
    // the product is compared coefficient by coefficient with the convolution
    let mut marks = vec![1usize, 2, 3, 31, 32, 33, 47, 63, 64, 65, 66, 67, 95, 96, 127, 128, 129, 130, 131, 191, 200, 255, 256, 257];
    marks.extend(run.pick(vec![300, 511, 512, 513, 1025], vec![300, 383, 384, 511, 512, 513, 515, 700, 1000, 1023, 1024, 1025, 2049, 4097]));
    let top = *marks.last().unwrap();
    let long: Vec<Fr> = (0..2 * top).map(|i| generic(90000 + i as u64)).collect();
    let conv = |a: &[Fr], b: &[Fr]| {
        let mut r = vec![Fr::ZERO; (a.len() + b.len()).saturating_sub(1)];
        for (i, x) in a.iter().enumerate() {
            if *x != Fr::ZERO {
                for (j, y) in b.iter().enumerate() {
                    r[i + j] += *x * y;
                }
            }
        }
        r
    };
    let shape = |v: &mut [Fr], k: usize| {
        let n = v.len();
        for (i, x) in v.iter_mut().enumerate() {
            let zero = match k {
                0 => false,
                1 => i < n / 2,
                2 => i >= n / 2,
                3 => i % 2 == 1,
                4 => i / 16 % 2 == 1,
                5 => i != n - 1,
                6 => i != n / 2,
                _ => i == 0 || i == n - 1,
            };
            if zero {
                *x = Fr::ZERO;
            }
        }
    };
    let mut jobs = Vec::new();
    for n in &marks {
        for m in &marks {
            jobs.push((*n, *m));
        }
    }
    jobs.sort_by_key(|(n, m)| std::cmp::Reverse(n * m));
    par_jobs(&run, &jobs, || (), |_, &(n, m)| {
        let shapes: &[(usize, usize)] = match n * m {
            0..=70_000 => &[(0, 0), (0, 1), (0, 2), (1, 0), (2, 0), (1, 2), (2, 1), (3, 3), (3, 0), (4, 4), (4, 0), (5, 5), (0, 5), (5, 0), (6, 6), (6, 0), (7, 7), (7, 0), (2, 2), (1, 1)],
            70_001..=300_000 => &[(0, 0), (1, 0), (0, 2), (4, 4), (7, 7), (5, 0)],
            _ => &[(0, 0), (7, 4)],
        };
        for &(x, y) in shapes {
            visit(&run, &format!("long/{n}/{m}/{x}{y}"), || {
                let (mut a, mut b) = (long[..n].to_vec(), long[top..top + m].to_vec());
                shape(&mut a, x);
                shape(&mut b, y);
                let at = |v: &[Fr], i: usize| v.get(i).copied().unwrap_or(Fr::ZERO);
                let l = n.max(m);
                if !same_poly(&poly_add(a.clone(), b.clone()), &(0..l).map(|i| at(&a, i) + at(&b, i)).collect::<Vec<_>>()) {
                    return Err("sum".into());
                }
                if !same_poly(&poly_sub(a.clone(), b.clone()), &(0..l).map(|i| at(&a, i) - at(&b, i)).collect::<Vec<_>>()) {
                    return Err("difference".into());
                }
                if !same_poly(&poly_neg(a.clone()), &a.iter().map(|c| -*c).collect::<Vec<_>>()) {
                    return Err("negation".into());
                }
                let x = generic(97);
                if poly_eval(&a, &x) != eval(&a, x) {
                    return Err("evaluation".into());
                }
                ok(same_poly(&poly_mul(a.clone(), b.clone()), &conv(&a, &b)), "two", || "product is not the convolution".into())
            });
        }
    });
    run.sample("long/513/64/44: operands of 513 and 64 coefficients with alternating runs of 16 zeros");
    // vanishing polynomials: all lists (with repetitions) over 5 elements, then every length
    let rs = [Fr::ZERO, Fr::ONE, -Fr::ONE, generic(63), root_of_unity(4)];
    let probe: Vec<Fr> = rs.iter().copied().chain([Fr::from(5), generic(64), -generic(63)]).collect();
    let vanish = |roots: &[Fr], probe: &[Fr]| -> Result<&'static str, String> {
        let z = vanishing_poly(roots);
        if z.len() != roots.len() + 1 || *z.last().unwrap() != Fr::ONE {
            return Err("not monic of the list's length".into());
        }
        for x in probe {
            let want = roots.iter().fold(Fr::ONE, |p, r| p * (*x - r));
            if eval(&z, *x) != want {
                return Err("does not equal the product of (x - root)".into());
            }
        }
        Ok("vanishing")
    };
    for n in 0..=run.pick(5usize, 7) {
        par_jobs(&run, &chunks(5usize.pow(n as u32), 256), || (), |_, (a, b)| {
            for i in *a..*b {
                let w = word(i, 5, n);
                visit(&run, &format!("vanish/{}", name(&w)), || vanish(&w.iter().map(|x| rs[*x]).collect::<Vec<_>>(), &probe));
            }
        });
    }
    par_jobs(&run, &(0..=run.pick(130usize, 260)).collect::<Vec<_>>(), || (), |_, &n| {
        visit(&run, &format!("vanishlen/{n}/units"), || {
            let w = root_of_unity(512);
            let roots = powers(w, n);
            let mut p = powers(w, n + 2);
            p.push(generic(9));
            vanish(&roots, &p)
        });
        visit(&run, &format!("vanishlen/{n}/generic"), || vanish(&dense[..n], &dense[..n + 2]));
    });
    // interpolation: all point sets over 6 abscissae (every order of up to 4), all values over the alphabet
    let ab: Vec<Fr> = [0u64, 1, 2].iter().map(|x| Fr::from(*x)).chain([-Fr::ONE, generic(65), root_of_unity(8)]).collect();
    for n in 2..=run.pick(4usize, 5) {
        let mut tuples: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            tuples = tuples
                .into_iter()
                .flat_map(|t| (0..ab.len()).filter(|x| !t.contains(x)).map(|x| [t.clone(), vec![x]].concat()).collect::<Vec<_>>())
                .collect();
        }
        par_jobs(&run, &tuples, || (), |_, t| {
            for i in 0..4usize.pow(n as u32) {
                let w = word(i, 4, n);
                visit(&run, &format!("interp/{}/{}", name(t), name(&w)), || {
                    let pts: Vec<(Fr, Fr)> = t.iter().zip(&w).map(|(x, y)| (ab[*x], al[*y])).collect();
                    let p = lagrange_interpolate(&pts).ok_or("no polynomial")?;
                    if trim(&p).len() > n {
                        return Err("degree too large".into());
                    }
                    ok(pts.iter().all(|(x, y)| eval(&p, *x) == *y), "interpolation", || "misses a point".into())
                });
            }
        });
    }
    par_jobs(&run, &(2..=run.pick(40usize, 90)).collect::<Vec<_>>(), || (), |_, &n| {
        visit(&run, &format!("interplen/{n}"), || {
            let pts: Vec<(Fr, Fr)> = (0..n).map(|i| (dense[i], dense[299 - i])).collect();
            let p = lagrange_interpolate(&pts).ok_or("no polynomial")?;
            ok(trim(&p).len() <= n && pts.iter().all(|(x, y)| eval(&p, *x) == *y), "interpolation", || "wrong".into())
        });
        visit(&run, &format!("interpknown/{n}"), || {
            // through the values of a polynomial of every lower degree: returns that polynomial
            for d in 1..=n {
                let pts: Vec<(Fr, Fr)> = (0..n).map(|i| (dense[i], eval(&dense[100..100 + d], dense[i]))).collect();
                let p = lagrange_interpolate(&pts).ok_or("no polynomial")?;
                if !same_poly(&p, &dense[100..100 + d]) {
                    return Err(format!("not the polynomial of {d} coefficients"));
                }
            }
            Ok("interpolation")
        });
    });
    run.finish(
        "A state is the argument tuple of one operation. All coefficient vectors over {0,1,-1,g} to the length bound, all pairs of them, \
         every pair of lengths with dense coefficients, every pair of 29 lengths to 1025 with runs of zeros, all root lists over 5 elements to length 5, every ordered set of abscissae with all \
         values over the alphabet. Oracle: evaluation at more points than the degree, from the definition.",
        &["interpolation through two or more distinct points (the documented precondition)"],
    )
}
