use crate::sys::*;

/// Setups given as text: every way to spoil one or two points, and every secret.
pub fn c24(run: &Run) {
    for name in run.pick(vec!["2x1", "4x2", "8x4", "4x1", "16x2"], vec!["2x1", "4x2", "8x4", "4x1", "8x2", "16x4", "32x16"]) {
        let sh = shape(name);
        let (mono, lag, g2) = sh.m.setup_points();
        let lag: Vec<String> = lag.iter().map(|p| hex(&p.to_compressed())).collect();
        // ways to spoil a point of either group, as encodings; a false one is a valid point
        let spoil1 = |p: &G1Affine| -> Vec<(String, String, bool)> {
            let b = p.to_compressed();
            let mut v: Vec<(String, Vec<u8>, bool)> = vec![];
            for (n, t) in torsion_g1() {
                for s in [t, -t] {
                    v.push((format!("+{n}"), (s + p).to_affine().to_compressed().to_vec(), true));
                }
                v.push((n.to_string(), t.to_affine().to_compressed().to_vec(), true));
            }
            for (n, f) in [("flag0", 0x80u8), ("flag1", 0x40)] {
                let mut x = b;
                x[0] ^= f;
                v.push((n.into(), x.to_vec(), !point_ok(&x)));
            }
            let mut x = [0u8; 48];
            x[0] = 0x80;
            x[47] = 1;
            v.push(("off the curve".into(), x.to_vec(), !point_ok(&x)));
            v.push(("short".into(), b[..47].to_vec(), true));
            v.push(("long".into(), b.iter().copied().chain([0]).collect(), true));
            v.push(("empty".into(), vec![], true));
            v.into_iter().map(|(n, b, e)| (n, hex(&b), e)).collect()
        };
        let spoil2 = |p: &G2Affine| -> Vec<(String, String, bool)> {
            let b = p.to_compressed();
            let mut v: Vec<(String, Vec<u8>, bool)> = vec![];
            for (n, t) in torsion_g2() {
                for s in [t, -t] {
                    v.push((format!("+{n}"), (s + p).to_affine().to_compressed().to_vec(), true));
                }
                v.push((n.to_string(), t.to_affine().to_compressed().to_vec(), true));
            }
            let mut x = b;
            x[0] ^= 0x80;
            v.push(("flag0".into(), x.to_vec(), true));
            v.push(("short".into(), b[..95].to_vec(), true));
            v.push(("empty".into(), vec![], true));
            v.into_iter().map(|(n, b, e)| (n, hex(&b), e)).collect()
        };
        let m1: Vec<String> = mono.iter().map(|p| hex(&p.to_compressed())).collect();
        let m2: Vec<String> = g2.iter().map(|p| hex(&p.to_compressed())).collect();
        // (list, position, replacement)
        let mut edits: Vec<(usize, usize, String, String, bool)> = vec![];
        for (i, p) in mono.iter().enumerate() {
            edits.extend(spoil1(p).into_iter().map(|(n, t, b)| (0, i, n, t, b)));
        }
        for (i, p) in g2.iter().enumerate() {
            edits.extend(spoil2(p).into_iter().map(|(n, t, b)| (2, i, n, t, b)));
        }
        let mut jobs: Vec<Vec<usize>> = (0..edits.len()).map(|i| vec![i]).collect();
        for i in 0..edits.len() {
            for j in i + 1..edits.len() {
                if (edits[i].0, edits[i].1) != (edits[j].0, edits[j].1) && (run.thorough() || sh.m.n <= 4 || (edits[i].2.contains("order") && edits[j].2.contains("order"))) {
                    jobs.push(vec![i, j]);
                }
            }
        }
        par_jobs(run, &jobs, || (), |_, j| {
            let (mut a, mut b) = (m1.clone(), m2.clone());
            let mut bad = false;
            let mut case = format!("small:{name}");
            for e in j {
                let (l, p, n, t, x) = &edits[*e];
                (if *l == 0 { &mut a } else { &mut b })[*p] = t.clone();
                bad |= x;
                case.push_str(&format!(":{}{p}{n}", if *l == 0 { "m" } else { "g" }).replace(' ', "_"));
            }
            if !run.wants(&case) {
                return;
            }
            run.transition();
            run.state(&case);
            let text = json_of(&a, &lag, &b);
            let got = guard(|| make(name, &text, true, 1, None));
            run.expect(got.is_err() == bad, &case, || format!("loaded: {}, bad: {bad}", got.is_ok()));
            run.validated(if bad { "tiny instance: refused" } else { "tiny instance: loaded" });
        });
        run.note(&format!("tiny instance {name}: spoiled texts"), jobs.len());
        // every small secret, and the checked way to load: the context does what the points dictate
        let mut secrets: Vec<(String, Fr)> = (2u64..run.pick(20, 200)).map(|t| (t.to_string(), Fr::from(t))).collect();
        secrets.push(("-2".into(), -Fr::from(2)));
        secrets.push(("half".into(), inv(Fr::from(2))));
        par_jobs(run, &secrets, || (), |_, (t, tau)| {
            let case = format!("small:{name}:secret:{t}");
            // the secret is not one of the evaluation points (a ceremony's never is)
            if !run.wants(&case) || pow(*tau, 2 * sh.m.n as u64) == Fr::ONE {
                return;
            }
            run.transition();
            run.state(&case);
            let m = Model::new(sh.m.n, sh.m.m, sh.m.l, *tau);
            let json = setup_json(&m);
            let s = Shape::of(name, m, json);
            for checked in [false, true] {
                let ctx = match guard(|| make(name, &s.json, checked, 1, None)) {
                    Ok(c) => c,
                    Err(p) => {
                        run.fail(&case, format!("not loaded: {p}"));
                        return;
                    }
                };
                for (n, o) in crate::hist::operations(&s) {
                    if let Some(d) = o.run(&*ctx) {
                        run.fail(&case, format!("{n}: {d}"));
                    }
                }
            }
            run.validated("tiny instance: as the points dictate");
        });
    }
}
