//! C24: the embedded setup's consistency, point by point; loading of setup texts.
use crate::util::*;

struct Text {
    mono: Vec<String>,
    lag: Vec<String>,
    g2: Vec<String>,
}
impl Text {
    fn of(s: &TrustedSetup) -> Text {
        Text { mono: s.g1_monomial.clone(), lag: s.g1_lagrange.clone(), g2: s.g2_monomial.clone() }
    }
    fn json(&self) -> String {
        let l = |v: &[String]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        format!("{{\"g1_monomial\":{},\"g1_lagrange\":{},\"g2_monomial\":{}}}", l(&self.mono), l(&self.lag), l(&self.g2))
    }
}
fn par<T: Send, F: Fn(usize) -> T + Sync>(n: usize, f: F) -> Vec<T> {
    let k = ncpu();
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    std::thread::scope(|s| {
        let c = n.div_ceil(k).max(1);
        for (i, ch) in out.chunks_mut(c).enumerate() {
            let f = &f;
            s.spawn(move || {
                for (j, o) in ch.iter_mut().enumerate() {
                    *o = Some(f(i * c + j));
                }
            });
        }
    });
    out.into_iter().map(|x| x.unwrap()).collect()
}
fn dec1(s: &str) -> Option<G1Affine> {
    let b: [u8; 48] = unhex(s).try_into().ok()?;
    Option::from(G1Affine::from_compressed(&b))
}
fn dec2(s: &str) -> Option<G2Affine> {
    let b: [u8; 96] = unhex(s).try_into().ok()?;
    Option::from(G2Affine::from_compressed(&b))
}
/// group DFT on 2^k points, halves in parallel near the root
fn gdft(a: &[G1Projective], w: Fr, depth: u32) -> Vec<G1Projective> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let ev: Vec<_> = a.iter().step_by(2).copied().collect();
    let od: Vec<_> = a.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = if depth < 4 {
        std::thread::scope(|s| {
            let h = s.spawn(|| gdft(&ev, w * w, depth + 1));
            let o = gdft(&od, w * w, depth + 1);
            (h.join().unwrap(), o)
        })
    } else {
        (gdft(&ev, w * w, depth + 1), gdft(&od, w * w, depth + 1))
    };
    let ts = {
        let f = |i: usize| o[i] * pow(w, i as u64);
        if depth < 3 && n > 64 { par(n / 2, f) } else { (0..n / 2).map(f).collect() }
    };
    let mut out = vec![G1Projective::identity(); n];
    for i in 0..n / 2 {
        out[i] = e[i] + ts[i];
        out[i + n / 2] = e[i] - ts[i];
    }
    out
}

/// a point on the curve outside the prime-order group, and x without a point, compressed
fn bad_g1() -> Vec<(&'static str, String)> {
    let enc = point_encodings();
    let uncompressed_ok = |b: &[u8; 48]| bool::from(G1Affine::from_compressed_unchecked(b).is_some());
    let sub = enc.iter().find(|(n, b, ok)| !ok && n.starts_with('x') && n.ends_with("flags4") && uncompressed_ok(b)).unwrap();
    let off = enc.iter().find(|(n, b, ok)| !ok && n.starts_with('x') && n.ends_with("flags4") && !uncompressed_ok(b)).unwrap();
    let get = |n: &str| enc.iter().find(|e| e.0 == n).unwrap();
    let h = |b: &[u8]| format!("0x{}", hex(b));
    let v = vec![
        ("outside the prime-order group", h(&sub.1)),
        ("not on the curve", h(&off.1)),
        ("no compression flag", h(&get("gen/flags0").1)),
        ("coordinate equal to the modulus", h(&get("p/flags4").1)),
        ("all ones", h(&get("ones/flags7").1)),
        ("identity flag with coordinate", h(&get("gen/flags6").1)),
        ("47 bytes", h(&get("gen/flags4").1[..47])),
        ("49 bytes", h(&[&get("gen/flags4").1[..], &[0]].concat())),
        ("empty", "".into()),
        ("only 0x", "0x".into()),
        ("no 0x", hex(&get("gen/flags4").1)),
        ("not hex", format!("0xzz{}", hex(&get("gen/flags4").1[1..]))),
        ("odd length", format!("0x{}", &hex(&get("gen/flags4").1)[1..])),
        ("uncompressed", h(&G1Affine::generator().to_uncompressed())),
    ];
    for (n, s) in &v[..6] {
        assert!(dec1(s).is_none(), "{n} is a good point");
    }
    v
}
fn bad_g2() -> Vec<(&'static str, String)> {
    // x = (0, k): look for off-curve and off-group ones
    let mut sub = None;
    let mut off = None;
    for k in 0..200u8 {
        let mut b = [0u8; 96];
        b[0] = 0x80;
        b[95] = k;
        let on = bool::from(G2Affine::from_compressed_unchecked(&b).is_some());
        let good = bool::from(G2Affine::from_compressed(&b).is_some());
        if on && !good && sub.is_none() {
            sub = Some(b);
        }
        if !on && off.is_none() {
            off = Some(b);
        }
    }
    let g = G2Affine::generator().to_compressed();
    let h = |b: &[u8]| format!("0x{}", hex(b));
    let mut nof = g;
    nof[0] &= 0x7f;
    let mut idf = g;
    idf[0] |= 0x40;
    vec![
        ("outside the prime-order group", h(&sub.unwrap())),
        ("not on the curve", h(&off.unwrap())),
        ("no compression flag", h(&nof)),
        ("identity flag with coordinate", h(&idf)),
        ("all ones", h(&[0xff; 96])),
        ("95 bytes", h(&g[..95])),
        ("97 bytes", h(&[&g[..], &[0]].concat())),
        ("48 bytes", h(&g[..48])),
        ("empty", "".into()),
        ("no 0x", hex(&g)),
        ("not hex", format!("0xzz{}", hex(&g[1..]))),
    ]
}

pub fn c24() -> i32 {
    let run = Run::new("C24");
    // (1) the embedded setup
    let s = TrustedSetup::default();
    let ok = |case: &str, good: bool, what: &str| {
        run.transition();
        if run.wants(case) {
            run.state(case);
            run.validated("embedded setup consistent");
            run.expect(good, case, || what.into());
        }
    };
    ok("embed:lengths", s.g1_monomial.len() == 4096 && s.g1_lagrange.len() == 4096 && s.g2_monomial.len() == 65, "wrong number of points");
    let mono: Vec<Option<G1Affine>> = par(s.g1_monomial.len(), |i| dec1(&s.g1_monomial[i]));
    let lag: Vec<Option<G1Affine>> = par(s.g1_lagrange.len(), |i| dec1(&s.g1_lagrange[i]));
    let g2: Vec<Option<G2Affine>> = par(s.g2_monomial.len(), |i| dec2(&s.g2_monomial[i]));
    for (n, v) in [("g1_monomial", mono.iter().map(|x| x.is_some()).collect::<Vec<_>>()), ("g1_lagrange", lag.iter().map(|x| x.is_some()).collect()), ("g2_monomial", g2.iter().map(|x| x.is_some()).collect())] {
        for (i, good) in v.iter().enumerate() {
            ok(&format!("embed:{n}[{i}]"), *good, "not the canonical encoding of a point of the prime-order group");
        }
    }
    if !run.broken() {
        let mono: Vec<G1Affine> = mono.into_iter().flatten().collect();
        let lag: Vec<G1Affine> = lag.into_iter().flatten().collect();
        let g2: Vec<G2Affine> = g2.into_iter().flatten().collect();
        ok("embed:g1[0]", mono[0] == G1Affine::generator(), "not the generator");
        ok("embed:g2[0]", g2[0] == G2Affine::generator(), "not the generator");
        // which secret: the one of the public ceremony
        ok(
            "embed:tauG1",
            hex(&mono[1].to_compressed()) == "ad3eb50121139aa34db1d545093ac9374ab7bca2c0f3bf28e27c8dcd8fc7cb42d25926fc0c97b336e9f0fb35e5a04c81",
            "not the public ceremony's tau*G1",
        );
        ok("embed:tauG2", pairing(&mono[1], &g2[0]) == pairing(&mono[0], &g2[1]), "tau differs between the groups");
        let good = par(mono.len() - 1, |i| pairing(&mono[i + 1], &g2[0]) == pairing(&mono[i], &g2[1]));
        for (i, g) in good.iter().enumerate() {
            ok(&format!("embed:g1_monomial[{}]=tau*[{i}]", i + 1), *g, "not the next power of tau");
        }
        let good = par(g2.len() - 1, |i| pairing(&mono[0], &g2[i + 1]) == pairing(&mono[1], &g2[i]));
        for (i, g) in good.iter().enumerate() {
            ok(&format!("embed:g2_monomial[{}]=tau*[{i}]", i + 1), *g, "not the next power of tau");
        }
        let m: Vec<G1Projective> = mono.iter().map(|p| p.into()).collect();
        let n = m.len();
        let d = gdft(&m, inv(root_of_unity(n)), 0);
        let ninv = inv(Fr::from(n as u64));
        let good = par(n, |i| (d[i] * ninv).to_affine() == lag[i]);
        for (i, g) in good.iter().enumerate() {
            ok(&format!("embed:g1_lagrange[{i}]"), *g, "not the Lagrange point of the powers");
        }
    }
    // (2) good texts give contexts that behave as their points dictate
    let model = Model::eip7594();
    let text = setup_json(&model);
    let synth = TrustedSetup::from_json_unchecked(&text);
    let behave = |case: &str, setup: &TrustedSetup, m: &Model| {
        run.transition();
        if !run.wants(case) {
            return;
        }
        run.state(case);
        run.validated("context behaves as its setup's points dictate");
        let ctx = make_ctx(setup, 8, None);
        for name in ["gen:1", "mono:4095", "const:3", "const:0"] {
            let r = Row::new(m, name, named_blob(m, name));
            let mut bad = vec![];
            if commit(&ctx, &r.blob_bytes) != Ok(Ok(r.commit_bytes)) {
                bad.push("commitment".to_string());
            }
            match compute(&ctx, &r.blob_bytes) {
                Ok(Ok((c, p))) => {
                    if let Some(d) = diff_cells(&c, &r.cell_bytes).or_else(|| diff_proofs(&p, &r.proof_bytes)) {
                        bad.push(d);
                    }
                }
                _ => bad.push("no cells".into()),
            }
            let q = Req { commits: vec![r.commit_bytes; 3], idx: vec![0, 64, 127], cells: [0, 64, 127].map(|k| r.cell_bytes[k].clone()).to_vec(), proofs: [0, 64, 127].map(|k| r.proof_bytes[k]).to_vec() };
            if verify(&ctx, &q) != Verdict::Accept {
                bad.push("honest items refused".into());
            }
            let mut q2 = q;
            q2.cells[2] = r.cell_bytes[1].clone();
            q2.cells[2][40] ^= 1;
            if verify(&ctx, &q2) != Verdict::InvalidProof {
                bad.push("false item not rejected".into());
            }
            if !bad.is_empty() {
                run.fail(case, format!("{name}: {}", bad.join("; ")));
            }
        }
    };
    behave("load:unchecked", &synth, &model);
    let load = |t: &str| guard(|| TrustedSetup::from_json(t));
    match load(&text) {
        Ok(s) => {
            run.expect(s == synth, "load:checked", || "checked and unchecked loading differ".into());
            behave("load:checked", &s, &model)
        }
        Err(e) => run.fail("load:checked", format!("a good setup is refused: {e}")),
    }
    for k in 1..=run.pick(1u64, 4) {
        let m2 = Model::new(N_BLOB, N_EXT, N_CELL, generic(900 + k));
        match load(&setup_json(&m2)) {
            Ok(s) => behave(&format!("load:tau{k}"), &s, &m2),
            Err(e) => run.fail(&format!("load:tau{k}"), format!("a good setup is refused: {e}")),
        }
    }
    match load(&Text::of(&TrustedSetup::default()).json()) {
        Ok(s2) => ok("load:public", s2 == s, "the public setup is not loaded as it is"),
        Err(e) => ok("load:public", false, &e),
    }
    // fields in another order and white space
    {
        let t = Text::of(&synth);
        let l = |v: &[String]| format!("[ {} ]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(" ,\n "));
        let j = format!("{{\n \"g2_monomial\" : {},\n\"g1_lagrange\":{},\"g1_monomial\":{} }}\n", l(&t.g2), l(&t.lag), l(&t.mono));
        match load(&j) {
            Ok(s2) => ok("load:spaced", s2 == synth, "white space or field order changes the setup"),
            Err(e) => ok("load:spaced", false, &e),
        }
    }
    // (3) one bad entry
    let base = Text::of(&synth);
    let (b1, b2) = (bad_g1(), bad_g2());
    enum E {
        G1(usize, usize),
        G2(usize, usize),
    }
    let mut jobs = vec![];
    let stride = run.pick(60, 1);
    for p in positions(4096, stride).into_iter().chain(0..run.pick(66, 4096)).collect::<std::collections::BTreeSet<_>>() {
        for k in 0..b1.len() {
            // every kind at the ends and around the verification key's part, the two subtlest elsewhere
            let every = [0, 1, 63, 64, 65, 2048, 4094, 4095].contains(&p);
            if every || k == 0 || (run.thorough() && k < 2) {
                jobs.push(E::G1(p, k));
            }
        }
    }
    for p in 0..65 {
        for k in 0..b2.len() {
            if [0, 1, 32, 63, 64].contains(&p) || k == 0 || run.thorough() {
                jobs.push(E::G2(p, k));
            }
        }
    }
    run.note("bad_entries", jobs.len());
    par_jobs(&run, &jobs, || (), |_, e| {
        run.transition();
        let (case, t, what) = match e {
            E::G1(p, k) => {
                let mut m = base.mono.clone();
                m[*p] = b1[*k].1.clone();
                (format!("bad:g1[{p}]:{}", b1[*k].0), Text { mono: m, lag: base.lag.clone(), g2: base.g2.clone() }, b1[*k].0)
            }
            E::G2(p, k) => {
                let mut m = base.g2.clone();
                m[*p] = b2[*k].1.clone();
                (format!("bad:g2[{p}]:{}", b2[*k].0), Text { mono: base.mono.clone(), lag: base.lag.clone(), g2: m }, b2[*k].0)
            }
        };
        let case = case.replace(' ', "_");
        if !run.wants(&case) {
            return;
        }
        run.state(case.as_str());
        run.validated("bad setup refused");
        if load(&t.json()).is_ok() {
            run.fail(&case, format!("checked loading accepts a setup with an entry that is {what}"));
        }
    });
    // (3b) two bad entries whose defects cancel: P+T and Q-T, T outside the prime-order group
    enum Pair {
        G1(usize, usize, usize),
        G2(usize, usize, usize),
    }
    let (t1, t2) = (torsion_g1(), torsion_g2());
    let mut jobs = vec![];
    let marks = run.pick(vec![0usize, 1, 63, 64, 65, 2048, 4095], vec![0, 1, 2, 31, 32, 63, 64, 65, 66, 127, 128, 1023, 2047, 2048, 4094, 4095]);
    for (x, i) in marks.iter().enumerate() {
        for j in &marks[x + 1..] {
            for t in 0..t1.len() {
                jobs.push(Pair::G1(*i, *j, t));
            }
        }
    }
    let marks = run.pick(vec![0usize, 1, 2, 31, 32, 63, 64], (0..65).collect());
    for (x, i) in marks.iter().enumerate() {
        for j in &marks[x + 1..] {
            for t in 0..t2.len() {
                jobs.push(Pair::G2(*i, *j, t));
            }
        }
    }
    run.note("cancelling_pairs", jobs.len());
    par_jobs(&run, &jobs, || (), |_, e| {
        run.transition();
        let (mut mono, mut g2) = (base.mono.clone(), base.g2.clone());
        let case = match e {
            Pair::G1(i, j, t) => {
                for (p, d) in [(*i, t1[*t].1), (*j, -t1[*t].1)] {
                    let q = (G1Projective::from(dec1(&mono[p]).unwrap()) + d).to_affine();
                    mono[p] = format!("0x{}", hex(&q.to_compressed()));
                    assert!(dec1(&mono[p]).is_none(), "model bug");
                }
                format!("cancel:g1[{i}],[{j}]:{}", t1[*t].0)
            }
            Pair::G2(i, j, t) => {
                for (p, d) in [(*i, t2[*t].1), (*j, -t2[*t].1)] {
                    let q = (G2Projective::from(dec2(&g2[p]).unwrap()) + d).to_affine();
                    g2[p] = format!("0x{}", hex(&q.to_compressed()));
                    assert!(dec2(&g2[p]).is_none(), "model bug");
                }
                format!("cancel:g2[{i}],[{j}]:{}", t2[*t].0)
            }
        };
        if !run.wants(&case) {
            return;
        }
        run.state(case.as_str());
        run.validated("bad setup refused");
        if load(&Text { mono, lag: base.lag.clone(), g2 }.json()).is_ok() {
            run.fail(&case, "checked loading accepts two points outside the prime-order group whose defects cancel".to_string());
        }
    });
    // (4) malformed texts
    let t = base.json();
    let mut texts: Vec<(String, String)> = vec![("empty".into(), "".into()), ("not-json".into(), "hello".into()), ("null".into(), "null".into()), ("list".into(), "[]".into()), ("object".into(), "{}".into()), ("number".into(), "7".into())];
    for f in ["g1_monomial", "g1_lagrange", "g2_monomial"] {
        texts.push((format!("missing:{f}"), t.replace(f, "other")));
        for (n, v) in [("null", "null"), ("string", "\"0x00\""), ("number", "1"), ("object", "{}")] {
            let a = t.find(&format!("\"{f}\":[")).unwrap() + f.len() + 3;
            let b = a + t[a..].find(']').unwrap() + 1;
            texts.push((format!("{n}:{f}"), format!("{}{v}{}", &t[..a], &t[b..])));
        }
        texts.push((format!("numbers:{f}"), {
            let a = t.find(&format!("\"{f}\":[")).unwrap() + f.len() + 4;
            format!("{}1,{}", &t[..a], &t[a..])
        }));
        texts.push((format!("null-entry:{f}"), {
            let a = t.find(&format!("\"{f}\":[")).unwrap() + f.len() + 4;
            format!("{}null,{}", &t[..a], &t[a..])
        }));
    }
    for cut in run.pick(vec![1, 2, t.len() / 2, t.len() - 2, t.len() - 1], positions(t.len(), 20000)) {
        texts.push((format!("cut:{cut}"), t[..cut].to_string()));
    }
    texts.push(("trailing".into(), format!("{t}x")));
    par_jobs(&run, &texts, || (), |_, (n, t)| {
        let case = format!("text:{n}");
        run.transition();
        if !run.wants(&case) {
            return;
        }
        run.state(case.as_str());
        run.validated("malformed text refused");
        run.expect(load(t).is_err(), &case, || "checked loading accepts a malformed text".into());
        run.expect(guard(|| TrustedSetup::from_json_unchecked(t)).is_err(), &case, || "unchecked loading accepts a malformed text".into());
    });
    run.sample("embed:g1_monomial[4095]=tau*[4094]");
    run.sample("bad:g1[2048]:outside the prime-order group");
    run.sample("bad:g2[64]:identity flag with coordinate");
    #[cfg(feature = "small")]
    mc_small::c24(&run);
    run.finish(
        "states are setups: the embedded one, each of its points a transition (group membership, the next power by a pairing, the Lagrange form by an independent group transform); synthetic ones with known tau, whose contexts are compared with the model; and each text reached from a good one by one bad entry at each enumerated position and of each kind, or by one change of structure, all of which checked loading must refuse",
        &["blst's decoding, subgroup test and pairing are right"],
    )
}
