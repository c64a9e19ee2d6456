//! C13: every configuration of one build flavour on one workload, all against the model.
use crate::util::*;

fn workload(run: &Run, w: &World, ctx: &DASContext, cfg: &str, small: bool) {
    let names: Vec<&str> = if run.thorough() {
        vec!["gen:1", "const:0", "mono:65", "const:-1", "deg:130:2", "cells:8000000000000001:3", "const:0+4095=1", "ramp"]
    } else if small {
        vec!["gen:1", "const:0"]
    } else {
        vec!["gen:1", "const:0", "mono:65", "const:-1"]
    };
    let rows: Vec<_> = names.iter().map(|n| w.row(n)).collect();
    let say = |op: &str, ok: bool, detail: String| {
        let case = format!("{FLAVOUR}/{cfg}/{op}").replace(' ', "_");
        run.transition();
        run.state(case.as_str());
        run.case(&case);
        run.validated("as the model says, in this configuration");
        run.expect(ok, &case, || detail);
    };
    for r in &rows {
        let n = &r.name;
        let g = commit(ctx, &r.blob_bytes);
        say(&format!("commit:{n}"), g == Ok(Ok(r.commit_bytes)), format!("{g:?}"));
        match compute(ctx, &r.blob_bytes) {
            Ok(Ok((c, p))) => {
                let d = diff_cells(&c, &r.cell_bytes).or_else(|| diff_proofs(&p, &r.proof_bytes));
                say(&format!("compute:{n}"), d.is_none(), d.unwrap_or_default());
            }
            o => say(&format!("compute:{n}"), false, format!("{:?}", o.map(|x| x.is_ok()))),
        }
    }
    let r = &rows[0];
    for (lab, set) in [("high", (64..128).collect::<Vec<usize>>()), ("odd", (0..128).step_by(2).chain([1, 3, 5]).collect())] {
        let idx: Vec<u64> = set.iter().map(|i| *i as u64).collect();
        let cells: Vec<&[u8; 2048]> = set.iter().map(|i| &*r.cell_bytes[*i]).collect();
        match recover(ctx, &idx, &cells) {
            Ok(Ok((c, p))) => {
                let d = diff_cells(&c, &r.cell_bytes).or_else(|| diff_proofs(&p, &r.proof_bytes));
                say(&format!("recover:{lab}"), d.is_none(), d.unwrap_or_default());
            }
            o => say(&format!("recover:{lab}"), false, format!("{:?}", o.map(|x| x.is_ok()))),
        }
        if small && !run.thorough() {
            break;
        }
    }
    let idx: Vec<u64> = (0..65).collect();
    let mut cells: Vec<&[u8; 2048]> = (0..65).map(|i| &*r.cell_bytes[i]).collect();
    cells[3] = &r.cell_bytes[4];
    say("recover:inconsistent", matches!(recover(ctx, &idx, &cells), Ok(Err(()))), "inconsistent cells not refused".into());
    say("recover:few", matches!(recover(ctx, &idx[..63], &cells[..63]), Ok(Err(()))), "63 cells not refused".into());
    let mut bad = r.blob_bytes.clone();
    bad[32 * 4095..].copy_from_slice(&R_BE);
    say("commit:bad", commit(ctx, &bad) == Ok(Err(())), "bad blob not refused".into());
    say("compute:bad", matches!(compute(ctx, &bad), Ok(Err(()))), "bad blob not refused".into());
    let sizes = [0usize, 1, 2, 7, 64, 128, 130, 257];
    for n in sizes {
        let items: Vec<(usize, usize)> = (0..n).map(|i| (i % rows.len(), (i * 5 + i / 128) % 128)).collect();
        let req = || Req {
            commits: items.iter().map(|(r, _)| rows[*r].commit_bytes).collect(),
            idx: items.iter().map(|(_, k)| *k as u64).collect(),
            cells: items.iter().map(|(r, k)| rows[*r].cell_bytes[*k].clone()).collect(),
            proofs: items.iter().map(|(r, k)| rows[*r].proof_bytes[*k]).collect(),
        };
        let g = verify(ctx, &req());
        say(&format!("verify:{n}"), g == Verdict::Accept, format!("{g:?}"));
        if n > 0 {
            for p in [0, n / 2, n - 1] {
                let mut q = req();
                q.cells[p] = rows[(items[p].0 + 1) % rows.len()].cell_bytes[items[p].1].clone();
                let g = verify(ctx, &q);
                say(&format!("verify:{n}:false{p}"), g == Verdict::InvalidProof, format!("{g:?}"));
            }
            let mut q = req();
            q.idx[n - 1] = 128;
            say(&format!("verify:{n}:range"), verify(ctx, &q) == Verdict::Error, "bad index not an error".into());
            let mut q = req();
            q.proofs[n - 1] = [0xff; 48];
            say(&format!("verify:{n}:point"), verify(ctx, &q) == Verdict::Error, "bad proof encoding not an error".into());
            let mut q = req();
            q.cells.pop();
            say(&format!("verify:{n}:len"), verify(ctx, &q) == Verdict::Error, "length mismatch not an error".into());
        }
    }
}

pub fn c13() -> i32 {
    let run = Run::new("C13");
    // other build flavours run as separate programs that write their counts
    let part = std::env::var("MC_PART").ok();
    let mut children = vec![];
    if part.is_none() && !run.filter.as_ref().is_some_and(|f| f.starts_with(&format!("{FLAVOUR}/"))) {
        for (k, bin) in std::env::vars().filter(|(k, _)| k.starts_with("MC_BIN_")) {
            let tmp = format!("{}/target/part-{}.txt", std::env::var("VERIF_DIR").unwrap_or("/verif".into()), k);
            let _ = std::fs::remove_file(&tmp);
            let child = std::process::Command::new(&bin).arg("C13").env("MC_PART", &tmp).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).spawn();
            children.push((k, tmp, child));
        }
    }
    let w = World::new(if FLAVOUR == "multithreaded" { 8 } else { 1 });
    let widths: Vec<Option<usize>> = match (FLAVOUR, run.thorough()) {
        ("multithreaded", false) => [None].into_iter().chain((1..=9).map(Some)).collect(),
        ("multithreaded", true) => [None].into_iter().chain((1..=12).map(Some)).collect(),
        (_, false) => vec![None, Some(2), Some(3), Some(8)],
        (_, true) => [None].into_iter().chain((1..=10).map(Some)).collect(),
    };
    let threads: Vec<usize> = match (FLAVOUR, run.thorough()) {
        ("multithreaded", false) => vec![0, 1, 2, 3, 8, 67, 130],
        ("multithreaded", true) => vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 65, 129, 257],
        _ => vec![1],
    };
    let mut cfgs: Vec<(usize, Option<usize>)> = vec![];
    for t in &threads {
        cfgs.push((*t, None));
    }
    for (i, wd) in widths.iter().enumerate() {
        let t = threads[i % threads.len()];
        if !cfgs.contains(&(t, *wd)) {
            cfgs.push((t, *wd));
        }
        if run.thorough() {
            for t in [1, 8] {
                if threads.contains(&t) && !cfgs.contains(&(t, *wd)) {
                    cfgs.push((t, *wd));
                }
            }
        }
    }
    for c in [(1, Some(8)), (8, Some(8))] {
        if threads.contains(&c.0) && !cfgs.contains(&c) {
            cfgs.push(c);
        }
    }
    for (t, wd) in &cfgs {
        if run.broken() {
            break;
        }
        let cfg = format!("threads={t},width={}", wd.map(|x| x.to_string()).unwrap_or("no".into()));
        let pre = format!("{FLAVOUR}/{cfg}/");
        if let Some(f) = &run.filter {
            if !f.starts_with(&pre) && !f.ends_with(&cfg) {
                continue;
            }
        }
        match guard(|| make_ctx(&w.setup, *t, *wd)) {
            Ok(ctx) => workload(&run, &w, &ctx, &cfg, !(*t == 8 || wd.is_none() && *t <= 1)),
            Err(p) => run.fail(&format!("{FLAVOUR}/{cfg}"), format!("context creation panicked: {p}")),
        }
    }
    // many small pools at once: contexts with different settings used side by side
    run.note(&format!("configurations_{FLAVOUR}"), cfgs.len());
    run.sample(format!("{FLAVOUR}: {:?}", cfgs));
    #[cfg(feature = "small")]
    mc_small::c13(&run);
    // the other flavours' reports
    for (k, tmp, child) in children {
        let out = child.and_then(|c| c.wait_with_output());
        let text = std::fs::read_to_string(&tmp).unwrap_or_default();
        if text.is_empty() {
            run.fail(&format!("{k}/died"), format!("the {k} build ended without a report: {:?}", out.map(|o| (o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()))));
            continue;
        }
        for l in text.lines() {
            if let Some(c) = l.strip_prefix("case ") {
                run.transition();
                run.state(c);
                run.validated("as the model says, in this configuration");
            } else if let Some(c) = l.strip_prefix("fail ") {
                let (c, d) = c.split_once(' ').unwrap_or((c, ""));
                run.fail(c, d);
            } else if let Some(c) = l.strip_prefix("sample ") {
                run.sample(c);
            }
        }
        let _ = std::fs::remove_file(&tmp);
    }
    if let Some(p) = part {
        return run.finish_part(&p);
    }
    run.finish(
        "states are (build flavour, thread setting, window width, operation, argument); the flavours multithreaded, singlethreaded and plain are built separately; every operation of the workload (commit, compute, recover, verify of honest, false and malformed requests of several sizes) in every configuration is compared with the model, which knows no configuration",
        &["widths above the bound are not built: their tables need gigabytes", "blst's own thread count is that of the machine"],
    )
}
