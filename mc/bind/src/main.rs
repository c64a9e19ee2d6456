//! The bindings (C14-C17): the requests of the Rust interface, explored on every binding and
//! compared with the Rust interface.
mod drive_c;
mod plan;

use mc_common::{ncpu, Run};
use plan::*;
use rust_eth_kzg::{DASContext, ThreadCount, TrustedSetup, UsePrecomp};
use std::collections::HashMap;
use std::process::{Command, Stdio};

#[global_allocator]
static ALLOC: drive_c::Counting = drive_c::Counting;

fn target() -> String {
    std::env::var("CARGO_TARGET_DIR").expect("CARGO_TARGET_DIR")
}

/// Runs drivers on the parts of the plan; gives what each reported by case.
struct Report {
    results: HashMap<String, String>,
    problems: Vec<(String, String)>,
    /// further facts: (key, value)
    info: Vec<(String, String)>,
}

fn parse(rep: &mut Report, out: &str, err: &str, status: std::process::ExitStatus, timed_out: bool) {
    let mut last = String::from("start");
    let mut done = true;
    let mut end = false;
    for l in out.lines() {
        if let Some(x) = l.strip_prefix("B ") {
            last = x.into();
            done = false;
        } else if let Some(x) = l.strip_prefix("E ") {
            let (id, r) = x.split_once(' ').unwrap_or((x, ""));
            rep.results.insert(id.into(), r.into());
            done = true;
        } else if let Some(x) = l.strip_prefix("X ") {
            let (id, r) = x.split_once(' ').unwrap_or((x, ""));
            rep.problems.push((id.into(), r.into()));
        } else if let Some(x) = l.strip_prefix("I ") {
            let (k, v) = x.split_once(' ').unwrap_or((x, ""));
            rep.info.push((k.into(), v.into()));
        } else if l == "END" {
            end = true;
        }
    }
    if !end {
        let tail: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
        let tail = tail[tail.len().saturating_sub(6)..].join(" / ");
        let what = if timed_out { "did not end".to_string() } else { format!("{status}") };
        let at = if done { format!("after:{last}") } else { last };
        rep.problems.push((at, format!("the process ended: {what}: {tail}")));
    }
}

fn run_parts(cmds: Vec<Command>, secs: u64) -> Report {
    let mut rep = Report { results: HashMap::new(), problems: vec![], info: vec![] };
    let hs: Vec<_> = cmds
        .into_iter()
        .map(|mut c| {
            std::thread::spawn(move || {
                use std::io::Read;
                let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("driver");
                let mut o = ch.stdout.take().unwrap();
                let mut e = ch.stderr.take().unwrap();
                let ho = std::thread::spawn(move || {
                    let mut s = Vec::new();
                    let _ = o.read_to_end(&mut s);
                    s
                });
                let he = std::thread::spawn(move || {
                    let mut s = Vec::new();
                    let _ = e.read_to_end(&mut s);
                    s
                });
                let t = std::time::Instant::now();
                let mut late = false;
                let st = loop {
                    if let Some(s) = ch.try_wait().unwrap() {
                        break s;
                    }
                    if t.elapsed().as_secs() > secs {
                        late = true;
                        let _ = ch.kill();
                        break ch.wait().unwrap();
                    }
                    std::thread::sleep(std::time::Duration::from_millis(20));
                };
                let o = String::from_utf8_lossy(&ho.join().unwrap()).to_string();
                let e = String::from_utf8_lossy(&he.join().unwrap()).to_string();
                (o, e, st, late)
            })
        })
        .collect();
    for h in hs {
        let (o, e, st, late) = h.join().unwrap();
        parse(&mut rep, &o, &e, st, late);
    }
    rep
}

/// Splits the cases into parts of similar cost; each extra configuration stays in one part.
fn split(cases: &[Case], parts: usize) -> Vec<Vec<usize>> {
    let mut load = vec![0u64; parts];
    let mut out = vec![vec![]; parts];
    let mut home: HashMap<&str, usize> = HashMap::new();
    let light = |load: &[u64]| (0..load.len()).min_by_key(|i| load[*i]).unwrap();
    for (n, c) in cases.iter().enumerate().filter(|(_, c)| !c.ctx.is_empty()) {
        let p = *home.entry(&c.ctx).or_insert_with(|| {
            let p = light(&load);
            load[p] += if c.ctx.starts_with("p1") { 14000 } else { 4000 };
            p
        });
        load[p] += cost(c);
        out[p].push(n);
    }
    for (n, c) in cases.iter().enumerate().filter(|(_, c)| c.ctx.is_empty()) {
        let p = light(&load);
        load[p] += cost(c);
        out[p].push(n);
    }
    out
}

fn binding(id: &str, lang: Lang, extra: impl Fn(&mut Builder)) -> i32 {
    let run = Run::new(id);
    // The contexts' own threads would compete with the workers: one each is enough here.
    let ctx = DASContext::with_threads(&TrustedSetup::default(), ThreadCount::SensibleDefault, UsePrecomp::No);
    let mut b = Builder { lang, thorough: run.thorough(), pool: Pool::default(), cases: vec![], ctx: &ctx };
    b.build();
    extra(&mut b);
    let Builder { pool, mut cases, .. } = b;
    let (pool, mut seen) = (pool, HashMap::new());
    cases.retain(|c| seen.insert(c.id.clone(), ()).is_none() && run.wants(&c.id));
    let exp = expectations(&run, &ctx, &pool, &cases, lang == Lang::Java);
    let dir = format!("{}/bind-{id}", target());
    std::fs::create_dir_all(&dir).unwrap();
    let poolf = format!("{dir}/pool");
    std::fs::write(&poolf, pool.file()).unwrap();
    let parts = split(&cases, ncpu().min(8).max(1).min(cases.len().max(1)));
    let me = std::env::current_exe().unwrap();
    let mut cmds = vec![];
    for (k, p) in parts.iter().enumerate() {
        let f = format!("{dir}/plan{k}");
        let t: String = p.iter().map(|n| case_text(&cases[*n]) + "\n").collect();
        std::fs::write(&f, t).unwrap();
        let mut c = match lang {
            Lang::C => {
                let mut c = Command::new(&me);
                c.arg("drive-c");
                c
            }
            Lang::Java => {
                let mut c = Command::new("java");
                c.args(["-Xss8m", "-Xmx1500m", "-XX:+UseSerialGC", "-XX:-CreateCoredumpOnCrash"])
                    .arg(format!("-XX:ErrorFile={dir}/hs_err{k}.log"))
                    .arg(format!("-Djava.library.path={}/release", target()))
                    .arg("-cp")
                    .arg(format!("{}/java", target()))
                    .arg("Driver");
                c
            }
            Lang::Node => {
                let mut c = Command::new("node");
                c.arg("--expose-gc").arg(format!("{}/node/driver.js", target()));
                c
            }
            Lang::Go => {
                let mut c = Command::new(format!("{}/go/driver", target()));
                // memory that was freed does not keep its contents, large blocks are unmapped
                c.env("MALLOC_PERTURB_", "165").env("MALLOC_MMAP_THRESHOLD_", "65536");
                c
            }
        };
        c.arg(&poolf).arg(&f).arg(k.to_string()).current_dir(&dir);
        cmds.push(c);
    }
    let mut known: Vec<(String, String)> = vec![];
    for c in &cases {
        let e: Vec<String> = c.ops.iter().map(|o| exp[o].text()).collect();
        known.push((c.id.clone(), e.join(" ")));
    }
    let cap = if run.thorough() { 3000 } else { 700 };
    let mut rep = run_parts(cmds, cap);
    // lives of contexts and messages
    if lang == Lang::C && run.filter.as_deref().map_or(true, |f| f.starts_with("lives/")) {
        let pick = |n: &str| cases.iter().find(|c| c.id == n);
        let lives: Vec<&Case> = ["words/ce", "words/ec", "words/tc", "words/xc"].iter().filter_map(|n| pick(n)).collect();
        let _ = lives;
        let wanted = ["commit/gen1", "commit/at0:max", "verify/word/AB-", "verify/word/AF-", "verify/lengths/1000"];
        let sel: Vec<&Case> = wanted.iter().filter_map(|n| pick(n)).collect();
        if sel.len() == wanted.len() {
            let f = format!("{dir}/lives");
            std::fs::write(&f, sel.iter().map(|c| case_text(c) + "\n").collect::<String>()).unwrap();
            let n = ncpu().min(10);
            let cmds = (0..n)
                .map(|k| {
                    let mut c = Command::new(&me);
                    c.args(["lives-c", &k.to_string(), &n.to_string(), &poolf, &f]);
                    c
                })
                .collect();
            let r = run_parts(cmds, cap);
            let once: Vec<String> = sel.iter().map(|c| exp[&c.ops[0]].text()).collect();
            let twice = [once.clone(), once].concat().join(" ");
            for id in r.results.keys() {
                known.push((id.clone(), twice.clone()));
            }
            rep.info.extend(r.info);
            rep.results.extend(r.results);
            rep.problems.extend(r.problems);
        }
    }
    let died: Vec<String> =
        rep.problems.iter().filter(|(_, d)| d.starts_with("the process ended")).map(|x| x.0.clone()).collect();
    for (id, d) in &rep.problems {
        run.fail(id, d.clone());
    }
    for (id, want) in &known {
        match rep.results.get(id) {
            None => {
                if died.is_empty() {
                    run.fail(id, "no result");
                }
            }
            Some(got) => {
                if run.state(id.as_str()) {
                    run.transitions_add(want.split(' ').count() as u64);
                }
                if got != want {
                    run.fail(id, format!("gives {got}, Rust gives {want}"));
                } else {
                    let k = want.split(' ').next().unwrap_or("");
                    run.validated(if k.starts_with("ok:") { "value" } else { k });
                }
            }
        }
    }
    let mut orders = std::collections::BTreeSet::new();
    for (k, v) in &rep.info {
        if k == "order" {
            orders.insert(v.clone());
        } else if k == "case" {
            // an exploration of the driver's own that held
            if run.state(v.as_str()) {
                run.transition();
            }
            run.validated("driver");
        } else {
            run.note(k, v);
        }
    }
    if !orders.is_empty() {
        run.note("distinct_completion_orders_seen", orders.len());
    }
    for (id, want) in known.iter().step_by((known.len() / 10).max(1)) {
        run.sample(format!("{id} => {}", &want[..want.len().min(80)]));
    }
    run.finish(
        match lang {
            Lang::C => "every case of the enumerated request families and call words, executed through the extern C functions from read-only buffers ending at unreadable pages; non-error-writing, messages, guards and leaks judged after each call",
            Lang::Java => "every case of the enumerated request families, call words and object lives, executed through the Java class in virtual machines of their own",
            Lang::Node => "every case of the enumerated request families and call words, synchronously and asynchronously, and every word of calls in flight, executed through index.js in node processes",
            Lang::Go => "every case of the enumerated blobs and call words, with collections before, during and after calls, executed through the Go package",
        },
        &["the Rust interface's own results are the oracle (C01-C13 judge them)", "blst, the language runtimes and the binding generators (jni, napi, cgo) are trusted"],
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "drive-c" => return drive_c::main(&a[2], &a[3]),
        "lives-c" => return drive_c::lives(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], &a[5]),
        _ => {}
    }
    let id = a[1].clone();
    let code = mc_common::main_guard(&id, || match id.as_str() {
        "C14" => binding("C14", Lang::C, |_| {}),
        "C15" => binding("C15", Lang::Java, |_| {}),
        "C16" => binding("C16", Lang::Node, |_| {}),
        "C17" => binding("C17", Lang::Go, |_| {}),
        x => {
            eprintln!("unknown property {x}");
            2
        }
    });
    std::process::exit(code);
}
