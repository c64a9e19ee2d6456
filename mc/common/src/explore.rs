//! Bookkeeping for bounded exhaustive exploration.
//!
//! A `Run` counts distinct states (by canonical hash), transitions (edges taken, one per
//! enumerated action) and validated traces (states in which the real code was executed and
//! its observable result compared with the model's). It writes the evidence file and, for a
//! violation, a replay file whose `case` can be executed alone with MC_CASE=<case>.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub struct Run {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub filter: Option<String>,
    start: Instant,
    states: Mutex<HashSet<u64>>,
    cases: Mutex<Vec<String>>,
    outcomes: Mutex<std::collections::BTreeMap<String, u64>>,
    transitions: AtomicU64,
    validated: AtomicU64,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Mutex<HashSet<String>>,
    findings: Vec<(String, String)>,
    notes: Mutex<Vec<(String, String)>>,
    exhaustive: AtomicBool,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Run {
    pub fn new(property: &str) -> Run {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        // KNOWN lines: "finding: property=<id> case=<case> <what>"; fixed entries suppress nothing.
        let mut findings = Vec::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
            for l in t.lines() {
                if let Some(rest) = l.strip_prefix("finding: ") {
                    let mut it = rest.split_whitespace();
                    let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                    let c = it.next().unwrap_or("").trim_start_matches("case=").to_string();
                    if p == property {
                        findings.push((c, it.collect::<Vec<_>>().join(" ")));
                    }
                }
            }
        }
        // Panics of the code under test are observations, not noise.
        std::panic::set_hook(Box::new(|i| {
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if GUARDED.with(|g| g.get()) == 0 {
                static SAID: AtomicUsize = AtomicUsize::new(0);
                if SAID.fetch_add(1, Ordering::Relaxed) < 5 {
                    eprintln!("panic at {at}: {}", payload(i.payload()));
                }
            }
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{at}: {}", payload(i.payload()));
        }));
        Run {
            property: property.into(),
            tier: tier.into(),
            seed,
            filter: std::env::var("MC_CASE").ok().filter(|s| !s.is_empty()),
            start: Instant::now(),
            states: Default::default(),
            cases: Default::default(),
            outcomes: Default::default(),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            samples: Default::default(),
            violations: Default::default(),
            known: Default::default(),
            findings,
            notes: Default::default(),
            exhaustive: AtomicBool::new(true),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// quick or thorough value
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// Enter a state; false if it was already visited.
    pub fn state<T: Hash + ?Sized>(&self, canon: &T) -> bool {
        self.states.lock().unwrap().insert(hash_of(canon))
    }
    pub fn transition(&self) {
        self.transitions.fetch_add(1, Ordering::Relaxed);
    }
    pub fn transitions_add(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// The real code ran in this state and agreed with the model (or was reported).
    pub fn validated(&self, outcome: &str) {
        self.validated.fetch_add(1, Ordering::Relaxed);
        *self.outcomes.lock().unwrap().entry(outcome.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.notes.lock().unwrap().push((k.into(), v.to_string()));
    }
    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Ordering::Relaxed);
    }
    /// Should this case be executed (all of them, or the one being replayed)?
    pub fn wants(&self, case: &str) -> bool {
        match &self.filter {
            None => true,
            Some(f) => f == case,
        }
    }
    pub fn fail(&self, case: &str, detail: impl Into<String>) {
        let detail = detail.into();
        if let Some((c, what)) = self.findings.iter().find(|(c, _)| c == case) {
            if self.known.lock().unwrap().insert(c.clone()) {
                println!("KNOWN-FINDING: property={} {} ({})", self.property, what, c);
            }
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 50 {
            v.push((case.to_string(), detail));
        }
    }
    pub fn expect(&self, ok: bool, case: &str, detail: impl FnOnce() -> String) {
        if !ok {
            self.fail(case, detail());
        }
    }
    /// Stop early once something is broken: one counterexample suffices.
    pub fn broken(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Remember the name of a visited case (for `finish_part`).
    pub fn case(&self, c: &str) {
        self.cases.lock().unwrap().push(c.into());
    }
    /// The report of a part of a check that runs as its own program.
    pub fn finish_part(self, path: &str) -> i32 {
        let mut s = String::new();
        for c in self.cases.lock().unwrap().iter() {
            s.push_str(&format!("case {c}\n"));
        }
        for c in self.samples.lock().unwrap().iter() {
            s.push_str(&format!("sample {}\n", c.replace('\n', " ")));
        }
        for (c, d) in self.violations.lock().unwrap().iter() {
            s.push_str(&format!("fail {c} {}\n", d.replace('\n', " ")));
        }
        if std::fs::write(path, s).is_err() {
            return 2;
        }
        0
    }

    /// Writes the evidence; prints verdict lines; returns the exit code.
    pub fn finish(self, rule: &str, assumptions: &[&str]) -> i32 {
        let dir = verif_dir();
        let mut viol = self.violations.lock().unwrap().clone();
        viol.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
        let states = self.states.lock().unwrap().len();
        let mut s = String::new();
        let j = json_str;
        s.push_str("{\n");
        s.push_str(&format!("  \"property\": {},\n", j(&self.property)));
        s.push_str(&format!("  \"tier\": {},\n  \"seed\": {},\n", j(&self.tier), self.seed));
        s.push_str("  \"level\": \"model_checking\",\n  \"coverage\": {\n");
        s.push_str(&format!("    \"states\": {},\n", states));
        s.push_str(&format!("    \"transitions\": {},\n", self.transitions.load(Ordering::Relaxed)));
        s.push_str(&format!(
            "    \"traces_validated_against_impl\": {},\n",
            self.validated.load(Ordering::Relaxed)
        ));
        s.push_str(&format!("    \"rule\": {},\n", j(rule)));
        let oc: Vec<String> =
            self.outcomes.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", j(k), v)).collect();
        s.push_str(&format!("    \"outcomes\": {{{}}},\n", oc.join(", ")));
        for (k, v) in self.notes.lock().unwrap().iter() {
            let v = if v.parse::<u64>().is_ok() { v.clone() } else { j(v) };
            s.push_str(&format!("    {}: {},\n", j(k), v));
        }
        let ex = self.exhaustive.load(Ordering::Relaxed) && self.filter.is_none() && viol.is_empty();
        s.push_str(&format!("    \"exhaustive\": {},\n", ex));
        let sm: Vec<String> = self.samples.lock().unwrap().iter().map(|x| j(x)).collect();
        s.push_str(&format!("    \"samples\": [{}]\n  }},\n", sm.join(",\n      ")));
        let a: Vec<String> = assumptions.iter().map(|x| j(x)).collect();
        s.push_str(&format!("  \"assumptions\": [{}],\n", a.join(", ")));
        s.push_str(&format!("  \"wall_s\": {:.2},\n", self.elapsed()));
        s.push_str(&format!("  \"violations\": {}\n}}\n", viol.len()));
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", self.property), s) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        println!(
            "{}: states={} transitions={} validated={} violations={} wall={:.1}s",
            self.property,
            states,
            self.transitions.load(Ordering::Relaxed),
            self.validated.load(Ordering::Relaxed),
            viol.len(),
            self.elapsed()
        );
        if viol.is_empty() {
            if states == 0 {
                eprintln!("nothing was explored");
                return 2;
            }
            return 0;
        }
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let path = format!("{dir}/replays/{}.json", self.property);
        let (case, _) = &viol[0];
        let all: Vec<String> = viol
            .iter()
            .map(|(c, d)| format!("{{\"case\": {}, \"detail\": {}}}", j(c), j(d)))
            .collect();
        let body = format!(
            "{{\"property\": {}, \"case\": {}, \"tier\": {}, \"replay\": {},\n \"violations\": [{}]}}\n",
            j(&self.property),
            j(case),
            j(&self.tier),
            j(&format!("cd /verif && VERIF_TIER={} MC_CASE='{}' ./check {}", self.tier, case, self.property)),
            all.join(",\n ")
        );
        let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(body.as_bytes()));
        for (c, d) in viol.iter().take(5) {
            println!("  case {c}: {d}");
        }
        println!("VIOLATION property={} replay={}", self.property, path);
        1
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn ncpu() -> usize {
    static N: OnceLock<usize> = OnceLock::new();
    *N.get_or_init(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16))
}

/// Runs `f` on every job, on all cores; `mk` makes one private worker state per thread.
/// Stops taking jobs once `run` has a violation.
pub fn par_jobs<J: Send + Sync, S>(
    run: &Run,
    jobs: &[J],
    mk: impl Fn() -> S + Sync,
    f: impl Fn(&mut S, &J) + Sync,
) {
    let next = AtomicUsize::new(0);
    let n = ncpu().min(jobs.len().max(1));
    std::thread::scope(|sc| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut s = None;
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= jobs.len() || run.broken() {
                            break;
                        }
                        let st = s.get_or_insert_with(&mk);
                        f(st, &jobs[i]);
                    }
                })
                .unwrap();
        }
    });
}

thread_local! {
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn payload(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Ok(value) or the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| payload(&*e));
    GUARDED.with(|g| g.set(g.get() - 1));
    r
}

/// Runs a check. If the code under test panics where no panic is expected at all (making a
/// context, say), that is a violation of the property being checked: it gives no result there.
pub fn main_guard(id: &str, f: impl FnOnce() -> i32) -> i32 {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(c) => c,
        Err(_) => {
            let at = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            eprintln!("check ended by a panic at {at}");
            let ours = at.contains("mc/") || at.starts_with("src/") || !at.contains('/');
            if ours && !at.starts_with("/repo") {
                return 3;
            }
            let run = Run::new(id);
            run.state("panic");
            run.transition();
            run.fail("start", format!("the code under test panicked outside any request: {at}"));
            run.finish("the check could not go on", &[])
        }
    }
}

/// Watchdog: a check must end. Exit code 1 with a violation if `what` did not finish in time
/// is only right for properties about termination; elsewhere the watchdog is an error exit.
pub fn watchdog(secs: u64) -> Arc<AtomicBool> {
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    std::thread::spawn(move || {
        let t = Instant::now();
        while t.elapsed().as_secs() < secs {
            std::thread::sleep(std::time::Duration::from_millis(200));
            if d.load(Ordering::Relaxed) {
                return;
            }
        }
        eprintln!("watchdog: not finished after {secs} s");
        std::process::exit(3);
    });
    done
}

/// Deterministic generator of "generic" values (no structure the code could depend on).
#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
