//! C12: concurrent operations under a controlled scheduler.
//!
//! The parent process shares out the schedules of each scenario among child processes. A
//! schedule is the default one (a thread runs until it blocks, yields or ends) changed by at
//! most `bound` deviations, each of which makes another runnable thread go on at a scheduling
//! point. Points are: thread creation, futex waits and wakes, choices when a thread blocks, and
//! every access whose place in the program is found to race or to be an atomic shared with a
//! writing thread; finding such places is part of the exploration, which goes on until no new
//! ones appear.
mod ops;

use mc_common::Run;
use ops::Ctx;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

extern "C" {
    fn sched_init();
    fn sched_begin(at: *const u64, to: *const i32, n: i32);
    fn sched_end();
    fn sched_drain();
    fn sched_forget(p: *mut u8, n: usize);
    fn sched_points() -> u64;
    fn sched_diverted() -> u64;
    fn sched_kind(n: u64) -> i32;
    fn sched_cur(n: u64) -> i32;
    fn sched_pc(n: u64) -> u32;
    fn sched_mask(n: u64) -> u64;
    fn sched_pending(out: *mut u32, max: u32) -> u32;
    fn sched_mark(pc: u32);
}

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        sched_forget(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sched_forget(p, l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

#[derive(Clone)]
struct Scenario {
    name: &'static str,
    flavour: &'static str,
    size: &'static str,
    /// worker threads of the context's pool
    threads: usize,
    /// one word of operations per user thread
    words: &'static str,
    /// every user thread has its own context
    split: bool,
    /// every schedule runs in a new process with a new context
    fresh: bool,
    bound: usize,
    /// how many occurrences of one (place, thread, other thread) are deviated at (0: all)
    occurrences: usize,
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v = Vec::new();
    let mut add = |name: &'static str, flavour, threads, words, split, fresh, bq: (usize, usize), bt: (usize, usize)| {
        let (bound, occurrences) = if thorough { bt } else { bq };
        if bound > 0 {
            // tiny:<shape>:...
            let size = name.strip_prefix("tiny:").map_or("full", |x| x.split(':').next().unwrap());
            if ops::size(size).is_some() {
                v.push(Scenario { name, flavour, size, threads, words, split, fresh, bound, occurrences });
            }
        }
    };
    // first calls, in new processes
    add("first:1:v|v", "mt", 1, "v|v", false, true, (0, 0), (1, 0));
    add("first:1:P|v", "mt", 1, "P|v", false, true, (0, 0), (1, 4));
    add("first:2:v|f", "mt", 2, "v|f", false, true, (0, 0), (1, 0));
    add("new:1:N|N", "mt", 1, "N|N", false, true, (0, 0), (1, 4));
    // one context, pool of one worker
    add("1:v|v", "mt", 1, "v|v", false, false, (2, 0), (3, 4));
    add("1:v|f", "mt", 1, "v|f", false, false, (1, 0), (2, 0));
    add("1:b|m", "mt", 1, "b|m", false, false, (1, 0), (2, 0));
    add("1:vf|fv", "mt", 1, "vf|fv", false, false, (1, 0), (2, 0));
    add("1:v|f|v", "mt", 1, "v|f|v", false, false, (1, 0), (2, 0));
    add("1:c|c", "mt", 1, "c|c", false, false, (1, 0), (2, 3));
    add("1:x|v", "mt", 1, "x|v", false, false, (1, 0), (2, 0));
    add("1:r|v", "mt", 1, "r|v", false, false, (1, 0), (2, 4));
    add("1:P|v", "mt", 1, "P|v", false, false, (1, 0), (1, 0));
    add("1:P|P", "mt", 1, "P|P", false, false, (1, 1), (1, 0));
    add("1:R|P", "mt", 1, "R|P", false, false, (1, 1), (1, 0));
    add("1:R|R", "mt", 1, "R|R", false, false, (0, 0), (1, 0));
    // more workers
    add("2:v|v", "mt", 2, "v|v", false, false, (1, 0), (2, 0));
    add("2:b|f", "mt", 2, "b|f", false, false, (1, 0), (2, 3));
    add("2:v|f|c", "mt", 2, "v|f|c", false, false, (1, 2), (1, 0));
    add("2:c|c", "mt", 2, "c|c", false, false, (1, 2), (1, 0));
    add("2:P|v", "mt", 2, "P|v", false, false, (1, 1), (1, 0));
    add("2:P|P", "mt", 2, "P|P", false, false, (1, 1), (1, 12));
    add("2:R|P", "mt", 2, "R|P", false, false, (0, 0), (1, 12));
    add("2:R|R", "mt", 2, "R|R", false, false, (0, 0), (1, 12));
    add("3:v|v", "mt", 3, "v|v", false, false, (1, 2), (1, 0));
    add("3:P|R|v", "mt", 3, "P|R|v", false, false, (0, 0), (1, 4));
    // contexts of their own
    add("own:1:v|v", "mt", 1, "v|v", true, false, (1, 0), (2, 0));
    add("own:1:P|P", "mt", 1, "P|P", true, false, (0, 0), (1, 0));
    add("own:1:c|v", "mt", 1, "c|v", true, false, (1, 0), (1, 0));
    add("own:1:R|P", "mt", 1, "R|P", true, false, (0, 0), (1, 0));
    // without a pool
    add("st:first:v|v", "st", 0, "v|v", false, true, (1, 2), (1, 0));
    add("st:new:N|N", "st", 0, "N|N", false, true, (1, 0), (2, 0));
    add("st:v|f", "st", 0, "v|f", false, false, (2, 0), (3, 0));
    add("st:bv|mf", "st", 0, "bv|mf", false, false, (2, 0), (3, 0));
    add("st:c|c", "st", 0, "c|c", false, false, (2, 0), (3, 0));
    add("st:P|v", "st", 0, "P|v", false, false, (2, 0), (3, 0));
    add("st:P|P", "st", 0, "P|P", false, false, (2, 0), (3, 0));
    add("st:R|P|v", "st", 0, "R|P|v", false, false, (2, 4), (3, 0));
    add("st:own:P|R", "st", 0, "P|R", true, false, (1, 0), (2, 0));
    // tiny instances, deeper
    add("tiny:4x2:first:1:P|R", "mt", 1, "P|R", false, true, (2, 1), (2, 2));
    add("tiny:4x2:first:2:v|v", "mt", 2, "v|v", false, true, (2, 1), (2, 4));
    add("tiny:4x2:first:2:c|R", "mt", 2, "c|R", false, true, (1, 1), (2, 1));
    add("tiny:4x2:new:1:N|N", "mt", 1, "N|N", false, true, (1, 2), (2, 2));
    add("tiny:4x2:1:P|v", "mt", 1, "P|v", false, false, (2, 0), (3, 0));
    add("tiny:4x2:1:R|R", "mt", 1, "R|R", false, false, (2, 0), (3, 0));
    add("tiny:4x2:1:P|R|v", "mt", 1, "P|R|v", false, false, (2, 1), (2, 0));
    add("tiny:4x2:1:wR|Rw", "mt", 1, "wR|Rw", false, false, (2, 1), (2, 0));
    add("tiny:2x1:1:P|R", "mt", 1, "P|R", false, false, (2, 0), (3, 1));
    add("tiny:4x2:2:P|P", "mt", 2, "P|P", false, false, (2, 1), (2, 0));
    add("tiny:4x2:2:R|R", "mt", 2, "R|R", false, false, (2, 1), (2, 0));
    add("tiny:4x2:2:P|R", "mt", 2, "P|R", false, false, (2, 1), (2, 0));
    add("tiny:2x1:2:P|P", "mt", 2, "P|P", false, false, (2, 1), (2, 3));
    add("tiny:8x2:3:P|R", "mt", 3, "P|R", false, false, (1, 0), (2, 1));
    add("tiny:4x2:own:1:P|R", "mt", 1, "P|R", true, false, (2, 1), (2, 0));
    add("tiny:4x2:st:RR|RR", "st", 0, "RR|RR", false, false, (3, 0), (4, 0));
    add("tiny:4x2:st:PRv|vRP", "st", 0, "PRv|vRP", false, false, (3, 0), (5, 0));
    add("tiny:4x2:st:first:v|v", "st", 0, "v|v", false, true, (2, 0), (3, 0));
    add("tiny:4x2:st:first:P|P", "st", 0, "P|P", false, true, (2, 0), (3, 0));
    add("tiny:4x2:st:first:R|R", "st", 0, "R|R", false, true, (2, 0), (3, 0));
    add("tiny:4x2:st:first:P|R|v", "st", 0, "P|R|v", false, true, (2, 0), (3, 0));
    add("tiny:4x2:blst2:1:P|R", "mt2", 1, "P|R", false, false, (2, 1), (2, 3));
    // with two threads in blst's pool
    add("blst2:1:v|v", "mt2", 1, "v|v", false, false, (1, 0), (2, 3));
    add("blst2:1:c|c", "mt2", 1, "c|c", false, false, (1, 2), (1, 0));
    add("blst2:2:P|v", "mt2", 2, "P|v", false, false, (0, 0), (1, 0));
    // new processes are copies of this one: before it has threads and has used anything
    // then, those whose schedules are short come first
    v.sort_by_key(|s| (!s.fresh, s.size == "full" && s.words.contains(['P', 'R'])));
    v
}

// ---------------------------------------------------------------- child

const WAIT_MS: u64 = 240_000;

#[derive(Clone, Copy)]
struct Point {
    pc: u32,
    kind: i32,
    cur: i32,
    mask: u64,
}
type Devs = Vec<(u64, i32)>;
/// (size, operation, data set) and what that gives alone
type Expected = HashMap<(String, char, usize), String>;

struct Child {
    expected: Expected,
    ctxs: HashMap<(&'static str, usize), Vec<Box<dyn Ctx>>>,
    slot: std::fs::File,
    seq: u64,
    runs: u64,
    points: u64,
    missed: u64,
    buf: Vec<u32>,
}

fn pending(buf: &mut [u32]) -> Vec<u32> {
    let n = unsafe { sched_pending(buf.as_mut_ptr(), buf.len() as u32) };
    buf[..n as usize].to_vec()
}

impl Child {
    fn beat(&mut self, what: &str) {
        self.seq += 1;
        let mut b = format!("{} {}", self.seq, what).into_bytes();
        b.truncate(500);
        b.resize(512, b' ');
        let _ = self.slot.write_at(&b, 0);
    }
    fn need(&mut self, s: &Scenario) {
        let n = if s.split { s.words.split('|').count() } else { 1 };
        // other sizes are not needed any more
        self.ctxs.retain(|k, _| *k == (s.size, s.threads));
        let v = self.ctxs.entry((s.size, s.threads)).or_default();
        while v.len() < n {
            v.push((ops::size(s.size).unwrap().context)(s.threads));
        }
        // nobody is between two states
        unsafe { sched_drain() };
    }
    /// The scenario's threads, each doing its word. What differs from the operation alone.
    fn body(ctxs: &[Box<dyn Ctx>], ex: &Expected, s: &Scenario) -> Vec<String> {
        let words: Vec<&str> = s.words.split('|').collect();
        let mut out = vec![Vec::new(); words.len()];
        std::thread::scope(|sc| {
            for (i, (w, o)) in words.iter().zip(out.iter_mut()).enumerate() {
                let c = ctxs.get(if s.split { i } else { 0 });
                sc.spawn(move || {
                    for (k, op) in w.chars().enumerate() {
                        let r = match catch_unwind(AssertUnwindSafe(|| match c {
                            Some(c) => c.run(i, op),
                            None => ops::run_new(s.size, s.threads, i, op),
                        })) {
                            Ok(r) => r,
                            Err(e) => format!(
                                "panic:{}",
                                e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()
                            ),
                        };
                        let want = &ex[&(s.size.to_string(), op, i)];
                        if &r != want {
                            o.push(format!("thread {i} operation {k} ({op}): gave {r}, alone it gives {want}"));
                        }
                    }
                });
            }
        });
        out.concat()
    }
    /// Each operation of the scenario once more, one after another on the same contexts: what a
    /// schedule left behind must not show.
    fn after(ctxs: &[Box<dyn Ctx>], ex: &Expected, s: &Scenario) -> Vec<String> {
        let mut out = vec![];
        for (i, w) in s.words.split('|').enumerate() {
            let mut ops: Vec<char> = w.chars().collect();
            ops.sort();
            ops.dedup();
            for op in ops {
                let r = match catch_unwind(AssertUnwindSafe(|| ctxs[if s.split { i } else { 0 }].run(i, op))) {
                    Ok(r) => r,
                    Err(_) => "panic".into(),
                };
                let want = &ex[&(s.size.to_string(), op, i)];
                if &r != want {
                    out.push(format!("after the schedule, operation {op} of thread {i} gives {r}, alone it gives {want}"));
                }
            }
        }
        unsafe { sched_drain() };
        out
    }
    /// Carries out one schedule; the error says what went wrong.
    fn schedule(&mut self, s: &Scenario, devs: &Devs) -> Result<(), String> {
        let txt: Vec<String> = devs.iter().map(|(n, t)| format!("{n}>{t}")).collect();
        self.beat(&format!("{}@{}", s.name, txt.join(",")));
        self.runs += 1;
        let at: Vec<u64> = devs.iter().map(|d| d.0).collect();
        let to: Vec<i32> = devs.iter().map(|d| d.1).collect();
        let bad = if s.fresh {
            self.forked(s, &at, &to)?
        } else {
            unsafe { sched_begin(at.as_ptr(), to.as_ptr(), at.len() as i32) };
            let ctxs = &self.ctxs[&(s.size, s.threads)];
            let mut bad = Self::body(ctxs, &self.expected, s);
            unsafe {
                sched_end();
                sched_drain();
            }
            if s.size != "full" && bad.is_empty() {
                bad = Self::after(ctxs, &self.expected, s);
            }
            bad
        };
        self.points += unsafe { sched_points() };
        if unsafe { sched_diverted() } != devs.len() as u64 {
            self.missed += 1;
        }
        if bad.is_empty() {
            Ok(())
        } else {
            Err(bad.join("; "))
        }
    }
    fn forked(&mut self, s: &Scenario, at: &[u64], to: &[i32]) -> Result<Vec<String>, String> {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                let mut ctxs = Vec::new();
                if !s.words.contains('N') {
                    ctxs.push((ops::size(s.size).unwrap().context)(s.threads));
                    sched_drain();
                }
                sched_begin(at.as_ptr(), to.as_ptr(), at.len() as i32);
                let bad = Self::body(&ctxs, &self.expected, s);
                sched_end();
                let t = format!("done {}", bad.join("; "));
                libc::write(fds[1], t.as_ptr() as *const _, t.len());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut out = Vec::new();
            let mut buf = [0u8; 4096];
            loop {
                let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            }
            libc::close(fds[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let t = String::from_utf8_lossy(&out).to_string();
            match t.strip_prefix("done ") {
                Some("") => Ok(vec![]),
                Some(x) => Ok(vec![x.to_string()]),
                None => Err(stop_text(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 0 }, libc::WTERMSIG(st))),
            }
        }
    }
    fn trace(&self) -> Vec<Point> {
        let n = unsafe { sched_points() }.min(1 << 20);
        (0..n).map(|i| unsafe { Point { pc: sched_pc(i), kind: sched_kind(i), cur: sched_cur(i), mask: sched_mask(i) } }).collect()
    }
    /// The deviations possible after position `from`, rarest places first.
    fn alternatives(&self, t: &[Point], from: u64, k: usize) -> Vec<(u64, i32, u32)> {
        let mut seen: HashMap<(u32, i32, i32, i32), usize> = HashMap::new();
        let mut v = Vec::new();
        for (n, p) in t.iter().enumerate() {
            for to in 0..64 {
                if p.mask >> to & 1 == 0 {
                    continue;
                }
                let r = seen.entry((p.pc, p.kind, p.cur, to)).or_insert(0);
                *r += 1;
                if (n as u64) >= from && (k == 0 || *r <= k) {
                    v.push((*r, n as u64, to, p.pc));
                }
            }
        }
        v.sort();
        v.into_iter().map(|(_, n, to, pc)| (n, to, pc)).collect()
    }
}

fn stop_text(code: i32, signal: i32) -> String {
    match code {
        66 => "deadlock: every thread waits".into(),
        67 => "livelock: threads only wait for each other".into(),
        _ if signal != 0 => format!("the process was ended by signal {signal}"),
        _ => format!("the process ended with code {code}"),
    }
}

/// Asks the parent for the places found by everybody.
fn exchange(kind: &str, mine: &BTreeSet<u32>) -> BTreeSet<u32> {
    let v: Vec<String> = mine.iter().map(|x| format!("{x:x}")).collect();
    println!("{kind} {}", v.join(" "));
    let mut l = String::new();
    std::io::stdin().read_line(&mut l).unwrap();
    if !l.starts_with('G') {
        std::process::exit(0);
    }
    l[1..].split_whitespace().map(|x| u32::from_str_radix(x, 16).unwrap()).collect()
}

fn child(a: &[String]) {
    let (me, n): (usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let thorough = a[2] == "thorough";
    let flavour = a[3].clone();
    let only = a[4].clone();
    let dir = a[5].clone();
    let cap = Duration::from_secs(a[6].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let expected: Expected = std::fs::read_to_string(format!("{dir}/expected"))
        .unwrap()
        .lines()
        .map(|l| {
            let mut it = l.splitn(4, ' ');
            ((it.next().unwrap().to_string(), it.next().unwrap().chars().next().unwrap(), it.next().unwrap().parse().unwrap()), it.next().unwrap().to_string())
        })
        .collect();
    let slot = std::fs::File::create(format!("{dir}/slot-{flavour}-{me}")).unwrap();
    for z in ops::SIZES {
        (z.load)(&format!("{dir}/data-{}", z.name));
        (z.prepare)();
    }
    unsafe { sched_init() };
    let mut c = Child { expected, ctxs: HashMap::new(), slot, seq: 0, runs: 0, points: 0, missed: 0, buf: vec![0; 65536] };
    for s in scenarios(thorough).iter().filter(|s| s.flavour == flavour && (only.is_empty() || only == s.name)) {
        let start = Instant::now();
        c.runs = 0;
        c.points = 0;
        c.missed = 0;
        let mut complete = true;
        let fail = |devs: &Devs, c: &Child, why: String| -> ! {
            let t = c.trace();
            let txt: Vec<String> = devs.iter().map(|(n, t)| format!("{n}>{t}")).collect();
            let at: Vec<String> = devs.iter().filter_map(|d| t.get(d.0 as usize)).map(|p| format!("{:x}", p.pc)).collect();
            println!("F {}@{} [{}] {}", s.name, txt.join(","), at.join(" "), why.replace('\n', " "));
            std::process::exit(0);
        };
        c.beat(&format!("{}@start", s.name));
        if !s.fresh {
            c.need(s);
            unsafe { sched_drain() };
            if s.size != "full" {
                // first uses are over
                let _ = Child::after(&c.ctxs[&(s.size, s.threads)], &c.expected, s);
            }
        }
        // the default schedule, until no new places appear
        loop {
            if let Err(e) = c.schedule(s, &vec![]) {
                fail(&vec![], &c, e);
            }
            let p: BTreeSet<u32> = pending(&mut c.buf).into_iter().collect();
            c.beat("waiting");
            let all = exchange("L", &p);
            if all.is_empty() {
                break;
            }
            for x in all {
                unsafe { sched_mark(x) };
            }
        }
        // rounds: deviations at all places, then at those found meanwhile
        let mut new: Option<BTreeSet<u32>> = None;
        let mut rounds = 0;
        let base_points;
        loop {
            rounds += 1;
            let mut found: BTreeSet<u32> = BTreeSet::new();
            if let Err(e) = c.schedule(s, &vec![]) {
                fail(&vec![], &c, e);
            }
            found.extend(pending(&mut c.buf));
            let base = c.trace();
            if me == 0 && std::env::var("MC_TOP").is_ok() {
                let mut m: HashMap<(u32, i32), usize> = HashMap::new();
                for p in &base {
                    *m.entry((p.pc, p.kind)).or_insert(0) += 1;
                }
                let mut v: Vec<_> = m.into_iter().map(|(a, b)| (b, a)).collect();
                v.sort();
                for (n, (pc, k)) in v.iter().rev().take(12) {
                    eprintln!("{n} kind {k} {pc:x}");
                }
            }
            let first = c.alternatives(&base, 0, s.occurrences);
            for (j, (at, to, pc)) in first.iter().enumerate() {
                if j % n != me {
                    continue;
                }
                if start.elapsed() > cap {
                    complete = false;
                    break;
                }
                let fresh_place = |pc: &u32| new.as_ref().map_or(true, |x| x.contains(pc));
                if s.bound == 1 && !fresh_place(pc) {
                    continue;
                }
                // depth-first over further deviations
                let mut stack: Vec<(Devs, bool)> = vec![(vec![(*at, *to)], fresh_place(pc))];
                while let Some((devs, hot)) = stack.pop() {
                    if start.elapsed() > cap {
                        complete = false;
                        break;
                    }
                    if let Err(e) = c.schedule(s, &devs) {
                        fail(&devs, &c, e);
                    }
                    found.extend(pending(&mut c.buf));
                    if devs.len() < s.bound {
                        let t = c.trace();
                        let k = s.occurrences;
                        let last = devs.len() + 1 == s.bound;
                        for (at, to, pc) in c.alternatives(&t, devs.last().unwrap().0 + 1, k).into_iter().rev() {
                            let h = hot || fresh_place(&pc);
                            if last && !h {
                                continue;
                            }
                            let mut d = devs.clone();
                            d.push((at, to));
                            stack.push((d, h));
                        }
                    }
                }
            }
            c.beat("waiting");
            let all = exchange("M", &found);
            if all.is_empty() || rounds == 6 {
                complete &= all.is_empty();
                base_points = base.len();
                break;
            }
            for x in &all {
                unsafe { sched_mark(*x) };
            }
            new = Some(all);
        }
        if !s.fresh && s.size == "full" {
            let bad = Child::after(&c.ctxs[&(s.size, s.threads)], &c.expected, s);
            if !bad.is_empty() {
                fail(&vec![], &c, bad.join("; "));
            }
        }
        println!(
            "S {} {} {} {} {} {} {} {:.1}",
            s.name,
            c.runs,
            c.points,
            base_points,
            rounds,
            c.missed,
            complete,
            start.elapsed().as_secs_f64()
        );
        c.beat("waiting");
    }
    println!("END");
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

// ---------------------------------------------------------------- parent

fn symbolise(bin: &str, pcs: &str) -> String {
    let v: Vec<String> = pcs.split_whitespace().filter(|x| *x != "0").map(|x| format!("0x{x}")).collect();
    if v.is_empty() {
        return String::new();
    }
    let o = Command::new("addr2line").args(["-f", "-C", "-s", "-e", bin]).args(&v).output();
    match o {
        Ok(o) => String::from_utf8_lossy(&o.stdout).lines().map(|l| l.chars().take(120).collect::<String>()).collect::<Vec<_>>().join(" "),
        Err(_) => String::new(),
    }
}

enum Event {
    Line(usize, String),
    Gone(usize, std::process::ExitStatus, String),
}

fn allowed_cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        let v: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if v.is_empty() {
            vec![0]
        } else {
            v
        }
    }
}

fn explore(run: &Run, bin: &str, flavour: &str, blst_threads: usize, dir: &str, n: usize, only: &str, cap: u64, total_cap: u64) {
    let cpus = allowed_cpus();
    let (tx, rx) = mpsc::channel();
    let mut kids = Vec::new();
    for i in 0..n {
        // the same addresses in every process, so that decisions are numbered alike; the processors
        // a process may use decide how many threads blst's own pool has
        let mut c = Command::new(bin);
        let cpus = cpus.clone();
        unsafe {
            c.pre_exec(move || {
                libc::personality(libc::ADDR_NO_RANDOMIZE as _);
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                for k in 0..blst_threads {
                    libc::CPU_SET(cpus[(i + k) % cpus.len()], &mut set);
                }
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                Ok(())
            });
        }
        c.args(["child", &i.to_string(), &n.to_string(), &run.tier, flavour, only, dir, &cap.to_string()]);
        c.env("RAYON_NUM_THREADS", "1");
        let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("child");
        let out = ch.stdout.take().unwrap();
        let mut err = ch.stderr.take().unwrap();
        let stdin = ch.stdin.take().unwrap();
        let pid = ch.id();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let e = std::thread::spawn(move || {
                let mut s = Vec::new();
                let _ = std::io::Read::read_to_end(&mut err, &mut s);
                String::from_utf8_lossy(&s).to_string()
            });
            for l in BufReader::new(out).split(b'\n').map_while(Result::ok) {
                let _ = tx.send(Event::Line(i, String::from_utf8_lossy(&l).to_string()));
            }
            let st = ch.wait().unwrap();
            let _ = tx.send(Event::Gone(i, st, e.join().unwrap()));
        });
        kids.push((pid, stdin));
    }
    let mut alive = n;
    let mut ended = vec![false; n];
    let mut gone = vec![false; n];
    let mut waiting: Vec<Option<(char, BTreeSet<u32>)>> = vec![None; n];
    let mut beats: Vec<(String, Instant)> = vec![(String::new(), Instant::now()); n];
    let mut stats: HashMap<String, (u64, u64, u64, u64, u64, bool, f64)> = HashMap::new();
    let mut order = Vec::new();
    let started = Instant::now();
    let slot = |i: usize| {
        std::fs::read_to_string(format!("{dir}/slot-{flavour}-{i}")).unwrap_or_default().trim().to_string()
    };
    let mut stop = false;
    while alive > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Event::Line(i, l)) => {
                let l = l.trim();
                if l == "END" {
                    ended[i] = true;
                } else if let Some(x) = l.strip_prefix("F ") {
                    let (case, rest) = x.split_once(' ').unwrap_or((x, ""));
                    let (pcs, why) = rest.split_once("] ").unwrap_or(("", rest));
                    let sy = symbolise(bin, pcs.trim_start_matches('['));
                    run.state(&case);
                    run.transition();
                    run.fail(case, format!("{why} (schedule: number of the decision > thread that goes on; at {sy})"));
                    ended[i] = true;
                    stop = true;
                } else if l.starts_with("L") || l.starts_with("M") {
                    let k = l.chars().next().unwrap();
                    waiting[i] = Some((k, l[1..].split_whitespace().filter_map(|x| u32::from_str_radix(x, 16).ok()).collect()));
                    if waiting.iter().all(|w| w.is_some()) {
                        let kinds: BTreeSet<char> = waiting.iter().flatten().map(|w| w.0).collect();
                        let all: BTreeSet<u32> = waiting.iter().flatten().flat_map(|w| w.1.iter().copied()).collect();
                        if kinds.len() > 1 {
                            run.note("processes_out_of_step", "yes");
                            run.not_exhaustive();
                        }
                        let v: Vec<String> = all.iter().map(|x| format!("{x:x}")).collect();
                        for k in 0..n {
                            waiting[k] = None;
                            beats[k].1 = Instant::now();
                            let _ = writeln!(kids[k].1, "G {}", v.join(" "));
                            let _ = kids[k].1.flush();
                        }
                    }
                } else if let Some(x) = l.strip_prefix("S ") {
                    let f: Vec<&str> = x.split(' ').collect();
                    if !order.contains(&f[0].to_string()) {
                        order.push(f[0].to_string());
                    }
                    let e = stats.entry(f[0].into()).or_insert((0, 0, 0, 0, 0, true, 0.0));
                    e.0 += f[1].parse::<u64>().unwrap();
                    e.1 += f[2].parse::<u64>().unwrap();
                    e.2 = e.2.max(f[3].parse().unwrap());
                    e.3 = e.3.max(f[4].parse().unwrap());
                    e.4 += f[5].parse::<u64>().unwrap();
                    e.5 &= f[6] == "true";
                    e.6 = e.6.max(f[7].parse().unwrap());
                }
            }
            Ok(Event::Gone(i, st, err)) => {
                if std::env::var("MC_TOP").is_ok() {
                    eprint!("{err}");
                }
                alive -= 1;
                gone[i] = true;
                if !ended[i] && !stop {
                    use std::os::unix::process::ExitStatusExt;
                    let s = slot(i);
                    let case = s.split_once(' ').map(|x| x.1).unwrap_or(&s).to_string();
                    let tail: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
                    let tail = tail[tail.len().saturating_sub(3)..].join(" / ");
                    run.state(&case);
                    run.transition();
                    run.fail(&case, format!("{} {tail}", stop_text(st.code().unwrap_or(0), st.signal().unwrap_or(0))));
                    stop = true;
                }
            }
            Err(_) => {}
        }
        for i in 0..n {
            if gone[i] {
                continue;
            }
            let s = slot(i);
            if s != beats[i].0 || s.ends_with("waiting") {
                beats[i] = (s, Instant::now());
            } else if beats[i].1.elapsed() > Duration::from_millis(WAIT_MS) && !stop {
                let case = s.split_once(' ').map(|x| x.1).unwrap_or(&s).to_string();
                run.state(&case);
                run.transition();
                run.fail(&case, "the operations did not finish");
                stop = true;
            }
        }
        if started.elapsed().as_secs() > total_cap && !stop {
            eprintln!("stopped after {total_cap} s");
            run.note("stopped_after_s", total_cap);
            run.not_exhaustive();
            stop = true;
        }
        if stop {
            for i in 0..n {
                if !gone[i] {
                    unsafe { libc::kill(kids[i].0 as i32, libc::SIGKILL) };
                }
            }
        }
    }
    for name in order {
        let (runs, points, base, rounds, missed, complete, secs) = stats[&name];
        run.note(
            &format!("scenario {name}"),
            format!("{runs} schedules, {base} scheduling points by default, {points} in all, {rounds} rounds, {missed} schedules whose deviation did not apply, complete: {complete}, {secs} s"),
        );
        for k in 0..runs {
            run.state(&(name.clone(), k));
        }
        run.transitions_add(points);
        for _ in 0..runs {
            run.validated(&name);
        }
        run.sample(format!("{name}: {runs} schedules"));
        if !complete {
            run.not_exhaustive();
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "child" {
        return child(&a[2..]);
    }
    let st_bin = std::env::var("MC_BIN_ST").expect("MC_BIN_ST");
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let code = mc_common::main_guard("C12", || {
        let run = Run::new("C12");
        let dir = format!("{}/conc-run", std::env::var("CARGO_TARGET_DIR").expect("CARGO_TARGET_DIR"));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        // what every operation gives alone
        let mut ex = String::new();
        for z in ops::SIZES {
            let path = format!("{dir}/data-{}", z.name);
            (z.make)(&path);
            (z.load)(&path);
            let ctx = (z.context)(1);
            let mut used: BTreeSet<(char, usize)> = BTreeSet::new();
            for s in scenarios(run.thorough()).iter().filter(|s| s.size == z.name) {
                for (i, w) in s.words.split('|').enumerate() {
                    used.extend(w.chars().map(|c| (c, i)));
                }
            }
            for (op, i) in used {
                ex.push_str(&format!("{} {op} {i} {}\n", z.name, ctx.run(i, if op == 'N' { 'v' } else { op })));
            }
        }
        std::fs::write(format!("{dir}/expected"), ex).unwrap();
        let only = run.filter.clone().map(|f| f.split('@').next().unwrap().to_string()).unwrap_or_default();
        let n = mc_common::ncpu();
        let (cap, all) = run.pick((100, 600), (1800, 28000));
        let started = Instant::now();
        let left = || u64::saturating_sub(all, started.elapsed().as_secs()).max(20);
        // without a pool there are few points in a schedule, so that all of it is soon explored
        explore(&run, &st_bin, "st", 1, &dir, n, &only, cap, left());
        if !run.broken() {
            explore(&run, &me, "mt", 1, &dir, n, &only, cap, left());
        }
        if !run.broken() {
            explore(&run, &me, "mt2", 2, &dir, n, &only, cap, left());
        }
        let _ = std::fs::remove_dir_all(&dir);
        run.finish(
            "Schedules: for each scenario (words of operations per user thread, pool size) the default schedule and all schedules with at most the stated number of deviations from it (a deviation: at a scheduling point another runnable thread goes on); where a scenario is restricted to some occurrences of a place, the first ones of each (place, thread, other thread). transitions: scheduling decisions taken.",
            &[
                "sequentially consistent memory; instructions between two scheduling points touch nothing another thread writes without synchronisation (tracked with vector clocks in the instrumented crates)",
                "the standard library and blst are not instrumented; their blocking goes through futex, which is controlled",
                "yields of spinning threads and timeouts are not branched on",
            ],
        )
    });
    std::process::exit(code);
}
