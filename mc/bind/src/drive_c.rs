//! Executes a plan on the C functions, from buffers that end at unreadable pages.
use crate::plan::*;
use c_eth_kzg::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering};

/// Counts what is allocated.
pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

const PAGE: usize = 4096;
/// `len` bytes that end at an unreadable page; the bytes before them are known.
pub struct Guarded {
    map: *mut u8,
    pages: usize,
    len: usize,
}
impl Guarded {
    pub fn new(len: usize) -> Guarded {
        let pages = len.div_ceil(PAGE).max(1);
        unsafe {
            let map = libc::mmap(
                std::ptr::null_mut(),
                (pages + 1) * PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(map != libc::MAP_FAILED, "mmap");
            assert_eq!(libc::mprotect(map.add(pages * PAGE), PAGE, libc::PROT_NONE), 0);
            std::ptr::write_bytes(map as *mut u8, 0xEE, pages * PAGE);
            Guarded { map: map as *mut u8, pages, len }
        }
    }
    pub fn of(b: &[u8]) -> Guarded {
        let g = Guarded::new(b.len());
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), g.ptr(), b.len()) };
        assert_eq!(unsafe { libc::mprotect(g.map as *mut _, g.pages * PAGE, libc::PROT_READ) }, 0);
        g
    }
    pub fn ptr(&self) -> *mut u8 {
        unsafe { self.map.add(self.pages * PAGE - self.len) }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
    }
    fn fill(&self, v: u8) {
        unsafe { std::ptr::write_bytes(self.ptr(), v, self.len) };
    }
    /// The bytes in front are as they were.
    fn front_ok(&self) -> bool {
        let n = self.pages * PAGE - self.len;
        unsafe { std::slice::from_raw_parts(self.map, n) }.iter().all(|b| *b == 0xEE)
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.map as *mut _, (self.pages + 1) * PAGE) };
    }
}

fn ptrs(pool: &[Guarded], l: &List) -> Guarded {
    let v: Vec<u8> =
        l.as_ref().unwrap().iter().flat_map(|p| (pool[p.unwrap()].ptr() as u64).to_ne_bytes()).collect();
    Guarded::of(&v)
}

pub struct C {
    pool: Vec<Guarded>,
    ctxs: HashMap<String, *mut DASContext>,
    commitment: Guarded,
    cells: Vec<Guarded>,
    proofs: Vec<Guarded>,
    cell_ptrs: Guarded,
    proof_ptrs: Guarded,
    verified: Guarded,
    pub problems: Vec<String>,
}

pub fn new_ctx(cfg: &str) -> *mut DASContext {
    let (p, t) = cfg[1..].split_once('t').unwrap();
    eth_kzg_das_context_new(p == "1", t.parse().unwrap())
}

impl C {
    pub fn new(pool: &Pool) -> C {
        let cells: Vec<Guarded> = (0..128).map(|_| Guarded::new(2048)).collect();
        let proofs: Vec<Guarded> = (0..128).map(|_| Guarded::new(48)).collect();
        let arr = |v: &[Guarded]| {
            let b: Vec<u8> = v.iter().flat_map(|g| (g.ptr() as u64).to_ne_bytes()).collect();
            Guarded::of(&b)
        };
        C {
            pool: pool.v.iter().map(|b| Guarded::of(b)).collect(),
            ctxs: HashMap::new(),
            commitment: Guarded::new(48),
            cell_ptrs: arr(&cells),
            proof_ptrs: arr(&proofs),
            cells,
            proofs,
            verified: Guarded::new(1),
            problems: vec![],
        }
    }
    pub fn ctx(&mut self, cfg: &str) -> *mut DASContext {
        *self.ctxs.entry(cfg.to_string()).or_insert_with(|| new_ctx(cfg))
    }
    fn outputs(&self) -> impl Iterator<Item = &Guarded> {
        std::iter::once(&self.commitment).chain(&self.cells).chain(&self.proofs).chain(std::iter::once(&self.verified))
    }
    /// One call; outputs filled with `fill` before. Gives the result and the raw message.
    pub fn call(&mut self, ctx: *mut DASContext, op: &Op, fill: u8, null: bool) -> (Exp, *mut libc::c_char) {
        for o in self.outputs() {
            o.fill(fill);
        }
        // the verdict has to hold a bool
        let vfill = fill & 1;
        self.verified.fill(vfill);
        let nul = |g: &Guarded| if g.len == 0 && null { std::ptr::null() } else { g.ptr() as *const u8 };
        let idx = |i: &Idx| -> Guarded {
            let v: Vec<u8> =
                i.as_ref().unwrap().iter().flat_map(|s| s.parse::<u64>().unwrap().to_ne_bytes()).collect();
            Guarded::of(&v)
        };
        let len = |l: &List| l.as_ref().unwrap().len() as u64;
        let mut may: [bool; 3] = [false; 3]; // commitment, cells and proofs, verdict
        let r = match op {
            Op::Commit(b) => {
                may[0] = true;
                eth_kzg_blob_to_kzg_commitment(ctx, self.pool[b.unwrap()].ptr(), self.commitment.ptr())
            }
            Op::Compute(b) => {
                may[1] = true;
                eth_kzg_compute_cells_and_kzg_proofs(
                    ctx,
                    self.pool[b.unwrap()].ptr(),
                    self.cell_ptrs.ptr() as *mut *mut u8,
                    self.proof_ptrs.ptr() as *mut *mut u8,
                )
            }
            Op::Cells(_) => unreachable!(),
            Op::Verify { c, i, x, p } => {
                may[2] = true;
                let (gc, gi, gx, gp) = (ptrs(&self.pool, c), idx(i), ptrs(&self.pool, x), ptrs(&self.pool, p));
                eth_kzg_verify_cell_kzg_proof_batch(
                    ctx,
                    len(c),
                    nul(&gc) as *const *const u8,
                    i.as_ref().unwrap().len() as u64,
                    nul(&gi) as *const u64,
                    len(x),
                    nul(&gx) as *const *const u8,
                    len(p),
                    nul(&gp) as *const *const u8,
                    self.verified.ptr() as *mut bool,
                )
            }
            Op::Recover { i, x } => {
                may[1] = true;
                let (gi, gx) = (idx(i), ptrs(&self.pool, x));
                eth_kzg_recover_cells_and_proofs(
                    ctx,
                    len(x),
                    nul(&gx) as *const *const u8,
                    i.as_ref().unwrap().len() as u64,
                    nul(&gi) as *const u64,
                    self.cell_ptrs.ptr() as *mut *mut u8,
                    self.proof_ptrs.ptr() as *mut *mut u8,
                )
            }
        };
        let ok = matches!(r.status, CResultStatus::Ok);
        if ok != r.error_msg.is_null() {
            self.problems.push(format!("status ok={ok} with message null={}", r.error_msg.is_null()));
        }
        if !r.error_msg.is_null() {
            // readable text that ends
            let s = unsafe { std::ffi::CStr::from_ptr(r.error_msg) };
            if s.to_bytes().is_empty() {
                self.problems.push("empty error message".into());
            }
        }
        // what may have been written
        let untouched = |g: &Guarded, f: u8| g.bytes().iter().all(|b| *b == f);
        let mut bad = vec![];
        if !(ok && may[0]) && !untouched(&self.commitment, fill) {
            bad.push("commitment buffer");
        }
        if !(ok && may[1]) && !self.cells.iter().chain(&self.proofs).all(|g| untouched(g, fill)) {
            bad.push("cell and proof buffers");
        }
        if !(ok && may[2]) && !untouched(&self.verified, vfill) {
            bad.push("verdict");
        }
        for b in bad {
            self.problems.push(format!("wrote the {b} (status ok={ok})"));
        }
        if !self.outputs().all(|g| g.front_ok()) {
            self.problems.push("wrote in front of an output buffer".into());
        }
        let e = if !ok {
            Exp::Err
        } else if may[2] {
            let v = self.verified.bytes()[0];
            if v > 1 {
                self.problems.push(format!("verdict byte {v}"));
            }
            Exp::Bool(v == 1)
        } else if may[0] {
            Exp::Ok(digest(&[vec![self.commitment.bytes()]]))
        } else {
            Exp::Ok(digest(&[
                self.cells.iter().map(|g| g.bytes()).collect(),
                self.proofs.iter().map(|g| g.bytes()).collect(),
            ]))
        };
        (e, r.error_msg)
    }
}

pub fn free_msg(m: *mut libc::c_char) {
    unsafe { eth_kzg_free_error_message(m) }
}

fn quick(op: &Op) -> bool {
    match op {
        Op::Verify { x, .. } => x.as_ref().unwrap().len() < 8,
        _ => false,
    }
}

pub fn main(pool: &str, plan: &str) {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let pool = Pool::read(&std::fs::read(pool).unwrap());
    let plan = std::fs::read_to_string(plan).unwrap();
    let mut c = C::new(&pool);
    let out = std::io::stdout();
    let mut leaks_looked = 0;
    for line in plan.lines() {
        let (head, ops) = line.split_once(" | ").unwrap();
        let h: Vec<&str> = head.split_whitespace().collect();
        let say = |s: String| {
            let mut o = out.lock();
            writeln!(o, "{s}").unwrap();
            o.flush().unwrap();
        };
        say(format!("B {}", h[0]));
        let ops: Vec<Op> = ops.split(" | ").map(parse_op).collect();
        let ctx = c.ctx(h[1]);
        let mut res = vec![];
        let mut held = vec![];
        for op in &ops {
            let (e, m) = c.call(ctx, op, 0xA5, true);
            held.push(m);
            // a second look with other initial contents: nothing was written by luck
            let again = e == Exp::Err || quick(op);
            if again {
                let (e2, m2) = c.call(ctx, op, 0x5A, false);
                free_msg(m2);
                if e2 != e {
                    c.problems.push(format!("{} then {} for the same call", e.text(), e2.text()));
                }
            }
            // three times over, each leaving something behind: a leak
            leaks_looked += 1;
            if again || leaks_looked % 40 == 0 {
                let mut grow = vec![];
                for k in 0..3 {
                    let before = LIVE.load(Ordering::SeqCst);
                    let n = c.problems.len();
                    let (_, m) = c.call(ctx, op, k, true);
                    free_msg(m);
                    if c.problems.len() == n {
                        grow.push(LIVE.load(Ordering::SeqCst) - before);
                    }
                }
                // worker threads let go of what they had a moment later
                if grow.len() == 3 && grow.iter().all(|g| *g > 0) {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    let before = LIVE.load(Ordering::SeqCst);
                    for k in 0..20u8 {
                        let (_, m) = c.call(ctx, op, k, true);
                        free_msg(m);
                    }
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    let g = LIVE.load(Ordering::SeqCst) - before;
                    if g >= 20 {
                        c.problems.push(format!("20 calls left {g} allocations behind"));
                    }
                }
            }
            res.push(e.text());
        }
        // messages are freed in the opposite order of their calls
        for m in held.into_iter().rev() {
            free_msg(m);
        }
        for p in std::mem::take(&mut c.problems) {
            say(format!("X {} {}", h[0], p));
        }
        say(format!("E {} {}", h[0], res.join(" ")));
    }
    if c.pool.iter().zip(&pool.v).any(|(g, b)| g.bytes() != b.as_slice() || !g.front_ok()) {
        println!("X pool an input was modified");
    }
    println!("END");
}

/// Histories of contexts and messages: every interleaving of two contexts' lives, every order
/// of freeing messages; at the end nothing is left.
pub fn lives(which: usize, of: usize, pool: &str, plan: &str) {
    if which == 0 && std::env::var("MC_CASE").is_err() {
        for (name, have, want) in [
            ("bytes_per_cell", eth_kzg_constant_bytes_per_cell(), 2048),
            ("bytes_per_proof", eth_kzg_constant_bytes_per_proof(), 48),
            ("cells_per_ext_blob", eth_kzg_constant_cells_per_ext_blob(), 128),
        ] {
            println!("B published/{name}");
            if have == want {
                println!("I case published/{name}");
            } else {
                println!("X published/{name} is {have}, not {want}");
            }
        }
    }
    let pool = Pool::read(&std::fs::read(pool).unwrap());
    let plan = std::fs::read_to_string(plan).unwrap();
    let cases: Vec<(String, Vec<Op>)> = plan
        .lines()
        .map(|l| {
            let (h, o) = l.split_once(" | ").unwrap();
            (h.split(' ').next().unwrap().to_string(), o.split(" | ").map(parse_op).collect())
        })
        .collect();
    let mut c = C::new(&pool);
    // one life first: what is set up once stays
    let settle = || {
        let mut last = BYTES.load(Ordering::SeqCst);
        for _ in 0..100 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let now = BYTES.load(Ordering::SeqCst);
            if now == last {
                break;
            }
            last = now;
        }
        last
    };
    let x = new_ctx("p0t1");
    for (_, ops) in &cases {
        let (_, m) = c.call(x, &ops[0], 0, true);
        free_msg(m);
    }
    eth_kzg_das_context_free(x);
    eth_kzg_das_context_free(std::ptr::null_mut());
    free_msg(std::ptr::null_mut());
    settle();
    // words over two contexts: new, call, free of each in order
    let mut words = vec![];
    fn go(a: usize, b: usize, w: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        if a == 3 && b == 3 {
            out.push(w.clone());
            return;
        }
        for (who, n) in [(0, a), (1, b)] {
            if n < 3 {
                w.push((who, n));
                go(a + (who == 0) as usize, b + (who == 1) as usize, w, out);
                w.pop();
            }
        }
    }
    go(0, 0, &mut vec![], &mut words);
    for (n, w) in words.iter().enumerate().filter(|(n, _)| n % of == which) {
        let name: String = w.iter().map(|(who, s)| format!("{}{}", ["n", "c", "f"][*s], who)).collect();
        let id = format!("lives/{name}");
        println!("B {id}");
        let before = settle();
        let mut cx = [std::ptr::null_mut(); 2];
        let mut res = vec![];
        let mut held = vec![];
        for (who, step) in w {
            match step {
                0 => cx[*who] = new_ctx(["p0t1", "p0t2"][(n + who) % 2]),
                1 => {
                    for (_, ops) in &cases {
                        let (e, m) = c.call(cx[*who], &ops[0], 0xA5, true);
                        held.push(m);
                        res.push(e.text());
                    }
                }
                _ => eth_kzg_das_context_free(cx[*who]),
            }
        }
        // messages outlive their contexts
        let k = held.len().max(1);
        let mut order: Vec<usize> = (0..held.len()).collect();
        order.rotate_left(n % k);
        for i in order {
            if !held[i].is_null() && unsafe { std::ffi::CStr::from_ptr(held[i]) }.to_bytes().is_empty() {
                println!("X {id} empty message");
            }
            free_msg(held[i]);
        }
        drop(held);
        let text = res.join(" ");
        drop(res);
        let mut left = 0;
        for _ in 0..150 {
            left = settle() - before;
            if left < 100_000 {
                break;
            }
        }
        // a context is more than 20 MB; worker threads keep a little
        if left >= 100_000 {
            println!("X {id} {left} bytes left after everything was freed");
        }
        println!("E {id} {text}");
    }
    println!("END");
}
