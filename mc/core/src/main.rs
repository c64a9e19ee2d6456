//! The library's internal layers (C18-C23, C26): exhaustive exploration of small parameter spaces
//! on the real functions, judged by the reference model in the field.
mod algebra;
mod codes;
mod keys;
mod msm;
mod opening;

use mc_common::Run;

/// One explored state: executes `f` on the real code. Ok(outcome) agreed with the model.
pub fn visit(run: &Run, case: &str, f: impl FnOnce() -> Result<&'static str, String>) {
    if !run.wants(case) {
        return;
    }
    if run.state(case) {
        run.transition();
    }
    match mc_common::guard(f) {
        Ok(Ok(o)) => run.validated(o),
        Ok(Err(e)) => run.fail(case, e),
        Err(p) => run.fail(case, format!("panic: {p}")),
    }
}
/// The words of length `len` over `k` letters, as the jobs 0..k^len.
pub fn word(mut i: usize, k: usize, len: usize) -> Vec<usize> {
    let mut w = Vec::with_capacity(len);
    for _ in 0..len {
        w.push(i % k);
        i /= k;
    }
    w
}
pub fn name(w: &[usize]) -> String {
    w.iter().map(|x| char::from_digit(*x as u32, 36).unwrap()).collect()
}
/// Splits 0..n into chunks for the workers.
pub fn chunks(n: usize, by: usize) -> Vec<(usize, usize)> {
    (0..n.div_ceil(by)).map(|c| (c * by, ((c + 1) * by).min(n))).collect()
}
pub fn ok(c: bool, outcome: &'static str, d: impl FnOnce() -> String) -> Result<&'static str, String> {
    if c {
        Ok(outcome)
    } else {
        Err(d())
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let code = mc_common::main_guard(&id, || match id.as_str() {
        "C18" => msm::c18(),
        "C19" => msm::c19(),
        "C20" => algebra::c20(),
        "C21" => algebra::c21(),
        "C22" => codes::c22(),
        "C23" => opening::c23(),
        "C26" => keys::c26(),
        x => {
            eprintln!("unknown property {x}");
            2
        }
    });
    std::process::exit(code);
}
