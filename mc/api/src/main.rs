mod batching;
mod config;
mod encoding;
mod history;
mod prover;
mod recovery;
mod setup;
mod util;
mod verifier;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let code = mc_common::main_guard(&id, || match id.as_str() {
        "C01" => prover::c01(),
        "C02" | "C03" => prover::c02_c03(&id),
        "C04" => verifier::c04(),
        "C05" => verifier::c05(),
        "C06" => batching::c06(),
        "C07" => verifier::c07(),
        "C08" => recovery::c08(),
        "C09" => recovery::c09(),
        "C10" => encoding::c10(),
        "C11" => history::c11(),
        "C13" => config::c13(),
        "C24" => setup::c24(),
        x => {
            eprintln!("unknown property {x}");
            2
        }
    });
    std::process::exit(code);
}
