//! The tiny instances alone: mc_small <property id>.
fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let run = mc_common::Run::new(&id);
    match id.as_str() {
        "C01" => mc_small::c01(&run),
        "C02" | "C03" => mc_small::c02_c03(&run, &id),
        "C04" => mc_small::c04(&run),
        "C05" => mc_small::c05(&run),
        "C07" => mc_small::c07(&run),
        "C08" => mc_small::c08(&run),
        "C09" => mc_small::c09(&run),
        "C10" => mc_small::c10(&run),
        "C11" => mc_small::c11(&run),
        "C13" => mc_small::c13(&run),
        "C24" => mc_small::c24(&run),
        x => panic!("unknown property {x}"),
    }
    std::process::exit(run.finish("tiny instances only", &[]));
}
