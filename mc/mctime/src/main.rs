//! X04: refusing a wrong proof takes the same instructions whichever of its bytes are right.
#[path = "../../mcsrp/src/dig.rs"]
#[allow(dead_code)]
mod dig;
#[path = "../../mcaucpace/src/hasher.rs"]
#[allow(dead_code)]
mod hasher;
#[path = "../../mcaucpace/src/party.rs"]
#[allow(dead_code)]
mod party;
#[allow(unknown_lints, suspicious_runtime_symbol_definitions)]
mod step;
mod x04;

#[global_allocator]
static A: step::Alloc = step::Alloc;

fn main() {
    step::install();
    if std::env::args().nth(1).as_deref() == Some("--child") {
        return x04::child();
    }
    let c = mccore::Ctx::from_args();
    if c.prop != "X04" {
        eprintln!("unknown property {}", c.prop);
        std::process::exit(2)
    }
    c.run("model_checking", x04::run)
}
