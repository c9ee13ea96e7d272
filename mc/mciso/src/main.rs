#[path = "../../mcsrp/src/dig.rs"]
#[allow(dead_code)]
mod dig;
#[path = "../../mcsrp/src/grp.rs"]
#[allow(dead_code)]
mod grp;
#[path = "../../mcaucpace/src/hasher.rs"]
#[allow(dead_code)]
mod hasher;
mod kinds;
#[path = "../../mcaucpace/src/party.rs"]
#[allow(dead_code)]
mod party;
#[path = "../../mcsrp/src/refm.rs"]
#[allow(dead_code)]
mod refm;
mod stars;
mod tick;
#[path = "../../mcspake2/src/toy.rs"]
#[allow(dead_code)]
mod toy;
mod x01;
mod x03;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--child") {
        return x01::child();
    }
    let c = mccore::Ctx::from_args();
    let p = c.prop.clone();
    let body = match p.as_str() {
        "X01" => x01::run,
        "X03" => x03::run,
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    };
    c.run("model_checking", body)
}
