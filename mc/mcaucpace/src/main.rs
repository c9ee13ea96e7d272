mod a01;
mod a03;
mod a05;
mod a06;
mod a07;
mod a08;
mod a10;
mod hasher;
mod party;
mod refm;
mod world;

fn main() {
    let c = mccore::Ctx::from_args();
    let p = c.prop.clone();
    let body = match p.as_str() {
        "A01" => a01::a01,
        "A02" => a01::a02,
        "A03" => a03::a03,
        "A04" => a03::a04,
        "A05" => a05::a05,
        "A06" => a06::a06,
        "A07" => a07::a07,
        "A08" => a08::a08,
        "A09" => a08::a09,
        "A10" => a10::a10,
        "A11" => a05::a11,
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    };
    c.run("model_checking", body)
}
