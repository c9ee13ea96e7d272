mod drive;
mod refm;
mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod toy;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("child-os") {
        return s05::child();
    }
    let c = mccore::Ctx::from_args();
    let p = c.prop.clone();
    let body = match p.as_str() {
        "S01" => s01::run,
        "S02" => s02::run,
        "S03" => s03::run,
        "S04" => s04::run,
        "S05" => s05::run,
        "S06" => s06::run,
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    };
    c.run("model_checking", body)
}
