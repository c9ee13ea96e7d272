mod checks;
mod dig;
mod grp;
mod r06;
mod refm;

fn main() {
    let c = mccore::Ctx::from_args();
    let p = c.prop.clone();
    let body = match p.as_str() {
        "R01" => checks::r01,
        "R02" => checks::r02,
        "R03" => checks::r03,
        "R04" => checks::r04,
        "R05" => checks::r05,
        "R06" => r06::run,
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    };
    c.run("model_checking", body)
}
