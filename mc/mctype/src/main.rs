//! X05: every session is used up step by step.
//!
//! The model (session types and calls) is read from rustdoc's description of the crates; every call
//! sequence it allows is enumerated and judged; every sequence, every repetition of a step and every
//! step out of order is then generated as a program and given to the compiler.
mod model;
mod spec;
use mccore::{ensure, fail, Ctx};
use model::{Call, Model, Recv};
use spec::{Crate, Step, AUCPACE, KEY, SPAKE2};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::process::{Command, Stdio};

fn engine(m: String) -> ! {
    eprintln!("engine error: {m}");
    std::process::exit(2)
}
fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
}
fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or("/repo".into())
}
fn target() -> String {
    format!("{}/target/x05", verif())
}
fn interface(k: &Crate) -> Model {
    let dir = target();
    let json = format!("{dir}/doc/{}.json", k.name);
    let _ = std::fs::remove_file(&json);
    let man = format!("{}/{}/Cargo.toml", repo(), k.name);
    let o = Command::new("cargo")
        .args(["rustdoc", "--offline", "--locked", "--lib", "--all-features", "--manifest-path", &man, "--", "-Zunstable-options", "--output-format", "json", "--document-hidden-items", "--cap-lints", "warn"])
        .env("RUSTUP_TOOLCHAIN", "nightly")
        .env("CARGO_TARGET_DIR", &dir)
        .stdin(Stdio::null())
        .output();
    match o {
        Ok(o) if o.status.success() => (),
        Ok(o) => engine(format!("rustdoc of {}: {}", k.name, String::from_utf8_lossy(&o.stderr))),
        Err(e) => engine(format!("cargo: {e}")),
    }
    let text = std::fs::read_to_string(&json).unwrap_or_else(|e| engine(format!("{json}: {e}")));
    let v = serde_json::from_str(&text).unwrap_or_else(|e| engine(format!("{json}: {e}")));
    model::read(&v).unwrap_or_else(|| engine(format!("{json}: unknown format")))
}
/// one generated function: where it is and what the compiler must say about it
struct Probe {
    name: String,
    body: String,
    expect: Option<&'static str>,
}
/// compiles the programs; per program and probe the error codes
fn compile(files: &[(&str, &[Probe])]) -> Vec<Vec<BTreeSet<String>>> {
    let gen = format!("{}/x05-gen", format!("{}/target", verif()));
    let _ = std::fs::create_dir_all(&gen);
    let mut lines: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (f, ps) in files {
        let mut s = spec::PRELUDE.replace("#![allow(unused, non_snake_case)]\n", "");
        let mut starts = vec![];
        for (i, p) in ps.iter().enumerate() {
            starts.push(s.matches('\n').count() + 1);
            let _ = writeln!(s, "{}\n{}\n}}", spec::head(&format!("p{i}")), p.body);
        }
        lines.insert(f.to_string(), starts);
        if let Err(e) = std::fs::write(format!("{gen}/{f}.rs"), s) {
            engine(format!("{gen}: {e}"))
        }
        // the included file is what changes
        let main = format!("{}/mc/x05probe/src/bin/{f}.rs", verif());
        if !std::path::Path::new(&main).exists() {
            engine(format!("{main} is missing"))
        }
    }
    let man = format!("{}/mc/x05probe/Cargo.toml", verif());
    let o = Command::new("cargo")
        .args(["check", "--offline", "--locked", "--bins", "--keep-going", "--message-format=json", "--manifest-path", &man])
        .env("X05_GEN", &gen)
        .env("RUSTFLAGS", "-Awarnings")
        .env("CARGO_TARGET_DIR", target())
        .stdin(Stdio::null())
        .output();
    let o = o.unwrap_or_else(|e| engine(format!("cargo: {e}")));
    let mut res: Vec<Vec<BTreeSet<String>>> = files.iter().map(|(_, p)| vec![BTreeSet::new(); p.len()]).collect();
    let mut built = BTreeSet::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let lib = v["target"]["name"].as_str().unwrap_or("").to_string();
        if v["reason"] == "compiler-artifact" {
            built.insert(lib.clone());
        }
        if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
            continue;
        }
        let Some(k) = files.iter().position(|f| f.0 == lib) else { engine(format!("{lib}: {}", v["message"]["rendered"])) };
        let code = v["message"]["code"]["code"].as_str().unwrap_or("").to_string();
        let span = v["message"]["spans"].as_array().and_then(|s| s.iter().find(|s| s["is_primary"] == true));
        let Some(span) = span else {
            if v["message"]["message"].as_str().unwrap_or("").starts_with("aborting") {
                continue;
            }
            engine(format!("{lib}: {}", v["message"]["rendered"]))
        };
        let line = span["line_start"].as_u64().unwrap_or(0) as usize;
        let i = lines[files[k].0].iter().rposition(|s| *s <= line);
        let Some(i) = i else { engine(format!("{lib}: {}", v["message"]["rendered"])) };
        res[k][i].insert(code);
    }
    for l in ["aucpace", "spake2"] {
        if !built.contains(l) {
            engine(format!("{l} does not build: {}", String::from_utf8_lossy(&o.stderr)))
        }
    }
    for (k, (f, _)) in files.iter().enumerate() {
        if !built.contains(*f) && res[k].iter().all(|s| s.is_empty()) {
            engine(format!("{f} was not compiled: {}", String::from_utf8_lossy(&o.stderr)))
        }
    }
    res
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--warm") {
        interface(&AUCPACE);
        interface(&SPAKE2);
        compile(&[("pos", &[]), ("again", &[]), ("disabled", &[])]);
        return;
    }
    let c = Ctx::from_args();
    if c.prop != "X05" {
        engine(format!("unknown property {}", c.prop));
    }
    c.run("model_checking", run)
}

/// all maximal sequences of steps
fn paths(k: &'static Crate) -> Vec<Vec<&'static Step>> {
    fn go(k: &'static Crate, at: &str, cur: &mut Vec<&'static Step>, out: &mut Vec<Vec<&'static Step>>) {
        if at == KEY {
            out.push(cur.clone());
            return;
        }
        for s in k.steps.iter().filter(|s| s.on == at) {
            cur.push(s);
            go(k, s.to, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    for s in k.start {
        go(k, s.to, &mut vec![s], &mut out);
    }
    out
}
fn label(p: &[&Step]) -> String {
    let mut v = vec![p[0].on];
    v.extend(p.iter().map(|s| s.name));
    v.join(".")
}
fn stmt(s: &Step, i: usize) -> String {
    s.code.replace('#', &format!("s{i}")).replace('@', &format!("s{}", i.wrapping_sub(1)))
}
fn is_state(k: &Crate, t: &str) -> bool {
    k.states.iter().any(|s| s.0 == t)
}
/// a call against the protocol
fn judge(k: &Crate, f: &Call) -> mccore::R {
    let who = format!("{}::{}", f.on, f.name);
    let out: Vec<&String> = f.out.types.iter().filter(|t| is_state(k, t)).collect();
    let gives = f.out.hash || f.out.bytes || f.out.scalar;
    if k.parties.contains(&f.on.as_str()) && f.takes.iter().all(|t| !is_state(k, t)) {
        for t in out {
            ensure!(k.start.iter().any(|s| s.on == f.on && s.to == t.as_str()), "{who} begins a session in the middle, as {t}");
        }
        return Ok(());
    }
    if !is_state(k, &f.on) && f.takes.iter().all(|t| !is_state(k, t)) {
        for t in out {
            fail!("{who} makes a session {t} from nothing");
        }
        return Ok(());
    }
    if f.recv == Recv::None && f.on != "" && f.takes.iter().all(|t| !is_state(k, t)) {
        // an associated function
        for t in out {
            ensure!(k.start.iter().any(|s| s.on == f.on && s.name == f.name && s.to == t.as_str()), "{who} makes a session {t} from nothing");
        }
        return Ok(());
    }
    ensure!(f.takes.iter().all(|t| !is_state(k, t)), "{who} takes a session that is not its own");
    let msg = f.out.types.iter().any(|t| t.ends_with("Message"));
    if f.recv != Recv::Value {
        ensure!(out.is_empty() && !gives && !msg, "{who} gives out {} and leaves the session as it was", if out.is_empty() { "a message, key or secret" } else { "a session" });
        return Ok(());
    }
    let step = k.steps.iter().find(|s| s.on == f.on && s.name == f.name);
    for t in &out {
        ensure!(**t != f.on, "{who} gives the session back");
        ensure!(k.steps.iter().any(|s| s.on == f.on && s.to == t.as_str()), "{who} leads to {t}, which is not the next step");
    }
    if gives && step.map(|s| s.to) != Some(KEY) {
        fail!("{who} gives out a key or secret before the last step");
    }
    if step.map(|s| s.to) == Some(KEY) {
        ensure!(out.is_empty(), "{who} gives out the key and a session");
        ensure!(f.args > 0, "{who} gives out the key without the peer's message");
    }
    Ok(())
}
const COPYING: [&str; 4] = ["Clone", "Copy", "Deserialize", "DeserializeOwned"];
const MAKING: [&str; 5] = ["Default", "From", "TryFrom", "FromStr", "FromIterator"];
const OPENING: [&str; 14] = [
    "Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "Index", "IndexMut", "Into", "TryInto", "Serialize", "Iterator", "IntoIterator", "Hash",
];
/// traits through which a session named in the trait's arguments would be turned into something else
const TURNING: [&str; 7] = ["From", "TryFrom", "Into", "TryInto", "Extend", "FromIterator", "Sum"];

fn run(c: &Ctx) {
    c.bound("every public function, type, field and trait implementation of aucpace and spake2 (all features), every call sequence of a session to its end, every repetition of a step, every step out of order");
    c.bound("one instantiation of the generic parameters in the compiled programs (SHA-512, scrypt, system generator, 16-byte nonces, Ed25519)");
    c.assume("safe code: a program cannot copy a session byte by byte; private parts of the crates are covered by the other properties");
    let crates = [(&AUCPACE, interface(&AUCPACE)), (&SPAKE2, interface(&SPAKE2))];
    // the model
    for (k, m) in &crates {
        let calls: Vec<&Call> = m.calls.iter().collect();
        c.par(&format!("{} calls", k.name), calls.len(), |w, i| {
            let f = calls[i];
            w.case(&format!("{}::{}{}", f.on, f.name, f.tr.as_ref().map(|t| format!(" of {t}")).unwrap_or_default()), |st| {
                st.step();
                st.state(&(k.name, &f.on, &f.name));
                st.outcome(if is_state(k, &f.on) { "call of a session" } else { "other call" });
                judge(k, f)
            });
        });
        let types: Vec<&String> = m.types.iter().collect();
        c.par(&format!("{} types", k.name), types.len(), |w, i| {
            let t = types[i];
            w.case(t, |st| {
                let (state, party) = (is_state(k, t), k.parties.contains(&t.as_str()));
                st.state(&(k.name, t));
                st.outcome(if state { "session" } else if party { "party" } else { "data" });
                if !state && !party {
                    return Ok(());
                }
                let none = BTreeSet::new();
                for tr in m.impls.get(t).unwrap_or(&none) {
                    st.step();
                    ensure!(!COPYING.contains(&tr.as_str()), "{t} implements {tr}: a session and its secrets can be copied");
                    ensure!(!state || !MAKING.contains(&tr.as_str()), "{t} implements {tr}: a session can be made without starting one");
                    ensure!(!OPENING.contains(&tr.as_str()), "{t} implements {tr}: the inside of a session is open");
                }
                if let Some(f) = m.fields.get(t) {
                    fail!("the fields {f:?} of {t} are public");
                }
                Ok(())
            });
        });
        c.par(&format!("{} conversions", k.name), m.about.len(), |w, i| {
            let (tr, on, types) = &m.about[i];
            w.case(&format!("{tr} for {on}, {types:?}"), |st| {
                st.step();
                st.state(&(k.name, tr, on, types));
                let held = types.iter().find(|t| is_state(k, t) || k.parties.contains(&t.as_str()));
                st.outcome(if held.is_some() { "about a session" } else { "about other types" });
                if let Some(t) = held {
                    let all = [&COPYING[..], &MAKING[..], &OPENING[..], &TURNING[..]].concat();
                    ensure!(!all.contains(&tr.as_str()), "{on} implements {tr} over {t}: a session turns into something else or is read without its next step");
                }
                Ok(())
            });
        });
        for s in k.states {
            if !m.types.contains(s.0) {
                engine(format!("{} has no public type {}", k.name, s.0))
            }
        }
    }
    // the model's executions, given to the compiler
    let (mut pos, mut again, mut dis) = (vec![], vec![], vec![]);
    let mut probed = BTreeSet::new();
    for k in [&AUCPACE, &SPAKE2] {
        for p in paths(k) {
            let body: Vec<String> = p.iter().enumerate().map(|(i, s)| stmt(s, i)).collect();
            pos.push(Probe { name: label(&p), body: body.join("\n"), expect: None });
            for i in 1..p.len() {
                for other in k.steps.iter().filter(|s| s.on == p[i].on) {
                    // up to here, then the step, then a step of the same session again
                    let head: Vec<&Step> = p[..=i].to_vec();
                    let name = format!("{} and then {} again", label(&head), other.name);
                    if !probed.insert(name.clone()) {
                        continue;
                    }
                    let mut b: Vec<String> = body[..=i].to_vec();
                    b.push(stmt(other, i).replace(&format!("let mut s{i} ="), "let _again ="));
                    again.push(Probe { name, body: b.join("\n"), expect: Some("E0382") });
                }
            }
        }
        let names: BTreeSet<&str> = k.steps.iter().map(|s| s.name).collect();
        for (t, ty) in k.states {
            for n in &names {
                if !k.steps.iter().any(|s| s.on == *t && s.name == *n) {
                    dis.push(Probe { name: format!("{t}.{n}"), body: format!("let _ = <{ty}>::{n};"), expect: Some("E0599") });
                }
            }
            dis.push(Probe { name: format!("{t} cloned"), body: format!("fn f(x: &{ty}) -> {ty} {{ x.clone() }}"), expect: Some("E0308") });
            dis.push(Probe { name: format!("{t} by default"), body: format!("let _ = <{ty}>::default();"), expect: Some("E0599") });
            again.push(Probe { name: format!("{t} copied"), body: format!("fn f(x: &{ty}) -> {ty} {{ *x }}"), expect: Some("E0507") });
        }
        for (t, ty) in [("AuCPaceClient", "Client"), ("AuCPaceServer", "Server")] {
            if k.parties.contains(&t) {
                dis.push(Probe { name: format!("{t} cloned"), body: format!("fn f(x: &{ty}) -> {ty} {{ x.clone() }}"), expect: Some("E0308") });
            }
        }
    }
    let files: [(&str, &[Probe]); 3] = [("pos", &pos), ("again", &again), ("disabled", &dis)];
    let res = compile(&files);
    for ((f, ps), r) in files.iter().zip(&res) {
        let what = match *f {
            "pos" => "sessions in order",
            "again" => "a step repeated",
            _ => "a step out of order",
        };
        c.par(what, ps.len(), |w, i| {
            let (p, got) = (&ps[i], &r[i]);
            w.case(&p.name, |st| {
                st.steps(p.body.lines().count() as u64);
                st.state(&(f, &p.body));
                st.trace();
                match p.expect {
                    None => {
                        st.outcome("accepted by the compiler");
                        if !got.is_empty() {
                            engine(format!("{}: {got:?}", p.name))
                        }
                    }
                    Some(e) => {
                        st.outcome(&format!("refused by the compiler: {e}"));
                        ensure!(!got.is_empty(), "the compiler accepts {}", p.name);
                        if !got.contains(e) {
                            engine(format!("{}: {got:?} instead of {e}", p.name))
                        }
                    }
                }
                Ok(())
            });
        });
    }
}
