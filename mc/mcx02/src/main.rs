//! X02: builds the probe once per build configuration (feature sets of aucpace and spake2, debug
//! or release), executes it, and compares the results of every call between all configurations.
use mccore::{ensure, fail, Ctx};
use std::collections::{BTreeMap, HashMap};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const AUC: [&str; 8] = ["alloc", "partial_augmentation", "strong_aucpace", "zeroize", "serde", "getrandom", "scrypt", "sha2"];
const SPA: [&str; 2] = ["getrandom", "std"];
const STRONG: u16 = 1 << 2;

#[derive(Clone, Copy, PartialEq, Eq)]
struct Conf {
    feat: u16,
    release: bool,
}
impl Conf {
    fn name(&self) -> String {
        let mut v: Vec<String> = vec![];
        for (i, f) in AUC.iter().enumerate() {
            if self.feat >> i & 1 == 1 {
                v.push(format!("aucpace/{f}"))
            }
        }
        for (i, f) in SPA.iter().enumerate() {
            if self.feat >> (8 + i) & 1 == 1 {
                v.push(format!("spake2/{f}"))
            }
        }
        format!("{}{{{}}}", if self.release { "release" } else { "debug" }, v.join(","))
    }
    fn probe_features(&self) -> String {
        let mut v: Vec<String> = vec![];
        for (i, f) in AUC.iter().enumerate() {
            if self.feat >> i & 1 == 1 {
                v.push(format!("f_{f}"))
            }
        }
        for (i, f) in SPA.iter().enumerate() {
            if self.feat >> (8 + i) & 1 == 1 {
                v.push(format!("sp_{f}"))
            }
        }
        v.join(",")
    }
    fn own_features(&self, auc: bool) -> String {
        let (names, bits): (&[&str], u16) = if auc { (&AUC, self.feat & 255) } else { (&SPA, self.feat >> 8) };
        names.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|x| *x.1).collect::<Vec<_>>().join(",")
    }
}
fn confs(thorough: bool) -> Vec<Conf> {
    let mut v: Vec<u16> = vec![0, 255];
    if thorough {
        v.extend(1..255);
    } else {
        v.extend((0..8).map(|i| 1 << i));
        v.extend((0..8).map(|i| 255 & !(1 << i)));
        v.extend((0..8).flat_map(|i| (0..i).map(move |j| 1 << i | 1 << j)));
    }
    let sp = [0u16, 3, 1, 2];
    let mut r: Vec<Conf> = v.iter().enumerate().map(|(i, f)| Conf { feat: f | sp[i % 4] << 8, release: false }).collect();
    let rel: &[u16] = if thorough { &[0, 1023, 255, 7, 256, 512 + 5] } else { &[1023] };
    r.extend(rel.iter().map(|f| Conf { feat: *f, release: true }));
    r
}

enum Built {
    Output(Vec<(String, String)>),
    /// a crate under test does not compile
    Broken(String),
}
fn engine(m: String) -> ! {
    eprintln!("engine error: {m}");
    std::process::exit(2)
}
fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
}
fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or("/repo".into())
}
fn cargo(slot: usize, args: &[&str]) -> (bool, String) {
    let target = format!("{}/target/x02-slot{slot}", verif());
    let out = Command::new("cargo").args(args).args(["--offline", "--locked"]).env("CARGO_TARGET_DIR", &target).env("CARGO_BUILD_JOBS", "2").stdin(Stdio::null()).output();
    match out {
        Ok(o) => (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned()),
        Err(e) => engine(format!("cargo: {e}")),
    }
}
fn excerpt(err: &str) -> String {
    err.lines().skip_while(|l| !l.starts_with("error")).take(6).collect::<Vec<_>>().join(" / ")
}
/// builds a configuration and runs the probe
fn build(c: Conf, slot: usize, own: bool) -> Built {
    let v = verif();
    if own {
        // the crates on their own, so that features of the probe's dependencies cannot help
        for (auc, krate) in [(true, "aucpace"), (false, "spake2")] {
            let (man, f) = (format!("{}/{krate}/Cargo.toml", repo()), c.own_features(auc));
            let (ok, err) = cargo(slot, &["check", "--lib", "--no-default-features", "--manifest-path", &man, "--features", &f]);
            if !ok {
                if err.contains(&format!("could not compile `{krate}`")) {
                    return Built::Broken(format!("{krate} with features [{f}]: {}", excerpt(&err)));
                }
                engine(format!("check of {krate} with [{f}]: {err}"));
            }
        }
    }
    let (man, f) = (format!("{v}/mc/x02probe/Cargo.toml"), c.probe_features() + if own { "" } else { ",curve25519-dalek/precomputed-tables,curve25519-dalek/alloc" });
    let mut args = vec!["build", "--manifest-path", &man, "--features", &f];
    if c.release {
        args.push("--release")
    }
    let (ok, err) = cargo(slot, &args);
    if !ok {
        for k in ["aucpace", "spake2", "srp"] {
            if err.contains(&format!("could not compile `{k}`")) {
                return Built::Broken(format!("{k} with {}: {}", c.name(), excerpt(&err)));
            }
        }
        // the probe itself: a function it calls does not exist or has another type here
        return Built::Broken(format!("public interface with {}: {}", c.name(), excerpt(&err)));
    }
    let exe = format!("{v}/target/x02-slot{slot}/{}/x02probe", if c.release { "release" } else { "debug" });
    let mut child = match Command::new(&exe).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => engine(format!("{exe}: {e}")),
    };
    let Some(mut so) = child.stdout.take() else { engine("no stdout".into()) };
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        s
    });
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if t.elapsed() > Duration::from_secs(120) => {
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(e) => engine(format!("wait: {e}")),
        }
    }
    let text = String::from_utf8_lossy(&reader.join().unwrap_or_default()).into_owned();
    let mut lines = vec![];
    for l in text.lines() {
        let mut it = l.splitn(3, ' ');
        let (a, b, r) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        lines.push((format!("{a} {b}"), r.to_string()));
    }
    let _ = std::fs::remove_file(&exe);
    if let Ok(d) = std::fs::read_dir(format!("{v}/target/x02-slot{slot}/{}/deps", if c.release { "release" } else { "debug" })) {
        for f in d.flatten() {
            if f.file_name().to_string_lossy().starts_with("x02probe-") {
                let _ = std::fs::remove_file(f.path());
            }
        }
    }
    Built::Output(lines)
}

fn main() {
    let slots: usize = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 4);
    if std::env::args().nth(1).as_deref() == Some("--warm") {
        std::thread::scope(|s| {
            for i in 0..slots {
                s.spawn(move || {
                    for f in [0, 1023] {
                        build(Conf { feat: f, release: false }, i, true);
                    }
                    if i == 0 {
                        build(Conf { feat: 1023, release: true }, i, true);
                    }
                });
            }
        });
        return;
    }
    let c = Ctx::from_args();
    if c.prop != "X02" {
        engine(format!("unknown property {}", c.prop));
    }
    c.run("model_checking", |c| run(c, slots))
}

fn run(c: &Ctx, slots: usize) {
    let cs = confs(c.thorough);
    c.bound(format!("{} build configurations: {} of the 256 feature sets of aucpace (none, all, each alone, each left out, each pair; thorough: all 256), all 4 of spake2, debug and release", cs.len(), if c.thorough { 256 } else { 46 }));
    c.bound("each configuration also compiled without the features that other crates could lend it");
    c.bound("per configuration: registration over 17x17 texts and 13 hasher outcomes per buffer kind, every protocol variant x buffer kind x implicit/explicit x ssid source x 6 user/password situations x 9 faults, 13 hasher outcomes per session, scrypt, error texts, postcard and bincode encodings with all single-byte damage, SPAKE2 over 3x20 texts and 300 damaged messages, SRP over 4 groups and hashes with secrets, verifiers, salts and public values of 11 to 19 lengths up to 2000 bytes and special values");
    c.assume("random generator, hasher and database are scripted; results above 200 bytes are compared by a 64-bit hash");
    // a crate that does not build on its own even with every feature says nothing about features
    let own = matches!(build(Conf { feat: 1023, release: false }, 0, true), Built::Output(_));
    if !own {
        c.bound("the crates do not build on their own with any feature set: only built next to the other crates of the probe");
    }
    let free = Mutex::new((0..slots).collect::<Vec<_>>());
    let res: Vec<Mutex<Option<Built>>> = cs.iter().map(|_| Mutex::new(None)).collect();
    // release builds only in slot 0, whose dependencies setup has built
    c.par("build", slots, |w, _| {
        let Some(slot) = free.lock().unwrap().pop() else { return };
        for (i, cf) in cs.iter().enumerate() {
            let mine = if cf.release { slot == 0 } else { i % slots == slot };
            if mine {
                let b = build(*cf, slot, own);
                w.case(&cf.name(), |st| {
                    st.state(&cf.name());
                    st.outcome(match &b {
                        Built::Output(_) => "built and run",
                        Built::Broken(_) => "not built",
                    });
                    Ok(())
                });
                *res[i].lock().unwrap() = Some(b);
            }
        }
    });
    let res: Vec<Built> = res.into_iter().filter_map(|m| m.into_inner().unwrap_or(None)).collect();
    if res.len() != cs.len() {
        return;
    }
    if res.iter().all(|b| matches!(b, Built::Broken(_))) {
        if let Some(Built::Broken(m)) = res.first() {
            engine(format!("nothing builds: {m}"));
        }
    }
    // the first configuration that has a result gives the expected one
    let is_index = |k: &str| k.starts_with("wire-index");
    let mut expect: HashMap<&str, (&str, usize)> = HashMap::new();
    let mut have: Vec<HashMap<&str, &str>> = vec![];
    for (i, b) in res.iter().enumerate() {
        let mut m = HashMap::new();
        if let Built::Output(ls) = b {
            for (k, v) in ls {
                if !is_index(k) {
                    expect.entry(k).or_insert((v, i));
                }
                m.insert(k.as_str(), v.as_str());
            }
        }
        have.push(m);
    }
    c.par("compare", cs.len(), |w, i| {
        let name = cs[i].name();
        w.case(&name, |st| {
            let ls = match &res[i] {
                Built::Broken(m) => fail!("does not compile although other configurations do: {m}"),
                Built::Output(ls) => ls,
            };
            for (k, v) in ls.iter().filter(|x| !is_index(&x.0)) {
                st.step();
                st.state(&(k, v));
                let (e, j) = expect[k.as_str()];
                ensure!(e == v, "{k}: {} gives {}, {name} gives {}", cs[j].name(), &e[..e.len().min(400)], &v[..v.len().min(400)]);
            }
            ensure!(ls.last().map(|l| l.0.as_str()) == Some("end ") || res.iter().all(|r| matches!(r, Built::Output(l) if l.last().map(|l| l.0.as_str()) != Some("end "))), "the calls end with a panic, an abort or a hang after {:?}", ls.last());
            st.trace();
            // what a smaller configuration offers is still there
            for j in 0..cs.len() {
                if cs[j].feat & !cs[i].feat == 0 && (cs[j].feat.count_ones() <= 2 || !c.thorough) {
                    for k in have[j].keys() {
                        ensure!(have[i].contains_key(k), "{k} has a result with {} and none with {name}", cs[j].name());
                    }
                }
            }
            Ok(())
        });
    });
    // message numbers
    let mut keys: BTreeMap<&str, BTreeMap<&str, Vec<usize>>> = BTreeMap::new();
    for (i, h) in have.iter().enumerate() {
        for (k, v) in h.iter().filter(|x| is_index(x.0)) {
            keys.entry(k).or_default().entry(v).or_default().push(i);
        }
    }
    let keys: Vec<_> = keys.into_iter().collect();
    c.par("message numbers", keys.len(), |w, i| {
        let (k, vs) = &keys[i];
        w.case(k, |st| {
            st.steps(vs.values().map(|v| v.len() as u64).sum());
            for (v, l) in vs {
                st.state(&(k, v));
                st.outcome(if l.is_empty() { "-" } else { "number" });
            }
            if vs.len() == 1 {
                return Ok(());
            }
            let side = |s: bool| vs.iter().filter(|(_, l)| l.iter().any(|i| (cs[*i].feat & STRONG != 0) == s)).map(|x| *x.0).collect::<Vec<_>>();
            let (off, on) = (side(false), side(true));
            let name = k.split(' ').nth(1).unwrap_or("");
            let describe = vs.iter().map(|(v, l)| format!("{v} with {}", cs[l[0]].name())).collect::<Vec<_>>().join(", ");
            let msg = format!("{name} is encoded with number {describe}");
            if off.len() == 1 && on.len() == 1 {
                return Err(mccore::Fail { key: Some(format!("index:{name}:{}:{}", off[0], on[0])), msg });
            }
            Err(msg.into())
        });
    });
}
