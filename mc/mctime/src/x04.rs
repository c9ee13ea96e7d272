use crate::dig::{T1, T2, Twin20, Wide128};
use crate::hasher::{par, Alt64, Out, Par, Rec};
use crate::party::*;
use crate::step::{stepped, Trace, CAP};
use aucpace::client::AuCPaceClientExpMutAuth;
use aucpace::server::AuCPaceServerExpMutAuth;
use aucpace::AuCPaceClient;
use digest::Digest;
use mccore::dig64::Cheap64;
use mccore::rng::Tape;
use mccore::{ensure, fail, Ctx, Fail, Stats, R};
use sha1::Sha1;
use sha2::{Sha256, Sha384, Sha512};
use srp::client::SrpClient;
use srp::server::SrpServer;
use srp::types::SrpGroup;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

thread_local! {
    static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// wrong proofs of the right length: number of cases and the i-th of them
fn family(p: &[u8], deep: bool) -> Vec<(String, Vec<u8>)> {
    let n = p.len();
    let mut o = vec![];
    let mut add = |l: String, v: Vec<u8>| {
        if v != p {
            o.push((l, v))
        }
    };
    add("all wrong".into(), p.iter().map(|b| !b).collect());
    add("all zero".into(), vec![0; n]);
    add("all 0xff".into(), vec![0xff; n]);
    if n <= 2 {
        for x in 0..1usize << (8 * n) {
            add(format!("{x:x}"), (0..n).map(|i| (x >> (8 * i)) as u8).collect());
        }
        return o;
    }
    // one wrong byte, in every way of one bit
    for i in 0..n {
        for k in 0..8 {
            if deep || k == i % 8 {
                let mut v = p.to_vec();
                v[i] ^= 1 << k;
                add(format!("bit {k} of byte {i} wrong"), v);
            }
        }
    }
    // a range of right bytes
    for i in 0..n {
        for j in i + 1..=n {
            if i == 0 || j == n || (deep && (n < 40 || (i % 4 == 0 && j % 4 == 0) || j - i == 1)) {
                add(format!("bytes {i}..{j} right"), (0..n).map(|k| if (i..j).contains(&k) { p[k] } else { !p[k] }).collect());
            }
        }
    }
    // two wrong bytes such that sums or xors of the differences vanish
    for i in 0..n {
        for j in i + 1..n {
            if j == i + 1 && (deep || i % 4 == 3) || (i == 0 && j == n - 1) || (deep && (i + j) % 16 == 0) {
                for (x, y) in [(1u8, 1u8), (0x80, 0x80), (0xff, 0x01)] {
                    let mut v = p.to_vec();
                    v[i] ^= x;
                    v[j] ^= y;
                    add(format!("bytes {i} and {j} wrong by {x:x}, {y:x}"), v);
                }
            }
        }
    }
    // every pattern of right and wrong among the first and among the last bytes
    let w = if deep { 8 } else { 3 }.min(n);
    for m in 0..1usize << w {
        add(format!("first bytes, pattern {m:b}"), (0..n).map(|k| if k < w && m >> k & 1 == 1 { p[k] } else { p[k] ^ 0x55 }).collect());
        add(format!("last bytes, pattern {m:b}"), (0..n).map(|k| if k >= n - w && m >> (n - 1 - k) & 1 == 1 { p[k] } else { p[k] ^ 0x55 }).collect());
    }
    // values of the first and the last byte
    for i in [0, n - 1] {
        for b in (0..=255u8).step_by(if deep { 1 } else { 37 }) {
            let mut v = p.to_vec();
            v[i] = b;
            add(format!("byte {i} is {b:02x}"), v);
        }
    }
    o
}
fn same(st: &mut Stats, what: &str, fam: &[(String, Vec<u8>)], mut one: impl FnMut(&[u8]) -> Result<(Option<String>, Trace), Fail>) -> R {
    if let Some((_, v)) = fam.first() {
        // warm up whatever is initialised on first use
        one(v)?;
    }
    let mut first: Option<(&str, String, Trace)> = None;
    for (l, v) in fam {
        let (e, t) = one(v)?;
        let Some(e) = e else { fail!("{what}: a wrong proof is accepted ({l})") };
        if t.n < 10 {
            eprintln!("engine error: single stepping does not work here ({} steps)", t.n);
            std::process::exit(2);
        }
        ensure!(t.n < CAP, "{what}: more than {CAP} instructions to refuse a proof");
        match first {
            None => first = Some((l, e, t)),
            Some((ref l0, ref e0, t0)) => {
                ensure!(*e0 == e, "{what}: the error is {e0} when {l0} and {e} when {l}");
                if t != t0 {
                    // must be reproducible
                    let again = one(v)?.1;
                    ensure!(again != t, "{what}: refusing a proof takes {} instructions when {l0} and {} (or another path) when {l}", t0.n, t.n);
                    fail!("{what}: refusing the same proof ({l}) takes {} or {} instructions", t.n, again.n);
                }
            }
        }
        st.step();
        STEPS.set(STEPS.get() + t.n);
        // tell the parent that this goes on
        println!(".");
        st.state(&(what, v));
    }
    st.trace();
    Ok(())
}
/// every part starts with the same proof
fn slice(all: &[(String, Vec<u8>)], part: usize, pt: usize) -> Vec<(String, Vec<u8>)> {
    std::iter::once(&all[0]).chain(all.iter().skip(1 + pt).step_by(part)).cloned().collect()
}
#[derive(Clone)]
struct Job {
    deep: bool,
    what: String,
    /// SRP: group, AuCPace: variant
    sub: usize,
    session: usize,
    server: bool,
    part: usize,
    pt: usize,
}
fn srp<D: Digest>(j: &Job, st: &mut Stats) -> R {
    let toy = SrpGroup { n: 2879u32.into(), g: 7u32.into() };
    let g = if j.sub == 0 { &toy } else { &*srp::groups::G_1024 };
    let (a, b) = (format!("client secret {}", j.session), format!("server secret {}", j.session));
    let (c, sv) = (SrpClient::<D>::new(g), SrpServer::<D>::new(g));
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    let bp = sv.compute_public_ephemeral(b.as_bytes(), &v);
    let ap = c.compute_public_ephemeral(a.as_bytes());
    let e = |_| Fail::from("honest session failed");
    let cl = c.process_reply(a.as_bytes(), b"alice", b"password", b"salt", &bp).map_err(e)?;
    let sr = sv.process_reply(b.as_bytes(), &v, &ap).map_err(e)?;
    let p = if j.server { cl.proof().to_vec() } else { sr.proof().to_vec() };
    let fam = slice(&family(&p, j.deep), j.part, j.pt);
    same(st, &j.label(), &fam, |m| {
        Ok(if j.server {
            let (r, t) = stepped(|| sr.verify_client(m).err());
            (r.map(|e| format!("{e:?} ({e})")), t)
        } else {
            let (r, t) = stepped(|| cl.verify_server(m).err());
            (r.map(|e| format!("{e:?} ({e})")), t)
        })
    })
}
type Waiting<D, const K: usize> = (Option<AuCPaceClientExpMutAuth<D, K>>, Option<AuCPaceServerExpMutAuth<D, K>>, Vec<u8>);
fn auc<D: Dg, const K: usize>(j: &Job, st: &mut Stats) -> R {
    let v = [V::Plain, V::Partial, V::Strong, V::PStrong][j.sub];
    let (s, server) = (j.session, j.server);
    let mut cl = AuCPaceClient::<D, Rec, Tape, K>::new(Tape::new(70));
    let r = register(&mut cl, v.strong(), false, b"alice", b"pw", Par { p: par("n=1"), fail: None }, Rec::new(Out::Len(32))).map_err(er)?;
    let mut db = Db::default();
    db.put(&r);
    let mut base = Base::<D, K>::new(Tape::new(71 + s as u64));
    db.keys.insert(b"alice".to_vec(), base.generate_long_term_keypair());
    let pre = if s % 2 == 0 { Some(b"a session id of enough bytes".to_vec()) } else { None };
    let cc = CCfg { user: b"alice".to_vec(), pw: b"pw".to_vec(), ci: b"ci".to_vec(), pre: pre.clone(), strong: v.strong(), alloc: s % 2 == 1, implicit: false, out: Out::Len(32) };
    let sc = SCfg { v, ci: b"ci".to_vec(), pre, implicit: false };
    // both parties up to the point where the server or the client waits for the authenticator
    let go = || -> Result<Waiting<D, K>, Fail> {
        let mut base = Base::<D, K>::new(Tape::new(5));
        let mut c = Cli::<D, K>::new(&cc, Tape::new(6));
        let mut sr = Srv::<D, K>::new(&sc, &db, Tape::new(7));
        let mut to_c = sr.start(&mut base).map_err(er)?;
        let mut to_s = c.start().map_err(er)?;
        loop {
            if let Some(m) = pop(&mut to_s) {
                if let (M::Auth(a), true) = (&m, server) {
                    let SSt::Exp(x) = std::mem::replace(&mut sr.st, SSt::Done) else { fail!("server is not waiting") };
                    return Ok((None, Some(x), a.to_vec()));
                }
                to_c.extend(sr.recv(&m).map_err(er)?);
            } else if let Some(m) = pop(&mut to_c) {
                if let (M::Auth(a), false) = (&m, server) {
                    let CSt::Exp(x) = std::mem::replace(&mut c.st, CSt::Done) else { fail!("client is not waiting") };
                    return Ok((Some(x), None, a.to_vec()));
                }
                to_s.extend(c.recv(&m).map_err(er)?);
            } else {
                fail!("no authenticator")
            }
        }
    };
    let want = go()?.2;
    let fam = slice(&family(&want, j.deep), j.part, j.pt);
    same(st, &j.label(), &fam, |m| {
        let (c, s, p) = go()?;
        ensure!(want == p, "the authenticator changes");
        let mut a = [0u8; 64];
        a.copy_from_slice(m);
        Ok(match (c, s) {
            (Some(c), _) => {
                let (r, t) = stepped(move || c.receive_server_authenticator(a).err());
                (r.map(|e| format!("{e:?} ({e})")), t)
            }
            (_, Some(s)) => {
                let (r, t) = stepped(move || s.receive_client_authenticator(a).err());
                (r.map(|e| format!("{e:?} ({e})")), t)
            }
            _ => fail!("?"),
        })
    })
}
fn pop(v: &mut Vec<M>) -> Option<M> {
    if v.is_empty() {
        None
    } else {
        Some(v.remove(0))
    }
}
fn er(e: aucpace::Error) -> Fail {
    Fail::from(format!("unexpected error {e:?}"))
}
impl Job {
    fn label(&self) -> String {
        let who = if self.server { "server" } else { "client" };
        match self.what.strip_prefix("au-") {
            Some(d) => format!("AuCPace {:?} {who} with {d}", [V::Plain, V::Partial, V::Strong, V::PStrong][self.sub]),
            None => format!("SRP {who} with {}", self.what),
        }
    }
    fn id(&self) -> String {
        format!("{}/{}/{}/{}/{}", self.what, self.sub, self.session, self.server as u8, self.pt)
    }
    fn args(&self) -> Vec<String> {
        let mut v = vec!["--child".to_string(), self.what.clone()];
        v.extend([self.deep as usize, self.sub, self.session, self.server as usize, self.part, self.pt].map(|n| n.to_string()));
        v
    }
    fn parse(a: &[String]) -> Option<Job> {
        let n: Vec<usize> = a[1..].iter().filter_map(|s| s.parse().ok()).collect();
        let [deep, sub, session, server, part, pt] = n[..] else { return None };
        Some(Job { deep: deep == 1, what: a[0].clone(), sub, session, server: server == 1, part, pt })
    }
    fn run(&self, st: &mut Stats) -> R {
        match self.what.as_str() {
            "T1" => srp::<T1>(self, st),
            "T2" => srp::<T2>(self, st),
            "SHA-1" => srp::<Sha1>(self, st),
            "Twin20" => srp::<Twin20>(self, st),
            "SHA-256" => srp::<Sha256>(self, st),
            "SHA-384" => srp::<Sha384>(self, st),
            "SHA-512" => srp::<Sha512>(self, st),
            "Wide128" => srp::<Wide128>(self, st),
            "au-a cheap digest" => auc::<Cheap64, 16>(self, st),
            "au-plain SHA-512" => auc::<Sha512, 16>(self, st),
            "au-a cheap digest, no nonce" => auc::<Cheap64, 0>(self, st),
            _ => auc::<Alt64, 16>(self, st),
        }
    }
}
/// one job in a process of its own (signals of the threads of one process would wait for each other)
pub fn child() {
    mccore::install_hook();
    let a: Vec<String> = std::env::args().skip(2).collect();
    let Some(j) = Job::parse(&a) else { std::process::exit(2) };
    let mut st = Stats::default();
    match mccore::guard(|| j.run(&mut st)) {
        Ok(Ok(())) => println!("ok {} {}", st.transitions, STEPS.get()),
        Ok(Err(e)) => println!("fail {}", e.msg.replace('\n', " ")),
        Err(e) => println!("fail panic: {}", e.replace('\n', " ")),
    }
}
/// the last line the child prints
fn result(j: &Job) -> std::io::Result<String> {
    let mut c = Command::new(std::env::current_exe()?).args(j.args()).stdin(Stdio::null()).stdout(Stdio::piped()).spawn()?;
    let mut last = String::new();
    if let Some(o) = c.stdout.take() {
        for l in BufReader::new(o).lines() {
            last = l?;
            mccore::beat();
        }
    }
    let s = c.wait()?;
    if !s.success() {
        return Err(std::io::Error::other(format!("{s:?}")));
    }
    Ok(last)
}
pub fn run(ctx: &Ctx) {
    ctx.bound("SRP client and server with 7 (thorough 8) digests of 1..128 bytes, AuCPace client and server in 4 variants with a cheap digest (thorough: also SHA-512 and another): every wrong proof of 1 and (thorough) 2 bytes; for longer ones every prefix and every suffix of right bytes (thorough: every range), every single wrong byte (thorough: bit), pairs of wrong bytes, patterns of right and wrong among the first and last 3 (thorough 8) bytes: the sequence of executed machine instructions, single-stepped, is the same for all of them");
    ctx.assume("equal instruction sequences take equal time; the crates are compiled without optimisation, memcmp and bcmp compare byte by byte, memory comes from a bump arena");
    let deep = ctx.thorough;
    let mut jobs = vec![];
    let mut add = |what: &str, subs: usize, sessions: usize, part: usize| {
        for sub in 0..subs {
            for session in 0..sessions {
                for server in [true, false] {
                    for pt in 0..part {
                        jobs.push(Job { deep, what: what.into(), sub, session, server, part, pt });
                    }
                }
            }
        }
    };
    let k = ctx.t(1, 4);
    add("au-a cheap digest", 4, 1, 2 * k);
    if deep {
        add("au-a cheap digest, no nonce", 4, 2, 8);
        add("au-plain SHA-512", 1, 1, 16);
        add("au-other digest", 4, 1, 16);
    }
    add("Wide128", 1, 1, 4 * k);
    add("SHA-512", 1, 1, 2 * k);
    add("SHA-384", 1, 1, 2 * k);
    add("SHA-256", 2, k, k);
    add("SHA-1", 2, k, k);
    add("Twin20", 1, 1, k);
    add("T1", 1, k, 1);
    if deep {
        add("T2", 1, 1, 16);
    }
    ctx.par("refusals", jobs.len(), |w, i| {
        let j = &jobs[i];
        w.case(&j.id(), |st| {
            let o = match result(j) {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("engine error: {e}");
                    std::process::exit(2)
                }
            };
            if let Some(m) = o.strip_prefix("fail ") {
                fail!("{m}")
            }
            let n: Vec<u64> = o.strip_prefix("ok ").unwrap_or("").split(' ').filter_map(|n| n.parse().ok()).collect();
            let [n, instructions] = n[..] else { fail!("a fresh process printed {o}") };
            st.steps(instructions);
            for x in 0..n {
                st.state(&(i, x));
            }
            st.trace();
            Ok(())
        })
    });
}
