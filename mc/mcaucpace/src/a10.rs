//! A10 use of the caller's random generator.
use crate::hasher::{par, Alt64, Out, Par, Rec};
use crate::party::*;
use crate::refm as rf;
use aucpace::{AuCPaceClient, ClientMessage};
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B};
use mccore::rng::Tape;
use mccore::{ensure, Ctx, Fail, Stats};
use sha2::Sha512;
use std::collections::HashMap;

const PRE: &[u8] = b"0123456789abcdef0123";
/// one step that needs randomness: the part of the stream it drew, and what it made of it
struct Step {
    label: &'static str,
    from: usize,
    to: usize,
    val: Vec<u8>,
    /// earlier steps whose randomness legitimately enters the value
    may: Vec<usize>,
    /// drawn bytes that have to matter at least
    min: usize,
    /// the value has to change with the stream
    must: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Begin,
    Reg(bool, bool),
    Login(bool),
    SBegin,
    Ltk,
    Info(V),
    Unknown(V),
}
const CLIENT: [Op; 7] = [Op::Begin, Op::Reg(false, false), Op::Reg(false, true), Op::Reg(true, false), Op::Reg(true, true), Op::Login(false), Op::Login(true)];
const SERVER: [Op; 6] = [Op::SBegin, Op::Ltk, Op::Info(V::Plain), Op::Info(V::Partial), Op::Info(V::Strong), Op::Info(V::PStrong)];
const UNKNOWN: [Op; 4] = [Op::Unknown(V::Plain), Op::Unknown(V::Partial), Op::Unknown(V::Strong), Op::Unknown(V::PStrong)];

fn db() -> Db {
    let mut db = Db::default();
    db.put(&Reg { user: b"user".to_vec(), salt: None, q: Some(rf::sc(3)), params: par("n=1"), verifier: rf::pt(2) });
    db.keys.insert(b"user".to_vec(), (rf::sc(1), B * rf::sc(1)));
    db
}
fn er(e: aucpace::Error) -> Fail {
    Fail::from(format!("unexpected error {e:?}"))
}
/// runs the operations over one generator
fn trace<D: Dg, const K: usize>(st: &mut Stats, ops: &[Op], tape: Tape) -> Result<Vec<Step>, Fail> {
    let mut o: Vec<Step> = vec![];
    let mut cl = AuCPaceClient::<D, Rec, Tape, K>::new(tape.clone());
    let from = tape.used();
    let mut sv = Base::<D, K>::new(tape.clone());
    o.push(Step { label: "server secret", from, to: tape.used(), val: vec![], may: vec![], min: 0, must: false });
    let db = db();
    for op in ops {
        st.step();
        let from = tape.used();
        let push = |o: &mut Vec<Step>, label, from, val: Vec<u8>, may, min| o.push(Step { label, from, to: tape.used(), val, may, min, must: true });
        match *op {
            Op::Begin | Op::SBegin => {
                let n = if *op == Op::Begin { cm(cl.begin().1) } else { sm(sv.begin().1) };
                let M::Nonce(n) = n else { return Err(Fail::from("no nonce")) };
                ensure!(n.len() == K, "nonce of {} bytes", n.len());
                push(&mut o, "nonce", from, n, vec![], K.min(16));
            }
            Op::Reg(strong, alloc) => {
                let r = register(&mut cl, strong, alloc, b"user", b"pw", Par { p: par("n=1"), fail: None }, Rec::new(Out::Len(32))).map_err(er)?;
                match (r.salt, r.q) {
                    (Some(s), _) => push(&mut o, "registration salt", from, [s.as_str().as_bytes(), &rf::enc(&r.verifier)].concat(), vec![], 16),
                    (_, Some(q)) => push(&mut o, "secret exponent", from, [&q.to_bytes()[..], &rf::enc(&r.verifier)].concat(), vec![], 32),
                    _ => return Err(Fail::from("registration of another kind")),
                }
            }
            Op::Login(strong) => {
                let p = cl.begin_prestablished_ssid(PRE).map_err(er)?;
                ensure!(tape.used() == from, "a pre-established session id needs no randomness");
                let c = if strong {
                    let (s, m) = p.start_augmentation_strong(b"user", b"pw", &mut tape.clone());
                    let ClientMessage::StrongUsername { blinded, .. } = m else { return Err(Fail::from("no user name")) };
                    push(&mut o, "blinding value", from, rf::enc(&blinded).to_vec(), vec![], 32);
                    s.generate_cpace_alloc(rf::pt(1), blinded * rf::sc(4), Par::default(), Rec::new(Out::Len(32))).map_err(er)?
                } else {
                    let (s, _) = p.start_augmentation(b"user", b"pw");
                    s.generate_cpace_alloc(rf::pt(1), &some_salt(), Par::default(), Rec::new(Out::Len(32))).map_err(er)?
                };
                let from = tape.used();
                let (_, m) = c.generate_public_key(b"ci", &mut tape.clone());
                let M::Pub(y) = cm(m) else { return Err(Fail::from("no public key")) };
                push(&mut o, "client ephemeral key", from, rf::enc(&y).to_vec(), vec![], 32);
            }
            Op::Ltk => {
                let (x, p) = sv.generate_long_term_keypair();
                ensure!(B * x == p, "key pair does not match");
                push(&mut o, "long-term key", from, x.to_bytes().to_vec(), vec![], 32);
            }
            Op::Info(v) | Op::Unknown(v) => {
                let unk = matches!(op, Op::Unknown(_));
                let u: &[u8] = if unk { b"nobody" } else { b"user" };
                let s = sv.begin_prestablished_ssid(PRE).map_err(er)?;
                ensure!(tape.used() == from, "a pre-established session id needs no randomness");
                let b = rf::pt(7);
                let (c, m) = match v {
                    V::Plain => s.generate_client_info(u, &db, tape.clone()),
                    V::Partial => s.generate_client_info_partial_aug(u, &db, tape.clone()),
                    V::Strong => s.generate_client_info_strong(u, b, &db, tape.clone()).map_err(er)?,
                    V::PStrong => s.generate_client_info_partial_strong(u, b, &db, tape.clone()).map_err(er)?,
                };
                let M::Aug { x_pub, .. } = sm(m) else { return Err(Fail::from("no info")) };
                let mid = tape.used();
                let (_, m) = c.generate_public_key(b"ci");
                let M::Pub(y) = sm(m) else { return Err(Fail::from("no public key")) };
                if unk {
                    push(&mut o, "answer to unknown user", from, [rf::enc(&x_pub), rf::enc(&y)].concat(), vec![0], if v.partial() { 48 } else { 80 });
                } else {
                    let ix = o.len();
                    if v.partial() {
                        ensure!(mid == from, "partial augmentation needs no new long-term key");
                    } else {
                        o.push(Step { label: "server key X", from, to: mid, val: rf::enc(&x_pub).to_vec(), may: vec![], min: 32, must: true });
                    }
                    push(&mut o, "server ephemeral key", mid, rf::enc(&y).to_vec(), if v.partial() { vec![] } else { vec![ix] }, 32);
                }
            }
        }
    }
    Ok(o)
}
/// every drawn bit (or one bit of every byte) changes the value of its own step and of no unrelated one
fn flips<D: Dg, const K: usize>(st: &mut Stats, ops: &[Op], seed: u64, all: bool) -> Result<(), Fail> {
    let t = Tape::new(seed);
    let base = trace::<D, K>(st, ops, t.clone())?;
    let again = trace::<D, K>(st, ops, Tape::new(seed))?;
    ensure!(base.len() == again.len() && base.iter().zip(&again).all(|(a, b)| a.val == b.val), "{ops:?}: results differ with the same random stream");
    for (i, a) in base.iter().enumerate() {
        for b in &base[..i] {
            ensure!(!a.must || !b.must || a.val.is_empty() || a.val != b.val, "{ops:?}: {} and {} have the same value", a.label, b.label);
        }
    }
    let used = t.used();
    // values that single-bit changes of a step's own randomness lead to: parts of it must not be folded onto each other
    let mut to: Vec<HashMap<Vec<u8>, usize>> = vec![HashMap::new(); base.len()];
    let mut eff = vec![0; base.len()];
    for p in 0..used {
        let mut hit = false;
        for bit in 0..8 {
            if !all && bit != (p as u64 + seed) % 8 {
                continue;
            }
            let x = trace::<D, K>(st, ops, Tape::new(seed).flip(p * 8 + bit as usize))?;
            ensure!(x.len() == base.len(), "number of steps changes");
            let Some(own) = base.iter().position(|s| s.from <= p && p < s.to) else { continue };
            for (i, (a, b)) in base.iter().zip(&x).enumerate() {
                let ch = a.val != b.val;
                if i == own && a.must {
                    ensure!(ch, "{ops:?}: bit {bit} of byte {} drawn for the {} has no effect", p - a.from, a.label);
                    hit = true;
                    if let Some(o) = to[i].insert(b.val.clone(), p * 8 + bit as usize) {
                        return Err(Fail::from(format!("{ops:?}: changing bit {o} or bit {} of the stream gives the same {}", p * 8 + bit as usize, a.label)));
                    }
                } else if ch && i != own {
                    ensure!(a.may.contains(&own), "{ops:?}: a bit drawn for the {} (step {own}) changes the {} (step {i})", base[own].label, a.label);
                }
            }
            st.state(&(own, p, base[own].label));
        }
        if let (true, Some(own)) = (hit, base.iter().position(|s| s.from <= p && p < s.to)) {
            eff[own] += 1;
        }
    }
    for (s, e) in base.iter().zip(eff) {
        ensure!(e >= s.min, "{ops:?}: only {e} drawn bytes enter the {}", s.label);
        if s.must {
            st.outcome(s.label);
        }
    }
    st.trace();
    Ok(())
}
fn sequences(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut o: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..n {
        o = o.iter().flat_map(|s| ops.iter().map(move |x| [&s[..], &[*x]].concat())).collect();
    }
    o
}
fn bits<D: Dg, const K: usize>(ctx: &Ctx, name: &str) {
    let mut l = sequences(&CLIENT, 1);
    l.extend(sequences(&SERVER, 1));
    l.extend(sequences(&UNKNOWN, 1));
    ctx.par(&format!("bits/{name}/K1={K}"), l.len(), |w, j| {
        w.case(&format!("{:?}", l[j]), |st| {
            for s in 0..ctx.t(1, 6) {
                flips::<D, K>(st, &l[j], s, true)?;
            }
            Ok(())
        });
    });
}
/// an unknown user's X and Ya use different draws
/// nonces of any size are drawn whole
fn long<D: Dg, const K: usize>(ctx: &Ctx) {
    let l = [Op::Begin, Op::SBegin];
    ctx.par(&format!("nonce/K1={K}"), l.len(), |w, j| {
        w.case(&format!("{:?}", l[j]), |st| flips::<D, K>(st, &l[j..=j], 0, true));
        // every byte of it is random: none is the same in 24 streams
        w.case(&format!("{:?}/every byte", l[j]), |st| {
            let mut all: Vec<Vec<u8>> = vec![];
            for s in 0..24 {
                all.extend(trace::<D, K>(st, &l[j..=j], Tape::new(7000 + s))?.into_iter().filter(|s| s.label == "nonce").map(|s| s.val));
            }
            for i in 0..K {
                ensure!(all.iter().any(|n| n[i] != all[0][i]), "byte {i} of a nonce of {K} bytes is not random");
            }
            Ok(())
        });
    });
}
fn separate(ctx: &Ctx) {
    ctx.par("unknown", 4 * ctx.t(3, 20), |w, j| {
        let op = UNKNOWN[j % 4];
        w.case(&format!("{op:?}/{}", j / 4), |st| {
            let seed = j as u64;
            let t = Tape::new(seed);
            let b = trace::<Sha512, 16>(st, &[op], t.clone())?;
            let (x, y) = b[1].val.split_at(32);
            for bit in b[1].from * 8..t.used() * 8 {
                let c = trace::<Sha512, 16>(st, &[op], Tape::new(seed).flip(bit))?;
                let (x2, y2) = c[1].val.split_at(32);
                ensure!(x == x2 || y == y2, "{op:?}: X and Ya of an unknown user depend on the same draw");
            }
            st.trace();
            Ok(())
        });
    });
}
fn streams<D: Dg, const K: usize>(ctx: &Ctx, name: &str) {
    let all: Vec<Op> = CLIENT.iter().chain(&SERVER).chain(&UNKNOWN).copied().collect();
    ctx.par(&format!("streams/{name}/K1={K}"), all.len(), |w, j| {
        w.case(&format!("{:?}", all[j]), |st| {
            let mut seen: HashMap<(usize, Vec<u8>), u64> = HashMap::new();
            let mut nonce: Vec<[bool; 256]> = vec![];
            for s in 0..ctx.t(300, 3000) {
                for (i, x) in trace::<D, K>(st, &[all[j], all[j]], Tape::new(1_000_000 + s))?.iter().enumerate() {
                    if !x.must || x.val.is_empty() || (x.label == "nonce" && K < 8) {
                        continue;
                    }
                    if x.label == "nonce" || x.label == "registration salt" {
                        nonce.resize(x.val.len(), [false; 256]);
                        for (k, b) in x.val.iter().enumerate() {
                            nonce[k][*b as usize] = true;
                        }
                    }
                    if let Some(o) = seen.insert((0, x.val.clone()), s) {
                        return Err(Fail::from(format!("streams {o} and {s} give the same {} (step {i})", x.label)));
                    }
                }
            }
            for (k, f) in nonce.iter().enumerate() {
                // the last character of a salt carries 2 bits only
                let n = f.iter().filter(|x| **x).count();
                ensure!(n > 3, "byte {k} of the nonce or salt takes only {n} values over all streams");
            }
            st.trace();
            Ok(())
        });
    });
}
pub fn a10(ctx: &Ctx) {
    ctx.bound("every bit of the random stream used by each of 17 operations (client and server nonce, registration x4, blinding, ephemeral keys, long-term keys, answers to known and unknown users in 4 variants), nonce sizes 0,1,16,32,64,100 (nonces also 255,256,300,1025), 2 hashes");
    ctx.bound("all sequences of 2 (thorough 3) client operations and of 2 (thorough 3) server operations over one generator, one bit of every byte; 300 (thorough 3000) streams per operation pairwise different");
    bits::<Sha512, 16>(ctx, "sha512");
    bits::<Sha512, 0>(ctx, "sha512");
    bits::<Sha512, 1>(ctx, "sha512");
    bits::<Sha512, 32>(ctx, "sha512");
    bits::<Sha512, 64>(ctx, "sha512");
    bits::<Sha512, 100>(ctx, "sha512");
    long::<Sha512, 1>(ctx);
    long::<Sha512, 16>(ctx);
    long::<Sha512, 32>(ctx);
    long::<Sha512, 64>(ctx);
    long::<Sha512, 255>(ctx);
    long::<Sha512, 256>(ctx);
    long::<Sha512, 300>(ctx);
    long::<Sha512, 1025>(ctx);
    bits::<Alt64, 16>(ctx, "alt64");
    let n = ctx.t(2, 3);
    for (name, ops) in [("client", &CLIENT[..]), ("server", &SERVER)] {
        let l = sequences(ops, n);
        ctx.par(&format!("sequences/{name}"), l.len(), |w, j| {
            w.case(&format!("{:?}", l[j]), |st| flips::<Sha512, 16>(st, &l[j], j as u64, !ctx.thorough));
        });
    }
    // client and server operations sharing one generator
    let l: Vec<Vec<Op>> = CLIENT.iter().flat_map(|a| SERVER.iter().flat_map(move |b| [vec![*a, *b], vec![*b, *a]])).collect();
    ctx.par("sequences/mixed", l.len(), |w, j| {
        w.case(&format!("{:?}", l[j]), |st| flips::<Sha512, 16>(st, &l[j], j as u64, ctx.thorough));
    });
    separate(ctx);
    streams::<Sha512, 16>(ctx, "sha512");
    streams::<Sha512, 64>(ctx, "sha512");
    streams::<Alt64, 32>(ctx, "alt64");
}
