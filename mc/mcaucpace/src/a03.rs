//! A03 neutral elements, A04 session ids.
use crate::a08::{both, scalars, vs_client, vs_server, Sec};
use crate::hasher::{par, Alt64, Out};
use crate::party::*;
use crate::refm as rf;
use aucpace::{AuCPaceClient, Error};
use curve25519_dalek::traits::Identity;
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, ristretto::CompressedRistretto, RistrettoPoint as P, Scalar};
use mccore::rng::Tape;
use mccore::{alpha, ensure, Ctx, Fail, Stats};
use sha2::Sha512;
use std::collections::HashMap;

/// the neutral element in several internal representations
pub fn neutrals() -> Vec<P> {
    let mut v = vec![P::identity(), P::default(), B - B, B * Scalar::ZERO, B * -Scalar::ONE + B];
    v.extend(CompressedRistretto([0; 32]).decompress());
    for i in 0..6 {
        let p = rf::pt(50 + i);
        v.push(p - p);
        v.push(p * Scalar::ZERO);
        v.push(p * -Scalar::ONE + p);
        v.push(p * rf::sc(i) - p * rf::sc(i));
    }
    v
}
fn others(n: u64, full: bool) -> Vec<P> {
    let mut v: Vec<P> = (1..=n).map(|i| B * Scalar::from(i)).collect();
    v.extend((0..n).map(rf::pt));
    v.extend(v.clone().iter().map(|p| -p));
    v.extend(scalars().iter().map(|s| B * s));
    v.extend(rf::shapes(full));
    v
}
fn er(e: Error) -> Fail {
    Fail::from(format!("unexpected error {e:?}"))
}
fn judge<T>(r: Result<T, Error>, neutral: bool, what: &str) -> Result<(), Fail> {
    match (r, neutral) {
        (Ok(_), false) | (Err(Error::IllegalPointError), true) => Ok(()),
        (Ok(_), true) => Err(Fail::from(format!("{what}: the neutral element was accepted"))),
        (Err(e), true) => Err(Fail::from(format!("{what}: the neutral element was refused with {e:?}"))),
        (Err(e), false) => Err(Fail::from(format!("{what}: a regular element was refused with {e:?}"))),
    }
}
fn client<D: Dg, const K: usize>(st: &mut Stats, c: &CCfg, seed: u64, x: P, bl: Option<&dyn Fn(P) -> P>, ya: P, n: (bool, bool, bool)) -> Result<(), Fail> {
    let mut cl = Cli::<D, K>::new(c, Tape::new(seed));
    let mut m = cl.start().map_err(er)?;
    if c.pre.is_none() {
        m = cl.recv(&M::Nonce(vec![5; K])).map_err(er)?;
    }
    let M::User(_, u) = m[0] else { return Err(Fail::from("no user name")) };
    let a = M::Aug {
        x_pub: x,
        salt: if c.strong { None } else { Some(some_salt()) },
        blinded: match (u, bl) {
            (Some(u), Some(f)) => Some(f(u)),
            (Some(u), None) => Some(u * rf::sc(4)),
            _ => None,
        },
        params: par("a=1"),
        group: String::new(),
    };
    st.steps(2);
    let r = cl.recv(&a);
    let ok = r.is_ok();
    judge(r, n.0 || n.1, if n.0 { "client, server public value X" } else { "client, blinded salt" })?;
    if ok {
        st.step();
        let r = cl.recv(&M::Pub(ya));
        judge(r, n.2, "client, server public key Ya")?;
        ensure!(!n.2 || cl.key.is_none(), "key released");
    }
    st.trace();
    st.outcome(if n.0 || n.1 || n.2 { "neutral element refused" } else { "regular elements accepted" });
    Ok(())
}
fn server<D: Dg, const K: usize>(st: &mut Stats, c: &SCfg, db: &Db, user: &[u8], seed: u64, bl: P, yb: P, n: (bool, bool)) -> Result<(), Fail> {
    let mut base = Base::<D, K>::new(Tape::new(seed));
    let mut sv = Srv::<D, K>::new(c, db, Tape::new(seed + 1));
    sv.start(&mut base).map_err(er)?;
    if c.pre.is_none() {
        sv.recv(&M::Nonce(vec![5; K])).map_err(er)?;
    }
    st.steps(2);
    let r = sv.recv(&M::User(user.to_vec(), if c.v.strong() { Some(bl) } else { None }));
    let ok = r.is_ok();
    judge(r, n.0 && c.v.strong(), "server, blinded point")?;
    if ok {
        st.step();
        judge(sv.recv(&M::Pub(yb)), n.1, "server, client public key Yb")?;
        ensure!(!n.1 || sv.key.is_none(), "key released");
    }
    st.trace();
    st.outcome(if n.0 || n.1 { "neutral element refused" } else { "regular elements accepted" });
    Ok(())
}
fn ccfg(j: usize) -> CCfg {
    CCfg {
        user: b"user".to_vec(),
        pw: b"pw".to_vec(),
        ci: b"ci".to_vec(),
        pre: if j & 8 != 0 { crate::a01::pre() } else { None },
        strong: j & 1 != 0,
        alloc: j & 2 != 0,
        implicit: j & 4 != 0,
        out: Out::Len(if j & 16 != 0 { 64 } else { 32 }),
    }
}
fn a03_<D: Dg, const K: usize>(ctx: &Ctx, name: &str) {
    let (ne, ot) = (neutrals(), others(ctx.t(8, 40), ctx.thorough));
    ctx.par(&format!("client/{name}"), 32, |w, j| {
        let c = ccfg(j);
        w.case(&format!("{j}"), |st| {
            let ok = rf::pt(1);
            for (i, n) in ne.iter().enumerate() {
                let f = |_: P| *n;
                let s = i as u64;
                client::<D, K>(st, &c, s, *n, None, ok, (true, false, false))?;
                client::<D, K>(st, &c, s, ok, None, *n, (false, false, true))?;
                if c.strong {
                    client::<D, K>(st, &c, s, ok, Some(&f), ok, (false, true, false))?;
                    client::<D, K>(st, &c, s, *n, Some(&f), ok, (true, true, false))?;
                    let g = |u: P| u * Scalar::ZERO;
                    client::<D, K>(st, &c, s, ok, Some(&g), ok, (false, true, false))?;
                    let g = |u: P| u - u;
                    client::<D, K>(st, &c, s, ok, Some(&g), ok, (false, true, false))?;
                }
                // combinations of a neutral element with the base point
                client::<D, K>(st, &c, s, B, None, *n, (false, false, true))?;
            }
            for (i, p) in ot.iter().enumerate() {
                let q = ot[(i * 7 + 3) % ot.len()];
                let f = |_: P| *p;
                let s = i as u64;
                client::<D, K>(st, &c, s, *p, None, q, (false, false, false))?;
                client::<D, K>(st, &c, s, q, Some(&f), *p, (false, false, false))?;
                let f = |u: P| u;
                client::<D, K>(st, &c, s, *p, Some(&f), *p, (false, false, false))?;
                let f = |u: P| -u;
                client::<D, K>(st, &c, s, *p, Some(&f), *p, (false, false, false))?;
            }
            // the peer reflects what the party sent
            st.state(&j);
            Ok(())
        });
    });
    ctx.par(&format!("server/{name}"), 16, |w, j| {
        let v = VS[j % 4];
        let c = SCfg { v, ci: b"ci".to_vec(), pre: if j & 4 != 0 { crate::a01::pre() } else { None }, implicit: j & 8 != 0 };
        w.case(&format!("{j}"), |st| {
            let mut db = Db::default();
            for (u, q) in [("user", rf::sc(3)), ("one", Scalar::ONE), ("minus", -Scalar::ONE), ("zero", Scalar::ZERO)] {
                db.put(&Reg { user: u.into(), salt: None, q: Some(q), params: par("a=1"), verifier: rf::pt(2) });
                db.keys.insert(u.into(), (rf::sc(1), B * rf::sc(1)));
            }
            // a verifier without key pair, a key pair without verifier
            db.put(&Reg { user: "nokey".into(), salt: None, q: Some(rf::sc(3)), params: par("a=1"), verifier: rf::pt(2) });
            db.keys.insert("noverifier".into(), (rf::sc(1), B * rf::sc(1)));
            let ok = rf::pt(1);
            for user in ["user", "one", "minus", "zero", "nokey", "noverifier", "nobody", ""] {
                // with q = 0 every blinded salt is neutral
                let z = user == "zero";
                for (i, n) in ne.iter().enumerate() {
                    let s = 10 * i as u64;
                    server::<D, K>(st, &c, &db, user.as_bytes(), s, *n, ok, (true, false))?;
                    server::<D, K>(st, &c, &db, user.as_bytes(), s, ok, *n, (z, true))?;
                    server::<D, K>(st, &c, &db, user.as_bytes(), s, *n, *n, (true, true))?;
                }
                for (i, p) in ot.iter().enumerate() {
                    let q = ot[(i * 7 + 3) % ot.len()];
                    server::<D, K>(st, &c, &db, user.as_bytes(), i as u64, *p, q, (z, false))?;
                }
            }
            st.state(&(100 + j));
            Ok(())
        });
    });
}
pub fn a03(ctx: &Ctx) {
    ctx.bound("the neutral element in 30 internal representations at every entry point that takes a peer's element (X, blinded salt, blinded point, Ya, Yb), in all variants x buffer/alloc x explicit/implicit x negotiated/pre-established x registered / partly registered / unknown users x 2 hashes, plus records whose exponent is 0");
    ctx.bound("about 200 (thorough 900) regular elements (small multiples, negatives, hashed points, order-1, encodings that begin, end or are filled with special bytes, small and large field elements, reflections of the party's own element) at the same places");
    a03_::<Sha512, 16>(ctx, "sha512");
    a03_::<Alt64, 32>(ctx, "alt64");
}

pub fn a04(ctx: &Ctx) {
    ctx.bound("pre-established ids of every length 0..300 and 512..65536, 6 contents each, 4 argument types, both roles; all single edits of ids of 16..130 bytes: keys, authenticators and public keys of the sessions pairwise different and equal to the model's");
    ctx.bound("negotiated: all pairs of 40 special nonces (bit positions, swapped, equal) in both roles for nonce sizes 1,16,32,64,65,72,200: session data equal to the model's H0(s|t)");
    ctx.assume("SHA-2 collision resistance within the explored set");
    let lens: Vec<usize> = (0..=300).chain([512, 1000, 4096, 65535, 65536]).collect();
    ctx.par("length", lens.len(), |w, j| {
        let l = lens[j];
        w.case(&format!("{l}"), |st| {
            let mut c = AuCPaceClient::<Sha512, crate::hasher::Rec, Tape, 16>::new(Tape::new(1));
            let mut s = Base::<Sha512, 16>::new(Tape::new(2));
            let text: String = String::from_utf8_lossy(&alpha::base(l, 1)).into_owned();
            for b in [vec![0u8; l], vec![0xff; l], vec![b' '; l], alpha::base(l, 1), vec![0x80; l], (0..l).map(|i| i as u8).collect()] {
                let (rc, rs) = (c.begin_prestablished_ssid(&b).err(), s.begin_prestablished_ssid(&b[..]).err());
                st.steps(2);
                let want = if l < 16 { Some(Error::InsecureSsid) } else { None };
                ensure!(rc == want, "client: id of {l} bytes gives {rc:?}");
                ensure!(rs == want, "server: id of {l} bytes gives {rs:?}");
                st.outcome(if l < 16 { "refused" } else { "accepted" });
            }
            let want = if l < 16 { Some(Error::InsecureSsid) } else { None };
            ensure!(c.begin_prestablished_ssid(text.as_str()).err() == want && c.begin_prestablished_ssid(text.clone()).err() == want, "client: text id");
            ensure!(s.begin_prestablished_ssid(text.as_str()).err() == want && s.begin_prestablished_ssid(text).err() == want, "server: text id");
            st.steps(4);
            st.state(&l);
            st.trace();
            Ok(())
        });
    });
    // distinct ids give distinct sessions
    let mut sets: Vec<Vec<Vec<u8>>> = vec![];
    for l in [16usize, 17, 24, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 130] {
        let b = alpha::base(l, 4);
        let mut v = vec![b.clone()];
        v.extend(alpha::neighbours(&b).into_iter().map(|x| x.1).filter(|x| x.len() >= 16));
        for k in 1..=16 {
            v.push([&b[..], &vec![0u8; k][..]].concat());
            v.push([&vec![0u8; k][..], &b[..]].concat());
        }
        sets.push(v);
    }
    sets.push((16..200).map(|n| vec![0u8; n]).collect());
    sets.push((16..200).map(|n| alpha::base(n, 1)).collect());
    sets.push((0..200usize).map(|n| { let mut v = vec![0u8; 32]; v[n / 8] = 1 << (n % 8); v }).collect());
    let tr = alpha::tricky();
    sets.push(tr.iter().map(|t| [&b"0123456789abcdef"[..], t].concat()).collect());
    sets.push(tr.iter().map(|t| [t, &b"0123456789abcdef"[..]].concat()).collect());
    let tx = alpha::texts();
    for c in tx.chunks(tx.len().div_ceil(4)) {
        sets.push(c.iter().map(|t| [&b"0123456789abcdef"[..], t].concat()).collect());
    }
    let all: Vec<Vec<u8>> = alpha::all_texts().into_iter().filter(|t| t.len() >= 16).collect();
    for c in all.chunks(all.len().div_ceil(4)) {
        sets.push(c.to_vec());
    }
    let pre: Vec<Vec<u8>> = alpha::prehashed(&alpha::digests()).into_iter().flat_map(|(a, b)| [a, b]).filter(|t| t.len() >= 16).collect();
    sets.push(pre);
    sets.push(alpha::specials().iter().map(|t| [t, &b"0123456789abcdef"[..]].concat()).collect());
    ctx.par("distinct", sets.len() * 4, |w, j| {
        let (set, v) = (&sets[j / 4], VS[j % 4]);
        w.case(&format!("{}/{v:?}", j / 4), |st| {
            let mut set = set.clone();
            set.sort();
            set.dedup();
            let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
            for id in &set {
                let mut c = ccfg(j);
                c.strong = v.strong();
                c.pre = Some(id.clone());
                c.implicit = false;
                let a = vs_client::<Sha512, 16>(st, &c, Tape::new(1), &Sec::new(3, 16))?;
                let sc = SCfg { v, ci: b"ci".to_vec(), pre: Some(id.clone()), implicit: false };
                let mut base = Base::<Sha512, 16>::new(Tape::new(2));
                let b = vs_server::<Sha512, 16>(st, &sc, &mut base, Tape::new(3), b"user", b"pw", 32, &Sec::new(3, 16))?;
                for k in [a.keys.ta.to_vec(), a.keys.tb.to_vec(), a.keys.sk.to_vec(), b.keys.ta.to_vec(), b.keys.tb.to_vec(), b.keys.sk.to_vec(), a.wire[1].clone(), b.wire[1].clone()] {
                    if let Some(o) = seen.insert(k, id.clone()) {
                        ensure!(&o == id, "session ids {} and {} share session data", mccore::show(&o), mccore::show(id));
                    }
                }
            }
            Ok(())
        });
    });
    nonces::<1>(ctx);
    nonces::<16>(ctx);
    nonces::<32>(ctx);
    nonces::<64>(ctx);
    nonces::<65>(ctx);
    nonces::<72>(ctx);
    nonces::<200>(ctx);
}
fn nonces<const K: usize>(ctx: &Ctx) {
    let mut ns: Vec<Vec<u8>> = vec![vec![0; K], vec![0xff; K], vec![1; K], (0..K as u8).collect(), (0..K as u8).rev().collect()];
    for i in 0..K.min(18) {
        let mut v = vec![0u8; K];
        v[i * K / K.min(18)] = 1;
        ns.push(v.clone());
        v[i * K / K.min(18)] = 0x80;
        ns.push(v);
    }
    for x in [1, 0x80] {
        let mut v = vec![0u8; K];
        v[K - 1] = x;
        ns.push(v);
    }
    ns.sort();
    ns.dedup();
    ctx.par(&format!("nonces/K1={K}"), ns.len() * 4, |w, j| {
        let (a, v) = (&ns[j / 4], VS[j % 4]);
        w.case(&format!("{j}"), |st| {
            let mut seen: HashMap<[u8; 64], Vec<u8>> = HashMap::new();
            for (i, b) in ns.iter().enumerate() {
                let mut s = Sec::new(3, K);
                s.nonce = b.clone();
                // scripted: the party draws the bytes of `a` first
                let mut c = ccfg(i);
                c.strong = v.strong();
                c.pre = None;
                let x = vs_client::<Sha512, K>(st, &c, Tape::scripted(a.clone(), 7), &s)?;
                let sc = SCfg { v, ci: b"ci".to_vec(), pre: None, implicit: i & 1 != 0 };
                let mut base = Base::<Sha512, K>::new(Tape::scripted([&[9u8; 8][..], a].concat(), 7));
                let y = vs_server::<Sha512, K>(st, &sc, &mut base, Tape::new(5), b"user", b"pw", 32, &s)?;
                for (id, pair) in [(x.ssid, [&b[..], &x.wire[0]].concat()), (y.ssid, [&y.wire[0][..], b].concat())] {
                    if let Some(o) = seen.insert(id, pair.clone()) {
                        ensure!(o == pair, "two nonce pairs give one session id");
                    }
                }
                if i % 8 == 0 {
                    both::<Sha512, K>(st, v, b"user", b"pw", b"ci", None, i as u32 & 3, 32, &s, 77)?;
                }
            }
            Ok(())
        });
    });
}
