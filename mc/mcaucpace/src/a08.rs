//! A08 conformance of messages and keys with the protocol table, A09 strong variant blinding.
use crate::a01::{bent, words, PARAMS};
use crate::hasher::{par, Alt64, Bent, Out};
use crate::party::*;
use crate::refm as rf;
use curve25519_dalek::traits::Identity;
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, RistrettoPoint as P, Scalar};
use mccore::rng::Tape;
use mccore::{alpha, ensure, Ctx, Fail, Stats};
use password_hash::SaltString;
use sha2::Sha512;

/// secrets of the model party
#[derive(Clone)]
pub struct Sec {
    pub x: Scalar,
    pub y: Scalar,
    pub q: Scalar,
    pub r: Scalar,
    pub nonce: Vec<u8>,
    pub salt: String,
    pub params: String,
}
impl Sec {
    pub fn new(n: u64, k: usize) -> Sec {
        Sec {
            x: rf::sc(4 * n),
            y: rf::sc(4 * n + 1),
            q: rf::sc(4 * n + 2),
            r: rf::sc(4 * n + 3),
            nonce: (0..).flat_map(|i| rf::h::<Sha512>(77 + 256 * i, &[&n.to_le_bytes()])).take(k).collect(),
            salt: rf::b64(&rf::h::<Sha512>(78, &[&n.to_le_bytes()])[..16]),
            params: PARAMS.into(),
        }
    }
}
pub struct Seen {
    pub ssid: [u8; 64],
    pub keys: rf::Keys,
    pub wire: Vec<Vec<u8>>,
    pub salt: String,
}
fn e(what: &str) -> impl Fn(aucpace::Error) -> Fail + '_ {
    move |e| Fail::from(format!("{what}: {e:?}"))
}
pub fn salt(s: &str) -> Result<SaltString, Fail> {
    SaltString::from_b64(s).map_err(|_| Fail::from("bad salt in the harness"))
}
pub fn wire(m: &M) -> Vec<u8> {
    match m {
        M::Nonce(n) => n.clone(),
        M::User(u, b) => [&u[..], &b.map(|b| rf::enc(&b).to_vec()).unwrap_or_default()].concat(),
        M::Aug { x_pub, salt, blinded, params, group } => [
            &rf::enc(x_pub)[..],
            salt.as_ref().map(|s| s.as_str().as_bytes().to_vec()).unwrap_or_default().as_slice(),
            &blinded.map(|b| rf::enc(&b).to_vec()).unwrap_or_default(),
            params.as_str().as_bytes(),
            group.as_bytes(),
        ]
        .concat(),
        M::Pub(p) => rf::enc(p).to_vec(),
        M::Auth(a) => a.to_vec(),
    }
}
fn distinct(ssid: &[u8; 64], tb: Option<[u8; 64]>, ta: Option<[u8; 64]>, key: Option<[u8; 64]>, k: &rf::Keys) -> Result<(), Fail> {
    let all: Vec<[u8; 64]> = [Some(*ssid), tb, ta, key, Some(k.sk1)].into_iter().flatten().collect();
    for i in 0..all.len() {
        for j in 0..i {
            ensure!(all[i] != all[j], "two of the derived strings of a session are equal");
        }
    }
    Ok(())
}
/// real client against the model server
pub fn vs_client<D: Dg, const K: usize>(st: &mut Stats, c: &CCfg, tape: Tape, s: &Sec) -> Result<Seen, Fail> {
    let mut cl = Cli::<D, K>::new(c, tape);
    let mut m = cl.start().map_err(e("client start"))?;
    st.step();
    let mut wires = vec![];
    let ssid = match &c.pre {
        Some(p) => rf::ssid::<D>(p),
        None => {
            let [M::Nonce(t)] = &m[..] else { return Err(Fail::from("no nonce")) };
            ensure!(t.len() == K, "nonce of {} bytes", t.len());
            let id = rf::ssid::<D>(&[&s.nonce[..], t].concat());
            wires.push(t.clone());
            m = cl.recv(&M::Nonce(s.nonce.clone())).map_err(e("client nonce"))?;
            st.step();
            id
        }
    };
    let [M::User(u, bl)] = &m[..] else { return Err(Fail::from("no user name")) };
    ensure!(*u == c.user, "user name changed to {u:?}");
    ensure!(bl.is_some() == c.strong, "wrong variant of the user name message");
    wires.push(wire(&m[0]));
    let n = match c.out {
        Out::Len(n) => n,
        _ => 32,
    };
    let salt_s = if c.strong { rf::b64(&rf::enc(&(rf::z::<D>(&c.user, &c.pw) * s.q))) } else { s.salt.clone() };
    let x_pub = B * s.x;
    let a = M::Aug {
        x_pub,
        salt: if c.strong { None } else { Some(salt(&s.salt)?) },
        blinded: bl.map(|b| b * s.q),
        params: par(&s.params),
        group: "ristretto255".into(),
    };
    let o = cl.recv(&a).map_err(e("client augmentation info"))?;
    st.step();
    let calls = cl.hasher.calls();
    let want = rf::call(&c.user, &c.pw, &salt_s, &s.params);
    ensure!(calls.len() == 1 && calls[0] == want, "password hasher received {calls:?} instead of {want:?}");
    let w = rf::wtoy(&c.user, &c.pw, &salt_s, &s.params, n);
    // the server side of the formula: W^x
    let prs = rf::enc(&(rf::verifier(&w) * s.x));
    let g = rf::generator::<D>(&ssid, &prs, &c.ci);
    let [M::Pub(yb)] = &o[..] else { return Err(Fail::from("no public key")) };
    wires.push(wire(&o[0]));
    let ya = g * s.y;
    let k = rf::keys::<D>(&ssid, &(yb * s.y));
    let o = cl.recv(&M::Pub(ya)).map_err(e("client public key"))?;
    st.step();
    if !c.implicit {
        let [M::Auth(tb)] = &o[..] else { return Err(Fail::from("no authenticator")) };
        ensure!(*tb == k.tb, "client authenticator is not H4(ssid|sk1)");
        distinct(&ssid, Some(*tb), None, None, &k)?;
        wires.push(tb.to_vec());
        cl.recv(&M::Auth(k.ta)).map_err(e("client refuses H3(ssid|sk1)"))?;
        st.step();
        distinct(&ssid, Some(*tb), Some(k.ta), cl.key, &k)?;
    }
    ensure!(cl.key == Some(k.sk), "client session key is not H5(ssid|sk1)");
    distinct(&ssid, None, None, cl.key, &k)?;
    st.trace();
    st.state(&(ssid, k.sk));
    Ok(Seen { ssid, keys: k, wire: wires, salt: salt_s })
}
/// real server against the model client; the user is registered with password `pw`
pub fn vs_server<D: Dg, const K: usize>(st: &mut Stats, c: &SCfg, base: &mut Base<D, K>, tape: Tape, user: &[u8], pw: &[u8], n: usize, s: &Sec) -> Result<Seen, Fail> {
    let z = rf::z::<D>(user, pw);
    let strong = c.v.strong();
    let salt_s = if strong { rf::b64(&rf::enc(&(z * s.q))) } else { s.salt.clone() };
    let w = rf::wtoy(user, pw, &salt_s, &s.params, n);
    let mut db = Db::default();
    let r = Reg { user: user.to_vec(), salt: Some(salt(&s.salt)?), q: Some(s.q), params: par(&s.params), verifier: rf::verifier(&w) };
    db.put(&r);
    if c.v.partial() {
        db.keys.insert(user.to_vec(), (s.x, B * s.x));
    }
    // other users must not matter
    let mut other = r.clone();
    other.user = [user, b"2"].concat();
    other.verifier = rf::pt(5);
    db.put(&other);
    db.keys.insert(other.user.clone(), (rf::sc(9), B * rf::sc(9)));
    let mut sv = Srv::<D, K>::new(c, &db, tape);
    let m = sv.start(base).map_err(e("server start"))?;
    st.step();
    let mut wires = vec![];
    let ssid = match &c.pre {
        Some(p) => rf::ssid::<D>(p),
        None => {
            let [M::Nonce(x)] = &m[..] else { return Err(Fail::from("no nonce")) };
            ensure!(x.len() == K, "nonce of {} bytes", x.len());
            wires.push(x.clone());
            sv.recv(&M::Nonce(s.nonce.clone())).map_err(e("server nonce"))?;
            st.step();
            rf::ssid::<D>(&[&x[..], &s.nonce].concat())
        }
    };
    let bl = z * s.r;
    let o = sv.recv(&M::User(user.to_vec(), if strong { Some(bl) } else { None })).map_err(e("server user name"))?;
    st.step();
    for (_, who) in db.log() {
        ensure!(who == user, "database asked for {who:?}");
    }
    let [am, M::Pub(ya)] = &o[..] else { return Err(Fail::from("server did not send info and key")) };
    let M::Aug { x_pub, salt: sl, blinded, params, group } = am else { return Err(Fail::from("no info")) };
    ensure!(group == "ristretto255" && params.as_str() == s.params, "group or parameters changed: {group} {}", params.as_str());
    ensure!(sl.as_ref().map(|x| x.as_str().to_string()) == if strong { None } else { Some(s.salt.clone()) }, "salt of the record changed");
    ensure!(*blinded == if strong { Some(bl * s.q) } else { None }, "blinded salt is not U^q");
    if c.v.partial() {
        ensure!(*x_pub == B * s.x, "long-term public key changed");
    }
    wires.push(wire(am));
    wires.push(rf::enc(ya).to_vec());
    // the client side of the formula: X^w
    let prs = rf::enc(&(x_pub * w));
    let g = rf::generator::<D>(&ssid, &prs, &c.ci);
    let yb = g * s.y;
    let k = rf::keys::<D>(&ssid, &(ya * s.y));
    sv.recv(&M::Pub(yb)).map_err(e("server public key"))?;
    st.step();
    if !c.implicit {
        let o = sv.recv(&M::Auth(k.tb)).map_err(e("server refuses H4(ssid|sk1)"))?;
        st.step();
        let [M::Auth(ta)] = &o[..] else { return Err(Fail::from("no authenticator")) };
        ensure!(*ta == k.ta, "server authenticator is not H3(ssid|sk1)");
        wires.push(ta.to_vec());
        distinct(&ssid, Some(k.tb), Some(*ta), sv.key, &k)?;
    }
    ensure!(sv.key == Some(k.sk), "server session key is not H5(ssid|sk1)");
    distinct(&ssid, None, None, sv.key, &k)?;
    st.trace();
    st.state(&(ssid, k.sk));
    Ok(Seen { ssid, keys: k, wire: wires, salt: salt_s })
}
#[allow(clippy::too_many_arguments)]
pub fn both<D: Dg, const K: usize>(st: &mut Stats, v: V, user: &[u8], pw: &[u8], ci: &[u8], pre: Option<Vec<u8>>, bits: u32, out: usize, s: &Sec, seed: u64) -> Result<(), Fail> {
    let c = CCfg { user: user.to_vec(), pw: pw.to_vec(), ci: ci.to_vec(), pre: pre.clone(), strong: v.strong(), alloc: bits & 1 != 0, implicit: bits & 2 != 0, out: Out::Len(out) };
    if !v.partial() {
        vs_client::<D, K>(st, &c, Tape::new(seed), s)?;
    }
    let sc = SCfg { v, ci: ci.to_vec(), pre, implicit: bits & 2 != 0 };
    let mut base = Base::<D, K>::new(Tape::new(seed + 1));
    vs_server::<D, K>(st, &sc, &mut base, Tape::new(seed + 2), user, pw, out, s)?;
    Ok(())
}
fn cfgs<D: Dg, const K: usize>(ctx: &Ctx, name: &str) {
    ctx.par(&format!("configs/{name}/K1={K}"), 4 * 4 * 2 * 2, |w, j| {
        let (v, bits, p, out) = (VS[j & 3], (j >> 2) as u32 & 3, j >> 4 & 1, [32, 64][j >> 5 & 1]);
        w.case(&format!("{v:?}/{bits}/pre{p}/out{out}"), |st| {
            for n in 0..ctx.t(6, 60) {
                let mut s = Sec::new(n, K);
                s.params = ["", PARAMS, "a=b"][n as usize % 3].into();
                both::<D, K>(st, v, b"worf", b"data_x", b"channel", if p == 1 { crate::a01::pre() } else { None }, bits, out, &s, 40 + n)?;
                if K > 0 {
                    for b in [0u8, 0xff] {
                        s.nonce = vec![b; K];
                        both::<D, K>(st, v, b"worf", b"data_x", b"", if p == 1 { crate::a01::pre() } else { None }, bits, out, &s, 40 + n)?;
                    }
                }
            }
            Ok(())
        });
    });
}
pub fn scalars() -> Vec<Scalar> {
    let mut v = vec![Scalar::from(1u8), Scalar::from(2u8), -Scalar::ONE, -Scalar::from(2u8), Scalar::from(3u8), Scalar::from(8u8), Scalar::from(2u8).invert(), Scalar::from(8u8).invert(), Scalar::from(u128::MAX)];
    for i in 0..6 {
        v.push(rf::sc(900 + i));
    }
    v
}
pub fn a08(ctx: &Ctx) {
    ctx.bound("real client against a model server and real server against a model client, each message and key compared with the protocol table: variants 4 x buffer/alloc x explicit/implicit x negotiated/pre-established x hasher output 32/64 x nonce sizes 0,1,8,16,32,64 x 2 hashes, 18 (thorough 180) secrets each");
    ctx.bound("48x48 tricky (user,password), 48 channel ids and session ids, lengths 0..150 (thorough 390); 15x15 special secrets of the model party; 13 special draws of the real party");
    ctx.assume("curve25519-dalek arithmetic and its map to the group (from_uniform_bytes), SHA-2");
    cfgs::<Sha512, 0>(ctx, "sha512");
    cfgs::<Sha512, 1>(ctx, "sha512");
    cfgs::<Sha512, 16>(ctx, "sha512");
    cfgs::<Sha512, 32>(ctx, "sha512");
    cfgs::<Sha512, 64>(ctx, "sha512");
    cfgs::<Sha512, 65>(ctx, "sha512");
    cfgs::<Sha512, 300>(ctx, "sha512");
    cfgs::<Alt64, 8>(ctx, "alt64");
    cfgs::<Alt64, 16>(ctx, "alt64");
    bent!(cfgs, 16, ctx);
    let t = alpha::tricky();
    ctx.par("tricky", t.len() * t.len(), |w, j| {
        let (a, b) = (&t[j / t.len()], &t[j % t.len()]);
        w.case(&format!("{}-{}", j / t.len(), j % t.len()), |st| {
            for v in VS {
                let bits = (j + v as usize) as u32 & 3;
                both::<Sha512, 16>(st, v, a, b, b"ci", None, bits, 32, &Sec::new(1, 16), 3)?;
                both::<Sha512, 16>(st, v, b"u", a, b, Some([&b"0123456789abcdef"[..], a].concat()), bits ^ 1, 64, &Sec::new(2, 16), 4)?;
            }
            Ok(())
        });
    });
    let tx = alpha::texts();
    ctx.par("texts", tx.len(), |w, j| {
        let t = &tx[j];
        w.case(&mccore::hex(t), |st| {
            for k in 0..ctx.t(2, 4) {
                let (v, bits) = (VS[(j + k) % 4], (j / 4 + k) as u32 & 3);
                both::<Sha512, 16>(st, v, t, b"pw", b"ci", None, bits, 32, &Sec::new(1, 16), 3)?;
                both::<Sha512, 16>(st, v, b"u", t, t, Some([&b"0123456789abcdef"[..], t].concat()), bits ^ 1, 64, &Sec::new(2, 16), 4)?;
            }
            Ok(())
        });
    });
    let lens: Vec<usize> = (0..=ctx.t(150, 390)).chain([512, 1024, 65536]).collect();
    ctx.par("lengths", lens.len() * 4, |w, j| {
        let (l, v) = (lens[j / 4], VS[j % 4]);
        w.case(&format!("{v:?}/{l}"), |st| {
            let s = alpha::base(l, 3);
            let sec = Sec::new(l as u64, 16);
            for al in 0..2 {
                if l < 390 || al == 1 {
                    both::<Sha512, 16>(st, v, &s, b"pw", b"ci", None, al, 32, &sec, 3)?;
                    both::<Sha512, 16>(st, v, b"user", &s, b"ci", None, al | 2, 32, &sec, 3)?;
                }
                both::<Sha512, 16>(st, v, b"user", b"pw", &s, None, al, 32, &sec, 3)?;
                if l >= 16 {
                    both::<Sha512, 16>(st, v, b"user", b"pw", b"ci", Some(s.clone()), al, 32, &sec, 3)?;
                }
            }
            Ok(())
        });
    });
    let sc = scalars();
    ctx.par("secrets", sc.len() * sc.len(), |w, j| {
        let (a, b) = (sc[j / sc.len()], sc[j % sc.len()]);
        w.case(&format!("{j}"), |st| {
            for v in VS {
                let mut s = Sec::new(5, 16);
                (s.x, s.y) = (a, b);
                both::<Sha512, 16>(st, v, b"user", b"pw", b"ci", None, j as u32 & 3, 32, &s, 3)?;
                let mut s = Sec::new(6, 16);
                (s.q, s.r) = (a, b);
                both::<Sha512, 16>(st, v, b"user", b"pw", b"ci", None, j as u32 & 3, 64, &s, 3)?;
            }
            Ok(())
        });
    });
    ctx.bound("X, PRS, received public key, shared point (and in the strong variant the salt point, U and U^q) steered to points whose encodings begin, end or are filled with special bytes or are small or large field elements, both roles, all variants, explicit and implicit");
    encodings(ctx, None);
    let ws = words();
    ctx.par("draws", ws.len() * ws.len() * 4, |w, j| {
        let (v, a, b) = (VS[j % 4], &ws[j / 4 % ws.len()], &ws[j / 4 / ws.len()]);
        w.case(&format!("{j}"), |st| {
            let t = || Tape::scripted([&a[..], b].concat(), 5);
            let c = CCfg { user: b"u".to_vec(), pw: b"p".to_vec(), ci: b"c".to_vec(), pre: crate::a01::pre(), strong: v.strong(), alloc: j & 8 != 0, implicit: j & 16 != 0, out: Out::Len(32) };
            vs_client::<Sha512, 16>(st, &c, t(), &Sec::new(7, 16))?;
            let s = SCfg { v, ci: b"c".to_vec(), pre: crate::a01::pre(), implicit: j & 16 != 0 };
            let mut base = Base::<Sha512, 16>::new(Tape::new(1));
            vs_server::<Sha512, 16>(st, &s, &mut base, t(), b"u", b"p", 32, &Sec::new(7, 16))?;
            Ok(())
        });
    });
    ctx.bound("16 hashes whose outputs begin, end or are filled with special bytes; session ids negotiated from nonces chosen so that SHA-512 gives such a session id");
    mined(ctx);
    ctx.par("streams", ctx.t(24_000, 400_000), |w, j| {
        w.case(&format!("{j}"), |st| {
            let n = j as u64;
            both::<Sha512, 16>(st, VS[j % 4], &n.to_le_bytes(), &n.to_be_bytes(), &(n * 7).to_be_bytes(), None, (j / 4) as u32 & 3, [32, 64][j / 16 % 2], &Sec::new(1000 + n, 16), 10_000 + 3 * n)
        });
    });
}

/// nonces chosen so that the session id begins, ends or is dotted with special bytes
fn mined(ctx: &Ctx) {
    let want: Vec<(usize, usize, u8)> = [0u8, 0xff, 0x3a, 0x80].into_iter().flat_map(|b| [(0, 2, b), (62, 64, b), (31, 33, b), (0, 1, b), (63, 64, b), (32, 33, b)]).collect();
    ctx.par("mined", want.len() * 8, |w, j| {
        let ((from, to, b), v, server) = (want[j / 8], VS[j % 4], j & 4 != 0);
        w.case(&format!("{from}-{to}-{b}/{v:?}/{}", if server { "server" } else { "client" }), |st| {
            if !server && v.partial() {
                return Ok(());
            }
            // what the real party will send
            let tape = || Tape::new(77);
            let mut first = [0u8; 16];
            let c = CCfg { user: b"u".to_vec(), pw: b"p".to_vec(), ci: b"c".to_vec(), pre: None, strong: v.strong(), alloc: j & 8 != 0, implicit: j & 16 != 0, out: Out::Len(32) };
            let sc = SCfg { v, ci: b"c".to_vec(), pre: None, implicit: j & 16 != 0 };
            let m = if server {
                let mut base = Base::<Sha512, 16>::new(tape());
                Srv::<Sha512, 16>::new(&sc, &Db::default(), tape()).start(&mut base).map_err(e("start"))?
            } else {
                Cli::<Sha512, 16>::new(&c, tape()).start().map_err(e("start"))?
            };
            let [M::Nonce(n)] = &m[..] else { return Err(Fail::from("no nonce")) };
            first.copy_from_slice(n);
            let mut s = Sec::new(3, 16);
            let mut found = 0;
            for i in 0u64..1 << 19 {
                s.nonce = [&i.to_le_bytes()[..], &[0x55; 8]].concat();
                let id = rf::ssid::<Sha512>(&if server { [&first[..], &s.nonce].concat() } else { [&s.nonce[..], &first].concat() });
                if id[from..to].iter().all(|x| *x == b) {
                    if server {
                        let mut base = Base::<Sha512, 16>::new(tape());
                        vs_server::<Sha512, 16>(st, &sc, &mut base, tape(), b"u", b"p", 32, &s)?;
                    } else {
                        vs_client::<Sha512, 16>(st, &c, tape(), &s)?;
                    }
                    found += 1;
                    if found == 3 {
                        break;
                    }
                }
            }
            st.outcome(if found > 0 { "session id with a chosen shape" } else { "no such session id found" });
            Ok(())
        });
    });
}
/// the secret scalar behind base -> p among the draws of the real party, however it was derived
fn drawn(t: &Tape, base: &P, p: &P) -> Option<Scalar> {
    let ok = |s: &Scalar| base * s == *p;
    let wide = t.wide_windows(0);
    let r = wide.iter().map(Scalar::from_bytes_mod_order_wide).find(|s| ok(s));
    r.or_else(|| {
        wide.iter().find_map(|w| {
            let mut b = [0u8; 32];
            b.copy_from_slice(&w[..32]);
            Some(Scalar::from_bytes_mod_order(b)).filter(ok)
        })
    })
}
/// which value of a session has a chosen encoding
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    /// the augmentation public key X
    X,
    /// the password related string
    Prs,
    /// the received public key
    Pub,
    /// the shared point
    Shared,
    /// the salt point of the strong variant (client)
    Salt,
    /// U (server)
    Blinded,
    /// U^q (server)
    BlindedSalt,
}
/// the real client against a peer that steers one value to the point `p`
fn shaped_client(st: &mut Stats, at: At, p: &P, strong: bool, bits: u32, n: u64) -> Result<(), Fail> {
    let c = CCfg { user: b"user".to_vec(), pw: b"pw".to_vec(), ci: b"ci".to_vec(), pre: crate::a01::pre(), strong, alloc: bits & 1 != 0, implicit: bits & 2 != 0, out: Out::Len(32) };
    let tape = Tape::new(n);
    let mut cl = Cli::<Sha512, 16>::new(&c, tape.clone());
    let ssid = rf::ssid::<Sha512>(c.pre.as_ref().ok_or("no session id")?);
    let m = cl.start().map_err(e("client start"))?;
    let [M::User(_, bl)] = &m[..] else { return Err(Fail::from("no user name")) };
    let z = rf::z::<Sha512>(&c.user, &c.pw);
    let (mut sp, mut blinded) = (z * rf::sc(n), None);
    if strong {
        let u = bl.ok_or("no blinded point")?;
        blinded = Some(u * rf::sc(n));
        if at == At::Salt {
            let Some(r) = drawn(&tape, &z, &u) else { return unseen(st) };
            (sp, blinded) = (*p, Some(p * r));
        }
    }
    let plain = "c29tZXNhbHQ";
    let sl = if strong { rf::b64(&rf::enc(&sp)) } else { plain.into() };
    let w = rf::wtoy(&c.user, &c.pw, &sl, PARAMS, 32);
    let x_pub = match at {
        At::X => *p,
        At::Prs => p * w.invert(),
        _ => B * rf::sc(n + 1),
    };
    let prs = rf::enc(&(x_pub * w));
    let a = M::Aug { x_pub, salt: if strong { None } else { Some(salt(plain)?) }, blinded, params: par(PARAMS), group: "ristretto255".into() };
    let o = cl.recv(&a).map_err(e("client augmentation info"))?;
    let calls = cl.hasher.calls();
    let want = rf::call(&c.user, &c.pw, &sl, PARAMS);
    ensure!(calls.len() == 1 && calls[0] == want, "{at:?} {}: password hasher received {calls:?} instead of {want:?}", show(p));
    let [M::Pub(yb)] = &o[..] else { return Err(Fail::from("no public key")) };
    let g = rf::generator::<Sha512>(&ssid, &prs, &c.ci);
    let (ya, k) = match at {
        At::Pub | At::Shared => {
            let Some(y) = drawn(&tape, &g, yb) else { return unseen(st) };
            if at == At::Pub { (*p, p * y) } else { (p * y.invert(), *p) }
        }
        _ => (g * rf::sc(n + 2), yb * rf::sc(n + 2)),
    };
    let k = rf::keys::<Sha512>(&ssid, &k);
    let o = cl.recv(&M::Pub(ya)).map_err(e("client public key"))?;
    if !c.implicit {
        let [M::Auth(tb)] = &o[..] else { return Err(Fail::from("no authenticator")) };
        ensure!(*tb == k.tb, "{at:?} {}: client authenticator is not H4(ssid|sk1)", show(p));
        cl.recv(&M::Auth(k.ta)).map_err(e("client refuses H3(ssid|sk1)"))?;
    }
    ensure!(cl.key == Some(k.sk), "{at:?} {}: client session key is not H5(ssid|sk1)", show(p));
    st.steps(4);
    st.trace();
    st.state(&(k.sk, bits, strong));
    st.outcome("steered");
    Ok(())
}
fn show(p: &P) -> String {
    mccore::hex(&rf::enc(p))
}
fn unseen(st: &mut Stats) -> Result<(), Fail> {
    st.outcome("secret not found among the draws");
    Ok(())
}
/// the real server against a peer (and a database) that steer one value to the point `p`
fn shaped_server(st: &mut Stats, at: At, p: &P, v: V, implicit: bool, n: u64) -> Result<(), Fail> {
    let c = SCfg { v, ci: b"ci".to_vec(), pre: crate::a01::pre(), implicit };
    let tape = Tape::new(n);
    let (x, q) = (rf::sc(n), rf::sc(n + 1));
    let plain = "c29tZXNhbHQ";
    // the model client knows the logarithm w of the verifier, except where the verifier is steered
    let w = rf::sc(n + 2);
    let verifier = if at == At::Prs { p * x.invert() } else { B * w };
    let mut db = Db::default();
    db.put(&Reg { user: b"user".to_vec(), salt: Some(salt(plain)?), q: Some(q), params: par(PARAMS), verifier });
    let xk = if at == At::X { *p } else { B * x };
    if v.partial() {
        db.keys.insert(b"user".to_vec(), (x, xk));
    }
    let mut base = Base::<Sha512, 16>::new(Tape::new(n + 9));
    let mut sv = Srv::<Sha512, 16>::new(&c, &db, tape.clone());
    sv.start(&mut base).map_err(e("server start"))?;
    let ssid = rf::ssid::<Sha512>(c.pre.as_ref().ok_or("no session id")?);
    let u = match at {
        At::Blinded => *p,
        At::BlindedSalt => p * q.invert(),
        _ => B * rf::sc(n + 3),
    };
    let o = sv.recv(&M::User(b"user".to_vec(), if v.strong() { Some(u) } else { None })).map_err(e("server user name"))?;
    let [M::Aug { x_pub, blinded, .. }, M::Pub(ya)] = &o[..] else { return Err(Fail::from("server did not send info and key")) };
    ensure!(*blinded == if v.strong() { Some(u * q) } else { None }, "{at:?} {}: blinded salt is not U^q", show(p));
    if v.partial() {
        ensure!(*x_pub == xk, "{at:?} {}: long-term public key changed", show(p));
    }
    let prs = rf::enc(&if v.partial() { verifier * x } else { x_pub * w });
    let g = rf::generator::<Sha512>(&ssid, &prs, &c.ci);
    let (yb, k) = match at {
        At::Pub | At::Shared => {
            let Some(y) = drawn(&tape, &g, ya) else { return unseen(st) };
            if at == At::Pub { (*p, p * y) } else { (p * y.invert(), *p) }
        }
        _ => (g * rf::sc(n + 4), ya * rf::sc(n + 4)),
    };
    let k = rf::keys::<Sha512>(&ssid, &k);
    sv.recv(&M::Pub(yb)).map_err(e("server public key"))?;
    if !implicit {
        let o = sv.recv(&M::Auth(k.tb)).map_err(e("server refuses H4(ssid|sk1)"))?;
        let [M::Auth(ta)] = &o[..] else { return Err(Fail::from("no authenticator")) };
        ensure!(*ta == k.ta, "{at:?} {}: server authenticator is not H3(ssid|sk1)", show(p));
    }
    ensure!(sv.key == Some(k.sk), "{at:?} {}: server session key is not H5(ssid|sk1)", show(p));
    st.steps(4);
    st.trace();
    st.state(&(k.sk, implicit, v));
    st.outcome("steered");
    Ok(())
}
fn encodings(ctx: &Ctx, only: Option<At>) {
    let ps = rf::shapes(ctx.thorough);
    let pick = |a: &[At]| -> Vec<At> { a.iter().copied().filter(|a| only.is_none_or(|o| *a == o || (o == At::Salt && matches!(a, At::Blinded | At::BlindedSalt)))).collect() };
    ctx.par("encodings", ps.len(), |w, j| {
        let p = &ps[j];
        w.case(&show(p), |st| {
            for bits in 0..4 {
                for strong in [false, true] {
                    for at in pick(&[At::X, At::Prs, At::Pub, At::Shared, At::Salt]) {
                        if at != At::Salt || strong {
                            shaped_client(st, at, p, strong, bits, 7 + j as u64)?;
                        }
                    }
                }
            }
            for v in VS {
                for at in pick(&[At::X, At::Prs, At::Pub, At::Shared, At::Blinded, At::BlindedSalt]) {
                    let fits = match at {
                        At::X | At::Prs => v.partial(),
                        At::Blinded | At::BlindedSalt => v.strong(),
                        _ => true,
                    };
                    for im in [false, true] {
                        if fits {
                            shaped_server(st, at, p, v, im, 7 + j as u64)?;
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

fn strong_cfg(user: &[u8], pw: &[u8], alloc: bool, out: usize) -> CCfg {
    CCfg { user: user.to_vec(), pw: pw.to_vec(), ci: b"ci".to_vec(), pre: crate::a01::pre(), strong: true, alloc, implicit: false, out: Out::Len(out) }
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
/// one strong login of the real client: returns the blinded point
fn login9<D: Dg>(st: &mut Stats, user: &[u8], pw: &[u8], alloc: bool, tape: Tape, q: Scalar) -> Result<P, Fail> {
    let c = strong_cfg(user, pw, alloc, 32);
    let mut s = Sec::new(11, 16);
    s.q = q;
    let seen = vs_client::<D, 16>(st, &c, tape, &s)?;
    let raw = rf::enc(&(rf::z::<D>(user, pw) * q));
    // the blinded point itself is the salt when the drawn r happens to be q
    for (i, w) in seen.wire.iter().enumerate() {
        let w = if i == 0 { &w[..w.len().saturating_sub(32)] } else { &w[..] };
        ensure!(!contains(w, &raw) && !contains(w, seen.salt.as_bytes()), "the salt is on the wire");
    }
    let u = &seen.wire[0];
    ensure!(u[..user.len()] == *user && u.len() == user.len() + 32, "user name message of another form");
    let mut b = [0u8; 32];
    b.copy_from_slice(&u[user.len()..]);
    let p = curve25519_dalek::ristretto::CompressedRistretto(b).decompress().ok_or("blinded point does not decode")?;
    ensure!(p != P::identity(), "blinded point is neutral");
    Ok(p)
}
pub fn a09(ctx: &Ctx) {
    ctx.bound("15 secret exponents x 13x13 special blinding draws (zero modulo the order first, up to three times) x buffer/alloc x 2 hashes; 48x48 tricky (user,password); user names and passwords of 0..260 (thorough 400) bytes and selected lengths up to 65536; server side: 15 exponents x 60 blinded points, both strong entry points");
    ctx.assume("curve25519-dalek arithmetic, SHA-2");
    ctx.bound("salt point, U and U^q steered to points whose encodings begin, end or are filled with special bytes or are small or large field elements");
    encodings(ctx, Some(At::Salt));
    let (sc, ws) = (scalars(), words());
    let mut l = [0u8; 32];
    l.copy_from_slice(&(-Scalar::ONE).to_bytes());
    l[0] += 1;
    let mut zeros: Vec<Vec<u8>> = vec![vec![0; 64]];
    zeros.push([&l[..], &[0; 32]].concat());
    let mut hi = [&[0u8; 32][..], &l].concat();
    zeros.push(hi.clone());
    hi[..32].copy_from_slice(&l);
    zeros.push(hi);
    ctx.par("blinding", sc.len() * ws.len(), |w, j| {
        let (q, a) = (sc[j / ws.len()], &ws[j % ws.len()]);
        w.case(&format!("{j}"), |st| {
            for b in &ws {
                for al in [false, true] {
                    login9::<Sha512>(st, b"user", b"pw", al, Tape::scripted([&a[..], b].concat(), 3), q)?;
                }
                login9::<Alt64>(st, b"user", b"pw", j % 2 == 0, Tape::scripted([&a[..], b].concat(), 3), q)?;
            }
            // draws that are zero modulo the group order must not be used
            for z1 in &zeros {
                login9::<Sha512>(st, b"user", b"pw", true, Tape::scripted([&z1[..], a].concat(), 3), q)?;
                // what follows such a draw decides the blinding
                for k in 1..3usize {
                    let mut seen = vec![rf::z::<Sha512>(b"user", b"pw")];
                    for seed in 0..4 {
                        let p = login9::<Sha512>(st, b"user", b"pw", seed % 2 == 0, Tape::scripted(z1.repeat(k), seed), q)?;
                        ensure!(!seen.contains(&p), "blinding is fixed after {k} draws of zero");
                        seen.push(p);
                    }
                }
                for z2 in &zeros {
                    login9::<Sha512>(st, b"user", b"pw", false, Tape::scripted([&z1[..], z2, z1, a].concat(), 3), q)?;
                }
            }
            Ok(())
        });
    });
    let t = alpha::tricky();
    ctx.par("tricky", t.len() * t.len(), |w, j| {
        let (a, b) = (&t[j / t.len()], &t[j % t.len()]);
        w.case(&format!("{}-{}", j / t.len(), j % t.len()), |st| {
            for n in 0..ctx.t(3, 20) {
                let p = login9::<Sha512>(st, a, b, n % 2 == 0, Tape::new(n), rf::sc(n))?;
                let p2 = login9::<Sha512>(st, a, b, n % 2 == 0, Tape::new(n + 1), rf::sc(n))?;
                ensure!(p != p2 && p != rf::z::<Sha512>(a, b), "blinding does not change with the random stream");
            }
            Ok(())
        });
    });
    let tx = alpha::texts();
    ctx.par("texts", tx.len(), |w, j| {
        let t = &tx[j];
        w.case(&mccore::hex(t), |st| {
            for (u, p) in [(&t[..], &b"pw"[..]), (b"user", t), (t, t)] {
                login9::<Sha512>(st, u, p, j % 2 == 0, Tape::new(1), rf::sc(2))?;
            }
            Ok(())
        });
    });
    // lengths of user name and password: each alone and both
    let ls: Vec<usize> = (0..=ctx.t(260, 400)).chain([511, 512, 513, 1000, 1024, 1025, 4096, 65536]).collect();
    ctx.par("lengths", ls.len(), |w, j| {
        let n = ls[j];
        w.case(&format!("{n}"), |st| {
            let x = alpha::base(n, 4);
            for (u, p) in [(&b"user"[..], &x[..]), (&x, b"pw"), (&x, &x), (b"", &x), (&x, b"")] {
                let whole = login9::<Sha512>(st, u, p, true, Tape::new(1), rf::sc(2))?;
                if u.len() + p.len() < BUF {
                    let b = login9::<Sha512>(st, u, p, false, Tape::new(1), rf::sc(2))?;
                    ensure!(b == whole, "blinded points differ between the variants");
                }
                // the last byte of each counts
                for side in 0..2 {
                    let (mut u, mut p) = (u.to_vec(), p.to_vec());
                    let Some(l) = (if side == 0 { &mut u } else { &mut p }).last_mut() else { continue };
                    *l ^= 1;
                    let other = login9::<Sha512>(st, &u, &p, true, Tape::new(1), rf::sc(2))?;
                    ensure!(other != whole, "user name of {} and password of {} bytes: the last byte does not enter the blinded point", u.len(), p.len());
                }
            }
            Ok(())
        });
    });
    let mut pts: Vec<P> = (1..20u64).map(|i| B * Scalar::from(i)).collect();
    pts.extend((0..20).map(rf::pt));
    pts.extend(pts.clone().iter().map(|p| -p));
    ctx.par("server", sc.len() * 2, |w, j| {
        let (q, v) = (sc[j / 2], [V::Strong, V::PStrong][j % 2]);
        w.case(&format!("{v:?}/{}", j / 2), |st| {
            for (i, b) in pts.iter().enumerate() {
                let mut db = Db::default();
                db.put(&Reg { user: b"user".to_vec(), salt: None, q: Some(q), params: par(PARAMS), verifier: rf::pt(3) });
                db.keys.insert(b"user".to_vec(), (rf::sc(1), B * rf::sc(1)));
                let cfg = SCfg { v, ci: b"ci".to_vec(), pre: crate::a01::pre(), implicit: false };
                let mut base = Base::<Sha512, 16>::new(Tape::new(1));
                let mut sv = Srv::<Sha512, 16>::new(&cfg, &db, Tape::new(i as u64));
                sv.start(&mut base).map_err(e("start"))?;
                let o = sv.recv(&M::User(b"user".to_vec(), Some(*b))).map_err(e("strong user name"))?;
                st.steps(2);
                match &o[..] {
                    [M::Aug { blinded: Some(x), .. }, M::Pub(_)] => ensure!(*x == b * q, "server answers with another point than U^q"),
                    _ => return Err(Fail::from("answer of another form")),
                }
                st.state(&(j, i));
            }
            st.trace();
            Ok(())
        });
    });
    // registration: the salt is z^q with the exponent that is handed to the server
    ctx.par("registration", t.len() * t.len(), |w, j| {
        let (a, b) = (&t[j / t.len()], &t[j % t.len()]);
        w.case(&format!("{}-{}", j / t.len(), j % t.len()), |st| {
            for al in [false, true] {
                let mut c = crate::a01::pair(V::Strong, a, b, b"ci", None, al as u32, 32, j as u64);
                c.scripts[0] = ws[j % ws.len()].clone();
                crate::world::setup::<Sha512, 16>(&c, st)?;
                st.trace();
            }
            let z1 = &zeros[j % zeros.len()];
            for k in 0..3usize {
                let mut seen = vec![Scalar::ONE];
                for seed in 0..3 {
                    let mut cl = aucpace::AuCPaceClient::<Sha512, crate::hasher::Rec, Tape, 16>::new(Tape::scripted(z1.repeat(k), seed));
                    let r = register(&mut cl, true, seed % 2 == 0, a, b, crate::hasher::Par { p: par("n=1"), fail: None }, crate::hasher::Rec::new(crate::hasher::Out::Len(32))).map_err(e("registration"))?;
                    let q = r.q.ok_or("no secret exponent")?;
                    ensure!(!seen.contains(&q), "secret exponent is fixed after {k} draws of zero");
                    // a draw of zero may be used as it is, but not replaced by a constant
                    if q != Scalar::ZERO {
                        seen.push(q);
                    }
                    st.step();
                }
            }
            Ok(())
        });
    });
}
