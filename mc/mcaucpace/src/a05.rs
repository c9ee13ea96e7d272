//! A05 unknown users, A11 registration and login histories.
use crate::hasher::{par, Alt64, Out, Par, Rec};
use crate::party::*;
use crate::refm as rf;
use aucpace::{AuCPaceClient, Error};
use curve25519_dalek::traits::Identity;
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, RistrettoPoint as P};
use mccore::rng::Tape;
use mccore::{alpha, ensure, show, Ctx, Fail, Stats};
use sha2::Sha512;
use std::collections::{BTreeMap, HashMap};

fn e(what: &str) -> impl Fn(Error) -> Fail + '_ {
    move |e| Fail::from(format!("{what}: {e:?}"))
}
const PRE: &[u8] = b"0123456789abcdef0123";

pub struct Login {
    /// server accepted / client accepted / keys equal
    pub server: Option<[u8; 64]>,
    pub client: Option<[u8; 64]>,
    pub errs: (Option<Error>, Option<Error>),
    pub info: M,
}
/// a complete login of the real client at the real server over an honest network
#[allow(clippy::too_many_arguments)]
pub fn login<D: Dg, const K: usize>(st: &mut Stats, v: V, db: &Db, base: &mut Base<D, K>, user: &[u8], pw: &[u8], bits: u32, n: u64) -> Result<Login, Fail> {
    let pre = if bits & 4 != 0 { Some([PRE, &n.to_le_bytes()].concat()) } else { None };
    let cc = CCfg { user: user.to_vec(), pw: pw.to_vec(), ci: b"ci".to_vec(), pre: pre.clone(), strong: v.strong(), alloc: bits & 1 != 0, implicit: bits & 2 != 0, out: Out::Len(32) };
    let sc = SCfg { v, ci: b"ci".to_vec(), pre, implicit: bits & 2 != 0 };
    let mut cl = Cli::<D, K>::new(&cc, Tape::new(1000 + 2 * n));
    let mut sv = Srv::<D, K>::new(&sc, db, Tape::new(1001 + 2 * n));
    let mut cm = cl.start().map_err(e("client start"))?;
    let sm = sv.start(base).map_err(e("server start"))?;
    if cc.pre.is_none() {
        sv.recv(&cm[0]).map_err(e("server nonce"))?;
        cm = cl.recv(&sm[0]).map_err(e("client nonce"))?;
    }
    let o = sv.recv(&cm[0]).map_err(e("server user name"))?;
    let y = cl.recv(&o[0]).map_err(e("client augmentation info"))?;
    sv.recv(&y[0]).map_err(e("server public key"))?;
    let t = cl.recv(&o[1]).map_err(e("client public key"))?;
    st.steps(7);
    if !cc.implicit {
        if let Ok(a) = sv.recv(&t[0]) {
            let _ = cl.recv(&a[0]);
            st.step();
        } else {
            // nothing the server sent can make the client accept
            let _ = cl.recv(&t[0]);
        }
        st.step();
    }
    st.trace();
    Ok(Login { server: sv.key, client: cl.key, errs: (sv.err, cl.err), info: o[0].clone() })
}
/// the database was asked for this user only since the last time, and not told anything
fn asked(db: &Db, user: &[u8]) -> Result<(), Fail> {
    for (k, u) in std::mem::take(&mut *db.log.lock().unwrap()) {
        ensure!(u == user && k != b'!', "database asked ({k}) for user {} in a login of user {}", show(&u), show(user));
    }
    Ok(())
}
/// the login must succeed / must fail
fn expect(l: &Login, implicit: bool, ok: bool, what: &str) -> Result<(), Fail> {
    if ok {
        ensure!(l.server.is_some() && l.server == l.client, "{what}: login fails with {:?}", l.errs);
    } else if implicit {
        ensure!(l.server.is_some() && l.client.is_some() && l.server != l.client, "{what}: keys are shared");
    } else {
        ensure!(l.server.is_none() && l.client.is_none(), "{what}: login succeeds");
        ensure!(l.errs.0 == Some(Error::MutualAuthFail), "{what}: server reports {:?}", l.errs.0);
    }
    Ok(())
}

/// (X, salt or blinded salt) of a reply
type Face = (P, Option<String>, Option<P>);
struct Reply {
    face: Face,
    ya: P,
    used: usize,
}
#[allow(clippy::too_many_arguments)]
fn reply<D: Dg>(st: &mut Stats, v: V, db: &Db, base: &mut Base<D, 16>, user: &[u8], bl: P, tape: Tape, n: u64, pre: bool) -> Result<(Reply, M), Fail> {
    let id = [PRE, &n.to_le_bytes()].concat();
    let c = SCfg { v, ci: b"ci".to_vec(), pre: if pre { Some(id) } else { None }, implicit: false };
    let mut sv = Srv::<D, 16>::new(&c, db, tape.clone());
    sv.start(base).map_err(e("server start"))?;
    if !pre {
        sv.recv(&M::Nonce(vec![n as u8; 16])).map_err(e("nonce"))?;
    }
    let o = sv.recv(&M::User(user.to_vec(), if v.strong() { Some(bl) } else { None })).map_err(e("user name"))?;
    st.steps(2);
    match &o[..] {
        [m @ M::Aug { x_pub, salt, blinded, .. }, M::Pub(ya)] => {
            let face = (*x_pub, salt.as_ref().map(|s| s.as_str().to_string()), *blinded);
            Ok((Reply { face, ya: *ya, used: tape.used() }, m.clone()))
        }
        _ => Err(Fail::from("answer of another form")),
    }
}
/// which of the three kinds of record are missing
#[derive(Clone, Copy, PartialEq, Debug)]
enum Miss {
    Nothing,
    All,
    Verifier,
    Key,
}
fn kinds(v: V) -> &'static [Miss] {
    if v.partial() {
        &[Miss::All, Miss::Verifier, Miss::Key]
    } else {
        &[Miss::All]
    }
}
/// real registration of a user, of which part is then left out
fn record<D: Dg>(db: &mut Db, v: V, base: &mut Base<D, 16>, user: &[u8], pw: &[u8], miss: Miss, n: u64) -> Result<(), Fail> {
    let mut c = AuCPaceClient::<D, Rec, Tape, 16>::new(Tape::new(500 + n));
    let r = register(&mut c, v.strong(), true, user, pw, Par { p: par("n=5"), fail: None }, Rec::new(Out::Len(32))).map_err(e("registration"))?;
    if miss == Miss::Nothing || miss == Miss::Key {
        db.put(&r);
    }
    if v.partial() && (miss == Miss::Nothing || miss == Miss::Verifier) {
        db.keys.insert(user.to_vec(), base.generate_long_term_keypair());
    }
    Ok(())
}
/// the reply to an unknown user has the form of the reply to a registered one
fn form(st: &mut Stats, ctx: &Ctx, v: V, known: &M, unknown: &M, what: &str) -> Result<(), Fail> {
    let (M::Aug { salt: s1, blinded: b1, params: p1, group: g1, .. }, M::Aug { x_pub, salt: s2, blinded: b2, params: p2, group: g2 }) = (known, unknown) else {
        return Err(Fail::from("no info"));
    };
    ensure!(g1 == g2, "{what}: group {g2} instead of {g1}");
    ensure!(*x_pub != P::identity() && b2.is_none_or(|b| b != P::identity()), "{what}: neutral element sent");
    ensure!(s1.is_some() == s2.is_some() && b1.is_some() == b2.is_some() && b2.is_some() == v.strong(), "{what}: another kind of message");
    if let (Some(a), Some(b)) = (s1, s2) {
        ensure!(a.as_str().len() == b.as_str().len(), "{what}: salt of {} characters, a registered user's has {}", b.as_str().len(), a.as_str().len());
    }
    if !p1.as_str().is_empty() && p2.as_str().is_empty() && !st.known(ctx, "params-of-unknown-user", what) {
        return Err(Fail { key: Some("params-of-unknown-user".into()), msg: format!("{what}: parameters are empty, a registered user's are {}", p1.as_str()) });
    }
    Ok(())
}
/// what must stay the same for a user of a server
fn stable(v: V, miss: Miss, f: &Face) -> (Option<[u8; 32]>, Option<String>, Option<[u8; 32]>) {
    (if v.partial() { Some(rf::enc(&f.0)) } else { None }, f.1.clone(), f.2.map(|b| rf::enc(&b)).filter(|_| miss != Miss::Nothing))
}

/// every byte of the salts, and the difference of any two, takes many values, as it does for registered users
fn spread(salts: &[Vec<u8>], what: &str) -> Result<(), Fail> {
    let want = (salts.len() / 4).min(64);
    let Some(n) = salts.first().map(|s| s.len()) else { return Ok(()) };
    for i in 0..n {
        for j in i..n {
            let mut vals = [false; 256];
            for s in salts {
                vals[(if i == j { s[i] } else { s[i] ^ s[j] }) as usize] = true;
            }
            let k = vals.iter().filter(|v| **v).count();
            ensure!(k >= want, "{what}: byte {i} (with {j}) of {} salts takes {k} values only", salts.len());
        }
    }
    Ok(())
}
fn decoded(s: &str) -> Result<Vec<u8>, Fail> {
    let mut b = [0u8; 64];
    Ok(password_hash::SaltString::from_b64(s).and_then(|s| s.decode_b64(&mut b).map(|d| d.to_vec())).map_err(|e| format!("salt {s}: {e}"))?)
}
fn unknown<D: Dg>(ctx: &Ctx, name: &str) {
    let names = names();
    // --- stability, difference between users, form
    ctx.par(&format!("users/{name}"), 16, |w, j| {
        let v = VS[j % 4];
        w.case(&format!("{v:?}/server{}", j / 4), |st| {
            for miss in kinds(v) {
                let mut base = Base::<D, 16>::new(Tape::new(j as u64 / 4));
                let mut db = Db::default();
                record::<D>(&mut db, v, &mut base, b"registered", b"pw", Miss::Nothing, 0)?;
                let reg = reply::<D>(st, v, &db, &mut base, b"registered", B * rf::sc(8), Tape::new(1), 0, true)?.1;
                let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
                let mut bytes = vec![];
                for (i, u) in names.iter().enumerate() {
                    let what = format!("{v:?}, {miss:?} missing, user {}", show(u));
                    if *miss != Miss::All {
                        record::<D>(&mut db, v, &mut base, u, b"pw", *miss, i as u64)?;
                    }
                    let bl = rf::pt(3);
                    let mut first = None;
                    for s in 0..ctx.t(3, 6) {
                        let (r, m) = reply::<D>(st, v, &db, &mut base, u, bl, Tape::new(7 * i as u64 + s), i as u64 + s, s % 2 == 0)?;
                        form(st, ctx, v, &reg, &m, &what)?;
                        let f = stable(v, *miss, &r.face);
                        match &first {
                            None => first = Some((f.clone(), r.face.clone(), r.ya)),
                            Some((g, h, y)) => {
                                ensure!(*g == f, "{what}: the answer changes from session to session");
                                ensure!(v.partial() || h.0 != r.face.0, "{what}: ephemeral X is the same in two sessions");
                                ensure!(*y != r.ya, "{what}: Ya is the same in two sessions");
                            }
                        }
                        // the answer to another blinded point uses the same exponent
                        if let (Some(b), Some((_, (_, _, Some(b0)), _))) = (r.face.2, &first) {
                            let (k, _) = reply::<D>(st, v, &db, &mut base, u, bl * rf::sc(s), Tape::new(3), s, true)?;
                            ensure!(b == *b0 && k.face.2 == Some(b0 * rf::sc(s)), "{what}: the exponent of the blinded salt changes");
                        }
                        st.state(&f);
                    }
                    let Some((f, ..)) = first else { continue };
                    let mut vals: Vec<Vec<u8>> = vec![];
                    if *miss != Miss::Verifier {
                        vals.extend(f.0.map(|x| x.to_vec()));
                    }
                    if let Some(x) = &f.1 {
                        bytes.push(decoded(x)?);
                    }
                    vals.extend(f.1.clone().map(|x| x.into_bytes()));
                    vals.extend(f.2.map(|x| x.to_vec()));
                    for x in vals {
                        if let Some(o) = seen.insert(x, u.clone()) {
                            ensure!(o == *u, "{what}: salt or key of user {} again", show(&o));
                        }
                    }
                    if *miss != Miss::All {
                        db.rows.remove(u);
                        db.keys.remove(u);
                    }
                }
                spread(&bytes, &format!("{v:?}, {miss:?} missing"))?;
                st.trace();
            }
            st.outcome("answers stable per user and different between users");
            Ok(())
        });
    });
    // --- every bit of what the server draws at creation matters
    ctx.par(&format!("servers/{name}"), 4 * 6, |w, j| {
        let v = VS[j % 4];
        let user = [&b"nobody"[..], b"", b"a", b"\0", b"root", b"nobody\0"][j / 4];
        w.case(&format!("{v:?}/{}", j / 4), |st| {
            let t0 = Tape::new(j as u64);
            let _ = Base::<D, 16>::new(t0.clone());
            let n = t0.used();
            ensure!(n >= 8, "a new server draws {n} bytes");
            for miss in kinds(v) {
                let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
                let mut bytes = vec![];
                let mut tapes: Vec<(String, Tape)> = vec![("unchanged".into(), Tape::new(j as u64))];
                tapes.extend((0..n * 8).map(|b| (format!("bit {b}"), Tape::new(j as u64).flip(b))));
                tapes.extend([0u8, 1, 0x80, 0xff].map(|b| (format!("all {b}"), Tape::scripted(vec![b; n], 1))));
                tapes.extend((0..n).map(|i| {
                    let mut s = vec![0u8; n];
                    s[i] = 2;
                    (format!("byte {i}"), Tape::scripted(s, 1))
                }));
                for (what, t) in tapes {
                    let mut base = Base::<D, 16>::new(t);
                    let mut db = Db::default();
                    if *miss != Miss::All {
                        let mut other = Base::<D, 16>::new(Tape::new(77));
                        record::<D>(&mut db, v, &mut other, user, b"pw", *miss, 1)?;
                    }
                    let (r, _) = reply::<D>(st, v, &db, &mut base, user, rf::pt(4), Tape::new(5), 1, true)?;
                    let f = stable(v, *miss, &r.face);
                    let mut vals: Vec<Vec<u8>> = vec![];
                    if *miss != Miss::Verifier {
                        vals.extend(f.0.map(|x| x.to_vec()));
                    }
                    if let Some(x) = &f.1 {
                        bytes.push(decoded(x)?);
                    }
                    vals.extend(f.1.clone().map(|x| x.into_bytes()));
                    vals.extend(f.2.map(|x| x.to_vec()));
                    for x in vals {
                        if let Some(o) = seen.insert(x, what.clone()) {
                            return Err(Fail::from(format!("{v:?}, {miss:?} missing: servers '{o}' and '{what}' answer alike")));
                        }
                    }
                    st.state(&f);
                }
                spread(&bytes, &format!("{v:?}, {miss:?} missing, one user of many servers"))?;
                st.trace();
            }
            st.outcome("answers differ between servers");
            Ok(())
        });
    });
    // --- no login for an unknown user authenticates; its secret is fresh
    let long = alpha::base(200, 9);
    let who: [&[u8]; 9] = [b"nobody", b"", b"\0", b":", b"Registered", b"registered\0", &[0xff; 3], &long[..65], &long];
    ctx.par(&format!("secret/{name}"), 4 * 8 * who.len(), |w, j| {
        let (v, bits, user) = (VS[j % 4], j as u32 / 4 % 8, who[j / 32]);
        w.case(&format!("{v:?}/{bits}/{}", j / 32), |st| {
            for miss in kinds(v) {
                let mut base = Base::<D, 16>::new(Tape::new(3));
                let mut db = Db::default();
                record::<D>(&mut db, v, &mut base, b"registered", b"pw", Miss::Nothing, 0)?;
                if *miss != Miss::All {
                    record::<D>(&mut db, v, &mut base, user, b"pw", *miss, 1)?;
                }
                for (i, pw) in [&b"pw"[..], b"", b"\0", b"nobody", b"password", b"registered"].iter().enumerate() {
                    let l = login::<D, 16>(st, v, &db, &mut base, user, pw, bits, i as u64)?;
                    expect(&l, bits & 2 != 0, false, &format!("{v:?}, {miss:?} missing, password {}", show(pw)))?;
                    st.outcome("unknown user refused");
                }
                guesses::<D>(st, v, &db, &mut base, user)?;
                fresh::<D>(st, v, &db, &mut base, user, *miss)?;
            }
            Ok(())
        });
    });
}
/// a model client that tries to guess the secret behind the session
fn guesses<D: Dg>(st: &mut Stats, v: V, db: &Db, base: &mut Base<D, 16>, user: &[u8]) -> Result<(), Fail> {
    let z = rf::z::<D>(user, b"pw");
    let mut earlier: Vec<[u8; 32]> = vec![];
    let mut i = 0;
    loop {
        let id = [PRE, &[9u8][..]].concat();
        let ssid = rf::ssid::<D>(&id);
        let c = SCfg { v, ci: b"ci".to_vec(), pre: Some(id), implicit: false };
        let tape = Tape::new(40);
        let mut sv = Srv::<D, 16>::new(&c, db, tape.clone());
        sv.start(base).map_err(e("start"))?;
        let o = sv.recv(&M::User(user.to_vec(), if v.strong() { Some(z) } else { None })).map_err(e("user"))?;
        let [M::Aug { x_pub, salt: sl, blinded, .. }, M::Pub(ya)] = &o[..] else { return Err(Fail::from("answer of another form")) };
        if earlier.is_empty() {
            let b32 = |b: &[u8]| {
                let mut a = [0u8; 32];
                let n = b.len().min(32);
                a[..n].copy_from_slice(&b[..n]);
                a
            };
            earlier.extend([[0; 32], [1; 32], [0xff; 32], rf::enc(x_pub), rf::enc(&P::identity()), rf::enc(&B), b32(user), b32(&ssid), b32(&ssid[32..]), rf::enc(ya)]);
            if let Some(s) = sl {
                let mut d = [0u8; 64];
                let d = s.decode_b64(&mut d).map_err(|_| "salt does not decode")?.to_vec();
                earlier.extend([b32(s.as_str().as_bytes()), b32(&d)]);
                for n in [32, 64] {
                    let w = rf::wtoy(user, b"pw", s.as_str(), "", n);
                    earlier.push(rf::enc(&(x_pub * w)));
                    earlier.push(rf::enc(&(B * w)));
                }
            }
            if let Some(b) = blinded {
                earlier.push(rf::enc(b));
                let s = rf::b64(&rf::enc(b));
                earlier.push(rf::enc(&(x_pub * rf::wtoy(user, b"pw", &s, "", 32))));
            }
            earlier.push(b32(&D::digest(user)));
            earlier.push(b32(&rf::h::<D>(0, &[user])));
            earlier.push(b32(&rf::h::<D>(1, &[&ssid, user])));
            if let Some(r) = db.rows.get(user) {
                earlier.push(rf::enc(&r.verifier));
            }
        }
        if i >= earlier.len() {
            break;
        }
        let g = rf::generator::<D>(&ssid, &earlier[i], b"ci");
        let y = rf::sc(60);
        let k = rf::keys::<D>(&ssid, &(ya * y));
        sv.recv(&M::Pub(g * y)).map_err(e("public key"))?;
        let r = sv.recv(&M::Auth(k.tb));
        st.steps(4);
        st.trace();
        ensure!(matches!(r, Err(Error::MutualAuthFail)), "{v:?}: a client that guesses the secret ({i}) of an unknown user's session is accepted");
        i += 1;
    }
    Ok(())
}
/// drawn bytes that change Ya but not X: the private key, and for an unknown user also the secret
fn ya_only<D: Dg>(st: &mut Stats, v: V, db: &Db, base: &mut Base<D, 16>, user: &[u8]) -> Result<usize, Fail> {
    let (r, _) = reply::<D>(st, v, db, base, user, rf::pt(4), Tape::new(21), 1, true)?;
    let mut n = 0;
    for b in 0..r.used {
        let (q, _) = reply::<D>(st, v, db, base, user, rf::pt(4), Tape::new(21).flip(8 * b + b % 8), 1, true)?;
        ensure!(q.used == r.used, "number of drawn bytes changes");
        if q.ya != r.ya && q.face == r.face {
            n += 1
        }
    }
    st.trace();
    Ok(n)
}
fn fresh<D: Dg>(st: &mut Stats, v: V, db: &Db, base: &mut Base<D, 16>, user: &[u8], miss: Miss) -> Result<(), Fail> {
    let k = ya_only::<D>(st, v, db, base, b"registered")?;
    let u = ya_only::<D>(st, v, db, base, user)?;
    ensure!(u >= k + 16, "{v:?}, {miss:?} missing: only {} freshly drawn bytes enter the secret of an unknown user's session", u.saturating_sub(k));
    st.outcome("fresh secret");
    Ok(())
}
fn names() -> Vec<Vec<u8>> {
    let mut v = alpha::tricky();
    v.extend((0..=150).map(|n| alpha::base(n, 3)));
    for n in [8usize, 33, 64, 100] {
        v.extend(alpha::neighbours(&alpha::base(n, 5)).into_iter().map(|x| x.1));
    }
    for t in alpha::specials() {
        v.push([b"x", &t[..], b"Y"].concat());
        v.push(t);
    }
    for i in 0..40u32 {
        v.push(i.to_le_bytes().to_vec());
        v.push(vec![0; i as usize]);
    }
    v.sort();
    v.dedup();
    v
}

/// histories of unknown users becoming known and unknown again
fn lifecycle(ctx: &Ctx) {
    // 0,1: log in a,b; 2,3: register / remove a; 4: register b
    let depth = ctx.t(5usize, 6);
    let n = 5usize.pow(depth as u32);
    ctx.par("lifecycle", n.div_ceil(25) * 4, |w, j| {
        let v = VS[j % 4];
        w.case(&format!("{v:?}/{}", j / 4), |st| {
            for h in (j / 4 * 25)..((j / 4 + 1) * 25).min(n) {
                let mut base = Base::<Sha512, 16>::new(Tape::new(6));
                let mut db = Db::default();
                let mut fake: BTreeMap<&[u8], _> = BTreeMap::new();
                let mut x = h;
                for s in 0..depth as u64 {
                    let op = x % 5;
                    x /= 5;
                    let u: &[u8] = if op == 1 || op == 4 { b"bob" } else { b"alice" };
                    match op {
                        0 | 1 => {
                            let (r, _) = reply::<Sha512>(st, v, &db, &mut base, u, rf::pt(2), Tape::new(s + 50), s, s % 2 == 1)?;
                            if db.rows.contains_key(u) {
                                continue;
                            }
                            let f = stable(v, Miss::All, &r.face);
                            let g = fake.entry(u).or_insert_with(|| f.clone());
                            ensure!(*g == f, "{v:?}: answer for an unknown user changed in history {h} step {s}");
                            st.state(&(v as u8, &f, s));
                        }
                        2 | 4 => record::<Sha512>(&mut db, v, &mut base, u, b"pw", Miss::Nothing, s)?,
                        _ => {
                            db.rows.remove(u);
                            db.keys.remove(u);
                        }
                    }
                    st.step();
                }
                if let (Some(a), Some(b)) = (fake.get(&b"alice"[..]), fake.get(&b"bob"[..])) {
                    ensure!(a.1 != b.1 || a.1.is_none(), "two users share a fake salt");
                    ensure!(a.2 != b.2 || a.2.is_none(), "two users share a fake exponent");
                    ensure!(a.0 != b.0 || a.0.is_none(), "two users share a fake key");
                }
                st.trace();
            }
            Ok(())
        });
    });
}
pub fn a05(ctx: &Ctx) {
    ctx.bound("4 variants x missing {verifier and key pair, verifier, key pair} x 4 servers x about 800 user names (tricky, all lengths 0..150, single edits) x 3 (thorough 6) sessions, both kinds of session id: form, stability, pairwise difference");
    ctx.bound("servers differing in any single drawn bit, 6 users; logins with 6 passwords and a model client that guesses about 20 candidate secrets; effect of every drawn byte; all histories of 5 (thorough 6) logins, registrations and removals of two users");
    ctx.assume("SHA-2 collision resistance within the explored set");
    unknown::<Sha512>(ctx, "sha512");
    unknown::<Alt64>(ctx, "alt64");
    lifecycle(ctx);
}

pub fn a11(ctx: &Ctx) {
    let depth = ctx.t(4usize, 5);
    ctx.bound(format!("all histories of {depth} operations out of register(u,p) and login(u,p) for two users and two passwords, followed by all four logins, 4 variants x 11 alphabets (plain, prefixes, separators, case, padding, long names and passwords that differ at the end or in length only) against a map as model; the last eight one operation less deep"));
    ctx.bound("every registration, password change, re-registration and removal placed before each lookup of a login: outcome as before or after the change, for three passwords");
    changes(ctx);
    let l = |n: usize, c: &str| format!("{}{c}", "x".repeat(n));
    let own: Vec<[String; 4]> = [
        ["alice", "bob", "pw1", "pw2"].map(String::from),
        ["a", "ab", "bc", "c"].map(String::from),
        ["a", "a:", "p", ":p"].map(String::from),
        ["alice", "Alice", "pw", "pW"].map(String::from),
        ["alice", "alice ", "pw", "pw\n"].map(String::from),
        ["alice", "alice\0", "", "\0"].map(String::from),
        [l(31, "a"), l(31, "b"), l(32, ""), l(33, "")],
        [l(64, ""), l(65, ""), l(64, "a"), l(64, "b")],
        [l(128, "a"), l(128, "b"), l(127, ""), l(128, "")],
        [l(255, ""), l(256, ""), l(254, "a"), l(254, "b")],
        [l(400, "a"), l(400, "b"), l(109, "c"), l(109, "")],
    ]
    .to_vec();
    let sets: Vec<[&[u8]; 4]> = own.iter().map(|s| [s[0].as_bytes(), s[1].as_bytes(), s[2].as_bytes(), s[3].as_bytes()]).collect();
    // texts that a program may take for each other
    let tw = alpha::twins();
    ctx.bound(format!("{} pairs of texts of which the second is a cleaned-up, decoded, folded or cut form of the first, as user names and as passwords", tw.len()));
    ctx.par("treated", tw.len() * 2, |w, j| {
        let (a, b) = &tw[j / 2];
        let (v, bits) = (VS[(j / 4) % 4], (j / 16) as u32 & 7);
        w.case(&format!("{}/{}-{}", j % 2, mccore::hex(a), mccore::hex(b)), |st| {
            let mut base = Base::<Sha512, 16>::new(Tape::new(6));
            let mut db = Db::default();
            let go = |st: &mut Stats, db: &Db, u: &[u8], p: &[u8], ok: bool| -> Result<(), Fail> {
                let mut base = Base::<Sha512, 16>::new(Tape::new(6));
                let l = login::<Sha512, 16>(st, v, db, &mut base, u, p, bits, 7)?;
                asked(db, u)?;
                expect(&l, bits & 2 != 0, ok, &format!("{v:?}, user {} with password {}, where {} and {} are registered or were passwords", mccore::show(u), mccore::show(p), mccore::show(a), mccore::show(b)))
            };
            if j % 2 == 0 {
                record::<Sha512>(&mut db, v, &mut base, a, b"pw1", Miss::Nothing, 1)?;
                go(st, &db, b, b"pw1", false)?;
                record::<Sha512>(&mut db, v, &mut base, b, b"pw2", Miss::Nothing, 2)?;
                for (u, p, ok) in [(a, b"pw1", true), (b, b"pw2", true), (a, b"pw2", false), (b, b"pw1", false)] {
                    go(st, &db, u, p, ok)?;
                }
            } else {
                record::<Sha512>(&mut db, v, &mut base, b"user", a, Miss::Nothing, 1)?;
                go(st, &db, b"user", b, false)?;
                go(st, &db, b"user", a, true)?;
                record::<Sha512>(&mut db, v, &mut base, b"user", b, Miss::Nothing, 2)?;
                go(st, &db, b"user", a, false)?;
                go(st, &db, b"user", b, true)?;
            }
            // each way round in every variant
            for (k, v) in VS.into_iter().enumerate() {
                for (a, b) in [(a, b), (b, a)] {
                    let mut db = Db::default();
                    let n = bits ^ k as u32;
                    let mut base = Base::<Sha512, 16>::new(Tape::new(6));
                    let (u, p, u2, p2): (&[u8], &[u8], &[u8], &[u8]) = if j % 2 == 0 { (a, b"pw1", b, b"pw1") } else { (b"user", a, b"user", b) };
                    record::<Sha512>(&mut db, v, &mut base, u, p, Miss::Nothing, 1)?;
                    let l = login::<Sha512, 16>(st, v, &db, &mut base, u2, p2, n, 7)?;
                    asked(&db, u2)?;
                    expect(&l, n & 2 != 0, false, &format!("{v:?}, user {} with password {}, where user {} with password {} is registered", mccore::show(u2), mccore::show(p2), mccore::show(u), mccore::show(p)))?;
                }
            }
            st.trace();
            st.state(&j);
            Ok(())
        });
    });
    let n = 8usize.pow(depth as u32);
    let chunk = 64;
    let m = sets.len();
    ctx.par("histories", n / chunk * 4 * m, |w, j| {
        let (v, si, blk) = (VS[j % 4], j / 4 % m, j / 4 / m);
        let set = &sets[si];
        // the longer alphabets: histories of depth one less
        let depth = if si > 2 { depth - 1 } else { depth };
        if blk * chunk >= 8usize.pow(depth as u32) {
            return;
        }
        w.case(&format!("{v:?}/{si}/{blk}"), |st| {
            for h in blk * chunk..(blk + 1) * chunk {
                history(st, v, set, h, depth)?;
            }
            Ok(())
        });
    });
}
/// a registration, password change or removal that falls between two lookups of a login
fn changes(ctx: &Ctx) {
    // contents for the user: nothing, (password, registration number)
    let states: [Option<(usize, u64)>; 5] = [None, Some((0, 1)), Some((0, 2)), Some((1, 3)), Some((1, 4))];
    let pws: [&[u8]; 3] = [b"pw1", b"pw2", b"pw3"];
    ctx.par("change during a login", 25 * 4 * 8, |w, j| {
        let (v, bits, from, to) = (VS[j % 4], (j / 4 % 8) as u32, states[j / 32 % 5], states[j / 160]);
        w.case(&format!("{v:?}/{bits}/{from:?}->{to:?}"), |st| {
            for when in 0..4usize {
                let mut got = vec![];
                for (i, pw) in pws.iter().enumerate() {
                    let mut base = Base::<Sha512, 16>::new(Tape::new(6));
                    let make = |st: &mut Stats, base: &mut Base<Sha512, 16>, s: Option<(usize, u64)>| -> Result<Db, Fail> {
                        let mut db = Db::default();
                        record::<Sha512>(&mut db, v, base, b"other", b"pw1", Miss::Nothing, 9)?;
                        if let Some((p, n)) = s {
                            record::<Sha512>(&mut db, v, base, b"user", pws[p], Miss::Nothing, n)?;
                        }
                        st.step();
                        Ok(db)
                    };
                    let mut db = make(st, &mut base, from)?;
                    db.later = Some((when, Box::new(make(st, &mut base, to)?)));
                    let l = login::<Sha512, 16>(st, v, &db, &mut base, b"user", pw, bits, (when * 3 + i) as u64)?;
                    let ok = l.server.is_some() && l.server == l.client;
                    expect(&l, bits & 2 != 0, ok, &format!("{v:?}, {from:?} becomes {to:?} at lookup {when}"))?;
                    got.push(ok);
                    st.state(&(v as u8, j, when, i));
                }
                let want = |s: Option<(usize, u64)>| (0..3).map(|i| s.map(|x| x.0) == Some(i)).collect::<Vec<_>>();
                ensure!(got == want(from) || got == want(to), "{v:?}: the contents {from:?} become {to:?} at lookup {when} of a login: logins with three passwords succeed {got:?}, which is neither the old nor the new state");
                st.outcome(if from == to { "unchanged" } else if got == want(from) { "as before the change" } else { "as after the change" });
            }
            Ok(())
        });
    });
}
fn history(st: &mut Stats, v: V, set: &[&[u8]; 4], h: usize, depth: usize) -> Result<(), Fail> {
    let mut base = Base::<Sha512, 16>::new(Tape::new(8));
    let mut cl = AuCPaceClient::<Sha512, Rec, Tape, 16>::new(Tape::new(9));
    let mut db = Db::default();
    let mut model: BTreeMap<usize, usize> = BTreeMap::new();
    let bits0 = (h ^ h >> 3 ^ h >> 6 ^ h >> 9) as u32;
    let mut x = h;
    for s in 0..depth + 4 {
        let op = if s < depth {
            x % 8
        } else {
            4 + (s - depth)
        };
        x /= 8;
        let (ui, pi) = (op & 1, op >> 1 & 1);
        let (user, pw) = (set[ui], set[2 + pi]);
        let bits = bits0.wrapping_add(s as u32 * 3);
        if op < 4 {
            let p = ["n=1", "", "m=2,k=3"][s % 3];
            let r = register(&mut cl, v.strong(), bits & 1 == 0, user, pw, Par { p: par(p), fail: None }, Rec::new(Out::Len(32))).map_err(e("registration"))?;
            ensure!(r.user == user, "registration names another user");
            db.put(&r);
            if v.partial() {
                db.keys.insert(user.to_vec(), base.generate_long_term_keypair());
            }
            model.insert(ui, pi);
            st.step();
        } else {
            db.log.lock().unwrap().clear();
            let before = (format!("{:?}", db.rows), format!("{:?}", db.keys));
            let l = login::<Sha512, 16>(st, v, &db, &mut base, user, pw, bits & 7, s as u64)?;
            let ok = model.get(&ui) == Some(&pi);
            let what = format!("{v:?}, history {h}, step {s}, user {} password {}, registered {model:?}", show(user), show(pw));
            expect(&l, bits & 2 != 0, ok, &what)?;
            for (k, u) in db.log() {
                ensure!(u == user && k != b'!', "{what}: database asked ({k}) for user {}", show(&u));
            }
            ensure!(before == (format!("{:?}", db.rows), format!("{:?}", db.keys)), "{what}: database changed");
            if let (Some(r), M::Aug { x_pub, salt: sl, params, .. }) = (db.rows.get(user), &l.info) {
                ensure!(params.as_str() == r.params.as_str(), "{what}: parameters of the record changed");
                ensure!(sl.is_none() || sl.as_ref().map(|s| s.as_str()) == Some(r.salt.as_str()), "{what}: salt of the record changed");
                if let Some(k) = db.keys.get(user) {
                    ensure!(!v.partial() || *x_pub == k.1, "{what}: key of the record changed");
                }
            }
            st.outcome(if ok { "authenticated" } else { "refused" });
        }
        st.state(&(v as u8, set[0], &model.iter().collect::<Vec<_>>(), op));
    }
    st.trace();
    Ok(())
}
