//! Executes a fixed battery of calls and prints one line per result: `<group> <case> <result>`.
//! Built once per feature set of the crates under test.
#[path = "../../mcaucpace/src/hasher.rs"]
#[allow(dead_code)]
mod hasher;
#[allow(unused_imports)]
use aucpace::client::*;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, Error, ServerMessage};
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, RistrettoPoint as P, Scalar};
use hasher::{par, Alt64, Out, Par, Rec};
use mccore::rng::Tape;
use mccore::{alpha, guard, h64, hex};
use password_hash::{ParamsString, SaltString};
use sha2::Sha512;
use spake2::{Ed25519Group, Identity, Password, Spake2};

type D = Sha512;
type C = AuCPaceClient<D, Rec, Tape, 16>;
type S = AuCPaceServer<D, Tape, 16>;

fn put(group: &str, case: &str, v: &[u8]) {
    let v = if v.len() > 200 { format!("#{:016x}", h64(v)) } else { hex(v) };
    println!("{group} {} {v}", case.replace(' ', "_"));
}
fn enc(p: &P) -> Vec<u8> {
    p.compress().to_bytes().to_vec()
}
fn e(x: Error) -> Vec<u8> {
    format!("error {x:?} {x}").into_bytes()
}
fn flat<T>(r: Result<Result<T, Error>, String>, f: impl FnOnce(T) -> Vec<u8>) -> Vec<u8> {
    match r {
        Ok(Ok(v)) => f(v),
        Ok(Err(x)) => e(x),
        // the place of a panic may move, its occurrence may not
        Err(_) => b"panic".to_vec(),
    }
}
fn cmsg(m: &ClientMessage<'_, 16>) -> Vec<u8> {
    match m {
        ClientMessage::Nonce(n) => [b"nonce", &n[..]].concat(),
        ClientMessage::Username(u) => [b"user", *u].concat(),
        #[cfg(feature = "f_strong_aucpace")]
        ClientMessage::StrongUsername { username, blinded } => [b"suser", *username, &enc(blinded)].concat(),
        ClientMessage::PublicKey(p) => [&b"pub"[..], &enc(p)].concat(),
        ClientMessage::Authenticator(a) => [b"auth", &a[..]].concat(),
        ClientMessage::Registration { username, salt, params, verifier } => {
            [b"reg", *username, salt.as_str().as_bytes(), params.as_str().as_bytes(), &enc(verifier)].concat()
        }
        #[cfg(feature = "f_strong_aucpace")]
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            [b"sreg", *username, &secret_exponent.to_bytes()[..], params.as_str().as_bytes(), &enc(verifier)].concat()
        }
    }
}
fn smsg(m: &ServerMessage<'_, 16>) -> Vec<u8> {
    match m {
        ServerMessage::Nonce(n) => [b"nonce", &n[..]].concat(),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => {
            [b"info", group.as_bytes(), &enc(x_pub), salt.as_str().as_bytes(), pbkdf_params.as_str().as_bytes()].concat()
        }
        #[cfg(feature = "f_strong_aucpace")]
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => {
            [b"sinfo", group.as_bytes(), &enc(x_pub), &enc(blinded_salt), pbkdf_params.as_str().as_bytes()].concat()
        }
        ServerMessage::PublicKey(p) => [&b"pub"[..], &enc(p)].concat(),
        ServerMessage::Authenticator(a) => [b"auth", &a[..]].concat(),
    }
}
#[derive(Clone)]
struct Row {
    verifier: P,
    salt: SaltString,
    #[allow(dead_code)]
    q: Scalar,
    params: ParamsString,
}
#[derive(Default)]
struct Db {
    rows: Vec<(Vec<u8>, Row)>,
}
impl Db {
    fn get(&self, u: &[u8]) -> Option<Row> {
        self.rows.iter().find(|r| r.0 == u).map(|r| r.1.clone())
    }
}
impl Database for Db {
    type PasswordVerifier = P;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(P, SaltString, ParamsString)> {
        self.get(u).map(|r| (r.verifier, r.salt, r.params))
    }
    fn store_verifier(&mut self, _: &[u8], _: SaltString, _: Option<&[u8]>, _: P, _: ParamsString) {}
}
#[cfg(feature = "f_strong_aucpace")]
impl aucpace::StrongDatabase for Db {
    type PasswordVerifier = P;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(P, Scalar, ParamsString)> {
        self.get(u).map(|r| (r.verifier, r.q, r.params))
    }
    fn store_verifier_strong(&mut self, _: &[u8], _: Option<&[u8]>, _: P, _: Scalar, _: ParamsString) {}
}
#[cfg(feature = "f_partial_augmentation")]
impl aucpace::PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = P;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, P)> {
        self.get(u).map(|_| (Scalar::from(77u8), B * Scalar::from(77u8)))
    }
    fn store_long_term_keypair(&mut self, _: &[u8], _: Scalar, _: P) -> Result<(), Error> {
        Ok(())
    }
}
fn salt0() -> SaltString {
    SaltString::from_b64("c2FsdHNhbHQ").unwrap()
}
fn p0(s: &str) -> Par {
    Par { p: par(s), fail: None }
}

/// which reg / cpace functions exist
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bufk {
    Small,
    Large,
    Huge,
    #[cfg(feature = "f_alloc")]
    Alloc,
}
fn bufs() -> Vec<Bufk> {
    vec![
        Bufk::Small,
        Bufk::Large,
        Bufk::Huge,
        #[cfg(feature = "f_alloc")]
        Bufk::Alloc,
    ]
}
fn register(strong: bool, b: Bufk, c: &mut C, u: &[u8], pw: &[u8], ps: Par, h: Rec) -> Vec<u8> {
    flat(
        guard(|| {
            let m = match (strong, b) {
                (false, Bufk::Small) => c.register::<_, 40>(u, pw, ps, h),
                (false, Bufk::Large) => c.register::<_, 4096>(u, pw, ps, h),
                (false, Bufk::Huge) => c.register::<_, 70000>(u, pw, ps, h),
                #[cfg(feature = "f_alloc")]
                (false, Bufk::Alloc) => c.register_alloc(u, pw, ps, h),
                #[cfg(feature = "f_strong_aucpace")]
                (true, Bufk::Small) => c.register_strong::<_, 40>(u, pw, ps, h),
                #[cfg(feature = "f_strong_aucpace")]
                (true, Bufk::Large) => c.register_strong::<_, 4096>(u, pw, ps, h),
                #[cfg(feature = "f_strong_aucpace")]
                (true, Bufk::Huge) => c.register_strong::<_, 70000>(u, pw, ps, h),
                #[cfg(all(feature = "f_strong_aucpace", feature = "f_alloc"))]
                (true, Bufk::Alloc) => c.register_alloc_strong(u, pw, ps, h),
                #[cfg(not(feature = "f_strong_aucpace"))]
                (true, _) => unreachable!(),
            };
            m.map(|m| cmsg(&m))
        }),
        |v| v,
    )
}
fn outs() -> Vec<Out> {
    use password_hash::errors::InvalidValue;
    use password_hash::Error as E;
    vec![
        Out::Len(32),
        Out::Len(64),
        Out::Len(10),
        Out::Len(31),
        Out::Len(33),
        Out::Len(63),
        Out::Fill(32, 0),
        Out::Fill(64, 0),
        Out::Fill(32, 0xff),
        Out::Fill(64, 0xff),
        Out::Empty,
        Out::Fail(E::Algorithm),
        Out::Fail(E::SaltInvalid(InvalidValue::TooShort)),
    ]
}
fn registrations(strong: bool) {
    let g = if strong { "register-strong" } else { "register" };
    let texts: Vec<Vec<u8>> = alpha::tricky().into_iter().step_by(3).chain(alpha::specials().into_iter().step_by(9)).chain([10usize, 20, 39, 40, 41, 100, 300, 3000, 4095, 4096, 5000].map(|n| alpha::base(n, 3))).collect();
    for b in bufs() {
        for (i, u) in texts.iter().enumerate() {
            for (j, pw) in texts.iter().enumerate() {
                if i > 4 && j > 4 {
                    continue;
                }
                let mut c = C::new(Tape::new(5));
                let h = Rec::new(Out::Len(32));
                let r = register(strong, b, &mut c, u, pw, p0("a=1"), h.clone());
                put(g, &format!("{b:?}/{i}/{j}"), &r);
                put(g, &format!("{b:?}/{i}/{j}/calls"), format!("{:?}", h.calls()).as_bytes());
            }
        }
        // lengths about powers of two, alone and in sum
        let lens = [0usize, 1, 127, 128, 254, 255, 256, 257, 32767, 32768, 40000, 65534, 65535, 65536, 65537];
        for (i, x) in lens.iter().enumerate() {
            for (j, y) in lens.iter().enumerate() {
                let mut c = C::new(Tape::new(5));
                let h = Rec::new(Out::Len(32));
                let r = register(strong, b, &mut c, &alpha::base(*x, 3), &alpha::base(*y, 4), p0("a=1"), h.clone());
                put(g, &format!("{b:?}/len{i}/{j}"), &r);
                for (n, c) in h.calls().iter().enumerate() {
                    put(g, &format!("{b:?}/len{i}/{j}/call{n}"), &c.password);
                }
            }
        }
        for (k, o) in outs().into_iter().enumerate() {
            let mut c = C::new(Tape::new(6));
            let r = register(strong, b, &mut c, b"user", b"password", p0("a=1,b=2"), Rec::new(o));
            put(g, &format!("{b:?}/out{k}"), &r);
            let mut ps = p0("a=1");
            ps.fail = Some(password_hash::Error::ParamNameInvalid);
            let r = register(strong, b, &mut c, b"user", b"password", ps, Rec::new(o));
            put(g, &format!("{b:?}/out{k}/params"), &r);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Plain,
    #[cfg(feature = "f_partial_augmentation")]
    Partial,
    #[cfg(feature = "f_strong_aucpace")]
    Strong,
    #[cfg(all(feature = "f_strong_aucpace", feature = "f_partial_augmentation"))]
    PStrong,
}
fn vs() -> Vec<V> {
    vec![
        V::Plain,
        #[cfg(feature = "f_partial_augmentation")]
        V::Partial,
        #[cfg(feature = "f_strong_aucpace")]
        V::Strong,
        #[cfg(all(feature = "f_strong_aucpace", feature = "f_partial_augmentation"))]
        V::PStrong,
    ]
}
fn strong(v: V) -> bool {
    match v {
        V::Plain => false,
        #[cfg(feature = "f_partial_augmentation")]
        V::Partial => false,
        #[cfg(feature = "f_strong_aucpace")]
        V::Strong => true,
        #[cfg(all(feature = "f_strong_aucpace", feature = "f_partial_augmentation"))]
        V::PStrong => true,
    }
}
enum Step<T> {
    Go(T),
    Stop,
}
/// logs a result and goes on when it is one
fn step<T>(log: &mut Vec<Vec<u8>>, r: Result<Result<T, Error>, String>, f: impl FnOnce(&T) -> Vec<u8>) -> Step<T> {
    match r {
        Ok(Ok(v)) => {
            log.push(f(&v));
            Step::Go(v)
        }
        Ok(Err(x)) => {
            log.push(e(x));
            Step::Stop
        }
        Err(_) => {
            log.push(b"panic".to_vec());
            Step::Stop
        }
    }
}
macro_rules! go {
    ($e:expr) => {
        match $e {
            Step::Go(v) => v,
            Step::Stop => return,
        }
    };
}
enum CAug<'a> {
    P(AuCPaceClientAugLayer<'a, D, Rec, 16>),
    #[cfg(feature = "f_strong_aucpace")]
    S(StrongAuCPaceClientAugLayer<'a, D, Rec, 16>),
}
enum Info {
    P(SaltString),
    #[cfg(feature = "f_strong_aucpace")]
    S(P),
}
/// one session with fault number `f`
#[allow(clippy::too_many_arguments)]
fn session(v: V, b: Bufk, implicit: bool, pre: Option<&[u8]>, user: &[u8], pw: &[u8], out: Out, f: u8, db: &Db, log: &mut Vec<Vec<u8>>) {
    let mut c = C::new(Tape::new(1));
    let mut s = S::new(Tape::new(2));
    let (mut rc, rs) = (Tape::new(3), Tape::new(4));
    let (pa, sa) = match pre {
        Some(x) => (go!(step(log, guard(|| c.begin_prestablished_ssid(x)), |_| vec![])), go!(step(log, guard(|| s.begin_prestablished_ssid(x)), |_| vec![]))),
        None => {
            let (cs, m) = c.begin();
            let cn = match m {
                ClientMessage::Nonce(n) => n,
                _ => return,
            };
            let (ss, m) = s.begin();
            let sn = match m {
                ServerMessage::Nonce(n) => n,
                _ => return,
            };
            log.push([cn, sn].concat());
            let cn2 = if f == 1 { [0; 16] } else { cn };
            (cs.agree_ssid(sn), ss.agree_ssid(cn2))
        }
    };
    // user name
    #[allow(unused_mut)]
    let (ca, um): (CAug, Option<P>) = if strong(v) {
        #[cfg(feature = "f_strong_aucpace")]
        {
            let (n, m) = pa.start_augmentation_strong(user, pw, &mut rc);
            log.push(cmsg(&m));
            let b = match m {
                ClientMessage::StrongUsername { blinded, .. } => blinded,
                _ => return,
            };
            (CAug::S(n), Some(if f == 2 { P::default() } else { b }))
        }
        #[cfg(not(feature = "f_strong_aucpace"))]
        return;
    } else {
        let (n, m) = pa.start_augmentation(user, pw);
        log.push(cmsg(&m));
        (CAug::P(n), None)
    };
    let _ = um;
    let r = guard(|| match v {
        V::Plain => Ok(sa.generate_client_info(user, db, rs.clone())),
        #[cfg(feature = "f_partial_augmentation")]
        V::Partial => Ok(sa.generate_client_info_partial_aug(user, db, rs.clone())),
        #[cfg(feature = "f_strong_aucpace")]
        V::Strong => sa.generate_client_info_strong(user, um.unwrap_or_default(), db, rs.clone()),
        #[cfg(all(feature = "f_strong_aucpace", feature = "f_partial_augmentation"))]
        V::PStrong => sa.generate_client_info_partial_strong(user, um.unwrap_or_default(), db, rs.clone()),
    });
    let (sc, m) = go!(step(log, r, |x| smsg(&x.1)));
    let (x_pub, info, params) = match m {
        ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => (x_pub, Info::P(salt), pbkdf_params),
        #[cfg(feature = "f_strong_aucpace")]
        ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, pbkdf_params, .. } => (x_pub, Info::S(if f == 3 { P::default() } else { blinded_salt }), pbkdf_params),
        _ => return,
    };
    let x_pub = if f == 4 { P::default() } else { x_pub };
    let h = Rec::new(out);
    let hp = Par { p: params, fail: None };
    let r = guard(|| match (ca, info) {
        (CAug::P(a), Info::P(salt)) => match b {
            Bufk::Small => a.generate_cpace::<&SaltString, 40>(x_pub, &salt, hp, h.clone()),
            Bufk::Large => a.generate_cpace::<&SaltString, 4096>(x_pub, &salt, hp, h.clone()),
            Bufk::Huge => a.generate_cpace::<&SaltString, 70000>(x_pub, &salt, hp, h.clone()),
            #[cfg(feature = "f_alloc")]
            Bufk::Alloc => a.generate_cpace_alloc(x_pub, &salt, hp, h.clone()),
        },
        #[cfg(feature = "f_strong_aucpace")]
        (CAug::S(a), Info::S(bl)) => match b {
            Bufk::Small => a.generate_cpace::<40>(x_pub, bl, hp, h.clone()),
            Bufk::Large => a.generate_cpace::<4096>(x_pub, bl, hp, h.clone()),
            Bufk::Huge => a.generate_cpace::<70000>(x_pub, bl, hp, h.clone()),
            #[cfg(feature = "f_alloc")]
            Bufk::Alloc => a.generate_cpace_alloc(x_pub, bl, hp, h.clone()),
        },
        #[cfg(feature = "f_strong_aucpace")]
        _ => panic!("SHAPE"),
    });
    let calls = format!("{:?}", h.calls()).into_bytes();
    let cc = go!(step(log, r, |_| calls));
    let (ck, m) = cc.generate_public_key(b"ci", &mut rc);
    log.push(cmsg(&m));
    let cp = match m {
        ClientMessage::PublicKey(p) => p,
        _ => return,
    };
    let (sk, m) = sc.generate_public_key(b"ci");
    log.push(smsg(&m));
    let sp = match m {
        ServerMessage::PublicKey(p) => p,
        _ => return,
    };
    let sp = if f == 5 { P::default() } else { sp };
    let cp = if f == 6 { P::default() } else { cp };
    if implicit {
        step(log, guard(|| ck.implicit_auth(sp)), |k| k.to_vec());
        step(log, guard(|| sk.implicit_auth(cp)), |k| k.to_vec());
        return;
    }
    let sx = go!(step(log, guard(|| sk.receive_client_pubkey(cp)), |_| vec![]));
    let (cx, m) = go!(step(log, guard(|| ck.receive_server_pubkey(sp)), |x| cmsg(&x.1)));
    let mut a = match m {
        ClientMessage::Authenticator(a) => a,
        _ => return,
    };
    if f == 7 {
        a[63] ^= 1;
    }
    let (_, m) = go!(step(log, guard(|| sx.receive_client_authenticator(a)), |x| [&x.0[..], &smsg(&x.1)].concat()));
    let mut a = match m {
        ServerMessage::Authenticator(a) => a,
        _ => return,
    };
    if f == 8 {
        a[0] ^= 0x80;
    }
    step(log, guard(|| cx.receive_server_authenticator(a)), |k| k.to_vec());
}
fn sessions() {
    for v in vs() {
        let mut db = Db::default();
        let mut c = C::new(Tape::new(9));
        for (u, pw) in [(&b"alice"[..], &b"password"[..]), (b"", b""), (&[0xff; 30], b"x")] {
            let (ps, h) = (p0("m=1"), Rec::new(Out::Len(32)));
            let m = if strong(v) {
                #[cfg(feature = "f_strong_aucpace")]
                {
                    c.register_strong::<_, 200>(u, pw, ps, h)
                }
                #[cfg(not(feature = "f_strong_aucpace"))]
                return;
            } else {
                c.register::<_, 200>(u, pw, ps, h)
            };
            match m {
                Ok(ClientMessage::Registration { username, salt, params, verifier }) => db.rows.push((username.to_vec(), Row { verifier, salt, q: Scalar::ZERO, params })),
                #[cfg(feature = "f_strong_aucpace")]
                Ok(ClientMessage::StrongRegistration { username, secret_exponent, params, verifier }) => {
                    db.rows.push((username.to_vec(), Row { verifier, salt: salt0(), q: secret_exponent, params }))
                }
                _ => {}
            }
        }
        #[cfg(feature = "f_partial_augmentation")]
        {
            let mut s = S::new(Tape::new(2));
            let (x, p) = s.generate_long_term_keypair();
            put("keypair", &format!("{v:?}"), &[x.to_bytes().to_vec(), enc(&p)].concat());
        }
        for b in bufs() {
            for implicit in [false, true] {
                for (pn, pre) in [("new", None), ("pre", Some(&b"0123456789abcdef"[..])), ("short", Some(&b"0123456789abcde"[..]))] {
                    for (un, user, pw) in [("ok", &b"alice"[..], &b"password"[..]), ("wrong", b"alice", b"passwore"), ("nobody", b"nobody", b"password"), ("empty", b"", b""), ("bytes", &[0xff; 30], b"x"), ("long", b"alice", &[b'p'; 60])] {
                        for f in 0..9u8 {
                            let mut log = vec![];
                            session(v, b, implicit, pre, user, pw, Out::Len(32), f, &db, &mut log);
                            put("session", &format!("{v:?}/{b:?}/{implicit}/{pn}/{un}/{f}"), &log.join(&b"|"[..]));
                            if f > 0 && un != "ok" {
                                break;
                            }
                        }
                    }
                    for (k, o) in outs().into_iter().enumerate() {
                        let mut log = vec![];
                        session(v, b, implicit, pre, b"alice", b"password", o, 0, &db, &mut log);
                        put("session", &format!("{v:?}/{b:?}/{implicit}/{pn}/out{k}"), &log.join(&b"|"[..]));
                    }
                }
            }
        }
        // unknown users are answered the same way by the same server
        let s = S::new(Tape::new(21)).begin_prestablished_ssid(b"0123456789abcdef");
        if let Ok(s) = s {
            let (_, m) = s.generate_client_info(b"stranger", &db, Tape::new(22));
            put("unknown", &format!("{v:?}"), &smsg(&m));
        }
    }
    // another digest and nonce size
    let mut c = AuCPaceClient::<Alt64, Rec, Tape, 32>::new(Tape::new(1));
    let mut s = AuCPaceServer::<Alt64, Tape, 32>::new(Tape::new(2));
    let (_, m) = c.begin();
    if let ClientMessage::Nonce(n) = m {
        put("alt", "client-nonce", &n);
    }
    let (_, m) = s.begin();
    if let ServerMessage::Nonce(n) = m {
        put("alt", "server-nonce", &n);
    }
    if let Ok(ClientMessage::Registration { salt, verifier, .. }) = c.register::<_, 100>(b"u", b"p", p0(""), Rec::new(Out::Len(64))) {
        put("alt", "register", &[salt.as_str().as_bytes(), &enc(&verifier)].concat());
    }
}
/// with the library's own default types, as far as they exist
fn defaults() {
    #[cfg(all(feature = "f_scrypt", feature = "f_sha2", feature = "f_getrandom"))]
    {
        let mut c = aucpace::Client::new(rand_core::OsRng);
        let r = scrypt::Params::new(1, 1, 1, 32).ok().and_then(|ps| c.register::<_, 100>(b"u", b"p", ps, scrypt::Scrypt).ok());
        put("default", "client", &[r.is_some() as u8]);
    }
    #[cfg(all(feature = "f_sha2", feature = "f_getrandom"))]
    {
        let mut s = aucpace::Server::new(rand_core::OsRng);
        put("default", "server", &[s.begin_prestablished_ssid([1; 16]).is_ok() as u8, s.begin_prestablished_ssid([1; 15]).is_ok() as u8]);
    }
    // scrypt as the password hasher in every configuration
    let mut c = AuCPaceClient::<D, scrypt::Scrypt, Tape, 16>::new(Tape::new(31));
    for (ln, r, p, n) in [(1u8, 1u32, 1u32, 32usize), (2, 1, 1, 32), (1, 2, 1, 64), (1, 1, 2, 10)] {
        let Ok(ps) = scrypt::Params::new(ln, r, p, n) else { continue };
        let m = guard(|| c.register::<_, 100>(b"user", b"password", ps, scrypt::Scrypt).map(|m| cmsg(&m)));
        put("scrypt", &format!("register/{ln}/{r}/{p}/{n}"), &flat(m, |v| v));
        #[cfg(feature = "f_alloc")]
        {
            let mut c = AuCPaceClient::<D, scrypt::Scrypt, Tape, 16>::new(Tape::new(32));
            let m = guard(|| c.register_alloc(b"user", b"password", ps, scrypt::Scrypt).map(|m| cmsg(&m)));
            put("scrypt", &format!("register-alloc/{ln}/{r}/{p}/{n}"), &flat(m, |v| v));
        }
    }
    let errs = [
        Error::IllegalPointError,
        Error::PasswordHashing(password_hash::Error::Crypto),
        Error::HashEmpty,
        Error::HashSizeInvalid,
        Error::MutualAuthFail,
        Error::UsernameOrPasswordTooLong,
        Error::InsecureSsid,
        #[cfg(feature = "f_partial_augmentation")]
        Error::UserNotRegistered,
    ];
    for x in errs {
        put("error", &format!("{x:?}"), x.to_string().as_bytes());
    }
}
#[cfg(feature = "f_serde")]
fn wire() {
    let (salt, ps, u) = (salt0(), par("m=1,t=2"), &b"alice"[..]);
    let cs: Vec<(&str, ClientMessage<16>)> = vec![
        ("client.Nonce", ClientMessage::Nonce([7; 16])),
        ("client.Username", ClientMessage::Username(u)),
        #[cfg(feature = "f_strong_aucpace")]
        ("client.StrongUsername", ClientMessage::StrongUsername { username: u, blinded: B }),
        ("client.PublicKey", ClientMessage::PublicKey(B)),
        ("client.Authenticator", ClientMessage::Authenticator([9; 64])),
        ("client.Registration", ClientMessage::Registration { username: u, salt: salt.clone(), params: ps.clone(), verifier: B }),
        #[cfg(feature = "f_strong_aucpace")]
        ("client.StrongRegistration", ClientMessage::StrongRegistration { username: u, secret_exponent: Scalar::from(5u8), params: ps.clone(), verifier: B }),
    ];
    let ss: Vec<(&str, ServerMessage<16>)> = vec![
        ("server.Nonce", ServerMessage::Nonce([7; 16])),
        ("server.AugmentationInfo", ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: B, salt, pbkdf_params: ps.clone() }),
        #[cfg(feature = "f_strong_aucpace")]
        ("server.StrongAugmentationInfo", ServerMessage::StrongAugmentationInfo { group: "ristretto255", x_pub: B, blinded_salt: B, pbkdf_params: ps }),
        ("server.PublicKey", ServerMessage::PublicKey(B)),
        ("server.Authenticator", ServerMessage::Authenticator([9; 64])),
    ];
    fn one<T: serde::Serialize>(n: &str, m: &T) {
        let mut buf = [0u8; 500];
        match postcard::to_slice(m, &mut buf) {
            Ok(b) => {
                put("wire-index", n, &b[..1]);
                put("wire", &format!("{n}/postcard"), &b[1..]);
            }
            Err(_) => put("wire", &format!("{n}/postcard"), b"error"),
        }
        match bincode::serialize(m) {
            Ok(b) => {
                put("wire-index-bincode", n, &b[..1]);
                put("wire", &format!("{n}/bincode"), &b[4..]);
            }
            Err(_) => put("wire", &format!("{n}/bincode"), b"error"),
        }
    }
    for (n, m) in &cs {
        one(n, m);
    }
    for (n, m) in &ss {
        one(n, m);
    }
    // decoding: the same message numbers, whatever they are, followed by all kinds of bodies
    for (n, m) in &cs {
        let mut b = bincode::serialize(m).unwrap_or_default();
        for i in 4..b.len() {
            for x in [1u8, 0x80] {
                b[i] ^= x;
                let r = guard(|| bincode::deserialize::<ClientMessage<16>>(&b).map(|m| cmsg(&m)).unwrap_or_default());
                put("decode", &format!("{n}/{i}/{x}"), &r.unwrap_or(b"panic".to_vec()));
                b[i] ^= x;
            }
        }
        for i in 0..b.len() {
            let r = guard(|| bincode::deserialize::<ClientMessage<16>>(&b[..i]).map(|m| cmsg(&m)).unwrap_or_default());
            put("decode", &format!("{n}/cut{i}"), &r.unwrap_or(b"panic".to_vec()));
        }
    }
    for (n, m) in &ss {
        let mut b = bincode::serialize(m).unwrap_or_default();
        for i in 4..b.len() {
            for x in [1u8, 0x80] {
                b[i] ^= x;
                let r = guard(|| bincode::deserialize::<ServerMessage<16>>(&b).map(|m| smsg(&m)).unwrap_or_default());
                put("decode", &format!("{n}/{i}/{x}"), &r.unwrap_or(b"panic".to_vec()));
                b[i] ^= x;
            }
        }
    }
}
fn spake() {
    type E = Ed25519Group;
    let texts: Vec<Vec<u8>> = alpha::tricky().into_iter().step_by(4).chain(alpha::specials().into_iter().step_by(12)).chain([31usize, 32, 63, 64, 65, 127, 128, 129, 1000].map(|n| alpha::base(n, 3))).collect();
    for (i, pw) in texts.iter().enumerate() {
        for (j, id) in texts.iter().enumerate() {
            if i > 2 && j > 2 {
                continue;
            }
            let p = Password::new(pw);
            let (x, y) = (Identity::new(id), Identity::new(b"other"));
            let (a, ma) = Spake2::<E>::start_a_with_rng(&p, &x, &y, Tape::new(1));
            let (b, mb) = Spake2::<E>::start_b_with_rng(&p, &x, &y, Tape::new(2));
            let (s, ms) = Spake2::<E>::start_symmetric_with_rng(&p, &x, Tape::new(3));
            let (_, mt) = Spake2::<E>::start_symmetric_with_rng(&p, &x, Tape::new(4));
            put("spake2", &format!("{i}/{j}/messages"), &[&ma[..], &mb, &ms].concat());
            for (n, (st, m)) in [(a, mb.clone()), (b, ma.clone()), (s, mt)].into_iter().enumerate() {
                let r = guard(|| st.finish(&m));
                put("spake2", &format!("{i}/{j}/{n}"), &match r {
                    Ok(Ok(k)) => k,
                    Ok(Err(x)) => format!("{x:?} {x}").into_bytes(),
                    Err(_) => b"panic".to_vec(),
                });
            }
        }
    }
    let p = Password::new(b"password");
    let (x, y) = (Identity::new(b"idA"), Identity::new(b"idB"));
    let (_, mb) = Spake2::<E>::start_b_with_rng(&p, &x, &y, Tape::new(2));
    for f in 0..300usize {
        let (a, _) = Spake2::<E>::start_a_with_rng(&p, &x, &y, Tape::new(1));
        let mut m = mb.clone();
        if f < 264 {
            m[f / 8] ^= 1 << (f % 8);
        } else {
            m.truncate(f - 264);
        }
        put("spake2", &format!("fault/{f}"), &match guard(|| a.finish(&m)) {
            Ok(Ok(k)) => k,
            Ok(Err(x)) => format!("{x:?} {x}").into_bytes(),
            Err(_) => b"panic".to_vec(),
        });
    }
    let (a, _) = Spake2::<E>::start_a_with_rng(&p, &x, &y, Tape::new(1));
    put("spake2", "debug", format!("{a:?}").as_bytes());
    for (i, id) in [&b""[..], b"a\"b\n", b"\xff\xfe", b"\xc3\xa9", b"a\0\x80b", b"\xed\xa0\x80"].into_iter().enumerate() {
        let id = Identity::new(id);
        for (k, s) in [Spake2::<E>::start_a_with_rng(&p, &id, &y, Tape::new(1)).0, Spake2::start_b_with_rng(&p, &x, &id, Tape::new(1)).0, Spake2::start_symmetric_with_rng(&p, &id, Tape::new(1)).0].iter().enumerate() {
            put("spake2", &format!("debug/{i}/{k}"), format!("{s:?} {s:#?} {s:60?} {s:.3?} {s:02x?} {s:+?}").as_bytes());
        }
    }
    for (i, x) in [spake2::Error::BadSide, spake2::Error::CorruptMessage, spake2::Error::WrongLength].into_iter().enumerate() {
        put("spake2", &format!("error/{i}"), format!("{x:?} {x:#?} {x} {x:40}").as_bytes());
    }
    #[cfg(feature = "sp_getrandom")]
    {
        let (a, ma) = Spake2::<E>::start_a(&p, &x, &y);
        let (b, mb) = Spake2::<E>::start_b(&p, &x, &y);
        let (s, ms) = Spake2::<E>::start_symmetric(&p, &x);
        let (t, mt) = Spake2::<E>::start_symmetric(&p, &x);
        put("spake2-os", "agree", &[(a.finish(&mb) == b.finish(&ma)) as u8, (s.finish(&mt) == t.finish(&ms)) as u8]);
    }
    #[cfg(feature = "sp_std")]
    {
        let e: Box<dyn std::error::Error> = Box::new(spake2::Error::BadSide);
        put("spake2-std", "error", e.to_string().as_bytes());
    }
}
fn srp() {
    use num_bigint::BigUint;
    use srp::{client::SrpClient, groups, server::SrpServer, types::SrpGroup, types::SrpAuthError, utils};
    fn er(x: SrpAuthError) -> Vec<u8> {
        format!("error {x:?} {x}").into_bytes()
    }
    fn go<H: digest::Digest>(name: &str, g: &SrpGroup, full: bool) {
        let (c, s) = (SrpClient::<H>::new(g), SrpServer::<H>::new(g));
        let val = |r: Result<Vec<u8>, String>| r.unwrap_or(b"panic".to_vec());
        let put = |k: String, r: Result<Vec<u8>, String>| put("srp", &format!("{name}/{k}"), &val(r));
        put("k".into(), guard(|| utils::compute_k::<H>(g).to_bytes_be()));
        let n = g.n.to_bytes_be();
        let nl = n.len();
        let lens: Vec<usize> = if full { vec![0, 1, 2, 8, 9, 16, 20, 32, 64, 65, 127, 128, 129, 136, 137, 200, 256, 513, 2000] } else { vec![0, 1, 32, 64, nl - 1, nl, nl + 1, nl + 8, nl + 9, 2 * nl, 2 * nl + 1] };
        let texts: Vec<Vec<u8>> = alpha::tricky().into_iter().step_by(7).chain(alpha::specials()).chain([64usize, 255, 256, 300].map(|n| alpha::base(n, 3))).collect();
        for (i, t) in texts.iter().enumerate() {
            put(format!("verifier/{i}"), guard(|| [c.compute_verifier(t, b"p", b"s"), c.compute_verifier(b"u", t, b"s"), c.compute_verifier(b"u", b"p", t)].concat()));
        }
        let v = val(guard(|| c.compute_verifier(b"u", b"p", b"s")));
        let (a, b) = (alpha::base(32, 1), alpha::base(32, 2));
        let big = |b: &BigUint| b.to_bytes_be();
        let mut odd: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0; nl], n.clone(), big(&(&g.n * 2u32)), big(&(&g.n * &g.n)), big(&(&g.n - 1u32)), big(&(&g.n + 1u32)), vec![1], vec![2], vec![0xff; nl], vec![0xff; nl + 1], [vec![0; 5], n.clone()].concat()];
        odd.extend(lens.iter().map(|l| alpha::base(*l, 6)));
        for (i, x) in lens.iter().map(|l| alpha::base(*l, 5)).chain(lens.iter().map(|l| vec![0xff; *l])).chain(lens.iter().map(|l| vec![0; *l])).enumerate() {
            put(format!("secret/{i}"), guard(|| [c.compute_public_ephemeral(&x), s.compute_public_ephemeral(&x, &v), s.compute_public_ephemeral(&b, &x)].concat()));
            put(format!("login/{i}"), guard(|| {
                let (ap, bp) = (c.compute_public_ephemeral(&x), s.compute_public_ephemeral(&x, &v));
                let mut o = vec![];
                for (a, ap) in [(&a, c.compute_public_ephemeral(&a)), (&x, ap)] {
                    for (b, bp) in [(&b, s.compute_public_ephemeral(&b, &v)), (&x, bp.clone())] {
                        let (cv, sv) = (c.process_reply(a, b"u", b"p", b"s", &bp), s.process_reply(b, &v, &ap));
                        match (cv, sv) {
                            (Ok(cv), Ok(sv)) => o.extend([cv.key(), cv.proof(), sv.key(), sv.proof(), format!("{:?} {:?}", sv.verify_client(cv.proof()), cv.verify_server(sv.proof())).as_bytes()].concat()),
                            (x, y) => o.extend([x.err().map(er).unwrap_or_default(), y.err().map(er).unwrap_or_default()].concat()),
                        }
                    }
                }
                o
            }));
        }
        for (i, p) in odd.iter().enumerate() {
            put(format!("public/{i}/client"), guard(|| c.process_reply(&a, b"u", b"p", b"s", p).map_or_else(er, |x| [x.key(), x.proof()].concat())));
            put(format!("public/{i}/server"), guard(|| s.process_reply(&b, &v, p).map_or_else(er, |x| [x.key(), x.proof()].concat())));
            put(format!("public/{i}/verifier"), guard(|| s.process_reply(&b, p, &alpha::base(9, 9)).map_or_else(er, |x| [x.key(), x.proof()].concat())));
            put(format!("public/{i}/u"), guard(|| utils::compute_u::<H>(p, &a).to_bytes_be()));
        }
        put("proofs".into(), guard(|| {
            let (ap, bp) = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
            let (Ok(cv), Ok(sv)) = (c.process_reply(&a, b"u", b"p", b"s", &bp), s.process_reply(&b, &v, &ap)) else { return b"refused".to_vec() };
            let mut o = String::new();
            for l in 0..=2 * cv.proof().len() + 1 {
                let m = [cv.proof(), sv.proof(), b"x"].concat();
                let r = (sv.verify_client(&m[..l.min(m.len())]), cv.verify_server(&m[..l.min(m.len())]));
                o += &format!("{r:?} ");
            }
            o.into_bytes()
        }));
    }
    let toy = |n: u32, g: u32| SrpGroup { n: BigUint::from(n), g: BigUint::from(g) };
    go::<sha1::Sha1>("23", &toy(23, 5), true);
    go::<Sha512>("65537", &toy(65537, 3), true);
    go::<sha2::Sha256>("1024", &groups::G_1024, false);
    go::<sha2::Sha224>("129bit", &SrpGroup { n: (BigUint::from(1u32) << 129) - 25u32, g: BigUint::from(70_000u32) }, true);
    put("srp", "groups", format!("{:?}", [&*groups::G_1024, &groups::G_1536, &groups::G_2048, &groups::G_3072, &groups::G_4096].map(|g| h64(&g.n.to_bytes_be()))).as_bytes());
    for (i, x) in [SrpAuthError::IllegalParameter("a".into()), SrpAuthError::BadRecordMac("b".into())].into_iter().enumerate() {
        put("srp", &format!("error/{i}"), format!("{x:?} {x:#?} {x}").as_bytes());
    }
}
fn main() {
    mccore::install_hook();
    srp();
    spake();
    registrations(false);
    #[cfg(feature = "f_strong_aucpace")]
    registrations(true);
    sessions();
    defaults();
    #[cfg(feature = "f_serde")]
    wire();
    println!("end");
}
