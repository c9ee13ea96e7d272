//! Sessions: each holds both parties of one protocol run and executes one API call per step.
use crate::dig::{Twin20, Twin32, Wide128, T2};
use crate::hasher::{Alt64, Out, Par, Rec};
use crate::party::*;
use crate::refm::B;
use crate::tick::{TickD, TickEd, TwinEd};
use crate::toy::{Mul, Toy};
use aucpace::AuCPaceClient;
use curve25519_dalek::Scalar;
use digest::Digest;
use mccore::guard;
use mccore::rng::{set_current, Tape};
use sha1::Sha1;
use sha2::{Sha256, Sha512};
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
use srp::client::{SrpClient, SrpClientVerifier};
use srp::server::{SrpServer, SrpServerVerifier};
use srp::types::SrpGroup;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Mutex, OnceLock};

/// one call per invocation; None when the session is over
pub type Sess = Box<dyn FnMut() -> Option<Vec<u8>>>;
/// client and server objects that several sessions may share
pub struct Shared {
    c: Mutex<AuCPaceClient<Sha512, Rec, Tape, 16>>,
    s: Mutex<Base<Sha512, 16>>,
}
impl Shared {
    pub fn new() -> Arc<Shared> {
        set_current(Some(Tape::new(777)));
        let r = Shared { c: Mutex::new(AuCPaceClient::new(Tape::redirecting())), s: Mutex::new(Base::new(Tape::redirecting())) };
        set_current(None);
        Arc::new(r)
    }
}
type Mk = Box<dyn Fn(Option<&Arc<Shared>>) -> Sess + Sync + Send>;
pub struct Kind {
    pub name: &'static str,
    pub family: char,
    /// explored with real threads
    pub threads: bool,
    /// cheap enough for long repetition
    pub cheap: bool,
    /// can use shared client and server objects
    pub sharable: bool,
    pub mk: Mk,
}
pub fn steps(k: &Kind, sh: Option<&Arc<Shared>>) -> Vec<Vec<u8>> {
    let mut s = (k.mk)(sh);
    let mut o = vec![];
    while let Some(r) = s() {
        o.push(r);
    }
    o
}
fn shown<T>(r: Result<T, String>, f: impl FnOnce(T) -> Vec<u8>) -> Vec<u8> {
    match r {
        Ok(v) => f(v),
        Err(e) => format!("panic {}", e.rsplit(": ").next().unwrap_or("")).into_bytes(),
    }
}
fn err<E: std::fmt::Debug>(e: E) -> Vec<u8> {
    format!("err {e:?}").into_bytes()
}

// ---------------------------------------------------------------- SPAKE2
#[derive(Clone)]
pub struct Sp {
    pub sym: bool,
    pub pw: [&'static [u8]; 2],
    pub ids: [&'static [u8]; 2],
    pub seeds: [u64; 2],
    /// what happens to the first party's message
    pub fault: u8,
}
pub const SP: Sp = Sp { sym: false, pw: [b"password", b"password"], ids: [b"idA", b"idB"], seeds: [1, 2], fault: 0 };
/// make the element one that does not decode
fn bad<G: Group>(m: &mut [u8]) {
    let l = m.len();
    m[1..].fill(0);
    for b in 2..=255u8 {
        m[1] = b;
        m[l - 1] = b & 0x7f;
        if G::bytes_to_element(&m[1..]).is_none() {
            break;
        }
    }
}
pub fn spake<G: Group + 'static>(p: Sp) -> Sess
where
    G::Scalar: 'static,
{
    let mut n = 0;
    let mut a: Option<(Spake2<G>, Vec<u8>)> = None;
    let mut b: Option<(Spake2<G>, Vec<u8>)> = None;
    let mut ma = vec![];
    let mut mb = vec![];
    let start = move |second: bool| {
        let i = second as usize;
        let pw = Password::new(p.pw[i]);
        let (x, y) = (Identity::new(p.ids[0]), Identity::new(p.ids[1]));
        let t = Tape::new(p.seeds[i]);
        match (p.sym, second) {
            (true, _) => Spake2::<G>::start_symmetric_with_rng(&pw, &x, t),
            (_, false) => Spake2::<G>::start_a_with_rng(&pw, &x, &y, t),
            (_, true) => Spake2::<G>::start_b_with_rng(&pw, &x, &y, t),
        }
    };
    Box::new(move || {
        n += 1;
        let fin = |s: &mut Option<(Spake2<G>, Vec<u8>)>, m: &[u8]| match s.take() {
            Some((s, _)) => shown(guard(|| s.finish(m)), |r| match r {
                Ok(k) => k,
                Err(e) => err(e),
            }),
            None => b"dead".to_vec(),
        };
        Some(match n {
            1 => shown(guard(|| start(false)), |v| {
                ma = v.1.clone();
                a = Some(v);
                ma.clone()
            }),
            2 => shown(guard(|| start(true)), |v| {
                mb = v.1.clone();
                b = Some(v);
                mb.clone()
            }),
            3 => {
                let mut m = ma.clone();
                match p.fault {
                    1 => m[0] = b'A' + b'B' - m[0],
                    2 => {
                        m.pop();
                    }
                    3 => bad::<G>(&mut m),
                    4 => m = mb.clone(),
                    _ => {}
                }
                fin(&mut b, &m)
            }
            4 => {
                let mut m = mb.clone();
                match p.fault {
                    5 => m[0] = b'A' + b'B' - m[0],
                    6 => {
                        m.pop();
                    }
                    7 => bad::<G>(&mut m),
                    8 => m = ma.clone(),
                    _ => {}
                }
                fin(&mut a, &m)
            }
            _ => return None,
        })
    })
}

// ---------------------------------------------------------------- SRP
#[derive(Clone, Copy)]
pub struct Sr {
    pub user: &'static [u8],
    pub pw: [&'static [u8]; 2],
    pub salt: &'static [u8],
    pub a: &'static [u8],
    pub b: &'static [u8],
    pub fault: u8,
    /// one client and one server object per thread, kept for all sessions
    pub keep: bool,
}
thread_local! {
    static KEPT: RefCell<HashMap<(TypeId, usize), &'static dyn Any>> = Default::default();
}
fn kept<D: Digest + 'static>(g: &'static SrpGroup) -> &'static (SrpClient<'static, D>, SrpServer<'static, D>) {
    let k = (TypeId::of::<D>(), g as *const SrpGroup as usize);
    let a = KEPT.with(|m| *m.borrow_mut().entry(k).or_insert_with(|| Box::leak(Box::new((SrpClient::<D>::new(g), SrpServer::<D>::new(g))))));
    match a.downcast_ref() {
        Some(a) => a,
        None => unreachable!(),
    }
}
pub const SR: Sr = Sr { user: b"alice", pw: [b"password123", b"password123"], salt: b"salt", a: b"client secret", b: b"server secret", fault: 0, keep: false };
pub fn srp<D: Digest + 'static>(g: &'static SrpGroup, p: Sr) -> Sess {
    let (mut n, mut v, mut ap, mut bp) = (0, vec![], vec![], vec![]);
    let mut cv: Option<SrpClientVerifier<D>> = None;
    let mut sv: Option<SrpServerVerifier<D>> = None;
    Box::new(move || {
        n += 1;
        let fresh = (SrpClient::<D>::new(g), SrpServer::<D>::new(g));
        let (c, s) = if p.keep { kept::<D>(g) } else { &fresh };
        Some(match n {
            1 => shown(guard(|| c.compute_verifier(p.user, p.pw[1], p.salt)), |x| {
                v = x.clone();
                x
            }),
            2 => shown(guard(|| c.compute_public_ephemeral(p.a)), |x| {
                ap = x.clone();
                x
            }),
            3 => shown(guard(|| s.compute_public_ephemeral(p.b, &v)), |x| {
                bp = x.clone();
                x
            }),
            4 => {
                let m = if p.fault == 1 { g.n.to_bytes_be() } else { bp.clone() };
                shown(guard(|| c.process_reply(p.a, p.user, p.pw[0], p.salt, &m)), |r| match r {
                    Ok(x) => {
                        let o = [x.key(), b"|", x.proof()].concat();
                        cv = Some(x);
                        o
                    }
                    Err(e) => err(e),
                })
            }
            5 => {
                let m = if p.fault == 2 { vec![0] } else { ap.clone() };
                shown(guard(|| s.process_reply(p.b, &v, &m)), |r| match r {
                    Ok(x) => {
                        let o = [x.key(), b"|", x.proof()].concat();
                        sv = Some(x);
                        o
                    }
                    Err(e) => err(e),
                })
            }
            6 => match (&cv, &sv) {
                (Some(c), Some(s)) => {
                    let mut m = c.proof().to_vec();
                    if p.fault == 3 {
                        m[0] ^= 1
                    }
                    shown(guard(|| s.verify_client(&m)), |r| format!("{r:?}").into_bytes())
                }
                _ => b"dead".to_vec(),
            },
            7 => match (&cv, &sv) {
                (Some(c), Some(s)) => {
                    let mut m = s.proof().to_vec();
                    if p.fault == 4 {
                        m.pop();
                    }
                    shown(guard(|| c.verify_server(&m)), |r| format!("{r:?}").into_bytes())
                }
                _ => b"dead".to_vec(),
            },
            _ => return None,
        })
    })
}

// ---------------------------------------------------------------- AuCPace
#[derive(Clone)]
pub struct Au {
    pub v: V,
    pub user: &'static [u8],
    pub reguser: &'static [u8],
    pub pw: [&'static [u8]; 2],
    pub ci: [&'static [u8]; 2],
    pub pre: Option<&'static [u8]>,
    pub alloc: bool,
    pub implicit: bool,
    pub seed: u64,
    pub out: Out,
    /// 1: flip a bit of the client's authenticator, 2: neutral element as the server's key
    pub fault: u8,
    /// an identical row under another name
    pub others: &'static [&'static [u8]],
    pub params: &'static str,
    /// seed of the client and server object (when they are not shared)
    pub home: u64,
}
pub const AU: Au = Au {
    v: V::Plain,
    user: b"alice",
    reguser: b"alice",
    pw: [b"password", b"password"],
    ci: [b"channel", b"channel"],
    pre: None,
    alloc: false,
    implicit: false,
    seed: 50,
    out: Out::Len(32),
    fault: 0,
    others: &[b"bob"],
    params: "m=1",
    home: 777,
};
const LONGA: &[u8] = b"a user name longer than every block of the hash function in use, that is more than 128 bytes in length, and that differs from others at the end: a";
const LONGB: &[u8] = b"a user name longer than every block of the hash function in use, that is more than 128 bytes in length, and that differs from others at the end: b";
const LONGC: &[u8] = b"a user name longer than every block of the hash function in use, that is more than 128 bytes in length, and that differs from others at the end: c";
fn menc(m: &M) -> Vec<u8> {
    let c = |p: &curve25519_dalek::RistrettoPoint| p.compress().to_bytes();
    match m {
        M::Nonce(n) => [b"n", &n[..]].concat(),
        M::User(u, b) => [b"u", &u[..], &b.map(|b| c(&b).to_vec()).unwrap_or_default()].concat(),
        M::Aug { x_pub, salt, blinded, params, group } => [
            b"i",
            &c(x_pub)[..],
            salt.as_ref().map(|s| s.as_str()).unwrap_or("").as_bytes(),
            &blinded.map(|b| c(&b).to_vec()).unwrap_or_default(),
            params.as_str().as_bytes(),
            group.as_bytes(),
        ]
        .concat(),
        M::Pub(p) => [b"p", &c(p)[..]].concat(),
        M::Auth(a) => [b"a", &a[..]].concat(),
    }
}
fn msgs(m: &[M]) -> Vec<u8> {
    m.iter().flat_map(menc).collect()
}
struct AuS {
    cc: CCfg,
    sc: SCfg,
    db: Db,
}
fn au_static<D: Dg>(p: &Au) -> &'static AuS {
    let mut db = Db::default();
    let mut cl = AuCPaceClient::<D, Rec, Tape, 16>::new(Tape::new(p.seed + 5));
    let mut base = Base::<D, 16>::new(Tape::new(p.seed + 6));
    for u in std::iter::once(&p.reguser).chain(p.others) {
        let par = Par { p: crate::hasher::par(p.params), fail: None };
        if let Ok(r) = register(&mut cl, p.v.strong(), false, u, p.pw[1], par, Rec::new(Out::Len(32))) {
            db.put(&r);
        }
        let (x, xp) = base.generate_long_term_keypair();
        db.keys.insert(u.to_vec(), (x, xp));
    }
    let pre = p.pre.map(|x| x.to_vec());
    Box::leak(Box::new(AuS {
        cc: CCfg {
            user: p.user.to_vec(),
            pw: p.pw[0].to_vec(),
            ci: p.ci[0].to_vec(),
            pre: pre.clone(),
            strong: p.v.strong(),
            alloc: p.alloc,
            implicit: p.implicit,
            out: p.out,
        },
        sc: SCfg { v: p.v, ci: p.ci[1].to_vec(), pre, implicit: p.implicit },
        db,
    }))
}
fn aucpace<D: Dg>(p: Au, w: &'static AuS, mut cbase: impl FnMut(&mut dyn FnMut(&mut AuCPaceClient<D, Rec, Tape, 16>)) + 'static, mut sbase: impl FnMut(&mut dyn FnMut(&mut Base<D, 16>)) + 'static) -> Sess {
    let t = Tape::new(p.seed);
    let mut n = 0;
    let mut c = Cli::<D, 16>::new(&w.cc, t.clone());
    let mut s = Srv::<D, 16>::new(&w.sc, &w.db, t.clone());
    // messages on their way: (to the server, message)
    let mut q: VecDeque<(bool, M)> = VecDeque::new();
    Box::new(move || {
        set_current(Some(t.clone()));
        n += 1;
        let mut o = vec![];
        match n {
            1 => cbase(&mut |b| {
                let par = Par { p: crate::hasher::par(p.params), fail: None };
                o = shown(guard(|| register(b, p.v.strong(), p.alloc, b"carol", p.pw[0], par, Rec::new(p.out))), |r| match r {
                    Ok(r) => [
                        &r.user[..],
                        r.salt.as_ref().map(|s| s.as_str()).unwrap_or("").as_bytes(),
                        &r.q.unwrap_or(Scalar::ZERO).to_bytes(),
                        r.params.as_str().as_bytes(),
                        &r.verifier.compress().to_bytes(),
                    ]
                    .concat(),
                    Err(e) => err(e),
                });
            }),
            2 => sbase(&mut |b| {
                o = shown(guard(|| b.generate_long_term_keypair()), |(x, p)| [x.to_bytes(), p.compress().to_bytes()].concat());
            }),
            3 => sbase(&mut |b| {
                o = shown(guard(|| s.start(b)), |r| match r {
                    Ok(m) => {
                        q.extend(m.iter().map(|m| (false, m.clone())));
                        msgs(&m)
                    }
                    Err(e) => err(e),
                });
            }),
            4 => cbase(&mut |b| {
                std::mem::swap(b, &mut c.base);
                o = shown(guard(|| c.start()), |r| match r {
                    Ok(m) => {
                        q.extend(m.iter().map(|m| (true, m.clone())));
                        msgs(&m)
                    }
                    Err(e) => err(e),
                });
                std::mem::swap(b, &mut c.base);
            }),
            _ => {
                let Some((to_server, mut m)) = q.pop_front() else { return None };
                if p.fault == 1 && to_server {
                    if let M::Auth(a) = &mut m {
                        a[17] ^= 4
                    }
                }
                if p.fault == 3 && !to_server {
                    if let M::Auth(a) = &mut m {
                        a[63] ^= 0x80
                    }
                }
                if p.fault == 4 && to_server {
                    if let M::Pub(a) = &mut m {
                        *a = Default::default()
                    }
                }
                if p.fault == 5 {
                    match &mut m {
                        M::User(_, Some(b)) if to_server => *b = Default::default(),
                        M::Aug { x_pub, .. } => *x_pub = Default::default(),
                        _ => {}
                    }
                }
                if p.fault == 6 {
                    if let M::Aug { blinded: Some(b), .. } = &mut m {
                        *b = Default::default()
                    }
                }
                if p.fault == 2 && !to_server {
                    if let M::Pub(a) = &mut m {
                        *a = Default::default()
                    }
                }
                if (if to_server { s.err } else { c.err }).is_some() {
                    return Some(b"dead".to_vec());
                }
                let r = guard(|| if to_server { s.recv(&m) } else { c.recv(&m) });
                let key = if to_server { s.key } else { c.key };
                o = shown(r, |r| match r {
                    Ok(m) => {
                        q.extend(m.iter().map(|m| (!to_server, m.clone())));
                        [msgs(&m), key.map(|k| k.to_vec()).unwrap_or_default()].concat()
                    }
                    Err(e) => err(e),
                });
            }
        }
        set_current(None);
        Some(o)
    })
}
fn au(p: Au) -> Mk {
    let st = OnceLock::new();
    Box::new(move |sh| {
        let w: &'static AuS = st.get_or_init(|| au_static::<Sha512>(&p));
        let sh = sh.cloned().unwrap_or_else(Shared::new);
        let sh2 = sh.clone();
        aucpace::<Sha512>(p.clone(), w, move |f| f(&mut sh.c.lock().unwrap()), move |f| f(&mut sh2.s.lock().unwrap()))
    })
}
pub fn au_own<D: Dg>(p: Au) -> Mk {
    let st = OnceLock::new();
    Box::new(move |_| {
        let w: &'static AuS = st.get_or_init(|| au_static::<D>(&p));
        set_current(Some(Tape::new(p.home)));
        let mut c = AuCPaceClient::<D, Rec, Tape, 16>::new(Tape::redirecting());
        let mut s = Base::<D, 16>::new(Tape::redirecting());
        set_current(None);
        aucpace::<D>(p.clone(), w, move |f| f(&mut c), move |f| f(&mut s))
    })
}

pub fn leak(n: u64, g: u64) -> &'static SrpGroup {
    Box::leak(Box::new(crate::grp::g(n, g)))
}
pub fn leakx(n: &str, g: u64) -> &'static SrpGroup {
    Box::leak(Box::new(SrpGroup { n: B::parse_bytes(n.as_bytes(), 16).unwrap_or_default(), g: B::from(g) }))
}

pub fn kinds() -> Vec<Kind> {
    let mut v: Vec<Kind> = vec![];
    macro_rules! k {
        ($f:literal $n:literal $thr:literal $cheap:literal $sh:literal $mk:expr) => {
            v.push(Kind { name: $n, family: $f, threads: $thr, cheap: $cheap, sharable: $sh, mk: Box::new($mk) })
        };
    }
    type E = Ed25519Group;
    // SPAKE2: a base session and sessions that differ from it in one input
    k!('s' "sp.base" false false false |_| spake::<E>(SP));
    k!('s' "sp.tick" true false false |_| spake::<TickEd>(SP));
    k!('s' "sp.tick-pw" true false false |_| spake::<TickEd>(Sp { pw: [b"passwore"; 2], seeds: [5, 6], ..SP }));
    k!('s' "sp.tick-sym" true false false |_| spake::<TickEd>(Sp { sym: true, ..SP }));
    k!('s' "sp.pw" false false false |_| spake::<E>(Sp { pw: [b"passwore"; 2], ..SP }));
    k!('s' "sp.wrongpw" false false false |_| spake::<E>(Sp { pw: [b"password", b"Password"], ..SP }));
    k!('s' "sp.longpw" false false false |_| spake::<E>(Sp { pw: [b"password and a tail that makes it longer than one block of the hash function in use"; 2], ..SP }));
    k!('s' "sp.long" false false false |_| spake::<E>(Sp { pw: [LONGA; 2], ids: [LONGA, LONGB], ..SP }));
    k!('s' "sp.long-pw" false false false |_| spake::<E>(Sp { pw: [LONGB; 2], ids: [LONGA, LONGB], ..SP }));
    k!('s' "sp.long-ida" false false false |_| spake::<E>(Sp { pw: [LONGA; 2], ids: [LONGC, LONGB], ..SP }));
    k!('s' "sp.long-idb" false false false |_| spake::<E>(Sp { pw: [LONGA; 2], ids: [LONGA, LONGC], ..SP }));
    k!('s' "sp.long-sym" false false false |_| spake::<E>(Sp { sym: true, pw: [LONGA; 2], ids: [LONGA, LONGB], ..SP }));
    k!('s' "sp.long-symid" false false false |_| spake::<E>(Sp { sym: true, pw: [LONGA; 2], ids: [LONGC, LONGB], ..SP }));
    k!('s' "sp.ida" false false false |_| spake::<E>(Sp { ids: [b"idX", b"idB"], ..SP }));
    k!('s' "sp.idb" false false false |_| spake::<E>(Sp { ids: [b"idA", b"idX"], ..SP }));
    k!('s' "sp.seeda" false false false |_| spake::<E>(Sp { seeds: [3, 2], ..SP }));
    k!('s' "sp.seedb" false false false |_| spake::<E>(Sp { seeds: [1, 3], ..SP }));
    k!('s' "sp.sym" false false false |_| spake::<E>(Sp { sym: true, ..SP }));
    k!('s' "sp.sym-reflect" false false false |_| spake::<E>(Sp { sym: true, fault: 4, ..SP }));
    k!('s' "sp.badside" false false false |_| spake::<E>(Sp { fault: 1, ..SP }));
    k!('s' "sp.short" false false false |_| spake::<E>(Sp { fault: 2, ..SP }));
    k!('s' "sp.corrupt" false false false |_| spake::<E>(Sp { fault: 3, ..SP }));
    k!('s' "sp.a-badside" false false false |_| spake::<E>(Sp { fault: 5, ..SP }));
    k!('s' "sp.a-short" false false false |_| spake::<E>(Sp { fault: 6, ..SP }));
    k!('s' "sp.a-corrupt" false false false |_| spake::<E>(Sp { fault: 7, ..SP }));
    k!('s' "sp.a-reflect" false false false |_| spake::<E>(Sp { fault: 8, ..SP }));
    k!('s' "sp.sym-badside" false false false |_| spake::<E>(Sp { sym: true, fault: 5, ..SP }));
    k!('s' "sp.sym-short" false false false |_| spake::<E>(Sp { sym: true, fault: 6, ..SP }));
    k!('s' "sp.sym-corrupt" false false false |_| spake::<E>(Sp { sym: true, fault: 3, ..SP }));
    k!('s' "sp.toy251" true true false |_| spake::<Toy<251, 1, 0, 0>>(SP));
    k!('s' "sp.toy23" false true false |_| spake::<Toy<23, 2, 1, 0>>(Sp { pw: [b"a"; 2], ..SP }));
    k!('s' "sp.mul47" false true false |_| spake::<Mul<47, 5, 1>>(SP));
    // equal names and lengths, other constants
    k!('s' "sp.twin" false false false |_| spake::<TwinEd>(SP));
    k!('s' "sp.twin-sym" false false false |_| spake::<TwinEd>(Sp { sym: true, ..SP }));
    k!('s' "sp.toy241" false true false |_| spake::<Toy<241, 1, 0, 0>>(SP));
    k!('s' "sp.toy251p" false true false |_| spake::<Toy<251, 1, 0, 1>>(SP));
    k!('s' "sp.mul47b" false true false |_| spake::<Mul<47, 11, 1>>(SP));
    // SRP
    let small = leak(2879, crate::grp::root(2879));
    let other = leakx("ffffffffffffffffffffffffffffc3a7", 5);
    k!('r' "srp.base" false true false move |_| srp::<Sha256>(other, SR));
    k!('r' "srp.tick" true true false move |_| srp::<TickD<Sha256>>(other, SR));
    k!('r' "srp.tick-pw" true true false move |_| srp::<TickD<Sha256>>(other, Sr { pw: [b"passwore123"; 2], ..SR }));
    k!('r' "srp.tick-small" true true false move |_| srp::<TickD<Sha256>>(small, SR));
    k!('r' "srp.user" false true false move |_| srp::<Sha256>(other, Sr { user: b"bob", ..SR }));
    k!('r' "srp.pw" false true false move |_| srp::<Sha256>(other, Sr { pw: [b"password124"; 2], ..SR }));
    k!('r' "srp.salt" false true false move |_| srp::<Sha256>(other, Sr { salt: b"tlas", ..SR }));
    k!('r' "srp.a" false true false move |_| srp::<Sha256>(other, Sr { a: b"client secreu", ..SR }));
    k!('r' "srp.b" false true false move |_| srp::<Sha256>(other, Sr { b: b"server secreu", ..SR }));
    k!('r' "srp.wrongpw" false true false move |_| srp::<Sha256>(other, Sr { pw: [b"password123", b"password124"], ..SR }));
    k!('r' "srp.badB" false true false move |_| srp::<Sha256>(other, Sr { fault: 1, ..SR }));
    k!('r' "srp.badA" false true false move |_| srp::<Sha256>(other, Sr { fault: 2, ..SR }));
    k!('r' "srp.badM1" false true false move |_| srp::<Sha256>(other, Sr { fault: 3, ..SR }));
    k!('r' "srp.badM2" false true false move |_| srp::<Sha256>(other, Sr { fault: 4, ..SR }));
    k!('r' "srp.sha1" false true false move |_| srp::<Sha1>(other, SR));
    k!('r' "srp.wide" false true false move |_| srp::<Wide128>(other, SR));
    k!('r' "srp.t2" false true false move |_| srp::<T2>(small, SR));
    k!('r' "srp.small" false true false move |_| srp::<Sha256>(small, SR));
    // equal lengths, other parameters
    let gen = leakx("ffffffffffffffffffffffffffffc3a7", 7);
    let modl = leakx("ffffffffffffffffffffffffffffb0f3", 5);
    let low = leakx("7ffffffffffffffffffffffffffff55f", 5);
    k!('r' "srp.gen" false true false move |_| srp::<Sha256>(gen, SR));
    k!('r' "srp.mod" false true false move |_| srp::<Sha256>(modl, SR));
    k!('r' "srp.low" false true false move |_| srp::<Sha256>(low, SR));
    k!('r' "srp.twin32" false true false move |_| srp::<Twin32>(other, SR));
    k!('r' "srp.twin20" false true false move |_| srp::<Twin20>(other, SR));
    k!('r' "srp.1024g3" false false false { let g: &'static SrpGroup = Box::leak(Box::new(SrpGroup { n: srp::groups::G_1024.n.clone(), g: B::from(3u32) })); move |_| srp::<Sha1>(g, SR) });
    k!('r' "srp.keep" false true false move |_| srp::<Sha256>(other, Sr { keep: true, ..SR }));
    k!('r' "srp.keep-pw" false true false move |_| srp::<Sha256>(other, Sr { keep: true, pw: [b"password124"; 2], ..SR }));
    k!('r' "srp.keep-user" false true false move |_| srp::<Sha256>(other, Sr { keep: true, user: b"bob", salt: b"tlas", ..SR }));
    k!('r' "srp.keep-a" false true false move |_| srp::<Sha256>(other, Sr { keep: true, a: b"client secreu", fault: 3, ..SR }));
    k!('r' "srp.keep-small" false true false move |_| srp::<Sha256>(small, Sr { keep: true, ..SR }));
    // long inputs that differ at the end, or in one byte in the middle
    let longs = Sr { user: LONGA, pw: [LONGB; 2], salt: LONGC, a: &[0x71; 48], b: &[0x72; 48], ..SR };
    let longm: &'static [u8] = { let mut m = LONGC.to_vec(); m[LONGC.len() / 2] ^= 1; Box::leak(m.into_boxed_slice()) };
    k!('r' "srp.long" false true false move |_| srp::<Sha256>(other, longs));
    k!('r' "srp.long-user" false true false move |_| srp::<Sha256>(other, Sr { user: LONGC, ..longs }));
    k!('r' "srp.long-pw" false true false move |_| srp::<Sha256>(other, Sr { pw: [LONGC; 2], ..longs }));
    k!('r' "srp.long-salt" false true false move |_| srp::<Sha256>(other, Sr { salt: LONGA, ..longs }));
    k!('r' "srp.long-saltmid" false true false move |_| srp::<Sha256>(other, Sr { salt: longm, ..longs }));
    k!('r' "srp.long-a" false true false move |_| srp::<Sha256>(other, Sr { a: &[0x73; 48], ..longs }));
    k!('r' "srp.long-b" false true false move |_| srp::<Sha256>(other, Sr { b: &[0x74; 48], ..longs }));
    k!('r' "srp.1024" false false false |_| srp::<Sha1>(&srp::groups::G_1024, SR));
    k!('r' "srp.1536" false false false |_| srp::<Sha1>(&srp::groups::G_1536, SR));
    k!('r' "srp.2048" false false false |_| srp::<Sha1>(&srp::groups::G_2048, SR));
    k!('g' "srp.3072" false false false |_| srp::<Sha1>(&srp::groups::G_3072, SR));
    k!('g' "srp.4096" false false false |_| srp::<Sha1>(&srp::groups::G_4096, SR));
    k!('g' "srp.6144" false false false |_| srp::<Sha1>(&srp::groups::G_6144, SR));
    k!('g' "srp.8192" false false false |_| srp::<Sha1>(&srp::groups::G_8192, SR));
    // AuCPace
    macro_rules! ka {
        ($n:literal $thr:literal $e:expr) => {
            v.push(Kind { name: $n, family: 'a', threads: $thr, cheap: false, sharable: true, mk: au($e) })
        };
    }
    ka!("au.base" false AU);
    ka!("au.user" false Au { user: b"bob", ..AU });
    ka!("au.pw" false Au { pw: [b"passwore"; 2], ..AU });
    ka!("au.wrongpw" false Au { pw: [b"password", b"passwore"], ..AU });
    ka!("au.unknown" false Au { user: b"nobody", ..AU });
    ka!("au.ci" false Au { ci: [b"other"; 2], ..AU });
    ka!("au.wrongci" false Au { ci: [b"channel", b"channem"], ..AU });
    ka!("au.seed" false Au { seed: 90, ..AU });
    ka!("au.pre" false Au { pre: Some(b"a session id that is long enough"), ..AU });
    ka!("au.pre2" false Au { pre: Some(b"a session id that is long enougi"), ..AU });
    ka!("au.preshort" false Au { pre: Some(b"short"), ..AU });
    ka!("au.implicit" false Au { implicit: true, ..AU });
    ka!("au.alloc" false Au { alloc: true, ..AU });
    ka!("au.hashfail" false Au { out: Out::Fail(password_hash::Error::Algorithm), ..AU });
    ka!("au.badauth" false Au { fault: 1, ..AU });
    ka!("au.neutral" false Au { fault: 2, ..AU });
    ka!("au.badauth2" false Au { fault: 3, ..AU });
    ka!("au.neutralyb" false Au { fault: 4, ..AU });
    ka!("au.neutralx" false Au { fault: 5, ..AU });
    ka!("au.alloc-hashfail" false Au { alloc: true, out: Out::Fail(password_hash::Error::Algorithm), ..AU });
    ka!("au.alloc-out0" false Au { alloc: true, out: Out::Len(0), ..AU });
    ka!("au.out0" false Au { out: Out::Len(0), ..AU });
    ka!("au.strong-hashfail" false Au { v: V::Strong, out: Out::Fail(password_hash::Error::Password), ..AU });
    ka!("au.strong-alloc-hashfail" false Au { v: V::Strong, alloc: true, out: Out::Fail(password_hash::Error::Password), ..AU });
    ka!("au.strong-neutralu" false Au { v: V::Strong, fault: 5, ..AU });
    ka!("au.strong-neutralb" false Au { v: V::Strong, fault: 6, ..AU });
    ka!("au.strong-alloc" false Au { v: V::Strong, alloc: true, ..AU });
    ka!("au.partial-badauth" false Au { v: V::Partial, fault: 1, ..AU });
    ka!("au.out16" false Au { out: Out::Len(16), ..AU });
    ka!("au.params" false Au { params: "m=2", ..AU });
    ka!("au.longa" false Au { user: LONGA, reguser: LONGA, others: &[LONGB], ..AU });
    ka!("au.longb" false Au { user: LONGB, reguser: LONGA, others: &[LONGB], ..AU });
    ka!("au.longc" false Au { user: LONGC, reguser: LONGA, others: &[LONGB], ..AU });
    ka!("au.strong-longb" false Au { v: V::Strong, user: LONGB, reguser: LONGA, others: &[LONGB], ..AU });
    ka!("au.strong-longc" false Au { v: V::Strong, user: LONGC, reguser: LONGA, others: &[LONGB], ..AU });
    ka!("au.longpw" false Au { pw: [LONGA; 2], ..AU });
    ka!("au.longpw2" false Au { pw: [LONGB; 2], ..AU });
    ka!("au.longci" false Au { ci: [LONGA; 2], ..AU });
    ka!("au.longci2" false Au { ci: [LONGB; 2], ..AU });
    ka!("au.longpre" false Au { pre: Some(LONGA), ..AU });
    ka!("au.longpre2" false Au { pre: Some(LONGB), ..AU });
    ka!("au.strong-seed" false Au { v: V::Strong, seed: 90, ..AU });
    ka!("au.pstrong-user" false Au { v: V::PStrong, user: b"bob", ..AU });
    ka!("au.partial" false Au { v: V::Partial, ..AU });
    ka!("au.partial-user" false Au { v: V::Partial, user: b"bob", ..AU });
    ka!("au.partial-unknown" false Au { v: V::Partial, user: b"nobody", ..AU });
    ka!("au.strong" false Au { v: V::Strong, ..AU });
    ka!("au.strong-pw" false Au { v: V::Strong, pw: [b"passwore"; 2], ..AU });
    ka!("au.strong-user" false Au { v: V::Strong, user: b"bob", ..AU });
    ka!("au.strong-unknown" false Au { v: V::Strong, user: b"nobody", ..AU });
    ka!("au.pstrong" false Au { v: V::PStrong, ..AU });
    ka!("au.pstrong-unknown" false Au { v: V::PStrong, user: b"nobody", ..AU });
    macro_rules! kt {
        ($n:literal $thr:literal $d:ty, $e:expr) => {
            v.push(Kind { name: $n, family: 'a', threads: $thr, cheap: false, sharable: false, mk: au_own::<$d>($e) })
        };
    }
    kt!("au.alt" false Alt64, AU);
    kt!("au.tick" true TickD<Sha512>, AU);
    kt!("au.tick-pw" true TickD<Sha512>, Au { pw: [b"passwore"; 2], seed: 70, ..AU });
    kt!("au.tick-partial" true TickD<Sha512>, Au { v: V::Partial, ..AU });
    kt!("au.tick-strong" true TickD<Sha512>, Au { v: V::Strong, ..AU });
    kt!("au.tick-pstrong" true TickD<Sha512>, Au { v: V::PStrong, user: b"bob", ..AU });
    kt!("au.tick-unknown" true TickD<Sha512>, Au { user: b"nobody", ..AU });
    kt!("au.tick-badauth" true TickD<Sha512>, Au { fault: 1, ..AU });
    v
}

fn leakb(s: String) -> &'static [u8] {
    Box::leak(s.into_bytes().into_boxed_slice())
}
/// a session of its own for every i
pub fn distinct(what: &str, i: u64) -> Sess {
    let t = leakb(format!("value {i}"));
    match what {
        "srp" => srp::<Sha256>(Box::leak(Box::new(crate::grp::g(2879, 7))), Sr { pw: [t; 2], ..SR }),
        "srp-user" => srp::<Sha256>(Box::leak(Box::new(crate::grp::g(2879, 7))), Sr { user: t, ..SR }),
        "sp" => spake::<Ed25519Group>(Sp { pw: [t; 2], ..SP }),
        "sp-id" => spake::<Ed25519Group>(Sp { ids: [t, b"idB"], ..SP }),
        "toy" => spake::<Toy<251, 1, 0, 0>>(Sp { pw: [t; 2], ..SP }),
        "au" => au_own::<Sha512>(Au { pw: [t; 2], others: &[], ..AU })(None),
        _ => au_own::<Sha512>(Au { v: V::Strong, pw: [t; 2], user: t, reguser: t, others: &[], ..AU })(None),
    }
}
