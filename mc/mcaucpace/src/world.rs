//! Several real parties under a Dolev-Yao network, checked step by step against a symbolic model.
//!
//! The parties move in rounds; in every round each party receives one message, chosen from all
//! messages of the right kind produced so far by anyone (including itself), and from alterations
//! the attacker can make.  Choice 0 is the peer's own message.
use crate::hasher::{toyhash, Out, Par, Rec};
use crate::party::*;
use crate::refm as rf;
use aucpace::{AuCPaceClient, Error};
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, RistrettoPoint as P, Scalar};
use mccore::rng::Tape;
use mccore::{ensure, Fail, Stats};

#[derive(Clone, Debug)]
pub struct UserSpec {
    pub user: Vec<u8>,
    pub pw: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub v: V,
    pub out: usize,
    pub params: String,
    pub reg_alloc: bool,
    pub users: Vec<UserSpec>,
    pub clients: Vec<CCfg>,
    pub servers: Vec<SCfg>,
    pub seed: u64,
    /// scripted draws of (registration, clients, servers)
    pub scripts: [Vec<u8>; 3],
    /// attacker offers beyond the honest message
    pub attack: bool,
}

pub struct Known {
    pub spec: UserSpec,
    pub reg: Reg,
    pub salt: String,
    pub w: Scalar,
}
pub struct Setup<D: Dg, const K: usize> {
    pub db: Db,
    pub known: Vec<Known>,
    pub base: Base<D, K>,
}
/// Registers all users through the real client, checking each registration against the model.
pub fn setup<D: Dg, const K: usize>(c: &Cfg, st: &mut Stats) -> Result<Setup<D, K>, Fail> {
    let mut cl = AuCPaceClient::<D, Rec, Tape, K>::new(Tape::scripted(c.scripts[0].clone(), c.seed));
    let mut base = Base::<D, K>::new(Tape::new(c.seed + 1));
    let mut db = Db::default();
    let mut known = vec![];
    for u in &c.users {
        let h = Rec::new(Out::Len(c.out));
        let r = register(&mut cl, c.v.strong(), c.reg_alloc, &u.user, &u.pw, Par { p: crate::hasher::par(&c.params), fail: None }, h.clone())
            .map_err(|e| Fail::from(format!("registration failed: {e:?}")))?;
        st.step();
        let calls = h.calls();
        ensure!(calls.len() == 1, "registration called the hasher {} times", calls.len());
        let salt = match (&r.salt, &r.q) {
            (Some(s), None) => s.as_str().to_string(),
            (None, Some(q)) => rf::b64(&rf::enc(&(rf::z::<D>(&u.user, &u.pw) * q))),
            _ => return Err(Fail::from("registration message of another kind")),
        };
        let want = rf::call(&u.user, &u.pw, &salt, &c.params);
        ensure!(calls[0] == want, "registration hashed {:?} instead of {:?}", calls[0], want);
        ensure!(r.user == u.user && r.params.as_str() == c.params, "registration message names another user or other parameters");
        let w = rf::wtoy(&u.user, &u.pw, &salt, &c.params, c.out);
        ensure!(r.verifier == rf::verifier(&w), "verifier is not B^w");
        db.put(&r);
        if c.v.partial() {
            let (x, xp) = base.generate_long_term_keypair();
            ensure!(B * x == xp, "long-term key pair does not match");
            db.keys.insert(u.user.clone(), (x, xp));
            st.step();
        }
        known.retain(|k: &Known| k.spec.user != u.user);
        known.push(Known { spec: u.clone(), reg: r, salt, w });
    }
    Ok(Setup { db, known, base })
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Gen {
    ssid: Vec<u8>,
    prs: Vec<u8>,
    ci: Vec<u8>,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Kt {
    coeff: [u8; 32],
    owners: Vec<usize>,
    gen: Option<Gen>,
    point: Option<[u8; 32]>,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum Term {
    /// blinded point: factor, blinding party
    Blind([u8; 32], Option<usize>),
    /// reply: index of the blinding party, factor, exponent owner (user name), and for x_pub factor
    Aug { bl: Option<usize>, c: [u8; 32], user: Vec<u8> },
    Y { c: [u8; 32], owner: Option<usize>, gen: Option<Gen>, point: [u8; 32] },
    Auth { tag: u8, ssid: Vec<u8>, k: Kt },
    Junk,
}
#[derive(Clone, Debug)]
struct Item {
    m: M,
    t: Term,
}
#[derive(Default, Clone, Debug)]
pub struct View {
    ssid: Option<Vec<u8>>,
    sent_nonce: Vec<u8>,
    prs: Option<Vec<u8>>,
    gen: Option<Gen>,
    k: Option<Kt>,
    pub accepted: bool,
    pub dead: bool,
    user: Vec<u8>,
}

/// choices along one path; the engine extends prefixes
pub struct Chooser<'a> {
    pub prefix: &'a [usize],
    pub taken: Vec<usize>,
    pub options: Vec<usize>,
}
impl Chooser<'_> {
    fn pick(&mut self, n: usize) -> usize {
        let i = self.taken.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        if c >= n {
            panic!("SHAPE: replay of a prefix diverged: choice {c} of {n}");
        }
        self.taken.push(c);
        self.options.push(n);
        c
    }
}
fn sb(s: &Scalar) -> [u8; 32] {
    s.to_bytes()
}
fn scal(b: &[u8; 32]) -> Scalar {
    Scalar::from_bytes_mod_order(*b)
}
fn two() -> Scalar {
    Scalar::from(2u8)
}

pub struct Outcome {
    pub views: Vec<View>,
    pub keys: Vec<Option<[u8; 64]>>,
    pub errs: Vec<Option<Error>>,
}

/// Runs one path. Clients are parties 0..nc, servers nc..nc+ns; client i talks to server i by default.
pub fn run<D: Dg, const K: usize>(c: &Cfg, ch: &mut Chooser, st: &mut Stats) -> Result<Outcome, Fail> {
    let Setup { db, known, mut base } = setup::<D, K>(c, st)?;
    let (nc, ns) = (c.clients.len(), c.servers.len());
    let n = nc + ns;
    let mut views = vec![View::default(); n];
    let mut cls: Vec<Cli<D, K>> = c
        .clients
        .iter()
        .enumerate()
        .map(|(i, k)| Cli::new(k, Tape::scripted(c.scripts[1].clone(), c.seed + 10 + i as u64)))
        .collect();
    let mut srs: Vec<Srv<D, K>> = c
        .servers
        .iter()
        .enumerate()
        .map(|(i, k)| Srv::new(k, &db, Tape::scripted(c.scripts[2].clone(), c.seed + 30 + i as u64)))
        .collect();
    let one = sb(&Scalar::ONE);
    let peer = |p: usize| if p < nc { nc + p.min(ns - 1) } else { (p - nc).min(nc - 1) };
    let mut nonces: Vec<Option<M>> = vec![None; n];
    let mut users: Vec<Option<Item>> = vec![None; n];
    let mut augs: Vec<Option<Item>> = vec![None; n];
    let mut pubs: Vec<Option<Item>> = vec![None; n];
    let mut auths: Vec<Option<Item>> = vec![None; n];
    let dead = |what: &str, e: &Error| Fail::from(format!("{what} failed with {e:?} where the protocol goes on"));

    // what a client sends once it has its session id
    let user_item = |c: &Cli<D, K>, i: usize, m: &[M], v: V| -> Result<Item, Fail> {
        ensure!(m.len() == 1, "client {i} sent {} messages", m.len());
        match &m[0] {
            M::User(u, b) => {
                ensure!(u == &c.cfg.user, "client sent user name {:?} instead of {:?}", u, c.cfg.user);
                ensure!(b.is_some() == v.strong(), "user name message of another variant");
                Ok(Item { m: m[0].clone(), t: Term::Blind(sb(&Scalar::ONE), Some(i)) })
            }
            _ => Err(Fail::from("client sent no user name")),
        }
    };

    // ---- round 0
    for i in 0..nc {
        let m = cls[i].start().map_err(|e| dead("client start", &e))?;
        st.step();
        if c.clients[i].pre.is_some() {
            views[i].ssid = c.clients[i].pre.clone();
            users[i] = Some(user_item(&cls[i], i, &m, c.v)?);
        } else {
            match &m[..] {
                [M::Nonce(x)] => {
                    views[i].sent_nonce = x.clone();
                    nonces[i] = Some(m[0].clone());
                }
                _ => return Err(Fail::from("client sent no nonce")),
            }
        }
    }
    for j in 0..ns {
        let m = srs[j].start(&mut base).map_err(|e| dead("server start", &e))?;
        st.step();
        if c.servers[j].pre.is_some() {
            views[nc + j].ssid = c.servers[j].pre.clone();
        } else {
            match &m[..] {
                [M::Nonce(x)] => {
                    views[nc + j].sent_nonce = x.clone();
                    nonces[nc + j] = Some(m[0].clone());
                }
                _ => return Err(Fail::from("server sent no nonce")),
            }
        }
    }
    // ---- round 1: nonces
    for p in 0..n {
        if nonces[p].is_none() {
            continue;
        }
        let mut opts: Vec<M> = vec![];
        match &nonces[peer(p)] {
            Some(m) => opts.push(m.clone()),
            None => opts.push(M::Nonce(vec![7; K])),
        }
        if c.attack {
            for q in 0..n {
                if q != peer(p) {
                    opts.extend(nonces[q].clone());
                }
            }
            if let M::Nonce(x) = &opts[0] {
                let mut y = x.clone();
                if let Some(l) = y.last_mut() {
                    *l ^= 1;
                }
                let mut z = x.clone();
                if let Some(l) = z.first_mut() {
                    *l ^= 0x80;
                }
                opts.push(M::Nonce(y));
                opts.push(M::Nonce(z));
            }
            opts.push(M::Nonce(vec![0; K]));
        }
        let m = opts[ch.pick(opts.len())].clone();
        let got = match &m {
            M::Nonce(x) => x.clone(),
            _ => vec![],
        };
        let v = &mut views[p];
        if p < nc {
            v.ssid = Some([&got[..], &v.sent_nonce].concat());
            let o = cls[p].recv(&m).map_err(|e| dead("client nonce", &e))?;
            users[p] = Some(user_item(&cls[p], p, &o, c.v)?);
        } else {
            v.ssid = Some([&v.sent_nonce[..], &got].concat());
            srs[p - nc].recv(&m).map_err(|e| dead("server nonce", &e))?;
        }
        st.step();
    }
    // ---- round 2: servers receive a user name
    for j in 0..ns {
        let p = nc + j;
        let mut opts: Vec<Item> = vec![];
        opts.extend(users[peer(p)].clone());
        if c.attack {
            for q in 0..nc {
                if q != peer(p) {
                    opts.extend(users[q].clone());
                }
            }
            if let M::User(u, b) = opts[0].m.clone() {
                let Term::Blind(_, owner) = opts[0].t.clone() else { return Err(Fail::from("?")) };
                for k in &known {
                    if k.spec.user != u {
                        opts.push(Item { m: M::User(k.spec.user.clone(), b), t: opts[0].t.clone() });
                    }
                }
                opts.push(Item { m: M::User(b"nobody".to_vec(), b), t: opts[0].t.clone() });
                let mut u2 = u.clone();
                u2.push(b' ');
                opts.push(Item { m: M::User(u2, b), t: opts[0].t.clone() });
                if let Some(b) = b {
                    opts.push(Item { m: M::User(u.clone(), Some(b * two())), t: Term::Blind(sb(&two()), owner) });
                    opts.push(Item { m: M::User(u.clone(), Some(-b)), t: Term::Blind(sb(&-Scalar::ONE), owner) });
                    opts.push(Item { m: M::User(u.clone(), Some(B)), t: Term::Blind(one, None) });
                }
            }
        }
        let it = opts[ch.pick(opts.len())].clone();
        let (M::User(u, bl), Term::Blind(bc, bo)) = (&it.m, &it.t) else { return Err(Fail::from("?")) };
        let before = db.log().len();
        let o = srs[j].recv(&it.m).map_err(|e| dead("server user name", &e))?;
        st.step();
        for (_, who) in &db.log()[before..] {
            ensure!(who == u, "database asked for {:?} in the login of {:?}", who, u);
        }
        let [am, pm] = &o[..] else { return Err(Fail::from("server did not send two messages")) };
        let M::Aug { x_pub, salt, blinded, params, group } = am else { return Err(Fail::from("no augmentation info")) };
        ensure!(group == "ristretto255", "group name {group}");
        ensure!(blinded.is_some() == c.v.strong() && salt.is_some() != c.v.strong(), "augmentation info of another variant");
        let row = known.iter().find(|k| &k.spec.user == u);
        let v = &mut views[p];
        v.user = u.clone();
        v.prs = Some(match row {
            Some(k) => {
                ensure!(params.as_str() == k.reg.params.as_str(), "parameters of the record changed to {:?}", params.as_str());
                if let Some(s) = salt {
                    ensure!(s.as_str() == k.salt, "salt of the record changed");
                }
                if let (Some(r), Some(b), Some(q)) = (blinded, bl, k.reg.q) {
                    ensure!(*r == b * q, "blinded salt is not the point raised to the secret exponent");
                }
                if c.v.partial() {
                    ensure!(db.keys.get(u).map(|x| x.1) == Some(*x_pub), "long-term public key not sent");
                }
                rf::enc(&(x_pub * k.w)).to_vec()
            }
            None => format!("fresh secret of server {j}").into_bytes(),
        });
        let gen = Gen { ssid: v.ssid.clone().unwrap_or_default(), prs: v.prs.clone().unwrap_or_default(), ci: c.servers[j].ci.clone() };
        v.gen = Some(gen.clone());
        augs[p] = Some(Item { m: am.clone(), t: Term::Aug { bl: *bo, c: *bc, user: u.clone() } });
        let M::Pub(y) = pm else { return Err(Fail::from("no public key")) };
        pubs[p] = Some(Item { m: pm.clone(), t: Term::Y { c: one, owner: Some(p), gen: Some(gen), point: rf::enc(y) } });
        st.state(&(p, &v.ssid, &v.prs));
    }
    // ---- round 3: clients receive augmentation info
    for i in 0..nc {
        let mut opts: Vec<Item> = vec![];
        opts.extend(augs[peer(i)].clone());
        if c.attack {
            for q in nc..n {
                if q != peer(i) {
                    opts.extend(augs[q].clone());
                }
            }
            let h = opts[0].clone();
            if let M::Aug { x_pub, salt, blinded, params, group } = &h.m {
                let mk = |x: P, s: &Option<_>, b: Option<P>, p: &str| M::Aug { x_pub: x, salt: s.clone(), blinded: b, params: crate::hasher::par(p), group: group.clone() };
                let p = params.as_str();
                for x in [-x_pub, x_pub * two(), B, rf::pt(1)] {
                    opts.push(Item { m: mk(x, salt, *blinded, p), t: h.t.clone() });
                }
                opts.push(Item { m: mk(*x_pub, salt, *blinded, if p == "x=1" { "x=2" } else { "x=1" }), t: h.t.clone() });
                if let Some(s) = salt {
                    for k in &known {
                        if k.salt != s.as_str() {
                            opts.push(Item { m: mk(*x_pub, &k.reg.salt, None, p), t: h.t.clone() });
                        }
                    }
                    opts.push(Item { m: mk(*x_pub, &Some(some_salt()), None, p), t: h.t.clone() });
                }
                if let (Some(b), Term::Aug { bl, c: k, user }) = (blinded, &h.t) {
                    for f in [two(), -Scalar::ONE, two().invert()] {
                        opts.push(Item {
                            m: mk(*x_pub, &None, Some(b * f), p),
                            t: Term::Aug { bl: *bl, c: sb(&(scal(k) * f)), user: user.clone() },
                        });
                    }
                    // the client's own point comes back, an unrelated point
                    if let Some(Item { m: M::User(_, Some(own)), .. }) = &users[i] {
                        opts.push(Item { m: mk(*x_pub, &None, Some(*own), p), t: Term::Junk });
                    }
                    opts.push(Item { m: mk(*x_pub, &None, Some(B), p), t: Term::Junk });
                }
            }
        }
        let it = opts[ch.pick(opts.len())].clone();
        let M::Aug { x_pub, salt, params, .. } = &it.m else { return Err(Fail::from("?")) };
        let cf = &c.clients[i];
        let o = cls[i].recv(&it.m).map_err(|e| dead("client augmentation", &e))?;
        st.step();
        let calls = cls[i].hasher.calls();
        ensure!(calls.len() == 1, "login called the hasher {} times", calls.len());
        if let Some(s) = salt {
            let want = rf::call(&cf.user, &cf.pw, s.as_str(), params.as_str());
            ensure!(calls[0] == want, "login hashed {:?} instead of {:?}", calls[0], want);
        } else {
            let z = rf::z::<D>(&cf.user, &cf.pw);
            match &it.t {
                Term::Aug { bl, c: f, user } if *bl == Some(i) => {
                    if let Some(q) = known.iter().find(|k| &k.spec.user == user).and_then(|k| k.reg.q) {
                        let s = rf::b64(&rf::enc(&(z * q * scal(f))));
                        ensure!(calls[0].salt == s, "recovered salt is not z^q");
                    }
                }
                Term::Aug { .. } => {
                    ensure!(known.iter().all(|k| k.salt != calls[0].salt), "salt recovered from a reply to somebody else's blinded point");
                }
                _ => {}
            }
            let want = rf::call(&cf.user, &cf.pw, &calls[0].salt, params.as_str());
            ensure!(calls[0] == want, "login hashed {:?} instead of {:?}", calls[0], want);
        }
        let w = rf::w(&toyhash(&calls[0].password, &calls[0].salt, params.as_str(), c.out));
        let v = &mut views[i];
        v.user = cf.user.clone();
        v.prs = Some(rf::enc(&(x_pub * w)).to_vec());
        let gen = Gen { ssid: v.ssid.clone().unwrap_or_default(), prs: v.prs.clone().unwrap_or_default(), ci: cf.ci.clone() };
        v.gen = Some(gen.clone());
        let [M::Pub(y)] = &o[..] else { return Err(Fail::from("client sent no public key")) };
        pubs[i] = Some(Item { m: o[0].clone(), t: Term::Y { c: one, owner: Some(i), gen: Some(gen), point: rf::enc(y) } });
        st.state(&(i, &v.ssid, &v.prs));
    }
    // ---- round 4: public keys
    for p in (nc..n).chain(0..nc) {
        let mut opts: Vec<Item> = vec![];
        opts.extend(pubs[peer(p)].clone());
        if c.attack {
            for q in 0..n {
                if q != peer(p) {
                    opts.extend(pubs[q].clone());
                }
            }
            if let (M::Pub(y), Term::Y { owner, gen, point, .. }) = (&opts[0].m, &opts[0].t) {
                let (y, owner, gen, point) = (*y, *owner, gen.clone(), *point);
                for f in [-Scalar::ONE, two()] {
                    opts.push(Item { m: M::Pub(y * f), t: Term::Y { c: sb(&f), owner, gen: gen.clone(), point } });
                }
                opts.push(Item { m: M::Pub(B), t: Term::Y { c: one, owner: None, gen: None, point: rf::enc(&B) } });
            }
        }
        let it = opts[ch.pick(opts.len())].clone();
        let Term::Y { c: f, owner, gen, point } = &it.t else { return Err(Fail::from("?")) };
        let mut owners: Vec<usize> = owner.iter().copied().chain([p]).collect();
        owners.sort();
        let k = Kt { coeff: *f, owners, gen: gen.clone(), point: if owner.is_none() { Some(*point) } else { None } };
        views[p].k = Some(k.clone());
        let ssid = views[p].ssid.clone().unwrap_or_default();
        st.step();
        if p < nc {
            let o = cls[p].recv(&it.m).map_err(|e| dead("client public key", &e))?;
            if !c.clients[p].implicit {
                let [M::Auth(_)] = &o[..] else { return Err(Fail::from("client sent no authenticator")) };
                auths[p] = Some(Item { m: o[0].clone(), t: Term::Auth { tag: 4, ssid, k } });
            }
        } else {
            srs[p - nc].recv(&it.m).map_err(|e| dead("server public key", &e))?;
        }
        st.state(&(p, 4, &views[p].ssid, &views[p].k));
    }
    // ---- rounds 5 and 6: authenticators
    for p in (nc..n).chain(0..nc) {
        let implicit = if p < nc { c.clients[p].implicit } else { c.servers[p - nc].implicit };
        if implicit {
            views[p].accepted = true;
            continue;
        }
        let mut opts: Vec<Item> = vec![];
        match &auths[peer(p)] {
            Some(a) => opts.push(a.clone()),
            // the peer sent nothing (it failed, or authenticates implicitly): the attacker must invent one
            None => opts.push(Item { m: M::Auth([0x5a; 64]), t: Term::Junk }),
        }
        if c.attack {
            for q in 0..n {
                if q != peer(p) {
                    opts.extend(auths[q].clone());
                }
            }
            if let M::Auth(a) = opts[0].m {
                for i in [0usize, 31, 32, 63] {
                    let mut b = a;
                    b[i] ^= if i % 2 == 0 { 0x80 } else { 1 };
                    opts.push(Item { m: M::Auth(b), t: Term::Junk });
                }
                opts.push(Item { m: M::Auth([0; 64]), t: Term::Junk });
            }
        }
        let it = opts[ch.pick(opts.len())].clone();
        let v = &views[p];
        let want = Term::Auth {
            tag: if p < nc { 3 } else { 4 },
            ssid: v.ssid.clone().unwrap_or_default(),
            k: v.k.clone().unwrap_or(Kt { coeff: one, owners: vec![], gen: None, point: None }),
        };
        let should = it.t == want;
        let r = if p < nc { cls[p].recv(&it.m) } else { srs[p - nc].recv(&it.m) };
        st.step();
        match (&r, should) {
            (Ok(_), false) => return Err(Fail::from(format!("party {p} accepted an authenticator that does not belong to its session"))),
            (Err(e), true) => return Err(Fail::from(format!("party {p} refused ({e:?}) the authenticator of its own session"))),
            (Err(Error::MutualAuthFail), false) => {
                let key = if p < nc { cls[p].key } else { srs[p - nc].key };
                ensure!(key.is_none(), "key released after a failed authentication");
                views[p].dead = true;
            }
            (Err(e), false) => return Err(Fail::from(format!("party {p} refused with {e:?} instead of MutualAuthFail"))),
            (Ok(o), true) => {
                views[p].accepted = true;
                if p >= nc {
                    let [M::Auth(_)] = &o[..] else { return Err(Fail::from("server sent no authenticator")) };
                    auths[p] = Some(Item {
                        m: o[0].clone(),
                        t: Term::Auth { tag: 3, ssid: views[p].ssid.clone().unwrap_or_default(), k: views[p].k.clone().ok_or("?")? },
                    });
                }
            }
        }
        st.state(&(p, 5, &views[p].ssid, &views[p].k, should));
    }
    // ---- keys and authenticators coincide exactly where their terms do
    let keys: Vec<Option<[u8; 64]>> = (0..n).map(|p| if p < nc { cls[p].key } else { srs[p - nc].key }).collect();
    let errs: Vec<Option<Error>> = (0..n).map(|p| if p < nc { cls[p].err } else { srs[p - nc].err }).collect();
    for a in 0..n {
        ensure!(keys[a].is_some() == views[a].accepted, "party {a}: key {} although accepted={}", keys[a].is_some(), views[a].accepted);
        for b in a + 1..n {
            if let (Some(x), Some(y)) = (&keys[a], &keys[b]) {
                let same = views[a].ssid == views[b].ssid && views[a].k == views[b].k;
                ensure!((x == y) == same, "parties {a} and {b}: keys equal is {}, but they share a session is {same}", x == y);
            }
            if let (Some(x), Some(y)) = (&auths[a], &auths[b]) {
                if let (M::Auth(m), M::Auth(k)) = (&x.m, &y.m) {
                    ensure!((m == k) == (x.t == y.t), "parties {a} and {b} sent equal authenticators although their sessions differ");
                }
            }
        }
    }
    st.trace();
    Ok(Outcome { views, keys, errs })
}

/// all paths whose number of non-default choices after `prefix` is at most `dev`
pub fn explore<D: Dg, const K: usize>(c: &Cfg, prefix: Vec<usize>, dev: usize, st: &mut Stats) -> Result<(), Fail> {
    let mut stack = vec![(prefix, dev)];
    while let Some((pre, left)) = stack.pop() {
        let mut ch = Chooser { prefix: &pre, taken: vec![], options: vec![] };
        let r = run::<D, K>(c, &mut ch, st);
        let o = match r {
            Ok(o) => o,
            Err(e) => return Err(Fail { key: e.key, msg: format!("{} [choices {:?}]", e.msg, ch.taken) }),
        };
        let acc = o.views.iter().filter(|v| v.accepted).count();
        st.outcome(&format!("{acc} of {} accept", o.views.len()));
        if left == 0 {
            continue;
        }
        for i in pre.len()..ch.options.len() {
            for alt in 1..ch.options[i] {
                let mut p = ch.taken[..i].to_vec();
                p.push(alt);
                stack.push((p, left - 1));
            }
        }
    }
    Ok(())
}
