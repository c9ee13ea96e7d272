//! The real client and server behind a message interface, so that the explorer owns the network.
use crate::hasher::{Out, Par, Rec};
use aucpace::client::*;
use aucpace::server::*;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, Error, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::{RistrettoPoint as P, Scalar};
use digest::{consts::U64, Digest};
use mccore::rng::Tape;
use password_hash::{ParamsString, SaltString};
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const BUF: usize = 2200;

pub trait Dg: Digest<OutputSize = U64> + Default + Clone + Send + Sync + 'static {}
impl<T: Digest<OutputSize = U64> + Default + Clone + Send + Sync + 'static> Dg for T {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Plain,
    Partial,
    Strong,
    PStrong,
}
pub const VS: [V; 4] = [V::Plain, V::Partial, V::Strong, V::PStrong];
impl V {
    pub fn strong(self) -> bool {
        matches!(self, V::Strong | V::PStrong)
    }
    pub fn partial(self) -> bool {
        matches!(self, V::Partial | V::PStrong)
    }
}

#[derive(Clone, Debug)]
pub enum M {
    Nonce(Vec<u8>),
    User(Vec<u8>, Option<P>),
    Aug { x_pub: P, salt: Option<SaltString>, blinded: Option<P>, params: ParamsString, group: String },
    Pub(P),
    Auth([u8; 64]),
}
#[derive(Clone, Debug)]
pub struct Reg {
    pub user: Vec<u8>,
    pub salt: Option<SaltString>,
    pub q: Option<Scalar>,
    pub params: ParamsString,
    pub verifier: P,
}

pub fn cm<const K: usize>(m: ClientMessage<'_, K>) -> M {
    match m {
        ClientMessage::Nonce(n) => M::Nonce(n.to_vec()),
        ClientMessage::Username(u) => M::User(u.to_vec(), None),
        ClientMessage::StrongUsername { username, blinded } => M::User(username.to_vec(), Some(blinded)),
        ClientMessage::PublicKey(p) => M::Pub(p),
        ClientMessage::Authenticator(a) => M::Auth(a),
        _ => M::Nonce(vec![]),
    }
}
pub fn sm<const K: usize>(m: ServerMessage<'_, K>) -> M {
    match m {
        ServerMessage::Nonce(n) => M::Nonce(n.to_vec()),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => {
            M::Aug { x_pub, salt: Some(salt), blinded: None, params: pbkdf_params, group: group.to_string() }
        }
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => {
            M::Aug { x_pub, salt: None, blinded: Some(blinded_salt), params: pbkdf_params, group: group.to_string() }
        }
        ServerMessage::PublicKey(p) => M::Pub(p),
        ServerMessage::Authenticator(a) => M::Auth(a),
    }
}
pub fn reg<const K: usize>(m: ClientMessage<'_, K>) -> Option<Reg> {
    match m {
        ClientMessage::Registration { username, salt, params, verifier } => {
            Some(Reg { user: username.to_vec(), salt: Some(salt), q: None, params, verifier })
        }
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            Some(Reg { user: username.to_vec(), salt: None, q: Some(secret_exponent), params, verifier })
        }
        _ => None,
    }
}

/// registration through the real client
pub fn register<D: Dg, const K: usize>(
    c: &mut AuCPaceClient<D, Rec, Tape, K>,
    strong: bool,
    alloc: bool,
    user: &[u8],
    pw: &[u8],
    params: Par,
    h: Rec,
) -> Result<Reg, Error> {
    let m = match (strong, alloc) {
        (false, false) => c.register::<_, BUF>(user, pw, params, h),
        (false, true) => c.register_alloc(user, pw, params, h),
        (true, false) => c.register_strong::<_, BUF>(user, pw, params, h),
        (true, true) => c.register_alloc_strong(user, pw, params, h),
    }?;
    match reg(m) {
        Some(r) if r.q.is_some() == strong => Ok(r),
        _ => panic!("SHAPE: registration returned another kind of message"),
    }
}

#[derive(Clone, Debug)]
pub struct Row {
    pub verifier: P,
    pub salt: SaltString,
    pub q: Scalar,
    pub params: ParamsString,
}
/// database of the harness: every access is logged
#[derive(Default)]
pub struct Db {
    pub rows: BTreeMap<Vec<u8>, Row>,
    pub keys: BTreeMap<Vec<u8>, (Scalar, P)>,
    pub log: Mutex<Vec<(u8, Vec<u8>)>>,
    /// from lookup number n on (counted from 0) the contents are these
    pub later: Option<(usize, Box<Db>)>,
}
pub fn some_salt() -> SaltString {
    match SaltString::from_b64("c2FsdHNhbHQ") {
        Ok(s) => s,
        Err(_) => panic!(),
    }
}
impl Db {
    pub fn put(&mut self, r: &Reg) {
        self.rows.insert(
            r.user.clone(),
            Row {
                verifier: r.verifier,
                salt: r.salt.clone().unwrap_or_else(some_salt),
                q: r.q.unwrap_or(Scalar::ZERO),
                params: r.params.clone(),
            },
        );
    }
    fn note(&self, e: (u8, Vec<u8>)) {
        mccore::sched::point();
        let mut l = self.log.lock().unwrap();
        if l.len() < 1000 {
            l.push(e)
        }
    }
    /// the contents that the lookup just noted sees
    fn now(&self) -> &Db {
        match &self.later {
            Some((n, l)) if self.log.lock().unwrap().len() > *n => l,
            _ => self,
        }
    }
    pub fn log(&self) -> Vec<(u8, Vec<u8>)> {
        self.log.lock().unwrap().clone()
    }
}
impl Database for Db {
    type PasswordVerifier = P;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(P, SaltString, ParamsString)> {
        self.note((b'v', u.to_vec()));
        self.now().rows.get(u).map(|r| (r.verifier, r.salt.clone(), r.params.clone()))
    }
    fn store_verifier(&mut self, u: &[u8], _: SaltString, _: Option<&[u8]>, _: P, _: ParamsString) {
        self.note((b'!', u.to_vec()));
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = P;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(P, Scalar, ParamsString)> {
        self.note((b'v', u.to_vec()));
        self.now().rows.get(u).map(|r| (r.verifier, r.q, r.params.clone()))
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, _: P, _: Scalar, _: ParamsString) {
        self.note((b'!', u.to_vec()));
    }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = P;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, P)> {
        self.note((b'k', u.to_vec()));
        self.now().keys.get(u).copied()
    }
    fn store_long_term_keypair(&mut self, u: &[u8], _: Scalar, _: P) -> Result<(), Error> {
        self.note((b'!', u.to_vec()));
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct CCfg {
    pub user: Vec<u8>,
    pub pw: Vec<u8>,
    pub ci: Vec<u8>,
    /// pre-established session id
    pub pre: Option<Vec<u8>>,
    pub strong: bool,
    pub alloc: bool,
    pub implicit: bool,
    pub out: Out,
}
pub enum CSt<'a, D: Dg, const K: usize> {
    New,
    Ssid(AuCPaceClientSsidEstablish<D, Rec, K>),
    Aug(AuCPaceClientAugLayer<'a, D, Rec, K>),
    SAug(StrongAuCPaceClientAugLayer<'a, D, Rec, K>),
    Key(AuCPaceClientRecvServerKey<D, K>),
    Exp(AuCPaceClientExpMutAuth<D, K>),
    Done,
}
pub struct Cli<'a, D: Dg, const K: usize> {
    pub cfg: &'a CCfg,
    pub rng: Tape,
    pub base: AuCPaceClient<D, Rec, Tape, K>,
    pub st: CSt<'a, D, K>,
    pub hasher: Rec,
    pub key: Option<[u8; 64]>,
    pub err: Option<Error>,
}
fn out64<D: Dg>(o: digest::Output<D>) -> [u8; 64] {
    let mut b = [0u8; 64];
    b.copy_from_slice(&o);
    b
}
impl<'a, D: Dg, const K: usize> Cli<'a, D, K> {
    pub fn new(cfg: &'a CCfg, rng: Tape) -> Self {
        Cli { base: AuCPaceClient::new(rng.clone()), rng, st: CSt::New, hasher: Rec::new(cfg.out), key: None, err: None, cfg }
    }
    fn username(&mut self, p: AuCPaceClientPreAug<D, Rec, K>) -> Vec<M> {
        if self.cfg.strong {
            let (n, m) = p.start_augmentation_strong(&self.cfg.user, &self.cfg.pw, &mut self.rng);
            self.st = CSt::SAug(n);
            vec![cm(m)]
        } else {
            let (n, m) = p.start_augmentation(&self.cfg.user, &self.cfg.pw);
            self.st = CSt::Aug(n);
            vec![cm(m)]
        }
    }
    pub fn start(&mut self) -> Result<Vec<M>, Error> {
        let r = self.start_();
        if let Err(e) = &r {
            self.err = Some(*e)
        }
        r
    }
    fn start_(&mut self) -> Result<Vec<M>, Error> {
        match &self.cfg.pre {
            Some(s) => {
                let p = self.base.begin_prestablished_ssid(s)?;
                Ok(self.username(p))
            }
            None => {
                let (n, m) = self.base.begin();
                let m = cm(m);
                self.st = CSt::Ssid(n);
                Ok(vec![m])
            }
        }
    }
    pub fn recv(&mut self, m: &M) -> Result<Vec<M>, Error> {
        let r = self.recv_(m);
        if let Err(e) = &r {
            self.err = Some(*e);
            self.st = CSt::Done;
        }
        r
    }
    fn recv_(&mut self, m: &M) -> Result<Vec<M>, Error> {
        match (std::mem::replace(&mut self.st, CSt::Done), m) {
            (CSt::Ssid(s), M::Nonce(n)) => {
                if n.len() != K {
                    panic!("SHAPE: nonce of another length");
                }
                let mut a = [0u8; K];
                a.copy_from_slice(n);
                let p = s.agree_ssid(a);
                Ok(self.username(p))
            }
            (CSt::Aug(s), M::Aug { x_pub, salt, params, .. }) => {
                let p = Par { p: params.clone(), fail: None };
                let salt = salt.clone().unwrap_or_else(some_salt);
                let h = self.hasher.clone();
                let c = if self.cfg.alloc {
                    s.generate_cpace_alloc(*x_pub, &salt, p, h)?
                } else {
                    s.generate_cpace::<&SaltString, BUF>(*x_pub, &salt, p, h)?
                };
                Ok(self.cpace(c))
            }
            (CSt::SAug(s), M::Aug { x_pub, blinded, params, .. }) => {
                let p = Par { p: params.clone(), fail: None };
                let b = blinded.unwrap_or(*x_pub);
                let h = self.hasher.clone();
                let c = if self.cfg.alloc {
                    s.generate_cpace_alloc(*x_pub, b, p, h)?
                } else {
                    s.generate_cpace::<BUF>(*x_pub, b, p, h)?
                };
                Ok(self.cpace(c))
            }
            (CSt::Key(s), M::Pub(p)) => {
                if self.cfg.implicit {
                    self.key = Some(out64::<D>(s.implicit_auth(*p)?));
                    Ok(vec![])
                } else {
                    let (n, m) = s.receive_server_pubkey(*p)?;
                    self.st = CSt::Exp(n);
                    Ok(vec![cm(m)])
                }
            }
            (CSt::Exp(s), M::Auth(a)) => {
                self.key = Some(out64::<D>(s.receive_server_authenticator(*a)?));
                Ok(vec![])
            }
            _ => panic!("SHAPE: a message of another kind than the protocol prescribes"),
        }
    }
    fn cpace(&mut self, c: AuCPaceClientCPaceSubstep<D, K>) -> Vec<M> {
        let (n, m) = c.generate_public_key(&self.cfg.ci, &mut self.rng);
        self.st = CSt::Key(n);
        vec![cm(m)]
    }
}

#[derive(Clone, Debug)]
pub struct SCfg {
    pub v: V,
    pub ci: Vec<u8>,
    pub pre: Option<Vec<u8>>,
    pub implicit: bool,
}
pub enum SSt<D: Dg, const K: usize> {
    New,
    Ssid(AuCPaceServerSsidEstablish<D, K>),
    Aug(AuCPaceServerAugLayer<D, K>),
    Key(AuCPaceServerRecvClientKey<D, K>),
    Exp(AuCPaceServerExpMutAuth<D, K>),
    Done,
}
pub struct Srv<'a, D: Dg, const K: usize> {
    pub cfg: &'a SCfg,
    pub db: &'a Db,
    pub rng: Tape,
    pub st: SSt<D, K>,
    pub key: Option<[u8; 64]>,
    pub err: Option<Error>,
}
pub type Base<D, const K: usize> = AuCPaceServer<D, Tape, K>;
impl<'a, D: Dg, const K: usize> Srv<'a, D, K> {
    pub fn new(cfg: &'a SCfg, db: &'a Db, rng: Tape) -> Self {
        Srv { cfg, db, rng, st: SSt::New, key: None, err: None }
    }
    pub fn start(&mut self, base: &mut Base<D, K>) -> Result<Vec<M>, Error> {
        let r = match &self.cfg.pre {
            Some(s) => base.begin_prestablished_ssid(s).map(|a| {
                self.st = SSt::Aug(a);
                vec![]
            }),
            None => {
                let (n, m) = base.begin();
                self.st = SSt::Ssid(n);
                Ok(vec![sm(m)])
            }
        };
        if let Err(e) = &r {
            self.err = Some(*e)
        }
        r
    }
    pub fn recv(&mut self, m: &M) -> Result<Vec<M>, Error> {
        let r = self.recv_(m);
        if let Err(e) = &r {
            self.err = Some(*e);
            self.st = SSt::Done;
        }
        r
    }
    fn recv_(&mut self, m: &M) -> Result<Vec<M>, Error> {
        match (std::mem::replace(&mut self.st, SSt::Done), m) {
            (SSt::Ssid(s), M::Nonce(n)) => {
                if n.len() != K {
                    panic!("SHAPE: nonce of another length");
                }
                let mut a = [0u8; K];
                a.copy_from_slice(n);
                self.st = SSt::Aug(s.agree_ssid(a));
                Ok(vec![])
            }
            (SSt::Aug(s), M::User(u, bl)) => {
                let r = self.rng.clone();
                let b = bl.unwrap_or_default();
                let (c, m) = match self.cfg.v {
                    V::Plain => s.generate_client_info(u, self.db, r),
                    V::Partial => s.generate_client_info_partial_aug(u, self.db, r),
                    V::Strong => s.generate_client_info_strong(u, b, self.db, r)?,
                    V::PStrong => s.generate_client_info_partial_strong(u, b, self.db, r)?,
                };
                let m = sm(m);
                let (n, pk) = c.generate_public_key(&self.cfg.ci);
                self.st = SSt::Key(n);
                Ok(vec![m, sm(pk)])
            }
            (SSt::Key(s), M::Pub(p)) => {
                if self.cfg.implicit {
                    self.key = Some(out64::<D>(s.implicit_auth(*p)?));
                    Ok(vec![])
                } else {
                    self.st = SSt::Exp(s.receive_client_pubkey(*p)?);
                    Ok(vec![])
                }
            }
            (SSt::Exp(s), M::Auth(a)) => {
                let (k, m) = s.receive_client_authenticator(*a)?;
                self.key = Some(out64::<D>(k));
                Ok(vec![sm(m)])
            }
            _ => panic!("SHAPE: a message of another kind than the protocol prescribes"),
        }
    }
}
