//! Helpers of the demonstrations: a deterministic random generator, a database and whole logins.
#![allow(dead_code)]
use aucpace::{client::*, server::*, AuCPaceClient, AuCPaceServer, ClientMessage, Database, Error, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::{RistrettoPoint, Scalar};
use password_hash::{ParamsString, SaltString};
use rand_core::{CryptoRng, RngCore};
use scrypt::Scrypt;
use sha2::Sha512;

#[derive(Clone)]
pub struct Rng(pub u64);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl CryptoRng for Rng {}

/// plays back given bytes, then zeros
pub struct Script(pub Vec<u8>, pub usize);
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.0.get(self.1).copied().unwrap_or(0);
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl CryptoRng for Script {}

pub type C = AuCPaceClient<Sha512, Scrypt, Rng, 16>;
pub type S = AuCPaceServer<Sha512, Rng, 16>;
pub fn params() -> scrypt::Params {
    scrypt::Params::new(1, 1, 1, 32).unwrap()
}
pub fn params64() -> scrypt::Params {
    scrypt::Params::new(1, 1, 1, 64).unwrap()
}

#[derive(Default)]
pub struct Db {
    pub plain: Vec<(Vec<u8>, RistrettoPoint, SaltString, ParamsString)>,
    pub strong: Vec<(Vec<u8>, RistrettoPoint, Scalar, ParamsString)>,
    pub keys: Vec<(Vec<u8>, Scalar, RistrettoPoint)>,
}
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        self.plain.iter().rev().find(|r| r.0 == u).map(|r| (r.1, r.2.clone(), r.3.clone()))
    }
    fn store_verifier(&mut self, u: &[u8], salt: SaltString, _: Option<&[u8]>, v: RistrettoPoint, p: ParamsString) {
        self.plain.push((u.to_vec(), v, salt, p))
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        self.strong.iter().rev().find(|r| r.0 == u).map(|r| (r.1, r.2, r.3.clone()))
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, v: RistrettoPoint, q: Scalar, p: ParamsString) {
        self.strong.push((u.to_vec(), v, q, p))
    }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        self.keys.iter().find(|r| r.0 == u).map(|r| (r.1, r.2))
    }
    fn store_long_term_keypair(&mut self, u: &[u8], x: Scalar, p: RistrettoPoint) -> Result<(), Error> {
        self.keys.push((u.to_vec(), x, p));
        Ok(())
    }
}
pub fn record(db: &mut Db, m: ClientMessage<'_, 16>) {
    match m {
        ClientMessage::Registration { username, salt, params, verifier } => db.store_verifier(username, salt, None, verifier, params),
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => db.store_verifier_strong(username, None, verifier, secret_exponent, params),
        _ => panic!("not a registration"),
    }
}
/// what happens in a login
pub struct Login<'a> {
    pub strong: bool,
    pub partial: bool,
    pub alloc: bool,
    pub user: &'a [u8],
    pub server_user: &'a [u8],
    pub pw: &'a [u8],
    pub ci: (&'a [u8], &'a [u8]),
    pub params: scrypt::Params,
}
impl<'a> Login<'a> {
    pub fn new(user: &'a [u8], pw: &'a [u8]) -> Self {
        Login { strong: false, partial: false, alloc: false, user, server_user: user, pw, ci: (b"ci", b"ci"), params: params() }
    }
}
pub struct Outcome {
    pub client: Result<Vec<u8>, Error>,
    pub server: Result<Vec<u8>, Error>,
    pub client_auth: Vec<u8>,
    pub server_auth: Vec<u8>,
}
/// an explicit-authentication login; `f` may change the authenticators on the way
pub fn login(l: &Login, db: &Db, seed: u64, f: impl Fn(&mut [u8; 64], &mut [u8; 64])) -> Outcome {
    let (mut c, mut s) = (C::new(Rng(seed)), S::new(Rng(seed + 1000)));
    let mut rng = Rng(seed + 2000);
    let srng = Rng(seed + 3000);
    let (cs, m) = c.begin();
    let ClientMessage::Nonce(cn) = m else { panic!() };
    let (ss, m) = s.begin();
    let ServerMessage::Nonce(sn) = m else { panic!() };
    let (cp, sp) = (cs.agree_ssid(sn), ss.agree_ssid(cn));
    let (cc, sc);
    if l.strong {
        let (ca, m) = cp.start_augmentation_strong(l.user, l.pw, &mut rng);
        let ClientMessage::StrongUsername { blinded, .. } = m else { panic!() };
        let (x, m) = if l.partial { sp.generate_client_info_partial_strong(l.server_user, blinded, db, srng) } else { sp.generate_client_info_strong(l.server_user, blinded, db, srng) }.expect("server");
        let ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } = m else { panic!() };
        cc = if l.alloc { ca.generate_cpace_alloc(x_pub, blinded_salt, l.params, Scrypt) } else { ca.generate_cpace::<2000>(x_pub, blinded_salt, l.params, Scrypt) }.expect("client");
        sc = x;
    } else {
        let (ca, _) = cp.start_augmentation(l.user, l.pw);
        let (x, m) = if l.partial { sp.generate_client_info_partial_aug(l.server_user, db, srng) } else { sp.generate_client_info(l.server_user, db, srng) };
        let ServerMessage::AugmentationInfo { x_pub, salt, .. } = m else { panic!() };
        cc = if l.alloc { ca.generate_cpace_alloc(x_pub, &salt, l.params, Scrypt) } else { ca.generate_cpace::<&SaltString, 2000>(x_pub, &salt, l.params, Scrypt) }.expect("client");
        sc = x;
    }
    let (ck, m) = cc.generate_public_key(l.ci.0, &mut rng);
    let ClientMessage::PublicKey(cpk) = m else { panic!() };
    let (sk, m) = sc.generate_public_key(l.ci.1);
    let ServerMessage::PublicKey(spk) = m else { panic!() };
    let (cx, m) = ck.receive_server_pubkey(spk).expect("client key");
    let sx = sk.receive_client_pubkey(cpk).expect("server key");
    let ClientMessage::Authenticator(mut ca) = m else { panic!() };
    let mut sa = [0u8; 64];
    let client_auth = ca.to_vec();
    f(&mut ca, &mut sa);
    match sx.receive_client_authenticator(ca) {
        Ok((k, m)) => {
            let ServerMessage::Authenticator(mut a) = m else { panic!() };
            let server_auth = a.to_vec();
            f(&mut ca, &mut a);
            Outcome { client: cx.receive_server_authenticator(a).map(|k| k.to_vec()), server: Ok(k.to_vec()), client_auth, server_auth }
        }
        Err(e) => Outcome { client: cx.receive_server_authenticator(sa).map(|k| k.to_vec()), server: Err(e), client_auth, server_auth: vec![] },
    }
}
