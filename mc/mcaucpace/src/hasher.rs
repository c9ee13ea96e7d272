//! Recording password hasher whose outcome is chosen by the explorer, and a second 64-byte digest.
use digest::{FixedOutput, HashMarker, Output as Dout, OutputSizeUser, Update};
use password_hash::{Decimal, Error, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Result, Salt};
use sha2::{Digest, Sha256, Sha512};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub password: Vec<u8>,
    pub salt: String,
    pub params: String,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Out {
    Len(usize),
    /// length, flipped bit
    Flip(usize, usize),
    /// length, byte
    Fill(usize, u8),
    Empty,
    Fail(Error),
}
#[derive(Clone)]
pub struct Rec {
    pub out: Out,
    pub log: Arc<Mutex<Vec<Call>>>,
}
impl Rec {
    pub fn new(out: Out) -> Rec {
        Rec { out, log: Default::default() }
    }
    pub fn calls(&self) -> Vec<Call> {
        self.log.lock().unwrap().clone()
    }
}
#[derive(Clone, Debug, Default)]
pub struct Par {
    pub p: ParamsString,
    pub fail: Option<Error>,
}
impl<'a> TryFrom<&'a PasswordHash<'a>> for Par {
    type Error = Error;
    fn try_from(h: &'a PasswordHash<'a>) -> Result<Par> {
        Ok(Par { p: h.params.clone(), fail: None })
    }
}
impl TryFrom<Par> for ParamsString {
    type Error = Error;
    fn try_from(p: Par) -> Result<ParamsString> {
        match p.fail {
            Some(e) => Err(e),
            None => Ok(p.p),
        }
    }
}
pub fn par(s: &str) -> ParamsString {
    match s.parse() {
        Ok(p) => p,
        Err(_) => ParamsString::default(),
    }
}
/// what the hasher computes
pub fn toyhash(password: &[u8], salt: &str, params: &str, n: usize) -> Vec<u8> {
    let mut h = Sha512::new();
    Digest::update(&mut h, (password.len() as u64).to_le_bytes());
    Digest::update(&mut h, password);
    Digest::update(&mut h, [salt.len() as u8]);
    Digest::update(&mut h, salt);
    Digest::update(&mut h, params);
    h.finalize()[..n].to_vec()
}
pub fn outbytes(o: Out, password: &[u8], salt: &str, params: &str) -> Vec<u8> {
    match o {
        Out::Len(n) => toyhash(password, salt, params, n),
        Out::Flip(n, b) => {
            let mut v = toyhash(password, salt, params, n);
            v[b / 8] ^= 1 << (b % 8);
            v
        }
        Out::Fill(n, b) => vec![b; n],
        _ => vec![],
    }
}
impl PasswordHasher for Rec {
    type Params = Par;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        algorithm: Option<Ident<'a>>,
        version: Option<Decimal>,
        params: Par,
        salt: impl Into<Salt<'a>>,
    ) -> Result<PasswordHash<'a>> {
        mccore::sched::point();
        let salt: Salt<'a> = salt.into();
        self.log.lock().unwrap().push(Call {
            password: password.to_vec(),
            salt: salt.as_str().to_string(),
            params: format!(
                "{}{}{}",
                params.p.as_str(),
                algorithm.map(|a| format!("|alg {}", a.as_str())).unwrap_or_default(),
                version.map(|v| format!("|v {v}")).unwrap_or_default()
            ),
        });
        let hash = match self.out {
            Out::Fail(e) => return Err(e),
            Out::Empty => None,
            o => Some(Output::new(&outbytes(o, password, salt.as_str(), params.p.as_str()))?),
        };
        Ok(PasswordHash { algorithm: Ident::new("toy")?, version: None, params: params.p, salt: Some(salt), hash })
    }
}

/// a 64-byte hash unrelated to SHA-512
#[derive(Clone, Default)]
pub struct Alt64(Vec<u8>);
impl HashMarker for Alt64 {}
impl OutputSizeUser for Alt64 {
    type OutputSize = digest::consts::U64;
}
impl Update for Alt64 {
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d)
    }
}
impl FixedOutput for Alt64 {
    fn finalize_into(self, out: &mut Dout<Self>) {
        let mut o = [0u8; 64];
        for i in 0..2u8 {
            let mut h = Sha256::new();
            Digest::update(&mut h, [b'A' + i]);
            Digest::update(&mut h, &self.0);
            o[i as usize * 32..][..32].copy_from_slice(&h.finalize());
        }
        out.copy_from_slice(&o);
    }
}

/// SHA-512 whose outputs are bent to a pattern: what is rare with the real hash happens in every session
#[derive(Clone, Default)]
pub struct Bent<const P: u8>(Sha512);
impl<const P: u8> HashMarker for Bent<P> {}
impl<const P: u8> OutputSizeUser for Bent<P> {
    type OutputSize = digest::consts::U64;
}
impl<const P: u8> Update for Bent<P> {
    fn update(&mut self, d: &[u8]) {
        Update::update(&mut self.0, d)
    }
}
impl<const P: u8> FixedOutput for Bent<P> {
    fn finalize_into(self, out: &mut Dout<Self>) {
        let h = self.0.finalize();
        for i in 0..64 {
            let b = h[i];
            out[i] = match P {
                0 if i < 2 => 0,
                1 if i >= 62 => 0,
                2 if i < 2 => 0xff,
                3 if i >= 62 => 0xff,
                4 if i < 32 => 0,
                5 if i >= 32 => 0,
                6 if i < 54 => 0,
                7 if i >= 10 => 0,
                8 if i < 54 => 0xff,
                9 if i >= 10 => 0xff,
                10 => b & 0x7f,
                11 => b | 0x80,
                12 => b & 1,
                13 if (20..44).contains(&i) => 0,
                14 => 0x30 + b % 10,
                15 => h[i % 8],
                _ => b,
            };
        }
    }
}
