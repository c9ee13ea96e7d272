//! Independent reference for SPAKE2 over edwards25519: constants from their seeds, HKDF by hand, point
//! decompression over big integers, transcript hash.
use curve25519_dalek::{
    constants::ED25519_BASEPOINT_POINT,
    edwards::{CompressedEdwardsY, EdwardsPoint},
    scalar::Scalar,
};
use num_bigint::BigUint;
use sha2::{Digest, Sha256};
use std::sync::OnceLock;

pub fn sha(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
fn hmac(key: &[u8], msg: &[&[u8]]) -> Vec<u8> {
    let mut k = if key.len() > 64 { sha(&[key]) } else { key.to_vec() };
    k.resize(64, 0);
    let i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut p: Vec<&[u8]> = vec![&i];
    p.extend_from_slice(msg);
    let inner = sha(&p);
    sha(&[&o, &inner])
}
pub fn hkdf(ikm: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let prk = hmac(&[0; 32], &[ikm]);
    let mut out: Vec<u8> = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < len {
        t = hmac(&prk, &[&t, info, &[i]]);
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}
pub fn p25519() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| (BigUint::from(1u8) << 255u32) - BigUint::from(19u8))
}
pub fn order() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| {
        (BigUint::from(1u8) << 252u32)
            + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).expect("L")
    })
}
fn d() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| {
        let p = p25519();
        let inv = BigUint::from(121666u32).modpow(&(p - 2u8), p);
        (p - BigUint::from(121665u32)) * inv % p
    })
}
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Dec {
    Point,
    NotPoint,
    /// non-canonical encoding of a point: either answer is compatible with the property
    Open,
}
/// classification of a 32-byte string as encoding of a curve point
pub fn classify(b: &[u8; 32]) -> Dec {
    let p = p25519();
    let sign = b[31] >> 7;
    let mut yb = *b;
    yb[31] &= 0x7f;
    let yraw = BigUint::from_bytes_le(&yb);
    let canon = &yraw < p;
    let y = &yraw % p;
    let y2 = &y * &y % p;
    let u = (&y2 + p - 1u8) % p;
    let v = (d() * &y2 + 1u8) % p;
    let x2 = u * v.modpow(&(p - 2u8), p) % p;
    let zero = BigUint::from(0u8);
    if x2 == zero {
        if sign == 1 || !canon {
            return Dec::Open;
        }
        return Dec::Point;
    }
    let e = (p - 1u8) >> 1u32;
    if x2.modpow(&e, p) == BigUint::from(1u8) {
        if canon {
            Dec::Point
        } else {
            Dec::Open
        }
    } else {
        Dec::NotPoint
    }
}
pub fn scalar_be_mod(b: &[u8]) -> Scalar {
    let v = BigUint::from_bytes_be(b) % order();
    let mut le = v.to_bytes_le();
    le.resize(32, 0);
    let mut a = [0u8; 32];
    a.copy_from_slice(&le);
    Option::<Scalar>::from(Scalar::from_canonical_bytes(a)).expect("canonical")
}
pub fn pw_scalar(pw: &[u8]) -> Scalar {
    scalar_be_mod(&hkdf(pw, b"SPAKE2 pw", 48))
}
/// python-spake2's arbitrary_element(seed)
pub fn arbitrary_element(seed: &[u8]) -> EdwardsPoint {
    let p = p25519();
    let y0 = BigUint::from_bytes_be(&hkdf(seed, b"SPAKE2 arbitrary element", 48)) % p;
    for plus in 0u32.. {
        let y = (&y0 + plus) % p;
        let mut le = y.to_bytes_le();
        le.resize(32, 0);
        let mut a = [0u8; 32];
        a.copy_from_slice(&le);
        if classify(&a) != Dec::Point {
            continue;
        }
        // python's xrecover: the even root
        let Some(pt) = CompressedEdwardsY(a).decompress() else { continue };
        let p8 = pt.mul_by_cofactor();
        if p8 == curve25519_dalek::traits::Identity::identity() {
            continue;
        }
        return p8;
    }
    unreachable!()
}
pub struct Consts {
    pub m: EdwardsPoint,
    pub n: EdwardsPoint,
    pub s: EdwardsPoint,
}
pub fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| Consts {
        m: arbitrary_element(b"M"),
        n: arbitrary_element(b"N"),
        s: arbitrary_element(b"symmetric"),
    })
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Role {
    A,
    B,
    S,
}
pub const ROLES: [Role; 3] = [Role::A, Role::B, Role::S];
impl Role {
    pub fn byte(self) -> u8 {
        match self {
            Role::A => 0x41,
            Role::B => 0x42,
            Role::S => 0x53,
        }
    }
    pub fn peer(self) -> Role {
        match self {
            Role::A => Role::B,
            Role::B => Role::A,
            Role::S => Role::S,
        }
    }
    pub fn blind(self) -> EdwardsPoint {
        match self {
            Role::A => consts().m,
            Role::B => consts().n,
            Role::S => consts().s,
        }
    }
}
/// reference transcript hash. For asymmetric roles ids = [idA, idB]; symmetric uses ids[0].
pub fn key(role: Role, pw: &[u8], ids: [&[u8]; 2], mine: &[u8], theirs: &[u8], k: &[u8]) -> Vec<u8> {
    match role {
        Role::S => {
            let (f, s) = if mine <= theirs { (mine, theirs) } else { (theirs, mine) };
            sha(&[&sha(&[pw]), &sha(&[ids[0]]), f, s, k])
        }
        _ => {
            let (f, s) = if role == Role::A { (mine, theirs) } else { (theirs, mine) };
            sha(&[&sha(&[pw]), &sha(&[ids[0]]), &sha(&[ids[1]]), f, s, k])
        }
    }
}
/// Reference party on Ed25519.
pub struct Party {
    pub role: Role,
    pub x: Scalar,
    pub pw: Vec<u8>,
    pub ids: [Vec<u8>; 2],
    pub body: [u8; 32],
    pws: Scalar,
}
impl Party {
    pub fn new(role: Role, pw: &[u8], ids: [&[u8]; 2], x: Scalar) -> Party {
        let pws = pw_scalar(pw);
        let body = (ED25519_BASEPOINT_POINT * x + role.blind() * pws).compress().to_bytes();
        Party {
            role,
            x,
            pw: pw.to_vec(),
            ids: [ids[0].to_vec(), ids[1].to_vec()],
            body,
            pws,
        }
    }
    pub fn msg(&self) -> Vec<u8> {
        let mut v = vec![self.role.byte()];
        v.extend_from_slice(&self.body);
        v
    }
    /// key for a peer message body that decodes
    pub fn finish(&self, theirs: &[u8]) -> Option<Vec<u8>> {
        let mut a = [0u8; 32];
        a.copy_from_slice(theirs);
        let y = CompressedEdwardsY(a).decompress()?;
        let k = (y - self.role.peer().blind() * self.pws) * self.x;
        Some(key(
            self.role,
            &self.pw,
            [&self.ids[0], &self.ids[1]],
            &self.body,
            theirs,
            &k.compress().to_bytes(),
        ))
    }
}
