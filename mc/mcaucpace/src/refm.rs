//! Reference model of AuCPace, written from the protocol table of the crate documentation.
use crate::hasher::{toyhash, Call};
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, RistrettoPoint as P, Scalar};
use digest::{consts::U64, Digest};

pub fn h<D: Digest<OutputSize = U64>>(i: u32, parts: &[&[u8]]) -> [u8; 64] {
    let mut m = i.to_le_bytes().to_vec();
    for p in parts {
        m.extend_from_slice(p);
    }
    let mut o = [0u8; 64];
    o.copy_from_slice(&D::digest(&m));
    o
}
pub fn ssid<D: Digest<OutputSize = U64>>(bytes: &[u8]) -> [u8; 64] {
    h::<D>(0, &[bytes])
}
pub fn w(hash: &[u8]) -> Scalar {
    if hash.len() == 64 {
        let mut b = [0u8; 64];
        b.copy_from_slice(hash);
        Scalar::from_bytes_mod_order_wide(&b)
    } else {
        let mut b = [0u8; 32];
        b[..hash.len().min(32)].copy_from_slice(&hash[..hash.len().min(32)]);
        Scalar::from_bytes_mod_order(b)
    }
}
pub fn userpass(user: &[u8], pw: &[u8]) -> Vec<u8> {
    [user, b":", pw].concat()
}
/// scalar of the password for the toy hasher
pub fn wtoy(user: &[u8], pw: &[u8], salt: &str, params: &str, n: usize) -> Scalar {
    w(&toyhash(&userpass(user, pw), salt, params, n))
}
pub fn call(user: &[u8], pw: &[u8], salt: &str, params: &str) -> Call {
    Call { password: userpass(user, pw), salt: salt.into(), params: params.into() }
}
pub fn z<D: Digest<OutputSize = U64>>(user: &[u8], pw: &[u8]) -> P {
    P::from_uniform_bytes(&h::<D>(1, &[user, pw]))
}
pub fn b64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}
pub fn enc(p: &P) -> [u8; 32] {
    p.compress().to_bytes()
}
pub fn verifier(w: &Scalar) -> P {
    B * w
}
pub fn generator<D: Digest<OutputSize = U64>>(ssid: &[u8; 64], prs: &[u8; 32], ci: &[u8]) -> P {
    P::from_uniform_bytes(&h::<D>(1, &[ssid, prs, ci]))
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Keys {
    pub sk1: [u8; 64],
    pub ta: [u8; 64],
    pub tb: [u8; 64],
    pub sk: [u8; 64],
}
pub fn keys<D: Digest<OutputSize = U64>>(ssid: &[u8; 64], k: &P) -> Keys {
    let sk1 = h::<D>(2, &[ssid, &enc(k)]);
    Keys { ta: h::<D>(3, &[ssid, &sk1]), tb: h::<D>(4, &[ssid, &sk1]), sk: h::<D>(5, &[ssid, &sk1]), sk1 }
}
/// a fixed family of scalars and points for the model's own secrets
pub fn sc(n: u64) -> Scalar {
    Scalar::from_bytes_mod_order_wide(&h::<sha2::Sha512>(0x5ca1a4, &[&n.to_le_bytes()]))
}
pub fn pt(n: u64) -> P {
    P::from_uniform_bytes(&h::<sha2::Sha512>(0x701e7, &[&n.to_le_bytes()]))
}

/// points whose encodings start, end or are filled with special bytes
pub fn shapes(full: bool) -> Vec<P> {
    let mut pats: Vec<(usize, usize, u8)> = vec![]; // range of fixed bytes, their value
    for k in [1usize, 2, 3, 4, 8, 16, 28, 30] {
        for b in [0u8, 0xff] {
            pats.push((0, k, b));
            pats.push((32 - k, 32, b));
        }
    }
    for i in (1..31).step_by(if full { 1 } else { 5 }) {
        for b in [0u8, 0xff, 0x0a, 0x80] {
            pats.push((i, i + 1, b));
        }
    }
    for b in (0..128u8).step_by(if full { 1 } else { 9 }) {
        pats.push((0, 1, 2 * b));
        pats.push((31, 32, b));
    }
    let mut o = vec![];
    for (from, to, b) in pats {
        for n in 0..2000u64 {
            let mut e = h::<sha2::Sha512>(0x5a9e, &[&n.to_le_bytes()]);
            e[from..to].fill(b);
            // canonical encodings are even and below 2^255
            e[0] &= 0xfe;
            e[31] &= 0x7f;
            let mut c = [0u8; 32];
            c.copy_from_slice(&e[..32]);
            if let Some(p) = curve25519_dalek::ristretto::CompressedRistretto(c).decompress() {
                o.push(p);
                break;
            }
        }
    }
    // small and large field elements
    for n in 0..if full { 400u32 } else { 80 } {
        let mut c = [0u8; 32];
        c[..4].copy_from_slice(&(2 * n + 2).to_le_bytes());
        o.extend(curve25519_dalek::ristretto::CompressedRistretto(c).decompress());
        c = [0xff; 32];
        c[31] = 0x7f;
        c[..2].copy_from_slice(&(0xffec - 2 * n as u16).to_le_bytes());
        o.extend(curve25519_dalek::ristretto::CompressedRistretto(c).decompress());
    }
    o
}
