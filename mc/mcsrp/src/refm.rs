//! Independent SRP-6a reference.
use digest::Digest;
use num_bigint::BigUint;
use srp::types::SrpGroup;

pub type B = BigUint;
pub fn b(v: u64) -> B {
    B::from(v)
}
/// square-and-multiply with machine integers where possible
pub fn powm(g: &B, e: &B, n: &B) -> B {
    if n.bits() <= 63 {
        let m = n.to_u64_digits().first().copied().unwrap_or(0) as u128;
        let mut base = (g % n).to_u64_digits().first().copied().unwrap_or(0) as u128;
        let mut r = 1u128 % m;
        for i in 0..e.bits() {
            if e.bit(i) {
                r = r * base % m;
            }
            base = base * base % m;
        }
        return B::from(r as u64);
    }
    g.modpow(e, n)
}
pub fn pad(v: &B, len: usize) -> Vec<u8> {
    let x = v.to_bytes_be();
    let mut o = vec![0; len.saturating_sub(x.len())];
    o.extend(x);
    o
}
pub fn h<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let mut d = D::new();
    for p in parts {
        d.update(p);
    }
    d.finalize().to_vec()
}
pub fn hi<D: Digest>(parts: &[&[u8]]) -> B {
    B::from_bytes_be(&h::<D>(parts))
}
pub fn x<D: Digest>(u: &[u8], p: &[u8], s: &[u8]) -> B {
    hi::<D>(&[s, &h::<D>(&[u, b":", p])])
}
pub fn k<D: Digest>(g: &SrpGroup) -> B {
    let n = g.n.to_bytes_be();
    hi::<D>(&[&n, &pad(&g.g, n.len())])
}
pub fn v<D: Digest>(g: &SrpGroup, x: &B) -> B {
    powm(&g.g, x, &g.n)
}
pub fn bpub<D: Digest>(g: &SrpGroup, bb: &B, v: &B) -> B {
    (k::<D>(g) * v + powm(&g.g, bb, &g.n)) % &g.n
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Out {
    pub key: Vec<u8>,
    pub m1: Vec<u8>,
    pub m2: Vec<u8>,
}
fn out<D: Digest>(a: &B, bb: &B, key: B) -> Out {
    let (a, bb, key) = (a.to_bytes_be(), bb.to_bytes_be(), key.to_bytes_be());
    let m1 = h::<D>(&[&a, &bb, &key]);
    let m2 = h::<D>(&[&a, &m1, &key]);
    Out { key, m1, m2 }
}
pub fn u<D: Digest>(g: &SrpGroup, a: &B, bb: &B, padded: bool) -> B {
    let l = if padded { g.n.to_bytes_be().len() } else { 0 };
    hi::<D>(&[&pad(a, l), &pad(bb, l)])
}
/// client outcome for (a, x, B)
pub fn client<D: Digest>(g: &SrpGroup, a: &B, x: &B, bb: &B, padded: bool) -> Out {
    let n = &g.n;
    let ap = powm(&g.g, a, n);
    let u = u::<D>(g, &ap, bb, padded);
    let kgx = k::<D>(g) * powm(&g.g, x, n) % n;
    let base = (bb % n + n - kgx) % n;
    let e = a + u * x;
    out::<D>(&ap, bb, powm(&base, &e, n))
}
/// server outcome for (b, v, A)
pub fn server<D: Digest>(g: &SrpGroup, bs: &B, v: &B, ap: &B, padded: bool) -> Out {
    let n = &g.n;
    let bp = bpub::<D>(g, bs, v);
    let u = u::<D>(g, ap, &bp, padded);
    let base = ap % n * powm(v, &u, n) % n;
    out::<D>(ap, &bp, powm(&base, bs, n))
}
/// is either public value shorter than N (the class of inputs on which padding matters)?
pub fn short(g: &SrpGroup, a: &B, bb: &B) -> bool {
    let l = g.n.to_bytes_be().len();
    a.to_bytes_be().len() < l || bb.to_bytes_be().len() < l
}
