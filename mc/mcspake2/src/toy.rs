//! Tiny groups implementing the public `Group` trait: every scalar, element and message can be enumerated.
use rand_core::{CryptoRng, RngCore};
use spake2::Group;
use std::cell::{Cell, RefCell};

/// Cyclic group of order Q written additively with generator 1.
/// L: encoded length; E: encoding (0 padded big-endian, 1 little-endian xor pattern, 2 permuted one-byte);
/// P: password map (0: sum of bytes and length mod Q, 1: constant 1, 2: constant 0, 3: last byte mod Q);
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Toy<const Q: u32, const L: usize, const E: u8, const P: u8>;

thread_local! {
    pub static SCALARS: Cell<u64> = const { Cell::new(0) };
    pub static LAST: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}

pub fn pat(i: usize) -> u8 {
    (i as u8).wrapping_mul(37).wrapping_add(0x5a)
}

pub fn enc(e: u32, l: usize, en: u8) -> Vec<u8> {
    let mut v = vec![0u8; l];
    match en {
        0 => {
            v[l - 1] = e as u8;
            if l > 1 {
                v[l - 2] = (e >> 8) as u8;
            }
        }
        1 => {
            v[0] = e as u8;
            if l > 1 {
                v[1] = (e >> 8) as u8;
            }
            for (i, b) in v.iter_mut().enumerate() {
                *b ^= pat(i);
            }
        }
        _ => {
            // spread over all bytes: order of encodings is not the order of the elements
            for (i, b) in v.iter_mut().enumerate() {
                *b = ((e as usize * 167 + 13 + i * (e as usize + 1)) & 0xff) as u8;
            }
        }
    }
    v
}

pub trait Small {
    const Q: u32;
    const L: usize;
    const E: u8;
    fn enc(e: u32) -> Vec<u8> {
        enc(e, Self::L, Self::E)
    }
    fn m() -> u32;
    fn n() -> u32;
    fn s() -> u32;
    fn pw(p: &[u8]) -> u32;
    fn label() -> String;
}
impl<const Q: u32, const L: usize, const E: u8, const P: u8> Small for Toy<Q, L, E, P> {
    const Q: u32 = Q;
    const L: usize = L;
    const E: u8 = E;
    fn m() -> u32 {
        2 % Q
    }
    fn n() -> u32 {
        if Q > 3 {
            3
        } else {
            1
        }
    }
    fn s() -> u32 {
        if Q > 5 {
            5
        } else {
            1
        }
    }
    fn pw(p: &[u8]) -> u32 {
        match P {
            0 => (p.iter().map(|b| *b as u32).sum::<u32>() + p.len() as u32) % Q,
            1 => 1 % Q,
            2 => 0,
            _ => p.last().map(|b| *b as u32 % Q).unwrap_or(0),
        }
    }
    fn label() -> String {
        format!("Z{Q}L{L}E{E}P{P}")
    }
}

impl<const Q: u32, const L: usize, const E: u8, const P: u8> Group for Toy<Q, L, E, P> {
    type Scalar = u32;
    type Element = u32;
    type TranscriptHash = sha2::Sha256;
    fn name() -> &'static str {
        "toy"
    }
    fn const_m() -> u32 {
        <Self as Small>::m()
    }
    fn const_n() -> u32 {
        <Self as Small>::n()
    }
    fn const_s() -> u32 {
        <Self as Small>::s()
    }
    fn hash_to_scalar(s: &[u8]) -> u32 {
        <Self as Small>::pw(s)
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> u32 {
        let v = r.next_u32() % Q;
        SCALARS.with(|c| c.set(c.get() + 1));
        LAST.with(|c| c.borrow_mut().push(v));
        v
    }
    fn scalar_neg(s: &u32) -> u32 {
        (Q - s) % Q
    }
    fn element_to_bytes(e: &u32) -> Vec<u8> {
        enc(*e, L, E)
    }
    fn bytes_to_element(b: &[u8]) -> Option<u32> {
        (0..Q).find(|e| enc(*e, L, E) == b)
    }
    fn element_length() -> usize {
        L
    }
    fn basepoint_mult(s: &u32) -> u32 {
        s % Q
    }
    fn scalarmult(e: &u32, s: &u32) -> u32 {
        ((*e as u64 * *s as u64) % Q as u64) as u32
    }
    fn add(a: &u32, b: &u32) -> u32 {
        (a + b) % Q
    }
}

/// The multiplicative group of a small prime field (order P-1, composite), canonical one- or two-byte
/// encodings, elements that are not group members are refused by the decoder.
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Mul<const MODULUS: u32, const GEN: u32, const L: usize>;
fn mpow(mut b: u32, mut e: u32, m: u32) -> u32 {
    let mut r = 1u32;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % m
        }
        b = b * b % m;
        e >>= 1;
    }
    r
}
impl<const MODULUS: u32, const GEN: u32, const L: usize> Group for Mul<MODULUS, GEN, L> {
    type Scalar = u32;
    type Element = u32;
    type TranscriptHash = sha2::Sha256;
    fn name() -> &'static str {
        "mul"
    }
    fn const_m() -> u32 {
        mpow(GEN, 4, MODULUS)
    }
    fn const_n() -> u32 {
        mpow(GEN, 7, MODULUS)
    }
    fn const_s() -> u32 {
        mpow(GEN, 9, MODULUS)
    }
    fn hash_to_scalar(s: &[u8]) -> u32 {
        s.iter().fold(1u32, |a, b| (a * 31 + *b as u32) % (MODULUS - 1))
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> u32 {
        r.next_u32() % (MODULUS - 1)
    }
    fn scalar_neg(s: &u32) -> u32 {
        (MODULUS - 1 - s) % (MODULUS - 1)
    }
    fn element_to_bytes(e: &u32) -> Vec<u8> {
        enc(*e, L, 0)
    }
    fn bytes_to_element(b: &[u8]) -> Option<u32> {
        (1..MODULUS).find(|e| enc(*e, L, 0) == b)
    }
    fn element_length() -> usize {
        L
    }
    fn basepoint_mult(s: &u32) -> u32 {
        mpow(GEN, *s, MODULUS)
    }
    fn scalarmult(e: &u32, s: &u32) -> u32 {
        mpow(*e, *s, MODULUS)
    }
    fn add(a: &u32, b: &u32) -> u32 {
        a * b % MODULUS
    }
}
