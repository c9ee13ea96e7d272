//! Drives the real `Spake2` through its public constructors.
use crate::refm::Role;
use mccore::rng::Tape;
use mccore::{ensure, guard, Fail};
use num_bigint::BigUint;
use rand_core::{CryptoRng, RngCore};
use spake2::{Error, Group, Identity, Password, Spake2};

pub fn start<G: Group>(
    role: Role,
    pw: &[u8],
    ids: [&[u8]; 2],
    rng: impl RngCore + CryptoRng,
) -> (Spake2<G>, Vec<u8>) {
    let p = Password::new(pw);
    match role {
        Role::A => Spake2::<G>::start_a_with_rng(&p, &Identity::new(ids[0]), &Identity::new(ids[1]), rng),
        Role::B => Spake2::<G>::start_b_with_rng(&p, &Identity::new(ids[0]), &Identity::new(ids[1]), rng),
        Role::S => Spake2::<G>::start_symmetric_with_rng(&p, &Identity::new(ids[0]), rng),
    }
}
pub fn start_os<G: Group>(role: Role, pw: &[u8], ids: [&[u8]; 2]) -> (Spake2<G>, Vec<u8>) {
    let p = Password::new(pw);
    match role {
        Role::A => Spake2::<G>::start_a(&p, &Identity::new(ids[0]), &Identity::new(ids[1])),
        Role::B => Spake2::<G>::start_b(&p, &Identity::new(ids[0]), &Identity::new(ids[1])),
        Role::S => Spake2::<G>::start_symmetric(&p, &Identity::new(ids[0])),
    }
}
/// tape whose first draw yields the toy scalar x
pub fn tx(x: u32) -> Tape {
    Tape::scripted(x.to_le_bytes().to_vec(), 7)
}
/// tape whose first 64-byte draw reduces to the given integer
pub fn te(v: &BigUint) -> Tape {
    let mut b = v.to_bytes_le();
    b.resize(64, 0);
    Tape::scripted(b, 11)
}
/// integers used as ephemeral secrets (before reduction mod the group order)
pub fn special() -> Vec<BigUint> {
    let l = crate::refm::order().clone();
    let one = BigUint::from(1u8);
    let mut v = vec![
        BigUint::from(0u8),
        one.clone(),
        BigUint::from(2u8),
        BigUint::from(3u8),
        BigUint::from(8u8),
        BigUint::from(255u8),
        BigUint::from(256u32),
        &l - 1u8,
        &l - 2u8,
        &l - 8u8,
        (&l - 1u8) >> 1u32,
        (&l + 1u8) >> 1u32,
        &one << 251u32,
        &one << 252u32,
        l.clone(),
        &l + 1u8,
        (&one << 512u32) - 1u8,
    ];
    for i in 0..12u64 {
        v.push(BigUint::from_bytes_le(&mccore::rng::Tape::new(1000 + i).take64()));
    }
    v
}
pub fn agree<G: Group>(
    what: &dyn Fn() -> String,
    a: (Spake2<G>, Vec<u8>),
    b: (Spake2<G>, Vec<u8>),
) -> Result<Vec<u8>, Fail> {
    let (sa, ma) = a;
    let (sb, mb) = b;
    let ka = guard(|| sa.finish(&mb)).map_err(|e| Fail::from(format!("{}: first party: {e}", what())))?;
    let kb = guard(|| sb.finish(&ma)).map_err(|e| Fail::from(format!("{}: second party: {e}", what())))?;
    let (ka, kb) = match (ka, kb) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => {
            return Err(Fail::from(format!(
                "{}: honest exchange refused: {:?} / {:?}",
                what(),
                x.map(|_| ()),
                y.map(|_| ())
            )))
        }
    };
    ensure!(ka == kb, "{}: keys differ: {} vs {}", what(), mccore::hex(&ka), mccore::hex(&kb));
    ensure!(ka.len() == 32, "{}: key of {} bytes", what(), ka.len());
    Ok(ka)
}
pub fn errname(e: Error) -> &'static str {
    match e {
        Error::BadSide => "BadSide",
        Error::CorruptMessage => "CorruptMessage",
        Error::WrongLength => "WrongLength",
    }
}

/// ephemerals whose symmetric messages for one password begin (or end) with the same bytes, and
/// ephemerals and passwords that lead to messages and password scalars of rare shape
pub struct Rare {
    /// (x, y, length of the common part)
    pub near: Vec<(BigUint, BigUint, usize)>,
    /// per role
    pub shaped: Vec<(Role, BigUint)>,
    pub pws: Vec<Vec<u8>>,
}
pub fn rare(n: u64) -> Rare {
    use crate::refm::{hkdf, scalar_be_mod, Party, ROLES};
    let sc = |x: &BigUint| scalar_be_mod(&x.to_bytes_be());
    let mut shaped = vec![];
    let mut sym: Vec<(Vec<u8>, BigUint)> = vec![];
    for role in ROLES {
        for i in 0..n {
            let x = BigUint::from_bytes_le(&Tape::new(60_000_000 + i).take64());
            let b = Party::new(role, b"pw", [b"idA", b"idB"], sc(&x)).body.to_vec();
            let runs = |k: usize| b.windows(k).any(|w| w.iter().all(|c| *c == w[0]));
            let ends = |v: u8| (b[0] == v || b[31] == v) && shaped_few(&shaped, role, 200);
            if runs(3) || (runs(2) && (b[..2] == [0, 0] || b[30..] == [0, 0] || b[..2] == [0xff; 2] || b[30..] == [0xff; 2])) || ends(0) || ends(0xff) || ends(0x80) || ends(0x7f) {
                shaped.push((role, x.clone()));
            }
            if role == Role::S {
                sym.push((b, x));
            }
        }
    }
    let mut near = vec![];
    for back in [false, true] {
        for (b, _) in &mut sym {
            if back {
                b.reverse();
            }
        }
        sym.sort();
        for k in (1..=4).rev() {
            let mut c = 0;
            for w in sym.windows(2) {
                if w[0].0[..k] == w[1].0[..k] && w[0].0[k] != w[1].0[k] && c < 40 {
                    c += 1;
                    near.push((w[0].1.clone(), w[1].1.clone(), k));
                    near.push((w[1].1.clone(), w[0].1.clone(), k));
                }
            }
        }
    }
    // passwords: the 48 bytes their scalar is made of, and the scalar itself
    let mut pws = vec![];
    let mut have = std::collections::HashMap::new();
    for i in 0..n * 8 {
        let pw = format!("password {i}").into_bytes();
        let o = hkdf(&pw, b"SPAKE2 pw", 48);
        let s = scalar_be_mod(&o).to_bytes();
        let mut keys = vec![];
        for b in [0u8, 0xff] {
            for k in [1usize, 2] {
                for (n, v) in [("okm", &o[..]), ("scalar", &s[..])] {
                    for at in [0, v.len() - k, 15, 16, 31 - k, 32 - k] {
                        if v.get(at..at + k).map(|w| w.iter().all(|c| *c == b)) == Some(true) {
                            keys.push((n, k, b, at));
                        }
                    }
                }
            }
        }
        for k in keys {
            let c = have.entry(k).or_insert(0);
            if *c < 3 {
                *c += 1;
                if pws.last() != Some(&pw) {
                    pws.push(pw.clone());
                }
            }
        }
    }
    Rare { near, shaped, pws }
}
fn shaped_few(v: &[(Role, BigUint)], r: Role, n: usize) -> bool {
    v.iter().filter(|x| x.0 == r).count() < n
}
