use crate::refm::B;
use srp::groups::*;
use srp::types::SrpGroup;

pub fn g(n: u64, gg: u64) -> SrpGroup {
    SrpGroup { n: B::from(n), g: B::from(gg) }
}
/// smallest primitive root of a safe prime
pub fn root(n: u64) -> u64 {
    let q = (n - 1) / 2;
    let p = |mut b: u64, mut e: u64| {
        let mut r = 1;
        b %= n;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % n
            }
            b = b * b % n;
            e >>= 1
        }
        r
    };
    (2..n).find(|c| p(*c, 2) != 1 && p(*c, q) != 1).unwrap_or(2)
}
pub fn safe_primes(upto: u64) -> Vec<u64> {
    let pr = |n: u64| n > 1 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0);
    (5..=upto).filter(|n| pr(*n) && pr((n - 1) / 2)).collect()
}
pub const MEDIUM: [(&str, u64); 27] = [
    ("7f5b", 2),
    ("fef3", 2),
    ("1fee3", 2),
    ("7ffebf", 5),
    ("fffec3", 2),
    ("1fffd87", 11),
    ("7fffffbb", 2),
    ("ffffff2f", 5),
    ("1fffffff7", 5),
    ("fffffffe4b", 2),
    ("ffffffffeb4f", 13),
    ("fffffffffff737", 5),
    ("7fffffffffffee27", 11),
    ("fffffffffffffa43", 2),
    ("1fffffffffffff373", 2),
    ("fffffffffffffffffffff287", 5),
    ("7ffffffffffffffffffffffffffff55f", 5),
    ("ffffffffffffffffffffffffffffc3a7", 5),
    ("1ffffffffffffffffffffffffffffd00f", 11),
    ("ffffffffffffffffffffffffffffffffffffca73", 2),
    ("ffffffffffffffffffffffffffffffffffffffffffff5f03", 2),
    ("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffff4a2f", 5),
    ("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff72ef", 5),
    ("1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff1b97", 7),
    ("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe35af", 5),
    ("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff194f", 29),
    ("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff6b1b", 2),
];
pub fn medium() -> Vec<SrpGroup> {
    MEDIUM
        .iter()
        .map(|(n, gg)| SrpGroup { n: B::parse_bytes(n.as_bytes(), 16).unwrap_or_default(), g: B::from(*gg) })
        .collect()
}
/// groups whose generator takes several bytes, up to as many as the modulus
pub fn wide() -> Vec<SrpGroup> {
    let mut o: Vec<SrpGroup> = vec![];
    let one = B::from(1u32);
    let mods = ["fef3", "1fee3", "7ffebf", "ffffff2f", "fffffffffffffa43", "1fffffffffffff373", "ffffffffffffffffffffffffffffc3a7", "ffffffffffffffffffffffffffffffffffffca73"];
    let mut add = |n: &B, dense: bool| {
        let top = &one << (n.bits() - 1) as usize;
        let mut gens = vec![B::from(258u32), B::from(256u32), n - 2u32, n / 3u32];
        if dense {
            gens.extend([top.clone(), &top >> 8, (&top >> 8) + 5u32, B::from(0xffu32), B::from(0x10001u32), n / 7u32 * 3u32]);
        }
        for g in gens {
            let g = g % n;
            if g > one && !o.iter().any(|x| x.n == *n && x.g == g) {
                o.push(SrpGroup { n: n.clone(), g });
            }
        }
    };
    for (i, n) in mods.iter().enumerate() {
        add(&B::parse_bytes(n.as_bytes(), 16).unwrap_or_default(), i % 3 == 0);
    }
    add(&G_1024.n, true);
    o
}
pub fn builtin() -> Vec<(&'static str, usize, &'static SrpGroup)> {
    vec![
        ("G_1024", 1024, &*G_1024),
        ("G_1536", 1536, &*G_1536),
        ("G_2048", 2048, &*G_2048),
        ("G_3072", 3072, &*G_3072),
        ("G_4096", 4096, &*G_4096),
        ("G_6144", 6144, &*G_6144),
        ("G_8192", 8192, &*G_8192),
    ]
}
pub fn label(g: &SrpGroup) -> String {
    if g.n.bits() < 40 {
        format!("N{}g{}", g.n, g.g)
    } else {
        format!("N{}bit", g.n.bits())
    }
}
