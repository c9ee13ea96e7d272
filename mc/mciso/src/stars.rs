//! Pairs of sessions that differ in exactly one input, around many base sessions.
use crate::dig::{Twin20, Twin32};
use crate::kinds::*;
use crate::tick::TwinEd;
use crate::hasher::Alt64;
use crate::party::V;
use crate::refm::B;
use crate::toy::{Mul, Toy};
use digest::Digest;
use sha1::Sha1;
use sha2::{Sha256, Sha512};
use spake2::Ed25519Group;
use srp::types::SrpGroup;

type S = &'static [u8];
fn leak(v: Vec<u8>) -> S {
    Box::leak(v.into_boxed_slice())
}
/// a value of the length: 0 short, 1 middle, 2 longer than every hash block
fn val(tag: u8, size: usize) -> S {
    let n = [4, 24, 150][size];
    leak((0..n).map(|i| b'a' + ((i as u8).wrapping_mul(7).wrapping_add(tag)) % 26).collect())
}
/// all values a byte string is changed to
fn other(s: S) -> Vec<(&'static str, S)> {
    let at = |i: usize| {
        let mut v = s.to_vec();
        v[i] ^= 1;
        leak(v)
    };
    let n = s.len();
    let mut swapped = s.to_vec();
    swapped.swap(0, 1);
    vec![
        ("first", at(0)),
        ("middle", at(n / 2)),
        ("last", at(n - 1)),
        ("longer", leak([s, b"\0"].concat())),
        ("shorter", &s[..n - 1]),
        ("swapped", leak(swapped)),
        ("empty", b""),
    ]
}
pub struct Star {
    pub name: String,
    pub a: Box<dyn Fn() -> Sess + Send + Sync>,
    pub b: Box<dyn Fn() -> Sess + Send + Sync>,
}
fn sp<G: spake2::Group + 'static>(g: &str, size: usize, sym: bool, out: &mut Vec<Star>)
where
    G::Scalar: 'static,
{
    let base = Sp { sym, pw: [val(1, size); 2], ids: [val(2, size), val(3, size)], ..SP };
    let mut ch: Vec<(String, Sp)> = vec![];
    for (n, v) in other(base.pw[0]) {
        ch.push((format!("pw-{n}"), Sp { pw: [v; 2], ..base.clone() }));
    }
    for (n, v) in other(base.ids[0]) {
        ch.push((format!("ida-{n}"), Sp { ids: [v, base.ids[1]], ..base.clone() }));
    }
    if !sym {
        for (n, v) in other(base.ids[1]) {
            ch.push((format!("idb-{n}"), Sp { ids: [base.ids[0], v], ..base.clone() }));
        }
        ch.push(("ids-swapped".into(), Sp { ids: [base.ids[1], base.ids[0]], ..base.clone() }));
        ch.push(("ids-equal".into(), Sp { ids: [base.ids[0]; 2], ..base.clone() }));
    }
    ch.push(("pw-is-ida".into(), Sp { pw: [base.ids[0]; 2], ..base.clone() }));
    ch.push(("one-pw".into(), Sp { pw: [base.pw[0], base.ids[0]], ..base.clone() }));
    ch.push(("seeda".into(), Sp { seeds: [3, 2], ..base.clone() }));
    ch.push(("seedb".into(), Sp { seeds: [1, 3], ..base.clone() }));
    ch.push(("seeds".into(), Sp { seeds: [2, 1], ..base.clone() }));
    ch.push(("mode".into(), Sp { sym: !sym, ..base.clone() }));
    for f in 1..=8 {
        ch.push((format!("fault{f}"), Sp { fault: f, ..base.clone() }));
    }
    for (n, c) in ch {
        let base = base.clone();
        out.push(Star { name: format!("sp/{g}/{}/{size}/{n}", if sym { "sym" } else { "ab" }), a: Box::new(move || spake::<G>(base.clone())), b: Box::new(move || spake::<G>(c.clone())) });
    }
}
fn groups<A: spake2::Group + 'static, C: spake2::Group + 'static>(n: &str, size: usize, sym: bool, out: &mut Vec<Star>)
where
    A::Scalar: 'static,
    C::Scalar: 'static,
{
    let p = Sp { sym, pw: [val(1, size); 2], ids: [val(2, size), val(3, size)], ..SP };
    let q = p.clone();
    out.push(Star { name: format!("sp/groups/{}/{size}/{n}", if sym { "sym" } else { "ab" }), a: Box::new(move || spake::<A>(p.clone())), b: Box::new(move || spake::<C>(q.clone())) });
}
fn sr<D: Digest + 'static, T: Digest + 'static>(gn: &str, g: &'static SrpGroup, size: usize, keep: bool, out: &mut Vec<Star>) {
    let base = Sr { user: val(1, size), pw: [val(2, size); 2], salt: val(3, size), a: val(4, size), b: val(5, size), keep, ..SR };
    let mut ch: Vec<(String, Sr)> = vec![];
    for (n, v) in other(base.user) {
        ch.push((format!("user-{n}"), Sr { user: v, ..base }));
    }
    for (n, v) in other(base.pw[0]) {
        ch.push((format!("pw-{n}"), Sr { pw: [v; 2], ..base }));
    }
    for (n, v) in other(base.salt) {
        ch.push((format!("salt-{n}"), Sr { salt: v, ..base }));
    }
    for (n, v) in other(base.a) {
        ch.push((format!("a-{n}"), Sr { a: v, ..base }));
    }
    for (n, v) in other(base.b) {
        ch.push((format!("b-{n}"), Sr { b: v, ..base }));
    }
    ch.push(("wrong".into(), Sr { pw: [base.pw[0], base.user], ..base }));
    ch.push(("a-is-b".into(), Sr { a: base.b, ..base }));
    ch.push(("user-is-pw".into(), Sr { user: base.pw[0], pw: [base.user; 2], ..base }));
    ch.push(("keep".into(), Sr { keep: !keep, ..base }));
    for f in 1..=4 {
        ch.push((format!("fault{f}"), Sr { fault: f, ..base }));
    }
    let pre = format!("srp/{gn}/{}/{size}", if keep { "kept" } else { "new" });
    for (n, c) in ch {
        out.push(Star { name: format!("{pre}/{n}"), a: Box::new(move || srp::<D>(g, base)), b: Box::new(move || srp::<D>(g, c)) });
    }
    out.push(Star { name: format!("{pre}/digest"), a: Box::new(move || srp::<D>(g, base)), b: Box::new(move || srp::<T>(g, base)) });
    // other groups of the same size
    let mk = |n: B, g: B| -> &'static SrpGroup { Box::leak(Box::new(SrpGroup { n, g })) };
    let low = g.n.clone() - B::from(4u32);
    let high = { let mut b = g.n.to_bytes_be(); b[0] ^= 0x20; B::from_bytes_be(&b) };
    for (n, o) in [
        ("modulus-last", mk(low, g.g.clone())),
        ("modulus-first", mk(high, g.g.clone())),
        ("generator", mk(g.n.clone(), &g.g + B::from(1u32))),
        ("generator-long", mk(g.n.clone(), &g.n - B::from(3u32))),
        ("copy", mk(g.n.clone(), g.g.clone())),
    ] {
        out.push(Star { name: format!("{pre}/{n}"), a: Box::new(move || srp::<D>(g, base)), b: Box::new(move || srp::<D>(o, base)) });
    }
}
fn ac<D: crate::party::Dg>(dn: &str, v: V, known: bool, size: usize, out: &mut Vec<Star>) {
    let user = val(1, size);
    let reg = if known { user } else { b"registered" };
    let base = Au { v, user, reguser: reg, pw: [val(2, size); 2], ci: [val(3, size); 2], others: &[], ..AU };
    let mut ch: Vec<(String, Au)> = vec![];
    for (n, x) in other(user) {
        ch.push((format!("user-{n}"), Au { user: x, reguser: if known { x } else { reg }, ..base.clone() }));
    }
    for (n, x) in other(base.pw[0]) {
        ch.push((format!("pw-{n}"), Au { pw: [x; 2], ..base.clone() }));
    }
    for (n, x) in other(base.ci[0]) {
        ch.push((format!("ci-{n}"), Au { ci: [x; 2], ..base.clone() }));
    }
    let pre = Au { pre: Some(val(4, size.max(1))), ..base.clone() };
    ch.push(("pre".into(), pre.clone()));
    for (n, x) in other(val(4, size.max(1))).into_iter().take(3) {
        ch.push((format!("pre-{n}"), Au { pre: Some(x), ..base.clone() }));
    }
    ch.push(("known".into(), Au { reguser: if known { b"registered" } else { user }, ..base.clone() }));
    ch.push(("wrongpw".into(), Au { pw: [base.pw[0], base.ci[0]], ..base.clone() }));
    ch.push(("wrongci".into(), Au { ci: [base.ci[0], base.pw[0]], ..base.clone() }));
    ch.push(("seed".into(), Au { seed: 90, ..base.clone() }));
    ch.push(("home".into(), Au { home: 778, ..base.clone() }));
    ch.push(("params".into(), Au { params: "m=2", ..base.clone() }));
    ch.push(("out".into(), Au { out: crate::hasher::Out::Len(16), ..base.clone() }));
    ch.push(("alloc".into(), Au { alloc: true, ..base.clone() }));
    ch.push(("implicit".into(), Au { implicit: true, ..base.clone() }));
    for o in [V::Plain, V::Partial, V::Strong, V::PStrong] {
        if o != v {
            ch.push((format!("as-{o:?}"), Au { v: o, ..base.clone() }));
        }
    }
    for f in 1..=6 {
        ch.push((format!("fault{f}"), Au { fault: f, ..base.clone() }));
    }
    let nm = format!("au/{dn}/{v:?}/{}/{size}", if known { "known" } else { "unknown" });
    for (n, c) in ch {
        let from = if n.starts_with("pre-") { pre.clone() } else { base.clone() };
        let (f, c) = (au_own::<D>(from), au_own::<D>(c));
        out.push(Star { name: format!("{nm}/{n}"), a: Box::new(move || f(None)), b: Box::new(move || c(None)) });
    }
}
/// the two digests: same inputs
fn acd(v: V, known: bool, size: usize, out: &mut Vec<Star>) {
    let user = val(1, size);
    let base = Au { v, user, reguser: if known { user } else { b"registered" }, pw: [val(2, size); 2], ci: [val(3, size); 2], others: &[], ..AU };
    let (f, c) = (au_own::<Sha512>(base.clone()), au_own::<Alt64>(base));
    out.push(Star { name: format!("au/digests/{v:?}/{known}/{size}"), a: Box::new(move || f(None)), b: Box::new(move || c(None)) });
}
pub fn stars() -> Vec<Star> {
    let mut o = vec![];
    for size in 0..3 {
        for sym in [false, true] {
            sp::<Ed25519Group>("ed", size, sym, &mut o);
            sp::<Toy<251, 1, 0, 0>>("toy251", size, sym, &mut o);
            groups::<Ed25519Group, TwinEd>("twin", size, sym, &mut o);
            groups::<Toy<251, 1, 0, 0>, Toy<251, 1, 0, 1>>("toy251p", size, sym, &mut o);
            groups::<Toy<251, 1, 0, 0>, Toy<241, 1, 0, 0>>("toy241", size, sym, &mut o);
            groups::<Mul<47, 5, 1>, Mul<47, 11, 1>>("mul47", size, sym, &mut o);
        }
        let small = crate::kinds::leak(2879, crate::grp::root(2879));
        let mid = leakx("ffffffffffffffffffffffffffffc3a7", 5);
        for keep in [false, true] {
            sr::<Sha256, Twin32>("mid", mid, size, keep, &mut o);
            sr::<Sha1, Twin20>("1024", &srp::groups::G_1024, size, keep, &mut o);
        }
        sr::<Sha256, Sha1>("small", small, size, false, &mut o);
        sr::<Sha256, Sha512>("2048", &srp::groups::G_2048, size, false, &mut o);
        for v in [V::Plain, V::Partial, V::Strong, V::PStrong] {
            for known in [true, false] {
                ac::<Sha512>("sha512", v, known, size, &mut o);
                acd(v, known, size, &mut o);
            }
        }
    }
    o
}
