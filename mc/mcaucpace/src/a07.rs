//! A07 serialization of messages.
use crate::hasher::par;
use crate::refm as rf;
use aucpace::{ClientMessage, ServerMessage};
use curve25519_dalek::traits::Identity;
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, RistrettoPoint as P, Scalar};
use mccore::{alpha, ensure, hex, Ctx, Fail, Stats};
use password_hash::SaltString;

/// a message in the harness' own form
#[derive(Clone, PartialEq, Debug, Default)]
pub struct N {
    kind: &'static str,
    bytes: Vec<u8>,
    text: Vec<String>,
    points: Vec<[u8; 32]>,
    scalars: Vec<[u8; 32]>,
}
fn n(kind: &'static str, bytes: &[u8], text: &[&str], points: &[&P], scalars: &[&Scalar]) -> N {
    N {
        kind,
        bytes: bytes.to_vec(),
        text: text.iter().map(|s| s.to_string()).collect(),
        points: points.iter().map(|p| rf::enc(p)).collect(),
        scalars: scalars.iter().map(|s| s.to_bytes()).collect(),
    }
}
fn nc<const K: usize>(m: &ClientMessage<'_, K>) -> N {
    use ClientMessage::*;
    match m {
        Nonce(b) => n("c.Nonce", b, &[], &[], &[]),
        Username(u) => n("c.Username", u, &[], &[], &[]),
        StrongUsername { username, blinded } => n("c.StrongUsername", username, &[], &[blinded], &[]),
        PublicKey(p) => n("c.PublicKey", &[], &[], &[p], &[]),
        Authenticator(a) => n("c.Authenticator", a, &[], &[], &[]),
        Registration { username, salt, params, verifier } => n("c.Registration", username, &[salt.as_str(), params.as_str()], &[verifier], &[]),
        StrongRegistration { username, secret_exponent, params, verifier } => n("c.StrongRegistration", username, &[params.as_str()], &[verifier], &[secret_exponent]),
    }
}
fn ns<const K: usize>(m: &ServerMessage<'_, K>) -> N {
    use ServerMessage::*;
    match m {
        Nonce(b) => n("s.Nonce", b, &[], &[], &[]),
        AugmentationInfo { group, x_pub, salt, pbkdf_params } => n("s.AugmentationInfo", &[], &[group, salt.as_str(), pbkdf_params.as_str()], &[x_pub], &[]),
        StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => n("s.StrongAugmentationInfo", &[], &[group, pbkdf_params.as_str()], &[x_pub, blinded_salt], &[]),
        PublicKey(p) => n("s.PublicKey", &[], &[], &[p], &[]),
        Authenticator(a) => n("s.Authenticator", a, &[], &[], &[]),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum F {
    Postcard,
    Bincode,
}
const FS: [F; 2] = [F::Postcard, F::Bincode];
fn ser<T: serde::Serialize>(f: F, m: &T) -> Result<Vec<u8>, Fail> {
    match f {
        F::Postcard => {
            let mut buf = vec![0u8; 80_000];
            let r = postcard::to_slice(m, &mut buf).map(|s| s.len());
            r.map(|n| buf[..n].to_vec()).map_err(|e| Fail::from(format!("postcard: message cannot be serialized: {e}")))
        }
        F::Bincode => bincode::serialize(m).map_err(|e| Fail::from(format!("bincode: message cannot be serialized: {e}"))),
    }
}
fn de<'a, T: serde::Deserialize<'a>>(f: F, b: &'a [u8]) -> Result<T, String> {
    match f {
        F::Postcard => postcard::from_bytes(b).map_err(|e| e.to_string()),
        F::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
    }
}
/// which enum
#[derive(Clone, Copy, PartialEq)]
enum Side {
    C,
    S,
}
/// decode, describe, encode again
fn decode<const K: usize>(side: Side, f: F, b: &[u8]) -> Result<(N, Vec<u8>), Option<Fail>> {
    let r = match side {
        Side::C => de::<ClientMessage<K>>(f, b).map(|m| ser(f, &m).map(|s| (nc(&m), s))),
        Side::S => de::<ServerMessage<K>>(f, b).map(|m| ser(f, &m).map(|s| (ns(&m), s))),
    };
    match r {
        Err(_) => Err(None),
        Ok(Err(e)) => Err(Some(e)),
        Ok(Ok(x)) => Ok(x),
    }
}
const MODULUS: [u8; 32] = {
    let mut m = [0xff; 32];
    m[0] = 0xed;
    m[31] = 0x7f;
    m
};
fn less(a: &[u8; 32], b: &[u8; 32]) -> bool {
    a.iter().rev().cmp(b.iter().rev()) == std::cmp::Ordering::Less
}
fn order() -> [u8; 32] {
    let mut l = (-Scalar::ONE).to_bytes();
    l[0] += 1;
    l
}
/// a decoded message is well formed
fn wellformed<const K: usize>(side: Side, f: F, input: &[u8], m: &N, again: &[u8]) -> Result<(), Fail> {
    for p in &m.points {
        ensure!(p[0] & 1 == 0 && less(p, &MODULUS), "a point whose encoding is not canonical");
        ensure!(input.windows(32).any(|w| w == p), "{f:?} {}: a group element was decoded from an encoding that is not its own: {}", m.kind, hex(p));
    }
    for s in &m.scalars {
        ensure!(less(s, &order()), "scalar not reduced");
        ensure!(input.windows(32).any(|w| w == s), "{f:?} {}: a scalar was decoded from a non-canonical encoding", m.kind);
    }
    for t in &m.text {
        ensure!(t.is_empty() || input.windows(t.len()).any(|w| w == t.as_bytes()), "{f:?} {}: the text {t:?} was decoded from another one", m.kind);
    }
    match decode::<K>(side, f, again) {
        Ok((n, x)) => {
            ensure!(n == *m && x == again, "{f:?} {}: decoded message does not survive another round trip", m.kind);
            Ok(())
        }
        Err(_) => Err(Fail::from(format!("{f:?} {}: decoded message cannot be sent on", m.kind))),
    }
}
fn altered<const K: usize>(st: &mut Stats, side: Side, f: F, b: &[u8]) -> Result<(), Fail> {
    st.step();
    match decode::<K>(side, f, b) {
        Err(None) => {
            st.outcome("altered encoding refused");
            Ok(())
        }
        Err(Some(e)) => Err(e),
        Ok((m, again)) => {
            st.outcome("altered encoding is another message");
            wellformed::<K>(side, f, b, &m, &again)
        }
    }
}
fn salts() -> Vec<SaltString> {
    let mut v = vec![];
    for n in [3usize, 4, 6, 8, 15, 16, 31, 32, 45, 48] {
        for b in [0u8, 0xff, 0x5a] {
            v.extend(SaltString::encode_b64(&vec![b; n]).ok());
        }
        v.extend(SaltString::encode_b64(&rf::h::<sha2::Sha512>(5, &[&[n as u8]])[..n]).ok());
    }
    v
}
pub const PARAMS: [&str; 9] = ["", "a=1", "m=19456,t=2,p=1", "ln=17,r=8,p=1", "a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8", "i=4294967295", "x=AAAA/+.-", "z=0", "l=aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
fn users() -> Vec<Vec<u8>> {
    let mut v = alpha::tricky();
    for n in [2usize, 31, 32, 33, 64, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 16383, 16384, 65535, 65536, 70000] {
        v.push(alpha::base(n, 4));
        v.push(vec![0; n]);
        v.push(vec![0xff; n]);
    }
    v
}
fn points() -> Vec<P> {
    let mut v = vec![P::identity(), B, -B, B + B, B * -Scalar::from(2u8)];
    v.extend((0..12).map(rf::pt));
    v
}
fn scalars() -> Vec<Scalar> {
    let mut v = vec![Scalar::ZERO];
    v.extend(crate::a08::scalars());
    v
}
enum Msg<'a, const K: usize> {
    C(ClientMessage<'a, K>),
    S(ServerMessage<'a, K>),
}
fn groups() -> [String; 5] {
    ["ristretto255".into(), "".into(), "gruppe-\u{fc}".into(), "x".repeat(127), "y".repeat(300)]
}
/// all messages: every field takes each of its values once while the others rotate through theirs
fn messages<'a, const K: usize>(us: &'a [Vec<u8>], gs: &'a [String]) -> Vec<Msg<'a, K>> {
    let (ss, ps, pts, sc) = (salts(), PARAMS, points(), scalars());
    let max = us.len().max(ss.len());
    let mut o = vec![];
    for i in 0..max {
        let u: &'a [u8] = &us[i % us.len()];
        let (s, p, pt, q) = (ss[i % ss.len()].clone(), par(ps[i % ps.len()]), pts[i % pts.len()], sc[i % sc.len()]);
        let g = gs[i % gs.len()].as_str();
        let pt2 = pts[(i * 5 + 1) % pts.len()];
        let mut non = [0u8; K];
        let mut au = [0u8; 64];
        for (k, b) in non.iter_mut().enumerate() {
            *b = [0, 0xff, 0x80, k as u8, (k * i) as u8][i % 5];
        }
        for (k, b) in au.iter_mut().enumerate() {
            *b = [0, 0xff, 0x80, k as u8, (k * i) as u8][i % 5];
        }
        o.push(Msg::C(ClientMessage::Username(u)));
        o.push(Msg::C(ClientMessage::StrongUsername { username: u, blinded: pt }));
        o.push(Msg::C(ClientMessage::Registration { username: u, salt: s.clone(), params: p.clone(), verifier: pt2 }));
        o.push(Msg::C(ClientMessage::StrongRegistration { username: u, secret_exponent: q, params: p.clone(), verifier: pt }));
        o.push(Msg::S(ServerMessage::AugmentationInfo { group: g, x_pub: pt, salt: s, pbkdf_params: p.clone() }));
        o.push(Msg::S(ServerMessage::StrongAugmentationInfo { group: g, x_pub: pt, blinded_salt: pt2, pbkdf_params: p }));
        if i < 20 {
            o.push(Msg::C(ClientMessage::Nonce(non)));
            o.push(Msg::S(ServerMessage::Nonce(non)));
            o.push(Msg::C(ClientMessage::PublicKey(pt)));
            o.push(Msg::S(ServerMessage::PublicKey(pt2)));
            o.push(Msg::C(ClientMessage::Authenticator(au)));
            o.push(Msg::S(ServerMessage::Authenticator(au)));
        }
    }
    o
}
fn encode<const K: usize>(f: F, m: &Msg<K>) -> Result<(Side, N, Vec<u8>), Fail> {
    Ok(match m {
        Msg::C(m) => (Side::C, nc(m), ser(f, m)?),
        Msg::S(m) => (Side::S, ns(m), ser(f, m)?),
    })
}
fn size<const K: usize>(ctx: &Ctx, deep: bool) {
    let (us, gs) = (users(), groups());
    let count = messages::<K>(&us, &gs).len();
    ctx.par(&format!("messages/K1={K}"), count, |w, j| {
        let all = messages::<K>(&us, &gs);
        w.case(&format!("{j}"), |st| {
            let mut seen = std::collections::HashMap::new();
            for f in FS {
                let (side, m, b) = encode(f, &all[j])?;
                st.step();
                match decode::<K>(side, f, &b) {
                    Ok((x, again)) => {
                        ensure!(x == m, "{f:?}: {} is {x:?} after the round trip, was {m:?}", m.kind);
                        ensure!(again == b, "{f:?}: {} encodes differently after the round trip", m.kind);
                    }
                    Err(_) => return Err(Fail::from(format!("{f:?}: {} ({} bytes) cannot be read by the peer", m.kind, b.len()))),
                }
                st.outcome(m.kind);
                st.state(&b);
                st.trace();
                seen.insert(f as u8, (m, b.clone()));
                if !deep {
                    continue;
                }
                // truncations, extensions
                let step = (b.len() / 1000).max(1);
                for l in (0..b.len()).step_by(step) {
                    altered::<K>(st, side, f, &b[..l])?;
                }
                for t in [&b"\0"[..], b"\x01\0\0\0", &[0xff; 40]] {
                    altered::<K>(st, side, f, &[&b[..], t].concat())?;
                }
                // the other enum
                altered::<K>(st, if side == Side::C { Side::S } else { Side::C }, f, &b)?;
                // every single byte
                let quick = !ctx.thorough && j % 7 != 0;
                let limit = ctx.t(330, 1200);
                if b.len() > limit {
                    continue;
                }
                for i in 0..b.len() {
                    for v in 0..=255u8 {
                        if v == b[i] || (quick && ![b[i] ^ 1, b[i] ^ 0x80, 0, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x20].contains(&v)) {
                            continue;
                        }
                        let mut x = b.clone();
                        x[i] = v;
                        altered::<K>(st, side, f, &x)?;
                    }
                }
            }
            Ok(())
        });
    });
}
/// replace every point and scalar of every kind of message by special encodings
fn encodings(ctx: &Ctx) {
    let mut sp: Vec<[u8; 32]> = vec![];
    let add = |b: &[u8; 32], k: u16| {
        let mut c = k;
        let mut o = *b;
        for x in o.iter_mut() {
            let s = *x as u16 + (c & 0xff);
            *x = s as u8;
            c = (c >> 8) + (s >> 8);
        }
        o
    };
    for k in 0..ctx.t(200, 2000) {
        sp.push(add(&[0; 32], k));
        sp.push(add(&MODULUS, k % 19));
        sp.push(add(&order(), k));
        let mut hi = add(&[0; 32], k);
        hi[31] |= 0x80;
        sp.push(hi);
        let mut m = add(&MODULUS, k);
        m[31] ^= 0x80;
        sp.push(m);
        let mut e = rf::enc(&rf::pt(k as u64));
        sp.push(e);
        e[31] ^= 0x80;
        sp.push(e);
        e[31] ^= 0x80;
        e[0] ^= 1;
        sp.push(e);
        // p - x: the negative representative
        let (mut n, mut br) = ([0u8; 32], 0i16);
        e[0] ^= 1;
        for i in 0..32 {
            let d = MODULUS[i] as i16 - e[i] as i16 - br;
            n[i] = d as u8;
            br = (d < 0) as i16;
        }
        sp.push(n);
    }
    sp.push([0xff; 32]);
    let (us, gs) = (vec![b"user".to_vec()], groups());
    let msgs = messages::<16>(&us, &gs).len().min(12);
    ctx.par("encodings", msgs * 16, |w, j| {
        let all = messages::<16>(&us, &gs);
        w.case(&format!("{j}"), |st| {
            for f in FS {
                let (side, m, b) = encode(f, &all[j % msgs])?;
                for old in m.points.iter().chain(&m.scalars) {
                    let Some(at) = b.windows(32).position(|w| w == old) else { return Err(Fail::from("the point is not in the encoding")) };
                    for s in sp.iter().skip(j / msgs).step_by(16) {
                        let mut x = b.clone();
                        x[at..at + 32].copy_from_slice(s);
                        altered::<16>(st, side, f, &x)?;
                    }
                }
            }
            Ok(())
        });
    });
}
/// is a text a salt, is it a parameter string (as the password-hash crate has it)
fn legal(kind: usize, t: &str) -> bool {
    match kind {
        0 => SaltString::from_b64(t).is_ok(),
        1 => t.parse::<password_hash::ParamsString>().is_ok(),
        _ => true,
    }
}
/// which text field (0 salt, 1 parameters, 2 group) is the i-th
fn text_kinds(kind: &str) -> &'static [usize] {
    match kind {
        "c.Registration" => &[0, 1],
        "c.StrongRegistration" => &[1],
        "s.AugmentationInfo" => &[2, 0, 1],
        "s.StrongAugmentationInfo" => &[2, 1],
        _ => &[],
    }
}
/// replace the texts of a message by other ones: refused exactly if it is no salt or parameter string
fn texts(ctx: &Ctx) {
    let mut ts: Vec<String> = vec![];
    let alphabet = "aZ0/+=.,-_$:*!\"\\ \n\t\0\x7f\u{e9}\u{20ac}";
    let al: Vec<String> = alphabet.chars().map(|c| c.to_string()).collect();
    ts.push(String::new());
    // all short ones
    let mut layer = ts.clone();
    for _ in 0..ctx.t(3, 4) {
        layer = layer.iter().flat_map(|t| al.iter().map(move |a| format!("{t}{a}"))).collect();
        ts.extend(layer.clone());
    }
    // every character at the start, in the middle and at the end of good ones
    let good: Vec<String> = salts().iter().map(|s| s.as_str().to_string()).chain(PARAMS.iter().map(|s| s.to_string())).collect();
    for g in &good {
        ts.push(g.clone());
        for c in (0..=255u8).map(char::from).chain(['\u{20ac}', '\u{10ffff}', '\u{212a}', '\u{ff1d}']) {
            let mut at: Vec<usize> = vec![0, 1, 2, 3, g.len() / 2, g.len().max(3) - 3, g.len().max(2) - 2, g.len().max(1) - 1, g.len()];
            at.retain(|i| *i <= g.len());
            at.dedup();
            for i in at {
                ts.push(format!("{}{c}{}", &g[..i], &g[i..]));
                ts.push(format!("{}{c}{}", &g[..i], &g[(i + 1).min(g.len())..]));
                for n in 2..5 {
                    // padding and the like
                    if c.is_ascii_punctuation() || c.is_ascii_whitespace() || c == '\0' {
                        ts.push(format!("{}{}{}", &g[..i], c.to_string().repeat(n), &g[(i + n).min(g.len())..]));
                        ts.push(format!("{}{}{}", &g[..i], c.to_string().repeat(n), &g[i..]));
                    }
                }
            }
        }
        for n in 0..=g.len() {
            ts.extend([g[..n].to_string(), g[n..].to_string()]);
        }
        ts.extend([g.to_uppercase(), g.to_lowercase(), format!("{g},{g}"), format!("{g}{g}")]);
    }
    for n in 0..200 {
        ts.extend(["A".repeat(n), format!("a={}", "b".repeat(n)), format!("{}=b", "a".repeat(n))]);
        ts.push((0..n.min(20)).map(|i| format!("p{i}={i}")).collect::<Vec<_>>().join(","));
        ts.push("a=1".repeat(n));
        ts.push(vec!["a=1"; n].join(","));
    }
    ts.sort();
    ts.dedup();
    let chunk = ts.len().div_ceil(64);
    let (us, gs) = (vec![b"user".to_vec()], groups());
    let first = messages::<16>(&us, &gs).len().min(24);
    ctx.par("texts", 64 * 2, |w, j| {
        let all = messages::<16>(&us, &gs);
        let f = FS[j % 2];
        w.case(&format!("{f:?}/{}", j / 2), |st| {
            for m in &all[..first] {
                let (side, m, b) = encode(f, m)?;
                for (i, old) in m.text.iter().enumerate() {
                    // the encoding of a text: its length, its bytes
                    let enc = |t: &str| match f {
                        F::Bincode => [&(t.len() as u64).to_le_bytes()[..], t.as_bytes()].concat(),
                        F::Postcard => {
                            let (mut n, mut o) = (t.len(), vec![]);
                            while n >= 128 {
                                o.push(n as u8 | 128);
                                n >>= 7;
                            }
                            o.push(n as u8);
                            o.extend(t.as_bytes());
                            o
                        }
                    };
                    let eo = enc(old);
                    // the empty parameters and the empty group may occur elsewhere
                    if old.is_empty() {
                        continue;
                    }
                    let Some(at) = b.windows(eo.len()).position(|w| w == eo) else { return Err(Fail::from("the text is not in the encoding")) };
                    let kind = text_kinds(m.kind)[i];
                    for t in ts.iter().skip(j / 2 * chunk).take(chunk) {
                        let x = [&b[..at], &enc(t)[..], &b[at + eo.len()..]].concat();
                        st.step();
                        st.state(&(kind, t));
                        let want = legal(kind, t);
                        let mut mm = m.clone();
                        mm.text[i] = t.clone();
                        match decode::<16>(side, f, &x) {
                            Ok((n, again)) => {
                                ensure!(want, "{f:?} {}: the malformed text {t:?} is accepted as {:?}", m.kind, n.text[i]);
                                ensure!(n == mm && again == x, "{f:?} {}: the text {t:?} is decoded as {:?}", m.kind, n.text);
                                st.outcome("other text accepted");
                            }
                            Err(Some(e)) => return Err(e),
                            Err(None) => {
                                ensure!(!want, "{f:?} {}: the text {t:?} is refused", m.kind);
                                st.outcome("malformed text refused");
                            }
                        }
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
}
pub fn a07(ctx: &Ctx) {
    ctx.bound("all 12 message kinds with about 105 user names (lengths to 70000), 37 salts, 9 parameter strings, 17 points, 16 scalars, 5 groups, nonce sizes 0,1,8,16,32,64,100, in postcard and bincode");
    ctx.bound("all truncations; every byte of encodings up to 330 (thorough 1200) bytes set to all 256 values for every 7th (thorough every) message and to 7 values for the others; about 1800 (thorough 18000) special encodings in place of every point and scalar");
    ctx.bound("in place of every salt, parameter string and group: all texts of up to 3 (thorough 4) characters of an alphabet of 21, every character inserted or put at 9 places of 46 legal ones, repeated ones, all prefixes and suffixes, long ones: refused exactly if the password-hash crate refuses them, otherwise decoded as they are");
    ctx.assume("the serde implementations of postcard and bincode");
    size::<16>(ctx, true);
    size::<0>(ctx, false);
    size::<1>(ctx, false);
    size::<8>(ctx, false);
    size::<32>(ctx, ctx.thorough);
    size::<64>(ctx, false);
    size::<100>(ctx, ctx.thorough);
    encodings(ctx);
    texts(ctx);
}
