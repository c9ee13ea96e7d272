//! X03: nothing a peer sends makes a party panic or hang.
use crate::dig::*;
use crate::grp::*;
use crate::hasher::{par, Out, Par, Rec};
use crate::party::*;
use crate::refm::{self as rf, B};
use crate::toy::{Mul, Toy};
use aucpace::{AuCPaceClient, ClientMessage, ServerMessage};
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as BP, RistrettoPoint as P, Scalar};
use digest::Digest;
use mccore::rng::{stream_byte, Tape};
use mccore::{alpha, ensure, guard, hex, show, Ctx, Fail, Stats, R};
use password_hash::{ParamsString, SaltString};
use sha1::Sha1;
use sha2::{Sha256, Sha384, Sha512};
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
use srp::client::SrpClient;
use srp::server::SrpServer;
use srp::types::SrpGroup;
use std::time::Instant;

/// returns or errs within the time a legitimate call needs many times over
fn call<T>(st: &mut Stats, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
    st.step();
    let t = Instant::now();
    let r = guard(f).map_err(|e| Fail::from(format!("{}: {e}", what())))?;
    ensure!(t.elapsed().as_secs() < 60, "{}: took {:?}", what(), t.elapsed());
    Ok(r)
}

// ---------------------------------------------------------------- SPAKE2
fn sp_start<G: Group>(role: u8, pw: &[u8]) -> (Spake2<G>, Vec<u8>) {
    let (p, a, b) = (Password::new(pw), Identity::new(b"idA"), Identity::new(b"idB"));
    match role {
        0 => Spake2::<G>::start_a_with_rng(&p, &a, &b, Tape::new(1)),
        1 => Spake2::<G>::start_b_with_rng(&p, &a, &b, Tape::new(2)),
        _ => Spake2::<G>::start_symmetric_with_rng(&p, &a, Tape::new(3)),
    }
}
fn sp_one<G: Group>(st: &mut Stats, role: u8, m: &[u8]) -> R {
    let (s, _) = sp_start::<G>(role, b"password");
    let r = call(st, &|| format!("finish of role {role} on {}", show(m)), || s.finish(m))?;
    st.outcome(match r {
        Ok(_) => "spake2: key",
        Err(_) => "spake2: error",
    });
    st.trace();
    Ok(())
}
const SIDE: [u8; 3] = [b'B', b'A', b'S'];
fn le(v: &B) -> [u8; 32] {
    let mut o = [0; 32];
    let b = v.to_bytes_le();
    o[..b.len().min(32)].copy_from_slice(&b[..b.len().min(32)]);
    o
}
fn ed_bodies(ctx: &Ctx) -> Vec<[u8; 32]> {
    let p = (B::from(1u8) << 255u32) - 19u8;
    let mut v = vec![];
    let (lo, hi) = (ctx.t(3000u32, 70000), ctx.t(600u32, 4000));
    for i in 0..lo {
        v.push(le(&B::from(i)));
    }
    for i in 0..hi {
        v.push(le(&(&p - 1u8 - i)));
    }
    for i in 0..19u8 {
        v.push(le(&(&p + i)));
    }
    // order 8 points
    for h in ["26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"] {
        let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
        let mut a = [0; 32];
        a.copy_from_slice(&b);
        v.push(a);
    }
    type E = Ed25519Group;
    let mut els = vec![E::const_m(), E::const_n(), E::const_s()];
    for i in 0..8u64 {
        els.push(E::basepoint_mult(&curve25519_dalek::Scalar::from(i)));
    }
    for e in els.clone() {
        els.push(E::scalarmult(&e, &-Scalar::ONE));
        els.push(E::scalarmult(&e, &E::hash_to_scalar(b"password")));
    }
    for e in els {
        let mut a = [0; 32];
        a.copy_from_slice(&E::element_to_bytes(&e));
        v.push(a);
    }
    let mut c = None;
    for k in 0..ctx.t(256u64, 4000) {
        let mut a = [0; 32];
        for (i, b) in a.iter_mut().enumerate() {
            *b = stream_byte(99, k as usize * 32 + i, &mut c);
        }
        v.push(a);
    }
    let n = v.len();
    for i in 0..n {
        let mut a = v[i];
        a[31] ^= 0x80;
        v.push(a);
    }
    v
}
fn spake(ctx: &Ctx) {
    type E = Ed25519Group;
    let bodies = ed_bodies(ctx);
    ctx.bound(format!("SPAKE2 finish on Ed25519, all three roles: every length 0..=300 and block-boundary lengths up to 65537 with 5 fillings; every first byte; {} bodies (small and large y, non-canonical, small order, M/N/S and their multiples, hashed strings, with and without sign bit); every single-byte substitution of an honest message", bodies.len()));
    let chunk = 200;
    ctx.par("spake2-bodies", bodies.len().div_ceil(chunk) * 3, |w, j| {
        let role = (j % 3) as u8;
        let c = j / 3;
        w.case(&format!("{role}/{c}"), |st| {
            for b in bodies.iter().skip(c * chunk).take(chunk) {
                let m = [&[SIDE[role as usize]][..], b].concat();
                sp_one::<E>(st, role, &m)?;
                st.state(&(role, b));
            }
            Ok(())
        })
    });
    ctx.par("spake2-lengths", 3, |w, role| {
        w.case(&format!("{role}"), |st| {
            let honest = sp_start::<E>([1, 0, 2][role], b"password").1;
            for l in alpha::lengths(300) {
                for f in 0..5 {
                    let mut m: Vec<u8> = match f {
                        0 => vec![0; l],
                        1 => vec![0xff; l],
                        2 => alpha::base(l, 3),
                        3 => honest.iter().copied().cycle().take(l).collect(),
                        _ => honest.iter().copied().chain(std::iter::repeat(0)).take(l).collect(),
                    };
                    sp_one::<E>(st, role as u8, &m)?;
                    if l > 0 {
                        m[0] = SIDE[role];
                        sp_one::<E>(st, role as u8, &m)?;
                    }
                    st.state(&(role, l, f));
                }
            }
            Ok(())
        })
    });
    ctx.par("spake2-bytes", 3 * 33, |w, j| {
        let (role, pos) = (j % 3, j / 3);
        w.case(&format!("{role}/{pos}"), |st| {
            let honest = sp_start::<E>([1, 0, 2][role], b"password").1;
            for v in 0..=255u8 {
                let mut m = honest.clone();
                m[pos] = v;
                sp_one::<E>(st, role as u8, &m)?;
                let mut z = vec![SIDE[role]; 33];
                z[pos] = v;
                sp_one::<E>(st, role as u8, &z)?;
                st.state(&(role, pos, v));
            }
            Ok(())
        })
    });
    fn toy<G: Group>(ctx: &Ctx, name: &str) {
        ctx.par(&format!("spake2-toy/{name}"), 3, |w, role| {
            w.case(&format!("{role}"), |st| {
                sp_one::<G>(st, role as u8, &[])?;
                for a in 0..=255u8 {
                    sp_one::<G>(st, role as u8, &[a])?;
                    for b in 0..=255u8 {
                        sp_one::<G>(st, role as u8, &[a, b])?;
                        sp_one::<G>(st, role as u8, &[SIDE[role], a, b])?;
                        st.state(&(name, role, a, b));
                    }
                }
                Ok(())
            })
        });
    }
    ctx.bound("SPAKE2 finish on toy groups: all messages of up to 2 bytes, all 3-byte messages with the right side byte");
    toy::<Toy<5, 1, 0, 0>>(ctx, "Z5");
    toy::<Toy<251, 1, 0, 0>>(ctx, "Z251");
    toy::<Toy<23, 2, 1, 2>>(ctx, "Z23L2");
    toy::<Mul<47, 5, 1>>(ctx, "F47");
}

// ---------------------------------------------------------------- SRP
fn publics(g: &SrpGroup, extra: &[B]) -> Vec<Vec<u8>> {
    let n = &g.n;
    let len = n.to_bytes_be().len();
    let one = B::from(1u8);
    let mut vals: Vec<B> = vec![B::default(), one.clone(), B::from(2u8), g.g.clone(), n - 1u8, n - 2u8, n.clone(), n + 1u8, n * 2u8, n * 2u8 - 1u8, n * 2u8 + 1u8, n * 255u8, n * n, n * n + 1u8, (n - 1u8) >> 1u32];
    for k in [0u32, 7, 8, 9] {
        let b = (8 * len) as u32;
        vals.push(&one << (b + k));
        vals.push((&one << (b + k)) - 1u8);
        vals.push(&one << b.saturating_sub(k));
    }
    vals.extend_from_slice(extra);
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for x in vals {
        let b = x.to_bytes_be();
        v.push(rf::pad(&x, len));
        v.push(rf::pad(&x, len + 1));
        v.push(rf::pad(&x, 2 * len + 3));
        v.push(b);
    }
    for l in [1, 2, len.saturating_sub(1), len, len + 1, 2 * len, 10 * len, 5000] {
        v.push(vec![0; l]);
        v.push(vec![0xff; l]);
        v.push(vec![0x80; l]);
        v.push(alpha::base(l, 7));
    }
    v.sort();
    v.dedup();
    v
}
fn proofs(good: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for l in 0..=max {
        v.push(vec![0; l]);
        v.push(vec![0xff; l]);
        v.push(good.iter().copied().cycle().take(l).collect());
        v.push(good.iter().copied().chain(std::iter::repeat(0)).take(l).collect());
    }
    v.push(vec![0; 70000]);
    for i in 0..good.len() {
        let mut m = good.to_vec();
        m[i] ^= 1;
        v.push(m);
    }
    v
}
fn srp_client<D: Digest>(st: &mut Stats, g: &SrpGroup, a: &[u8], salt: &[u8], bp: &[u8], deep: bool) -> R {
    let c = SrpClient::<D>::new(g);
    let r = call(st, &|| format!("client process_reply salt={} B={}", show(salt), show(bp)), || c.process_reply(a, b"alice", b"password", salt, bp))?;
    st.outcome(if r.is_ok() { "srp client: session" } else { "srp client: refused" });
    if let (Ok(v), true) = (r, deep) {
        let good = call(st, &|| "proof".into(), || (v.key().to_vec(), v.proof().to_vec()))?.1;
        for p in proofs(&good, 150) {
            let r = call(st, &|| format!("verify_server({})", show(&p)), || v.verify_server(&p))?;
            st.outcome(if r.is_ok() { "srp client: proof accepted" } else { "srp client: proof refused" });
        }
    }
    st.trace();
    Ok(())
}
fn srp_server<D: Digest>(st: &mut Stats, g: &SrpGroup, b: &[u8], v: &[u8], ap: &[u8], deep: bool) -> R {
    let s = SrpServer::<D>::new(g);
    call(st, &|| format!("server compute_public_ephemeral v={}", show(v)), || s.compute_public_ephemeral(b, v))?;
    let r = call(st, &|| format!("server process_reply v={} A={}", show(v), show(ap)), || s.process_reply(b, v, ap))?;
    st.outcome(if r.is_ok() { "srp server: session" } else { "srp server: refused" });
    if let (Ok(x), true) = (r, deep) {
        let good = call(st, &|| "proof".into(), || (x.key().to_vec(), x.proof().to_vec()))?.1;
        for p in proofs(&good, 150) {
            let r = call(st, &|| format!("verify_client({})", show(&p)), || x.verify_client(&p))?;
            st.outcome(if r.is_ok() { "srp server: proof accepted" } else { "srp server: proof refused" });
        }
    }
    st.trace();
    Ok(())
}
fn zero_base<D: Digest>(g: &SrpGroup, salt: &[u8]) -> Vec<B> {
    // B = k g^x and its neighbours: the client's base is 0, 1 or -1
    let kv = rf::k::<D>(g) * rf::v::<D>(g, &rf::x::<D>(b"alice", b"password", salt)) % &g.n;
    vec![kv.clone(), &kv + 1u8, (&kv + &g.n - 1u8) % &g.n, &kv + &g.n]
}
fn srp_all<D: Digest>(ctx: &Ctx, name: &str, groups: &[(String, SrpGroup)]) {
    ctx.par(&format!("srp-specials/{name}"), groups.len() * 2, |w, j| {
        let (l, g) = &groups[j / 2];
        let big = g.n.bits() > 1100;
        w.case(&format!("{l}/{}", ["client", "server"][j % 2]), |st| {
            let ps = publics(g, &zero_base::<D>(g, b"salt"));
            if j % 2 == 0 {
                for (i, b) in ps.iter().enumerate() {
                    for a in [&b"\0"[..], b"\x01", b"secret"] {
                        srp_client::<D>(st, g, a, b"salt", b, !big && i % 8 == 3)?;
                    }
                    st.state(&(name, l, b));
                }
                if !big {
                    for n in alpha::lengths(200) {
                        for f in [0u8, 0xff, 0x3a] {
                            srp_client::<D>(st, g, b"secret", &vec![f; n], &ps[ps.len() / 2], false)?;
                        }
                    }
                }
            } else {
                let vs: Vec<&Vec<u8>> = if big { ps.iter().step_by(9).collect() } else { ps.iter().collect() };
                for v in &vs {
                    for a in ps.iter().step_by(if big { 7 } else { 1 }) {
                        srp_server::<D>(st, g, b"secret", v, a, false)?;
                    }
                    for b in [&b""[..], b"\0", b"\x01"] {
                        srp_server::<D>(st, g, b, v, &ps[ps.len() / 2], false)?;
                    }
                    st.state(&(name, l, v));
                }
                for a in ps.iter().step_by(8) {
                    srp_server::<D>(st, g, b"secret", b"\x05", a, !big)?;
                }
            }
            Ok(())
        })
    });
}
fn srp_small<D: Digest>(ctx: &Ctx, name: &str, n: u64) {
    let g = g(n, root(n));
    ctx.par(&format!("srp-all-values/{name}/N{n}"), 256, |w, hi| {
        w.case(&format!("{hi}"), |st| {
            for lo in 0..=255u8 {
                let m = [hi as u8, lo];
                srp_client::<D>(st, &g, b"\x07", b"salt", &m, false)?;
                for v in [&b""[..], b"\0", b"\x02"] {
                    srp_server::<D>(st, &g, b"\x07", v, &m, false)?;
                    srp_server::<D>(st, &g, b"\x07", &m, b"\x03", false)?;
                }
                if hi == 0 {
                    srp_client::<D>(st, &g, b"\x07", b"salt", &[lo], true)?;
                    srp_server::<D>(st, &g, b"\x07", b"\x02", &[lo], true)?;
                }
                st.state(&(name, n, m));
            }
            Ok(())
        })
    });
}
fn srp(ctx: &Ctx) {
    ctx.bound("SRP: both parties on every peer value of up to 2 bytes (N = 5, 7, 23, 2879); special values around multiples of N, powers of two, k*g^x, every width, empty and 5000-byte values, in toy, medium and built-in groups, as B, as A and as verifier; salts and proofs of every length");
    srp_small::<Sha256>(ctx, "sha256", 23);
    srp_small::<Sha1>(ctx, "sha1", 2879);
    srp_small::<T1>(ctx, "t1", 7);
    srp_small::<Zero1>(ctx, "zero1", 5);
    if ctx.thorough {
        srp_small::<Sha512>(ctx, "sha512", 23);
        srp_small::<Bit1>(ctx, "bit1", 5);
        srp_small::<Ff2>(ctx, "ff2", 7);
        srp_small::<Wide128>(ctx, "wide128", 2879);
    }
    let mut small: Vec<(String, SrpGroup)> = [(5u64, 2u64), (7, 3), (23, 5), (2879, root(2879))].iter().map(|(n, gg)| (format!("N{n}"), g(*n, *gg))).collect();
    small.extend(medium().into_iter().step_by(ctx.t(4, 1)).map(|g| (label(&g), g)));
    let mut all = small.clone();
    for (n, bits, g) in builtin() {
        if bits <= ctx.t(2048, 8192) {
            all.push((n.to_string(), SrpGroup { n: g.n.clone(), g: g.g.clone() }));
        }
    }
    srp_all::<Sha256>(ctx, "sha256", &all);
    srp_all::<Sha1>(ctx, "sha1", &small);
    srp_all::<Sha512>(ctx, "sha512", &small);
    srp_all::<Wide128>(ctx, "wide128", &small);
    srp_all::<T1>(ctx, "t1", &small);
    srp_all::<Ff2>(ctx, "ff2", &small);
    if ctx.thorough {
        srp_all::<Sha384>(ctx, "sha384", &small);
        srp_all::<Zero1>(ctx, "zero1", &small);
        srp_all::<Bit1>(ctx, "bit1", &small);
    }
}

// ---------------------------------------------------------------- AuCPace
const SALTCHARS: &[u8] = b"aZ09+/.-";
fn salts() -> Vec<SaltString> {
    let mut v = vec![];
    for n in 0..=70 {
        for c in SALTCHARS {
            let s: String = std::iter::repeat_n(*c as char, n).collect();
            v.extend(SaltString::from_b64(&s).ok());
            let s: String = format!("{}{}", alpha::base(n, *c).iter().map(|b| if *b == b'_' { 'x' } else { *b as char }).collect::<String>(), *c as char);
            v.extend(SaltString::from_b64(&s).ok());
        }
    }
    v
}
fn paramss() -> Vec<ParamsString> {
    let long = format!("l={}", "a".repeat(63));
    let mut v: Vec<ParamsString> = ["", "a=1", "m=19456,t=2,p=1", "ln=17,r=8,p=1", "a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8", "i=4294967295", "x=AAAA/+.-", "z=0", "k=", "ln=0,r=0,p=0", "ln=63,r=4294967295,p=4294967295"].iter().map(|s| par(s)).collect();
    v.push(par(&long));
    v
}
fn points(own: &[P]) -> Vec<P> {
    let mut v = vec![P::default(), BP, -BP, BP * Scalar::from(2u8), BP * -Scalar::from(2u8), BP * Scalar::from(8u8).invert()];
    for i in 0..6u8 {
        v.push(P::from_uniform_bytes(&[i * 51; 64]));
    }
    for o in own {
        v.extend([*o, -o, o + o, o - BP]);
    }
    v
}
/// alterations of a message
fn alters(m: &M, seen: &[P]) -> Vec<M> {
    let mut v = vec![];
    match m {
        M::Nonce(n) => {
            let k = n.len();
            v.extend([M::Nonce(vec![0; k]), M::Nonce(vec![0xff; k]), M::Nonce(alpha::base(k, 1)), M::Nonce(n.iter().rev().copied().collect())]);
        }
        M::User(u, b) => {
            let mut us = alpha::tricky();
            for n in [2usize, 31, 32, 63, 64, 65, 127, 128, 129, 199, 200, 201, 255, 256, 257, 398, 399, 400, 401, 511, 512, 513, 1000, 65535, 65536, 100_000] {
                us.push(alpha::base(n, 1));
                us.push(vec![0xff; n]);
            }
            us.extend(alpha::specials());
            us.extend(alpha::multibyte().into_iter().step_by(5));
            v.extend(us.into_iter().map(|u| M::User(u, *b)));
            if b.is_some() {
                v.extend(points(seen).into_iter().map(|p| M::User(u.clone(), Some(p))));
                v.extend(points(&[]).into_iter().map(|p| M::User(b"nobody".to_vec(), Some(p))));
            }
        }
        M::Aug { x_pub, salt, blinded, params, group } => {
            let mk = |x: P, s: &Option<SaltString>, b: Option<P>, p: &ParamsString| M::Aug { x_pub: x, salt: s.clone(), blinded: b, params: p.clone(), group: group.clone() };
            v.extend(points(seen).into_iter().map(|p| mk(p, salt, *blinded, params)));
            v.extend(paramss().iter().map(|p| mk(*x_pub, salt, *blinded, p)));
            if salt.is_some() {
                v.extend(salts().into_iter().map(|s| mk(*x_pub, &Some(s), None, params)));
            }
            if blinded.is_some() {
                v.extend(points(seen).into_iter().map(|p| mk(*x_pub, &None, Some(p), params)));
                v.push(mk(P::default(), &None, Some(P::default()), params));
            }
        }
        M::Pub(_) => v.extend(points(seen).into_iter().map(M::Pub)),
        M::Auth(a) => {
            v.extend([M::Auth([0; 64]), M::Auth([0xff; 64])]);
            for i in 0..512 {
                let mut b = *a;
                b[i / 8] ^= 1 << (i % 8);
                v.push(M::Auth(b));
            }
        }
    }
    v
}
struct Alt<'a> {
    /// (index of the delivered message, which alteration)
    at: &'a [(usize, usize)],
}
/// one run with the peer's messages replaced; returns the number of alterations available per delivery
fn au_run(st: &mut Stats, db: &Db, cc: &CCfg, sc: &SCfg, alt: &Alt) -> Result<Vec<usize>, Fail> {
    use sha2::Sha512 as D;
    let mut base = Base::<D, 16>::new(Tape::new(3));
    let mut c = Cli::<D, 16>::new(cc, Tape::new(1));
    let mut s = Srv::<D, 16>::new(sc, db, Tape::new(2));
    let mut q = std::collections::VecDeque::new();
    let mut seen: Vec<P> = vec![];
    let mut opts = vec![];
    let r = call(st, &|| "server start".into(), || s.start(&mut base))?;
    q.extend(r.unwrap_or_default().into_iter().map(|m| (false, m)));
    let r = call(st, &|| "client start".into(), || c.start())?;
    q.extend(r.unwrap_or_default().into_iter().map(|m| (true, m)));
    while let Some((to_server, m)) = q.pop_front() {
        let n = opts.len();
        match &m {
            M::Pub(p) | M::User(_, Some(p)) => seen.push(*p),
            M::Aug { x_pub, blinded, .. } => {
                seen.push(*x_pub);
                seen.extend(*blinded);
            }
            _ => {}
        }
        let a = alters(&m, &seen);
        opts.push(a.len());
        let m = match alt.at.iter().find(|x| x.0 == n) {
            Some((_, k)) => a[*k].clone(),
            None => m,
        };
        if (if to_server { s.err } else { c.err }).is_some() {
            continue;
        }
        let r = call(st, &|| format!("message {n} {} to the {}", mshow(&m), if to_server { "server" } else { "client" }), || if to_server { s.recv(&m) } else { c.recv(&m) })?;
        match r {
            Ok(o) => q.extend(o.into_iter().map(|m| (!to_server, m))),
            Err(e) => {
                st.outcome(&format!("aucpace: {e:?}"));
                // the peer of a party that gave up hears nothing, or anything
            }
        }
    }
    if c.key.is_some() || s.key.is_some() {
        st.outcome("aucpace: key");
    }
    st.trace();
    Ok(opts)
}
fn mshow(m: &M) -> String {
    match m {
        M::Nonce(n) => format!("nonce {}", show(n)),
        M::User(u, b) => format!("user {} blinded {}", show(u), b.map(|b| hex(b.compress().as_bytes())).unwrap_or_default()),
        M::Aug { x_pub, salt, blinded, params, .. } => format!(
            "info X={} salt={:?} blinded={} params={}",
            hex(x_pub.compress().as_bytes()),
            salt.as_ref().map(|s| s.as_str()),
            blinded.map(|b| hex(b.compress().as_bytes())).unwrap_or_default(),
            params.as_str()
        ),
        M::Pub(p) => format!("point {}", hex(p.compress().as_bytes())),
        M::Auth(a) => format!("authenticator {}", show(a)),
    }
}
fn au(ctx: &Ctx) {
    let depth = ctx.t(1, 2);
    ctx.bound(format!("AuCPace: 4 variants x explicit/implicit x alloc/buffer x known/unknown user x derived/agreed session id; every message replaced by every element of its alphabet (points incl. neutral and echoed ones, user names up to 100000 bytes, salts of every length, parameter strings, all single-bit changes of authenticators), {depth} replaced message(s) per run, the run going on afterwards"));
    let mut cfgs = vec![];
    for v in VS {
        for bits in 0..16u8 {
            cfgs.push((v, bits));
        }
    }
    ctx.par("aucpace-messages", cfgs.len(), |w, j| {
        let (v, bits) = cfgs[j];
        let user: &[u8] = if bits & 4 == 0 { b"alice" } else { b"nobody" };
        let pre = (bits & 8 != 0).then(|| b"a session id that is long enough".to_vec());
        let cc = CCfg { user: user.to_vec(), pw: b"password".to_vec(), ci: b"ci".to_vec(), pre: pre.clone(), strong: v.strong(), alloc: bits & 1 != 0, implicit: bits & 2 != 0, out: Out::Len(32) };
        let sc = SCfg { v, ci: b"ci".to_vec(), pre, implicit: bits & 2 != 0 };
        let mut db = Db::default();
        let mut cl = AuCPaceClient::<Sha512, Rec, Tape, 16>::new(Tape::new(8));
        if let Ok(r) = register(&mut cl, v.strong(), false, b"alice", b"password", Par { p: par("m=1"), fail: None }, Rec::new(Out::Len(32))) {
            db.put(&r);
        }
        let (x, xp) = Base::<Sha512, 16>::new(Tape::new(9)).generate_long_term_keypair();
        db.keys.insert(b"alice".to_vec(), (x, xp));
        let name = format!("{v:?}/{bits}");
        let mut first = vec![];
        w.case(&format!("{name}/honest"), |st| {
            first = au_run(st, &db, &cc, &sc, &Alt { at: &[] })?;
            Ok(())
        });
        if first.is_empty() {
            first = vec![0; 12];
            let mut st = Stats::default();
            if let Ok(f) = au_run(&mut st, &db, &cc, &sc, &Alt { at: &[] }) {
                first = f
            }
        }
        for (n, k) in first.iter().enumerate() {
            w.case(&format!("{name}/{n}"), |st| {
                for a in 0..*k {
                    let o = au_run(st, &db, &cc, &sc, &Alt { at: &[(n, a)] })?;
                    st.state(&(&name, n, a));
                    // second deviation: only for a selection of first ones, all alterations of the later message
                    if depth == 2 && a % 9 == 0 {
                        for (n2, k2) in o.iter().enumerate().skip(n + 1) {
                            for b in (0..*k2).step_by(if *k2 > 200 { 23 } else { 1 }) {
                                au_run(st, &db, &cc, &sc, &Alt { at: &[(n, a), (n2, b)] })?;
                                st.state(&(&name, n, a, n2, b));
                            }
                        }
                    }
                }
                Ok(())
            });
        }
    });
    // a registered record whose contents came from a malicious registration
    let vers = points(&[]);
    ctx.par("aucpace-records", VS.len() * vers.len(), |w, j| {
        let (v, ver) = (VS[j / vers.len()], vers[j % vers.len()]);
        w.case(&format!("{v:?}/{}", j % vers.len()), |st| {
            {
                for q in [Scalar::ZERO, Scalar::ONE, -Scalar::ONE, Scalar::from(8u8)] {
                    for (i, s) in salts().into_iter().enumerate() {
                        if i % ctx.t(150, 40) != 0 || (v.strong() && i > 0) {
                            continue;
                        }
                        for p in paramss() {
                            let mut db = Db::default();
                            db.rows.insert(b"alice".to_vec(), Row { verifier: ver, salt: s.clone(), q, params: p.clone() });
                            db.keys.insert(b"alice".to_vec(), (q, ver));
                            for implicit in [false, true] {
                                let cc = CCfg { user: b"alice".to_vec(), pw: b"password".to_vec(), ci: b"ci".to_vec(), pre: None, strong: v.strong(), alloc: implicit, implicit, out: Out::Len(32) };
                                let sc = SCfg { v, ci: b"ci".to_vec(), pre: None, implicit };
                                au_run(st, &db, &cc, &sc, &Alt { at: &[] })?;
                            }
                        }
                    }
                }
            }
            Ok(())
        })
    });
    // a real password hasher and the peer's salt
    ctx.bound("AuCPace client with scrypt: every salt of the alphabet, both buffer kinds");
    ctx.par("aucpace-scrypt", 2, |w, alloc| {
        w.case(&format!("{alloc}"), |st| {
            let Ok(params) = scrypt::Params::new(1, 1, 1, 32) else { return Err(Fail::from("no parameters")) };
            for s in salts() {
                for pw in [&b""[..], b"password", &[0xff; 90]] {
                    let mut c = AuCPaceClient::<Sha512, scrypt::Scrypt, Tape, 16>::new(Tape::new(1));
                    let r = call(st, &|| format!("client with scrypt, salt {}", s.as_str()), || {
                        let p = c.begin_prestablished_ssid(b"a session id that is long enough")?;
                        let (a, _) = p.start_augmentation(b"alice", pw);
                        if alloc == 1 {
                            a.generate_cpace_alloc(BP, &s, params, scrypt::Scrypt).map(|_| ())
                        } else {
                            a.generate_cpace::<&SaltString, 200>(BP, &s, params, scrypt::Scrypt).map(|_| ())
                        }
                    })?;
                    st.outcome(&format!("aucpace scrypt: {r:?}"));
                    st.trace();
                }
                st.state(&s.as_str());
            }
            Ok(())
        })
    });
    decode(ctx);
}

fn de_one<const K: usize>(st: &mut Stats, which: u8, b: &[u8]) -> R {
    let name = ["postcard client", "postcard server", "bincode client", "bincode server"][which as usize];
    let ok = call(st, &|| format!("decoding {} as {name} message", show(b)), || match which {
        0 => postcard::from_bytes::<ClientMessage<K>>(b).is_ok(),
        1 => postcard::from_bytes::<ServerMessage<K>>(b).is_ok(),
        2 => bincode::deserialize::<ClientMessage<K>>(b).is_ok(),
        _ => bincode::deserialize::<ServerMessage<K>>(b).is_ok(),
    })?;
    st.outcome(if ok { "decoder: message" } else { "decoder: error" });
    st.trace();
    Ok(())
}
fn decode(ctx: &Ctx) {
    ctx.bound("decoders (postcard, bincode; client and server messages; 1- and 16-byte nonces): all byte strings of up to 2 bytes, all 3-byte strings in the thorough tier, every prefix and every single-byte substitution of a valid encoding of each message, every variant index with every filling and length");
    ctx.par("decode-short", 256, |w, a| {
        w.case(&format!("{a}"), |st| {
            for which in 0..4 {
                de_one::<16>(st, which, &[])?;
                de_one::<16>(st, which, &[a as u8])?;
                for b in 0..=255u8 {
                    de_one::<16>(st, which, &[a as u8, b])?;
                    de_one::<1>(st, which, &[a as u8, b])?;
                    st.state(&(which, a, b));
                    if ctx.thorough {
                        for c in 0..=255u8 {
                            de_one::<1>(st, which, &[a as u8, b, c])?;
                        }
                    }
                }
            }
            Ok(())
        })
    });
    let salt = some_salt();
    let p = par("m=1,t=2");
    let (u, g) = (&b"alice"[..], "ristretto255");
    let cs: Vec<ClientMessage<16>> = vec![
        ClientMessage::Nonce([7; 16]),
        ClientMessage::Username(u),
        ClientMessage::StrongUsername { username: u, blinded: BP },
        ClientMessage::PublicKey(BP),
        ClientMessage::Authenticator([9; 64]),
        ClientMessage::Registration { username: u, salt: salt.clone(), params: p.clone(), verifier: BP },
        ClientMessage::StrongRegistration { username: u, secret_exponent: Scalar::from(5u8), params: p.clone(), verifier: BP },
    ];
    let ss: Vec<ServerMessage<16>> = vec![
        ServerMessage::Nonce([7; 16]),
        ServerMessage::AugmentationInfo { group: g, x_pub: BP, salt, pbkdf_params: p.clone() },
        ServerMessage::StrongAugmentationInfo { group: g, x_pub: BP, blinded_salt: BP, pbkdf_params: p },
        ServerMessage::PublicKey(BP),
        ServerMessage::Authenticator([9; 64]),
    ];
    let mut enc: Vec<(u8, Vec<u8>)> = vec![];
    for m in &cs {
        let mut buf = [0u8; 1000];
        if let Ok(b) = postcard::to_slice(m, &mut buf) {
            enc.push((0, b.to_vec()));
        }
        enc.extend(bincode::serialize(m).ok().map(|b| (2, b)));
    }
    for m in &ss {
        let mut buf = [0u8; 1000];
        if let Ok(b) = postcard::to_slice(m, &mut buf) {
            enc.push((1, b.to_vec()));
        }
        enc.extend(bincode::serialize(m).ok().map(|b| (3, b)));
    }
    ctx.par("decode-mutants", enc.len(), |w, j| {
        let (which, b) = &enc[j];
        w.case(&format!("{j}"), |st| {
            ensure!(b.len() > 5, "message {j} cannot be encoded");
            for n in 0..b.len() {
                de_one::<16>(st, *which, &b[..n])?;
                de_one::<1>(st, *which, &b[..n])?;
                for v in 0..=255u8 {
                    let mut m = b.clone();
                    m[n] = v;
                    de_one::<16>(st, *which, &m)?;
                    if n < 12 {
                        // length fields of several bytes
                        for k in 1..9.min(b.len() - n) {
                            let mut m = b.clone();
                            m[n..n + k].fill(v);
                            de_one::<16>(st, *which, &m)?;
                        }
                    }
                    st.state(&(j, n, v));
                }
            }
            Ok(())
        })
    });
    ctx.par("decode-fillings", 16, |w, idx| {
        w.case(&format!("{idx}"), |st| {
            for which in 0..4 {
                for n in 0..200 {
                    for f in [0u8, 1, 2, 4, 5, 12, 16, 22, 32, 0x7f, 0x80, 0xff] {
                        let mut m = vec![f; n + 4];
                        m[0] = idx as u8;
                        de_one::<16>(st, which, &m)?;
                        m[1..4].fill(0);
                        de_one::<16>(st, which, &m)?;
                    }
                }
            }
            Ok(())
        })
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("a call is taken to hang when it needs more than 60 s, or a case when it makes no progress for 150 s; the legitimate calls explored need milliseconds");
    ctx.assume("cost parameters of the password hash are parsed and chosen by the caller, not by this library");
    spake(ctx);
    srp(ctx);
    au(ctx);
}
