use crate::dig::*;
use crate::grp::*;
use crate::refm::{self as rf, Out, B};
use digest::Digest;
use mccore::{alpha, ensure, fail, guard, hex, show, Ctx, Fail, Stats, R};
use sha1::Sha1;
use sha2::{Sha224, Sha256, Sha384, Sha512, Sha512_256};
use srp::client::{SrpClient, SrpClientVerifier};
use srp::server::{SrpServer, SrpServerVerifier};
use srp::types::{SrpAuthError, SrpGroup};
use srp::utils::compute_k;
use std::collections::HashMap;

type CRes<D> = Result<SrpClientVerifier<D>, SrpAuthError>;
type SRes<D> = Result<SrpServerVerifier<D>, SrpAuthError>;

fn by(v: &B) -> Vec<u8> {
    v.to_bytes_be()
}
fn creply<D: Digest>(g: &SrpGroup, a: &[u8], id: &Id, bp: &[u8]) -> Result<CRes<D>, Fail> {
    guard(|| SrpClient::<D>::new(g).process_reply(a, &id.0, &id.1, &id.2, bp))
        .map_err(|e| Fail::from(format!("client process_reply(a={}, B={}): {e}", show(a), show(bp))))
}
fn sreply<D: Digest>(g: &SrpGroup, b: &[u8], v: &[u8], ap: &[u8]) -> Result<SRes<D>, Fail> {
    guard(|| SrpServer::<D>::new(g).process_reply(b, v, ap))
        .map_err(|e| Fail::from(format!("server process_reply(b={}, v={}, A={}): {e}", show(b), show(v), show(ap))))
}
/// username, password, salt
type Id = (Vec<u8>, Vec<u8>, Vec<u8>);
fn id(u: &[u8], p: &[u8], s: &[u8]) -> Id {
    (u.to_vec(), p.to_vec(), s.to_vec())
}
fn idshow(i: &Id) -> String {
    format!("user={} pass={} salt={}", show(&i.0), show(&i.1), show(&i.2))
}
fn ids(n: usize) -> Vec<Id> {
    let t = alpha::tricky();
    let mut v = vec![id(b"", b"", b""), id(b"alice", b"password123", &[0xBE, 0xB2, 0x53]), id(b"a", b"b", b"c")];
    let mut i = 0;
    while v.len() < n {
        v.push((t[i % t.len()].clone(), t[(i * 5 + 2) % t.len()].clone(), t[(i * 11 + 7) % t.len()].clone()));
        i += 1;
    }
    v.truncate(n);
    v
}
macro_rules! all_digests {
    ($f:ident, $($a:expr),*) => {
        $f::<Sha1>($($a,)* "sha1"); $f::<Sha224>($($a,)* "sha224"); $f::<Sha256>($($a,)* "sha256"); $f::<Sha384>($($a,)* "sha384");
        $f::<Sha512>($($a,)* "sha512"); $f::<Sha512_256>($($a,)* "sha512_256"); $f::<T1>($($a,)* "t1"); $f::<T2>($($a,)* "t2"); $f::<T3>($($a,)* "t3");
        $f::<Zero1>($($a,)* "zero1"); $f::<One2>($($a,)* "one2"); $f::<Ff2>($($a,)* "ff2"); $f::<Bit1>($($a,)* "bit1");
        $f::<Lead4>($($a,)* "lead4"); $f::<Wide128>($($a,)* "wide128");
        $f::<Lead32>($($a,)* "lead32"); $f::<Trail32>($($a,)* "trail32"); $f::<Hi20>($($a,)* "hi20"); $f::<Lo20>($($a,)* "lo20");
    };
}
macro_rules! some_digests {
    ($f:ident, $($a:expr),*) => {
        $f::<Sha1>($($a,)* "sha1"); $f::<Sha256>($($a,)* "sha256"); $f::<Sha512>($($a,)* "sha512"); $f::<Wide128>($($a,)* "wide128"); $f::<T2>($($a,)* "t2");
    };
}

// ---------------------------------------------------------------- R01

/// One complete registration and login.
fn login<D: Digest>(st: &mut Stats, g: &SrpGroup, i: &Id, a: &[u8], b: &[u8]) -> R {
    let d = || format!("{} {} a={} b={}", label(g), idshow(i), show(a), show(b));
    let c = SrpClient::<D>::new(g);
    let s = SrpServer::<D>::new(g);
    let run = guard(|| {
        let v = c.compute_verifier(&i.0, &i.1, &i.2);
        (c.compute_public_ephemeral(a), s.compute_public_ephemeral(b, &v), v)
    });
    let (ap, bp, v) = run.map_err(|e| Fail::from(format!("{}: {e}", d())))?;
    st.steps(5);
    if B::from_bytes_be(&bp) % &g.n == rf::b(0) || B::from_bytes_be(&ap) % &g.n == rf::b(0) {
        st.outcome("public value zero modulo N");
        return Ok(());
    }
    let cv = creply::<D>(g, a, i, &bp)?;
    let sv = sreply::<D>(g, b, &v, &ap)?;
    let (Ok(cv), Ok(sv)) = (&cv, &sv) else { fail!("{}: honest login refused: client {:?} server {:?}", d(), cv.err(), sv.err()) };
    ensure!(cv.key() == sv.key(), "{}: keys differ: {} vs {}", d(), show(cv.key()), show(sv.key()));
    let r = sv.verify_client(cv.proof());
    ensure!(r.is_ok(), "{}: server refuses the client's proof: {r:?}", d());
    let r = cv.verify_server(sv.proof());
    ensure!(r.is_ok(), "{}: client refuses the server's proof: {r:?}", d());
    st.steps(2);
    st.trace();
    st.state(&(label(g), &v, &ap, &bp, cv.key()));
    st.outcome("mutual proof");
    Ok(())
}
/// the quick tier gives the whole family of toy groups to three digests, every fourth group to the others
fn trim(ctx: &Ctx, gs: &[SrpGroup], name: &str) -> Vec<SrpGroup> {
    let full = ctx.thorough || matches!(name, "sha256" | "t1" | "t2");
    gs.iter().step_by(if full { 1 } else { 4 }).cloned().collect()
}
fn r01_toy<D: Digest>(ctx: &Ctx, groups: &[SrpGroup], is: &[Id], name: &str) {
    let groups = &trim(ctx, groups, name);
    ctx.par(&format!("toy/{name}"), groups.len() * is.len(), |w, j| {
        let (g, i) = (&groups[j % groups.len()], &is[j / groups.len()]);
        w.case(&format!("{}/{}", label(g), j / groups.len()), |st| {
            let n = g.n.to_u64_digits()[0];
            let step = if n < 100 { 1 } else { 1 + n / 40 };
            for a in (0..=n).step_by(step as usize) {
                for b in (0..=n).step_by(step as usize) {
                    login::<D>(st, g, i, &by(&rf::b(a)), &by(&rf::b(b)))?;
                }
            }
            Ok(())
        });
    });
}
fn r01_sweep<D: Digest>(ctx: &Ctx, g: &SrpGroup, name: &str) {
    let lens = alpha::lengths(ctx.t(200, 600));
    ctx.par(&format!("lengths/{name}"), lens.len(), |w, j| {
        let l = lens[j];
        w.case(&format!("{l}"), |st| {
            for f in 0..3u8 {
                let s = match f {
                    0 => alpha::base(l, 1),
                    1 => vec![0; l],
                    _ => vec![0xff; l],
                };
                let a = alpha::base(16, f);
                let b = alpha::base(16, f + 9);
                login::<D>(st, g, &id(&s, b"password", b"salt"), &a, &b)?;
                login::<D>(st, g, &id(b"user", &s, b"salt"), &a, &b)?;
                login::<D>(st, g, &id(b"user", b"password", &s), &a, &b)?;
                if l <= 300 {
                    login::<D>(st, g, &id(b"user", b"password", b"salt"), &s, &b)?;
                    login::<D>(st, g, &id(b"user", b"password", b"salt"), &a, &s)?;
                    login::<D>(st, g, &id(b"user", b"password", b"salt"), &s, &s)?;
                }
            }
            Ok(())
        });
    });
}
fn exps(g: &SrpGroup) -> Vec<B> {
    let n = &g.n;
    let one = rf::b(1);
    let mut v = vec![
        rf::b(0),
        one.clone(),
        rf::b(2),
        rf::b(3),
        rf::b(255),
        rf::b(256),
        (n - 1u8) >> 1u32,
        n - 1u8,
        n - 2u8,
        n.clone(),
        n + 1u8,
        n * 2u8 + 5u8,
        &one << (n.bits() - 2),
        &one << (n.bits() / 2),
    ];
    for i in 0..6 {
        v.push(B::from_bytes_be(&alpha::base(32, i)));
        v.push(B::from_bytes_be(&alpha::base((n.bits() as usize).div_ceil(8), i)));
    }
    v
}
fn toys(upto: u64) -> Vec<SrpGroup> {
    let mut o = vec![];
    for n in safe_primes(upto) {
        o.push(g(n, root(n)));
        if n <= 23 {
            for x in 2..n {
                if x != root(n) {
                    o.push(g(n, x));
                }
            }
        }
    }
    o
}
fn r01_medium<D: Digest>(ctx: &Ctx, gs: &[SrpGroup], name: &str) {
    ctx.par(&format!("medium/{name}"), gs.len(), |w, j| {
        let g = &gs[j];
        w.case(&label(g), |st| {
            let e = exps(g);
            let is = ids(4);
            for a in &e {
                for (q, b) in e.iter().enumerate() {
                    login::<D>(st, g, &is[q % 4], &by(a), &by(b))?;
                }
            }
            Ok(())
        });
    });
}
fn r01_builtin<D: Digest>(ctx: &Ctx, name: &str) {
    let gs = builtin();
    let per = ctx.t([40usize, 12, 8, 3, 2, 1, 1], [200, 100, 60, 24, 12, 6, 4]);
    let jobs: Vec<(usize, usize)> = (0..7).rev().flat_map(|q| (0..per[q]).map(move |i| (q, i))).collect();
    ctx.par(&format!("builtin/{name}"), jobs.len(), |w, j| {
        let (q, i) = jobs[j];
        let g = gs[q].2;
        w.case(&format!("{}/{i}", gs[q].0), |st| {
            let e = [rf::b(i as u64), B::from_bytes_be(&alpha::base(32, i as u8)), B::from_bytes_be(&alpha::base(64, i as u8 + 1))];
            let is = ids(8);
            login::<D>(st, g, &is[(i + 1) % 8], &by(&e[1 + i % 2]), &by(&e[2 - i % 2]))?;
            if q < 3 {
                login::<D>(st, g, &is[i % 8], &by(&e[0]), &by(&e[1]))?;
                login::<D>(st, g, &is[i % 8], &by(&e[2]), &by(&e[0]))?;
            }
            Ok(())
        });
    });
}
pub fn r01(ctx: &Ctx) {
    ctx.bound("all a,b in 0..=N for every safe prime N below 100 (all generators for N<=23), strided for N below 1000, 19 digests (quick: all groups for 3 of them, every fourth group for the rest) of 1..128 bytes (including constant ones), 8 (thorough 24) identities");
    ctx.bound("lengths 0..200 (thorough 600) and long of every string and secret; 26 special exponents squared on 27 groups of 15..512 bits; the seven built-in groups");
    let groups = toys(ctx.t(400, 1000));
    let is = ids(ctx.t(8, 24));
    all_digests!(r01_toy, ctx, &groups, &is);
    let gs = medium();
    some_digests!(r01_medium, ctx, &gs);
    r01_medium::<Sha256>(ctx, &wide(), "wideg");
    let m64 = &gs[16];
    some_digests!(r01_sweep, ctx, m64);
    let t = alpha::tricky();
    ctx.par("tricky", t.len() * t.len(), |w, j| {
        let (x, y) = (&t[j / t.len()], &t[j % t.len()]);
        w.case(&format!("{}-{}", j / t.len(), j % t.len()), |st| {
            let (a, b) = (alpha::base(16, 4), alpha::base(16, 5));
            login::<Sha256>(st, m64, &id(x, y, b"salt"), &a, &b)?;
            login::<Sha256>(st, m64, &id(x, b"pass", y), &a, &b)?;
            login::<Sha256>(st, m64, &id(b"user", x, y), &a, &b)
        });
    });
    // many sessions: reach rare shapes of every intermediate value
    ctx.par("many", ctx.t(60_000, 1_500_000), |w, j| {
        w.case(&format!("{j}"), |st| {
            let g = &gs[j % 14];
            let i = id(b"user", &(j as u32).to_be_bytes(), b"salt");
            login::<Sha256>(st, g, &i, &alpha::base(8, 3), &(j as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).to_be_bytes())
        });
    });
    r01_builtin::<Sha256>(ctx, "sha256");
    r01_builtin::<Sha1>(ctx, "sha1");
    if ctx.thorough {
        r01_builtin::<Sha512>(ctx, "sha512");
        r01_builtin::<Wide128>(ctx, "wide128");
    }
}

// ---------------------------------------------------------------- R02

fn illegal(e: &SrpAuthError) -> bool {
    matches!(e, SrpAuthError::IllegalParameter(_))
}
fn encs(v: &B) -> Vec<Vec<u8>> {
    let x = v.to_bytes_be();
    let mut o = vec![x.clone(), [&[0u8][..], &x].concat(), [&[0u8; 7][..], &x].concat(), [&[0u8; 300][..], &x].concat()];
    if *v == rf::b(0) {
        o.push(vec![]);
        o.push(vec![0; 2]);
        o.push(vec![0; 32]);
        o.push(vec![0; 1024]);
    }
    o
}
fn check_pub<D: Digest>(st: &mut Stats, g: &SrpGroup, val: &B, i: &Id, sec: &B, v: &B) -> R {
    let zero = val % &g.n == rf::b(0);
    for e in encs(val) {
        let c = creply::<D>(g, &by(sec), i, &e)?;
        match (&c, zero) {
            (Err(x), true) => ensure!(illegal(x), "client refuses B={} with {x:?}", show(&e)),
            (Ok(_), true) => fail!("{}: client accepts B={val} = 0 mod N (bytes {})", label(g), show(&e)),
            (Err(x), false) => fail!("{}: client refuses B={val} (bytes {}), which is not a multiple of N: {x:?}", label(g), show(&e)),
            _ => {}
        }
        let s = sreply::<D>(g, &by(sec), &by(v), &e)?;
        match (&s, zero) {
            (Err(x), true) => ensure!(illegal(x), "server refuses A={} with {x:?}", show(&e)),
            (Ok(_), true) => fail!("{}: server accepts A={val} = 0 mod N (bytes {})", label(g), show(&e)),
            (Err(x), false) => fail!("{}: server refuses A={val} (bytes {}), which is not a multiple of N: {x:?}", label(g), show(&e)),
            _ => {}
        }
        st.steps(2);
    }
    st.state(&(label(g), by(val)));
    st.outcome(if zero { "refused" } else { "processed" });
    st.trace();
    Ok(())
}
fn r02_toy<D: Digest>(ctx: &Ctx, groups: &[SrpGroup], name: &str) {
    let groups = &trim(ctx, groups, name);
    ctx.par(&format!("toy/{name}"), groups.len(), |w, j| {
        let g = &groups[j];
        w.case(&label(g), |st| {
            let n = g.n.to_u64_digits()[0];
            let top = if n < 300 { 70 * n + 3 } else { 12 * n + 3 };
            let is = ids(3);
            for val in 0..=top {
                if val > 300 && (val % n > 3 && val % n < n - 3) && val % 17 != 0 {
                    continue;
                }
                check_pub::<D>(st, g, &rf::b(val), &is[(val % 3) as usize], &rf::b(val * 7 % (n + 1)), &rf::b(val * 5 % n))?;
            }
            // secrets and verifiers at which the other quantities vanish
            for sec in 0..=n.min(60) {
                for v in [0, 1, sec % n, n - 1, n, n + 1] {
                    for val in [0, n, 2 * n, 1, n - 1, n + 1] {
                        check_pub::<D>(st, g, &rf::b(val), &is[1], &rf::b(sec), &rf::b(v))?;
                    }
                }
            }
            Ok(())
        });
    });
}
fn r02_big<D: Digest>(ctx: &Ctx, gs: &[SrpGroup], name: &str) {
    let ks: Vec<B> = {
        let mut v: Vec<B> = (0..ctx.t(20u64, 70)).map(rf::b).collect();
        for s in [8u64, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1024] {
            v.push(rf::b(1) << s);
            v.push((rf::b(1) << s) - 1u8);
        }
        v
    };
    ctx.par(&format!("big/{name}"), gs.len() * (ks.len() + 1), |w, j| {
        let (g, ki) = (&gs[gs.len() - 1 - j / (ks.len() + 1)], j % (ks.len() + 1));
        let i = id(b"alice", b"password123", b"salt");
        w.case(&format!("{}/{ki}", label(g)), |st| {
            let k = if ki == ks.len() { g.n.clone() } else { ks[ki].clone() };
            let v = &k * &g.n;
            check_pub::<D>(st, g, &v, &i, &rf::b(3), &rf::b(5))?;
            if g.n.bits() <= 2048 || ki < 3 {
                check_pub::<D>(st, g, &(&v + 1u8), &i, &rf::b(3), &rf::b(5))?;
                check_pub::<D>(st, g, &(&v + &g.n - 1u8), &i, &rf::b(3), &rf::b(5))?;
                check_pub::<D>(st, g, &(&v + (&g.n >> 1u32)), &i, &rf::b(3), &rf::b(5))?;
            }
            // values that agree with a multiple of N except in one byte
            let x = v.to_bytes_be();
            if ki <= 3 {
                for p in 0..x.len() {
                    if g.n.bits() > 1024 && p % 32 != 0 && p + 1 != x.len() {
                        continue;
                    }
                    let mut y = x.clone();
                    y[p] ^= 0x80;
                    check_pub::<D>(st, g, &B::from_bytes_be(&y), &i, &rf::b(3), &rf::b(5))?;
                }
                let mut y = x.clone();
                y.reverse();
                check_pub::<D>(st, g, &B::from_bytes_be(&y), &i, &rf::b(3), &rf::b(5))?;
                check_pub::<D>(st, g, &(&v << 1u32), &i, &rf::b(3), &rf::b(5))?;
                check_pub::<D>(st, g, &(&v >> 1u32), &i, &rf::b(3), &rf::b(5))?;
                check_pub::<D>(st, g, &(&v >> 8u32), &i, &rf::b(3), &rf::b(5))?;
                check_pub::<D>(st, g, &B::from_bytes_be(&[&x[..], &[0u8; 1]].concat()), &i, &rf::b(3), &rf::b(5))?;
            }
            Ok(())
        });
    });
}
pub fn r02(ctx: &Ctx) {
    ctx.bound("every public value 0..70N around multiples of N for toy groups (N<1000), 4..8 encodings each, 19 digests (quick: all groups for 3 of them, every fourth group for the rest); multiples kN with k<20 (thorough 70), powers of two and N, and their neighbours, for 27 medium and the 7 built-in groups");
    let groups = toys(ctx.t(400, 1000));
    all_digests!(r02_toy, ctx, &groups);
    let mut gs = medium();
    r02_big::<Sha1>(ctx, &gs, "sha1");
    r02_big::<Sha256>(ctx, &wide(), "wideg");
    gs.extend(builtin().into_iter().map(|x| x.2.clone()));
    r02_big::<Sha256>(ctx, &gs, "sha256");
}

// ---------------------------------------------------------------- R03

fn accepts<D: Digest>(c: Option<&SrpClientVerifier<D>>, s: Option<&SrpServerVerifier<D>>, p: &[u8], want: &[u8], d: &dyn Fn() -> String) -> R {
    let r = match (c, s) {
        (Some(c), _) => guard(|| c.verify_server(p)),
        (_, Some(s)) => guard(|| s.verify_client(p)),
        _ => return Ok(()),
    };
    let who = if c.is_some() { "client" } else { "server" };
    let r = r.map_err(|e| Fail::from(format!("{}: {who} verify({}): {e}", d(), hex(p))))?;
    match r {
        Ok(()) => ensure!(p == want, "{}: {who} accepts proof {} instead of {}", d(), hex(p), hex(want)),
        Err(SrpAuthError::BadRecordMac(_)) => ensure!(p != want, "{}: {who} refuses the correct proof {}", d(), hex(p)),
        Err(e) => fail!("{}: {who} refuses with {e:?}", d()),
    }
    Ok(())
}
/// proofs derived from the right one
fn variants(good: &[u8], other: &[u8], full: bool) -> Vec<Vec<u8>> {
    let n = good.len();
    let mut v = vec![good.to_vec(), other.to_vec(), vec![], [good, good].concat(), [good, other].concat(), [other, good].concat()];
    for i in 0..n {
        v.push(good[..i].to_vec());
        v.push(good[i..].to_vec());
        let subs: Vec<u8> = if full {
            (0..=255).collect()
        } else {
            (0..8).map(|b| good[i] ^ (1 << b)).chain([0, 0xff, !good[i], good[i].wrapping_add(1), good[i].wrapping_sub(1)]).collect()
        };
        for c in subs {
            let mut t = good.to_vec();
            t[i] = c;
            v.push(t);
        }
        // two positions at once, so that sums and xors stay the same
        for j in 0..n {
            if j != i {
                let mut t = good.to_vec();
                t.swap(i, j);
                v.push(t);
                if full || j == (i + 1) % n || j == (i + n / 2) % n {
                    let mut t = good.to_vec();
                    t[i] ^= 0x5a;
                    t[j] ^= 0x5a;
                    v.push(t);
                    let mut t = good.to_vec();
                    t[i] = t[i].wrapping_add(1);
                    t[j] = t[j].wrapping_sub(1);
                    v.push(t);
                }
            }
        }
        let mut t = good.to_vec();
        t.rotate_left(i);
        v.push(t);
        // right prefix then zeros / right suffix only
        let mut t = vec![0; n];
        t[..i].copy_from_slice(&good[..i]);
        v.push(t);
        let mut t = vec![0; n];
        t[i..].copy_from_slice(&good[i..]);
        v.push(t);
    }
    for ext in 1..=9 {
        v.push([good, &vec![0u8; ext][..]].concat());
        v.push([&vec![0u8; ext][..], good].concat());
    }
    v.push([good, &[0x0a][..]].concat());
    v.push([good, &vec![0u8; 1000][..]].concat());
    v.push(good.iter().map(|b| !b).collect());
    v.push(good.iter().rev().copied().collect());
    v.push(vec![0; n]);
    v.push(vec![0xff; n]);
    v.push(hex(good).into_bytes());
    v.extend(alpha::reframed(good));
    v
}
fn honest<D: Digest>(g: &SrpGroup, i: &Id, a: &B, bs: &B) -> Result<Option<(SrpClientVerifier<D>, SrpServerVerifier<D>, B, B)>, Fail> {
    let x = rf::x::<D>(&i.0, &i.1, &i.2);
    let v = rf::v::<D>(g, &x);
    let ap = rf::powm(&g.g, a, &g.n);
    let bp = rf::bpub::<D>(g, bs, &v);
    if &bp % &g.n == rf::b(0) {
        return Ok(None);
    }
    let c = creply::<D>(g, &by(a), i, &by(&bp))?;
    let s = sreply::<D>(g, &by(bs), &by(&v), &by(&ap))?;
    match (c, s) {
        (Ok(c), Ok(s)) => Ok(Some((c, s, ap, bp))),
        _ => Err(Fail::from("honest login refused")),
    }
}
/// The proof a side must accept, from the public values it saw and the key it computed.
fn want<D: Digest>(ap: &B, bp: &B, key: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let m1 = rf::h::<D>(&[&by(ap), &by(bp), key]);
    let m2 = rf::h::<D>(&[&by(ap), &m1, key]);
    (m1, m2)
}
fn r03_variants<D: Digest>(ctx: &Ctx, gs: &[SrpGroup], name: &str) {
    let n = <D as Digest>::output_size();
    ctx.par(&format!("variants/{name}"), gs.len() * 6, |w, j| {
        let (g, q) = (&gs[j / 6], j % 6);
        w.case(&format!("{}/{q}", label(g)), |st| {
            let i = &ids(6)[q];
            let (a, bs) = (B::from_bytes_be(&alpha::base(16, q as u8)), B::from_bytes_be(&alpha::base(16, q as u8 + 40)));
            let Some((c, s, ap, bp)) = honest::<D>(g, i, &a, &bs)? else { return Ok(()) };
            let wc = want::<D>(&ap, &bp, c.key());
            let ws = want::<D>(&ap, &bp, s.key());
            let d = || format!("{name} {} session {q}", label(g));
            let mut vs = variants(&ws.0, &ws.1, ctx.thorough || (n <= 32 && j < 12));
            vs.extend(variants(&wc.1, &wc.0, ctx.thorough || (n <= 32 && j < 12)));
            // from another session of the same pair, and with the roles mixed
            for k in 0..6u8 {
                if let Some((c2, s2, _, _)) = honest::<D>(g, i, &(&a + k), &(&bs + 1u8))? {
                    vs.push(c2.proof().to_vec());
                    vs.push(s2.proof().to_vec());
                }
            }
            vs.push(c.key().to_vec());
            vs.push(by(&ap));
            vs.push(by(&bp));
            for p in &vs {
                accepts::<D>(Some(&c), None, p, &wc.1, &d)?;
                accepts::<D>(None, Some(&s), p, &ws.0, &d)?;
                st.steps(2);
                st.state(&(j, p));
            }
            ensure!(c.proof() == wc.0, "{}: client proof", d());
            ensure!(s.proof() == ws.1, "{}: server proof", d());
            // verification has no memory: wrong, right, wrong, right ...
            for seq in 0..32u32 {
                for k in 0..5 {
                    let good = seq >> k & 1 == 1;
                    let (pc, ps) = if good { (&ws.0, &wc.1) } else { (&vs[(seq as usize * 7 + k) % vs.len()], &vs[(seq as usize * 11 + k) % vs.len()]) };
                    accepts::<D>(Some(&c), None, ps, &wc.1, &d)?;
                    accepts::<D>(None, Some(&s), pc, &ws.0, &d)?;
                    st.steps(2);
                }
            }
            st.trace();
            Ok(())
        });
    });
}
/// every reply of up to the given number of bytes, for every session of a toy group
fn r03_exhaust<D: Digest>(ctx: &Ctx, gs: &[SrpGroup], name: &str) {
    let n = <D as Digest>::output_size();
    ctx.par(&format!("exhaust/{name}"), gs.len() * 4, |w, j| {
        let (g, q) = (&gs[j / 4], j % 4);
        w.case(&format!("{}/{q}", label(g)), |st| {
            let i = &ids(4)[q];
            let nn = g.n.to_u64_digits()[0];
            for a in (0..nn).step_by(1 + nn as usize / if n == 1 { 12 } else { 2 }) {
                for b in (0..nn).step_by(1 + nn as usize / if n == 1 { 12 } else { 2 }) {
                    let Some((c, s, ap, bp)) = honest::<D>(g, i, &rf::b(a), &rf::b(b))? else { continue };
                    let wc = want::<D>(&ap, &bp, c.key());
                    let ws = want::<D>(&ap, &bp, s.key());
                    let d = || format!("{name} {} a={a} b={b}", label(g));
                    let mut try_ = |p: &[u8]| -> R {
                        accepts::<D>(Some(&c), None, p, &wc.1, &d)?;
                        accepts::<D>(None, Some(&s), p, &ws.0, &d)?;
                        st.steps(2);
                        Ok(())
                    };
                    try_(&[])?;
                    for x in 0..=255u8 {
                        try_(&[x])?;
                        try_(&[x, 0, 0])?;
                    }
                    if n == 2 || (a < 2 && b < 2) {
                        for x in 0..=65535u16 {
                            try_(&x.to_be_bytes())?;
                        }
                    }
                    st.state(&(label(g), q, a, b));
                    st.trace();
                }
            }
            Ok(())
        });
    });
}
/// mismatching credentials and tampered public values
fn r03_mismatch<D: Digest>(ctx: &Ctx, g: &SrpGroup, name: &str) {
    let base = alpha::tricky();
    let lens = alpha::lengths(ctx.t(140, 300));
    let mut pairs: Vec<(Id, Id)> = vec![];
    let b0 = [b"alice".to_vec(), b"password".to_vec(), b"saltsalt".to_vec()];
    let mk = |v: &[Vec<u8>; 3]| (v[0].clone(), v[1].clone(), v[2].clone());
    for f in 0..3 {
        for s in &base {
            let mut x = b0.clone();
            x[f] = s.clone();
            for (_, t) in alpha::neighbours(s) {
                let mut y = b0.clone();
                y[f] = t;
                pairs.push((mk(&x), mk(&y)));
            }
        }
        for l in &lens {
            let s = alpha::base(*l, f as u8);
            let mut x = b0.clone();
            x[f] = s.clone();
            let mut ts = vec![[&s[..], b"\0"].concat(), [b"\0", &s[..]].concat()];
            if *l > 0 {
                ts.push(s[..l - 1].to_vec());
                for p in [0, l / 2, l - 1] {
                    for bit in [1u8, 0x20, 0x80] {
                        let mut t = s.clone();
                        t[p] ^= bit;
                        ts.push(t);
                    }
                }
            }
            for t in ts {
                let mut y = b0.clone();
                y[f] = t;
                pairs.push((mk(&x), mk(&y)));
            }
        }
    }
    // a text and what a program may make of it
    for (n, (a, b)) in alpha::twins().into_iter().enumerate() {
        for f in 0..3 {
            let (mut x, mut y) = (b0.clone(), b0.clone());
            x[f] = a.clone();
            y[f] = b.clone();
            if ctx.thorough || f != n % 3 {
                pairs.push((mk(&x), mk(&y)));
            }
            if ctx.thorough || f != (n + 1) % 3 {
                pairs.push((mk(&y), mk(&x)));
            }
        }
    }
    // a text and its digest, as for texts that are too long
    let d: fn(&[u8]) -> Vec<u8> = |t| D::digest(t).to_vec();
    for (a, b) in alpha::prehashed(&[("D", d)]) {
        for f in 0..3 {
            let (mut x, mut y) = (b0.clone(), b0.clone());
            x[f] = a.clone();
            y[f] = b.clone();
            pairs.push((mk(&x), mk(&y)));
        }
    }
    ctx.par(&format!("mismatch/{name}"), pairs.len().div_ceil(8), |w, j| {
        w.case(&format!("{j}"), |st| {
            for (r, l) in pairs.iter().skip(j * 8).take(8) {
                // the scheme hashes user ':' password; a pair with equal strings is the same credential
                if [&r.0[..], b":", &r.1].concat() == [&l.0[..], b":", &l.1].concat() && r.2 == l.2 {
                    continue;
                }
                let c = SrpClient::<D>::new(g);
                let s = SrpServer::<D>::new(g);
                let v = guard(|| c.compute_verifier(&r.0, &r.1, &r.2)).map_err(Fail::from)?;
                let (a, b) = (alpha::base(20, 1), alpha::base(20, 2));
                let ap = c.compute_public_ephemeral(&a);
                let bp = s.compute_public_ephemeral(&b, &v);
                let (Ok(cv), Ok(sv)) = (creply::<D>(g, &a, l, &bp)?, sreply::<D>(g, &b, &v, &ap)?) else { continue };
                st.steps(7);
                let d = format!("registered {} / login {}", idshow(r), idshow(l));
                ensure!(cv.key() != sv.key(), "{d}: keys are equal");
                ensure!(sv.verify_client(cv.proof()).is_err(), "{d}: server accepts");
                ensure!(cv.verify_server(sv.proof()).is_err(), "{d}: client accepts");
                st.state(&d);
                st.trace();
                st.outcome("both refuse");
            }
            Ok(())
        });
    });
    // tampering with A or B: every single-bit change and some arithmetic ones
    let bits = g.n.bits() as usize;
    ctx.par(&format!("tamper/{name}"), bits + 24, |w, j| {
        w.case(&format!("{j}"), |st| {
            let i = id(b"alice", b"password", b"salt");
            let c = SrpClient::<D>::new(g);
            let s = SrpServer::<D>::new(g);
            let v = c.compute_verifier(&i.0, &i.1, &i.2);
            let (a, b) = (alpha::base(20, 1), alpha::base(20, 2));
            let ap = c.compute_public_ephemeral(&a);
            let bp = s.compute_public_ephemeral(&b, &v);
            let tamper = |x: &[u8]| -> B {
                let x = B::from_bytes_be(x);
                if j < bits {
                    let m = rf::b(1) << j;
                    return if x.bit(j as u64) { x - m } else { x + m };
                }
                match j - bits {
                    0 => &g.n - x,
                    1 => x + &g.n,
                    2 => x * 2u8 % &g.n,
                    3 => x * &g.g % &g.n,
                    4 => B::from_bytes_be(&v),
                    5 => g.g.clone(),
                    6 => rf::b(1),
                    7 => &g.n - 1u8,
                    8 => B::from_bytes_be(&ap),
                    9 => B::from_bytes_be(&bp),
                    k => x + &g.n * (k as u64),
                }
            };
            for which in 0..3 {
                let a2 = if which != 1 { by(&tamper(&ap)) } else { ap.clone() };
                let b2 = if which != 0 { by(&tamper(&bp)) } else { bp.clone() };
                if a2 == ap && b2 == bp {
                    continue;
                }
                let cr = creply::<D>(g, &a, &i, &b2)?;
                let sr = sreply::<D>(g, &b, &v, &a2)?;
                st.steps(2);
                let (Ok(cv), Ok(sv)) = (cr, sr) else { st.outcome("refused"); continue };
                ensure!(sv.verify_client(cv.proof()).is_err(), "tampering {j}.{which}: server accepts the client's proof although A {} B {}", a2 == ap, b2 == bp);
                ensure!(cv.verify_server(sv.proof()).is_err(), "tampering {j}.{which}: client accepts the server's proof");
                st.state(&(j, which, cv.key(), sv.key()));
                st.outcome("both refuse");
                st.trace();
            }
            Ok(())
        });
    });
}
pub fn r03(ctx: &Ctx) {
    ctx.bound("every reply of 0,1,2 bytes against sessions of toy groups with 1- and 2-byte digests; for 20..128-byte proofs every single-byte substitution (thorough, and part of quick; otherwise every bit), all truncations, extensions, rotations, swaps, reflections, proofs of other sessions");
    ctx.bound("registered/login credential pairs: all single edits of 48 strings and of all lengths 0..140 in each field; every bit of A and B tampered");
    let toy: Vec<SrpGroup> = [5u64, 11, 23, 47, 107, 227, 263, 359].iter().map(|n| g(*n, root(*n))).collect();
    r03_exhaust::<T1>(ctx, &toy, "t1");
    r03_exhaust::<Bit1>(ctx, &toy, "bit1");
    r03_exhaust::<Zero1>(ctx, &toy[..4], "zero1");
    r03_exhaust::<T2>(ctx, &toy[..ctx.t(4, 8)], "t2");
    r03_exhaust::<Ff2>(ctx, &toy[..2], "ff2");
    let gs = medium();
    all_digests!(r03_variants, ctx, &gs[ctx.t(18, 10)..20]);
    let g1 = &gs[19];
    r03_mismatch::<Sha256>(ctx, g1, "sha256");
    if let Some(w) = wide().iter().find(|w| w.n.bits() == 160 && w.g.bits() > 100) {
        r03_mismatch::<Sha256>(ctx, w, "wideg");
    }
    r03_mismatch::<Sha512>(ctx, g1, "sha512");
    r03_mismatch::<Sha1>(ctx, g1, "sha1");
    let b = builtin();
    let big = [b[0].2.clone()];
    r03_variants::<Sha256>(ctx, &big, "sha256b");
    // toy groups: accept iff the reference proof, for all pairs of (login secret, registered verifier)
    ctx.par("toy/cross", toy.len() * 8, |w, j| {
        let (g, q) = (&toy[j / 8], j % 8);
        w.case(&format!("{}/{q}", label(g)), |st| {
            let is = ids(8);
            let n = g.n.to_u64_digits()[0];
            for r in 0..8 {
                let x = rf::x::<T2>(&is[r].0, &is[r].1, &is[r].2);
                let v = rf::v::<T2>(g, &x);
                for a in (0..n).step_by(1 + n as usize / 24) {
                    for b in (0..n).step_by(1 + n as usize / 24) {
                        let ap = rf::powm(&g.g, &rf::b(a), &g.n);
                        let bp = rf::bpub::<T2>(g, &rf::b(b), &v);
                        let (Ok(c), Ok(s)) = (creply::<T2>(g, &by(&rf::b(a)), &is[q], &by(&bp))?, sreply::<T2>(g, &by(&rf::b(b)), &by(&v), &by(&ap))?) else { continue };
                        let d = || format!("{} a={a} b={b} ids {q}/{r}", label(g));
                        let (wc, ws) = (want::<T2>(&ap, &bp, c.key()), want::<T2>(&ap, &bp, s.key()));
                        accepts::<T2>(Some(&c), None, s.proof(), &wc.1, &d)?;
                        accepts::<T2>(None, Some(&s), c.proof(), &ws.0, &d)?;
                        accepts::<T2>(Some(&c), None, c.proof(), &wc.1, &d)?;
                        accepts::<T2>(None, Some(&s), s.proof(), &ws.0, &d)?;
                        st.steps(6);
                        st.state(&(j, r, a, b));
                        st.outcome(if c.key() == s.key() { "same key" } else { "different keys" });
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- R04

fn cmp(st: &mut Stats, ctx: &Ctx, what: &dyn Fn() -> String, got: &Out, padded: &Out, unpadded: &Out, short: bool) -> R {
    if got == padded {
        st.outcome("equals RFC 5054");
        return Ok(());
    }
    if short && got == unpadded {
        if st.known(ctx, "u-unpadded", &what()) {
            st.outcome("u over unpadded public values (known)");
            return Ok(());
        }
        fail!("{}: u is computed over unpadded public values: key {} instead of {}", what(), show(&got.key), show(&padded.key));
    }
    let mut o = vec![];
    for (n, x, y) in [("key", &got.key, &padded.key), ("client proof", &got.m1, &padded.m1), ("server proof", &got.m2, &padded.m2)] {
        if x != y {
            o.push(format!("{n} is {} instead of {}", show(x), show(y)));
        }
    }
    fail!("{}: {}", what(), o.join(", "))
}
fn cl<D: Digest>(st: &mut Stats, ctx: &Ctx, g: &SrpGroup, i: &Id, x: &B, a: &B, bb: &B) -> R {
    let c = creply::<D>(g, &by(a), i, &by(bb))?;
    st.step();
    if bb % &g.n == rf::b(0) {
        return Ok(());
    }
    let what = || format!("client {} {} a={} B={}", label(g), idshow(i), show(&by(a)), show(&by(bb)));
    let Ok(c) = c else { fail!("{}: refused", what()) };
    let p = rf::client::<D>(g, a, x, bb, true);
    let ap = rf::powm(&g.g, a, &g.n);
    let sh = rf::short(g, &ap, bb);
    let up = if sh { rf::client::<D>(g, a, x, bb, false) } else { p.clone() };
    let m2 = if c.verify_server(&p.m2).is_ok() {
        p.m2.clone()
    } else if c.verify_server(&up.m2).is_ok() {
        up.m2.clone()
    } else {
        b"neither reference proof accepted".to_vec()
    };
    let got = Out { key: c.key().to_vec(), m1: c.proof().to_vec(), m2 };
    st.state(&got);
    st.trace();
    cmp(st, ctx, &what, &got, &p, &up, sh)
}
fn sv<D: Digest>(st: &mut Stats, ctx: &Ctx, g: &SrpGroup, bs: &B, v: &B, ap: &B) -> R {
    let s = sreply::<D>(g, &by(bs), &by(v), &by(ap))?;
    st.step();
    if ap % &g.n == rf::b(0) {
        return Ok(());
    }
    let what = || format!("server {} b={} v={} A={}", label(g), show(&by(bs)), show(&by(v)), show(&by(ap)));
    let Ok(s) = s else { fail!("{}: refused", what()) };
    let p = rf::server::<D>(g, bs, v, ap, true);
    let bp = rf::bpub::<D>(g, bs, v);
    let sh = rf::short(g, ap, &bp);
    let up = if sh { rf::server::<D>(g, bs, v, ap, false) } else { p.clone() };
    let m1 = if s.verify_client(&p.m1).is_ok() {
        p.m1.clone()
    } else if s.verify_client(&up.m1).is_ok() {
        up.m1.clone()
    } else {
        b"neither reference proof accepted".to_vec()
    };
    let got = Out { key: s.key().to_vec(), m1, m2: s.proof().to_vec() };
    st.state(&got);
    st.trace();
    cmp(st, ctx, &what, &got, &p, &up, sh)
}
/// the simple outputs: x, v, A, B, k
fn simple<D: Digest>(st: &mut Stats, g: &SrpGroup, i: &Id, e: &B, v: &B) -> R {
    let c = SrpClient::<D>::new(g);
    let s = SrpServer::<D>::new(g);
    let x = rf::x::<D>(&i.0, &i.1, &i.2);
    let what = || format!("{} {} e={} v={}", label(g), idshow(i), show(&by(e)), show(&by(v)));
    let r = guard(|| {
        let h = SrpClient::<D>::compute_identity_hash(&i.0, &i.1);
        let gx = SrpClient::<D>::compute_x(&h, &i.2);
        (
            h.to_vec() == rf::h::<D>(&[&i.0, b":", &i.1]),
            gx == x,
            compute_k::<D>(g) == rf::k::<D>(g),
            c.compute_verifier(&i.0, &i.1, &i.2) == by(&rf::v::<D>(g, &x)),
            c.compute_v(e) == rf::powm(&g.g, e, &g.n),
            c.compute_a_pub(e) == rf::powm(&g.g, e, &g.n),
            c.compute_public_ephemeral(&by(e)) == by(&rf::powm(&g.g, e, &g.n)),
            s.compute_public_ephemeral(&by(e), &by(v)) == by(&rf::bpub::<D>(g, e, v)),
            s.compute_b_pub(e, &rf::k::<D>(g), v) == rf::bpub::<D>(g, e, v),
        )
    })
    .map_err(|e| Fail::from(format!("{}: {e}", what())))?;
    st.steps(9);
    ensure!(r.0, "{}: identity hash differs from H(user ':' password)", what());
    ensure!(r.1, "{}: x differs from H(salt | H(user ':' password))", what());
    ensure!(r.2, "{}: k differs from H(N | PAD(g))", what());
    ensure!(r.3, "{}: verifier differs from g^x mod N", what());
    ensure!(r.4, "{}: compute_v differs from g^x mod N", what());
    ensure!(r.5 && r.6, "{}: A differs from g^a mod N", what());
    ensure!(r.7 && r.8, "{}: B differs from k*v + g^b mod N", what());
    Ok(())
}
/// premaster formulas with free arguments
fn premaster<D: Digest>(st: &mut Stats, g: &SrpGroup, p: [&B; 5]) -> R {
    let [bp, k, x, a, u] = p;
    let n = &g.n;
    let c = guard(|| SrpClient::<D>::new(g).compute_premaster_secret(bp, k, x, a, u)).map_err(Fail::from)?;
    let base = (bp % n + n - k * rf::powm(&g.g, x, n) % n) % n;
    let w = rf::powm(&base, &(a + u * x), n);
    ensure!(c == w, "{}: client premaster(B={bp} k={k} x={x} a={a} u={u}) = {c}, not {w}", label(g));
    let s = guard(|| SrpServer::<D>::new(g).compute_premaster_secret(bp, k, u, a)).map_err(Fail::from)?;
    let w = rf::powm(&(bp % n * rf::powm(k, u, n) % n), a, n);
    ensure!(s == w, "{}: server premaster(A={bp} v={k} u={u} b={a}) = {s}, not {w}", label(g));
    st.steps(2);
    st.state(&(label(g), by(&c), by(&s)));
    Ok(())
}
fn r04_toy<D: Digest>(ctx: &Ctx, groups: &[SrpGroup], is: &[Id], name: &str) {
    let groups = &trim(ctx, groups, name);
    ctx.par(&format!("toy/{name}"), groups.len() * is.len(), |w, j| {
        let (g, i) = (&groups[j % groups.len()], &is[j / groups.len()]);
        w.case(&format!("{}/{}", label(g), j / groups.len()), |st| {
            let n = g.n.to_u64_digits()[0];
            let step = if n < 60 { 1 } else { 1 + n / 30 } as usize;
            let x = rf::x::<D>(&i.0, &i.1, &i.2);
            let v = rf::v::<D>(g, &x);
            for a in (0..=n).step_by(step) {
                simple::<D>(st, g, i, &rf::b(a), &v)?;
                for bb in (0..=2 * n).step_by(step) {
                    cl::<D>(st, ctx, g, i, &x, &rf::b(a), &rf::b(bb))?;
                }
                for ap in (0..=2 * n).step_by(step) {
                    sv::<D>(st, ctx, g, &rf::b(a), &v, &rf::b(ap))?;
                }
            }
            if j / groups.len() == 0 {
                // every verifier value, also out of range
                for vv in (0..=2 * n).step_by(step) {
                    for b in (0..=n).step_by(step) {
                        sv::<D>(st, ctx, g, &rf::b(b), &rf::b(vv), &rf::b(1 + b % (n - 1)))?;
                        simple::<D>(st, g, i, &rf::b(b), &rf::b(vv))?;
                    }
                }
            }
            Ok(())
        });
    });
}
fn r04_sweep<D: Digest>(ctx: &Ctx, g: &SrpGroup, name: &str) {
    let lens = alpha::lengths(ctx.t(200, 600));
    let t = alpha::tricky();
    let tx = alpha::texts();
    let done = lens.len() + t.len() * t.len();
    ctx.par(&format!("strings/{name}"), done + tx.len(), |w, j| {
        w.case(&format!("{j}"), |st| {
            let mut is = vec![];
            if j < lens.len() {
                let l = lens[j];
                for s in [alpha::base(l, 1), vec![0; l], vec![0xff; l], vec![b':'; l]] {
                    is.push(id(&s, b"password", b"salt"));
                    is.push(id(b"user", &s, b"salt"));
                    is.push(id(b"user", b"password", &s));
                }
            } else if j >= done {
                let s = &tx[j - done];
                is.push(id(s, b"password", b"salt"));
                is.push(id(b"user", s, b"salt"));
                is.push(id(b"user", b"password", s));
            } else {
                let (x, y) = (&t[(j - lens.len()) / t.len()], &t[(j - lens.len()) % t.len()]);
                is.push(id(x, y, b"salt"));
                is.push(id(x, b"pass", y));
                is.push(id(b"user", x, y));
            }
            for i in &is {
                let x = rf::x::<D>(&i.0, &i.1, &i.2);
                let v = rf::v::<D>(g, &x);
                let (a, b) = (B::from_bytes_be(&alpha::base(24, j as u8)), B::from_bytes_be(&alpha::base(24, j as u8 ^ 0x55)));
                simple::<D>(st, g, i, &a, &v)?;
                let bp = rf::bpub::<D>(g, &b, &v);
                let ap = rf::powm(&g.g, &a, &g.n);
                cl::<D>(st, ctx, g, i, &x, &a, &bp)?;
                sv::<D>(st, ctx, g, &b, &v, &ap)?;
            }
            Ok(())
        });
    });
}
fn r04_medium<D: Digest>(ctx: &Ctx, gs: &[SrpGroup], name: &str) {
    ctx.par(&format!("medium/{name}"), gs.len() * 26, |w, j| {
        let (g, q) = (&gs[j / 26], j % 26);
        if !ctx.thorough && !matches!(name, "sha256" | "builtin") && q % 5 != 0 {
            return;
        }
        w.case(&format!("{}/{q}", label(g)), |st| {
            let e = exps(g);
            let i = &ids(7)[q % 7];
            let x = rf::x::<D>(&i.0, &i.1, &i.2);
            let v = rf::v::<D>(g, &x);
            let a = &e[q];
            simple::<D>(st, g, i, a, &v)?;
            for y in &e {
                let bp = rf::bpub::<D>(g, y, &v);
                let ap = rf::powm(&g.g, y, &g.n);
                cl::<D>(st, ctx, g, i, &x, a, &bp)?;
                sv::<D>(st, ctx, g, a, &v, &ap)?;
                // public and stored values that no honest peer sends, also at and above N
                cl::<D>(st, ctx, g, i, &x, a, y)?;
                sv::<D>(st, ctx, g, a, &v, y)?;
                sv::<D>(st, ctx, g, a, y, &ap)?;
                premaster::<D>(st, g, [y, a, &x, y, a])?;
            }
            Ok(())
        });
    });
}
fn r04_builtin<D: Digest>(ctx: &Ctx, name: &str) {
    let gs = builtin();
    let per = ctx.t([60usize, 16, 10, 4, 2, 1, 1], [300, 120, 80, 30, 16, 8, 5]);
    let jobs: Vec<(usize, usize)> = (0..7).rev().flat_map(|q| (0..per[q]).map(move |i| (q, i))).collect();
    ctx.par(&format!("builtin/{name}"), jobs.len(), |w, j| {
        let (q, n) = jobs[j];
        let g = gs[q].2;
        w.case(&format!("{}/{n}", gs[q].0), |st| {
            let i = &ids(12)[n % 12];
            let x = rf::x::<D>(&i.0, &i.1, &i.2);
            let v = rf::v::<D>(g, &x);
            // n = 0: full-size secrets; small n: short public values; then 32-byte secrets
            let (a, b) = match n {
                0 => (B::from_bytes_be(&alpha::base(64, 1)), B::from_bytes_be(&alpha::base(64, 2))),
                1..=4 => (rf::b(n as u64), B::from_bytes_be(&alpha::base(32, 2))),
                5..=6 => (B::from_bytes_be(&alpha::base(32, 2)), rf::b(n as u64)),
                _ => (B::from_bytes_be(&alpha::base(32, n as u8)), B::from_bytes_be(&alpha::base(32, n as u8 ^ 0xaa))),
            };
            if q < 4 {
                simple::<D>(st, g, i, &a, &v)?;
            }
            let bp = rf::bpub::<D>(g, &b, &v);
            let ap = rf::powm(&g.g, &a, &g.n);
            cl::<D>(st, ctx, g, i, &x, &a, &bp)?;
            sv::<D>(st, ctx, g, &b, &v, &ap)
        });
    });
}
/// public values whose encodings are shorter than N by up to all but one byte, or start, end or are
/// filled with special bytes
fn shapes(g: &SrpGroup) -> Vec<B> {
    let l = g.n.to_bytes_be().len();
    let body = alpha::base(l, 9);
    let mut o = vec![];
    let lens: Vec<usize> = if l <= 16 { (1..=l).collect() } else { [1, 2, 3, 7, 8, 9, l / 2].into_iter().chain(l - 9..=l).collect() };
    for k in lens {
        let mut v = body[l - k..].to_vec();
        v[0] = if k == l { 1 } else { 0xa5 };
        o.push(v.clone());
        v[0] = 1;
        o.push(v.clone());
        // trailing zero bytes
        for z in [1, 2, 8] {
            if z < k {
                v[k - z..].fill(0);
                o.push(v.clone());
            }
        }
        v[1..].fill(0);
        o.push(v.clone());
        v[1..].fill(0xff);
        o.push(v);
    }
    let mut o: Vec<B> = o.iter().map(|v| B::from_bytes_be(v)).collect();
    o.sort();
    o.dedup();
    o
}
/// public values of every length: received ones, and B of the server by choice of the verifier
fn r04_shapes<D: Digest>(ctx: &Ctx, gs: &[(SrpGroup, usize)], name: &str) {
    let jobs: Vec<(usize, B)> = gs.iter().enumerate().flat_map(|(q, (g, every))| shapes(g).into_iter().step_by(*every).map(move |v| (q, v))).collect();
    ctx.par(&format!("shapes/{name}"), jobs.len(), |w, j| {
        let (q, val) = &jobs[jobs.len() - 1 - j];
        let g = &gs[*q].0;
        w.case(&format!("{q}/{}", show(&by(val))), |st| {
            let i = &ids(3)[j % 3];
            let x = rf::x::<D>(&i.0, &i.1, &i.2);
            let (a, b) = (B::from_bytes_be(&alpha::base(16, j as u8)), B::from_bytes_be(&alpha::base(16, j as u8 ^ 0xaa)));
            cl::<D>(st, ctx, g, i, &x, &a, val)?;
            let v = rf::v::<D>(g, &x);
            sv::<D>(st, ctx, g, &b, &v, val)?;
            // v = (val - g^b) / k mod N
            let k = rf::k::<D>(g) % &g.n;
            if k == rf::b(0) {
                return Ok(());
            }
            let Some(inv) = k.modinv(&g.n) else { return Ok(()) };
            let v = (val + &g.n - rf::powm(&g.g, &b, &g.n)) % &g.n * inv % &g.n;
            ensure!(rf::bpub::<D>(g, &b, &v) == val % &g.n, "harness: crafted verifier");
            sv::<D>(st, ctx, g, &b, &v, &rf::powm(&g.g, &a, &g.n))?;
            simple::<D>(st, g, i, &b, &v)
        });
    });
}
pub fn r04(ctx: &Ctx) {
    ctx.bound("toy groups: all a, all B in 0..=2N, all b, all v in 0..=2N, all A in 0..=2N for N<60 (strided above), 19 digests (quick: all groups for 3 of them, every fourth group for the rest), several identities");
    ctx.bound("27 medium groups: 26 special exponents squared, including values at and above N; lengths 0..200 of each string; 48x48 tricky strings; built-in groups with small, 32-byte and 64-byte secrets");
    ctx.bound("public values of every length in bytes of each medium group, of 18 lengths of the built-in groups, with special first and last bytes: received, and as B of the server (by choice of the verifier)");
    ctx.assume("num-bigint modular exponentiation above 63 bits");
    let groups = toys(ctx.t(400, 1000));
    let is = ids(ctx.t(4, 12));
    all_digests!(r04_toy, ctx, &groups, &is);
    let gs = medium();
    some_digests!(r04_medium, ctx, &gs[..ctx.t(21, 27)]);
    r04_medium::<Sha256>(ctx, &wide(), "wideg");
    all_digests!(r04_sweep, ctx, &gs[13]);
    r04_sweep::<Sha256>(ctx, &gs[18], "sha256b");
    let toy: Vec<SrpGroup> = [5u64, 7, 11, 23].iter().map(|n| g(*n, root(*n))).collect();
    ctx.par("premaster", toy.len(), |w, j| {
        w.case(&label(&toy[j]), |st| {
            let n = toy[j].n.to_u64_digits()[0];
            let top = ctx.t(8, n).min(n) + 2;
            let mut vals: Vec<B> = (0..top).map(rf::b).collect();
            vals.extend([rf::b(n - 1), rf::b(n), rf::b(n + 1)]);
            vals.extend([rf::b(2 * n + 1), rf::b(1000 * n + 3)]);
            for a in &vals {
                for b in &vals {
                    for c in &vals {
                        for d in &vals {
                            for e in &vals[..4.min(vals.len())] {
                                premaster::<T1>(st, &toy[j], [a, b, c, d, e])?;
                            }
                        }
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
    ctx.par("many", ctx.t(40_000, 1_000_000), |w, j| {
        w.case(&format!("{j}"), |st| {
            let g = &gs[j % 16];
            let i = id(b"user", &(j as u32).to_be_bytes(), b"salt");
            let x = rf::x::<Sha256>(&i.0, &i.1, &i.2);
            let v = rf::v::<Sha256>(g, &x);
            let e = B::from_bytes_be(&rf::h::<Sha256>(&[&(j as u64).to_be_bytes()])[..20]);
            let f = B::from_bytes_be(&rf::h::<Sha256>(&[&(j as u64).to_le_bytes()])[..20]);
            simple::<Sha256>(st, g, &i, &e, &v)?;
            cl::<Sha256>(st, ctx, g, &i, &x, &e, &rf::bpub::<Sha256>(g, &f, &v))?;
            sv::<Sha256>(st, ctx, g, &f, &v, &rf::powm(&g.g, &e, &g.n))
        });
    });
    let mut all: Vec<(SrpGroup, usize)> = gs.iter().map(|g| (g.clone(), 1)).collect();
    all.extend(builtin().iter().zip([1usize; 7]).map(|(b, every)| (b.2.clone(), every)));
    r04_shapes::<Sha256>(ctx, &all, "sha256");
    r04_builtin::<Sha1>(ctx, "sha1");
    r04_builtin::<Sha256>(ctx, "sha256");
    r04_builtin::<Sha512>(ctx, "sha512");
}

// ---------------------------------------------------------------- R05

fn canonical(g: &SrpGroup, v: &[u8], what: &str) -> R {
    ensure!(!v.is_empty() && (v[0] != 0 || v.len() == 1), "{what} is not the canonical encoding of an integer: {}", show(v));
    ensure!(B::from_bytes_be(v) < g.n, "{what} is not below N: {}", show(v));
    Ok(())
}
struct All {
    verifier: Vec<u8>,
    ap: Vec<u8>,
    bp: Vec<u8>,
    c: Option<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    s: Option<(Vec<u8>, Vec<u8>, Vec<u8>)>,
}
/// everything the API hands out for one tuple of byte inputs
fn all<D: Digest>(g: &SrpGroup, i: &Id, a: &[u8], b: &[u8], v: &[u8], ap: &[u8], bp: &[u8], m: &[(Vec<u8>, Vec<u8>)]) -> Result<All, Fail> {
    let c = SrpClient::<D>::new(g);
    let s = SrpServer::<D>::new(g);
    let (verifier, p, q) = guard(|| (c.compute_verifier(&i.0, &i.1, &i.2), c.compute_public_ephemeral(a), s.compute_public_ephemeral(b, v))).map_err(Fail::from)?;
    let cr = creply::<D>(g, a, i, bp)?.ok();
    let sr = sreply::<D>(g, b, v, ap)?.ok();
    let acc = |f: &dyn Fn(&[u8], &[u8]) -> bool| m.iter().position(|(x, y)| f(x, y)).map(|p| p.to_le_bytes().to_vec()).unwrap_or_default();
    Ok(All {
        verifier,
        ap: p,
        bp: q,
        c: cr.map(|c| (c.key().to_vec(), c.proof().to_vec(), acc(&|_, y| c.verify_server(y).is_ok()))),
        s: sr.map(|s| (s.key().to_vec(), s.proof().to_vec(), acc(&|x, _| s.verify_client(x).is_ok()))),
    })
}
fn prefixes(n: usize) -> Vec<usize> {
    let mut v = vec![1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, n.saturating_sub(1).max(1), n, n + 1, 1100];
    v.sort();
    v.dedup();
    v
}
fn zeros<D: Digest>(st: &mut Stats, g: &SrpGroup, i: &Id, a: &B, b: &B, v: &B, ap: &B, bp: &B, pre: &[usize]) -> R {
    let o = [by(a), by(b), by(v), by(ap), by(bp)];
    // both proofs of the reference so that acceptance is compared too
    let base = all::<D>(g, i, &o[0], &o[1], &o[2], &o[3], &o[4], &[])?;
    let mut m: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if bp % &g.n != rf::b(0) && ap % &g.n != rf::b(0) {
        let x = rf::x::<D>(&i.0, &i.1, &i.2);
        for pd in [true, false] {
            let s = rf::server::<D>(g, b, v, ap, pd);
            let c = rf::client::<D>(g, a, &x, bp, pd);
            m.push((s.m1, c.m2));
        }
    }
    let base = All { c: None, s: None, ..base };
    let full = all::<D>(g, i, &o[0], &o[1], &o[2], &o[3], &o[4], &m)?;
    let _ = base;
    let d = |w: &str| format!("{} {w} for {} a={} b={} v={} A={} B={}", label(g), idshow(i), show(&o[0]), show(&o[1]), show(&o[2]), show(&o[3]), show(&o[4]));
    canonical(g, &full.verifier, &d("verifier"))?;
    canonical(g, &full.ap, &d("client public value"))?;
    canonical(g, &full.bp, &d("server public value"))?;
    if let Some(c) = &full.c {
        canonical(g, &c.0, &d("client key"))?;
    }
    if let Some(s) = &full.s {
        canonical(g, &s.0, &d("server key"))?;
    }
    st.steps(5);
    let mut sets: Vec<[usize; 5]> = vec![];
    for p in pre {
        for f in 0..5 {
            let mut z = [0; 5];
            z[f] = *p;
            sets.push(z);
        }
        sets.push([*p; 5]);
    }
    for z in sets {
        let e: Vec<Vec<u8>> = (0..5).map(|f| [&vec![0u8; z[f]][..], &o[f]].concat()).collect();
        let r = all::<D>(g, i, &e[0], &e[1], &e[2], &e[3], &e[4], &m)?;
        st.steps(5);
        ensure!(r.ap == full.ap, "{}: client public value changes when {z:?} zero bytes are prepended", d(""));
        ensure!(r.bp == full.bp, "{}: server public value changes when {z:?} zero bytes are prepended to (a,b,v,A,B)", d(""));
        ensure!(r.c == full.c, "{}: client session changes when {z:?} zero bytes are prepended to (a,b,v,A,B)", d(""));
        ensure!(r.s == full.s, "{}: server session changes when {z:?} zero bytes are prepended to (a,b,v,A,B)", d(""));
    }
    // a zero value may be the empty string
    for f in 0..5 {
        if o[f] == [0] {
            let mut e = o.clone();
            e[f] = vec![];
            let r = all::<D>(g, i, &e[0], &e[1], &e[2], &e[3], &e[4], &m)?;
            ensure!(r.ap == full.ap && r.bp == full.bp && r.c == full.c && r.s == full.s, "{}: zero and the empty string differ in argument {f}", d(""));
        }
    }
    st.state(&(label(g), &full.verifier, &full.ap, &full.bp, &full.c, &full.s));
    st.trace();
    Ok(())
}
fn r05_toy<D: Digest>(ctx: &Ctx, gs: &[SrpGroup], name: &str) {
    let gs = &trim(ctx, gs, name);
    ctx.par(&format!("toy/{name}"), gs.len() * 3, |w, j| {
        let (g, i) = (&gs[j / 3], &ids(3)[j % 3]);
        w.case(&format!("{}/{}", label(g), j % 3), |st| {
            let n = g.n.to_u64_digits()[0];
            let step = if n <= 11 { 1 } else { 1 + n / 9 } as usize;
            for a in (0..=n).step_by(step) {
                for b in (0..=n).step_by(step) {
                    let v = rf::b(a * b % (n + 1));
                    zeros::<D>(st, g, i, &rf::b(a), &rf::b(b), &v, &rf::b((a + 3 * b) % (2 * n)), &rf::b((2 * a + b) % (2 * n)), &[1, 2, 5])?;
                }
            }
            Ok(())
        });
    });
}
fn r05_medium<D: Digest>(ctx: &Ctx, gs: &[SrpGroup], name: &str) {
    ctx.par(&format!("medium/{name}"), gs.len() * 26, |w, j| {
        let (g, q) = (&gs[gs.len() - 1 - j / 26], j % 26);
        if !ctx.thorough && !matches!(name, "sha256" | "builtin") && q % 5 != 0 {
            return;
        }
        w.case(&format!("{}/{q}", label(g)), |st| {
            let e = exps(g);
            let i = &ids(7)[q % 7];
            if g.n.bits() > 2048 && q > 1 {
                return Ok(());
            }
            let pre = if g.n.bits() >= 1024 { vec![1, 128, 300] } else { prefixes(g.n.to_bytes_be().len()) };
            let k = if g.n.bits() >= 1024 { 1 } else { 4 };
            for r in 0..k {
                let v = rf::powm(&g.g, &e[(q + r) % 26], &g.n);
                let small = g.n.bits() > 2048;
                let a = if small { &e[3 + q] } else { &e[q] };
                let b = if small { &e[4] } else { &e[(q * 3 + r) % 26] };
                let bp = rf::bpub::<D>(g, b, &v);
                let ap = rf::powm(&g.g, a, &g.n);
                zeros::<D>(st, g, i, a, b, &v, &ap, &bp, &pre)?;
                if !small {
                    zeros::<D>(st, g, i, a, b, &e[(q + 5) % 26], &e[(q + 7) % 26], &e[(q + 11) % 26], &pre[..1])?;
                }
            }
            Ok(())
        });
    });
}
pub fn r05(ctx: &Ctx) {
    ctx.bound("every numeric argument alone and all together prefixed with up to 1100 zero bytes, over toy groups (all small values), 27 medium groups x 26 special values and the built-in groups; every value handed out checked canonical and below N");
    ctx.bound("verifiers of all single edits of user, password and salt (48 strings, lengths 0..140) pairwise distinct from the original");
    let toy = toys(ctx.t(60, 400));
    all_digests!(r05_toy, ctx, &toy);
    let gs = medium();
    some_digests!(r05_medium, ctx, &gs);
    r05_medium::<Sha256>(ctx, &wide(), "wideg");
    let bi: Vec<SrpGroup> = builtin().into_iter().take(ctx.t(5, 7)).map(|x| x.2.clone()).collect();
    r05_medium::<Sha256>(ctx, &bi, "builtin");
    // rare shapes of outputs: leading zero bytes
    ctx.par("many", ctx.t(24_000, 600_000), |w, j| {
        w.case(&format!("{j}"), |st| {
            let g = &gs[j % 19];
            let i = id(b"user", &(j as u32).to_be_bytes(), b"salt");
            let e = B::from_bytes_be(&rf::h::<Sha256>(&[&(j as u64).to_be_bytes()])[..20]);
            let f = B::from_bytes_be(&rf::h::<Sha256>(&[&(j as u64).to_le_bytes()])[..20]);
            let x = rf::x::<Sha256>(&i.0, &i.1, &i.2);
            let v = rf::v::<Sha256>(g, &x);
            zeros::<Sha256>(st, g, &i, &e, &f, &v, &rf::powm(&g.g, &e, &g.n), &rf::bpub::<Sha256>(g, &f, &v), &[1])
        });
    });
    // strings are used byte for byte
    let g1 = &gs[19];
    let t = alpha::tricky();
    let lens = alpha::lengths(ctx.t(140, 300));
    let tx = alpha::all_texts();
    ctx.par("texts", 3, |w, f| {
        w.case(&format!("{f}"), |st| {
            let c = SrpClient::<Sha256>::new(g1);
            let mut seen: HashMap<Vec<u8>, &[u8]> = HashMap::new();
            for s in &tx {
                let i = match f {
                    0 => id(s, b"password", b"salt"),
                    1 => id(b"user", s, b"salt"),
                    _ => id(b"user", b"password", s),
                };
                let ver = guard(|| c.compute_verifier(&i.0, &i.1, &i.2)).map_err(Fail::from)?;
                st.step();
                ensure!(ver == by(&rf::v::<Sha256>(g1, &rf::x::<Sha256>(&i.0, &i.1, &i.2))), "verifier of {} is not computed from the exact bytes", idshow(&i));
                if let Some(o) = seen.insert(ver, s) {
                    fail!("field {f}: {} and {} have the same verifier", show(o), show(s));
                }
            }
            st.trace();
            Ok(())
        });
    });
    ctx.par("strings", (t.len() + lens.len()) * 3, |w, j| {
        let (q, f) = (j / 3, j % 3);
        w.case(&format!("{q}.{f}"), |st| {
            let s = if q < t.len() { t[q].clone() } else { alpha::base(lens[q - t.len()], 1) };
            let mk = |s: &[u8]| match f {
                0 => id(s, b"password", b"salt"),
                1 => id(b"user", s, b"salt"),
                _ => id(b"user", b"password", s),
            };
            let c = SrpClient::<Sha256>::new(g1);
            let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
            let mut all = vec![s.clone()];
            if s.len() < 400 {
                all.extend(alpha::neighbours(&s).into_iter().map(|x| x.1));
            } else {
                all.push(s[1..].to_vec());
                all.push(s[..s.len() - 1].to_vec());
            }
            if q < t.len() {
                all.extend(t.iter().cloned());
            }
            all.sort();
            all.dedup();
            for v in all {
                let i = mk(&v);
                let ver = guard(|| c.compute_verifier(&i.0, &i.1, &i.2)).map_err(Fail::from)?;
                st.step();
                st.state(&ver);
                ensure!(ver == by(&rf::v::<Sha256>(g1, &rf::x::<Sha256>(&i.0, &i.1, &i.2))), "verifier of {} is not computed from the exact bytes", idshow(&i));
                if let Some(o) = seen.insert(ver, v.clone()) {
                    fail!("field {f}: {} and {} have the same verifier", show(&o), show(&v));
                }
            }
            st.trace();
            Ok(())
        });
    });
}
