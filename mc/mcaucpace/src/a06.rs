//! A06 what the password hasher receives and what is made of its answer.
use crate::hasher::{outbytes, par, Alt64, Out, Par, Rec};
use crate::party::*;
use crate::refm as rf;
use aucpace::client::*;
use aucpace::{AuCPaceClient, ClientMessage, Error};
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as B, RistrettoPoint as P};
use mccore::rng::Tape;
use mccore::{alpha, ensure, show, Ctx, Fail, Stats};
use password_hash::errors::{B64Error, InvalidValue};
use password_hash::{Error as PE, SaltString};
use sha2::Sha512;

const PRE: &[u8] = b"0123456789abcdef0123";
#[derive(Clone)]
struct In<'a> {
    user: &'a [u8],
    pw: &'a [u8],
    params: &'a str,
    pfail: Option<PE>,
    out: Out,
    seed: u64,
}
/// outcome of one path, already compared with the model
#[derive(PartialEq, Debug, Clone)]
enum Res {
    Err(Error),
    Reg(String, [u8; 32]),
    Key([u8; 64], [u8; 32]),
}
/// the errors that may be returned: the one that is due and, if the parameters cannot be encoded, also the error
/// that says so (nothing states which of two failing steps comes first); none if the call succeeds
fn want(i: &In, cap: Option<usize>, registration: bool) -> Vec<Error> {
    let mut v = vec![];
    if cap.is_some_and(|n| i.user.len() + i.pw.len() + 1 > n) {
        v.push(Error::UsernameOrPasswordTooLong);
    } else {
        match i.out {
            Out::Fail(e) => v.push(Error::PasswordHashing(e)),
            Out::Empty => v.push(Error::HashEmpty),
            Out::Len(n) | Out::Flip(n, _) | Out::Fill(n, _) => {
                if n != 32 && n != 64 {
                    v.push(Error::HashSizeInvalid);
                }
            }
        }
    }
    if registration {
        v.extend(i.pfail.map(Error::PasswordHashing));
    }
    v
}
fn is(r: Option<&Error>, w: &[Error]) -> bool {
    r.map_or(w.is_empty(), |e| w.contains(e))
}
fn calls(h: &Rec, i: &In, salt: Option<&str>, w: &[Error], registration: bool) -> Result<String, Fail> {
    let c = h.calls();
    if registration && i.pfail.is_some() && c.is_empty() {
        return Ok(String::new());
    }
    if w.contains(&Error::UsernameOrPasswordTooLong) {
        ensure!(c.is_empty(), "hasher called although the credentials do not fit");
        return Ok(String::new());
    }
    ensure!(c.len() == 1, "hasher called {} times", c.len());
    let s = salt.unwrap_or(&c[0].salt).to_string();
    let want = rf::call(i.user, i.pw, &s, i.params);
    ensure!(
        c[0] == want,
        "hasher received password {} salt {} params {}, should be {} {} {}",
        show(&c[0].password),
        c[0].salt,
        c[0].params,
        show(&want.password),
        want.salt,
        want.params
    );
    Ok(s)
}
fn reg_<D: Dg, const N: usize>(st: &mut Stats, i: &In, strong: bool, alloc: bool) -> Result<Res, Fail> {
    let mut c = AuCPaceClient::<D, Rec, Tape, 16>::new(Tape::new(i.seed));
    let h = Rec::new(i.out);
    let p = Par { p: par(i.params), fail: i.pfail };
    let m = match (strong, alloc) {
        (false, false) => c.register::<_, N>(i.user, i.pw, p, h.clone()),
        (false, true) => c.register_alloc(i.user, i.pw, p, h.clone()),
        (true, false) => c.register_strong::<_, N>(i.user, i.pw, p, h.clone()),
        (true, true) => c.register_alloc_strong(i.user, i.pw, p, h.clone()),
    };
    st.step();
    let w = want(i, if alloc { None } else { Some(N) }, true);
    ensure!(is(m.as_ref().err(), &w), "registration (strong {strong}, alloc {alloc}, buffer {N}) of {}+1+{} bytes gives {:?} instead of {w:?}", i.user.len(), i.pw.len(), m.as_ref().err());
    let r = match m {
        Err(e) => {
            calls(&h, i, None, &w, true)?;
            return Ok(Res::Err(e));
        }
        Ok(m) => reg(m).ok_or("another kind of message")?,
    };
    let salt = match (&r.salt, &r.q) {
        (Some(s), None) if !strong => s.as_str().to_string(),
        (None, Some(q)) if strong => rf::b64(&rf::enc(&(rf::z::<D>(i.user, i.pw) * q))),
        _ => return Err(Fail::from("registration message of another kind")),
    };
    let s = calls(&h, i, Some(&salt), &w, true)?;
    let v = rf::verifier(&rf::w(&outbytes(i.out, &rf::userpass(i.user, i.pw), &s, i.params)));
    ensure!(r.verifier == v, "verifier is not made from the whole hash");
    ensure!(r.user == i.user && r.params.as_str() == i.params, "user name or parameters changed");
    Ok(Res::Reg(s, rf::enc(&v)))
}
fn login_<D: Dg, const N: usize>(st: &mut Stats, i: &In, strong: bool, alloc: bool) -> Result<Res, Fail> {
    let mut c = AuCPaceClient::<D, Rec, Tape, 16>::new(Tape::new(i.seed));
    let h = Rec::new(i.out);
    let p = Par { p: par(i.params), fail: None };
    let ssid = rf::ssid::<D>(PRE);
    let pre: AuCPaceClientPreAug<D, Rec, 16> = c.begin_prestablished_ssid(PRE).map_err(|e| Fail::from(format!("{e:?}")))?;
    let (x, q) = (rf::sc(i.seed), rf::sc(i.seed + 1));
    let x_pub = B * x;
    let (salt, r);
    if strong {
        let (s, m) = pre.start_augmentation_strong(i.user, i.pw, &mut Tape::new(i.seed + 2));
        let ClientMessage::StrongUsername { blinded, .. } = m else { return Err(Fail::from("another kind of message")) };
        salt = rf::b64(&rf::enc(&(rf::z::<D>(i.user, i.pw) * q)));
        r = if alloc { s.generate_cpace_alloc(x_pub, blinded * q, p, h.clone()) } else { s.generate_cpace::<N>(x_pub, blinded * q, p, h.clone()) };
    } else {
        let (s, _) = pre.start_augmentation(i.user, i.pw);
        salt = rf::b64(&rf::h::<D>(9, &[&i.seed.to_le_bytes()])[..[3, 6, 16, 32, 48][i.seed as usize % 5]]);
        let ss = SaltString::from_b64(&salt).map_err(|_| "harness salt")?;
        r = if alloc { s.generate_cpace_alloc(x_pub, &ss, p, h.clone()) } else { s.generate_cpace::<&SaltString, N>(x_pub, &ss, p, h.clone()) };
    }
    st.steps(3);
    let w = want(i, if alloc { None } else { Some(N) }, false);
    ensure!(is(r.as_ref().err(), &w), "login (strong {strong}, alloc {alloc}, buffer {N}) of {}+1+{} bytes gives {:?} instead of {w:?}", i.user.len(), i.pw.len(), r.as_ref().err());
    calls(&h, i, Some(&salt), &w, false)?;
    let c = match r {
        Err(e) => return Ok(Res::Err(e)),
        Ok(c) => c,
    };
    let (k, m) = c.generate_public_key(b"ci", &mut Tape::new(i.seed + 3));
    let ClientMessage::PublicKey(yb) = m else { return Err(Fail::from("another kind of message")) };
    let w = rf::w(&outbytes(i.out, &rf::userpass(i.user, i.pw), &salt, i.params));
    let g = rf::generator::<D>(&ssid, &rf::enc(&(x_pub * w)), b"ci");
    let y = rf::sc(i.seed + 2);
    let key = k.implicit_auth(g * y).map_err(|e| Fail::from(format!("{e:?}")))?;
    st.steps(2);
    let want: P = yb * y;
    let keys = rf::keys::<D>(&ssid, &want);
    ensure!(key[..] == keys.sk, "session secret is not made from the whole hash");
    Ok(Res::Key(keys.sk, rf::enc(&yb)))
}
/// all eight paths for one input; buffer and allocating paths give the same result
fn paths<D: Dg, const N: usize>(st: &mut Stats, i: &In) -> Result<(), Fail> {
    let fits = i.user.len() + i.pw.len() < N;
    for strong in [false, true] {
        let a = reg_::<D, N>(st, i, strong, true)?;
        let b = reg_::<D, N>(st, i, strong, false)?;
        let c = login_::<D, N>(st, i, strong, true)?;
        let d = login_::<D, N>(st, i, strong, false)?;
        ensure!(!fits || (a == b && c == d), "fixed-buffer and allocating path differ");
        st.trace();
        st.state(&(format!("{a:?}{c:?}"), N));
        for r in [a, b, c, d] {
            st.outcome(match r {
                Res::Err(Error::PasswordHashing(_)) => "PasswordHashing",
                Res::Err(Error::HashEmpty) => "HashEmpty",
                Res::Err(Error::HashSizeInvalid) => "HashSizeInvalid",
                Res::Err(Error::UsernameOrPasswordTooLong) => "UsernameOrPasswordTooLong",
                Res::Err(_) => "other error",
                _ => "ok",
            });
        }
    }
    Ok(())
}
fn lens(n: usize, all: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    if n <= 17 || (all && n <= 65) {
        for u in 0..=n + 2 {
            for p in 0..=n + 2 {
                v.push((u, p));
            }
        }
    } else {
        for u in [0, 1, 2, 5, n / 2, n - 3, n - 2, n - 1, n, n + 1] {
            for p in [0, 1, 2, 5, n / 2, n - 1, n, n + 1] {
                v.push((u, p));
            }
            for t in (n - 3)..=n + 3 {
                v.push((u.min(t), t - u.min(t)));
            }
        }
    }
    for big in [254usize, 255, 256, 257, 511, 512, 65535, 65536, 65537] {
        for d in [0, 1, 2, 3, n / 2, n.saturating_sub(1), n, n + 1] {
            v.push((big, d));
            v.push((d, big));
        }
        v.push((big - 1, big));
        v.push((big / 2, big - big / 2 - 1));
        v.push((big / 2, big - big / 2));
    }
    v.sort();
    v.dedup();
    v
}
fn sizes<const N: usize>(ctx: &Ctx) {
    let l = lens(N, ctx.thorough);
    let chunk = 16;
    ctx.par(&format!("buffer/{N}"), l.len().div_ceil(chunk), |w, j| {
        w.case(&format!("{j}"), |st| {
            for (u, p) in l[j * chunk..].iter().take(chunk) {
                let (user, pw) = (alpha::base(*u, 1), alpha::base(*p, 2));
                let s = (u * 7 + p) as u64 % 100;
                let i = In { user: &user, pw: &pw, params: "n=3", pfail: None, out: Out::Len([32, 64][(u + p) % 2]), seed: s };
                paths::<Sha512, N>(st, &i)?;
            }
            Ok(())
        });
    });
}
fn errors() -> Vec<PE> {
    use std::cmp::Ordering::*;
    let mut v = vec![
        PE::Algorithm,
        PE::Crypto,
        PE::ParamNameDuplicated,
        PE::ParamNameInvalid,
        PE::ParamsMaxExceeded,
        PE::Password,
        PE::PhcStringField,
        PE::PhcStringTrailingData,
        PE::Version,
        PE::B64Encoding(B64Error::InvalidEncoding),
        PE::B64Encoding(B64Error::InvalidLength),
    ];
    for x in [InvalidValue::InvalidChar('x'), InvalidValue::InvalidFormat, InvalidValue::Malformed, InvalidValue::TooLong, InvalidValue::TooShort] {
        v.push(PE::ParamValueInvalid(x));
        v.push(PE::SaltInvalid(x));
    }
    for o in [Less, Equal, Greater] {
        for n in [0, 10, 32, 64] {
            v.push(PE::OutputSize { provided: o, expected: n });
        }
    }
    v
}
pub fn a06(ctx: &Ctx) {
    ctx.bound("registration and login x strong or not x fixed-buffer and allocating path for buffers of 0..5,8,16,17,32,33,64,65,100,128,255,256,257,400 bytes x user and password lengths around the buffer size (all pairs up to 17, thorough 65), around 256, 512 and 65536");
    ctx.bound("hasher answers: every output length 10..64, none, each of 33 hasher errors, parameter conversion errors; every bit of 32- and 64-byte outputs, constant outputs; 48x48 tricky (user,password); 12 parameter strings");
    ctx.assume("curve25519-dalek arithmetic, SHA-2");
    sizes::<0>(ctx);
    sizes::<1>(ctx);
    sizes::<2>(ctx);
    sizes::<3>(ctx);
    sizes::<4>(ctx);
    sizes::<5>(ctx);
    sizes::<8>(ctx);
    sizes::<16>(ctx);
    sizes::<17>(ctx);
    sizes::<32>(ctx);
    sizes::<33>(ctx);
    sizes::<64>(ctx);
    sizes::<65>(ctx);
    sizes::<100>(ctx);
    sizes::<128>(ctx);
    sizes::<255>(ctx);
    sizes::<256>(ctx);
    sizes::<257>(ctx);
    sizes::<400>(ctx);
    let mut outs: Vec<(Out, Option<PE>)> = (10..=64).map(|n| (Out::Len(n), None)).collect();
    outs.push((Out::Empty, None));
    outs.extend(errors().into_iter().map(|e| (Out::Fail(e), None)));
    outs.extend(errors().into_iter().map(|e| (Out::Len(32), Some(e))));
    for n in [32, 64] {
        outs.extend((0..n * 8).map(|b| (Out::Flip(n, b), None)));
        outs.extend([1u8, 0x7f, 0x80, 0xec, 0xed, 0xff].map(|b| (Out::Fill(n, b), None)));
    }
    ctx.par("outputs", outs.len(), |w, j| {
        w.case(&format!("{:?}", outs[j]), |st| {
            let (out, pfail) = outs[j];
            for (user, pw) in [(&b"user"[..], &b"pw"[..]), (b"", b""), (&[b'u'; 40], &[b'p'; 40])] {
                for seed in 0..ctx.t(3, 25) {
                    let i = In { user, pw, params: ["n=3", "", "a=1,b=xyz"][seed as usize % 3], pfail, out, seed };
                    paths::<Sha512, 64>(st, &i)?;
                    paths::<Alt64, 400>(st, &i)?;
                }
            }
            Ok(())
        });
    });
    let t = alpha::tricky();
    ctx.par("tricky", t.len() * t.len(), |w, j| {
        let (a, b) = (&t[j / t.len()], &t[j % t.len()]);
        w.case(&format!("{}-{}", j / t.len(), j % t.len()), |st| {
            let i = In { user: a, pw: b, params: "n=3", pfail: None, out: Out::Len([32, 64][j % 2]), seed: j as u64 % 50 };
            paths::<Sha512, 16>(st, &i)?;
            paths::<Sha512, 100>(st, &i)
        });
    });
    let tx = alpha::texts();
    ctx.par("texts", tx.len(), |w, j| {
        let t = &tx[j];
        w.case(&mccore::hex(t), |st| {
            for (u, p) in [(&t[..], &b"pw"[..]), (b"user", t)] {
                let i = In { user: u, pw: p, params: "n=3", pfail: None, out: Out::Len([32, 64][j % 2]), seed: j as u64 % 50 };
                paths::<Sha512, 100>(st, &i)?;
            }
            Ok(())
        });
    });
    let ps = ["", "a=1", "m=19456,t=2,p=1", "ln=17,r=8,p=1", "a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8", "i=4294967295", "x=AAAA/+", "z=0", "a=-1", "data=abc", "n=00", "long=aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
    ctx.par("params", ps.len() * 40, |w, j| {
        let p = ps[j % ps.len()];
        let parsed = par(p);
        w.case(&format!("{j}"), |st| {
            let i = In { user: b"user", pw: b"pw", params: parsed.as_str(), pfail: None, out: Out::Len(32), seed: j as u64 };
            paths::<Sha512, 64>(st, &i)
        });
    });
}
