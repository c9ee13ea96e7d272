//! S03: exactly the well-formed messages of the other role are accepted, with the documented errors.
use crate::drive::*;
use crate::refm::{classify, Dec, Role, ROLES};
use crate::toy::*;
use mccore::{alpha, ensure, fail, guard, hex, Ctx, Fail, Stats};
use spake2::{Ed25519Group, Error, Group};

fn expect<G: Group>(
    st: &mut Stats,
    role: Role,
    x: impl Fn() -> mccore::rng::Tape,
    msg: &[u8],
    len: usize,
    body: impl Fn(&[u8]) -> Dec,
) -> mccore::R {
    let (s, _) = start::<G>(role, b"pw", [b"idA", b"idB"], x());
    let r = guard(|| s.finish(msg)).map_err(|e| Fail::from(format!("{role:?} finish({}): {e}", hex(msg))))?;
    st.steps(2);
    let badlen = msg.len() != 1 + len;
    let badside = !msg.is_empty() && msg[0] != role.peer().byte();
    let b = if badlen { Dec::Open } else { body(&msg[1..]) };
    let defects = badlen || badside || b == Dec::NotPoint;
    match r {
        Ok(k) => {
            ensure!(!defects, "{role:?} accepted a malformed message: len={} side={:?} body={b:?}: {}", msg.len(), msg.first(), hex(msg));
            ensure!(k.len() == 32, "key of {} bytes", k.len());
            st.outcome("accepted");
        }
        Err(e) => {
            let ok = match e {
                Error::WrongLength => badlen,
                Error::BadSide => badside,
                Error::CorruptMessage => !badlen && b != Dec::Point,
            };
            ensure!(ok, "{role:?}: error {e:?} for message len={} (want {}) side={:?} body={b:?}: {}", msg.len(), 1 + len, msg.first(), hex(msg));
            st.outcome(errname(e));
        }
    }
    st.trace();
    Ok(())
}

fn toy<G: Group + Small>(ctx: &Ctx) {
    let is = |b: &[u8]| if (0..G::Q).any(|e| G::enc(e) == b) { Dec::Point } else { Dec::NotPoint };
    let l = G::L;
    ctx.par(&format!("toy/{}", G::label()), 256, |w, side| {
        w.case(&format!("side{side:02x}"), |st| {
            for role in ROLES {
                for x in 0..G::Q {
                    for y in 0..G::Q {
                        let mut m = vec![side as u8];
                        m.extend(G::enc(y));
                        st.state(&(G::label(), role, side, x, y));
                        expect::<G>(st, role, || tx(x), &m, l, is)?;
                    }
                    // all lengths, extensions and truncations of valid encodings and constant fillings
                    for n in 0..=(2 * l + 70) {
                        for f in 0..3 {
                            let mut m: Vec<u8> = match f {
                                0 => {
                                    let mut v = vec![side as u8];
                                    v.extend(G::enc(1 % G::Q));
                                    v
                                }
                                1 => vec![side as u8],
                                _ => vec![side as u8; 3 * l + 80],
                            };
                            m.resize(n, if f == 1 { 0xff } else { 0 });
                            expect::<G>(st, role, || tx(x), &m, l, is)?;
                        }
                        if x > 0 {
                            break;
                        }
                    }
                }
                // all one-byte bodies / two-byte bodies
                if l == 1 {
                    for b in 0..=255u8 {
                        st.state(&(role, side, b));
                        expect::<G>(st, role, || tx(1), &[side as u8, b], l, is)?;
                    }
                }
                if l == 2 && (side == role.peer().byte() as usize || side % 64 == 1) {
                    for b in 0..=65535u32 {
                        expect::<G>(st, role, || tx(1), &[side as u8, (b >> 8) as u8, b as u8], l, is)?;
                    }
                }
            }
            Ok(())
        });
    });
}

pub fn run(ctx: &Ctx) {
    ctx.bound("toy groups (element lengths 1,2,5,31..33,64): every side byte x every element x every ephemeral, every one- and two-byte body, every length up to 2*len+70");
    ctx.bound("Ed25519: every side byte, every length 0..300, every single-byte substitution of a valid body, every y within 1200 (thorough 20000) of 0 and of p with both signs, all small-order points");
    ctx.assume("a message with several defects may be refused with the error of any of them; a non-canonical point encoding may be accepted or refused as corrupt");
    toy::<Toy<3, 1, 0, 0>>(ctx);
    toy::<Toy<7, 1, 2, 0>>(ctx);
    toy::<Toy<5, 2, 1, 0>>(ctx);
    toy::<Toy<3, 5, 2, 0>>(ctx);
    toy::<Toy<5, 31, 1, 0>>(ctx);
    toy::<Toy<5, 32, 0, 0>>(ctx);
    toy::<Toy<5, 32, 2, 0>>(ctx);
    toy::<Toy<3, 33, 1, 0>>(ctx);
    toy::<Toy<3, 64, 1, 0>>(ctx);
    toy::<Toy<3, 128, 2, 0>>(ctx);
    toy::<Toy<2, 255, 1, 0>>(ctx);
    toy::<Toy<3, 256, 0, 0>>(ctx);
    toy::<Toy<3, 257, 2, 0>>(ctx);

    let sp = special();
    let l = 32usize;
    let cl = |b: &[u8]| {
        let mut a = [0u8; 32];
        a.copy_from_slice(b);
        classify(&a)
    };
    let valid: Vec<Vec<u8>> = (0..4)
        .map(|i| start::<Ed25519Group>(Role::S, b"pw", [b"i", b""], te(&sp[17 + i])).1[1..].to_vec())
        .collect();
    let with = |side: u8, b: &[u8]| {
        let mut m = vec![side];
        m.extend_from_slice(b);
        m
    };
    ctx.par("ed/sides", 256, |w, side| {
        w.case(&format!("{side:02x}"), |st| {
            for role in ROLES {
                for v in &valid {
                    expect::<Ed25519Group>(st, role, || te(&sp[18]), &with(side as u8, v), l, cl)?;
                    for n in [0usize, 1, 31, 33, 34, 64] {
                        let mut b = v.clone();
                        b.resize(n, 0);
                        expect::<Ed25519Group>(st, role, || te(&sp[18]), &with(side as u8, &b), l, cl)?;
                    }
                }
                expect::<Ed25519Group>(st, role, || te(&sp[18]), &with(side as u8, &[2; 32]), l, cl)?;
                st.state(&(side, role));
            }
            Ok(())
        });
    });
    ctx.par("ed/lengths", ctx.t(301, 1200), |w, n| {
        w.case(&format!("{n}"), |st| {
            for role in ROLES {
                for fill in 0..4 {
                    let mut m = match fill {
                        0 => with(role.peer().byte(), &valid[0]),
                        1 => valid[0].clone(),
                        2 => with(role.byte(), &valid[1]),
                        _ => vec![role.peer().byte(); n],
                    };
                    let tail = if fill == 0 { 0 } else { valid[2][n % 32] };
                    m.resize(n, tail);
                    expect::<Ed25519Group>(st, role, || te(&sp[18]), &m, l, cl)?;
                    st.state(&(role, fill, n));
                }
            }
            Ok(())
        });
    });
    let nb = ctx.t(1usize, 4);
    ctx.par("ed/subst", 32 * nb, |w, i| {
        let (v, p) = (&valid[i / 32], i % 32);
        w.case(&format!("{i}"), |st| {
            for c in 0..=255u8 {
                let mut b = v.clone();
                b[p] = c;
                for role in ROLES {
                    st.state(&(b.clone(), role));
                    expect::<Ed25519Group>(st, role, || te(&sp[18]), &with(role.peer().byte(), &b), l, cl)?;
                }
            }
            Ok(())
        });
    });
    let range = ctx.t(1200u32, 20000);
    let pp = crate::refm::p25519().clone();
    ctx.par("ed/yrange", range as usize, |w, i| {
        w.case(&format!("{i}"), |st| {
            let mut ys = vec![num_bigint::BigUint::from(i as u32)];
            ys.push(&pp - 1u8 - i as u32);
            if i < 19 {
                ys.push(&pp + i as u32);
            }
            for y in ys {
                let mut b = y.to_bytes_le();
                b.resize(32, 0);
                for sign in [0u8, 0x80] {
                    let mut c = b.clone();
                    c[31] |= sign;
                    for role in ROLES {
                        st.state(&(c.clone(), role));
                        expect::<Ed25519Group>(st, role, || te(&sp[18]), &with(role.peer().byte(), &c), l, cl)?;
                    }
                }
            }
            Ok(())
        });
    });
    // small-order points and points plus a small-order component are group elements of the curve
    ctx.par("ed/torsion", 8 * sp.len(), |w, i| {
        w.case(&format!("{i}"), |st| {
            let t = curve25519_dalek::constants::EIGHT_TORSION[i % 8];
            let x = &sp[i / 8];
            for role in ROLES {
                expect::<Ed25519Group>(st, role, || te(x), &with(role.peer().byte(), &t.compress().to_bytes()), l, cl)?;
                for r in [role.peer(), role] {
                    // the peer's blinding element itself (K becomes trivial for password scalar 1), plus torsion
                    for e in [r.blind(), r.blind() * crate::refm::pw_scalar(b"pw"), -r.blind()] {
                        let m = with(role.peer().byte(), &(e + t).compress().to_bytes());
                        st.state(&(m.clone(), i));
                        expect::<Ed25519Group>(st, role, || te(x), &m, l, cl)?;
                    }
                }
            }
            Ok(())
        });
    });
    // messages in another transfer form: encoded as text, framed, without the side byte, turned round
    ctx.par("ed/reframed", 12 * ctx.t(16, 200), |w, i| {
        w.case(&format!("{i}"), |st| {
            for role in ROLES {
                let (_, m) = start::<Ed25519Group>(role.peer(), b"pw", [b"idA", b"idB"], mccore::rng::Tape::new(6_000_000 + i as u64));
                for f in alpha::reframed(&m) {
                    expect::<Ed25519Group>(st, role, || te(&sp[i % sp.len()]), &f, l, cl)?;
                    st.state(&f);
                }
                for f in alpha::reframed(&m[1..]) {
                    for s in [vec![], vec![role.peer().byte()], vec![role.byte()]] {
                        expect::<Ed25519Group>(st, role, || te(&sp[i % sp.len()]), &[&s[..], &f].concat(), l, cl)?;
                    }
                }
            }
            Ok(())
        });
    });
    // honest peer messages over many ephemerals
    ctx.par("ed/honest", ctx.t(15_000, 300_000), |w, i| {
        w.case(&format!("{i}"), |st| {
            let t = || mccore::rng::Tape::new(5_000_000 + i as u64);
            for role in ROLES {
                let (_, m) = start::<Ed25519Group>(role.peer(), b"pw", [b"idA", b"idB"], t());
                if m.len() != 33 || m[0] != role.peer().byte() {
                    fail!("{role:?}: outbound message malformed: {}", hex(&m));
                }
                st.state(&m);
                expect::<Ed25519Group>(st, role, || te(&sp[18]), &m, l, cl)?;
            }
            Ok(())
        });
    });
    let _ = alpha::tricky;
}
