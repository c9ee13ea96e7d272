//! S04: conformance to the published algorithm: an independent reference party talks to the real one.
use crate::drive::*;
use crate::refm::*;
use curve25519_dalek::{constants::EIGHT_TORSION, edwards::CompressedEdwardsY, scalar::Scalar};
use mccore::rng::Tape;
use mccore::{alpha, ensure, fail, guard, hex, show, Ctx, Fail, Stats, R};
use num_bigint::BigUint;
use spake2::{Ed25519Group, Group};

fn scalar(v: &BigUint) -> Scalar {
    scalar_be_mod(&v.to_bytes_be())
}
/// real party in `role` with tape `t`, reference peer with scalar y
fn conform(st: &mut Stats, role: Role, pw: &[u8], ids: [&[u8]; 2], t: Tape, y: &BigUint) -> R {
    let d = || format!("{role:?} pw={} ids={},{} y={y}", show(pw), show(ids[0]), show(ids[1]));
    let (s, m) = start::<Ed25519Group>(role, pw, ids, t.clone());
    ensure!(m.len() == 33 && m[0] == role.byte(), "{}: first message {}", d(), hex(&m));
    let mut body = [0u8; 32];
    body.copy_from_slice(&m[1..]);
    let Some(pt) = CompressedEdwardsY(body).decompress() else { fail!("{}: first message is not a point: {}", d(), hex(&m)) };
    ensure!(pt.compress().to_bytes() == body && pt.is_torsion_free(), "{}: first message is not a canonical element of the prime-order group: {}", d(), hex(&m));
    // the ephemeral the generator supplied, when the draw is recognisable
    let mut seen = false;
    for w in t.wide_windows(0) {
        let x = Scalar::from_bytes_mod_order_wide(&w);
        if Party::new(role, pw, ids, x).body == body {
            seen = true;
        }
    }
    st.outcome(if seen { "message = reference message for the drawn scalar" } else { "message of unidentified scalar" });
    let peer = Party::new(role.peer(), pw, ids, scalar(y));
    let want = peer.finish(&body).ok_or(Fail::from("reference cannot finish"))?;
    let got = guard(|| s.finish(&peer.msg())).map_err(|e| Fail::from(format!("{}: {e}", d())))?;
    st.steps(2);
    st.state(&want);
    match got {
        Ok(k) => ensure!(k == want, "{}: key {} but a conforming peer derives {}", d(), hex(&k), hex(&want)),
        Err(e) => fail!("{}: conforming peer message refused: {e:?}", d()),
    }
    st.trace();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.bound("all lengths 0..300 of password and identities, tricky strings, all one-byte strings (thorough: two-byte), special scalars on both ends, both orders and equality of the symmetric messages, every role");
    ctx.bound("password map: all passwords of up to 2 bytes, all lengths up to 600");
    ctx.assume("curve25519-dalek point arithmetic, SHA-256");
    let sp = special();
    ctx.seq("constants", |w| {
        w.case("elements", |st| {
            let c = consts();
            for (n, a, b) in [("M", Ed25519Group::const_m(), c.m), ("N", Ed25519Group::const_n(), c.n), ("S", Ed25519Group::const_s(), c.s)] {
                ensure!(a == b, "constant {n} is {} instead of {}", hex(&a.compress().to_bytes()), hex(&b.compress().to_bytes()));
                st.step();
            }
            ensure!(Ed25519Group::element_length() == 32, "element length");
            ensure!(Ed25519Group::name() == "Ed25519", "name");
            st.trace();
            Ok(())
        });
    });
    ctx.par("pwscalar/short", 257, |w, i| {
        w.case(&format!("{i}"), |st| {
            let mut v: Vec<Vec<u8>> = vec![];
            if i == 256 {
                v.push(vec![]);
                v.extend((0..=255u8).map(|b| vec![b]));
                v.extend(alpha::tricky());
                v.extend(alpha::lengths(600).into_iter().flat_map(|l| [alpha::base(l, 0), vec![0; l], vec![0xff; l]]));
            } else {
                v.extend((0..=255u8).map(|b| vec![i as u8, b]));
                if ctx.thorough {
                    v.extend((0..=65535u32).map(|b| vec![i as u8, (b >> 8) as u8, b as u8]));
                }
            }
            for p in v {
                ensure!(Ed25519Group::hash_to_scalar(&p) == pw_scalar(&p), "password scalar of {}", show(&p));
                st.step();
                st.state(&p);
            }
            st.trace();
            Ok(())
        });
    });
    ctx.par("scalars", sp.len() * sp.len(), |w, i| {
        let (x, y) = (&sp[i / sp.len()], &sp[i % sp.len()]);
        w.case(&format!("{}-{}", i / sp.len(), i % sp.len()), |st| {
            for role in ROLES {
                conform(st, role, b"password", [b"idA", b"idB"], te(x), y)?;
            }
            Ok(())
        });
    });
    let lens = alpha::lengths(ctx.t(300, 700));
    ctx.par("lengths", lens.len() * 3, |w, i| {
        let (l, field) = (lens[i / 3], i % 3);
        w.case(&format!("{l}.{field}"), |st| {
            for f in 0..3 {
                let s = match f {
                    0 => alpha::base(l, 2),
                    1 => vec![0; l],
                    _ => vec![0xff; l],
                };
                let mut v: [&[u8]; 3] = [b"password", b"idA", b"idB"];
                v[field] = &s;
                for role in ROLES {
                    conform(st, role, v[0], [v[1], v[2]], te(&sp[17 + (l + f) % 12]), &sp[17 + (l + 3) % 12])?;
                }
            }
            Ok(())
        });
    });
    let tr = alpha::tricky();
    ctx.par("tricky", tr.len() * tr.len(), |w, i| {
        let (a, b) = (&tr[i / tr.len()], &tr[i % tr.len()]);
        w.case(&format!("{}-{}", i / tr.len(), i % tr.len()), |st| {
            let y = &sp[17 + i % 12];
            conform(st, Role::A, b"pw", [a, b], te(&sp[17 + i / 7 % 12]), y)?;
            conform(st, Role::B, a, [b, b"z"], te(&sp[17 + i / 7 % 12]), y)?;
            conform(st, Role::S, a, [b, b""], te(&sp[17 + i / 7 % 12]), y)
        });
    });
    let tx = alpha::texts();
    ctx.par("texts", tx.len(), |w, i| {
        let t = &tx[i];
        w.case(&hex(t), |st| {
            ensure!(Ed25519Group::hash_to_scalar(t) == pw_scalar(t), "password scalar of {}", show(t));
            conform(st, Role::A, t, [b"x", t], te(&sp[17]), &sp[20])?;
            conform(st, Role::B, b"x", [t, b"y"], te(&sp[18]), &sp[20])?;
            conform(st, Role::S, b"x", [t, b""], te(&sp[18]), &sp[20])?;
            conform(st, Role::S, t, [t, b""], te(&sp[19]), &sp[20])
        });
    });
    ctx.par("short", ctx.t(256 + 8192, 256 + 65536), |w, i| {
        let s: Vec<u8> = if i < 256 { vec![i as u8] } else { vec![((i - 256) >> 8) as u8, (i - 256) as u8] };
        w.case(&hex(&s), |st| {
            for role in ROLES {
                conform(st, role, &s, [&s, b"x"], te(&sp[17]), &sp[20])?;
                conform(st, role, b"x", [b"y", &s], te(&sp[18]), &sp[20])?;
            }
            Ok(())
        });
    });
    ctx.par("tapes", ctx.t(20_000, 300_000), |w, i| {
        w.case(&format!("{i}"), |st| {
            let y = BigUint::from_bytes_le(&Tape::new(90_000_000 + i as u64).take64());
            for role in ROLES {
                conform(st, role, b"pw", [b"alice", b"bob"], Tape::new(80_000_000 + i as u64), &y)?;
            }
            Ok(())
        });
    });
    let rare = rare(ctx.t(24_000, 400_000));
    ctx.bound(format!("{} pairs of symmetric messages with 1..4 equal first or last bytes, {} ephemerals whose messages have runs of equal bytes or special ends, {} passwords whose scalars have special bytes", rare.near.len(), rare.shaped.len(), rare.pws.len()));
    ctx.par("near", rare.near.len(), |w, i| {
        let (x, y, _) = &rare.near[i];
        w.case(&format!("{i}"), |st| conform(st, Role::S, b"pw", [b"idA", b"idB"], te(x), y));
    });
    ctx.par("shaped", rare.shaped.len(), |w, i| {
        let (role, x) = &rare.shaped[i];
        w.case(&format!("{i}"), |st| {
            conform(st, *role, b"pw", [b"idA", b"idB"], te(x), &sp[17 + i % 12])?;
            conform(st, role.peer(), b"pw", [b"idA", b"idB"], te(&sp[17 + i % 12]), x)
        });
    });
    ctx.par("passwords", rare.pws.len(), |w, i| {
        w.case(&format!("{i}"), |st| {
            for role in ROLES {
                conform(st, role, &rare.pws[i], [b"idA", b"idB"], te(&sp[17 + i % 12]), &sp[17 + (i + 5) % 12])?;
            }
            Ok(())
        });
    });
    // symmetric: equal messages on both sides and all orders of closely related messages
    ctx.par("sym/equal", sp.len(), |w, i| {
        w.case(&format!("{i}"), |st| {
            conform(st, Role::S, b"pw", [b"i", b""], te(&sp[i]), &sp[i])
        });
    });
    // messages with a small-order component: K is x*(Y'-pw*N) for the ephemeral scalar x in [0, order)
    ctx.par("torsion", 8 * sp.len(), |w, i| {
        w.case(&format!("{i}"), |st| {
            let (t, x) = (EIGHT_TORSION[i % 8], &sp[i / 8]);
            for role in ROLES {
                let honest = Party::new(role.peer(), b"pw", [b"idA", b"idB"], scalar(&sp[17 + i % 12]));
                let honest = CompressedEdwardsY(honest.body).decompress().ok_or(Fail::from("ref"))?;
                // an honest message plus t, t itself, the peer's blinding element plus t
                for p in [honest + t, t, role.peer().blind() * pw_scalar(b"pw") + t] {
                    let pb = p.compress().to_bytes();
                    let (s, m) = start::<Ed25519Group>(role, b"pw", [b"idA", b"idB"], te(x));
                    let mut msg = vec![role.peer().byte()];
                    msg.extend_from_slice(&pb);
                    let got = guard(|| s.finish(&msg)).map_err(Fail::from)?;
                    let Ok(got) = got else { fail!("{role:?}: curve point refused: {got:?}") };
                    let k = (p - role.peer().blind() * pw_scalar(b"pw")) * scalar(x);
                    let want = key(role, b"pw", [b"idA", b"idB"], &m[1..], &pb, &k.compress().to_bytes());
                    ensure!(want == got, "{role:?}: key for a message with a small-order component, message {}", hex(&msg));
                    st.steps(2);
                    st.state(&got);
                    st.trace();
                }
            }
            Ok(())
        });
    });
}
