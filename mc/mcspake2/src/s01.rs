//! S01 agreement: every run of the two-party protocol over small groups and the systematic sweeps over Ed25519.
use crate::drive::*;
use crate::refm::Role;
use crate::toy::*;
use mccore::{alpha, show, Ctx};
use spake2::{Ed25519Group, Group};

fn ids_alpha() -> Vec<[Vec<u8>; 2]> {
    let t = alpha::tricky();
    let mut v = vec![];
    for (i, a) in t.iter().enumerate() {
        v.push([a.clone(), t[(i * 7 + 3) % t.len()].clone()]);
        v.push([a.clone(), a.clone()]);
    }
    v
}
fn toy<G: Group>(ctx: &Ctx, label: &str, q: u32)
where
    G::Scalar: Send,
{
    let pws = alpha::tricky();
    let ids = ids_alpha();
    let n = pws.len();
    ctx.par(&format!("toy/{label}"), n, |w, pi| {
        let pw = &pws[pi];
        for (ii, id) in ids.iter().enumerate() {
            // full scalar product for every password with a rotating part of the identity pairs
            let full = (ii + pi) % if q > 7 { 8 } else { 3 } == 0 || w.ctx.thorough;
            let step = if full { 1 } else { q.max(2) - 1 };
            w.case(&format!("pw{pi}/id{ii}"), |st| {
                for roles in [(Role::A, Role::B), (Role::B, Role::A), (Role::S, Role::S)] {
                    for x in (0..q).step_by(step as usize) {
                        for y in (0..q).step_by(step as usize) {
                            let i: [&[u8]; 2] = [&id[0], &id[1]];
                            let a = start::<G>(roles.0, pw, i, tx(x));
                            let b = start::<G>(roles.1, pw, i, tx(y));
                            st.state(&(label, roles.0, roles.1, x, y, pi, ii));
                            st.steps(4);
                            let d = || format!("{label} {roles:?} pw={} ids={},{} x={x} y={y}", show(pw), show(i[0]), show(i[1]));
                            agree(&d, a, b)?;
                            st.trace();
                            st.outcome("agree");
                        }
                    }
                }
                Ok(())
            });
        }
    });
}
fn wide<G: Group>(ctx: &Ctx, label: &str)
where
    G::Scalar: Send,
{
    ctx.par(&format!("wide/{label}"), 25, |w, i| {
        w.case(&format!("{i}"), |st| {
            for roles in [(Role::A, Role::B), (Role::B, Role::A), (Role::S, Role::S)] {
                let (x, y) = (i as u32 / 5, i as u32 % 5);
                let a = start::<G>(roles.0, b"pw", [b"a", b"b"], tx(x));
                let b = start::<G>(roles.1, b"pw", [b"a", b"b"], tx(y));
                st.steps(4);
                st.state(&(label, roles.0, roles.1, x, y));
                agree(&|| format!("{label} {roles:?} x={x} y={y}"), a, b)?;
                st.trace();
                st.outcome("agree");
            }
            Ok(())
        });
    });
}
fn pair(
    st: &mut mccore::Stats,
    pw: &[u8],
    ids: [&[u8]; 2],
    sym: bool,
    x: &num_bigint::BigUint,
    y: &num_bigint::BigUint,
) -> mccore::R {
    let (r0, r1) = if sym { (Role::S, Role::S) } else { (Role::A, Role::B) };
    let a = start::<Ed25519Group>(r0, pw, ids, te(x));
    let b = start::<Ed25519Group>(r1, pw, ids, te(y));
    let d = || format!("Ed25519 sym={sym} pw={} ids={},{} x={x} y={y}", show(pw), show(ids[0]), show(ids[1]));
    let k = agree(&d, a, b)?;
    st.steps(4);
    st.state(&k);
    st.trace();
    st.outcome("agree");
    Ok(())
}

/// what may happen before (and during) an honest session: a session of each role that ends in each way
const ENDS: usize = 10;
fn event<G: Group>(e: usize, n: u64) -> mccore::R {
    let roles = [Role::A, Role::B, Role::S];
    let (role, end) = (roles[e / ENDS], e % ENDS);
    let t = |k| mccore::rng::Tape::new(5000 + 10 * n + k);
    let (s, own) = start::<G>(role, b"another password", [b"c", b"d"], t(0));
    let peer = match role {
        Role::A => Role::B,
        Role::B => Role::A,
        Role::S => Role::S,
    };
    let wrong = if end == 1 { &b"wrong"[..] } else { b"another password" };
    let (_, mut m) = start::<G>(peer, wrong, [b"c", b"d"], t(1));
    let letter = |r| start::<G>(r, b"x", [b"", b""], t(2)).1[0];
    match end {
        0 | 1 => {}
        2 => m = vec![],
        3 => {
            m.pop();
        }
        4 => m.push(0),
        5 => m[0] = letter(role),
        6 => m[0] = letter(if role == Role::S { Role::A } else { Role::S }),
        7 => m[0] ^= 0x80,
        8 => {
            // an element that does not decode
            let l = m.len();
            m[1..].fill(0);
            for b in 2..=255u8 {
                m[1] = b;
                m[l - 1] = b & 0x7f;
                if G::bytes_to_element(&m[1..]).is_none() {
                    break;
                }
            }
        }
        _ => {
            drop(s);
            return Ok(());
        }
    }
    if let (5, Role::S) = (end, role) {
        m = own;
    }
    match mccore::guard(|| s.finish(&m)) {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("{role:?} session that ends in way {end}: {e}").into()),
    }
}
fn histories<G: Group>(ctx: &Ctx, label: &str, depth: u32) {
    let e = 3 * ENDS;
    let n = e.pow(depth);
    let chunk = e.pow(depth - 1);
    ctx.par(&format!("histories/{label}"), e, |w, i| {
        w.case(&format!("{i}"), |st| {
            for h in (i * chunk..(i + 1) * chunk).filter(|h| *h < n) {
                let evs: Vec<usize> = (0..depth).rev().map(|k| h / e.pow(k) % e).collect();
                let run = |at: usize, k: u64| event::<G>(evs[at], k);
                let sess = |roles: (Role, Role), k: u64| {
                    let t = |x| mccore::rng::Tape::new(100 + 2 * k + x);
                    (start::<G>(roles.0, b"pw", [b"a", b"b"], t(0)), start::<G>(roles.1, b"pw", [b"a", b"b"], t(1)))
                };
                // sessions that are under way meanwhile, and sessions that follow
                let early: Vec<_> = [(Role::A, Role::B), (Role::B, Role::A), (Role::S, Role::S)].iter().map(|r| (*r, sess(*r, 0))).collect();
                for at in 0..evs.len() {
                    run(at, at as u64)?;
                }
                st.steps(evs.len() as u64);
                // the first to finish differs from history to history
                let mut order = vec![0, 1, 2];
                order.rotate_left(h % 3);
                let mut early: Vec<_> = early.into_iter().map(Some).collect();
                for o in order {
                    let Some((r, (a, b))) = early[o].take() else { continue };
                    let d = || format!("{label}: {r:?} session under way while sessions {evs:?} take place");
                    agree(&d, a, b)?;
                    let (a, b) = sess(r, 1);
                    run(evs.len() - 1, 9)?;
                    agree(&|| format!("{label}: {r:?} session after sessions {evs:?}"), a, b)?;
                    st.steps(8);
                    st.outcome("agree");
                }
                st.state(&(label, &evs));
                st.trace();
            }
            Ok(())
        })
    });
}
pub fn run(ctx: &Ctx) {
    ctx.bound("toy groups: all ephemeral pairs x,y of groups of order 2..13 (prime and composite), encodings of 1..1025 and of 65535..65537 bytes, 3 role assignments, 45 passwords x 90 identity pairs");
    ctx.bound("Ed25519: all lengths 0..300 of each string, all one-byte and two-byte strings, all special scalar pairs");
    ctx.assume("the Group implementation satisfies the trait contract (abelian group, injective fixed-length encoding)");
    toy::<Toy<2, 1, 0, 0>>(ctx, "Z2L1", 2);
    toy::<Toy<3, 1, 0, 0>>(ctx, "Z3L1", 3);
    toy::<Toy<4, 2, 1, 0>>(ctx, "Z4L2", 4);
    toy::<Toy<5, 31, 1, 0>>(ctx, "Z5L31", 5);
    toy::<Toy<5, 32, 0, 0>>(ctx, "Z5L32", 5);
    toy::<Toy<5, 32, 1, 3>>(ctx, "Z5L32e1", 5);
    toy::<Toy<5, 32, 2, 0>>(ctx, "Z5L32e2", 5);
    toy::<Toy<5, 33, 1, 0>>(ctx, "Z5L33", 5);
    toy::<Toy<6, 48, 2, 0>>(ctx, "Z6L48", 6);
    toy::<Toy<7, 64, 0, 0>>(ctx, "Z7L64", 7);
    toy::<Toy<7, 65, 1, 2>>(ctx, "Z7L65", 7);
    toy::<Toy<11, 97, 2, 0>>(ctx, "Z11L97", 11);
    toy::<Toy<13, 32, 2, 0>>(ctx, "Z13L32", 13);
    toy::<Toy<3, 127, 2, 0>>(ctx, "Z3L127", 3);
    toy::<Toy<3, 128, 1, 0>>(ctx, "Z3L128", 3);
    toy::<Toy<3, 133, 0, 0>>(ctx, "Z3L133", 3);
    toy::<Toy<5, 254, 2, 0>>(ctx, "Z5L254", 5);
    toy::<Toy<5, 255, 1, 0>>(ctx, "Z5L255", 5);
    toy::<Toy<5, 256, 0, 0>>(ctx, "Z5L256", 5);
    toy::<Toy<5, 257, 2, 0>>(ctx, "Z5L257", 5);
    toy::<Toy<3, 384, 1, 0>>(ctx, "Z3L384", 3);
    toy::<Toy<2, 512, 0, 0>>(ctx, "Z2L512", 2);
    toy::<Toy<2, 1025, 2, 0>>(ctx, "Z2L1025", 2);
    wide::<Toy<5, 65535, 2, 0>>(ctx, "Z5L65535");
    wide::<Toy<5, 65536, 1, 0>>(ctx, "Z5L65536");
    wide::<Toy<5, 65537, 0, 0>>(ctx, "Z5L65537");
    toy::<Mul<11, 2, 1>>(ctx, "F11", 10);
    toy::<Mul<7, 3, 57>>(ctx, "F7L57", 6);

    ctx.bound(format!("histories: all sequences of {} sessions out of 30 (3 roles x finished honestly, with a wrong password, with 7 kinds of bad message, abandoned) before and during honest sessions of every role, Ed25519 and a toy group", ctx.t(2, 3)));
    histories::<Ed25519Group>(ctx, "ed", ctx.t(2, 3));
    histories::<Toy<251, 32, 0, 0>>(ctx, "Z251", ctx.t(3, 3));

    let sp = special();
    let n = sp.len();
    ctx.par("ed/scalars", n * n, |w, i| {
        let (x, y) = (&sp[i / n], &sp[i % n]);
        w.case(&format!("x{}y{}", i / n, i % n), |st| {
            for sym in [false, true] {
                pair(st, b"password", [b"idA", b"idB"], sym, x, y)?;
                pair(st, b"", [b"", b""], sym, x, y)?;
            }
            Ok(())
        });
    });
    let lens = alpha::lengths(ctx.t(300, 1100));
    for field in 0..4usize {
        ctx.par(&format!("ed/len{field}"), lens.len(), |w, i| {
            w.case(&format!("{}", lens[i]), |st| {
                for fill in 0..ctx.t(3, 4) {
                    let s = match fill {
                        0 => alpha::base(lens[i], field as u8),
                        1 => vec![0u8; lens[i]],
                        2 => vec![0xffu8; lens[i]],
                        _ => (0..lens[i]).map(|k| (k * 7 + 128) as u8).collect(),
                    };
                    let (x, y) = (&sp[17 + i % 12], &sp[17 + (i + 5) % 12]);
                    match field {
                        0 => {
                            pair(st, &s, [b"idA", b"idB"], false, x, y)?;
                            pair(st, &s, [b"idS", b""], true, x, y)?;
                        }
                        1 => pair(st, b"pw", [&s, b"idB"], false, x, y)?,
                        2 => pair(st, b"pw", [b"idA", &s], false, x, y)?,
                        _ => pair(st, b"pw", [&s, b""], true, x, y)?,
                    }
                }
                Ok(())
            });
        });
    }
    let t = alpha::tricky();
    ctx.par("ed/tricky", t.len() * t.len(), |w, i| {
        let (a, b) = (&t[i / t.len()], &t[i % t.len()]);
        w.case(&format!("{}-{}", i / t.len(), i % t.len()), |st| {
            let (x, y) = (&sp[17 + i % 12], &sp[17 + (i / 12) % 12]);
            pair(st, a, [b, b"idB"], false, x, y)?;
            pair(st, b"pw", [a, b], false, y, x)?;
            pair(st, a, [b, b""], true, x, y)?;
            Ok(())
        });
    });
    let two = 65536 + 256;
    ctx.par("ed/short", two, |w, i| {
        let s: Vec<u8> = if i < 256 { vec![i as u8] } else { vec![((i - 256) >> 8) as u8, (i - 256) as u8] };
        w.case(&mccore::hex(&s), |st| {
            let (x, y) = (&sp[17 + i % 12], &sp[17 + (i / 12) % 12]);
            pair(st, &s, [&s, b"idB"], false, x, y)?;
            pair(st, &s, [b"idA", &s], false, x, y)?;
            pair(st, &s, [&s, b""], true, x, y)
        });
    });
    ctx.par("ed/tape", ctx.t(40_000, 600_000), |w, i| {
        w.case(&format!("{i}"), |st| {
            for (r0, r1) in [(Role::A, Role::B), (Role::S, Role::S)] {
                let a = start::<Ed25519Group>(r0, b"pw", [b"a", b"b"], mccore::rng::Tape::new(2 * i as u64));
                let b = start::<Ed25519Group>(r1, b"pw", [b"a", b"b"], mccore::rng::Tape::new(2 * i as u64 + 1));
                agree(&|| format!("tape {i} {r0:?}{r1:?}"), a, b)?;
                st.steps(4);
                st.trace();
                st.state(&(i, r0));
            }
            Ok(())
        })
    });
    let rare = rare(ctx.t(24_000, 400_000));
    ctx.bound(format!("Ed25519: {} pairs of symmetric messages with 1..4 equal first or last bytes, {} ephemerals whose messages have runs of equal bytes or special ends, {} passwords whose scalars have special bytes", rare.near.len(), rare.shaped.len(), rare.pws.len()));
    ctx.par("ed/near", rare.near.len(), |w, i| {
        let (x, y, k) = &rare.near[i];
        w.case(&format!("{i}"), |st| {
            st.outcome(&format!("{k} equal bytes"));
            pair(st, b"pw", [b"idA", b"idB"], true, x, y)
        });
    });
    ctx.par("ed/shaped", rare.shaped.len(), |w, i| {
        let (role, x) = &rare.shaped[i];
        w.case(&format!("{i}"), |st| {
            let y = &sp[17 + i % 12];
            match role {
                Role::A => pair(st, b"pw", [b"idA", b"idB"], false, x, y),
                Role::B => pair(st, b"pw", [b"idA", b"idB"], false, y, x),
                Role::S => pair(st, b"pw", [b"idA", b"idB"], true, x, y),
            }
        });
    });
    ctx.par("ed/passwords", rare.pws.len(), |w, i| {
        w.case(&format!("{i}"), |st| {
            for sym in [false, true] {
                pair(st, &rare.pws[i], [b"idA", b"idB"], sym, &sp[17 + i % 12], &sp[17 + (i + 5) % 12])?;
            }
            Ok(())
        });
    });
    ctx.par("ed/os", 64, |w, i| {
        w.case(&format!("{i}"), |st| {
            for (r0, r1) in [(Role::A, Role::B), (Role::S, Role::S)] {
                let a = start_os::<Ed25519Group>(r0, b"pw", [b"a", b"b"]);
                let b = start_os::<Ed25519Group>(r1, b"pw", [b"a", b"b"]);
                agree(&|| format!("system rng {r0:?}{r1:?}"), a, b)?;
                let a = start_os::<Ed25519Group>(r0, b"pw", [b"a", b"b"]);
                let b = start::<Ed25519Group>(r1, b"pw", [b"a", b"b"], te(&sp[17]));
                agree(&|| format!("system rng with given rng {r0:?}{r1:?}"), a, b)?;
                st.steps(8);
                st.trace();
            }
            Ok(())
        })
    });
}
