//! S06: the Debug form.
use crate::drive::*;
use crate::refm::*;
use crate::toy::*;
use mccore::{alpha, ensure, hex, show, Ctx, R, Stats};
use spake2::{Ed25519Group, Group};

fn id(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("(s={s})"),
        Err(_) => format!("(hex={})", hex(b)),
    }
}
fn want(group: &str, role: Role, ids: [&[u8]; 2]) -> String {
    match role {
        Role::S => format!("SPAKE2 {{ group: {group:?}, side: Side::Symmetric {{ idS: {} }} }}", id(ids[0])),
        _ => format!("SPAKE2 {{ group: {group:?}, side: Side::{role:?} {{ idA: {}, idB: {} }} }}", id(ids[0]), id(ids[1])),
    }
}
fn check<G: Group>(st: &mut Stats, role: Role, pw: &[u8], ids: [&[u8]; 2], x: impl Fn() -> mccore::rng::Tape) -> R {
    let (s, _) = start::<G>(role, pw, ids, x());
    let g = format!("{s:?}");
    let w = want(G::name(), role, ids);
    st.step();
    st.state(&g);
    ensure!(g == w, "{role:?} pw={} ids={},{}: debug form is {g:?} instead of {w:?}", show(pw), show(ids[0]), show(ids[1]));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.bound("all identities of up to 2 bytes (thorough: 3-byte strings starting with every byte), all lengths up to 300, tricky strings; for each several passwords and ephemeral secrets; plain and alternate form");
    type T = Toy<5, 32, 0, 0>;
    ctx.par("short", 257, |w, i| {
        w.case(&format!("{i}"), |st| {
            let mut v: Vec<Vec<u8>> = vec![];
            if i == 256 {
                v.push(vec![]);
                v.extend((0..=255u8).map(|b| vec![b]));
            } else {
                v.extend((0..=255u8).map(|b| vec![i as u8, b]));
                if ctx.thorough {
                    v.extend((0..=65535u32).map(|b| vec![i as u8, (b >> 8) as u8, b as u8]));
                } else {
                    v.extend((0..=255u8).flat_map(|b| [vec![b'x', i as u8, b], vec![i as u8, b, b'y'], vec![0xe2, i as u8, b], vec![0xf0, 0x9f, i as u8, b]]));
                }
            }
            for s in &v {
                for role in ROLES {
                    check::<T>(st, role, b"pw", [s, b"q"], || tx(1))?;
                    check::<T>(st, role, b"pw", [b"\xff", s], || tx(2))?;
                }
            }
            st.trace();
            Ok(())
        });
    });
    let lens = alpha::lengths(ctx.t(300, 1200));
    ctx.par("lengths", lens.len(), |w, i| {
        w.case(&format!("{}", lens[i]), |st| {
            let l = lens[i];
            let a = alpha::base(l, 1);
            let mut b = a.clone();
            if l > 0 {
                b[l - 1] = 0xff;
            }
            let c = vec![0x05u8; l];
            let mut d: Vec<u8> = (0..l).map(|k| (k % 256) as u8).collect();
            d.reverse();
            for s in [&a, &b, &c, &d] {
                for role in ROLES {
                    check::<T>(st, role, s, [s, s], || tx(3))?;
                    check::<T>(st, role, s, [b"x", s], || tx(3))?;
                    check::<T>(st, role, s, [s, b"\x00\xfe"], || tx(3))?;
                }
            }
            st.trace();
            Ok(())
        });
    });
    let texts = alpha::texts();
    ctx.par("texts", texts.len().div_ceil(32), |w, i| {
        w.case(&format!("{i}"), |st| {
            for t in texts.iter().skip(i * 32).take(32) {
                for role in ROLES {
                    check::<T>(st, role, b"pw", [t, t], || tx(3))?;
                    check::<T>(st, role, t, [b"x", t], || tx(3))?;
                    check::<T>(st, role, t, [t, b"\x00\xfe"], || tx(3))?;
                }
            }
            st.trace();
            Ok(())
        });
    });
    // independence from the secrets, both forms, real group
    let tr = alpha::tricky();
    let sp = special();
    ctx.par("secrets", tr.len(), |w, i| {
        w.case(&format!("{i}"), |st| {
            for role in ROLES {
                for o in [&b"idB"[..], b"\xff\x0a", b""] {
                    let ids: [&[u8]; 2] = [&tr[i], o];
                    let f = |pw: &[u8], x: usize| {
                        let (s, _) = start::<Ed25519Group>(role, pw, ids, te(&sp[x]));
                        (format!("{s:?}"), format!("{s:#?}"), format!("{s:02x?}"), format!("{s:200?}"))
                    };
                    let b = f(b"first password", 17);
                    ensure!(b.0 == want("Ed25519", role, ids), "debug form {:?}", b.0);
                    let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                    ensure!(strip(&b.1).contains(&strip(&id(&tr[i]))), "alternate form {:?} lacks the identity", b.1);
                    for pw in &tr {
                        let c = f(pw, 17);
                        st.step();
                        ensure!(b == c, "{role:?}: debug form depends on the password {}: {:?}", show(pw), c);
                    }
                    for x in 0..sp.len() {
                        st.step();
                        let c = f(b"first password", x);
                        st.state(&(c.clone(), x));
                        ensure!(b == c, "{role:?}: debug form depends on the ephemeral secret: {:?}", c);
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
    ctx.par("secrets/len", lens.len(), |w, i| {
        w.case(&format!("{}", lens[i]), |st| {
            for role in ROLES {
                let pw = alpha::base(lens[i], 8);
                for x in 0..5 {
                    check::<T>(st, role, &pw, [b"idA", b"\xe9"], || tx(x))?;
                    let (s, _) = start::<T>(role, &pw, [b"idA", b"\xe9"], tx(x));
                    let (t, _) = start::<T>(role, b"", [b"idA", b"\xe9"], tx(0));
                    ensure!(format!("{s:#?}") == format!("{t:#?}"), "alternate form depends on password of length {} or ephemeral", lens[i]);
                    st.step();
                }
            }
            st.trace();
            Ok(())
        });
    });
}
