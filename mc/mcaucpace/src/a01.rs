//! A01 agreement, A02 no acceptance without a shared session.
use crate::hasher::{Alt64, Bent, Out};
use crate::party::*;
use crate::world::*;
use mccore::{alpha, ensure, Ctx, Fail, Stats};
use sha2::Sha512;

pub const PARAMS: &str = "ln=3,r=8,p=1";

#[allow(clippy::too_many_arguments)]
pub fn pair(v: V, user: &[u8], pw: &[u8], ci: &[u8], pre: Option<Vec<u8>>, bits: u32, out: usize, seed: u64) -> Cfg {
    let (reg_alloc, alloc, implicit) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
    Cfg {
        v,
        out,
        params: PARAMS.into(),
        reg_alloc,
        users: vec![UserSpec { user: user.to_vec(), pw: pw.to_vec() }],
        clients: vec![CCfg { user: user.to_vec(), pw: pw.to_vec(), ci: ci.to_vec(), pre: pre.clone(), strong: v.strong(), alloc, implicit, out: Out::Len(out) }],
        servers: vec![SCfg { v, ci: ci.to_vec(), pre, implicit }],
        seed,
        scripts: [vec![], vec![], vec![]],
        attack: false,
    }
}
pub fn honest<D: Dg, const K: usize>(c: &Cfg, st: &mut Stats) -> Result<(), Fail> {
    let mut ch = Chooser { prefix: &[], taken: vec![], options: vec![] };
    let o = run::<D, K>(c, &mut ch, st)?;
    let (nc, n) = (c.clients.len(), o.keys.len());
    for p in 0..n {
        ensure!(o.views[p].accepted && o.errs[p].is_none(), "party {p} of an honest session did not finish: {:?}", o.errs[p]);
    }
    for i in 0..nc.min(n - nc) {
        ensure!(o.keys[i].is_some() && o.keys[i] == o.keys[nc + i], "honest client and server end with different keys");
    }
    st.outcome("honest session agrees");
    Ok(())
}
pub fn pre() -> Option<Vec<u8>> {
    Some(b"a pre-established session id".to_vec())
}
/// what the salt, the ephemeral exponents etc. are drawn from
pub fn words() -> Vec<Vec<u8>> {
    use curve25519_dalek::Scalar;
    let mut v: Vec<[u8; 32]> = vec![];
    for s in [Scalar::from(1u8), Scalar::from(2u8), -Scalar::ONE, -Scalar::from(2u8), Scalar::from(8u8), Scalar::from(u64::MAX), Scalar::from(2u8).invert()] {
        v.push(s.to_bytes());
    }
    let mut o: Vec<Vec<u8>> = v.into_iter().map(|b| [&b[..], &[0u8; 32]].concat()).collect();
    o.push(vec![0xff; 64]);
    o.push([&[0u8; 63][..], &[0x80]].concat());
    o.push([&[0u8; 32][..], &[1], &[0u8; 31]].concat());
    o.push([&[0xffu8; 32][..], &[0u8; 32]].concat());
    o.push([&[0u8; 31][..], &[0x10], &[0u8; 32]].concat());
    o.push((0..64).collect());
    o
}
/// calls a function with every bent digest
macro_rules! bent {
    ($f:ident, $k:literal, $c:expr) => {
        bent!(@ $f, $k, $c, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
    };
    (@ $f:ident, $k:literal, $c:expr, $($p:literal)*) => {
        $( $f::<Bent<$p>, $k>($c, concat!("bent", $p)); )*
    };
}
pub(crate) use bent;
fn all_cfg<D: Dg, const K: usize>(ctx: &Ctx, name: &str) {
    ctx.par(&format!("configs/{name}/K1={K}"), 4 * 8 * 2 * 2, |w, j| {
        let (v, bits, p, out) = (VS[j & 3], (j >> 2) as u32 & 7, j >> 5 & 1, [32, 64][j >> 6 & 1]);
        let people: [(&[u8], &[u8], &[u8]); 4] = [(b"jlpicard_1701", b"g04tEd_c4pT41N", b"channel"), (b"", b"", b""), (b"a", b"", b"\0"), (b"", b"x", b"")];
        w.case(&format!("{v:?}/{bits}/pre{p}/out{out}"), |st| {
            for (u, pw, ci) in people {
                for s in 0..3 {
                    let c = pair(v, u, pw, ci, if p == 1 { pre() } else { None }, bits, out, 100 + s);
                    honest::<D, K>(&c, st)?;
                }
            }
            Ok(())
        });
    });
}
pub fn a01(ctx: &Ctx) {
    ctx.bound("variants 4 x registration buffer/alloc x login buffer/alloc x explicit/implicit x negotiated/pre-established x hasher output 32/64 x nonce sizes 0,1,16,32,64,65,300 x 2 hashes, and 16 hashes whose outputs begin, end or are filled with special bytes, 4 identities, 3 random streams each");
    ctx.bound("48x48 tricky (user,password) pairs and 48 channel ids in all variants; lengths 0..150 (thorough 390) of user, password, channel id; 13 special 64-byte draws in every position for salts, exponents and blinding values; params strings; real scrypt");
    ctx.assume("curve25519-dalek arithmetic, SHA-2; a drawn secret that is zero modulo the group order (probability 2^-252) aborts the session by design");
    all_cfg::<Sha512, 0>(ctx, "sha512");
    all_cfg::<Sha512, 1>(ctx, "sha512");
    all_cfg::<Sha512, 16>(ctx, "sha512");
    all_cfg::<Sha512, 32>(ctx, "sha512");
    all_cfg::<Sha512, 64>(ctx, "sha512");
    all_cfg::<Sha512, 65>(ctx, "sha512");
    all_cfg::<Sha512, 300>(ctx, "sha512");
    all_cfg::<Alt64, 16>(ctx, "alt64");
    all_cfg::<Alt64, 8>(ctx, "alt64");
    bent!(all_cfg, 16, ctx);
    let t = alpha::tricky();
    ctx.par("tricky", t.len() * t.len(), |w, j| {
        let (a, b) = (&t[j / t.len()], &t[j % t.len()]);
        w.case(&format!("{}-{}", j / t.len(), j % t.len()), |st| {
            for v in VS {
                let bits = (j as u32 * 5 + v as u32 * 3) & 7;
                honest::<Sha512, 16>(&pair(v, a, b, b"ci", if j % 2 == 0 { pre() } else { None }, bits, [32, 64][j / 2 % 2], 7), st)?;
                if ctx.thorough {
                    honest::<Sha512, 16>(&pair(v, a, b"pw", b, None, bits ^ 7, 64, 8), st)?;
                    honest::<Alt64, 16>(&pair(v, b"u", a, b, pre(), bits ^ 3, 32, 8), st)?;
                }
            }
            Ok(())
        });
    });
    ctx.par("ci", t.len() * 4, |w, j| {
        w.case(&format!("{j}"), |st| honest::<Sha512, 16>(&pair(VS[j % 4], b"u", b"p", &t[j / 4], None, (j / 3) as u32 & 7, 32, 7), st));
    });
    let tx = alpha::texts();
    ctx.par("texts", tx.len(), |w, j| {
        w.case(&mccore::hex(&tx[j]), |st| {
            let t = &tx[j];
            let (v, bits) = (VS[j % 4], (j / 4) as u32 & 7);
            honest::<Sha512, 16>(&pair(v, t, b"pw", b"ci", None, bits, 32, 7), st)?;
            honest::<Sha512, 16>(&pair(v, b"u", t, t, None, bits ^ 3, 64, 7), st)
        });
    });
    let lens: Vec<usize> = (0..=ctx.t(150, 390)).collect();
    ctx.par("lengths", lens.len() * 4, |w, j| {
        let (l, v) = (lens[j / 4], VS[j % 4]);
        w.case(&format!("{v:?}/{l}"), |st| {
            let s = alpha::base(l, 1);
            for al in 0..2u32 {
                let bits = al * 3 | 4 * (l as u32 & 1);
                honest::<Sha512, 16>(&pair(v, &s, b"pw", b"ci", None, bits, 32, 7), st)?;
                honest::<Sha512, 16>(&pair(v, b"user", &s, b"ci", None, bits, 64, 7), st)?;
                honest::<Sha512, 16>(&pair(v, b"user", b"pw", &s, None, bits, 64, 7), st)?;
                if l >= 16 {
                    honest::<Sha512, 16>(&pair(v, b"user", b"pw", b"ci", Some(s.clone()), bits, 64, 7), st)?;
                }
            }
            Ok(())
        });
    });
    let big = [511usize, 512, 513, 1000, 4096, 65535, 65536];
    ctx.par("long", big.len() * 4, |w, j| {
        let (l, v) = (big[j / 4], VS[j % 4]);
        w.case(&format!("{v:?}/{l}"), |st| {
            let s = alpha::base(l, 1);
            honest::<Sha512, 16>(&pair(v, &s, b"pw", b"ci", None, 3, 32, 7), st)?;
            honest::<Sha512, 16>(&pair(v, b"user", &s, b"ci", None, 7, 64, 7), st)?;
            honest::<Sha512, 16>(&pair(v, b"user", b"pw", &s, None, 0, 64, 7), st)?;
            honest::<Sha512, 16>(&pair(v, b"user", b"pw", b"ci", Some(s), 1, 64, 7), st)
        });
    });
    // special draws
    let ws = words();
    let n = ws.len();
    ctx.par("draws", 4 * 3 * n * n, |w, j| {
        let (v, side, a, b) = (VS[j % 4], j / 4 % 3, j / 12 % n, j / 12 / n);
        w.case(&format!("{v:?}/{side}/{a}/{b}"), |st| {
            let mut c = pair(v, b"user", b"pw", b"ci", pre(), (j / 7) as u32 & 7, [32, 64][j / 5 % 2], 7);
            c.scripts[side] = [&ws[a][..], &ws[b]].concat();
            if side == 2 && b == 0 {
                c.scripts[1] = [&ws[a][..], &ws[(a + 3) % n]].concat();
            }
            honest::<Sha512, 16>(&c, st)?;
            for s in &mut c.clients {
                s.pre = None;
            }
            for s in &mut c.servers {
                s.pre = None;
            }
            // the nonce is drawn first: keep the words aligned
            c.scripts[1] = [&[0x33; 16][..], &c.scripts[1]].concat();
            honest::<Sha512, 16>(&c, st)
        });
    });
    let ps = ["", "a=1", "ln=15,r=8,p=1", "t=0", "m=4294967295", "data=abcdefghijklmnopqrstuvwxyz0123456789", "a=b,c=d,e=f,g=h", "x=+/"];
    ctx.par("params", ps.len() * 4, |w, j| {
        w.case(&format!("{j}"), |st| {
            let mut c = pair(VS[j % 4], b"user", b"pw", b"ci", None, (j / 4) as u32 & 7, 32, 3);
            c.params = ps[j / 4].into();
            honest::<Sha512, 16>(&c, st)
        });
    });
    ctx.par("streams", ctx.t(12_000, 200_000), |w, j| {
        w.case(&format!("{j}"), |st| honest::<Sha512, 16>(&pair(VS[j % 4], b"user", b"pw", b"ci", None, (j / 4) as u32 & 7, [32, 64][j / 32 % 2], 1000 + 50 * j as u64), st));
    });
    // two honest pairs at once, all pairs of variants share one server where they can
    ctx.par("two", 4 * 64, |w, j| {
        w.case(&format!("{j}"), |st| {
            let v = VS[j % 4];
            let mut c = pair(v, b"user", b"pw", b"ci", if j & 4 != 0 { pre() } else { None }, (j / 8) as u32 & 7, 32, 5);
            let d = pair(v, if j & 64 != 0 { b"user" } else { b"resu" }, b"pw", b"ci", if j & 128 != 0 { pre() } else { None }, (j / 9) as u32 & 7, 32, 5);
            if j & 64 == 0 {
                c.users.extend(d.users);
            }
            c.clients.extend(d.clients);
            c.servers.extend(d.servers);
            honest::<Sha512, 16>(&c, st)
        });
    });
    scrypt(ctx);
}
/// the default instantiation with the real scrypt
fn scrypt(ctx: &Ctx) {
    use aucpace::{Client, ClientMessage, Server, ServerMessage};
    use mccore::rng::Tape;
    use rand_core::OsRng;
    use scrypt::{Params, Scrypt};
    let _ = Tape::new(0);
    ctx.par("scrypt", 16, |w, j| {
        w.case(&format!("{j}"), |st| {
            let mut c = Client::new(OsRng);
            let mut s = Server::new(OsRng);
            let mut db = Db::default();
            let pr = |e: aucpace::Error| Fail::from(format!("{e:?}"));
            let params = Params::new(1 + (j % 4) as u8, 8, 1, if j & 4 != 0 { 64 } else { 32 }).map_err(|_| Fail::from("params"))?;
            let (strong, alloc) = (j & 8 != 0, j & 1 != 0);
            let m = match (strong, alloc) {
                (false, false) => c.register::<_, 100>(b"user", b"pw", params, Scrypt),
                (false, true) => c.register_alloc(b"user", b"pw", params, Scrypt),
                (true, false) => c.register_strong::<_, 100>(b"user", b"pw", params, Scrypt),
                (true, true) => c.register_alloc_strong(b"user", b"pw", params, Scrypt),
            }
            .map_err(pr)?;
            db.put(&reg(m).ok_or("no registration")?);
            let (s1, sn) = s.begin();
            let (c1, cn) = c.begin();
            let (ServerMessage::Nonce(sn), ClientMessage::Nonce(cn)) = (sn, cn) else { return Err(Fail::from("no nonces")) };
            let (s2, c2) = (s1.agree_ssid(cn), c1.agree_ssid(sn));
            let (s3, c3) = if strong {
                let (c3, m) = c2.start_augmentation_strong(b"user", b"pw", &mut OsRng);
                let ClientMessage::StrongUsername { username, blinded } = m else { return Err(Fail::from("no user name")) };
                let (s3, m) = s2.generate_client_info_strong(username, blinded, &db, OsRng).map_err(pr)?;
                let ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } = m else { return Err(Fail::from("no info")) };
                (s3, if alloc { c3.generate_cpace_alloc(x_pub, blinded_salt, params, Scrypt) } else { c3.generate_cpace::<100>(x_pub, blinded_salt, params, Scrypt) })
            } else {
                let (c3, m) = c2.start_augmentation(b"user", b"pw");
                let ClientMessage::Username(username) = m else { return Err(Fail::from("no user name")) };
                let (s3, m) = s2.generate_client_info(username, &db, OsRng);
                let ServerMessage::AugmentationInfo { x_pub, salt, .. } = m else { return Err(Fail::from("no info")) };
                (s3, if alloc { c3.generate_cpace_alloc(x_pub, &salt, params, Scrypt) } else { c3.generate_cpace::<&password_hash::SaltString, 100>(x_pub, &salt, params, Scrypt) })
            };
            let (s4, sp) = s3.generate_public_key(b"ci");
            let (c4, cp) = c3.map_err(pr)?.generate_public_key(b"ci", &mut OsRng);
            let (ServerMessage::PublicKey(sp), ClientMessage::PublicKey(cp)) = (sp, cp) else { return Err(Fail::from("no keys")) };
            let s5 = s4.receive_client_pubkey(cp).map_err(pr)?;
            let (c5, tb) = c4.receive_server_pubkey(sp).map_err(pr)?;
            let ClientMessage::Authenticator(tb) = tb else { return Err(Fail::from("no authenticator")) };
            let (sk, ta) = s5.receive_client_authenticator(tb).map_err(pr)?;
            let ServerMessage::Authenticator(ta) = ta else { return Err(Fail::from("no authenticator")) };
            let ck = c5.receive_server_authenticator(ta).map_err(pr)?;
            ensure!(sk == ck, "keys differ");
            st.steps(14);
            st.trace();
            st.outcome("honest session agrees");
            Ok(())
        });
    });
}

/// configurations of two pairs of parties for the attack exploration
fn worlds(ctx: &Ctx) -> Vec<(String, Cfg)> {
    let mut o = vec![];
    let two = |mut a: Cfg, b: Cfg| {
        for u in b.users {
            if a.users.iter().all(|x| x.user != u.user) {
                a.users.push(u);
            }
        }
        a.clients.extend(b.clients);
        a.servers.extend(b.servers);
        a.attack = true;
        a
    };
    for v in VS {
        for p in 0..2 {
            let ss = || if p == 1 { pre() } else { None };
            let bits = v as u32 % 4;
            let a = || pair(v, b"user", b"pw", b"ci", ss(), bits, [32, 64][v as usize % 2], 5);
            let mut single = a();
            single.attack = true;
            single.users.push(UserSpec { user: b"other".to_vec(), pw: b"pw".to_vec() });
            o.push((format!("{v:?}/pre{p}/single"), single));
            o.push((format!("{v:?}/pre{p}/same"), two(a(), a())));
            o.push((format!("{v:?}/pre{p}/ci"), two(a(), pair(v, b"user", b"pw", b"ci2", ss(), bits ^ 3, [32, 64][v as usize % 2], 5))));
            o.push((format!("{v:?}/pre{p}/user"), two(a(), pair(v, b"usex", b"pw", b"ci", ss(), bits, [32, 64][v as usize % 2], 5))));
            let mut wrong = two(a(), a());
            wrong.clients[1].pw = b"pW".to_vec();
            o.push((format!("{v:?}/pre{p}/wrongpw"), wrong));
            if p == 1 {
                let mut d = two(a(), a());
                d.clients[1].pre = Some(b"another pre-established id".to_vec());
                d.servers[1].pre = d.clients[1].pre.clone();
                o.push((format!("{v:?}/pre{p}/ssid"), d));
            }
            let mut im = two(a(), a());
            im.clients[0].implicit = true;
            im.servers[0].implicit = true;
            o.push((format!("{v:?}/pre{p}/implicit"), im));
        }
    }
    if !ctx.thorough {
        o.retain(|(n, _)| n.contains("pre0") || ["single", "ssid", "implicit"].iter().any(|k| n.ends_with(k)));
    }
    o
}
pub fn a02(ctx: &Ctx) {
    let (d2, d1) = (2, ctx.t(3, 4));
    ctx.bound(format!("two clients and two servers (same or different user, password, channel id, session id), every message replaceable by any message of the same kind of any party (replay, reflection, cross-wiring) or by an attacker alteration: all choices with at most {d2} replacements (thorough: 3 in five of the settings); one client and one server: at most {d1} replacements"));
    ctx.bound("credential mismatches: all ordered pairs of 48 tricky strings as user, password, channel id, session id, without attacker; all 512 bit flips, byte rotations and truncations-with-padding of both authenticators, with SHA-512 and with 16 hashes of special outputs");
    ctx.assume("the symbolic model treats hash outputs and Diffie-Hellman results as equal exactly if their inputs are");
    let ws = worlds(ctx);
    // first deviation split into cases
    let mut jobs: Vec<(usize, Vec<usize>, usize)> = vec![];
    let mut st = Stats::default();
    for (i, (_, c)) in ws.iter().enumerate() {
        let deep = ctx.thorough && ws[i].0.contains("pre0") && (ws[i].0.ends_with("same") || ws[i].0 == "PStrong/pre0/ci");
        let dev = if c.clients.len() == 1 { d1 } else { d2 + deep as usize };
        let mut ch = Chooser { prefix: &[], taken: vec![], options: vec![] };
        // an error here is reported by the case with the empty prefix
        let r = mccore::guard(|| run::<Sha512, 16>(c, &mut ch, &mut st).is_ok());
        jobs.push((i, vec![], 0));
        if !matches!(r, Ok(true)) {
            continue;
        }
        for p in 0..ch.options.len() {
            for alt in 1..ch.options[p] {
                let mut pre = vec![0; p];
                pre.push(alt);
                jobs.push((i, pre, dev - 1));
            }
        }
    }
    ctx.par("attack", jobs.len(), |w, j| {
        let (i, pre, dev) = &jobs[j];
        let alt = j % 3 == 0;
        w.case(&format!("{}/{:?}", ws[*i].0, pre), |st| {
            if alt && ctx.thorough {
                explore::<Alt64, 16>(&ws[*i].1, pre.clone(), *dev, st)
            } else {
                explore::<Sha512, 16>(&ws[*i].1, pre.clone(), *dev, st)
            }
        });
    });
    // mismatches without an attacker
    let t = alpha::tricky();
    ctx.par("mismatch", t.len() * t.len(), |w, j| {
        let (a, b) = (&t[j / t.len()], &t[j % t.len()]);
        w.case(&format!("{}-{}", j / t.len(), j % t.len()), |st| {
            for v in VS {
                if !ctx.thorough && (j + v as usize) % 2 == 0 {
                    continue;
                }
                let bits = (j as u32 * 3 + v as u32) & 3;
                let mut ch = Chooser { prefix: &[], taken: vec![], options: vec![] };
                // password
                let mut c = pair(v, b"user", a, b"ci", pre(), bits, 32, 4);
                c.clients[0].pw = b.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                // channel identifier
                let mut c = pair(v, b"user", b"pw", a, pre(), bits, 64, 4);
                c.clients[0].ci = b.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                // user name: the client is b, only a is registered
                let mut c = pair(v, a, b"pw", b"ci", pre(), bits, 32, 4);
                c.clients[0].user = b.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                // user and password shifted
                let mut c = pair(v, &[&a[..], b].concat(), b"pw", b"ci", pre(), bits, 32, 4);
                c.clients[0].user = a.clone();
                c.clients[0].pw = [&b[..], b"pw"].concat();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                // session id
                let x = |s: &[u8]| Some([&b"0123456789abcdef"[..], s].concat());
                let mut c = pair(v, b"user", b"pw", b"ci", x(a), bits, 32, 4);
                c.clients[0].pre = x(b);
                run::<Sha512, 16>(&c, &mut ch, st)?;
                let y = |s: &[u8]| Some([s, &b"0123456789abcdef"[..]].concat());
                let mut c = pair(v, b"user", b"pw", b"ci", y(a), bits | 4, 32, 4);
                c.clients[0].pre = y(b);
                run::<Sha512, 16>(&c, &mut ch, st)?;
            }
            Ok(())
        });
    });
    // a text and what a program may make of it
    let tw = alpha::twins();
    ctx.bound(format!("{} pairs of texts of which the second is a cleaned-up, decoded, folded or cut form of the first: registered with one, login with the other", tw.len()));
    ctx.par("treated", tw.len(), |w, j| {
        let (a, b) = &tw[j];
        w.case(&format!("{}-{}", mccore::hex(a), mccore::hex(b)), |st| {
            for (k, v) in VS.into_iter().enumerate() {
                let bits = (j / 3) as u32 & 3;
                let (a, b) = if (j + k) % 4 < 2 { (a, b) } else { (b, a) };
                let mut ch = Chooser { prefix: &[], taken: vec![], options: vec![] };
                let mut c = pair(v, b"user", a, b"ci", pre(), bits, 32, 4);
                c.clients[0].pw = b.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                let mut c = pair(v, b"user", b"pw", a, pre(), bits, 64, 4);
                c.clients[0].ci = b.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                let mut c = pair(v, a, b"pw", b"ci", pre(), bits, 32, 4);
                c.clients[0].user = b.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                let x = |s: &[u8]| Some([&b"0123456789abcdef"[..], s].concat());
                let mut c = pair(v, b"user", b"pw", b"ci", x(a), bits, 32, 4);
                c.clients[0].pre = x(b);
                run::<Sha512, 16>(&c, &mut ch, st)?;
                if a.len() >= 16 && b.len() >= 16 {
                    let mut c = pair(v, b"user", b"pw", b"ci", Some(a.clone()), bits, 32, 4);
                    c.clients[0].pre = Some(b.clone());
                    run::<Sha512, 16>(&c, &mut ch, st)?;
                }
            }
            Ok(())
        });
    });
    // one string at a time, its neighbours, longer strings
    let bases: Vec<Vec<u8>> = [1usize, 8, 16, 31, 32, 33, 64, 100, 128].iter().map(|n| alpha::base(*n, 2)).collect();
    ctx.par("neighbours", bases.len() * 8, |w, j| {
        let (s, v, al) = (&bases[j / 8], VS[j % 4], (j as u32 / 4 % 2) * 3);
        w.case(&format!("{}/{v:?}/{al}", s.len()), |st| {
            for (_, x) in alpha::neighbours(s) {
                let mut ch = Chooser { prefix: &[], taken: vec![], options: vec![] };
                let mut c = pair(v, b"user", s, b"ci", pre(), al, 32, 4);
                c.clients[0].pw = x.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                let mut c = pair(v, b"user", b"pw", s, pre(), al, 64, 4);
                c.clients[0].ci = x.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                if !ctx.thorough && s.len() > 33 {
                    continue;
                }
                let mut c = pair(v, s, b"pw", b"ci", pre(), al, 64, 4);
                c.clients[0].user = x.clone();
                run::<Sha512, 16>(&c, &mut ch, st)?;
                if s.len() >= 16 && x.len() >= 16 {
                    let mut c = pair(v, b"user", b"pw", b"ci", Some(s.clone()), al, 64, 4);
                    c.clients[0].pre = Some(x.clone());
                    run::<Sha512, 16>(&c, &mut ch, st)?;
                }
            }
            Ok(())
        });
    });
    auth_bits::<Sha512, 16>(ctx, "");
    bent!(auth_bits, 16, ctx);
}
/// every single-bit change and many rearrangements of an authenticator, one real session each
fn auth_bits<D: Dg, const K: usize>(ctx: &Ctx, name: &str) {
    use mccore::rng::Tape;
    ctx.par(&format!("authenticators/{name}"), 16, |w, j| {
        let (v, server, sub) = (VS[j % 4], j & 4 != 0, j >> 3);
        w.case(&format!("{v:?}/{}/{sub}", if server { "server" } else { "client" }), |st| {
            let c = pair(v, b"user", b"pw", b"ci", pre(), j as u32 & 3, 32, 9);
            let once = |st: &mut Stats, f: &dyn Fn([u8; 64], [u8; 64]) -> [u8; 64]| -> Result<(bool, bool), Fail> {
                let Setup { db, mut base, .. } = setup::<D, K>(&c, st)?;
                let mut cl = Cli::<D, K>::new(&c.clients[0], Tape::new(1));
                let mut sv = Srv::<D, K>::new(&c.servers[0], &db, Tape::new(2));
                let e = |e: aucpace::Error| Fail::from(format!("{e:?}"));
                let u = cl.start().map_err(e)?;
                sv.start(&mut base).map_err(e)?;
                let a = sv.recv(&u[0]).map_err(e)?;
                let y = cl.recv(&a[0]).map_err(e)?;
                sv.recv(&y[0]).map_err(e)?;
                let tb = cl.recv(&a[1]).map_err(e)?;
                let M::Auth(b) = tb[0] else { return Err(Fail::from("no authenticator")) };
                st.steps(7);
                st.trace();
                if server {
                    let x = f(b, b);
                    let r = sv.recv(&M::Auth(x));
                    Ok((r.is_ok() && sv.key.is_some(), x == b))
                } else {
                    let ta = sv.recv(&tb[0]).map_err(e)?;
                    let M::Auth(a) = ta[0] else { return Err(Fail::from("no authenticator")) };
                    let x = f(a, b);
                    let r = cl.recv(&M::Auth(x));
                    Ok((r.is_ok() && cl.key.is_some(), x == a))
                }
            };
            let mut fs: Vec<Box<dyn Fn([u8; 64], [u8; 64]) -> [u8; 64]>> = vec![];
            for i in 0..512 {
                fs.push(Box::new(move |mut a, _| {
                    a[i / 8] ^= 1 << (i % 8);
                    a
                }));
            }
            for i in 0..64usize {
                fs.push(Box::new(move |mut a, _| {
                    a.rotate_left(i);
                    a
                }));
                fs.push(Box::new(move |mut a, _| {
                    a[i..].fill(0);
                    a
                }));
                fs.push(Box::new(move |mut a, _| {
                    a[..=i].fill(0);
                    a
                }));
                fs.push(Box::new(move |mut a, b| {
                    a[i] = a[i].wrapping_add(1);
                    a[63 - i] = b[i].wrapping_sub(1);
                    a
                }));
                fs.push(Box::new(move |mut a, _| {
                    a.swap(i, (i + 1) % 64);
                    a
                }));
                // two bytes changed by the same difference
                fs.push(Box::new(move |mut a, _| {
                    a[i] ^= 0x41;
                    a[(i + 7) % 64] ^= 0x41;
                    a
                }));
            }
            for q in 0..2usize {
                fs.push(Box::new(move |_, _| [255 * q as u8; 64]));
                fs.push(Box::new(move |mut a, _| {
                    a.reverse();
                    a[0] ^= q as u8;
                    a
                }));
                fs.push(Box::new(|a, _| {
                    let mut b = [0u8; 64];
                    for i in 0..64 {
                        b[i] = !a[i]
                    }
                    b
                }));
                fs.push(Box::new(|a, _| {
                    let mut b = [0u8; 64];
                    b[..32].copy_from_slice(&a[32..]);
                    b[32..].copy_from_slice(&a[..32]);
                    b
                }));
                if !server {
                    fs.push(Box::new(|_, b| b));
                }
            }
            for (n, f) in fs.iter().enumerate() {
                if n % 2 != sub {
                    continue;
                }
                let (ok, same) = once(st, f.as_ref())?;
                ensure!(ok == same, "authenticator change #{n}: accepted={ok}, unchanged={same}");
                st.outcome(if ok { "authenticator accepted" } else { "authenticator refused" });
            }
            Ok(())
        });
    });
}
