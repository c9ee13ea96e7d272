//! S05: perfect hiding of the first message, freshness, full use of the randomness.
use std::sync::Mutex;
use crate::drive::*;
use crate::refm::*;
use crate::toy::*;
use curve25519_dalek::edwards::CompressedEdwardsY;
use mccore::rng::Tape;
use mccore::{alpha, ensure, fail, hex, show, Ctx, Fail};
use spake2::{Ed25519Group, Group};
use std::collections::{HashMap, HashSet};

fn hiding<G: Group + Small>(ctx: &Ctx) {
    let mut pws = alpha::tricky();
    pws.extend((0..G::Q).map(|i| vec![(i as u8).wrapping_add(10)]));
    ctx.par(&format!("hiding/{}", G::label()), pws.len(), |w, i| {
        let pw = &pws[i];
        w.case(&format!("{i}"), |st| {
            for ids in [[&b""[..], b""], [b"idA", b"idB"], [b"\xff\0", b"a"]] {
                for role in ROLES {
                    let mut seen = HashSet::new();
                    for x in 0..G::Q {
                        let (_, m) = start::<G>(role, pw, ids, tx(x));
                        st.step();
                        ensure!(m.len() == 1 + G::L, "message length {}", m.len());
                        ensure!(m[0] == role.byte(), "{role:?}: side byte {:02x}", m[0]);
                        ensure!((0..G::Q).any(|e| G::enc(e) == m[1..]), "{role:?}: body {} is no element", hex(&m[1..]));
                        st.state(&(G::label(), role, i, m.clone()));
                        if !seen.insert(m) {
                            fail!("{role:?} pw={}: two ephemeral secrets of {} give the same message", show(pw), G::label());
                        }
                    }
                    st.trace();
                    st.outcome("bijection");
                }
            }
            Ok(())
        });
    });
}
/// sequences of starts drawing from one generator
fn sequences(ctx: &Ctx) {
    type T = Toy<251, 2, 0, 0>;
    let depth = ctx.t(5u32, 7);
    let n = 3usize.pow(depth);
    ctx.par("sequences/toy", n, |w, i| {
        w.case(&format!("{i}"), |st| {
            let script: Vec<u8> = (0..depth).flat_map(|k| (10 + 17 * k).to_le_bytes()).collect();
            let tape = Tape::scripted(script, 3);
            let mut j = i;
            let mut used: Vec<u32> = vec![];
            for k in 0..depth {
                let role = ROLES[j % 3];
                j /= 3;
                let before = tape.used();
                LAST.with(|l| l.borrow_mut().clear());
                // the same password every second time
                let pw: &[u8] = if k % 2 == 0 { b"pw" } else { b"other" };
                let (_, m) = start::<T>(role, pw, [b"a", b"b"], tape.clone());
                st.step();
                let drawn: Vec<u32> = LAST.with(|l| l.borrow().clone());
                ensure!(tape.used() > before && !drawn.is_empty(), "start #{k} drew nothing from its generator");
                let b = T::bytes_to_element(&m[1..]).ok_or(Fail::from("no element"))?;
                let bl = match role { Role::A => T::m(), Role::B => T::n(), Role::S => T::s() };
                let x = (b + 251 * 251 - bl * T::pw(pw)) % 251;
                ensure!(drawn.contains(&x), "start #{k} ({role:?}): ephemeral {x} was not drawn in this call (drawn {drawn:?})");
                ensure!(!used.contains(&x), "start #{k} reuses the ephemeral {x}");
                used.push(x);
                st.state(&(i, k, x));
            }
            st.trace();
            Ok(())
        });
    });
    let depth = ctx.t(4u32, 5);
    ctx.par("sequences/ed", 3usize.pow(depth) * 2, |w, i| {
        w.case(&format!("{i}"), |st| {
            let tape = Tape::new(40 + i as u64);
            let mut j = i / 2;
            let mut xs: HashMap<[u8; 32], u32> = HashMap::new();
            for k in 0..depth {
                let role = ROLES[j % 3];
                j /= 3;
                let before = tape.used();
                let pw: &[u8] = if i % 2 == 0 { b"pw" } else { &[b"pw", b"qw"][k as usize % 2][..] };
                let (s, m) = start::<Ed25519Group>(role, pw, [b"a", b"b"], tape.clone());
                // finishing (also unsuccessfully) between two starts must not influence the next one
                if k % 2 == 1 {
                    let _ = s.finish(&m);
                }
                st.steps(2);
                ensure!(tape.used() - before >= 32, "start #{k} consumed only {} bytes of randomness", tape.used() - before);
                let mut b = [0; 32];
                b.copy_from_slice(&m[1..]);
                let p = CompressedEdwardsY(b).decompress().ok_or(Fail::from("no point"))?;
                let e = (p - role.blind() * pw_scalar(pw)).compress().to_bytes();
                st.state(&e);
                if let Some(o) = xs.insert(e, k) {
                    fail!("starts #{o} and #{k} use the same ephemeral");
                }
            }
            st.trace();
            Ok(())
        });
    });
}
/// child process: print first messages from the system generator
pub fn child() {
    for role in ROLES {
        for _ in 0..4 {
            let (_, m) = start_os::<Ed25519Group>(role, b"pw", [b"a", b"b"]);
            println!("{}", hex(&m));
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.bound("all ephemeral secrets of groups of order 2..251 x passwords x roles: message map is a bijection");
    ctx.bound("all role sequences of up to 5 (toy; thorough 7) / 4 (Ed25519; thorough 5) sessions over one generator; all single-bit changes of the randomness consumed");
    ctx.assume("messages of the system generator: distinctness in one process and across processes (probability of a false report below 2^-200)");
    hiding::<Toy<2, 1, 0, 0>>(ctx);
    hiding::<Toy<3, 32, 2, 0>>(ctx);
    hiding::<Toy<5, 1, 1, 0>>(ctx);
    hiding::<Toy<7, 32, 0, 0>>(ctx);
    hiding::<Toy<11, 33, 1, 0>>(ctx);
    hiding::<Toy<5, 129, 1, 0>>(ctx);
    hiding::<Toy<5, 257, 2, 0>>(ctx);
    hiding::<Toy<13, 2, 0, 3>>(ctx);
    hiding::<Toy<101, 32, 2, 0>>(ctx);
    hiding::<Toy<251, 32, 2, 0>>(ctx);
    sequences(ctx);
    // consumed bits
    let probe = {
        let t = Tape::new(9);
        let _ = start::<Ed25519Group>(Role::A, b"pw", [b"a", b"b"], t.clone());
        t.used()
    };
    ctx.seq("bits/amount", |w| {
        w.case("amount", |st| {
            for role in ROLES {
                for pw in alpha::tricky() {
                    let t = Tape::new(9);
                    let _ = start::<Ed25519Group>(role, &pw, [&pw, b"b"], t.clone());
                    st.step();
                    ensure!(t.used() >= 32, "{role:?}: only {} bytes of randomness consumed", t.used());
                    ensure!(t.used() == probe, "{role:?} pw={}: {} bytes of randomness consumed instead of {probe}", show(&pw), t.used());
                }
            }
            st.trace();
            Ok(())
        });
    });
    let dead = std::sync::Mutex::new(Vec::<usize>::new());
    ctx.par("bits/each", probe * 8, |w, bit| {
        w.case(&format!("{bit}"), |st| {
            for seed in [9u64, 10] {
                for role in ROLES {
                    let (_, m0) = start::<Ed25519Group>(role, b"pw", [b"a", b"b"], Tape::new(seed));
                    let (_, m1) = start::<Ed25519Group>(role, b"pw", [b"a", b"b"], Tape::new(seed).flip(bit));
                    st.steps(2);
                    st.state(&m1);
                    if m0 == m1 {
                        let mut d = dead.lock().map_err(|_| Fail::from("lock"))?;
                        d.push(bit);
                        d.sort();
                        d.dedup();
                        // a rejection sampler may mask the 3 bits of 32 bytes that no scalar has
                        ensure!(probe <= 32 && d.len() <= 3, "{role:?}: bits {d:?} of the randomness have no influence on the message");
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
    // no two single-bit changes have the same effect: parts of the stream are not folded onto each other
    ctx.par("bits/pairs", 3 * ctx.t(2, 8), |w, j| {
        w.case(&format!("{j}"), |st| {
            let (role, seed) = (ROLES[j % 3], 20 + j as u64 / 3);
            let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
            let (_, m0) = start::<Ed25519Group>(role, b"pw", [b"a", b"b"], Tape::new(seed));
            for bit in 0..probe * 8 {
                let (_, m) = start::<Ed25519Group>(role, b"pw", [b"a", b"b"], Tape::new(seed).flip(bit));
                st.step();
                st.state(&m);
                if m == m0 {
                    continue; // judged above
                }
                if let Some(o) = seen.insert(m, bit) {
                    fail!("{role:?}: changing bit {o} or bit {bit} of the randomness gives the same message");
                }
            }
            ensure!(seen.len() >= 250, "{role:?}: only {} bits of randomness enter the message", seen.len());
            st.trace();
            Ok(())
        });
    });
    // the ephemeral does not depend on the password, the identities or the role
    let tr = alpha::tricky();
    ctx.par("independent", tr.len(), |w, i| {
        w.case(&format!("{i}"), |st| {
            for seed in 0..ctx.t(4u64, 20) {
                let mut first: Option<[u8; 32]> = None;
                for role in ROLES {
                    for (pw, ids) in [(&tr[i], [&tr[0][..], b"b"]), (&tr[1], [&tr[i][..], &tr[i]]), (&tr[i], [&tr[i], b""]), (&tr[0], [b"a", &tr[i]])] {
                        let (_, m) = start::<Ed25519Group>(role, pw, ids, Tape::new(seed));
                        let mut b = [0; 32];
                        b.copy_from_slice(&m[1..]);
                        let p = CompressedEdwardsY(b).decompress().ok_or(Fail::from("no point"))?;
                        let e = (p - role.blind() * pw_scalar(pw)).compress().to_bytes();
                        st.step();
                        match first {
                            None => first = Some(e),
                            Some(f) => ensure!(f == e, "{role:?} pw={} ids={},{}: the ephemeral depends on more than the random generator", show(pw), show(ids[0]), show(ids[1])),
                        }
                    }
                }
                st.state(&first);
            }
            st.trace();
            Ok(())
        });
    });
    ctx.seq("os", |w| {
        w.case("distinct", |st| {
            let mut seen: HashSet<Vec<u8>> = HashSet::new();
            for role in ROLES {
                for _ in 0..64 {
                    let (_, m) = start_os::<Ed25519Group>(role, b"pw", [b"a", b"b"]);
                    st.step();
                    ensure!(m[0] == role.byte(), "side byte");
                    let mut b = [0; 32];
                    b.copy_from_slice(&m[1..]);
                    let p = CompressedEdwardsY(b).decompress().ok_or(Fail::from("no point"))?;
                    let e = (p - role.blind() * pw_scalar(b"pw")).compress().to_bytes().to_vec();
                    ensure!(seen.insert(e), "{role:?}: an ephemeral from the system generator repeats");
                }
            }
            st.trace();
            Ok(())
        });
        w.case("processes", |st| {
            let mut seen: HashSet<Vec<u8>> = HashSet::new();
            let me = std::env::current_exe().map_err(|e| Fail::from(e.to_string()))?;
            for _ in 0..3 {
                let o = std::process::Command::new(&me).arg("child-os").output().map_err(|e| Fail::from(e.to_string()))?;
                if !o.status.success() {
                    eprintln!("engine error: child failed");
                    std::process::exit(2);
                }
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    ensure!(seen.insert(l.as_bytes().to_vec()), "first message {l} repeats across processes");
                    st.step();
                }
            }
            st.trace();
            Ok(())
        });
    });
    // as many sessions as show a generator of few bits
    let n = ctx.t(6000, 60000);
    ctx.bound(format!("{n} sessions per role from the system generator: no ephemeral twice"));
    let seen = Mutex::new(HashSet::<Vec<u8>>::new());
    ctx.par("os/many", 3 * 60, |w, i| {
        let role = ROLES[i % 3];
        w.case(&format!("{role:?}{}", i / 3), |st| {
            let mut mine = vec![];
            for _ in 0..n / 60 {
                let (_, m) = start_os::<Ed25519Group>(role, b"pw", [b"a", b"b"]);
                st.step();
                let mut b = [0; 32];
                b.copy_from_slice(m.get(1..33).ok_or(Fail::from("short message"))?);
                let p = CompressedEdwardsY(b).decompress().ok_or(Fail::from("no point"))?;
                mine.push((p - role.blind() * pw_scalar(b"pw")).compress().to_bytes().to_vec());
            }
            let mut seen = seen.lock().unwrap();
            for e in mine {
                ensure!(seen.insert(e), "{role:?}: an ephemeral from the system generator repeats");
            }
            st.trace();
            Ok(())
        });
    });
}
