//! S02: the key is an injective function of exactly (mode, password, identities, messages, shared element).
use crate::drive::*;
use crate::refm::Role;
use crate::toy::*;
use mccore::{alpha, ensure, fail, guard, hex, show, Ctx, Fail, Stats};
use spake2::{Ed25519Group, Group};
use std::collections::HashMap;
use std::sync::Mutex;

type Key = Vec<u8>;
/// run one party against an inbound body
fn fin<G: Group>(role: Role, pw: &[u8], ids: [&[u8]; 2], x: u32, body: &[u8]) -> Result<(Vec<u8>, Key), Fail> {
    let (s, m) = start::<G>(role, pw, ids, tx(x));
    let mut inb = vec![role.peer().byte()];
    inb.extend_from_slice(body);
    let r = guard(|| s.finish(&inb)).map_err(Fail::from)?;
    match r {
        Ok(k) => Ok((m[1..].to_vec(), k)),
        Err(e) => Err(Fail::from(format!("well-formed message refused: {e:?}"))),
    }
}
/// context a key must be a function of, in canonical order
#[derive(PartialEq, Eq, Hash, Clone, Debug)]
struct Cx {
    sym: bool,
    pw: Vec<u8>,
    a: Vec<u8>,
    b: Vec<u8>,
    m1: Vec<u8>,
    m2: Vec<u8>,
    k: u32,
}
impl Cx {
    fn show(&self) -> String {
        format!(
            "{{{} pw={} ids={},{} msgs={},{} K={}}}",
            if self.sym { "sym" } else { "asym" },
            show(&self.pw),
            show(&self.a),
            show(&self.b),
            show(&self.m1),
            show(&self.m2),
            self.k
        )
    }
}
#[derive(Default)]
struct Maps {
    byctx: HashMap<Cx, Key>,
    bykey: HashMap<Key, Cx>,
}
impl Maps {
    fn put(&mut self, c: Cx, k: Key) -> Result<(), Fail> {
        if let Some(old) = self.byctx.get(&c) {
            ensure!(*old == k, "same context, different keys: {}", c.show());
            return Ok(());
        }
        if let Some(o) = self.bykey.get(&k) {
            fail!("two different contexts give the same key: {} and {}", o.show(), c.show());
        }
        self.bykey.insert(k.clone(), c.clone());
        self.byctx.insert(c, k);
        Ok(())
    }
}
fn party<G: Group + Small>(
    st: &mut Stats,
    maps: &mut Maps,
    role: Role,
    pw: &[u8],
    ids: [&[u8]; 2],
    x: u32,
    y: u32,
) -> Result<Key, Fail> {
    let q = G::Q;
    let body = G::enc(y);
    let (mine, key) = fin::<G>(role, pw, ids, x, &body)?;
    let bl = match role {
        Role::A => G::n(),
        Role::B => G::m(),
        Role::S => G::s(),
    };
    let k = ((y + q * q - bl * G::pw(pw) % q) % q * x) % q;
    let (m1, m2) = match role {
        Role::A => (mine, body),
        Role::B => (body, mine),
        Role::S => {
            if mine <= body {
                (mine, body)
            } else {
                (body, mine)
            }
        }
    };
    let c = Cx {
        sym: role == Role::S,
        pw: pw.to_vec(),
        a: ids[0].to_vec(),
        b: if role == Role::S { vec![] } else { ids[1].to_vec() },
        m1,
        m2,
        k,
    };
    st.steps(2);
    st.state(&c);
    maps.put(c, key.clone())?;
    Ok(key)
}
/// complete product of the small alphabets on one group
fn product<G: Group + Small>(ctx: &Ctx, strs: &[Vec<u8>]) {
    let maps = Mutex::new(Maps::default());
    ctx.seq(&format!("product/{}", G::label()), |w| {
        for (pi, pw) in strs.iter().enumerate() {
            w.case(&format!("pw{pi}"), |st| {
                let mut m = maps.lock().map_err(|_| Fail::from("lock"))?;
                for a in strs {
                    for x in 0..G::Q {
                        for y in 0..G::Q {
                            party::<G>(st, &mut m, Role::S, pw, [a, b""], x, y)?;
                        }
                    }
                    for b in strs {
                        for x in 0..G::Q {
                            for y in 0..G::Q {
                                party::<G>(st, &mut m, Role::A, pw, [a, b], x, y)?;
                                party::<G>(st, &mut m, Role::B, pw, [a, b], x, y)?;
                            }
                        }
                        st.trace();
                    }
                }
                let n = m.bykey.len();
                st.outcome(&format!("distinct keys <= {}", n.next_power_of_two()));
                Ok(())
            });
        }
    });
}
type C1 = Toy<3, 32, 0, 1>;

fn c1(role: Role, pw: &[u8], ids: [&[u8]; 2]) -> Result<Key, Fail> {
    Ok(fin::<C1>(role, pw, ids, 1, &C1::enc(2))?.1)
}
fn set(field: usize, role: Role, s: &[u8], o: &[u8]) -> Result<Key, Fail> {
    match field {
        0 => c1(role, s, [o, b"Z"]),
        1 => c1(role, o, [s, b"Z"]),
        _ => c1(role, o, [b"Z", s]),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.bound("products of 9..13 strings in each of password/idA/idB, all ephemeral scalars and all inbound elements of groups of order 3 and 5, in all roles, with groups on which all or some passwords map to the same scalar");
    ctx.bound("all single-byte substitutions at every position of strings of length up to 200 and at block borders, all pairs of lengths 0..600 of one string, all splits of strings into the three fields");
    ctx.assume("SHA-256 has no collision among the explored contexts");
    let s9: Vec<Vec<u8>> =
        [&b""[..], b"a", b"b", b"aa", b"ab", b"\0", b"a\0", b"\0a", b"\0\0", b"A", b"\xff", b" a", b"a "]
            .iter()
            .map(|v| v.to_vec())
            .collect();
    product::<Toy<3, 32, 0, 1>>(ctx, &s9);
    product::<Toy<3, 32, 2, 2>>(ctx, &s9[..ctx.t(9, 13)]);
    product::<Toy<5, 32, 1, 3>>(ctx, &s9[..ctx.t(8, 13)]);
    product::<Toy<5, 1, 0, 0>>(ctx, &s9[..ctx.t(7, 11)]);
    product::<Toy<3, 257, 1, 0>>(ctx, &s9[..ctx.t(5, 9)]);
    product::<Toy<7, 40, 2, 1>>(ctx, &s9[..ctx.t(5, 9)]);

    let roles = [Role::A, Role::B, Role::S];
    // single-byte substitutions
    let maxl = ctx.t(200usize, 400);
    let mut ls: Vec<usize> = vec![1, 2, 8, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, maxl];
    if ctx.thorough {
        ls.extend([16, 24, 48, 96, 100, 255, 256, 257, 300]);
    }
    for field in 0..3usize {
        ctx.par(&format!("subst{field}"), ls.len() * 3, |w, i| {
            let (l, role) = (ls[i / 3], roles[i % 3]);
            if role == Role::S && field == 2 {
                return;
            }
            w.case(&format!("{l}{role:?}"), |st| {
                let b = alpha::base(l, field as u8);
                let mut seen: HashMap<Key, (usize, u8)> = HashMap::new();
                let k0 = set(field, role, &b, b"o")?;
                seen.insert(k0, (usize::MAX, 0));
                for p in 0..l {
                    for c in 0..=255u8 {
                        if c == b[p] {
                            continue;
                        }
                        if l > 65 && !ctx.thorough && c.count_ones() % 4 != 0 && c ^ b[p] != 0x20 && (c ^ b[p]).count_ones() != 1 {
                            continue;
                        }
                        let mut t = b.clone();
                        t[p] = c;
                        let k = set(field, role, &t, b"o")?;
                        st.steps(2);
                        if let Some(o) = seen.insert(k, (p, c)) {
                            fail!("field {field} {role:?} length {l}: strings differing at byte {p}={c:02x} / {o:?} give the same key");
                        }
                    }
                }
                st.trace();
                st.state(&(field, l, role));
                Ok(())
            });
        });
    }
    // lengths
    let lens = alpha::lengths(ctx.t(600, 2200));
    for field in 0..3usize {
        ctx.par(&format!("lengths{field}"), 9, |w, i| {
            let (fill, role) = (i / 3, roles[i % 3]);
            if role == Role::S && field == 2 {
                return;
            }
            w.case(&format!("{fill}{role:?}"), |st| {
                let mut seen: HashMap<Key, (usize, usize)> = HashMap::new();
                for l in &lens {
                    let big = alpha::base(*l, 3);
                    let s = match fill {
                        0 => big,
                        1 => vec![0u8; *l],
                        _ => vec![b' '; *l],
                    };
                    let mut vs = vec![s.clone()];
                    if fill == 0 && *l > 0 {
                        // prefixes of one string are in `s` for all l; suffixes and shifted copies here
                        let mut t = s.clone();
                        t[l - 1] ^= 1;
                        vs.push(t);
                        let mut t = s.clone();
                        t[0] ^= 1;
                        if *l > 1 {
                            vs.push(t);
                        }
                        if *l > 2 {
                            let mut t = s.clone();
                            t[l / 2] ^= 0x40;
                            vs.push(t);
                        }
                    }
                    for (vi, v) in vs.iter().enumerate() {
                        let k = set(field, role, v, b"o")?;
                        st.steps(2);
                        st.state(&(field, role, fill, l, vi));
                        if let Some(o) = seen.insert(k, (*l, vi)) {
                            fail!("field {field} {role:?} fill {fill}: lengths/variants {:?} and {:?} give the same key", o, (l, vi));
                        }
                    }
                }
                st.trace();
                Ok(())
            });
        });
    }
    // neighbours of the tricky strings
    let tr = alpha::tricky();
    ctx.par("neighbours", tr.len() * 3, |w, i| {
        let (s, field) = (&tr[i / 3], i % 3);
        w.case(&format!("{}.{field}", i / 3), |st| {
            for role in roles {
                if role == Role::S && field == 2 {
                    continue;
                }
                let k0 = set(field, role, s, b"o")?;
                for (d, t) in alpha::neighbours(s) {
                    st.steps(2);
                    ensure!(set(field, role, &t, b"o")? != k0, "{role:?} field {field}: {} and its neighbour {d} give the same key", show(s));
                }
                for o in &tr {
                    if o != s {
                        ensure!(set(field, role, o, b"o")? != k0, "{role:?} field {field}: {} and {} give the same key", show(s), show(o));
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
    // texts that invite clean-up: every one has a key of its own
    let tx = alpha::all_texts();
    ctx.bound(format!("{} texts (Unicode spaces, marks, case and composition pairs, invalid UTF-8, escapes, separators, numbers, each byte; alone and inside other texts; their treated forms; digests of texts of 0..1000 bytes and encodings of them) in each field", tx.len()));
    ctx.par("texts", 9, |w, i| {
        let (role, field) = (roles[i % 3], i / 3);
        if role == Role::S && field == 2 {
            return;
        }
        w.case(&format!("{role:?}{field}"), |st| {
            let mut seen: HashMap<Key, &[u8]> = HashMap::new();
            for t in &tx {
                let k = set(field, role, t, b"o")?;
                st.steps(2);
                st.state(&(field, role, t));
                if let Some(o) = seen.insert(k, t) {
                    fail!("{role:?} field {field}: {} and {} give the same key", show(o), show(t));
                }
            }
            st.trace();
            Ok(())
        });
    });
    // moving bytes between the three fields
    let words: Vec<Vec<u8>> = vec![
        b"abcdef".to_vec(),
        b"aaaaaa".to_vec(),
        vec![0; 6],
        b"a:b:c:".to_vec(),
        alpha::base(ctx.t(12, 24), 9),
        vec![0u8; ctx.t(40, 70)],
        alpha::base(ctx.t(40, 70), 5),
    ];
    ctx.par("splits", words.len() * 2, |w, i| {
        let (s, role) = (&words[i / 2], [Role::A, Role::S][i % 2]);
        w.case(&format!("{}{role:?}", i / 2), |st| {
            let mut seen: HashMap<Key, (usize, usize)> = HashMap::new();
            for p in 0..=s.len() {
                for r in p..=s.len() {
                    if role == Role::S && r != s.len() {
                        continue;
                    }
                    let k = c1(role, &s[..p], [&s[p..r], &s[r..]])?;
                    st.steps(2);
                    st.state(&(i, p, r));
                    if let Some(o) = seen.insert(k, (p, r)) {
                        fail!("{role:?}: splits {o:?} and {:?} of {} give the same key", (p, r), show(s));
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
    // swaps and the empty identity
    ctx.par("swaps", tr.len(), |w, i| {
        let a = &tr[i];
        w.case(&format!("{i}"), |st| {
            for b in &tr {
                for o in [&b"x"[..], a, b] {
                    if a == b {
                        continue;
                    }
                    let same = |x: [&[u8]; 3], y: [&[u8]; 3]| -> Result<(), Fail> {
                        if x != y {
                            ensure!(c1(Role::A, x[0], [x[1], x[2]])? != c1(Role::A, y[0], [y[1], y[2]])?,
                                "A: (pw,idA,idB) {:?} and {:?} give the same key", x.map(hex), y.map(hex));
                            ensure!(c1(Role::B, x[0], [x[1], x[2]])? != c1(Role::B, y[0], [y[1], y[2]])?,
                                "B: (pw,idA,idB) {:?} and {:?} give the same key", x.map(hex), y.map(hex));
                        }
                        if x[..2] != y[..2] {
                            ensure!(c1(Role::S, x[0], [x[1], b""])? != c1(Role::S, y[0], [y[1], b""])?,
                                "S: (pw,idS) {:?} and {:?} give the same key", x[..2].iter().map(|v| hex(v)).collect::<Vec<_>>(), y[..2].iter().map(|v| hex(v)).collect::<Vec<_>>());
                        }
                        Ok(())
                    };
                    same([o, a, b], [o, b, a])?;
                    same([a, b, o], [b, a, o])?;
                    same([a, o, b], [b, o, a])?;
                    st.steps(12);
                }
                // one identity given in asymmetric mode, the same in symmetric mode
                ensure!(c1(Role::A, a, [b, b""])? != c1(Role::S, a, [b, b""])?, "asymmetric with empty idB and symmetric give the same key");
                ensure!(c1(Role::A, a, [b"", b])? != c1(Role::S, a, [b, b""])?, "asymmetric with empty idA and symmetric give the same key");
            }
            st.trace();
            Ok(())
        });
    });
    // Ed25519: the two ends with one differing field never agree
    let sp = special();
    let el: Vec<usize> = alpha::lengths(ctx.t(130, 300));
    ctx.par("ed/mismatch", el.len() * 3, |w, i| {
        let (l, field) = (el[i / 3], i % 3);
        w.case(&format!("{l}.{field}"), |st| {
            let s = alpha::base(l, 1);
            let base: [Vec<u8>; 3] = [b"password".to_vec(), b"idA".to_vec(), b"idB".to_vec()];
            let mut x = base.clone();
            x[field] = s.clone();
            let mut muts: Vec<Vec<u8>> = vec![[&s[..], b"\0"].concat(), [b"\0", &s[..]].concat()];
            for p in [0, l / 2, l.saturating_sub(1)] {
                if p < l {
                    let mut t = s.clone();
                    t[p] ^= 0x80;
                    muts.push(t);
                }
            }
            if l > 0 {
                muts.push(s[..l - 1].to_vec());
            }
            for t in muts {
                let mut y = base.clone();
                y[field] = t;
                for (r0, r1) in [(Role::A, Role::B), (Role::S, Role::S)] {
                    if r0 == Role::S && field == 2 {
                        continue;
                    }
                    let (s0, m0) = start::<Ed25519Group>(r0, &x[0], [&x[1], &x[2]], te(&sp[18]));
                    let (s1, m1) = start::<Ed25519Group>(r1, &y[0], [&y[1], &y[2]], te(&sp[19]));
                    let (k0, k1) = (guard(|| s0.finish(&m1)).map_err(Fail::from)?, guard(|| s1.finish(&m0)).map_err(Fail::from)?);
                    st.steps(4);
                    st.state(&k0.clone().ok());
                    ensure!(k0.is_ok() && k1.is_ok(), "{r0:?}{r1:?}: well-formed message refused");
                    ensure!(k0 != k1, "{r0:?}{r1:?} field {field}: same key although {} != {}", show(&x[field]), show(&y[field]));
                    st.trace();
                }
            }
            Ok(())
        });
    });
    // Ed25519: messages are bound: every single-bit change of either message that still decodes changes the key
    ctx.par("ed/msgbits", 256 * 3, |w, i| {
        let (bit, role) = (i / 3, roles[i % 3]);
        w.case(&format!("{bit}{role:?}"), |st| {
            let mk = || start::<Ed25519Group>(role, b"password", [b"idA", b"idB"], te(&sp[18]));
            let (_, pm) = start::<Ed25519Group>(role.peer(), b"password", [b"idA", b"idB"], te(&sp[19]));
            let k0 = mk().0.finish(&pm);
            let mut m = pm.clone();
            m[1 + bit / 8] ^= 1 << (bit % 8);
            let k1 = guard(|| mk().0.finish(&m)).map_err(Fail::from)?;
            st.steps(4);
            if let (Ok(a), Ok(b)) = (&k0, &k1) {
                ensure!(a != b, "{role:?}: key unchanged although bit {bit} of the inbound message changed");
                st.outcome("other key");
                st.state(b);
            } else {
                st.outcome("refused");
            }
            ensure!(k0.is_ok(), "honest message refused");
            st.trace();
            Ok(())
        });
    });
    // Ed25519: two encodings of one element are two messages
    ctx.bound("every pair of encodings of one Ed25519 point (y and y + p for y < 19, the sign bit on x = 0), in all roles");
    ctx.par("ed/encodings", 19 * 3, |w, i| {
        let (y, role) = ((i / 3) as u8, roles[i % 3]);
        w.case(&format!("y={y} {role:?}"), |st| {
            let mut reduced = [0u8; 32];
            reduced[0] = y;
            let mut wide = [0xffu8; 32];
            wide[0] = 0xed + y;
            wide[31] = 0x7f;
            let mut keys: Vec<(Vec<u8>, Key)> = vec![];
            for e in [reduced, wide] {
                for sign in [0u8, 0x80] {
                    let mut m = vec![role.peer().byte()];
                    m.extend(e);
                    m[32] |= sign;
                    let s = start::<Ed25519Group>(role, b"password", [b"idA", b"idB"], te(&sp[18])).0;
                    let r = guard(|| s.finish(&m)).map_err(Fail::from)?;
                    st.steps(2);
                    match r {
                        Ok(k) => {
                            st.outcome("accepted");
                            st.state(&k);
                            for (o, l) in &keys {
                                ensure!(*l != k, "{role:?}: the messages {} and {} give the same key", hex(o), hex(&m));
                            }
                            keys.push((m, k));
                        }
                        Err(_) => st.outcome("refused"),
                    }
                }
            }
            st.trace();
            Ok(())
        });
    });
}
