//! X01: sessions do not influence each other.
use crate::kinds::{kinds, steps, Kind, Sess, Shared};
use crate::stars::stars;
use mccore::{ensure, fail, hex, sched, Ctx, Fail, Stats, R};
use std::process::{Command, Stdio};
use std::sync::Arc;

type Ref = Vec<Vec<Vec<u8>>>;

fn find(ks: &[Kind], n: &str) -> usize {
    ks.iter().position(|k| k.name == n).unwrap_or_else(|| {
        eprintln!("engine error: no session kind {n}");
        std::process::exit(2)
    })
}
/// `--child seq a,b,c` or `--child sched a b first p,p`
pub fn child() {
    mccore::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let ks = kinds();
    let show = |o: &[Vec<u8>]| println!("{}", o.iter().map(|s| hex(s)).collect::<Vec<_>>().join(" "));
    match a[2].as_str() {
        "seq" => {
            for n in a[3].split(',') {
                show(&steps(&ks[find(&ks, n)], None));
            }
        }
        "star" => {
            let ss = stars();
            let Some(s) = ss.iter().find(|s| s.name == a[3]) else { std::process::exit(2) };
            for c in a[4].chars() {
                show(&all(if c == 'a' { (s.a)() } else { (s.b)() }));
            }
        }
        "churn" => {
            for d in churn(&a[3], a[4].parse().unwrap_or(0), a[5] == "r") {
                println!("{d:016x}");
            }
        }
        _ => {
            let (i, j) = (find(&ks, &a[3]), find(&ks, &a[4]));
            let pre: Vec<usize> = a[6].split(',').filter_map(|s| s.parse().ok()).collect();
            let r = both(&ks[i], &ks[j], a[5].parse().unwrap_or(0), &pre);
            println!("{} {}", r.points, r.free as u8);
            for o in &r.out {
                show(o);
            }
        }
    }
}
fn both(a: &Kind, b: &Kind, first: usize, pre: &[usize]) -> sched::Ran<Vec<Vec<u8>>> {
    drop((a.mk)(None));
    drop((b.mk)(None));
    let (fa, fb) = (|| steps(a, None), || steps(b, None));
    sched::run(&[&fa, &fb], first, pre)
}
fn all(mut s: Sess) -> Vec<Vec<u8>> {
    let mut o = vec![];
    while let Some(r) = s() {
        o.push(r);
    }
    o
}
/// n sessions that all differ, in ascending or descending order; results by index
fn churn(what: &str, n: usize, rev: bool) -> Vec<u64> {
    let mut o = vec![0; n];
    for i in 0..n {
        let i = if rev { n - 1 - i } else { i };
        let mut s = crate::kinds::distinct(what, i as u64);
        let mut all = vec![];
        while let Some(r) = s() {
            all.push(r);
        }
        o[i] = mccore::h64(&all);
    }
    o
}
fn spawn(args: &[&str]) -> Result<Vec<String>, Fail> {
    let exe = std::env::current_exe().map_err(|e| Fail::from(e.to_string()))?;
    let o = Command::new(exe).arg("--child").args(args).stdin(Stdio::null()).stderr(Stdio::piped()).output();
    let o = match o {
        Ok(o) => o,
        Err(e) => {
            eprintln!("engine error: cannot start a process: {e}");
            std::process::exit(2)
        }
    };
    if !o.status.success() {
        fail!("a fresh process died ({}): {}", o.status, String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or(""));
    }
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
}
fn line(o: &[Vec<u8>]) -> String {
    o.iter().map(|s| hex(s)).collect::<Vec<_>>().join(" ")
}
fn differ(name: &str, got: &[Vec<u8>], want: &[Vec<u8>]) -> R {
    for (i, w) in want.iter().enumerate() {
        let g = got.get(i);
        if g != Some(w) {
            let s = |b: &[u8]| if b.starts_with(b"err") || b.starts_with(b"panic") { String::from_utf8_lossy(b).into_owned() } else { mccore::show(b) };
            fail!("{name}: call {} returned {} but {} when the session runs alone", i + 1, g.map(|g| s(g)).unwrap_or_default(), s(w));
        }
    }
    ensure!(got.len() == want.len(), "{name}: {} calls instead of {}", got.len(), want.len());
    Ok(())
}

/// executes the sessions call by call in the order given by `who`
fn interleave(ks: &[&Kind], who: &[u8], sh: Option<&Arc<Shared>>, want: &[&Vec<Vec<u8>>], st: &mut Stats) -> R {
    let mut ss: Vec<_> = ks.iter().map(|k| (k.mk)(sh)).collect();
    let mut out: Vec<Vec<Vec<u8>>> = vec![vec![]; ks.len()];
    for w in who {
        if let Some(o) = ss[*w as usize]() {
            out[*w as usize].push(o);
            st.step();
        }
    }
    for (i, s) in ss.iter_mut().enumerate() {
        while let Some(o) = s() {
            out[i].push(o);
        }
    }
    for i in 0..ks.len() {
        differ(ks[i].name, &out[i], want[i]).map_err(|e| Fail::from(format!("{} [schedule {:?}]", e.msg, who)))?;
    }
    st.trace();
    st.state(&(ks.iter().map(|k| k.name).collect::<Vec<_>>(), who, sh.is_some()));
    Ok(())
}
/// all orders of n[0] calls of session 0, n[1] of session 1, ... with at most `max` changes of session
pub fn orders(n: &[usize], max: usize) -> Vec<Vec<u8>> {
    fn go(left: &mut [usize], cur: Option<u8>, sw: usize, acc: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(acc.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] == 0 {
                continue;
            }
            let c = match cur {
                Some(c) if c as usize != i => 1,
                _ => 0,
            };
            if c > sw {
                continue;
            }
            left[i] -= 1;
            acc.push(i as u8);
            go(left, Some(i as u8), sw - c, acc, out);
            acc.pop();
            left[i] += 1;
        }
    }
    let mut o = vec![];
    go(&mut n.to_vec(), None, max, &mut vec![], &mut o);
    o
}

pub fn run(ctx: &Ctx) {
    let ks = kinds();
    let n = ks.len();
    ctx.bound(format!("{n} session kinds: SPAKE2 (Ed25519 and toy groups, A/B and symmetric), SRP (7 built-in and 2 small groups, 6 digests), AuCPace (4 variants, 2 digests); within each protocol a base session and sessions differing from it in one input, and sessions failing at each step"));
    ctx.assume("results of a session running alone are taken from a fresh process that runs nothing else");
    ctx.assume("thread switches are explored at the points where the code under test calls the random generator, digest, password hasher, database or group; between two points a call runs undisturbed");
    // ---- solo, each in a fresh process
    let solo: Vec<std::sync::Mutex<Vec<Vec<u8>>>> = (0..n).map(|_| Default::default()).collect();
    ctx.par("alone", n, |w, i| {
        w.case(ks[i].name, |st| {
            let a = spawn(&["seq", ks[i].name])?;
            let o = steps(&ks[i], None);
            ensure!(a.len() == 1 && a[0] == line(&o), "{}: running it in a fresh process and in this process gives different results: {} / {}", ks[i].name, a[0], line(&o));
            // a second run in the same process
            differ(ks[i].name, &steps(&ks[i], None), &o)?;
            st.steps(3 * o.len() as u64);
            st.trace();
            *solo[i].lock().unwrap() = o;
            Ok(())
        })
    });
    let want: Ref = solo.iter().enumerate().map(|(i, m)| {
        let v = m.lock().unwrap().clone();
        // --only skipped the section
        if v.is_empty() { steps(&ks[i], None) } else { v }
    }).collect();
    if ctx.stopped() {
        return;
    }
    // ---- (c) histories in fresh processes
    let c_kinds: Vec<usize> = (0..n).collect();
    let m = c_kinds.len();
    ctx.bound(format!("histories: all ordered pairs of the {m} kinds, each pair in a fresh process (in an order of its own); first uses of the built-in groups in every order of two"));
    ctx.par("history2", m * m, |w, x| {
        let (i, j) = (c_kinds[x / m], c_kinds[x % m]);
        w.case(&format!("{},{}", ks[i].name, ks[j].name), |st| {
            let o = spawn(&["seq", &format!("{},{}", ks[i].name, ks[j].name)])?;
            ensure!(o.len() == 2 && o[0] == line(&want[i]), "{}: other results in another process", ks[i].name);
            ensure!(o[1] == line(&want[j]), "{} gives other results after {}", ks[j].name, ks[i].name);
            st.steps((want[i].len() + want[j].len()) as u64);
            st.state(&(i, j));
            st.trace();
            Ok(())
        })
    });
    // ---- neighbours: two sessions that differ in one input
    let ss = stars();
    ctx.bound(format!("neighbours: {} pairs of sessions that differ in exactly one input (every byte string changed at its start, middle and end, lengthened, shortened, emptied; randomness; group, generator, digest; server secret; variant; fault), around base sessions with inputs of 4, 24 and 150 bytes in both SPAKE2 modes, 4 SRP groups and the 4 AuCPace variants with known and unknown users; the first, the second and the first again in a fresh process, and the other way round; and in one process with at most {} changes of session", ss.len(), ctx.t(1, 2)));
    ctx.par("neighbours", ss.len(), |w, x| {
        let s = &ss[x];
        w.case(&s.name, |st| {
            let f = spawn(&["star", &s.name, "aba"])?;
            let r = spawn(&["star", &s.name, "bab"])?;
            ensure!(f.len() == 3 && r.len() == 3, "a fresh process printed {} and {} sessions", f.len(), r.len());
            ensure!(f[1] == r[0], "{}: the second session gives other results after the first", s.name);
            ensure!(r[1] == f[0], "{}: the first session gives other results after the second", s.name);
            ensure!(f[2] == f[0] && r[2] == r[0], "{}: a session gives other results when it is repeated after the other one", s.name);
            let want = [all((s.a)()), all((s.b)())];
            ensure!(line(&want[0]) == f[0] && line(&want[1]) == r[0], "{}: other results in this process", s.name);
            for o in orders(&[want[0].len(), want[1].len()], ctx.t(1, 2)) {
                let mut se = [(s.a)(), (s.b)()];
                let mut at = [0, 0];
                for c in &o {
                    let c = *c as usize;
                    let got = se[c]();
                    ensure!(got.as_ref() == want[c].get(at[c]), "{}: call {} of session {c} gives other results [schedule {o:?}]", s.name, at[c] + 1);
                    at[c] += 1;
                    st.step();
                }
                st.trace();
                st.state(&(x, &o));
            }
            Ok(())
        })
    });
    // ---- (a) interleavings of whole calls
    let fam = |i: usize| ks[i].family;
    let slow = |i: usize| matches!(ks[i].name, "srp.3072" | "srp.4096" | "srp.6144" | "srp.8192");
    let mut pairs = vec![];
    for i in 0..n {
        for j in i..n {
            if slow(i) || slow(j) {
                continue;
            }
            let sw = if fam(i) == fam(j) { ctx.t(3, 4) } else { ctx.t(2, 3) };
            pairs.push((i, j, sw));
        }
    }
    ctx.bound(format!("interleavings of whole calls: all orders of the calls of two sessions with at most {} changes of session within a protocol and {} across protocols, {} pairs; every order without limit for the selected pairs", ctx.t(3, 4), ctx.t(2, 3), pairs.len()));
    ctx.par("interleave", pairs.len(), |w, x| {
        let (i, j, sw) = pairs[x];
        w.case(&format!("{},{}", ks[i].name, ks[j].name), |st| {
            for o in orders(&[want[i].len(), want[j].len()], sw) {
                interleave(&[&ks[i], &ks[j]], &o, None, &[&want[i], &want[j]], st)?;
            }
            Ok(())
        })
    });
    let full: Vec<(&str, &str)> = vec![
        ("sp.base", "sp.base"), ("sp.base", "sp.pw"), ("sp.base", "sp.sym"), ("sp.base", "sp.badside"), ("sp.sym", "sp.sym-reflect"), ("sp.toy251", "sp.toy23"),
        ("srp.small", "srp.t2"), ("srp.base", "srp.base"), ("srp.base", "srp.pw"), ("srp.base", "srp.badM1"), ("srp.base", "srp.sha1"), ("sp.base", "srp.base"),
    ];
    ctx.par("interleave-all", full.len(), |w, x| {
        let (i, j) = (find(&ks, full[x].0), find(&ks, full[x].1));
        w.case(&format!("{},{}", ks[i].name, ks[j].name), |st| {
            for o in orders(&[want[i].len(), want[j].len()], 99) {
                interleave(&[&ks[i], &ks[j]], &o, None, &[&want[i], &want[j]], st)?;
            }
            Ok(())
        })
    });
    // ---- sessions started from the same client and server object
    let sh: Vec<usize> = (0..n).filter(|i| ks[*i].sharable).collect();
    let s = sh.len();
    let sw = ctx.t(2, 4);
    ctx.bound(format!("shared objects: all ordered pairs of {s} AuCPace kinds on one AuCPaceClient and one AuCPaceServer object, at most {sw} changes of session"));
    ctx.par("shared-objects", s * s, |w, x| {
        let (i, j) = (sh[x / s], sh[x % s]);
        w.case(&format!("{},{}", ks[i].name, ks[j].name), |st| {
            for o in orders(&[want[i].len(), want[j].len()], sw) {
                if o[0] == 0 {
                    interleave(&[&ks[i], &ks[j]], &o, Some(&Shared::new()), &[&want[i], &want[j]], st)?;
                }
            }
            Ok(())
        })
    });
    // three sessions
    let tri = ["sp.base", "sp.pw", "sp.sym", "srp.base", "srp.pw", "srp.small", "au.base", "au.pw", "au.user", "au.strong", "au.partial", "au.wrongpw"];
    let t = tri.len();
    let sw = ctx.t(3, 4);
    ctx.bound(format!("three sessions: all triples of {t} kinds, at most {sw} changes of session (AuCPace on shared objects)"));
    ctx.par("three", t * t * t, |w, x| {
        let id = [find(&ks, tri[x / t / t]), find(&ks, tri[x / t % t]), find(&ks, tri[x % t])];
        if id[1] > id[2] && !ctx.thorough {
            return;
        }
        w.case(&id.map(|i| ks[i].name).join(","), |st| {
            let wants = id.map(|i| &want[i]);
            for o in orders(&wants.map(|w| w.len()), sw) {
                if o[0] == 0 {
                    interleave(&id.map(|i| &ks[i]), &o, Some(&Shared::new()), &wants, st)?;
                }
            }
            Ok(())
        })
    });
    // ---- (b) threads
    let th: Vec<usize> = (0..n).filter(|i| ks[*i].threads).collect();
    let mut tp = vec![];
    for i in &th {
        for j in &th {
            if i <= j && (ctx.thorough || fam(*i) == fam(*j)) {
                tp.push((*i, *j));
            }
        }
    }
    ctx.bound(format!("threads: {} pairs of sessions on two real threads, control passed at every point, all schedules with at most {} preemption(s), and with 2 for the cheapest pair of each protocol", tp.len(), ctx.t(1, 2)));
    // (pair, first, first preemption)
    let mut jobs = vec![];
    for (i, j) in &tp {
        let pts = both(&ks[*i], &ks[*j], 0, &[]).points;
        for first in 0..2 {
            for p in 0..pts.max(1) {
                jobs.push((*i, *j, first, p));
            }
        }
    }
    let deep = |i: usize, j: usize| {
        let (a, b) = (ks[i].name, ks[j].name);
        ctx.thorough || matches!((a, b), ("sp.tick", "sp.tick-pw") | ("sp.tick", "sp.tick-sym") | ("srp.tick", "srp.tick-pw") | ("srp.tick", "srp.tick-small"))
    };
    ctx.par("threads", jobs.len(), |w, x| {
        let (i, j, first, p) = jobs[x];
        w.case(&format!("{},{}/{first}/{p}", ks[i].name, ks[j].name), |st| {
            let mut one = |pre: &[usize]| -> Result<usize, Fail> {
                let r = both(&ks[i], &ks[j], first, pre);
                for (k, o) in [i, j].iter().zip(&r.out) {
                    differ(ks[*k].name, o, &want[*k]).map_err(|e| Fail::from(format!("{} [thread {first} first, preempted at {pre:?}]", e.msg)))?;
                }
                st.steps(r.points as u64);
                st.trace();
                st.state(&(i, j, first, pre));
                st.outcome(if r.free { "schedule not controllable" } else { "schedule followed" });
                Ok(r.points)
            };
            let pts = one(&[p])?;
            if deep(i, j) {
                for q in p + 1..pts {
                    one(&[p, q])?;
                }
            }
            Ok(())
        })
    });
    // first use on two threads, each schedule in a fresh process
    let fp = [
        ("srp.1024", "srp.1024"), ("srp.1024", "srp.1536"), ("srp.tick", "srp.tick-pw"), ("srp.tick", "srp.tick"), ("sp.tick", "sp.tick"), ("sp.tick", "sp.tick-sym"), ("au.tick", "au.tick"), ("au.tick-strong", "au.tick-partial"),
    ];
    let mut jobs = vec![];
    for (a, b) in fp {
        let pts = both(&ks[find(&ks, a)], &ks[find(&ks, b)], 0, &[]).points;
        for first in 0..2 {
            for p in 0..pts.max(1) {
                jobs.push((a, b, first, p));
            }
        }
    }
    ctx.par("threads-first-use", jobs.len(), |w, x| {
        let (a, b, first, p) = jobs[x];
        w.case(&format!("{a},{b}/{first}/{p}"), |st| {
            let o = spawn(&["sched", a, b, &first.to_string(), &p.to_string()])?;
            ensure!(o.len() == 3, "a fresh process printed {} lines", o.len());
            for (l, k) in o[1..].iter().zip([a, b]) {
                ensure!(*l == line(&want[find(&ks, k)]), "{k}: other results when its first use is interleaved with {b}");
            }
            st.trace();
            st.state(&("first", a, b, first, p));
            Ok(())
        })
    });
    // ---- (d) long histories
    let reps = ctx.t(300usize, 2000);
    ctx.bound(format!("repetition: every session {reps} times in one process ({} times for cheap ones)", ctx.t(3000usize, 70000)));
    ctx.par("repeat", n, |w, i| {
        if fam(i) == 'g' {
            return;
        }
        w.case(ks[i].name, |st| {
            let r = if ks[i].cheap { ctx.t(3000, 70000) } else if slow(i) { 20 } else { reps };
            for _ in 0..r {
                differ(ks[i].name, &steps(&ks[i], None), &want[i])?;
                st.steps(want[i].len() as u64);
            }
            st.trace();
            Ok(())
        })
    });
    // many different sessions in one process
    let many = [("srp", ctx.t(6000, 70000)), ("srp-user", ctx.t(6000, 70000)), ("sp", ctx.t(1500, 10000)), ("sp-id", ctx.t(1500, 10000)), ("toy", ctx.t(20000, 140000)), ("au", ctx.t(600, 5000)), ("au-strong", ctx.t(600, 5000))];
    ctx.bound(format!("many sessions that all differ, in ascending order in one process and in descending order in another: {many:?}"));
    ctx.par("many", many.len(), |w, x| {
        let (k, c) = many[x];
        w.case(k, |st| {
            let (c1, c2) = (c.to_string(), c.to_string());
            let (f, r) = std::thread::scope(|s| {
                let f = s.spawn(|| spawn(&["churn", k, &c1, "f"]));
                let r = s.spawn(|| spawn(&["churn", k, &c2, "r"]));
                (f.join(), r.join())
            });
            let (Ok(f), Ok(r)) = (f, r) else { fail!("?") };
            let (f, r) = (f?, r?);
            ensure!(f.len() == c && r.len() == c, "a process stopped early");
            for i in 0..c {
                ensure!(f[i] == r[i], "{k}: session {i} gives other results after the sessions before it than after the sessions behind it");
            }
            st.steps(2 * c as u64);
            st.trace();
            Ok(())
        })
    });
    // one pair of shared objects serving many sessions
    ctx.par("repeat-shared", s, |w, x| {
        let i = sh[x];
        w.case(ks[i].name, |st| {
            let o = Shared::new();
            for _ in 0..reps {
                differ(ks[i].name, &steps(&ks[i], Some(&o)), &want[i])?;
                st.steps(want[i].len() as u64);
            }
            st.trace();
            Ok(())
        })
    });
    // ---- (e) sessions that a callback ends by a panic
    let crash = ["sp.base", "sp.tick", "sp.tick-sym", "srp.tick", "srp.tick-small", "au.base", "au.alloc", "au.unknown", "au.partial", "au.partial-unknown", "au.strong", "au.strong-unknown", "au.pstrong", "au.pstrong-unknown", "au.implicit", "au.pre", "au.tick", "au.tick-strong"];
    let after = ["sp.base", "sp.sym", "sp.tick", "srp.base", "srp.tick", "au.base", "au.alloc", "au.unknown", "au.partial-unknown", "au.strong", "au.strong-unknown", "au.pstrong-unknown", "au.tick"];
    const FAR: usize = 1 << 40;
    let mut jobs = vec![];
    let mut pts = std::collections::BTreeMap::new();
    for a in crash {
        let k = &ks[find(&ks, a)];
        let sh = Shared::new();
        let mut s = (k.mk)(Some(&sh));
        sched::bomb(Some(FAR));
        while s().is_some() {}
        let n = FAR - sched::bomb(None).unwrap_or(FAR);
        pts.insert(a, n);
        for b in after {
            jobs.push((a, b));
        }
    }
    ctx.bound(format!("panics: the random generator, hasher, database, digest or group panics at every single callback of a session (callbacks of each: {pts:?}); a second session that uses the same objects begins 0..all calls before it or after it, {} pairs", jobs.len()));
    ctx.par("panic", jobs.len(), |w, x| {
        let (a, b) = jobs[x];
        let (i, j) = (find(&ks, a), find(&ks, b));
        for p in 0..pts[a] {
            w.case(&format!("{a},{b}/{p}"), |st| {
                let n = want[j].len();
                for head in if fam(i) == fam(j) { (0..n).collect::<Vec<_>>() } else { vec![0, n - 1] } {
                    let sh = Shared::new();
                    let mut out = vec![];
                    let mut s = (ks[j].mk)(Some(&sh));
                    for _ in 0..head {
                        out.extend(s());
                    }
                    let mut c = (ks[i].mk)(Some(&sh));
                    sched::bomb(Some(p));
                    let mut ended = false;
                    while let Some(r) = c() {
                        if r.starts_with(b"panic ") {
                            ended = true;
                            break;
                        }
                    }
                    sched::bomb(None);
                    st.outcome(if ended { "session ended by a panic" } else { "no panic reached the session" });
                    drop(c);
                    mccore::rng::set_current(None);
                    while let Some(r) = s() {
                        out.push(r);
                    }
                    differ(ks[j].name, &out, &want[j]).map_err(|e| Fail::from(format!("{} [{head} calls before {a} panics at callback {p}]", e.msg)))?;
                    // and a session begun afterwards
                    differ(ks[j].name, &steps(&ks[j], Some(&sh)), &want[j]).map_err(|e| Fail::from(format!("{} [after {a} panicked at callback {p}]", e.msg)))?;
                    st.steps(2 * n as u64);
                    st.trace();
                    st.state(&(a, b, p, head));
                }
                Ok(())
            })
        }
    });
    // ---- three kinds in a fresh process
    if ctx.thorough {
        let pick: Vec<usize> = (0..n).filter(|i| !ks[*i].threads && !slow(*i)).collect();
        let q = pick.len();
        ctx.bound(format!("all ordered triples of {q} kinds, each in a fresh process"));
        ctx.par("history3", q * q * q, |w, x| {
            let id = [pick[x / q / q], pick[x / q % q], pick[x % q]];
            w.case(&id.map(|i| ks[i].name).join(","), |st| {
                let o = spawn(&["seq", &id.map(|i| ks[i].name).join(",")])?;
                ensure!(o.len() == 3, "?");
                for (l, i) in o.iter().zip(id) {
                    ensure!(*l == line(&want[i]), "{} gives other results in this history", ks[i].name);
                }
                st.state(&id);
                st.trace();
                Ok(())
            })
        });
    }
}
