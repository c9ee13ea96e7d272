//! Shared exploration engine.
//!
//! A check enumerates *cases* (a case is one complete path of the explored space, or a small batch
//! of them sharing a prefix).  Within a case the check drives the real implementation and a
//! reference model in lockstep: `step()` counts an executed transition (one API call on the real
//! code compared with the model), `state()` records the model state reached, `trace()` counts a
//! complete model path that was replayed against the implementation.
pub mod alpha;
pub mod dig64;
pub mod rng;
pub mod sched;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Id64(u64);
impl Hasher for Id64 {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type Set = HashSet<u64, BuildHasherDefault<Id64>>;

/// FNV/splitmix hash of anything hashable, 64 bit.
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ *c as u64)
                    .wrapping_mul(0x9E3779B97F4A7C15)
                    .rotate_left(23);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// class key of a possible known finding
    pub key: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail {
            key: None,
            msg: msg.to_string(),
        }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Fail::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Fail::from(format!($($a)*))) };
}

#[derive(Default)]
pub struct Stats {
    states: Set,
    pub transitions: u64,
    pub traces: u64,
    pub cases: u64,
    outcomes: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    samples: Vec<String>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        if self.states.is_empty() {
            self.states = o.states
        } else {
            self.states.extend(o.states)
        }
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.cases += o.cases;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
    }
}

struct Slot {
    id: Mutex<(String, Option<Instant>)>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    only: Option<String>,
    known: Vec<(String, String)>,
    verif: String,
    t0: Instant,
    stats: Mutex<Stats>,
    violation: Mutex<Option<(u64, String, String)>>,
    stop: AtomicBool,
    slots: Vec<Arc<Slot>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    sections: Mutex<Vec<String>>,
    order: AtomicU64,
}

thread_local! {
    static PANIC: RefCell<Option<(String,String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
    static CUR: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}
/// Abnormal ends of the process (stack overflow, allocation failure, panic while panicking): the thread
/// that aborts is held, and the watchdog reports the case it was running.
static ABORTED: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static IDX: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX - 1) };
}
extern "C" {
    fn signal(sig: i32, h: extern "C" fn(i32)) -> usize;
    fn pause() -> i32;
}
extern "C" fn on_abort(_: i32) {
    ABORTED.store(IDX.with(|i| i.get()) + 1, Ordering::SeqCst);
    loop {
        unsafe { pause() };
    }
}

/// The case running in this thread makes progress (for cases that take long).
pub fn beat() {
    CUR.with_borrow(|c| {
        if let Some(s) = c {
            s.id.lock().unwrap().1 = Some(Instant::now())
        }
    })
}

/// Worker-local view.
pub struct W<'c> {
    pub ctx: &'c Ctx,
    slot: usize,
    pub stats: Stats,
    section: String,
    base: u64,
}

pub fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let quiet = QUIET.with(|q| *q.borrow());
        if !quiet {
            prev(i);
            return;
        }
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run a piece of the implementation, turning a panic into an error description.
/// A panic raised in the harness' own sources is re-raised as an engine error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness(&loc) && !msg.starts_with("SHAPE") {
                eprintln!("engine error: harness panic at {loc}: {msg}");
                std::process::exit(2);
            }
            Err(format!("panic at {loc}: {msg}"))
        }
    }
}
fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("/mc/")
}

impl Ctx {
    pub fn from_args() -> Ctx {
        install_hook();
        unsafe { signal(6, on_abort) };
        let a: Vec<String> = std::env::args().collect();
        let mut prop = String::new();
        let mut only = None;
        let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut i = 1;
        while i < a.len() {
            match a[i].as_str() {
                "--only" => {
                    only = a.get(i + 1).cloned();
                    i += 1
                }
                "--thorough" => thorough = true,
                "--quick" => thorough = false,
                s => prop = s.to_string(),
            }
            i += 1;
        }
        let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
                    if p == prop && !k.is_empty() {
                        known.push((k.to_string(), it.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
        Ctx {
            prop,
            thorough,
            seed,
            only,
            known,
            verif,
            t0: Instant::now(),
            stats: Mutex::new(Stats::default()),
            violation: Mutex::new(None),
            stop: AtomicBool::new(false),
            slots: (0..n)
                .map(|_| {
                    Arc::new(Slot {
                        id: Mutex::new((String::new(), None)),
                    })
                })
                .collect(),
            bounds: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            sections: Mutex::new(vec![]),
            order: AtomicU64::new(0),
        }
    }

    /// quick value or thorough value
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into())
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into())
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    /// Explore cases 0..n of a section in parallel; `f(worker, i)`.
    pub fn par(&self, section: &str, n: usize, f: impl Fn(&mut W, usize) + Sync) {
        if self.stopped() {
            return;
        }
        let t = Instant::now();
        let next = AtomicUsize::new(0);
        let base = self.order.fetch_add(n as u64 + 1, Ordering::Relaxed);
        let before = {
            let s = self.stats.lock().unwrap();
            (s.cases, s.transitions)
        };
        std::thread::scope(|sc| {
            for slot in 0..self.slots.len() {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        IDX.with(|i| i.set(slot));
                        let mut w = W {
                            ctx: self,
                            slot,
                            stats: Stats::default(),
                            section: section.to_string(),
                            base: 0,
                        };
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            w.base = base + i as u64;
                            f(&mut w, i);
                        }
                        let st = std::mem::take(&mut w.stats);
                        self.stats.lock().unwrap().merge(st);
                    })
                    .expect("spawn");
            }
        });
        let s = self.stats.lock().unwrap();
        self.sections.lock().unwrap().push(format!(
            "{section}: cases={} transitions={} wall={:.2}s",
            s.cases - before.0,
            s.transitions - before.1,
            t.elapsed().as_secs_f64()
        ));
    }
    /// Sequential section.
    pub fn seq(&self, section: &str, f: impl Fn(&mut W) + Sync) {
        self.par(section, 1, |w, _| f(w))
    }

    fn known_desc(&self, key: &str) -> Option<&str> {
        self.known.iter().find(|(k, _)| k == key).map(|(_, d)| d.as_str())
    }

    fn watchdog(&self) {
        let a = ABORTED.load(Ordering::SeqCst);
        if a != 0 {
            let busy = |s: &Arc<Slot>| {
                let g = s.id.lock().unwrap();
                g.1.map(|_| g.0.clone())
            };
            let id = match self.slots.get(a - 1) {
                Some(s) => busy(s),
                None => self.slots.iter().find_map(busy),
            };
            let Some(id) = id else {
                eprintln!("engine error: the process aborted outside a case");
                std::process::exit(2);
            };
            self.report_violation(&id, "the process aborted inside this case (stack overflow, allocation failure or a second panic)");
            std::process::exit(1);
        }
        for s in &self.slots {
            let g = s.id.lock().unwrap();
            if let Some(t) = g.1 {
                if t.elapsed().as_secs() > 150 {
                    let (id, m) = (g.0.clone(), "no progress for 150 s inside one case (hang)".to_string());
                    drop(g);
                    self.report_violation(&id, &m);
                    std::process::exit(1);
                }
            }
        }
    }

    fn report_violation(&self, id: &str, msg: &str) {
        let dir = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{:016x}.json", self.prop, h64(id));
        let tier = if self.thorough { "thorough" } else { "quick" };
        let body = format!(
            "{{\n \"property\": {},\n \"case\": {},\n \"observed\": {},\n \"replay\": {}\n}}\n",
            js(&self.prop),
            js(id),
            js(msg),
            js(&format!("./run.sh {} {} --only '{}'", self.prop, tier, id))
        );
        let _ = std::fs::write(&path, body);
        println!("case: {id}");
        println!("observed: {msg}");
        println!("VIOLATION property={} replay={}", self.prop, path);
    }

    /// Run the check body with watchdog, write evidence, exit.
    pub fn run(self, level: &str, body: impl FnOnce(&Ctx)) -> ! {
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let (me, d) = (&self, &done);
            sc.spawn(move || {
                while !d.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    me.watchdog();
                }
            });
            let r = catch_unwind(AssertUnwindSafe(|| body(&self)));
            done.store(true, Ordering::Relaxed);
            if r.is_err() {
                eprintln!("engine error: check body panicked");
                std::process::exit(2);
            }
        });
        let v = self.violation.lock().unwrap().take();
        let st = self.stats.lock().unwrap();
        for (k, (n, ex)) in &st.known {
            println!(
                "KNOWN-FINDING: property={} {} [key={k}, {n} cases, e.g. {ex}]",
                self.prop,
                self.known_desc(k).unwrap_or("")
            );
        }
        let wall = self.t0.elapsed().as_secs_f64();
        let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        let outcomes = st
            .outcomes
            .iter()
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .collect::<Vec<_>>()
            .join(", ");
        let known = st
            .known
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), v.0))
            .collect::<Vec<_>>()
            .join(", ");
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"exhaustive\": {},\n  \"distinct_outcomes\": {{{}}},\n  \"bounds\": [{}],\n  \"sections\": [{}],\n  \"known_findings_seen\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js(&self.prop),
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            js(level),
            st.states.len(),
            st.transitions,
            st.traces,
            st.cases,
            self.only.is_none() && v.is_none(),
            outcomes,
            list(&self.bounds.lock().unwrap()),
            list(&self.sections.lock().unwrap()),
            known,
            list(&st.samples),
            list(&self.assumptions.lock().unwrap()),
            wall,
            v.is_some() as u8
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        if self.only.is_none() {
            if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", self.verif, self.prop), ev) {
                eprintln!("engine error: cannot write evidence: {e}");
                std::process::exit(2);
            }
        }
        println!(
            "{}: cases={} states={} transitions={} traces={} wall={:.1}s outcomes={:?}",
            self.prop,
            st.cases,
            st.states.len(),
            st.transitions,
            st.traces,
            wall,
            st.outcomes
        );
        if let Some((_, id, msg)) = v {
            self.report_violation(&id, &msg);
            std::process::exit(1);
        }
        if st.cases == 0 {
            eprintln!("engine error: nothing explored");
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}

impl<'c> W<'c> {
    /// Run one case. `id` must identify it uniquely and deterministically.
    pub fn case(&mut self, id: &str, f: impl FnOnce(&mut Stats) -> R) {
        if self.ctx.stopped() {
            return;
        }
        let full = format!("{}/{}", self.section, id);
        if let Some(o) = &self.ctx.only {
            if *o != full {
                return;
            }
        }
        {
            let mut g = self.ctx.slots[self.slot].id.lock().unwrap();
            g.0.clear();
            g.0.push_str(&full);
            g.1 = Some(Instant::now());
        }
        CUR.set(Some(self.ctx.slots[self.slot].clone()));
        self.stats.cases += 1;
        let r = match guard(|| f(&mut self.stats)) {
            Ok(r) => r,
            Err(m) => Err(Fail::from(m)),
        };
        self.ctx.slots[self.slot].id.lock().unwrap().1 = None;
        if self.stats.samples.len() < 2 && self.stats.cases % 7 == 1 {
            self.stats.samples.push(full.clone());
        }
        if let Err(e) = r {
            if let Some(k) = &e.key {
                if self.ctx.known_desc(k).is_some() {
                    let en = self.stats.known.entry(k.clone()).or_insert((0, full));
                    en.0 += 1;
                    return;
                }
            }
            let mut v = self.ctx.violation.lock().unwrap();
            let better = v.as_ref().map(|x| self.base < x.0).unwrap_or(true);
            if better {
                *v = Some((self.base, full, e.msg));
            }
            self.ctx.stop.store(true, Ordering::Relaxed);
        }
    }
}
impl Stats {
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(h64(t));
    }
    pub fn step(&mut self) {
        self.transitions += 1
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n
    }
    pub fn trace(&mut self) {
        self.traces += 1
    }
    pub fn outcome(&mut self, k: &str) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += 1
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn known(&mut self, ctx: &Ctx, key: &str, example: &str) -> bool {
        if ctx.known_desc(key).is_some() {
            let e = self.known.entry(key.to_string()).or_insert((0, example.to_string()));
            e.0 += 1;
            true
        } else {
            false
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
/// short printable description of a byte string
pub fn show(b: &[u8]) -> String {
    if b.len() > 40 {
        format!("{}..({}B,{:016x})", hex(&b[..16]), b.len(), h64(b))
    } else {
        hex(b)
    }
}
