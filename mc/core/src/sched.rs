//! Controlled scheduler: two real threads run one at a time; at every point where the code under test
//! calls back (random generator, hash, password hasher, database, group) control can change hands.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

struct State {
    /// thread that may run
    turn: usize,
    done: Vec<bool>,
    /// number of points passed so far
    points: usize,
    /// increasing list of points at which the running thread is preempted
    preempt: Vec<usize>,
    /// the explorer gave up control (a thread blocked outside a point)
    free: bool,
}
pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
thread_local! {
    static BOMB: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}
/// make the n-th point from now on (of this thread) panic; returns what was left of the last one
pub fn bomb(n: Option<usize>) -> Option<usize> {
    BOMB.with(|b| b.replace(n))
}
/// a scheduling point; nothing happens outside a controlled execution
pub fn point() {
    match BOMB.with(|b| b.get()) {
        Some(0) => {
            bomb(None);
            panic!("SHAPE planned");
        }
        Some(n) => BOMB.with(|b| b.set(Some(n - 1))),
        None => {}
    }
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, i)) = me {
        s.pass(i)
    }
}
impl Sched {
    fn pass(&self, me: usize) {
        let mut s = self.st.lock().unwrap();
        if s.free {
            return;
        }
        let p = s.points;
        s.points += 1;
        if s.preempt.contains(&p) {
            if let Some(o) = (0..s.done.len()).map(|k| (me + 1 + k) % s.done.len()).find(|o| *o != me && !s.done[*o]) {
                s.turn = o;
                self.cv.notify_all();
            }
        }
        self.wait(s, me);
    }
    fn wait<'a>(&'a self, mut s: std::sync::MutexGuard<'a, State>, me: usize) {
        while s.turn != me && !s.free {
            let before = s.points;
            let (n, t) = self.cv.wait_timeout(s, Duration::from_millis(400)).unwrap();
            s = n;
            if t.timed_out() && s.points == before && s.turn != me {
                // the thread whose turn it is neither reaches a point nor ends: it waits for us
                s.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut s = self.st.lock().unwrap();
        s.done[me] = true;
        if let Some(o) = (0..s.done.len()).find(|o| !s.done[*o]) {
            s.turn = o;
        }
        self.cv.notify_all();
    }
}
pub struct Ran<T> {
    pub out: Vec<T>,
    pub points: usize,
    pub free: bool,
}
/// runs the bodies under one schedule: thread `first` starts, control changes at the given points and
/// when a thread ends
pub fn run<T: Send>(bodies: &[&(dyn Fn() -> T + Sync)], first: usize, preempt: &[usize]) -> Ran<T> {
    let s = Arc::new(Sched {
        st: Mutex::new(State { turn: first, done: vec![false; bodies.len()], points: 0, preempt: preempt.to_vec(), free: false }),
        cv: Condvar::new(),
    });
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = bodies
            .iter()
            .enumerate()
            .map(|(i, b)| {
                let s = s.clone();
                sc.spawn(move || {
                    {
                        let g = s.st.lock().unwrap();
                        s.wait(g, i);
                    }
                    ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                    let r = crate::guard(b);
                    ME.with(|m| *m.borrow_mut() = None);
                    s.finish(i);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    let g = s.st.lock().unwrap();
    let out = out
        .into_iter()
        .map(|r| match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => panic!("SHAPE: {e}"),
            Err(_) => panic!("SHAPE: thread died"),
        })
        .collect();
    Ran { out, points: g.points, free: g.free }
}
