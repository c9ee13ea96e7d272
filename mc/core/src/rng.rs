//! Scripted random generator: the environment's answers are chosen by the explorer, every draw is logged.
use rand_core::{CryptoRng, Error, RngCore};
use sha2::{Digest, Sha256};
use std::sync::{Arc, Mutex};

#[derive(Default, Debug)]
pub struct Log {
    /// all bytes handed out
    pub bytes: Vec<u8>,
    /// (offset, length) of each draw
    pub draws: Vec<(usize, usize)>,
}

/// Byte stream: an explicit script first, then a deterministic stream derived from `seed`.
/// Optionally flips one bit of the stream. Clones share position and log.
#[derive(Clone)]
pub struct Tape {
    pub log: Arc<Mutex<Log>>,
    script: Arc<Vec<u8>>,
    seed: u64,
    flip: Option<usize>,
    /// use the generator installed with `set_current` instead
    redirect: bool,
}
thread_local! {
    static CURRENT: std::cell::RefCell<Option<Tape>> = const { std::cell::RefCell::new(None) };
}
/// the session whose random stream redirecting tapes of this thread hand out
pub fn set_current(t: Option<Tape>) {
    CURRENT.with(|c| *c.borrow_mut() = t)
}
pub fn stream_byte(seed: u64, pos: usize, cache: &mut Option<(u64, [u8; 32])>) -> u8 {
    let blk = (pos / 32) as u64;
    let need = match cache {
        Some((b, _)) => *b != blk,
        None => true,
    };
    if need {
        let mut h = Sha256::new();
        h.update(b"tape");
        h.update(seed.to_le_bytes());
        h.update(blk.to_le_bytes());
        *cache = Some((blk, h.finalize().into()));
    }
    match cache {
        Some((_, d)) => d[pos % 32],
        None => 0,
    }
}
impl Tape {
    pub fn new(seed: u64) -> Tape {
        Tape::scripted(vec![], seed)
    }
    pub fn scripted(script: Vec<u8>, seed: u64) -> Tape {
        Tape {
            log: Default::default(),
            script: Arc::new(script),
            seed,
            flip: None,
            redirect: false,
        }
    }
    pub fn flip(mut self, bit: usize) -> Tape {
        self.flip = Some(bit);
        self
    }
    pub fn redirecting() -> Tape {
        Tape { redirect: true, ..Tape::new(0) }
    }
    pub fn used(&self) -> usize {
        self.log.lock().unwrap().bytes.len()
    }
    pub fn draws(&self) -> Vec<Vec<u8>> {
        let l = self.log.lock().unwrap();
        l.draws.iter().map(|(o, n)| l.bytes[*o..*o + *n].to_vec()).collect()
    }
    /// draws made since position `from` (index of draw)
    pub fn ndraws(&self) -> usize {
        self.log.lock().unwrap().draws.len()
    }
    /// every 64-byte window of the handed-out bytes that starts at the start of a draw
    pub fn wide_windows(&self, from_draw: usize) -> Vec<[u8; 64]> {
        let l = self.log.lock().unwrap();
        let mut o = vec![];
        for (off, _) in l.draws.iter().skip(from_draw) {
            if off + 64 <= l.bytes.len() {
                let mut b = [0u8; 64];
                b.copy_from_slice(&l.bytes[*off..*off + 64]);
                o.push(b);
            }
        }
        o
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        crate::sched::point();
        if self.redirect {
            if let Some(mut t) = CURRENT.with(|c| c.borrow().clone()) {
                return t.fill_bytes(dest);
            }
        }
        let mut l = self.log.lock().unwrap();
        let off = l.bytes.len();
        let mut cache = None;
        for (i, d) in dest.iter_mut().enumerate() {
            let p = off + i;
            let mut b = if p < self.script.len() {
                self.script[p]
            } else {
                stream_byte(self.seed, p, &mut cache)
            };
            if let Some(f) = self.flip {
                if f / 8 == p {
                    b ^= 1 << (f % 8);
                }
            }
            *d = b;
        }
        l.bytes.extend_from_slice(dest);
        l.draws.push((off, dest.len()));
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape {}
impl Tape {
    pub fn take64(&mut self) -> [u8; 64] {
        let mut b = [0u8; 64];
        self.fill_bytes(&mut b);
        b
    }
}
