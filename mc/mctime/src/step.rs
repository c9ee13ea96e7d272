//! Runs a closure one machine instruction at a time (trap flag and SIGTRAP in this very thread, no
//! tracing privileges needed) and fingerprints the sequence of executed instruction addresses.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const ARENA: usize = 1 << 16;
struct Buf(UnsafeCell<[u8; ARENA]>);
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static N: Cell<u64> = const { Cell::new(0) };
    static H: Cell<u64> = const { Cell::new(0) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static BUF: Buf = const { Buf(UnsafeCell::new([0; ARENA])) };
}
pub const CAP: u64 = 20_000_000;

/// while stepping, memory comes from a bump arena, so that the state of the heap has no influence
pub struct Alloc;
fn arena() -> usize {
    BUF.with(|b| b.0.get() as usize)
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.get() {
            let at = (arena() + USED.get() + 64) & !63;
            let end = at + l.size() - arena();
            if end <= ARENA && l.align() <= 64 {
                USED.set(end);
                return at as *mut u8;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if ON.get() || (a >= arena() && a < arena() + ARENA) {
            return;
        }
        System.dealloc(p, l)
    }
}
/// comparisons of memory always go byte by byte and stop at the first difference, as the C library may
unsafe fn cmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    cmp(a, b, n)
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    cmp(a, b, n)
}

extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    // SAFETY: the kernel passes the context of the interrupted thread
    unsafe {
        let u = &mut *(c as *mut libc::ucontext_t);
        let ip = u.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        let n = N.get() + 1;
        N.set(n);
        H.set((H.get() ^ ip).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23));
        if n >= CAP {
            u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        }
    }
}
pub fn install() {
    // SAFETY: plain installation of a handler
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut a.sa_mask);
        if libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()) != 0 {
            eprintln!("engine error: cannot install a handler");
            std::process::exit(2);
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Trace {
    pub n: u64,
    pub hash: u64,
}
#[inline(never)]
pub fn stepped<T>(f: impl FnOnce() -> T) -> (T, Trace) {
    N.set(0);
    H.set(0);
    USED.set(0);
    ON.set(true);
    // SAFETY: sets and clears the trap flag of this thread
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq", "nop") };
    ON.set(false);
    (r, Trace { n: N.get(), hash: H.get() })
}
