//! Switches between callbacks. Shards of C08 are compiled with LLVM's coverage instrumentation, which
//! calls a function at every edge of the parsers' control flow: a seam at which the scheduler may let
//! another parse go on. Waiting for a lock is a seam as well: the task that waits lets others run.
use crate::exec::Sched;
use crate::mem::{parser_side, Side};
use crate::prng::{mix, Rng};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;

/// Edges without a callback after which a parse is taken to wait for another one.
const SPIN: u64 = 200_000;

thread_local! {
    static SCHED: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static PERIOD: Cell<u64> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// edges since the last callback
    static SINCE: Cell<u64> = const { Cell::new(0) };
    static ACCESSES: Cell<u64> = const { Cell::new(0) };
}

/// Accesses to shared memory of a task before which a switch is offered each time; later on, some of them.
const SHARED: u64 = 2_000;

/// Switches offered between callbacks, lock waits.

pub static OFFERS: AtomicU64 = AtomicU64::new(0);
pub static WAITS: AtomicU64 = AtomicU64::new(0);
pub static SHARED_ACCESSES: AtomicU64 = AtomicU64::new(0);
/// periods from here on: at accesses to shared memory only
pub const NEVER: usize = 1_000_000;

fn draw() {
    let p = PERIOD.get();
    let n = if p == 0 || p >= NEVER as u64 {
        SPIN
    } else {
        let mut r = Rng::new(RNG.get());
        RNG.set(r.next());
        1 + r.below(2 * p as usize) as u64
    };
    LEFT.set(n);
    SINCE.set(SINCE.get() + n);
}

/// The parse got on.
pub fn callback() {
    SINCE.set(0)
}

pub fn enter(s: &Arc<Sched>, slot: usize, p: Option<(u64, usize)>) {
    SCHED.set(Arc::as_ptr(s));
    PERIOD.set(p.map_or(0, |p| p.1 as u64));
    SINCE.set(0);
    ACCESSES.set(0);
    RNG.set(mix(p.map_or(0, |p| p.0), slot as u64));
    draw();
}

pub fn leave() {
    SCHED.set(std::ptr::null());
    LEFT.set(u64::MAX)
}

fn sched<'a>() -> Option<&'a Sched> {
    let p = SCHED.try_with(|s| s.get()).unwrap_or(std::ptr::null());
    // lives as long as the run, which outlives the task
    (!p.is_null()).then(|| unsafe { &*p })
}

#[cold]
fn point(s: &Sched) {
    let _h = Side::harness();
    let waits = SINCE.get() >= SPIN;
    if waits {
        SINCE.set(0)
    }
    draw();
    if waits {
        s.yield_blocked()
    } else if PERIOD.get() > 0 && PERIOD.get() < NEVER as u64 {
        OFFERS.fetch_add(1, Ordering::Relaxed);
        s.yield_now()
    }
}

/// The parser gives others the occasion to go on.
pub fn offer() {
    if let Some(s) = sched() {
        s.yield_now()
    }
}

/// Before an access to shared memory.
pub fn shared() {
    if !parser_side() {
        return;
    }
    if let Some(s) = sched() {
        let _h = Side::harness();
        SHARED_ACCESSES.fetch_add(1, Ordering::Relaxed);
        let n = ACCESSES.get();
        ACCESSES.set(n + 1);
        if PERIOD.get() > 0 && (n < SHARED || mix(n, 7) % 64 == 0) {
            s.yield_now()
        }
    }
}

#[cfg_attr(feature = "seams", no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    let n = LEFT.try_with(|l| l.get()).unwrap_or(u64::MAX);
    if n == u64::MAX || !parser_side() {
        return;
    }
    if n > 1 {
        return LEFT.set(n - 1);
    }
    if let Some(s) = sched() {
        point(s)
    }
}

#[cfg_attr(feature = "seams", no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

pub unsafe fn raw(n: i64, a: [usize; 6]) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3],
        in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _, options(nostack));
    r
}

pub unsafe fn ret(r: i64) -> i64 {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// The standard library waits for locks through this symbol.
#[cfg_attr(feature = "seams", no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    const FUTEX: i64 = 202;
    if n == FUTEX && matches!(b & 127, 0 | 9) && parser_side() {
        if let Some(s) = sched() {
            if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 {
                return ret(-11);
            }
            if crate::world::timed_out(d as *const _, b & 127 == 9) {
                return ret(-110);
            }
            let _h = Side::harness();
            WAITS.fetch_add(1, Ordering::Relaxed);
            s.yield_blocked();
            return 0;
        }
    }
    if n == 318 {
        return crate::world::getrandom(a as *mut u8, b, c as u32) as i64;
    }
    ret(raw(n, [a, b, c, d, e, f]))
}

#[cfg_attr(feature = "seams", no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if parser_side() {
        if let Some(s) = sched() {
            let _h = Side::harness();
            WAITS.fetch_add(1, Ordering::Relaxed);
            s.yield_blocked();
            return 0;
        }
    }
    ret(raw(24, [0; 6])) as i32
}
