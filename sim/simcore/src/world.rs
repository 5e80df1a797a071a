//! What surrounds a parse besides its callers: clock, entropy, process id, thread names, what fresh
//! memory contains. All of it is a function of the run's `world` number while a parser runs; the
//! simulator itself sees the real ones.
use crate::mem::{parser_side, Side};
use crate::preempt::{raw, ret};
use crate::prng::mix;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// nanoseconds of simulated time
static NOW: AtomicU64 = AtomicU64::new(0);
static WORLD: AtomicU64 = AtomicU64::new(0);
/// simulated nanoseconds of all runs
pub static COVERED: AtomicU64 = AtomicU64::new(0);
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY: AtomicU64 = AtomicU64::new(0);
pub static SLEEPS: AtomicU64 = AtomicU64::new(0);
static OWN: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);

const S: u64 = 1_000_000_000;
const START: u64 = 1_000_000 * S;

pub fn start(world: u64) {
    NOW.store(START + world % 1000 * S, Relaxed);
    WORLD.store(world, Relaxed);
    READS.store(0, Relaxed);
}

pub fn finish() {
    COVERED.fetch_add(NOW.load(Relaxed).saturating_sub(START + WORLD.load(Relaxed) % 1000 * S), Relaxed);
}

/// What happens between two callbacks takes this long; a stall of `n` steps very much longer.
pub fn pass(n: usize) {
    let w = WORLD.load(Relaxed);
    let step = [1_000, 1_000, 1_000_000, S / 4][(w % 4) as usize];
    let stalled = [1_000_000, S, 60 * S, 3600 * S][(w / 4 % 4) as usize];
    NOW.fetch_add(step + (n as u64 - 1) * stalled, Relaxed);
}

/// Contents of fresh memory; freed memory is overwritten with its complement.
pub fn fill() -> u8 {
    mix(WORLD.load(Relaxed), 7) as u8
}

pub fn thread_name(i: usize) -> Option<String> {
    let w = WORLD.load(Relaxed);
    match mix(w, 11 + i as u64) % 4 {
        _ if w == 0 => None,
        0 => None,
        1 => Some("main".into()),
        2 => Some("tokio-runtime-worker".into()),
        _ => Some(format!("{i}")),
    }
}

fn word() -> u64 {
    mix(WORLD.load(Relaxed), 1000 + READS.fetch_add(1, Relaxed))
}

/// Of clock `id`, in nanoseconds.
fn read(id: i32) -> u64 {
    CLOCK.fetch_add(1, Relaxed);
    let w = WORLD.load(Relaxed);
    // looking at the clock takes time, too; sometimes a lot
    let tick = match w / 16 % 4 {
        0 | 1 => 1,
        2 => word() % 1_000_000,
        _ => [1, 1, 1, S][(word() % 4) as usize],
    };
    let t = NOW.fetch_add(tick, Relaxed) + tick;
    if id == 0 {
        // the wall clock is set now and then, also back
        let off = if w / 64 % 2 == 0 { 0 } else { word() % 4 * 1800 * S };
        return 1_600_000_000 * S + t - off;
    }
    t
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ts {
    pub s: i64,
    pub n: i64,
}

#[cfg_attr(feature = "seams", no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    if parser_side() {
        let n = read(id);
        *t = Ts { s: (n / S) as i64, n: (n % S) as i64 };
        return 0;
    }
    ret(raw(228, [id as usize, t as usize, 0, 0, 0, 0])) as i32
}

#[cfg_attr(feature = "seams", no_mangle)]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    if parser_side() {
        ENTROPY.fetch_add(1, Relaxed);
        for i in 0..n {
            *p.add(i) = word() as u8
        }
        return n as isize;
    }
    // also for the simulator itself: the standard library keeps what it got
    let k = OWN.fetch_add(1, Relaxed);
    for i in 0..n {
        *p.add(i) = mix(k, i as u64) as u8
    }
    n as isize
}

#[cfg_attr(feature = "seams", no_mangle)]
pub unsafe extern "C" fn getpid() -> i32 {
    if parser_side() {
        return 2 + (mix(WORLD.load(Relaxed), 13) % 30_000) as i32;
    }
    raw(39, [0; 6]) as i32
}

fn sleep(ns: u64) {
    let _h = Side::harness();
    SLEEPS.fetch_add(1, Relaxed);
    NOW.fetch_add(ns, Relaxed);
    crate::preempt::offer();
}

unsafe fn ns(t: *const Ts) -> u64 {
    (*t).s as u64 * S + (*t).n as u64
}

#[cfg_attr(feature = "seams", no_mangle)]
pub unsafe extern "C" fn nanosleep(t: *const Ts, rest: *mut Ts) -> i32 {
    if parser_side() {
        sleep(ns(t));
        return 0;
    }
    ret(raw(35, [t as usize, rest as usize, 0, 0, 0, 0])) as i32
}

#[cfg_attr(feature = "seams", no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const Ts, rest: *mut Ts) -> i32 {
    if parser_side() {
        let n = ns(t);
        sleep(if flags & 1 == 1 { n.saturating_sub(NOW.load(Relaxed)) } else { n });
        return 0;
    }
    // returns the error instead of setting errno
    -raw(230, [id as usize, flags as usize, t as usize, rest as usize, 0, 0]) as i32
}

/// A lock is waited for until then at most: whether that is over. Waiting takes time.
pub unsafe fn timed_out(deadline: *const Ts, absolute: bool) -> bool {
    if deadline.is_null() {
        return false;
    }
    let d = ns(deadline);
    if !absolute {
        NOW.fetch_add(d, Relaxed);
        return true;
    }
    let now = NOW.load(Relaxed);
    if now >= d {
        return true;
    }
    NOW.fetch_add((d - now) / 3 + 1, Relaxed);
    false
}
