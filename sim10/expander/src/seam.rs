//! Everything the expansion could take from its surroundings, under control of the simulator:
//! memory addresses, entropy, clock, process id, and blocking on locks. Allocations and hash
//! operations are the points where the scheduler may switch tasks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static ME: Cell<usize> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static EDGES_LEFT: Cell<u64> = const { Cell::new(1 << 20) };
    static SINCE: Cell<u64> = const { Cell::new(0) };
    static ACCESSES: Cell<u64> = const { Cell::new(0) };
}

pub static ENTROPY: AtomicU64 = AtomicU64::new(1);
pub static ADDRESSES: AtomicU64 = AtomicU64::new(0);
pub static N_ALLOC: AtomicU64 = AtomicU64::new(0);
pub static N_HASH: AtomicU64 = AtomicU64::new(0);
pub static N_ENTROPY: AtomicU64 = AtomicU64::new(0);
pub static N_CLOCK: AtomicU64 = AtomicU64::new(0);
static NOW: AtomicU64 = AtomicU64::new(0);
pub static N_WAIT: AtomicU64 = AtomicU64::new(0);
pub static N_SWITCH: AtomicU64 = AtomicU64::new(0);
pub static N_EDGE: AtomicU64 = AtomicU64::new(0);
/// mean number of edges between two switches
static EDGE_PERIOD: AtomicU64 = AtomicU64::new(0);
/// periods from here on: tasks go on in turn, for exactly that many edges more than this
pub const LOCKSTEP: u64 = 1_000_000_000;
/// edges without anything else after which an expansion is taken to wait for another one
const SPIN: u64 = 50_000_000;
/// period: switches only before accesses to shared memory
pub const SHARED: u64 = LOCKSTEP - 1;
/// accesses to shared memory of an expansion before which a switch is possible each time
const EACH: u64 = 5_000;
static SWITCH_SHARED: AtomicBool = AtomicBool::new(false);
pub static N_SHARED: AtomicU64 = AtomicU64::new(0);
/// mean number of seam crossings between two switches
static PERIOD: AtomicU64 = AtomicU64::new(0);

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn my_rng() -> u64 {
    let mut s = RNG.get();
    let r = splitmix(&mut s);
    RNG.set(s);
    r
}

// ---------------------------------------------------------------------------------------------
// scheduler

struct Sched {
    current: usize,
    live: Vec<bool>,
    rng: u64,
    digest: u64,
    waits: u64,
    picks: u64,
}
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
const MAX_TASKS: usize = 8;
static TURN: [Condvar; MAX_TASKS] = [const { Condvar::new() }; MAX_TASKS];

pub fn start(tasks: usize, seed: u64, period: u64) {
    let mut rng = seed ^ 0x5ced;
    let edges = [0, 0, 300, 3000, 30_000][(splitmix(&mut { seed ^ 0xed6e }) % 5) as usize];
    let any = period != 0;
    let (period, edges) = match period {
        0 => (0, 0),
        SHARED => (0, 0),
        // side by side: in turn, the same number of edges each time
        p if p >= LOCKSTEP => (0, p),
        p => (p, edges),
    };
    PERIOD.store(period, Relaxed);
    SWITCH_SHARED.store(any, Relaxed);
    EDGE_PERIOD.store(edges, Relaxed);
    let current = (splitmix(&mut rng) % tasks as u64) as usize;
    *SCHED.lock().unwrap() =
        Some(Sched { current, live: vec![true; tasks], rng, digest: 0xcbf29ce484222325, waits: 0, picks: 0 });
}

/// Digest of the sequence of choices.
pub fn finish() -> u64 {
    SCHED.lock().unwrap().take().unwrap().digest
}

fn draw_left() {
    let p = PERIOD.load(Relaxed);
    LEFT.set(if p == 0 { u64::MAX } else { 1 + my_rng() % (2 * p) });
}

/// Enters the simulation as task `me`; returns when it is scheduled.
pub fn enter(me: usize, seed: u64) {
    ME.set(me);
    RNG.set(seed);
    draw_left();
    SINCE.set(0);
    ACCESSES.set(0);
    draw_edges(true);
    let mut g = SCHED.lock().unwrap();
    while g.as_ref().unwrap().current != me {
        g = TURN[me].wait(g).unwrap();
    }
    drop(g);
    ACTIVE.set(true);
}

pub fn leave() {
    ACTIVE.set(false);
    let mut g = SCHED.lock().unwrap();
    let s = g.as_mut().unwrap();
    s.live[ME.get()] = false;
    s.waits = 0;
    pick(s);
    let n = s.current;
    drop(g);
    TURN[n].notify_one();
}

fn pick(s: &mut Sched) {
    let live: Vec<usize> = (0..s.live.len()).filter(|&i| s.live[i]).collect();
    if live.is_empty() {
        return;
    }
    let n = if EDGE_PERIOD.load(Relaxed) >= LOCKSTEP {
        *live.iter().find(|&&i| i > s.current).unwrap_or(&live[0])
    } else {
        live[(splitmix(&mut s.rng) % live.len() as u64) as usize]
    };
    s.digest = (s.digest ^ n as u64).wrapping_mul(0x100000001b3);
    s.picks += 1;
    if s.picks % 50_000 == 0 && EDGE_PERIOD.load(Relaxed) >= LOCKSTEP {
        // a long one: not to the end like this
        EDGE_PERIOD.fetch_add(15 * (EDGE_PERIOD.load(Relaxed) - LOCKSTEP), Relaxed);
    }
    if n != s.current {
        N_SWITCH.fetch_add(1, Relaxed);
    }
    s.current = n;
}

fn switch(blocked: bool) {
    ACTIVE.set(false);
    let me = ME.get();
    let mut g = SCHED.lock().unwrap();
    let s = g.as_mut().unwrap();
    if blocked {
        s.waits += 1;
        if s.waits > 200_000 {
            eprintln!("DEADLOCK: every expansion waits for a lock");
            unsafe { libc_exit(5) }
        }
    } else {
        s.waits = 0
    }
    pick(s);
    if s.current != me {
        TURN[s.current].notify_one();
        while g.as_ref().unwrap().current != me {
            g = TURN[me].wait(g).unwrap();
        }
    }
    drop(g);
    ACTIVE.set(true);
}

fn point() {
    SINCE.set(0);
    let l = LEFT.get();
    if l <= 1 {
        draw_left();
        switch(false);
    } else {
        LEFT.set(l - 1)
    }
}

fn draw_edges(first: bool) {
    let p = EDGE_PERIOD.load(Relaxed);
    let n = match p {
        0 => SPIN,
        p if p >= LOCKSTEP && first => 1 + my_rng() % (p - LOCKSTEP),
        p if p >= LOCKSTEP => p - LOCKSTEP,
        p => 1 + my_rng() % (2 * p),
    };
    EDGES_LEFT.set(n);
    SINCE.set(SINCE.get() + n);
}

/// The crate under test is compiled so that it calls this at every edge (see edges.sh).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    // no destructor: the cell is always there
    let n = EDGES_LEFT.get();
    if n > 1 {
        return EDGES_LEFT.set(n - 1);
    }
    edge()
}

#[cold]
fn edge() {
    if !ACTIVE.get() {
        return EDGES_LEFT.set(1 << 20);
    }
    let waits = SINCE.get() >= SPIN;
    if waits {
        SINCE.set(0)
    }
    draw_edges(false);
    N_EDGE.fetch_add(1, Relaxed);
    if waits || EDGE_PERIOD.load(Relaxed) > 0 {
        switch(waits)
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

/// Before an access to memory that expansions share.
pub fn shared_point() {
    if ACTIVE.get() {
        N_SHARED.fetch_add(1, Relaxed);
        let n = ACCESSES.get();
        ACCESSES.set(n + 1);
        if SWITCH_SHARED.load(Relaxed) && (n < EACH || splitmix(&mut { n }) % 64 == 0) {
            switch(false)
        }
    }
}

pub fn hash_point() {
    if ACTIVE.get() {
        N_HASH.fetch_add(1, Relaxed);
        point()
    }
}

pub fn active() -> bool {
    ACTIVE.get()
}

// ---------------------------------------------------------------------------------------------
// memory

pub struct Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let mut pad = 0;
        if ACTIVE.get() {
            N_ALLOC.fetch_add(1, Relaxed);
            if ADDRESSES.load(Relaxed) != 0 {
                pad = (my_rng() % 8) as usize * 16
            }
            point();
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pad + 16, 16));
        if p.is_null() {
            return p;
        }
        let q = p.add(pad + 16);
        (q.sub(8) as *mut u64).write(pad as u64);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(q, l);
        }
        let pad = (q.sub(8) as *mut u64).read() as usize;
        System.dealloc(q.sub(pad + 16), Layout::from_size_align_unchecked(l.size() + pad + 16, 16))
    }
}

// ---------------------------------------------------------------------------------------------
// system calls that std makes through these symbols

unsafe fn raw(n: i64, a: [usize; 6]) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3],
        in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn libc_exit(code: usize) -> ! {
    raw(231, [code, 0, 0, 0, 0, 0]);
    loop {}
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    const FUTEX: i64 = 202;
    const GETRANDOM: i64 = 318;
    if n == GETRANDOM {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    // waiting for a lock: let another task run, then look again
    if n == FUTEX && ACTIVE.get() && matches!(b & 127, 0 | 9) {
        if (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
            return ret(-11);
        }
        N_WAIT.fetch_add(1, Relaxed);
        if d != 0 {
            return ret(-110); // with a time limit: it is over
        }
        switch(true);
        return 0;
    }
    ret(raw(n, [a, b, c, d, e, f]))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    // one value per process and seed, plus the number of the request
    let mut s = ENTROPY.load(Relaxed).wrapping_add(N_ENTROPY.fetch_add(1, Relaxed).wrapping_mul(0xabcdef123457));
    for i in 0..n {
        *p.add(i) = splitmix(&mut s) as u8
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    if !ACTIVE.get() {
        return ret(raw(228, [id as usize, t as usize, 0, 0, 0, 0])) as i32;
    }
    let k = N_CLOCK.fetch_add(1, Relaxed);
    let mut s = ENTROPY.load(Relaxed) ^ 0xc10c;
    let (base, mode) = (splitmix(&mut s) % (1 << 60), splitmix(&mut s));
    let mut r = s ^ k;
    // looking at the clock takes time; how much depends on the process, and the wall clock is set back now and then
    let tick = [1, 1_000_000, 40_000_000, 1 << 40][(mode % 4) as usize];
    let mut now = base + NOW.fetch_add(1 + splitmix(&mut r) % tick, Relaxed);
    if id == 0 && mode / 4 % 2 == 1 {
        now -= splitmix(&mut r) % 4 * (1 << 42)
    }
    *t = [1_000_000_000 + (now / 1_000_000_000) as i64, (now % 1_000_000_000) as i64];
    0
}

/// Sleeping takes no time, but lets others go on.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], rest: *mut [i64; 2]) -> i32 {
    if ACTIVE.get() {
        NOW.fetch_add((*t)[0] as u64 * 1_000_000_000 + (*t)[1] as u64, Relaxed);
        switch(false);
        return 0;
    }
    ret(raw(35, [t as usize, rest as usize, 0, 0, 0, 0])) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const [i64; 2], rest: *mut [i64; 2]) -> i32 {
    if ACTIVE.get() {
        if flags & 1 == 0 {
            NOW.fetch_add((*t)[0] as u64 * 1_000_000_000 + (*t)[1] as u64, Relaxed);
        }
        switch(false);
        return 0;
    }
    -raw(230, [id as usize, flags as usize, t as usize, rest as usize, 0, 0]) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if !ACTIVE.get() {
        return raw(39, [0; 6]) as i32;
    }
    let mut s = ENTROPY.load(Relaxed) ^ 0x91d;
    2 + (splitmix(&mut s) % 30000) as i32
}

// ---------------------------------------------------------------------------------------------
// the environment: what an expansion asks for has a seeded value in most processes

pub static N_ENV: AtomicU64 = AtomicU64::new(0);

/// Whether this process is one whose surroundings are made up.
fn odd_world() -> Option<u64> {
    let mut s = ENTROPY.load(Relaxed) ^ 0xe27;
    (ACTIVE.get() && ADDRESSES.load(Relaxed) != simcore::prng::mix(0, 2) | 1).then(|| splitmix(&mut s))
}

extern "C" {
    static environ: *const *const u8;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let name = std::ffi::CStr::from_ptr(name as _).to_bytes();
    // scratch directories are real ones; the standard library's own affairs are its own
    let own = ["TMPDIR", "TEMP", "HOME", "OUT_DIR", "CARGO_MANIFEST_DIR", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK"];
    if let (Some(w), false) = (odd_world(), own.iter().any(|o| o.as_bytes() == name)) {
        N_ENV.fetch_add(1, Relaxed);
        let mut h = name.iter().fold(w, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
        let k = splitmix(&mut h) % 12;
        if w % 4 != 0 && k < 8 {
            return [b"1\0".as_ptr(), b"0\0".as_ptr(), b"\0".as_ptr(), b"true\0".as_ptr(), b"release\0".as_ptr(), b"4\0".as_ptr(), b"full\0".as_ptr(), b"x86\0".as_ptr()][k as usize];
        }
        if w % 4 != 0 {
            return std::ptr::null();
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = std::ffi::CStr::from_ptr(*e as _).to_bytes();
        if v.len() > name.len() && v.starts_with(name) && v[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

/// The number of processors is seeded.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, set: *mut u8) -> i32 {
    if let Some(w) = odd_world() {
        std::ptr::write_bytes(set, 0, size);
        for i in 0..[1, 2, 3, 8, 64][(w / 4 % 5) as usize] {
            *set.add(i / 8) |= 1 << (i % 8)
        }
        return 0;
    }
    let r = raw(204, [pid as usize, size, set as usize, 0, 0, 0]);
    if r >= 0 {
        let n = r as usize;
        std::ptr::write_bytes(set.add(n), 0, size - n);
        return 0;
    }
    ret(r) as i32
}
