//! Accesses to memory that parses (or expansions) share. Crates under simulation are compiled with the
//! instrumentation of LLVM's thread sanitizer, but without its runtime: every atomic operation and every
//! other access calls a function. Those are defined here; atomic operations and accesses to statics
//! become points at which the scheduler may let another task go on. Atomic operations are carried out
//! in the order of the execution, which is sequentially consistent.
use std::sync::atomic::{self, AtomicUsize, Ordering::{Relaxed, SeqCst}};

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// What to do before an access to shared memory.
static POINT: AtomicUsize = AtomicUsize::new(0);

pub fn set_point(f: fn()) {
    POINT.store(f as usize, Relaxed)
}

#[cold]
fn point() {
    let f = POINT.load(Relaxed);
    if f != 0 {
        unsafe { std::mem::transmute::<usize, fn()>(f)() }
    }
}

#[inline]
fn range(p: usize, n: usize) {
    // in a static variable (not a constant, not thread-local)
    let (a, b) = (&raw const __data_start as usize, &raw const _end as usize);
    if p < b && p + n > a {
        point()
    }
}

#[inline]
fn access(p: usize) {
    range(p, 1)
}

macro_rules! accesses {
    ($($f:ident)*) => { $( #[no_mangle] pub extern "C" fn $f(p: usize) { access(p) } )* };
}

macro_rules! nothing {
    ($($f:ident)*) => { $( #[no_mangle] pub extern "C" fn $f(_: usize) {} )* };
}

macro_rules! atomics {
    ($t:ty, $a:ident, $load:ident $store:ident $cas:ident, $($f:ident $op:ident)*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const atomic::$a, _: i32) -> $t {
            point();
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const atomic::$a, v: $t, _: i32) {
            point();
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const atomic::$a, old: $t, new: $t, _: i32, _: i32) -> $t {
            point();
            (*p).compare_exchange(old, new, SeqCst, SeqCst).unwrap_or_else(|v| v)
        }
        $( #[no_mangle]
        pub unsafe extern "C" fn $f(p: *const atomic::$a, v: $t, _: i32) -> $t {
            point();
            (*p).$op(v, SeqCst)
        } )*
    };
}

accesses! {
    __tsan_read1 __tsan_volatile_read1 __tsan_unaligned_read1
    __tsan_unaligned_volatile_read1 __tsan_write1 __tsan_volatile_write1
    __tsan_unaligned_write1 __tsan_unaligned_volatile_write1 __tsan_read_write1
    __tsan_unaligned_read_write1 __tsan_read2 __tsan_volatile_read2
    __tsan_unaligned_read2 __tsan_unaligned_volatile_read2 __tsan_write2
    __tsan_volatile_write2 __tsan_unaligned_write2 __tsan_unaligned_volatile_write2
    __tsan_read_write2 __tsan_unaligned_read_write2 __tsan_read4
    __tsan_volatile_read4 __tsan_unaligned_read4 __tsan_unaligned_volatile_read4
    __tsan_write4 __tsan_volatile_write4 __tsan_unaligned_write4
    __tsan_unaligned_volatile_write4 __tsan_read_write4 __tsan_unaligned_read_write4
    __tsan_read8 __tsan_volatile_read8 __tsan_unaligned_read8
    __tsan_unaligned_volatile_read8 __tsan_write8 __tsan_volatile_write8
    __tsan_unaligned_write8 __tsan_unaligned_volatile_write8 __tsan_read_write8
    __tsan_unaligned_read_write8 __tsan_read16 __tsan_volatile_read16
    __tsan_unaligned_read16 __tsan_unaligned_volatile_read16 __tsan_write16
    __tsan_volatile_write16 __tsan_unaligned_write16 __tsan_unaligned_volatile_write16
    __tsan_read_write16 __tsan_unaligned_read_write16
    __tsan_vptr_read
}

nothing! { __tsan_func_entry __tsan_func_exit __tsan_init __tsan_ignore_thread_begin __tsan_ignore_thread_end }

atomics! { u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_compare_exchange_val,
    __tsan_atomic8_exchange swap __tsan_atomic8_fetch_add fetch_add __tsan_atomic8_fetch_sub fetch_sub __tsan_atomic8_fetch_and fetch_and __tsan_atomic8_fetch_or fetch_or __tsan_atomic8_fetch_xor fetch_xor __tsan_atomic8_fetch_nand fetch_nand }
atomics! { u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_compare_exchange_val,
    __tsan_atomic16_exchange swap __tsan_atomic16_fetch_add fetch_add __tsan_atomic16_fetch_sub fetch_sub __tsan_atomic16_fetch_and fetch_and __tsan_atomic16_fetch_or fetch_or __tsan_atomic16_fetch_xor fetch_xor __tsan_atomic16_fetch_nand fetch_nand }
atomics! { u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_compare_exchange_val,
    __tsan_atomic32_exchange swap __tsan_atomic32_fetch_add fetch_add __tsan_atomic32_fetch_sub fetch_sub __tsan_atomic32_fetch_and fetch_and __tsan_atomic32_fetch_or fetch_or __tsan_atomic32_fetch_xor fetch_xor __tsan_atomic32_fetch_nand fetch_nand }
atomics! { u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_compare_exchange_val,
    __tsan_atomic64_exchange swap __tsan_atomic64_fetch_add fetch_add __tsan_atomic64_fetch_sub fetch_sub __tsan_atomic64_fetch_and fetch_and __tsan_atomic64_fetch_or fetch_or __tsan_atomic64_fetch_xor fetch_xor __tsan_atomic64_fetch_nand fetch_nand }

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(p: usize, _: usize) {
    access(p)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(a: *mut u8, b: *const u8, n: usize) -> *mut u8 {
    range(a as usize, n);
    range(b as usize, n);
    std::ptr::copy_nonoverlapping(b, a, n);
    a
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(a: *mut u8, b: *const u8, n: usize) -> *mut u8 {
    range(a as usize, n);
    range(b as usize, n);
    std::ptr::copy(b, a, n);
    a
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(a: *mut u8, v: i32, n: usize) -> *mut u8 {
    range(a as usize, n);
    std::ptr::write_bytes(a, v as u8, n);
    a
}
