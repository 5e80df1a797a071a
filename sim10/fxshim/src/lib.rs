//! Stand-in for the crate `fxhash` with the same interface and, with seed 0, the same hash values.
//! Two seams: the seed decides the iteration order of the containers, and every operation that
//! hashes is a point where the simulator may switch tasks.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

/// Order of containers; one value for the whole process.
pub static ORDER_SEED: AtomicU64 = AtomicU64::new(0);
/// Called on every operation that hashes.
pub static YIELD: OnceLock<fn()> = OnceLock::new();

pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = HashSet<V, FxBuildHasher>;

const SEED64: u64 = 0x517cc1b727220a95;
const SEED32: u32 = SEED64 as u32;

fn w64(h: &mut u64, w: u64) {
    *h = (h.rotate_left(5) ^ w).wrapping_mul(SEED64)
}
fn w32(h: &mut u32, w: u32) {
    *h = (h.rotate_left(5) ^ w).wrapping_mul(SEED32)
}
fn bytes64(h: &mut u64, mut b: &[u8]) {
    while b.len() >= 8 {
        w64(h, u64::from_ne_bytes(b[..8].try_into().unwrap()));
        b = &b[8..];
    }
    if b.len() >= 4 {
        w64(h, u32::from_ne_bytes(b[..4].try_into().unwrap()) as u64);
        b = &b[4..];
    }
    for x in b {
        w64(h, *x as u64)
    }
}
fn bytes32(h: &mut u32, mut b: &[u8]) {
    while b.len() >= 4 {
        w32(h, u32::from_ne_bytes(b[..4].try_into().unwrap()));
        b = &b[4..];
    }
    for x in b {
        w32(h, *x as u32)
    }
}
#[inline(never)]
fn reorder(h: u64) -> u64 {
    let s = ORDER_SEED.load(Ordering::Relaxed);
    if s == 0 {
        return h;
    }
    let mut x = h ^ s;
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

#[derive(Debug, Clone)]
pub struct FxHasher(u64);
#[inline(never)]
fn operation() {
    if let Some(f) = YIELD.get() {
        f()
    }
}
impl Default for FxHasher {
    fn default() -> Self {
        operation();
        FxHasher(0)
    }
}
impl Hasher for FxHasher {
    fn write(&mut self, b: &[u8]) {
        bytes64(&mut self.0, b)
    }
    fn write_u8(&mut self, i: u8) {
        w64(&mut self.0, i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        w64(&mut self.0, i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        w64(&mut self.0, i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        w64(&mut self.0, i)
    }
    fn write_usize(&mut self, i: usize) {
        w64(&mut self.0, i as u64)
    }
    fn finish(&self) -> u64 {
        reorder(self.0)
    }
}

#[derive(Debug, Clone, Default)]
pub struct FxHasher64(u64);
impl Hasher for FxHasher64 {
    fn write(&mut self, b: &[u8]) {
        bytes64(&mut self.0, b)
    }
    fn write_u8(&mut self, i: u8) {
        w64(&mut self.0, i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        w64(&mut self.0, i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        w64(&mut self.0, i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        w64(&mut self.0, i)
    }
    fn write_usize(&mut self, i: usize) {
        w64(&mut self.0, i as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

#[derive(Debug, Clone, Default)]
pub struct FxHasher32(u32);
impl Hasher for FxHasher32 {
    fn write(&mut self, b: &[u8]) {
        bytes32(&mut self.0, b)
    }
    fn write_u8(&mut self, i: u8) {
        w32(&mut self.0, i as u32)
    }
    fn write_u16(&mut self, i: u16) {
        w32(&mut self.0, i as u32)
    }
    fn write_u32(&mut self, i: u32) {
        w32(&mut self.0, i)
    }
    fn write_u64(&mut self, i: u64) {
        w32(&mut self.0, i as u32);
        w32(&mut self.0, (i >> 32) as u32)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn finish(&self) -> u64 {
        self.0 as u64
    }
}

/// The functions hash values that a program may print: they do not depend on the seed.
pub fn hash64<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut s = FxHasher64::default();
    v.hash(&mut s);
    s.finish()
}
pub fn hash32<T: Hash + ?Sized>(v: &T) -> u32 {
    let mut s = FxHasher32::default();
    v.hash(&mut s);
    s.finish() as u32
}
pub fn hash<T: Hash + ?Sized>(v: &T) -> usize {
    let mut s = FxHasher(0);
    v.hash(&mut s);
    s.0 as usize
}
