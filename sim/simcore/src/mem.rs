//! Memory seam: every allocation carries a mark that says whether the parser or the simulator (or
//! simulated user code) asked for it, so that what a parse allocates and still holds is known exactly.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

thread_local! {
    static PARSER: Cell<bool> = const { Cell::new(false) };
}

/// Bytes the parsers asked for, ever (growing an allocation counts its new size).
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
/// Bytes the parsers hold.
pub static LIVE: AtomicI64 = AtomicI64::new(0);

pub fn parser_side() -> bool {
    PARSER.try_with(|p| p.get()).unwrap_or(false)
}

/// Until the end of the scope this thread runs parser code (or not).
pub struct Side(bool);
impl Side {
    pub fn harness() -> Side {
        Side(PARSER.try_with(|p| p.replace(false)).unwrap_or(false))
    }
    pub fn parser() -> Side {
        Side(PARSER.try_with(|p| p.replace(true)).unwrap_or(false))
    }
    pub fn was_parser(&self) -> bool {
        self.0
    }
}
impl Drop for Side {
    fn drop(&mut self) {
        let _ = PARSER.try_with(|p| p.set(self.0));
    }
}

/// The global allocator of a shard (see `emit::root`).
pub struct Marked;

/// Bytes of an allocation that are given contents.
const FILL: usize = 1 << 16;

fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Marked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let Some(size) = l.size().checked_add(h) else { return std::ptr::null_mut() };
        let Ok(full) = Layout::from_size_align(size, h) else { return std::ptr::null_mut() };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let mine = parser_side();
        *(p as *mut u64) = mine as u64;
        if mine {
            TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed);
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
            p.add(h).write_bytes(crate::world::fill(), l.size().min(FILL));
        }
        p.add(h)
    }


    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(&l);
        let b = p.sub(h);
        if *(b as *mut u64) != 0 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
            p.write_bytes(!crate::world::fill(), l.size().min(FILL));
        }
        System.dealloc(b, Layout::from_size_align_unchecked(l.size() + h, h))
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = head(&l);
        let b = p.sub(h);
        let mine = *(b as *mut u64) != 0;
        let Some(size) = new.checked_add(h) else { return std::ptr::null_mut() };
        let q = System.realloc(b, Layout::from_size_align_unchecked(l.size() + h, h), size);
        if q.is_null() {
            return q;
        }
        if mine {
            TOTAL.fetch_add(new as u64, Ordering::Relaxed);
            LIVE.fetch_add(new as i64 - l.size() as i64, Ordering::Relaxed);
            if new > l.size() {
                q.add(h + l.size()).write_bytes(crate::world::fill(), (new - l.size()).min(FILL));
            }
        }
        q.add(h)
    }
}
