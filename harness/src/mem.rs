//! Counts what is allocated while the library runs and not yet released. An allocation made with
//! the thread's flag up carries a mark in front of it, wherever it is released later.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }

const MARK: u64 = 0x11B2_A110_CA7E_D001;
const PLAIN: u64 = 0x11B2_A110_CA7E_D000;

fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(&l);
        let Ok(big) = Layout::from_size_align(l.size() + p, p) else { return std::ptr::null_mut() };
        let raw = System.alloc(big);
        if raw.is_null() {
            return raw;
        }
        let on = ON.try_with(|x| x.get()).unwrap_or(false);
        if on {
            LIVE.fetch_add(1, Ordering::Relaxed);
        }
        (raw.add(p - 8) as *mut u64).write(if on { MARK } else { PLAIN });
        raw.add(p)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let p = pad(&l);
        if (q.sub(8) as *mut u64).read() == MARK {
            LIVE.fetch_sub(1, Ordering::Relaxed);
        }
        System.dealloc(q.sub(p), Layout::from_size_align_unchecked(l.size() + p, p));
    }
}

/// The flag is up while this lives.
pub struct On(bool);
impl On {
    pub fn new() -> On {
        On(ON.with(|x| x.replace(true)))
    }
}
impl Drop for On {
    fn drop(&mut self) {
        ON.with(|x| x.set(self.0));
    }
}
/// The flag is down while this lives.
pub struct Off(bool);
impl Off {
    pub fn new() -> Off {
        Off(ON.try_with(|x| x.replace(false)).unwrap_or(false))
    }
}
impl Drop for Off {
    fn drop(&mut self) {
        let _ = ON.try_with(|x| x.set(self.0));
    }
}
pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
