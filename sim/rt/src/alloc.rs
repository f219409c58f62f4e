//! The memory seam: a global allocator that accounts for every byte, can return stale (poisoned)
//! and minimally aligned memory, can refuse allocations, and is a preemption point for the
//! simulated scheduler.  With no knob set it behaves as the system allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

pub static TRACK: AtomicBool = AtomicBool::new(false);
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LARGEST: AtomicUsize = AtomicUsize::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
/// any single request above this is refused (returns null); 0 = off
pub static REFUSE_ABOVE: AtomicUsize = AtomicUsize::new(0);
pub static REFUSED: AtomicUsize = AtomicUsize::new(0);
/// 0 = off, otherwise fill byte for fresh memory
pub static POISON: AtomicUsize = AtomicUsize::new(0);
/// return memory aligned to exactly the layout's alignment and no more
pub static MISALIGN: AtomicBool = AtomicBool::new(false);

const HDR: usize = 16;

unsafe fn place(raw: *mut u8, layout: Layout) -> *mut u8 {
    // user pointer: past the header, aligned as asked, at most as asked when MISALIGN is on
    let a = layout.align();
    let mut p = (raw as usize + HDR + a - 1) & !(a - 1);
    if MISALIGN.load(Relaxed) {
        if p & (2 * a - 1) == 0 {
            p += a;
        }
    } else if a < 16 {
        p = (raw as usize + HDR + 15) & !15;
    }
    ((p - 8) as *mut u64).write_unaligned(raw as u64);
    p as *mut u8
}
#[inline]
fn total(layout: Layout) -> usize {
    layout.size() + HDR + 2 * layout.align().max(16)
}

#[inline]
fn account(n: usize) {
    if TRACK.load(Relaxed) {
        let c = CUR.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(c, Relaxed);
        LARGEST.fetch_max(n, Relaxed);
        COUNT.fetch_add(1, Relaxed);
    }
}
#[inline]
fn unaccount(n: usize) {
    if TRACK.load(Relaxed) {
        let c = CUR.load(Relaxed);
        CUR.store(c.saturating_sub(n), Relaxed);
    }
}
#[inline]
fn refused(n: usize) -> bool {
    let lim = REFUSE_ABOVE.load(Relaxed);
    if lim != 0 && n > lim {
        REFUSED.store(n, Relaxed);
        crate::shm::note_refused(n);
        true
    } else {
        false
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if refused(layout.size()) {
            return std::ptr::null_mut();
        }
        let raw = System.alloc(Layout::from_size_align_unchecked(total(layout), 16));
        if raw.is_null() {
            return raw;
        }
        let p = place(raw, layout);
        let fill = POISON.load(Relaxed);
        if fill != 0 {
            std::ptr::write_bytes(p, fill as u8, layout.size());
        }
        account(layout.size());
        crate::simos::alloc_point();
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if refused(layout.size()) {
            return std::ptr::null_mut();
        }
        let raw = System.alloc_zeroed(Layout::from_size_align_unchecked(total(layout), 16));
        if raw.is_null() {
            return raw;
        }
        let p = place(raw, layout);
        account(layout.size());
        crate::simos::alloc_point();
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        unaccount(layout.size());
        let raw = (p.sub(8) as *mut u64).read_unaligned() as *mut u8;
        if POISON.load(Relaxed) != 0 {
            std::ptr::write_bytes(p, 0xDD, layout.size());
        }
        System.dealloc(raw, Layout::from_size_align_unchecked(total(layout), 16));
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, layout.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, layout.size().min(new));
            self.dealloc(p, layout);
        }
        q
    }
}

pub fn reset_tracking() {
    CUR.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    LARGEST.store(0, Relaxed);
    COUNT.store(0, Relaxed);
    REFUSED.store(0, Relaxed);
}
pub fn start_tracking() {
    reset_tracking();
    TRACK.store(true, Relaxed);
}
pub fn stop_tracking() {
    TRACK.store(false, Relaxed);
}
