//! A page shared between a worker and the run it forked, so that something is known about a run
//! that died (abort, stack overflow, CPU limit).
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

#[repr(C)]
pub struct Page {
    pub refused: AtomicUsize,
    pub ops: AtomicU64,
    pub steps: AtomicU64,
    pub msg_len: AtomicUsize,
    pub msg: [u8; 61440],
}
static PAGE: AtomicPtr<Page> = AtomicPtr::new(std::ptr::null_mut());

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            65536,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        PAGE.store(p as *mut Page, Relaxed);
    }
}
pub fn page() -> Option<&'static Page> {
    let p = PAGE.load(Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}
pub fn clear() {
    if let Some(p) = page() {
        p.refused.store(0, Relaxed);
        p.ops.store(0, Relaxed);
        p.steps.store(0, Relaxed);
        p.msg_len.store(0, Relaxed);
    }
}
pub fn note_refused(n: usize) {
    if let Some(p) = page() {
        p.refused.store(n, Relaxed);
    }
}
pub fn note_msg(s: &str) {
    if let Some(p) = page() {
        let n = s.len().min(61440);
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), p.msg.as_ptr() as *mut u8, n);
        }
        p.msg_len.store(n, Relaxed);
    }
}
pub fn msg() -> String {
    match page() {
        Some(p) => {
            let n = p.msg_len.load(Relaxed).min(61440);
            String::from_utf8_lossy(&p.msg[..n]).into_owned()
        }
        None => String::new(),
    }
}
