//! The simulator proper: scheduler, seams, allocator, seeded randomness.  A crate of its own so
//! that it can be left out when the code under test is compiled with a preemption point in every
//! basic block (see blocks.sh).
pub mod alloc;
pub mod rng;
pub mod shm;
pub mod simio;
pub mod simos;

/// what the simulator reports to the harness
pub mod run {
    use std::sync::OnceLock;
    pub static FATAL: OnceLock<fn(&str, &str) -> !> = OnceLock::new();
    pub static COUNT_OP: OnceLock<fn()> = OnceLock::new();
    pub fn fatal(class: &str, msg: &str) -> ! {
        match FATAL.get() {
            Some(f) => f(class, msg),
            None => {
                eprintln!("{class}: {msg}");
                std::process::abort()
            }
        }
    }
    pub fn count_op() {
        if let Some(f) = COUNT_OP.get() {
            f()
        }
    }
}
