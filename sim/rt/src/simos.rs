//! The operating-system seam.  The symbols the code under test (and std, rayon, exr, dav1d...)
//! reaches the kernel through are defined here and take precedence over libc's:
//! futex, thread creation and join, yield, sleep, clock, randomness, processor count, and file
//! operations on paths under /sim/.  While a simulated run is active exactly one registered
//! thread executes at a time; every hand-over is decided by the seeded scheduler.
//! Outside a simulated run everything passes straight through to the kernel.
use crate::rng::{mix2, Hasher, Rng};
use crate::simio::{Deny, Engine, IoPlan, IoStats};
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t, timespec};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ------------------------------------------------------------------ raw kernel access
pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
unsafe fn next_sym(cache: &AtomicUsize, name: &[u8]) -> usize {
    let c = cache.load(Relaxed);
    if c != 0 {
        return c;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    cache.store(p, Relaxed);
    p
}

// ------------------------------------------------------------------ scheduler
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Policy {
    /// switch with probability n/1000 at each preemption point, uniformly
    Random(u32),
    /// random priorities, changed at n random points (PCT)
    Pct(u32),
    /// one thread is held back whenever another can run
    Starve(u32),
    /// run each thread until it blocks, except for the listed (step, thread) switches
    List(Vec<(u64, u32)>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SchedCfg {
    pub seed: u64,
    pub policy: Policy,
    /// processors the program is told it has
    pub cpus: u32,
    /// preempt after about this many allocations; 0 = never
    pub alloc_every: u32,
    /// spurious futex wake-ups, per 10000 scheduling points
    pub spurious: u32,
    /// preempt after about this many basic blocks of the code under test; 0 = never.  Needs the
    /// build of blocks.sh, without effect otherwise.
    #[serde(default)]
    pub block_every: u32,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct SchedStats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious: u64,
    pub yields: u64,
    pub io_points: u64,
    pub alloc_points: u64,
    #[serde(default)]
    pub block_points: u64,
    pub sim_ns: u64,
    /// hash of the sequence of decisions: the interleaving
    pub trace: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex(usize),
    Join(usize),
    Sleep,
    Done,
}
struct Thr {
    st: St,
    park: &'static AtomicU32,
    pt: libc::pthread_t,
    deadline: Option<u64>,
    timed_out: bool,
    prio: u64,
}
struct Sim {
    cfg: SchedCfg,
    rng: Rng,
    wake_rng: Rng,
    alloc_rng: Rng,
    block_rng: Rng,
    alloc_left: u64,
    thr: Vec<Thr>,
    stats: SchedStats,
    h: Hasher,
    dev: Vec<(u64, u32)>,
    list: BTreeMap<u64, u32>,
    change: Vec<u64>,
    budget: u64,
    now: u64,
    low: u64,
    base: u64,
}
static ACTIVE: AtomicBool = AtomicBool::new(false);
static IN_SIM: AtomicBool = AtomicBool::new(false);
static SIM: AtomicPtr<Sim> = AtomicPtr::new(std::ptr::null_mut());
static KEY: AtomicU64 = AtomicU64::new(u64::MAX);
static RAND: AtomicU64 = AtomicU64::new(0);
static DETERMINISTIC: AtomicBool = AtomicBool::new(false);
static CPUS: AtomicU64 = AtomicU64::new(0);
static SKEW_NS: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn me() -> usize {
    TID.with(|t| t.get())
}
fn on() -> bool {
    ACTIVE.load(Relaxed) && me() != usize::MAX
}
unsafe fn sim() -> &'static mut Sim {
    &mut *SIM.load(Relaxed)
}
unsafe fn park(w: &AtomicU32) {
    while w.swap(0, Acquire) == 0 {
        raw6(libc::SYS_futex, w.as_ptr() as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
    }
}
unsafe fn unpark(w: &AtomicU32) {
    w.store(1, Release);
    raw6(libc::SYS_futex, w.as_ptr() as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}

#[derive(Clone, Copy, PartialEq)]
enum Why {
    Preempt,
    Yield,
    Block,
    Exit,
}

/// process-wide determinism that does not need the thread scheduler: randomness, processor count
pub fn deterministic(seed: u64, cpus: u32) {
    RAND.store(seed | 1, Relaxed);
    CPUS.store(cpus as u64, Relaxed);
    DETERMINISTIC.store(true, Relaxed);
}

pub fn start(cfg: &SchedCfg, budget: u64) {
    unsafe {
        if KEY.load(Relaxed) == u64::MAX {
            let mut k: libc::pthread_key_t = 0;
            assert_eq!(libc::pthread_key_create(&mut k, Some(thread_gone)), 0);
            KEY.store(k as u64, Relaxed);
        }
        deterministic(cfg.seed, cfg.cpus);
        let mut rng = Rng::new(cfg.seed ^ 0x5c4ed);
        let mut change = vec![];
        let mut list = BTreeMap::new();
        match &cfg.policy {
            Policy::Pct(d) => {
                for _ in 0..*d {
                    change.push(rng.skewed(20_000));
                }
                change.sort();
            }
            Policy::List(l) => list = l.iter().cloned().collect(),
            _ => {}
        }
        let mut s = Box::new(Sim {
            rng,
            wake_rng: Rng::new(cfg.seed ^ 0x3a4e),
            alloc_rng: Rng::new(cfg.seed ^ 0xa110c),
            block_rng: Rng::new(cfg.seed ^ 0xb10c4),
            alloc_left: cfg.alloc_every as u64,
            cfg: cfg.clone(),
            thr: Vec::with_capacity(64),
            stats: SchedStats::default(),
            h: Hasher::default(),
            dev: Vec::with_capacity(1 << 16),
            list,
            change,
            budget,
            now: 1_000_000_000,
            low: 1 << 40,
            base: 0,
        });
        let prio = (1 << 41) + (s.rng.u64() >> 24);
        s.thr.push(Thr {
            st: St::Runnable,
            park: Box::leak(Box::new(AtomicU32::new(0))),
            pt: libc::pthread_self(),
            deadline: None,
            timed_out: false,
            prio,
        });
        s.stats.threads = 1;
        TID.with(|t| t.set(0));
        SIM.store(Box::into_raw(s), Relaxed);
        arm(cfg);
        ACTIVE.store(true, SeqCst);
    }
}
/// ends the simulated run from thread 0; other threads stay parked (the process exits right after)
pub fn stop() -> (SchedStats, Vec<(u64, u32)>) {
    unsafe {
        ACTIVE.store(false, SeqCst);
        let s = sim();
        s.stats.sim_ns = s.now - 1_000_000_000;
        s.stats.trace = s.h.finish();
        (s.stats.clone(), std::mem::take(&mut s.dev))
    }
}
/// change the scheduling policy from here on (thread 0, between operations)
pub fn reconfigure(cfg: &SchedCfg) {
    if !on() {
        return;
    }
    unsafe {
        let s = sim();
        let steps = s.stats.steps;
        s.rng = Rng::new(cfg.seed ^ 0x5c4ed);
        s.wake_rng = Rng::new(cfg.seed ^ 0x3a4e);
        s.alloc_rng = Rng::new(cfg.seed ^ 0xa110c);
        s.block_rng = Rng::new(cfg.seed ^ 0xb10c4);
        s.change.clear();
        s.list.clear();
        s.dev.clear();
        s.base = steps;
        match &cfg.policy {
            Policy::Pct(d) => {
                for _ in 0..*d {
                    let at = steps + s.rng.skewed(20_000);
                    s.change.push(at);
                }
                s.change.sort();
                for t in s.thr.iter_mut() {
                    t.prio = (1 << 41) + (s.rng.u64() >> 24);
                }
            }
            Policy::List(l) => s.list = l.iter().map(|&(k, t)| (k + steps, t)).collect(),
            _ => {}
        }
        s.cfg = cfg.clone();
        CPUS.store(cfg.cpus as u64, Relaxed);
        // last: what precedes allocates and runs instrumented generic code
        s.alloc_left = cfg.alloc_every as u64;
        arm(cfg);
    }
}
/// simulated time passes without anything happening, or the wall clock jumps
pub fn advance(ns: u64, skew_ns: i64) {
    if on() {
        unsafe { sim().now += ns }
        SKEW_NS.fetch_add(skew_ns, Relaxed);
    }
}
pub fn stats() -> SchedStats {
    unsafe {
        let s = sim();
        let mut st = s.stats.clone();
        st.sim_ns = s.now - 1_000_000_000;
        st.trace = s.h.clone().finish();
        st
    }
}
pub fn started() -> bool {
    !SIM.load(Relaxed).is_null() && ACTIVE.load(Relaxed)
}
/// no scheduling point while this lives (the simulator's own bookkeeping)
pub struct NoPreempt(bool);
impl NoPreempt {
    pub fn new() -> NoPreempt {
        NoPreempt(on() && !IN_SIM.swap(true, Relaxed))
    }
}
impl Drop for NoPreempt {
    fn drop(&mut self) {
        if self.0 {
            IN_SIM.store(false, Relaxed);
        }
    }
}
/// the run is over (verdict reached on some thread): no more scheduling
pub fn deactivate() {
    ACTIVE.store(false, SeqCst);
}
pub fn active() -> bool {
    on()
}
pub fn decisions() -> Vec<(u64, u32)> {
    if on() {
        unsafe { sim().dev.clone() }
    } else {
        vec![]
    }
}

unsafe fn choose(s: &mut Sim, cur: usize, why: Why) -> usize {
    // runnable threads in id order
    let mut run: [u32; 128] = [0; 128];
    let mut n = 0;
    for (i, t) in s.thr.iter().enumerate() {
        if t.st == St::Runnable && n < 128 {
            run[n] = i as u32;
            n += 1;
        }
    }
    if n == 0 {
        // nothing runnable: jump the clock to the next deadline
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in s.thr.iter().enumerate() {
            if let (Some(d), true) = (t.deadline, t.st != St::Done) {
                if best.map_or(true, |b| (d, i) < b) {
                    best = Some((d, i));
                }
            }
        }
        match best {
            Some((d, i)) => {
                s.now = s.now.max(d);
                s.thr[i].st = St::Runnable;
                s.thr[i].timed_out = true;
                s.thr[i].deadline = None;
                return i;
            }
            None => {
                IN_SIM.store(false, Relaxed);
                let d: Vec<String> = s.thr.iter().enumerate().map(|(i, t)| format!("t{i}:{:?}", kind(t.st))).collect();
                crate::run::fatal("deadlock", &format!("no thread can run: {}", d.join(" ")));
            }
        }
    }
    let run = &run[..n];
    let cur_ok = why != Why::Block && why != Why::Exit && s.thr[cur].st == St::Runnable;
    // the default: carry on, or on a yield / block the next runnable id
    let next_after = |c: usize| -> usize {
        for &r in run {
            if r as usize > c {
                return r as usize;
            }
        }
        run[0] as usize
    };
    let default = if cur_ok && why == Why::Preempt { cur } else { next_after(cur) };
    let pick = match &s.cfg.policy {
        Policy::List(_) => match s.list.get(&s.stats.steps) {
            Some(&t) if run.contains(&t) => t as usize,
            _ => default,
        },
        Policy::Random(pm) => {
            if cur_ok && why == Why::Preempt && !s.rng.chance(*pm as u64, 1000) {
                cur
            } else {
                run[s.rng.usize(n)] as usize
            }
        }
        Policy::Pct(_) => {
            while let Some(&c) = s.change.first() {
                if c <= s.stats.steps {
                    s.change.remove(0);
                    s.low -= 1;
                    s.thr[cur].prio = s.low;
                } else {
                    break;
                }
            }
            if why == Why::Yield {
                s.low -= 1;
                s.thr[cur].prio = s.low;
            }
            *run.iter().max_by_key(|&&r| s.thr[r as usize].prio).unwrap() as usize
        }
        Policy::Starve(v) => {
            let v = v % s.thr.len().max(1) as u32;
            let mut p = if cur_ok && why == Why::Preempt && cur as u32 != v && !s.rng.chance(60, 1000) {
                cur as u32
            } else {
                run[s.rng.usize(n)]
            };
            if p == v && n > 1 && !s.rng.chance(2, 1000) {
                p = *run.iter().find(|&&r| r != v).unwrap();
            }
            p as usize
        }
    };
    if pick != default && s.dev.len() < s.dev.capacity() {
        s.dev.push((s.stats.steps - s.base, pick as u32));
    }
    pick
}
fn kind(s: St) -> &'static str {
    match s {
        St::Runnable => "runnable",
        St::Futex(_) => "futex-wait",
        St::Join(_) => "join",
        St::Sleep => "sleep",
        St::Done => "done",
    }
}
/// One scheduling point.  Returns when the calling thread is chosen again.
unsafe fn schedule(why: Why) {
    IN_SIM.store(true, Relaxed);
    let s = sim();
    let cur = me();
    s.stats.steps += 1;
    s.now += 1000;
    if s.stats.steps > s.budget {
        IN_SIM.store(false, Relaxed);
        crate::run::fatal("no-progress", "scheduling budget exhausted");
    }
    if s.cfg.spurious > 0 && s.wake_rng.chance(s.cfg.spurious as u64, 10_000) {
        let w: Vec<usize> = (0..s.thr.len()).filter(|&i| matches!(s.thr[i].st, St::Futex(_)) && i != cur).collect();
        if !w.is_empty() {
            let i = w[s.wake_rng.usize(w.len())];
            s.thr[i].st = St::Runnable;
            s.thr[i].deadline = None;
            s.stats.spurious += 1;
        }
    }
    let next = choose(s, cur, why);
    s.h.word((cur as u64) << 32 | next as u64);
    if next == cur {
        IN_SIM.store(false, Relaxed);
        return;
    }
    s.stats.switches += 1;
    if why == Why::Preempt {
        s.stats.preemptions += 1;
    }
    let nw = s.thr[next].park;
    let cw = s.thr[cur].park;
    IN_SIM.store(false, Relaxed);
    unpark(nw);
    if why != Why::Exit {
        park(cw);
    }
}
/// a place where the scheduler may preempt (I/O seam, caller closures)
pub fn point() {
    if on() && !IN_SIM.load(Relaxed) {
        unsafe {
            sim().stats.io_points += 1;
            schedule(Why::Preempt);
        }
    }
}
#[inline]
pub fn alloc_point() {
    if ACTIVE.load(Relaxed) {
        alloc_point_slow();
    }
}
#[cold]
fn alloc_point_slow() {
    if !on() || IN_SIM.load(Relaxed) {
        return;
    }
    unsafe {
        let s = sim();
        if s.cfg.alloc_every == 0 {
            return;
        }
        s.alloc_left = s.alloc_left.saturating_sub(1);
        if s.alloc_left == 0 {
            s.alloc_left = s.alloc_rng.range(1, 2 * s.cfg.alloc_every as u64);
            s.stats.alloc_points += 1;
            schedule(Why::Preempt);
        }
    }
}

static BLOCKS_LEFT: AtomicU64 = AtomicU64::new(u64::MAX);
static INSTRUMENTED: AtomicBool = AtomicBool::new(false);
fn arm(cfg: &SchedCfg) {
    BLOCKS_LEFT.store(if cfg.block_every == 0 { u64::MAX } else { cfg.block_every as u64 }, Relaxed);
}
/// whether the code under test was compiled with a preemption point in every basic block
pub fn instrumented() -> bool {
    INSTRUMENTED.load(Relaxed)
}
/// Called by every basic block of the code under test in the build of blocks.sh.  Exactly one
/// simulated thread runs at a time, so a plain counter is enough.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let l = BLOCKS_LEFT.load(Relaxed);
    if l > 1 {
        BLOCKS_LEFT.store(l - 1, Relaxed);
    } else {
        block_point();
    }
}
#[cold]
fn block_point() {
    if !on() {
        BLOCKS_LEFT.store(u64::MAX, Relaxed);
        return;
    }
    if IN_SIM.load(Relaxed) {
        // the harness's own bookkeeping: at the next block outside it
        return;
    }
    unsafe {
        let s = sim();
        if s.cfg.block_every == 0 {
            BLOCKS_LEFT.store(u64::MAX, Relaxed);
            return;
        }
        BLOCKS_LEFT.store(s.block_rng.range(1, 2 * s.cfg.block_every as u64), Relaxed);
        s.stats.block_points += 1;
        schedule(Why::Preempt);
    }
}

// ------------------------------------------------------------------ threads
struct StartArg {
    tid: usize,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        // read, do not free here: freeing would be a scheduling point before we own the baton
        let a = &*(p as *const StartArg);
        TID.with(|t| t.set(a.tid));
        libc::pthread_setspecific(KEY.load(Relaxed) as libc::pthread_key_t, 1 as *const c_void);
        let w = loop {
            let s = SIM.load(Acquire);
            if !s.is_null() {
                break (*s).thr[a.tid].park;
            }
        };
        park(w);
        (a.f)(a.arg)
    }
}
extern "C" fn thread_gone(v: *mut c_void) {
    unsafe {
        let k = KEY.load(Relaxed) as libc::pthread_key_t;
        if (v as usize) < 3 {
            // let every other destructor run first
            libc::pthread_setspecific(k, (v as usize + 1) as *const c_void);
            return;
        }
        if !on() {
            return;
        }
        IN_SIM.store(true, Relaxed);
        let s = sim();
        let t = me();
        s.thr[t].st = St::Done;
        for o in s.thr.iter_mut() {
            if o.st == St::Join(t) {
                o.st = St::Runnable;
            }
        }
        TID.with(|t| t.set(t.get()));
        schedule(Why::Exit);
    }
}
/// counts down with each thread creation; the one that reaches 0 fails with EAGAIN
pub static FAIL_SPAWN: AtomicI32 = AtomicI32::new(0);
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    static C: AtomicUsize = AtomicUsize::new(0);
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    let real: F = std::mem::transmute(next_sym(&C, b"pthread_create\0"));
    if !on() {
        return real(out, attr, f, arg);
    }
    if FAIL_SPAWN.load(Relaxed) > 0 && FAIL_SPAWN.fetch_sub(1, Relaxed) == 1 {
        return libc::EAGAIN;
    }
    IN_SIM.store(true, Relaxed);
    let s = sim();
    let tid = s.thr.len();
    if tid >= 60 {
        IN_SIM.store(false, Relaxed);
        return libc::EAGAIN;
    }
    let a = Box::into_raw(Box::new(StartArg { tid, f, arg }));
    let prio = (1 << 41) + (s.rng.u64() >> 24);
    s.thr.push(Thr {
        st: St::Runnable,
        park: Box::leak(Box::new(AtomicU32::new(0))),
        pt: 0,
        deadline: None,
        timed_out: false,
        prio,
    });
    s.stats.threads += 1;
    let r = real(out, attr, trampoline, a as *mut c_void);
    if r != 0 {
        s.thr.pop();
        IN_SIM.store(false, Relaxed);
        return r;
    }
    s.thr[tid].pt = *out;
    IN_SIM.store(false, Relaxed);
    schedule(Why::Preempt);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    static C: AtomicUsize = AtomicUsize::new(0);
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    let real: F = std::mem::transmute(next_sym(&C, b"pthread_join\0"));
    if on() {
        let s = sim();
        if let Some(i) = s.thr.iter().rposition(|x| x.pt == t) {
            while s.thr[i].st != St::Done {
                s.thr[me()].st = St::Join(i);
                schedule(Why::Block);
            }
            // its pthread id may be reused from here on
            sim().thr[i].pt = 0;
        }
    }
    real(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on() {
        sim().stats.yields += 1;
        schedule(Why::Yield);
        0
    } else {
        raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
    }
}
unsafe fn block_until(st: St, deadline: Option<u64>) -> bool {
    let t = me();
    let s = sim();
    s.thr[t].st = st;
    s.thr[t].deadline = deadline;
    s.thr[t].timed_out = false;
    schedule(Why::Block);
    let s = sim();
    s.thr[t].deadline = None;
    std::mem::replace(&mut s.thr[t].timed_out, false)
}
unsafe fn ts_ns(p: *const timespec) -> u64 {
    (*p).tv_sec as u64 * 1_000_000_000 + (*p).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && on() {
        let op = b as c_int & 0x7f;
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                // a scheduling point before the check: the window in which a wake-up can be lost
                schedule(Why::Preempt);
                let w = &*(a as *const AtomicU32);
                if w.load(SeqCst) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                sim().stats.futex_waits += 1;
                let dl = if d == 0 {
                    None
                } else if op == libc::FUTEX_WAIT {
                    Some(sim().now + ts_ns(d as *const timespec))
                } else {
                    Some(ts_ns(d as *const timespec))
                };
                if block_until(St::Futex(a), dl) {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                IN_SIM.store(true, Relaxed);
                let s = sim();
                s.stats.futex_wakes += 1;
                let mut w: Vec<usize> = (0..s.thr.len()).filter(|&i| s.thr[i].st == St::Futex(a)).collect();
                let k = (c as u32 as usize).min(w.len());
                for j in 0..k {
                    let q = j + s.wake_rng.usize(w.len() - j);
                    w.swap(j, q);
                    s.thr[w[j]].st = St::Runnable;
                    s.thr[w[j]].deadline = None;
                }
                drop(w);
                IN_SIM.store(false, Relaxed);
                schedule(Why::Preempt);
                return k as c_long;
            }
            _ => {}
        }
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if on() {
        let t = ts_ns(req);
        let dl = if flags & libc::TIMER_ABSTIME != 0 { t } else { sim().now + t };
        block_until(St::Sleep, Some(dl));
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if on() {
        let dl = sim().now + ts_ns(req);
        block_until(St::Sleep, Some(dl));
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, out: *mut timespec) -> c_int {
    if on() {
        let s = sim();
        s.now += 100;
        let mut t = s.now as i64;
        if clk == libc::CLOCK_REALTIME {
            t += 1_700_000_000_000_000_000 + SKEW_NS.load(Relaxed);
        }
        (*out).tv_sec = t / 1_000_000_000;
        (*out).tv_nsec = t % 1_000_000_000;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as usize, out as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if DETERMINISTIC.load(Relaxed) {
        for i in 0..n {
            let c = RAND.fetch_add(0x9e3779b97f4a7c15, Relaxed);
            *(p as *mut u8).add(i) = (mix2(c, 77) >> 21) as u8;
        }
        return n as ssize_t;
    }
    ret(raw6(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    let c = CPUS.load(Relaxed);
    if c > 0 {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..c as usize {
            *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = ret(raw6(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0));
    if r < 0 {
        -1
    } else {
        let got = r as usize;
        if got < n {
            std::ptr::write_bytes((set as *mut u8).add(got), 0, n - got);
        }
        0
    }
}
/// libdav1d sizes its pool with this one; one processor keeps its C threads out of the run
#[no_mangle]
pub unsafe extern "C" fn pthread_getaffinity_np(_t: libc::pthread_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    std::ptr::write_bytes(set as *mut u8, 0, n);
    *(set as *mut u8) = 1;
    0
}

// ------------------------------------------------------------------ simulated disk
struct SimFd {
    file: usize,
    pos: u64,
    rd: Option<Engine>,
    wr: Option<Engine>,
}
#[derive(Default)]
pub struct SimFs {
    pub files: Vec<(String, Vec<u8>)>,
    fds: Vec<Option<SimFd>>,
    pub read_plan: IoPlan,
    pub write_plan: IoPlan,
    /// errno for the next open of a path under /sim/
    pub open_errno: Option<i32>,
    pub stats: IoStats,
    pub opens: u64,
    pub closes: u64,
    pub double_close: u64,
}
const FD0: c_int = 1_000_000;
static FS: AtomicPtr<SimFs> = AtomicPtr::new(std::ptr::null_mut());

pub fn fs_mount(fs: SimFs) {
    FS.store(Box::into_raw(Box::new(fs)), Relaxed);
}
pub fn fs_unmount() -> SimFs {
    unsafe {
        let p = FS.swap(std::ptr::null_mut(), Relaxed);
        let mut fs = *Box::from_raw(p);
        for f in fs.fds.iter().flatten() {
            if let Some(e) = &f.rd {
                fs.stats.add(&e.st);
            }
            if let Some(e) = &f.wr {
                fs.stats.add(&e.st);
            }
        }
        fs
    }
}
impl SimFs {
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.files.iter().find(|f| f.0 == path).map(|f| &f.1)
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().flatten().count()
    }
}
pub fn fs() -> Option<&'static mut SimFs> {
    let p = FS.load(Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
fn sfd(fd: c_int) -> Option<(&'static mut SimFs, usize)> {
    if fd < FD0 {
        return None;
    }
    let f = fs()?;
    let i = (fd - FD0) as usize;
    if i < f.fds.len() && f.fds[i].is_some() {
        Some((f, i))
    } else {
        None
    }
}
unsafe fn fail(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}
unsafe fn sim_open(path: *const c_char, flags: c_int) -> Option<c_int> {
    if !DETERMINISTIC.load(Relaxed) {
        return None;
    }
    let p = std::ffi::CStr::from_ptr(path).to_str().ok()?;
    if p == "/proc/self/cgroup" {
        // the processor count is the simulator's
        return Some(fail(libc::ENOENT) as c_int);
    }
    fs()?;
    if !p.starts_with("/sim/") {
        return None;
    }
    point();
    let _g = NoPreempt::new();
    let f = fs()?;
    f.opens += 1;
    if let Some(e) = f.open_errno.take() {
        f.stats.hard += 1;
        return Some(fail(e) as c_int);
    }
    let idx = match f.files.iter().position(|x| x.0 == p) {
        Some(i) => {
            if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                return Some(fail(libc::EEXIST) as c_int);
            }
            i
        }
        None if flags & libc::O_CREAT != 0 => {
            f.files.push((p.to_string(), vec![]));
            f.files.len() - 1
        }
        None => return Some(fail(libc::ENOENT) as c_int),
    };
    if flags & libc::O_TRUNC != 0 {
        f.files[idx].1.clear();
    }
    let acc = flags & libc::O_ACCMODE;
    let fd = SimFd {
        file: idx,
        pos: 0,
        rd: (acc != libc::O_WRONLY).then(|| Engine::new(&f.read_plan, false)),
        wr: (acc != libc::O_RDONLY).then(|| Engine::new(&f.write_plan, true)),
    };
    f.fds.push(Some(fd));
    Some(FD0 + f.fds.len() as c_int - 1)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Some(r) = sim_open(path, flags) {
        return r;
    }
    ret(raw6(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if fd >= FD0 {
        point();
    }
    let _g = NoPreempt::new();
    if let Some((f, i)) = sfd(fd) {
        let d = f.fds[i].as_mut().unwrap();
        let data = &f.files[d.file].1;
        let e = match d.rd.as_mut() {
            Some(e) => e,
            None => return fail(libc::EBADF),
        };
        let end = (data.len() as u64).min(f.read_plan.truncate.unwrap_or(u64::MAX));
        return match e.data(d.pos, n as u64, end.saturating_sub(d.pos)) {
            Ok(k) => {
                std::ptr::copy_nonoverlapping(data.as_ptr().add((d.pos as usize).min(data.len())), p as *mut u8, k as usize);
                d.pos += k;
                k as ssize_t
            }
            Err(Deny::Zero) => 0,
            Err(x) => fail(x.errno()),
        };
    }
    ret(raw6(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if fd >= FD0 {
        point();
    }
    let _g = NoPreempt::new();
    if let Some((f, i)) = sfd(fd) {
        let d = f.fds[i].as_mut().unwrap();
        let e = match d.wr.as_mut() {
            Some(e) => e,
            None => return fail(libc::EBADF),
        };
        return match e.data(d.pos, n as u64, u64::MAX) {
            Ok(k) => {
                let file = &mut f.files[d.file].1;
                let (a, b) = (d.pos as usize, d.pos as usize + k as usize);
                if file.len() < b {
                    file.resize(b, 0);
                }
                std::ptr::copy_nonoverlapping(p as *const u8, file.as_mut_ptr().add(a), k as usize);
                d.pos += k;
                k as ssize_t
            }
            Err(Deny::Zero) => 0,
            Err(x) => fail(x.errno()),
        };
    }
    ret(raw6(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd >= FD0 {
        point();
    }
    let _g = NoPreempt::new();
    if let Some((f, i)) = sfd(fd) {
        let d = f.fds[i].as_mut().unwrap();
        let len = f.files[d.file].1.len() as i64;
        let len = len.min(f.read_plan.truncate.unwrap_or(u64::MAX).min(i64::MAX as u64) as i64);
        let to = match whence {
            libc::SEEK_SET => Some(off),
            libc::SEEK_CUR => (d.pos as i64).checked_add(off),
            _ => len.checked_add(off),
        };
        let to = match to {
            Some(t) if t >= 0 => t as u64,
            _ => return fail(libc::EINVAL) as i64,
        };
        let e = d.rd.as_mut().or(d.wr.as_mut()).unwrap();
        return match e.seek(to) {
            Ok(()) => {
                d.pos = to;
                to as i64
            }
            Err(x) => fail(x.errno()) as i64,
        };
    }
    ret(raw6(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if let Some((f, i)) = sfd(fd) {
        let d = f.fds[i].as_mut().unwrap();
        if let Some(e) = d.wr.as_mut() {
            if let Err(x) = e.flush() {
                return fail(x.errno()) as c_int;
            }
        }
        return 0;
    }
    ret(raw6(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sfd(fd).is_some() {
        return fsync(fd);
    }
    ret(raw6(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
/// (variadic in C; every command std uses takes at most one integer)
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= FD0 {
        return match sfd(fd) {
            Some(_) if cmd == libc::F_GETFD => libc::FD_CLOEXEC,
            Some(_) => fail(libc::EINVAL) as c_int,
            None => fail(libc::EBADF) as c_int,
        };
    }
    ret(raw6(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD0 {
        point();
        let _g = NoPreempt::new();
        if let Some((f, i)) = sfd(fd) {
            let d = f.fds[i].take().unwrap();
            f.closes += 1;
            if let Some(e) = &d.rd {
                f.stats.add(&e.st);
            }
            if let Some(e) = &d.wr {
                f.stats.add(&e.st);
            }
            return 0;
        }
        if let Some(f) = fs() {
            f.double_close += 1;
        }
        return fail(libc::EBADF) as c_int;
    }
    ret(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
