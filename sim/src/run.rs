//! Running simulated executions.  One run = one forked child = one pure function of a scenario.
//! Workers (processes) take run indices i = w (mod W); the parent collects, reports the lowest
//! violating index, minimises it, writes the replay file and re-runs it in a fresh process.
use crate::rng::{mix2, Hasher, Rng};
use crate::simio::IoStats;
use crate::{alloc, shm, simos};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------------ definitions
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct PropDef {
    pub id: &'static str,
    pub level: &'static str,
    /// number of runs in the quick tier
    pub quick_runs: u64,
    /// scheduled (multi-threaded) runs get a fresh process image too, but a longer limit
    pub rule: &'static str,
    pub gen: fn(&mut Rng, u64, Tier) -> Value,
    pub exec: fn(&Value),
    pub shrink: fn(&Value) -> Vec<Value>,
    pub real: &'static str,
    pub stub: &'static str,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Fail {
    pub class: String,
    pub sig: String,
    pub msg: String,
    #[serde(default)]
    pub body: Value,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out {
    pub idx: u64,
    pub evals: u64,
    /// hashes of the distinct non-trivial executions
    pub cases: Vec<u64>,
    /// hashes of interleavings / I/O traces
    pub traces: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub sim_us: u64,
    pub known: Vec<Fail>,
    pub fail: Option<Fail>,
    pub digest: u64,
    pub sample: Option<Value>,
    pub done: bool,
}

// ------------------------------------------------------------------ inside a run
static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static OPS: AtomicU64 = AtomicU64::new(0);
static OPS_BUDGET: AtomicU64 = AtomicU64::new(4_000_000);
static OUT: Mutex<Option<Out>> = Mutex::new(None);
static KNOWN: Mutex<Vec<Known>> = Mutex::new(Vec::new());
static BODY: Mutex<Value> = Mutex::new(Value::Null);

pub fn with<T>(f: impl FnOnce(&mut Out) -> T) -> T {
    let mut g = OUT.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Out::default());
    }
    f(g.as_mut().unwrap())
}
pub fn count_op() {
    let n = OPS.fetch_add(1, Relaxed) + 1;
    if n > OPS_BUDGET.load(Relaxed) {
        let e = EXPECTED.lock().unwrap_or_else(|e| e.into_inner()).clone();
        fatal("unbounded-work", &format!("{n} source/sink operations for one operation on a bounded stream {e}"));
    }
}
static EXPECTED: Mutex<String> = Mutex::new(String::new());
/// start counting operations afresh with the given bound
pub fn ops_budget(n: u64, what: &str) {
    OPS.store(0, Relaxed);
    OPS_BUDGET.store(n, Relaxed);
    *EXPECTED.lock().unwrap_or_else(|e| e.into_inner()) = what.to_string();
}
pub fn ops() -> u64 {
    OPS.load(Relaxed)
}
fn finish(mut o: Out) -> ! {
    if simos::started() {
        let (st, _) = simos::stop();
        if st.threads > 1 {
            sched_into(&mut o, &st);
        }
    }
    o.done = true;
    let mut h = Hasher::default();
    for c in o.cases.iter().chain(&o.traces) {
        h.word(*c);
    }
    h.word(o.evals);
    h.word(mix2(o.digest, o.sim_us));
    if let Some(f) = &o.fail {
        h.write(f.sig.as_bytes());
    }
    o.digest = h.finish();
    let mut s = serde_json::to_vec(&o).unwrap();
    // what the parent has to know without parsing
    s.push(if o.fail.is_some() { b'F' } else { b'P' });
    let fd = OUT_FD.load(Relaxed);
    let mut p = 0;
    while p < s.len() {
        let r = unsafe { simos::raw6(libc::SYS_write, fd as usize, s[p..].as_ptr() as usize, s.len() - p, 0, 0, 0) };
        if r <= 0 {
            break;
        }
        p += r as usize;
    }
    unsafe { libc::_exit(0) }
}
/// A violation found by an oracle that cannot continue (or by a budget).
pub fn fatal(class: &str, msg: &str) -> ! {
    fatal_at(class, "", msg)
}
pub fn fatal_at(class: &str, detail: &str, msg: &str) -> ! {
    alloc::stop_tracking();
    let body = failing_body();
    let site = site();
    let sig = if detail.is_empty() { format!("{class}|{site}") } else { format!("{class}|{site}|{detail}") };
    let f = Fail { class: class.into(), sig, msg: msg.into(), body };
    let mut o = with(|o| o.clone());
    if let Some(k) = is_known(&f) {
        let _ = k;
        o.known.push(f);
    } else {
        o.fail = Some(f);
    }
    finish(o)
}
static SITE: Mutex<String> = Mutex::new(String::new());
/// what is being executed, for signatures: "format|route"
pub fn set_site(s: &str) {
    *SITE.lock().unwrap_or_else(|e| e.into_inner()) = s.to_string();
}
pub fn site() -> String {
    SITE.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
/// the scenario with the schedule that was actually followed, decision by decision
fn failing_body() -> Value {
    let mut b = BODY.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let dev = simos::decisions();
    if let Some(s) = b.get_mut("sched") {
        if s.is_object() && dev.len() < 60_000 {
            s["policy"] = json!({ "List": dev });
        }
    }
    b
}
/// Record that the oracle failed.  Ends the run unless the violation is a listed finding.
pub fn fail(class: &str, detail: &str, msg: String) {
    let body = failing_body();
    let sig = if detail.is_empty() { format!("{class}|{}", site()) } else { format!("{class}|{}|{detail}", site()) };
    let f = Fail { class: class.into(), sig, msg, body };
    let mut o = with(|o| {
        if is_known(&f).is_some() {
            o.known.push(f);
            None
        } else {
            o.fail = Some(f);
            Some(o.clone())
        }
    });
    if let Some(o) = o.take() {
        finish(o)
    }
}
/// the concrete body (this input, this plan) about to be executed
pub fn concrete(b: Value) {
    shm::note_msg(&format!("{}\n{}", site(), b));
    *BODY.lock().unwrap_or_else(|e| e.into_inner()) = b;
}
pub fn eval(case: u64, nontrivial: bool) {
    with(|o| {
        o.evals += 1;
        if nontrivial {
            o.cases.push(case);
        }
    })
}
pub fn bump(k: &str, n: u64) {
    if n > 0 {
        with(|o| match o.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                o.counts.insert(k.to_string(), n);
            }
        })
    }
}
pub fn digest(v: u64) {
    with(|o| o.digest = mix2(o.digest, v))
}
pub fn io(st: &IoStats, dir: &str) {
    bump(&format!("short_{dir}"), st.short);
    bump("eintr", st.eintr);
    bump(&format!("hard_{dir}_error"), st.hard - st.hard_seek - st.hard_flush);
    bump("seek_error", st.hard_seek);
    bump("flush_error", st.hard_flush);
    bump("disk_full", st.full);
    bump("io_ops", st.ops);
    with(|o| {
        o.sim_us += st.sim_us;
        o.traces.push(st.trace);
    });
    digest(st.trace);
}
fn sched_into(o: &mut Out, st: &simos::SchedStats) {
    for (k, n) in [
        ("sched_steps", st.steps),
        ("context_switches", st.switches),
        ("preemptions", st.preemptions),
        ("threads_created", st.threads.saturating_sub(1)),
        ("futex_waits", st.futex_waits),
        ("futex_wakes", st.futex_wakes),
        ("spurious_wakeups", st.spurious),
        ("alloc_preemptions", st.alloc_points),
        ("block_preemptions", st.block_points),
    ] {
        if n > 0 {
            *o.counts.entry(k.to_string()).or_default() += n;
        }
    }
    o.sim_us += st.sim_ns / 1000;
    o.traces.push(st.trace);
    o.digest = mix2(o.digest, st.trace);
}
pub fn sample(v: Value) {
    with(|o| {
        if o.sample.is_none() {
            o.sample = Some(v)
        }
    })
}

// ------------------------------------------------------------------ panics
#[derive(Clone, Debug, Default)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
    pub caller: bool,
}
static LAST_PANIC: Mutex<Option<Panicked>> = Mutex::new(None);
thread_local! {
    static MY_PANIC: std::cell::RefCell<Option<Panicked>> = const { std::cell::RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let caller = i.payload().is::<crate::simio::CallerPanic>();
        let loc = i.location().map(|l| short_loc(l.file(), l.line())).unwrap_or_default();
        let p = Panicked { msg, loc, caller };
        if !p.caller {
            if std::env::var_os("SIMIMG_BT").is_some() {
                eprintln!("panic at {}: {}\n{}", p.loc, p.msg, std::backtrace::Backtrace::force_capture());
            }
        }
        let _ = MY_PANIC.try_with(|m| *m.borrow_mut() = Some(p.clone()));
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(p);
    }));
}
fn short_loc(f: &str, line: u32) -> String {
    let f = match f.find("/registry/src/") {
        Some(i) => f[i + 14..].splitn(2, '/').nth(1).unwrap_or(f).to_string(),
        None => match f.find("/library/") {
            Some(i) => f[i + 1..].to_string(),
            None => f.trim_start_matches("/repo/").to_string(),
        },
    };
    // code of /repo moves under refactoring and planted changes: name the file only
    if f.starts_with("src/") {
        f
    } else {
        format!("{f}:{line}")
    }
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    MY_PANIC.with(|m| *m.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let other = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            let mut r = MY_PANIC.with(|m| m.borrow_mut().take()).or(other).unwrap_or_default();
            if p.is::<crate::simio::CallerPanic>() {
                r.caller = true;
            }
            // the payload itself is dropped here
            Err(r)
        }
    }
}

// ------------------------------------------------------------------ known findings
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    /// "open" entries are reported and tolerated, "fixed" entries are records only
    pub status: String,
    pub sig: String,
    /// all of these must occur in the message
    #[serde(default)]
    pub contains: Vec<String>,
    pub what: String,
    #[serde(default)]
    pub commit: String,
}
static PROP: Mutex<String> = Mutex::new(String::new());
fn is_known(f: &Fail) -> Option<Known> {
    let p = PROP.lock().unwrap_or_else(|e| e.into_inner()).clone();
    KNOWN
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .iter()
        .find(|k| k.status == "open" && k.property == p && sig_match(&k.sig, &f.sig) && k.contains.iter().all(|c| f.msg.contains(c.as_str())))
        .cloned()
}
/// segment-wise; a segment of the listed signature may be `*`
fn sig_match(pat: &str, s: &str) -> bool {
    let (a, b): (Vec<_>, Vec<_>) = (pat.split('|').collect(), s.split('|').collect());
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| *x == "*" || x == y)
}
pub fn load_known() {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.jsonl") {
        for l in s.lines().filter(|l| !l.trim().is_empty()) {
            match serde_json::from_str::<Known>(l) {
                Ok(k) => v.push(k),
                Err(e) => {
                    eprintln!("known_findings.jsonl: {e}");
                    std::process::exit(2);
                }
            }
        }
    }
    *KNOWN.lock().unwrap() = v;
}

// ------------------------------------------------------------------ CPU bound of one operation
/// From here on the run may use this much more CPU time before it counts as not terminating.
pub fn cpu_limit(secs: u64) {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let used = (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64 + 1;
        let l = libc::rlimit { rlim_cur: used + secs, rlim_max: 600 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
}
/// (crate or source file of the innermost frame that is not std's, list of frames); where a loop
/// is interrupted is arbitrary, so with `entry` it is the crate that image called instead
fn where_now(entry: bool) -> (String, String) {
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    // function names and files of the frames, innermost first, outside std and this crate
    let lines: Vec<&str> = bt.lines().map(|l| l.trim()).collect();
    let mut frames = vec![];
    for w in lines.windows(2) {
        if let Some(f) = w[1].strip_prefix("at ") {
            if f.contains("/registry/src/") || f.starts_with("/repo/") {
                let name = w[0].splitn(2, ": ").nth(1).unwrap_or(w[0]).to_string();
                let file = f.rsplitn(3, ':').nth(2).unwrap_or(f);
                let file = file.splitn(2, "/registry/src/").nth(1).and_then(|x| x.splitn(2, '/').nth(1)).unwrap_or(file);
                frames.push((name, file.trim_start_matches("/repo/").to_string()));
            }
        }
    }
    let from_image = frames.iter().position(|f| f.1.starts_with("src/")).unwrap_or(0);
    let krate = frames.get(if entry { from_image.saturating_sub(1) } else { 0 }).map(|f| if f.1.starts_with("src/") { f.1.clone() } else { f.1.split('/').next().unwrap_or("").to_string() }).unwrap_or_default();
    let list: Vec<String> = frames.iter().take(6).map(|f| format!("{} ({})", f.0, f.1)).collect();
    (krate, list.join(" < "))
}
extern "C" fn cpu_exceeded(_: i32) {
    unsafe { libc::alarm(20) };
    simos::deactivate();
    let (krate, list) = where_now(true);
    fatal_at("no-progress", &krate, &format!("one bounded operation exceeded its CPU allowance; executing {list}"));
}
extern "C" fn aborted(_: i32) {
    unsafe {
        libc::alarm(20);
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
    }
    simos::deactivate();
    alloc::stop_tracking();
    let (krate, list) = where_now(false);
    let refused = shm::page().map_or(0, |p| p.refused.load(Relaxed));
    if refused > 0 {
        fatal_at("alloc-abort", &krate, &format!("the process is aborted: an allocation of {refused} bytes was requested and refused; executing {list}"));
    }
    fatal_at("abort", &krate, &format!("the process is aborted; executing {list}"));
}

// ------------------------------------------------------------------ the same thing alone
/// What `f` gives in a process of its own, forked from here (call while single-threaded);
/// None when that process dies.
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            OUT_FD.store(-1, Relaxed);
            libc::close(fds[0]);
            let d = catch(f).unwrap_or_default();
            let mut p = 0;
            while p < d.len() {
                let r = simos::raw6(libc::SYS_write, fds[1] as usize, d[p..].as_ptr() as usize, d.len() - p, 0, 0, 0);
                if r <= 0 {
                    break;
                }
                p += r as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut v = vec![];
        let mut tmp = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], tmp.as_mut_ptr() as *mut _, tmp.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&tmp[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if v.is_empty() || st != 0 {
            None
        } else {
            Some(v)
        }
    }
}

// ------------------------------------------------------------------ one forked run
pub fn run_child(p: &PropDef, idx: u64, body: &Value) -> Out {
    let raw = serde_json::to_vec(body).unwrap();
    let mut buf = Vec::new();
    match run_raw(p, idx, &raw, &mut buf) {
        Ok(_) => serde_json::from_slice(&buf).expect("result of a run"),
        Err(o) => o,
    }
}
/// The run of the scenario `raw` in a forked process.  The parent neither generates nor parses
/// anything, so that every run starts from the same process image whichever worker forks it.
/// Leaves the result in `buf`; Ok(failed), or Err when the process died.
fn run_raw(p: &PropDef, idx: u64, raw: &[u8], buf: &mut Vec<u8>) -> Result<bool, Out> {
    shm::clear();
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            OUT_FD.store(fds[1], Relaxed);
            let lim = |r, v: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            cpu_limit(20);
            libc::signal(libc::SIGABRT, aborted as extern "C" fn(i32) as usize);
            libc::signal(libc::SIGXCPU, cpu_exceeded as extern "C" fn(i32) as usize);
            lim(libc::RLIMIT_CORE, 0);
            lim(libc::RLIMIT_AS, 6 << 30);
            if std::env::var_os("SIMIMG_BT").is_none() {
                // Rust prints allocation failures and double panics itself
                let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(n, 2);
            }
            // no stream in any scenario needs this much; what asks for it is told that memory is exhausted
            alloc::REFUSE_ABOVE.store(1 << 30, Relaxed);
            *PROP.lock().unwrap() = p.id.to_string();
            simos::deterministic(mix2(idx, 0xd17), 1);
            let body: Value = serde_json::from_slice(raw).expect("scenario json");
            let body = &body;
            with(|o| o.idx = idx);
            concrete(body.clone());
            // every run has the scheduler: threads that the code under test starts are simulated ones
            simos::start(
                &simos::SchedCfg { seed: mix2(idx, 0xd17), policy: simos::Policy::List(vec![]), cpus: 1 + (idx % 5) as u32, alloc_every: 0, spurious: 0, block_every: 0 },
                400_000_000,
            );
            match catch(|| (p.exec)(body)) {
                Ok(()) => finish(with(|o| o.clone())),
                Err(e) => {
                    let mut o = with(|o| o.clone());
                    o.fail = Some(Fail {
                        class: "harness-panic".into(),
                        sig: format!("harness-panic|{}|{}", site(), e.loc),
                        msg: format!("uncaught panic: {} at {}", e.msg, e.loc),
                        body: BODY.lock().unwrap_or_else(|e| e.into_inner()).clone(),
                    });
                    finish(o)
                }
            }
        }
        libc::close(fds[1]);
        buf.clear();
        let t0 = Instant::now();
        let mut timed_out = false;
        let mut tmp = [0u8; 65536];
        loop {
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let left = 150_000i64 - t0.elapsed().as_millis() as i64;
            if left <= 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let r = libc::poll(&mut pf, 1, left.min(1000) as i32);
            if r <= 0 {
                continue;
            }
            let n = libc::read(fds[0], tmp.as_mut_ptr() as *mut _, tmp.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match buf.pop() {
            Some(b'P') => return Ok(false),
            Some(b'F') => return Ok(true),
            _ => {}
        }
        let note = shm::msg();
        let (site, body) = note.split_once('\n').unwrap_or((&note, ""));
        let body: Value = serde_json::from_str(body).unwrap_or(body.into());
        let refused = shm::page().map_or(0, |p| p.refused.load(Relaxed));
        let sig = libc::WTERMSIG(st);
        let (class, msg) = if timed_out {
            ("no-progress", "no progress within 150 s of wall time".to_string())
        } else if libc::WIFSIGNALED(st) && matches!(sig, libc::SIGXCPU | libc::SIGKILL | libc::SIGALRM) {
            ("no-progress", "CPU allowance exceeded by one bounded operation".to_string())
        } else if libc::WIFSIGNALED(st) && sig == libc::SIGABRT && refused > 0 {
            ("alloc-abort", format!("process aborted: an allocation of {refused} bytes was requested and refused"))
        } else if libc::WIFSIGNALED(st) {
            ("crash", format!("process killed by signal {sig}"))
        } else {
            ("crash", format!("process ended without a result, status {st:#x}"))
        };
        let f = Fail { class: class.into(), sig: format!("{class}|{site}"), msg, body };
        *PROP.lock().unwrap() = p.id.to_string();
        let mut o = Out { idx, evals: 1, done: true, ..Out::default() };
        if is_known(&f).is_some() {
            o.known.push(f)
        } else {
            o.fail = Some(f)
        }
        Err(o)
    }
}
/// A process that makes the scenarios, so that generating them leaves no trace in the process the
/// runs are forked from.
struct Generator {
    ask: i32,
    answer: i32,
}
impl Generator {
    fn start(p: &PropDef, seed: u64, tier: Tier) -> Generator {
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert_eq!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC), 0);
            assert_eq!(libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a[1]);
                libc::close(b[0]);
                let mut i = [0u8; 8];
                while Self::all(a[0], i.as_mut_ptr(), 8, false) {
                    let i = u64::from_le_bytes(i);
                    let s = match catch(|| serde_json::to_vec(&body_of(p, seed, i, tier)).unwrap()) {
                        Ok(s) => s,
                        Err(e) => {
                            eprintln!("generator panicked: {} at {} (run {i})", e.msg, e.loc);
                            libc::_exit(7)
                        }
                    };
                    let mut n = (s.len() as u64).to_le_bytes();
                    Self::all(b[1], n.as_mut_ptr(), 8, true);
                    Self::all(b[1], s.as_ptr() as *mut u8, s.len(), true);
                }
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Generator { ask: a[1], answer: b[0] }
        }
    }
    unsafe fn all(fd: i32, mut p: *mut u8, mut n: usize, write: bool) -> bool {
        while n > 0 {
            let r = simos::raw6(if write { libc::SYS_write } else { libc::SYS_read }, fd as usize, p as usize, n, 0, 0, 0);
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                return false;
            }
            p = p.add(r as usize);
            n -= r as usize;
        }
        true
    }
    fn body(&self, i: u64, into: &mut Vec<u8>) -> bool {
        unsafe {
            let mut i = i.to_le_bytes();
            let mut n = [0u8; 8];
            if !Self::all(self.ask, i.as_mut_ptr(), 8, true) || !Self::all(self.answer, n.as_mut_ptr(), 8, false) {
                return false;
            }
            let n = u64::from_le_bytes(n) as usize;
            into.resize(n, 0);
            Self::all(self.answer, into.as_mut_ptr(), n, false)
        }
    }
}

// ------------------------------------------------------------------ a whole check
fn verif_dir() -> String {
    std::env::var("SIMIMG_OUT").unwrap_or_else(|_| "/verif".into())
}
pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub workers: u64,
    pub runs: Option<u64>,
    pub wall: f64,
    pub only: Option<u64>,
    pub quiet: bool,
    pub evidence: bool,
    pub keep_going: bool,
}
pub fn body_of(p: &PropDef, seed: u64, idx: u64, tier: Tier) -> Value {
    let mut r = Rng::new(mix2(mix2(seed, crate::rng::hash(p.id.as_bytes())), idx));
    (p.gen)(&mut r, idx, tier)
}

pub fn check(p: &PropDef, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = o.runs.unwrap_or(match o.tier {
        Tier::Quick => p.quick_runs,
        Tier::Thorough => p.quick_runs * 1000,
    });
    let dir = format!("{}/out/tmp-{}-{}", verif_dir(), p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    // shared: lowest failing index
    let min_fail = unsafe {
        &*(libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
            as *const AtomicU64)
    };
    min_fail.store(u64::MAX, Relaxed);
    let mut pids = vec![];
    for w in 0..o.workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            shm::init();
            let f = std::fs::File::create(format!("{dir}/w{w}.jsonl")).unwrap();
            let mut f = std::io::BufWriter::with_capacity(1 << 20, f);
            // beyond malloc's own arenas, and never moved
            let mut raw = Vec::with_capacity(16 << 20);
            let mut buf = Vec::with_capacity(16 << 20);
            let gen = Generator::start(p, o.seed, o.tier);
            let mut i = w;
            while i < total {
                if !o.keep_going && i > min_fail.load(Relaxed) {
                    break;
                }
                if t0.elapsed().as_secs_f64() > o.wall {
                    break;
                }
                if !gen.body(i, &mut raw) {
                    unsafe { libc::_exit(7) }
                }
                let failed = match run_raw(p, i, &raw, &mut buf) {
                    Ok(failed) => {
                        f.write_all(&buf).unwrap();
                        failed
                    }
                    Err(mut out) => {
                        out.idx = i;
                        serde_json::to_writer(&mut f, &out).unwrap();
                        out.fail.is_some()
                    }
                };
                if failed {
                    min_fail.fetch_min(i, Relaxed);
                }
                f.write_all(b"\n").unwrap();
                i += o.workers;
            }
            f.flush().unwrap();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut bad_worker = false;
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            bad_worker = true;
        }
    }
    let mut agg = Agg::default();
    for w in 0..o.workers {
        let path = format!("{dir}/w{w}.jsonl");
        if let Ok(s) = std::fs::read_to_string(&path) {
            for l in s.lines() {
                match serde_json::from_str::<Out>(l) {
                    Ok(out) => agg.add(out),
                    Err(_) => bad_worker = true,
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if bad_worker {
        eprintln!("simimg: a worker process failed");
    }
    let sim_wall = t0.elapsed().as_secs_f64();
    // known findings
    *PROP.lock().unwrap() = p.id.to_string();
    let mut met: BTreeMap<(String, String), u64> = BTreeMap::new();
    for (n, f) in agg.known.values() {
        if let Some(k) = is_known(f) {
            *met.entry((k.sig, k.what)).or_default() += n;
        }
    }
    let list: Vec<Known> = KNOWN.lock().unwrap_or_else(|e| e.into_inner()).clone();
    for k in list.iter().filter(|k| k.status == "open" && k.property == p.id) {
        let n = met.get(&(k.sig.clone(), k.what.clone())).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} [{}; met {n} times in this run]", p.id, k.what, k.sig);
    }
    let mut code = 0;
    let mut replay = String::new();
    if o.keep_going {
        let mut by: BTreeMap<String, (u64, Fail)> = BTreeMap::new();
        for (i, f) in &agg.fails {
            by.entry(f.sig.clone()).or_insert((0, f.clone())).0 += 1;
            let _ = i;
        }
        let mut all = String::new();
        for (s, (n, f)) in &by {
            all += &serde_json::to_string(&json!({"property": p.id, "signature": s, "run": 0, "message": f.msg, "body": f.body})).unwrap();
            all.push('\n');
            println!("FOUND {n:5} x {s}\n        {}", f.msg.chars().take(700).collect::<String>());
            if !o.quiet {
                println!("        {}", serde_json::to_string(&f.body).unwrap().chars().take(300).collect::<String>());
            }
        }
        let _ = std::fs::write(format!("{}/out/found-{}.jsonl", verif_dir(), p.id), all);
        if !by.is_empty() {
            code = 1;
        }
    } else if let Some((idx, f)) = agg.fails.iter().next() {
        shm::init();
        if f.class == "harness-panic" {
            println!("HARNESS ERROR property={} idx={idx} {}", p.id, f.msg);
            eprintln!("{}", serde_json::to_string(&f.body).unwrap());
            return 3;
        }
        let full = body_of(p, o.seed, *idx, o.tier);
        let (body, f, tried) = minimise(p, *idx, &full, f);
        let _ = std::fs::create_dir_all(format!("{}/out/replays", verif_dir()));
        replay = format!("{}/out/replays/{}-seed{}-run{}.json", verif_dir(), p.id, o.seed, idx);
        let rec = json!({"property": p.id, "seed": o.seed, "run": idx, "class": f.class, "signature": f.sig,
            "message": f.msg, "minimise_runs": tried, "body": body});
        std::fs::write(&replay, serde_json::to_vec_pretty(&rec).unwrap()).unwrap();
        // reproduce in a fresh process image
        let again = || std::process::Command::new("/proc/self/exe").arg("replay").arg(&replay).arg("--quiet").status().map(|s| s.code() == Some(1)).unwrap_or(false);
        let mut ok = again();
        if !ok {
            // the whole scenario instead
            let mut rec = rec;
            rec["body"] = full;
            std::fs::write(&replay, serde_json::to_vec_pretty(&rec).unwrap()).unwrap();
            ok = again();
        }
        println!("{}: {}", f.class, f.msg);
        println!("run {idx} of seed {}; reproduced from the replay file: {}", o.seed, ok);
        println!("VIOLATION property={} replay={}", p.id, replay);
        code = 1;
    }
    // the same seed gives the same execution: repeat some runs from here
    if code == 0 && !agg.digests.is_empty() {
        shm::init();
        let gen = Generator::start(p, o.seed, o.tier);
        let (mut raw, mut buf) = (Vec::with_capacity(16 << 20), Vec::with_capacity(16 << 20));
        let want: Vec<(u64, u64)> = agg.digests.iter().step_by((agg.digests.len() / 40).max(1)).map(|(a, b)| (*a, *b)).collect();
        for (i, d) in want {
            if !gen.body(i, &mut raw) {
                break;
            }
            if let Ok(_) = run_raw(p, i, &raw, &mut buf) {
                let again = serde_json::from_slice::<Out>(&buf).map(|o| o.digest).unwrap_or(0);
                agg.repeated.0 += 1;
                if again != d {
                    agg.repeated.1 += 1;
                    eprintln!("simimg: run {i} of seed {} gave another execution when repeated", o.seed);
                }
            }
        }
    }
    if bad_worker && code == 0 {
        code = 4;
    }
    let wall = t0.elapsed().as_secs_f64();
    if o.evidence {
        write_evidence(p, o, &agg, sim_wall, wall, total, &replay);
    }
    println!(
        "{} {:?} seed={} runs={}/{} executions={} distinct={} traces={} simulated={:.1}s wall={:.1}s log={:016x} => {}",
        p.id, o.tier, o.seed, agg.runs, total, agg.evals, agg.cases.len(), agg.traces.len(), agg.sim_us as f64 / 1e6, wall, agg.log(),
        match code { 0 => "held", 1 => "VIOLATED", _ => "ERROR" }
    );
    if !o.quiet {
        let c: Vec<String> = agg.counts.iter().map(|(k, v)| format!("{k}={v}")).collect();
        println!("  {}", c.join(" "));
    }
    code
}

/// no RandomState in processes that runs are forked from
#[derive(Default)]
struct Id(u64);
impl std::hash::Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
#[derive(Default)]
struct Agg {
    runs: u64,
    evals: u64,
    cases: HashSet<u64, std::hash::BuildHasherDefault<Id>>,
    traces: HashSet<u64, std::hash::BuildHasherDefault<Id>>,
    /// runs repeated at the end, and how many of them differed
    repeated: (u64, u64),
    counts: BTreeMap<String, u64>,
    sim_us: u64,
    known: BTreeMap<String, (u64, Fail)>,
    fails: BTreeMap<u64, Fail>,
    samples: Vec<Value>,
    digests: BTreeMap<u64, u64>,
    idx: BTreeSet<u64>,
}
impl Agg {
    fn add(&mut self, o: Out) {
        self.runs += 1;
        let c = format!("{:?}", o.counts);
        self.idx.insert(o.idx);
        self.evals += o.evals;
        self.cases.extend(o.cases);
        self.traces.extend(o.traces);
        self.sim_us += o.sim_us;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for f in o.known {
            let key = format!("{} {}", f.sig, is_known(&f).map(|k| k.what).unwrap_or_default());
            self.known.entry(key).or_insert((0, f)).0 += 1;
        }
        if let Some(f) = o.fail {
            self.fails.insert(o.idx, f);
        }
        if let Some(s) = o.sample {
            if self.samples.len() < 4 || std::env::var_os("SIMIMG_DIGESTS").is_some() {
                self.samples.push(s);
            }
        }
        self.digests.insert(o.idx, o.digest);
        if std::env::var_os("SIMIMG_DIGESTS").is_some() {
            eprintln!("run {} digest {:016x} {c} {:?}", o.idx, o.digest, self.samples.last());
        }
    }
    fn log(&self) -> u64 {
        let mut h = Hasher::default();
        for (i, d) in &self.digests {
            h.word(*i);
            h.word(*d);
        }
        h.finish()
    }
}

fn write_evidence(p: &PropDef, o: &Opts, a: &Agg, sim_wall: f64, wall: f64, total: u64, replay: &str) {
    let per_h = |n: u64| (n as f64 / sim_wall.max(0.001) * 3600.0).round() as u64;
    let v = json!({
        "property": p.id,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": p.level,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": a.fails.len(),
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.cases.len(),
            "rule": p.rule,
            "samples": a.samples,
            "simulated_runs": a.runs,
            "runs_planned": total,
            "stopped_by_wall_limit": a.fails.is_empty() && a.runs < total,
            "runs_per_hour": per_h(a.runs),
            "executions_per_hour": per_h(a.evals),
            "seeds_per_hour": per_h(a.runs),
            "simulated_time_s": a.sim_us as f64 / 1e6,
            "faults_and_events_injected": a.counts,
            "distinct_traces": a.traces.len(),
            "distinct_traces_measure": "distinct hashes of the full per-execution sequence of simulated I/O results and scheduling decisions",
            "runs_repeated": a.repeated.0,
            "repetitions_that_differed": a.repeated.1,
            "log_digest": format!("{:016x}", a.log()),
            "known_findings_seen": a.known.iter().map(|(k, v)| json!({"signature": k, "times": v.0})).collect::<Vec<_>>(),
            "replay": replay,
            "real_components": p.real,
            "stubbed_components": p.stub,
        },
        "assumptions": [
            "the code of std, rayon and the codec crates that image calls is executed, not verified; a defect there is reported against the operation of image that exposes it",
            "within one run exactly one thread executes at a time: data races on plain memory (undefined behaviour in safe Rust) and weak-memory reorderings are outside the simulation"
        ]
    });
    let d = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(format!("{d}/{}.json", p.id), serde_json::to_vec_pretty(&v).unwrap()).unwrap();
}

// ------------------------------------------------------------------ minimisation and replay
fn minimise(p: &PropDef, idx: u64, full: &Value, f: &Fail) -> (Value, Fail, u64) {
    let t0 = Instant::now();
    let mut tried = 0;
    // in the fresh process image that a replay has: this one has generated scenarios
    let file = format!("{}/out/minimise-{}.json", verif_dir(), std::process::id());
    let mut same = |b: &Value| -> Option<Fail> {
        tried += 1;
        std::fs::write(&file, json!({"property": p.id, "run": idx, "body": b}).to_string()).ok()?;
        let o = std::process::Command::new("/proc/self/exe").arg("one").arg(&file).output().ok()?;
        let o: Out = serde_json::from_slice(&o.stdout).ok()?;
        o.fail.filter(|g| g.class == f.class)
    };
    let mut cur = full.clone();
    let mut cf = f.clone();
    if !f.body.is_null() && f.body != *full {
        if let Some(g) = same(&f.body) {
            cur = f.body.clone();
            cf = g;
        }
    }
    'outer: loop {
        for c in (p.shrink)(&cur) {
            if t0.elapsed().as_secs() > 25 {
                break 'outer;
            }
            if c == cur {
                continue;
            }
            if let Some(g) = same(&c) {
                // prefer the concretised body, if it fails too
                (cur, cf) = match Some(&g.body).filter(|b| !b.is_null() && **b != c).and_then(|b| same(b)) {
                    Some(h) => (g.body, h),
                    None => (c, g),
                };
                continue 'outer;
            }
        }
        break;
    }
    let _ = std::fs::remove_file(&file);
    (cur, cf, tried)
}
/// the result of one scenario as JSON
pub fn one(p: &PropDef, v: &Value) -> i32 {
    shm::init();
    let o = run_child(p, v["run"].as_u64().unwrap_or(0), &v["body"]);
    println!("{}", serde_json::to_string(&o).unwrap());
    0
}
pub fn replay(p: &PropDef, path: &str, quiet: bool) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay json");
    shm::init();
    let idx = v["run"].as_u64().unwrap_or(0);
    let o = run_child(p, idx, &v["body"]);
    match o.fail {
        Some(f) => {
            if !quiet {
                println!("{}: {}\nsignature {}", f.class, f.msg, f.sig);
                println!("VIOLATION property={} replay={}", p.id, path);
            }
            1
        }
        None => {
            if !quiet {
                println!("no violation");
            }
            0
        }
    }
}
