//! The storage seam.  `Engine` decides, from the plan and its own PRNG, what every simulated
//! source/sink operation does.  `SimReader`/`SimWriter` put it behind Read/BufRead/Seek and
//! Write/Seek; `simos` puts the same engine behind open/read/write/lseek/close.
use crate::rng::{Hasher, Rng};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Chunk {
    /// as much as was asked for
    Whole,
    /// never more than n bytes
    AtMost(u32),
    /// uniform 1..=n
    Rand(u32),
    /// mostly whole, sometimes short (per mille)
    Rare(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum When {
    /// the n-th operation of the class (0-based)
    Op(u64),
    /// the first operation of the class that would cross this stream offset
    Byte(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Class {
    Data,
    Seek,
    Flush,
    Any,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub when: When,
    pub class: Class,
    /// index into KINDS
    pub kind: u8,
    /// stays failed from then on
    pub persistent: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct IoPlan {
    pub seed: u64,
    pub chunk: Chunk,
    /// BufRead window limit; 0 = chunk policy only
    pub window: u32,
    /// interrupted operations, per mille
    pub eintr: u32,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    /// EOF at this length (reads)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub truncate: Option<u64>,
    /// capacity of the device (writes); beyond it StorageFull, or Ok(0) if `zero_when_full`
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub capacity: Option<u64>,
    #[serde(default)]
    pub zero_when_full: bool,
}
impl Default for Chunk {
    fn default() -> Self {
        Chunk::Whole
    }
}
impl IoPlan {
    pub fn ideal() -> IoPlan {
        IoPlan::default()
    }
    pub fn is_ideal(&self) -> bool {
        self.chunk == Chunk::Whole && self.window == 0 && self.eintr == 0 && self.faults.is_empty()
            && self.truncate.is_none() && self.capacity.is_none()
    }
}

pub const KINDS: [(ErrorKind, i32, &str); 10] = [
    (ErrorKind::Other, libc::EIO, "eio"),
    (ErrorKind::PermissionDenied, libc::EACCES, "eacces"),
    (ErrorKind::WouldBlock, libc::EAGAIN, "eagain"),
    (ErrorKind::TimedOut, libc::ETIMEDOUT, "etimedout"),
    (ErrorKind::BrokenPipe, libc::EPIPE, "epipe"),
    (ErrorKind::ConnectionReset, libc::ECONNRESET, "econnreset"),
    (ErrorKind::InvalidData, libc::EBADMSG, "ebadmsg"),
    (ErrorKind::NotFound, libc::ESTALE, "estale"),
    (ErrorKind::StorageFull, libc::ENOSPC, "enospc"),
    (ErrorKind::UnexpectedEof, libc::EIO, "unexpected-eof"),
];

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct IoStats {
    pub ops: u64,
    pub data_ops: u64,
    pub seek_ops: u64,
    pub flush_ops: u64,
    pub short: u64,
    pub eintr: u64,
    pub hard: u64,
    pub hard_seek: u64,
    pub hard_flush: u64,
    pub eof_reads: u64,
    pub full: u64,
    pub trace: u64,
    /// simulated device time, microseconds
    pub sim_us: u64,
    /// operations attempted after the first hard fault
    pub after_fault: u64,
}

pub struct Engine {
    pub plan: IoPlan,
    rng: Rng,
    pub st: IoStats,
    h: Hasher,
    spent: Vec<bool>,
    stuck: Option<u8>,
    pub writing: bool,
}

pub enum Deny {
    Eintr,
    Kind(u8),
    Zero,
}
impl Deny {
    pub fn error(&self) -> io::Error {
        match self {
            Deny::Eintr => io::Error::new(ErrorKind::Interrupted, "simulated: interrupted"),
            Deny::Kind(k) => io::Error::new(KINDS[*k as usize].0, SimErr(*k)),
            Deny::Zero => unreachable!(),
        }
    }
    pub fn errno(&self) -> i32 {
        match self {
            Deny::Eintr => libc::EINTR,
            Deny::Kind(k) => KINDS[*k as usize].1,
            Deny::Zero => 0,
        }
    }
}
#[derive(Debug)]
pub struct SimErr(pub u8);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated i/o fault: {}", KINDS[self.0 as usize].2)
    }
}
impl std::error::Error for SimErr {}

impl Engine {
    pub fn new(plan: &IoPlan, writing: bool) -> Engine {
        Engine {
            plan: plan.clone(),
            rng: Rng::new(plan.seed ^ 0x10),
            st: IoStats::default(),
            h: Hasher::default(),
            spent: vec![false; plan.faults.len()],
            stuck: None,
            writing,
        }
    }
    fn tick(&mut self) {
        self.st.ops += 1;
        self.st.sim_us += 20 + (self.rng.u64() & 63);
        if self.st.hard > 0 || self.st.full > 0 {
            self.st.after_fault += 1;
        }
        crate::run::count_op();
    }
    fn log(&mut self, tag: u64, a: u64, b: u64) {
        self.h.word(tag.wrapping_mul(0x9e37) ^ a.rotate_left(24) ^ b);
        self.st.trace = self.h.finish();
    }
    fn hard(&mut self, class: Class, k: u8) -> Deny {
        self.st.hard += 1;
        match class {
            Class::Seek => self.st.hard_seek += 1,
            Class::Flush => self.st.hard_flush += 1,
            _ => {}
        }
        Deny::Kind(k)
    }
    fn matches(f: &Fault, class: Class) -> bool {
        f.class == Class::Any || f.class == class
    }
    /// a fault keyed on the operation count?
    fn op_fault(&mut self, class: Class, n: u64) -> Option<Deny> {
        if let Some(k) = self.stuck {
            return Some(self.hard(class, k));
        }
        for i in 0..self.plan.faults.len() {
            let f = self.plan.faults[i];
            if self.spent[i] || !Self::matches(&f, class) {
                continue;
            }
            if let When::Op(m) = f.when {
                let cnt = if f.class == Class::Any { self.st.ops - 1 } else { n };
                if cnt == m {
                    self.spent[i] = true;
                    if f.persistent {
                        self.stuck = Some(f.kind);
                    }
                    return Some(self.hard(class, f.kind));
                }
            }
        }
        None
    }
    fn draw(&mut self, want: u64) -> u64 {
        if want == 0 {
            return 0;
        }
        let n = match self.plan.chunk {
            Chunk::Whole => want,
            Chunk::AtMost(m) => want.min(m.max(1) as u64),
            Chunk::Rand(m) => self.rng.range(1, m.max(1) as u64).min(want),
            Chunk::Rare(pm) => {
                if self.rng.chance(pm as u64, 1000) {
                    self.rng.range(1, want)
                } else {
                    want
                }
            }
        };
        if n < want {
            self.st.short += 1;
        }
        n
    }
    /// How many of `want` bytes at `pos` move.  `avail` is what the stored bytes allow (reads).
    pub fn data(&mut self, pos: u64, want: u64, avail: u64) -> Result<u64, Deny> {
        self.tick();
        let n = self.st.data_ops;
        self.st.data_ops += 1;
        if let Some(d) = self.op_fault(Class::Data, n) {
            self.log(9, pos, want);
            return Err(d);
        }
        if self.plan.eintr > 0 && self.rng.chance(self.plan.eintr as u64, 1000) {
            self.st.eintr += 1;
            self.log(8, pos, want);
            return Err(Deny::Eintr);
        }
        let mut lim = want.min(avail);
        if self.writing {
            if let Some(cap) = self.plan.capacity {
                if want > 0 && pos >= cap {
                    self.st.full += 1;
                    self.log(7, pos, want);
                    return Err(if self.plan.zero_when_full { Deny::Zero } else { Deny::Kind(8) });
                }
                lim = lim.min(cap.saturating_sub(pos));
            }
        } else if want > 0 && avail == 0 {
            self.st.eof_reads += 1;
        }
        // byte-keyed faults: deliver up to the offset, then fail there
        for i in 0..self.plan.faults.len() {
            let f = self.plan.faults[i];
            if self.spent[i] || !Self::matches(&f, Class::Data) {
                continue;
            }
            if let When::Byte(b) = f.when {
                if pos == b && want > 0 {
                    self.spent[i] = true;
                    if f.persistent {
                        self.stuck = Some(f.kind);
                    }
                    self.log(6, pos, want);
                    return Err(self.hard(Class::Data, f.kind));
                } else if pos < b && pos + lim > b {
                    lim = b - pos;
                }
            }
        }
        let got = if lim == 0 { 0 } else { self.draw(lim) };
        self.log(1, pos, got << 24 | (want & 0xffffff));
        Ok(got)
    }
    pub fn seek(&mut self, to: u64) -> Result<(), Deny> {
        self.tick();
        let n = self.st.seek_ops;
        self.st.seek_ops += 1;
        if let Some(d) = self.op_fault(Class::Seek, n) {
            self.log(5, to, 0);
            return Err(d);
        }
        self.log(2, to, 0);
        Ok(())
    }
    pub fn flush(&mut self) -> Result<(), Deny> {
        self.tick();
        let n = self.st.flush_ops;
        self.st.flush_ops += 1;
        if let Some(d) = self.op_fault(Class::Flush, n) {
            self.log(4, 0, 0);
            return Err(d);
        }
        self.log(3, 0, 0);
        Ok(())
    }
}

pub type Stats = Rc<RefCell<IoStats>>;

// ------------------------------------------------------------------ reader
pub struct SimReader {
    data: Rc<Vec<u8>>,
    /// first byte of the stream inside `data` is at 0; `limit` is the simulated length
    limit: u64,
    pos: u64,
    win: u64,
    eng: Engine,
    out: Stats,
    pub panic_at: Option<u64>,
    pub closed: Rc<RefCell<bool>>,
}
impl Drop for SimReader {
    fn drop(&mut self) {
        *self.closed.borrow_mut() = true;
    }
}
impl SimReader {
    pub fn new(data: Rc<Vec<u8>>, plan: &IoPlan) -> (SimReader, Stats) {
        let out: Stats = Rc::new(RefCell::new(IoStats::default()));
        let limit = plan.truncate.unwrap_or(u64::MAX).min(data.len() as u64);
        (
            SimReader { data, limit, pos: 0, win: 0, eng: Engine::new(plan, false), out: out.clone(), panic_at: None, closed: Rc::new(RefCell::new(false)) },
            out,
        )
    }
    pub fn set_pos(&mut self, p: u64) {
        self.pos = p;
        self.win = 0;
    }
    pub fn pos(&self) -> u64 {
        self.pos
    }
    fn sync(&self) {
        *self.out.borrow_mut() = self.eng.st.clone();
    }
    fn draw(&mut self, want: u64) -> io::Result<u64> {
        if let Some(k) = self.panic_at {
            if self.eng.st.ops >= k {
                self.panic_at = None;
                std::panic::panic_any(CallerPanic);
            }
        }
        crate::simos::point();
        let avail = self.limit.saturating_sub(self.pos);
        let r = self.eng.data(self.pos, want, avail);
        self.sync();
        r.map_err(|d| d.error())
    }
}
/// payload of a panic raised on purpose by a caller-supplied reader, writer or closure
pub struct CallerPanic;

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = if self.win > 0 {
            self.win.min(buf.len() as u64)
        } else {
            self.draw(buf.len() as u64)?
        };
        let p = self.pos as usize;
        let n = n as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.pos += n as u64;
        self.win = self.win.saturating_sub(n as u64);
        Ok(n)
    }
}
impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.win == 0 {
            let want = if self.eng.plan.window > 0 { self.eng.plan.window as u64 } else { 8192 };
            self.win = self.draw(want)?;
        }
        let p = (self.pos.min(self.data.len() as u64)) as usize;
        Ok(&self.data[p..p + self.win as usize])
    }
    fn consume(&mut self, n: usize) {
        assert!(n as u64 <= self.win, "consume({n}) beyond the {} bytes handed out", self.win);
        self.pos += n as u64;
        self.win -= n as u64;
    }
}
impl Seek for SimReader {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let base = match s {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.limit.checked_add_signed(d),
        };
        let to = match base {
            Some(t) if t <= i64::MAX as u64 => t,
            _ => return Err(io::Error::new(ErrorKind::InvalidInput, "invalid seek to a negative or overflowing position")),
        };
        let r = self.eng.seek(to);
        self.sync();
        r.map_err(|d| d.error())?;
        self.pos = to;
        self.win = 0;
        Ok(to)
    }
}

// ------------------------------------------------------------------ writer
pub struct Sink {
    pub data: Vec<u8>,
    pub st: IoStats,
}
pub struct SimWriter {
    sink: Rc<RefCell<Sink>>,
    pos: u64,
    eng: Engine,
    pub panic_at: Option<u64>,
    /// the write that panics has taken part of the data
    pub panic_late: bool,
    pub closed: Rc<RefCell<bool>>,
}
impl SimWriter {
    pub fn new(plan: &IoPlan) -> (SimWriter, Rc<RefCell<Sink>>) {
        let sink = Rc::new(RefCell::new(Sink { data: Vec::new(), st: IoStats::default() }));
        (
            SimWriter { sink: sink.clone(), pos: 0, eng: Engine::new(plan, true), panic_at: None, panic_late: false, closed: Rc::new(RefCell::new(false)) },
            sink,
        )
    }
    fn maybe_panic(&mut self, buf: &[u8]) {
        if let Some(k) = self.panic_at {
            if self.eng.st.ops >= k {
                self.panic_at = None;
                if self.panic_late {
                    let n = (buf.len() + 1) / 2;
                    let p = self.pos as usize;
                    let mut s = self.sink.borrow_mut();
                    if s.data.len() < p + n {
                        s.data.resize(p + n, 0);
                    }
                    s.data[p..p + n].copy_from_slice(&buf[..n]);
                    self.pos += n as u64;
                }
                std::panic::panic_any(CallerPanic);
            }
        }
    }
}
impl Drop for SimWriter {
    fn drop(&mut self) {
        *self.closed.borrow_mut() = true;
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.maybe_panic(buf);
        crate::simos::point();
        let r = self.eng.data(self.pos, buf.len() as u64, u64::MAX);
        let mut s = self.sink.borrow_mut();
        s.st = self.eng.st.clone();
        match r {
            Err(Deny::Zero) => Ok(0),
            Err(d) => Err(d.error()),
            Ok(n) => {
                let (p, n) = (self.pos as usize, n as usize);
                if s.data.len() < p + n {
                    if p + n > 256 << 20 {
                        drop(s);
                        crate::run::fatal("write-runaway", "sink grew beyond 256 MiB");
                    }
                    s.data.resize(p + n, 0);
                }
                s.data[p..p + n].copy_from_slice(&buf[..n]);
                self.pos += n as u64;
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.maybe_panic(&[]);
        let r = self.eng.flush();
        self.sink.borrow_mut().st = self.eng.st.clone();
        r.map_err(|d| d.error())
    }
}
impl Seek for SimWriter {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let end = self.sink.borrow().data.len() as u64;
        let to = match s {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => end.checked_add_signed(d),
        };
        let to = match to {
            Some(t) if t <= i64::MAX as u64 => t,
            _ => return Err(io::Error::new(ErrorKind::InvalidInput, "invalid seek")),
        };
        let r = self.eng.seek(to);
        self.sink.borrow_mut().st = self.eng.st.clone();
        r.map_err(|d| d.error())?;
        self.pos = to;
        Ok(to)
    }
}

impl IoStats {
    pub fn add(&mut self, o: &IoStats) {
        self.ops += o.ops;
        self.data_ops += o.data_ops;
        self.seek_ops += o.seek_ops;
        self.flush_ops += o.flush_ops;
        self.short += o.short;
        self.eintr += o.eintr;
        self.hard += o.hard;
        self.hard_seek += o.hard_seek;
        self.hard_flush += o.hard_flush;
        self.eof_reads += o.eof_reads;
        self.full += o.full;
        self.sim_us += o.sim_us;
        self.after_fault += o.after_fault;
        self.trace = crate::rng::mix2(self.trace, o.trace);
    }
}
