//! C14: the parallel pixel iterators of ImageBuffer under a seeded thread scheduler.
use crate::rng::{hash, mix2, Rng};
use crate::run::{self, catch, Tier};
use crate::simio::CallerPanic;
use crate::simos::{self, Policy, SchedCfg};
use image::{ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::Mutex;

// ------------------------------------------------------------------ schedules
pub fn any_sched(r: &mut Rng) -> SchedCfg {
    let policy = match r.below(10) {
        0 => Policy::List(vec![]),
        1..=5 => Policy::Random(*r.pick(&[5u32, 30, 100, 300, 600, 1000])),
        6..=8 => Policy::Pct(r.range(1, 12) as u32),
        _ => Policy::Starve(r.below(6) as u32),
    };
    SchedCfg {
        seed: r.u64(),
        policy,
        cpus: *r.pick(&[1u32, 2, 2, 3, 3, 4, 5, 6]),
        alloc_every: *r.pick(&[0u32, 1, 2, 4, 10, 40]),
        spurious: *r.pick(&[0u32, 0, 20, 300]),
        block_every: *r.pick(&[0u32, 3, 10, 30, 100, 400, 2000]),
    }
}
/// simpler schedules: fewer deviations from "run until blocked", fewer threads
pub fn shrink_sched(c: &SchedCfg) -> Vec<SchedCfg> {
    let mut v = vec![];
    if let Policy::List(l) = &c.policy {
        if !l.is_empty() {
            v.push(SchedCfg { policy: Policy::List(vec![]), ..c.clone() });
            let mut n = l.len();
            for _ in 0..6 {
                n = n.div_ceil(2);
                for (k, part) in l.chunks(n).enumerate().take(8) {
                    let _ = part;
                    let mut m = l.clone();
                    m.drain(k * n..((k + 1) * n).min(l.len()));
                    v.push(SchedCfg { policy: Policy::List(m), ..c.clone() });
                }
                if n == 1 {
                    break;
                }
            }
        }
    } else {
        v.push(SchedCfg { policy: Policy::List(vec![]), ..c.clone() });
    }
    if c.spurious > 0 {
        v.push(SchedCfg { spurious: 0, ..c.clone() });
    }
    if c.block_every > 0 {
        v.push(SchedCfg { block_every: 0, ..c.clone() });
    }
    if c.alloc_every > 0 {
        v.push(SchedCfg { alloc_every: 0, ..c.clone() });
    }
    for n in 1..c.cpus {
        v.push(SchedCfg { cpus: n, ..c.clone() });
    }
    v
}

// ------------------------------------------------------------------ scenario
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Rev,
    Skip(u32),
    Take(u32),
    Step(u32),
    Min(u32),
    Max(u32),
    Enum,
    Chunks(u32),
    ZipRange(u32),
    Chain(u32),
    Interleave(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Src {
    Pixels,
    PixelsMut,
    Enum,
    EnumMut,
    FromFn,
    /// two iterations of two images inside rayon::join
    Join,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B14 {
    pub pix: u8,
    pub w: u32,
    pub h: u32,
    /// samples behind the last pixel
    pub extra: u32,
    /// borrowed container
    pub slice: bool,
    pub src: Src,
    pub ops: Vec<Op>,
    pub term: u8,
    /// a pool of its own with this many threads; 0 = the global one
    pub pool: u8,
    /// one closure invocation in so many panics; 0 = none
    pub panics: u32,
    /// closures iterate a second image in parallel
    pub nested: bool,
    pub seed: u64,
    pub sched: SchedCfg,
}
fn b14(v: &Value) -> B14 {
    serde_json::from_value(v.clone()).expect("scenario body")
}
pub fn gen14(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let big = t == Tier::Thorough && r.chance(1, 4);
    let side = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 => r.range(2, 4) as u32,
        4 => r.range(1, if big { 200 } else { 40 }) as u32,
        _ => r.range(1, 12) as u32,
    };
    let (mut w, mut h) = (side(r), side(r));
    let large = r.chance(1, 300);
    if large {
        (w, h) = *r.pick(&[(70000, 1), (1, 70000), (3, 22000), (256, 256), (300, 220), (22000, 3)]);
    }
    let n = (w * h) as u64;
    let arg = |r: &mut Rng| match r.below(5) {
        0 => r.below(3) as u32,
        1 => n as u32,
        2 => n as u32 + r.below(3) as u32,
        _ => r.below(n + 2) as u32,
    };
    let src = *r.pick(&[Src::Pixels, Src::PixelsMut, Src::Enum, Src::Enum, Src::EnumMut, Src::EnumMut, Src::EnumMut, Src::FromFn, Src::Join]);
    let depth = if matches!(src, Src::FromFn | Src::Join) { 0 } else { r.below(3) };
    let ops = (0..depth)
        .map(|_| match r.below(12) {
            0 | 1 => Op::Rev,
            2 => Op::Skip(arg(r)),
            3 => Op::Take(arg(r)),
            4 => Op::Step(1 + r.below(7) as u32),
            5 => Op::Min(1 + r.below(n + 1) as u32),
            6 => Op::Max(1 + r.below(4) as u32),
            7 => Op::Enum,
            8 => Op::Chunks(1 + r.below(9) as u32),
            9 => Op::ZipRange(arg(r)),
            10 => Op::Chain(r.below(4) as u32),
            _ => Op::Interleave(r.below(6) as u32),
        })
        .collect();
    serde_json::to_value(B14 {
        pix: r.below(4) as u8,
        w,
        h,
        extra: if r.chance(1, 3) { r.range(1, 9) as u32 } else { 0 },
        slice: r.chance(1, 3),
        src,
        ops,
        term: r.below(12) as u8,
        pool: if r.chance(1, 2) { r.range(1, 6) as u8 } else { 0 },
        panics: if r.chance(1, 3) { *r.pick(&[1u32, 2, 5, 20, 100]) } else { 0 },
        nested: r.chance(1, 8) && !large,
        seed: r.u64(),
        sched: {
            let s = any_sched(r);
            if large { SchedCfg { alloc_every: s.alloc_every * 500, ..s } } else { s }
        },
    })
    .unwrap()
}
pub fn shrink14(v: &Value) -> Vec<Value> {
    let b = b14(v);
    let mut out = vec![];
    let mut push = |b: B14| out.push(serde_json::to_value(b).unwrap());
    for s in shrink_sched(&b.sched) {
        push(B14 { sched: s, ..b.clone() });
    }
    for i in 0..b.ops.len() {
        let mut o = b.ops.clone();
        o.remove(i);
        push(B14 { ops: o, ..b.clone() });
    }
    for (w, h) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (b.w / 2, b.h), (b.w, b.h / 2), (b.w.saturating_sub(1), b.h), (b.w, b.h.saturating_sub(1))] {
        if (w as u64 * h as u64) < b.w as u64 * b.h as u64 {
            push(B14 { w, h, ..b.clone() });
        }
    }
    if b.extra > 0 {
        push(B14 { extra: 0, ..b.clone() });
    }
    if b.slice {
        push(B14 { slice: false, ..b.clone() });
    }
    if b.nested {
        push(B14 { nested: false, ..b.clone() });
    }
    if b.panics > 0 {
        push(B14 { panics: 0, ..b.clone() });
    }
    for p in 1..b.pool {
        push(B14 { pool: p, ..b.clone() });
    }
    if b.term != 1 {
        push(B14 { term: 1, ..b.clone() });
    }
    out
}

// ------------------------------------------------------------------ what closures see and do
pub struct Px {
    xy: Option<(u32, u32)>,
    at: usize,
    mutable: bool,
}
pub struct It {
    px: Vec<Px>,
    tag: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Rec {
    px: Vec<u32>,
    tag: u64,
}
struct Cx {
    base: usize,
    size: usize,
    w: u32,
    n: usize,
    seed: u64,
    panics: u32,
    orig: Vec<u8>,
    seen: Vec<AtomicU32>,
    wrong: Mutex<Option<(String, String)>>,
    nested: Option<ImageBuffer<Luma<u8>, Vec<u8>>>,
}
impl Cx {
    fn wrong(&self, class: &str, m: String) {
        let mut g = self.wrong.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() {
            *g = Some((class.into(), m));
        }
    }
    fn fresh(&self, i: usize) -> Vec<u8> {
        (0..self.size).map(|k| (mix2(self.seed ^ 0xf4e5, (i * 64 + k) as u64) >> 13) as u8).collect()
    }
    fn panics_at(&self, i: usize) -> bool {
        self.panics > 0 && mix2(self.seed ^ 0xbad, i as u64) % self.panics as u64 == 0
    }
    /// whether the closure panics after it has written the pixel
    fn late(&self) -> bool {
        self.seed & 1 == 1
    }
    fn pred(&self, rec: &Rec) -> bool {
        mix2(self.seed ^ 0x9ed, mix2(rec.tag, rec.px.first().copied().unwrap_or(u32::MAX) as u64)) % 7 == 0
    }
    #[inline(never)]
    fn touch(&self, it: It) -> Rec {
        let mut v = vec![];
        for p in &it.px {
            let off = p.at.wrapping_sub(self.base);
            let i = off / self.size.max(1);
            if off % self.size != 0 || i >= self.n {
                self.wrong("foreign-pixel", format!("a closure was given a reference {} bytes into the image, which has {} pixels of {} bytes", off as isize, self.n, self.size));
                continue;
            }
            if let Some((x, y)) = p.xy {
                if (x, y) != ((i as u32) % self.w, (i as u32) / self.w) {
                    self.wrong("wrong-coordinates", format!("pixel {i} of an image {} wide came with the coordinates ({x}, {y})", self.w));
                }
            }
            let before = self.seen[i].fetch_add(1, Relaxed);
            if before > 0 {
                self.wrong("visited-twice", format!("pixel {i} was visited {} times", before + 1));
            }
            simos::point();
            let ptr = p.at as *mut u8;
            let now = unsafe { std::slice::from_raw_parts(ptr, self.size) }.to_vec();
            if now != self.orig[i * self.size..(i + 1) * self.size] {
                self.wrong("wrong-value", format!("pixel {i} had another value than in the image: {now:?}"));
            }
            if let Some(img) = &self.nested {
                if i % 5 == 0 {
                    let s: u64 = img.par_enumerate_pixels().map(|(x, y, p)| p.0[0] as u64 + 3 * x as u64 + 7 * y as u64).sum();
                    let t: u64 = img.enumerate_pixels().map(|(x, y, p)| p.0[0] as u64 + 3 * x as u64 + 7 * y as u64).sum();
                    if s != t {
                        self.wrong("nested", format!("a nested parallel sum gave {s}, the sequential one {t}"));
                    }
                }
            }
            if self.panics_at(i) && !self.late() {
                std::panic::panic_any(CallerPanic);
            }
            if p.mutable {
                let f = self.fresh(i);
                unsafe { std::ptr::copy_nonoverlapping(f.as_ptr(), ptr, self.size) };
                simos::point();
                if unsafe { std::slice::from_raw_parts(ptr, self.size) } != &f[..] {
                    self.wrong("shared-pixel", format!("pixel {i} changed under its exclusive reference"));
                }
            }
            if self.panics_at(i) && self.late() {
                std::panic::panic_any(CallerPanic);
            }
            v.push(i as u32);
        }
        Rec { px: v, tag: it.tag }
    }
}

// ------------------------------------------------------------------ terminals
#[derive(Debug)]
enum Got {
    Ordered(Vec<Rec>),
    Unordered(Vec<Rec>),
    /// the first match, in order
    First(Option<Rec>),
    Position(Option<usize>),
    Any(Option<Rec>),
    Count(usize, Option<usize>, usize),
    Try(bool),
}
fn term<I: IndexedParallelIterator<Item = It>>(it: I, t: u8, cx: &Cx) -> Got {
    match t {
        0 => {
            let m = Mutex::new(vec![]);
            it.for_each(|i| {
                let r = cx.touch(i);
                m.lock().unwrap_or_else(|e| e.into_inner()).push(r)
            });
            Got::Unordered(m.into_inner().unwrap_or_else(|e| e.into_inner()))
        }
        1 => Got::Ordered(it.map(|i| cx.touch(i)).collect()),
        2 => {
            let mut v = vec![Rec { px: vec![], tag: 1 }];
            it.map(|i| cx.touch(i)).collect_into_vec(&mut v);
            Got::Ordered(v)
        }
        3 => Got::Ordered(
            it.fold(Vec::new, |mut v, i| {
                v.push(cx.touch(i));
                v
            })
            .reduce(Vec::new, |mut a, b| {
                a.extend(b);
                a
            }),
        ),
        4 => Got::First(it.map(|i| cx.touch(i)).find_first(|r| cx.pred(r))),
        5 => Got::Position(it.map(|i| cx.touch(i)).position_first(|r| cx.pred(&r))),
        6 => {
            let r = it.try_for_each(|i| {
                let r = cx.touch(i);
                if cx.pred(&r) {
                    Err(())
                } else {
                    Ok(())
                }
            });
            Got::Try(r.is_ok())
        }
        7 => Got::Any(it.map(|i| cx.touch(i)).find_any(|r| cx.pred(r))),
        8 => {
            let (l, o) = (it.len(), it.opt_len());
            let c = it.map(|i| cx.touch(i)).count();
            Got::Count(l, o, c)
        }
        9 => Got::Ordered({
            let mut v: Vec<(usize, Rec)> = it.enumerate().map(|(k, i)| (k, cx.touch(i))).filter(|_| true).collect();
            for (n, x) in v.iter().enumerate() {
                if x.0 != n {
                    cx.wrong("wrong-index", format!("enumerate gave {} for item {n}", x.0));
                }
            }
            v.drain(..).map(|x| x.1).collect()
        }),
        10 => {
            let (a, b): (Vec<Rec>, Vec<usize>) = it.zip((0..cx.n * 2 + 8).into_par_iter()).map(|(i, k)| (cx.touch(i), k)).unzip();
            for (n, k) in b.iter().enumerate() {
                if n != *k {
                    cx.wrong("wrong-index", format!("zip gave partner {k} to item {n}"));
                }
            }
            Got::Ordered(a)
        }
        _ => Got::Unordered(it.map(|i| cx.touch(i)).fold_with(vec![], |mut v, r| { v.push(r); v }).flatten_iter().collect()),
    }
}
/// fewer terminals behind chains: one driven, one through the producer
fn term_short<I: IndexedParallelIterator<Item = It>>(it: I, t: u8, cx: &Cx) -> Got {
    if t % 2 == 0 {
        term_a(it, cx)
    } else {
        term_b(it, cx)
    }
}
fn term_a<I: IndexedParallelIterator<Item = It>>(it: I, cx: &Cx) -> Got {
    let m = Mutex::new(vec![]);
    it.for_each(|i| {
        let r = cx.touch(i);
        m.lock().unwrap_or_else(|e| e.into_inner()).push(r)
    });
    Got::Unordered(m.into_inner().unwrap_or_else(|e| e.into_inner()))
}
fn term_b<I: IndexedParallelIterator<Item = It>>(it: I, cx: &Cx) -> Got {
    let mut v = vec![];
    it.map(|i| cx.touch(i)).collect_into_vec(&mut v);
    Got::Ordered(v)
}
fn lone(n: u32) -> impl IndexedParallelIterator<Item = It> {
    (0..n as usize).into_par_iter().map(|k| It { px: vec![], tag: 1000 + k as u64 })
}
#[inline(never)]
fn merge(v: Vec<It>) -> It {
    let tag = v.iter().fold(7, |a, i| mix2(a, i.tag));
    It { px: v.into_iter().flat_map(|i| i.px).collect(), tag }
}
#[inline(never)]
fn retag((k, mut i): (usize, It)) -> It {
    i.tag = mix2(i.tag, k as u64);
    i
}
fn chain1<I: IndexedParallelIterator<Item = It>>(it: I, op: Op, t: u8, cx: &Cx) -> Got {
    match op {
        Op::Rev => term_short(it.rev(), t, cx),
        Op::Skip(n) => term_short(it.skip(n as usize), t, cx),
        Op::Take(n) => term_short(it.take(n as usize), t, cx),
        Op::Step(n) => term_short(it.step_by(n as usize), t, cx),
        Op::Min(n) => term_short(it.with_min_len(n as usize), t, cx),
        Op::Max(n) => term_short(it.with_max_len(n as usize), t, cx),
        Op::Enum => term_short(it.enumerate().map(retag), t, cx),
        Op::Chunks(n) => term_short(it.chunks(n as usize).map(merge), t, cx),
        Op::ZipRange(n) => term_b(it.zip((0..n as usize).into_par_iter().rev()).map(|(i, k)| retag((k, i))), cx),
        Op::Chain(n) => term_short(it.chain(lone(n)), t, cx),
        Op::Interleave(n) => term_b(it.interleave(lone(n)), cx),
    }
}
fn chain2<I: IndexedParallelIterator<Item = It>>(it: I, ops: (Op, Op), cx: &Cx) -> Got {
    match ops.0 {
        Op::Rev => chain3(it.rev(), ops.1, cx),
        Op::Skip(n) => chain3(it.skip(n as usize), ops.1, cx),
        Op::Take(n) => chain3(it.take(n as usize), ops.1, cx),
        Op::Step(n) => chain3(it.step_by(n as usize), ops.1, cx),
        Op::Chunks(n) => chain3(it.chunks(n as usize).map(merge), ops.1, cx),
        _ => unreachable!(),
    }
}
fn chain3<I: IndexedParallelIterator<Item = It>>(it: I, op: Op, cx: &Cx) -> Got {
    match op {
        Op::Rev => term_b(it.rev(), cx),
        Op::Skip(n) => term_b(it.skip(n as usize), cx),
        Op::Take(n) => term_b(it.take(n as usize), cx),
        Op::Step(n) => term_b(it.step_by(n as usize), cx),
        Op::Chunks(n) => term_b(it.chunks(n as usize).map(merge), cx),
        _ => unreachable!(),
    }
}
fn pairable(op: Op) -> bool {
    matches!(op, Op::Rev | Op::Skip(_) | Op::Take(_) | Op::Step(_) | Op::Chunks(_))
}
/// How much is built for a pixel type and iterator, to keep the program small.
trait Build {
    fn run<I: IndexedParallelIterator<Item = It>>(it: I, ops: &[Op], t: u8, cx: &Cx) -> Got;
    const OPS: usize;
}
struct Full;
struct One;
struct Flat;
impl Build for Full {
    const OPS: usize = 2;
    fn run<I: IndexedParallelIterator<Item = It>>(it: I, ops: &[Op], t: u8, cx: &Cx) -> Got {
        match *ops {
            [a, b] => chain2(it, (a, b), cx),
            [a] => chain1(it, a, t, cx),
            _ => term(it, t, cx),
        }
    }
}
impl Build for One {
    const OPS: usize = 1;
    fn run<I: IndexedParallelIterator<Item = It>>(it: I, ops: &[Op], t: u8, cx: &Cx) -> Got {
        match *ops {
            [a] => chain1(it, a, t, cx),
            _ => term(it, t, cx),
        }
    }
}
impl Build for Flat {
    const OPS: usize = 0;
    fn run<I: IndexedParallelIterator<Item = It>>(it: I, _: &[Op], t: u8, cx: &Cx) -> Got {
        term_short(it, t, cx)
    }
}
fn on_ref<'a, B: Build, P: Sync + 'a, I: IndexedParallelIterator<Item = &'a P>>(it: I, b: &B14, cx: &Cx) -> Got {
    B::run(it.map(|p| item(None, p as *const P as usize, false)), &b.ops, b.term, cx)
}
fn on_mut<'a, B: Build, P: Send + 'a, I: IndexedParallelIterator<Item = &'a mut P>>(it: I, b: &B14, cx: &Cx) -> Got {
    B::run(it.map(|p| item(None, p as *mut P as usize, true)), &b.ops, b.term, cx)
}
fn on_eref<'a, B: Build, P: Sync + 'a, I: IndexedParallelIterator<Item = (u32, u32, &'a P)>>(it: I, b: &B14, cx: &Cx) -> Got {
    B::run(it.map(|(x, y, p)| item(Some((x, y)), p as *const P as usize, false)), &b.ops, b.term, cx)
}
fn on_emut<'a, B: Build, P: Send + 'a, I: IndexedParallelIterator<Item = (u32, u32, &'a mut P)>>(it: I, b: &B14, cx: &Cx) -> Got {
    B::run(it.map(|(x, y, p)| item(Some((x, y)), p as *mut P as usize, true)), &b.ops, b.term, cx)
}
/// what the sequential iterators give: a list of items in order
fn model(n: usize, ops: &[Op]) -> Vec<Rec> {
    let mut v: Vec<Rec> = (0..n as u32).map(|i| Rec { px: vec![i], tag: 0 }).collect();
    let lone = |n: u32| (0..n as u64).map(|k| Rec { px: vec![], tag: 1000 + k });
    for op in ops {
        v = match *op {
            Op::Rev => v.into_iter().rev().collect(),
            Op::Skip(n) => v.into_iter().skip(n as usize).collect(),
            Op::Take(n) => v.into_iter().take(n as usize).collect(),
            Op::Step(n) => v.into_iter().step_by(n as usize).collect(),
            Op::Min(_) | Op::Max(_) => v,
            Op::Enum => v.into_iter().enumerate().map(|(k, r)| Rec { tag: mix2(r.tag, k as u64), ..r }).collect(),
            Op::Chunks(n) => v
                .chunks(n as usize)
                .map(|c| Rec { px: c.iter().flat_map(|r| r.px.clone()).collect(), tag: c.iter().fold(7, |a, i| mix2(a, i.tag)) })
                .collect(),
            Op::ZipRange(n) => v.into_iter().zip((0..n as u64).rev()).map(|(r, k)| Rec { tag: mix2(r.tag, k), ..r }).collect(),
            Op::Chain(n) => v.into_iter().chain(lone(n)).collect(),
            Op::Interleave(n) => {
                let (mut a, mut b) = (v.into_iter(), lone(n));
                let mut o = vec![];
                loop {
                    let (x, y) = (a.next(), b.next());
                    if x.is_none() && y.is_none() {
                        break o;
                    }
                    o.extend(x);
                    o.extend(y);
                }
            }
        };
    }
    v
}

// ------------------------------------------------------------------ execution
fn within<T: Send>(pool: u8, f: impl FnOnce() -> T + Send) -> T {
    if pool == 0 {
        f()
    } else {
        let p = rayon::ThreadPoolBuilder::new().num_threads(pool as usize).build().expect("pool");
        p.install(f)
    }
}
fn bytes_of<S: Copy>(v: &[S]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec()
}
fn cx_of<P: Pixel>(b: &B14, base: usize, samples: &[P::Subpixel], seed: u64) -> Cx {
    let n = (b.w * b.h) as usize;
    let size = std::mem::size_of::<P::Subpixel>() * P::CHANNEL_COUNT as usize;
    Cx {
        base,
        size,
        w: b.w,
        n,
        seed,
        panics: b.panics,
        orig: bytes_of(samples)[..n * size].to_vec(),
        seen: (0..n).map(|_| AtomicU32::new(0)).collect(),
        wrong: Mutex::new(None),
        nested: if b.nested { Some(ImageBuffer::from_fn(7, 5, |x, y| Luma([(x * 31 + y * 17) as u8]))) } else { None },
    }
}
/// judge what happened against the model
fn judge(b: &B14, cx: &Cx, m: &[Rec], got: Result<Got, run::Panicked>, after: &[u8], mutable: bool) {
    if let Some((c, msg)) = cx.wrong.lock().unwrap_or_else(|e| e.into_inner()).take() {
        return run::fail(&c, "", msg);
    }
    let mut want_seen = vec![0u32; cx.n];
    m.iter().for_each(|r| r.px.iter().for_each(|p| want_seen[*p as usize] += 1));
    let will_panic = (0..cx.n).any(|i| want_seen[i] > 0 && cx.panics_at(i));
    let partial = match &got {
        Err(p) => {
            if !p.caller && !p.loc.is_empty() {
                return run::fail("panic", &p.loc, format!("{} at {}", p.msg, p.loc));
            }
            if !will_panic {
                return run::fail("panic", "", "the operation panicked although no closure does".into());
            }
            run::bump("panics_propagated", 1);
            true
        }
        Ok(g) => {
            let short = matches!(g, Got::First(_) | Got::Position(_) | Got::Any(_) | Got::Try(_));
            if will_panic && !short {
                return run::fail("panic-lost", "", "a closure panicked but the operation returned normally".into());
            }
            match g {
                Got::Ordered(v) if v != m => return run::fail("wrong-order", "", differ(v, m)),
                Got::Unordered(v) => {
                    let (mut a, mut w) = (v.clone(), m.to_vec());
                    a.sort();
                    w.sort();
                    if a != w {
                        return run::fail("wrong-items", "", differ(&a, &w));
                    }
                }
                Got::First(f) if !will_panic && f.as_ref() != m.iter().find(|r| cx.pred(r)) => {
                    return run::fail("wrong-first", "", format!("find_first gave {f:?}, the sequential iterator {:?}", m.iter().find(|r| cx.pred(r))))
                }
                Got::Position(f) if !will_panic && *f != m.iter().position(|r| cx.pred(r)) => {
                    return run::fail("wrong-position", "", format!("position_first gave {f:?}, the sequential iterator {:?}", m.iter().position(|r| cx.pred(r))))
                }
                Got::Any(f) => {
                    let ok = match f {
                        None => will_panic || !m.iter().any(|r| cx.pred(r)),
                        Some(r) => cx.pred(r) && m.contains(r),
                    };
                    if !ok {
                        return run::fail("wrong-any", "", format!("find_any gave {f:?}"));
                    }
                }
                Got::Try(ok) if !will_panic && *ok == m.iter().any(|r| cx.pred(r)) => return run::fail("wrong-try", "", format!("try_for_each gave {ok}")),
                Got::Count(l, o, c) if *l != m.len() || *o != Some(m.len()) || *c != m.len() => {
                    // opt_len of a chain is an option by contract, of the bare iterators the length
                    if *l != m.len() || *c != m.len() || o.is_some_and(|o| o != m.len()) || (o.is_none() && b.ops.is_empty()) {
                        return run::fail("wrong-length", "", format!("len {l}, opt_len {o:?}, count {c}; the sequential iterator has {} items", m.len()));
                    }
                }
                _ => {}
            }
            short
        }
    };
    for i in 0..cx.n {
        let s = cx.seen[i].load(Relaxed);
        if s > want_seen[i] || (!partial && s < want_seen[i]) {
            return run::fail("wrong-visits", "", format!("pixel {i} was visited {s} times instead of {}", want_seen[i]));
        }
        let now = &after[i * cx.size..(i + 1) * cx.size];
        let kept = s == 0 || !mutable || (cx.panics_at(i) && !cx.late());
        let want = if kept { cx.orig[i * cx.size..(i + 1) * cx.size].to_vec() } else { cx.fresh(i) };
        if now != &want[..] {
            return run::fail("wrong-image", "", format!("pixel {i} is {now:?} afterwards, expected {want:?}; visited {s} times"));
        }
    }
}
fn differ(a: &[Rec], m: &[Rec]) -> String {
    let k = a.iter().zip(m).position(|(x, y)| x != y).unwrap_or(a.len().min(m.len()));
    format!("{} items, the sequential iterator has {}; item {k} is {:?} instead of {:?}", a.len(), m.len(), a.get(k), m.get(k))
}
fn samples<S: Copy + Default>(n: usize, seed: u64) -> Vec<S> {
    let mut v = vec![S::default(); n];
    let k = std::mem::size_of::<S>();
    let mut r = Rng::new(seed);
    let bytes = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, n * k) };
    bytes.iter_mut().for_each(|b| *b = r.u8());
    v
}
macro_rules! per_pixel {
    ($fun:ident, $p:ty, $ref:ident, $emut:ident) => {
        fn $fun(b: &B14) {
            type S = <$p as Pixel>::Subpixel;
            let n = (b.w * b.h) as usize;
            let ch = <$p as Pixel>::CHANNEL_COUNT as usize;
            let px: Vec<S> = samples(n * ch + b.extra as usize, b.seed);
            if b.src == Src::FromFn {
                let cx = cx_of::<$p>(b, 0, &px, b.seed);
                let f = |x: u32, y: u32| -> $p {
                    if x >= b.w || y >= b.h {
                        cx.wrong("wrong-coordinates", format!("from_par_fn asked for ({x}, {y}) of a {}x{} image", b.w, b.h));
                        return *<$p as Pixel>::from_slice(&px[..ch]);
                    }
                    let i = (y * b.w + x) as usize;
                    simos::point();
                    cx.seen[i].fetch_add(1, Relaxed);
                    if cx.panics_at(i) {
                        std::panic::panic_any(CallerPanic);
                    }
                    let v = *<$p as Pixel>::from_slice(&px[i * ch..(i + 1) * ch]);
                    simos::point();
                    v
                };
                let r = catch(|| within(b.pool, || ImageBuffer::<$p, Vec<S>>::from_par_fn(b.w, b.h, f)));
                let m = model(n, &[]);
                match r {
                    Ok(img) => {
                        if img.dimensions() != (b.w, b.h) {
                            return run::fail("wrong-size", "", format!("from_par_fn gave {:?}", img.dimensions()));
                        }
                        let after = bytes_of(img.as_raw());
                        if after.len() != cx.orig.len() {
                            return run::fail("wrong-size", "", format!("from_par_fn gave {} bytes", after.len()));
                        }
                        judge(b, &cx, &m, Ok(Got::Ordered(m.clone())), &after, false)
                    }
                    Err(p) => judge(b, &cx, &m, Err(p), &cx.orig.clone(), false),
                }
                return;
            }
            let m = model(n, &b.ops);
            if b.src == Src::Join {
                let mut i1 = ImageBuffer::<$p, Vec<S>>::from_raw(b.w, b.h, px.clone()).expect("image");
                let mut i2 = ImageBuffer::<$p, Vec<S>>::from_raw(b.w, b.h, px.clone()).expect("image");
                let c1 = cx_of::<$p>(b, i1.as_raw().as_ptr() as usize, &px, b.seed);
                let c2 = cx_of::<$p>(b, i2.as_raw().as_ptr() as usize, &px, b.seed ^ 2);
                let r = catch(|| {
                    within(b.pool, || {
                        let (a, z) = (&mut i1, &mut i2);
                        rayon::join(
                            || catch(|| on_emut::<$emut, $p, _>(a.par_enumerate_pixels_mut(), b, &c1)),
                            || catch(|| on_mut::<$ref, $p, _>(z.par_pixels_mut(), b, &c2)),
                        )
                    })
                });
                match r {
                    Ok((g1, g2)) => {
                        judge(b, &c1, &m, g1, &bytes_of(i1.as_raw()), true);
                        judge(b, &c2, &m, g2, &bytes_of(i2.as_raw()), true);
                    }
                    Err(p) => run::fail("panic", &p.loc, format!("{} at {}", p.msg, p.loc)),
                }
                return;
            }
            let mut own = px.clone();
            let base = own.as_ptr() as usize;
            let cx = cx_of::<$p>(b, base, &px, b.seed);
            let mutable = matches!(b.src, Src::PixelsMut | Src::EnumMut);
            let got = if b.slice {
                let mut img = ImageBuffer::<$p, &mut [S]>::from_raw(b.w, b.h, &mut own[..]).expect("image");
                catch(|| {
                    within(b.pool, || match b.src {
                        Src::Pixels => on_ref::<$ref, $p, _>(img.par_pixels(), b, &cx),
                        Src::PixelsMut => on_mut::<$ref, $p, _>(img.par_pixels_mut(), b, &cx),
                        Src::Enum => on_eref::<$ref, $p, _>(img.par_enumerate_pixels(), b, &cx),
                        _ => on_emut::<$emut, $p, _>(img.par_enumerate_pixels_mut(), b, &cx),
                    })
                })
            } else {
                let mut img = ImageBuffer::<$p, Vec<S>>::from_raw(b.w, b.h, own).expect("image");
                let r = catch(|| {
                    within(b.pool, || match b.src {
                        Src::Pixels => on_ref::<$ref, $p, _>(img.par_pixels(), b, &cx),
                        Src::PixelsMut => on_mut::<$ref, $p, _>(img.par_pixels_mut(), b, &cx),
                        Src::Enum => on_eref::<$ref, $p, _>(img.par_enumerate_pixels().clone(), b, &cx),
                        _ => on_emut::<$emut, $p, _>(img.par_enumerate_pixels_mut(), b, &cx),
                    })
                });
                own = img.into_raw();
                r
            };
            if bytes_of(&own[n * ch..]) != bytes_of(&px[n * ch..]) {
                return run::fail("wrote-outside", "", "samples behind the image were changed".into());
            }
            let all = bytes_of(&own);
            judge(b, &cx, &m, got, &all[..n * cx.size], mutable)
        }
    };
}
#[inline(never)]
fn item(xy: Option<(u32, u32)>, at: usize, mutable: bool) -> It {
    It { px: vec![Px { xy, at, mutable }], tag: 0 }
}
per_pixel!(rgb8, Rgb<u8>, One, Full);
per_pixel!(luma16, Luma<u16>, Flat, One);
per_pixel!(rgba32f, Rgba<f32>, Flat, Flat);
per_pixel!(lumaa8, LumaA<u8>, Flat, Flat);

pub fn exec14(v: &Value) {
    let mut b = b14(v);
    // chains as long as this pixel type and iterator have been built for
    let max = match (b.pix, b.src) {
        (0, Src::EnumMut) => Full::OPS,
        (0, _) | (1, Src::EnumMut) => One::OPS,
        _ => Flat::OPS,
    };
    b.ops.truncate(max);
    if b.ops.len() == 2 && !b.ops.iter().all(|o| pairable(*o)) {
        b.ops.truncate(1);
    }
    run::set_site(&format!("{:?}", b.src));
    simos::reconfigure(&b.sched);
    let before = simos::stats();
    match b.pix {
        0 => rgb8(&b),
        1 => luma16(&b),
        2 => rgba32f(&b),
        _ => lumaa8(&b),
    }
    let st = simos::stats();
    let desc = format!("{} {}x{} {:?} {:?} {} {}", b.pix, b.w, b.h, b.src, b.ops, b.term, b.pool);
    run::bump(&format!("source_{:?}", b.src), 1);
    run::eval(mix2(hash(desc.as_bytes()), st.trace), st.switches > before.switches + 1);
    run::sample(json!({"image": format!("{}x{}", b.w, b.h), "source": format!("{:?}", b.src), "ops": b.ops, "terminal": b.term, "sched": b.sched,
        "threads": st.threads, "steps": st.steps, "switches": st.switches}));
}
