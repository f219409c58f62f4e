//! C01 delivery independence, C02 source failure, C03 truncation, C04 bounded work,
//! C11 damaged files, C18 independence from memory.
use crate::codec::*;
use crate::input::*;
use crate::rng::{hash, mix2, Rng};
use crate::run::{self, Tier};
use crate::simio::*;
use crate::{alloc, simos};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Plans {
    Auto { seed: u64, n: u32 },
    List(Vec<IoPlan>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Body {
    pub fmt: String,
    pub route: Route,
    pub input: Input,
    pub opt: Opt,
    pub plans: Plans,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sched: Option<simos::SchedCfg>,
}
pub fn body(v: &Value) -> Body {
    serde_json::from_value(v.clone()).expect("scenario body")
}
pub fn to(b: &Body) -> Value {
    serde_json::to_value(b).unwrap()
}

/// cheap formats often, expensive ones now and then
pub fn pick_fmt(r: &mut Rng, heavy: bool) -> &'static str {
    const LIGHT: [&str; 20] = [
        "bmp", "bmp", "tga", "tga", "pnm", "pnm", "hdr", "hdr", "dds", "ico", "ico", "farbfeld", "qoi", "png", "png", "gif", "gif", "webp", "tiff", "tiff",
    ];
    if heavy && r.chance(1, 9) {
        return *r.pick(&["exr", "exr", "jpeg", "jpeg", "avif"]);
    }
    *r.pick(&LIGHT)
}
pub fn pick_route(r: &mut Rng, fmt: &str) -> Route {
    if matches!(fmt, "gif" | "png" | "webp") && r.chance(2, 5) {
        return Route::Frames;
    }
    if matches!(fmt, "bmp" | "hdr" | "exr" | "png" | "webp") && r.chance(1, 6) {
        return *r.pick(&[Route::Special, Route::Special2]);
    }
    *r.pick(&[Route::Reader, Route::Reader, Route::Guess, Route::Load, Route::Boxed, Route::Concrete, Route::Concrete, Route::Open])
}
pub fn base(r: &mut Rng, heavy: bool, max: u32) -> Body {
    let fmt = pick_fmt(r, heavy).to_string();
    let route = pick_route(r, &fmt);
    let mut input = any_input(r, &fmt, max);
    if fmt == "png" && route == Route::Frames {
        if r.chance(4, 5) {
            input = Input::Forge { fmt: "apng".into(), seed: r.u64(), max };
        }
    }
    let opt = Opt { meta: r.chance(3, 4), ..Opt::default() };
    Body { fmt, route, input, opt, plans: Plans::Auto { seed: r.u64(), n: 8 }, sched: None }
}
/// damaged headers may declare any size
const BOUNDED: Option<(Option<u32>, Option<u32>, Option<u64>)> = Some((None, None, Some(64 << 20)));
pub fn shrink(v: &Value) -> Vec<Value> {
    let b = body(v);
    let mut out = vec![];
    if let Plans::List(l) = &b.plans {
        if l.len() > 1 {
            for p in l {
                out.push(to(&Body { plans: Plans::List(vec![p.clone()]), ..b.clone() }));
            }
        }
        if l.len() == 1 {
            for p in shrink_plan(&l[0]) {
                out.push(to(&Body { plans: Plans::List(vec![p]), ..b.clone() }));
            }
        }
    }
    for i in b.input.shrink() {
        out.push(to(&Body { input: i.clone(), ..b.clone() }));
        // positions move with the input: let the plan be drawn again
        for s in 0..2 {
            out.push(to(&Body { input: i.clone(), plans: Plans::Auto { seed: s, n: 24 }, ..b.clone() }));
        }
    }
    if b.opt.meta {
        out.push(to(&Body { opt: Opt { meta: false, ..b.opt.clone() }, ..b.clone() }));
    }
    out
}
pub fn shrink_plan(p: &IoPlan) -> Vec<IoPlan> {
    let mut v = vec![];
    if p.faults.len() > 1 {
        for i in 0..p.faults.len() {
            let mut q = p.clone();
            q.faults.remove(i);
            v.push(q);
        }
    }
    if p.eintr > 0 {
        v.push(IoPlan { eintr: 0, ..p.clone() });
    }
    if p.window != 0 && p.window != u32::MAX {
        v.push(IoPlan { window: u32::MAX, ..p.clone() });
    }
    for c in [Chunk::Whole, Chunk::AtMost(1), Chunk::AtMost(2), Chunk::AtMost(3)] {
        if p.chunk != c {
            let rank = |c: &Chunk| match c {
                Chunk::Whole => 0u32,
                Chunk::AtMost(n) => *n,
                Chunk::Rand(n) => 100_000 + n,
                Chunk::Rare(n) => 200_000 + n,
            };
            if rank(&c) < rank(&p.chunk) {
                v.push(IoPlan { chunk: c, ..p.clone() });
            }
        }
    }
    for (i, f) in p.faults.iter().enumerate() {
        if f.kind != 0 {
            let mut q = p.clone();
            q.faults[i].kind = 0;
            v.push(q);
        }
        if f.persistent {
            let mut q = p.clone();
            q.faults[i].persistent = false;
            v.push(q);
        }
    }
    v
}

// ------------------------------------------------------------------ plan generators
pub fn delivery(r: &mut Rng) -> IoPlan {
    let chunk = match r.below(8) {
        0 => Chunk::AtMost(1),
        1 => Chunk::AtMost(r.range(2, 9) as u32),
        2 => Chunk::AtMost(r.range(10, 700) as u32),
        3 | 4 => Chunk::Rand(r.range(2, 40) as u32),
        5 => Chunk::Rand(r.range(2, 3000) as u32),
        6 => Chunk::Rare(r.range(20, 500) as u32),
        _ => Chunk::Whole,
    };
    let window = match r.below(6) {
        0 => 1,
        1 => r.range(2, 20) as u32,
        2 => r.range(20, 3000) as u32,
        3 => u32::MAX,
        _ => 0,
    };
    let eintr = match r.below(4) {
        0 => r.range(1, 100) as u32,
        1 => r.range(100, 500) as u32,
        _ => 0,
    };
    IoPlan { seed: r.u64(), chunk, window, eintr, ..IoPlan::default() }
}
pub fn kind(r: &mut Rng) -> u8 {
    r.below(KINDS.len() as u64) as u8
}
/// Fault position chosen knowing how many operations the healthy run made.
pub fn read_fault(r: &mut Rng, st: &IoStats, len: u64) -> Fault {
    let persistent = r.chance(1, 2);
    let kind = kind(r);
    let (when, class) = match r.below(6) {
        0 | 1 => (When::Byte(r.below(len + 1)), Class::Data),
        2 => (When::Op(r.below(st.data_ops + 1)), Class::Data),
        3 if st.seek_ops > 0 => (When::Op(r.below(st.seek_ops)), Class::Seek),
        4 => (When::Byte(len.saturating_sub(r.below(len.min(24) + 1))), Class::Data),
        _ => (When::Op(r.below(st.ops + 1)), Class::Any),
    };
    Fault { when, class, kind, persistent }
}

struct Prep {
    b: Body,
    data: Rc<Vec<u8>>,
    h: u64,
    refr: DecodeRun,
}
fn budget(len: usize, out: u64) -> u64 {
    20_000 + 64 * len as u64 + 8 * out.min(MAX_OUT)
}
fn prep(v: &Value, keep: bool) -> Prep {
    let b = body(v);
    run::set_site(&format!("{}|{:?}", b.fmt, b.route));
    let data = Rc::new(b.input.bytes());
    run::ops_budget(4_000_000, "(fault-free)");
    let refr = decode(&b.fmt, b.route, &data, &cursor_plan(), &b.opt, keep);
    run::bump(&format!("fmt_{}", b.fmt), 1);
    run::bump(if refr.out.end.ok() { "ref_ok" } else { "ref_err" }, 1);
    run::digest(refr.out.key());
    Prep { h: hash(&data), b, data, refr }
}
impl Prep {
    fn plans(&self, mut g: impl FnMut(&mut Rng, u32) -> IoPlan) -> Vec<IoPlan> {
        match &self.b.plans {
            Plans::List(l) => l.clone(),
            Plans::Auto { seed, n } => {
                let mut r = Rng::new(*seed);
                (0..*n).map(|i| g(&mut r, i)).collect()
            }
        }
    }
    fn exec(&self, p: &IoPlan) -> DecodeRun {
        run::concrete(to(&Body { plans: Plans::List(vec![p.clone()]), ..self.b.clone() }));
        let d = decode(&self.b.fmt, self.b.route, &self.data, p, &self.b.opt, false);
        run::io(&d.st, "read");
        run::digest(d.out.key());
        d
    }
    fn note(&self, p: &IoPlan, d: &DecodeRun) {
        run::sample(json!({"format": self.b.fmt, "route": format!("{:?}", self.b.route), "input": self.b.input.describe(),
            "stream_bytes": self.data.len(), "plan": p, "reference": self.refr.out.short(), "observed": d.out.short()}));
    }
}

// ------------------------------------------------------------------ C01
pub fn gen01(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let max = if t == Tier::Thorough && r.chance(1, 4) { 200 } else { 48 };
    let mut b = base(r, true, max);
    if r.chance(1, 8) {
        let n = r.range(1, 2) as usize;
        let len = b.input.bytes().len();
        b.input = Input::Mut { base: Box::new(b.input), edits: edits(r, &b.fmt, len, n) };
        b.opt.limits = BOUNDED;
    }
    b.plans = Plans::Auto { seed: r.u64(), n: if matches!(b.fmt.as_str(), "avif" | "exr") { 3 } else { 8 } };
    to(&b)
}
/// whether the stream is parsed by a codec crate that does not retry interrupted reads
pub fn lenient(fmt: &str, data: &[u8]) -> bool {
    match fmt {
        "gif" | "png" | "webp" | "exr" => true,
        // only the PNG images in it
        "ico" => data.windows(4).any(|w| w == b"\x89PNG"),
        _ => false,
    }
}
pub fn exec01(v: &Value) {
    let p = prep(v, false);
    for pl in p.plans(|r, i| match i {
        0 => IoPlan { seed: r.u64(), chunk: Chunk::AtMost(1), window: 1, ..IoPlan::default() },
        1 => IoPlan { seed: r.u64(), chunk: Chunk::AtMost(1), window: 0, eintr: 300, ..IoPlan::default() },
        _ => delivery(r),
    }) {
        run::ops_budget(8_000_000, "");
        let d = p.exec(&pl);
        run::eval(case(p.h, &p.b.fmt, p.b.route, d.st.trace), d.st.short + d.st.eintr > 0);
        // an interruption that a codec crate chooses to report is an error, not a different image
        let reported = d.st.eintr > 0 && lenient(&p.b.fmt, &p.data) && matches!(d.out.end, End::Err(..)) && prefix_ok(&d.out, &p.refr.out).is_none();
        // two failures may differ in how many frames came out before, never in the frames themselves
        let both_fail = !d.out.end.ok() && !p.refr.out.end.ok() && (prefix_ok(&d.out, &p.refr.out).is_none() || prefix_ok(&p.refr.out, &d.out).is_none());
        if !reported && !both_fail && !d.out.same(&p.refr.out) {
            run::fail(
                "delivery-dependence",
                &format!(
                    "{}{}{}",
                    if d.st.eintr > 0 { "eintr" } else { "short" },
                    if matches!(p.b.input, Input::Mut { .. }) { "-damaged" } else { "" },
                    if d.out.end.ok() != p.refr.out.end.ok() { "-refusal" } else { "" }
                ),
                format!("delivered in one piece: {}\nwith plan {pl:?}: {}", p.refr.out.short(), d.out.short()),
            );
        }
        p.note(&pl, &d);
    }
}

// ------------------------------------------------------------------ C02
pub fn gen02(r: &mut Rng, _i: u64, _t: Tier) -> Value {
    let mut b = base(r, true, 40);
    b.plans = Plans::Auto { seed: r.u64(), n: if matches!(b.fmt.as_str(), "avif" | "exr") { 6 } else { 24 } };
    to(&b)
}
fn prefix_ok(o: &Outcome, full: &Outcome) -> Option<usize> {
    (0..o.frames.len()).find(|&i| full.frames.get(i) != Some(&o.frames[i]))
}
pub fn exec02(v: &Value) {
    let p = prep(v, false);
    if !p.refr.out.end.ok() {
        run::eval(0, false);
        return;
    }
    let n = p.data.len() as u64;
    for pl in p.plans(|r, _| {
        let mut q = if r.chance(1, 2) { cursor_plan() } else { delivery(r) };
        q.eintr = 0;
        q.seed = r.u64();
        q.faults.push(read_fault(r, &p.refr.st, n));
        if r.chance(1, 5) {
            q.faults.push(read_fault(r, &p.refr.st, n));
        }
        for f in &mut q.faults {
            // an "unexpected end of file" is a source saying that it ends here: that is C03
            if KINDS[f.kind as usize].2 == "unexpected-eof" {
                f.kind = 0;
            }
        }
        q
    }) {
        run::ops_budget(budget(p.data.len(), p.refr.out.bytes), "");
        let d = p.exec(&pl);
        let hit = d.st.hard > 0;
        run::eval(case(p.h, &p.b.fmt, p.b.route, d.st.trace), hit);
        match &d.out.end {
            End::Panic(m, l) => run::fail("panic-on-source-failure", l, format!("{m} at {l}; plan {pl:?}")),
            End::Ok if hit && !d.out.same(&p.refr.out) => run::fail(
                "failure-hidden",
                "",
                format!("a source operation failed, yet success was reported with a different result\nhealthy: {}\nplan {pl:?}: {}", p.refr.out.short(), d.out.short()),
            ),
            _ => {}
        }
        if let Some(i) = prefix_ok(&d.out, &p.refr.out) {
            run::fail("wrong-frame-before-error", "", format!("frame {i} delivered before the failure differs; plan {pl:?}\nhealthy: {}\ngot: {}", p.refr.out.short(), d.out.short()));
        }
        p.note(&pl, &d);
    }
}

// ------------------------------------------------------------------ C03
pub fn gen03(r: &mut Rng, _i: u64, _t: Tier) -> Value {
    let mut b = base(r, true, 40);
    while b.fmt == "jpeg" {
        b = base(r, true, 40);
    }
    b.plans = Plans::Auto { seed: r.u64(), n: if matches!(b.fmt.as_str(), "avif" | "exr") { 6 } else { 30 } };
    to(&b)
}
/// A plain (text) PNM raster has no terminator: with every sample at least begun, a file that
/// ends inside the last one is a complete file with another last sample.
fn last_token_cut(p: &Prep, at: u64) -> bool {
    if p.b.fmt != "pnm" || !(p.data.starts_with(b"P2") || p.data.starts_with(b"P3")) {
        return false;
    }
    let mut text = vec![];
    let mut comment = false;
    for &c in &p.data[..at as usize] {
        comment = (comment || c == b'#') && c != b'\n' && c != b'\r';
        if !comment {
            text.push(c);
        }
    }
    let samples = p.refr.out.dims.0 as usize * p.refr.out.dims.1 as usize * if p.data[1] == b'3' { 3 } else { 1 };
    text.split(|c| c.is_ascii_whitespace() || *c == 0x0b).filter(|t| !t.is_empty()).count() >= 4 + samples
}
pub fn exec03(v: &Value) {
    let p = prep(v, false);
    if !p.refr.out.end.ok() {
        run::eval(0, false);
        return;
    }
    let n = p.data.len() as u64;
    for pl in p.plans(|r, i| {
        let at = match (i, r.below(4)) {
            (0, _) => n - 1,
            (1, _) => 0,
            (_, 0) => n.saturating_sub(r.range(1, 40)),
            (_, 1) => r.below(n.min(80)),
            _ => r.below(n),
        };
        let mut q = if r.chance(2, 3) { cursor_plan() } else { delivery(r) };
        q.eintr = 0;
        q.seed = r.u64();
        q.truncate = Some(at);
        q
    }) {
        run::ops_budget(budget(p.data.len(), p.refr.out.bytes), "");
        let d = p.exec(&pl);
        run::bump("truncations", 1);
        run::eval(case(mix2(p.h, pl.truncate.unwrap_or(0)), &p.b.fmt, p.b.route, d.st.trace), d.st.eof_reads > 0 || !d.out.end.ok());
        match &d.out.end {
            End::Panic(m, l) => run::fail("panic-on-truncation", l, format!("{m} at {l}; plan {pl:?}")),
            End::Ok if last_token_cut(&p, pl.truncate.unwrap_or(n)) => {}
            End::Ok if p.b.route != Route::Frames && d.out.content() != p.refr.out.content() => run::fail(
                "truncated-accepted",
                if d.out.pix != p.refr.out.pix { "pixels" } else { "metadata" },
                format!("{} of {n} bytes present, success reported\ncomplete: {}\ntruncated: {}", pl.truncate.unwrap(), p.refr.out.short(), d.out.short()),
            ),
            _ => {}
        }
        if let Some(i) = prefix_ok(&d.out, &p.refr.out) {
            run::fail("truncated-frame-differs", "", format!("frame {i} from {} of {n} bytes differs from the complete file's\ncomplete: {}\ntruncated: {}", pl.truncate.unwrap(), p.refr.out.short(), d.out.short()));
        }
        p.note(&pl, &d);
    }
}

// ------------------------------------------------------------------ C04
pub fn gen04(r: &mut Rng, _i: u64, _t: Tier) -> Value {
    let mut b = base(r, true, 40);
    if r.chance(1, 12) {
        b.route = Route::Dims;
    }
    if r.chance(1, 2) {
        let n = r.range(1, 4) as usize;
        let len = b.input.bytes().len();
        b.input = Input::Mut { base: Box::new(b.input), edits: edits(r, &b.fmt, len, n) };
        b.opt.limits = BOUNDED;
    }
    b.plans = Plans::Auto { seed: r.u64(), n: if matches!(b.fmt.as_str(), "avif" | "exr") { 4 } else { 16 } };
    to(&b)
}
pub fn exec04(v: &Value) {
    let b = body(v);
    run::set_site(&format!("{}|{:?}", b.fmt, b.route));
    let data = Rc::new(b.input.bytes());
    let h = hash(&data);
    run::bump(&format!("fmt_{}", b.fmt), 1);
    let n = data.len() as u64;
    // the image size that bounds the work: from a probe, itself bounded
    run::concrete(to(&Body { plans: Plans::List(vec![cursor_plan()]), route: Route::Dims, ..b.clone() }));
    run::ops_budget(budget(data.len(), 0), "(probe)");
    let probe = decode(&b.fmt, Route::Dims, &data, &cursor_plan(), &b.opt, false);
    let area = if probe.out.end.ok() { probe.out.dims.0 as u64 * probe.out.dims.1 as u64 } else { 0 };
    let bound = budget(data.len(), (area * 4).min(4 << 20));
    let mut refst = probe.st.clone();
    refst.data_ops = refst.data_ops.max(20);
    refst.ops = refst.ops.max(20);
    let list = match &b.plans {
        Plans::List(l) => l.clone(),
        Plans::Auto { seed, n: k } => {
            let mut r = Rng::new(*seed);
            (0..*k)
                .map(|i| {
                    let mut q = if r.chance(1, 2) { cursor_plan() } else { delivery(&mut r) };
                    q.eintr = 0;
                    q.seed = r.u64();
                    match i % 4 {
                        0 => q.truncate = Some(r.below(n + 1)),
                        1 if i < 4 => {}
                        _ => {
                            let mut f = read_fault(&mut r, &refst, n.max(1));
                            f.persistent = true;
                            q.faults.push(f);
                        }
                    }
                    q
                })
                .collect()
        }
    };
    for pl in list {
        run::concrete(to(&Body { plans: Plans::List(vec![pl.clone()]), ..b.clone() }));
        run::ops_budget(bound, &format!("(bound {bound} for {n} bytes and {area} pixels)"));
        let d = decode(&b.fmt, b.route, &data, &pl, &b.opt, false);
        run::io(&d.st, "read");
        run::eval(case(h, &b.fmt, b.route, d.st.trace), d.st.hard > 0 || d.st.eof_reads > 0);
        run::bump("ops_observed", run::ops());
        if b.route == Route::Frames && d.out.frames.len() as u64 > n {
            run::fail("unbounded-frames", "", format!("{} frames from {n} bytes", d.out.frames.len()));
        }
        run::sample(json!({"format": b.fmt, "route": format!("{:?}", b.route), "input": b.input.describe(), "plan": pl, "operations": run::ops(), "bound": bound,
            "observed": d.out.short()}));
    }
}

// ------------------------------------------------------------------ C11
pub fn gen11(r: &mut Rng, _i: u64, _t: Tier) -> Value {
    let mut b = base(r, true, 32);
    let n = match r.below(4) {
        0 => 1,
        1 => 2,
        2 => r.range(1, 6),
        _ => r.range(3, 24),
    } as usize;
    let len = b.input.bytes().len();
    b.input = Input::Mut { base: Box::new(b.input), edits: edits(r, &b.fmt, len, n) };
    b.plans = Plans::Auto { seed: r.u64(), n: if matches!(b.fmt.as_str(), "avif" | "exr") { 1 } else { 3 } };
    to(&b)
}
pub fn exec11(v: &Value) {
    let b = body(v);
    run::set_site(&format!("{}|{:?}", b.fmt, b.route));
    run::bump(&format!("fmt_{}", b.fmt), 1);
    let list: Vec<(Input, IoPlan)> = match &b.plans {
        Plans::List(l) => l.iter().map(|p| (b.input.clone(), p.clone())).collect(),
        Plans::Auto { seed, n } => {
            let mut r = Rng::new(*seed);
            let mut v = vec![];
            for k in 0..*n * 6 {
                // several damaged variants of the same file per run
                let mut inp = b.input.clone();
                if k >= *n {
                    if let Input::Mut { base, .. } = &b.input {
                        let len = base.bytes().len();
                        let m = if r.chance(1, 2) { 1 } else { r.range(1, 6) } as usize;
                        inp = Input::Mut { base: base.clone(), edits: edits(&mut r, &b.fmt, len, m) };
                    }
                }
                let mut q = if r.chance(2, 3) { cursor_plan() } else { delivery(&mut r) };
                q.eintr = 0;
                q.seed = r.u64();
                if r.chance(1, 4) {
                    let n = b.input.bytes().len() as u64;
                    q.faults.push(Fault { when: When::Byte(r.below(n + 1)), class: Class::Data, kind: kind(&mut r), persistent: r.chance(1, 2) });
                }
                v.push((inp, q));
            }
            v
        }
    };
    alloc::REFUSE_ABOVE.store(1 << 30, std::sync::atomic::Ordering::Relaxed);
    for (inp, pl) in list {
        let data = Rc::new(inp.bytes());
        // the limits are part of every decode here: allocations beyond them are refused (C10)
        let opt = Opt { limits: Some((None, None, Some(64 << 20))), ..b.opt.clone() };
        run::cpu_limit(if b.fmt == "avif" { 25 } else { 10 });
        run::concrete(to(&Body { input: inp.clone(), plans: Plans::List(vec![pl.clone()]), ..b.clone() }));
        run::ops_budget(8_000_000, "");
        let d = decode(&b.fmt, b.route, &data, &pl, &opt, false);
        run::io(&d.st, "read");
        run::bump("damaged_streams", 1);
        run::bump(if d.out.end.ok() { "still_decoded" } else { "refused" }, 1);
        run::digest(d.out.key());
        run::eval(mix2(hash(&data), d.st.trace), true);
        if let End::Panic(m, l) = &d.out.end {
            run::fail("panic", l, format!("{m} at {l}"));
        }
        run::sample(json!({"format": b.fmt, "route": format!("{:?}", b.route), "input": inp, "plan": pl, "observed": d.out.short()}));
    }
}

// ------------------------------------------------------------------ C18
pub fn gen18(r: &mut Rng, _i: u64, _t: Tier) -> Value {
    let mut b = base(r, true, 64);
    if b.route == Route::Open || (b.route == Route::Reader && r.chance(2, 3)) {
        b.route = *r.pick(&[Route::Concrete, Route::Boxed]);
    }
    if r.chance(1, 6) {
        let len = b.input.bytes().len();
        b.input = Input::Mut { base: Box::new(b.input), edits: edits(r, &b.fmt, len, 1) };
        b.opt.limits = BOUNDED;
    }
    b.plans = Plans::Auto { seed: r.u64(), n: if matches!(b.fmt.as_str(), "avif" | "exr") { 3 } else { 8 } };
    to(&b)
}
pub fn exec18(v: &Value) {
    use std::sync::atomic::Ordering::Relaxed;
    let p = prep(v, false);
    // the plan's seed decides the memory conditions, so that a plan is a complete description
    for pl in p.plans(|r, _| IoPlan { seed: r.u64(), ..cursor_plan() }) {
        let mut r = Rng::new(pl.seed);
        let fill = *r.pick(&[0x00u8, 0xFF, 0x5A, 0xA5, 0x80]);
        let mis = r.below(16) as u8;
        let poison = *r.pick(&[0u8, 0x11, 0xFF, 0xC3, 0x7F]);
        let misalign = r.chance(1, 2);
        let opt = Opt { fill, mis, ..p.b.opt.clone() };
        run::concrete(to(&Body { plans: Plans::List(vec![pl.clone()]), ..p.b.clone() }));
        run::ops_budget(8_000_000, "");
        alloc::POISON.store(poison as usize, Relaxed);
        alloc::MISALIGN.store(misalign, Relaxed);
        let d = decode(&p.b.fmt, p.b.route, &p.data, &pl, &opt, false);
        alloc::POISON.store(0, Relaxed);
        alloc::MISALIGN.store(false, Relaxed);
        run::io(&d.st, "read");
        run::bump("stale_memory_runs", (poison != 0) as u64);
        run::bump("minimal_alignment_runs", misalign as u64);
        run::bump("unaligned_caller_buffer_runs", (mis % 8 != 0) as u64);
        run::bump("dirty_caller_buffer_runs", (fill != 0) as u64);
        run::digest(d.out.key());
        run::eval(mix2(mix2(p.h, p.b.route as u64), mix2(fill as u64 | (mis as u64) << 8 | (poison as u64) << 16, misalign as u64)), d.out.end.ok());
        if !d.out.same(&p.refr.out) {
            run::fail(
                "memory-dependence",
                "",
                format!("buffer fill {fill:#x} at alignment offset {mis}, stale memory {poison:#x}, minimal alignment {misalign}:\nclean: {}\nthus:  {}", p.refr.out.short(), d.out.short()),
            );
        }
        run::sample(json!({"format": p.b.fmt, "route": format!("{:?}", p.b.route), "input": p.b.input.describe(), "fill": fill, "misalignment": mis, "stale": poison,
            "minimal_alignment": misalign, "observed": d.out.short()}));
    }
}
