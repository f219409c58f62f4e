//! C16: independent operations on several threads, one after another, and one inside another,
//! each compared with the same operation run alone in a process of its own.
use crate::codec::*;
use crate::enc::*;
use crate::input::*;
use crate::p_par::{any_sched, shrink_sched};
use crate::p_read::{delivery, pick_fmt, read_fault, shrink_plan};
use crate::rng::{hash, mix2, Hasher, Rng};
use crate::run::{self, catch, Tier};
use crate::simio::*;
use crate::simos::{self, Policy, SchedCfg, SimFs};
use image::{imageops, DynamicImage, GenericImage, GenericImageView, ImageDecoder, ImageReader, ImageResult, Luma, Pixel, Rgba, RgbaImage};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::Arc;

/// an image made from a seed
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Img {
    pub col: Col,
    pub w: u32,
    pub h: u32,
    pub seed: u64,
}
impl Img {
    fn job(&self) -> Job {
        Job { enc: Enc::Tiff, w: self.w, h: self.h, col: self.col, seed: self.seed, route: WRoute::Encoder, icc: 0, buf: 0 }
    }
    fn make(&self) -> DynamicImage {
        let j = self.job();
        j.dynimg(&j.pixels()).unwrap()
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// decode; the caller's reader panics at operation `panic_at`
    Dec { fmt: String, input: Input, route: Route, plan: IoPlan, panic_at: Option<u64> },
    Enc { job: Job, plan: IoPlan, panic_at: Option<u64> },
    /// image::open / DynamicImage::save on the simulated disk
    FOpen { fmt: String, input: Input },
    FSave { job: Job },
    /// a transformation; `shared`: of the image all threads hold a reference to
    Tf { kind: u8, img: Img, shared: bool, p: [u32; 3] },
    /// a decoder or frame iterator abandoned after `n` frames (0: after the metadata), dropped or leaked
    Partial { fmt: String, input: Input, plan: IoPlan, n: u32, frames: bool, leak: bool },
    /// a reader that carries out another operation at its operation `at`
    Nest { fmt: String, input: Input, route: Route, at: u64, inner: Box<Op> },
}
pub const KINDS_TF: u8 = 41;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B16 {
    pub lists: Vec<Vec<Op>>,
    pub shared: Img,
    pub sched: SchedCfg,
}
fn b16(v: &Value) -> B16 {
    serde_json::from_value(v.clone()).expect("scenario body")
}

// ------------------------------------------------------------------ generation
fn any_img(r: &mut Rng, max: u32) -> Img {
    let d = |r: &mut Rng| if r.chance(1, 6) { r.range(1, 3) as u32 } else { r.range(1, max as u64) as u32 };
    Img { col: *r.pick(&ALL_COLS), w: d(r), h: d(r), seed: r.u64() }
}
/// what the operations of one run have in common: state shared by accident is most likely to be
/// shared by operations of a kind
struct Theme {
    fmt: String,
    kind: u8,
    mix: u64,
    max: u32,
    input: Option<Input>,
}
fn any_plan(r: &mut Rng, input: &Input) -> IoPlan {
    let mut p = if r.chance(1, 2) { cursor_plan() } else { delivery(r) };
    p.eintr = 0;
    p.seed = r.u64();
    if r.chance(1, 5) {
        let len = input.bytes().len() as u64;
        let st = IoStats { ops: len / 3 + 4, data_ops: len / 3 + 3, seek_ops: 3, ..IoStats::default() };
        p.faults.push(read_fault(r, &st, len));
    }
    p
}
fn themed_input(r: &mut Rng, t: &Theme, fmt: &str) -> Input {
    if let Some(i) = &t.input {
        if fmt == t.fmt && r.chance(1, 3) {
            return i.clone();
        }
    }
    let mut i = any_input(r, fmt, t.max);
    if fmt == "png" && r.chance(1, 3) {
        i = Input::Forge { fmt: "apng".into(), seed: r.u64(), max: t.max };
    }
    if r.chance(1, 5) {
        let n = r.range(1, 4) as usize;
        let len = i.bytes().len();
        i = Input::Mut { base: Box::new(i), edits: edits(r, fmt, len, n) };
    }
    i
}
fn any_op(r: &mut Rng, t: &Theme, depth: u32) -> Op {
    let fmt = if r.chance(3, 4) { t.fmt.clone() } else { pick_fmt(r, r.0 % 3 == 0).to_string() };
    // the mix of a run leans to decoding, encoding, transforming or everything
    let k = match t.mix {
        0 => *r.pick(&[0u64, 0, 1, 6, 8, 9]),
        1 => *r.pick(&[3u64, 3, 4, 7]),
        2 => 5,
        _ => r.below(10),
    };
    match k {
        3 | 4 | 7 => {
            let mut job = any_job(r, true, t.max);
            for _ in 0..12 {
                if r.chance(1, 4) || job.enc.fmt() == fmt {
                    break;
                }
                job = any_job(r, true, t.max);
            }
            if matches!(job.enc, Enc::Avif { .. }) {
                job = Job { enc: Enc::Qoi, col: Col::Rgba8, icc: 0, ..job };
            }
            if job.route.file() || k == 7 {
                if job.col == Col::L1 || matches!(job.enc, Enc::Pnm { .. }) {
                    job = Job { enc: Enc::Png { comp: 0, filter: 5 }, col: Col::Rgb8, icc: 0, ..job };
                }
                job.route = WRoute::DynSave;
                return Op::FSave { job };
            }
            let mut plan = if r.chance(1, 2) { cursor_plan() } else { delivery(r) };
            plan.eintr = 0;
            plan.seed = r.u64();
            if r.chance(1, 6) {
                plan.faults.push(Fault { when: When::Op(r.skewed(60)), class: Class::Any, kind: r.below(10) as u8, persistent: r.chance(1, 2) });
            }
            let panic_at = if r.chance(1, 6) { Some(r.skewed(40)) } else { None };
            Op::Enc { job, plan, panic_at }
        }
        5 => {
            let kind = if r.chance(3, 4) { t.kind } else { r.below(KINDS_TF as u64) as u8 };
            Op::Tf { kind, img: any_img(r, t.max), shared: r.chance(1, 4), p: [r.u64() as u32, r.u64() as u32, r.u64() as u32] }
        }
        6 => {
            let input = themed_input(r, t, &fmt);
            Op::FOpen { fmt, input }
        }
        8 => {
            let input = themed_input(r, t, &fmt);
            let plan = any_plan(r, &input);
            let frames = matches!(fmt.as_str(), "gif" | "png" | "webp") && r.chance(2, 3);
            Op::Partial { fmt, input, plan, n: r.below(4) as u32, frames, leak: r.chance(1, 3) }
        }
        9 if depth > 0 => {
            let input = themed_input(r, t, &fmt);
            let mut inner = any_op(r, t, depth - 1);
            if matches!(inner, Op::Tf { shared: true, .. }) {
                inner = Op::Tf { kind: 0, img: any_img(r, 9), shared: false, p: [0; 3] };
            }
            if r.chance(1, 2) {
                // of the same kind, within the pixel data
                let input = themed_input(r, t, &fmt);
                inner = Op::Dec { route: any_route(r, &fmt), fmt: fmt.clone(), input, plan: cursor_plan(), panic_at: None };
            }
            let at = if r.chance(1, 2) { r.skewed(30) } else { r.below(80) };
            Op::Nest { route: any_route(r, &fmt), fmt, input, at, inner: Box::new(inner) }
        }
        _ => {
            let input = themed_input(r, t, &fmt);
            let plan = any_plan(r, &input);
            let panic_at = if r.chance(1, 6) { Some(r.skewed(60)) } else { None };
            Op::Dec { route: any_route(r, &fmt), fmt, input, plan, panic_at }
        }
    }
}
fn any_route(r: &mut Rng, fmt: &str) -> Route {
    if matches!(fmt, "gif" | "png" | "webp") && r.chance(1, 3) {
        return Route::Frames;
    }
    if matches!(fmt, "bmp" | "hdr" | "exr" | "png" | "webp") && r.chance(1, 6) {
        return *r.pick(&[Route::Special, Route::Special2]);
    }
    *r.pick(&[Route::Reader, Route::Guess, Route::Load, Route::Boxed, Route::Concrete, Route::Dims])
}
pub fn gen16(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let fmt = pick_fmt(r, true).to_string();
    let max = *r.pick(&[3u32, 8, 12, 20, if tier == Tier::Thorough { 70 } else { 33 }]);
    let mut t = Theme { fmt, kind: r.below(KINDS_TF as u64) as u8, mix: r.below(7), max, input: None };
    t.input = Some(themed_input(r, &t, &t.fmt));
    let threads = *r.pick(&[1usize, 1, 2, 2, 2, 3, 3, 4]);
    let lists = (0..threads)
        .map(|_| {
            let n = r.range(1, if threads == 1 { 5 } else { 3 });
            (0..n).map(|_| any_op(r, &t, 2)).collect()
        })
        .collect();
    let mut sched = any_sched(r);
    if r.chance(1, 2) {
        sched.policy = Policy::Random(*r.pick(&[100u32, 300, 600, 1000]));
    }
    serde_json::to_value(B16 { lists, shared: any_img(r, max), sched }).unwrap()
}
fn simpler(o: &Op) -> Vec<Op> {
    let mut v = vec![];
    match o {
        Op::Dec { fmt, input, route, plan, panic_at } => {
            for i in input.shrink() {
                v.push(Op::Dec { fmt: fmt.clone(), input: i, route: *route, plan: plan.clone(), panic_at: *panic_at });
            }
            if panic_at.is_some() {
                v.push(Op::Dec { fmt: fmt.clone(), input: input.clone(), route: *route, plan: plan.clone(), panic_at: None });
            }
            for p in shrink_plan(plan) {
                v.push(Op::Dec { fmt: fmt.clone(), input: input.clone(), route: *route, plan: p, panic_at: *panic_at });
            }
        }
        Op::Enc { job, plan, panic_at } => {
            for j in shrink_job(job) {
                v.push(Op::Enc { job: j, plan: plan.clone(), panic_at: *panic_at });
            }
            if panic_at.is_some() {
                v.push(Op::Enc { job: job.clone(), plan: plan.clone(), panic_at: None });
            }
            for p in shrink_plan(plan) {
                v.push(Op::Enc { job: job.clone(), plan: p, panic_at: *panic_at });
            }
        }
        Op::FOpen { fmt, input } => {
            for i in input.shrink() {
                v.push(Op::FOpen { fmt: fmt.clone(), input: i });
            }
        }
        Op::FSave { job } => {
            for j in shrink_job(job) {
                v.push(Op::FSave { job: j });
            }
        }
        Op::Tf { kind, img, shared, p } => {
            for j in shrink_job(&img.job()) {
                v.push(Op::Tf { kind: *kind, img: Img { w: j.w, h: j.h, seed: j.seed, ..img.clone() }, shared: *shared, p: *p });
            }
            if *shared {
                v.push(Op::Tf { kind: *kind, img: img.clone(), shared: false, p: *p });
            }
        }
        Op::Partial { fmt, input, plan, n, frames, leak } => {
            for i in input.shrink() {
                v.push(Op::Partial { fmt: fmt.clone(), input: i, plan: plan.clone(), n: *n, frames: *frames, leak: *leak });
            }
            for p in shrink_plan(plan) {
                v.push(Op::Partial { fmt: fmt.clone(), input: input.clone(), plan: p, n: *n, frames: *frames, leak: *leak });
            }
        }
        Op::Nest { fmt, input, route, at, inner } => {
            v.push((**inner).clone());
            v.push(Op::Dec { fmt: fmt.clone(), input: input.clone(), route: *route, plan: cursor_plan(), panic_at: None });
            for i in input.shrink() {
                v.push(Op::Nest { fmt: fmt.clone(), input: i, route: *route, at: *at, inner: inner.clone() });
            }
            for i in simpler(inner) {
                v.push(Op::Nest { fmt: fmt.clone(), input: input.clone(), route: *route, at: *at, inner: Box::new(i) });
            }
            for a in 0..(*at).min(3) {
                v.push(Op::Nest { fmt: fmt.clone(), input: input.clone(), route: *route, at: a, inner: inner.clone() });
            }
        }
    }
    v
}
pub fn shrink16(v: &Value) -> Vec<Value> {
    let b = b16(v);
    let mut out = vec![];
    let mut push = |b: B16| out.push(serde_json::to_value(b).unwrap());
    for i in 0..b.lists.len() {
        if b.lists.len() > 1 {
            let mut l = b.lists.clone();
            l.remove(i);
            push(B16 { lists: l, ..b.clone() });
            if i > 0 {
                // one after the other instead of at the same time
                let mut l = b.lists.clone();
                let mut x = l.remove(i);
                l[0].append(&mut x);
                push(B16 { lists: l, ..b.clone() });
            }
        }
        for k in 0..b.lists[i].len() {
            if b.lists[i].len() > 1 {
                let mut l = b.lists.clone();
                l[i].remove(k);
                push(B16 { lists: l, ..b.clone() });
            }
        }
    }
    for s in shrink_sched(&b.sched) {
        push(B16 { sched: s, ..b.clone() });
    }
    for i in 0..b.lists.len() {
        for k in 0..b.lists[i].len() {
            for o in simpler(&b.lists[i][k]) {
                let mut l = b.lists.clone();
                l[i][k] = o;
                push(B16 { lists: l, ..b.clone() });
            }
        }
    }
    out
}

// ------------------------------------------------------------------ carrying out
struct NestReader {
    r: SimReader,
    left: u64,
    done: bool,
    op: Option<(Op, Arc<DynamicImage>, String)>,
    out: Rc<RefCell<String>>,
}
impl NestReader {
    fn tick(&mut self) {
        if self.left > 0 {
            self.left -= 1;
        } else if !self.done {
            self.done = true;
            let s = self.op.take().map_or(String::new(), |(o, shared, id)| perform(&o, &shared, &id));
            *self.out.borrow_mut() = s;
        }
    }
}
impl Read for NestReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick();
        self.r.read(b)
    }
}
impl BufRead for NestReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.tick();
        self.r.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.r.consume(n)
    }
}
impl Seek for NestReader {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.tick();
        self.r.seek(s)
    }
}
fn end(e: &End, fmt: &str) -> String {
    match e {
        // which of several defects of a damaged file is met first is up to the workers
        End::Err(..) if fmt == "exr" => "Err".into(),
        e => e.tag(),
    }
}
fn outcome(o: &Outcome, fmt: &str) -> String {
    if o.end.ok() {
        format!("{:016x} {}", o.key(), o.short())
    } else if fmt == "exr" {
        end(&o.end, fmt)
    } else {
        format!("{} {:?} {:?}", end(&o.end, fmt), o.dims, o.frames.iter().map(|f| f.hash).collect::<Vec<_>>())
    }
}
fn dyn_digest(d: &DynamicImage) -> String {
    format!("{}x{} {:?} {:016x}", d.width(), d.height(), d.color(), hash(d.as_bytes()))
}
pub fn perform(op: &Op, shared: &Arc<DynamicImage>, id: &str) -> String {
    match op {
        Op::Dec { fmt, input, route, plan, panic_at } => {
            let (mut r, _st) = SimReader::new(Rc::new(input.bytes()), plan);
            r.panic_at = *panic_at;
            outcome(&decode_reader(fmt, *route, r, &OPT, false), fmt)
        }
        Op::Nest { fmt, input, route, at, inner } => {
            let (o, out) = around(fmt, input, *route, *at, Some(((**inner).clone(), shared.clone(), format!("{id}n"))));
            let inner = out.borrow().clone();
            format!("{o} [inside: {inner}]")
        }
        Op::Partial { fmt, input, plan, n, frames, leak } => {
            let (r, _st) = SimReader::new(Rc::new(input.bytes()), plan);
            let mut h = Hasher::default();
            let x = catch(|| -> ImageResult<u64> {
                let mut got = 0;
                if *frames {
                    let mut it = match fmt.as_str() {
                        "gif" => image::AnimationDecoder::into_frames(image::codecs::gif::GifDecoder::new(r)?),
                        "webp" => image::AnimationDecoder::into_frames(image::codecs::webp::WebPDecoder::new(r)?),
                        _ => image::AnimationDecoder::into_frames(image::codecs::png::PngDecoder::new(r)?.apng()?),
                    };
                    for f in it.by_ref().take(*n as usize) {
                        h.write(f?.buffer().as_raw());
                        got += 1;
                    }
                    if *leak {
                        std::mem::forget(it);
                    }
                } else {
                    let mut d = ImageReader::with_format(r, crate::codec::fmt(fmt)).into_decoder()?;
                    h.word(mix2(d.dimensions().0 as u64, d.dimensions().1 as u64));
                    if *n > 0 {
                        h.word(d.icc_profile()?.map_or(0, |v| hash(&v)));
                        h.word(d.exif_metadata()?.map_or(0, |v| hash(&v)));
                    }
                    if *leak {
                        std::mem::forget(d);
                    }
                }
                Ok(got)
            });
            let e = match x {
                Ok(Ok(n)) => format!("{n} frames"),
                Ok(Err(e)) => end(&err_end(&e), fmt),
                Err(p) => panic_end(p).tag(),
            };
            format!("{e} {:016x}", h.finish())
        }
        Op::Enc { job, plan, panic_at } => {
            let (mut w, sink) = SimWriter::new(plan);
            w.panic_at = *panic_at;
            let px = job.pixels();
            let mut al = CallerBuf::new(px.len(), 0, 0);
            al.get().copy_from_slice(&px);
            let px: &[u8] = al.get();
            let r = catch(|| run_enc(w, job, px));
            let e = end_of(r);
            let s = sink.borrow();
            if job.enc.fmt() == "exr" {
                let d = if e.ok() { hash(&crate::p_threads::exr_in_order(&s.data)) } else { 0 };
                format!("{} {d:016x}", end(&e, "exr"))
            } else {
                format!("{} {} bytes {:016x}", e.tag(), s.data.len(), hash(&s.data))
            }
        }
        Op::FOpen { fmt, input } => {
            let path = format!("/sim/{id}.{}", ext(fmt));
            {
                let data = input.bytes();
                let _g = simos::NoPreempt::new();
                simos::fs().unwrap().files.push((path.clone(), data));
            }
            match catch(|| -> ImageResult<DynamicImage> {
                let mut r = ImageReader::open(&path)?;
                r.limits(OPT.image_limits().unwrap());
                r.decode()
            }) {
                Ok(Ok(d)) => dyn_digest(&d),
                Ok(Err(e)) => end(&err_end(&e), fmt),
                Err(p) => panic_end(p).tag(),
            }
        }
        Op::FSave { job } => {
            let path = format!("/sim/{id}.{}", ext(job.enc.fmt()));
            let px = job.pixels();
            let Some(d) = job.dynimg(&px) else { return "no such image".into() };
            let e = end_of(catch(|| d.save(&path)));
            let _g = simos::NoPreempt::new();
            let data = simos::fs().unwrap().get(&path).cloned().unwrap_or_default();
            let data = if job.enc.fmt() == "exr" { if e.ok() { crate::p_threads::exr_in_order(&data) } else { vec![] } } else { data };
            format!("{} {} bytes {:016x}", end(&e, job.enc.fmt()), data.len(), hash(&data))
        }
        Op::Tf { kind, img, shared: sh, p } => {
            let own;
            let d: &DynamicImage = if *sh {
                shared
            } else {
                own = img.make();
                &own
            };
            match catch(|| transform(*kind, d, img, p)) {
                Ok(s) => s,
                Err(p) => panic_end(p).tag(),
            }
        }
    }
}
static OPT: Opt = Opt { fill: 0, mis: 0, limits: Some((None, None, Some(64 << 20))), meta: true, max_frames: 40 };

struct FewColours;
impl imageops::colorops::ColorMap for FewColours {
    type Color = Rgba<u8>;
    fn index_of(&self, c: &Rgba<u8>) -> usize {
        (c[0] as usize / 64) * 4 + c[1] as usize / 64
    }
    fn map_color(&self, c: &mut Rgba<u8>) {
        for x in c.0.iter_mut() {
            *x = *x / 64 * 85;
        }
    }
}
fn rgba(d: &DynamicImage) -> RgbaImage {
    d.to_rgba8()
}
fn buf_digest<P: Pixel>(b: &image::ImageBuffer<P, Vec<P::Subpixel>>) -> String
where
    P::Subpixel: std::fmt::Debug,
{
    let mut h = Hasher::default();
    let mut s = String::new();
    for x in b.as_raw() {
        use std::fmt::Write;
        s.clear();
        let _ = write!(s, "{x:?}");
        h.write(s.as_bytes());
    }
    format!("{}x{} {:016x}", b.width(), b.height(), h.finish())
}
/// A deterministic function of the image: what it gives may depend on nothing else.
fn transform(kind: u8, d: &DynamicImage, img: &Img, p: &[u32; 3]) -> String {
    use imageops::FilterType as F;
    let (nw, nh) = (p[0] % 24 + 1, p[1] % 24 + 1);
    let filter = [F::Nearest, F::Triangle, F::CatmullRom, F::Gaussian, F::Lanczos3][p[2] as usize % 5];
    let sigma = (p[0] % 40) as f32 / 10.0 + 0.1;
    let out = |d: DynamicImage| dyn_digest(&d);
    match kind {
        0 => out(d.resize_exact(nw, nh, filter)),
        1 => out(d.resize(nw, nh, filter)),
        2 => out(d.resize_to_fill(nw, nh, filter)),
        3 => out(d.thumbnail(nw, nh)),
        4 => out(d.thumbnail_exact(nw, nh)),
        5 => out(d.blur(sigma)),
        6 => out(d.fast_blur(sigma)),
        7 => out(d.unsharpen(sigma, p[1] as i32 % 50)),
        8 => {
            let k: Vec<f32> = (0..9).map(|i| ((p[i % 3] >> i) % 9) as f32 - 4.0).collect();
            out(d.filter3x3(&k))
        }
        9 => out(d.adjust_contrast((p[0] % 200) as f32 - 100.0)),
        10 => out(d.brighten(p[0] as i32 % 300)),
        11 => out(d.huerotate(p[0] as i32 % 400)),
        12 => out(d.rotate90()),
        13 => out(d.rotate180()),
        14 => out(d.rotate270()),
        15 => out(d.fliph()),
        16 => out(d.flipv()),
        17 => out(d.grayscale()),
        18 => {
            let mut x = d.clone();
            x.invert();
            out(x)
        }
        19 => out(d.crop_imm(p[0] % 8, p[1] % 8, nw, nh)),
        20 => {
            let mut x = d.clone();
            let y = x.crop(p[0] % 8, p[1] % 8, nw, nh);
            format!("{} {}", dyn_digest(&x), dyn_digest(&y))
        }
        21 => {
            let mut x = d.clone();
            x.apply_orientation(image::metadata::Orientation::from_exif((p[0] % 8 + 1) as u8).unwrap());
            out(x)
        }
        22 => format!("{} {}", buf_digest(&d.to_luma8()), buf_digest(&d.to_luma_alpha16())),
        23 => format!("{} {}", buf_digest(&d.to_rgb8()), buf_digest(&d.to_rgb16())),
        24 => format!("{} {}", buf_digest(&d.to_rgba16()), buf_digest(&d.to_rgba32f())),
        25 => {
            let mut x = rgba(d);
            imageops::dither(&mut x, &FewColours);
            buf_digest(&x)
        }
        26 => {
            let mut x = d.to_luma8();
            imageops::dither(&mut x, &imageops::BiLevel);
            let i = imageops::index_colors(&x, &imageops::BiLevel);
            format!("{} {}", buf_digest(&x), buf_digest(&i))
        }
        27 => buf_digest(&imageops::index_colors(&rgba(d), &FewColours)),
        28 => {
            let mut x = rgba(d);
            let top = Img { seed: img.seed ^ 7, col: Col::Rgba8, ..img.clone() }.make().to_rgba8();
            imageops::overlay(&mut x, &top, p[0] as i64 % 9 - 4, p[1] as i64 % 9 - 4);
            buf_digest(&x)
        }
        29 => {
            let mut x = rgba(d);
            let top = Img { seed: img.seed ^ 8, col: Col::Rgba8, w: 3, h: 2 }.make().to_rgba8();
            imageops::tile(&mut x, &top);
            imageops::replace(&mut x, &top, p[0] as i64 % 9 - 4, p[1] as i64 % 9 - 4);
            buf_digest(&x)
        }
        30 => {
            let mut x = rgba(d);
            let c = |k: u32| Rgba([p[0] as u8, (p[1] >> k) as u8, (p[2] >> k) as u8, 255]);
            if p[0] % 2 == 0 {
                imageops::vertical_gradient(&mut x, &c(0), &c(8));
            } else {
                imageops::horizontal_gradient(&mut x, &c(0), &c(8));
            }
            buf_digest(&x)
        }
        31 => {
            let mut x = rgba(d);
            imageops::contrast(&x, 12.0);
            imageops::colorops::contrast_in_place(&mut x, (p[0] % 90) as f32);
            imageops::colorops::brighten_in_place(&mut x, p[1] as i32 % 90);
            imageops::colorops::huerotate_in_place(&mut x, p[2] as i32 % 360);
            buf_digest(&x)
        }
        32 => {
            let mut x = rgba(d);
            match p[0] % 3 {
                0 => imageops::flip_horizontal_in_place(&mut x),
                1 => imageops::flip_vertical_in_place(&mut x),
                _ => imageops::rotate180_in_place(&mut x),
            }
            buf_digest(&x)
        }
        33 => buf_digest(&imageops::resize(&d.to_luma16(), nw, nh, filter)),
        34 => buf_digest(&imageops::blur(&d.to_rgb32f(), sigma)),
        35 => buf_digest(&imageops::thumbnail(&d.to_luma16(), nw, nh)),
        36 => {
            // a caller's closure that fails half-way, then the whole image
            let n = (img.w * img.h).max(1);
            let stop = p[0] % n;
            let mut k = 0;
            let r = catch(|| {
                image::ImageBuffer::<Luma<u8>, Vec<u8>>::from_fn(img.w, img.h, |x, y| {
                    k += 1;
                    if k > stop {
                        std::panic::panic_any(CallerPanic);
                    }
                    Luma([(x * 7 + y) as u8])
                })
            });
            assert!(r.is_err());
            buf_digest(&image::ImageBuffer::<Luma<u8>, Vec<u8>>::from_fn(img.w, img.h, |x, y| Luma([(x * 7 + y) as u8])))
        }
        37 => {
            let mut x = d.clone();
            let (w, h) = x.dimensions();
            let mut s = x.sub_image(p[0] % w, p[1] % h, 1, 1);
            s.put_pixel(0, 0, Rgba([1, 2, 3, 4]));
            out(x)
        }
        38 => {
            let (u, v) = ((p[0] % 100) as f32 / 99.0, (p[1] % 100) as f32 / 99.0);
            format!("{:?} {:?}", imageops::sample_bilinear(&rgba(d), u, v), imageops::interpolate_bilinear(&rgba(d), u * d.width() as f32, v * d.height() as f32))
        }
        39 => {
            let mut n = 0u64;
            for (x, y, q) in d.pixels() {
                n = mix2(n, mix2((x as u64) << 32 | y as u64, u32::from_ne_bytes(q.0) as u64));
            }
            format!("{n:016x}")
        }
        _ => {
            let x: RgbaImage = rgba(d).enumerate_pixels().map(|(x, y, q)| (x, y, *q)).fold(RgbaImage::new(d.width(), d.height()), |mut a, (x, y, q)| {
                a.put_pixel(x, y, q);
                a
            });
            buf_digest(&x)
        }
    }
}
fn label(o: &Op) -> String {
    match o {
        Op::Dec { fmt, route, .. } => format!("decode {fmt} {route:?}"),
        Op::Enc { job, .. } => format!("encode {} {:?}", job.enc.fmt(), job.route),
        Op::FOpen { fmt, .. } => format!("open {fmt}"),
        Op::FSave { job } => format!("save {}", job.enc.fmt()),
        Op::Tf { kind, .. } => format!("transform {kind}"),
        Op::Partial { fmt, .. } => format!("abandon {fmt}"),
        Op::Nest { fmt, inner, .. } => format!("decode {fmt} around {}", label(inner)),
    }
}
fn fs() -> SimFs {
    let mut f = SimFs::default();
    f.read_plan = cursor_plan();
    f.write_plan = cursor_plan();
    f
}
/// What the operation gives in a process of its own; an operation within another one and the one
/// around it each get their own.
fn alone(o: &Op, b: &B16, quiet: &SchedCfg, id: &str) -> Option<String> {
    let (outer, inner) = match o {
        Op::Nest { inner, .. } => (o, Some(&**inner)),
        o => (o, None),
    };
    let d = run::forked(|| {
        simos::reconfigure(quiet);
        run::ops_budget(40_000_000, "");
        simos::fs_mount(fs());
        if let Op::Nest { fmt, input, route, at, .. } = outer {
            let (o, reached) = around(fmt, input, *route, *at, None);
            return format!("{}{o}", if reached.borrow().is_empty() { "r" } else { "-" }).into_bytes();
        }
        let shared = Arc::new(b.shared.make());
        perform(o, &shared, id).into_bytes()
    })?;
    let d = String::from_utf8_lossy(&d).into_owned();
    let Some(inner) = inner else { return Some(d) };
    if d.is_empty() {
        return None;
    }
    let i = if d.starts_with('r') { alone(inner, b, quiet, &format!("{id}n"))? } else { "not reached".into() };
    Some(format!("{} [inside: {i}]", &d[1..]))
}
/// a decode during which `op` is carried out in its reader, and what came of that
/// (empty: without one, the place was reached)
fn around(fmt: &str, input: &Input, route: Route, at: u64, op: Option<(Op, Arc<DynamicImage>, String)>) -> (String, Rc<RefCell<String>>) {
    let (r, _st) = SimReader::new(Rc::new(input.bytes()), &cursor_plan());
    let out = Rc::new(RefCell::new("not reached".to_string()));
    let nr = NestReader { r, left: at, done: false, op, out: out.clone() };
    (outcome(&decode_reader(fmt, route, nr, &OPT, false), fmt), out)
}
pub fn exec16(v: &Value) {
    let b = b16(v);
    run::set_site("iso");
    run::cpu_limit(40);
    run::concrete(v.clone());
    // what each gives alone, in a fresh process
    let quiet = SchedCfg { seed: 1, policy: Policy::List(vec![]), cpus: 2, alloc_every: 0, spurious: 0, block_every: 0 };
    let mut base: Vec<Vec<Option<String>>> = vec![];
    for (t, l) in b.lists.iter().enumerate() {
        base.push(
            l.iter()
                .enumerate()
                .map(|(k, o)| alone(o, &b, &quiet, &format!("{t}_{k}")))
                .collect(),
        );
    }
    if base.iter().flatten().any(|x| x.is_none()) {
        run::bump("baseline_died", 1);
        return run::eval(0, false);
    }
    simos::reconfigure(&b.sched);
    run::ops_budget(40_000_000, "");
    simos::fs_mount(fs());
    let shared = Arc::new(b.shared.make());
    let before = dyn_digest(&shared);
    let mut got: Vec<Vec<String>> = vec![vec![]; b.lists.len()];
    let run_list = |t: usize, l: &[Op], shared: &Arc<DynamicImage>| -> Vec<String> {
        l.iter().enumerate().map(|(k, o)| perform(o, shared, &format!("{t}_{k}"))).collect()
    };
    std::thread::scope(|s| {
        let hs: Vec<_> = b.lists.iter().enumerate().skip(1).map(|(t, l)| { let shared = &shared; s.spawn(move || run_list(t, l, shared)) }).collect();
        got[0] = run_list(0, &b.lists[0], &shared);
        for (i, h) in hs.into_iter().enumerate() {
            got[i + 1] = h.join().unwrap_or_else(|_| vec!["the thread died".into()]);
        }
    });
    let st = simos::stats();
    let f = simos::fs_unmount();
    let mut all = 0;
    for (t, l) in b.lists.iter().enumerate() {
        for (k, o) in l.iter().enumerate() {
            run::bump(
                match o {
                    Op::Dec { .. } | Op::FOpen { .. } => "ops_decode",
                    Op::Enc { .. } | Op::FSave { .. } => "ops_encode",
                    Op::Tf { .. } => "ops_transform",
                    Op::Partial { .. } => "ops_abandoned",
                    Op::Nest { .. } => "ops_nested",
                },
                1,
            );
            let a = base[t][k].as_deref().unwrap();
            let g = got[t].get(k).map(|s| s.as_str()).unwrap_or("nothing");
            if a.contains("caller panic") {
                run::bump("caller_panics", 1);
            } else if a.contains("Err(") {
                run::bump("ops_failing", 1);
            }
            all = mix2(all, hash(a.as_bytes()));
            if a != g {
                run::set_site(&format!("iso|{}", label(o)));
                run::fail("not-isolated", "", format!("operation {k} of thread {t} ({}): alone {a}; with the others {g}; all: {:?}", label(o), b.lists.iter().map(|l| l.iter().map(label).collect::<Vec<_>>()).collect::<Vec<_>>()));
            }
        }
    }
    if dyn_digest(&shared) != before {
        run::fail("shared-image-changed", "", format!("the image shared by reference was {before} and is {}", dyn_digest(&shared)));
    }
    if f.open_fds() != 0 || f.double_close != 0 {
        run::fail("leaked-descriptor", "", format!("{} descriptors open, {} closed twice", f.open_fds(), f.double_close));
    }
    run::digest(all);
    run::eval(mix2(all, st.trace), b.lists.iter().map(|l| l.len()).sum::<usize>() > 1);
    run::sample(json!({"operations": b.lists.iter().map(|l| l.iter().map(label).collect::<Vec<_>>()).collect::<Vec<_>>(), "alone": base, "sched": b.sched, "threads": st.threads, "switches": st.switches}));
}
