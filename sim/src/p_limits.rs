//! C10 resource limits: dimension limits are exact, memory stays within the limit.
use crate::alloc;
use crate::codec::*;
use crate::forge::crc;
use crate::input::*;
use crate::p_read::{delivery, kind, shrink_plan};
use crate::rng::{hash, mix2, Hasher, Rng};
use crate::run::{self, catch, Tier};
use crate::simio::*;
use image::codecs::*;
use image::{AnimationDecoder, ImageDecoder, ImageReader, ImageResult, Limits};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{BufRead, Seek};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    Reader,
    Guess,
    IntoDecoder,
    SetLimits,
    /// PngDecoder::with_limits, otherwise as SetLimits
    WithLimits,
    Frames,
    /// ImageReader::into_dimensions
    Dims,
    /// the metadata is asked for under the limits before decoding
    Meta,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Side {
    None,
    Exact,
    Below,
    Above,
    Half,
    Zero,
    Is(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mem {
    None,
    /// the size of the output, times, plus
    Out(u64, i64),
    Is(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B10 {
    pub fmt: String,
    pub input: Input,
    pub claim: Option<(u32, u32)>,
    pub via: Via,
    pub w: Side,
    pub h: Side,
    pub mem: Mem,
    pub plan: IoPlan,
}
fn b10(v: &Value) -> B10 {
    serde_json::from_value(v.clone()).expect("scenario body")
}
fn find(d: &[u8], n: &[u8]) -> Option<usize> {
    d.windows(n.len()).position(|w| w == n)
}
fn put(d: &mut [u8], at: usize, b: &[u8]) {
    if at + b.len() <= d.len() {
        d[at..at + b.len()].copy_from_slice(b);
    }
}
/// Make the header declare another size, leaving the rest alone.
pub fn claim(fmt: &str, d: &mut Vec<u8>, w: u32, h: u32) {
    match fmt {
        "bmp" if d.len() > 26 => {
            if d[14] == 12 {
                put(d, 18, &(w as u16).to_le_bytes());
                put(d, 20, &(h as u16).to_le_bytes());
            } else {
                let neg = d[25] & 0x80 != 0;
                put(d, 18, &w.to_le_bytes());
                put(d, 22, &(if neg { -(h as i32) } else { h as i32 }).to_le_bytes());
            }
        }
        "tga" => {
            put(d, 12, &(w as u16).to_le_bytes());
            put(d, 14, &(h as u16).to_le_bytes());
        }
        "dds" => {
            put(d, 12, &(h & !3).max(4).to_le_bytes());
            put(d, 16, &(w & !3).max(4).to_le_bytes());
        }
        "farbfeld" => {
            put(d, 8, &w.to_be_bytes());
            put(d, 12, &h.to_be_bytes());
        }
        "qoi" => {
            put(d, 4, &w.to_be_bytes());
            put(d, 8, &h.to_be_bytes());
        }
        "png" if d.len() > 33 => {
            put(d, 16, &w.to_be_bytes());
            put(d, 20, &h.to_be_bytes());
            let c = crc(&d[12..29]);
            put(d, 29, &c.to_be_bytes());
            // the first frame of an animation has to have the size of the canvas
            if let Some(p) = find(d, b"fcTL") {
                if d.len() > p + 34 {
                    put(d, p + 8, &w.to_be_bytes());
                    put(d, p + 12, &h.to_be_bytes());
                    let c = crc(&d[p..p + 30]);
                    put(d, p + 30, &c.to_be_bytes());
                }
            }
        }
        "gif" => {
            put(d, 6, &(w as u16).to_le_bytes());
            put(d, 8, &(h as u16).to_le_bytes());
            if w & 1 == 1 {
                // and the first picture as well
                if let Some(p) = (13..d.len()).find(|i| d[*i] == 0x2c) {
                    put(d, p + 5, &(w as u16).to_le_bytes());
                    put(d, p + 7, &(h as u16).to_le_bytes());
                }
            }
        }
        "webp" => {
            if let Some(p) = find(d, b"VP8X") {
                let (a, b) = ((w - 1).min(0xffffff).to_le_bytes(), (h - 1).min(0xffffff).to_le_bytes());
                put(d, p + 12, &a[..3]);
                put(d, p + 15, &b[..3]);
            }
            if let Some(p) = find(d, b"VP8L") {
                if d.len() > p + 13 && find(d, b"VP8X").is_none() {
                    let v = u32::from_le_bytes(d[p + 9..p + 13].try_into().unwrap());
                    let v = v & 0xf000_0000 | (w - 1).min(16383) | (h - 1).min(16383) << 14;
                    put(d, p + 9, &v.to_le_bytes());
                }
            }
        }
        "jpeg" => {
            let mut i = 2;
            while i + 9 < d.len() && d[i] == 0xff {
                if d[i + 1] == 0xc0 || d[i + 1] == 0xc2 {
                    put(d, i + 5, &(h.min(65535) as u16).to_be_bytes());
                    put(d, i + 7, &(w.min(65535) as u16).to_be_bytes());
                    return;
                }
                i += 2 + (d[i + 2] as usize) * 256 + d[i + 3] as usize;
            }
        }
        "tiff" if d.len() > 8 => {
            let be = d[0] == b'M';
            let r16 = |d: &[u8], p: usize| d.get(p..p + 2).map_or(0, |b| if be { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) });
            let ifd = if be { u32::from_be_bytes(d[4..8].try_into().unwrap()) } else { u32::from_le_bytes(d[4..8].try_into().unwrap()) } as usize;
            for i in 0..r16(d, ifd) as usize {
                let p = ifd + 2 + i * 12;
                let v = match r16(d, p) {
                    256 => w,
                    257 => h,
                    // one strip or tile row for all
                    278 if w & 2 == 0 => h,
                    _ => continue,
                };
                if r16(d, p + 2) == 3 {
                    let v = (v as u16).to_be_bytes();
                    put(d, p + 8, &if be { v } else { [v[1], v[0]] });
                } else {
                    put(d, p + 8, &if be { v.to_be_bytes() } else { v.to_le_bytes() });
                }
            }
        }
        "exr" => {
            for n in [&b"dataWindow\0box2i\0"[..], b"displayWindow\0box2i\0"] {
                if let Some(p) = find(d, n) {
                    let p = p + n.len() + 4;
                    let at = |d: &[u8], q: usize| d.get(q..q + 4).map_or(0, |b| i32::from_le_bytes(b.try_into().unwrap()));
                    let (x, y) = (at(d, p), at(d, p + 4));
                    put(d, p + 8, &(x.wrapping_add(w as i32 - 1)).to_le_bytes());
                    put(d, p + 12, &(y.wrapping_add(h as i32 - 1)).to_le_bytes());
                }
            }
        }
        "ico" if d.len() > 22 => {
            let off = u32::from_le_bytes(d[18..22].try_into().unwrap()) as usize;
            if off < d.len() {
                let mut inner = d[off..].to_vec();
                if inner.starts_with(b"\x89PNG") {
                    claim("png", &mut inner, w, h);
                } else {
                    put(&mut inner, 4, &w.to_le_bytes());
                    put(&mut inner, 8, &h.wrapping_mul(2).to_le_bytes());
                }
                d.truncate(off);
                d.extend(inner);
            }
        }
        "hdr" => {
            if let Some(p) = find(d, b"\n-Y ") {
                if let Some(e) = d[p + 1..].iter().position(|b| *b == b'\n') {
                    let line = format!("\n-Y {h} +X {w}\n").into_bytes();
                    d.splice(p..p + 2 + e, line);
                }
            }
        }
        "pnm" if d.len() > 3 => {
            let m = d[1];
            let head = match m {
                b'7' => {
                    let (depth, t) = *[(1, "GRAYSCALE"), (3, "RGB"), (4, "RGB_ALPHA"), (2, "GRAYSCALE_ALPHA")].get((w % 4) as usize).unwrap();
                    let max = if h & 1 == 0 { 255 } else { 65535 };
                    format!("P7\nWIDTH {w}\nHEIGHT {h}\nDEPTH {depth}\nMAXVAL {max}\nTUPLTYPE {t}\nENDHDR\n")
                }
                b'1' | b'4' => format!("P{}\n{w} {h}\n", m as char),
                _ => format!("P{}\n{w} {h}\n{}\n", m as char, if w & 1 == 0 { 255 } else { 65535 }),
            };
            let cut = d.len().min(12);
            d.splice(0..cut, head.into_bytes());
        }
        _ => {}
    }
}
struct Probe {
    dims: (u32, u32),
    total: u64,
}
fn probe<R: BufRead + Seek>(fmt: &str, r: R) -> ImageResult<Probe> {
    Ok(concrete!(fmt, r, d => Probe { dims: d.dimensions(), total: d.total_bytes() }))
}

#[derive(Default)]
struct Res {
    end: Option<End>,
    dims: (u32, u32),
    frames: Vec<(u32, u32)>,
    pix: u64,
    /// the caller's own buffer would have been larger than the harness allows
    big: bool,
    /// bytes of output the library itself allocated
    out: u64,
}
/// the caller's buffer does not count
fn own<T>(f: impl FnOnce() -> T) -> T {
    let on = alloc::TRACK.swap(false, Relaxed);
    let v = f();
    alloc::TRACK.store(on, Relaxed);
    v
}
fn finish<D: ImageDecoder>(d: D, r: &mut Res) -> ImageResult<()> {
    r.dims = d.dimensions();
    let n = d.total_bytes();
    if n > MAX_OUT {
        r.big = true;
        return Ok(());
    }
    let mut b = own(|| vec![0u8; n as usize]);
    let e = d.read_image(&mut b);
    r.pix = hash(&b);
    own(|| drop(b));
    e
}
fn go<R: BufRead + Seek>(fmt: &str, via: Via, rd: R, l: Limits, r: &mut Res) -> ImageResult<()> {
    match via {
        Via::Reader | Via::Guess => {
            let mut x = if via == Via::Guess && fmt != "tga" {
                ImageReader::new(rd).with_guessed_format()?
            } else {
                ImageReader::with_format(rd, crate::codec::fmt(fmt))
            };
            x.limits(l);
            let d = x.decode()?;
            r.dims = (d.width(), d.height());
            r.pix = hash(d.as_bytes());
            r.out = d.as_bytes().len() as u64;
        }
        Via::Dims => {
            let mut x = ImageReader::with_format(rd, crate::codec::fmt(fmt));
            x.limits(l);
            r.dims = x.into_dimensions()?;
        }
        Via::IntoDecoder => {
            let mut x = ImageReader::with_format(rd, crate::codec::fmt(fmt));
            x.limits(l);
            let d = x.into_decoder()?;
            finish(d, r)?;
        }
        Via::Meta => {
            let mut x = ImageReader::with_format(rd, crate::codec::fmt(fmt));
            x.limits(l);
            let mut d = x.into_decoder()?;
            let _ = d.icc_profile();
            let _ = d.exif_metadata();
            let _ = d.orientation();
            finish(d, r)?;
        }
        Via::WithLimits if fmt == "png" => finish(png::PngDecoder::with_limits(rd, l)?, r)?,
        Via::SetLimits | Via::WithLimits => concrete!(fmt, rd, d => {
            d.set_limits(l)?;
            finish(d, r)?
        }),
        Via::Frames => {
            let mut each = |fr: image::Frames, r: &mut Res| -> ImageResult<()> {
                let mut h = Hasher::default();
                for f in fr {
                    let f = f?;
                    own(|| {
                        h.write(f.buffer().as_raw());
                        r.frames.push(f.buffer().dimensions());
                    });
                    if r.frames.len() > 400 {
                        break;
                    }
                }
                r.pix = h.finish();
                Ok(())
            };
            match fmt {
                "gif" => {
                    let mut d = gif::GifDecoder::new(rd)?;
                    d.set_limits(l)?;
                    r.dims = d.dimensions();
                    each(d.into_frames(), r)?
                }
                "webp" => {
                    let mut d = webp::WebPDecoder::new(rd)?;
                    d.set_limits(l)?;
                    r.dims = d.dimensions();
                    each(d.into_frames(), r)?
                }
                _ => {
                    let mut d = png::PngDecoder::with_limits(rd, l.clone())?;
                    d.set_limits(l)?;
                    r.dims = d.dimensions();
                    each(d.apng()?.into_frames(), r)?
                }
            }
        }
    }
    Ok(())
}
fn limited(fmt: &str, via: Via, data: &Rc<Vec<u8>>, plan: &IoPlan, l: Limits) -> (Res, IoStats, usize, usize) {
    let mut r = Res::default();
    r.frames.reserve(500);
    let (rd, st) = SimReader::new(data.clone(), plan);
    alloc::start_tracking();
    let e = catch(|| go(fmt, via, rd, l, &mut r));
    let (peak, largest) = (alloc::PEAK.load(Relaxed), alloc::LARGEST.load(Relaxed));
    alloc::stop_tracking();
    r.end = Some(match e {
        Ok(Ok(())) => End::Ok,
        Ok(Err(e)) => err_end(&e),
        Err(p) => panic_end(p),
    });
    let st = st.borrow().clone();
    (r, st, peak, largest)
}

// ------------------------------------------------------------------ scenarios
fn side(r: &mut Rng) -> Side {
    match r.below(12) {
        0 | 1 => Side::Exact,
        2 => Side::Below,
        3 => Side::Above,
        4 => Side::Half,
        5 => {
            if r.chance(1, 4) {
                Side::Zero
            } else {
                Side::Is(r.skewed(100_000) as u32)
            }
        }
        _ => Side::None,
    }
}
pub fn gen10(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let fmt = *r.pick(&[
        "bmp", "tga", "pnm", "pnm", "hdr", "dds", "ico", "farbfeld", "qoi", "png", "png", "png", "gif", "gif", "gif", "webp", "webp", "tiff", "tiff", "jpeg", "jpeg", "exr", "avif",
    ]);
    if fmt == "avif" && r.chance(3, 4) {
        return gen10(r, _i, t);
    }
    let mut via = *r.pick(&[Via::Reader, Via::Reader, Via::Reader, Via::Guess, Via::IntoDecoder, Via::SetLimits, Via::WithLimits, Via::Dims]);
    if matches!(fmt, "png" | "webp" | "tiff" | "jpeg") && r.chance(1, 6) {
        via = Via::Meta;
    }
    if matches!(fmt, "gif" | "png" | "webp") && r.chance(2, 5) {
        via = Via::Frames;
    }
    let max = if r.chance(1, 25) { 800 } else { *r.pick(&[16u32, 64, if t == Tier::Thorough { 300 } else { 150 }]) };
    let mut input = if fmt == "png" && via == Via::Frames && r.chance(4, 5) { Input::Forge { fmt: "apng".into(), seed: r.u64(), max } } else { any_input(r, fmt, max) };
    if r.chance(1, 4) {
        let n = r.range(1, 3) as usize;
        let len = input.bytes().len();
        input = Input::Mut { base: Box::new(input), edits: edits(r, fmt, len.min(200), n) };
    }
    let claim = if r.chance(1, 2) {
        let one = |r: &mut Rng| match r.below(8) {
            0 => r.range(1, 100) as u32,
            1 | 2 | 3 => r.range(100, 2000) as u32,
            4 => r.range(2000, 65535) as u32,
            5 => *r.pick(&[65535u32, 65536, 1 << 20, 0x7fffffff, 0xffffffff, 1 << 24]),
            _ => r.range(1, 5000) as u32,
        };
        Some((one(r), one(r)))
    } else {
        None
    };
    let mem = match r.below(12) {
        0 | 1 => Mem::None,
        2 | 3 => Mem::Out(1, 0),
        4 => Mem::Out(1, -1),
        5 => Mem::Out(1, r.skewed(100_000) as i64),
        6 => Mem::Out(2, r.below(4096) as i64),
        7 => Mem::Out(*r.pick(&[3u64, 4, 6]), 0),
        8 => Mem::Out(20, 16 << 20),
        9 => Mem::Is(r.skewed(32 << 20)),
        10 => Mem::Is(*r.pick(&[0u64, 1, 1000, 65536, 1 << 20, 8 << 20])),
        _ => Mem::Is(32 << 20),
    };
    let mut plan = if r.chance(2, 3) { cursor_plan() } else { delivery(r) };
    plan.eintr = 0;
    plan.seed = r.u64();
    if r.chance(1, 10) {
        plan.faults.push(Fault { when: When::Op(r.below(60)), class: Class::Any, kind: kind(r), persistent: r.chance(1, 2) });
    }
    let (mut w, mut h) = (side(r), side(r));
    if r.chance(1, 3) {
        (w, h) = (Side::None, Side::None);
    }
    serde_json::to_value(B10 { fmt: fmt.into(), input, claim, via, w, h, mem, plan }).unwrap()
}
pub fn shrink10(v: &Value) -> Vec<Value> {
    let b = b10(v);
    let mut out: Vec<B10> = vec![];
    for i in b.input.shrink() {
        out.push(B10 { input: i, ..b.clone() });
    }
    for p in shrink_plan(&b.plan) {
        out.push(B10 { plan: p, ..b.clone() });
    }
    if b.w != Side::None {
        out.push(B10 { w: Side::None, ..b.clone() });
    }
    if b.h != Side::None {
        out.push(B10 { h: Side::None, ..b.clone() });
    }
    if b.claim.is_some() {
        out.push(B10 { claim: None, ..b.clone() });
    }
    out.iter().map(|b| serde_json::to_value(b).unwrap()).collect()
}

// ------------------------------------------------------------------ execution
/// allowance for fixed tables and buffers of the codecs, and per byte of the stream
fn fixed(fmt: &str) -> u64 {
    match fmt {
        "exr" => 2 << 20,
        _ => 512 << 10,
    }
}
/// what a codec crate may hold beyond its limit
fn codec_buffers(fmt: &str, ok: bool, data: &[u8], (w, h): (u32, u32), max: u64, created: u64) -> u64 {
    let up = |n: u32, m: u64| (n as u64 + m - 1) / m * m;
    let area = |w, h, m| up(w, m).saturating_mul(up(h, m));
    let px = |m| area(w, h, m);
    match fmt {
        // one index per pixel of a frame
        "gif" => (max / 4).max(px(1)),
        // (a damaged file may hold a picture of another size than it declares)
        "webp" => {
            let key = data.windows(7).filter(|k| k[..3] == [0x9d, 0x01, 0x2a]);
            let at = |k: &[u8], i: usize| (u16::from_le_bytes([k[i], k[i + 1]]) & 0x3fff) as u32;
            // a partition that the file does not have has room for 24 bits of bytes
            let part = if ok { 0 } else { 17 << 20 };
            key.map(|k| area(at(k, 3), at(k, 5), 16)).fold(px(16), u64::max).saturating_mul(16).saturating_add(part)
        }
        "jpeg" => px(32).saturating_mul(16),
        "exr" => px(64).saturating_mul(40),
        // values of directory entries, read before limits can be set
        "tiff" => created,
        _ => 0,
    }
}
pub const PER_BYTE: u64 = 32;
pub fn exec10(v: &Value) {
    let b = b10(v);
    run::set_site(&format!("{}|{:?}", b.fmt, b.via));
    let mut d = b.input.bytes();
    if let Some((w, h)) = b.claim {
        claim(&b.fmt, &mut d, w, h);
    }
    let data = Rc::new(d);
    alloc::REFUSE_ABOVE.store(1 << 30, Relaxed);
    run::concrete(v.clone());
    run::cpu_limit(if b.fmt == "avif" { 25 } else { 12 });
    run::ops_budget(20_000_000, "(header)");
    let (rd, _) = SimReader::new(data.clone(), &cursor_plan());
    alloc::start_tracking();
    let pr = catch(|| probe(&b.fmt, rd));
    let created = alloc::PEAK.load(Relaxed) as u64;
    alloc::stop_tracking();
    let pr = match pr {
        Ok(r) => r.ok(),
        // C11 decides about panics
        Err(_) => None,
    };
    let (dims, total) = pr.as_ref().map_or(((0, 0), 0), |p| (p.dims, p.total));
    let resolve = |s: Side, n: u32| match s {
        Side::None => None,
        Side::Exact => Some(n),
        Side::Below => Some(n.saturating_sub(1)),
        Side::Above => Some(n.saturating_add(1)),
        Side::Half => Some(n / 2),
        Side::Zero => Some(0),
        Side::Is(k) => Some(k),
    };
    let mut l = Limits::no_limits();
    l.max_image_width = resolve(b.w, dims.0);
    l.max_image_height = resolve(b.h, dims.1);
    l.max_alloc = match b.mem {
        Mem::None => None,
        Mem::Out(k, p) => Some((total.min(64 << 20) * k).saturating_add_signed(p)),
        Mem::Is(n) => Some(n),
    };
    // without a memory limit only small pictures
    // (and none of a GIF whose frame may be larger than the picture)
    // (and without one, what a damaged directory entry of a TIFF declares is believed)
    if l.max_alloc.is_none() && (total > 4 << 20 || b.fmt == "gif" || b.via == Via::Meta) {
        l.max_alloc = Some(64 << 20);
    }
    // far below what the harness refuses to allocate
    l.max_alloc = l.max_alloc.map(|m| m.min(256 << 20));
    run::ops_budget(20_000_000, "");
    run::bump(&format!("fmt_{}", b.fmt), 1);
    let (r, st, peak, largest) = limited(&b.fmt, b.via, &data, &b.plan, l.clone());
    run::io(&st, "read");
    let end = r.end.clone().unwrap();
    run::digest(mix2(r.pix, hash(end.tag().as_bytes())));
    run::eval(mix2(mix2(hash(&data), hash(format!("{l:?}{:?}", b.via).as_bytes())), st.trace), true);
    run::bump("limited_decodes", 1);
    run::bump(if end.ok() { "within_limits" } else { "refused" }, 1);
    let is_limit = matches!(&end, End::Err(k, _) if k == "Limits");
    run::bump("limit_errors", is_limit as u64);
    let too_wide = |(w, h): (u32, u32)| l.max_image_width.map_or(false, |m| w > m) || l.max_image_height.map_or(false, |m| h > m);
    let beyond = pr.is_some() && too_wide(dims);
    run::bump("beyond_dimensions", beyond as u64);
    let what = format!("{}x{} picture of {} bytes ({} output bytes), limits {:?}x{:?} and {:?} bytes: {}", dims.0, dims.1, data.len(), total, l.max_image_width, l.max_image_height, l.max_alloc, end.tag());
    if end.ok() {
        if beyond || too_wide(r.dims) || r.frames.iter().any(|f| too_wide(*f)) {
            run::fail("dimension-limit-ignored", "", format!("{what}; {} frames", r.frames.len()));
        }
        if pr.is_none() {
            run::fail("limits-change-outcome", "", format!("decoded with limits, refused without: {what}"));
        }
        if let Some(m) = l.max_alloc {
            // the output counts when the library makes it
            // (and besides a frame of an animation the canvas on which the next one is drawn)
            let f = (dims.0 as u64 * dims.1 as u64).saturating_mul(4 * r.frames.len().min(2) as u64);
            if r.out.max(f) > m {
                run::fail("allocation-limit-ignored", "", what.clone());
            }
        }
    }
    // memory
    // (and for a row of the picture and a colour map)
    let map = if b.fmt == "tga" && data.len() > 7 { u16::from_le_bytes([data[5], data[6]]) as u64 * ((data[7] as u64 + 7) / 8) } else { 0 };
    let row = if dims.0 > 0 && dims.1 > 0 && !beyond { 16 * (dims.0 as u64).min(1 << 24) } else { 0 };
    let allowance = fixed(&b.fmt) + PER_BYTE * data.len() as u64 + row + map;
    let cap = l.max_alloc.map(|m| m + allowance);
    let over = |m: u64| peak as u64 > m;
    // buffers of the codec crates that take no limit are a known weakness,
    // everything beyond them is not
    let uncounted = codec_buffers(&b.fmt, end.ok(), &data, r.frames.iter().fold(dims, |a, f| (a.0.max(f.0), a.1.max(f.1))), l.max_alloc.unwrap_or(0), created);
    let class = |m: u64| if over(m.saturating_add(uncounted)) { "" } else { "codec-buffers" };
    if b.fmt != "avif" {
        if let Some(m) = cap {
            if over(m) {
                run::fail("over-limit", class(m), format!("{peak} bytes in use at a time (largest allocation {largest}), allowed {m}; {what}"));
            }
        }
        let no_room = matches!(b.via, Via::Reader | Via::Guess) && l.max_alloc.map_or(false, |m| total > m);
        if ((beyond && b.via != Via::Frames) || (pr.is_some() && no_room)) && over(allowance) {
            let c = if b.fmt == "tiff" && !over(allowance.saturating_add(uncounted)) { "codec-buffers" } else { "" };
            run::fail("allocates-before-refusing", c, format!("{peak} bytes in use at a time (largest allocation {largest}), allowed {allowance}; {what}"));
        }
        if pr.is_some() && no_room && end.ok() {
            run::fail("allocation-limit-ignored", "", what.clone());
        }
    }
    with_peak(peak as u64, l.max_alloc);
    // limits that are not exceeded make no difference
    let ample = l.max_alloc.map_or(true, |m| m >= total.saturating_mul(12).saturating_add(64 * data.len() as u64 + (8 << 20)));
    // the frames stored in a file may be larger than its canvas
    let plain = b.via != Via::Frames || (b.claim.is_none() && matches!(b.input, Input::Forge { .. }));
    if pr.is_some() && !beyond && plain && ample && st.hard == 0 && total <= 8 << 20 && !r.big && (end.ok() || is_limit) && b.via != Via::Dims {
        run::ops_budget(20_000_000, "(without limits)");
        let mut unlimited = Limits::no_limits();
        unlimited.max_alloc = if b.fmt == "gif" || b.via == Via::Meta { Some(256 << 20) } else { None };
        let (q, _, _, _) = limited(&b.fmt, b.via, &data, &IoPlan { faults: vec![], ..b.plan.clone() }, unlimited);
        let qe = q.end.clone().unwrap();
        run::bump("compared_with_unlimited", 1);
        if is_limit && qe.ok() {
            // frames and pictures inside the file may have other sizes
            let inner = r.frames.is_empty() && !q.frames.is_empty() && q.frames.iter().any(|f| too_wide(*f));
            // a damaged directory of a TIFF may declare buffers far larger than the picture
            let declared = b.fmt == "tiff" && (b.claim.is_some() || matches!(b.input, Input::Mut { .. }));
            if !inner && !declared {
                run::fail("refused-within-limits", "", what.clone());
            }
        }
        if end.ok() && (!qe.ok() || q.pix != r.pix || q.dims != r.dims) {
            run::fail("limits-change-outcome", "", format!("without limits: {}; {what}", qe.tag()));
        }
    }
    run::sample(json!({"format": b.fmt, "via": format!("{:?}", b.via), "input": b.input.describe(), "claim": b.claim, "limits": format!("{l:?}"), "peak": peak, "observed": what}));
}
fn with_peak(peak: u64, lim: Option<u64>) {
    run::bump("peak_bytes_total", peak);
    if let Some(m) = lim {
        run::bump("limit_bytes_total", m);
    }
}
