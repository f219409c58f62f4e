//! C08 animations: the frames an animation decoder yields against a compositing model written
//! from the format specifications, and the frames given to the animation encoder against the ones
//! that come back.
use crate::codec::*;
use crate::enc::gif_frame;
use crate::forge::{self, ApngFrame, GifSpec, WebpSpec};
use crate::p_read::{delivery, kind, shrink_plan};
use crate::rng::{hash, mix2, Hasher, Rng};
use crate::run::{self, catch, Tier};
use crate::simio::*;
use image::codecs::{gif, png, webp};
use image::{AnimationDecoder, Delay, ExtendedColorType, Frame, Frames, ImageDecoder, ImageEncoder, ImageResult, RgbaImage};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EOp {
    Frame { seed: u64, w: u32, h: u32, delay: (u32, u32) },
    Frames { seed: u64, n: u32, w: u32, h: u32, delay: u32, fallible: bool },
    Image { seed: u64, w: u32, h: u32, rgb: bool },
    Repeat(u16),
    /// the last operation
    Write { seed: u64, w: u32, h: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind08 {
    Decode { fmt: String, seed: u64, max: u32, drop: Vec<u32>, bg: Option<[u8; 4]> },
    Encode { speed: u8, ops: Vec<EOp>, wplan: IoPlan },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B08 {
    pub kind: Kind08,
    pub plan: IoPlan,
    /// 0 next(), 1 collect_frames, 2 take(k) then the rest by reference, 3 size_hint/last
    pub mode: u8,
    /// calls of next() after the end
    pub extra: u8,
}
fn b08(v: &Value) -> B08 {
    serde_json::from_value(v.clone()).expect("scenario body")
}

// ------------------------------------------------------------------ the model
#[derive(Clone)]
pub struct Want {
    pub px: Vec<u8>,
    /// milliseconds as a fraction
    pub delay: (u64, u64),
    /// how much a channel may differ because of rounding of alpha blending
    pub tol: u8,
    /// compositing features met so far, for the identity of a finding
    pub tag: &'static str,
}
pub struct Anim {
    pub w: u32,
    pub h: u32,
    pub bytes: Vec<u8>,
    pub frames: Vec<Want>,
    /// the format's animation interface refuses it
    pub refused: bool,
    pub describe: String,
    /// what a still decode shows (RGBA), if the model knows
    pub still: Option<Vec<u8>>,
}
fn over(dst: &mut [u8], s: &[u8]) {
    if s[3] == 0 {
        return;
    }
    if s[3] == 255 || dst[3] == 0 {
        dst.copy_from_slice(s);
        return;
    }
    let (fa, ba) = (s[3] as f64 / 255.0, dst[3] as f64 / 255.0);
    let a = fa + ba * (1.0 - fa);
    for i in 0..3 {
        dst[i] = ((s[i] as f64 * fa + dst[i] as f64 * ba * (1.0 - fa)) / a).round() as u8;
    }
    dst[3] = (a * 255.0).round() as u8;
}
struct Canvas {
    w: u32,
    h: u32,
    px: Vec<u8>,
}
impl Canvas {
    fn new(w: u32, h: u32, c: [u8; 4]) -> Canvas {
        Canvas { w, h, px: c.iter().copied().cycle().take((w * h * 4) as usize).collect() }
    }
    fn at(&mut self, x: u32, y: u32) -> Option<&mut [u8]> {
        if x >= self.w || y >= self.h {
            return None;
        }
        let i = ((y * self.w + x) * 4) as usize;
        Some(&mut self.px[i..i + 4])
    }
    fn rect(&mut self, x: u32, y: u32, w: u32, h: u32, mut f: impl FnMut(usize, &mut [u8])) {
        for j in 0..h {
            for i in 0..w {
                if let Some(p) = self.at(x + i, y + j) {
                    f((j * w + i) as usize, p);
                }
            }
        }
    }
}
fn gif_model(s: &GifSpec) -> (Vec<Want>, Option<Vec<u8>>) {
    let mut c = Canvas::new(s.w as u32, s.h as u32, [0; 4]);
    let mut out = vec![];
    let mut still = None;
    for f in &s.frames {
        let pal = f.local.as_ref().unwrap_or(&s.global);
        let before = c.px.clone();
        let (x, y, w, h) = (f.x as u32, f.y as u32, f.w as u32, f.h as u32);
        c.rect(x, y, w, h, |i, p| {
            let k = f.idx[i];
            if f.transparent != Some(k) {
                p.copy_from_slice(&[pal[k as usize * 3], pal[k as usize * 3 + 1], pal[k as usize * 3 + 2], 255]);
            }
        });
        out.push(Want { px: c.px.clone(), delay: (f.delay as u64 * 10, 1), tol: 0, tag: "" });
        still.get_or_insert_with(|| c.px.clone());
        match f.dispose {
            2 => c.rect(x, y, w, h, |_, p| p.fill(0)),
            3 => c.px = before,
            _ => {}
        }
    }
    (out, still)
}
pub struct PngSpec {
    w: u32,
    h: u32,
    ct: u8,
    depth: u8,
    pal: Vec<u8>,
    trns: Option<Vec<u8>>,
}
impl PngSpec {
    fn rgba(&self, raw: &[u16]) -> Vec<u8> {
        let ch = [1usize, 0, 3, 1, 2, 0, 4][self.ct as usize];
        let max = ((1u32 << self.depth) - 1) as u32;
        let t16 = |i: usize| self.trns.as_ref().map(|t| u16::from_be_bytes([t[2 * i], t[2 * i + 1]]));
        let sc = |v: u16| (v as u32 * 255 / max) as u8;
        raw.chunks(ch)
            .flat_map(|p| match self.ct {
                0 => [sc(p[0]), sc(p[0]), sc(p[0]), if t16(0) == Some(p[0]) { 0 } else { 255 }],
                2 => [
                    sc(p[0]), sc(p[1]), sc(p[2]),
                    if self.trns.is_some() && (0..3).all(|i| t16(i) == Some(p[i])) { 0 } else { 255 },
                ],
                3 => {
                    let k = p[0] as usize;
                    [self.pal[3 * k], self.pal[3 * k + 1], self.pal[3 * k + 2], self.trns.as_ref().map_or(255, |t| t.get(k).copied().unwrap_or(255))]
                }
                4 => [sc(p[0]), sc(p[0]), sc(p[0]), sc(p[1])],
                _ => [sc(p[0]), sc(p[1]), sc(p[2]), sc(p[3])],
            })
            .collect()
    }
}
fn apng_model(s: &PngSpec, fr: &[ApngFrame], narrow: bool) -> Vec<Want> {
    let mut c = Canvas::new(s.w, s.h, [0; 4]);
    let mut out = vec![];
    let mut tol = 0u8;
    let mut tag = if narrow { "narrow-interlaced" } else { "" };
    let mut prev_dispose = 0;
    for (n, f) in fr.iter().enumerate() {
        let before = c.px.clone();
        let px = s.rgba(&f.raw);
        if f.blend == 1 {
            tol = (tol + 1).min(20);
        }
        c.rect(f.x, f.y, f.w, f.h, |i, p| {
            let q = &px[i * 4..i * 4 + 4];
            if f.blend == 1 {
                over(p, q)
            } else {
                p.copy_from_slice(q)
            }
        });
        let den = if f.den == 0 { 100 } else { f.den as u64 };
        out.push(Want { px: c.px.clone(), delay: (f.num as u64 * 1000, den), tol, tag });
        match f.dispose {
            1 => c.rect(f.x, f.y, f.w, f.h, |_, p| p.fill(0)),
            // "If the first frame uses previous, it is treated as background"
            2 if n == 0 => c.rect(f.x, f.y, f.w, f.h, |_, p| p.fill(0)),
            2 => {
                if prev_dispose == 1 && tag.is_empty() {
                    tag = "previous-after-background";
                }
                c.px = before
            }
            _ => {}
        }
        prev_dispose = f.dispose;
    }
    out
}
fn webp_model(s: &WebpSpec, bg: Option<[u8; 4]>) -> Vec<Want> {
    // the file's background (stored as blue, green, red, alpha) unless the caller sets one
    let clear = bg.unwrap_or(s.bg);
    let alpha = s.frames.iter().any(|f| f.alpha);
    let mut c = Canvas::new(s.w, s.h, clear);
    let mut out = vec![];
    let mut tol = 0u8;
    let mut tag = if bg.is_none() && s.bg[0] != s.bg[2] { "background-channels" } else { "" };
    let mut part = false;
    for f in &s.frames {
        if f.blend {
            tol = (tol + 1).min(20);
            if part && (f.w, f.h) == (s.w, s.h) {
                tag = "whole-canvas-disposed";
            }
        }
        part = f.dispose && (f.w, f.h) != (s.w, s.h);
        c.rect(f.x, f.y, f.w, f.h, |i, p| {
            let q = &f.px[i * 4..i * 4 + 4];
            if f.blend {
                over(p, q)
            } else {
                p.copy_from_slice(q)
            }
        });
        let mut px = c.px.clone();
        if !alpha {
            px.chunks_mut(4).for_each(|p| p[3] = 255);
        }
        out.push(Want { px, delay: (f.delay as u64, 1), tol, tag });
        if f.dispose {
            c.rect(f.x, f.y, f.w, f.h, |_, p| p.copy_from_slice(&clear));
        }
    }
    out
}
fn build(fmt: &str, seed: u64, max: u32, dropped: &[u32], bg: Option<[u8; 4]>) -> Anim {
    let mut r = Rng::new(seed);
    let mut i = 0;
    let mut keep = || {
        i += 1;
        !dropped.contains(&(i - 1))
    };
    match fmt {
        "gif" => {
            let mut s = forge::gif_spec(&mut r, max);
            s.frames.retain(|_| keep());
            let describe = s.frames.iter().map(|f| format!("{}x{}+{}+{} dispose {} transparent {:?} delay {}", f.w, f.h, f.x, f.y, f.dispose, f.transparent, f.delay)).collect::<Vec<_>>().join("; ");
            let bytes = forge::gif_build(&mut r, &s);
            let (frames, still) = gif_model(&s);
            Anim { w: s.w as u32, h: s.h as u32, bytes, frames, refused: false, describe, still }
        }
        "png" => {
            let (w, h) = forge::dims(&mut r, max);
            let (ct, depth) = *r.pick(&[(0u8, 1u8), (0, 2), (0, 4), (0, 8), (2, 8), (2, 8), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (6, 8), (6, 8), (6, 8), (0, 16), (6, 16)]);
            let ch = [1usize, 0, 3, 1, 2, 0, 4][ct as usize];
            let colors = if ct == 3 { r.range(1, 1 << depth) as u32 } else { 0 };
            let pal: Vec<u8> = (0..colors * 3).map(|_| r.u8()).collect();
            let trns: Option<Vec<u8>> = if r.chance(1, 2) && depth < 16 {
                let m = ((1u32 << depth) - 1) as u16;
                match ct {
                    0 => Some((r.u64() as u16 & m).to_be_bytes().to_vec()),
                    2 => Some((0..3).flat_map(|_| (r.u64() as u16 & m).to_be_bytes()).collect()),
                    3 => Some((0..r.range(1, colors as u64)).map(|_| *r.pick(&[0u8, 255, 0, 128, 7])).collect()),
                    _ => None,
                }
            } else {
                None
            };
            let nf = r.range(1, 7);
            let sep = r.chance(1, 4);
            let mut fr = vec![];
            for i in 0..nf {
                let (fw, fh, x, y) = if (i == 0 && !sep) || r.chance(1, 6) {
                    (w, h, 0, 0)
                } else {
                    let fw = r.range(1, w as u64) as u32;
                    let fh = r.range(1, h as u64) as u32;
                    (fw, fh, r.range(0, (w - fw) as u64) as u32, r.range(0, (h - fh) as u64) as u32)
                };
                let mut raw = forge::raw16(&mut r, (fw * fh) as usize, ch, depth, colors);
                if depth == 8 && (ct == 4 || ct == 6) && r.chance(2, 3) {
                    // mostly fully opaque or fully transparent
                    for p in raw.chunks_mut(ch) {
                        let a = &mut p[ch - 1];
                        *a = if *a < 100 { 0 } else if *a < 200 { 255 } else { *a };
                    }
                }
                fr.push(ApngFrame {
                    w: fw, h: fh, x, y,
                    num: *r.pick(&[0u16, 1, 7, 40, 999, 65535]),
                    den: *r.pick(&[0u16, 1, 10, 30, 100, 1000, 65535]),
                    dispose: r.below(3) as u8,
                    blend: r.below(2) as u8,
                    raw,
                });
            }
            let first_whole = fr[0].w == w && fr[0].h == h;
            fr.retain(|_| keep());
            let sep = sep || fr.first().map_or(true, |f| f.w != w || f.h != h) || !first_whole;
            let raw = forge::raw16(&mut r, (w * h) as usize, ch, depth, colors);
            let adam7 = r.chance(1, 4);
            if adam7 && r.chance(9, 10) {
                // see the finding about narrow interlaced frames
                for f in &mut fr {
                    if f.w < w {
                        (f.w, f.x) = (w, 0);
                        f.raw = forge::raw16(&mut r, (w * f.h) as usize, ch, depth, colors);
                    }
                }
            }
            let narrow = adam7 && fr.iter().any(|f| f.w < w && f.h > 1);
            let s = PngSpec { w, h, ct, depth, pal: pal.clone(), trns: trns.clone() };
            let bytes = forge::png_build(&mut r, w, h, ct, depth, adam7, &pal, trns.as_deref(), &raw, &fr, sep);
            let describe = format!("colour type {ct} depth {depth} adam7 {adam7} sep {sep}: ")
                + &fr.iter().map(|f| format!("{}x{}+{}+{} dispose {} blend {} delay {}/{}", f.w, f.h, f.x, f.y, f.dispose, f.blend, f.num, f.den)).collect::<Vec<_>>().join("; ");
            let frames = if depth == 16 { vec![] } else { apng_model(&s, &fr, narrow) };
            let still = if depth == 16 { None } else { Some(s.rgba(if sep || fr.is_empty() { &raw } else { &fr[0].raw })) };
            Anim { w, h, bytes, refused: depth == 16 && !fr.is_empty(), frames, describe, still }
        }
        _ => {
            let mut s = forge::webp_spec(&mut r, max, true);
            s.frames.retain(|_| keep());
            if r.chance(7, 8) {
                s.bg[2] = s.bg[0];
            }
            if r.chance(2, 3) {
                // mostly fully opaque or fully transparent
                for f in &mut s.frames {
                    for p in f.px.chunks_mut(4) {
                        p[3] = if p[3] < 100 { if f.alpha { 0 } else { 255 } } else if p[3] < 200 { 255 } else { p[3] };
                    }
                }
            }
            let describe = s.frames.iter().map(|f| format!("{}x{}+{}+{} blend {} dispose {} alpha {} delay {}", f.w, f.h, f.x, f.y, f.blend, f.dispose, f.alpha, f.delay)).collect::<Vec<_>>().join("; ");
            let bytes = forge::webp_build(&mut r, &s);
            let frames = webp_model(&s, bg);
            let still = None;
            Anim { w: s.w, h: s.h, bytes, frames, refused: s.frames.is_empty(), describe, still }
        }
    }
}

// ------------------------------------------------------------------ scenarios
fn eop(r: &mut Rng) -> EOp {
    let (w, h) = (r.range(1, 14) as u32, r.range(1, 14) as u32);
    let seed = r.u64();
    match r.below(8) {
        0 => EOp::Image { seed, w, h, rgb: r.chance(1, 2) },
        1 => EOp::Repeat(r.below(4) as u16),
        2 | 3 => EOp::Frames { seed, n: r.range(0, 4) as u32, w, h, delay: r.skewed(3000) as u32, fallible: r.chance(1, 2) },
        _ => EOp::Frame { seed, w, h, delay: (r.skewed(2_000_000) as u32, *r.pick(&[1u32, 1, 1, 3, 7, 1000])) },
    }
}
pub fn gen08(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let enc = r.chance(1, 4);
    let mut plan = if r.chance(1, 3) { cursor_plan() } else { delivery(r) };
    plan.seed = r.u64();
    let kind08 = if enc {
        let n = r.range(1, 6);
        let same = r.chance(2, 3);
        let (w, h) = (r.range(1, 24) as u32, r.range(1, 24) as u32);
        let mut ops: Vec<EOp> = (0..n).map(|_| eop(r)).collect();
        if same {
            for o in &mut ops {
                match o {
                    EOp::Frame { w: a, h: b, .. } | EOp::Frames { w: a, h: b, .. } | EOp::Image { w: a, h: b, .. } => (*a, *b) = (w, h),
                    _ => {}
                }
            }
        }
        if r.chance(1, 6) {
            ops.push(EOp::Write { seed: r.u64(), w, h });
        }
        let mut wplan = if r.chance(1, 2) { IoPlan::ideal() } else { delivery(r) };
        wplan.seed = r.u64();
        Kind08::Encode { speed: *r.pick(&[1u8, 10, 10, 30, 30]), ops, wplan }
    } else {
        let fmt = *r.pick(&["gif", "gif", "png", "png", "webp"]);
        let max = if t == Tier::Thorough && r.chance(1, 6) { 60 } else { *r.pick(&[3u32, 6, 12, 24]) };
        let bg = if fmt == "webp" && r.chance(1, 3) { Some([r.u8(), r.u8(), r.u8(), *r.pick(&[0u8, 255, 128])]) } else { None };
        Kind08::Decode { fmt: fmt.into(), seed: r.u64(), max, drop: vec![], bg }
    };
    if !enc && r.chance(1, 3) {
        // a source failing somewhere: nothing but a true prefix may come out
        let n = if let Kind08::Decode { fmt, seed, max, .. } = &kind08 { build(fmt, *seed, *max, &[], None).bytes.len() as u64 } else { 1 };
        for _ in 0..r.range(1, 2) {
            let (when, class) = match r.below(3) {
                0 => (When::Op(r.below(40)), Class::Any),
                1 => (When::Op(r.below(12)), Class::Seek),
                _ => (When::Byte(r.below(n + 1)), Class::Data),
            };
            plan.faults.push(Fault { when, class, kind: kind(r), persistent: r.chance(1, 3) });
        }
        if r.chance(1, 4) {
            plan.truncate = Some(r.below(n + 1));
        }
    }
    serde_json::to_value(B08 { kind: kind08, plan, mode: r.below(4) as u8, extra: r.range(1, 4) as u8 }).unwrap()
}
pub fn shrink08(v: &Value) -> Vec<Value> {
    let b = b08(v);
    let mut out = vec![];
    let mut push = |b: B08| out.push(serde_json::to_value(b).unwrap());
    match &b.kind {
        Kind08::Decode { fmt, seed, max, drop, bg } => {
            for i in 0..8 {
                if !drop.contains(&i) {
                    let mut d = drop.clone();
                    d.push(i);
                    push(B08 { kind: Kind08::Decode { fmt: fmt.clone(), seed: *seed, max: *max, drop: d, bg: *bg }, ..b.clone() });
                }
            }
            for m in [2, 3, 6, 12] {
                if m < *max {
                    for k in 0..6 {
                        push(B08 { kind: Kind08::Decode { fmt: fmt.clone(), seed: seed.wrapping_add(k), max: m, drop: drop.clone(), bg: *bg }, ..b.clone() });
                    }
                }
            }
            if bg.is_some() {
                push(B08 { kind: Kind08::Decode { fmt: fmt.clone(), seed: *seed, max: *max, drop: drop.clone(), bg: None }, ..b.clone() });
            }
        }
        Kind08::Encode { speed, ops, wplan } => {
            for i in 0..ops.len() {
                let mut o = ops.clone();
                o.remove(i);
                push(B08 { kind: Kind08::Encode { speed: *speed, ops: o, wplan: wplan.clone() }, ..b.clone() });
            }
            for i in 0..ops.len() {
                let mut o = ops.clone();
                let changed = match &mut o[i] {
                    EOp::Frame { w, h, .. } | EOp::Frames { w, h, .. } | EOp::Image { w, h, .. } | EOp::Write { w, h, .. } if (*w, *h) != (1, 1) => {
                        (*w, *h) = ((*w / 2).max(1), (*h / 2).max(1));
                        true
                    }
                    _ => false,
                };
                if changed {
                    push(B08 { kind: Kind08::Encode { speed: *speed, ops: o, wplan: wplan.clone() }, ..b.clone() });
                }
            }
            for p in shrink_plan(wplan) {
                push(B08 { kind: Kind08::Encode { speed: *speed, ops: ops.clone(), wplan: p }, ..b.clone() });
            }
        }
    }
    for p in shrink_plan(&b.plan) {
        push(B08 { plan: p, ..b.clone() });
    }
    if b.mode != 0 {
        push(B08 { mode: 0, ..b.clone() });
    }
    out
}

// ------------------------------------------------------------------ execution
struct Got {
    px: Vec<u8>,
    w: u32,
    h: u32,
    off: (u32, u32),
    delay: (u32, u32),
}
#[derive(Default)]
struct Seen {
    frames: Vec<Got>,
    err: Option<String>,
    /// frames after the first error
    after_err: u32,
    /// something other than None after the end
    revived: Option<String>,
    ended: bool,
}
fn got(f: Frame) -> Got {
    let d = f.delay().numer_denom_ms();
    let off = (f.left(), f.top());
    let b = f.into_buffer();
    Got { w: b.width(), h: b.height(), off, delay: d, px: b.into_raw() }
}
fn drain(mut fr: Frames, b: &B08, want: usize, seen: &mut Seen) {
    if b.mode == 1 {
        match fr.collect_frames() {
            Ok(v) => {
                seen.frames = v.into_iter().map(got).collect();
                seen.ended = true;
            }
            Err(e) => seen.err = Some(e.to_string()),
        }
        return;
    }
    if b.mode == 2 {
        for f in fr.by_ref().take(want / 2) {
            match f {
                Ok(f) => seen.frames.push(got(f)),
                Err(e) => {
                    seen.err = Some(e.to_string());
                    break;
                }
            }
        }
    }
    if b.mode == 3 {
        let (lo, hi) = fr.size_hint();
        if lo > want || hi.map_or(false, |h| h < want && seen.err.is_none()) {
            run::fail("size-hint", "", format!("size_hint says {lo}..{hi:?} for {want} frames"));
        }
    }
    if seen.err.is_none() {
        loop {
            match fr.next() {
                None => {
                    seen.ended = true;
                    break;
                }
                Some(Ok(f)) => seen.frames.push(got(f)),
                Some(Err(e)) => {
                    seen.err = Some(e.to_string());
                    break;
                }
            }
            if seen.frames.len() > want + 8 {
                break;
            }
        }
    }
    for _ in 0..b.extra {
        match fr.next() {
            None => {}
            Some(Ok(_)) if seen.err.is_some() => seen.after_err += 1,
            Some(Err(_)) if seen.err.is_some() => {}
            Some(x) => {
                seen.revived = Some(match x {
                    Ok(_) => "a frame".into(),
                    Err(e) => format!("the error {e}"),
                })
            }
        }
    }
}
fn frames_of(fmt: &str, rd: SimReader, bg: Option<[u8; 4]>, b: &B08, want: usize, seen: &mut Seen) -> ImageResult<(u32, u32)> {
    Ok(match fmt {
        "gif" => {
            let d = gif::GifDecoder::new(rd)?;
            let n = d.dimensions();
            drain(d.into_frames(), b, want, seen);
            n
        }
        "png" => {
            let d = png::PngDecoder::new(rd)?;
            let n = d.dimensions();
            if !d.is_apng()? {
                run::bump("not_apng", 1);
            }
            drain(d.apng()?.into_frames(), b, want, seen);
            n
        }
        _ => {
            let mut d = webp::WebPDecoder::new(rd)?;
            let n = d.dimensions();
            if let Some(c) = bg {
                d.set_background_color(image::Rgba(c))?;
            }
            drain(d.into_frames(), b, want, seen);
            n
        }
    })
}
fn check_frames(seen: &Seen, a: &Anim, complete: bool, what: &str) {
    for (i, g) in seen.frames.iter().enumerate() {
        let Some(w) = a.frames.get(i) else {
            return run::fail("too-many-frames", "", format!("frame {} of {} stored ones; {what}", i + 1, a.frames.len()));
        };
        if (g.w, g.h) != (a.w, a.h) || g.off != (0, 0) {
            return run::fail("wrong-size", "", format!("frame {i} is {}x{} at {:?}, the canvas is {}x{}; {what}", g.w, g.h, g.off, a.w, a.h));
        }
        if let Some(at) = g.px.iter().zip(&w.px).enumerate().position(|(k, (x, y))| {
            // the colour of a transparent pixel is of no importance once blending was involved
            let alpha = (g.px[k | 3], w.px[k | 3]);
            let t = w.tol as i32;
            let d = (*x as i32 - *y as i32).abs();
            if t > 0 && k & 3 != 3 {
                let m = alpha.0.min(alpha.1) as i32;
                // rounding of the colour grows as alpha shrinks
                if m == 0 {
                    return d > 0 && alpha.0.max(alpha.1) > w.tol;
                }
                return d > t + t * 255 / m;
            }
            d > t
        }) {
            let p = at / 4;
            return run::fail(
                "wrong-frame", w.tag,
                format!(
                    "frame {i}, pixel ({}, {}) is {:?}, compositing gives {:?}; {}; {what}",
                    p as u32 % a.w, p as u32 / a.w, &g.px[p * 4..p * 4 + 4], &w.px[p * 4..p * 4 + 4], a.describe
                ),
            );
        }
        if g.delay.0 as u64 * w.delay.1 != w.delay.0 * g.delay.1 as u64 {
            return run::fail("wrong-delay", "", format!("frame {i} lasts {}/{} ms, stored {}/{} ms; {}; {what}", g.delay.0, g.delay.1, w.delay.0, w.delay.1, a.describe));
        }
    }
    if complete && seen.frames.len() != a.frames.len() {
        run::fail("missing-frames", "", format!("{} of {} frames; {}; {what}", seen.frames.len(), a.frames.len(), a.describe));
    }
    if let Some(x) = &seen.revived {
        run::fail("not-over-after-end", "", format!("after None came {x}; {what}"));
    }
}
pub fn exec08(v: &Value) {
    let b = b08(v);
    run::ops_budget(6_000_000, "");
    run::concrete(v.clone());
    match &b.kind {
        Kind08::Decode { fmt, seed, max, drop, bg } => {
            run::set_site(&format!("{fmt}|frames"));
            let a = build(fmt, *seed, *max, drop, *bg);
            run::bump(&format!("fmt_{fmt}"), 1);
            let (rd, st) = SimReader::new(Rc::new(a.bytes.clone()), &b.plan);
            let mut seen = Seen::default();
            let res = catch(|| frames_of(fmt, rd, *bg, &b, a.frames.len(), &mut seen));
            let s = st.borrow().clone();
            run::io(&s, "read");
            let mut h = Hasher::default();
            for g in &seen.frames {
                h.write(&g.px);
            }
            run::digest(h.finish());
            run::eval(mix2(mix2(hash(&a.bytes), s.trace), b.mode as u64), a.frames.len() > 1);
            run::bump("frames", seen.frames.len() as u64);
            // an "unexpected end" error of the source is as good as an end
            let cut = b.plan.truncate.map_or(false, |n| n < a.bytes.len() as u64) || b.plan.faults.iter().any(|f| KINDS[f.kind as usize].2 == "unexpected-eof");
            let clean = s.hard == 0 && s.eintr == 0 && !cut;
            let res = match res {
                Err(p) => return run::fail("panic", &p.loc, format!("{} at {}; {}", p.msg, p.loc, a.describe)),
                Ok(r) => r,
            };
            let failed = res.as_ref().err().map(|e| e.to_string()).or(seen.err.clone());
            check_frames(&seen, &a, clean && !a.refused && failed.is_none(), &format!("plan {:?} mode {}", b.plan, b.mode));
            if let Some(e) = &failed {
                if clean && !a.refused {
                    run::fail("animation-refused", if fmt == "gif" { gif_dep(&a.bytes, &b.plan, true) } else { "" }, format!("{e}; {}; plan {:?}", a.describe, b.plan));
                }
                if fmt == "png" && seen.after_err > 0 {
                    run::fail("frames-after-error", "", format!("{} frames after the error {e}; {}", seen.after_err, a.describe));
                }
            } else if a.refused && clean && fmt == "png" {
                run::fail("unsupported-accepted", "", a.describe.clone());
            } else if s.hard > 0 && !cut && seen.frames.len() < a.frames.len() && seen.ended {
                run::fail("failure-ends-animation", "", format!("{} of {} frames and no error although the source failed; {}; plan {:?}", seen.frames.len(), a.frames.len(), a.describe, b.plan));
            }
            if let (true, Some(want)) = (clean, &a.still) {
                // a still decode shows the first frame (or the default image)
                let d = catch(|| image::load_from_memory_with_format(&a.bytes, crate::codec::fmt(fmt)).map(|d| d.into_rgba8().into_raw()));
                if let Ok(Ok(px)) = d {
                    let differs = px.chunks(4).zip(want.chunks(4)).any(|(p, q)| p != q && !(p[3] == 0 && q[3] == 0));
                    if differs || px.len() != want.len() {
                        run::fail("wrong-still", "", format!("a still decode does not show the first frame; {}", a.describe));
                    }
                } else {
                    run::fail("still-refused", if fmt == "gif" { gif_dep(&a.bytes, &cursor_plan(), false) } else { "" }, format!("{:?}; {}", d.map(|r| r.map(|p| p.len()).map_err(|e| e.to_string())).map_err(|p| p.msg), a.describe));
                }
            }
            run::sample(json!({"scenario": "decode", "format": fmt, "frames": a.describe, "plan": b.plan}));
        }
        Kind08::Encode { speed, ops, wplan } => {
            run::set_site("gif|encode");
            let (w, sink) = SimWriter::new(wplan);
            let mut want: Vec<(u32, u32, Vec<u8>, u64)> = vec![];
            let r = catch(|| -> ImageResult<()> {
                let mut e = gif::GifEncoder::new_with_speed(w, *speed as i32);
                for op in ops {
                    match op {
                        EOp::Frame { seed, w, h, delay } => {
                            let p = gif_frame(*seed, *w, *h, seed & 1 == 0);
                            let f = Frame::from_parts(RgbaImage::from_raw(*w, *h, p.clone()).unwrap(), 0, 0, Delay::from_numer_denom_ms(delay.0, delay.1));
                            want.push((*w, *h, p, ((delay.0 / delay.1) as u64 / 10).min(65535) * 10));
                            e.encode_frame(f)?;
                        }
                        EOp::Frames { seed, n, w, h, delay, fallible } => {
                            let mk = |i: u32| {
                                let s = seed.wrapping_add(i as u64);
                                gif_frame(s, *w, *h, s & 1 == 0)
                            };
                            let fr = |i: u32| Frame::from_parts(RgbaImage::from_raw(*w, *h, mk(i)).unwrap(), 0, 0, Delay::from_numer_denom_ms(*delay + i * 10, 1));
                            for i in 0..*n {
                                want.push((*w, *h, mk(i), ((*delay + i * 10) as u64 / 10).min(65535) * 10));
                            }
                            if *fallible {
                                e.try_encode_frames((0..*n).map(|i| Ok(fr(i))))?;
                            } else {
                                e.encode_frames((0..*n).map(fr))?;
                            }
                        }
                        EOp::Image { seed, w, h, rgb } => {
                            let p = gif_frame(*seed, *w, *h, *rgb);
                            want.push((*w, *h, p.clone(), 0));
                            if *rgb {
                                let q: Vec<u8> = p.chunks(4).flat_map(|p| p[..3].to_vec()).collect();
                                e.encode(&q, *w, *h, ExtendedColorType::Rgb8)?;
                            } else {
                                e.encode(&p, *w, *h, ExtendedColorType::Rgba8)?;
                            }
                        }
                        EOp::Repeat(n) => e.set_repeat(if *n == 0 { gif::Repeat::Infinite } else { gif::Repeat::Finite(*n) })?,
                        EOp::Write { seed, w, h } => {
                            let p = gif_frame(*seed, *w, *h, true);
                            want.push((*w, *h, p.clone(), 0));
                            return e.encode(&p, *w, *h, ExtendedColorType::Rgba8);
                        }
                    }
                }
                Ok(())
            });
            let st = sink.borrow().st.clone();
            run::io(&st, "write");
            let bytes = sink.borrow().data.clone();
            run::digest(hash(&bytes));
            run::eval(mix2(hash(v.to_string().as_bytes()), st.trace), want.len() > 1);
            match r {
                Err(p) => return run::fail("panic", &p.loc, format!("{} at {}; {ops:?}", p.msg, p.loc)),
                Ok(Err(e)) => return run::fail("encode-refused", "", format!("{e}; {ops:?}")),
                _ => {}
            }
            if want.is_empty() {
                return;
            }
            let (w, h) = (want[0].0, want[0].1);
            let frames: Vec<Want> = want
                .iter()
                .map(|(fw, fh, p, d)| {
                    let mut c = Canvas::new(w, h, [0; 4]);
                    c.rect(0, 0, *fw, *fh, |i, q| {
                        if p[i * 4 + 3] != 0 {
                            q.copy_from_slice(&[p[i * 4], p[i * 4 + 1], p[i * 4 + 2], 255])
                        }
                    });
                    Want { px: c.px, delay: (*d, 1), tol: 0, tag: "" }
                })
                .collect();
            let a = Anim { w, h, bytes, frames, refused: false, describe: format!("{ops:?}"), still: None };
            let (rd, st) = SimReader::new(Rc::new(a.bytes.clone()), &IoPlan { eintr: 0, ..b.plan.clone() });
            let mut seen = Seen::default();
            let res = catch(|| frames_of("gif", rd, None, &b, a.frames.len(), &mut seen));
            run::io(&st.borrow().clone(), "read");
            run::bump("encoded_frames", a.frames.len() as u64);
            match res {
                Err(p) => return run::fail("panic", &p.loc, format!("reading back: {} at {}; {ops:?}", p.msg, p.loc)),
                Ok(Err(e)) => return run::fail("unreadable", gif_dep(&a.bytes, &IoPlan { eintr: 0, ..b.plan.clone() }, true), format!("{e}; {ops:?}")),
                _ => {}
            }
            if let Some(e) = &seen.err {
                return run::fail("unreadable", gif_dep(&a.bytes, &IoPlan { eintr: 0, ..b.plan.clone() }, true), format!("{e}; {ops:?}"));
            }
            check_frames(&seen, &a, true, "read back");
            run::sample(json!({"scenario": "encode", "ops": ops, "speed": speed}));
        }
    }
}
