//! C05 sink independence, C06 failed writes are reported, C07 lossless round trips,
//! C17 encoders and decoders after failure and abandonment.
use crate::codec::*;
use crate::enc::*;
use crate::p_read::{delivery, kind, pick_route, shrink_plan, Plans};
use crate::rng::{hash, mix2, Rng};
use crate::run::{self, catch, Tier};
use crate::simio::*;
use crate::{alloc, input, simos};
use image::codecs::*;
use image::{Frame, ImageResult, RgbaImage};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Body {
    pub job: Job,
    pub plans: Plans,
    #[serde(default)]
    pub read: Option<(Route, IoPlan)>,
    #[serde(default)]
    pub open_errno: i32,
}
fn body(v: &Value) -> Body {
    serde_json::from_value(v.clone()).expect("scenario body")
}
fn to(b: &Body) -> Value {
    serde_json::to_value(b).unwrap()
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let b = body(v);
    let mut out = vec![];
    if let Plans::List(l) = &b.plans {
        if l.len() == 1 {
            for p in shrink_plan(&l[0]) {
                out.push(to(&Body { plans: Plans::List(vec![p]), ..b.clone() }));
            }
            if l[0].capacity.is_some() && !l[0].faults.is_empty() {
                let mut p = l[0].clone();
                p.capacity = None;
                out.push(to(&Body { plans: Plans::List(vec![p]), ..b.clone() }));
            }
        }
    }
    if let Some((rt, p)) = &b.read {
        if *p != cursor_plan() {
            out.push(to(&Body { read: Some((*rt, cursor_plan())), ..b.clone() }));
        }
    }
    for j in shrink_job(&b.job) {
        out.push(to(&Body { job: j.clone(), ..b.clone() }));
        for s in 0..2 {
            if b.read.is_none() {
                out.push(to(&Body { job: j.clone(), plans: Plans::Auto { seed: s, n: 24 }, ..b.clone() }));
            }
        }
    }
    out
}
fn start(b: &Body) -> Vec<u8> {
    run::set_site(&format!("{}|{:?}", b.job.enc.fmt(), b.job.route));
    run::ops_budget(8_000_000, "(encoding)");
    run::bump(&format!("enc_{}", b.job.enc.fmt()), 1);
    b.job.pixels()
}
fn plans(p: &Plans, mut g: impl FnMut(&mut Rng, u32) -> IoPlan) -> Vec<IoPlan> {
    match p {
        Plans::List(l) => l.clone(),
        Plans::Auto { seed, n } => {
            let mut r = Rng::new(*seed);
            (0..*n).map(|i| g(&mut r, i)).collect()
        }
    }
}
fn brief(o: &WOut) -> String {
    format!("{} {} bytes {:016x}", o.end.tag(), o.bytes.len(), hash(&o.bytes))
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at byte {k}", a.len(), b.len())
}
fn weight(j: &Job, n: u32) -> u32 {
    match j.enc {
        Enc::Avif { .. } => 2,
        Enc::Exr => 1 + n / 4,
        _ if (j.w * j.h) > 4000 => 1 + n / 3,
        _ => n,
    }
}

// ------------------------------------------------------------------ C05
pub fn gen05(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let max = if t == Tier::Thorough && r.chance(1, 4) { 220 } else { 48 };
    let job = any_job(r, true, max);
    let n = weight(&job, 8);
    to(&Body { job, plans: Plans::Auto { seed: r.u64(), n }, read: None, open_errno: 0 })
}
pub fn exec05(v: &Value) {
    let b = body(v);
    let px = start(&b);
    let refr = encode(&b.job, &px, &IoPlan::ideal());
    run::digest(hash(&refr.bytes));
    run::bump(if refr.end.ok() { "ref_ok" } else { "ref_err" }, 1);
    for pl in plans(&b.plans, |r, i| match i {
        0 => IoPlan { seed: r.u64(), chunk: Chunk::AtMost(1), ..IoPlan::default() },
        1 => IoPlan { seed: r.u64(), chunk: Chunk::AtMost(3), eintr: 400, ..IoPlan::default() },
        _ => delivery(r),
    }) {
        run::concrete(to(&Body { plans: Plans::List(vec![pl.clone()]), ..b.clone() }));
        run::ops_budget(8_000_000, "");
        let d = encode(&b.job, &px, &pl);
        run::io(&d.st, "write");
        run::digest(hash(&d.bytes));
        run::eval(b.job.case(d.st.trace), d.st.short + d.st.eintr > 0);
        let same = match (&refr.end, &d.end) {
            (End::Ok, End::Ok) => d.bytes == refr.bytes,
            (End::Ok, _) | (_, End::Ok) => false,
            (End::Panic(..), End::Panic(..)) => true,
            (End::Panic(..), _) | (_, End::Panic(..)) => false,
            _ => true,
        };
        if !same {
            run::fail(
                "sink-dependence",
                if d.st.eintr > 0 { "eintr" } else { "short" },
                format!("{}: ideal sink: {}; plan {pl:?}: {}; {}", b.job.describe(), brief(&refr), brief(&d), diff(&refr.bytes, &d.bytes)),
            );
        }
        if !d.closed {
            run::fail("sink-not-released", "", format!("{}: the sink was not dropped", b.job.describe()));
        }
        run::sample(json!({"job": b.job.describe(), "plan": pl, "ideal": brief(&refr), "observed": brief(&d)}));
    }
}

// ------------------------------------------------------------------ C06
pub fn gen06(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let max = if t == Tier::Thorough && r.chance(1, 4) { 150 } else { 40 };
    let job = any_job(r, true, max);
    let n = weight(&job, 24);
    to(&Body { job, plans: Plans::Auto { seed: r.u64(), n }, read: None, open_errno: if r.chance(1, 30) { *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMFILE]) } else { 0 } })
}
pub fn write_fault(r: &mut Rng, st: &IoStats, len: u64, p: &mut IoPlan) {
    if r.chance(1, 4) {
        p.capacity = Some(match r.below(3) {
            0 => len.saturating_sub(r.below(len.min(24) + 1)).min(len.saturating_sub(1)),
            1 => r.below(len.min(80).max(1)),
            _ => r.below(len.max(1)),
        });
        p.zero_when_full = r.chance(1, 3);
        return;
    }
    let (when, class) = match r.below(8) {
        0 | 1 => (When::Byte(r.below(len.max(1))), Class::Data),
        2 => (When::Byte(len.saturating_sub(1 + r.below(len.min(24).max(1)))), Class::Data),
        3 if st.seek_ops > 0 => (When::Op(r.below(st.seek_ops)), Class::Seek),
        4 if st.flush_ops > 0 => (When::Op(r.below(st.flush_ops)), Class::Flush),
        5 => (When::Op(st.data_ops.saturating_sub(1 + r.below(3))), Class::Data),
        6 => (When::Op(r.below(st.data_ops.max(1))), Class::Data),
        _ => (When::Op(r.below(st.ops.max(1))), Class::Any),
    };
    p.faults.push(Fault { when, class, kind: kind(r), persistent: r.chance(1, 2) });
}
pub fn exec06(v: &Value) {
    let b = body(v);
    let px = start(&b);
    let refr = encode(&b.job, &px, &IoPlan::ideal());
    run::digest(hash(&refr.bytes));
    if !refr.end.ok() {
        run::eval(0, false);
        return;
    }
    if b.job.route.file() && b.open_errno != 0 {
        // the file cannot even be opened
        let path = path_of(&b.job);
        let mut fs = simos::SimFs::default();
        fs.open_errno = Some(b.open_errno);
        simos::fs_mount(fs);
        let r = catch(|| image::save_buffer(&path, &px, b.job.w, b.job.h, b.job.col.ext()));
        simos::fs_unmount();
        run::bump("open_error", 1);
        match end_of(r) {
            End::Err(..) => {}
            e => run::fail("write-failure-hidden", "open", format!("opening {path} failed with errno {}, result {}", b.open_errno, e.tag())),
        }
    }
    let n = refr.bytes.len() as u64;
    for pl in plans(&b.plans, |r, _| {
        let mut q = if r.chance(1, 2) { IoPlan::ideal() } else { delivery(r) };
        q.eintr = 0;
        q.seed = r.u64();
        write_fault(r, &refr.st, n, &mut q);
        if r.chance(1, 6) {
            write_fault(r, &refr.st, n, &mut q);
        }
        q
    }) {
        run::concrete(to(&Body { plans: Plans::List(vec![pl.clone()]), ..b.clone() }));
        run::ops_budget(8_000_000, "");
        let d = encode(&b.job, &px, &pl);
        run::io(&d.st, "write");
        run::digest(hash(&d.bytes));
        let hit = d.st.hard > 0 || d.st.full > 0;
        run::eval(b.job.case(d.st.trace), hit);
        match &d.end {
            End::Panic(m, l) => run::fail("panic-on-sink-failure", l, format!("{}: {m} at {l}; plan {pl:?}", b.job.describe())),
            End::Ok if hit => run::fail(
                "write-failure-hidden",
                if d.bytes == refr.bytes {
                    "complete"
                } else if d.st.hard_flush > 0 {
                    "flush"
                } else if d.bytes.len() + 1 == refr.bytes.len() {
                    "trailer"
                } else {
                    "data"
                },
                format!("{}: a sink operation failed, yet success was reported; plan {pl:?}; {}", b.job.describe(), diff(&refr.bytes, &d.bytes)),
            ),
            End::Ok if d.bytes != refr.bytes => {
                run::fail("incomplete-success", "", format!("{}: success with an incomplete encoding; plan {pl:?}; {}", b.job.describe(), diff(&refr.bytes, &d.bytes)))
            }
            _ => {}
        }
        run::sample(json!({"job": b.job.describe(), "plan": pl, "ideal": brief(&refr), "observed": brief(&d)}));
    }
}

// ------------------------------------------------------------------ C07
pub fn gen07(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let max = if t == Tier::Thorough && r.chance(1, 3) { 300 } else { 64 };
    let mut job = loop {
        let j = any_job(r, true, max);
        if lossless(&j).is_some() || (chosen(&j) && r.chance(1, 2)) || (near(&j) && r.chance(1, 2)) {
            break j;
        }
    };
    if matches!(job.enc, Enc::Ico { .. }) && r.chance(1, 6) {
        // images of many kilobytes
        (job.w, job.h) = (r.range(180, 256) as u32, r.range(180, 256) as u32);
    }
    if r.chance(1, 40) {
        match r.below(3) {
            0 => job.w = 0,
            1 => job.h = 0,
            _ => (job.w, job.h) = (0, 0),
        }
    }
    // at and beyond the largest sizes that the formats can express
    let huge = job.w > 0 && job.h > 0 && r.chance(1, 60);
    if huge {
        let w = *r.pick(&[255u32, 256, 257, 300, 4096, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 70001]);
        let h = r.range(1, 2) as u32;
        (job.w, job.h) = if r.chance(1, 2) { (w, h) } else { (h, w) };
    }
    let f = job.enc.fmt();
    let rt = loop {
        let t = pick_route(r, f);
        // (only decoder objects show the colour profile)
        if job.icc > 0 && !matches!(t, Route::Boxed | Route::Concrete) && r.chance(2, 3) {
            continue;
        }
        if (t != Route::Frames || f == "gif") && !matches!(t, Route::Special | Route::Special2) {
            break t;
        }
    };
    let p = if huge || r.chance(1, 2) { cursor_plan() } else { delivery(r) };
    let mut p = p;
    p.eintr = 0;
    let w = if huge || r.chance(1, 2) { IoPlan::ideal() } else { delivery(r) };
    to(&Body { job, plans: Plans::List(vec![w]), read: Some((rt, p)), open_errno: 0 })
}
/// the largest width and height that the format can express
fn largest(f: &str) -> u32 {
    match f {
        "ico" => 256,
        "webp" => 16384,
        "tga" | "gif" | "jpeg" => 65535,
        _ => u32::MAX,
    }
}
/// encoding with a header chosen by the caller: may be refused, must not lose anything
fn chosen(j: &Job) -> bool {
    matches!(j.enc, Enc::Pnm { sub: 8..=16, .. }) && j.route == WRoute::Encoder && j.col.size() <= 2 && j.col != Col::L1
}
fn widen(px: &[u8], from: Col, to: Col) -> Vec<u8> {
    match (from, to) {
        (a, b) if a == b => px.to_vec(),
        (Col::L8, Col::Rgb8) => px.iter().flat_map(|v| [*v; 3]).collect(),
        (Col::La8, Col::Rgba8) => px.chunks(2).flat_map(|v| [v[0], v[0], v[0], v[1]]).collect(),
        (Col::Rgb8, Col::Rgba8) => px.chunks(3).flat_map(|v| [v[0], v[1], v[2], 255]).collect(),
        _ => panic!("no widening from {from:?} to {to:?}"),
    }
}
fn samples(px: &[u8], c: Col) -> impl Iterator<Item = u32> + '_ {
    let n = c.size();
    px.chunks(n.min(2)).map(move |s| if n == 1 { s[0] as u32 } else { u16::from_ne_bytes([s[0], s[1]]) as u32 })
}
/// an image without pixels is stored or refused; not every format can express one
fn empty07(b: &Body, d: &WOut, what: &str) {
    run::eval(b.job.case(d.st.trace), true);
    run::bump("empty_images", 1);
    match &d.end {
        End::Panic(m, l) => run::fail("panic-on-encode", l, format!("{what}: {m} at {l}")),
        e if !e.ok() => return,
        _ => {}
    }
    let f = b.job.enc.fmt();
    let (rt, rp) = b.read.clone().unwrap();
    let r = decode(f, rt, &Rc::new(d.bytes.clone()), &rp, &Opt::default(), true);
    run::digest(r.out.key());
    if let End::Panic(m, l) = &r.out.end {
        run::fail("panic-on-decode", l, format!("{what}: {m} at {l}"));
    }
    if r.out.end.ok() && rt != Route::Frames && r.out.dims != (b.job.w, b.job.h) {
        run::fail("round-trip", "dimensions", format!("{what}: decoded as {:?}", r.out.dims));
    }
}
fn icc07(b: &Body, o: &Outcome, rt: Route, what: &str) {
    if b.job.icc > 0 && matches!(rt, Route::Boxed | Route::Concrete) && matches!(b.job.enc.fmt(), "png" | "webp" | "jpeg") {
        let want = hash(&b.job.icc_bytes()) | 1;
        if o.icc != want {
            run::fail("round-trip", "icc", format!("{what}: the {}-byte ICC profile came back {}", b.job.icc, if o.icc == 0 { "absent" } else { "different" }));
        }
        run::bump("icc_checked", 1);
    }
}
/// JPEG, Radiance HDR and palette BMP: the picture comes back within the bound that the options set
fn near07(b: &Body, px: &[u8], o: &Outcome, rt: Route, what: &str) {
    let (w, h) = (b.job.w as usize, b.job.h as usize);
    let col = match (&b.job.enc, b.job.col) {
        (Enc::Jpeg { .. }, c) => c,
        (Enc::Bmp { .. }, _) => Col::Rgb8,
        _ => Col::Rgb32F,
    };
    if o.dims != (b.job.w, b.job.h) {
        return run::fail("round-trip", "dimensions", format!("{what}: decoded as {:?}", o.dims));
    }
    if o.color != format!("{:?}", image_col(col)) || o.data.len() != w * h * col.ch() * col.size() {
        return run::fail("round-trip", "colour-type", format!("{what}: decoded as {}, {} bytes", o.color, o.data.len()));
    }
    match b.job.enc {
        Enc::Bmp { pal } => {
            let p = if pal > 0 { b.job.bmp_palette(pal) } else { (0..=255).map(|v| [v; 3]).collect() };
            for (i, (a, g)) in px.chunks(b.job.col.ch()).zip(o.data.chunks(3)).enumerate() {
                // what an index beyond the palette shows is not defined
                if p.get(a[0] as usize).is_some_and(|c| c != g) {
                    return run::fail("round-trip", "samples", format!("{what}: pixel {i} with palette index {} became {g:?}", a[0]));
                }
            }
        }
        Enc::Hdr => {
            let f = |b: &[u8]| -> Vec<f32> { b.chunks(4).map(|b| f32::from_ne_bytes(b.try_into().unwrap())).collect() };
            for (i, (a, g)) in f(px).chunks(3).zip(f(&o.data).chunks(3)).enumerate() {
                let max = a.iter().fold(0f32, |m, v| m.max(*v));
                // the shared exponent of the format spans 2^-127 .. 2^127
                let ok = |(x, y): (&f32, &f32)| {
                    if x.is_nan() {
                        return true;
                    }
                    let x = x.clamp(0.0, 1.7e38);
                    (x - y).abs() <= max.min(1.71e38) / 127.0 + 1e-37
                };
                if !a.iter().zip(g).all(ok) {
                    return run::fail("round-trip", "samples", format!("{what}: pixel {i} {a:?} became {g:?}"));
                }
            }
        }
        _ => {
            // Parseval: the quantisation error of a block bounds the squared error of its pixels
            let q = jpeg_quality(&b.job).max(1) as f64;
            let s = if q < 50.0 { 5000.0 / q } else { 200.0 - 2.0 * q };
            let e = |rms: f64| (rms * s / 100.0 + 1.0).min(255.0) / 2.0 + 1.0;
            let ch = b.job.col.ch();
            let bound = if ch == 1 { e(70.0) + 2.0 } else { e(70.0) + 1.772 * e(92.0) + 2.0 };
            for by in (0..h).step_by(8) {
                for bx in (0..w).step_by(8) {
                    let (mut sum, mut seen) = ([0f64; 3], 0);
                    for y in by..h.min(by + 8) {
                        for x in bx..w.min(bx + 8) {
                            seen += 1;
                            for c in 0..ch {
                                let i = (y * w + x) * ch + c;
                                let d = px[i] as f64 - o.data[i] as f64;
                                sum[c] += d * d;
                            }
                        }
                    }
                    let worst = sum.iter().fold(0f64, |m, v| m.max(*v));
                    if worst > 64.0 * bound * bound {
                        let got = (worst / seen as f64).sqrt();
                        let locus = if b.job.w.max(b.job.h) > 65528 { "zune-jpeg-65529" } else { "samples" };
                        return run::fail("round-trip", locus, format!("{what}: the block at {bx},{by} is off by {got:.1} (root mean square), at most {:.1} can be lost", bound * (64.0 / seen as f64).sqrt()));
                    }
                }
            }
        }
    }
    icc07(b, o, rt, what);
    run::bump("bounded_loss_checked", 1);
}
/// Every image of an ICO file, where and as its directory says: the decoder shows only the best one.
fn ico07(job: &Job, n: u8, px: &[u8], file: &[u8], what: &str) {
    let at = |p: usize, k: usize| file.get(p..p + k).unwrap_or(&[0; 4][..k]).iter().rev().fold(0usize, |a, b| a << 8 | *b as usize);
    if at(2, 2) != 1 || at(4, 2) != n as usize {
        run::fail("round-trip", "directory", format!("{what}: the file is of kind {} and has {} images", at(2, 2), at(4, 2)));
    }
    for (i, (px, w, h)) in job.ico_images(n, px).iter().enumerate() {
        let e = 6 + 16 * i;
        let size = |v: usize| if v == 0 { 256 } else { v as u32 };
        if (size(at(e, 1)), size(at(e + 1, 1))) != (*w, *h) {
            run::fail("round-trip", "directory", format!("{what}: image {i} of {w}x{h} is listed as {}x{}", size(at(e, 1)), size(at(e + 1, 1))));
        }
        let (len, off) = (at(e + 8, 4), at(e + 12, 4));
        let stored = file.get(off..off + len).map(|d| run::catch(|| image::load_from_memory_with_format(d, image::ImageFormat::Png)));
        match stored {
            Some(Ok(Ok(g))) if (g.width(), g.height()) == (*w, *h) && g.as_bytes() == &px[..] => {}
            g => {
                let g = match g {
                    None => "outside the file".into(),
                    Some(Ok(Ok(g))) => format!("{}x{} {:?}", g.width(), g.height(), g.color()),
                    Some(Ok(Err(e))) => e.to_string(),
                    Some(Err(p)) => p.msg,
                };
                run::fail("round-trip", "images", format!("{what}: image {i} of {w}x{h} is listed as {len} bytes at {off}, which hold: {g}"));
            }
        }
    }
    run::bump("icon_images_checked", n as u64);
}
pub fn exec07(v: &Value) {
    let b = body(v);
    let px = start(&b);
    let pl = match &b.plans {
        Plans::List(l) => l[0].clone(),
        _ => IoPlan::ideal(),
    };
    run::concrete(to(&b));
    let d = encode(&b.job, &px, &pl);
    run::io(&d.st, "write");
    run::digest(hash(&d.bytes));
    let sel = chosen(&b.job);
    let what = b.job.describe();
    if b.job.w == 0 || b.job.h == 0 {
        return empty07(&b, &d, &what);
    }
    let (psub, pmax) = match b.job.enc {
        Enc::Pnm { sub, max } => (sub, max as u32),
        _ => (0, 0),
    };
    let over = sel && !matches!(psub, 12 | 13) && samples(&px, b.job.col).any(|v| v > pmax);
    if sel && !d.end.ok() {
        if let End::Panic(m, l) = &d.end {
            run::fail("panic-on-encode", l, format!("{what}: {m} at {l}"));
        }
        let fits = match psub {
            8 | 9 | 14 => matches!(b.job.col, Col::L8 | Col::L16),
            10 | 11 | 15 => b.job.col == Col::Rgb8,
            12 | 13 => b.job.col == Col::L8,
            _ => b.job.col == Col::Rgba8,
        };
        if !over && fits {
            run::fail("lossless-refused", "chosen-header", format!("{what}: encoding a valid image failed: {}", d.end.tag()));
        }
        run::eval(b.job.case(d.st.trace), true);
        return;
    }
    if over {
        run::eval(b.job.case(d.st.trace), true);
        run::fail("sample-above-maximum", "chosen-header", format!("{what}: a sample above the chosen maximum was accepted"));
        return;
    }
    let (rt, rp) = b.read.clone().unwrap();
    run::eval(b.job.case(mix2(d.st.trace, rt as u64)), true);
    if !d.end.ok() {
        if let End::Panic(m, l) = &d.end {
            run::fail("panic-on-encode", l, format!("{what}: {m} at {l}"));
        }
        if b.job.w.max(b.job.h) > largest(b.job.enc.fmt()) {
            run::bump("too_large_refused", 1);
            return;
        }
        run::fail("lossless-refused", "", format!("{what}: encoding a valid image failed: {}", d.end.tag()));
        return;
    }
    let f = b.job.enc.fmt();
    if sel && b.job.col.ch() == 4 {
        return; // the decoder does not support RGB_ALPHA maps
    }
    if f != "tga" {
        match image::guess_format(&d.bytes) {
            Ok(g) if g == fmt(f) => {}
            o => run::fail("not-recognised", "", format!("{what}: guess_format gives {o:?}")),
        }
    }
    let data = Rc::new(d.bytes.clone());
    let r = decode(f, rt, &data, &rp, &Opt::default(), true);
    run::io(&r.st, "read");
    run::digest(r.out.key());
    if !r.out.end.ok() {
        let large = b.job.w.max(b.job.h);
        if f == "bmp" && large > 65535 && !matches!(r.out.end, End::Panic(..)) {
            // the decoder declares this limit
            run::bump("too_large_refused", 1);
            return;
        }
        let dep = match f {
            "gif" => gif_dep(&d.bytes, &rp, rt == Route::Frames),
            "webp" if large == 16384 && matches!(&r.out.end, End::Err(_, m) if m.contains("Inconsistent image sizes")) => "image-webp-16384",
            _ => "",
        };
        run::fail("round-trip", if dep.is_empty() { "undecodable" } else { dep }, format!("{what}: the encoded image does not decode: {}", r.out.short()));
        return;
    }
    if near(&b.job) {
        near07(&b, &px, &r.out, rt, &what);
        return;
    }
    if let Enc::Ico { n } = b.job.enc {
        if n > 1 && b.job.route == WRoute::Encoder {
            ico07(&b.job, n, &px, &d.bytes, &what);
        }
    }
    let (want_col, want) = if sel {
        // samples are scaled from the chosen maximum to the full range
        if matches!(psub, 12 | 13) {
            (Col::L8, samples(&px, b.job.col).map(|v| if v == 0 { 0 } else { 255 }).collect::<Vec<u8>>())
        } else if b.job.col.ch() == 4 {
            return;
        } else {
            let (c, full) = match (b.job.col.ch(), pmax > 255) {
                (1, false) => (Col::L8, 255u32),
                (1, true) => (Col::L16, 65535),
                (_, false) => (Col::Rgb8, 255),
                (_, true) => (Col::Rgb16, 65535),
            };
            let mut w = vec![];
            for v in samples(&px, b.job.col) {
                let x = (v as f64 * full as f64 / pmax as f64).round() as u32;
                if full == 255 {
                    w.push(x as u8);
                } else {
                    w.extend_from_slice(&(x as u16).to_ne_bytes());
                }
            }
            (c, w)
        }
    } else if matches!(psub, 1 | 2) || b.job.col == Col::L1 {
        (Col::L8, px.iter().map(|v| if *v == 0 { 0 } else { 255 }).collect::<Vec<u8>>())
    } else {
        let c = lossless(&b.job).unwrap();
        (c, widen(&px, b.job.col, c))
    };
    if rt == Route::Frames {
        let n = match b.job.enc {
            Enc::Gif { frames, .. } if b.job.route == WRoute::Encoder => frames.max(1) as usize,
            _ => 1,
        };
        if r.out.frames.len() != n || r.out.frames[0].hash != hash(&want) {
            run::fail("round-trip", "frames", format!("{what}: {} frames, the first {:016x}, expected {n} with {:016x}", r.out.frames.len(), r.out.frames.first().map_or(0, |f| f.hash), hash(&want)));
        }
        return;
    }
    let col = format!("{:?}", image_col(want_col));
    if r.out.dims != (b.job.w, b.job.h) {
        run::fail("round-trip", "dimensions", format!("{what}: decoded as {:?}", r.out.dims));
    } else if r.out.color != col {
        run::fail("round-trip", "colour-type", format!("{what}: decoded as {}, expected {col}", r.out.color));
    } else if r.out.data != want {
        let nan = |d: &[u8]| -> Vec<u32> {
            d.chunks(4).map(|b| f32::from_ne_bytes(b.try_into().unwrap())).map(|f| if f.is_nan() { 0x7fc00000 } else { f.to_bits() }).collect()
        };
        // rounding of a scaled sample may go either way
        let scaled = sel && samples(&r.out.data, want_col).zip(samples(&want, want_col)).all(|(a, b)| a.abs_diff(b) <= 1);
        if !scaled && (want_col.size() != 4 || nan(&r.out.data) != nan(&want)) {
            run::fail("round-trip", "samples", format!("{what}: samples differ: {}", diff(&want, &r.out.data)));
        }
    }
    icc07(&b, &r.out, rt, &what);
    run::sample(json!({"job": what, "write_plan": pl, "read_route": format!("{rt:?}"), "read_plan": rp, "bytes": d.bytes.len(), "decoded": r.out.short()}));
}
fn image_col(c: Col) -> image::ColorType {
    use image::ColorType as C;
    match c {
        Col::L1 | Col::L8 => C::L8,
        Col::La8 => C::La8,
        Col::Rgb8 => C::Rgb8,
        Col::Rgba8 => C::Rgba8,
        Col::L16 => C::L16,
        Col::La16 => C::La16,
        Col::Rgb16 => C::Rgb16,
        Col::Rgba16 => C::Rgba16,
        Col::Rgb32F => C::Rgb32F,
        Col::Rgba32F => C::Rgba32F,
    }
}

// ------------------------------------------------------------------ C17
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// GIF: one animation frame
    Frame { seed: u64, w: u32, h: u32, delay: u32 },
    /// encode()
    Image { seed: u64, w: u32, h: u32, col: Col },
    /// GIF: several frames in one call, `bad` is an Err item
    Many { seed: u64, n: u8, w: u32, h: u32, bad: Option<u8> },
    Repeat(u8),
    /// a call that must be refused
    Bad(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Gif { speed: u8 },
    Bmp,
    Jpeg { q: u8 },
    Pnm { sub: u8 },
    /// one-shot encoder, abandoned by a panic in the sink
    Abandon { job: Job },
    /// decoder: dropped after `steps` (0 = before construction finishes only by panic)
    Decode { fmt: String, input: input::Input, frames: u32, stop: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seq {
    pub what: What,
    pub ops: Vec<Op>,
    pub plan: IoPlan,
    #[serde(default)]
    pub panic_at: Option<u64>,
}
fn seq(v: &Value) -> Seq {
    serde_json::from_value(v.clone()).expect("scenario body")
}
pub fn shrink17(v: &Value) -> Vec<Value> {
    let b = seq(v);
    let mut out = vec![];
    let mut add = |s: Seq| out.push(serde_json::to_value(s).unwrap());
    for i in 0..b.ops.len() {
        let mut o = b.ops.clone();
        o.remove(i);
        add(Seq { ops: o, ..b.clone() });
    }
    for i in 0..b.ops.len() {
        let small = match &b.ops[i] {
            Op::Frame { seed, w, h, delay } if w * h > 1 => Some(Op::Frame { seed: *seed, w: 1, h: 1, delay: *delay }),
            Op::Image { seed, w, h, col } if w * h > 1 => Some(Op::Image { seed: *seed, w: 1, h: 1, col: *col }),
            Op::Many { seed, w, h, .. } => Some(Op::Frame { seed: *seed, w: *w, h: *h, delay: 0 }),
            _ => None,
        };
        if let Some(s) = small {
            let mut o = b.ops.clone();
            o[i] = s;
            add(Seq { ops: o, ..b.clone() });
        }
    }
    for p in shrink_plan(&b.plan) {
        add(Seq { plan: p, ..b.clone() });
    }
    for (i, f) in b.plan.faults.iter().enumerate() {
        if let When::Op(n) = f.when {
            for m in [0, n / 2, n.saturating_sub(1)] {
                if m < n {
                    let mut p = b.plan.clone();
                    p.faults[i].when = When::Op(m);
                    add(Seq { plan: p, ..b.clone() });
                }
            }
        }
    }
    out
}
pub fn gen17(r: &mut Rng, _i: u64, _t: Tier) -> Value {
    let mut plan = if r.chance(1, 2) { IoPlan::ideal() } else { delivery(r) };
    plan.eintr = 0;
    let what = match r.below(13) {
        0..=3 => What::Gif { speed: r.range(1, 30) as u8 },
        4 | 5 => What::Bmp,
        6 | 7 => What::Jpeg { q: *r.pick(&[10u8, 75, 95]) },
        8 => What::Pnm { sub: r.below(8) as u8 },
        9 | 10 => What::Abandon { job: any_job(r, r.0 % 4 == 0, 24) },
        _ => {
            let f = crate::p_read::pick_fmt(r, false);
            What::Decode { fmt: f.into(), input: input::any_input(r, f, 24), frames: r.below(4) as u32, stop: r.below(5) as u8 }
        }
    };
    let (w, h) = (r.range(1, 24) as u32, r.range(1, 24) as u32);
    let n = r.range(1, 6);
    let ops: Vec<Op> = (0..n)
        .map(|_| match &what {
            What::Gif { .. } => match r.below(10) {
                0 => Op::Repeat(r.below(4) as u8),
                1 => Op::Image { seed: r.u64(), w, h, col: *r.pick(&[Col::Rgb8, Col::Rgba8]) },
                2 => Op::Bad(r.below(3) as u8),
                3 => Op::Many { seed: r.u64(), n: r.range(1, 3) as u8, w, h, bad: if r.chance(1, 3) { Some(r.below(3) as u8) } else { None } },
                _ => Op::Frame { seed: r.u64(), w: if r.chance(1, 6) { r.range(1, 30) as u32 } else { w }, h, delay: r.below(1000) as u32 },
            },
            What::Bmp => match r.below(8) {
                0 => Op::Bad(0),
                _ => Op::Image { seed: r.u64(), w: r.range(1, 20) as u32, h: r.range(1, 20) as u32, col: *r.pick(&[Col::L8, Col::La8, Col::Rgb8, Col::Rgba8]) },
            },
            What::Jpeg { .. } => match r.below(8) {
                0 => Op::Bad(0),
                _ => Op::Image { seed: r.u64(), w: r.range(1, 20) as u32, h: r.range(1, 20) as u32, col: *r.pick(&[Col::L8, Col::Rgb8]) },
            },
            What::Pnm { sub } => match r.below(8) {
                0 => Op::Bad(0),
                _ => Op::Image {
                    seed: r.u64(),
                    w: r.range(1, 20) as u32,
                    h: r.range(1, 20) as u32,
                    col: match sub {
                        1..=4 => Col::L8,
                        5 | 6 => Col::Rgb8,
                        _ => *r.pick(&[Col::L8, Col::Rgb8, Col::Rgba8]),
                    },
                },
            },
            _ => Op::Bad(0),
        })
        .collect();
    let mut panic_at = None;
    match &what {
        What::Abandon { .. } => panic_at = Some(r.skewed(300)),
        What::Decode { .. } => {
            if r.chance(1, 2) {
                panic_at = Some(r.skewed(300))
            } else if r.chance(1, 2) {
                plan.faults.push(Fault { when: When::Op(r.skewed(200)), class: Class::Any, kind: kind(r), persistent: r.chance(1, 2) });
            }
        }
        _ => {
            let k = r.below(10);
            if k < 7 {
                for _ in 0..r.range(1, 2) {
                    let when = match (&what, r.below(3)) {
                        (What::Gif { .. }, 0) => When::Op(r.below(40)),
                        (_, 0) => When::Op(r.skewed(4000)),
                        (What::Gif { .. }, 1) => When::Byte(r.below(60)),
                        (_, 1) => When::Byte(r.skewed(6000)),
                        _ => When::Byte(r.skewed(3000)),
                    };
                    plan.faults.push(Fault { when, class: Class::Data, kind: kind(r), persistent: r.chance(1, 4) });
                }
            } else if k < 8 {
                plan.capacity = Some(r.skewed(3000));
                plan.zero_when_full = r.chance(1, 3);
            } else if k < 9 {
                panic_at = Some(r.skewed(200));
            }
        }
    }
    serde_json::to_value(Seq { what, ops: if matches!(panic_at, Some(_)) && n > 3 { ops[..3].to_vec() } else { ops }, plan, panic_at }).unwrap()
}
fn small_frame(seed: u64, w: u32, h: u32, delay: u32) -> Frame {
    let f = RgbaImage::from_raw(w, h, gif_frame(seed, w, h, seed & 1 == 0)).unwrap();
    Frame::from_parts(f, 0, 0, image::Delay::from_numer_denom_ms(delay, 1))
}
fn px_of(seed: u64, w: u32, h: u32, col: Col, enc: &Enc) -> Vec<u8> {
    Job { enc: enc.clone(), w, h, col, seed, route: WRoute::Encoder, icc: 0, buf: 0 }.pixels()
}
fn one_gif(e: &mut gif::GifEncoder<SimWriter>, op: &Op) -> ImageResult<()> {
    match op {
        Op::Frame { seed, w, h, delay } => e.encode_frame(small_frame(*seed, *w, *h, *delay)),
        Op::Image { seed, w, h, col } => {
            let p = px_of(*seed, *w, *h, *col, &Enc::Gif { speed: 1, repeat: 0, frames: 0 });
            e.encode(&p, *w, *h, col.ext())
        }
        Op::Many { seed, n, w, h, bad } => e.try_encode_frames((0..*n).map(|i| {
            if *bad == Some(i) {
                Err(image::ImageError::IoError(std::io::Error::new(std::io::ErrorKind::Other, "caller's error item")))
            } else {
                Ok(small_frame(seed.wrapping_add(i as u64), *w, *h, 20))
            }
        })),
        Op::Repeat(n) => e.set_repeat(gif_repeat((*n).max(1)).unwrap()),
        Op::Bad(0) => e.encode(&[], 70000, 0, image::ExtendedColorType::Rgb8),
        Op::Bad(1) => e.encode(&[1, 2], 1, 1, image::ExtendedColorType::La8),
        Op::Bad(_) => e.encode_frame(Frame::new(RgbaImage::new(70000, 0))),
    }
}
/// run every operation of a GIF encoder on a sink; returns which succeeded
fn gif_ops(s: &Seq, plan: &IoPlan, speed: u8, ops: &[Op], panic_at: Option<u64>) -> (Vec<End>, Vec<u64>, Vec<u8>, IoStats, bool, Option<run::Panicked>) {
    let (mut w, sink) = SimWriter::new(plan);
    let closed = w.closed.clone();
    w.panic_at = panic_at;
    let mut ends = vec![];
    let mut hard = vec![];
    let dropped = {
        let mut e = Some(gif::GifEncoder::new_with_speed(w, speed as i32));
        for op in ops {
            let r = catch(|| one_gif(e.as_mut().unwrap(), op));
            let stop = matches!(&r, Err(p) if p.caller);
            ends.push(end_of(r));
            hard.push(sink.borrow().st.hard + sink.borrow().st.full);
            if stop {
                break;
            }
        }
        let _ = s;
        catch(|| drop(e.take())).err()
    };
    let b = sink.borrow().data.clone();
    let st = sink.borrow().st.clone();
    let c = *closed.borrow();
    (ends, hard, b, st, c, dropped)
}
pub fn exec17(v: &Value) {
    let s = seq(v);
    run::ops_budget(8_000_000, "");
    run::concrete(v.clone());
    // once to warm up lazily initialised statics, then measured
    let leak = |f: &dyn Fn()| {
        f();
        alloc::start_tracking();
        alloc::CUR.store(1 << 40, Relaxed);
        f();
        let d = alloc::CUR.load(Relaxed) as i64 - (1i64 << 40);
        alloc::stop_tracking();
        if d != 0 {
            run::fail("memory-not-released", "", format!("{d} bytes still allocated after everything was dropped"));
        }
    };
    match &s.what {
        What::Gif { speed } => {
            run::set_site("gif|sequence");
            let (ends, hard, bytes, st, closed, dropped) = gif_ops(&s, &s.plan, *speed, &s.ops, s.panic_at);
            run::io(&st, "write");
            let hit = st.hard + st.full > 0 || dropped.is_some();
            run::eval(mix2(hash(v.to_string().as_bytes()), st.trace), hit || s.panic_at.is_some());
            run::digest(hash(&bytes));
            let show: Vec<String> = ends.iter().map(|e| e.tag()).collect();
            run::sample(json!({"scenario": "gif", "ops": s.ops, "plan": s.plan, "results": show}));
            for (i, e) in ends.iter().enumerate() {
                if let End::Panic(m, l) = e {
                    run::fail("panic-after-failure", l, format!("call {i} ({:?}) panicked: {m} at {l}; results {show:?}; plan {:?}", s.ops[i], s.plan));
                    return;
                }
            }
            // the sink's own injected panic may surface from the destructor; any other panic may not
            if let Some(p) = dropped.filter(|p| !p.loc.contains("simio.rs")) {
                run::fail("panic-on-drop", &p.loc, format!("dropping the encoder panicked: {} at {}; results {show:?}", p.msg, p.loc));
                return;
            }
            if !closed {
                run::fail("sink-not-released", "", format!("the sink was not dropped; results {show:?}"));
            }
            if ends.iter().any(|e| *e == End::CallerPanic) {
                return;
            }
            // what a fault-free encoder writes for exactly the calls that succeeded; a refused call
            // of several frames may have written the frames before the refused one
            let io_fail = (0..ends.len()).position(|i| !ends[i].ok() && hard[i] > if i == 0 { 0 } else { hard[i - 1] });
            let mut ok_ops = vec![];
            for (i, e) in ends.iter().enumerate() {
                if e.ok() {
                    ok_ops.push(s.ops[i].clone());
                } else if io_fail.map_or(true, |k| i < k) {
                    if let Op::Many { seed, w, h, bad: Some(b), .. } = &s.ops[i] {
                        if *b > 0 {
                            ok_ops.push(Op::Many { seed: *seed, n: *b, w: *w, h: *h, bad: None });
                        }
                    }
                }
            }
            let later_ok = io_fail.map_or(false, |k| ends[k + 1..].iter().zip(&s.ops[k + 1..]).any(|(e, o)| e.ok() && !matches!(o, Op::Repeat(_))));
            let many_failed = io_fail.map_or(false, |k| matches!(s.ops[k], Op::Many { .. }));
            if later_ok || io_fail.is_none() {
                let (_, _, want, ..) = gif_ops(&s, &IoPlan::ideal(), *speed, &ok_ops, None);
                let trailer_lost = io_fail.is_none() && hit;
                let same = want == bytes || (trailer_lost && want[..want.len().saturating_sub(1)] == bytes[..]);
                if !same && !many_failed {
                    run::fail(
                        "success-not-in-sink",
                        if io_fail.is_some() { "after-failure" } else { "" },
                        format!("the sink does not hold exactly the frames reported as encoded: results {show:?}; {}; plan {:?}", diff(&want, &bytes), s.plan),
                    );
                } else if many_failed && later_ok {
                    // at least it must decode to as many frames as were reported
                    let d = decode("gif", Route::Frames, &Rc::new(bytes.clone()), &cursor_plan(), &Opt::default(), false);
                    if !d.out.end.ok() {
                        let dep = gif_dep(&bytes, &cursor_plan(), true);
                        run::fail("success-not-in-sink", if dep.is_empty() { "after-failure" } else { dep }, format!("the stream does not decode: {}; results {show:?}", d.out.short()));
                    }
                }
            } else if let Some(k) = io_fail {
                // later calls keep failing: everything accepted before is still there, in order
                let before: Vec<Op> = ok_ops.iter().filter(|o| !matches!(o, Op::Repeat(_))).cloned().collect();
                let reps = s.ops[..k].iter().any(|o| matches!(o, Op::Repeat(_)));
                if !before.is_empty() && !reps {
                    let (_, _, want, ..) = gif_ops(&s, &IoPlan::ideal(), *speed, &before, None);
                    if !bytes.starts_with(&want[..want.len() - 1]) {
                        run::fail("accepted-frames-lost", "", format!("frames reported as encoded are not in the sink; results {show:?}; {}", diff(&want, &bytes)));
                    }
                }
            }
        }
        What::Bmp | What::Jpeg { .. } | What::Pnm { .. } => {
            let enc = match &s.what {
                What::Bmp => Enc::Bmp { pal: 0 },
                What::Jpeg { q } => Enc::Jpeg { q: *q, density: 0, view: false },
                What::Pnm { sub } => Enc::Pnm { sub: *sub, max: 255 },
                _ => unreachable!(),
            };
            run::set_site(&format!("{}|sequence", enc.fmt()));
            let (mut w, sink) = SimWriter::new(&s.plan);
            w.panic_at = s.panic_at;
            let mut results: Vec<(End, usize, usize)> = vec![];
            let mut go = |f: &mut dyn FnMut(&[u8], u32, u32, image::ExtendedColorType) -> ImageResult<()>| {
                for op in &s.ops {
                    let a = sink.borrow().data.len();
                    let r = match op {
                        Op::Image { seed, w, h, col } => {
                            let p = px_of(*seed, *w, *h, *col, &enc);
                            catch(|| f(&p, *w, *h, col.ext()))
                        }
                        _ => catch(|| f(&[0; 64], 4, 4, image::ExtendedColorType::Unknown(32))),
                    };
                    let stop = matches!(&r, Err(p) if p.caller);
                    let end = end_of(r);
                    results.push((end, a, sink.borrow().data.len()));
                    if stop {
                        break;
                    }
                }
            };
            match &s.what {
                What::Bmp => {
                    let mut e = bmp::BmpEncoder::new(&mut w);
                    go(&mut |p, w, h, c| e.encode(p, w, h, c));
                }
                What::Jpeg { q } => {
                    let mut e = jpeg::JpegEncoder::new_with_quality(&mut w, *q);
                    go(&mut |p, w, h, c| e.encode(p, w, h, c));
                }
                What::Pnm { sub } => {
                    let mut e = pnm::PnmEncoder::new(&mut w);
                    if *sub > 0 {
                        e = e.with_subtype(pnm_subtype(*sub));
                    }
                    go(&mut |p, w, h, c| e.encode(p, w, h, c));
                }
                _ => unreachable!(),
            }
            drop(w);
            let st = sink.borrow().st.clone();
            let data = sink.borrow().data.clone();
            run::io(&st, "write");
            run::eval(mix2(hash(v.to_string().as_bytes()), st.trace), st.hard + st.full > 0);
            run::digest(hash(&data));
            let show: Vec<String> = results.iter().map(|e| e.0.tag()).collect();
            run::sample(json!({"scenario": enc.fmt(), "ops": s.ops, "plan": s.plan, "results": show}));
            for (i, (e, a, z)) in results.iter().enumerate() {
                match (e, &s.ops[i]) {
                    (End::Panic(m, l), Op::Image { .. }) => {
                        run::fail("panic-after-failure", l, format!("call {i} ({:?}) panicked: {m} at {l}; results {show:?}; plan {:?}", s.ops[i], s.plan))
                    }
                    (End::Ok, Op::Image { seed, w, h, col }) => {
                        let j = Job { enc: enc.clone(), w: *w, h: *h, col: *col, seed: *seed, route: WRoute::Encoder, icc: 0, buf: 0 };
                        let want = encode(&j, &j.pixels(), &IoPlan::ideal());
                        if data[*a..*z] != want.bytes[..] {
                            run::fail(
                                "success-not-in-sink",
                                if show[..i].iter().any(|x| x != "Ok") { "after-failure" } else { "repeated" },
                                format!("call {i} ({:?}) reported success but did not append its encoding: {}; results {show:?}; plan {:?}", s.ops[i], diff(&want.bytes, &data[*a..*z]), s.plan),
                            );
                        }
                    }
                    _ => {}
                }
            }
        }
        What::Abandon { job } => {
            run::set_site(&format!("{}|abandon", job.enc.fmt()));
            let px = job.pixels();
            let ideal = encode(&Job { route: if job.route.file() { WRoute::Buffer } else { job.route }, buf: 0, ..job.clone() }, &px, &IoPlan::ideal());
            let job = Job { route: if job.route.file() { WRoute::Buffer } else { job.route }, buf: 0, ..job.clone() };
            let go = || {
                let mut al = CallerBuf::new(px.len(), 0, 0);
                al.get().copy_from_slice(&px);
                let (mut w, sink) = SimWriter::new(&s.plan);
                w.panic_at = s.panic_at;
                w.panic_late = s.plan.seed & 1 == 1;
                let closed = w.closed.clone();
                let r = catch(|| run_enc(w, &job, al.get()));
                let end = end_of(r);
                let k = sink.borrow();
                if let End::Panic(m, l) = &end {
                    if ideal.end.ok() {
                        run::fail("panic-on-abandon", l, format!("{}: {m} at {l}", job.describe()));
                    }
                }
                if !*closed.borrow() {
                    run::fail("sink-not-released", "", format!("{}: the sink was not dropped", job.describe()));
                }
                // what reached the sink before the panic is a beginning of the real thing, followed at
                // most by what a destructor completes (in the codec crates of the other formats)
                if matches!(job.enc.fmt(), "bmp" | "tga" | "pnm" | "farbfeld" | "hdr" | "qoi" | "jpeg") && ideal.end.ok() && !ideal.bytes.starts_with(&k.data) {
                    let at = k.data.iter().zip(&ideal.bytes).position(|(a, b)| a != b).unwrap_or(ideal.bytes.len());
                    run::fail(
                        "not-a-beginning",
                        "",
                        format!("{}: after the sink panicked it holds {} bytes that are no beginning of the {} bytes of the image; the first difference is at {at}", job.describe(), k.data.len(), ideal.bytes.len()),
                    );
                }
            };
            let (threads, st) = (matches!(job.enc, Enc::Exr | Enc::Avif { .. }), mix2(job.seed, s.panic_at.unwrap_or(0)));
            if threads {
                go();
            } else {
                leak(&go);
            }
            run::bump("sink_panics", 1);
            run::eval(job.case(st), true);
        }
        What::Decode { fmt: f, input, frames, stop } => {
            run::set_site(&format!("{f}|abandon"));
            let data = Rc::new(input.bytes());
            let go = || {
                let (mut rd, st) = SimReader::new(data.clone(), &s.plan);
                rd.panic_at = s.panic_at;
                let closed = rd.closed.clone();
                let r = catch(|| abandon_decode(rd, f, *frames, *stop));
                let end = end_of(r);
                if let End::Panic(m, l) = &end {
                    run::fail("panic-on-abandon", l, format!("{m} at {l}"));
                }
                if !*closed.borrow() {
                    run::fail("source-not-released", "", "the source was not dropped".into());
                }
                let st = st.borrow().clone();
                st
            };
            let st = go();
            run::io(&st, "read");
            run::eval(mix2(hash(v.to_string().as_bytes()), st.trace), true);
            leak(&|| {
                go();
            });
            run::bump("decoders_abandoned", 1);
        }
    }
}
fn abandon_decode(rd: SimReader, f: &str, frames: u32, stop: u8) -> ImageResult<()> {
    use image::{AnimationDecoder, ImageDecoder};
    match (f, stop) {
        ("gif", 0 | 1) => {
            for fr in gif::GifDecoder::new(rd)?.into_frames().take(frames as usize) {
                fr?;
            }
        }
        ("webp", 0 | 1) => {
            for fr in webp::WebPDecoder::new(rd)?.into_frames().take(frames as usize) {
                fr?;
            }
        }
        ("png", 0 | 1) => {
            for fr in png::PngDecoder::new(rd)?.apng()?.into_frames().take(frames as usize) {
                fr?;
            }
        }
        (_, 2) => {
            let r = image::ImageReader::new(rd).with_guessed_format()?;
            if stop == 2 && frames == 0 {
                return Ok(());
            }
            drop(r.into_inner());
        }
        (_, 3) => {
            concrete!(f, rd, d => {
                let _ = d.dimensions();
                let _ = d.icc_profile()?;
            })
        }
        _ => {
            concrete!(f, rd, d => {
                let n = d.total_bytes();
                if n < 1 << 22 {
                    let mut b = vec![0; n as usize];
                    d.read_image(&mut b)?;
                }
            })
        }
    }
    Ok(())
}
