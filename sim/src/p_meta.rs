//! C12 format detection and opening, C13 metadata queries.
use crate::codec::*;
use crate::input::*;
use crate::p_read::{delivery, kind, lenient, pick_fmt, read_fault, shrink_plan, Plans};
use crate::rng::{hash, mix2, Rng};
use crate::run::{self, catch, Tier};
use crate::simio::*;
use crate::simos;
use image::codecs::*;
use image::{DynamicImage, ImageDecoder, ImageFormat, ImageReader, ImageResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Seek};
use std::rc::Rc;

fn plans_of(p: &Plans, mut g: impl FnMut(&mut Rng, u32) -> IoPlan) -> Vec<IoPlan> {
    match p {
        Plans::List(l) => l.clone(),
        Plans::Auto { seed, n } => {
            let mut r = Rng::new(*seed);
            (0..*n).map(|i| g(&mut r, i)).collect()
        }
    }
}

// ------------------------------------------------------------------ C13
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Q {
    Dims,
    Color,
    Orig,
    Icc,
    Exif,
    Orient,
    Total,
}
const QS: [Q; 7] = [Q::Dims, Q::Color, Q::Orig, Q::Icc, Q::Exif, Q::Orient, Q::Total];
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    Concrete,
    BoxConcrete,
    BoxDyn,
    IntoDecoder,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fin {
    Read,
    ReadBoxed,
    Dynamic,
    /// abandoned after the queries
    Drop,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B13 {
    pub fmt: String,
    pub input: Input,
    pub via: Via,
    pub script: Vec<Q>,
    pub fin: Fin,
    /// damaged headers: limits set before the first query
    pub limited: bool,
    pub faulty: bool,
    pub plans: Plans,
}
fn b13(v: &Value) -> B13 {
    serde_json::from_value(v.clone()).expect("scenario body")
}
type Ans = Result<String, String>;
fn ask<D: ImageDecoder>(d: &mut D, q: Q) -> Ans {
    let o = |r: ImageResult<Option<Vec<u8>>>| match r {
        Ok(None) => Ok("none".to_string()),
        Ok(Some(v)) => Ok(format!("{} bytes {:016x}", v.len(), hash(&v))),
        Err(e) => Err(e.to_string()),
    };
    match q {
        Q::Dims => Ok(format!("{:?}", d.dimensions())),
        Q::Color => Ok(format!("{:?}", d.color_type())),
        Q::Orig => Ok(format!("{:?}", d.original_color_type())),
        Q::Total => Ok(format!("{}", d.total_bytes())),
        Q::Icc => o(d.icc_profile()),
        Q::Exif => o(d.exif_metadata()),
        Q::Orient => d.orientation().map(|o| format!("{}", o.to_exif())).map_err(|e| e.to_string()),
    }
}
#[derive(Clone, Debug, Default)]
struct Got {
    open: Option<String>,
    ans: Vec<(Q, Ans)>,
    /// None: too big for the harness or not asked for
    pix: Option<Result<u64, String>>,
    panic: Option<(String, String)>,
}
fn drive<D: ImageDecoder>(mut d: D, script: &[Q], fin: Fin, limited: bool, g: &mut Got) -> ImageResult<()> {
    if limited {
        let mut l = image::Limits::no_limits();
        l.max_alloc = Some(64 << 20);
        d.set_limits(l)?;
    }
    for q in script {
        let a = ask(&mut d, *q);
        g.ans.push((*q, a));
    }
    let n = d.total_bytes();
    if n > MAX_OUT {
        return Ok(());
    }
    let w = (d.dimensions(), format!("{:?}", d.color_type()));
    match fin {
        Fin::Drop => {}
        Fin::Dynamic => {
            g.pix = Some(DynamicImage::from_decoder(d).map(|i| mix2(hash(i.as_bytes()), hash(format!("{:?}", w).as_bytes()))).map_err(|e| e.to_string()));
        }
        _ => {
            let mut b = vec![0u8; n as usize];
            let r = if fin == Fin::Read { d.read_image(&mut b) } else { Box::new(d).read_image_boxed(&mut b) };
            g.pix = Some(r.map(|()| mix2(hash(&b), hash(format!("{:?}", w).as_bytes()))).map_err(|e| e.to_string()));
        }
    }
    Ok(())
}
fn go13<R: BufRead + Seek>(b: &B13, r: R, via: Via, script: &[Q], fin: Fin, g: &mut Got) {
    let res = catch(|| -> ImageResult<()> {
        let n = b.fmt.as_str();
        match via {
            Via::Concrete => concrete!(n, r, d => drive(d, script, fin, b.limited, g)),
            Via::BoxConcrete => concrete!(n, r, d => drive(Box::new(d), script, fin, b.limited, g)),
            Via::BoxDyn => concrete!(n, r, d => {
                let d: Box<dyn ImageDecoder + '_> = Box::new(d);
                drive(d, script, fin, b.limited, g)
            }),
            Via::IntoDecoder => {
                let mut rd = ImageReader::with_format(r, fmt(n));
                if b.limited {
                    let mut l = image::Limits::no_limits();
                    l.max_alloc = Some(64 << 20);
                    rd.limits(l);
                } else {
                    rd.no_limits();
                }
                drive(rd.into_decoder()?, script, fin, false, g)
            }
        }
    });
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => g.open = Some(e.to_string()),
        Err(p) => g.panic = Some((p.msg, p.loc)),
    }
}
pub fn gen13(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let fmt = match r.below(10) {
        // formats that carry metadata
        0 | 1 => "tiff",
        2 => "png",
        3 => "webp",
        4 | 5 => "jpeg",
        _ => pick_fmt(r, true),
    };
    let max = if t == Tier::Thorough && r.chance(1, 5) { 150 } else { 32 };
    let mut input = any_input(r, fmt, max);
    let limited = r.chance(1, 6);
    if limited {
        let n = r.range(1, 3) as usize;
        let len = input.bytes().len();
        input = Input::Mut { base: Box::new(input), edits: edits(r, fmt, len, n) };
    }
    let faulty = r.chance(1, 2);
    let script = (0..r.below(9)).map(|_| *r.pick(&QS)).collect();
    let heavy = matches!(fmt, "avif" | "exr");
    let b = B13 {
        fmt: fmt.into(),
        input,
        via: *r.pick(&[Via::Concrete, Via::Concrete, Via::BoxConcrete, Via::BoxDyn, Via::IntoDecoder]),
        script,
        fin: *r.pick(&[Fin::Read, Fin::Read, Fin::ReadBoxed, Fin::Dynamic, Fin::Drop]),
        limited,
        faulty,
        plans: Plans::Auto { seed: r.u64(), n: if heavy { 2 } else { 8 } },
    };
    serde_json::to_value(b).unwrap()
}
pub fn shrink13(v: &Value) -> Vec<Value> {
    let b = b13(v);
    let mut out = vec![];
    let mut push = |b: B13| out.push(serde_json::to_value(b).unwrap());
    if let Plans::List(l) = &b.plans {
        if l.len() == 1 {
            for p in shrink_plan(&l[0]) {
                push(B13 { plans: Plans::List(vec![p]), ..b.clone() });
            }
        }
    }
    for i in 0..b.script.len() {
        let mut s = b.script.clone();
        s.remove(i);
        push(B13 { script: s, ..b.clone() });
    }
    for i in b.input.shrink() {
        push(B13 { input: i.clone(), ..b.clone() });
        push(B13 { input: i, plans: Plans::Auto { seed: 0, n: 24 }, ..b.clone() });
    }
    if b.via != Via::Concrete {
        push(B13 { via: Via::Concrete, ..b.clone() });
    }
    out
}
pub fn exec13(v: &Value) {
    let b = b13(v);
    run::set_site(&format!("{}|{:?}", b.fmt, b.via));
    let data = Rc::new(b.input.bytes());
    let h = hash(&data);
    run::ops_budget(40_000_000, "(fault-free)");
    run::bump(&format!("fmt_{}", b.fmt), 1);
    let mut model = crate::meta_model::Meta::default();
    // each query alone, first, on a fresh decoder; pixels without any query
    let mut truth: Vec<(Q, Ans)> = vec![];
    for q in QS {
        if !b.script.contains(&q) {
            continue;
        }
        let mut g = Got::default();
        go13(&b, SimReader::new(data.clone(), &cursor_plan()).0, Via::Concrete, &[q], Fin::Drop, &mut g);
        if g.panic.is_some() {
            return run::eval(0, false); // C11
        }
        truth.extend(g.ans);
    }
    // what the file itself says
    if !b.limited && matches!(b.input, Input::Corpus { .. } | Input::Forge { .. }) {
        model = crate::meta_model::metadata(&b.fmt, &data);
    }
    let mut g = Got::default();
    go13(&b, SimReader::new(data.clone(), &cursor_plan()).0, Via::Concrete, &[], Fin::Read, &mut g);
    let (ref_open, ref_pix) = (g.open.clone(), g.pix.clone());
    if g.panic.is_some() {
        return run::eval(0, false);
    }
    if let Some(Ok(_)) = ref_pix {
        for (q, a) in &truth {
            let blob = |o: &Option<Option<Vec<u8>>>| o.as_ref().map(|o| o.as_ref().map_or("none".to_string(), |v| format!("{} bytes {:016x}", v.len(), hash(v))));
            let want = match q {
                Q::Icc => blob(&model.icc),
                Q::Exif => blob(&model.exif),
                Q::Orient => model.orient.map(|o| o.to_string()),
                _ => None,
            };
            let Some(want) = want else { continue };
            run::bump("answers_checked_against_the_file", 1);
            if want != "none" && want != "1" {
                run::bump("metadata_present", 1);
            }
            if *a != Ok(want.clone()) {
                run::fail("answer-wrong", &format!("{q:?}"), format!("{q:?} asked alone gives {a:?}, the file says {want}; the image itself decodes"));
            }
        }
    }
    // size of a complete run, for placing faults
    let (rd, st) = SimReader::new(data.clone(), &cursor_plan());
    let mut g = Got::default();
    go13(&b, rd, b.via, &b.script, b.fin, &mut g);
    let st = st.borrow().clone();
    run::bump(if ref_open.is_none() { "ref_ok" } else { "ref_err" }, 1);

    for pl in plans_of(&b.plans, |r, i| {
        if i == 0 {
            return cursor_plan();
        }
        let mut q = if r.chance(1, 3) { cursor_plan() } else { delivery(r) };
        q.seed = r.u64();
        if b.faulty {
            q.eintr = 0;
            let mut f = read_fault(r, &st, data.len() as u64);
            if KINDS[f.kind as usize].2 == "unexpected-eof" {
                f.kind = 0;
            }
            q.faults.push(f);
        }
        q
    }) {
        run::concrete(serde_json::to_value(B13 { plans: Plans::List(vec![pl.clone()]), ..b.clone() }).unwrap());
        run::ops_budget(40_000_000, "");
        let (rd, st) = SimReader::new(data.clone(), &pl);
        let mut g = Got::default();
        go13(&b, rd, b.via, &b.script, b.fin, &mut g);
        let st = st.borrow().clone();
        run::io(&st, "read");
        run::eval(mix2(mix2(h, hash(format!("{:?}{:?}{:?}", b.script, b.via, b.fin).as_bytes())), st.trace), !b.script.is_empty());
        run::digest(hash(format!("{:?}", g.ans).as_bytes()));
        run::bump("queries", g.ans.len() as u64);
        let hit = st.hard > 0 || (st.eintr > 0 && lenient(&b.fmt, &data));
        if let Some((m, l)) = &g.panic {
            return run::fail("panic", l, format!("{m} at {l}; script {:?}, plan {pl:?}", b.script));
        }
        if g.open.is_none() != ref_open.is_none() && !(hit && g.open.is_some()) {
            run::fail("open-differs", "", format!("alone: {ref_open:?}, here: {:?}; plan {pl:?}", g.open));
        }
        if g.open.is_some() {
            continue;
        }
        let mut failed = hit;
        let ideal = pl == cursor_plan();
        for (i, (q, a)) in g.ans.iter().enumerate() {
            let t = &truth.iter().find(|t| t.0 == *q).expect("asked").1;
            match (t, a) {
                (Ok(x), Ok(y)) if x == y => {}
                (Err(_), Err(_)) => failed = true,
                (Ok(_), Err(_)) if failed => {}
                _ => run::fail(
                    if hit { "failure-hidden" } else { "answer-changes" },
                    &format!("{q:?}"),
                    format!("query {i} of {:?}: asked alone {t:?}, here {a:?}; source failed: {hit}; plan {pl:?}", b.script),
                ),
            }
        }
        if let (Some(x), Some(p)) = (&ref_pix, &g.pix) {
            match (x, p) {
                (Ok(x), Ok(y)) if x == y => {}
                (Err(_), Err(_)) => {}
                (Ok(_), Err(_)) if failed => {}
                // whether damaged data is refused may depend on its delivery in codec crates: that is C01
                (Ok(_), Err(_)) | (Err(_), Ok(_)) if !ideal => {}
                // a colour type without a DynamicImage representation
                (Ok(_), Err(e)) if b.fin == Fin::Dynamic && e.contains("olor type") => {}
                _ => run::fail(
                    if hit { "pixels-after-failure" } else { "pixels-change" },
                    "",
                    format!("after queries {:?}: {p:?}, without them {x:?}; plan {pl:?}", b.script),
                ),
            }
        }
        run::sample(json!({"format": b.fmt, "via": format!("{:?}", b.via), "input": b.input.describe(), "script": format!("{:?}", b.script),
            "plan": pl, "answers": format!("{:?}", g.ans)}));
    }
}

// ------------------------------------------------------------------ C12
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Door {
    Stream,
    /// behind std's BufReader with this capacity
    Buffered(u32),
    Path,
    Memory,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Guess,
    Set(String),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B12 {
    pub input: Input,
    /// bytes before the position at which the stream is handed over
    pub prefix: String,
    pub preset: Option<String>,
    pub door: Door,
    pub ext: String,
    pub faulty: bool,
    /// what is called on the reader before decoding
    pub steps: Vec<Step>,
    pub plans: Plans,
}
fn b12(v: &Value) -> B12 {
    serde_json::from_value(v.clone()).expect("scenario body")
}
/// what the first bytes of a file say, written from the format specifications
fn signature(d: &[u8]) -> Option<ImageFormat> {
    let at = |o: usize, s: &[u8]| d.len() >= o + s.len() && &d[o..o + s.len()] == s;
    if at(0, b"\x89PNG\r\n\x1a\n") {
        Some(ImageFormat::Png)
    } else if at(0, &[0xff, 0xd8, 0xff]) {
        Some(ImageFormat::Jpeg)
    } else if at(0, b"GIF87a") || at(0, b"GIF89a") {
        Some(ImageFormat::Gif)
    } else if at(0, b"RIFF") && at(8, b"WEBP") {
        Some(ImageFormat::WebP)
    } else if at(0, b"II\x2a\0") || at(0, b"MM\0\x2a") {
        Some(ImageFormat::Tiff)
    } else if at(0, b"DDS ") {
        Some(ImageFormat::Dds)
    } else if at(0, b"BM") {
        Some(ImageFormat::Bmp)
    } else if at(0, &[0, 0, 1, 0]) {
        Some(ImageFormat::Ico)
    } else if at(0, b"#?RADIANCE") {
        Some(ImageFormat::Hdr)
    } else if at(0, &[0, 0]) && at(4, b"ftypavif") {
        Some(ImageFormat::Avif)
    } else if at(0, &[0x76, 0x2f, 0x31, 0x01]) {
        Some(ImageFormat::OpenExr)
    } else if at(0, b"qoif") {
        Some(ImageFormat::Qoi)
    } else if d.len() >= 2 && d[0] == b'P' && (b'1'..=b'7').contains(&d[1]) {
        Some(ImageFormat::Pnm)
    } else if at(0, b"farbfeld") {
        Some(ImageFormat::Farbfeld)
    } else if d.len() >= 2 && d[0] == 0x0a && d[1] <= 7 {
        Some(ImageFormat::Pcx)
    } else {
        None
    }
}
const EXTS: [(&str, Option<ImageFormat>); 34] = [
    ("avif", Some(ImageFormat::Avif)), ("jpg", Some(ImageFormat::Jpeg)), ("jpeg", Some(ImageFormat::Jpeg)), ("jfif", Some(ImageFormat::Jpeg)),
    ("png", Some(ImageFormat::Png)), ("apng", Some(ImageFormat::Png)), ("gif", Some(ImageFormat::Gif)), ("webp", Some(ImageFormat::WebP)),
    ("tif", Some(ImageFormat::Tiff)), ("tiff", Some(ImageFormat::Tiff)), ("tga", Some(ImageFormat::Tga)), ("dds", Some(ImageFormat::Dds)),
    ("bmp", Some(ImageFormat::Bmp)), ("ico", Some(ImageFormat::Ico)), ("hdr", Some(ImageFormat::Hdr)), ("exr", Some(ImageFormat::OpenExr)),
    ("pbm", Some(ImageFormat::Pnm)), ("pam", Some(ImageFormat::Pnm)), ("ppm", Some(ImageFormat::Pnm)), ("pgm", Some(ImageFormat::Pnm)),
    ("ff", Some(ImageFormat::Farbfeld)), ("qoi", Some(ImageFormat::Qoi)), ("PNG", Some(ImageFormat::Png)), ("JpG", Some(ImageFormat::Jpeg)),
    ("TIFF", Some(ImageFormat::Tiff)), ("x.gif", Some(ImageFormat::Gif)), ("gif.bmp", Some(ImageFormat::Bmp)),
    ("", None), ("txt", None), ("png1", None), ("jpe g", None), ("bmp.bak", None), ("p", None), ("png.", None),
];
fn name_of(f: ImageFormat) -> Option<&'static str> {
    FORMATS.iter().find(|n| fmt(n) == f).copied()
}
fn header(r: &mut Rng) -> Vec<u8> {
    const H: [&[u8]; 26] = [
        b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR", &[0xff, 0xd8, 0xff, 0xe0, 0, 16], b"GIF89a\x01\0\x01\0", b"GIF87a\x01\0", b"RIFF\x10\x20\x30\x40WEBPVP8L",
        b"RIFF\xff\xff\xff\xffWEBPVP8X", b"MM\0*\0\0\0\x08", b"II*\0\x08\0\0\0", b"DDS |\0\0\0", b"BM\x40\0\0\0\0\0\0\0", &[0, 0, 1, 0, 1, 0, 16, 16],
        b"#?RADIANCE\nFORMAT", b"\0\0\0\x1cftypavif\0\0\0\0", b"\0\0\xff\xffftypavifmi", b"\0\x01\0\x1cftypavif\0\0\0\0", &[0x76, 0x2f, 0x31, 0x01, 2, 0, 0, 0],
        b"qoif\0\0\0\x01", b"P1 1 1 0", b"P4 1 1\n\0", b"P6 1 1 255\n", b"P7\nWIDTH 1", b"P0", b"P8 1 1", b"farbfeld\0\0\0\x01", &[10, 5, 1, 8], &[10, 9, 1, 8],
    ];
    let mut v = r.pick(&H).to_vec();
    match r.below(5) {
        0 => {
            let i = r.usize(v.len());
            v[i] ^= 1 << r.below(8);
        }
        1 => {
            let n = r.usize(v.len() + 1);
            v.truncate(n);
        }
        2 => {
            let i = r.usize(v.len());
            v[i] = r.u8();
        }
        _ => {}
    }
    v
}
pub fn gen12(r: &mut Rng, _i: u64, _t: Tier) -> Value {
    let input = match r.below(10) {
        0..=4 => {
            let f = pick_fmt(r, true);
            any_input(r, f, 24)
        }
        5 | 6 => {
            let f = pick_fmt(r, false);
            let b = any_input(r, f, 16);
            let mut e = vec![];
            for _ in 0..r.range(1, 2) {
                e.push(match r.below(3) {
                    0 => Edit::Trunc { n: r.below(24) },
                    1 => Edit::Xor { at: r.below(16), v: 1 << r.below(8) },
                    _ => Edit::Set { at: r.below(16), v: r.u8() },
                });
            }
            Input::Mut { base: Box::new(b), edits: e }
        }
        _ => {
            let mut v = header(r);
            for _ in 0..r.below(24) {
                v.push(r.u8());
            }
            Input::Bytes { hex: hex(&v) }
        }
    };
    let prefix = if r.chance(1, 2) {
        String::new()
    } else {
        let mut v = header(r);
        for _ in 0..r.below(40) {
            v.push(r.u8());
        }
        let n = r.usize(v.len() + 1);
        v.truncate(n);
        hex(&v)
    };
    let door = match r.below(8) {
        0..=2 => Door::Stream,
        3 | 4 => Door::Buffered(*r.pick(&[1u32, 2, 5, 8, 15, 16, 17, 64, 8192])),
        5 | 6 => Door::Path,
        _ => Door::Memory,
    };
    let b = B12 {
        input,
        prefix: if matches!(door, Door::Path | Door::Memory) { String::new() } else { prefix },
        preset: if r.chance(1, 2) { None } else { Some(r.pick(&FORMATS).to_string()) },
        door,
        ext: r.pick(&EXTS).0.into(),
        faulty: r.chance(1, 3),
        steps: if r.chance(1, 2) {
            vec![Step::Guess; *r.pick(&[1usize, 1, 1, 2, 3])]
        } else {
            let n = r.range(1, 5) as usize;
            (0..n)
                .map(|_| match r.below(4) {
                    0 => Step::Set(r.pick(&FORMATS).to_string()),
                    1 => Step::Clear,
                    _ => Step::Guess,
                })
                .collect()
        },
        plans: Plans::Auto { seed: r.u64(), n: 5 },
    };
    serde_json::to_value(b).unwrap()
}
pub fn shrink12(v: &Value) -> Vec<Value> {
    let b = b12(v);
    let mut out = vec![];
    let mut push = |b: B12| out.push(serde_json::to_value(b).unwrap());
    if let Plans::List(l) = &b.plans {
        if l.len() == 1 {
            for p in shrink_plan(&l[0]) {
                push(B12 { plans: Plans::List(vec![p]), ..b.clone() });
            }
        }
    }
    if !b.prefix.is_empty() {
        push(B12 { prefix: String::new(), ..b.clone() });
        push(B12 { prefix: "00".into(), ..b.clone() });
    }
    if b.preset.is_some() {
        push(B12 { preset: None, ..b.clone() });
    }
    for i in 0..b.steps.len() {
        let mut steps = b.steps.clone();
        steps.remove(i);
        push(B12 { steps, ..b.clone() });
    }
    for i in b.input.shrink() {
        push(B12 { input: i.clone(), ..b.clone() });
        push(B12 { input: i, plans: Plans::Auto { seed: 0, n: 24 }, ..b.clone() });
    }
    out
}
const LIM: u64 = 64 << 20;
fn limits() -> image::Limits {
    let mut l = image::Limits::no_limits();
    l.max_alloc = Some(LIM);
    l
}
fn still_of(r: ImageResult<DynamicImage>) -> String {
    match r {
        Ok(d) => format!("{}x{} {:?} {:016x}", d.width(), d.height(), d.color(), hash(d.as_bytes())),
        Err(e) => format!("error {}", e.to_string().split(':').next().unwrap_or("")),
    }
}
fn ok(s: &str) -> bool {
    !s.starts_with("error")
}
fn differ(a: &str, b: &str) -> bool {
    ok(a) != ok(b) || (ok(a) && a != b)
}
/// the calls that lead up to the decoding
fn guess<R: BufRead + Seek>(r: R, preset: Option<ImageFormat>, steps: &[Step]) -> Result<ImageReader<R>, std::io::Error> {
    let mut rd = match preset {
        Some(f) => ImageReader::with_format(r, f),
        None => ImageReader::new(r),
    };
    rd.limits(limits());
    take(rd, steps)
}
fn take<R: BufRead + Seek>(mut rd: ImageReader<R>, steps: &[Step]) -> Result<ImageReader<R>, std::io::Error> {
    for s in steps {
        match s {
            Step::Guess => rd = rd.with_guessed_format()?,
            Step::Set(f) => rd.set_format(fmt(f)),
            Step::Clear => rd.clear_format(),
        }
    }
    Ok(rd)
}
/// the format the reader ends up with
fn after(start: Option<ImageFormat>, told: Option<ImageFormat>, steps: &[Step]) -> Option<ImageFormat> {
    steps.iter().fold(start, |f, s| match s {
        Step::Guess => told.or(f),
        Step::Set(n) => Some(fmt(n)),
        Step::Clear => None,
    })
}
pub fn exec12(v: &Value) {
    let b = b12(v);
    let tail = b.input.bytes();
    let pre = unhex(&b.prefix);
    let at = pre.len() as u64;
    let mut all = pre.clone();
    all.extend_from_slice(&tail);
    let data = Rc::new(all);
    let h = mix2(hash(&data), mix2(at, hash(format!("{:?}{:?}{}{:?}", b.preset, b.door, b.ext, b.steps).as_bytes())));
    let told = signature(&tail);
    run::set_site(&format!("{}|{}", told.and_then(name_of).unwrap_or("none"), match b.door {
        Door::Stream => "Stream",
        Door::Buffered(_) => "Buffered",
        Door::Path => "Path",
        Door::Memory => "Memory",
    }));
    run::ops_budget(40_000_000, "");
    run::bump(&format!("fmt_{}", told.map_or("none".to_string(), |f| format!("{f:?}"))), 1);
    let preset = b.preset.as_deref().map(fmt);
    let caught = |r: Result<(), run::Panicked>| {
        if let Err(p) = r {
            run::fail("panic", &p.loc, format!("{} at {}", p.msg, p.loc));
        }
    };
    match b.door {
        Door::Memory => {
            run::eval(h, true);
            let g = image::guess_format(&tail).ok();
            if g != told {
                run::fail("wrong-answer", "", format!("guess_format says {g:?}, the signature is that of {told:?}"));
            }
            caught(catch(|| {
                let a = still_of(image::load_from_memory(&tail));
                let w = match told {
                    Some(f) => still_of(image::load_from_memory_with_format(&tail, f)),
                    None => "error".into(),
                };
                if differ(&a, &w) {
                    run::fail("decode-after-guess", "", format!("load_from_memory: {a}; with format {told:?}: {w}"));
                }
                run::digest(hash(a.as_bytes()));
            }));
        }
        Door::Path => {
            let by_ext = EXTS.iter().find(|e| e.0 == b.ext).and_then(|e| e.1);
            let path = if b.ext.is_empty() { "/sim/in".to_string() } else { format!("/sim/in.{}", b.ext) };
            for pl in plans_of(&b.plans, |r, i| plan12(r, i, b.faulty, tail.len() as u64)) {
                run::concrete(serde_json::to_value(B12 { plans: Plans::List(vec![pl.clone()]), ..b.clone() }).unwrap());
                let mut fs = simos::SimFs::default();
                fs.files.push((path.clone(), tail.clone()));
                fs.read_plan = pl.clone();
                simos::fs_mount(fs);
                let mut err = None;
                let mut got = None;
                let mut dec = None;
                let mut first = None;
                caught(catch(|| match ImageReader::open(&path) {
                    Err(e) => err = Some(format!("open: {e}")),
                    Ok(mut rd) => {
                        first = rd.format();
                        if let Some(f) = preset {
                            rd.set_format(f);
                        }
                        match take(rd, &b.steps) {
                            Err(e) => err = Some(format!("guess: {e}")),
                            Ok(mut rd) => {
                                got = rd.format();
                                rd.limits(limits());
                                dec = Some(still_of(rd.decode()));
                            }
                        }
                    }
                }));
                let fs = simos::fs_unmount();
                if fs.open_fds() != 0 {
                    run::fail("leaked-descriptor", "", format!("{} descriptors still open", fs.open_fds()));
                }
                let st = fs.stats;
                run::io(&st, "read");
                run::eval(mix2(h, st.trace), true);
                if err.is_none() && first != by_ext {
                    run::fail("wrong-extension", "", format!("opening {path:?} gives {first:?}, expected {by_ext:?}"));
                }
                if let Some(e) = &err {
                    if st.hard == 0 {
                        run::fail("error-without-failure", "", format!("{e}; plan {pl:?}"));
                    }
                    continue;
                }
                let want = after(preset.or(by_ext), told, &b.steps);
                if got != want {
                    run::fail("wrong-answer", "", format!("content {told:?}, preset {preset:?}, extension {by_ext:?}, then {:?}: the reader has {got:?}; plan {pl:?}", b.steps));
                }
                if st.hard == 0 && st.eintr == 0 {
                    let w = match want {
                        Some(f) => {
                            let mut rd = ImageReader::with_format(SimReader::new(Rc::new(tail.clone()), &cursor_plan()).0, f);
                            rd.limits(limits());
                            match catch(|| still_of(rd.decode())) {
                                Ok(s) => s,
                                Err(_) => continue,
                            }
                        }
                        None => "error".into(),
                    };
                    let (d, ideal) = (dec.as_ref().unwrap(), IoPlan { seed: 0, ..pl.clone() } == cursor_plan());
                    if differ(d, &w) && (ideal || ok(d) == ok(&w)) {
                        run::fail("decode-after-guess", "", format!("after open and guess: {}; directly as {want:?}: {w}; plan {pl:?}", dec.unwrap()));
                    }
                }
                // failing and missing files
                let mut fs = simos::SimFs::default();
                fs.files.push((path.clone(), tail.clone()));
                fs.open_errno = Some(*[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT].get(pl.seed as usize % 4).unwrap());
                simos::fs_mount(fs);
                caught(catch(|| {
                    if ImageReader::open(&path).is_ok() {
                        run::fail("failed-open-hidden", "", "a failing open was reported as success".into());
                    }
                    if ImageReader::open("/sim/absent.png").is_ok() || image::image_dimensions("/sim/absent.png").is_ok() || image::open("/sim/absent.png").is_ok() {
                        run::fail("failed-open-hidden", "", "an absent file was opened".into());
                    }
                }));
                simos::fs_unmount();
                run::bump("open_errors", 4);
            }
        }
        Door::Stream | Door::Buffered(_) => {
            let want = after(preset, told, &b.steps);
            // decoding without a guess, from the same position
            let direct = |f: Option<ImageFormat>| -> Option<String> {
                let Some(f) = f else { return Some("error".into()) };
                let (mut r, _) = SimReader::new(data.clone(), &cursor_plan());
                r.set_pos(at);
                let mut rd = ImageReader::with_format(r, f);
                rd.limits(limits());
                catch(|| still_of(rd.decode())).ok()
            };
            let dir = direct(want);
            for pl in plans_of(&b.plans, |r, i| plan12(r, i, b.faulty, data.len() as u64)) {
                run::concrete(serde_json::to_value(B12 { plans: Plans::List(vec![pl.clone()]), ..b.clone() }).unwrap());
                let (mut r, st) = SimReader::new(data.clone(), &pl);
                r.set_pos(at);
                let st0 = || st.borrow().clone();
                // ends in: (format, position, decoded)
                type Res = Result<(Option<ImageFormat>, Option<u64>, Option<String>), std::io::Error>;
                let mut hit = 0;
                let decode_too = pl.faults.is_empty() && pl.eintr == 0;
                let res: Result<Res, run::Panicked> = catch(|| match b.door {
                    Door::Buffered(cap) => {
                        let mut br = BufReader::with_capacity(cap as usize, r);
                        // a reader in use: something is already buffered
                        if pl.seed & 1 == 1 && at > 0 && pl.faults.is_empty() {
                            let _ = br.seek(std::io::SeekFrom::Start(at - 1));
                            let mut one = [0u8; 1];
                            let _ = br.read_exact(&mut one);
                        }
                        let g = guess(br, preset, &b.steps);
                        hit = st0().hard;
                        let rd = g?;
                        let f = rd.format();
                        if decode_too {
                            return Ok((f, None, Some(still_of(rd.decode()))));
                        }
                        let mut br = rd.into_inner();
                        Ok((f, if pl.faults.is_empty() { br.stream_position().ok() } else { None }, None))
                    }
                    _ => {
                        // through a mutable borrow the position stays observable after a decode
                        let rd = guess(&mut r, preset, &b.steps);
                        hit = st0().hard;
                        let rd = rd?;
                        let f = rd.format();
                        drop(rd);
                        let p = r.pos();
                        let d = if decode_too {
                            let mut rd = match f {
                                Some(f) => ImageReader::with_format(r, f),
                                None => ImageReader::new(r),
                            };
                            rd.limits(limits());
                            Some(still_of(rd.decode()))
                        } else {
                            None
                        };
                        Ok((f, Some(p), d))
                    }
                });
                let st = st0();
                run::io(&st, "read");
                run::eval(mix2(h, st.trace), true);
                match res {
                    Err(p) => run::fail("panic", &p.loc, format!("{} at {}; plan {pl:?}", p.msg, p.loc)),
                    Ok(Err(e)) => {
                        if hit == 0 {
                            run::fail("error-without-failure", "", format!("{e}; plan {pl:?}"));
                        }
                        run::bump("guess_errors", 1);
                    }
                    Ok(Ok((f, pos, d))) => {
                        if hit > 0 {
                            run::fail("failure-hidden", "", format!("{hit} operations failed while guessing, yet it reported {f:?}; plan {pl:?}"));
                        }
                        if f != want {
                            run::fail("wrong-answer", "", format!("content {told:?}, preset {preset:?}, then {:?}: the reader has {f:?}; plan {pl:?}", b.steps));
                        }
                        if pos.is_some_and(|p| p != at) {
                            run::fail("position-moved", "", format!("the stream was handed over at {at} and left at {}; plan {pl:?}", pos.unwrap()));
                        }
                        if let (Some(d), Some(w)) = (&d, &dir) {
                            // whether damaged data is refused may depend on its delivery in codec crates: that is C01
                            let ideal = IoPlan { seed: 0, ..pl.clone() } == cursor_plan();
                            if differ(d, w) && (ideal || ok(d) == ok(w)) {
                                run::fail("decode-after-guess", "", format!("after the guess: {d}; without it: {w}; plan {pl:?}"));
                            }
                        }
                        run::digest(hash(format!("{f:?}{d:?}").as_bytes()));
                        run::sample(json!({"input": b.input.describe(), "position": at, "preset": b.preset, "door": format!("{:?}", b.door), "plan": pl,
                            "format": format!("{f:?}"), "decoded": d}));
                    }
                }
            }
        }
    }
}
fn plan12(r: &mut Rng, i: u32, faulty: bool, len: u64) -> IoPlan {
    if i == 0 {
        return IoPlan { seed: r.u64(), ..cursor_plan() };
    }
    let mut q = delivery(r);
    if faulty {
        let when = if r.chance(1, 2) { When::Op(r.below(8)) } else { When::Byte(r.below(len.min(80) + 1)) };
        let mut f = Fault { when, class: *r.pick(&[Class::Data, Class::Seek, Class::Any]), kind: kind(r), persistent: r.chance(1, 2) };
        if KINDS[f.kind as usize].2 == "unexpected-eof" {
            f.kind = 0;
        }
        q.faults.push(f);
    }
    q
}
