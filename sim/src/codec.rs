//! Driving image's public decode interfaces over any source and recording everything observable.
use crate::rng::{hash, mix2, Hasher};
use crate::run::{catch, Panicked};
use crate::simio::{IoPlan, IoStats, SimReader};
use image::codecs::*;
use image::{AnimationDecoder, DynamicImage, ImageDecoder, ImageError, ImageFormat, ImageReader, ImageResult, Limits};
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Seek};
use std::rc::Rc;

pub const FORMATS: [&str; 15] = [
    "bmp", "tga", "pnm", "hdr", "dds", "ico", "farbfeld", "qoi", "png", "gif", "webp", "tiff", "exr", "jpeg", "avif",
];
pub fn fmt(n: &str) -> ImageFormat {
    match n {
        "bmp" => ImageFormat::Bmp,
        "tga" => ImageFormat::Tga,
        "pnm" => ImageFormat::Pnm,
        "hdr" => ImageFormat::Hdr,
        "dds" => ImageFormat::Dds,
        "ico" => ImageFormat::Ico,
        "farbfeld" => ImageFormat::Farbfeld,
        "qoi" => ImageFormat::Qoi,
        "png" => ImageFormat::Png,
        "gif" => ImageFormat::Gif,
        "webp" => ImageFormat::WebP,
        "tiff" => ImageFormat::Tiff,
        "exr" => ImageFormat::OpenExr,
        "jpeg" => ImageFormat::Jpeg,
        "avif" => ImageFormat::Avif,
        _ => panic!("unknown format {n}"),
    }
}
pub fn ext(n: &str) -> &'static str {
    match n {
        "farbfeld" => "ff",
        "pnm" => "ppm",
        "jpeg" => "jpg",
        "tiff" => "tif",
        "exr" => "exr",
        other => FORMATS.iter().find(|f| **f == other).unwrap(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Route {
    /// ImageReader::with_format(..).decode()
    Reader,
    /// ImageReader::new(..).with_guessed_format()?.decode()
    Guess,
    /// image::load
    Load,
    /// ImageReader::into_decoder, metadata, read_image into a caller buffer
    Boxed,
    /// the concrete decoder type, metadata, read_image into a caller buffer
    Concrete,
    /// into_frames of the concrete decoder
    Frames,
    /// ImageReader::open on the simulated disk
    Open,
    /// into_dimensions only
    Dims,
    /// the other constructors and switches of the concrete decoders (bool: which of two)
    Special,
    Special2,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Opt {
    pub fill: u8,
    pub mis: u8,
    pub limits: Option<(Option<u32>, Option<u32>, Option<u64>)>,
    /// explicitly without limits (only where a route would otherwise set the default ones)
    pub meta: bool,
    pub max_frames: u32,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { fill: 0, mis: 0, limits: None, meta: true, max_frames: 400 }
    }
}
impl Opt {
    pub fn image_limits(&self) -> Option<Limits> {
        self.limits.map(|(w, h, a)| {
            let mut l = Limits::no_limits();
            l.max_image_width = w;
            l.max_image_height = h;
            l.max_alloc = a;
            l
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FrameOut {
    pub w: u32,
    pub h: u32,
    pub left: u32,
    pub top: u32,
    pub delay: (u32, u32),
    pub hash: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err(String, String),
    Panic(String, String),
    CallerPanic,
    /// the harness refuses to allocate this much
    TooBig,
}
impl End {
    pub fn ok(&self) -> bool {
        *self == End::Ok
    }
    pub fn tag(&self) -> String {
        match self {
            End::Ok => "Ok".into(),
            End::Err(k, m) => format!("Err({k}: {m})"),
            End::Panic(m, l) => format!("PANIC({m} at {l})"),
            End::CallerPanic => "caller panic".into(),
            End::TooBig => "too big".into(),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub dims: (u32, u32),
    pub color: String,
    pub orig: String,
    pub pix: u64,
    pub bytes: u64,
    pub icc: u64,
    pub exif: u64,
    pub orient: u8,
    pub frames: Vec<FrameOut>,
    /// pixels kept when asked for
    pub data: Vec<u8>,
}
impl Outcome {
    fn new() -> Outcome {
        Outcome {
            end: End::Ok, dims: (0, 0), color: String::new(), orig: String::new(), pix: 0, bytes: 0, icc: 0, exif: 0, orient: 1, frames: vec![],
            data: vec![],
        }
    }
    /// everything a caller may observe of a success
    pub fn same(&self, o: &Outcome) -> bool {
        self.end.ok() == o.end.ok() && (!self.end.ok() || self.content() == o.content()) && self.frames == o.frames
    }
    pub fn content(&self) -> ((u32, u32), &str, &str, u64, u64, u64, u64, u8) {
        (self.dims, &self.color, &self.orig, self.pix, self.bytes, self.icc, self.exif, self.orient)
    }
    pub fn key(&self) -> u64 {
        let mut h = Hasher::default();
        h.write(format!("{:?}{:?}{:?}", self.end.ok(), self.content(), self.frames).as_bytes());
        h.finish()
    }
    pub fn short(&self) -> String {
        format!(
            "{} {}x{} {}/{} pix={:016x} bytes={} icc={:x} exif={:x} orient={} frames={}",
            self.end.tag(), self.dims.0, self.dims.1, self.color, self.orig, self.pix, self.bytes, self.icc, self.exif, self.orient,
            self.frames.len()
        )
    }
}
pub fn err_end(e: &ImageError) -> End {
    let k = match e {
        ImageError::Decoding(_) => "Decoding",
        ImageError::Encoding(_) => "Encoding",
        ImageError::Parameter(_) => "Parameter",
        ImageError::Limits(_) => "Limits",
        ImageError::Unsupported(_) => "Unsupported",
        ImageError::IoError(_) => "IoError",
    };
    let mut m = e.to_string();
    m.truncate(160);
    End::Err(k.into(), m)
}
pub fn panic_end(p: Panicked) -> End {
    if p.caller {
        End::CallerPanic
    } else {
        End::Panic(p.msg, p.loc)
    }
}
/// largest output the harness itself will allocate for a still image
pub const MAX_OUT: u64 = 96 << 20;

/// caller buffer with chosen content and misalignment
pub struct CallerBuf {
    v: Vec<u8>,
    off: usize,
    n: usize,
}
impl CallerBuf {
    pub fn new(n: usize, fill: u8, mis: u8) -> CallerBuf {
        let mut v = vec![fill; n + 32];
        let base = v.as_ptr() as usize;
        let off = ((16 - base % 16) % 16) + (mis as usize & 15);
        // guard bytes around
        for (i, b) in v.iter_mut().enumerate() {
            if i < off || i >= off + n {
                *b = 0xA7;
            }
        }
        CallerBuf { v, off, n }
    }
    pub fn get(&mut self) -> &mut [u8] {
        &mut self.v[self.off..self.off + self.n]
    }
    pub fn guards_ok(&self) -> bool {
        self.v[..self.off].iter().all(|b| *b == 0xA7) && self.v[self.off + self.n..].iter().all(|b| *b == 0xA7)
    }
}

fn dynimg(o: &mut Outcome, d: &DynamicImage, keep: bool) {
    o.dims = (d.width(), d.height());
    o.color = format!("{:?}", d.color());
    o.pix = hash(d.as_bytes());
    o.bytes = d.as_bytes().len() as u64;
    if keep {
        o.data = d.as_bytes().to_vec();
    }
}
fn still<D: ImageDecoder>(mut d: D, opt: &Opt, o: &mut Outcome, keep: bool) -> ImageResult<()> {
    o.dims = d.dimensions();
    o.color = format!("{:?}", d.color_type());
    o.orig = format!("{:?}", d.original_color_type());
    if opt.meta {
        o.icc = d.icc_profile()?.map_or(0, |v| hash(&v) | 1);
        o.exif = d.exif_metadata()?.map_or(0, |v| hash(&v) | 1);
        o.orient = d.orientation()?.to_exif();
    }
    let n = d.total_bytes();
    o.bytes = n;
    if n > MAX_OUT {
        o.end = End::TooBig;
        return Ok(());
    }
    let mut b = CallerBuf::new(n as usize, opt.fill, opt.mis);
    d.read_image(b.get())?;
    o.pix = hash(b.get());
    if keep {
        o.data = b.get().to_vec();
    }
    if !b.guards_ok() {
        crate::run::fail("out-of-bounds-write", "", "read_image wrote outside the caller's buffer".into());
    }
    Ok(())
}
pub fn frames_into(fr: image::Frames, o: &mut Outcome, opt: &Opt) -> ImageResult<()> {
    for f in fr {
        let f = f?;
        let b = f.buffer();
        o.frames.push(FrameOut {
            w: b.width(),
            h: b.height(),
            left: f.left(),
            top: f.top(),
            delay: f.delay().numer_denom_ms(),
            hash: hash(b.as_raw()),
        });
        if o.frames.len() >= opt.max_frames as usize {
            break;
        }
    }
    Ok(())
}
macro_rules! concrete {
    ($n:expr, $r:expr, $d:ident => $body:expr) => {
        match $n {
            "bmp" => { #[allow(unused_mut)] let mut $d = bmp::BmpDecoder::new($r)?; $body }
            "tga" => { #[allow(unused_mut)] let mut $d = tga::TgaDecoder::new($r)?; $body }
            "pnm" => { #[allow(unused_mut)] let mut $d = pnm::PnmDecoder::new($r)?; $body }
            "hdr" => { #[allow(unused_mut)] let mut $d = hdr::HdrDecoder::new($r)?; $body }
            "dds" => { #[allow(unused_mut)] let mut $d = dds::DdsDecoder::new($r)?; $body }
            "ico" => { #[allow(unused_mut)] let mut $d = ico::IcoDecoder::new($r)?; $body }
            "farbfeld" => { #[allow(unused_mut)] let mut $d = farbfeld::FarbfeldDecoder::new($r)?; $body }
            "qoi" => { #[allow(unused_mut)] let mut $d = qoi::QoiDecoder::new($r)?; $body }
            "png" => { #[allow(unused_mut)] let mut $d = png::PngDecoder::new($r)?; $body }
            "gif" => { #[allow(unused_mut)] let mut $d = gif::GifDecoder::new($r)?; $body }
            "webp" => { #[allow(unused_mut)] let mut $d = webp::WebPDecoder::new($r)?; $body }
            "tiff" => { #[allow(unused_mut)] let mut $d = tiff::TiffDecoder::new($r)?; $body }
            "exr" => { #[allow(unused_mut)] let mut $d = openexr::OpenExrDecoder::new($r)?; $body }
            "jpeg" => { #[allow(unused_mut)] let mut $d = jpeg::JpegDecoder::new($r)?; $body }
            "avif" => { #[allow(unused_mut)] let mut $d = avif::AvifDecoder::new($r)?; $body }
            other => panic!("no decoder {other}"),
        }
    };
}
pub(crate) use concrete;

fn route<R: BufRead + Seek>(r: R, n: &str, rt: Route, opt: &Opt, o: &mut Outcome, keep: bool) -> ImageResult<()> {
    let lim = opt.image_limits();
    match rt {
        Route::Reader => {
            let mut rd = ImageReader::with_format(r, fmt(n));
            if let Some(l) = lim {
                rd.limits(l);
            }
            let d = rd.decode()?;
            dynimg(o, &d, keep);
        }
        Route::Guess => {
            let mut rd = ImageReader::new(r).with_guessed_format()?;
            if n == "tga" {
                rd.set_format(ImageFormat::Tga);
            }
            if let Some(l) = lim {
                rd.limits(l);
            }
            let d = rd.decode()?;
            dynimg(o, &d, keep);
        }
        Route::Load => {
            let d = image::load(r, fmt(n))?;
            dynimg(o, &d, keep);
        }
        Route::Boxed => {
            let mut rd = ImageReader::with_format(r, fmt(n));
            if let Some(l) = lim {
                rd.limits(l);
            }
            let d = rd.into_decoder()?;
            still(d, opt, o, keep)?;
        }
        Route::Concrete => {
            concrete!(n, r, d => {
                if let Some(l) = lim {
                    d.set_limits(l)?;
                }
                still(d, opt, o, keep)?
            })
        }
        Route::Frames => match n {
            "gif" => {
                let mut d = gif::GifDecoder::new(r)?;
                if let Some(l) = lim {
                    d.set_limits(l)?;
                }
                o.dims = d.dimensions();
                frames_into(d.into_frames(), o, opt)?
            }
            "webp" => {
                let mut d = webp::WebPDecoder::new(r)?;
                if let Some(l) = lim {
                    d.set_limits(l)?;
                }
                o.dims = d.dimensions();
                frames_into(d.into_frames(), o, opt)?
            }
            _ => {
                let mut d = match &lim {
                    Some(l) => png::PngDecoder::with_limits(r, l.clone())?,
                    None => png::PngDecoder::new(r)?,
                };
                if let Some(l) = lim {
                    d.set_limits(l)?;
                }
                o.dims = d.dimensions();
                frames_into(d.apng()?.into_frames(), o, opt)?
            }
        },
        Route::Dims => {
            o.dims = ImageReader::with_format(r, fmt(n)).into_dimensions()?;
        }
        Route::Special | Route::Special2 => {
            let second = rt == Route::Special2;
            macro_rules! go {
                ($d:expr) => {{
                    #[allow(unused_mut)]
                    let mut d = $d;
                    if let Some(l) = lim {
                        d.set_limits(l)?;
                    }
                    still(d, opt, o, keep)?
                }};
            }
            match n {
                "bmp" if second => {
                    let mut r = r;
                    r.read_exact(&mut [0; 14])?;
                    go!(bmp::BmpDecoder::new_without_file_header(r)?)
                }
                "bmp" => {
                    let mut d = bmp::BmpDecoder::new(r)?;
                    d.set_indexed_color(true);
                    go!(d)
                }
                "hdr" => go!(hdr::HdrDecoder::new_nonstrict(r)?),
                "exr" => go!(openexr::OpenExrDecoder::with_alpha_preference(r, Some(second))?),
                "png" => {
                    let l = opt.image_limits().unwrap_or_else(Limits::no_limits);
                    let d = png::PngDecoder::with_limits(r, l)?;
                    let _ = (d.is_apng()?, d.gamma_value()?);
                    go!(d)
                }
                "webp" => {
                    let mut d = webp::WebPDecoder::new(r)?;
                    let _ = d.set_background_color(image::Rgba([1, 2, 3, 4]));
                    go!(d)
                }
                _ => return route(r, n, Route::Concrete, opt, o, keep),
            }
        }
        Route::Open => unreachable!(),
    }
    Ok(())
}
pub struct DecodeRun {
    pub out: Outcome,
    pub st: IoStats,
}
/// Decode `data` as format `n` through route `rt` from a simulated source following `plan`.
pub fn decode(n: &str, rt: Route, data: &Rc<Vec<u8>>, plan: &IoPlan, opt: &Opt, keep: bool) -> DecodeRun {
    let mut o = Outcome::new();
    if rt == Route::Open {
        let path = format!("/sim/in.{}", ext(n));
        let mut fs = crate::simos::SimFs::default();
        fs.files.push((path.clone(), data.to_vec()));
        fs.read_plan = plan.clone();
        crate::simos::fs_mount(fs);
        let r = catch(|| -> ImageResult<()> {
            let mut rd = ImageReader::open(&path)?;
            if let Some(l) = opt.image_limits() {
                rd.limits(l);
            }
            let d = rd.decode()?;
            dynimg(&mut o, &d, keep);
            Ok(())
        });
        let fs = crate::simos::fs_unmount();
        if fs.open_fds() != 0 {
            crate::run::fail("leaked-descriptor", "", format!("{} descriptors still open after decode", fs.open_fds()));
        }
        settle(&mut o, r);
        return DecodeRun { out: o, st: fs.stats };
    }
    let (r, st) = SimReader::new(data.clone(), plan);
    let r = catch(|| route(r, n, rt, opt, &mut o, keep));
    settle(&mut o, r);
    let st = st.borrow().clone();
    DecodeRun { out: o, st }
}
pub fn decode_reader<R: BufRead + Seek>(n: &str, rt: Route, r: R, opt: &Opt, keep: bool) -> Outcome {
    let mut o = Outcome::new();
    let r = catch(|| route(r, n, rt, opt, &mut o, keep));
    settle(&mut o, r);
    o
}
fn settle(o: &mut Outcome, r: Result<ImageResult<()>, Panicked>) {
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => o.end = err_end(&e),
        Err(p) => o.end = panic_end(p),
    }
}
/// Whether the gif crate by itself refuses this stream delivered in this way (its decompressor, weezl
/// 0.1.12, takes rare valid streams for truncated or invalid ones).
pub fn gif_dep(data: &[u8], plan: &IoPlan, all: bool) -> &'static str {
    let (r, _) = SimReader::new(Rc::new(data.to_vec()), plan);
    let refused = catch(|| -> Result<(), String> {
        let mut o = ::gif::DecodeOptions::new();
        o.set_color_output(::gif::ColorOutput::RGBA);
        let mut d = o.read_info(r).map_err(|e| e.to_string())?;
        while d.next_frame_info().map_err(|e| e.to_string())?.is_some() {
            let mut v = vec![0; d.buffer_size()];
            d.read_into_buffer(&mut v).map_err(|e| e.to_string())?;
            if !all {
                break;
            }
        }
        Ok(())
    });
    if matches!(refused, Ok(Err(_))) {
        "gif-0.13-weezl-0.1.12"
    } else {
        ""
    }
}
/// plan under which a SimReader behaves like a Cursor
pub fn cursor_plan() -> IoPlan {
    IoPlan { window: u32::MAX, ..IoPlan::default() }
}
pub fn case(input: u64, n: &str, rt: Route, trace: u64) -> u64 {
    mix2(mix2(input, hash(n.as_bytes()) ^ rt as u64), trace)
}
