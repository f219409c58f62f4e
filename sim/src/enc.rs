//! Driving image's public encode interfaces into any sink.
use crate::codec::*;
use crate::forge;
use crate::rng::Rng;
use crate::run::{catch, Panicked};
use crate::simio::*;
use image::codecs::*;
use image::{DynamicImage, ExtendedColorType, Frame, ImageBuffer, ImageEncoder, ImageResult, Luma, LumaA, Rgb, Rgba, RgbaImage};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufWriter, Seek, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Col {
    L1, L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Rgb32F, Rgba32F,
}
impl Col {
    pub fn ext(self) -> ExtendedColorType {
        use ExtendedColorType as E;
        match self {
            Col::L1 => E::L1, Col::L8 => E::L8, Col::La8 => E::La8, Col::Rgb8 => E::Rgb8, Col::Rgba8 => E::Rgba8, Col::L16 => E::L16,
            Col::La16 => E::La16, Col::Rgb16 => E::Rgb16, Col::Rgba16 => E::Rgba16, Col::Rgb32F => E::Rgb32F, Col::Rgba32F => E::Rgba32F,
        }
    }
    pub fn ch(self) -> usize {
        match self {
            Col::L1 | Col::L8 | Col::L16 => 1,
            Col::La8 | Col::La16 => 2,
            Col::Rgb8 | Col::Rgb16 | Col::Rgb32F => 3,
            _ => 4,
        }
    }
    pub fn size(self) -> usize {
        match self {
            Col::L1 | Col::L8 | Col::La8 | Col::Rgb8 | Col::Rgba8 => 1,
            Col::Rgb32F | Col::Rgba32F => 4,
            _ => 2,
        }
    }
}
pub const ALL_COLS: [Col; 10] =
    [Col::L8, Col::La8, Col::Rgb8, Col::Rgba8, Col::L16, Col::La16, Col::Rgb16, Col::Rgba16, Col::Rgb32F, Col::Rgba32F];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Enc {
    Png { comp: u8, filter: u8 },
    Bmp { pal: u16 },
    Tga { rle: bool },
    /// 0 dynamic; 1,2 bitmap ascii/bin; 3,4 graymap; 5,6 pixmap; 7 arbitrary; 8.. chosen headers
    Pnm { sub: u8, max: u16 },
    Farbfeld,
    Qoi,
    Tiff,
    Webp,
    /// number of images
    Ico { n: u8 },
    Exr,
    Hdr,
    Jpeg { q: u8, density: u8, view: bool },
    Gif { speed: u8, repeat: u8, frames: u8 },
    Avif { speed: u8, q: u8, threads: u8 },
}
impl Enc {
    pub fn fmt(&self) -> &'static str {
        match self {
            Enc::Png { .. } => "png", Enc::Bmp { .. } => "bmp", Enc::Tga { .. } => "tga", Enc::Pnm { .. } => "pnm", Enc::Farbfeld => "farbfeld",
            Enc::Qoi => "qoi", Enc::Tiff => "tiff", Enc::Webp => "webp", Enc::Ico { .. } => "ico", Enc::Exr => "exr", Enc::Hdr => "hdr",
            Enc::Jpeg { .. } => "jpeg", Enc::Gif { .. } => "gif", Enc::Avif { .. } => "avif",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum WRoute {
    /// the concrete encoder with its options
    Encoder,
    /// write_buffer_with_format
    Buffer,
    /// DynamicImage::write_to
    DynTo,
    /// DynamicImage::write_with_encoder
    DynEnc,
    /// save_buffer, format from the path
    Save,
    /// save_buffer_with_format
    SaveFmt,
    /// DynamicImage::save or save_with_format
    DynSave,
    /// ImageBuffer::write_to
    BufTo,
    /// ImageBuffer::write_with_encoder
    BufEnc,
    /// ImageBuffer::save or save_with_format
    BufSave,
}
impl WRoute {
    pub fn file(self) -> bool {
        matches!(self, WRoute::Save | WRoute::SaveFmt | WRoute::DynSave | WRoute::BufSave)
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Job {
    pub enc: Enc,
    pub w: u32,
    pub h: u32,
    pub col: Col,
    pub seed: u64,
    pub route: WRoute,
    #[serde(default)]
    pub icc: u32,
    /// capacity of a BufWriter the caller puts around the sink and flushes; 0 = none
    #[serde(default)]
    pub buf: u32,
}
/// few-colour opaque content for GIF
pub fn gif_frame(seed: u64, w: u32, h: u32, opaque: bool) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let n = (w * h) as usize;
    let colours = *r.pick(&[1usize, 2, 3, 4, 5, 8, 16, 17, 100, 200, 255, 256]);
    let mut pal: Vec<[u8; 4]> = (0..colours).map(|_| [r.u8(), r.u8(), r.u8(), 255]).collect();
    if !opaque && r.chance(1, 2) {
        pal[0] = [r.u8(), r.u8(), r.u8(), 0];
    }
    let runs = r.chance(1, 2);
    let mut k = 0;
    let mut left = 0;
    let mut v = Vec::with_capacity(n * 4);
    for _ in 0..n {
        if left == 0 {
            k = r.usize(colours);
            left = if runs { r.skewed(60) + 1 } else { 1 };
        }
        left -= 1;
        v.extend_from_slice(&pal[k]);
    }
    v
}
impl Job {
    pub fn pixels(&self) -> Vec<u8> {
        let n = self.w as usize * self.h as usize;
        if n == 0 {
            return vec![];
        }
        let mut r = Rng::new(self.seed);
        if matches!(self.enc, Enc::Gif { .. }) {
            let f = gif_frame(self.seed, self.w, self.h, true);
            return match self.col {
                Col::Rgb8 => f.chunks(4).flat_map(|p| p[..3].to_vec()).collect(),
                Col::Rgba8 => f,
                c => forge::content(&mut r, n, c.ch() * c.size()),
            };
        }
        match self.col {
            Col::L1 => forge::content(&mut r, n, 1).iter().map(|b| b & 1).collect(),
            Col::L8 if matches!(self.enc, Enc::Pnm { sub: 1 | 2 | 12 | 13, .. }) && self.route == WRoute::Encoder => {
                let hi = *r.pick(&[255u8, 1, 0]);
                forge::content(&mut r, n, 1).iter().map(|b| if b & 1 == 1 { if hi == 0 { *b } else { hi } } else { 0 }).collect()
            }
            c if c.size() <= 2 && matches!(self.enc, Enc::Pnm { sub: 8..=11 | 14..=16, .. }) && self.route == WRoute::Encoder => {
                let max = match self.enc {
                    Enc::Pnm { max, .. } => max as u32,
                    _ => 0,
                };
                // samples within the chosen maximum, or now and then one above it
                let mode = r.below(4);
                let mut v = forge::content(&mut r, n, c.ch() * c.size());
                let keep = if mode == 0 { Some(r.below(n as u64 * c.ch() as u64) as usize) } else { None };
                if mode != 1 {
                    for (i, s) in v.chunks_mut(c.size()).enumerate() {
                        if Some(i) == keep {
                            continue;
                        }
                        if s.len() == 1 {
                            s[0] = (s[0] as u32 % (max + 1)) as u8;
                        } else {
                            let x = u16::from_ne_bytes([s[0], s[1]]) as u32 % (max + 1);
                            s.copy_from_slice(&(x as u16).to_ne_bytes());
                        }
                    }
                }
                v
            }
            Col::Rgb32F | Col::Rgba32F => {
                let kind = r.below(4);
                let c = forge::content(&mut r, n, self.col.ch());
                let mut out = Vec::with_capacity(c.len() * 4);
                for b in c {
                    let f = match kind {
                        0 => b as f32 / 255.0,
                        1 => f32::from_bits((r.u64() as u32) & 0xbfff_ffff),
                        2 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f32::MAX, f32::MIN_POSITIVE, 1e-40, f32::INFINITY, f32::NEG_INFINITY, 65504.0, 65536.0, 0.1]),
                        _ => b as f32 * b as f32 * 0.37,
                    };
                    out.extend_from_slice(&f.to_ne_bytes());
                }
                out
            }
            c => forge::content(&mut r, n, c.ch() * c.size()),
        }
    }
    pub fn bmp_palette(&self, n: u16) -> Vec<[u8; 3]> {
        let mut r = Rng::new(self.seed ^ 7);
        (0..n).map(|_| [r.u8(), r.u8(), r.u8()]).collect()
    }
    /// the images of an ICO file: one of full size among smaller ones
    pub fn ico_images(&self, n: u8, px: &[u8]) -> Vec<(Vec<u8>, u32, u32)> {
        (0..n as u32)
            .map(|i| {
                if i == (self.seed >> 8) as u32 % n as u32 || self.w * self.h <= 1 {
                    return (px.to_vec(), self.w, self.h);
                }
                let s = Job { w: (self.w / 2).max(1), h: (self.h / 2).max(1), seed: self.seed ^ i as u64, ..self.clone() };
                (s.pixels(), s.w, s.h)
            })
            .collect()
    }
    pub fn icc_bytes(&self) -> Vec<u8> {
        let mut r = Rng::new(self.seed ^ 0x1cc);
        (0..self.icc).map(|i| if r.chance(1, 3) { r.u8() } else { i as u8 }).collect()
    }
    pub fn dynimg(&self, px: &[u8]) -> Option<DynamicImage> {
        let (w, h) = (self.w, self.h);
        // a container may be longer than the image
        let longer = if self.seed % 4 == 3 { [px, &[0x77; 48][..]].concat() } else { px.to_vec() };
        let px = &longer[..];
        let u16s = || px.chunks_exact(2).map(|b| u16::from_ne_bytes([b[0], b[1]])).collect::<Vec<u16>>();
        let f32s = || px.chunks_exact(4).map(|b| f32::from_ne_bytes([b[0], b[1], b[2], b[3]])).collect::<Vec<f32>>();
        Some(match self.col {
            Col::L1 => return None,
            Col::L8 => DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, px.to_vec())?),
            Col::La8 => DynamicImage::ImageLumaA8(ImageBuffer::from_raw(w, h, px.to_vec())?),
            Col::Rgb8 => DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, px.to_vec())?),
            Col::Rgba8 => DynamicImage::ImageRgba8(ImageBuffer::from_raw(w, h, px.to_vec())?),
            Col::L16 => DynamicImage::ImageLuma16(ImageBuffer::<Luma<u16>, _>::from_raw(w, h, u16s())?),
            Col::La16 => DynamicImage::ImageLumaA16(ImageBuffer::<LumaA<u16>, _>::from_raw(w, h, u16s())?),
            Col::Rgb16 => DynamicImage::ImageRgb16(ImageBuffer::<Rgb<u16>, _>::from_raw(w, h, u16s())?),
            Col::Rgba16 => DynamicImage::ImageRgba16(ImageBuffer::<Rgba<u16>, _>::from_raw(w, h, u16s())?),
            Col::Rgb32F => DynamicImage::ImageRgb32F(ImageBuffer::<Rgb<f32>, _>::from_raw(w, h, f32s())?),
            Col::Rgba32F => DynamicImage::ImageRgba32F(ImageBuffer::<Rgba<f32>, _>::from_raw(w, h, f32s())?),
        })
    }
}
fn png_opts(comp: u8, filter: u8) -> (image::codecs::png::CompressionType, image::codecs::png::FilterType) {
    use image::codecs::png::{CompressionType as C, FilterType as F};
    (
        [C::Default, C::Fast, C::Best][comp as usize % 3],
        [F::NoFilter, F::Sub, F::Up, F::Avg, F::Paeth, F::Adaptive][filter as usize % 6],
    )
}
pub fn pnm_subtype(s: u8) -> pnm::PnmSubtype {
    use pnm::{PnmSubtype as P, SampleEncoding as S};
    match s {
        1 => P::Bitmap(S::Ascii),
        2 => P::Bitmap(S::Binary),
        3 => P::Graymap(S::Ascii),
        4 => P::Graymap(S::Binary),
        5 => P::Pixmap(S::Ascii),
        6 => P::Pixmap(S::Binary),
        _ => P::ArbitraryMap,
    }
}
pub fn pnm_header(s: u8, w: u32, h: u32, max: u32) -> pnm::PnmHeader {
    use pnm::*;
    let e = if s % 2 == 0 { SampleEncoding::Ascii } else { SampleEncoding::Binary };
    match s {
        8 | 9 => GraymapHeader { encoding: e, width: w, height: h, maxwhite: max }.into(),
        10 | 11 => PixmapHeader { encoding: e, width: w, height: h, maxval: max }.into(),
        12 | 13 => BitmapHeader { encoding: e, width: w, height: h }.into(),
        14 => ArbitraryHeader { width: w, height: h, depth: 1, maxval: max, tupltype: None }.into(),
        15 => ArbitraryHeader { width: w, height: h, depth: 3, maxval: max, tupltype: Some(ArbitraryTuplType::RGB) }.into(),
        _ => ArbitraryHeader { width: w, height: h, depth: 4, maxval: max, tupltype: Some(ArbitraryTuplType::RGBAlpha) }.into(),
    }
}
macro_rules! encoder {
    ($job:expr, $w:expr, $e:ident => $body:expr) => {
        match $job.enc {
            Enc::Png { comp, filter } => {
                let (c, f) = png_opts(comp, filter);
                #[allow(unused_mut)]
                let mut $e = png::PngEncoder::new_with_quality($w, c, f);
                $body
            }
            Enc::Bmp { .. } => { #[allow(unused_mut)] let mut $e = bmp::BmpEncoder::new(&mut $w); $body }
            Enc::Tga { rle } => {
                #[allow(unused_mut)]
                let mut $e = if rle { tga::TgaEncoder::new($w) } else { tga::TgaEncoder::new($w).disable_rle() };
                $body
            }
            Enc::Pnm { sub, max } => {
                let e = pnm::PnmEncoder::new($w);
                #[allow(unused_mut)]
                let mut $e = match sub {
                    0 if $job.seed % 2 == 0 => e.with_subtype(pnm_subtype(1)).with_dynamic_header(),
                    0 => e,
                    1..=7 => e.with_subtype(pnm_subtype(sub)),
                    _ => e.with_header(pnm_header(sub, $job.w, $job.h, max as u32)),
                };
                $body
            }
            Enc::Farbfeld => { #[allow(unused_mut)] let mut $e = farbfeld::FarbfeldEncoder::new($w); $body }
            Enc::Qoi => { #[allow(unused_mut)] let mut $e = qoi::QoiEncoder::new($w); $body }
            Enc::Tiff => { #[allow(unused_mut)] let mut $e = tiff::TiffEncoder::new($w); $body }
            Enc::Webp => { #[allow(unused_mut)] let mut $e = webp::WebPEncoder::new_lossless($w); $body }
            Enc::Ico { .. } => { #[allow(unused_mut)] let mut $e = ico::IcoEncoder::new($w); $body }
            Enc::Exr => { #[allow(unused_mut)] let mut $e = openexr::OpenExrEncoder::new($w); $body }
            Enc::Hdr => { #[allow(unused_mut)] let mut $e = hdr::HdrEncoder::new($w); $body }
            Enc::Jpeg { q, density, .. } => {
                let mut $e = jpeg::JpegEncoder::new_with_quality($w, q);
                if density > 0 {
                    $e.set_pixel_density(jpeg::PixelDensity::dpi(density as u16));
                }
                $body
            }
            Enc::Avif { speed, q, threads } => {
                #[allow(unused_mut)]
                let mut $e = avif::AvifEncoder::new_with_speed_quality($w, speed, q).with_num_threads(if threads == 0 { None } else { Some(threads as usize) });
                $body
            }
            Enc::Gif { .. } => unreachable!(),
        }
    };
}
pub fn gif_repeat(r: u8) -> Option<gif::Repeat> {
    match r {
        0 => None,
        1 => Some(gif::Repeat::Infinite),
        n => Some(gif::Repeat::Finite(n as u16)),
    }
}
/// the image buffer inside a DynamicImage
macro_rules! inner {
    ($d:expr, $b:ident => $body:expr) => {
        match $d {
            DynamicImage::ImageLuma8($b) => $body,
            DynamicImage::ImageLumaA8($b) => $body,
            DynamicImage::ImageRgb8($b) => $body,
            DynamicImage::ImageRgba8($b) => $body,
            DynamicImage::ImageLuma16($b) => $body,
            DynamicImage::ImageLumaA16($b) => $body,
            DynamicImage::ImageRgb16($b) => $body,
            DynamicImage::ImageRgba16($b) => $body,
            DynamicImage::ImageRgb32F($b) => $body,
            DynamicImage::ImageRgba32F($b) => $body,
            _ => unreachable!(),
        }
    };
}
/// Encode into `w`.  Everything that happens inside is image's doing.
pub fn run_enc<W: Write + Seek>(mut w: W, job: &Job, px: &[u8]) -> ImageResult<()> {
    let (wd, h, c) = (job.w, job.h, job.col.ext());
    match job.route {
        WRoute::Buffer => image::write_buffer_with_format(&mut w, px, wd, h, c, fmt(job.enc.fmt())),
        WRoute::DynTo => match job.dynimg(px) {
            Some(d) => d.write_to(&mut w, fmt(job.enc.fmt())),
            None => image::write_buffer_with_format(&mut w, px, wd, h, c, fmt(job.enc.fmt())),
        },
        WRoute::BufTo => match job.dynimg(px) {
            Some(d) => inner!(d, b => b.write_to(&mut w, fmt(job.enc.fmt()))),
            None => image::write_buffer_with_format(&mut w, px, wd, h, c, fmt(job.enc.fmt())),
        },
        WRoute::BufEnc if !matches!(job.enc, Enc::Gif { .. }) => {
            let d = job.dynimg(px).unwrap();
            encoder!(job, w, e => inner!(d, b => b.write_with_encoder(e)))
        }
        WRoute::DynEnc if !matches!(job.enc, Enc::Gif { .. }) => {
            let d = job.dynimg(px).unwrap();
            encoder!(job, w, e => d.write_with_encoder(e))
        }
        _ => match job.enc {
            Enc::Gif { speed, repeat, frames } => {
                let mut e = gif::GifEncoder::new_with_speed(w, speed as i32);
                if let Some(r) = gif_repeat(repeat) {
                    e.set_repeat(r)?;
                }
                if frames == 0 {
                    return e.encode(px, wd, h, c);
                }
                for i in 0..frames {
                    let f = gif_frame(job.seed ^ i as u64, wd, h, i % 2 == 0);
                    let f = RgbaImage::from_raw(wd, h, f).unwrap();
                    e.encode_frame(Frame::from_parts(f, 0, 0, image::Delay::from_numer_denom_ms(i as u32 * 10, 1)))?;
                }
                Ok(())
            }
            Enc::Bmp { pal } if pal > 0 => {
                bmp::BmpEncoder::new(&mut w).encode_with_palette(px, wd, h, c, Some(&job.bmp_palette(pal)))
            }
            Enc::Ico { n } if n > 1 => {
                let fr: ImageResult<Vec<ico::IcoFrame>> = job
                    .ico_images(n, px)
                    .iter()
                    .enumerate()
                    .map(|(i, (px, wd, h))| {
                        if i == 1 && job.seed % 2 == 0 {
                            // an image that the caller has encoded
                            let mut v = vec![];
                            png::PngEncoder::new(&mut v).write_image(px, *wd, *h, c)?;
                            return ico::IcoFrame::with_encoded(v, *wd, *h, c);
                        }
                        ico::IcoFrame::as_png(px, *wd, *h, c)
                    })
                    .collect();
                ico::IcoEncoder::new(w).encode_images(&fr?)
            }
            Enc::Jpeg { q, view: true, .. } if job.col.size() == 1 => {
                let d = job.dynimg(px).unwrap();
                let mut e = jpeg::JpegEncoder::new_with_quality(w, q);
                if job.icc > 0 {
                    let _ = e.set_icc_profile(job.icc_bytes());
                }
                match d {
                    DynamicImage::ImageLuma8(i) => e.encode_image(&i),
                    DynamicImage::ImageRgb8(i) => e.encode_image(&i),
                    _ => e.encode_image(&d),
                }
            }
            Enc::Pnm { .. } if job.col.size() == 2 || job.col == Col::L1 => {
                let s: Vec<u16> = px.chunks_exact(2).map(|b| u16::from_ne_bytes([b[0], b[1]])).collect();
                let mut e = pnm::PnmEncoder::new(w);
                if let Enc::Pnm { sub, max } = job.enc {
                    e = match sub {
                        0 => e,
                        1..=7 => e.with_subtype(pnm_subtype(sub)),
                        _ => e.with_header(pnm_header(sub, job.w, job.h, max as u32)),
                    };
                }
                // the buffer of ImageEncoder packs one-bit samples, that of this method does not
                if job.col == Col::L1 { e.encode(px, wd, h, c) } else { e.encode(&s[..], wd, h, c) }
            }
            _ => encoder!(job, w, e => {
                if job.icc > 0 {
                    let _ = e.set_icc_profile(job.icc_bytes());
                }
                e.write_image(px, wd, h, c)
            }),
        },
    }
}
pub struct WOut {
    pub end: End,
    pub bytes: Vec<u8>,
    pub st: IoStats,
    /// destructor of the sink ran
    pub closed: bool,
}
pub fn path_of(job: &Job) -> String {
    let e = match (&job.enc, job.seed % 3) {
        (Enc::Pnm { .. }, 0) => "ppm",
        (Enc::Pnm { .. }, 1) => "pam",
        (Enc::Jpeg { .. }, 0) => "jpeg",
        (Enc::Tiff, 0) => "tiff",
        (e, _) => ext(e.fmt()),
    };
    format!("/sim/out.{e}")
}
/// Encode under `plan`.
pub fn encode(job: &Job, px: &[u8], plan: &IoPlan) -> WOut {
    let mut al = CallerBuf::new(px.len(), 0, 0);
    al.get().copy_from_slice(px);
    let px = al.get();
    if job.route.file() {
        let path = path_of(job);
        let mut fs = crate::simos::SimFs::default();
        fs.write_plan = plan.clone();
        if plan.seed % 3 == 0 {
            // a longer file of the same name is already there
            fs.files.push((path.clone(), vec![0xEE; 5000]));
        }
        crate::simos::fs_mount(fs);
        let r = catch(|| match job.route {
            WRoute::Save => image::save_buffer(&path, px, job.w, job.h, job.col.ext()),
            WRoute::SaveFmt => image::save_buffer_with_format(&path, px, job.w, job.h, job.col.ext(), fmt(job.enc.fmt())),
            WRoute::DynSave if job.seed % 2 == 0 => job.dynimg(px).unwrap().save(&path),
            WRoute::DynSave => job.dynimg(px).unwrap().save_with_format(&path, fmt(job.enc.fmt())),
            _ if job.seed % 2 == 0 => inner!(job.dynimg(px).unwrap(), b => b.save(&path)),
            _ => inner!(job.dynimg(px).unwrap(), b => b.save_with_format(&path, fmt(job.enc.fmt()))),
        });
        let fs = crate::simos::fs_unmount();
        if fs.open_fds() != 0 {
            crate::run::fail("leaked-descriptor", "", format!("{} descriptors still open after save", fs.open_fds()));
        }
        let bytes = fs.get(&path).cloned().unwrap_or_default();
        return WOut { end: end_of(r), bytes, st: fs.stats, closed: true };
    }
    let (w, sink) = SimWriter::new(plan);
    let closed = w.closed.clone();
    let r = if job.buf > 0 {
        catch(|| {
            let mut b = BufWriter::with_capacity(job.buf as usize, w);
            let r = run_enc(&mut b, job, px).and_then(|()| b.flush().map_err(Into::into));
            if r.is_err() {
                // a caller that gave up does not write the rest
                drop(b.into_parts());
            }
            r
        })
    } else {
        catch(|| run_enc(w, job, px))
    };
    finish(r, sink, closed)
}
fn finish(r: Result<ImageResult<()>, Panicked>, sink: Rc<RefCell<Sink>>, closed: Rc<RefCell<bool>>) -> WOut {
    let s = sink.borrow();
    let closed = *closed.borrow();
    WOut { end: end_of(r), bytes: s.data.clone(), st: s.st.clone(), closed }
}
pub fn end_of(r: Result<ImageResult<()>, Panicked>) -> End {
    match r {
        Ok(Ok(())) => End::Ok,
        Ok(Err(e)) => err_end(&e),
        Err(p) => panic_end(p),
    }
}
impl Job {
    pub fn describe(&self) -> String {
        format!("{:?} {}x{} {:?} via {:?}", self.enc, self.w, self.h, self.col, self.route)
    }
    pub fn case(&self, trace: u64) -> u64 {
        crate::rng::mix2(crate::rng::hash(format!("{self:?}").as_bytes()), trace)
    }
}
/// what a format's decoder gives for samples stored losslessly, or None when the pair is not lossless
pub fn lossless(job: &Job) -> Option<Col> {
    use Col::*;
    let dynto = job.route == WRoute::DynTo;
    let direct = matches!(job.route, WRoute::Encoder);
    Some(match (&job.enc, job.col) {
        (Enc::Png { .. }, c) if c != L1 && c.size() < 4 => c,
        (Enc::Bmp { pal: 0 }, L8) | (Enc::Bmp { pal: 0 }, Rgb8) => Rgb8,
        (Enc::Bmp { pal: 0 }, Rgba8) => Rgba8,
        (Enc::Tga { .. }, L8 | La8 | Rgb8 | Rgba8) => job.col,
        (Enc::Pnm { sub: 0 | 7, .. }, L8 | Rgb8) => job.col,
        (Enc::Pnm { sub: 0 | 7, .. }, L16) if direct => L16,
        (Enc::Pnm { sub: 0 | 1 | 2 | 7, .. }, L1) if direct => L8,
        (Enc::Pnm { sub: 3 | 4, .. }, L8) => L8,
        (Enc::Pnm { sub: 5 | 6, .. }, Rgb8) => Rgb8,
        (Enc::Pnm { sub: 1 | 2, .. }, L8) if direct => L8,
        (Enc::Farbfeld, Rgba16) => Rgba16,
        (Enc::Qoi, Rgb8 | Rgba8) => job.col,
        (Enc::Tiff, L8 | Rgb8 | Rgba8 | L16 | Rgb16 | Rgba16) => job.col,
        (Enc::Webp, L8 | Rgb8) => Rgb8,
        (Enc::Webp, La8 | Rgba8) => Rgba8,
        (Enc::Ico { .. }, Rgba8) => Rgba8,
        (Enc::Exr, Rgb32F | Rgba32F) => job.col,
        (Enc::Gif { .. }, Rgb8 | Rgba8) => Rgba8,
        (Enc::Gif { .. }, _) if dynto => return None,
        _ => return None,
    })
}

pub fn any_job(r: &mut Rng, heavy: bool, max: u32) -> Job {
    let enc = loop {
        let k = r.below(if heavy { 30 } else { 26 });
        break match k {
            0..=3 => Enc::Png { comp: r.below(3) as u8, filter: r.below(6) as u8 },
            4..=6 => Enc::Bmp { pal: if r.chance(1, 4) { *r.pick(&[2u16, 16, 255, 256]) } else { 0 } },
            7..=9 => Enc::Tga { rle: r.chance(2, 3) },
            10..=13 => {
                let sub = if r.chance(1, 3) { r.range(8, 16) as u8 } else { r.below(8) as u8 };
                Enc::Pnm { sub, max: *r.pick(&[255u16, 65535, 1, 3, 100, 200, 254, 256, 1000]) }
            }
            14 => Enc::Farbfeld,
            15 | 16 => Enc::Qoi,
            17 | 18 => Enc::Tiff,
            19 | 20 => Enc::Webp,
            21 | 22 => Enc::Ico { n: if r.chance(1, 3) { r.range(2, 4) as u8 } else { 1 } },
            23 => Enc::Hdr,
            24 | 25 => Enc::Gif { speed: r.range(1, 30) as u8, repeat: r.below(4) as u8, frames: if r.chance(1, 2) { 0 } else { r.range(1, 4) as u8 } },
            26 | 27 => Enc::Jpeg { q: *r.pick(&[1u8, 50, 75, 90, 100]), density: r.below(3) as u8, view: r.chance(1, 3) },
            28 => Enc::Exr,
            _ => {
                if r.chance(3, 4) {
                    continue;
                }
                Enc::Avif { speed: 10, q: *r.pick(&[10u8, 80]), threads: r.below(3) as u8 }
            }
        };
    };
    use Col::*;
    let cols: &[Col] = match enc {
        Enc::Png { .. } => &[L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16],
        Enc::Bmp { pal } if pal > 0 => &[L8, La8],
        Enc::Bmp { .. } => &[L8, La8, Rgb8, Rgb8, Rgba8],
        Enc::Tga { .. } => &[L8, La8, Rgb8, Rgba8],
        Enc::Pnm { sub, .. } => match sub {
            1 | 2 | 12 | 13 => &[L8, L8, L1],
            3 | 4 | 8 | 9 | 14 => &[L8, L8, L16],
            5 | 6 | 10 | 11 | 15 => &[Rgb8, Rgb8, Rgb8, Rgb16],
            16.. => &[Rgba8],
            _ => &[L8, La8, Rgb8, Rgba8, L16, Rgb16, L1],
        },
        Enc::Farbfeld => &[Rgba16],
        Enc::Qoi => &[Rgb8, Rgba8],
        Enc::Tiff => &[L8, Rgb8, Rgba8, L16, Rgb16, Rgba16],
        Enc::Webp => &[L8, La8, Rgb8, Rgba8],
        Enc::Ico { .. } => &[Rgba8, Rgba8, Rgba8, L8, Rgb8, La8, Rgba16],
        Enc::Exr => &[Rgb32F, Rgba32F],
        Enc::Hdr => &[Rgb32F],
        Enc::Jpeg { .. } => &[L8, Rgb8, Rgb8, La8, Rgba8],
        Enc::Gif { .. } => &[Rgb8, Rgba8],
        Enc::Avif { .. } => &[Rgb8, Rgba8, L8, Rgb16],
    };
    let mut col = *r.pick(cols);
    if r.chance(1, 40) {
        col = *r.pick(&ALL_COLS);
    }
    let mut route = *r.pick(&[
        WRoute::Encoder, WRoute::Encoder, WRoute::Encoder, WRoute::Encoder, WRoute::Buffer, WRoute::DynTo, WRoute::DynEnc, WRoute::Save, WRoute::SaveFmt, WRoute::DynSave,
        WRoute::BufTo, WRoute::BufEnc, WRoute::BufSave,
    ]);
    if col == L1 || matches!(enc, Enc::Ico { n } if n > 1) || matches!(enc, Enc::Bmp { pal } if pal > 0) {
        route = WRoute::Encoder;
    }
    if matches!(enc, Enc::Gif { .. }) && matches!(route, WRoute::DynEnc | WRoute::BufEnc) {
        route = WRoute::DynTo;
    }
    let max = match enc {
        Enc::Avif { .. } => max.min(17),
        Enc::Exr => max.min(40),
        Enc::Ico { .. } => max.min(256),
        _ => max,
    };
    let d = |r: &mut Rng| match r.below(8) {
        0 => 1,
        1 => r.range(1, 4) as u32,
        2 => max,
        _ => r.range(1, max as u64) as u32,
    };
    let (mut w, mut h) = (d(r), d(r));
    if r.chance(1, 60) && matches!(enc, Enc::Tga { .. } | Enc::Qoi | Enc::Bmp { .. } | Enc::Png { .. } | Enc::Tiff | Enc::Farbfeld | Enc::Pnm { .. }) {
        // long and thin: beyond one buffer
        w = r.range(200, 6000) as u32;
        h = r.range(1, 3) as u32;
        if r.chance(1, 2) {
            std::mem::swap(&mut w, &mut h);
        }
    }
    if matches!(enc, Enc::Hdr) && max < 300 && r.chance(1, 4) {
        // runs of more than one packet
        w = r.range(100, 600) as u32;
        h = r.range(1, 3) as u32;
    }
    let icc = if matches!(enc, Enc::Png { .. } | Enc::Webp) && route == WRoute::Encoder && r.chance(1, 3) {
        if r.chance(1, 5) { r.range(1, 9000) as u32 } else { r.range(1, 300) as u32 }
    } else if matches!(enc, Enc::Jpeg { .. }) && route == WRoute::Encoder && r.chance(1, 2) {
        match r.below(8) {
            0 => (65519 * r.range(1, 2) + r.below(3) - 1) as u32,
            1 => r.range(60000, 200000) as u32,
            2 => r.range(1, 9000) as u32,
            _ => r.range(1, 300) as u32,
        }
    } else {
        0
    };
    let buf = if !route.file() && r.chance(1, 4) { *r.pick(&[1u32, 7, 64, 1000, 8192]) } else { 0 };
    Job { enc, w, h, col, seed: r.u64(), route, icc, buf }
}
/// simpler jobs for minimisation
pub fn shrink_job(j: &Job) -> Vec<Job> {
    let mut v = vec![];
    for (w, h) in [(1, 1), (2, 1), (1, 2), (3, 3), (j.w / 2, j.h), (j.w, j.h / 2), (j.w.saturating_sub(1), j.h), (j.w, j.h.saturating_sub(1))] {
        if w > 0 && h > 0 && (w as u64) * (h as u64) < (j.w as u64) * (j.h as u64) {
            v.push(Job { w, h, ..j.clone() });
        }
    }
    if j.icc > 1 {
        v.push(Job { icc: 0, ..j.clone() });
        v.push(Job { icc: 1, ..j.clone() });
    }
    if j.buf > 0 {
        v.push(Job { buf: 0, ..j.clone() });
    }
    if j.seed > 3 {
        for s in 0..3 {
            v.push(Job { seed: s, ..j.clone() });
        }
    }
    v
}

/// encodings that keep the picture within a bound that the options determine
pub fn near(job: &Job) -> bool {
    match (&job.enc, job.col) {
        (Enc::Jpeg { .. }, Col::L8 | Col::Rgb8) => true,
        (Enc::Hdr, Col::Rgb32F) => true,
        (Enc::Bmp { pal }, Col::L8 | Col::La8) => *pal > 0 || job.col == Col::La8,
        _ => false,
    }
}
/// the quality that the job's way of encoding uses
pub fn jpeg_quality(job: &Job) -> u32 {
    match (&job.enc, job.route) {
        (Enc::Jpeg { q, .. }, WRoute::Encoder | WRoute::DynEnc | WRoute::BufEnc) => *q as u32,
        _ => 75,
    }
}
