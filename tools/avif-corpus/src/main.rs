//! Writes the AVIF corpus files of other layouts than the library's own encoder produces to ./out (cargo run --release --offline).
use rav1e::prelude::*;
fn frame<T: Pixel>(w: usize, h: usize, cs: ChromaSampling, bits: usize, seed: u64, full: bool, mono: Option<u64>, mc: MatrixCoefficients) -> Vec<u8> {
    let mut enc = EncoderConfig::with_speed_preset(10);
    enc.width = w; enc.height = h; enc.bit_depth = bits; enc.chroma_sampling = cs; enc.still_picture = true;
    enc.pixel_range = if full { PixelRange::Full } else { PixelRange::Limited };
    enc.quantizer = 60; enc.min_quantizer = 0;
    enc.color_description = Some(color::ColorDescription { color_primaries: ColorPrimaries::BT709, transfer_characteristics: TransferCharacteristics::SRGB, matrix_coefficients: mc });
    let cfg = Config::new().with_encoder_config(enc);
    let mut ctx: Context<T> = cfg.new_context().unwrap();
    let mut f = ctx.new_frame();
    let n = if cs == ChromaSampling::Cs400 { 1 } else { 3 };
    let mut s = seed | 1;
    for p in 0..n {
        let (dx, dy) = if p == 0 { (0, 0) } else { match cs { ChromaSampling::Cs420 => (1, 1), ChromaSampling::Cs422 => (1, 0), _ => (0, 0) } };
        let (pw, ph) = ((w + dx) >> dx, (h + dy) >> dy);
        let max = (1u32 << bits) - 1;
        let bytes = if bits > 8 { 2 } else { 1 };
        let mut v = vec![];
        for y in 0..ph { for x in 0..pw {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            let m = mono.unwrap_or(0);
            let k = (x as u64 * (7 + p as u64 * 5 + m) + y as u64 * (11 + p as u64 * 3) + s % 9) as u32 * (max / 255) + if p > 0 { max / 3 } else { 0 };
            let k = k % (max + 1);
            v.push(k as u8); if bytes == 2 { v.push((k >> 8) as u8); }
        } }
        f.planes[p].copy_from_raw_u8(&v, pw * bytes, bytes);
    }
    ctx.send_frame(f).unwrap(); ctx.flush();
    let mut out = vec![];
    loop { match ctx.receive_packet() { Ok(p) => { out.extend(p.data); } Err(EncoderStatus::Encoded) => {}, Err(EncoderStatus::LimitReached) => break, Err(e) => panic!("{e}") } }
    out
}
fn any(w: usize, h: usize, cs: ChromaSampling, bits: usize, seed: u64, full: bool, mc: MatrixCoefficients) -> Vec<u8> {
    if bits > 8 { frame::<u16>(w, h, cs, bits, seed, full, None, mc) } else { frame::<u8>(w, h, cs, bits, seed, full, None, mc) }
}
fn main() {
    use ChromaSampling::*;
    let mut n = 5;
    let sizes = [(9, 7), (16, 10), (5, 12), (17, 17), (2, 3), (33, 4), (1, 6), (6, 1), (11, 11)];
    for (li, (cs, name)) in [(Cs420, "420"), (Cs422, "422"), (Cs400, "400"), (Cs444, "444")].into_iter().enumerate() {
        for (bi, bits) in [8usize, 10, 12].into_iter().enumerate() {
            for al in 0..2 {
                let (w, h) = sizes[(li * 7 + bi * 2 + al * 3) % sizes.len()];
                let full = (li + bi + al) % 2 == 0;
                let mc = [MatrixCoefficients::BT601, MatrixCoefficients::BT709, MatrixCoefficients::BT2020NCL, MatrixCoefficients::Unspecified][(li + bi) % 4];
                let c = any(w, h, cs, bits, 1 + n as u64 * 77, full, mc);
                let a = if al == 1 { Some(any(w, h, Cs400, bits, 5 + n as u64 * 3, true, MatrixCoefficients::Unspecified)) } else { None };
                let v = avif_serialize::Aviffy::new()
                    .set_chroma_subsampling((cs == Cs420 || cs == Cs422, cs == Cs420))
                    .set_monochrome(cs == Cs400)
                    .to_vec(&c, a.as_deref(), w as u32, h as u32, bits as u8);
                let nm = format!("{n}-{name}-{bits}{}-{w}x{h}.avif", if al == 1 { "a" } else { "" });
                println!("{nm} {}", v.len());
                std::fs::write(format!("out/{nm}"), v).unwrap();
                n += 1;
            }
        }
    }
    for (li, (cs, name)) in [(Cs420, "420"), (Cs422, "422")].into_iter().enumerate() {
        for (bi, bits) in [8usize, 10, 12].into_iter().enumerate() {
            for (w, h) in [[(11, 6), (3, 5), (7, 9)][(li + bi) % 3], [(23, 2), (1, 1), (15, 21)][(li + 2 * bi) % 3]] {
                let full = (li + bi + w) % 2 == 0;
                let mc = [MatrixCoefficients::BT601, MatrixCoefficients::BT470BG, MatrixCoefficients::SMPTE240][bi];
                let c = any(w, h, cs, bits, 1 + n as u64 * 77, full, mc);
                let v = avif_serialize::Aviffy::new().set_chroma_subsampling((true, cs == Cs420)).to_vec(&c, None, w as u32, h as u32, bits as u8);
                let nm = format!("{n}-{name}-{bits}-{w}x{h}.avif");
                println!("{nm} {}", v.len());
                std::fs::write(format!("out/{nm}"), v).unwrap();
                n += 1;
            }
        }
    }
}
