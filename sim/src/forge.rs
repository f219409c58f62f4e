//! Seeded generators of valid files for every supported format, written independently of /repo
//! (small writers here; gif, tiff, exr and ravif crates, which are not under test, for the rest).
use crate::rng::Rng;

pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(vec![])
    }
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.0.push(v);
        self
    }
    pub fn le16(&mut self, v: u16) -> &mut W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn le32(&mut self, v: u32) -> &mut W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn be16(&mut self, v: u16) -> &mut W {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn be32(&mut self, v: u32) -> &mut W {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn b(&mut self, v: &[u8]) -> &mut W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn s(&mut self, v: &str) -> &mut W {
        self.b(v.as_bytes())
    }
}

/// Image content with structure: decoders' run, delta and cache paths all need feeding.
pub fn content(r: &mut Rng, n: usize, ch: usize) -> Vec<u8> {
    let mut v = vec![0u8; n * ch];
    let kind = r.below(10);
    let mut px: Vec<u8> = (0..ch).map(|_| r.u8()).collect();
    let pal: Vec<Vec<u8>> = (0..r.range(2, 9)).map(|_| (0..ch).map(|_| r.u8()).collect()).collect();
    let mut left = 0u64;
    let mut same = true;
    for i in 0..n {
        match kind {
            0 => r_fill(r, &mut px),
            1 => {}
            2 => {
                // runs
                if left == 0 {
                    r_fill(r, &mut px);
                    left = r.skewed(300) + 1;
                }
                left -= 1;
            }
            3 => {
                // runs mixed with noise
                if left == 0 {
                    same = r.chance(1, 2);
                    left = r.skewed(140) + 1;
                    r_fill(r, &mut px);
                }
                if !same {
                    r_fill(r, &mut px);
                }
                left -= 1;
            }
            4 => {
                for c in px.iter_mut() {
                    *c = c.wrapping_add(r.below(5) as u8).wrapping_sub(2);
                }
            }
            5 => px.clone_from(r.pick(&pal)),
            6 => px = pal[i & 1].clone(),
            7 => {
                for c in px.iter_mut() {
                    *c = *r.pick(&[0u8, 255, 0, 255, 1, 254, 127, 128]);
                }
            }
            8 => {
                // luma-like differences, alpha mostly kept
                let g = r.below(64) as i32 - 32;
                for (k, c) in px.iter_mut().enumerate() {
                    if k < 3 {
                        *c = (*c as i32 + g + r.below(16) as i32 - 8) as u8;
                    } else if r.chance(1, 30) {
                        *c = r.u8();
                    }
                }
            }
            _ => {
                for (k, c) in px.iter_mut().enumerate() {
                    *c = (i * (k + 1)) as u8;
                }
            }
        }
        if kind >= 5 && ch == 4 && r.chance(1, 6) {
            px[3] = *r.pick(&[0u8, 255]);
        }
        v[i * ch..(i + 1) * ch].copy_from_slice(&px);
    }
    v
}
fn r_fill(r: &mut Rng, px: &mut [u8]) {
    for c in px.iter_mut() {
        *c = r.u8();
    }
}
/// dimensions: small, thin, and boundary-straddling sizes
pub fn dims(r: &mut Rng, max: u32) -> (u32, u32) {
    let one = |r: &mut Rng| -> u32 {
        let v = match r.below(8) {
            0 => 1,
            1 => r.range(1, 4) as u32,
            2 | 3 => r.range(1, 17) as u32,
            4 => *r.pick(&[7u32, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
            _ => r.skewed(max as u64) as u32 + 1,
        };
        v.min(max)
    };
    let mut w = one(r);
    let mut h = one(r);
    if r.chance(1, 12) {
        w = r.range(1, (max * 5) as u64) as u32;
        h = r.range(1, 3) as u32;
    }
    while w as u64 * h as u64 > (max as u64 * max as u64) / 3 {
        if w > h {
            w /= 2
        } else {
            h /= 2
        }
    }
    (w.max(1), h.max(1))
}

pub fn forge(fmt: &str, r: &mut Rng, max: u32) -> Vec<u8> {
    match fmt {
        "bmp" => bmp(r, max, false),
        "tga" => tga(r, max),
        "pnm" => pnm(r, max),
        "hdr" => hdr(r, max),
        "dds" => dds(r, max),
        "ico" => ico(r),
        "farbfeld" => farbfeld(r, max),
        "qoi" => qoi(r, max),
        "png" => png(r, max, None),
        "apng" => {
            let n = r.range(1, 6) as u32;
            png(r, max.min(40), Some(n))
        }
        "gif" => gif(r, max.min(60)),
        "webp" => webp(r, max),
        "tiff" => tiff(r, max),
        "exr" => exr_(r, max),
        "jpeg" => crate::forge_jpeg::jpeg(r, max),
        other => panic!("no forge for {other}"),
    }
}

// ------------------------------------------------------------------ BMP
fn le(v: u32, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}
pub fn bmp(r: &mut Rng, max: u32, ico: bool) -> Vec<u8> {
    let (w, h) = dims(r, max);
    bmp_sized(r, w, h, ico)
}
/// `ico`: no file header, doubled height, AND mask appended
pub fn bmp_sized(r: &mut Rng, w: u32, h: u32, ico: bool) -> Vec<u8> {
    // what an icon normally holds, or any bitmap
    let plain = ico && r.chance(2, 3);
    let hdr = if plain { 40 } else { *r.pick(&[12u32, 40, 40, 40, 52, 56, 108, 124]) };
    let mut modes: Vec<&str> = vec!["1", "4", "8", "24"];
    if hdr >= 40 {
        modes.push("32");
        if !plain {
            modes.extend(["16", "16b", "32b", "rle8", "rle4"]);
            if hdr >= 56 {
                modes.extend(["32a", "16a"]);
            }
        } else {
            modes.extend(["32", "32"]);
        }
    }
    let mode = *r.pick(&modes);
    let topdown = !plain && hdr >= 40 && !mode.starts_with("rle") && r.chance(1, 3);
    let (bits, comp) = match mode {
        "1" => (1u16, 0u32),
        "4" => (4, 0),
        "8" => (8, 0),
        "16" => (16, 0),
        "24" => (24, 0),
        "32" => (32, 0),
        "16b" | "16a" => (16, 3),
        "32b" | "32a" => (32, 3),
        "rle8" => (8, 1),
        _ => (4, 2),
    };
    let masks: [u32; 4] = match mode {
        "16b" => *r.pick(&[[0xF800, 0x7E0, 0x1F, 0], [0x7C00, 0x3E0, 0x1F, 0], [0xF00, 0xF0, 0xF, 0]]),
        "16a" => *r.pick(&[[0xF00, 0xF0, 0xF, 0xF000], [0x7C00, 0x3E0, 0x1F, 0x8000]]),
        "32b" => *r.pick(&[[0xFF0000, 0xFF00, 0xFF, 0], [0xFF, 0xFF00, 0xFF0000, 0], [0xFF000000, 0xFF0000, 0xFF00, 0]]),
        "32a" => *r.pick(&[[0xFF0000, 0xFF00, 0xFF, 0xFF000000], [0xFF, 0xFF00, 0xFF0000, 0xFF000000]]),
        _ => [0; 4],
    };
    let full = 1u32 << bits.min(8);
    let colors = if bits <= 8 {
        if hdr == 12 {
            full
        } else if r.chance(1, 3) {
            r.range(1, full as u64) as u32
        } else {
            full
        }
    } else {
        0
    };
    let mut p = W::new();
    // info header
    let hh = if ico { h * 2 } else { h };
    if hdr == 12 {
        p.le32(12).le16(w as u16).le16(hh as u16).le16(1).le16(bits);
    } else {
        p.le32(hdr).le32(w).le32(if topdown { (-(hh as i32)) as u32 } else { hh }).le16(1).le16(bits).le32(comp);
        p.le32(0).le32(2835).le32(2835).le32(if colors == full { 0 } else { colors }).le32(0);
        if hdr >= 52 {
            for m in &masks[..3] {
                p.le32(*m);
            }
        }
        if hdr >= 56 {
            p.le32(masks[3]);
        }
        while p.0.len() < hdr as usize {
            p.u8(0);
        }
        if comp == 3 && hdr == 40 {
            for m in &masks[..3] {
                p.le32(*m);
            }
        }
    }
    let pal: Vec<[u8; 3]> = (0..colors).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
    for c in &pal {
        p.b(c);
        if hdr != 12 {
            p.u8(0);
        }
    }
    let gap = if !ico && r.chance(1, 5) { r.below(9) as usize } else { 0 };
    for _ in 0..gap {
        p.u8(0xEE);
    }
    let off = p.0.len() + 14;
    let n = (w * h) as usize;
    if mode.starts_with("rle") {
        let d = rle(r, w, h, mode == "rle8", colors);
        p.b(&d);
    } else {
        let ch = (bits as usize).max(8) / 8;
        let c = content(r, n, ch);
        for y in 0..h as usize {
            let mut row = vec![];
            if bits < 8 {
                let per = 8 / bits as usize;
                for x in (0..w as usize).step_by(per) {
                    let mut b = 0u8;
                    for k in 0..per {
                        let v = if x + k < w as usize { c[y * w as usize + x + k] as u32 % colors.max(1) } else { 0 };
                        b = (b << bits) | (v as u8 & ((1u16 << bits) - 1) as u8);
                    }
                    row.push(b);
                }
            } else if bits == 8 {
                row.extend(c[y * w as usize..(y + 1) * w as usize].iter().map(|v| (*v as u32 % colors.max(1)) as u8));
            } else {
                row.extend_from_slice(&c[y * w as usize * ch..(y + 1) * w as usize * ch]);
            }
            while row.len() % 4 != 0 {
                row.push(0);
            }
            p.b(&row);
        }
    }
    if ico {
        let rowb = (w as usize).div_ceil(32) * 4;
        for _ in 0..rowb * h as usize {
            let v = r.u8();
            p.u8(if r.chance(1, 2) { v } else { 0 });
        }
        return p.0;
    }
    if r.chance(1, 6) {
        for _ in 0..r.below(20) {
            let v = r.u8();
            p.u8(v);
        }
    }
    let mut f = W::new();
    f.s("BM").le32(p.0.len() as u32 + 14).le32(0).le32(off as u32).b(&p.0);
    f.0
}
fn rle(r: &mut Rng, w: u32, h: u32, eight: bool, colors: u32) -> Vec<u8> {
    let mut o = W::new();
    let (mut x, mut y) = (0u32, 0u32);
    let idx = |r: &mut Rng| -> u8 {
        if eight {
            r.below(colors as u64) as u8
        } else {
            (r.below(colors as u64) as u8) << 4 | r.below(colors as u64) as u8
        }
    };
    while y < h {
        if x >= w {
            o.u8(0).u8(0);
            x = 0;
            y += 1;
            continue;
        }
        match r.below(12) {
            0 => {
                // early end of line
                o.u8(0).u8(0);
                x = 0;
                y += 1;
            }
            1 => {
                let dx = r.below((w - x) as u64).min(200) as u32;
                let dy = r.below((h - y) as u64).min(3) as u32;
                o.u8(0).u8(2).u8(dx as u8).u8(dy as u8);
                x += dx;
                y += dy;
            }
            2..=5 => {
                let n = r.range(1, (w - x).min(255) as u64) as u32;
                if n >= 3 {
                    o.u8(0).u8(n as u8);
                    let bytes = if eight { n } else { n.div_ceil(2) };
                    for _ in 0..bytes {
                        let v = idx(r);
                        o.u8(v);
                    }
                    if bytes % 2 == 1 {
                        o.u8(0);
                    }
                } else {
                    let v = idx(r);
                    o.u8(n as u8).u8(v);
                }
                x += n;
            }
            _ => {
                let n = r.range(1, (w - x).min(255) as u64) as u32;
                let v = idx(r);
                o.u8(n as u8).u8(v);
                x += n;
            }
        }
        if r.chance(1, 200) {
            break;
        }
    }
    o.u8(0).u8(1);
    o.0
}

// ------------------------------------------------------------------ TGA
pub fn tga(r: &mut Rng, max: u32) -> Vec<u8> {
    let (w, h) = dims(r, max);
    let rlef = r.chance(1, 2);
    let kind = *r.pick(&[1u8, 2, 3]);
    let mut o = W::new();
    let idlen = if r.chance(1, 3) { r.below(40) as u8 } else { 0 };
    let (bpp, alpha) = match kind {
        1 => (*r.pick(&[8u8, 16]), 0u8),
        2 => *r.pick(&[(24u8, 0u8), (32, 8)]),
        _ => *r.pick(&[(8u8, 0u8), (16, 8)]),
    };
    let (mapn, mapd) = if kind == 1 { (r.range(1, 256) as u16, *r.pick(&[24u8, 24, 32])) } else { (0, 0) };
    let (alpha, bpp) = if kind == 1 { (if mapd == 32 { 8 } else { 0 }, 8.min(bpp)) } else { (alpha, bpp) };
    let mapfirst = 0u16;
    let desc = alpha | if r.chance(1, 2) { 0x20 } else { 0 } | if r.chance(1, 5) { 0x10 } else { 0 };
    o.u8(idlen).u8((kind == 1) as u8).u8(kind + if rlef { 8 } else { 0 });
    o.le16(mapfirst).le16(mapn).u8(mapd).le16(0).le16(0).le16(w as u16).le16(h as u16).u8(bpp).u8(desc);
    for _ in 0..idlen {
        let v = r.u8();
        o.u8(v);
    }
    for _ in 0..mapn as usize * (mapd as usize / 8) {
        let v = r.u8();
        o.u8(v);
    }
    let ch = bpp as usize / 8;
    let n = (w * h) as usize;
    let mut c = content(r, n, ch);
    if kind == 1 {
        for v in c.iter_mut() {
            *v = (*v as u16 % mapn) as u8;
        }
    }
    if !rlef {
        o.b(&c);
    } else {
        let mut i = 0;
        while i < n {
            let mut run = 1;
            while i + run < n && run < 128 && c[(i + run) * ch..(i + run + 1) * ch] == c[i * ch..(i + 1) * ch] {
                run += 1;
            }
            if run > 1 || r.chance(1, 4) {
                let take = if r.chance(1, 5) { r.range(1, run as u64) as usize } else { run };
                o.u8(0x80 | (take - 1) as u8).b(&c[i * ch..(i + 1) * ch]);
                i += take;
            } else {
                let take = (r.range(1, 128) as usize).min(n - i);
                o.u8((take - 1) as u8).b(&c[i * ch..(i + take) * ch]);
                i += take;
            }
        }
    }
    if r.chance(1, 3) {
        o.le32(0).le32(0).b(b"TRUEVISION-XFILE.\0");
    }
    o.0
}

// ------------------------------------------------------------------ PNM
fn ws(r: &mut Rng, o: &mut W) {
    match r.below(8) {
        0 => o.s("\n"),
        1 => o.s("\t"),
        2 => o.s("\n# a comment, with 123 digits\n"),
        3 => o.s(" #x\n "),
        4 => o.s("\r\n"),
        _ => o.s(" "),
    };
}
pub fn pnm(r: &mut Rng, max: u32) -> Vec<u8> {
    let kind = r.range(1, 7);
    let (w, h) = dims(r, if kind <= 3 { max / 2 + 1 } else { max });
    let n = (w * h) as usize;
    let maxval = if r.chance(1, 2) { 255 } else { *r.pick(&[1u32, 2, 3, 15, 100, 254, 255, 256, 1000, 65534, 65535]) };
    let mut o = W::new();
    let wide = maxval > 255;
    let put = |o: &mut W, v: u32| {
        if wide {
            o.be16(v as u16);
        } else {
            o.u8(v as u8);
        }
    };
    if kind == 7 {
        let (d, t, mv) = match r.below(6) {
            0 => (1u32, Some("BLACKANDWHITE"), 1),
            1 => (2, Some("BLACKANDWHITE_ALPHA"), 1),
            2 => (1, Some("GRAYSCALE"), maxval),
            3 => (2, Some("GRAYSCALE_ALPHA"), maxval),
            4 => (3, Some("RGB"), maxval),
            _ => (4, if r.chance(1, 4) { None } else { Some("RGB_ALPHA") }, maxval),
        };
        o.s("P7\n");
        if r.chance(1, 3) {
            o.s("# comment\n");
        }
        let mut lines = vec![format!("WIDTH {w}\n"), format!("HEIGHT {h}\n"), format!("DEPTH {d}\n"), format!("MAXVAL {mv}\n")];
        if let Some(t) = t {
            lines.push(format!("TUPLTYPE {t}\n"));
        }
        for i in (1..lines.len()).rev() {
            let j = r.usize(i + 1);
            lines.swap(i, j);
        }
        for l in lines {
            o.s(&l);
        }
        o.s("ENDHDR\n");
        let wide = mv > 255;
        let c = content(r, n, d as usize * 2);
        for i in 0..n * d as usize {
            let v = u16::from_le_bytes([c[2 * i], c[2 * i + 1]]) as u32 % (mv + 1);
            if wide {
                o.be16(v as u16);
            } else {
                o.u8(v as u8);
            }
        }
        return o.0;
    }
    o.s(&format!("P{kind}"));
    ws(r, &mut o);
    o.s(&w.to_string());
    ws(r, &mut o);
    o.s(&h.to_string());
    if kind != 1 && kind != 4 {
        ws(r, &mut o);
        o.s(&maxval.to_string());
    }
    o.s(*r.pick(&["\n", " ", "\t"]));
    let ch = if kind == 3 || kind == 6 { 3 } else { 1 };
    let c = content(r, n * ch, 2);
    let val = |i: usize| u16::from_le_bytes([c[2 * i], c[2 * i + 1]]) as u32 % (maxval + 1);
    match kind {
        1 => {
            let style = r.below(3);
            for i in 0..n {
                o.s(if c[2 * i] & 1 == 1 { "1" } else { "0" });
                match style {
                    0 => {}
                    1 => {
                        o.s(" ");
                    }
                    _ => {
                        if (i + 1) % w as usize == 0 {
                            o.s("\n");
                        }
                    }
                }
            }
            o.s("\n");
        }
        2 | 3 => {
            for i in 0..n * ch {
                o.s(&val(i).to_string());
                o.s(*r.pick(&[" ", "\n", "  ", "\t", " \n"]));
            }
        }
        4 => {
            let rb = (w as usize).div_ceil(8);
            for i in 0..rb * h as usize {
                o.u8(c[i % c.len()]);
            }
        }
        _ => {
            for i in 0..n * ch {
                let v = val(i);
                put(&mut o, v);
            }
        }
    }
    o.0
}

// ------------------------------------------------------------------ HDR
pub fn hdr(r: &mut Rng, max: u32) -> Vec<u8> {
    let (w, h) = dims(r, max);
    let mut o = W::new();
    o.s(*r.pick(&["#?RADIANCE\n", "#?RGBE\n", "#?RADIANCE\n"]));
    if r.chance(1, 2) {
        o.s("# made by forge\n");
    }
    if r.chance(2, 3) {
        o.s("FORMAT=32-bit_rle_rgbe\n");
    }
    if r.chance(1, 3) {
        o.s("EXPOSURE=1.5\n");
    }
    if r.chance(1, 4) {
        o.s("GAMMA=2.2\n");
    }
    if r.chance(1, 4) {
        o.s("PIXASPECT=1.0\nCOLORCORR=1 1 1\n");
    }
    if r.chance(1, 4) {
        o.s("VIEW= -vtv -vp 0 0 0\n");
    }
    o.s("\n");
    o.s(&format!("-Y {h} +X {w}\n"));
    let n = (w * h) as usize;
    let c = content(r, n, 4);
    let style = r.below(3);
    for y in 0..h as usize {
        let row = &c[y * w as usize * 4..(y + 1) * w as usize * 4];
        if style == 0 && (8..32768).contains(&w) {
            o.u8(2).u8(2).u8((w >> 8) as u8).u8(w as u8);
            for k in 0..4 {
                let mut x = 0;
                let at = |x: usize| row[x * 4 + k];
                while x < w as usize {
                    let mut run = 1;
                    while x + run < w as usize && run < 127 && at(x + run) == at(x) {
                        run += 1;
                    }
                    if run >= 2 || r.chance(1, 3) {
                        o.u8(128 + run as u8).u8(at(x));
                        x += run;
                    } else {
                        let m = (r.range(1, 128) as usize).min(w as usize - x);
                        o.u8(m as u8);
                        for i in 0..m {
                            o.u8(at(x + i));
                        }
                        x += m;
                    }
                }
            }
        } else {
            // flat, with old-style repeats; keep off the markers (2,2,<128) and (1,1,1)
            let mut x = 0;
            let mut prev: Option<[u8; 4]> = None;
            while x < w as usize {
                let mut px: [u8; 4] = row[x * 4..x * 4 + 4].try_into().unwrap();
                if px[0] <= 2 {
                    px[0] = 3;
                }
                if style == 2 && prev == Some(px) {
                    let mut run = 1;
                    while x + run < w as usize && run < 255 {
                        let mut q: [u8; 4] = row[(x + run) * 4..(x + run) * 4 + 4].try_into().unwrap();
                        if q[0] <= 2 {
                            q[0] = 3;
                        }
                        if q != px {
                            break;
                        }
                        run += 1;
                    }
                    o.u8(1).u8(1).u8(1).u8(run as u8);
                    if r.chance(1, 4) {
                        // further digits of the run length, base 256, little endian
                        for _ in 0..r.range(1, 10) {
                            o.u8(1).u8(1).u8(1).u8(0);
                        }
                    }
                    x += run;
                    prev = None; // avoid consecutive repeat markers (they shift)
                } else {
                    o.b(&px);
                    prev = Some(px);
                    x += 1;
                }
            }
        }
    }
    o.0
}

// ------------------------------------------------------------------ DDS
pub fn dds(r: &mut Rng, max: u32) -> Vec<u8> {
    let w = 4 * r.range(1, (max / 4).max(1).min(12) as u64) as u32;
    let h = 4 * r.range(1, (max / 4).max(1).min(12) as u64) as u32;
    let v = r.below(4);
    let mut o = W::new();
    o.s("DDS ").le32(124).le32(0x1007 | if r.chance(1, 2) { 0x80000 } else { 0 }).le32(h).le32(w).le32(0).le32(0).le32(0);
    for _ in 0..11 {
        o.le32(0);
    }
    o.le32(32).le32(4);
    o.b(match v {
        0 => b"DXT1",
        1 => b"DXT3",
        2 => b"DXT5",
        _ => b"DX10",
    });
    for _ in 0..5 {
        o.le32(0);
    }
    o.le32(0x1000).le32(0).le32(0).le32(0).le32(0);
    let mut bb = if v == 0 { 8 } else { 16 };
    if v == 3 {
        let dx = *r.pick(&[70u32, 71, 72, 73, 74, 75, 76, 77, 78]);
        bb = if dx <= 72 { 8 } else { 16 };
        o.le32(dx).le32(3).le32(0).le32(1).le32(0);
    }
    let nb = (w / 4 * h / 4) as usize;
    let d = content(r, nb, bb);
    o.b(&d);
    o.0
}

// ------------------------------------------------------------------ ICO
pub fn ico(r: &mut Rng) -> Vec<u8> {
    let n = r.range(1, 4) as usize;
    let mut e = vec![];
    for _ in 0..n {
        let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32);
        let (d, bpp) = if r.chance(1, 3) {
            (png_sized(r, w, h, Some((6, 8)), None), 32u16)
        } else {
            let d = bmp_sized(r, w, h, true);
            let b = if d[0] == 12 { u16::from_le_bytes([d[10], d[11]]) } else { u16::from_le_bytes([d[14], d[15]]) };
            (d, b)
        };
        e.push((w, h, bpp, d));
    }
    // an entry that is shorter or longer than the image in it
    let wrong = if r.chance(1, 8) { r.usize(n) } else { n };
    let short = if r.chance(1, 2) { r.skewed(2000) } else { r.below(16).wrapping_sub(8) } as u32;
    let mut o = W::new();
    o.le16(0).le16(1).le16(n as u16);
    let mut off = 6 + 16 * n;
    for (k, (w, h, bpp, d)) in e.iter().enumerate() {
        let len = (d.len() as u32).wrapping_sub(if k == wrong { short } else { 0 });
        o.u8(*w as u8).u8(*h as u8).u8(0).u8(0).le16(1).le16(*bpp).le32(len).le32(off as u32);
        off += d.len();
    }
    for x in &e {
        o.b(&x.3);
    }
    o.0
}

// ------------------------------------------------------------------ farbfeld, QOI
pub fn farbfeld(r: &mut Rng, max: u32) -> Vec<u8> {
    let (w, h) = dims(r, max);
    let mut o = W::new();
    o.s("farbfeld").be32(w).be32(h);
    let c = content(r, (w * h) as usize, 8);
    o.b(&c);
    o.0
}
pub fn qoi(r: &mut Rng, max: u32) -> Vec<u8> {
    let (w, h) = dims(r, max);
    let ch = if r.chance(1, 2) { 4 } else { 3 };
    let px = content(r, (w * h) as usize, ch);
    let mut o = W::new();
    o.s("qoif").be32(w).be32(h).u8(ch as u8).u8(r.below(2) as u8);
    let mut idx = [[0u8; 4]; 64];
    let mut prev = [0, 0, 0, 255u8];
    let mut run = 0u8;
    let n = (w * h) as usize;
    for i in 0..n {
        let mut p = [0, 0, 0, 255u8];
        p[..ch].copy_from_slice(&px[i * ch..(i + 1) * ch]);
        if p == prev {
            run += 1;
            if run == 62 || i + 1 == n {
                o.u8(0xC0 | (run - 1));
                run = 0;
            }
            continue;
        }
        if run > 0 {
            o.u8(0xC0 | (run - 1));
            run = 0;
        }
        let hsh = (p[0] as u32 * 3 + p[1] as u32 * 5 + p[2] as u32 * 7 + p[3] as u32 * 11) as usize % 64;
        if idx[hsh] == p {
            o.u8(hsh as u8);
        } else {
            idx[hsh] = p;
            if p[3] == prev[3] {
                let d = |k: usize| p[k].wrapping_sub(prev[k]) as i8 as i32;
                let (dr, dg, db) = (d(0), d(1), d(2));
                let (rg, bg) = (dr - dg, db - dg);
                if (-2..2).contains(&dr) && (-2..2).contains(&dg) && (-2..2).contains(&db) {
                    o.u8(0x40 | ((dr + 2) << 4 | (dg + 2) << 2 | (db + 2)) as u8);
                } else if (-32..32).contains(&dg) && (-8..8).contains(&rg) && (-8..8).contains(&bg) {
                    o.u8(0x80 | (dg + 32) as u8).u8(((rg + 8) << 4 | (bg + 8)) as u8);
                } else {
                    o.u8(0xFE).b(&p[..3]);
                }
            } else {
                o.u8(0xFF).b(&p);
            }
        }
        prev = p;
    }
    o.b(&[0, 0, 0, 0, 0, 0, 0, 1]);
    o.0
}

// ------------------------------------------------------------------ PNG
pub fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
fn chunk(o: &mut W, t: &[u8; 4], d: &[u8]) {
    o.be32(d.len() as u32);
    let mut v = t.to_vec();
    v.extend_from_slice(d);
    o.b(&v).be32(crc(&v));
}
/// zlib with stored and fixed-Huffman blocks (literals and distance-1 runs)
pub fn zlib(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut bits = Bits { o: &mut o, acc: 0, n: 0 };
    let mut i = 0;
    loop {
        let take = if r.chance(1, 2) { d.len() - i } else { r.range(0, (d.len() - i) as u64) as usize }.min(60000);
        let last = i + take == d.len();
        let part = &d[i..i + take];
        bits.put(last as u32, 1);
        if r.chance(1, 3) {
            bits.put(0, 2);
            bits.align();
            bits.byte16(take as u16);
            bits.byte16(!(take as u16));
            bits.o.extend_from_slice(part);
        } else {
            bits.put(1, 2);
            let mut k = 0;
            while k < part.len() {
                // run of the previous byte?
                let prev = if i + k > 0 { Some(d[i + k - 1]) } else { None };
                let mut run = 0;
                while prev.is_some() && k + run < part.len() && run < 10 && Some(part[k + run]) == prev {
                    run += 1;
                }
                if run >= 3 {
                    // lengths 3..=10 are codes 257..=264 without extra bits
                    bits.huff(257 + run as u32 - 3);
                    bits.rev(0, 5);
                    k += run;
                } else {
                    bits.huff(part[k] as u32);
                    k += 1;
                }
            }
            bits.huff(256);
        }
        i += take;
        if last {
            break;
        }
    }
    bits.align();
    let (mut a, mut b) = (1u32, 0u32);
    for v in d {
        a = (a + *v as u32) % 65521;
        b = (b + a) % 65521;
    }
    o.extend((b << 16 | a).to_be_bytes());
    o
}
struct Bits<'a> {
    o: &'a mut Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits<'_> {
    fn put(&mut self, v: u32, k: u32) {
        self.acc |= v << self.n;
        self.n += k;
        while self.n >= 8 {
            self.o.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn rev(&mut self, v: u32, k: u32) {
        for i in (0..k).rev() {
            self.put(v >> i & 1, 1);
        }
    }
    fn huff(&mut self, s: u32) {
        match s {
            0..=143 => self.rev(0x30 + s, 8),
            144..=255 => self.rev(0x190 + s - 144, 9),
            256..=279 => self.rev(s - 256, 7),
            _ => self.rev(0xC0 + s - 280, 8),
        }
    }
    fn align(&mut self) {
        if self.n > 0 {
            self.o.push(self.acc as u8);
            self.acc = 0;
            self.n = 0;
        }
    }
    fn byte16(&mut self, v: u16) {
        self.o.extend(v.to_le_bytes());
    }
}
/// filtered scanlines of one image (or one Adam7 pass)
fn scan(r: &mut Rng, px: &dyn Fn(u32, u32, usize) -> u16, w: u32, h: u32, ch: usize, depth: u8, out: &mut Vec<u8>) {
    if w == 0 || h == 0 {
        return;
    }
    let rowb = (w as usize * ch * depth as usize).div_ceil(8);
    let bpp = (ch * depth as usize / 8).max(1);
    let mut prev = vec![0u8; rowb];
    for y in 0..h {
        let mut row = vec![0u8; rowb];
        for x in 0..w {
            for k in 0..ch {
                let v = px(x, y, k);
                let i = x as usize * ch + k;
                match depth {
                    16 => row[2 * i..2 * i + 2].copy_from_slice(&v.to_be_bytes()),
                    8 => row[i] = v as u8,
                    d => {
                        let bit = i * d as usize;
                        row[bit / 8] |= ((v & ((1 << d) - 1)) as u8) << (8 - d as usize - bit % 8);
                    }
                }
            }
        }
        let f = r.below(5) as u8;
        out.push(f);
        for i in 0..rowb {
            let a = if i >= bpp { row[i - bpp] } else { 0 };
            let b = prev[i];
            let c = if i >= bpp { prev[i - bpp] } else { 0 };
            let p = match f {
                0 => 0,
                1 => a,
                2 => b,
                3 => ((a as u16 + b as u16) / 2) as u8,
                _ => {
                    let q = a as i32 + b as i32 - c as i32;
                    let (pa, pb, pc) = ((q - a as i32).abs(), (q - b as i32).abs(), (q - c as i32).abs());
                    if pa <= pb && pa <= pc {
                        a
                    } else if pb <= pc {
                        b
                    } else {
                        c
                    }
                }
            };
            out.push(row[i].wrapping_sub(p));
        }
        prev = row;
    }
}
pub fn png_idat(r: &mut Rng, raw: &[u16], w: u32, h: u32, ch: usize, depth: u8, adam7: bool) -> Vec<u8> {
    let mut s = vec![];
    if adam7 {
        for (x0, y0, dx, dy) in [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)] {
            let pw = if w > x0 { (w - x0).div_ceil(dx) } else { 0 };
            let ph = if h > y0 { (h - y0).div_ceil(dy) } else { 0 };
            let g = |x: u32, y: u32, k: usize| raw[((y0 + y * dy) * w + x0 + x * dx) as usize * ch + k];
            scan(r, &g, pw, ph, ch, depth, &mut s);
        }
    } else {
        let g = |x: u32, y: u32, k: usize| raw[(y * w + x) as usize * ch + k];
        scan(r, &g, w, h, ch, depth, &mut s);
    }
    zlib(r, &s)
}
pub fn raw16(r: &mut Rng, n: usize, ch: usize, depth: u8, colors: u32) -> Vec<u16> {
    let c = content(r, n, ch * if depth == 16 { 2 } else { 1 });
    (0..n * ch)
        .map(|i| match depth {
            16 => u16::from_le_bytes([c[2 * i], c[2 * i + 1]]),
            d => {
                let v = c[i] as u32 & ((1 << d) - 1);
                (if colors > 0 { v % colors } else { v }) as u16
            }
        })
        .collect()
}
pub fn png(r: &mut Rng, max: u32, frames: Option<u32>) -> Vec<u8> {
    let (w, h) = dims(r, max);
    png_sized(r, w, h, None, frames)
}
pub struct ApngFrame {
    pub w: u32,
    pub h: u32,
    pub x: u32,
    pub y: u32,
    pub num: u16,
    pub den: u16,
    pub dispose: u8,
    pub blend: u8,
    pub raw: Vec<u16>,
}
pub fn png_sized(r: &mut Rng, w: u32, h: u32, force: Option<(u8, u8)>, frames: Option<u32>) -> Vec<u8> {
    let (ct, depth) = force.unwrap_or_else(|| {
        *r.pick(&[
            (0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 8), (6, 16), (2, 8),
        ])
    });
    let ch = [1usize, 0, 3, 1, 2, 0, 4][ct as usize];
    let adam7 = r.chance(1, 4);
    let colors = if ct == 3 { r.range(1, 1 << depth) as u32 } else { 0 };
    let mut fr = vec![];
    if let Some(nf) = frames {
        for i in 0..nf {
            let (fw, fh, x, y) = if i == 0 {
                (w, h, 0, 0)
            } else {
                let fw = r.range(1, w as u64) as u32;
                let fh = r.range(1, h as u64) as u32;
                (fw, fh, r.range(0, (w - fw) as u64) as u32, r.range(0, (h - fh) as u64) as u32)
            };
            let raw = raw16(r, (fw * fh) as usize, ch, depth, colors);
            fr.push(ApngFrame {
                w: fw, h: fh, x, y, num: r.below(50) as u16, den: *r.pick(&[0u16, 1, 10, 100, 1000]), dispose: r.below(3) as u8, blend: r.below(2) as u8, raw,
            });
        }
    }
    let raw = raw16(r, (w * h) as usize, ch, depth, colors);
    let default_separate = frames.is_some() && r.chance(1, 4);
    let pal: Vec<u8> = (0..colors * 3).map(|_| r.u8()).collect();
    let trns: Option<Vec<u8>> = if r.chance(1, 3) {
        match ct {
            0 => Some(((r.u64() as u16) & (((1u32 << depth) - 1) as u16)).to_be_bytes().to_vec()),
            2 => Some((0..3).flat_map(|_| ((r.u64() as u16) & (((1u32 << depth) - 1) as u16)).to_be_bytes()).collect()),
            3 => Some((0..r.range(1, colors as u64)).map(|_| r.u8()).collect()),
            _ => None,
        }
    } else {
        None
    };
    png_build(r, w, h, ct, depth, adam7, &pal, trns.as_deref(), &raw, &fr, default_separate)
}
#[allow(clippy::too_many_arguments)]
pub fn png_build(
    r: &mut Rng, w: u32, h: u32, ct: u8, depth: u8, adam7: bool, pal: &[u8], trns: Option<&[u8]>, raw: &[u16], fr: &[ApngFrame], sep: bool,
) -> Vec<u8> {
    let ch = [1usize, 0, 3, 1, 2, 0, 4][ct as usize];
    let mut o = W::new();
    o.b(b"\x89PNG\r\n\x1a\n");
    let mut ih = W::new();
    ih.be32(w).be32(h).u8(depth).u8(ct).u8(0).u8(0).u8(adam7 as u8);
    chunk(&mut o, b"IHDR", &ih.0);
    if r.chance(1, 5) {
        chunk(&mut o, b"gAMA", &45455u32.to_be_bytes());
    }
    if r.chance(1, 5) {
        let mut d = b"icc\0\0".to_vec();
        let prof: Vec<u8> = (0..r.range(1, 300)).map(|_| r.u8()).collect();
        d.extend(zlib(r, &prof));
        chunk(&mut o, b"iCCP", &d);
    }
    if !fr.is_empty() {
        let mut d = W::new();
        d.be32(fr.len() as u32).be32(r.below(3) as u32);
        chunk(&mut o, b"acTL", &d.0);
    }
    if !pal.is_empty() {
        chunk(&mut o, b"PLTE", pal);
    }
    if let Some(t) = trns {
        chunk(&mut o, b"tRNS", t);
    }
    if r.chance(1, 5) {
        let mut d = b"Exif-ish".to_vec();
        d.extend((0..r.below(60)).map(|_| r.u8()));
        chunk(&mut o, b"eXIf", &d);
    }
    if r.chance(1, 5) {
        chunk(&mut o, b"tEXt", b"Comment\0hello");
    }
    let mut seq = 0u32;
    let fctl = |o: &mut W, f: &ApngFrame, seq: &mut u32| {
        let mut d = W::new();
        d.be32(*seq).be32(f.w).be32(f.h).be32(f.x).be32(f.y).be16(f.num).be16(f.den).u8(f.dispose).u8(f.blend);
        *seq += 1;
        chunk(o, b"fcTL", &d.0);
    };
    let split = |r: &mut Rng, o: &mut W, d: &[u8], fd: Option<&mut u32>| {
        let mut fd = fd;
        let mut i = 0;
        while i < d.len() {
            let n = if r.chance(1, 2) { d.len() - i } else { r.range(1, (d.len() - i) as u64) as usize };
            match fd.as_deref_mut() {
                None => chunk(o, b"IDAT", &d[i..i + n]),
                Some(s) => {
                    let mut v = s.to_be_bytes().to_vec();
                    v.extend_from_slice(&d[i..i + n]);
                    *s += 1;
                    chunk(o, b"fdAT", &v);
                }
            }
            i += n;
        }
    };
    let mut rest = fr;
    if fr.is_empty() || sep {
        let z = png_idat(r, raw, w, h, ch, depth, adam7);
        split(r, &mut o, &z, None);
    } else {
        fctl(&mut o, &fr[0], &mut seq);
        let z = png_idat(r, &fr[0].raw, w, h, ch, depth, adam7);
        split(r, &mut o, &z, None);
        rest = &fr[1..];
    }
    for f in rest {
        fctl(&mut o, f, &mut seq);
        let z = png_idat(r, &f.raw, f.w, f.h, ch, depth, adam7);
        split(r, &mut o, &z, Some(&mut seq));
    }
    if r.chance(1, 6) {
        chunk(&mut o, b"tEXt", b"After\0data");
    }
    chunk(&mut o, b"IEND", &[]);
    o.0
}

// ------------------------------------------------------------------ GIF
pub struct GifFrameSpec {
    pub w: u16,
    pub h: u16,
    pub x: u16,
    pub y: u16,
    pub delay: u16,
    pub dispose: u8,
    pub transparent: Option<u8>,
    pub local: Option<Vec<u8>>,
    pub interlaced: bool,
    pub idx: Vec<u8>,
}
pub struct GifSpec {
    pub w: u16,
    pub h: u16,
    pub global: Vec<u8>,
    pub frames: Vec<GifFrameSpec>,
    pub repeat: Option<u16>,
}
pub fn gif_spec(r: &mut Rng, max: u32) -> GifSpec {
    let (w, h) = dims(r, max);
    let pal = |r: &mut Rng| -> Vec<u8> { (0..(3usize << r.range(0, 8))).map(|_| r.u8()).collect() };
    let global = pal(r);
    let nf = if r.chance(1, 3) { 1 } else { r.range(1, 6) };
    let mut frames = vec![];
    for i in 0..nf {
        let whole = (i == 0 && r.chance(2, 3)) || r.chance(1, 5);
        let (fw, fh, x, y) = if whole {
            (w, h, 0, 0)
        } else {
            let fw = r.range(1, w as u64) as u32;
            let fh = r.range(1, h as u64) as u32;
            let mut x = r.range(0, (w - fw) as u64) as u32;
            let mut y = r.range(0, (h - fh) as u64) as u32;
            if r.chance(1, 10) {
                // partly outside the canvas
                x = r.range(0, w as u64) as u32;
                y = r.range(0, h as u64) as u32;
            }
            (fw, fh, x, y)
        };
        let local = if r.chance(1, 3) { Some(pal(r)) } else { None };
        let k = local.as_ref().unwrap_or(&global).len() / 3;
        let c = content(r, (fw * fh) as usize, 1);
        frames.push(GifFrameSpec {
            w: fw as u16,
            h: fh as u16,
            x: x as u16,
            y: y as u16,
            delay: if r.chance(1, 8) { r.below(65536) as u16 } else { r.skewed(2000) as u16 },
            dispose: r.below(4) as u8,
            transparent: if r.chance(1, 2) { Some(r.below(k as u64) as u8) } else { None },
            interlaced: r.chance(1, 4),
            idx: c.iter().map(|v| (*v as usize % k) as u8).collect(),
            local,
        });
    }
    GifSpec { w: w as u16, h: h as u16, global, frames, repeat: if r.chance(1, 2) { Some(r.below(4) as u16) } else { None } }
}
pub fn gif_build(r: &mut Rng, s: &GifSpec) -> Vec<u8> {
    let _ = &r;
    let mut o = vec![];
    {
        let mut e = gif::Encoder::new(&mut o, s.w, s.h, &s.global).unwrap();
        if let Some(n) = s.repeat {
            e.set_repeat(if n == 0 { gif::Repeat::Infinite } else { gif::Repeat::Finite(n) }).unwrap();
        }
        for f in &s.frames {
            let mut buf = f.idx.clone();
            if f.interlaced {
                // store rows in the four interlace passes
                let (w, h) = (f.w as usize, f.h as usize);
                let mut q = vec![];
                for (s0, st) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
                    let mut y = s0;
                    while y < h {
                        q.extend_from_slice(&f.idx[y * w..(y + 1) * w]);
                        y += st;
                    }
                }
                buf = q;
            }
            let fr = gif::Frame {
                delay: f.delay,
                dispose: match f.dispose {
                    0 => gif::DisposalMethod::Any,
                    1 => gif::DisposalMethod::Keep,
                    2 => gif::DisposalMethod::Background,
                    _ => gif::DisposalMethod::Previous,
                },
                transparent: f.transparent,
                needs_user_input: false,
                top: f.y,
                left: f.x,
                width: f.w,
                height: f.h,
                interlaced: f.interlaced,
                palette: f.local.clone(),
                buffer: buf.into(),
            };
            e.write_frame(&fr).unwrap();
        }
    }
    o
}
pub fn gif(r: &mut Rng, max: u32) -> Vec<u8> {
    let s = gif_spec(r, max);
    gif_build(r, &s)
}

// ------------------------------------------------------------------ WebP (lossless, simple and extended)
struct Lsb {
    o: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Lsb {
    fn put(&mut self, v: u64, k: u32) {
        self.acc |= v << self.n;
        self.n += k;
        while self.n >= 8 {
            self.o.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
}
/// A VP8L bitstream without transforms: every channel coded with a flat 8-bit code.
pub fn vp8l(px: &[u8], w: u32, h: u32, subtract_green: bool, alpha: bool) -> Vec<u8> {
    let mut b = Lsb { o: vec![0x2f], acc: 0, n: 0 };
    b.put((w - 1) as u64, 14);
    b.put((h - 1) as u64, 14);
    b.put(alpha as u64, 1);
    b.put(0, 3);
    if subtract_green {
        b.put(1, 1);
        b.put(2, 2);
    }
    b.put(0, 1); // no more transforms
    b.put(0, 1); // no colour cache
    b.put(0, 1); // no meta codes
    // five prefix codes: green (280 symbols), red, blue, alpha (256), distance (40)
    for (k, nsym) in [(0, 280u32), (1, 256), (2, 256), (3, 256), (4, 40)] {
        if k == 4 || (k == 3 && !alpha) {
            // simple code, one symbol: 0 for distance, 255 for alpha
            b.put(1, 1);
            b.put(0, 1);
            b.put(1, 1);
            b.put(if k == 3 { 255 } else { 0 }, 8);
            continue;
        }
        b.put(0, 1);
        // code length code: only symbol 8 (length 8) and, for green, symbol 0 with repeat 18
        // order: 17 18 0 1 2 3 4 5 16 6 7 8 ...
        // lengths: symbol 8 -> 1 bit, symbol 18 -> 1 bit (green); otherwise 8 alone with 18 too
        b.put(12 - 4, 4);
        for s in [17, 18, 0, 1, 2, 3, 4, 5, 16, 6, 7, 8] {
            b.put(if s == 8 || s == 18 { 1 } else { 0 }, 3);
        }
        b.put(0, 1); // max_symbol = all
        // canonical: symbol 8 -> code 0, symbol 18 -> code 1
        for _ in 0..256 {
            b.put(0, 1);
        }
        if nsym > 256 {
            // 24 zeros: 18 repeats 11..138 with 7 extra bits
            b.put(1, 1);
            b.put(24 - 11, 7);
        }
    }
    let rev = |v: u8| v.reverse_bits() as u64;
    for p in px.chunks(4) {
        let g = p[1];
        let (rr, bb) = if subtract_green { (p[0].wrapping_sub(g), p[2].wrapping_sub(g)) } else { (p[0], p[2]) };
        b.put(rev(g), 8);
        b.put(rev(rr), 8);
        b.put(rev(bb), 8);
        if alpha {
            b.put(rev(p[3]), 8);
        }
    }
    if b.n > 0 {
        b.put(0, 8 - b.n);
    }
    b.o
}
fn riff_chunk(o: &mut W, t: &[u8; 4], d: &[u8]) {
    o.b(t).le32(d.len() as u32).b(d);
    if d.len() % 2 == 1 {
        o.u8(0);
    }
}
#[derive(Clone)]
pub struct WebpFrame {
    pub w: u32,
    pub h: u32,
    /// even offsets
    pub x: u32,
    pub y: u32,
    pub delay: u32,
    pub blend: bool,
    pub dispose: bool,
    pub alpha: bool,
    pub px: Vec<u8>,
}
pub struct WebpSpec {
    pub w: u32,
    pub h: u32,
    pub bg: [u8; 4],
    pub frames: Vec<WebpFrame>,
    pub anim: bool,
    pub icc: Option<Vec<u8>>,
    pub exif: Option<Vec<u8>>,
}
pub fn webp_spec(r: &mut Rng, max: u32, anim: bool) -> WebpSpec {
    let (w, h) = dims(r, max);
    let nf = if anim { r.range(1, 6) } else { 1 };
    let mut frames = vec![];
    // without any transparency the decoder works with three channels
    let opaque = anim && r.chance(1, 4);
    for i in 0..nf {
        let (fw, fh, x, y) = if !anim || (i == 0 && r.chance(1, 2)) {
            (w, h, 0, 0)
        } else {
            let fw = r.range(1, w as u64) as u32;
            let fh = r.range(1, h as u64) as u32;
            (fw, fh, (r.range(0, (w - fw) as u64) as u32) & !1, (r.range(0, (h - fh) as u64) as u32) & !1)
        };
        let alpha = !opaque && r.chance(1, 2);
        let mut px = content(r, (fw * fh) as usize, 4);
        if !alpha {
            px.chunks_mut(4).for_each(|p| p[3] = 255);
        }
        frames.push(WebpFrame { w: fw, h: fh, x, y, delay: if r.chance(1, 8) { r.below(1 << 24) as u32 } else { r.skewed(5000) as u32 }, blend: r.chance(1, 2), dispose: r.chance(1, 2), alpha, px });
    }
    let blob = |r: &mut Rng| (0..r.range(1, 200)).map(|_| r.u8()).collect::<Vec<u8>>();
    let icc = if r.chance(1, 3) { Some(blob(r)) } else { None };
    let exif = if r.chance(1, 3) { Some(exif_blob(r)) } else { None };
    WebpSpec { w, h, bg: [r.u8(), r.u8(), r.u8(), r.u8()], frames, anim, icc, exif }
}
/// a TIFF-structured Exif block with an orientation tag
pub fn exif_blob(r: &mut Rng) -> Vec<u8> {
    let mut o = W::new();
    let be = r.chance(1, 2);
    let orient = if r.chance(1, 10) { (256 * r.range(1, 255) + r.range(0, 8)) as u16 } else { r.range(0, 9) as u16 };
    let pad = if r.chance(1, 4) { r.below(40) as usize } else { 0 };
    // other entries before it, now and then one with the tag but another type or count, or no entry at all
    let mut entries: Vec<(u16, u16, u32, u16)> = vec![];
    for _ in 0..r.below(4) {
        entries.push(match r.below(4) {
            0 => (0x112, *r.pick(&[1u16, 4, 8, 5]), 1, r.range(1, 8) as u16),
            1 => (0x112, 3, *r.pick(&[0u32, 2, 0x10000]), r.range(1, 8) as u16),
            _ => (*r.pick(&[0x100u16, 0x101, 0x111, 0x113, 0x10f, 0x8769, 0x12, 0x1201]), *r.pick(&[3u16, 4]), 1, r.range(1, 8) as u16),
        });
    }
    if !r.chance(1, 12) {
        entries.push((0x112, 3, 1, orient));
    }
    if r.chance(1, 4) {
        // the first one counts
        entries.push((0x112, 3, 1, r.range(1, 8) as u16));
    }
    let n = if r.chance(1, 12) { entries.len() + 3 } else { entries.len() };
    let w16 = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let w32 = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    o.b(if be { b"MM\0*" } else { b"II*\0" }).b(&w32(8 + pad as u32)).b(&vec![0x12; pad]).b(&w16(n as u16));
    for (t, f, c, v) in entries {
        o.b(&w16(t)).b(&w16(f)).b(&w32(c)).b(&w16(v)).b(&[0, 0]);
    }
    if r.chance(3, 4) {
        o.b(&[0; 4]);
    }
    o.0
}
pub fn webp_build(r: &mut Rng, s: &WebpSpec) -> Vec<u8> {
    let mut body = W::new();
    body.s("WEBP");
    let extended = s.anim || s.icc.is_some() || s.exif.is_some() || r.chance(1, 4);
    if extended {
        let alpha = s.frames.iter().any(|f| f.alpha);
        let fl = (s.icc.is_some() as u8) << 5 | (alpha as u8) << 4 | (s.exif.is_some() as u8) << 3 | (s.anim as u8) << 1;
        let mut d = W::new();
        d.u8(fl).b(&[0, 0, 0]).b(&le(s.w - 1, 3)).b(&le(s.h - 1, 3));
        riff_chunk(&mut body, b"VP8X", &d.0);
        if let Some(i) = &s.icc {
            riff_chunk(&mut body, b"ICCP", i);
        }
    }
    if s.anim {
        let mut d = W::new();
        d.b(&[s.bg[2], s.bg[1], s.bg[0], s.bg[3]]).le16(r.below(3) as u16);
        riff_chunk(&mut body, b"ANIM", &d.0);
        for f in &s.frames {
            let mut d = W::new();
            d.b(&le(f.x / 2, 3)).b(&le(f.y / 2, 3)).b(&le(f.w - 1, 3)).b(&le(f.h - 1, 3)).b(&le(f.delay, 3));
            d.u8((!f.blend as u8) << 1 | f.dispose as u8);
            let v = vp8l(&f.px, f.w, f.h, r.chance(1, 2), f.alpha);
            riff_chunk(&mut d, b"VP8L", &v);
            riff_chunk(&mut body, b"ANMF", &d.0);
        }
    } else {
        let f = &s.frames[0];
        let v = vp8l(&f.px, f.w, f.h, r.chance(1, 2), f.alpha);
        riff_chunk(&mut body, b"VP8L", &v);
    }
    if let Some(e) = &s.exif {
        riff_chunk(&mut body, b"EXIF", e);
    }
    if extended && r.chance(1, 4) {
        riff_chunk(&mut body, b"XMP ", b"<x/>");
    }
    let mut o = W::new();
    o.s("RIFF").le32(body.0.len() as u32).b(&body.0);
    o.0
}
pub fn webp(r: &mut Rng, max: u32) -> Vec<u8> {
    let anim = r.chance(1, 3);
    let s = webp_spec(r, if anim { max.min(40) } else { max }, anim);
    webp_build(r, &s)
}

// ------------------------------------------------------------------ TIFF (own writer)
pub fn tiff(r: &mut Rng, max: u32) -> Vec<u8> {
    let (w, h) = dims(r, max);
    let be = r.chance(1, 3);
    let mut o = W::new();
    let p16 = |o: &mut W, v: u16| {
        if be {
            o.be16(v);
        } else {
            o.le16(v);
        }
    };
    let p32 = |o: &mut W, v: u32| {
        if be {
            o.be32(v);
        } else {
            o.le32(v);
        }
    };
    // photometric, samples, bits
    let (photo, ch, bits, fmtv) = *r.pick(&[
        (1u32, 1usize, 8u32, 1u32), (1, 1, 16, 1), (2, 3, 8, 1), (2, 4, 8, 1), (2, 3, 16, 1), (2, 4, 16, 1), (2, 3, 32, 3), (0, 1, 8, 1), (5, 4, 8, 1), (2, 4, 32, 3), (1, 1, 1, 1),
    ]);
    let comp = *r.pick(&[1u32, 1, 32773, 8]);
    let n = (w * h) as usize;
    let bytes = bits as usize / 8;
    let rowb = if bits == 1 { (w as usize).div_ceil(8) } else { w as usize * ch * bytes };
    let mut raw = content(r, n.max(rowb * h as usize), ch * bytes.max(1));
    raw.truncate(rowb * h as usize);
    if fmtv == 3 {
        for i in 0..raw.len() / 4 {
            let f = (raw[4 * i] as f32) / 64.0;
            let b = if be { f.to_be_bytes() } else { f.to_le_bytes() };
            raw[4 * i..4 * i + 4].copy_from_slice(&b);
        }
    }
    let rps = if r.chance(1, 2) { h } else { r.range(1, h as u64) as u32 };
    let mut strips = vec![];
    let mut y = 0;
    while y < h {
        let k = rps.min(h - y);
        let d = &raw[y as usize * rowb..(y + k) as usize * rowb];
        strips.push(match comp {
            1 => d.to_vec(),
            8 => zlib(r, d),
            _ => {
                let mut q = vec![];
                for row in d.chunks(rowb) {
                    q.extend(packbits(row));
                }
                q
            }
        });
        y += k;
    }
    o.s(if be { "MM" } else { "II" });
    p16(&mut o, 42);
    let at = o.0.len();
    p32(&mut o, 0);
    let ifd_first = r.chance(1, 2);
    let mut offs = vec![];
    let orient = match r.below(16) {
        0 => Some((256 * r.range(1, 255) + r.range(0, 8)) as u16),
        1 => Some(r.range(0, 10) as u16),
        k if k < 9 => Some(r.range(1, 8) as u16),
        _ => None,
    };
    let icc: Option<Vec<u8>> = if r.chance(1, 3) { Some((0..r.range(5, 200)).map(|_| r.u8()).collect()) } else { None };
    let data_len: usize = strips.iter().map(|s| s.len()).sum();
    let ntags = 11 + orient.is_some() as usize + icc.is_some() as usize + (ch == 4 && photo == 2) as usize;
    let ifd_size = 2 + 12 * ntags + 4;
    let extra_size = 2 * ch + 4 * strips.len() * 2 + icc.as_ref().map_or(0, |v| v.len()) + 2 * ch;
    let data_at = if ifd_first { 8 + ifd_size + extra_size + 16 } else { 8 };
    let ifd_at = if ifd_first { 8 } else { 8 + data_len + (data_len & 1) };
    let mut p = data_at;
    for s in &strips {
        offs.push(p as u32);
        p += s.len();
    }
    o.0.truncate(at);
    p32(&mut o, ifd_at as u32);
    let mut ifd = W::new();
    let mut extra = W::new();
    let extra_at = ifd_at + ifd_size;
    let mut tags: Vec<(u16, u16, Vec<u32>, Option<Vec<u8>>)> = vec![
        (256, 4, vec![w], None),
        (257, 4, vec![h], None),
        (258, 3, vec![bits; ch], None),
        (259, 3, vec![comp], None),
        (262, 3, vec![photo], None),
        (273, 4, offs, None),
        (277, 3, vec![ch as u32], None),
        (278, 4, vec![rps], None),
        (279, 4, strips.iter().map(|s| s.len() as u32).collect(), None),
        (284, 3, vec![1], None),
        (339, 3, vec![fmtv; ch], None),
    ];
    if let Some(v) = orient {
        tags.push((274, 3, vec![v as u32], None));
    }
    if ch == 4 && photo == 2 {
        tags.push((338, 3, vec![2], None));
    }
    if let Some(v) = &icc {
        tags.push((34675, 7, vec![], Some(v.clone())));
    }
    tags.sort_by_key(|t| t.0);
    p16(&mut ifd, tags.len() as u16);
    for (t, ty, v, raw) in &tags {
        p16(&mut ifd, *t);
        p16(&mut ifd, *ty);
        let mut d = W::new();
        let cnt = match raw {
            Some(b) => {
                d.b(b);
                b.len()
            }
            None => {
                for x in v {
                    if *ty == 3 {
                        p16(&mut d, *x as u16)
                    } else {
                        p32(&mut d, *x)
                    }
                }
                v.len()
            }
        };
        p32(&mut ifd, cnt as u32);
        if d.0.len() <= 4 {
            while d.0.len() < 4 {
                d.u8(0);
            }
            ifd.b(&d.0);
        } else {
            p32(&mut ifd, (extra_at + extra.0.len()) as u32);
            extra.b(&d.0);
        }
    }
    p32(&mut ifd, 0);
    if ifd_first {
        o.b(&ifd.0).b(&extra.0);
        while o.0.len() < data_at {
            o.u8(0);
        }
        for s in &strips {
            o.b(s);
        }
    } else {
        for s in &strips {
            o.b(s);
        }
        while o.0.len() < ifd_at {
            o.u8(0);
        }
        o.b(&ifd.0).b(&extra.0);
    }
    o.0
}
fn packbits(row: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < row.len() {
        let mut run = 1;
        while i + run < row.len() && run < 128 && row[i + run] == row[i] {
            run += 1;
        }
        if run >= 2 {
            o.push((1i32 - run as i32) as i8 as u8);
            o.push(row[i]);
            i += run;
        } else {
            let mut k = 1;
            while i + k < row.len() && k < 128 && (i + k + 1 >= row.len() || row[i + k] != row[i + k + 1]) {
                k += 1;
            }
            o.push((k - 1) as u8);
            o.extend_from_slice(&row[i..i + k]);
            i += k;
        }
    }
    o
}

// ------------------------------------------------------------------ EXR (exr crate, not under test)
pub fn exr_(r: &mut Rng, max: u32) -> Vec<u8> {
    use exr::prelude::*;
    let (w, h) = dims(r, max.min(80));
    let alpha = r.chance(1, 2);
    let half = r.chance(1, 2);
    let c = content(r, (w * h) as usize, 4);
    let val = move |p: Vec2<usize>, k: usize| -> f32 { c[(p.y() * w as usize + p.x()) * 4 + k] as f32 / 37.0 - 1.0 };
    let enc = Encoding {
        compression: *r.pick(&[Compression::Uncompressed, Compression::RLE, Compression::ZIP1, Compression::ZIP16, Compression::PIZ]),
        blocks: if r.chance(1, 3) {
            Blocks::Tiles(Vec2(r.range(1, 40) as usize, r.range(1, 40) as usize))
        } else {
            Blocks::ScanLines
        },
        line_order: LineOrder::Increasing,
    };
    let mut attrs = LayerAttributes::named("main");
    if r.chance(1, 3) {
        attrs.layer_position = Vec2(r.below(9) as i32 - 4, r.below(9) as i32 - 4);
    }
    let mut out = std::io::Cursor::new(vec![]);
    let size = Vec2(w as usize, h as usize);
    macro_rules! go {
        ($ch:expr) => {{
            let img = Image::from_layer(Layer::new(size, attrs, enc, $ch));
            img.write().non_parallel().to_buffered(&mut out).unwrap();
        }};
    }
    match (alpha, half) {
        (false, false) => go!(SpecificChannels::rgb(move |p: Vec2<usize>| (val(p, 0), val(p, 1), val(p, 2)))),
        (false, true) => go!(SpecificChannels::rgb(move |p: Vec2<usize>| (
            f16::from_f32(val(p, 0)), f16::from_f32(val(p, 1)), f16::from_f32(val(p, 2))
        ))),
        (true, false) => go!(SpecificChannels::rgba(move |p: Vec2<usize>| (val(p, 0), val(p, 1), val(p, 2), val(p, 3)))),
        (true, true) => go!(SpecificChannels::rgba(move |p: Vec2<usize>| (
            f16::from_f32(val(p, 0)), f16::from_f32(val(p, 1)), f16::from_f32(val(p, 2)), f16::from_f32(val(p, 3))
        ))),
    }
    out.into_inner()
}
