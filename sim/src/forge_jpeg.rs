//! JPEG files: baseline and progressive, one to four components, subsampling, restart markers,
//! metadata segments, extreme shapes.
use crate::forge::{dims, exif_blob};
use crate::rng::Rng;

#[derive(Default)]
struct Bits {
    o: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                self.o.push(self.acc as u8);
                if self.acc as u8 == 0xff {
                    self.o.push(0);
                }
                (self.acc, self.n) = (0, 0);
            }
        }
    }
    fn align(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}
/// code table: symbol -> (code, length), and the DHT body
struct Huff {
    code: Vec<(u32, u32)>,
    counts: [u8; 16],
    vals: Vec<u8>,
}
fn huff(groups: &[(usize, Vec<u8>)]) -> Huff {
    let mut h = Huff { code: vec![(0, 0); 256], counts: [0; 16], vals: vec![] };
    let (mut code, mut len) = (0u32, 0);
    for (l, vals) in groups {
        code <<= l - len;
        len = *l;
        h.counts[l - 1] = vals.len() as u8;
        for v in vals {
            h.code[*v as usize] = (code, *l as u32);
            h.vals.push(*v);
            code += 1;
        }
    }
    h
}
fn seg(o: &mut Vec<u8>, m: u8, d: &[u8]) {
    o.extend([0xff, m]);
    o.extend(((d.len() + 2) as u16).to_be_bytes());
    o.extend(d);
}
fn amp(b: &mut Bits, v: i32, n: u32) {
    b.put(if v < 0 { (v - 1) as u32 & ((1 << n) - 1) } else { v as u32 }, n);
}
fn size(v: i32) -> u32 {
    32 - v.unsigned_abs().leading_zeros()
}
struct Comp {
    h: u32,
    v: u32,
    /// blocks per row, rows of blocks (whole MCUs)
    bw: u32,
    bh: u32,
    coef: Vec<[i32; 64]>,
}
pub fn jpeg(r: &mut Rng, max: u32) -> Vec<u8> {
    let (mut w, mut h) = dims(r, max);
    if max >= 16 && r.chance(1, 24) {
        w = *r.pick(&[4096u32, 16384, 16385, 20000, 32769, 65500]);
        h = r.range(1, 9) as u32;
        if r.chance(1, 2) {
            std::mem::swap(&mut w, &mut h);
        }
    }
    let n = *r.pick(&[1usize, 1, 3, 3, 3, 3, 4]);
    let (sh, sv) = if n == 3 { *r.pick(&[(1u32, 1u32), (1, 1), (2, 1), (1, 2), (2, 2)]) } else { (1, 1) };
    let progressive = r.chance(1, 4);
    let (mw, mh) = (w.div_ceil(8 * sh), h.div_ceil(8 * sv));
    let flat = r.chance(1, 4);
    let big = r.chance(1, 4);
    let comps: Vec<Comp> = (0..n)
        .map(|c| {
            let (ch, cv) = if c == 0 { (sh, sv) } else { (1, 1) };
            let (bw, bh) = (mw * ch, mh * cv);
            let coef = (0..bw * bh)
                .map(|_| {
                    let mut k = [0i32; 64];
                    k[0] = r.range(0, 200) as i32 - 100;
                    if !flat {
                        for _ in 0..r.below(6) {
                            let at = if r.chance(1, 3) { r.range(1, 63) } else { r.range(1, 8) } as usize;
                            k[at] = r.range(0, if big { 400 } else { 40 }) as i32 - if big { 200 } else { 20 };
                        }
                    }
                    k
                })
                .collect();
            Comp { h: ch, v: cv, bw, bh, coef }
        })
        .collect();
    let mut o = vec![0xff, 0xd8];
    if r.chance(1, 2) {
        seg(&mut o, 0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
    }
    if r.chance(1, 2) {
        let mut d = b"Exif\0\0".to_vec();
        d.extend(exif_blob(r));
        if r.chance(1, 4) {
            d.extend((0..r.range(1, 900)).map(|_| r.u8()));
        }
        seg(&mut o, 0xe1, &d);
    }
    if r.chance(1, 3) {
        let total = r.range(1, 3) as u8;
        let mut chunks: Vec<Vec<u8>> = (1..=total)
            .map(|i| {
                let mut d = b"ICC_PROFILE\0".to_vec();
                d.extend([i, total]);
                d.extend((0..r.range(1, 300)).map(|_| r.u8()));
                d
            })
            .collect();
        if r.chance(1, 3) {
            chunks.reverse();
        }
        for c in chunks {
            seg(&mut o, 0xe2, &c);
        }
    }
    if n == 4 || r.chance(1, 6) {
        let t = if n == 3 { *r.pick(&[0u8, 1]) } else if n == 4 { *r.pick(&[0u8, 2]) } else { 0 };
        let mut d = b"Adobe\0\x64\0\0\0\0".to_vec();
        d.push(t);
        seg(&mut o, 0xee, &d);
    }
    if r.chance(1, 4) {
        let d: Vec<u8> = (0..r.below(80)).map(|_| r.u8()).collect();
        seg(&mut o, 0xfe, &d);
    }
    let mut q = vec![0u8];
    let flatq = r.range(1, 30) as u8;
    q.extend((0..64).map(|_| if flat { flatq } else { r.range(1, 40) as u8 }));
    seg(&mut o, 0xdb, &q);
    let mut f = vec![8];
    f.extend((h as u16).to_be_bytes());
    f.extend((w as u16).to_be_bytes());
    f.push(n as u8);
    for (i, c) in comps.iter().enumerate() {
        f.extend([i as u8 + 1, (c.h << 4 | c.v) as u8, 0]);
    }
    seg(&mut o, if progressive { 0xc2 } else { 0xc0 }, &f);
    let dc = if r.chance(1, 2) { huff(&[(4, (0..12).collect())]) } else { huff(&[(2, vec![0, 3]), (3, vec![4]), (5, vec![1, 2, 5]), (9, (6..12).collect())]) };
    let syms: Vec<u8> = (0..16u8).flat_map(|r| (1..11u8).map(move |s| r << 4 | s)).chain([0xf0]).collect();
    let ac = if r.chance(1, 2) { huff(&[(2, vec![0]), (8, syms)]) } else { huff(&[(3, vec![0, 1, 2]), (6, syms[2..9].to_vec()), (10, [&syms[9..], &[]].concat())]) };
    for (id, t) in [(0u8, &dc), (0x10, &ac)] {
        let mut d = vec![id];
        d.extend(t.counts);
        d.extend(&t.vals);
        seg(&mut o, 0xc4, &d);
    }
    let restart = if r.chance(1, 3) { r.range(1, 9) as u32 } else { 0 };
    if restart > 0 {
        seg(&mut o, 0xdd, &(restart as u16).to_be_bytes());
    }
    let put_dc = |b: &mut Bits, pred: &mut i32, v: i32| {
        let d = v - *pred;
        *pred = v;
        let s = size(d);
        let (c, l) = dc.code[s as usize];
        b.put(c, l);
        amp(b, d, s);
    };
    let put_ac = |b: &mut Bits, k: &[i32; 64]| {
        let mut run = 0;
        for v in &k[1..] {
            if *v == 0 {
                run += 1;
                continue;
            }
            while run > 15 {
                let (c, l) = ac.code[0xf0];
                b.put(c, l);
                run -= 16;
            }
            let s = size(*v);
            let (c, l) = ac.code[(run << 4 | s) as usize];
            b.put(c, l);
            amp(b, *v, s);
            run = 0;
        }
        if run > 0 {
            let (c, l) = ac.code[0];
            b.put(c, l);
        }
    };
    let sos = |o: &mut Vec<u8>, ids: &[usize], ss: u8, se: u8| {
        let mut d = vec![ids.len() as u8];
        for i in ids {
            d.extend([*i as u8 + 1, 0]);
        }
        d.extend([ss, se, 0]);
        seg(o, 0xda, &d);
    };
    // units of a scan: lists of (component, block)
    let interleaved = n > 1;
    let mut units: Vec<Vec<(usize, usize)>> = vec![];
    if interleaved {
        for my in 0..mh {
            for mx in 0..mw {
                let mut u = vec![];
                for (i, c) in comps.iter().enumerate() {
                    for y in 0..c.v {
                        for x in 0..c.h {
                            u.push((i, ((my * c.v + y) * c.bw + mx * c.h + x) as usize));
                        }
                    }
                }
                units.push(u);
            }
        }
    } else {
        units = (0..(comps[0].bw * comps[0].bh) as usize).map(|b| vec![(0, b)]).collect();
    }
    let run_scan = |o: &mut Vec<u8>, units: &[Vec<(usize, usize)>], do_dc: bool, do_ac: bool| {
        let mut b = Bits::default();
        let mut pred = [0i32; 4];
        for (k, u) in units.iter().enumerate() {
            if restart > 0 && k > 0 && k as u32 % restart == 0 {
                b.align();
                b.o.extend([0xff, 0xd0 + ((k as u32 / restart - 1) % 8) as u8]);
                pred = [0; 4];
            }
            for (c, i) in u {
                let k = &comps[*c].coef[*i];
                if do_dc {
                    put_dc(&mut b, &mut pred[*c], k[0]);
                }
                if do_ac {
                    put_ac(&mut b, k);
                }
            }
        }
        b.align();
        o.extend(b.o);
    };
    let all: Vec<usize> = (0..n).collect();
    if progressive {
        sos(&mut o, &all, 0, 0);
        run_scan(&mut o, &units, true, false);
        for (i, c) in comps.iter().enumerate() {
            // a scan of one component covers only the blocks inside the picture
            let (cw, chh) = ((w * c.h).div_ceil(sh * 8), (h * c.v).div_ceil(sv * 8));
            let u: Vec<Vec<(usize, usize)>> = (0..chh).flat_map(|y| (0..cw).map(move |x| (x, y))).map(|(x, y)| vec![(i, (y * c.bw + x) as usize)]).collect();
            if u.len() > 1 || !c.coef[0][1..].iter().all(|v| *v == 0) || r.chance(1, 2) {
                sos(&mut o, &[i], 1, 63);
                run_scan(&mut o, &u, false, true);
            }
        }
    } else {
        sos(&mut o, &all, 0, 63);
        run_scan(&mut o, &units, true, true);
    }
    if r.chance(19, 20) {
        o.extend([0xff, 0xd9]);
    }
    if r.chance(1, 8) {
        o.extend((0..r.below(9)).map(|_| r.u8()));
    }
    o
}
