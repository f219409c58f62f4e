//! C09 rectangle reads: any history of read_rect calls, with a source that may fail.
use crate::codec::*;
use crate::input::*;
use crate::p_read::{delivery, kind, shrink_plan};
use crate::rng::{hash, mix2, Rng};
use crate::run::{self, catch, Tier};
use crate::simio::*;
use image::codecs::{bmp::BmpDecoder, farbfeld::FarbfeldDecoder};
use image::{ImageDecoder, ImageDecoderRect, ImageResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{BufReader, Seek};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Req {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    /// added to the bytes of one row
    pub gap: u32,
    /// bytes behind the last row
    pub tail: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B09 {
    pub fmt: String,
    pub input: Input,
    pub reqs: Vec<Req>,
    /// read_image at the end
    pub whole: bool,
    /// bytes after the file
    pub after: u32,
    /// behind std's BufReader of this capacity
    pub cap: u32,
    /// BMP: 1 the indices of a palette, 2 without the file header
    #[serde(default)]
    pub special: u8,
    pub plan: IoPlan,
}
impl B09 {
    fn route(&self) -> Route {
        match (self.fmt.as_str(), self.special) {
            ("bmp", 1) => Route::Special,
            ("bmp", 2) => Route::Special2,
            _ => Route::Concrete,
        }
    }
}
fn b09(v: &Value) -> B09 {
    serde_json::from_value(v.clone()).expect("scenario body")
}
fn dims(fmt: &str, data: &Rc<Vec<u8>>) -> Option<(u32, u32)> {
    let d = decode(fmt, Route::Dims, data, &cursor_plan(), &Opt::default(), false);
    d.out.end.ok().then_some(d.out.dims)
}
fn req(r: &mut Rng, w: u32, h: u32) -> Req {
    let (w64, h64) = (w.max(1) as u64, h.max(1) as u64);
    let mut q = match r.below(10) {
        0 => Req { x: 0, y: 0, w, h, gap: 0, tail: 0 },
        1 | 2 => {
            let y = r.below(h64) as u32;
            Req { x: 0, y, w, h: 1 + r.below((h.max(1) - y) as u64) as u32, gap: 0, tail: 0 }
        }
        3 => Req { x: r.below(w64) as u32, y: r.below(h64) as u32, w: 1, h: 1, gap: 0, tail: 0 },
        4 => {
            // invalid
            *r.pick(&[(0, 0, 0, 1), (0, 0, 1, 0), (w, 0, 1, 1), (0, h, 1, 1), (0, 0, w + 1, 1), (0, 0, 1, h + 1), (u32::MAX, 0, 1, 1), (1, u32::MAX, 1, 2), (w / 2, 0, w, 1), (0, h / 2 + 1, 1, h)])
        }
        .into(),
        _ => {
            let (x, y) = (r.below(w64) as u32, r.below(h64) as u32);
            Req { x, y, w: 1 + r.below((w.max(1) - x) as u64) as u32, h: 1 + r.below((h.max(1) - y) as u64) as u32, gap: 0, tail: 0 }
        }
    };
    if r.chance(1, 2) {
        q.gap = *r.pick(&[1u32, 2, 3, 4, 7, 8, 64]);
    }
    if r.chance(1, 3) {
        q.tail = r.range(1, 40) as u32;
    }
    q
}
impl From<(u32, u32, u32, u32)> for Req {
    fn from(t: (u32, u32, u32, u32)) -> Req {
        Req { x: t.0, y: t.1, w: t.2, h: t.3, gap: 0, tail: 0 }
    }
}
pub fn gen09(r: &mut Rng, _i: u64, t: Tier) -> Value {
    let f = if r.chance(1, 2) { "farbfeld" } else { "bmp" };
    let max = if t == Tier::Thorough && r.chance(1, 4) { 120 } else { 20 };
    let input = any_input(r, f, max);
    let data = Rc::new(input.bytes());
    let (w, h) = dims(f, &data).unwrap_or((3, 3));
    let n = r.range(1, 7);
    let reqs = (0..n).map(|_| req(r, w, h)).collect();
    let mut plan = if r.chance(1, 3) { cursor_plan() } else { delivery(r) };
    plan.seed = r.u64();
    if r.chance(2, 3) {
        // positions within the whole history are not known before it runs: operation counts and bytes
        let per = 4 + data.len() as u64 / 4;
        for _ in 0..r.range(1, 3) {
            let (when, class) = match r.below(4) {
                0 => (When::Byte(r.below(data.len() as u64 + 1)), Class::Data),
                1 => (When::Op(r.below(per * n)), Class::Data),
                2 => (When::Op(r.below(4 * n)), Class::Seek),
                _ => (When::Op(r.below(20 + per * n)), Class::Any),
            };
            plan.faults.push(Fault { when, class, kind: kind(r), persistent: r.chance(1, 8) });
        }
    }
    serde_json::to_value(B09 {
        fmt: f.into(),
        input,
        reqs,
        whole: r.chance(1, 2),
        after: if r.chance(1, 3) { r.range(1, 200) as u32 } else { 0 },
        cap: if r.chance(1, 3) { *r.pick(&[1u32, 2, 3, 16, 100, 8192]) } else { 0 },
        special: if r.chance(1, 3) { r.range(1, 2) as u8 } else { 0 },
        plan,
    })
    .unwrap()
}
pub fn shrink09(v: &Value) -> Vec<Value> {
    let b = b09(v);
    let mut out = vec![];
    let mut push = |b: B09| out.push(serde_json::to_value(b).unwrap());
    for i in 0..b.reqs.len() {
        let mut q = b.reqs.clone();
        q.remove(i);
        push(B09 { reqs: q, ..b.clone() });
    }
    for p in shrink_plan(&b.plan) {
        push(B09 { plan: p, ..b.clone() });
    }
    if !b.plan.faults.is_empty() {
        for n in 0..12 {
            let mut p = b.plan.clone();
            p.faults.truncate(1);
            if p.faults[0].when != When::Op(n) {
                p.faults[0].when = When::Op(n);
                push(B09 { plan: p, ..b.clone() });
            }
        }
    }
    if b.after > 0 {
        push(B09 { after: 0, ..b.clone() });
    }
    if b.special > 0 {
        push(B09 { special: 0, ..b.clone() });
    }
    if b.cap > 0 {
        push(B09 { cap: 0, ..b.clone() });
    }
    if b.whole {
        push(B09 { whole: false, ..b.clone() });
    }
    for i in 0..b.reqs.len() {
        let q = &b.reqs[i];
        for (gap, tail, w, h) in [(0, q.tail, q.w, q.h), (q.gap, 0, q.w, q.h), (q.gap, q.tail, q.w.min(1), q.h), (q.gap, q.tail, q.w, q.h.min(1))] {
            let n = Req { gap, tail, w, h, ..q.clone() };
            if n != *q {
                let mut l = b.reqs.clone();
                l[i] = n;
                push(B09 { reqs: l, ..b.clone() });
            }
        }
    }
    for i in b.input.shrink() {
        push(B09 { input: i, ..b.clone() });
    }
    out
}
struct Full {
    dims: (u32, u32),
    bpp: usize,
    data: Vec<u8>,
}
fn history<D: ImageDecoderRect>(mut d: D, b: &B09, full: &Full, st: &Stats) {
    let hard = || st.borrow().hard;
    let (w, h) = full.dims;
    let mut failed_before = false;
    for (i, q) in b.reqs.iter().enumerate() {
        let row = q.w as usize * full.bpp;
        let pitch = row + q.gap as usize;
        let need = if q.h == 0 { 0 } else { pitch * (q.h as usize - 1) + row };
        if need > 64 << 20 {
            continue;
        }
        let fill = (0x31 + i as u8).wrapping_mul(17);
        let mut buf = vec![fill; need + q.tail as usize];
        let h0 = hard();
        let res = match catch(|| d.read_rect(q.x, q.y, q.w, q.h, &mut buf, pitch)) {
            Ok(r) => r,
            Err(p) => return run::fail("panic", &p.loc, format!("request {i} {q:?} of a {w}x{h} image: {} at {}", p.msg, p.loc)),
        };
        let hit = hard() > h0;
        let valid = q.w > 0 && q.h > 0 && q.x as u64 + q.w as u64 <= w as u64 && q.y as u64 + q.h as u64 <= h as u64;
        run::bump(if res.is_ok() { "rects_ok" } else { "rects_err" }, 1);
        match res {
            Err(e) => {
                if valid && !hit && !failed_before {
                    run::fail("valid-request-refused", "", format!("request {i} {q:?} of a {w}x{h} image: {e}; history {:?}", b.reqs));
                }
                failed_before |= hit;
            }
            Ok(()) if !valid => run::fail("invalid-request-accepted", "", format!("request {i} {q:?} of a {w}x{h} image succeeded")),
            Ok(()) => {
                failed_before |= hit;
                for k in 0..q.h as usize {
                    let from = ((q.y as usize + k) * w as usize + q.x as usize) * full.bpp;
                    let got = &buf[k * pitch..k * pitch + row];
                    let want = &full.data[from..from + row];
                    if got != want {
                        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
                        run::fail(
                            if hit || failed_before { "wrong-pixels-after-failure" } else { "wrong-pixels" },
                            "",
                            format!(
                                "request {i} {q:?} of a {w}x{h} image succeeded but row {k} byte {at} is {:02x}, the full image has {:02x}; source failed before: {failed_before}",
                                got[at], want[at]
                            ),
                        );
                        return;
                    }
                    let gap_end = if k + 1 == q.h as usize { buf.len() } else { (k + 1) * pitch };
                    if buf[k * pitch + row..gap_end].iter().any(|x| *x != fill) {
                        return run::fail("wrote-outside", "", format!("request {i} {q:?}: bytes between or behind the rows of the rectangle were changed (row {k})"));
                    }
                }
            }
        }
    }
    if b.whole {
        let h0 = hard();
        let mut buf = vec![0x5Au8; full.data.len()];
        match catch(|| d.read_image(&mut buf)) {
            Err(p) => run::fail("panic", &p.loc, format!("read_image: {} at {}", p.msg, p.loc)),
            Ok(Ok(())) if buf != full.data => run::fail(
                "wrong-image-after-rects", "",
                format!("read_image succeeded with other pixels than without rectangle reads; source failed before: {failed_before}"),
            ),
            Ok(Err(e)) if hard() == h0 && !failed_before => run::fail("image-refused-after-rects", "", format!("read_image after the history: {e}")),
            _ => {}
        }
    }
}
fn open<R: std::io::BufRead + Seek>(b: &B09, mut r: R, full: &Full, st: &Stats) -> ImageResult<()> {
    if b.route() == Route::Special2 {
        r.read_exact(&mut [0; 14])?;
        history(BmpDecoder::new_without_file_header(r)?, b, full, st)
    } else if b.fmt == "bmp" {
        let mut d = BmpDecoder::new(r)?;
        d.set_indexed_color(b.special == 1);
        history(d, b, full, st)
    } else {
        history(FarbfeldDecoder::new(r)?, b, full, st)
    }
    Ok(())
}
pub fn exec09(v: &Value) {
    let b = b09(v);
    run::set_site(&if b.special > 0 { format!("{}|{:?}", b.fmt, b.route()) } else { b.fmt.clone() });
    let mut bytes = b.input.bytes();
    let d = decode(&b.fmt, b.route(), &Rc::new(bytes.clone()), &cursor_plan(), &Opt::default(), true);
    if !d.out.end.ok() || d.out.bytes == 0 {
        return run::eval(0, false);
    }
    let mut x = Rng::new(b.plan.seed ^ 9);
    bytes.extend((0..b.after).map(|_| x.u8()));
    let h = hash(&bytes);
    let n = d.out.dims.0 as usize * d.out.dims.1 as usize;
    let full = Full { dims: d.out.dims, bpp: d.out.data.len() / n, data: d.out.data };
    run::ops_budget(200_000 + (b.reqs.len() as u64 + 2) * 64 * (bytes.len() as u64 + 1000), "");
    run::bump(&format!("fmt_{}", b.fmt), 1);
    let (r, st) = SimReader::new(Rc::new(bytes), &b.plan);
    let res = catch(|| if b.cap > 0 { open(&b, BufReader::with_capacity(b.cap as usize, r), &full, &st) } else { open(&b, r, &full, &st) });
    let s = st.borrow().clone();
    run::io(&s, "read");
    run::eval(mix2(mix2(h, hash(format!("{:?}{}{}", b.reqs, b.whole, b.cap).as_bytes())), s.trace), b.reqs.len() > 1);
    match res {
        Err(p) => run::fail("panic", &p.loc, format!("{} at {}", p.msg, p.loc)),
        Ok(Err(e)) if s.hard == 0 => run::fail("open-refused", "", format!("{e}")),
        _ => {}
    }
    run::sample(json!({"format": b.fmt, "input": b.input.describe(), "size": format!("{}x{}", full.dims.0, full.dims.1), "requests": b.reqs.len(), "plan": b.plan}));
}
