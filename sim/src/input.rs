//! Inputs: committed corpus files, generated files, mutated files, literal bytes.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Input {
    Corpus { name: String },
    Forge { fmt: String, seed: u64, max: u32 },
    Bytes { hex: String },
    Mut { base: Box<Input>, edits: Vec<Edit> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Set { at: u64, v: u8 },
    Xor { at: u64, v: u8 },
    Del { at: u64, n: u32 },
    Ins { at: u64, hex: String },
    Dup { at: u64, n: u32, to: u64 },
    Zero { at: u64, n: u32 },
    Put32 { at: u64, v: u32, be: bool },
    Put16 { at: u64, v: u16, be: bool },
    Trunc { n: u64 },
    /// a number of the file changed by a small amount
    Add { at: u64, n: u8, d: i32, be: bool },
    /// the k-th decimal number of a text header replaced
    Num { k: u32, text: String },
}
pub fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2);
    for b in d {
        s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.bytes().map(|c| (c as char).to_digit(16).unwrap_or(0) as u8).collect();
    d.chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect()
}
/// (format, file name, bytes)
static CORPUS: Mutex<Vec<(String, String, Vec<u8>)>> = Mutex::new(Vec::new());
pub fn load_corpus() {
    let root = std::env::var("SIMIMG_CORPUS").unwrap_or_else(|_| "/verif/corpus".into());
    let mut v = vec![];
    let mut dirs: Vec<_> = std::fs::read_dir(&root).expect("corpus").flatten().collect();
    dirs.sort_by_key(|d| d.file_name());
    for d in dirs {
        if !d.path().is_dir() {
            continue;
        }
        let f = d.file_name().to_string_lossy().into_owned();
        let mut fs: Vec<_> = std::fs::read_dir(d.path()).unwrap().flatten().collect();
        fs.sort_by_key(|d| d.file_name());
        for e in fs {
            v.push((f.clone(), format!("{f}/{}", e.file_name().to_string_lossy()), std::fs::read(e.path()).unwrap()));
        }
    }
    *CORPUS.lock().unwrap() = v;
}
pub fn corpus_names(fmt: &str) -> Vec<String> {
    CORPUS.lock().unwrap().iter().filter(|c| c.0 == fmt).map(|c| c.1.clone()).collect()
}
impl Input {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Input::Corpus { name } => {
                CORPUS.lock().unwrap().iter().find(|c| c.1 == *name).map(|c| c.2.clone()).unwrap_or_else(|| panic!("corpus file {name} missing"))
            }
            Input::Forge { fmt, seed, max } => crate::forge::forge(fmt, &mut Rng::new(*seed), *max),
            Input::Bytes { hex } => unhex(hex),
            Input::Mut { base, edits } => {
                let mut d = base.bytes();
                for e in edits {
                    e.apply(&mut d);
                }
                d
            }
        }
    }
    pub fn literal(&self) -> Input {
        Input::Bytes { hex: hex(&self.bytes()) }
    }
    pub fn describe(&self) -> String {
        match self {
            Input::Corpus { name } => name.clone(),
            Input::Forge { fmt, seed, max } => format!("forge:{fmt}:{seed}:{max}"),
            Input::Bytes { hex } => format!("{} literal bytes", hex.len() / 2),
            Input::Mut { base, edits } => format!("{} with {} edits", base.describe(), edits.len()),
        }
    }
    /// simpler inputs for minimisation
    pub fn shrink(&self) -> Vec<Input> {
        let mut v = vec![];
        match self {
            Input::Forge { fmt, seed, max } => {
                for m in [2u32, 4, 8, 16, 32] {
                    if m < *max {
                        for k in 0..4 {
                            v.push(Input::Forge { fmt: fmt.clone(), seed: seed.wrapping_add(k), max: m });
                        }
                    }
                }
            }
            Input::Mut { base, edits } => {
                if edits.is_empty() {
                    v.push((**base).clone());
                }
                for i in 0..edits.len() {
                    let mut e = edits.clone();
                    e.remove(i);
                    v.push(Input::Mut { base: base.clone(), edits: e });
                }
                for b in base.shrink() {
                    v.push(Input::Mut { base: Box::new(b), edits: edits.clone() });
                }
            }
            _ => {}
        }
        v
    }
}
impl Edit {
    pub fn apply(&self, d: &mut Vec<u8>) {
        let n0 = d.len();
        if n0 == 0 {
            return;
        }
        let cl = |a: &u64| (*a as usize).min(n0 - 1);
        match self {
            Edit::Set { at, v } => d[cl(at)] = *v,
            Edit::Xor { at, v } => d[cl(at)] ^= *v,
            Edit::Del { at, n } => {
                let a = cl(at);
                let e = (a + *n as usize).min(d.len());
                d.drain(a..e);
            }
            Edit::Ins { at, hex } => {
                let a = cl(at);
                let x = unhex(hex);
                d.splice(a..a, x);
            }
            Edit::Dup { at, n, to } => {
                let a = cl(at);
                let e = (a + *n as usize).min(d.len());
                let x = d[a..e].to_vec();
                let t = cl(to);
                d.splice(t..t, x);
            }
            Edit::Zero { at, n } => {
                let a = cl(at);
                let e = (a + *n as usize).min(d.len());
                d[a..e].fill(0);
            }
            Edit::Put32 { at, v, be } => {
                let a = cl(at);
                let b = if *be { v.to_be_bytes() } else { v.to_le_bytes() };
                for (i, x) in b.iter().enumerate() {
                    if a + i < d.len() {
                        d[a + i] = *x;
                    }
                }
            }
            Edit::Put16 { at, v, be } => {
                let a = cl(at);
                let b = if *be { v.to_be_bytes() } else { v.to_le_bytes() };
                for (i, x) in b.iter().enumerate() {
                    if a + i < d.len() {
                        d[a + i] = *x;
                    }
                }
            }
            Edit::Trunc { n } => d.truncate(*n as usize),
            Edit::Add { at, n, d: x, be } => {
                let a = cl(at);
                let e = (a + (*n).clamp(1, 4) as usize).min(n0);
                let mut c = *x as i64;
                let order: Vec<usize> = if *be { (a..e).rev().collect() } else { (a..e).collect() };
                for i in order {
                    c += d[i] as i64;
                    d[i] = c as u8;
                    c >>= 8;
                }
            }
            Edit::Num { k, text } => {
                let head = n0.min(400);
                let mut runs = vec![];
                let mut i = 0;
                while i < head {
                    let s = i;
                    while i < head && d[i].is_ascii_digit() {
                        i += 1;
                    }
                    if i > s {
                        runs.push((s, i));
                    } else {
                        i += 1;
                    }
                }
                if let Some((a, e)) = runs.get(*k as usize % runs.len().max(1)) {
                    d.splice(*a..*e, text.bytes());
                }
            }
        }
    }
}
/// the numbers of the fixed header of a format: (position, bytes), and whether they are big-endian
fn fields(fmt: &str) -> (&'static [(u8, u8)], bool) {
    match fmt {
        "bmp" => (&[(2, 4), (10, 4), (14, 4), (18, 4), (22, 4), (18, 2), (20, 2), (22, 2), (24, 2), (26, 2), (28, 2), (30, 4), (34, 4), (46, 4), (50, 4), (54, 4), (58, 4), (62, 4), (66, 4)], false),
        "ico" => (&[(0, 2), (2, 2), (4, 2), (6, 1), (7, 1), (8, 1), (10, 2), (12, 2), (14, 4), (18, 4), (22, 1), (30, 4), (34, 4), (22, 4), (26, 4), (36, 2), (38, 4), (42, 4), (54, 4)], false),
        "tga" => (&[(0, 1), (1, 1), (2, 1), (3, 2), (5, 2), (7, 1), (8, 2), (10, 2), (12, 2), (14, 2), (16, 1), (17, 1), (18, 1), (19, 1)], false),
        "dds" => (&[(4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (24, 4), (28, 4), (76, 4), (80, 4), (84, 4), (88, 4), (108, 4), (112, 4), (128, 4), (132, 4), (136, 4), (140, 4), (144, 4)], false),
        "farbfeld" => (&[(8, 4), (12, 4), (8, 2), (10, 2), (12, 2), (14, 2)], true),
        "qoi" => (&[(4, 4), (8, 4), (12, 1), (13, 1), (14, 1), (15, 1)], true),
        "gif" => (&[(6, 2), (8, 2), (10, 1), (11, 1), (12, 1)], false),
        "webp" => (&[(4, 4), (16, 4), (20, 1), (24, 2), (26, 2), (27, 2), (21, 4)], false),
        "tiff" => (&[(2, 2), (4, 4), (8, 2)], false),
        _ => (&[], false),
    }
}
pub fn edits(r: &mut Rng, fmt: &str, len: usize, n: usize) -> Vec<Edit> {
    let mut v = vec![];
    let len = len as u64;
    let (fields, fbe) = fields(fmt);
    for _ in 0..n {
        if !fields.is_empty() && r.chance(1, 3) {
            let (at, w) = *r.pick(fields);
            let at = at as u64;
            v.push(match (r.below(3), w) {
                (0, _) => Edit::Add { at, n: w, d: *r.pick(&[1, -1, 2, -2, 4, -4, 8, -8, 16, -16, 64, -64, 255, -256, 65536, -65536]), be: fbe },
                (_, 1) => Edit::Set { at, v: if r.chance(1, 2) { r.below(40) as u8 } else { *r.pick(&[64u8, 127, 128, 254, 255]) } },
                (1, 2) => Edit::Put16 { at, v: r.below(70) as u16, be: fbe },
                (_, 2) => Edit::Put16 { at, v: *r.pick(&[0u16, 1, 0x7fff, 0x8000, 0xffff, 255, 256, 0xfff0, 0x3fff, 0x4000]), be: fbe },
                (1, _) => Edit::Put32 { at, v: r.below(150) as u32, be: fbe },
                _ => Edit::Put32 {
                    at,
                    v: *r.pick(&[0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff, 0x10000, 0xfffffff0, 65535, 100000, 0x40000000, 0x80000001, 0x3fffffff, 0x20000001, 0xfffffffe, 46341]),
                    be: fbe,
                },
            });
            continue;
        }
        if matches!(fmt, "pnm" | "hdr") && r.chance(1, 4) {
            let text = match r.below(3) {
                0 => r.below(40).to_string(),
                1 => r.below(70000).to_string(),
                _ => r
                    .pick(&["0", "00", "-1", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "46341", "65537", "1073741824", "99999999999999999999", "18446744073709551615", "1e3", ""])
                    .to_string(),
            };
            v.push(Edit::Num { k: r.below(8) as u32, text });
            continue;
        }
        // headers are where the fields are: bias to the front
        let at = if r.chance(1, 2) { r.below(len.min(64)) } else { r.below(len) };
        // half of the time a field of the fixed header
        let field = if r.chance(1, 2) { r.below(len.min(24)) * 2 % len.max(1) } else { at };
        v.push(match r.below(16) {
            0 => Edit::Set { at, v: r.u8() },
            1 => Edit::Set { at, v: *r.pick(&[0u8, 255, 1, 127, 128, 254]) },
            2 | 3 | 4 => Edit::Xor { at, v: 1 << r.below(8) },
            5 => Edit::Del { at, n: r.range(1, 16) as u32 },
            6 => {
                let x: Vec<u8> = (0..r.range(1, 8)).map(|_| r.u8()).collect();
                Edit::Ins { at, hex: hex(&x) }
            }
            7 => Edit::Dup { at, n: r.range(1, 64) as u32, to: r.below(len) },
            8 => Edit::Zero { at, n: r.range(1, 64) as u32 },
            9 | 10 | 14 | 15 => Edit::Put32 {
                at: field,
                v: *r.pick(&[0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff, 0x10000, 0xfffffff0, 65535, 100000, 0x40000000]),
                be: r.chance(1, 2),
            },
            11 | 12 => Edit::Put16 { at: field, v: *r.pick(&[0u16, 1, 0x7fff, 0x8000, 0xffff, 255, 256, 0xfff0]), be: r.chance(1, 2) },
            _ => Edit::Trunc { n: r.below(len) },
        });
    }
    v
}
/// A valid (or at least curious) file of the format: corpus or generated.
pub fn any_input(r: &mut Rng, fmt: &str, max: u32) -> Input {
    let names = corpus_names(fmt);
    let forgeable = fmt != "avif";
    if !forgeable || (!names.is_empty() && r.chance(1, 5)) {
        return Input::Corpus { name: r.pick(&names).clone() };
    }
    let f = if fmt == "png" && r.chance(1, 4) { "apng" } else { fmt };
    Input::Forge { fmt: f.into(), seed: r.u64(), max }
}
