//! What an undamaged file says about its ICC profile, Exif block and orientation, read by a small
//! container parser written from the format specifications. None: this model does not know.
#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub icc: Option<Option<Vec<u8>>>,
    pub exif: Option<Option<Vec<u8>>>,
    pub orient: Option<u8>,
}
fn be16(d: &[u8], p: usize) -> Option<usize> {
    Some(u16::from_be_bytes(d.get(p..p + 2)?.try_into().ok()?) as usize)
}
fn be32(d: &[u8], p: usize) -> Option<usize> {
    Some(u32::from_be_bytes(d.get(p..p + 4)?.try_into().ok()?) as usize)
}
fn le32(d: &[u8], p: usize) -> Option<usize> {
    Some(u32::from_le_bytes(d.get(p..p + 4)?.try_into().ok()?) as usize)
}
/// orientation from a TIFF structure (first directory, tag 274, one SHORT); 1 if there is none
fn tiff_orient(d: &[u8]) -> u8 {
    let go = || -> Option<u8> {
        let be = match d.get(..4)? {
            b"MM\0*" => true,
            b"II*\0" => false,
            _ => return None,
        };
        let u16_ = |p: usize| -> Option<usize> { Some(if be { be16(d, p)? } else { u16::from_le_bytes(d.get(p..p + 2)?.try_into().ok()?) as usize }) };
        let u32_ = |p: usize| if be { be32(d, p) } else { le32(d, p) };
        let ifd = u32_(4)?;
        for i in 0..u16_(ifd)? {
            let e = ifd + 2 + 12 * i;
            if u16_(e)? == 274 && u16_(e + 2)? == 3 && u32_(e + 4)? == 1 {
                let v = u16_(e + 8)?;
                return if (1..=8).contains(&v) { Some(v as u8) } else { None };
            }
        }
        None
    };
    go().unwrap_or(1)
}
fn jpeg(d: &[u8]) -> Option<Meta> {
    let mut p = 2;
    let mut exif: Option<Vec<u8>> = None;
    let mut icc: Vec<(u8, u8, Vec<u8>)> = vec![];
    loop {
        if *d.get(p)? != 0xff {
            return None;
        }
        let m = *d.get(p + 1)?;
        if m == 0xff {
            p += 1;
            continue;
        }
        if m == 0xda || m == 0xd9 {
            break;
        }
        let n = be16(d, p + 2)?;
        let s = d.get(p + 4..p + 2 + n)?;
        if m == 0xe1 && s.starts_with(b"Exif\0\0") {
            if exif.is_some() {
                return None;
            }
            exif = Some(s[6..].to_vec());
        }
        if m == 0xe2 && s.starts_with(b"ICC_PROFILE\0") {
            icc.push((*s.get(12)?, *s.get(13)?, s[14..].to_vec()));
        }
        p += 2 + n;
    }
    icc.sort();
    let whole = icc.iter().enumerate().all(|(i, c)| c.0 as usize == i + 1 && c.1 as usize == icc.len());
    let orient = Some(exif.as_deref().map_or(1, tiff_orient));
    Some(Meta {
        icc: if icc.is_empty() { Some(None) } else if whole { Some(Some(icc.into_iter().flat_map(|c| c.2).collect())) } else { None },
        exif: Some(exif),
        orient,
    })
}
fn webp(d: &[u8]) -> Option<Meta> {
    if d.get(..4)? != b"RIFF" || d.get(8..12)? != b"WEBP" {
        return None;
    }
    let mut p = 12;
    let mut m = Meta { icc: Some(None), exif: Some(None), orient: Some(1) };
    if d.get(12..16)? != b"VP8X" {
        return Some(m);
    }
    let flags = *d.get(20)?;
    while p + 8 <= d.len() {
        let n = le32(d, p + 4)?;
        let s = d.get(p + 8..p + 8 + n)?;
        match &d[p..p + 4] {
            b"ICCP" if flags & 0x20 != 0 && m.icc == Some(None) => m.icc = Some(Some(s.to_vec())),
            b"EXIF" if flags & 8 != 0 && m.exif == Some(None) => m.exif = Some(Some(s.to_vec())),
            // present without its flag, or twice
            b"ICCP" => m.icc = None,
            b"EXIF" => m.exif = None,
            _ => {}
        }
        p += 8 + n + (n & 1);
    }
    m.orient = m.exif.as_ref().map(|e| e.as_deref().map_or(1, tiff_orient));
    Some(m)
}
/// zlib stream of stored blocks only
fn stored(d: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut p = 2;
    loop {
        let h = *d.get(p)?;
        if h & !1 != 0 {
            return None;
        }
        let n = u16::from_le_bytes(d.get(p + 1..p + 3)?.try_into().ok()?) as usize;
        o.extend(d.get(p + 5..p + 5 + n)?);
        p += 5 + n;
        if h & 1 == 1 {
            return Some(o);
        }
    }
}
fn png(d: &[u8]) -> Option<Meta> {
    let mut p = 8;
    let mut icc: Option<Option<Vec<u8>>> = Some(None);
    loop {
        let n = be32(d, p)?;
        let s = d.get(p + 8..p + 8 + n)?;
        match d.get(p + 4..p + 8)? {
            b"IDAT" => break,
            b"iCCP" => {
                let z = s.iter().position(|b| *b == 0)?;
                icc = if icc != Some(None) || !(1..80).contains(&z) { None } else { stored(s.get(z + 2..)?).map(Some) };
            }
            _ => {}
        }
        p += 12 + n;
    }
    // this decoder has no Exif interface
    Some(Meta { icc, exif: Some(None), orient: Some(1) })
}
fn tiff(d: &[u8]) -> Option<Meta> {
    let be = match d.get(..2)? {
        b"MM" => true,
        b"II" => false,
        _ => return None,
    };
    let num = |p: usize, n: usize| -> Option<u64> {
        let s = d.get(p..p.checked_add(n)?)?;
        let f = |a: u64, b: &u8| a << 8 | *b as u64;
        Some(if be { s.iter().fold(0, f) } else { s.iter().rev().fold(0, f) })
    };
    let big = match num(2, 2)? {
        42 => false,
        43 => true,
        _ => return None,
    };
    let (ifd, w) = if big { (num(8, 8)? as usize, 8) } else { (num(4, 4)? as usize, 4) };
    let n = if big { num(ifd, 8)? } else { num(ifd, 2)? } as usize;
    let (first, size) = if big { (ifd + 8, 20) } else { (ifd + 2, 12) };
    let mut m = Meta { icc: Some(None), exif: Some(None), orient: Some(1) };
    for i in 0..n.min(1000) {
        let e = first + size * i;
        let (tag, ty, cnt, val) = (num(e, 2)?, num(e + 2, 2)?, num(e + 4, w)? as usize, e + 4 + w);
        match (tag, ty) {
            (274, 3) if cnt == 1 => {
                let v = num(val, 2)?;
                m.orient = Some(if (1..=8).contains(&v) { v as u8 } else { 1 });
            }
            (274, _) => m.orient = None,
            (34675, 1 | 7) => {
                let at = if cnt <= w { val } else { num(val, w)? as usize };
                m.icc = Some(Some(d.get(at..at.checked_add(cnt)?)?.to_vec()));
            }
            (34675, _) => m.icc = None,
            _ => {}
        }
    }
    Some(m)
}
pub fn metadata(fmt: &str, d: &[u8]) -> Meta {
    match fmt {
        "jpeg" => jpeg(d),
        "webp" => webp(d),
        "png" => png(d),
        "tiff" => tiff(d),
        "avif" => None,
        _ => Some(Meta { icc: Some(None), exif: Some(None), orient: Some(1) }),
    }
    .unwrap_or_default()
}
