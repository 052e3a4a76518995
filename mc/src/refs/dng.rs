//! Independent reader for the raw image of a DNG file.
use super::tiff::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Px {
  U(Vec<u32>),
  F(Vec<u32>), // f32 bits
}

#[derive(Clone, Debug)]
pub struct Dng {
  pub root: Dir,
  pub raw: Dir,
  pub exif: Option<Dir>,
  pub gps: Option<Dir>,
  pub subs: Vec<Dir>,
  pub width: usize,
  pub height: usize,
  pub cpp: usize,
  pub bps: usize,
  pub photometric: u64,
  pub compression: u64,
  pub px: Px,
}

/// Parse the complete structure (strict), decode the raw image and verify that all referenced regions are disjoint.
pub fn read(src: &[u8]) -> Result<Dng, String> {
  read_opt(src, true)
}

pub fn read_opt(src: &[u8], pixels: bool) -> Result<Dng, String> {
  let mut t = Tiff::open(src)?;
  let chain = t.chain()?;
  let root = chain.first().ok_or("no IFD")?.clone();
  let mut subs = vec![];
  if let Some(v) = root.get(330) {
    for o in v.us() {
      subs.push(t.dir(o as u32)?);
    }
  }
  let exif = match root.u(34665) {
    Some(o) => Some(t.dir(o as u32)?),
    None => None,
  };
  let gps = match root.u(34853) {
    Some(o) => Some(t.dir(o as u32)?),
    None => None,
  };
  let mut all = vec![root.clone()];
  all.extend(subs.iter().cloned());
  let raws: Vec<Dir> = all.iter().filter(|d| d.u(254) == Some(0) && d.get(256).is_some()).cloned().collect();
  if raws.len() != 1 {
    return Err(format!("{} full resolution images", raws.len()));
  }
  let raw = raws[0].clone();
  // register data of every image IFD
  for d in &all {
    for (o, c) in [(273u16, 279u16), (324, 325)] {
      if let (Some(off), Some(cnt)) = (d.get(o), d.get(c)) {
        let (off, cnt) = (off.us(), cnt.us());
        if off.len() != cnt.len() {
          return Err(format!("offset/bytecount count mismatch {} {}", off.len(), cnt.len()));
        }
        for (a, b) in off.iter().zip(&cnt) {
          if (*a + *b) as usize > src.len() {
            return Err(format!("image data {a}+{b} outside file"));
          }
          t.regions.push((*a as usize, (*a + *b) as usize, format!("image data of IFD {}", d.offset)));
        }
      }
    }
  }
  t.check_regions()?;
  let g = |tag: u16| raw.u(tag).ok_or(format!("missing tag {tag}"));
  let (width, height, cpp, compression, photometric) = (g(256)? as usize, g(257)? as usize, g(277)? as usize, g(259)?, g(262)?);
  let bpsv = raw.get(258).ok_or("no BitsPerSample")?.us();
  if bpsv.len() != cpp {
    return Err(format!("BitsPerSample count {} for {cpp} samples", bpsv.len()));
  }
  let fmt: Vec<u64> = raw.get(339).map(|v| v.us()).unwrap_or(vec![1; cpp]);
  if fmt.len() != cpp {
    return Err("SampleFormat count".into());
  }
  let bps = bpsv[0] as usize;
  let px = if pixels { pixels_of(&t, &raw, width, height, cpp, compression, bps, fmt[0])? } else { Px::U(vec![]) };
  Ok(Dng { root, raw, exif, gps, subs, width, height, cpp, bps, photometric, compression, px })
}

pub fn pixels_of(t: &Tiff, raw: &Dir, width: usize, height: usize, cpp: usize, compression: u64, bps: usize, fmt: u64) -> Result<Px, String> {
  let line = width * cpp;
  let mut out = vec![0u32; line * height];
  let mut filled = vec![false; line * height];
  // chunks: (offset, len, x, y, w, h) in pixels
  let mut chunks = vec![];
  if let Some(off) = raw.get(324) {
    let (tw, tl) = (raw.u(322).ok_or("no TileWidth")? as usize, raw.u(323).ok_or("no TileLength")? as usize);
    if tw == 0 || tl == 0 || tw % 16 != 0 || tl % 16 != 0 {
      return Err("tile size must be a multiple of 16".into());
    }
    let cnt = raw.get(325).ok_or("no TileByteCounts")?.us();
    let across = (width + tw - 1) / tw;
    let down = (height + tl - 1) / tl;
    if off.count() != across * down {
      return Err(format!("{} tiles, expected {}", off.count(), across * down));
    }
    for (i, (o, c)) in off.us().iter().zip(&cnt).enumerate() {
      chunks.push((*o as usize, *c as usize, (i % across) * tw, (i / across) * tl, tw, tl));
    }
  } else {
    let off = raw.get(273).ok_or("no StripOffsets")?.us();
    let cnt = raw.get(279).ok_or("no StripByteCounts")?.us();
    let rps = (raw.u(278).unwrap_or(u32::MAX as u64) as usize).min(height);
    if rps == 0 {
      return Err("RowsPerStrip 0".into());
    }
    let n = (height + rps - 1) / rps;
    if off.len() != n {
      return Err(format!("{} strips, expected {n}", off.len()));
    }
    for (i, (o, c)) in off.iter().zip(&cnt).enumerate() {
      let h = rps.min(height - i * rps);
      chunks.push((*o as usize, *c as usize, 0, i * rps, width, h));
    }
  }
  for (o, c, x, y, w, h) in chunks {
    let data = t.src.get(o..o + c).ok_or("chunk outside file")?;
    let need = w * h * cpp;
    let samples: Vec<u32> = match compression {
      1 => {
        let bytes = need * bps / 8;
        if bps % 8 != 0 {
          return Err("packed uncompressed not supported by the reference".into());
        }
        if data.len() != bytes {
          return Err(format!("uncompressed chunk has {} bytes, expected {bytes}", data.len()));
        }
        data
          .chunks_exact(bps / 8)
          .map(|b| match (b.len(), t.be) {
            (1, _) => b[0] as u32,
            (2, true) => u16::from_be_bytes([b[0], b[1]]) as u32,
            (2, false) => u16::from_le_bytes([b[0], b[1]]) as u32,
            (4, true) => u32::from_be_bytes([b[0], b[1], b[2], b[3]]),
            (4, false) => u32::from_le_bytes([b[0], b[1], b[2], b[3]]),
            _ => 0,
          })
          .collect()
      }
      7 => {
        let f = super::ljpeg::decode(data)?;
        if f.data.len() != need {
          return Err(format!("JPEG chunk holds {} samples, expected {need}", f.data.len()));
        }
        if f.precision as usize != bps {
          return Err(format!("JPEG precision {} but BitsPerSample {bps}", f.precision));
        }
        f.data.iter().map(|v| *v as u32).collect()
      }
      c => return Err(format!("compression {c}")),
    };
    for r in 0..h {
      if y + r >= height {
        break;
      }
      for k in 0..w * cpp {
        if x * cpp + k >= line {
          break;
        }
        let p = (y + r) * line + x * cpp + k;
        if filled[p] {
          return Err("pixel covered twice".into());
        }
        filled[p] = true;
        out[p] = samples[r * w * cpp + k];
      }
    }
  }
  if filled.iter().any(|f| !f) {
    return Err("pixels not covered".into());
  }
  Ok(if fmt == 3 { Px::F(out) } else { Px::U(out) })
}
