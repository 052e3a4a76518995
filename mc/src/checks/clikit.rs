//! Fixtures and oracles shared by the checks that run the dnglab binary.
use super::dngcmp::*;
use crate::fix::*;
use crate::refs::dng as rd;
use crate::refs::tiff::*;
use crate::refs::zlib::*;
use rawler::imgop::develop::{RawDevelop, RawProcessingParams};
use rawler::decoders::RawDecodeParams;
use rawler::rawsource::RawSource;
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cmd {
  Convert,
  Process,
  Extract,
  Makedng,
}
pub const CMDS: [Cmd; 4] = [Cmd::Convert, Cmd::Process, Cmd::Extract, Cmd::Makedng];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Health {
  Good,
  /// decodes far enough that the output was already created when the error shows up
  Late,
  /// not recognisable at all
  Early,
  /// makes the decoder panic (on the unchanged tree)
  Panic,
}

pub fn spec(seed: u64) -> Spec {
  Spec::new(32, 20, Kind::Cfa("RGGB".into()), 14, seed)
}
pub fn raw_bytes(seed: u64, h: Health) -> Vec<u8> {
  let s = spec(seed);
  match h {
    Health::Good => dng_file(&s, &Layout { values_first: true, ..Default::default() }),
    Health::Late => {
      // metadata complete, image data cut off
      let mut b = dng_file(&s, &Layout { values_first: true, lossless: Some((1, 2)), ..Default::default() });
      let n = b.len();
      let t = crate::refs::dng::read(&b).expect("fixture");
      let off = t.raw.get(273).unwrap().u(0).unwrap() as usize;
      // break the JPEG stream: wrong marker in place of SOF
      assert_eq!(&b[off..off + 2], &[0xff, 0xd8]);
      b[off..off + 40].fill(0);
      assert_eq!(b.len(), n);
      b
    }
    Health::Early => b"this is not a raw file at all, just text ................................................................".to_vec(),
    Health::Panic => {
      let mut node = dng_node(&s, &Layout { sub: false, ..Default::default() });
      node.set(262, V::Short(vec![2]));
      build(&[node], false, false, 0)
    }
  }
}

/// DNG OriginalRawFileData by the specification (stored deflate blocks).
pub fn orig_blob(data: &[u8]) -> Vec<u8> {
  let blocks: Vec<Vec<u8>> = data.chunks(65536).map(store_zlib).collect();
  let mut o = (data.len() as u32).to_be_bytes().to_vec();
  let mut p = 4 + 4 * (blocks.len() + 1);
  o.extend((p as u32).to_be_bytes());
  for b in &blocks {
    p += b.len();
    o.extend((p as u32).to_be_bytes());
  }
  for b in &blocks {
    o.extend(b);
  }
  o.extend([0u8; 28]);
  o
}
pub fn original(seed: u64) -> Vec<u8> {
  let mut r = crate::ctx::Rng::new(seed);
  (0..3000 + seed as usize).map(|i| if i % 5 == 0 { r.next() as u8 } else { (i * seed as usize) as u8 }).collect()
}
/// DNG with an embedded original named `name`.
pub fn dng_with_original(seed: u64, name: &str, h: Health) -> Vec<u8> {
  if h == Health::Early {
    return raw_bytes(seed, Health::Early);
  }
  let data = original(seed);
  let mut n = dng_node(&spec(seed), &Layout { values_first: true, ..Default::default() });
  n.set(50827, ascii(name));
  n.set(50828, V::Undefined(orig_blob(&data)));
  let mut d = md5(&data);
  if h != Health::Good {
    d[3] ^= 0x10;
  }
  n.set(50973, V::Byte(d.to_vec()));
  build(&[n], false, true, 0)
}

pub fn input_bytes(cmd: Cmd, seed: u64, h: Health, stem: &str) -> Vec<u8> {
  match cmd {
    Cmd::Extract => dng_with_original(seed, &format!("{stem}.NEF"), h),
    _ => raw_bytes(seed, h),
  }
}
pub fn in_ext(cmd: Cmd) -> &'static str {
  if cmd == Cmd::Extract { "dng" } else { "NEF" }
}
pub fn out_ext(cmd: Cmd) -> &'static str {
  match cmd {
    Cmd::Convert | Cmd::Makedng => "dng",
    Cmd::Process => "tif",
    Cmd::Extract => "NEF",
  }
}
pub fn args(cmd: Cmd, force: bool, input: &str, output: &str) -> Vec<String> {
  let mut v: Vec<&str> = match cmd {
    Cmd::Convert => vec!["convert", "--dng-preview", "false", "--dng-thumbnail", "false"],
    Cmd::Process => vec!["process-raw"],
    Cmd::Extract => vec!["extract"],
    Cmd::Makedng => vec!["makedng", "-o", output, "-i", input, "--map", "0:raw"],
  };
  if force {
    v.push("-f");
  }
  if cmd != Cmd::Makedng {
    v.push(input);
    v.push(output);
  }
  v.into_iter().map(|s| s.to_string()).collect()
}

pub struct Image {
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  pub px: Vec<u16>,
  pub root: Dir,
  pub exif: Option<Dir>,
}
/// Independent reader of a developed 16 bit LZW TIFF.
pub fn read_developed(src: &[u8]) -> Result<Image, String> {
  let mut t = Tiff::open(src)?;
  let d = t.chain()?.into_iter().next().ok_or("no IFD")?;
  let g = |tag: u16| d.u(tag).ok_or(format!("missing tag {tag}"));
  let (w, h, cpp) = (g(256)? as usize, g(257)? as usize, g(277)? as usize);
  let bps = d.get(258).ok_or("no BitsPerSample")?.us();
  if bps != vec![16; cpp] {
    return Err(format!("BitsPerSample {bps:?} for {cpp} samples"));
  }
  if d.u(317).unwrap_or(1) != 1 {
    return Err("predictor".into());
  }
  let rps = (g(278)? as usize).min(h);
  let (off, cnt) = (d.get(273).ok_or("no offsets")?.us(), d.get(279).ok_or("no counts")?.us());
  let n = h.div_ceil(rps.max(1));
  if off.len() != n || cnt.len() != n {
    return Err(format!("{} strips instead of {n}", off.len()));
  }
  let mut px = vec![];
  for (i, (o, c)) in off.iter().zip(&cnt).enumerate() {
    let rows = rps.min(h - i * rps);
    let s = src.get(*o as usize..(*o + *c) as usize).ok_or("strip outside file")?;
    let b = match g(259)? {
      5 => lzw_tiff(s)?,
      1 => s.to_vec(),
      c => return Err(format!("compression {c}")),
    };
    if b.len() != rows * w * cpp * 2 {
      return Err(format!("strip {i} holds {} bytes instead of {}", b.len(), rows * w * cpp * 2));
    }
    px.extend(b.chunks_exact(2).map(|x| if t.be { u16::from_be_bytes([x[0], x[1]]) } else { u16::from_le_bytes([x[0], x[1]]) }));
    t.regions.push((*o as usize, (*o + *c) as usize, format!("strip {i}")));
  }
  let exif = match d.u(34665) {
    Some(o) => Some(t.dir(o as u32)?),
    None => None,
  };
  t.check_regions()?;
  Ok(Image { w, h, cpp, px, root: d, exif })
}

/// Development of the input by the library, in memory (baseline for the file level checks).
pub fn develop_mem(raw: &[u8]) -> Result<Vec<u8>, String> {
  develop_image(raw, 0)
}
pub fn develop_image(raw: &[u8], image: usize) -> Result<Vec<u8>, String> {
  let src = RawSource::new_from_slice(raw);
  let dec = rawler::get_decoder(&src).map_err(|e| e.to_string())?;
  let p = RawDecodeParams { image_index: image };
  let img = dec.raw_image(&src, &p, false).map_err(|e| e.to_string())?;
  let md = dec.raw_metadata(&src, &p).map_err(|e| e.to_string())?;
  let mut out = Cursor::new(vec![]);
  RawDevelop::default().develop(&img, &md, &mut out).map_err(|e| e.to_string())?;
  let _ = RawProcessingParams::default;
  Ok(out.into_inner())
}

pub struct Kit {
  dev: std::collections::HashMap<u64, Vec<u16>>,
}
impl Kit {
  pub fn new(seeds: &[u64]) -> Kit {
    let dev = seeds.iter().map(|s| (*s, read_developed(&develop_mem(&raw_bytes(*s, Health::Good)).expect("develop fixture")).expect("read developed fixture").px)).collect();
    Kit { dev }
  }
  /// Is `bytes` the complete result of `cmd` on the good input with this seed?
  pub fn complete(&self, cmd: Cmd, seed: u64, bytes: &[u8]) -> Result<(), String> {
    match cmd {
      Cmd::Extract => {
        if bytes == original(seed) {
          Ok(())
        } else {
          Err(format!("{} bytes that are not the embedded original ({} bytes)", bytes.len(), original(seed).len()))
        }
      }
      Cmd::Process => {
        let i = read_developed(bytes)?;
        if i.px != self.dev[&seed] {
          return Err("developed pixels differ from the input's".into());
        }
        Ok(())
      }
      Cmd::Convert => {
        let d = rd::read(bytes)?;
        cmp_pixels(&spec(seed), &d, true)?;
        let blob = d.root.get(50828).ok_or("no embedded original")?;
        let V::Undefined(b) = blob else { return Err("embedded original has wrong type".into()) };
        if super::c05::ref_restore(b)? != raw_bytes(seed, Health::Good) {
          return Err("embedded original differs from the input".into());
        }
        Ok(())
      }
      Cmd::Makedng => {
        let d = rd::read(bytes)?;
        cmp_pixels(&spec(seed), &d, true)
      }
    }
  }
}
