//! Shared comparison of a produced DNG against the ground-truth specification.
use crate::fix::*;
use crate::refs::dng as rd;
#[allow(unused_imports)]
use crate::refs::tiff::V;
use rawler::decoders::RawDecodeParams;
use rawler::dng::convert::{ConvertParams, convert_raw_source};
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DNG_VERSION_V1_4, DngCompression, DngPhotometricConversion};
use rawler::rawimage::RawPhotometricInterpretation;
use rawler::rawsource::RawSource;
use rawler::{RawImage, RawImageData};
use std::io::Cursor;

pub const CROPS: [CropMode; 3] = [CropMode::Best, CropMode::ActiveArea, CropMode::None];

pub fn write_api(spec: &Spec, crop: CropMode, comp: DngCompression, pred: u8, root: bool) -> Result<Vec<u8>, String> {
  let img = spec.raw_image();
  let mut buf = Cursor::new(Vec::new());
  {
    let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
    let mut raw = if root { dng.subframe_on_root(0) } else { dng.subframe(0) };
    raw.raw_image(&img, crop, comp, DngPhotometricConversion::Original, pred).map_err(|e| e.to_string())?;
    raw.finalize().map_err(|e| e.to_string())?;
    dng.load_base_tags(&img).map_err(|e| e.to_string())?;
    dng.close().map_err(|e| e.to_string())?;
  }
  Ok(buf.into_inner())
}

pub fn params(crop: CropMode, comp: DngCompression, pred: u8) -> ConvertParams {
  ConvertParams { embedded: false, compression: comp, crop, predictor: pred, preview: false, thumbnail: false, ..Default::default() }
}

pub fn convert_bytes(src: &[u8], p: &ConvertParams) -> Result<Vec<u8>, String> {
  let mut out = Cursor::new(Vec::new());
  convert_raw_source(&RawSource::new_from_slice(src), &mut out, "in.dng", p).map_err(|e| format!("{e:?}"))?;
  Ok(out.into_inner())
}

pub fn own_decode(src: &[u8]) -> Result<RawImage, String> {
  rawler::decode(&RawSource::new_from_slice(src), &RawDecodeParams::default()).map_err(|e| format!("{e:?}"))
}

/// expected u16 value of a float sample stored through the integer path: within one unit of v*65535
fn float_int_ok(f: f32, got: u32) -> bool {
  ((f.clamp(0.0, 1.0) as f64 * 65535.0) - got as f64).abs() <= 1.0
}

pub fn cmp_pixels(spec: &Spec, d: &rd::Dng, lossless: bool) -> Result<(), String> {
  if (d.width, d.height, d.cpp) != (spec.w, spec.h, spec.cpp()) {
    return Err(format!("dimensions {}x{}x{} != {}x{}x{}", d.width, d.height, d.cpp, spec.w, spec.h, spec.cpp()));
  }
  let pm = match spec.kind {
    Kind::Cfa(_) => 32803,
    Kind::Linear(_) => 34892,
    Kind::Gray => 1,
  };
  if d.photometric != pm {
    return Err(format!("photometric {} != {pm}", d.photometric));
  }
  match (&spec.data, &d.px) {
    (Data::U(a), rd::Px::U(b)) => {
      if let Some(k) = (0..a.len()).find(|k| a[*k] as u32 != b[*k]) {
        return Err(format!("sample {k} (x {}, y {}): {} instead of {}", k % (spec.w * spec.cpp()), k / (spec.w * spec.cpp()), b[k], a[k]));
      }
    }
    (Data::F(a), rd::Px::F(b)) => {
      if let Some(k) = (0..a.len()).find(|k| a[*k].to_bits() != b[*k]) {
        return Err(format!("float sample {k}: {} instead of {}", f32::from_bits(b[k]), a[k]));
      }
    }
    (Data::F(a), rd::Px::U(b)) if lossless => {
      if let Some(k) = (0..a.len()).find(|k| !float_int_ok(a[*k], b[*k])) {
        return Err(format!("scaled float sample {k}: {} for {}", b[k], a[k]));
      }
    }
    _ => return Err("sample format changed".into()),
  }
  Ok(())
}

pub fn cmp_own_pixels(spec: &Spec, img: &RawImage, lossless: bool) -> Result<(), String> {
  if (img.width, img.height, img.cpp) != (spec.w, spec.h, spec.cpp()) {
    return Err(format!("own decoder: dimensions {}x{}x{}", img.width, img.height, img.cpp));
  }
  match (&spec.data, &img.data) {
    (Data::U(a), RawImageData::Integer(b)) if a == b => Ok(()),
    (Data::U(a), RawImageData::Integer(b)) => match (0..a.len().min(b.len())).find(|k| a[*k] != b[*k]) {
      Some(k) => Err(format!("own decoder: sample {k} is {} instead of {}", b[k], a[k])),
      None => Err(format!("own decoder: {} samples instead of {}", b.len(), a.len())),
    },
    (Data::F(a), RawImageData::Float(b)) if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()) => Ok(()),
    (Data::F(a), RawImageData::Integer(b)) if lossless && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| float_int_ok(*x, *y as u32)) => Ok(()),
    _ => Err("own decoder: sample format or values differ".into()),
  }
}

fn rect_of(spec: &Spec, crop: CropMode) -> ([usize; 4], Option<[usize; 4]>) {
  let full = [0, 0, spec.w, spec.h];
  match crop {
    CropMode::None => (full, None),
    CropMode::ActiveArea => {
      let a = spec.active.unwrap_or(full);
      (a, Some(a))
    }
    CropMode::Best => {
      let a = spec.active.unwrap_or(full);
      (a, Some(spec.crop.unwrap_or(a)))
    }
  }
}

fn close(a: f64, b: f64, tol: f64) -> bool {
  (a - b).abs() <= tol
}

/// DNG tags against the specification, for the given crop mode.
pub fn cmp_meta(spec: &Spec, d: &rd::Dng, crop: CropMode, float_scaled: bool) -> Result<(), String> {
  let (act, crp) = rect_of(spec, crop);
  let aa = match d.raw.get(50829) {
    Some(v) => v.us().iter().map(|x| *x as usize).collect::<Vec<_>>(),
    None => vec![0, 0, spec.h, spec.w],
  };
  if aa != vec![act[1], act[0], act[1] + act[3], act[0] + act[2]] {
    return Err(format!("ActiveArea {aa:?}, expected rectangle {act:?}"));
  }
  let got_crop = match (d.raw.get(50719), d.raw.get(50720)) {
    (Some(o), Some(s)) => {
      let (o, s) = (o.fs(), s.fs());
      Some([o[0] as usize + aa[1], o[1] as usize + aa[0], s[0] as usize, s[1] as usize])
    }
    _ => None,
  };
  if got_crop != crp {
    return Err(format!("default crop {got_crop:?}, expected {crp:?}"));
  }
  if let Kind::Cfa(p) = &spec.kind {
    let dim = d.raw.get(33421).ok_or("no CFARepeatPatternDim")?.us();
    let pat = match d.raw.get(33422).ok_or("no CFAPattern")? {
      V::Byte(b) => b.clone(),
      v => v.us().iter().map(|x| *x as u8).collect(),
    };
    let (rows, cols) = (dim[0] as usize, dim[1] as usize);
    if pat.len() != rows * cols || rows * cols != p.len() {
      return Err(format!("CFA pattern {} entries for {rows}x{cols}", pat.len()));
    }
    let planes = d.raw.get(50710).map(|v| v.us()).unwrap_or(vec![0, 1, 2]);
    if planes != vec![0, 1, 2] {
      return Err(format!("CFAPlaneColor {planes:?}"));
    }
    for y in 0..rows {
      for x in 0..cols {
        let e = spec.color(act[0] + x, act[1] + y).unwrap();
        if pat[y * cols + x] != e {
          return Err(format!("CFA colour at active ({x},{y}) is {} expected {e} (active origin {},{})", pat[y * cols + x], act[0], act[1]));
        }
      }
    }
  }
  // black level, relative to the active area
  let dim = d.raw.get(50713).map(|v| v.us()).unwrap_or(vec![1, 1]);
  let bl = d.raw.get(50714).map(|v| v.fs()).unwrap_or(vec![0.0; (dim[0] * dim[1]) as usize * spec.cpp()]);
  let (rows, cols) = (dim[0] as usize, dim[1] as usize);
  if bl.len() != rows * cols * spec.cpp() {
    return Err(format!("BlackLevel has {} values for {rows}x{cols}x{}", bl.len(), spec.cpp()));
  }
  for y in 0..spec.black_dim.1 * rows {
    for x in 0..spec.black_dim.0 * cols {
      for c in 0..spec.cpp() {
        let e = spec.black_at(act[0] + x, act[1] + y, c);
        let g = bl[((y % rows) * cols + x % cols) * spec.cpp() + c];
        if !close(e, g, 1e-6 * e.max(1.0)) {
          return Err(format!("black level at active ({x},{y},{c}) is {g}, expected {e}"));
        }
      }
    }
  }
  let wl = d.raw.get(50717).map(|v| v.fs()).ok_or("no WhiteLevel")?;
  let we: Vec<f64> = spec.white.iter().map(|v| if float_scaled { 65535.0 } else { *v as f64 }).collect();
  if wl != we {
    return Err(format!("white level {wl:?}, expected {we:?}"));
  }
  if !matches!(spec.kind, Kind::Gray | Kind::Linear(1)) {
    if !spec.wb[0].is_nan() {
      let n = d.root.get(50728).ok_or("no AsShotNeutral")?.fs();
      if n.len() != 3 {
        return Err(format!("AsShotNeutral has {} values", n.len()));
      }
      for i in 0..3 {
        let e = 1.0 / spec.wb[i] as f64;
        if !close(n[i], e, 2e-5 + e * 1e-5) {
          return Err(format!("AsShotNeutral[{i}] {} expected {e}", n[i]));
        }
      }
    } else if d.root.get(50728).is_some_and(|v| v.fs().iter().any(|x| !x.is_finite() || *x <= 0.0)) {
      return Err("AsShotNeutral written with unusable values".into());
    }
    // matrices: every source matrix (at most two) present with its illuminant, nothing else
    let mut got: Vec<(u16, Vec<f64>)> = vec![];
    for k in 0..2u16 {
      if let Some(m) = d.root.get(50721 + k) {
        let illu = d.root.u(50778 + k).ok_or("matrix without illuminant")? as u16;
        got.push((illu, m.fs()));
      }
    }
    if got.len() != spec.matrices.len().min(2) {
      return Err(format!("{} colour matrices written, source has {}", got.len(), spec.matrices.len()));
    }
    for (illu, m) in &got {
      let Some((_, e)) = spec.matrices.iter().find(|s| s.0 == *illu) else { return Err(format!("matrix for illuminant {illu} was not in the source")) };
      if e.len() != m.len() || e.iter().zip(m).any(|(a, b)| !close(*a as f64, *b, 2.1e-4)) {
        return Err(format!("matrix for illuminant {illu}: {m:?} expected {e:?}"));
      }
    }
    if got.len() == 2 && got[0].0 == got[1].0 {
      return Err("same illuminant twice".into());
    }
  }
  Ok(())
}

/// own decoder's view of geometry and levels in absolute coordinates
pub fn cmp_own_meta(spec: &Spec, img: &RawImage, crop: CropMode, float_scaled: bool) -> Result<(), String> {
  let (act, crp) = rect_of(spec, crop);
  let r = |x: &Option<rawler::imgop::Rect>| x.map(|r| [r.p.x, r.p.y, r.d.w, r.d.h]);
  if r(&img.active_area).unwrap_or([0, 0, spec.w, spec.h]) != act {
    return Err(format!("own decoder: active area {:?} expected {act:?}", img.active_area));
  }
  if r(&img.crop_area) != crp {
    return Err(format!("own decoder: crop {:?} expected {crp:?}", img.crop_area));
  }
  match (&spec.kind, &img.photometric) {
    (Kind::Cfa(_), RawPhotometricInterpretation::Cfa(c)) => {
      for y in 0..12.min(spec.h) {
        for x in 0..12.min(spec.w) {
          if c.cfa.color_at(y, x) != spec.color(x, y).unwrap() as usize {
            return Err(format!("own decoder: CFA colour at sensor ({x},{y}) is {} expected {}", c.cfa.color_at(y, x), spec.color(x, y).unwrap()));
          }
        }
      }
    }
    (Kind::Linear(_), RawPhotometricInterpretation::LinearRaw) | (Kind::Gray, RawPhotometricInterpretation::BlackIsZero) => {}
    _ => return Err("own decoder: photometric changed".into()),
  }
  let b = &img.blacklevel;
  for y in 0..spec.black_dim.1 * b.height {
    for x in 0..spec.black_dim.0 * b.width {
      for c in 0..spec.cpp() {
        let e = spec.black_at(x, y, c);
        let g = b.levels[((y % b.height) * b.width + x % b.width) * b.cpp + c].as_f32() as f64;
        if !close(e, g, 1e-4 * e.max(1.0)) {
          return Err(format!("own decoder: black level at sensor ({x},{y},{c}) is {g}, expected {e}"));
        }
      }
    }
  }
  let we: Vec<u32> = spec.white.iter().map(|v| if float_scaled { 65535 } else { *v }).collect();
  if img.whitelevel.0 != we {
    return Err(format!("own decoder: white level {:?} expected {we:?}", img.whitelevel.0));
  }
  if !matches!(spec.kind, Kind::Gray | Kind::Linear(1)) {
    if !spec.wb[0].is_nan() {
      for i in 0..3 {
        if !close(img.wb_coeffs[i] as f64, spec.wb[i] as f64, 1e-4 * (1.0 + spec.wb[i] as f64 * spec.wb[i] as f64)) {
          return Err(format!("own decoder: white balance {:?} expected {:?}", img.wb_coeffs, spec.wb));
        }
      }
    }
    if img.color_matrix.len() != spec.matrices.len().min(2) {
      return Err(format!("own decoder: {} colour matrices, source has {}", img.color_matrix.len(), spec.matrices.len()));
    }
    for (illu, m) in &img.color_matrix {
      let Some((_, e)) = spec.matrices.iter().find(|s| s.0 == u16::from(*illu)) else { return Err(format!("own decoder: matrix for illuminant {illu:?} was not in the source")) };
      if e.len() != m.len() || e.iter().zip(m).any(|(a, b)| !close(*a as f64, *b as f64, 2.1e-4)) {
        return Err(format!("own decoder: matrix for illuminant {illu:?}: {m:?} expected {e:?}"));
      }
    }
  }
  Ok(())
}
