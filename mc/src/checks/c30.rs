//! C30: the previews of a converted file show the picture of the source.
use super::c18;
use super::c25::{l, ljpeg, s, shorts};
use super::c26::{exif, merge, raw_dir};
use super::dngcmp::convert_bytes;
use crate::Level;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::files::*;
use crate::refs::tiff::*;
use crate::refs::{boxes, dng as rd, rw2};
use rawler::decoders::RawDecodeParams;
use rawler::dng::convert::ConvertParams;
use rawler::dng::{CropMode, DngCompression};
use rawler::rawsource::RawSource;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one source file with a known picture embedded (or none), converted by the real conversion with a choice of preview and thumbnail. An independent TIFF reader must find exactly the pictures asked for, described as they are stored; preview and thumbnail have the proportions of the source's picture within the documented sizes and show it at every position (each value within the range of the corresponding neighbourhood of the source picture). Non-trivial: a preview or a thumbnail is written.",
    bounds: "sources DNG (RGB, grey, JPEG, strips, 16 bit), NEF (one or more previews, small picture only), CR2 (JPEG, uncompressed), CR3, ARW, PEF (both maker notes, both origins, borders), RAF, RW2, 3FR (JPEG, uncompressed), and no picture (developed from mosaics, colour and grey images with crop); pictures from 1x1 to 4000x40 and 40x3000; preview and thumbnail on and off; both byte orders and value layouts; damaged pictures",
    assumptions: &["JPEG decoding by the image crate; the preview's JPEG compression may change a value by up to 14 (48 in developed pictures, which have clipped colours)"],
  }
}

#[derive(Clone)]
struct Pic {
  w: usize,
  h: usize,
  px: Vec<u8>,
}

/// Every direction and colour has its own gradient.
fn scene(w: usize, h: usize, n: usize) -> Pic {
  let sl = |m: usize| (170.0 / m as f64).min(3.0);
  let px = (0..w * h)
    .flat_map(|i| {
      let (x, y) = ((i % w) as f64, (i / w) as f64);
      let v = [30.0 + x * sl(w), 230.0 - y * sl(h), 50.0 + (x * sl(w) + y * sl(h)) / 2.0];
      v.map(|v| v as u8).into_iter().take(n).collect::<Vec<_>>()
    })
    .collect();
  Pic { w, h, px }
}
fn jpeg(p: &Pic) -> Vec<u8> {
  let mut o = vec![];
  image::codecs::jpeg::JpegEncoder::new_with_quality(&mut o, 95).encode(&p.px, p.w as u32, p.h as u32, image::ExtendedColorType::Rgb8).unwrap();
  o
}

/// Each value lies in the range of the neighbourhood of the corresponding place.
fn shows(got: &Pic, src: &Pic, skip: &dyn Fn(usize) -> bool, tol: i32) -> Result<(), String> {
  let (rx, ry) = (src.w.div_ceil(got.w).max(1), src.h.div_ceil(got.h).max(1));
  for i in 0..got.w * got.h {
    let (x, y) = (i % got.w, i / got.w);
    let at = |v: usize, n: usize, m: usize| ((v as f64 + 0.5) * m as f64 / n as f64) as usize;
    let (cx, cy) = (at(x, got.w, src.w).min(src.w - 1), at(y, got.h, src.h).min(src.h - 1));
    let (mut lo, mut hi, mut out) = ([255i32; 3], [0i32; 3], false);
    for yy in cy.saturating_sub(ry)..=(cy + ry).min(src.h - 1) {
      for xx in cx.saturating_sub(rx)..=(cx + rx).min(src.w - 1) {
        let j = yy * src.w + xx;
        out |= skip(j);
        for c in 0..3 {
          lo[c] = lo[c].min(src.px[3 * j + c] as i32);
          hi[c] = hi[c].max(src.px[3 * j + c] as i32);
        }
      }
    }
    if out {
      continue;
    }
    for c in 0..3 {
      let v = got.px[3 * i + c] as i32;
      if v < lo[c] - tol || v > hi[c] + tol {
        return Err(format!("value {v} of colour {c} at ({x}, {y}) of {}x{}, the source of {}x{} has {}..{}", got.w, got.h, src.w, src.h, lo[c], hi[c]));
      }
    }
  }
  Ok(())
}
/// Largest size with the same proportions.
fn fit(w: usize, h: usize, mw: usize, mh: usize) -> (usize, usize) {
  let r = (mw as f64 / w as f64).min(mh as f64 / h as f64);
  (((w as f64 * r).round() as usize).max(1), ((h as f64 * r).round() as usize).max(1))
}
fn near(a: (usize, usize), b: (usize, usize)) -> bool {
  a.0.abs_diff(b.0) <= 1 && a.1.abs_diff(b.1) <= 1
}

fn verify(out: &[u8], preview: bool, thumb: bool, src: &Pic, skip: &dyn Fn(usize) -> bool, jpeg: i32) -> Result<(), String> {
  let mut t = Tiff::open(out)?;
  let chain = t.chain()?;
  if chain.len() != 1 {
    return Err(format!("{} directories", chain.len()));
  }
  let root = chain[0].clone();
  let mut subs = vec![];
  if let Some(v) = root.get(330) {
    for o in v.us() {
      subs.push(t.dir(o as u32)?);
    }
  }
  let mut all: Vec<&Dir> = subs.iter().collect();
  all.push(&root);
  let raws = all.iter().filter(|d| d.u(254) == Some(0)).count();
  let prevs: Vec<&Dir> = subs.iter().filter(|d| d.u(254) == Some(1)).collect();
  if raws != 1 || prevs.len() != preview as usize || subs.len() != prevs.len() + (root.u(254) == Some(1)) as usize || (root.u(254) == Some(1)) != thumb {
    return Err(format!("{raws} raw images, {} previews, thumbnail {:?} for preview {preview}, thumbnail {thumb}", prevs.len(), root.u(254)));
  }
  let dim = |d: &Dir| (d.u(256).unwrap_or(0) as usize, d.u(257).unwrap_or(0) as usize);
  if preview {
    let p = prevs[0];
    let want = if src.w > 1024 { fit(src.w, src.h, 1024, 768) } else { (src.w, src.h) };
    let (o, n) = (p.u(273).ok_or("no preview data")? as usize, p.u(279).ok_or("no preview size")? as usize);
    let b = out.get(o..o + n).ok_or("preview outside of the file")?;
    if b.get(..2) != Some(&[0xff, 0xd8]) || b.get(n.saturating_sub(2)..) != Some(&[0xff, 0xd9]) {
      return Err("preview is not one JPEG stream".into());
    }
    let j = image::load_from_memory_with_format(b, image::ImageFormat::Jpeg).map_err(|e| format!("preview: {e}"))?.to_rgb8();
    let d = (j.width() as usize, j.height() as usize);
    if d != dim(p) || !near(d, want) || (src.w <= 1024 && d != want) {
      return Err(format!("preview of {d:?}, described as {:?}, for {want:?}", dim(p)));
    }
    if p.u(259) != Some(7) || p.u(277) != Some(3) || p.get(258).map(|v| v.us()) != Some(vec![8, 8, 8]) || p.u(262) != Some(6) || p.u(278) != Some(d.1 as u64) {
      return Err("preview is not described as a JPEG picture of three colours".into());
    }
    shows(&Pic { w: d.0, h: d.1, px: j.into_raw() }, src, skip, jpeg).map_err(|e| format!("preview: {e}"))?;
  }
  if thumb {
    let (w, h) = dim(&root);
    if !near((w, h), fit(src.w, src.h, 240, 120)) || w > 240 || h > 120 {
      return Err(format!("thumbnail of {w}x{h} for {}x{}", src.w, src.h));
    }
    if root.u(277) != Some(3) || root.u(262) != Some(2) || root.get(258).map(|v| v.us()) != Some(vec![8, 8, 8]) || root.u(279).is_none() {
      return Err("thumbnail is not described as RGB".into());
    }
    let rd::Px::U(px) = rd::pixels_of(&t, &root, w, h, 3, root.u(259).unwrap_or(0), 8, 1)? else { return Err("thumbnail of floats".into()) };
    shows(&Pic { w, h, px: px.iter().map(|v| *v as u8).collect() }, src, skip, 2).map_err(|e| format!("thumbnail: {e}"))?;
  }
  Ok(())
}

fn par(preview: bool, thumbnail: bool) -> ConvertParams {
  ConvertParams { embedded: false, compression: DngCompression::Lossless, crop: CropMode::Best, predictor: 1, preview, thumbnail, ..Default::default() }
}
fn case(ctx: &Ctx, form: &str, i: usize, file: &[u8], src: &Pic, skip: &dyn Fn(usize) -> bool, opts: usize) {
  let (p, t) = (opts & 1 == 1, opts & 2 == 2);
  ctx.case(fp(&(form, i, opts)), p || t);
  let js = || json!({"form": form, "picture": [src.w, src.h], "preview": p, "thumbnail": t, "case": i});
  ctx.sample(form, js);
  let r = ctx.guard(|| convert_bytes(file, &par(p, t))).and_then(|r| r).and_then(|o| {
    ctx.outcome(fp(&o));
    verify(&o, p, t, src, skip, if form == "developed" { 48 } else { 14 })
  });
  if let Err(e) = r {
    ctx.fail(form, format!("{}x{} preview {p} thumbnail {t}: {e}", src.w, src.h), js());
  }
}

// ---------------------------------------------------------------- sources

const SIZES: [(usize, usize); 16] = [(1, 1), (7, 5), (5, 7), (240, 120), (120, 240), (241, 121), (1, 300), (300, 1), (1023, 8), (1024, 768), (1025, 769), (1025, 3), (3, 1025), (2000, 1500), (40, 3000), (4000, 40)];

fn plain(p: &Pic, n: usize, bits: usize, be: bool) -> Node {
  let d: Vec<u8> = match bits {
    8 => p.px.clone(),
    _ => p.px.iter().flat_map(|v| { let w = *v as u16 * 257; if be { w.to_be_bytes() } else { w.to_le_bytes() } }).collect(),
  };
  Node::new().v(254, l(1)).v(256, l(p.w)).v(257, l(p.h)).v(258, V::Short(vec![bits as u16; n])).v(259, s(1)).v(262, s(if n == 1 { 1 } else { 2 })).v(277, s(n)).v(278, l(p.h)).v(279, l(d.len())).item(273, Item::Blobs(vec![d]))
}
fn dng(form: usize, p: &Pic, i: usize, be: bool) -> Vec<u8> {
  let spec = Spec::new(36, 24, Kind::Cfa("RGGB".into()), 12, 53);
  let raw = raw_node(&spec, &Layout { be, ..Default::default() });
  let mut root = root_tags(&spec);
  root.set(0x112, s(1 + i % 8));
  let mut pv = match form {
    0 => plain(p, 3, 8, be),
    1 => plain(p, 1, 8, be),
    2 => plain(p, 3, 16, be),
    _ => plain(p, 3, 8, be),
  };
  if form == 3 {
    let j = jpeg(p);
    pv.set(259, s(7));
    pv.set(262, s(6));
    pv.set(279, l(j.len()));
    pv = pv.item(273, Item::Blobs(vec![j]));
  }
  if form == 4 {
    let rows = p.h.div_ceil(3);
    let c: Vec<Vec<u8>> = p.px.chunks(rows * p.w * 3).map(|c| c.to_vec()).collect();
    pv.set(278, l(rows));
    pv.set(279, V::Long(c.iter().map(|c| c.len() as u32).collect()));
    pv = pv.item(273, Item::Blobs(c));
  }
  let subs = if i % 2 == 0 { vec![raw, pv] } else { vec![pv, raw] };
  root.items.insert(330, Item::Dirs(subs, 4));
  build(&[root], be, false, 0)
}
fn cam_root(make: &str, model: &str) -> Node {
  Node::new().v(0x10f, ascii(make)).v(0x110, ascii(model)).v(0x112, s(1))
}
fn raw16(w: usize, h: usize, bps: usize) -> Node {
  raw_dir(w, h, bps, 1, (0..w * h).flat_map(|i| ((i * 37 % 4000) as u16).to_le_bytes()).collect())
}
fn jsub(j: &[u8]) -> Node {
  Node::new().v(0xfe, l(1)).v(0x103, s(6)).item(0x201, Item::Blobs(vec![j.to_vec()])).v(0x202, l(j.len()))
}
/// A short picture of another scene.
fn other() -> Vec<u8> {
  jpeg(&Pic { w: 8, h: 6, px: vec![9; 8 * 6 * 3] })
}
const FORMS: [&str; 13] = ["NEF", "NEF with several", "NEF small only", "CR2", "CR2 uncompressed", "CR3", "ARW", "PEF", "PEF from the file's start", "RAF", "RW2", "3FR", "3FR uncompressed"];
/// The picture must be the stored one: `pic` is decoded from what is written into the file.
fn camera(form: usize, p: &Pic, data: &[u8], borders: Option<&[u8]>, be: bool, i: usize) -> Vec<u8> {
  let (vf, gap) = (i % 2 == 1, i % 3);
  let strip = |mut r: Node, unc: bool| {
    let d = if unc { p.px.clone() } else { data.to_vec() };
    r = r.v(0x100, l(p.w)).v(0x101, l(p.h)).v(0x102, V::Short(vec![8; 3])).v(0x103, s(if unc { 1 } else { 6 })).v(0x106, s(2)).v(0x115, s(3)).v(0x116, l(p.h)).v(0x117, l(d.len()));
    r.item(0x111, Item::Blobs(vec![d]))
  };
  match form {
    0..3 => {
      let raw = raw16(64, 40, 14);
      let root = cam_root("NIKON CORPORATION", "NIKON D6").v(0xfe, l(1));
      let sub = match form {
        0 => vec![jsub(data), raw],
        1 => [[jsub(&other()), raw.clone(), jsub(data)], [jsub(data), jsub(&other()), raw]][i % 2].to_vec(),
        _ => vec![raw],
      };
      let root = if form == 2 { strip(root, true) } else { strip(root, true).v(0x100, s(16)) };
      let root = root.item(0x14a, Item::Dirs(sub, 4));
      let mn = vec![(0x0c, V::Rational(vec![(2, 1), (3, 2), (1, 1), (1, 1)])), (0x1d, ascii("2004567"))];
      tiff(Camera { root, exif: exif(), mn: Some((Mn::Nikon, mn, vec![])), chain: vec![] }, be, vf, gap)
    }
    3 | 4 => {
      let mut st = vec![0x1234u16; 50];
      (st[22], st[46]) = (0, 0);
      let root = strip(cam_root("Canon", "Canon EOS-1DS"), form == 4);
      let thumb = Node::new().item(0x201, Item::Blobs(vec![other()])).v(0x202, l(other().len()));
      let mid = Node::new().v(0x100, s(3)).v(0x101, s(1)).v(0x102, V::Short(vec![16; 3]));
      let px: Vec<u16> = (0..16 * 8).map(|i| (i * 29 % 3000) as u16).collect();
      let rd = ljpeg(&px, 16, 4, 2, 12, 1);
      let raw = Node::new().v(0x103, s(6)).v(0x117, l(rd.len())).item(0x111, Item::Blobs(vec![rd])).v(0xc5d8, l(1)).v(0xc5e0, l(3));
      tiff(Camera { root, exif: exif(), mn: Some((Mn::Plain, vec![(1, V::Short(st))], vec![])), chain: vec![thumb, mid, raw] }, be, vf, gap)
    }
    5 => {
      let (im, hdr, blobs) = super::c17::tiny();
      boxes::cr3_preview(&super::c17::exif_parts(4), &im, hdr, &blobs, 0, data)
    }
    6 => super::c25::arw_tags(Node::new().item(0x201, Item::Blobs(vec![data.to_vec()])).v(0x202, l(data.len())), be, i),
    7 | 8 => {
      const PLACE: u32 = 0x7a7b_7c7d;
      let kind = if i % 2 == 0 { Mn::Head(b"AOC\0") } else { Mn::Pentax };
      let mut mn = vec![(1, shorts(&[3])), (2, shorts(&[640, 480])), (3, l(data.len())), (4, V::Long(vec![PLACE])), (0x201, shorts(&[9000, 8192, 8192, 12000]))];
      if let Some(b) = borders {
        mn.push((0x3e, V::Byte(b.to_vec())));
      }
      let root = merge(cam_root("PENTAX", "PENTAX K-5"), raw16(80, 32, 12));
      let mut f = tiff(Camera { root, exif: exif(), mn: Some((kind, mn, vec![])), chain: vec![] }, be, vf, gap);
      let h: &[u8] = if i % 2 == 0 { b"AOC\0" } else { b"PENTAX \0" };
      let at = f.windows(h.len()).position(|w| w == h).expect("maker note");
      let place = f.len() - if form == 7 { at } else { 0 };
      patch4(&mut f, PLACE, place as u32, be);
      f.extend(data);
      // what is found at the place of the other origin is no picture
      f.extend(vec![0x5a; 7]);
      f
    }
    9 => super::c26b::raf_picture(data, be, i),
    10 => rw2::file(rw2::root("DC-G9", 80, 60, 12, 4).v(0x2e, V::Undefined(data.to_vec())), vec![0; 0x4000], true, vf, gap),
    _ => {
      let root = cam_root("Hasselblad", "X2D 100C").v(0xfe, l(1)).v(0xc628, V::Rational(vec![(1, 2), (1, 1), (1, 2)])).item(0x14a, Item::Dirs(vec![raw16(80, 40, 16).v(0xc61d, s(60000)).v(0xc61a, s(100))], 4));
      tiff(Camera { root: strip(root, form == 12), exif: exif(), mn: None, chain: vec![] }, be, vf, gap)
    }
  }
}

fn grey(p: &Pic) -> Pic {
  Pic { w: p.w, h: p.h, px: p.px.iter().flat_map(|v| [*v; 3]).collect() }
}
fn decoded(j: &[u8]) -> Pic {
  let d = image::load_from_memory_with_format(j, image::ImageFormat::Jpeg).unwrap().to_rgb8();
  Pic { w: d.width() as usize, h: d.height() as usize, px: d.into_raw() }
}

pub fn run(ctx: &Ctx) {
  let none = |_: usize| false;
  // DNG sources
  let rx = [5, SIZES.len(), 2, ctx.pick(2, 8)];
  ctx.par("DNG", space(&rx), |i| {
    let d = digits(i, &rx);
    let ((w, h), be) = (SIZES[d[1]], d[2] == 1);
    let p = scene(w, h, if d[0] == 1 { 1 } else { 3 });
    let src = match d[0] {
      1 => grey(&p),
      3 => decoded(&jpeg(&p)),
      _ => p.clone(),
    };
    let f = dng(d[0], &p, i + d[3], be);
    for o in if i % 8 == 0 { 0..4 } else { 3..4 } {
      case(ctx, ["DNG RGB", "DNG grey", "DNG 16 bit", "DNG JPEG", "DNG strips"][d[0]], i, &f, &src, &none, o);
    }
  });
  // cameras
  let rx = [FORMS.len(), SIZES.len(), 2, ctx.pick(2, 12)];
  ctx.par("cameras", space(&rx), |i| {
    let d = digits(i, &rx);
    let ((w, h), be) = (SIZES[d[1]], d[2] == 1);
    let form = FORMS[d[0]];
    let p = scene(w, h, 3);
    let j = jpeg(&p);
    let unc = matches!(d[0], 2 | 4 | 12);
    let src = if unc { p.clone() } else { decoded(&j) };
    let f = camera(d[0], &p, &j, None, be, d[3] + d[1]);
    for o in if i % 16 == 0 { 0..4 } else { 3..4 } {
      case(ctx, form, i, &f, &src, &none, o);
    }
    // the decoder itself
    let r = ctx.guard(|| {
      let s = RawSource::new_from_slice(&f);
      let dec = rawler::get_decoder(&s).map_err(|e| format!("{e:?}"))?;
      let x = dec.preview_image(&s, &RawDecodeParams::default()).map_err(|e| format!("{e:?}"))?.ok_or("no preview")?.to_rgb8();
      if (x.width() as usize, x.height() as usize) != (src.w, src.h) || x.as_raw() != &src.px {
        return Err(format!("picture of {}x{} differs", x.width(), x.height()));
      }
      // no second image, so no second picture
      match dec.preview_image(&s, &RawDecodeParams { image_index: 1, ..Default::default() }) {
        Ok(Some(_)) => Err("a preview for a second image".into()),
        _ => Ok(()),
      }
    });
    if let Err(e) = r.and_then(|r| r) {
      ctx.fail(&format!("decoder {form}"), e, json!({"form": form, "picture": [w, h], "bigEndian": be}));
    }
  });
  // black borders of Pentax previews
  let rx = [5, 5, 5, 5, 2];
  ctx.par("PEF borders", space(&rx), |i| {
    let d = digits(i, &rx);
    let b: Vec<u8> = (0..4).map(|k| [0, 1, 2, 7, 11][d[k]]).collect();
    let p = scene(40, 30, 3);
    let j = jpeg(&p);
    let full = decoded(&j);
    // top, bottom, left, right
    let [t, bo, le, ri] = [0, 1, 2, 3].map(|k| b[k] as usize);
    let (w, h) = (40 - le - ri, 30 - t - bo);
    let px = (0..w * h).flat_map(|q| { let at = ((q / w + t) * 40 + q % w + le) * 3; full.px[at..at + 3].to_vec() }).collect();
    let f = camera(7 + d[4], &p, &j, Some(&b), i % 2 == 1, i / 2);
    case(ctx, "PEF borders", i, &f, &Pic { w, h, px }, &none, 3);
  });
  // developed pictures
  let kinds = [Kind::Cfa("RGGB".into()), Kind::Cfa("GBRG".into()), Kind::Linear(3), Kind::Gray];
  let sizes = [(24usize, 18usize), (300, 40), (40, 300), (1100, 20), (9, 7)];
  let rx = [kinds.len(), sizes.len(), 3, ctx.pick(2, 6)];
  ctx.par("developed", space(&rx), |i| {
    let d = digits(i, &rx);
    let (w, h) = sizes[d[1]];
    let mut sp = Spec::new(w, h, kinds[d[0]].clone(), 12, 31 + d[3] as u64);
    // a smooth scene
    let n = sp.cpp();
    let (b, top) = (sp.black[0].0 / sp.black[0].1.max(1), sp.white[0]);
    if let Data::U(px) = &mut sp.data {
      for (k, v) in px.iter_mut().enumerate() {
        let (x, y) = ((k / n % w) as f64 / w as f64, (k / n / w) as f64 / h as f64);
        let f = [0.15 + 0.5 * x, 0.7 - 0.4 * y, 0.2 + 0.3 * x * y][if d[3] % 2 == 0 { 0 } else { 1 }] + [0.0, 0.05, 0.1][k % n];
        *v = (b as f64 + f * (top - b) as f64 * 0.9) as u32 as _;
      }
    }
    if d[2] > 0 && w > 20 && h > 12 {
      sp.active = Some([2, 2, w - 6, h - 4]);
      sp.crop = Some([4, 4, w - 10, h - 8]);
    } else {
      sp.active = None;
      sp.crop = None;
    }
    sp.orientation = 1 + (i % 8) as u16;
    let be = d[2] == 1;
    let root = dng_node(&sp, &Layout { be, ..Default::default() });
    let f = build(&[root], be, false, 0);
    let wt = c18::want(&sp, &c18::ALL, None);
    let px: Vec<u8> = wt.v.iter().map(|v| (v.clamp(0.0, 1.0) * 255.0).round() as u8).collect();
    let m = wt.n;
    let src = Pic { w: wt.w, h: wt.h, px: if m == 1 { px.iter().flat_map(|v| [*v; 3]).collect() } else { px } };
    let skip = |j: usize| (0..m).any(|c| wt.edge[j * m + c]);
    for o in if i % 4 == 0 { 0..4 } else { 3..4 } {
      case(ctx, "developed", i, &f, &src, &skip, o);
    }
  });
  damaged(ctx);
}

/// A picture that cannot be read does not touch the raw image.
fn damaged(ctx: &Ctx) {
  let p = scene(40, 30, 3);
  let j = jpeg(&p);
  let mut all: Vec<(usize, Vec<u8>, Option<Vec<u8>>)> = vec![];
  // (a RAF file has its metadata in the picture)
  for form in [0, 1, 3, 5, 6, 7, 8, 10, 11] {
    for n in [2usize, 3, 20, 100, j.len() / 2, j.len() - 2] {
      all.push((form, j[..n.min(j.len())].to_vec(), None));
    }
    for k in 0..ctx.pick(40, 400) {
      let mut b = j.clone();
      let at = 2 + k * 7 % (b.len() - 2);
      b[at] ^= [0xff, 1, 0x80][k % 3];
      all.push((form, b, None));
    }
    all.push((form, vec![0xff; 500], None));
    all.push((form, vec![0; 500], None));
  }
  for form in [7, 8] {
    for n in 0..7 {
      for v in [0u8, 1, 14, 15, 16, 20, 30, 40, 41, 255] {
        all.push((form, j.clone(), Some(vec![v; n])));
        all.push((form, j.clone(), Some((0..n).map(|k| if k == 2 { v } else { 0 }).collect())));
        all.push((form, j.clone(), Some((0..n).map(|k| if k == 1 { v } else { 0 }).collect())));
      }
    }
  }
  ctx.par("damaged", all.len(), |i| {
    let (form, data, borders) = &all[i];
    ctx.case(fp(&("damaged", i)), true);
    let f = camera(*form, &p, data, borders.as_deref(), i % 2 == 1, i / 2);
    let js = || json!({"form": FORMS[*form], "borders": borders, "case": i});
    let r = ctx.guard(|| convert_bytes(&f, &par(true, true))).and_then(|r| r).and_then(|o| {
      ctx.outcome(fp(&o.len()));
      let a = rd::read(&o).map_err(|e| format!("output: {e}"))?;
      let b = rd::read(&convert_bytes(&f, &par(false, false))?)?;
      if (a.width, a.height) != (b.width, b.height) || fp(&format!("{:?}", a.px)) != fp(&format!("{:?}", b.px)) {
        return Err("the raw image differs from the one without previews".into());
      }
      Ok(())
    });
    if let Err(e) = r {
      ctx.fail(&format!("damaged {}", FORMS[*form]), e, js());
    }
  });
}
