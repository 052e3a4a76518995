//! C25: complete camera files of the vendors decode to the stored samples, levels, white balance and areas.
use crate::Level;
use crate::ctx::*;
use crate::refs::files::*;
use crate::refs::ljpeg as lj;
use crate::refs::tiff::{Item, Node, V, ascii};
use crate::refs::vendor::Im;
use rawler::RawImageData;
use rawler::decoders::RawDecodeParams;
use rawler::rawsource::RawSource;
use serde_json::{Value, json};

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one complete camera file from an independent writer (container, maker note, tags, compression), decoded through the library's decoder for the camera; samples, black and white levels, white balance, colour pattern and recommended area are compared with what was stored. Non-trivial: the samples are not all equal.",
    bounds: "the containers and forms named in the coverage counters; all listed sizes, slice layouts, record versions, byte orders and directory placements",
    assumptions: &["files are laid out as the vendors' cameras write them: maker notes and records of the known versions"],
  }
}

/// What a file must decode to; `None` is not compared.
#[derive(Clone, Default)]
pub struct Want {
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  pub px: Vec<u16>,
  /// least value where a dithered curve leaves a choice
  pub lo: Option<Vec<u16>>,
  pub black: Option<Vec<f32>>,
  pub white: Option<Vec<u32>>,
  pub wb: Option<[f32; 3]>,
  /// x, y, width, height
  pub crop: Option<[usize; 4]>,
  pub active: Option<[usize; 4]>,
  pub cfa: Option<&'static str>,
}

pub fn want(w: usize, h: usize, px: &[u16]) -> Want {
  Want { w, h, cpp: 1, px: px.to_vec(), ..Default::default() }
}

pub fn same(ctx: &Ctx, form: &str, file: &[u8], t: &Want, js: &dyn Fn() -> Value) {
  ctx.case(fp(&(form, file)), t.px.iter().any(|x| *x != t.px[0]));
  ctx.sample(form, js);
  ctx.count(form, 1);
  let r = ctx.guard(|| {
    let src = RawSource::new_from_slice(file);
    let dec = rawler::get_decoder(&src).map_err(|e| format!("decoder: {e:?}"))?;
    let p = RawDecodeParams { image_index: 0 };
    let dummy = dec.raw_image(&src, &p, true).map_err(|e| format!("without samples: {e:?}"))?;
    let img = dec.raw_image(&src, &p, false).map_err(|e| format!("{e:?}"))?;
    if (dummy.width, dummy.height, dummy.cpp) != (img.width, img.height, img.cpp) {
      return Err(format!("{}x{}x{} without samples", dummy.width, dummy.height, dummy.cpp));
    }
    Ok(img)
  });
  let img = match r {
    Ok(Ok(i)) => i,
    Ok(Err(e)) | Err(e) => return ctx.fail(&format!("{form}:error"), e, js()),
  };
  let RawImageData::Integer(got) = &img.data else {
    return ctx.fail(&format!("{form}:type"), "not integer data".into(), js());
  };
  ctx.outcome(fp(got));
  if (img.width, img.height, img.cpp) != (t.w, t.h, t.cpp) || got.len() != t.px.len() {
    return ctx.fail(&format!("{form}:size"), format!("{}x{}x{} ({} samples) for {}x{}x{}", img.width, img.height, img.cpp, got.len(), t.w, t.h, t.cpp), js());
  }
  let bad = |p: usize| t.lo.as_ref().map_or(got[p] != t.px[p], |l| got[p] > t.px[p] || got[p] < l[p]);
  if let Some(p) = (0..got.len()).find(|p| bad(*p)) {
    let n = (0..got.len()).filter(|p| bad(*p)).count();
    let row = t.w * t.cpp;
    return ctx.fail(&format!("{form}:sample"), format!("row {} column {}: {} for stored {}, {n} of {} differ: {:?} for {:?}", p / row, p % row, got[p], t.px[p], got.len(), &got[p.saturating_sub(2)..(p + 6).min(got.len())], &t.px[p.saturating_sub(2)..(p + 6).min(got.len())]), js());
  }
  if let Some(b) = &t.black {
    let g = img.blacklevel.as_vec();
    let g = if g.len() < b.len() && g.iter().all(|x| *x == g[0]) { vec![g[0]; b.len()] } else { g };
    let ok = g == *b || (g.len() > b.len() && b.len() == 1 && g.iter().all(|x| *x == b[0]));
    if !ok {
      return ctx.fail(&format!("{form}:black"), format!("black level {g:?} for stored {b:?}"), js());
    }
  }
  if let Some(w) = &t.white {
    let g = &img.whitelevel.0;
    if !(g == w || (!g.is_empty() && w.len() == 1 && g.iter().all(|x| *x == w[0]))) {
      return ctx.fail(&format!("{form}:white"), format!("white level {g:?} for stored {w:?}"), js());
    }
  }
  if let Some(w) = &t.wb {
    let g = &img.wb_coeffs;
    // the ratios count
    let ok = (0..3).all(|k| {
      let (a, b) = (g[k] / g[1], w[k] / w[1]);
      (a - b).abs() <= b.abs() * 2e-6 + 1e-9
    });
    if !ok {
      return ctx.fail(&format!("{form}:wb"), format!("white balance {g:?} for stored {w:?}"), js());
    }
  }
  for (n, g, e) in [("crop", &img.crop_area, &t.crop), ("active", &img.active_area, &t.active)] {
    if let Some(e) = e {
      let g = g.map(|r| [r.p.x, r.p.y, r.d.w, r.d.h]);
      if g != Some(*e) {
        return ctx.fail(&format!("{form}:{n}"), format!("{n} area {g:?} for stored {e:?}"), js());
      }
    }
  }
  if let Some(c) = t.cfa {
    let n = match &img.photometric {
      rawler::rawimage::RawPhotometricInterpretation::Cfa(f) => f.cfa.name.clone(),
      o => format!("{o:?}"),
    };
    if n != c {
      ctx.fail(&format!("{form}:pattern"), format!("pattern {n} for {c}"), js());
    }
  }
}

pub fn content(w: usize, h: usize, bits: u32, k: usize) -> Im {
  super::c08::family(w, h, bits, k)
}
pub fn s(v: usize) -> V {
  V::Short(vec![v as u16])
}
pub fn l(v: usize) -> V {
  V::Long(vec![v as u32])
}

/// Tables of classes 0..=prec for lossless JPEG.
pub fn table() -> lj::Table {
  lj::Table::from_lengths(&(0..=16u8).map(|v| (v, [2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14][v as usize])).collect::<Vec<_>>())
}
pub fn ljpeg(d: &[u16], w: usize, h: usize, n: usize, prec: u8, pred: u8) -> Vec<u8> {
  let f = lj::Frame { precision: prec, width: w, height: h, ncomp: n, predictor: pred, pt: 0, data: d.to_vec() };
  lj::encode(&f, &lj::EncOpts { tables: vec![(0, table())], sel: vec![0; n], comp_ids: (1..=n as u8).collect(), one_dht: true, dht_before_sof: false }).expect("reference encoder")
}

// ---------------------------------------------------------------- Canon CR2

/// Versions of Canon's colour record: version, length, positions of white balance, black level, specular white level, type UNDEFINED.
const COLOR: [(i16, usize, usize, Option<usize>, Option<usize>, bool); 28] = [
  (0, 582, 0x19, None, None, false),
  (0, 653, 0x22, None, None, false),
  (0, 796, 0x3f, Some(0xc4), None, false),
  (1, 790, 63, Some(196), None, false),
  (2, 674, 0x3f, Some(0xe7), None, false),
  (3, 674, 0x3f, Some(0xe7), None, false),
  (4, 702, 0x3f, Some(0x2b4), Some(0x2b9), false),
  (5, 1227, 0x3f, Some(0x2b4), Some(0x2b9), false),
  (6, 1250, 0x3f, Some(0x2cb), Some(0x2d0), false),
  (7, 1251, 0x3f, Some(0x2cb), Some(0x2d0), false),
  (9, 1346, 0x3f, Some(0x2cf), Some(0x2d4), false),
  (10, 1273, 0x3f, Some(0x1df), Some(0x1e4), false),
  (10, 1275, 0x3f, Some(0x1df), Some(0x1e4), false),
  (10, 1312, 0x3f, Some(0x1f8), Some(0x1fd), false),
  (11, 1506, 0x3f, Some(0x2d8), Some(0x2dd), false),
  (12, 1560, 0x3f, Some(0x30a), Some(0x30f), false),
  (13, 1592, 0x3f, Some(0x30a), Some(0x30f), false),
  (14, 1353, 0x3f, Some(0x22c), Some(0x231), false),
  (15, 1602, 0x3f, Some(0x30a), Some(0x30f), false),
  (16, 1816, 0x47, Some(0x149), Some(0x31d), false),
  (19, 1820, 0x47, Some(0x149), Some(0x31d), false),
  (32, 2024, 0x55, Some(0x157), Some(0x32b), false),
  (33, 2024, 0x55, Some(0x157), Some(0x32b), false),
  (34, 4528, 0x69, Some(0x16b), Some(0x281), false),
  (48, 4528, 0x69, Some(0x16b), Some(0x282), false),
  (64, 4528, 0x69, Some(0x17f), Some(0x295), false),
  (-4, 1820, 0x47, Some(0x14d), Some(0x56a), true),
  (-3, 1820, 0x47, Some(0x108), None, true),
];

struct CanonRec {
  v: usize,
  wb: [u16; 4],
  black: [u16; 4],
  white: u16,
  sraw: [u16; 4],
}
fn color_data(r: &CanonRec) -> V {
  let (ver, len, wb, black, white, undef) = COLOR[r.v];
  let mut d: Vec<u16> = (0..len).map(|i| (i as u16).wrapping_mul(2477) ^ 0x5a5a).collect();
  d[0] = ver as u16;
  let mut put = |at: usize, v: &[u16]| d[at..at + v.len()].copy_from_slice(v);
  put(78, &r.sraw);
  put(wb, &r.wb);
  if let Some(b) = black {
    put(b, &r.black);
  }
  if let Some(w) = white {
    put(w, &[r.white]);
  }
  if undef { V::Undefined(d.iter().flat_map(|x| x.to_le_bytes()).collect()) } else { V::Short(d) }
}

struct Cr2<'a> {
  model: &'a str,
  mode: u16,
  fw: Option<&'a str>,
  id: Option<u32>,
  crop: Option<[u16; 4]>,
  rec: Option<CanonRec>,
  slices: Option<[usize; 3]>,
  dims: Option<(usize, usize)>,
  be: bool,
  vf: bool,
  gap: usize,
  more: Vec<(u16, V)>,
}
fn cr2(c: Cr2, data: Vec<u8>) -> Vec<u8> {
  let mut settings = vec![0x1234u16; 50];
  settings[22] = 0;
  settings[46] = c.mode;
  let mut mn = vec![(1, V::Short(settings))];
  if let Some(f) = c.fw {
    mn.push((7, ascii(f)));
  }
  if let Some(i) = c.id {
    mn.push((0x10, V::Long(vec![i])));
  }
  if let Some([x, y, w, h]) = c.crop {
    mn.push((0xe0, V::Short(vec![34, 999, 888, 1, 1, x, y, x + w - 1, y + h - 1, 0, 0, 0, 0, 0, 0, 0, 0])));
  }
  if let Some(r) = &c.rec {
    mn.push((0x4001, color_data(r)));
  }
  let root = Node::new().v(0x10f, ascii("Canon")).v(0x110, ascii(c.model)).v(0x100, s(16)).v(0x101, s(8)).v(0x103, s(6)).v(0x112, s(1)).item(0x111, Item::Blobs(vec![vec![0xff, 0xd8, 0xff, 0xd9]])).v(0x117, l(4));
  let exif = Node::new().v(0x829a, V::Rational(vec![(1, 60)]));
  let thumb = Node::new().item(0x201, Item::Blobs(vec![vec![0xff, 0xd8]])).v(0x202, l(2));
  let mid = Node::new().v(0x100, s(3)).v(0x101, s(1)).v(0x102, V::Short(vec![16, 16, 16]));
  let mut raw = Node::new().v(0x103, s(6)).v(0x117, l(data.len())).item(0x111, Item::Blobs(vec![data])).v(0xc5d8, l(1)).v(0xc5e0, l(3));
  if let Some([n, a, b]) = c.slices {
    raw.set(0xc640, V::Short(vec![n as u16, a as u16, b as u16]));
  }
  if let Some((w, h)) = c.dims {
    raw.set(0x100, s(w));
    raw.set(0x101, s(h));
  }
  for (t, v) in c.more {
    raw.set(t, v);
  }
  let cam = Camera { root, exif, mn: Some((Mn::Plain, mn, vec![])), chain: vec![thumb, mid, raw] };
  tiff(cam, c.be, c.vf, c.gap)
}

fn canon(ctx: &Ctx) {
  // mosaics: components, slices, versions of the colour record
  let sizes = [(8, 2), (24, 6), (64, 10), (48, 34), (120, 16), (12, 8)];
  let rx = [sizes.len(), 2, 6, COLOR.len(), 2, ctx.pick(2, 40)];
  ctx.par("CR2", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (w, h) = sizes[d[0]];
    let n = [2, 4][d[1]];
    let k = i % 97 + d[5];
    let bits = [14, 12][k % 2];
    let im = content(w, h, bits, k);
    let slices = match d[2] {
      0 => None,
      1 => Some([0, 0, 0]),
      2 => Some([1, w / 2, w - w / 2]),
      3 => Some([2, w / 4, w - 2 * (w / 4)]),
      4 => Some([1, w - 2, 2]),
      _ => Some([3, 2, w - 6]),
    };
    let data = slice(&im, slices);
    let pred = [1u8, 1, 6, 7][k % 4];
    let be = d[4] == 1;
    // the UNDEFINED record is always little endian
    let r = CanonRec { v: d[3], wb: [2000 + k as u16, 1024, 1024 + (k as u16 % 3), 1500 + 3 * k as u16], black: [2040 + k as u16, 2041, 2050, 2047], white: 15000 + k as u16, sraw: [1; 4] };
    let crop = [2u16, 1, (w / 2) as u16, (h / 2) as u16];
    let (_, _, _, black, white, _) = COLOR[d[3]];
    // cameras whose levels come from the record
    let mut t = want(w, h, &im.d);
    t.wb = Some([r.wb[0] as f32, (r.wb[1] as f32 + r.wb[2] as f32) / 2.0, r.wb[3] as f32]);
    t.crop = Some([2, 1, w / 2, h / 2]);
    t.cfa = Some("RGGB");
    let model = if white.is_some() { "Canon EOS-1D X Mark III" } else { "Canon PowerShot Pro1" };
    if white.is_some() {
      t.white = Some(vec![r.white as u32]);
    } else if w < 3400 {
      // the one camera with a white level of its own and no area has masked columns outside of small images
      t.white = Some(vec![4095]);
    }
    let mut model = model;
    if black.is_some() {
      t.black = Some(r.black.iter().map(|x| *x as f32).collect());
    } else if w > 64 && h > 12 {
      // a camera with levels of its own
      model = "Canon EOS 10D";
      (t.black, t.white, t.active) = (Some(vec![124.0]), Some(vec![4000]), Some([64, 12, w - 64, h - 12]));
    } else {
      return;
    }
    let f = cr2(Cr2 { model, mode: 0, fw: Some("Firmware Version 1.0.4"), id: Some(0x80000218), crop: Some(crop), rec: Some(r), slices, dims: None, be, vf: k % 2 == 0, gap: k % 5, more: vec![] }, ljpeg(&data, w / n, h, n, bits as u8, pred));
    same(ctx, "CR2", &f, &t, &|| json!({"w": w, "h": h, "components": n, "slices": slices, "record": COLOR[d[3]].0, "length": COLOR[d[3]].1, "bigEndian": be, "family": k, "predictor": pred, "bits": bits}));
  });
  // records without black level: the masked columns of the camera give it
  // two sensor lines in one
  let rx = [3, 2, 3, ctx.pick(12, 48)];
  ctx.par("CR2 double line", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (w, h) = [(16, 8), (44, 20), (96, 10)][d[0]];
    let k = d[3];
    let im = content(w, h, 12, k);
    // lines are stored in pairs one after the other in a line of double length
    let n = [2, 4][d[1]];
    let slices = [None, Some([0, 0, 0]), Some([1, w / 4, w - w / 4])][d[2]];
    let data = slice(&im, slices);
    let f = cr2(Cr2 { model: "Canon EOS-1DS", mode: 0, fw: None, id: None, crop: None, rec: None, slices, dims: None, be: k % 2 == 1, vf: false, gap: 0, more: vec![] }, ljpeg(&data, 2 * w / n, h / 2, n, 12, 1));
    let mut t = want(w, h, &im.d);
    t.black = Some(vec![0.0]);
    t.white = Some(vec![3500]);
    t.cfa = Some("GRBG");
    same(ctx, "CR2 double line", &f, &t, &|| json!({"w": w, "h": h, "components": n, "slices": slices, "family": k}));
  });
  sraw(ctx);
}

/// Samples in stream order: whole columns one after the other.
fn slice(im: &Im, slices: Option<[usize; 3]>) -> Vec<u16> {
  let Some([n, a, b]) = slices.filter(|v| v[0] > 0) else { return im.d.clone() };
  let mut o = vec![];
  let mut x = 0;
  for k in 0..=n {
    let w = if k < n { a } else { b };
    for r in 0..im.h {
      o.extend(&im.d[r * im.w + x..r * im.w + x + w]);
    }
    x += w;
  }
  assert_eq!(x, im.w);
  o
}

fn clamp16(v: i32) -> u16 {
  v.clamp(0, 65535) as u16
}

fn sraw(ctx: &Ctx) {
  // model, colour form, inverted white balance, white level, active border
  let cams: [(&str, u8, bool, u32); 7] = [
    ("Canon EOS 40D", 0, false, 65535),
    ("Canon EOS 50D", 1, false, 53000),
    ("Canon EOS 5D Mark II", 1, false, 64948),
    ("Canon EOS 7D", 1, false, 30000),
    ("Canon EOS 7D Mark II", 2, true, 30000),
    ("Canon EOS 70D", 2, true, 53000),
    ("Canon EOS 5D Mark III", 2, true, 55128),
  ];
  let ids = [None, Some((0x80000218u32, "Firmware Version 1.0.6")), Some((0x80000218, "Firmware Version 1.0.7")), Some((0x80000218, "Firmware Version 2.0.4")), Some((0x80000250, "Firmware Version 1.0.0")), Some((0x80000281, "Firmware Version 1.0.0")), Some((0x80000285, "Firmware Version 1.1.3"))];
  let rx = [cams.len(), 2, 4, ids.len(), ctx.pick(12, 96)];
  ctx.par("CR2 sRAW", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (model, form, inv, white) = cams[d[0]];
    let sv = 1 + d[1];
    let k = d[4];
    let (w, h) = [(176, 84), (184, 88), (172, 96)][k % 3];
    // 40D writes only the small form
    let mode = if form == 0 { 2 } else { 1 + (k as u16 / 3) % 2 };
    let (bw, bh) = (w / 2, h / sv);
    let y = content(w, h, 15, k).d;
    let c = |k: usize| -> Vec<u16> { content(bw, bh, 15, k).d.iter().enumerate().map(|(i, v)| if i % 7 == 0 { *v } else { (16383 + (*v as i32 % 4001) - 2000) as u16 }).collect() };
    let full = Yuv { w, h, sh: 2, sv, y, cb: c(k + 5), cr: c(k + 9) };
    // slices in stream order
    let cuts: Option<Vec<usize>> = [None, Some(vec![w]), Some(vec![w / 2, w / 2]), Some(vec![64, 64, w - 128])][d[2]].clone();
    let (jw, jh, st) = match &cuts {
      None => (w, h, full.clone()),
      Some(c) => {
        let t = yuv_slices(&full, c);
        (w, h, t)
      }
    };
    assert_eq!((jw, jh), (st.w, st.h));
    let slices = cuts.as_ref().filter(|c| c.len() > 1).map(|c| {
      // luma values and chroma values of a slice's line (one line in 4:2:2, triples in 4:2:0)
      let per = |x: usize| if sv == 1 { x * 2 } else { x * 3 };
      [c.len() - 1, per(c[0]), per(*c.last().unwrap())]
    });
    // sRAW files always have the tag
    let slices = if d[2] <= 1 { Some([0, 0, 0]) } else { slices };
    let r = CanonRec { v: 14, wb: [2000, 1024, 1024, 1600], black: [1024, 1030, 1028, 1026], white: 9999, sraw: [[1100 + k as u16, 1024, 1024, 700 + k as u16], [900, 1000, 1048, 1400]][k / 2 % 2] };
    let rgb = sraw_rgb(&full, &r.sraw, form, inv, ids[d[3]]);
    let mut t = Want { w, h, cpp: 3, px: rgb, ..Default::default() };
    t.black = Some(vec![1027.0; 3]);
    t.white = Some(vec![white; 3]);
    t.wb = Some([2000.0, 1024.0, 1600.0]);
    t.crop = Some([8, 4, w - 12, h - 7]);
    t.active = t.crop;
    let id = ids[d[3]];
    let f = cr2(
      Cr2 { model, mode, fw: id.map(|x| x.1), id: id.map(|x| x.0), crop: Some([8, 4, w as u16 - 12, h as u16 - 7]), rec: Some(r), slices, dims: (k % 2 == 0).then_some((w, h)), be: false, vf: k % 2 == 1, gap: 0, more: vec![] },
      yuv_ljpeg(&st, 15, false),
    );
    same(ctx, "CR2 sRAW", &f, &t, &|| json!({"camera": model, "w": w, "h": h, "subsampling": [2, sv], "slices": cuts, "id": id, "family": k}));
  });
}

/// Cut into columns of the given widths and lay the units out in stream order in a picture of the same size.
fn yuv_slices(p: &Yuv, cuts: &[usize]) -> Yuv {
  let (bw, bh) = (p.w / p.sh, p.h / p.sv);
  let mut o = p.clone();
  let mut n = 0;
  let mut x = 0;
  for c in cuts {
    for br in 0..bh {
      for bc in x / p.sh..(x + c) / p.sh {
        let (tr, tc) = (n / bw, n % bw);
        o.cb[n] = p.cb[br * bw + bc];
        o.cr[n] = p.cr[br * bw + bc];
        for v in 0..p.sv {
          for h in 0..p.sh {
            o.y[(tr * p.sv + v) * p.w + tc * p.sh + h] = p.y[(br * p.sv + v) * p.w + bc * p.sh + h];
          }
        }
        n += 1;
      }
    }
    x += c;
  }
  o
}

fn sraw_rgb(p: &Yuv, wb: &[u16; 4], form: u8, inv: bool, id: Option<(u32, &str)>) -> Vec<u16> {
  let g = (wb[1] as f32 + wb[2] as f32) / 2.0;
  let c = if inv { [(1048576.0 / wb[0] as f64) as i32, g as i32, (1048576.0 / wb[3] as f64) as i32] } else { [wb[0] as i32, g as i32, wb[3] as i32] };
  let n = (p.sh * p.sv) as i32;
  let hue = match id {
    None => 0,
    Some((id, fw)) => {
      let newer = !matches!(fw, "Firmware Version 1.0.6" | "Firmware Version 1.0.0");
      if id >= 0x80000281 || (id == 0x80000218 && newer) { (n - 1) >> 1 } else { n }
    }
  };
  let mut o = vec![];
  for [y, cb, cr] in yuv_full(p, true) {
    let (mut y, mut cb, mut cr) = (y, cb - 16383, cr - 16383);
    let (r, g, b) = if form == 1 {
      cb = (cb << 2) + hue;
      cr = (cr << 2) + hue;
      (y + ((50 * cb + 22929 * cr) >> 14), y + ((-5640 * cb - 11751 * cr) >> 14), y + ((29040 * cb - 101 * cr) >> 14))
    } else {
      if form == 0 {
        y -= 512;
      }
      (y + cr, y + ((-778 * cb - (cr << 11)) >> 12), y + cb)
    };
    for (c, v) in c.iter().zip([r, g, b]) {
      o.push(clamp16((c * v) >> 8));
    }
  }
  o
}

// ---------------------------------------------------------------- Sony ARW, SR2, SRF

/// The raw directory `raw` (its data included), the encrypted records `rec`.
fn arw(model: &str, raw: Node, rec: &[(u16, V)], key: u32, head: usize, be: bool, vf: bool, gap: usize) -> Vec<u8> {
  arw_with(model, Node::new(), raw, rec, key, head, be, vf, gap)
}
/// A small file with further tags in the first directory.
pub(super) fn arw_tags(more: Node, be: bool, k: usize) -> Vec<u8> {
  let im = content(64, 20, 14, k);
  let raw = arw_raw(64, 20, 1, 14, im.d.iter().flat_map(|v| v.to_le_bytes()).collect()).v(0xc61f, V::Long(vec![3, 2])).v(0xc620, V::Long(vec![57, 16]));
  arw_with("ILCE-1", more, raw, &sony_rec(&SonyRec::new(k)), 0x12345678, k % 2, be, k % 2 == 1, k % 3)
}
fn arw_with(model: &str, more: Node, raw: Node, rec: &[(u16, V)], key: u32, head: usize, be: bool, vf: bool, gap: usize) -> Vec<u8> {
  const MARK: u32 = 0x98bafedc;
  let root = Node::new()
    .v(0x10f, ascii("SONY"))
    .v(0x110, ascii(model))
    .v(0x112, s(1))
    .v(0xc634, V::Byte(MARK.to_le_bytes().to_vec()))
    .item(0x14a, Item::Dirs(vec![raw], 4));
  let mut root = root;
  root.items.extend(more.items);
  let exif = Node::new().v(0x829a, V::Rational(vec![(1, 60)]));
  let mn = vec![(0x102, l(0)), (0xb020, ascii("Standard")), (0xb027, l(0))];
  let kind = if head == 0 { Mn::Plain } else { Mn::Head(b"SONY DSC \0\0\0") };
  let mut f = tiff(Camera { root, exif, mn: Some((kind, mn, vec![])), chain: vec![] }, be, vf, gap);
  while f.len() % 4 != 0 {
    f.push(0);
  }
  let at = f.len() as u32;
  let len = dir(rec, false, 0).len().next_multiple_of(4);
  let mut keyb = key.to_le_bytes().to_vec();
  let private = |o: u32, k: Vec<u8>| dir(&[(0x7200, V::Long(vec![o])), (0x7201, V::Long(vec![len as u32])), (0x7221, V::Undefined(k))], false, at);
  let o = at + private(0, vec![0; 4]).len() as u32 + 6;
  f.extend(private(o, std::mem::take(&mut keyb)));
  f.extend([0xcc; 6]);
  let mut d = dir(rec, false, o);
  d.resize(len, 0);
  // the cipher is its own inverse
  f.extend(sony_cipher(&d, key));
  f.extend([0xdd; 9]);
  patch4(&mut f, MARK, at, false);
  f
}

pub fn arw_raw(w: usize, h: usize, compression: usize, bps: usize, data: Vec<u8>) -> Node {
  Node::new().v(0xfe, l(0)).v(0x100, s(w)).v(0x101, s(h)).v(0x102, s(bps)).v(0x103, s(compression)).v(0x106, s(32803)).v(0x115, s(1)).v(0x117, l(data.len())).item(0x111, Item::Blobs(vec![data]))
}

pub fn shorts(v: &[u16]) -> V {
  V::Short(v.to_vec())
}

struct SonyRec {
  wb: [u16; 4],
  grbg: bool,
  black: [u16; 4],
  newer: bool,
  white: u16,
}
fn sony_rec(r: &SonyRec) -> Vec<(u16, V)> {
  let [a, b, c, d] = r.wb;
  let mut v = vec![if r.grbg { (0x7303, V::SShort([b, a, d, c].iter().map(|x| *x as i16).collect())) } else { (0x7313, V::SShort(r.wb.iter().map(|x| *x as i16).collect())) }];
  v.push((if r.newer { 0x7310 } else { 0x7300 }, shorts(&r.black)));
  if r.newer {
    v.push((0x7300, shorts(&[1, 2, 3, 4])));
  }
  v.push((0x787f, if r.newer { shorts(&[r.white; 3]) } else { shorts(&[r.white]) }));
  v.push((0x7480, shorts(&[9, 9, 9, 9])));
  v
}
impl SonyRec {
  fn new(k: usize) -> Self {
    Self { wb: [2100 + 7 * k as u16, 1024, 1024 + (k as u16 % 2) * 6, 1500 + k as u16], grbg: k % 3 == 1, black: [512, 513 + k as u16, 511, 520], newer: k % 2 == 0, white: 16300 - k as u16 }
  }
  fn put(&self, t: &mut Want) {
    t.wb = Some([self.wb[0] as f32, (self.wb[1] as f32 + self.wb[2] as f32) / 2.0, self.wb[3] as f32]);
    t.black = Some(self.black.iter().map(|x| *x as f32).collect());
    t.white = Some(vec![self.white as u32]);
  }
}

fn sony(ctx: &Ctx) {
  let keys = [0u32, 1, 0x12345678, 0x8badf00d, u32::MAX];
  let sizes = [(32, 8), (64, 20), (96, 6), (128, 34)];
  let forms = ["16 bit", "ARW1", "ARW2", "12 bit", "SR2"];
  let rx = [sizes.len(), forms.len(), keys.len(), 2, ctx.pick(24, 400)];
  ctx.par("ARW", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (w, h) = sizes[d[0]];
    let (k, be) = (d[4], d[3] == 1);
    let r = SonyRec::new(k);
    let (vf, gap, head) = (k % 2 == 0, k % 3, k / 2 % 2);
    let mut t;
    let mut raw;
    let model;
    match d[1] {
      0 => {
        let im = content(w, h, 14, k);
        t = want(w, h, &im.d);
        r.put(&mut t);
        raw = arw_raw(w, h, 1, 14, im.d.iter().flat_map(|v| v.to_le_bytes()).collect());
        model = ["ILCE-1", "ILCE-9M2"][k % 2];
        raw.set(0xc61f, V::Long(vec![3, 2]));
        raw.set(0xc620, V::Long(vec![w as u32 - 7, h as u32 - 4]));
        t.crop = Some([3, 2, w - 7, h - 4]);
        if k % 4 < 2 {
          raw.set(0x7038, V::Long(vec![w as u32 - 2, h as u32 - 1]));
          t.active = Some([0, 0, w - 2, h - 1]);
        }
      }
      1 => {
        let h = h + 8;
        let im = content(w, h, 12, k);
        let data = crate::refs::vendor::arw1(&im, k).expect("arw1");
        t = want(w, h, &im.d);
        r.put(&mut t);
        if data.len() * 8 == w * (h - 8) * 8 {
          return;
        }
        raw = arw_raw(w, h - 8, 32767, 8, data);
        model = ["DSLR-A300", "DSLR-A200"][k % 2];
        t.crop = (h >= 20).then(|| [4, 8, w - 8, h - 16]);
        t.active = Some([0, 0, w, h]);
        if h < 20 {
          return;
        }
      }
      2 => {
        let (data, codes) = arw2_data(w, h, k);
        let curve = if k % 2 == 0 { [16380u16, 16380, 16380, 16380] } else { [8000, 10400, 12900, 14100] };
        let tab = arw2_curve(&curve);
        let px: Vec<u16> = codes.iter().map(|c| tab[2 * *c as usize].1).collect();
        t = want(w, h, &px);
        t.lo = Some(codes.iter().map(|c| tab[2 * *c as usize].0).collect());
        r.put(&mut t);
        raw = arw_raw(w, h, 32767, 8, data);
        raw.set(0x7010, shorts(&curve));
        model = ["ILCE-1", "NEX-6", "DSLR-A850"][k % 3];
        if model == "NEX-6" {
          if w < 20 || h < 14 {
            return;
          }
          t.crop = Some([4, 6, w - 16, h - 12]);
        } else if k % 3 == 2 {
          if w < 34 || h < 18 {
            return;
          }
          t.crop = Some([12, 8, w - 32, h - 16]);
        }
      }
      3 => {
        let im = content(w, h, 12, k);
        let mut b = crate::refs::vendor::B::default();
        im.d.iter().for_each(|v| b.lsb(12, *v as u32));
        t = want(w, h, &im.d);
        r.put(&mut t);
        t.black = t.black.map(|b| b.iter().map(|x| (*x as u16 >> 2) as f32).collect());
        t.white = t.white.map(|b| b.iter().map(|x| x >> 2).collect());
        raw = arw_raw(w, h, 32767, 12, b.bytes_lsb());
        model = ["DSLR-A850", "DSLR-A900"][k % 2];
        if w < 34 || h < 18 {
          return;
        }
        t.crop = Some([12, 8, w - 32, h - 16]);
      }
      _ => {
        let im = content(w, h, 14, k);
        t = want(w, h, &im.d);
        t.wb = Some([r.wb[0] as f32, (r.wb[1] as f32 + r.wb[2] as f32) / 2.0, r.wb[3] as f32]);
        (t.black, t.white, t.cfa) = (Some(vec![511.0]), Some(vec![16383]), Some("GRBG"));
        raw = arw_raw(w, h, 1, 14, im.d.iter().flat_map(|v| v.to_be_bytes()).collect());
        model = "DSC-R1";
        if w < 100 || h < 16 {
          return;
        }
        t.active = Some([0, 0, w - 60, h]);
        t.crop = Some([16, 8, w - 96, h - 16]);
      }
    }
    if t.cfa.is_none() {
      t.cfa = Some("RGGB");
    }
    let f = arw(model, raw, &sony_rec(&r), keys[d[2]], head, be, vf, gap);
    same(ctx, &format!("ARW {}", forms[d[1]]), &f, &t, &|| json!({"camera": model, "form": forms[d[1]], "w": w, "h": h, "key": keys[d[2]], "bigEndian": be, "family": k}));
  });
  // tiles
  let rx = [3, 3, ctx.pick(6, 60)];
  ctx.par("ARW tiles", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (cols, rows) = [(1, 1), (2, 1), (2, 2)][d[0]];
    let (w, h) = (cols * 512, rows * 512);
    let k = d[2];
    let r = SonyRec::new(k);
    let mut t;
    let mut tiles = vec![];
    let form;
    if d[1] == 0 {
      form = "tiles";
      let im = content(w, h, 14, k);
      t = want(w, h, &im.d);
      r.put(&mut t);
      for ty in 0..rows {
        for tx in 0..cols {
          let mut st = vec![];
          for y in (0..512).step_by(2) {
            for x in (0..512).step_by(2) {
              let p = |dy: usize, dx: usize| im.d[(ty * 512 + y + dy) * w + tx * 512 + x + dx];
              st.extend([p(0, 0), p(0, 1), p(1, 0), p(1, 1)]);
            }
          }
          tiles.push(ljpeg(&st, 256, 256, 4, 14, [1, 2, 6, 7][k % 4]));
        }
      }
    } else {
      form = "colour tiles";
      let sv = d[1];
      let mut px = vec![0u16; w * h * 3];
      let mut lo = px.clone();
      for ty in 0..rows {
        for tx in 0..cols {
          let q = k * 7 + ty * 2 + tx;
          let (bw, bh) = (256, 512 / sv);
          let near = |k: usize| -> Vec<u16> { content(bw, bh, 15, k).d.iter().map(|v| (16383 + (*v as i32 % 6001) - 3000) as u16).collect() };
          let p = Yuv { w: 512, h: 512, sh: 2, sv, y: content(512, 512, 15, q).d, cb: near(q + 3), cr: near(q + 5) };
          for (j, [y, cb, cr]) in yuv_full(&p, true).into_iter().enumerate() {
            let at = ((ty * 512 + j / 512) * w + tx * 512 + j % 512) * 3;
            let (y, cb, cr) = (y as f64, (cb - 16383) as f64, (cr - 16383) as f64);
            for (c, v) in [y + 1.4 * cr, y - 0.343 * cb - 0.711 * cr, y + 1.765 * cb].into_iter().enumerate() {
              // computed in single precision there
              px[at + c] = clamp16((v + 0.01) as i32);
              lo[at + c] = clamp16((v - 0.01) as i32);
            }
          }
          tiles.push(yuv_ljpeg(&p, 15, true));
        }
      }
      t = Want { w, h, cpp: 3, px, lo: Some(lo), ..Default::default() };
      t.black = Some(vec![r.black[0] as f32 * 2.0; 3]);
      t.white = Some(vec![r.white as u32]);
      t.wb = Some([1.0; 3]);
    }
    let mut raw = Node::new().v(0xfe, l(0)).v(0x100, s(w)).v(0x101, s(h)).v(0x102, s(14)).v(0x103, s(7)).v(0x106, s(32803)).v(0x115, s(t.cpp)).v(0x111, l(8)).v(0x117, l(4)).v(0x142, s(512)).v(0x143, s(512));
    let n: Vec<u32> = tiles.iter().map(|t| t.len() as u32).collect();
    raw = raw.item(0x144, Item::Blobs(tiles)).v(0x145, V::Long(n));
    raw.set(0xc61f, V::Long(vec![30, 20]));
    raw.set(0xc620, V::Long(vec![w as u32 - 70, h as u32 - 40]));
    t.crop = Some([30, 20, w - 70, h - 40]);
    let f = arw("ILCE-1", raw, &sony_rec(&r), 77 + k as u32, k % 2, false, k % 2 == 1, k % 3);
    same(ctx, &format!("ARW {form}"), &f, &t, &|| json!({"form": form, "w": w, "h": h, "family": k, "vertical": d[1]}));
  });
  // the encrypted first form, at its fixed places
  ctx.par("SRF", ctx.pick(8, 48), |k| {
    let (w, h) = [(96, 14), (120, 40)][k % 2];
    let im = content(w, h, 14, k);
    let key = [0x1234u32, 0x9e3779b9, u32::MAX, 0][k % 4].wrapping_add(k as u32);
    let first = 0xc0ffee11u32.wrapping_mul(k as u32 + 1);
    let root = Node::new().v(0x10f, ascii("SONY")).v(0x110, ascii("DSC-F828"));
    let mn = vec![(0x102, l(0)), (0xb027, l(0))];
    let sub = Node::new().v(0x100, s(w)).v(0x101, s(h));
    let mut f = tiff(Camera { root, exif: Node::new().v(0x829a, V::Rational(vec![(1, 60)])), mn: Some((Mn::Head(b"SONY DSC \0\0\0"), mn, vec![])), chain: vec![sub] }, false, false, 0);
    assert!(f.len() < 164600);
    f.resize(862144, 0x55);
    let ko = [3usize, 0, 17, 255][k % 4];
    f[200896] = ko as u8;
    let kp = 200896 + 4 * ko;
    if ko == 0 {
      // the offset byte is the first of the key itself
      let b = (first & 0x00ff_ffff).to_be_bytes();
      f[kp..kp + 4].copy_from_slice(&b);
    } else {
      f[kp..kp + 4].copy_from_slice(&first.to_be_bytes());
    }
    let first = u32::from_be_bytes(f[kp..kp + 4].try_into().unwrap());
    let mut head: Vec<u8> = (0..40).map(|i| (i * 29 + k) as u8).collect();
    head[22..26].copy_from_slice(&key.to_le_bytes());
    f[164600..164640].copy_from_slice(&sony_cipher(&head, first));
    let plain: Vec<u8> = im.d.iter().flat_map(|v| v.to_be_bytes()).collect();
    f.extend(sony_cipher(&plain, key));
    f.extend([0; 7]);
    let mut t = want(w, h, &im.d);
    (t.black, t.white, t.cfa) = (Some(vec![495.0]), Some(vec![16383]), Some("ERBG"));
    t.active = Some([5, 0, w - 72, h]);
    same(ctx, "SRF", &f, &t, &|| json!({"w": w, "h": h, "key": key, "first": first, "family": k}));
  });
  // the first camera of the series has a fixed size
  ctx.par("ARW A100", ctx.pick(2, 12), |k| {
    let (w, h) = (3880, 2608);
    let im = content(w, h, 12, [9, 7, 2, 5][k % 4] + 12 * k);
    let data = crate::refs::vendor::arw1(&im, k).expect("arw1");
    const MARK: u32 = 0x98bafedc;
    let root = Node::new().v(0x10f, ascii("SONY")).v(0x110, ascii("DSLR-A100")).v(0xc634, V::Byte(MARK.to_le_bytes().to_vec())).item(0x14a, Item::Blobs(vec![vec![0, 0, 0, 0]]));
    let mut f = tiff(Camera { root, exif: Node::new().v(0x829a, V::Rational(vec![(1, 60)])), mn: Some((Mn::Plain, vec![(0x102, l(0)), (0xb027, l(0))], vec![])), chain: vec![] }, false, false, 0);
    // the data comes in the middle of the file
    let at = f.len() as u32;
    f.extend(data);
    let mri = f.len() as u32;
    patch4(&mut f, MARK, mri, false);
    f.extend(b"\0MRI");
    f.extend(100u32.to_le_bytes());
    f.extend(b"\0PRD");
    f.extend(24u32.to_le_bytes());
    f.extend([7; 24]);
    f.extend(b"\0WBG");
    f.extend(12u32.to_le_bytes());
    f.extend([2, 2, 2, 2]);
    [600u16 + k as u16, 256, 258, 400].iter().for_each(|v| f.extend(v.to_le_bytes()));
    f.extend([0; 40]);
    // the pointer of the sub-directory is the data
    let o = u32::from_le_bytes(f[4..8].try_into().unwrap()) as usize;
    let n = u16::from_le_bytes([f[o], f[o + 1]]) as usize;
    for e in (0..n).map(|k| o + 2 + 12 * k) {
      if f[e..e + 2] == [0x4a, 0x01] {
        f[e + 8..e + 12].copy_from_slice(&at.to_le_bytes());
      }
    }
    let mut t = want(w, h, &im.d);
    (t.black, t.white, t.cfa) = (Some(vec![0.0]), Some(vec![4095]), Some("RGGB"));
    t.wb = Some([600.0 + k as f32, 257.0, 400.0]);
    t.crop = Some([0, 4, w, h - 8]);
    same(ctx, "ARW A100", &f, &t, &|| json!({"family": k}));
  });
}

/// Blocks of 16 codes of one colour, two to 32 columns.
fn arw2_data(w: usize, h: usize, k: usize) -> (Vec<u8>, Vec<u16>) {
  let mut r = Rng::new(k as u64 + 99);
  let mut out = vec![];
  let mut px = vec![0u16; w * h];
  for y in 0..h {
    for x in (0..w).step_by(32) {
      for j in 0..2 {
        let spread = 1 << r.below(12);
        let min = r.below(2048 - spread.min(2047)) as u32;
        let max = min + r.below(spread.min(2048 - min as u64)) as u32;
        let delta = max - min;
        let shift = (32 - delta.leading_zeros()).saturating_sub(7);
        let imax = r.below(16) as usize;
        let imin = (imax + 1 + r.below(15) as usize) % 16;
        let mut b = crate::refs::vendor::B::default();
        b.lsb(11, max);
        b.lsb(11, min);
        b.lsb(4, imax as u32);
        b.lsb(4, imin as u32);
        for i in 0..16 {
          let v = if i == imax {
            max
          } else if i == imin {
            min
          } else {
            let q = r.below(((delta >> shift) + 1).min(128) as u64) as u32;
            b.lsb(7, q);
            (min + (q << shift)).min(0x7ff)
          };
          px[y * w + x + j + 2 * i] = v as u16;
        }
        out.extend(b.bytes_lsb());
      }
    }
  }
  (out, px)
}

/// Range of values a dithered lookup in Sony's curve may give: between the middles of the neighbouring steps.
fn arw2_curve(c: &[u16; 4]) -> Vec<(u16, u16)> {
  let mut knots = vec![0usize];
  knots.extend(c.iter().map(|v| (v >> 2) as usize & 0xfff));
  knots.push(4095);
  let mut t = vec![0i32; 4096];
  for i in 0..5 {
    for j in knots[i] + 1..=knots[i + 1] {
      t[j] = t[j - 1] + (1 << i);
    }
  }
  (0..4096usize)
    .map(|i| {
      let lo = t[i.saturating_sub(1)];
      let hi = t[(i + 1).min(4095)];
      let d = hi - lo;
      ((t[i] - (d + 2) / 4).max(0) as u16, (t[i] + (d + 2) / 4) as u16)
    })
    .collect()
}

pub fn run(ctx: &Ctx) {
  canon(ctx);
  sony(ctx);
}
