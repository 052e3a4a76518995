//! Raw image fixtures: one specification, rendered as a RawImage for the writer API or as a DNG file by the reference builder.
use crate::ctx::Rng;
use crate::refs::ljpeg as lj;
use crate::refs::tiff::*;
use rawler::cfa::PlaneColor;
use rawler::decoders::Camera;
use rawler::formats::tiff::Rational;
use rawler::imgop::xyz::Illuminant;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::rawimage::{BlackLevel, CFAConfig, RawPhotometricInterpretation, WhiteLevel};
use rawler::{CFA, Orientation, RawImage, RawImageData};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
  Cfa(String),
  Linear(usize),
  Gray,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Data {
  U(Vec<u16>),
  F(Vec<f32>),
}
#[derive(Clone, Debug)]
pub struct Spec {
  pub w: usize,
  pub h: usize,
  pub kind: Kind,
  pub bps: usize,
  pub data: Data,
  pub active: Option<[usize; 4]>, // x,y,w,h
  pub crop: Option<[usize; 4]>,   // absolute x,y,w,h
  pub black: Vec<(u32, u32)>,     // rationals, row-major repeat pattern (abs origin) x cpp
  pub black_dim: (usize, usize),  // w,h
  pub white: Vec<u32>,
  pub wb: [f32; 4],
  pub matrices: Vec<(u16, Vec<f32>)>,
  pub make: String,
  pub model: String,
  pub orientation: u16,
}

pub const XTRANS: &str = "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG";

impl Spec {
  pub fn cpp(&self) -> usize {
    match self.kind {
      Kind::Linear(n) => n,
      _ => 1,
    }
  }
  pub fn new(w: usize, h: usize, kind: Kind, bps: usize, seed: u64) -> Spec {
    let cpp = match kind {
      Kind::Linear(n) => n,
      _ => 1,
    };
    let mut s = Spec {
      w,
      h,
      kind,
      bps,
      data: Data::U(vec![]),
      active: None,
      crop: None,
      black: vec![(0, 1); cpp],
      black_dim: (1, 1),
      white: vec![((1u64 << bps) - 1) as u32; cpp],
      wb: [2.0, 1.0, 1.5, f32::NAN],
      matrices: vec![(21, vec![0.5, 0.1, -0.05, -0.4, 1.2, 0.2, -0.06, 0.15, 0.6])],
      make: "Acme".into(),
      model: "Model X".into(),
      orientation: 1,
    };
    s.fill(seed);
    s
  }
  pub fn fill(&mut self, seed: u64) {
    let mut g = Rng::new(seed);
    let max = ((1u64 << self.bps) - 1) as u16;
    let n = self.w * self.h * self.cpp();
    let mode = seed % 4;
    self.data = Data::U(
      (0..n)
        .map(|i| match mode {
          0 => g.next() as u16 & max,
          1 => ((i as u64 * 31 + i as u64 / 7) & max as u64) as u16,
          2 => if g.next() % 9 == 0 { max } else { (g.next() % 64) as u16 & max },
          _ => if i % 3 == 0 { 0 } else if i % 3 == 1 { max } else { g.next() as u16 & max },
        })
        .collect(),
    );
  }
  pub fn fill_float(&mut self, seed: u64) {
    let mut g = Rng::new(seed);
    let n = self.w * self.h * self.cpp();
    self.data = Data::F((0..n).map(|_| (g.next() % 1_000_003) as f32 / 1_000_003.0).collect());
    self.bps = 32;
    self.white = vec![1; self.cpp()];
  }

  pub fn raw_image(&self) -> RawImage {
    let mut cam = Camera::new();
    cam.make = self.make.clone();
    cam.model = self.model.clone();
    cam.clean_make = self.make.clone();
    cam.clean_model = self.model.clone();
    cam.real_bps = self.bps;
    let photometric = match &self.kind {
      Kind::Cfa(p) => {
        cam.cfa = CFA::new(p);
        RawPhotometricInterpretation::Cfa(CFAConfig::new(&cam.cfa, &PlaneColor::default()))
      }
      Kind::Linear(_) => RawPhotometricInterpretation::LinearRaw,
      Kind::Gray => RawPhotometricInterpretation::BlackIsZero,
    };
    for (i, m) in &self.matrices {
      cam.color_matrix.insert(Illuminant::try_from(*i).unwrap(), m.clone());
    }
    let cpp = self.cpp();
    let levels: Vec<Rational> = self.black.iter().map(|(n, d)| Rational::new(*n, *d)).collect();
    let data = match &self.data {
      Data::U(d) => RawImageData::Integer(d.clone()),
      Data::F(d) => RawImageData::Float(d.clone()),
    };
    let mut img = RawImage::new_with_data(
      cam,
      data,
      self.w * cpp,
      self.h,
      cpp,
      self.wb,
      photometric,
      Some(BlackLevel::new(&levels, self.black_dim.0, self.black_dim.1, cpp)),
      Some(WhiteLevel::new(self.white.clone())),
      false,
    );
    img.active_area = self.active.map(|a| Rect::new(Point::new(a[0], a[1]), Dim2::new(a[2], a[3])));
    img.crop_area = self.crop.map(|a| Rect::new(Point::new(a[0], a[1]), Dim2::new(a[2], a[3])));
    img.orientation = Orientation::from_u16(self.orientation);
    img
  }

  /// colour index (0 R,1 G,2 B) at absolute sensor position
  pub fn color(&self, x: usize, y: usize) -> Option<u8> {
    match &self.kind {
      Kind::Cfa(p) => {
        let (w, h) = match p.len() {
          4 => (2, 2),
          36 => (6, 6),
          _ => unreachable!(),
        };
        Some(match p.as_bytes()[(y % h) * w + x % w] {
          b'R' => 0,
          b'G' => 1,
          _ => 2,
        })
      }
      _ => None,
    }
  }
  /// black level at absolute position
  pub fn black_at(&self, x: usize, y: usize, c: usize) -> f64 {
    let (w, h) = self.black_dim;
    let (n, d) = self.black[((y % h) * w + x % w) * self.cpp() + c];
    n as f64 / d as f64
  }
}

#[derive(Clone, Debug)]
pub struct Layout {
  pub be: bool,
  pub sub: bool,
  pub values_first: bool,
  pub gap: usize,
  /// None: strips with rows per strip; Some: tiles
  pub tiles: Option<(usize, usize)>,
  pub rps: usize,
  pub lossless: Option<(u8, usize)>, // predictor, components
  pub ptr13: bool,
}
impl Default for Layout {
  fn default() -> Self {
    Layout { be: false, sub: true, values_first: false, gap: 0, tiles: None, rps: usize::MAX, lossless: None, ptr13: false }
  }
}

pub fn table_all() -> lj::Table {
  let l = [2u8, 3, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
  lj::Table::from_lengths(&(0..17u8).map(|v| (v, l[v as usize])).collect::<Vec<_>>())
}

pub fn ljpeg_chunk(samples: &[u16], w: usize, h: usize, cpp: usize, bps: usize, predictor: u8, comps: usize) -> Vec<u8> {
  let line = w * cpp;
  assert_eq!(line % comps, 0);
  let f = lj::Frame { precision: bps as u8, width: line / comps, height: h, ncomp: comps, predictor, pt: 0, data: samples.to_vec() };
  let o = lj::EncOpts { tables: vec![(0, table_all())], sel: vec![0; comps], comp_ids: (0..comps as u8).collect(), one_dht: true, dht_before_sof: false };
  lj::encode(&f, &o).unwrap()
}

/// Cut the image into TIFF chunks.
pub fn chunks(spec: &Spec, l: &Layout) -> Vec<Vec<u8>> {
  let cpp = spec.cpp();
  let line = spec.w * cpp;
  let mut out = vec![];
  let (cw, ch) = l.tiles.unwrap_or((spec.w, l.rps.min(spec.h)));
  let mut y = 0;
  while y < spec.h {
    let mut x = 0;
    while x < spec.w {
      let rows = if l.tiles.is_some() { ch } else { ch.min(spec.h - y) };
      let get = |r: usize, k: usize| -> usize {
        // pad tiles by replicating the edge
        let yy = (y + r).min(spec.h - 1);
        let xx = (x + k / cpp).min(spec.w - 1);
        yy * line + xx * cpp + k % cpp
      };
      let mut bytes = vec![];
      match &spec.data {
        Data::U(d) => {
          let s: Vec<u16> = (0..rows).flat_map(|r| (0..cw * cpp).map(move |k| (r, k))).map(|(r, k)| d[get(r, k)]).collect();
          if let Some((p, comps)) = l.lossless {
            bytes = ljpeg_chunk(&s, cw, rows, cpp, spec.bps, p, comps);
          } else if spec.bps == 8 {
            bytes.extend(s.iter().map(|v| *v as u8));
          } else if spec.bps == 16 {
            for v in s {
              bytes.extend(if l.be { v.to_be_bytes() } else { v.to_le_bytes() });
            }
          } else {
            // big-endian bit packing, rows padded to whole bytes
            for r in 0..rows {
              let (mut acc, mut n) = (0u64, 0);
              for v in &s[r * cw * cpp..(r + 1) * cw * cpp] {
                acc = (acc << spec.bps) | *v as u64;
                n += spec.bps;
                while n >= 8 {
                  bytes.push((acc >> (n - 8)) as u8);
                  n -= 8;
                }
              }
              if n > 0 {
                bytes.push((acc << (8 - n)) as u8);
              }
            }
          }
        }
        Data::F(d) => {
          for r in 0..rows {
            for k in 0..cw * cpp {
              let v = d[get(r, k)].to_bits();
              bytes.extend(if l.be { v.to_be_bytes() } else { v.to_le_bytes() });
            }
          }
        }
      }
      out.push(bytes);
      x += cw;
    }
    y += ch;
  }
  out
}

fn rat(v: f32, d: u32) -> (u32, u32) {
  ((v as f64 * d as f64).round() as u32, d)
}

pub fn raw_node(spec: &Spec, l: &Layout) -> Node {
  let cpp = spec.cpp();
  let cs = chunks(spec, l);
  let float = matches!(spec.data, Data::F(_));
  let counts: Vec<u32> = cs.iter().map(|c| c.len() as u32).collect();
  let mut n = Node::new()
    .v(254, V::Long(vec![0]))
    .v(256, V::Long(vec![spec.w as u32]))
    .v(257, V::Long(vec![spec.h as u32]))
    .v(258, V::Short(vec![spec.bps as u16; cpp]))
    .v(259, V::Short(vec![if l.lossless.is_some() { 7 } else { 1 }]))
    .v(262, V::Short(vec![match spec.kind { Kind::Cfa(_) => 32803, Kind::Linear(_) => 34892, Kind::Gray => 1 }]))
    .v(277, V::Short(vec![cpp as u16]))
    .v(284, V::Short(vec![1]))
    .v(339, V::Short(vec![if float { 3 } else { 1 }; cpp]));
  if let Some((tw, tl)) = l.tiles {
    n = n.v(322, V::Long(vec![tw as u32])).v(323, V::Long(vec![tl as u32])).item(324, Item::Blobs(cs)).v(325, V::Long(counts));
  } else {
    n = n.v(278, V::Long(vec![l.rps.min(spec.h) as u32])).item(273, Item::Blobs(cs)).v(279, V::Long(counts));
  }
  let (ax, ay) = spec.active.map(|a| (a[0], a[1])).unwrap_or((0, 0));
  if let Some(a) = spec.active {
    n.set(50829, V::Long(vec![a[1] as u32, a[0] as u32, (a[1] + a[3]) as u32, (a[0] + a[2]) as u32]));
  }
  if let Some(c) = spec.crop {
    n.set(50719, V::Long(vec![(c[0] - ax) as u32, (c[1] - ay) as u32]));
    n.set(50720, V::Long(vec![c[2] as u32, c[3] as u32]));
  }
  if let Kind::Cfa(p) = &spec.kind {
    let d = if p.len() == 4 { 2 } else { 6 };
    n.set(33421, V::Short(vec![d as u16, d as u16]));
    let pat: Vec<u8> = (0..d * d).map(|i| spec.color(ax + i % d, ay + i / d).unwrap()).collect();
    n.set(33422, V::Byte(pat));
    n.set(50710, V::Byte(vec![0, 1, 2]));
    n.set(50711, V::Short(vec![1]));
  }
  // black levels relative to the active area
  let (bw, bh) = spec.black_dim;
  let mut bl = vec![];
  for y in 0..bh {
    for x in 0..bw {
      for c in 0..cpp {
        bl.push(spec.black[(((y + ay) % bh) * bw + (x + ax) % bw) * cpp + c]);
      }
    }
  }
  n.set(50713, V::Short(vec![bh as u16, bw as u16]));
  if bl.iter().all(|b| b.1 == 1) {
    n.set(50714, V::Long(bl.iter().map(|b| b.0).collect()));
  } else {
    n.set(50714, V::Rational(bl));
  }
  n.set(50717, V::Long(spec.white.clone()));
  n
}

pub fn root_tags(spec: &Spec) -> Node {
  let mut n = Node::new()
    .v(271, ascii(&spec.make))
    .v(272, ascii(&spec.model))
    .v(274, V::Short(vec![spec.orientation]))
    .v(50706, V::Byte(vec![1, 4, 0, 0]))
    .v(50707, V::Byte(vec![1, 1, 0, 0]))
    .v(50708, ascii(&format!("{} {}", spec.make, spec.model)));
  if !spec.wb[0].is_nan() {
    n.set(50728, V::Rational((0..3).map(|i| rat(1.0 / spec.wb[i], 1_000_000)).collect()));
  }
  for (k, (illu, m)) in spec.matrices.iter().take(2).enumerate() {
    n.set(50721 + k as u16, V::SRational(m.iter().map(|v| ((*v as f64 * 10000.0).round() as i32, 10000)).collect()));
    n.set(50778 + k as u16, V::Short(vec![*illu]));
  }
  n
}

/// DNG file by the reference builder. `extra` may add tags to (root, exif, raw).
pub fn dng_node(spec: &Spec, l: &Layout) -> Node {
  let raw = raw_node(spec, l);
  let mut root = root_tags(spec);
  if l.sub {
    root.items.insert(330, Item::Dirs(vec![raw], if l.ptr13 { 13 } else { 4 }));
  } else {
    for (t, i) in raw.items {
      root.items.insert(t, i);
    }
  }
  root
}
pub fn dng_file(spec: &Spec, l: &Layout) -> Vec<u8> {
  build(&[dng_node(spec, l)], l.be, l.values_first, l.gap)
}
