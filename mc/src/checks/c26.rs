//! C26: complete camera files of the other vendors decode to the stored samples, levels, white balance and areas.
use super::c08::{PEF_TABLES, points};
use super::c25::{Want, content, l, same, shorts, s, want};
use crate::Level;
use crate::ctx::*;
use crate::refs::files::*;
use crate::refs::tiff::{Item, Node, V, ascii};
use crate::refs::vendor::*;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one complete camera file from an independent writer (container, maker note, tags, packing or compression), decoded through the library's decoder for the camera; samples, black and white levels, white balance, colour pattern and areas are compared with what was stored. Non-trivial: the samples are not all equal.",
    bounds: "the containers and forms named in the coverage counters; all listed sizes, packings, record versions, byte orders and directory placements",
    assumptions: &["files are laid out as the vendors' cameras write them: maker notes and records of the known versions"],
  }
}

/// A camera as the published table describes it: borders left, top, right, bottom.
pub(super) struct Cam {
  pub(super) make: &'static str,
  pub(super) model: &'static str,
  pub(super) active: [usize; 4],
  pub(super) crop: Option<[usize; 4]>,
  pub(super) black: Option<u32>,
  pub(super) white: u32,
  pub(super) cfa: &'static str,
}
pub(super) const fn cam(make: &'static str, model: &'static str, active: [usize; 4], crop: Option<[usize; 4]>, black: Option<u32>, white: u32, cfa: &'static str) -> Cam {
  Cam { make, model, active, crop, black, white, cfa }
}
pub(super) fn area(b: [usize; 4], w: usize, h: usize) -> [usize; 4] {
  [b[0], b[1], w - b[0] - b[2], h - b[1] - b[3]]
}
impl Cam {
  pub(super) fn want(&self, w: usize, h: usize, px: &[u16]) -> Want {
    let mut t = want(w, h, px);
    t.active = Some(area(self.active, w, h));
    t.crop = self.crop.map(|c| area(c, w, h));
    t.black = Some(vec![self.black.unwrap_or(0) as f32]);
    t.white = Some(vec![self.white]);
    t.cfa = Some(self.cfa);
    t
  }
  /// The level of the table wins over the one of the file.
  pub(super) fn black(&self, t: &mut Want, b: Vec<f32>) {
    if self.black.is_none() {
      t.black = Some(b);
    }
  }
  pub(super) fn root(&self) -> Node {
    Node::new().v(0x10f, ascii(self.make)).v(0x110, ascii(self.model)).v(0x112, s(1))
  }
}
pub(super) fn exif() -> Node {
  Node::new().v(0x829a, V::Rational(vec![(1, 60)]))
}
/// Bits of all samples, rows padded to whole bytes.
pub(super) fn pack(im: &Im, n: u32, lsb: bool, pad: usize) -> Vec<u8> {
  let mut o = vec![];
  for r in im.d.chunks(im.w) {
    let mut b = B::default();
    r.iter().for_each(|v| if lsb { b.lsb(n, *v as u32) } else { b.msb(n, *v as u32) });
    o.extend(if lsb { b.bytes_lsb() } else { b.bytes_msb() });
    o.extend(vec![0xa5; pad]);
  }
  o
}
pub(super) fn msb32(im: &Im, n: u32) -> Vec<u8> {
  let mut b = B::default();
  im.d.iter().for_each(|v| b.msb(n, *v as u32));
  b.bytes_msb32()
}
pub(super) fn w16(im: &Im, be: bool, shift: u32) -> Vec<u8> {
  im.d.iter().flat_map(|v| if be { (v << shift).to_be_bytes() } else { (v << shift).to_le_bytes() }).collect()
}
/// Ten samples in 15 bytes and a control byte.
pub(super) fn wcontrol(im: &Im, lsb: bool) -> Vec<u8> {
  let mut o = vec![];
  for r in im.d.chunks(im.w) {
    for c in r.chunks(10) {
      let mut b = B::default();
      c.iter().for_each(|v| if lsb { b.lsb(12, *v as u32) } else { b.msb(12, *v as u32) });
      o.extend(if lsb { b.bytes_lsb() } else { b.bytes_msb() });
      o.push(0xc7);
    }
  }
  o
}
/// Even rows, then odd rows, the second field aligned to `al`.
pub(super) fn interlaced(im: &Im, al: Option<usize>) -> Vec<u8> {
  let rows: Vec<Vec<u8>> = im.d.chunks(im.w).map(|r| pack(&Im { w: im.w, h: 1, d: r.to_vec() }, 12, false, 0)).collect();
  let mut o: Vec<u8> = rows.iter().step_by(2).flatten().copied().collect();
  if let Some(al) = al {
    o.resize((o.len() / al + 1) * al, 0x99);
  }
  o.extend(rows.iter().skip(1).step_by(2).flatten());
  o
}
pub(super) fn raw_dir(w: usize, h: usize, bps: usize, compression: usize, data: Vec<u8>) -> Node {
  Node::new().v(0xfe, l(0)).v(0x100, s(w)).v(0x101, s(h)).v(0x102, s(bps)).v(0x103, s(compression)).v(0x106, s(32803)).v(0x115, s(1)).v(0x116, s(h)).v(0x117, l(data.len())).item(0x111, Item::Blobs(vec![data]))
}
pub(super) fn merge(mut a: Node, b: Node) -> Node {
  a.items.extend(b.items);
  a
}

// ---------------------------------------------------------------- Nikon

#[rustfmt::skip]
pub(super) const NIKON_SERIAL: [u8; 256] = [
  0xc1, 0xbf, 0x6d, 0x0d, 0x59, 0xc5, 0x13, 0x9d, 0x83, 0x61, 0x6b, 0x4f, 0xc7, 0x7f, 0x3d, 0x3d, 0x53, 0x59, 0xe3, 0xc7, 0xe9, 0x2f, 0x95, 0xa7, 0x95, 0x1f,
  0xdf, 0x7f, 0x2b, 0x29, 0xc7, 0x0d, 0xdf, 0x07, 0xef, 0x71, 0x89, 0x3d, 0x13, 0x3d, 0x3b, 0x13, 0xfb, 0x0d, 0x89, 0xc1, 0x65, 0x1f, 0xb3, 0x0d, 0x6b, 0x29,
  0xe3, 0xfb, 0xef, 0xa3, 0x6b, 0x47, 0x7f, 0x95, 0x35, 0xa7, 0x47, 0x4f, 0xc7, 0xf1, 0x59, 0x95, 0x35, 0x11, 0x29, 0x61, 0xf1, 0x3d, 0xb3, 0x2b, 0x0d, 0x43,
  0x89, 0xc1, 0x9d, 0x9d, 0x89, 0x65, 0xf1, 0xe9, 0xdf, 0xbf, 0x3d, 0x7f, 0x53, 0x97, 0xe5, 0xe9, 0x95, 0x17, 0x1d, 0x3d, 0x8b, 0xfb, 0xc7, 0xe3, 0x67, 0xa7,
  0x07, 0xf1, 0x71, 0xa7, 0x53, 0xb5, 0x29, 0x89, 0xe5, 0x2b, 0xa7, 0x17, 0x29, 0xe9, 0x4f, 0xc5, 0x65, 0x6d, 0x6b, 0xef, 0x0d, 0x89, 0x49, 0x2f, 0xb3, 0x43,
  0x53, 0x65, 0x1d, 0x49, 0xa3, 0x13, 0x89, 0x59, 0xef, 0x6b, 0xef, 0x65, 0x1d, 0x0b, 0x59, 0x13, 0xe3, 0x4f, 0x9d, 0xb3, 0x29, 0x43, 0x2b, 0x07, 0x1d, 0x95,
  0x59, 0x59, 0x47, 0xfb, 0xe5, 0xe9, 0x61, 0x47, 0x2f, 0x35, 0x7f, 0x17, 0x7f, 0xef, 0x7f, 0x95, 0x95, 0x71, 0xd3, 0xa3, 0x0b, 0x71, 0xa3, 0xad, 0x0b, 0x3b,
  0xb5, 0xfb, 0xa3, 0xbf, 0x4f, 0x83, 0x1d, 0xad, 0xe9, 0x2f, 0x71, 0x65, 0xa3, 0xe5, 0x07, 0x35, 0x3d, 0x0d, 0xb5, 0xe9, 0xe5, 0x47, 0x3b, 0x9d, 0xef, 0x35,
  0xa3, 0xbf, 0xb3, 0xdf, 0x53, 0xd3, 0x97, 0x53, 0x49, 0x71, 0x07, 0x35, 0x61, 0x71, 0x2f, 0x43, 0x2f, 0x11, 0xdf, 0x17, 0x97, 0xfb, 0x95, 0x3b, 0x7f, 0x6b,
  0xd3, 0x25, 0xbf, 0xad, 0xc7, 0xc5, 0xc5, 0xb5, 0x8b, 0xef, 0x2f, 0xd3, 0x07, 0x6b, 0x25, 0x49, 0x95, 0x25, 0x49, 0x6d, 0x71, 0xc7,
];

#[rustfmt::skip]
pub(super) const NIKON_KEY: [u8; 256] = [
  0xa7, 0xbc, 0xc9, 0xad, 0x91, 0xdf, 0x85, 0xe5, 0xd4, 0x78, 0xd5, 0x17, 0x46, 0x7c, 0x29, 0x4c, 0x4d, 0x03, 0xe9, 0x25, 0x68, 0x11, 0x86, 0xb3, 0xbd, 0xf7,
  0x6f, 0x61, 0x22, 0xa2, 0x26, 0x34, 0x2a, 0xbe, 0x1e, 0x46, 0x14, 0x68, 0x9d, 0x44, 0x18, 0xc2, 0x40, 0xf4, 0x7e, 0x5f, 0x1b, 0xad, 0x0b, 0x94, 0xb6, 0x67,
  0xb4, 0x0b, 0xe1, 0xea, 0x95, 0x9c, 0x66, 0xdc, 0xe7, 0x5d, 0x6c, 0x05, 0xda, 0xd5, 0xdf, 0x7a, 0xef, 0xf6, 0xdb, 0x1f, 0x82, 0x4c, 0xc0, 0x68, 0x47, 0xa1,
  0xbd, 0xee, 0x39, 0x50, 0x56, 0x4a, 0xdd, 0xdf, 0xa5, 0xf8, 0xc6, 0xda, 0xca, 0x90, 0xca, 0x01, 0x42, 0x9d, 0x8b, 0x0c, 0x73, 0x43, 0x75, 0x05, 0x94, 0xde,
  0x24, 0xb3, 0x80, 0x34, 0xe5, 0x2c, 0xdc, 0x9b, 0x3f, 0xca, 0x33, 0x45, 0xd0, 0xdb, 0x5f, 0xf5, 0x52, 0xc3, 0x21, 0xda, 0xe2, 0x22, 0x72, 0x6b, 0x3e, 0xd0,
  0x5b, 0xa8, 0x87, 0x8c, 0x06, 0x5d, 0x0f, 0xdd, 0x09, 0x19, 0x93, 0xd0, 0xb9, 0xfc, 0x8b, 0x0f, 0x84, 0x60, 0x33, 0x1c, 0x9b, 0x45, 0xf1, 0xf0, 0xa3, 0x94,
  0x3a, 0x12, 0x77, 0x33, 0x4d, 0x44, 0x78, 0x28, 0x3c, 0x9e, 0xfd, 0x65, 0x57, 0x16, 0x94, 0x6b, 0xfb, 0x59, 0xd0, 0xc8, 0x22, 0x36, 0xdb, 0xd2, 0x63, 0x98,
  0x43, 0xa1, 0x04, 0x87, 0x86, 0xf7, 0xa6, 0x26, 0xbb, 0xd6, 0x59, 0x4d, 0xbf, 0x6a, 0x2e, 0xaa, 0x2b, 0xef, 0xe6, 0x78, 0xb6, 0x4e, 0xe0, 0x2f, 0xdc, 0x7c,
  0xbe, 0x57, 0x19, 0x32, 0x7e, 0x2a, 0xd0, 0xb8, 0xba, 0x29, 0x00, 0x3c, 0x52, 0x7d, 0xa8, 0x49, 0x3b, 0x2d, 0xeb, 0x25, 0x49, 0xfa, 0xa3, 0xaa, 0x39, 0xa7,
  0xc5, 0xa7, 0x50, 0x11, 0x36, 0xfb, 0xc6, 0x67, 0x4a, 0xf5, 0xa5, 0x12, 0x65, 0x7e, 0xb0, 0xdf, 0xaf, 0x4e, 0xb3, 0x61, 0x7f, 0x2f,
];

/// A white balance record and its values.
fn nikon_wb(form: usize, k: usize) -> (Vec<(u16, V)>, [f32; 3]) {
  let v = [400 + 13 * k as u16, 256, 256 + (k % 3) as u16 * 2, 300 + 7 * k as u16]; // R G G B
  let mean = [v[0] as f32, (v[1] as f32 + v[2] as f32) / 2.0, v[3] as f32];
  let one = [v[0] as f32, v[1] as f32, v[3] as f32];
  let put = |b: &mut Vec<u8>, at: usize, x: u16| b[at..at + 2].copy_from_slice(&x.to_be_bytes());
  let fill = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 31 + k) as u8).collect() };
  match form {
    0 => {
      let (r, b) = ((v[0] as u32, 256), (v[3] as u32, 256));
      (vec![(0x0c, V::Rational(vec![r, b, (1, 1), (1, 1)]))], [v[0] as f32, 256.0, v[3] as f32])
    }
    1 | 2 => {
      let mut b = fill(1700);
      b[..8].copy_from_slice(if form == 1 { b"NRW 0100" } else { b"NRW 0200" });
      let at = if form == 1 { 1556 } else { 56 };
      for (i, x) in v.iter().enumerate() {
        b[at + 4 * i..at + 4 * i + 4].copy_from_slice(&(*x as u32).to_le_bytes());
      }
      (vec![(0x14, V::Undefined(b))], [v[0] as f32 * 4.0, v[1] as f32 + v[2] as f32, v[3] as f32 * 4.0])
    }
    3 => {
      let mut b = fill(1700);
      b[0] = 0;
      put(&mut b, 1248, v[0]);
      put(&mut b, 1250, v[3]);
      (vec![(0x14, V::Undefined(b))], [v[0] as f32, 256.0, v[3] as f32])
    }
    4..=6 => {
      let mut b = fill(100);
      let (ver, at): (&[u8], _) = [(b"0100" as &[u8], [72, 76, 74]), (b"0102", [10, 12, 16]), (b"0103", [20, 22, 24])][form - 4];
      b[..4].copy_from_slice(ver);
      (0..3).for_each(|i| put(&mut b, at[i], [v[0], v[1], v[3]][i]));
      (vec![(0x97, V::Undefined(b))], one)
    }
    _ => {
      let (ver, at, off): (&[u8], _, _) = [(b"0204" as &[u8], 284, 6), (b"0205", 4, 14)][form - 7];
      let mut plain = fill(280);
      (0..4).for_each(|i| put(&mut plain, off + 2 * i, v[i]));
      let serial = ["2004567", "0", "33255", "123456789"][k % 4];
      let key = [0u32, 0x01020304, 0xffee_1234, 77][k % 4].wrapping_add(k as u32);
      let ci = NIKON_SERIAL[serial.parse::<usize>().unwrap() & 0xff] as u32;
      let kb = key.to_le_bytes();
      let mut cj = NIKON_KEY[(kb[0] ^ kb[1] ^ kb[2] ^ kb[3]) as usize] as u32;
      let mut b = fill(600);
      b[..4].copy_from_slice(ver);
      for (ck, (i, p)) in (0x60u32..).zip(plain.iter().enumerate()) {
        cj += ci * ck;
        b[at + i] = p ^ cj as u8;
      }
      (vec![(0x97, V::Undefined(b)), (0x1d, ascii(serial)), (0xa7, V::Long(vec![key]))], mean)
    }
  }
}

fn nikon(ctx: &Ctx) {
  const Z: [Cam; 4] = [
    cam("NIKON CORPORATION", "NIKON Z5_2", [0; 4], None, None, 15892, "RGGB"),
    cam("NIKON CORPORATION", "NIKON ZR", [0; 4], None, None, 15892, "RGGB"),
    cam("NIKON CORPORATION", "NIKON D3X", [0; 4], Some([15, 6, 17, 6]), Some(0), 15892, "RGGB"),
    cam("NIKON CORPORATION", "NIKON D6", [0; 4], Some([8; 4]), None, 15520, "RGGB"),
  ];
  const Y: [Cam; 3] = [
    cam("NIKON CORPORATION", "NIKON D50", [0; 4], Some([15, 7, 17, 7]), Some(0), 4095, "BGGR"),
    cam("NIKON CORPORATION", "NIKON D6", [0; 4], Some([8; 4]), None, 3880, "RGGB"),
    cam("NIKON CORPORATION", "NIKON D1", [0; 4], Some([6; 4]), Some(0), 4095, "BGGR"),
  ];
  const COOL: [Cam; 4] = [
    cam("NIKON", "COOLPIX P330", [0; 4], Some([16, 12, 16, 12]), Some(0), 65000, "RGGB"),
    cam("NIKON", "COOLPIX P7000", [0; 4], Some([7, 2, 9, 4]), Some(0), 4095, "RGGB"),
    cam("NIKON", "E5400", [0; 4], Some([8, 2, 8, 4]), Some(0), 4095, "BGGR"),
    cam("NIKON CORPORATION", "NIKON D100", [0, 0, 8, 0], Some([11, 12, 21, 12]), Some(0), 4095, "GRBG"),
  ];
  let forms = ["14 bit in 16", "14 bit packed", "14 bit packed with row padding", "12 bit packed", "12 bit with row padding", "compressed 14 bit", "compressed 12 bit", "strips", "Z record", "coolpix", "scanner"];
  // form, white balance record, byte order, size, content, directory placement
  let rx = [forms.len(), 9, 2, 3, ctx.pick(4, 36)];
  ctx.par("NEF", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (be, k) = (d[2] == 1, d[4] + 5 * d[1]);
    let (mut w, h) = [(64, 40), (80, 33), (128, 72)][d[3]];
    let (wbrec, wb) = nikon_wb(d[1], k);
    let mut mn = wbrec;
    let mut compression = 34713;
    let mut rows = h;
    let mut cpp = 1;
    let mut scan = None;
    // compressed content follows a table; see the checks of the compression itself
    let mut lo = None;
    let (c, bps, im, data): (&Cam, usize, Im, Vec<u8>) = match d[0] {
      0 => {
        let im = content(w, h, 14, k);
        compression = [1, 34713][k % 2];
        let v = w16(&im, be, 0);
        if compression == 34713 {
          // a packed size would be smaller: only the flag tells
          compression = 1;
        }
        (&Z[k % 3], 14, im, v)
      }
      1 | 2 if !be => {
        let im = content(w, h, 14, k);
        mn.push((0x93, s(10)));
        let pad = if d[0] == 1 { 0 } else { 1 + k % 15 };
        let v = pack(&im, 14, true, pad);
        (&Z[3], 14, im, v)
      }
      3 => {
        let im = content(w, h, 12, k);
        let v = pack(&im, 12, !be, 0);
        (&Y[k % 3], 12, im, v)
      }
      4 if !be => {
        let im = content(w, h, 12, k);
        let v = pack(&im, 12, true, 1 + k % 15);
        (&Y[k % 3], 12, im, v)
      }
      5 | 6 => {
        let bps = if d[0] == 5 { 14 } else { 12 };
        let im = content(w, h, bps, k);
        let full = 1usize << bps;
        let lossless = k % 2 == 0;
        let o = if lossless {
          Nef { v0: 0x46, v1: 0x30, be, bps, curve: vec![], split: 0, init: [1, 200, 30, 4] }
        } else {
          Nef { v0: 0x44, v1: 0x20, be, bps, curve: points(full, 33, 1), split: 0, init: [0; 4] }
        };
        let Some((all, _)) = nef(&im, &o) else { return };
        if all.len() - 4096 >= w * h * bps as usize / 8 {
          // noise does not get smaller and would look uncompressed
          return;
        }
        mn.push((if k % 3 == 0 { 0x8c } else { 0x96 }, V::Undefined(all[..4096].to_vec())));
        mn.push((0x93, s(3)));
        let mut px = im.clone();
        // every look-up is dithered, the one of the identity too
        let tab: Vec<u16> = if lossless {
          (0..full).map(|i| i as u16).collect()
        } else {
          let step = full / 32;
          (0..full).map(|i| (((step - i % step) * o.curve[i / step] as usize + i % step * o.curve[i / step + 1] as usize) / step) as u16).collect()
        };
        let dev = |v: u16, up: bool| {
          let v = v as usize;
          let d = (tab[(v + 1).min(full - 1)].abs_diff(tab[v.saturating_sub(1)]) + 2) / 4;
          if up { tab[v].saturating_add(d) } else { tab[v].saturating_sub(d) }
        };
        px.d = im.d.iter().map(|v| dev(*v, true)).collect();
        lo = Some(im.d.iter().map(|v| dev(*v, false)).collect());
        (if bps == 14 { &Z[k % 3] } else { &Y[k % 3] }, bps as usize, px, all[4096..].to_vec())
      }
      7 => {
        let im = content(w, h, 14, k);
        compression = 1;
        rows = [1, 7, h / 2][k % 3];
        let v = w16(&im, be, 0);
        (&Z[k % 3], 14, im, v)
      }
      8 if !be => {
        // newer cameras keep the form in another record
        let im = content(w, h, 14, k);
        let mut rec = vec![0x30u8; 40];
        rec[10..12].copy_from_slice(&10u16.to_le_bytes());
        mn.push((0x51, V::Undefined(rec)));
        let v = pack(&im, 14, true, 0);
        (&Z[k % 2], 14, im, v)
      }
      9 => {
        let c = &COOL[k % 4];
        if k % 4 == 3 {
          // the stored width is wrong there
          w = 3040;
        }
        let im = content(w, h, 12, k);
        let v = match k % 4 {
          0 => w16(&im, true, 0),
          1 => msb32(&im, 12),
          2 => interlaced(&im, None),
          _ => wcontrol(&im, false),
        };
        (c, 12, im, v)
      }
      10 => {
        cpp = 3;
        let im = content(w * 3, h, 16, k);
        compression = 1;
        let v = w16(&im, be, 0);
        let c = cam("Nikon", "Nikon SUPER COOLSCAN 5000 ED", [0; 4], None, None, 65535, "");
        scan = Some(c);
        (scan.as_ref().unwrap(), 16, im, v)
      }
      _ => return,
    };
    let mut t = c.want(w, h, &im.d);
    t.lo = lo;
    t.wb = Some(wb);
    if cpp == 3 {
      (t.cpp, t.cfa, t.active, t.crop) = (3, None, None, None);
    } else {
      if k % 2 == 0 {
        let b = [1008u16, 1012, 1004, 1000 + 4 * k as u16];
        mn.push((0x3d, shorts(&b)));
        c.black(&mut t, b.iter().map(|v| (v >> if bps == 12 { 2 } else { 0 }) as f32).collect());
      }
      if k % 3 != 1 {
        let a = [2 + k as u16 % 5, 4, w as u16 - 20, h as u16 - 10];
        mn.push((0x45, shorts(&a)));
        t.crop = Some(a.map(|x| x as usize));
      }
    }
    let mut raw = Node::new().v(0xfe, l(0)).v(0x100, s(if d[0] == 9 && k % 4 == 3 { 3034 } else { w })).v(0x101, s(h)).v(0x102, shorts(&vec![bps as u16; cpp])).v(0x103, s(compression)).v(0x106, s(32803)).v(0x115, s(cpp));
    raw.set(0x116, l(rows));
    if cpp == 1 {
      raw.set(0x828d, shorts(&[2, 2]));
      raw.set(0x828e, V::Byte(vec![0, 1, 1, 2]));
    }
    // strips follow each other without a hole
    const MARK: u32 = 0x9ad0be51;
    let per = rows * (data.len() / h);
    let n = if rows == h { 1 } else { h.div_ceil(rows) };
    let (vf, gap) = (k % 2 == 1, (k % 3) * (rows == h) as usize);
    if n == 1 {
      raw.set(0x117, l(data.len()));
      raw = raw.item(0x111, Item::Blobs(vec![data]));
    } else {
      let lens: Vec<u32> = (0..n).map(|j| per.min(data.len() - j * per) as u32).collect();
      let mut at = vec![MARK];
      (1..n).for_each(|j| at.push(j as u32));
      raw.set(0x117, V::Long(lens));
      raw.set(0x111, V::Long(at));
      raw.set(0xfde8, V::Undefined(data.clone()));
    }
    let root = c.root().v(0xfe, l(1)).v(0x100, s(16)).v(0x101, s(8)).item(0x14a, Item::Dirs(vec![raw], 4));
    let mut f = tiff(Camera { root, exif: exif(), mn: Some((Mn::Nikon, mn, vec![])), chain: vec![] }, be, vf, gap);
    if n > 1 {
      // place of the data: the value of the private tag
      let tag: [u8; 2] = if be { [0xfd, 0xe8] } else { [0xe8, 0xfd] };
      let rd = |b: &[u8]| if be { u32::from_be_bytes(b.try_into().unwrap()) } else { u32::from_le_bytes(b.try_into().unwrap()) };
      let p = f.windows(4).position(|x| x[..2] == tag && x[2..] == if be { [0, 7] } else { [7, 0] }).unwrap();
      let at = rd(&f[p + 8..p + 12]);
      let q = f.windows(4).position(|x| rd(x) == MARK).unwrap();
      for j in 0..n {
        let v = at + (j * per) as u32;
        f[q + 4 * j..q + 4 * j + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
      }
    }
    same(ctx, &format!("NEF {}", forms[d[0]]), &f, &t, &|| json!({"camera": c.model, "form": forms[d[0]], "w": w, "h": h, "wb": d[1], "bigEndian": be, "family": k, "rows": rows}));
  });
}

// ---------------------------------------------------------------- Olympus

fn olympus(ctx: &Ctx) {
  const C: [Cam; 3] = [
    cam("OLYMPUS IMAGING CORP.", "E-M5MarkII", [0; 4], None, None, 4000, "RGGB"),
    cam("OM Digital Solutions", "OM-5", [0; 4], None, None, 4000, "RGGB"),
    cam("OLYMPUS IMAGING CORP.", "SP565UZ", [0; 4], Some([10, 3, 6, 2]), None, 4095, "BGGR"),
  ];
  let forms = ["left aligned", "control bytes", "32 bit words", "interlaced", "compressed", "compressed 14 bit", "high resolution"];
  let rx = [forms.len(), 2, 3, 3, ctx.pick(12, 60)];
  ctx.par("ORF", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (mut w, mut h) = [(80, 32), (160, 37), (320, 48)][d[3]];
    let k = d[4];
    let be = d[1] == 1;
    let om = d[2] == 2 && !be;
    let mut c = &C[om as usize];
    let mut high = false;
    let bits = if d[0] == 5 { 14 } else { 12 };
    if d[0] == 6 {
      if d[3] > 0 || k > 3 {
        return;
      }
      (w, h) = (if om { 10400 } else { 9280 }, 8);
      high = true;
    }
    let im = content(w, h, bits, k);
    let data = match d[0] {
      0 | 6 => w16(&im, be, 4),
      1 if !be => wcontrol(&im, true),
      2 => msb32(&im, 12),
      3 => {
        c = &C[2];
        interlaced(&im, Some(2048))
      }
      4 | 5 => {
        let Some(o) = orf(&im, k % 2) else { return };
        let mut v = vec![0x42; if bits == 14 { 8 } else { 7 }];
        v.extend(&o[1..]);
        if v.len() >= w * h * 3 / 2 {
          return;
        }
        v
      }
      _ => return,
    };
    let mut t = c.want(w, h, &im.d);
    if high && !om {
      t.cfa = Some("GRBG");
    }
    let (r, b) = (380 + k as u16 * 7, 450 - k as u16 * 3);
    t.wb = Some([r as f32, 256.0, b as f32]);
    let mut mn = vec![(0x1000, shorts(&[1; 6]))];
    let mut sub = vec![];
    let both = k % 3;
    // older cameras keep the white balance in the main record
    if both != 1 {
      mn.push((0x1017, shorts(&[r, 64])));
      mn.push((0x1018, shorts(&[b, 64])));
    }
    let h8 = d[2] == 1 && both == 0 && bits == 12;
    if !h8 {
      sub.push((0x100, shorts(&if both == 1 { [r, b, 1, 2] } else { [7, 9, 1, 2] })));
      let black = [254u16, 255 + k as u16, 256, 257];
      sub.push((0x600, shorts(&black)));
      c.black(&mut t, black.iter().map(|v| (v << if bits == 14 { 2 } else { 0 }) as f32).collect());
      sub.push((0x611, shorts(&[bits as u16, 0])));
      if k % 2 == 0 || high {
        for (j, v) in [12 + k, 6, w - 24 - k, h - 8 + high as usize].into_iter().enumerate() {
          sub.push((0x612 + j as u16, shorts(&[v as u16, 0])));
        }
        t.crop = Some([12 + k, 6, w - 24 - k, h - 8 + high as usize]);
      }
    }
    if bits == 14 {
      t.white = t.white.map(|v| v.iter().map(|x| x << 2).collect());
    }
    if high {
      t.active = None;
    }
    let hd: &'static [u8] = match (om, be, h8) {
      (_, _, true) => b"OLYMP\0\x02\0",
      (true, ..) => b"OM SYSTEM\0\0\0II\x04\0",
      (_, true, _) => b"OLYMPUS\0MM\0\x03",
      _ => b"OLYMPUS\0II\x03\0",
    };
    let n = [1, 3][k % 2].min(h);
    let mut raw = Node::new().v(0x100, l(w)).v(0x101, l(h)).v(0x102, s(16)).v(0x103, s(1)).v(0x106, s(1)).v(0x115, s(1)).v(0x116, l(h.div_ceil(n)));
    // the lengths of all strips add up; the gap between two fields is not counted
    let gapped = if d[0] == 3 { data.len() - w * h * 3 / 2 } else { 0 };
    let total = data.len() - gapped;
    let lens: Vec<u32> = (0..n).map(|j| (total * (j + 1) / n - total * j / n) as u32).collect();
    raw.set(0x117, V::Long(lens));
    raw = raw.item(0x111, Item::Blobs(vec![data]));
    let root = merge(c.root(), raw);
    let f = tiff(Camera { root, exif: exif(), mn: Some((Mn::Olympus(hd), mn, sub)), chain: vec![] }, be, k % 2 == 1, k % 3);
    same(ctx, &format!("ORF {}", forms[d[0]]), &f, &t, &|| json!({"camera": c.model, "form": forms[d[0]], "w": w, "h": h, "bigEndian": be, "family": k, "header": String::from_utf8_lossy(hd)}));
  });
}

// ---------------------------------------------------------------- Pentax, Samsung

fn pentax(ctx: &Ctx) {
  const C: [Cam; 3] = [
    cam("PENTAX Corporation", "PENTAX *ist D", [0; 4], Some([19, 11, 13, 5]), None, 4095, "RGGB"),
    cam("PENTAX Corporation", "PENTAX K100D", [0; 4], Some([16, 8, 16, 8]), None, 3950, "RGGB"),
    cam("PENTAX", "PENTAX K-5", [0, 0, 32, 0], Some([22, 10, 42, 10]), None, 15866, "BGGR"),
  ];
  let forms = ["16 bit", "12 bit packed", "compressed", "compressed with its own table"];
  let rx = [forms.len(), 2, 3, 3, ctx.pick(24, 180)];
  ctx.par("PEF", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (w, h) = [(80, 32), (96, 41), (200, 48)][d[3]];
    let (be, k, c) = (d[1] == 1, d[4], &C[d[2]]);
    let bits = if d[0] == 0 { 14 } else { 12 };
    let im = content(w, h, bits, k);
    let mut mn = vec![(0x0001, shorts(&[3]))];
    let (comp, data) = match d[0] {
      0 => (1, w16(&im, true, 0)),
      1 => (32773, pack(&im, 12, false, 0)),
      2 => {
        let Some(v) = pef(&im, None) else { return };
        (65535, v)
      }
      _ => {
        let Some(v) = pef(&im, Some((&PEF_TABLES[k % 4], be))) else { return };
        mn.push((0x220, V::Undefined(v[..64].to_vec())));
        (65535, v[64..].to_vec())
      }
    };
    let mut t = c.want(w, h, &im.d);
    let wb = [8192 + 100 * k as u16, 8192, 8192 + 2 * (k as u16 % 2), 12000 - k as u16];
    mn.push((0x201, shorts(&wb)));
    t.wb = Some([wb[0] as f32, (wb[1] as f32 + wb[2] as f32) / 2.0, wb[3] as f32]);
    if k % 3 != 2 {
      let b = [64u16, 65, 66, 67 + k as u16];
      mn.push((0x200, shorts(&b)));
      c.black(&mut t, b.iter().map(|v| *v as f32).collect());
    }
    let raw = Node::new().v(0x100, l(w)).v(0x101, l(h)).v(0x102, s(bits as usize)).v(0x103, s(comp)).v(0x106, s(32803)).v(0x115, s(1)).v(0x116, l(h)).v(0x117, l(data.len())).item(0x111, Item::Blobs(vec![data]));
    let kind = if k % 2 == 0 { Mn::Head(b"AOC\0") } else { Mn::Pentax };
    let f = tiff(Camera { root: merge(c.root(), raw), exif: exif(), mn: Some((kind, mn, vec![])), chain: vec![] }, be, k % 4 > 1, k % 3);
    same(ctx, &format!("PEF {}", forms[d[0]]), &f, &t, &|| json!({"camera": c.model, "form": forms[d[0]], "w": w, "h": h, "bigEndian": be, "family": k, "note": format!("{kind:?}")}));
  });
}

fn samsung(ctx: &Ctx) {
  const C: [Cam; 3] = [
    cam("SAMSUNG", "NX1", [0, 0, 16, 16], Some([0, 0, 16, 16]), Some(0), 16100, "GRBG"),
    cam("SAMSUNG", "NX500", [0, 0, 16, 16], Some([0, 0, 16, 16]), Some(0), 16100, "GRBG"),
    cam("SAMSUNG", "NX1000", [46, 2, 58, 48], Some([81, 17, 79, 55]), Some(0), 3750, "GRBG"),
  ];
  let forms = ["12 in 16", "14 in 16", "12 packed", "14 in 16 b", "rows", "codes", "blocks"];
  let rx = [forms.len(), 2, 3, 3, ctx.pick(24, 180)];
  ctx.par("SRW", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (w, h) = [(192, 80), (208, 90), (320, 96)][d[3]];
    let (be, k, c) = (d[1] == 1, d[4], &C[d[2]]);
    let bits = [12, 14, 12, 14, 12, 12, 14][d[0]];
    let mut im = content(w, h, bits, k);
    let mut rows = None;
    let (comp, data) = match d[0] {
      0 | 1 => (32769, w16(&im, false, 0)),
      2 => (32770, pack(&im, 12, d[2] == 2, 0)),
      3 => (32770, w16(&im, false, 0)),
      4 => {
        let Some(v) = srw1(&im, k % 4) else { return };
        rows = Some(v[..4 * h].to_vec());
        (32770, v[4 * h..].to_vec())
      }
      5 => {
        let Some(v) = srw2(&im, 0) else { return };
        (32772, v)
      }
      _ => {
        let mut r = Rng::new(k as u64 + 7);
        let (v, px) = srw3(w, h, 14, [0, 1, 2, 4, 5, 6, 7, 3][k % 8], 8192, |_, n| r.below(n as u64) as usize);
        im.d = px;
        (32773, v)
      }
    };
    let mut t = c.want(w, h, &im.d);
    let lv = [7000 + 10 * k as u32, 4300, 4300, 6000 - k as u32];
    let bl = [100 + k as u32, 101, 101, 103];
    t.wb = Some([(lv[0] - bl[0]) as f32, (lv[1] - bl[1]) as f32, (lv[3] - bl[3]) as f32]);
    let mn = vec![(0x0001, V::Undefined(b"0100".to_vec())), (0xa021, V::Long(lv.to_vec())), (0xa028, V::Long(bl.to_vec()))];
    let mut raw = Node::new().v(0xfe, l(0)).v(0x100, l(w)).v(0x101, l(h)).v(0x102, s(bits as usize)).v(0x103, s(comp)).v(0x106, s(32803)).v(0x115, s(1)).v(0x116, l(h)).v(0x117, l(data.len()));
    if let Some(r) = rows {
      raw = raw.item(0xa010, Item::Blobs(vec![r]));
    }
    raw = raw.item(0x111, Item::Blobs(vec![data]));
    let root = c.root().item(0x14a, Item::Dirs(vec![raw], 4));
    let f = tiff(Camera { root, exif: exif(), mn: Some((Mn::Own, mn, vec![])), chain: vec![] }, be, k % 4 > 1, k % 3);
    same(ctx, &format!("SRW {}", forms[d[0]]), &f, &t, &|| json!({"camera": c.model, "form": forms[d[0]], "w": w, "h": h, "bigEndian": be, "family": k}));
  });
}

pub fn run(ctx: &Ctx) {
  nikon(ctx);
  pentax(ctx);
  samsung(ctx);
  super::c26b::run(ctx);
  olympus(ctx);
}
