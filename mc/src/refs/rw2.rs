//! Independent builders for Panasonic RW2 files (formats 4 to 8 and the packed forms).
use super::tiff::*;
use super::vendor::*;

/// One packet as the little-endian 128-bit number it is; fields are read from the top bit.
fn packet_top(b: &mut B, fill: bool) -> Vec<u8> {
  b.0.resize(128, fill);
  let mut bytes = b.bytes_msb();
  bytes.reverse();
  bytes
}

/// Format 6. `choose(kind, number of options)` drives the field values; returns packets and samples.
pub fn pana6(n: usize, bps: u32, mut choose: impl FnMut(&str, usize) -> usize) -> (Vec<u8>, Vec<u16>) {
  let (px_n, first, bits, base0, base_max) = if bps == 14 { (11, 14u32, 10u32, 0x200i64, 0x2000i64) } else { (14, 12, 8, 0x80, 0x800) };
  let (mut out, mut px) = (vec![], vec![]);
  for _ in 0..n {
    let mut b = B::default();
    let (mut seen, mut last) = ([false; 2], [0i64; 2]);
    let (mut mul, mut base) = (0i64, 0i64);
    for i in 0..px_n {
      let e = i & 1;
      if i % 3 == 2 {
        let k = choose("scale", 4);
        b.msb(2, k as u32);
        let s = [0, 1, 2, 4][k];
        mul = 1 << s;
        base = base0 << s;
      }
      let width = if i < 2 { first } else { bits };
      let top = (1u32 << width) - 1;
      let v = match choose("value", 9) {
        0 => 0,
        1 => 1,
        2 => 14,
        3 => 15,
        4 => 16,
        5 => top,
        6 => top / 2,
        7 => top / 2 + 1,
        _ => choose("any", top as usize + 1) as u32,
      };
      b.msb(width, v);
      let v = v as i64;
      let val;
      if seen[e] {
        // difference to the previous sample of the parity, in steps of `mul`, centred on `base`
        let mut x = v * mul;
        if base < base_max && last[e] > base {
          x += last[e] - base;
        }
        last[e] = x & 0xFFFF;
        val = last[e];
      } else {
        seen[e] = v != 0;
        if v != 0 {
          last[e] = v;
        }
        val = last[e];
      }
      // the stored value has an offset of 15, smaller values are zero
      let lim = if bps == 14 { 0xFFFF } else { 0x3FFF };
      px.push(if val < 15 { 0 } else if val - 15 > lim { 0xFFF } else { (val - 15) as u16 });
    }
    out.extend(packet_top(&mut b, true));
  }
  (out, px)
}

/// Formats 5 and 7: plain samples, least significant bit first, as many as fit into 16 bytes.
pub fn pana_plain(px: &[u16], bps: u32) -> Vec<u8> {
  let per = 128 / bps as usize;
  let mut out = vec![];
  for c in px.chunks(per) {
    let mut b = B::default();
    c.iter().for_each(|v| b.lsb(bps, *v as u32));
    b.0.resize(128, true);
    out.extend(b.bytes_lsb());
  }
  out
}

pub struct V8 {
  /// code lengths of the 17 difference classes
  pub lens: [u8; 17],
  pub init: [u16; 4],
  pub clip: u16,
  /// strip columns and rows
  pub cols: Vec<usize>,
  pub rows: Vec<usize>,
  pub gamma: Option<(Vec<u32>, Vec<u32>)>,
}

fn codes(lens: &[u8; 17]) -> Vec<(u8, u32)> {
  let mut order: Vec<usize> = (0..17).collect();
  order.sort_by_key(|v| (lens[*v], *v));
  let mut out = vec![(0, 0); 17];
  let (mut code, mut prev) = (0u32, 0u8);
  for v in order {
    code <<= lens[v] - prev;
    prev = lens[v];
    out[v] = (prev, code);
    code += 1;
  }
  out
}
/// One strip of format 8: groups of 2x2 samples, each predicted from the group to the left, the first of a row pair from the first above.
pub fn pana8_strip(im: &Im, x: usize, y: usize, w: usize, h: usize, p: &V8) -> (Vec<u8>, u32) {
  let t = codes(&p.lens);
  let mut b = B::default();
  let mut line = p.init;
  for r in (0..h).step_by(2) {
    let mut cur = line;
    for c in (0..w).step_by(2) {
      let v = |k: usize| im.at(y + r + k / 2, x + c + k % 2);
      for k in [0, 2, 1, 3] {
        let (n, bits) = mag(v(k) - cur[k] as i32);
        b.msb(t[n as usize].0 as u32, t[n as usize].1);
        b.msb(n, bits);
      }
      (0..4).for_each(|k| cur[k] = v(k) as u16);
      if c == 0 {
        line = cur;
      }
    }
  }
  let n = b.0.len() as u32;
  // every byte is stored with reversed bits
  (b.bytes_msb().iter().map(|x| x.reverse_bits()).collect(), n)
}

fn counted(n: usize, data: Vec<u8>) -> V {
  let mut v = (n as u16).to_le_bytes().to_vec();
  v.extend(data);
  V::Undefined(v)
}
fn le16(v: impl IntoIterator<Item = u16>) -> Vec<u8> {
  v.into_iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn le32(v: impl IntoIterator<Item = u32>) -> Vec<u8> {
  v.into_iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn root(model: &str, w: usize, h: usize, bps: u32, format: u16) -> Node {
  let s = |v: usize| V::Short(vec![v as u16]);
  Node::new()
    .v(1, V::Undefined(b"0310".to_vec()))
    .v(2, s(w))
    .v(3, s(h))
    .v(4, s(0))
    .v(5, s(0))
    .v(6, s(h))
    .v(7, s(w))
    .v(0xa, s(bps as usize))
    .v(0x1c, s(15))
    .v(0x1d, s(16))
    .v(0x1e, s(17))
    .v(0x24, s(512))
    .v(0x25, s(256))
    .v(0x26, s(384))
    .v(0x2d, s(format as usize))
    .v(0x10f, ascii("Panasonic"))
    .v(0x110, ascii(model))
}
/// `pana_offsets`: data is addressed by the RW2 tag, otherwise by StripOffsets (older form).
pub fn file(mut node: Node, data: Vec<u8>, pana_offsets: bool, vf: bool, gap: usize) -> Vec<u8> {
  let tag = if pana_offsets {
    node.set(0x111, V::Long(vec![u32::MAX]));
    0x118
  } else {
    0x111
  };
  node.set(tag, V::Long(vec![0]));
  let mut f = build(&[node], false, vf, gap);
  f[2] = 0x55;
  // the raw data is the last thing of the file, up to its end
  let end = f.len() as u32;
  f.extend(&data);
  patch(&mut f, tag, end);
  f
}
/// Replace the value of a LONG entry of the first directory.
pub fn patch(f: &mut [u8], tag: u16, v: u32) {
  let o = u32::from_le_bytes(f[4..8].try_into().unwrap()) as usize;
  let n = u16::from_le_bytes([f[o], f[o + 1]]) as usize;
  for k in 0..n {
    let p = o + 2 + 12 * k;
    if u16::from_le_bytes([f[p], f[p + 1]]) == tag {
      f[p + 8..p + 12].copy_from_slice(&v.to_le_bytes());
    }
  }
}
pub fn file8(model: &str, im: &Im, bps: u32, p: &V8, vf: bool, gap: usize, order: usize) -> Vec<u8> {
  let (nh, nv) = (p.cols.len(), p.rows.len());
  let t = codes(&p.lens);
  let mut node = root(model, im.w, im.h, bps, 8);
  let lin = (vec![65536u32; 6], vec![0u32; 6]);
  let (gp, gs) = p.gamma.clone().unwrap_or(lin);
  node.set(0x37, V::Long(vec![p.rows[0] as u32]));
  node.set(0x64, V::Long(vec![p.cols[0] as u32]));
  node.set(0x39, counted(gp.len(), le32(gp.clone())));
  node.set(0x3a, counted(gs.len(), le32(gs.clone())));
  node.set(0x3b, V::Short(vec![p.clip]));
  (0..4).for_each(|k| node.set(0x3c + k as u16, V::Short(vec![p.init[k]])));
  node.set(0x40, counted(17, le16(t.iter().flat_map(|(l, c)| [*l as u16, *c as u16]))));
  node.set(0x41, counted(17, le16([0u16; 17])));
  node.set(0x42, V::Short(vec![nh as u16]));
  node.set(0x43, V::Short(vec![nv as u16]));
  let (mut offs, mut pos, mut sizes, mut ws, mut hs, mut strips) = (vec![], vec![], vec![], vec![], vec![], vec![]);
  let mut y = 0;
  for h in &p.rows {
    let mut x = 0;
    for w in &p.cols {
      let (d, n) = pana8_strip(im, x, y, *w, *h, p);
      strips.push(d);
      sizes.push(n);
      pos.extend([x as u16, y as u16]);
      ws.push(*w as u16);
      hs.push(*h as u16);
      x += w;
    }
    y += h;
  }
  let n = nh * nv;
  offs.resize(n, 0u32);
  node.set(0x44, counted(n, le32(offs.clone())));
  node.set(0x45, counted(n, le16(pos)));
  node.set(0x46, counted(n, le32(sizes)));
  node.set(0x47, counted(n, le16(ws)));
  node.set(0x48, counted(n, le16(hs)));
  node.set(0x118, V::Long(vec![0]));
  let mut f = build(&[node], false, vf, gap);
  f[2] = 0x55;
  let start = f.len() as u32;
  // strips in any order in the file
  let mut idx: Vec<usize> = (0..n).collect();
  match order {
    1 => idx.reverse(),
    2 => idx.rotate_left(n / 2),
    _ => {}
  }
  for k in idx {
    offs[k] = f.len() as u32;
    f.extend(&strips[k]);
  }
  patch(&mut f, 0x118, start);
  let o = u32::from_le_bytes(f[4..8].try_into().unwrap()) as usize;
  let cnt = u16::from_le_bytes([f[o], f[o + 1]]) as usize;
  for k in 0..cnt {
    let e = o + 2 + 12 * k;
    if u16::from_le_bytes([f[e], f[e + 1]]) == 0x44 {
      let at = u32::from_le_bytes(f[e + 8..e + 12].try_into().unwrap()) as usize;
      f[at + 2..at + 2 + 4 * n].copy_from_slice(&le32(offs.clone()));
    }
  }
  f
}
