//! Containers of camera files: maker notes with their offset conventions, subsampled lossless JPEG, Sony's cipher.
use super::ljpeg::{BitW, Table, classify};
use super::tiff::{Item, Node, V, build};

/// A bare directory followed by its values; `at` is added to positions relative to the directory.
pub fn dir(items: &[(u16, V)], be: bool, at: u32) -> Vec<u8> {
  let w2 = |v: u16| if be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() };
  let w4 = |v: u32| if be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() };
  let mut items: Vec<_> = items.to_vec();
  items.sort_by_key(|x| x.0);
  let mut head = w2(items.len() as u16);
  let mut vals: Vec<u8> = vec![];
  let base = 2 + 12 * items.len() + 4;
  for (t, v) in &items {
    head.extend(w2(*t));
    head.extend(w2(v.ty()));
    head.extend(w4(v.count() as u32));
    let mut b = v.bytes(be);
    if b.len() <= 4 {
      b.resize(4, 0);
      head.extend(b);
    } else {
      head.extend(w4(at + (base + vals.len()) as u32));
      vals.extend(b);
      if vals.len() % 2 == 1 {
        vals.push(0);
      }
    }
  }
  head.extend([0; 4]);
  head.extend(vals);
  head
}

/// How a maker note is laid out.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mn {
  /// directory at once, offsets from the start of the file
  Plain,
  /// a header, then the directory, offsets from the start of the file
  Head(&'static [u8]),
  /// Pentax: header of 8 bytes, byte order, offsets from the start of the note
  Pentax,
  /// Nikon: header of 10 bytes, then a TIFF of its own
  Nikon,
  /// offsets from the directory
  Own,
  /// Olympus: header, then a directory with one sub-directory for `sub`, offsets from the start of the note
  Olympus(&'static [u8]),
}

pub fn note(kind: Mn, items: &[(u16, V)], sub: &[(u16, V)], be: bool, abs: u32) -> Vec<u8> {
  let bo: &[u8] = if be { b"MM" } else { b"II" };
  match kind {
    Mn::Plain => dir(items, be, abs),
    Mn::Head(h) => {
      let mut o = h.to_vec();
      if h.starts_with(b"AOC\0") {
        o.extend(bo);
      }
      let at = abs + o.len() as u32;
      o.extend(dir(items, be, at));
      o
    }
    Mn::Pentax => {
      let mut o = b"PENTAX \0".to_vec();
      o.extend(bo);
      o.extend(dir(items, be, 10));
      o
    }
    Mn::Nikon => {
      let mut o = b"Nikon\0\x02\x10\0\0".to_vec();
      let mut n = Node::new();
      for (t, v) in items {
        n.set(*t, v.clone());
      }
      o.extend(build(&[n], be, false, 0));
      o
    }
    Mn::Own => dir(items, be, 0),
    Mn::Olympus(h) => {
      let mut o = h.to_vec();
      // the lens is in the equipment section, the rest in the one for image processing
      let (equip, proc): (Vec<_>, Vec<_>) = sub.iter().cloned().partition(|(t, _)| *t == 0x201);
      let with = |p: u32, q: u32| {
        let mut v = items.to_vec();
        if !equip.is_empty() {
          v.push((0x2010, V::IfdPtr(vec![q])));
        }
        if !proc.is_empty() {
          // the pointer is an UNDEFINED or IFD value of count 1
          v.push((0x2040, V::IfdPtr(vec![p])));
        }
        dir(&v, be, h.len() as u32)
      };
      let p = h.len() + with(0, 0).len();
      let pd = if proc.is_empty() { vec![] } else { dir(&proc, be, p as u32) };
      let q = p + pd.len();
      let mut d = with(p as u32, q as u32);
      d.extend(pd);
      if !equip.is_empty() {
        d.extend(dir(&equip, be, q as u32));
      }
      o.extend(d);
      o
    }
  }
}

pub struct Camera {
  pub root: Node,
  pub exif: Node,
  pub mn: Option<(Mn, Vec<(u16, V)>, Vec<(u16, V)>)>,
  /// further chained directories
  pub chain: Vec<Node>,
}

/// A TIFF based camera file. The maker note is patched in at its final position.
pub fn tiff(c: Camera, be: bool, vf: bool, gap: usize) -> Vec<u8> {
  let Camera { root, mut exif, mn, chain } = c;
  let hole = mn.as_ref().map(|(k, i, s)| {
    let n = note(*k, i, s, be, 0).len();
    let mut p = b"<place of the maker note>".to_vec();
    p.extend((0..n).map(|i| (i * 167 + 13) as u8));
    p.truncate(n.max(8));
    p
  });
  if let Some(p) = &hole {
    exif.set(37500, V::Undefined(p.clone()));
  }
  let root = if exif.items.is_empty() { root } else { root.item(0x8769, Item::Dirs(vec![exif], 4)) };
  let mut all = vec![root];
  all.extend(chain);
  let mut f = build(&all, be, vf, gap);
  if let (Some(p), Some((k, i, s))) = (&hole, &mn) {
    let at = f.windows(p.len()).position(|w| w == &p[..]).expect("place of the maker note");
    let n = note(*k, i, s, be, at as u32);
    f[at..at + n.len()].copy_from_slice(&n);
  }
  f
}

/// Overwrite the first LONG with tag `tag` in the file's structure: find a unique marker value.
pub fn patch4(f: &mut [u8], marker: u32, v: u32, be: bool) {
  let m = if be { marker.to_be_bytes() } else { marker.to_le_bytes() };
  let p: Vec<usize> = f.windows(4).enumerate().filter(|(_, w)| *w == m).map(|(i, _)| i).collect();
  assert_eq!(p.len(), 1, "marker {marker:x}");
  f[p[0]..p[0] + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
}

/// A picture of luma and subsampled chroma, values of `prec` bits.
#[derive(Clone)]
pub struct Yuv {
  pub w: usize,
  pub h: usize,
  /// horizontal and vertical subsampling
  pub sh: usize,
  pub sv: usize,
  pub y: Vec<u16>,
  /// (w/sh) x (h/sv)
  pub cb: Vec<u16>,
  pub cr: Vec<u16>,
}

/// Lossless JPEG of interleaved units with subsampling; `sony` selects that maker's luma prediction in 4:2:0.
pub fn yuv_ljpeg(im: &Yuv, prec: u8, sony: bool) -> Vec<u8> {
  let (bw, bh) = (im.w / im.sh, im.h / im.sv);
  let y = |r: usize, c: usize| im.y[r * im.w + c] as i32;
  let base = 1i32 << (prec - 1);
  // (component, difference) in stream order
  let mut d: Vec<(usize, i32)> = vec![];
  for br in 0..bh {
    for bc in 0..bw {
      let (r, c) = (br * im.sv, bc * im.sh);
      let above = br > 0 && bc == 0;
      // prediction of the first luma sample of the unit
      let mut p = if br == 0 && bc == 0 {
        base
      } else if above {
        y(r - im.sv, 0)
      } else if sony || im.sv == 1 {
        y(r, c - 1)
      } else {
        y(r + im.sv - 1, c - 1)
      };
      for v in 0..im.sv {
        if sony && v == 1 {
          p = if bc == 0 { y(r, 0) } else { y(r + 1, c - 1) };
        }
        for h in 0..im.sh {
          let x = y(r + v, c + h);
          d.push((0, x - p));
          p = x;
        }
      }
      for (k, pl) in [(1, &im.cb), (2, &im.cr)] {
        let x = pl[br * bw + bc] as i32;
        let p = if br == 0 && bc == 0 {
          base
        } else if above {
          pl[(br - 1) * bw] as i32
        } else {
          pl[br * bw + bc - 1] as i32
        };
        d.push((k, x - p));
      }
    }
  }
  // luma and chroma tables of all classes, the second in reverse order of length
  let t0: Vec<(u8, u8)> = (0..=16u8).map(|c| (c, if c < 4 { 3 } else if c < 8 { 4 } else { 7 })).collect();
  let t1: Vec<(u8, u8)> = (0..=16u8).map(|c| (16 - c, if c < 4 { 3 } else if c < 8 { 4 } else { 7 })).collect();
  let mut by0 = t0.clone();
  let mut by1 = t1.clone();
  by0.sort_by_key(|x| x.1);
  by1.sort_by_key(|x| x.1);
  let tabs = [Table::from_lengths(&by0), Table::from_lengths(&by1)];
  let mut o = vec![0xff, 0xd8];
  for (i, t) in tabs.iter().enumerate() {
    let codes = t.codes();
    let mut counts = [0u8; 16];
    for (l, _, _) in &codes {
      counts[*l as usize - 1] += 1;
    }
    o.extend([0xff, 0xc4]);
    o.extend((2 + 1 + 16 + codes.len() as u16).to_be_bytes());
    o.push(i as u8);
    o.extend(counts);
    o.extend(codes.iter().map(|c| c.2));
  }
  o.extend([0xff, 0xc3]);
  o.extend((8u16 + 9).to_be_bytes());
  o.push(prec);
  o.extend((im.h as u16).to_be_bytes());
  o.extend((im.w as u16).to_be_bytes());
  o.push(3);
  o.extend([1, (im.sh as u8) << 4 | im.sv as u8, 0, 2, 0x11, 0, 3, 0x11, 0]);
  o.extend([0xff, 0xda]);
  o.extend((6u16 + 6).to_be_bytes());
  o.extend([3, 1, 0x00, 2, 0x10, 3, 0x10, 1, 0, 0]);
  let maps: Vec<std::collections::HashMap<u8, (u8, u32)>> = tabs.iter().map(|t| t.codes().into_iter().map(|(l, c, v)| (v, (l, c))).collect()).collect();
  let mut b = BitW::new();
  for (k, x) in d {
    let (class, bits) = classify(x as i16 as u16);
    let (l, c) = maps[(k > 0) as usize][&class];
    b.put(l, c);
    if class < 16 {
      b.put(class, bits);
    }
  }
  o.extend(b.finish());
  o.extend([0xff, 0xd9]);
  o
}

/// Full resolution chroma: missing positions are the rounded mean of the neighbours (first across, then down), edges repeat.
pub fn yuv_full(im: &Yuv, interpolate: bool) -> Vec<[i32; 3]> {
  let bw = im.w / im.sh;
  let mut o = vec![[0i32; 3]; im.w * im.h];
  for r in 0..im.h {
    for c in 0..im.w {
      o[r * im.w + c][0] = im.y[r * im.w + c] as i32;
    }
  }
  for (k, pl) in [(1, &im.cb), (2, &im.cr)] {
    // chroma of a coarse row at a full column
    let at = |br: usize, c: usize| -> i32 {
      let bc = c / im.sh;
      let v = pl[br * bw + bc] as i32;
      if interpolate && c % im.sh == 1 && bc + 1 < bw { (v + pl[br * bw + bc + 1] as i32 + 1) / 2 } else { v }
    };
    for r in 0..im.h {
      let br = r / im.sv;
      for c in 0..im.w {
        let v = at(br, c);
        o[r * im.w + c][k] = if interpolate && r % im.sv == 1 && (br + 1) * im.sv < im.h { (v + at(br + 1, c) + 1) / 2 } else { v };
      }
    }
  }
  o
}

/// Sony's stream cipher (its own inverse) over 32 bit words; `len` rounded down to words.
pub fn sony_cipher(data: &[u8], key: u32) -> Vec<u8> {
  let mut pad = vec![0u32; 128];
  let mut k = key;
  for p in pad.iter_mut().take(4) {
    k = k.wrapping_mul(48828125).wrapping_add(1);
    *p = k;
  }
  pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
  for p in 4..127 {
    pad[p] = (pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31;
  }
  let mut pad: Vec<u32> = pad.iter().map(|x| x.swap_bytes()).collect();
  let mut o = vec![];
  for (i, w) in data.chunks_exact(4).enumerate() {
    let p = (i + 127) % 128;
    pad[p] = pad[(p + 1) % 128] ^ pad[(p + 65) % 128];
    o.extend((u32::from_le_bytes([w[0], w[1], w[2], w[3]]) ^ pad[p]).to_le_bytes());
  }
  o
}
