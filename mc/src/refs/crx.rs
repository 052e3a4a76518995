//! Independent encoder for Canon CRX images (the raw image data of CR3 files):
//! adaptive Golomb-Rice bands, reversible 5/3 wavelet, tiles with shared border coefficients, quantisation steps.
use super::vendor::B;

const J: [u32; 32] = [0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 14, 15];

pub type Grid = Vec<Vec<i32>>;

#[derive(Default)]
struct Coder {
  b: B,
  k: u32,
  run: usize,
}
fn zigzag(v: i32) -> u32 {
  if v < 0 { (-v as u32) * 2 - 1 } else { v as u32 * 2 }
}
impl Coder {
  fn value(&mut self, v: u32, esc: u32, esc_bits: u32) {
    let q = v >> self.k;
    if q >= esc {
      assert!(v < 1 << esc_bits);
      (0..esc).for_each(|_| self.b.msb(1, 0));
      self.b.msb(1, 1);
      self.b.msb(esc_bits, v);
    } else {
      (0..q).for_each(|_| self.b.msb(1, 0));
      self.b.msb(1, 1);
      self.b.msb(self.k, v & ((1 << self.k) - 1));
    }
  }
  fn adapt(&mut self, v: u32, max: u32) {
    let q = v >> self.k;
    let mut k = self.k;
    if q > 2 {
      k += 1;
    }
    if q > 5 {
      k += 1;
    }
    if self.k > 0 && v < 1 << (self.k - 1) {
      k -= 1;
    }
    self.k = if max > 0 { k.min(max) } else { k };
  }
  fn v(&mut self, v: u32) {
    self.value(v, 41, 21)
  }
  /// A run of n symbols out of `left` places (n >= 1).
  fn run(&mut self, n: usize, left: usize) {
    let mut c = 1;
    while c != left {
      let step = 1usize << J[self.run];
      if n - c >= step {
        self.b.msb(1, 1);
        c += step;
        self.run = (self.run + 1).min(31);
      } else if n == left {
        self.b.msb(1, 1);
        return;
      } else {
        self.b.msb(1, 0);
        self.b.msb(J[self.run], (n - c) as u32);
        self.run = self.run.saturating_sub(1);
        return;
      }
    }
  }
}
fn med(a: i32, b: i32, c: i32) -> i32 {
  // median of a, b, a+b-c
  let d = a + b - c;
  a.max(b).min(a.min(b).max(d))
}

/// Low band: predicted from the neighbours.
pub fn low_band(g: &Grid) -> Vec<u8> {
  let mut e = Coder::default();
  for (r, row) in g.iter().enumerate() {
    let n = row.len();
    let up = |i: usize| g[r - 1][i];
    let mut i = 0;
    while i < n {
      let left = n - i;
      let a = if i > 0 { row[i - 1] } else if r > 0 { up(0) } else { 0 };
      let c = if r == 0 { 0 } else if i > 0 { up(i - 1) } else { up(0) };
      if r == 0 {
        let mut pred = a;
        if left > 1 && a == 0 {
          let run = row[i..].iter().take_while(|v| **v == 0).count();
          e.b.msb(1, (run > 0) as u32);
          if run > 0 {
            e.run(run, left);
            i += run;
            if i == n {
              break;
            }
          }
          pred = 0;
        }
        let z = zigzag(row[i] - pred);
        e.v(z);
        e.adapt(z, 15);
        i += 1;
        continue;
      }
      let mut pred = med(a, up(i), c);
      let mut last = left == 1;
      if left > 1 && a == up(i) && a == up(i + 1) {
        let run = row[i..].iter().take_while(|v| **v == a).count();
        e.b.msb(1, (run > 0) as u32);
        if run > 0 {
          e.run(run, left);
          i += run;
          if i == n {
            break;
          }
        }
        pred = up(i);
        last = i + 1 == n;
      }
      let z = zigzag(row[i] - pred);
      e.v(z);
      if last {
        e.adapt(z, 15);
      } else {
        e.adapt((z + 2 * (up(i + 1) - up(i)).unsigned_abs()) >> 1, 15);
      }
      i += 1;
    }
  }
  e.b.bytes_msb()
}

/// High bands: values themselves, the parameter follows the line above.
pub fn high_band(g: &Grid) -> Vec<u8> {
  let mut e = Coder::default();
  let w = g[0].len();
  let mut ks = vec![0u32; w + 1];
  for (r, row) in g.iter().enumerate() {
    let up = |i: usize| g[r - 1][i];
    let mut i = 0;
    while i < w {
      let left = w - i;
      let a = if i > 0 { row[i - 1] } else { 0 };
      if left == 1 {
        e.v(zigzag(row[i]));
        e.adapt(zigzag(row[i]), 15);
        ks[i] = e.k;
        break;
      }
      let quiet = if r == 0 { a == 0 } else { a == 0 && up(i) == 0 && up(i + 1) == 0 };
      let mut off = 0;
      if quiet {
        let run = row[i..].iter().take_while(|v| **v == 0).count();
        e.b.msb(1, (run > 0) as u32);
        if run > 0 {
          e.run(run, left);
          ks[i..i + run].fill(0);
          i += run;
          if i == w {
            break;
          }
        }
        // cannot be zero
        off = 1;
      }
      let z = zigzag(row[i]) - off;
      e.v(z);
      if r == 0 || i + 1 == w {
        e.adapt(z, 15);
      } else {
        e.adapt(z, 0);
        if ks[i + 1] as i32 - e.k as i32 <= 1 {
          e.k = e.k.min(15);
        } else {
          e.k += 1;
        }
      }
      ks[i] = e.k;
      i += 1;
    }
  }
  e.b.bytes_msb()
}

/// The quantisation parameters of a tile.
pub fn qp_data(g: &Grid) -> Vec<u8> {
  let mut e = Coder::default();
  for (r, row) in g.iter().enumerate() {
    for i in 0..row.len() {
      let v = row[i] - 4;
      let u = |i: usize| g[r - 1][i] - 4;
      if r == 0 {
        let z = zigzag(v - if i > 0 { row[i - 1] - 4 } else { 0 });
        e.value(z, 23, 8);
        e.adapt(z, 7);
      } else {
        let a = if i > 0 { row[i - 1] - 4 } else { u(0) };
        let c = if i > 0 { u(i - 1) } else { u(0) };
        let z = zigzag(v - med(a, u(i), c));
        e.value(z, 23, 8);
        if i + 1 < row.len() {
          e.adapt((z + 2 * (u(i + 1) - u(i)).unsigned_abs()) >> 1, 7);
        } else {
          e.adapt(z, 7);
        }
      }
    }
  }
  e.b.bytes_msb()
}

/// Step of a quantisation parameter.
pub fn step(q: i32) -> u32 {
  let t = [0x28u32, 0x2D, 0x33, 0x39, 0x40, 0x48][q as usize % 6];
  if q / 6 >= 6 { t << (q / 6 - 6) } else { t >> (6 - q / 6) }
}

/// One-dimensional inverse 5/3 with symmetric borders.
pub fn inverse(l: &[i32], h: &[i32]) -> Vec<i32> {
  let n = l.len() + h.len();
  if n == 1 {
    return l.to_vec();
  }
  let hh = |i: isize| h[i.clamp(0, h.len() as isize - 1) as usize];
  let even: Vec<i32> = (0..l.len() as isize).map(|i| l[i as usize] - ((hh(i - 1) + hh(i) + 2) >> 2)).collect();
  (0..n).map(|i| if i % 2 == 0 { even[i / 2] } else { h[i / 2] + ((even[i / 2] + even[(i / 2 + 1).min(even.len() - 1)]) >> 1) }).collect()
}
/// Two-dimensional: rows first, then columns.
pub fn inverse2(ll: &Grid, hl: &Grid, lh: &Grid, hh: &Grid) -> Grid {
  let lo: Grid = ll.iter().zip(hl).map(|(a, b)| inverse(a, b)).collect();
  let hi: Grid = lh.iter().zip(hh).map(|(a, b)| inverse(a, b)).collect();
  let w = lo[0].len();
  let mut out = vec![vec![0; w]; lo.len() + hi.len()];
  for x in 0..w {
    let l: Vec<i32> = lo.iter().map(|r| r[x]).collect();
    let h: Vec<i32> = hi.iter().map(|r| r[x]).collect();
    for (y, v) in inverse(&l, &h).into_iter().enumerate() {
      out[y][x] = v;
    }
  }
  out
}

/// Forward transforms, to make a band structure for given samples.
pub fn forward(s: &[i32]) -> (Vec<i32>, Vec<i32>) {
  let n = s.len();
  if n == 1 {
    return (s.to_vec(), vec![]);
  }
  let h: Vec<i32> = (0..n / 2).map(|i| s[2 * i + 1] - ((s[2 * i] + s[if 2 * i + 2 < n { 2 * i + 2 } else { 2 * i }]) >> 1)).collect();
  let hh = |i: isize| h[i.clamp(0, h.len() as isize - 1) as usize];
  let l = (0..n.div_ceil(2) as isize).map(|i| s[2 * i as usize] + ((hh(i - 1) + hh(i) + 2) >> 2)).collect();
  (l, h)
}
/// Returns LL, HL, LH, HH.
pub fn forward2(g: &Grid) -> [Grid; 4] {
  let w = g[0].len();
  let (mut lo, mut hi) = (vec![vec![0; w]; g.len().div_ceil(2)], vec![vec![0; w]; g.len() / 2]);
  for x in 0..w {
    let col: Vec<i32> = g.iter().map(|r| r[x]).collect();
    let (l, h) = forward(&col);
    l.into_iter().enumerate().for_each(|(y, v)| lo[y][x] = v);
    h.into_iter().enumerate().for_each(|(y, v)| hi[y][x] = v);
  }
  let split = |rows: Grid| -> (Grid, Grid) { rows.iter().map(|r| forward(r)).unzip() };
  let (ll, hl) = split(lo);
  let (lh, hh) = split(hi);
  [ll, hl, lh, hh]
}

/// Description of one image.
#[derive(Clone)]
pub struct Image {
  pub w: usize,
  pub h: usize,
  pub tile_w: usize,
  pub tile_h: usize,
  pub levels: usize,
  pub enc: u8,
  pub bits: u8,
  pub median: Option<u8>,
  pub v2: bool,
}
/// Quantisation of version 2: parameters per tile and (base, multiplier) per band.
pub struct Quant {
  pub qp: Vec<Grid>,
  pub band: Vec<(i32, u16)>,
}

/// `planes[p]` are the bands of the whole plane: levels == 0: [samples]; else [LL, HL, LH, HH of the coarsest, HL, LH, HH of the next, ...].
/// `qparam` per band (version 1). Returns header and data.
pub fn encode(im: &Image, planes: &[Vec<Grid>], qparam: &[u32], quant: Option<&Quant>) -> (Vec<u8>, usize) {
  let (mut hdr, mut data): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
  let (cols, rows) = (im.w.div_ceil(im.tile_w), im.h.div_ceil(im.tile_h));
  let m = |n: u16, k: u16| (0xFF00 | if im.v2 { 0x10 } else { 0 } | n).to_be_bytes().into_iter().chain(k.to_be_bytes()).collect::<Vec<u8>>();
  for t in 0..cols * rows {
    let (tx, ty) = (t % cols, t / cols);
    let (x0, x1) = (tx * im.tile_w / 2, ((tx + 1) * im.tile_w).min(im.w) / 2);
    let (y0, y1) = (ty * im.tile_h / 2, ((ty + 1) * im.tile_h).min(im.h) / 2);
    let (mut thdr, mut tdata): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    for (p, bands) in planes.iter().enumerate() {
      let (mut phdr, mut pdata): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
      for (k, band) in bands.iter().enumerate() {
        let (bx, by) = ranges(im.levels, k, (x0, x1, tx + 1 == cols), (y0, y1, ty + 1 == rows));
        let part: Grid = band[by.0..by.1].iter().map(|r| r[bx.0..bx.1].to_vec()).collect();
        let mut d = if k == 0 { low_band(&part) } else { high_band(&part) };
        let used = d.len();
        d.resize(used.next_multiple_of(8), 0);
        let pad = d.len() - used;
        phdr.extend(m(3, if im.v2 { 16 } else { 8 }));
        phdr.extend((d.len() as u32).to_be_bytes());
        if im.v2 {
          let (base, mul) = quant.map_or((1, 0), |q| q.band[k]);
          phdr.extend(((k as u16) << 12).to_be_bytes());
          phdr.extend(mul.to_be_bytes());
          phdr.extend(base.to_be_bytes());
          phdr.extend((pad as u16).to_be_bytes());
          phdr.extend([0, 0]);
        } else {
          phdr.extend(((k as u32) << 28 | qparam[k] << 19 | pad as u32).to_be_bytes());
        }
        pdata.extend(d);
      }
      thdr.extend(m(2, 8));
      thdr.extend((pdata.len() as u32).to_be_bytes());
      thdr.extend(((p as u32) << 28 | 1 << 27).to_be_bytes());
      thdr.extend(phdr);
      tdata.extend(pdata);
    }
    if let Some(q) = quant {
      let mut d = qp_data(&q.qp[t]);
      let n = d.len();
      d.resize((n + 3).next_multiple_of(8), 0xAA);
      hdr.extend(m(1, 16));
      hdr.extend(((d.len() + tdata.len()) as u32).to_be_bytes());
      hdr.extend(((t as u32) << 16 | 0x4000).to_be_bytes());
      hdr.extend((n as u32).to_be_bytes());
      hdr.extend(((d.len() - n) as u16).to_be_bytes());
      hdr.extend([0, 0]);
      data.extend(d);
    } else {
      hdr.extend(m(1, 8));
      hdr.extend((tdata.len() as u32).to_be_bytes());
      hdr.extend(((t as u32) << 16).to_be_bytes());
    }
    hdr.extend(thdr);
    data.extend(tdata);
  }
  let n = hdr.len();
  hdr.extend(data);
  (hdr, n)
}
/// Coefficients a tile needs from band k, in plane coordinates: everything that contributes to its samples.
fn ranges(levels: usize, k: usize, x: (usize, usize, bool), y: (usize, usize, bool)) -> ((usize, usize), (usize, usize)) {
  if levels == 0 {
    return ((x.0, x.1), (y.0, y.1));
  }
  // level of the band counted from the finest (1..)
  let lev = if k == 0 { levels } else { levels - (k - 1) / 3 };
  let (hx, hy) = if k == 0 { (false, false) } else { [(true, false), (false, true), (true, true)][(k - 1) % 3] };
  let go = |(mut a, mut b, last): (usize, usize, bool), high: bool| {
    for l in 1..=lev {
      let hi = high && l == lev;
      let (na, nb) = if hi {
        (a / 2 - (a > 0) as usize, if last { b / 2 } else { b / 2 + 1 })
      } else {
        // an even end needs the next even sample, too
        (a / 2, if last || b % 2 == 1 { b.div_ceil(2) } else { b / 2 + 1 })
      };
      a = na;
      b = nb;
    }
    (a, b)
  };
  (go(x, hx), go(y, hy))
}

/// Decoded planes to the mosaic.
pub fn mosaic(im: &Image, p: &[Grid; 4]) -> Vec<u16> {
  let bits = im.median.unwrap_or(im.bits) as u32;
  let max = (1i64 << bits) - 1;
  let mid = 1i64 << (bits - 1);
  let mut out = vec![0u16; im.w * im.h];
  for y in 0..im.h / 2 {
    for x in 0..im.w / 2 {
      let v: Vec<i64> = p.iter().map(|g| g[y][x] as i64).collect();
      let c = if im.enc == 3 {
        // luminance and differences, in steps of 1/1024
        let base = (mid + v[0]) << 10;
        let g = base - 168 * v[1] - 585 * v[3];
        let gr = (((g.abs() + 512) >> 9) & !1) * g.signum();
        [(base + 1510 * v[3] + 512) >> 10, (v[2] + gr + 1) >> 1, (gr - v[2] + 1) >> 1, (base + 1927 * v[1] + 512) >> 10]
      } else {
        [mid + v[0], mid + v[1], mid + v[2], mid + v[3]]
      };
      for k in 0..4 {
        out[(2 * y + k / 2) * im.w + 2 * x + k % 2] = c[k].clamp(0, max) as u16;
      }
    }
  }
  out
}
