//! Reference development: levels, colour reconstruction, geometry, colour and tone, in f64 from the published descriptions.

pub type Px<const N: usize> = Vec<[f64; N]>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct R {
  pub x: usize,
  pub y: usize,
  pub w: usize,
  pub h: usize,
}

pub fn cut<T: Clone>(v: &[T], w: usize, r: R) -> Vec<T> {
  (0..r.h).flat_map(|y| v[(r.y + y) * w + r.x..(r.y + y) * w + r.x + r.w].to_vec()).collect()
}

/// Colour letter index of a repeating pattern at a position.
pub fn at(pat: &[usize], y: usize, x: usize) -> usize {
  let n = if pat.len() == 4 { 2 } else { 6 };
  pat[y % n * n + x % n]
}
pub fn shifted(pat: &[usize], x: usize, y: usize) -> Vec<usize> {
  let n = if pat.len() == 4 { 2 } else { 6 };
  (0..n * n).map(|i| at(pat, i / n + y, i % n + x)).collect()
}

/// Patterned pixel grouping (Chuan-kai Lin). The outer three rows and columns are averages of the 3x3 neighbourhood.
pub fn ppg(v: &[f64], w: usize, h: usize, pat: &[usize]) -> Px<3> {
  let c = |y: usize, x: usize| at(pat, y, x);
  let s = |y: usize, x: usize| v[y * w + x];
  let inner = |y: usize, x: usize| y >= 3 && x >= 3 && y + 3 < h && x + 3 < w;
  let mut o: Px<3> = vec![[0.0; 3]; w * h];
  for y in 0..h {
    for x in 0..w {
      o[y * w + x][c(y, x)] = s(y, x);
      if inner(y, x) {
        continue;
      }
      for k in 0..3 {
        if k == c(y, x) {
          continue;
        }
        let (mut sum, mut n) = (0.0, 0);
        for yy in y.saturating_sub(1)..=(y + 1).min(h - 1) {
          for xx in x.saturating_sub(1)..=(x + 1).min(w - 1) {
            if c(yy, xx) == k {
              sum += s(yy, xx);
              n += 1;
            }
          }
        }
        if n > 0 {
          o[y * w + x][k] = sum / n as f64;
        }
      }
    }
  }
  // green at red and blue
  for y in 0..h {
    for x in 0..w {
      if !inner(y, x) || c(y, x) == 1 {
        continue;
      }
      let m = s(y, x);
      let g = [s(y - 1, x), s(y, x + 1), s(y, x - 1), s(y + 1, x)]; // n e w s
      let f = [s(y - 2, x), s(y, x + 2), s(y, x - 2), s(y + 2, x)];
      let opp = [3, 2, 1, 0];
      let grad: Vec<f64> = (0..4).map(|k| (m - f[k]).abs() * 2.0 + (g[k] - g[opp[k]]).abs()).collect();
      let k = (0..4).min_by(|a, b| grad[*a].partial_cmp(&grad[*b]).unwrap()).unwrap();
      o[y * w + x][1] = (3.0 * g[k] + g[opp[k]] + m - f[k]) / 4.0;
    }
  }
  let hue = |l1: f64, l2: f64, l3: f64, v1: f64, v3: f64| {
    if (l1 < l2 && l2 < l3) || (l1 > l2 && l2 > l3) { v1 + (v3 - v1) * (l2 - l1) / (l3 - l1) } else { (v1 + v3) / 2.0 + (2.0 * l2 - l1 - l3) / 4.0 }
  };
  let g = |o: &Px<3>, y: usize, x: usize| o[y * w + x][1];
  for y in 0..h {
    for x in 0..w {
      if !inner(y, x) {
        continue;
      }
      if c(y, x) == 1 {
        let gl = [g(&o, y, x - 1), g(&o, y, x), g(&o, y, x + 1)];
        let gv = [g(&o, y - 1, x), g(&o, y, x), g(&o, y + 1, x)];
        let (a, b) = (hue(gl[0], gl[1], gl[2], s(y, x - 1), s(y, x + 1)), hue(gv[0], gv[1], gv[2], s(y - 1, x), s(y + 1, x)));
        o[y * w + x][c(y, x + 1)] = a;
        o[y * w + x][c(y + 1, x)] = b;
      } else {
        let k = 2 - c(y, x);
        let m = s(y, x);
        let d = |sx: isize| -> (f64, f64) {
          let p = |n: isize| ((y as isize - n) as usize, (x as isize + sx * n) as usize);
          let ((y1, x1), (y2, x2), (y3, x3), (y4, x4)) = (p(1), p(-1), p(2), p(-2));
          let grad = (s(y1, x1) - s(y2, x2)).abs() + (s(y3, x3) - m).abs() + (m - s(y4, x4)).abs() + (g(&o, y1, x1) - g(&o, y, x)).abs() + (g(&o, y, x) - g(&o, y2, x2)).abs();
          (grad, hue(g(&o, y1, x1), g(&o, y, x), g(&o, y2, x2), s(y1, x1), s(y2, x2)))
        };
        let (ne, nw) = (d(1), d(-1));
        o[y * w + x][k] = if ne.0 < nw.0 { ne.1 } else { nw.1 };
      }
    }
  }
  o
}

/// Four colours in a 2x2 pattern: each missing colour is the mean of its nearest samples (mirrored inward at the edges).
pub fn bilinear4(v: &[f64], w: usize, h: usize, pat: &[usize]) -> Px<4> {
  let mut o = vec![[0.0; 4]; w * h];
  for y in 0..h {
    for x in 0..w {
      for k in 0..4 {
        let (mut sum, mut n) = (0.0, 0);
        for dy in -1i64..=1 {
          for dx in -1i64..=1 {
            let (yy, xx) = (y as i64 + dy, x as i64 + dx);
            if yy >= 0 && xx >= 0 && (yy as usize) < h && (xx as usize) < w && at(pat, yy as usize, xx as usize) == k {
              sum += v[yy as usize * w + xx as usize];
              n += 1;
            }
          }
        }
        o[y * w + x][k] = sum / n as f64;
      }
    }
  }
  o
}

/// One output pixel per 2x2 block.
pub fn superpixel<const N: usize>(v: &[f64], w: usize, h: usize, pat: &[usize]) -> Px<N> {
  let mut o = vec![];
  for y in 0..h / 2 {
    for x in 0..w / 2 {
      let mut p = [0.0; N];
      for k in 0..N {
        let hit: Vec<f64> = (0..4).filter(|i| at(pat, 2 * y + i / 2, 2 * x + i % 2) == k).map(|i| v[(2 * y + i / 2) * w + 2 * x + i % 2]).collect();
        p[k] = hit.iter().sum::<f64>() / hit.len() as f64;
      }
      o.push(p);
    }
  }
  o
}

/// X-Trans: mean of all samples of a colour in the 5x5 neighbourhood.
pub fn xtrans_mean(v: &[f64], w: usize, h: usize, pat: &[usize]) -> Px<3> {
  let mut o = vec![[0.0; 3]; w * h];
  for y in 0..h {
    for x in 0..w {
      let mut a = [(0.0, 0); 3];
      for yy in y.saturating_sub(2)..(y + 3).min(h) {
        for xx in x.saturating_sub(2)..(x + 3).min(w) {
          let e = &mut a[at(pat, yy, xx)];
          *e = (e.0 + v[yy * w + xx], e.1 + 1);
        }
      }
      o[y * w + x] = a.map(|(s, n)| if n > 0 { s / n as f64 } else { 0.0 });
    }
  }
  o
}

/// sRGB primaries, D65 (Lindbloom).
const RGB_XYZ: [[f64; 3]; 3] = [[0.4124564, 0.3575761, 0.1804375], [0.2126729, 0.7151522, 0.0721750], [0.0193339, 0.1191920, 0.9503041]];

/// Camera to sRGB of a D65 colour matrix (n rows of XYZ to camera).
pub fn cam_to_rgb(m: &[f64]) -> Vec<[f64; 4]> {
  let n = m.len() / 3;
  // rgb -> camera, white maps to all ones
  let a: Vec<[f64; 3]> = (0..n)
    .map(|i| {
      let r: [f64; 3] = std::array::from_fn(|j| (0..3).map(|k| m[i * 3 + k] * RGB_XYZ[k][j]).sum());
      let s: f64 = r.iter().sum();
      r.map(|v| v / s)
    })
    .collect();
  // (AtA)^-1 At with the adjugate
  let q: [[f64; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| a.iter().map(|r| r[i] * r[j]).sum()));
  let cof = |i: usize, j: usize| {
    let (a, b, c, d) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3);
    q[a][c] * q[b][d] - q[a][d] * q[b][c]
  };
  let det: f64 = (0..3).map(|j| q[0][j] * cof(0, j)).sum();
  (0..3).map(|i| std::array::from_fn(|k| if k < n { (0..3).map(|j| cof(j, i) / det * a[k][j]).sum() } else { 0.0 })).collect()
}

/// White balance and colour; the second value tells that the result is at a point where the highlight handling jumps.
pub fn color<const N: usize>(p: &[f64; N], wb: &[f64], m: &[[f64; 4]]) -> ([f64; 3], bool) {
  let c: [f64; 3] = std::array::from_fn(|i| (0..N).map(|k| m[i][k] * p[k] * wb[k]).sum::<f64>().max(0.0));
  let top = c.iter().fold(0.0f64, |a, b| a.max(*b));
  let edge = (top - 1.0).abs() < 1e-4;
  if top > 1.0 {
    let norm = (c.iter().map(|v| v * v).sum::<f64>() / 3.0).sqrt();
    (c.map(|v| (v / top + norm) / 2.0), edge)
  } else {
    (c, edge)
  }
}

pub fn srgb(v: f64) -> f64 {
  if v <= 0.00304 { 12.92 * v } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 }
}

/// Fuji sensors turned by 45 degrees: the inscribed rectangle, turned back around the centre.
pub fn unturn(v: &Px<3>, w: usize, h: usize, t: usize) -> (Px<3>, usize, usize) {
  let q = std::f64::consts::SQRT_2;
  let (a, b) = ((t as f64 * q).floor() as usize, ((w - t) as f64 * q).floor() as usize);
  let (ow, oh) = (a.max(b), a.min(b));
  let mut o = vec![[0.0; 3]; ow * oh];
  for y in 0..oh {
    for x in 0..ow {
      let (dx, dy) = (x as f64 - ow as f64 / 2.0, y as f64 - oh as f64 / 2.0);
      let (sx, sy) = ((dx + dy) / q + w as f64 / 2.0, (dy - dx) / q + h as f64 / 2.0);
      let near = (sx.round(), sy.round());
      if near.0 < 0.0 || near.1 < 0.0 || near.0 >= w as f64 || near.1 >= h as f64 {
        continue;
      }
      let (x0, y0) = (sx.floor(), sy.floor());
      let p = &mut o[y * ow + x];
      if x0 < 0.0 || y0 < 0.0 || x0 + 1.0 >= w as f64 || y0 + 1.0 >= h as f64 {
        *p = v[near.1 as usize * w + near.0 as usize];
      } else {
        let (fx, fy) = (sx - x0, sy - y0);
        let k = y0 as usize * w + x0 as usize;
        for c in 0..3 {
          p[c] = v[k][c] * (1.0 - fx) * (1.0 - fy) + v[k + 1][c] * fx * (1.0 - fy) + v[k + w][c] * (1.0 - fx) * fy + v[k + w + 1][c] * fx * fy;
        }
      }
    }
  }
  (o, ow, oh)
}
