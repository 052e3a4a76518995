//! Reference encoders of vendor raw compressions, written from the published format descriptions
//! (bit-by-bit, no shared code with the decoders under test).
#![allow(clippy::needless_range_loop)]

/// A sequence of bits, in the order a reader consumes them.
#[derive(Default, Clone)]
pub struct B(pub Vec<bool>);
impl B {
  pub fn msb(&mut self, n: u32, v: u32) {
    for k in (0..n).rev() {
      self.0.push(v >> k & 1 == 1);
    }
  }
  pub fn lsb(&mut self, n: u32, v: u32) {
    for k in 0..n {
      self.0.push(v >> k & 1 == 1);
    }
  }
  /// first bit is the top bit of the first byte
  pub fn bytes_msb(&self) -> Vec<u8> {
    self.0.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << (7 - i)).sum()).collect()
  }
  pub fn bytes_lsb(&self) -> Vec<u8> {
    self.0.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect()
  }
  /// little-endian 32-bit words, each consumed from its top bit
  pub fn bytes_msb32(&self) -> Vec<u8> {
    let mut v = self.bytes_msb();
    while v.len() % 4 != 0 {
      v.push(0);
    }
    v.chunks_exact_mut(4).for_each(|c| c.reverse());
    v
  }
  /// entropy coded JPEG segment: stuffing after FF, padded with ones
  pub fn bytes_jpeg(&self) -> Vec<u8> {
    let mut b = self.clone();
    while b.0.len() % 8 != 0 {
      b.0.push(true);
    }
    let mut out = vec![];
    for x in b.bytes_msb() {
      out.push(x);
      if x == 0xff {
        out.push(0);
      }
    }
    out
  }
}

#[derive(Clone)]
pub struct Im {
  pub w: usize,
  pub h: usize,
  pub d: Vec<u16>,
}
impl Im {
  pub fn at(&self, r: usize, c: usize) -> i32 {
    self.d[r * self.w + c] as i32
  }
}

/// JPEG style magnitude class and extra bits.
pub fn mag(d: i32) -> (u32, u32) {
  let n = 32 - d.unsigned_abs().leading_zeros();
  (n, if d < 0 { (d + (1i32 << n) - 1) as u32 } else { d as u32 })
}

/// Canonical codes from (count per length 1.., values)
pub fn canon(counts: &[u8], vals: &[u8]) -> Vec<(u8, u32, u32)> {
  let mut out = vec![];
  let (mut code, mut k) = (0u32, 0);
  for (l, n) in counts.iter().enumerate() {
    for _ in 0..*n {
      out.push((vals[k], l as u32 + 1, code));
      k += 1;
      code += 1;
    }
    code <<= 1;
  }
  out
}
pub fn code_of(t: &[(u8, u32, u32)], v: u8) -> Option<(u32, u32)> {
  t.iter().find(|x| x.0 == v).map(|x| (x.1, x.2))
}
fn put_diff(b: &mut B, t: &[(u8, u32, u32)], d: i32) -> Option<()> {
  let (s, x) = mag(d);
  let (l, c) = code_of(t, s as u8)?;
  b.msb(l, c);
  b.msb(s, x);
  Some(())
}

/// Sony ARW1: columns from right to left, even rows then odd rows of each column.
pub fn arw1(im: &Im, _v: usize) -> Option<Vec<u8>> {
  let mut b = B::default();
  let mut prev = 0;
  for c in (0..im.w).rev() {
    for r in (0..im.h).step_by(2).chain((1..im.h).step_by(2)) {
      let (n, x) = mag(im.at(r, c) - prev);
      prev = im.at(r, c);
      match n {
        0 => b.msb(3, 0b011),
        1 => b.msb(2, 3),
        2 => b.msb(2, 2),
        3 => b.msb(3, 0b010),
        _ => {
          b.msb(2, 0);
          b.msb(n - 4, 0);
          b.msb(1, 1);
        }
      }
      b.msb(n, x);
    }
  }
  Some(b.bytes_msb())
}

/// Sony SRF stream cipher over 32-bit words; the plain text is 16-bit big-endian samples.
pub fn srf(im: &Im, key: u32) -> Option<Vec<u8>> {
  let mut plain: Vec<u8> = im.d.iter().flat_map(|v| v.to_be_bytes()).collect();
  while plain.len() % 4 != 0 {
    plain.push(0);
  }
  if plain.len() > 5000 {
    return None;
  }
  // lagged generator: x[n+127] = x[n] ^ x[n+64] over byte-swapped words of a shift register seeded by an LCG
  let mut s: Vec<u32> = vec![];
  let mut k = key;
  for _ in 0..4 {
    k = k.wrapping_mul(48828125).wrapping_add(1);
    s.push(k);
  }
  s[3] = s[3] << 1 | (s[0] ^ s[2]) >> 31;
  for i in 4..127 {
    let v = (s[i - 4] ^ s[i - 2]) << 1 | (s[i - 3] ^ s[i - 1]) >> 31;
    s.push(v);
  }
  let mut q: Vec<u32> = s.iter().map(|v| v.swap_bytes()).collect();
  let mut out = vec![];
  out.extend(key.to_le_bytes());
  out.extend((plain.len() as u16).to_le_bytes());
  out.extend([0xEE; 4]);
  for (n, w) in plain.chunks(4).enumerate() {
    // element 127 of the sequence is made of elements 0 (written 128 back = "next" slot) and 64
    let v = ring(&q, n + 1) ^ ring(&q, n + 1 + 64);
    q.push(v);
    for (a, b) in w.iter().zip(v.to_le_bytes()) {
      out.push(a ^ b);
    }
  }
  Some(out)
}
/// The pad is a ring of 128 slots; slot 127 holds zero until first written.
fn ring(q: &[u32], n: usize) -> u32 {
  // the n-th step (1-based) reads the slots (127+n) mod 128 and (127+n+64) mod 128
  let slot = (127 + n) & 127;
  // latest write to that slot
  let mut k = slot;
  let mut best = None;
  while k < q.len() {
    best = Some(q[k]);
    k += 128;
  }
  best.unwrap_or(0)
}

/// Olympus: adaptive Golomb-like coding of differences to a gradient predictor, two interleaved columns.
pub fn orf(im: &Im, v: usize) -> Option<Vec<u8>> {
  let mut b = B::default();
  for r in 0..im.h {
    let mut st = [[0i32; 3]; 2]; // previous magnitude, bias, run of small ones
    for c in 0..im.w {
      let s = c & 1;
      let pred = match (r < 2, c < 2) {
        (true, true) => 0,
        (true, false) => im.at(r, c - 2),
        (false, true) => im.at(r - 2, c),
        _ => {
          let (w, n, nw) = (im.at(r, c - 2), im.at(r - 2, c), im.at(r - 2, c - 2));
          let (dw, dn) = (w - nw, n - nw);
          if (dw < 0 && dn > 0) || (dw > 0 && dn < 0) {
            if dw.abs() > 32 || dn.abs() > 32 { w + n - nw } else { (w + n) >> 1 }
          } else if dw.abs() > dn.abs() {
            w
          } else {
            n
          }
        }
      };
      let i = if st[s][2] < 3 { 2 } else { 0 };
      let mut nb = 2 + i;
      while st[s][0] >> (nb + i) & 0xffff != 0 {
        nb += 1;
      }
      let nb = nb.min(16);
      let delta = im.at(r, c) - pred;
      let (low, diff) = (delta & 3, delta >> 2);
      let t = diff - st[s][1];
      let m = if t < 0 { !t } else { t };
      b.msb(1, (t < 0) as u32);
      b.msb(2, low as u32);
      let high = m >> nb;
      let force = v == 1 && high < (1 << (15 - nb.min(15)));
      if high < 12 && !force {
        b.msb(high as u32, 0);
        b.msb(1, 1);
      } else {
        b.msb(12, 0);
        if high >= 1 << (15 - nb) {
          return None;
        }
        b.msb((16 - nb) as u32, (high as u32) << 1 | (v == 1) as u32);
      }
      b.msb(nb as u32, m as u32 & ((1 << nb) - 1));
      st[s][0] = m;
      st[s][1] = (diff * 3 + st[s][1]) >> 5;
      st[s][2] = if m > 16 { 0 } else { st[s][2] + 1 };
    }
  }
  let mut out = vec![0x5a];
  out.extend(b.bytes_msb());
  Some(out)
}

/// Samsung type 1 with per-row offsets. v: 0 minimal lengths, 1 always explicit lengths, 2 upward prediction where allowed, 3 alternating.
pub fn srw1(im: &Im, v: usize) -> Option<Vec<u8>> {
  // the stored image has the red and blue positions of each 2x2 cell exchanged
  let mut st = im.clone();
  for r in (0..im.h).step_by(2) {
    for c in (0..im.w).step_by(2) {
      st.d.swap(r * im.w + c + 1, (r + 1) * im.w + c);
    }
  }
  let mut rows: Vec<Vec<u8>> = vec![];
  for r in 0..im.h {
    let mut b = B::default();
    let mut len = [if r < 2 { 7i32 } else { 4 }; 4];
    for c0 in (0..im.w).step_by(16) {
      let up = r >= 2 && (v == 2 || v == 3 && (c0 / 16 + r) % 2 == 1);
      let d: Vec<i32> = (0..16)
        .map(|k| {
          let p = if up {
            st.at(if k % 2 == 0 { r - 1 } else { r - 2 }, c0 + k)
          } else if c0 == 0 {
            128
          } else {
            st.at(r, c0 - 2 + k % 2)
          };
          st.at(r, c0 + k) - p
        })
        .collect();
      let mut need = [0i32; 4];
      for (k, x) in d.iter().enumerate() {
        let n = if *x == 0 { 0 } else { 33 - (if *x < 0 { !*x } else { *x }).leading_zeros() as i32 };
        let g = (k & 1) * 2 + k / 8;
        need[g] = need[g].max(n);
      }
      if need.iter().any(|n| *n > 15) {
        return None;
      }
      b.msb(1, up as u32);
      let ops: Vec<u32> = (0..4)
        .map(|g| match need[g] - len[g] {
          0 if v != 1 => 0,
          1 if v != 1 => 1,
          -1 if v != 1 => 2,
          _ => 3,
        })
        .collect();
      ops.iter().for_each(|o| b.msb(2, *o));
      for g in 0..4 {
        if ops[g] == 3 {
          b.msb(4, need[g] as u32);
        }
        len[g] = need[g];
      }
      for par in 0..2 {
        for k in (par..16).step_by(2) {
          let n = need[par * 2 + k / 8] as u32;
          b.msb(n, (d[k] as u32) & ((1u64 << n) - 1) as u32);
        }
      }
    }
    rows.push(b.bytes_msb32());
  }
  // row data need not be stored in order
  let mut order: Vec<usize> = (0..im.h).collect();
  if v % 2 == 1 {
    order.reverse();
  }
  let mut off = vec![0u32; im.h];
  let mut body = vec![];
  for r in order {
    off[r] = body.len() as u32;
    body.extend(&rows[r]);
    if v == 3 {
      body.extend([0xA5; 3]);
    }
  }
  let mut out: Vec<u8> = off.iter().flat_map(|o| o.to_le_bytes()).collect();
  out.extend(body);
  Some(out)
}

pub fn srw2_codes() -> Vec<(u8, u32, u32)> {
  // (code length, difference length) in the order the code space is filled
  let t = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)];
  let mut next = 0u32;
  t.iter()
    .map(|(l, v)| {
      let c = next >> (10 - l);
      next += 1 << (10 - l);
      (*v as u8, *l as u32, c)
    })
    .collect()
}
/// Samsung type 2.
pub fn srw2(im: &Im, _v: usize) -> Option<Vec<u8>> {
  let t = srw2_codes();
  let mut b = B::default();
  for r in 0..im.h {
    for c in 0..im.w {
      let p = if c >= 2 {
        im.at(r, c - 2)
      } else if r >= 2 {
        im.at(r - 2, c)
      } else {
        0
      };
      put_diff(&mut b, &t, im.at(r, c) - p)?;
    }
  }
  Some(b.bytes_msb())
}

/// Samsung type 3 (NX1), driven by choices; returns stream and image.
pub fn srw3(w: usize, h: usize, depth: u32, opt: u32, init: u32, mut choose: impl FnMut(&str, usize) -> usize) -> (Vec<u8>, Vec<u16>) {
  let mut hd = B::default();
  for (n, v) in [(16, 0x0102), (4, 1), (4, depth - 1), (4, 3), (4, 2), (16, w as u32), (16, h as u32), (16, w as u32), (4, 9), (4, opt), (8, 0), (8, 0x55), (8, 1), (2, 1), (14, init)] {
    hd.msb(n, v);
  }
  let mut out = hd.bytes_msb32();
  let mut im = vec![0u16; w * h];
  let max = (1i32 << depth) - 1;
  for r in 0..h {
    while out.len() % 16 != 0 {
      out.push(0xC3);
    }
    let mut b = B::default();
    let mut motion = 7;
    let mut scale = 0i32;
    let mut modes = [[if r < 2 { 7i32 } else { 4 }; 2]; 3];
    for c0 in (0..w).step_by(16) {
      if opt & 4 == 0 && c0 % 64 == 0 {
        let k = choose("scale", 4);
        let k = if k == 1 && scale < 2 { 0 } else { k };
        b.msb(2, k as u32);
        match k {
          1 => scale -= 2,
          2 => scale += 2,
          3 => {
            scale = choose("scale value", 5) as i32;
            b.msb(12, scale as u32);
          }
          _ => {}
        }
      }
      // reference selection
      let refs = |m: usize| -> Option<Vec<u16>> {
        if m == 7 {
          return Some((0..16).map(|k| if c0 == 0 { init as u16 } else { 0 * k as u16 }).collect());
        }
        if r < 2 {
          return None;
        }
        let off = [-4i32, -2, -2, 0, 0, 2, 4][m];
        let avg = m == 2 || m == 4;
        (0..16i32)
          .map(|k| {
            let (rr, mut c) = if (r as i32 + k) % 2 == 1 { (r - 2, c0 as i32 + k) } else { (r - 1, c0 as i32 + if k % 2 == 1 { k - 1 } else { k + 1 }) };
            c += off;
            if c < 0 || c + (if avg { 2 } else { 0 }) >= w as i32 {
              return None;
            }
            let a = im[rr * w + c as usize];
            Some(if avg { ((a as u32 + im[rr * w + c as usize + 2] as u32 + 1) / 2) as u16 } else { a })
          })
          .collect()
      };
      let ok: Vec<usize> = (0..8).filter(|m| refs(*m).is_some()).collect();
      let m = if opt & 2 != 0 {
        let m = if ok.contains(&3) && choose("mv", 2) == 1 { 3 } else { 7 };
        b.msb(1, (m == 3) as u32);
        m
      } else {
        let m = ok[choose("motion", ok.len())];
        if m == motion && choose("keep", 2) == 1 {
          b.msb(1, 1);
        } else {
          b.msb(1, 0);
          b.msb(3, m as u32);
        }
        m
      };
      motion = m;
      let mut base = refs(m).unwrap();
      if m == 7 && c0 > 0 {
        for k in 0..16 {
          base[k] = im[r * w + c0 - 2 + k % 2];
        }
      }
      let mut bits = [0i32; 4];
      let skip = opt & 1 == 0 && choose("skip", 3) == 0;
      if opt & 1 == 0 {
        b.msb(1, skip as u32);
      }
      if !skip {
        let mut flags = [0; 4];
        let mut expl = vec![];
        for g in 0..4 {
          let color = if r % 2 == 1 { g / 2 } else { [2, 0][g / 2] };
          let cur = modes[color][0];
          let mut f = choose("flag", 4);
          if f == 1 && cur + 1 > depth as i32 + 1 || f == 2 && cur == 0 || f == 0 && cur > depth as i32 + 1 {
            f = 3;
          }
          flags[g] = f;
          bits[g] = match f {
            0 => cur,
            1 => cur + 1,
            2 => cur - 1,
            _ => {
              let n = choose("bits", depth as usize + 2).min(15) as i32;
              expl.push(n);
              n
            }
          };
          modes[color] = [modes[color][1], bits[g]];
        }
        flags.iter().for_each(|f| b.msb(2, *f as u32));
        expl.iter().for_each(|n| b.msb(4, *n as u32));
      }
      let mut px = base;
      for i in 0..16 {
        let n = bits[i / 4] as u32;
        let d = if n == 0 {
          0
        } else {
          let (lo, hi) = (-(1i32 << (n - 1)), (1i32 << (n - 1)) - 1);
          [lo, hi, 0, -1, 1.min(hi), lo / 2, hi / 2][choose("diff", 7)]
        };
        b.msb(n, d as u32 & ((1u64 << n) - 1) as u32);
        let pos = if r % 2 == 1 { i % 8 * 2 + 1 - i / 8 } else { i % 8 * 2 + i / 8 };
        px[pos] = (px[pos] as i32 + d * (2 * scale + 1) + scale).clamp(0, max) as u16;
      }
      im[r * w + c0..r * w + c0 + 16].copy_from_slice(&px);
    }
    out.extend(b.bytes_msb32());
  }
  out.extend([0; 16]);
  (out, im)
}

/// Kodak DC120: each row is stored rotated within its 848 bytes.
pub fn dc120(im: &Im, _v: usize) -> Option<Vec<u8>> {
  // only images narrower than a full row can be requested, so later rows may overwrite; report conflicts
  let mut out: Vec<Option<u8>> = vec![None; im.w * im.h + 848];
  for r in 0..im.h {
    let shift = r * [162, 192, 187, 92][r % 4] + [0, 636, 424, 212][r % 4];
    for c in 0..im.w {
      let p = r * im.w + (c + shift) % 848;
      let v = im.at(r, c) as u8;
      if out[p].is_some_and(|x| x != v) {
        return None;
      }
      out[p] = Some(v);
    }
  }
  Some(out.iter().map(|x| x.unwrap_or(0xEE)).collect())
}

/// Panasonic v4: 14 samples per 16-byte packet, read from the top bit of the little-endian 128-bit number.
/// Driven by choices; returns packets and samples.
pub fn pana4(n: usize, mut choose: impl FnMut(&str, usize) -> usize) -> (Vec<u8>, Vec<u16>) {
  let (mut out, mut px) = (vec![], vec![]);
  for _ in 0..n {
    let mut b = B::default();
    let mut pred = [0i32; 2];
    let mut seen = [false; 2];
    let mut sh = 0;
    for i in 0..14 {
      if i % 3 == 2 {
        let k = choose("shift", 4);
        b.msb(2, k as u32);
        sh = [0, 1, 2, 4][k];
      }
      let e = i & 1;
      if seen[e] {
        let j = [0, 1, 0x7f, 0x80, 0x81, 0xff, 0x40][choose("delta", 7)];
        b.msb(8, j as u32);
        if j != 0 {
          pred[e] -= 0x80 << sh;
          if pred[e] < 0 || sh == 4 {
            pred[e] &= (1 << sh) - 1;
          }
          pred[e] += j << sh;
        }
      } else {
        let hi = [0, 1, 0x80, 0xff, 0x2c, 0x10][choose("high", 6)];
        b.msb(8, hi as u32);
        if hi != 0 || i > 11 {
          let lo = [0, 15, 5, 8][choose("low", 4)];
          b.msb(4, lo as u32);
          pred[e] = hi << 4 | lo;
        }
        seen[e] = hi != 0;
      }
      px.push(pred[e] as u16);
    }
    // unused bits at the end of a packet are arbitrary
    while b.0.len() < 128 {
      b.0.push(true);
    }
    assert_eq!(b.0.len(), 128);
    let mut bytes = b.bytes_msb();
    bytes.reverse();
    out.extend(bytes);
  }
  (out, px)
}
/// Block arrangement: 0x4000-byte blocks; when split, the part from `at` on is stored first.
pub fn pana_blocks(packets: &[u8], split: Option<usize>) -> Vec<u8> {
  let mut out = vec![];
  for blk in packets.chunks(0x4000) {
    let mut b = blk.to_vec();
    b.resize(0x4000, 0x77);
    if let Some(at) = split {
      b.rotate_left(at);
    }
    out.extend(b);
  }
  out
}

/// Kodak 65000: per segment 4-bit lengths, then differences in LSB-first order, carried by 16-bit big-endian units.
pub fn kodak65000(im: &Im, _v: usize) -> Option<Vec<u8>> {
  let mut out = vec![];
  for r in 0..im.h {
    let mut prev = [0i32; 2];
    let d: Vec<(u32, u32)> = (0..im.w)
      .map(|c| {
        let x = im.at(r, c) - prev[c & 1];
        prev[c & 1] = im.at(r, c);
        mag(x)
      })
      .collect();
    if d.iter().any(|x| x.0 > 12) {
      return None;
    }
    for p in d.chunks(2) {
      out.push((p[0].0 | p[1].0 << 4) as u8);
    }
    let mut b = B::default();
    d.iter().for_each(|(n, x)| b.lsb(*n, *x));
    // one 16-bit unit up front for odd multiples of four, then pairs of units as they become necessary
    let lead = if im.w & 7 == 4 { 16 } else { 0 };
    let total = if b.0.len() > lead { lead + (b.0.len() - lead).div_ceil(32) * 32 } else { lead };
    b.0.resize(total, true);
    for u in b.bytes_lsb().chunks(2) {
      out.extend([u[1], u[0]]);
    }
  }
  Some(out)
}

pub const PENTAX: ([u8; 16], [u8; 13]) = ([0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0], [3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12]);
/// Pentax; `lens` = code length per difference class for a custom table.
pub fn pef(im: &Im, lens: Option<(&[u8], bool)>) -> Option<Vec<u8>> {
  let mut out = vec![];
  let t = match lens {
    None => canon(&PENTAX.0, &PENTAX.1),
    Some((l, be)) => {
      let mut counts = [0u8; 12];
      let mut order: Vec<u8> = (0..l.len() as u8).collect();
      order.sort_by_key(|v| l[*v as usize]);
      l.iter().for_each(|n| counts[*n as usize - 1] += 1);
      let t = canon(&counts, &order);
      let w = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
      out.extend(w((l.len() as u16 + 4) & 15));
      out.extend([0x33; 12]);
      for v in 0..l.len() {
        let (n, c) = code_of(&t, v as u8).unwrap();
        out.extend(w((c << (12 - n)) as u16));
      }
      out.extend(l);
      out.resize(64, 0x44);
      t
    }
  };
  let mut b = B::default();
  for r in 0..im.h {
    for c in 0..im.w {
      let p = if c >= 2 {
        im.at(r, c - 2)
      } else if r >= 2 {
        im.at(r - 2, c)
      } else {
        0
      };
      put_diff(&mut b, &t, im.at(r, c) - p)?;
    }
  }
  out.extend(b.bytes_msb());
  Some(out)
}

const CRW_FIRST_TREE: [[u8; 29]; 3] = [
  [
    0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x04, 0x03, 0x05, 0x06, 0x02, 0x07, 0x01, 0x08, 0x09, 0x00, 0x0a, 0x0b, 0xff,
  ],
  [
    0, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0x03, 0x02, 0x04, 0x01, 0x05, 0x00, 0x06, 0x07, 0x09, 0x08, 0x0a, 0x0b, 0xff,
  ],
  [
    0, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x06, 0x05, 0x07, 0x04, 0x08, 0x03, 0x09, 0x02, 0x00, 0x0a, 0x01, 0x0b, 0xff,
  ],
];

const CRW_SECOND_TREE: [[u8; 180]; 3] = [
  [
    0, 2, 2, 2, 1, 4, 2, 1, 2, 5, 1, 1, 0, 0, 0, 139, 0x03, 0x04, 0x02, 0x05, 0x01, 0x06, 0x07, 0x08, 0x12, 0x13, 0x11, 0x14, 0x09, 0x15, 0x22, 0x00, 0x21,
    0x16, 0x0a, 0xf0, 0x23, 0x17, 0x24, 0x31, 0x32, 0x18, 0x19, 0x33, 0x25, 0x41, 0x34, 0x42, 0x35, 0x51, 0x36, 0x37, 0x38, 0x29, 0x79, 0x26, 0x1a, 0x39, 0x56,
    0x57, 0x28, 0x27, 0x52, 0x55, 0x58, 0x43, 0x76, 0x59, 0x77, 0x54, 0x61, 0xf9, 0x71, 0x78, 0x75, 0x96, 0x97, 0x49, 0xb7, 0x53, 0xd7, 0x74, 0xb6, 0x98, 0x47,
    0x48, 0x95, 0x69, 0x99, 0x91, 0xfa, 0xb8, 0x68, 0xb5, 0xb9, 0xd6, 0xf7, 0xd8, 0x67, 0x46, 0x45, 0x94, 0x89, 0xf8, 0x81, 0xd5, 0xf6, 0xb4, 0x88, 0xb1, 0x2a,
    0x44, 0x72, 0xd9, 0x87, 0x66, 0xd4, 0xf5, 0x3a, 0xa7, 0x73, 0xa9, 0xa8, 0x86, 0x62, 0xc7, 0x65, 0xc8, 0xc9, 0xa1, 0xf4, 0xd1, 0xe9, 0x5a, 0x92, 0x85, 0xa6,
    0xe7, 0x93, 0xe8, 0xc1, 0xc6, 0x7a, 0x64, 0xe1, 0x4a, 0x6a, 0xe6, 0xb3, 0xf1, 0xd3, 0xa5, 0x8a, 0xb2, 0x9a, 0xba, 0x84, 0xa4, 0x63, 0xe5, 0xc5, 0xf3, 0xd2,
    0xc4, 0x82, 0xaa, 0xda, 0xe4, 0xf2, 0xca, 0x83, 0xa3, 0xa2, 0xc3, 0xea, 0xc2, 0xe2, 0xe3, 0xff, 0xff,
  ],
  [
    0, 2, 2, 1, 4, 1, 4, 1, 3, 3, 1, 0, 0, 0, 0, 140, 0x02, 0x03, 0x01, 0x04, 0x05, 0x12, 0x11, 0x06, 0x13, 0x07, 0x08, 0x14, 0x22, 0x09, 0x21, 0x00, 0x23,
    0x15, 0x31, 0x32, 0x0a, 0x16, 0xf0, 0x24, 0x33, 0x41, 0x42, 0x19, 0x17, 0x25, 0x18, 0x51, 0x34, 0x43, 0x52, 0x29, 0x35, 0x61, 0x39, 0x71, 0x62, 0x36, 0x53,
    0x26, 0x38, 0x1a, 0x37, 0x81, 0x27, 0x91, 0x79, 0x55, 0x45, 0x28, 0x72, 0x59, 0xa1, 0xb1, 0x44, 0x69, 0x54, 0x58, 0xd1, 0xfa, 0x57, 0xe1, 0xf1, 0xb9, 0x49,
    0x47, 0x63, 0x6a, 0xf9, 0x56, 0x46, 0xa8, 0x2a, 0x4a, 0x78, 0x99, 0x3a, 0x75, 0x74, 0x86, 0x65, 0xc1, 0x76, 0xb6, 0x96, 0xd6, 0x89, 0x85, 0xc9, 0xf5, 0x95,
    0xb4, 0xc7, 0xf7, 0x8a, 0x97, 0xb8, 0x73, 0xb7, 0xd8, 0xd9, 0x87, 0xa7, 0x7a, 0x48, 0x82, 0x84, 0xea, 0xf4, 0xa6, 0xc5, 0x5a, 0x94, 0xa4, 0xc6, 0x92, 0xc3,
    0x68, 0xb5, 0xc8, 0xe4, 0xe5, 0xe6, 0xe9, 0xa2, 0xa3, 0xe3, 0xc2, 0x66, 0x67, 0x93, 0xaa, 0xd4, 0xd5, 0xe7, 0xf8, 0x88, 0x9a, 0xd7, 0x77, 0xc4, 0x64, 0xe2,
    0x98, 0xa5, 0xca, 0xda, 0xe8, 0xf3, 0xf6, 0xa9, 0xb2, 0xb3, 0xf2, 0xd2, 0x83, 0xba, 0xd3, 0xff, 0xff,
  ],
  [
    0, 0, 6, 2, 1, 3, 3, 2, 5, 1, 2, 2, 8, 10, 0, 117, 0x04, 0x05, 0x03, 0x06, 0x02, 0x07, 0x01, 0x08, 0x09, 0x12, 0x13, 0x14, 0x11, 0x15, 0x0a, 0x16, 0x17,
    0xf0, 0x00, 0x22, 0x21, 0x18, 0x23, 0x19, 0x24, 0x32, 0x31, 0x25, 0x33, 0x38, 0x37, 0x34, 0x35, 0x36, 0x39, 0x79, 0x57, 0x58, 0x59, 0x28, 0x56, 0x78, 0x27,
    0x41, 0x29, 0x77, 0x26, 0x42, 0x76, 0x99, 0x1a, 0x55, 0x98, 0x97, 0xf9, 0x48, 0x54, 0x96, 0x89, 0x47, 0xb7, 0x49, 0xfa, 0x75, 0x68, 0xb6, 0x67, 0x69, 0xb9,
    0xb8, 0xd8, 0x52, 0xd7, 0x88, 0xb5, 0x74, 0x51, 0x46, 0xd9, 0xf8, 0x3a, 0xd6, 0x87, 0x45, 0x7a, 0x95, 0xd5, 0xf6, 0x86, 0xb4, 0xa9, 0x94, 0x53, 0x2a, 0xa8,
    0x43, 0xf5, 0xf7, 0xd4, 0x66, 0xa7, 0x5a, 0x44, 0x8a, 0xc9, 0xe8, 0xc8, 0xe7, 0x9a, 0x6a, 0x73, 0x4a, 0x61, 0xc7, 0xf4, 0xc6, 0x65, 0xe9, 0x72, 0xe6, 0x71,
    0x91, 0x93, 0xa6, 0xda, 0x92, 0x85, 0x62, 0xf3, 0xc5, 0xb2, 0xa4, 0x84, 0xba, 0x64, 0xa5, 0xb3, 0xd2, 0x81, 0xe5, 0xd3, 0xaa, 0xc4, 0xca, 0xf2, 0xb1, 0xe4,
    0xd1, 0x83, 0x63, 0xea, 0xc3, 0xe2, 0x82, 0xf1, 0xa3, 0xc2, 0xa1, 0xc1, 0xe3, 0xa2, 0xe1, 0xff, 0xff,
  ],
];
/// Canon CIFF: blocks of 64 run/size coded differences, optionally two separately stored low bits.
/// Returns everything behind the six byte header of the wrapper.
pub fn crw(im: &Im, tree: usize, low: bool) -> Option<Vec<u8>> {
  let t1 = canon(&CRW_FIRST_TREE[tree][..16], &CRW_FIRST_TREE[tree][16..]);
  let t2 = canon(&CRW_SECOND_TREE[tree][..16], &CRW_SECOND_TREE[tree][16..]);
  let hi: Vec<i32> = im.d.iter().map(|v| (if low { v >> 2 } else { *v }) as i32).collect();
  let mut b = B::default();
  let mut carry = 0;
  let mut base = [512; 2];
  for blk in 0..hi.len() / 64 {
    let d: Vec<i32> = (0..64)
      .map(|k| {
        let i = blk * 64 + k;
        if i % im.w == 0 {
          base = [512; 2];
        }
        let x = hi[i] - base[k & 1];
        base[k & 1] = hi[i];
        x
      })
      .collect();
    put_diff(&mut b, &t1, d[0] - carry)?;
    carry = d[0];
    let mut run = 0;
    for k in 1..64 {
      if d[k] == 0 {
        run += 1;
        continue;
      }
      while run > 15 {
        let (l, c) = code_of(&t2, 0xf0)?;
        b.msb(l, c);
        run -= 16;
      }
      let (s, x) = mag(d[k]);
      if s > 10 {
        return None;
      }
      let (l, c) = code_of(&t2, (run << 4) as u8 | s as u8)?;
      b.msb(l, c);
      b.msb(s, x);
      run = 0;
    }
    if run > 0 {
      let (l, c) = code_of(&t2, 0)?;
      b.msb(l, c);
    }
  }
  let mut out = vec![0x11; 540 - 6];
  if low {
    let lows: Vec<u8> = im.d.chunks(4).map(|c| c.iter().enumerate().map(|(i, v)| ((v & 3) as u8) << (2 * i)).sum()).collect();
    out.splice(20..20, lows.clone());
    out.truncate(540 - 6 + lows.len());
  }
  out.extend(b.bytes_jpeg());
  out.extend([0xff, 0xd9]);
  Some(out)
}

/// Nikon code tables: (codes per length, difference length, shift)
#[rustfmt::skip]
pub const NIKON: [(&[u8], &[u8], &[u8]); 6] = [
  (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 2], &[5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12, 0], &[]),
  (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 2], &[9, 10, 8, 7, 6, 5, 4, 3, 2, 1, 0, 11, 12, 12], &[3, 5, 3, 2, 1]),
  (&[0, 1, 4, 2, 3, 1, 2], &[5, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12], &[]),
  (&[0, 1, 4, 3, 1, 1, 1, 1, 1, 2], &[5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14], &[]),
  (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2], &[8, 12, 11, 10, 9, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14], &[0, 5, 4, 3, 2]),
  (&[0, 1, 4, 2, 2, 3, 1, 2], &[7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14], &[]),
];
pub struct Nef {
  pub v0: u8,
  pub v1: u8,
  pub be: bool,
  pub bps: u32,
  /// curve points
  pub curve: Vec<u16>,
  pub split: usize,
  pub init: [u16; 4],
}
/// Nikon. Returns data and the coded (pre-curve) values; `im` gives wanted coded values, which rows behind the split only approximate.
pub fn nef(im: &Im, o: &Nef) -> Option<(Vec<u8>, Vec<i32>)> {
  let w2 = |v: u16| if o.be { v.to_be_bytes() } else { v.to_le_bytes() };
  let mut out = vec![o.v0, o.v1];
  if o.v0 == 0x49 || o.v1 == 0x58 {
    out.resize(2 + 2110, 0x22);
  }
  // vertical predictors: first value of rows 0 and 1, then second value of rows 0 and 1
  o.init.iter().for_each(|v| out.extend(w2(*v)));
  out.extend(w2(o.curve.len() as u16));
  o.curve.iter().for_each(|v| out.extend(w2(*v)));
  if out.len() > 4096 {
    return None;
  }
  out.resize(out.len().max(564), 0);
  if o.v0 == 0x44 && (o.v1 == 0x20 || o.v1 == 0x40) {
    if 2 + 8 + 2 + 2 * o.curve.len() > 562 {
      return None;
    }
    out.splice(562..564, w2(o.split as u16));
  }
  out.resize(4096, 0);
  let sel = (if o.v0 == 0x46 { 2 } else { 0 }) + if o.bps == 14 { 3 } else { 0 };
  let mut b = B::default();
  let mut up = [[o.init[0] as i32, o.init[2] as i32], [o.init[1] as i32, o.init[3] as i32]];
  let mut vals = vec![0i32; im.w * im.h];
  let mut flip = false;
  for r in 0..im.h {
    let lossy = o.split > 0 && r >= o.split;
    let t = NIKON[sel + lossy as usize];
    // table index as the coded value
    let idx: Vec<u8> = (0..t.1.len() as u8).collect();
    let codes = canon(t.0, &idx);
    for c in 0..im.w {
      let p = if c < 2 { up[r & 1][c] } else { vals[r * im.w + c - 2] };
      let d = im.at(r, c) - p;
      let (n, _) = mag(d);
      let cand: Vec<usize> = (0..t.1.len()).filter(|k| t.1[*k] as u32 == n).collect();
      if cand.is_empty() {
        return None;
      }
      flip = !flip;
      let k = cand[if flip { 0 } else { cand.len() - 1 }];
      let sh = t.2.get(k).copied().unwrap_or(0) as u32;
      let (_, l, code) = codes[k];
      b.msb(l, code);
      let got = if sh == 0 {
        b.msb(n, mag(d).1);
        d
      } else {
        // the low `sh` bits are dropped; the decoder reconstructs the middle of the interval
        let m = d.unsigned_abs() >> sh;
        let bits = if d < 0 { (1u32 << (n - sh)) - 1 - m } else { m };
        b.msb(n - sh, bits);
        let mid = ((m << sh) + (1 << (sh - 1))) as i32;
        if d < 0 { -mid } else { mid }
      };
      vals[r * im.w + c] = p + got;
      if c < 2 {
        up[r & 1][c] = p + got;
      }
    }
  }
  out.extend(b.bytes_msb());
  Some((out, vals))
}
