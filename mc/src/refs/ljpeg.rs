//! Reference ITU T.81 Annex H (lossless, Huffman) codec: deliberately bit-by-bit.

#[derive(Clone, Debug)]
pub struct Frame {
  pub precision: u8,
  pub width: usize,
  pub height: usize,
  pub ncomp: usize,
  pub predictor: u8,
  pub pt: u8,
  /// interleaved samples, width*ncomp per row
  pub data: Vec<u16>,
}

#[derive(Clone, Debug, Default)]
pub struct Table {
  pub bits: [u8; 17],
  pub vals: Vec<u8>,
}

impl Table {
  /// (length, code) -> value, canonical codes per Annex C
  pub fn codes(&self) -> Vec<(u8, u32, u8)> {
    let mut out = vec![];
    let mut code: u32 = 0;
    let mut k = 0;
    for len in 1..=16u8 {
      for _ in 0..self.bits[len as usize] {
        out.push((len, code, self.vals[k]));
        code += 1;
        k += 1;
      }
      code <<= 1;
    }
    out
  }
  pub fn from_lengths(pairs: &[(u8, u8)]) -> Table {
    // pairs (value, length), canonical order
    let mut p = pairs.to_vec();
    p.sort_by_key(|x| x.1);
    let mut t = Table::default();
    for (v, l) in p {
      t.bits[l as usize] += 1;
      t.vals.push(v);
    }
    t
  }
}

struct Bits<'a> {
  src: &'a [u8],
  pos: usize,
  cur: u8,
  n: u8,
  ended: bool,
}
impl<'a> Bits<'a> {
  fn bit(&mut self) -> Result<u32, String> {
    if self.n == 0 {
      if self.ended || self.pos >= self.src.len() {
        return Err("entropy data exhausted".into());
      }
      let b = self.src[self.pos];
      if b == 0xFF {
        match self.src.get(self.pos + 1) {
          Some(0) => self.pos += 2,
          Some(m) => return Err(format!("marker {m:02x} inside entropy data")),
          None => return Err("truncated".into()),
        }
      } else {
        self.pos += 1;
      }
      self.cur = b;
      self.n = 8;
    }
    self.n -= 1;
    Ok(((self.cur >> self.n) & 1) as u32)
  }
}

fn be16(s: &[u8], p: usize) -> Result<usize, String> {
  Ok(((*s.get(p).ok_or("eof")? as usize) << 8) | *s.get(p + 1).ok_or("eof")? as usize)
}

pub fn predict(predictor: u8, row: usize, col: usize, a: i32, b: i32, c: i32, precision: u8, pt: u8) -> i32 {
  if row == 0 && col == 0 {
    1 << (precision - pt - 1)
  } else if row == 0 {
    a
  } else if col == 0 {
    b
  } else {
    match predictor {
      1 => a,
      2 => b,
      3 => c,
      4 => a + b - c,
      5 => a + ((b - c) >> 1),
      6 => b + ((a - c) >> 1),
      7 => (a + b) >> 1,
      _ => panic!("predictor"),
    }
  }
}

/// Strict decode; any deviation from the standard is an error.
pub fn decode(src: &[u8]) -> Result<Frame, String> {
  if be16(src, 0)? != 0xFFD8 {
    return Err("no SOI".into());
  }
  let mut p = 2;
  let mut tables: [Option<Table>; 4] = Default::default();
  let mut frame: Option<(u8, usize, usize, Vec<u8>)> = None;
  loop {
    let m = be16(src, p)?;
    if m >> 8 != 0xFF {
      return Err(format!("marker expected at {p}"));
    }
    let len = be16(src, p + 2)?;
    let body = src.get(p + 4..p + 2 + len).ok_or("segment")?;
    p += 2 + len;
    match m {
      0xFFC3 => {
        if frame.is_some() {
          return Err("two SOF".into());
        }
        let prec = body[0];
        let (h, w) = (be16(body, 1)?, be16(body, 3)?);
        let n = body[5] as usize;
        if len != 8 + 3 * n {
          return Err("SOF length".into());
        }
        if !(2..=16).contains(&prec) || w == 0 || h == 0 || n == 0 {
          return Err("SOF params".into());
        }
        let mut ids = vec![];
        for i in 0..n {
          let id = body[6 + 3 * i];
          if ids.contains(&id) {
            return Err("duplicate component".into());
          }
          ids.push(id);
          if body[7 + 3 * i] != 0x11 {
            return Err("subsampling".into());
          }
        }
        frame = Some((prec, w, h, ids));
      }
      0xFFC4 => {
        let mut q = 0;
        while q < body.len() {
          let tc = body[q] >> 4;
          let th = (body[q] & 15) as usize;
          if tc != 0 || th > 3 {
            return Err("DHT class/id".into());
          }
          let mut t = Table::default();
          let mut n = 0usize;
          for i in 1..=16 {
            t.bits[i] = *body.get(q + i).ok_or("DHT short")?;
            n += t.bits[i] as usize;
          }
          t.vals = body.get(q + 17..q + 17 + n).ok_or("DHT short")?.to_vec();
          // Kraft + all-ones reserved + distinct values
          let mut kraft = 0u32;
          for i in 1..=16 {
            kraft += (t.bits[i] as u32) << (16 - i);
          }
          if kraft >= 1 << 16 {
            return Err(format!("Huffman table uses the all-ones code or is oversubscribed ({kraft})"));
          }
          for (i, v) in t.vals.iter().enumerate() {
            if *v > 16 {
              return Err("SSSS > 16".into());
            }
            if t.vals[..i].contains(v) {
              return Err("duplicate Huffman value".into());
            }
          }
          tables[th] = Some(t);
          q += 17 + n;
        }
      }
      0xFFDA => {
        let (prec, w, h, ids) = frame.ok_or("SOS before SOF")?;
        let n = body[0] as usize;
        if n != ids.len() || len != 6 + 2 * n {
          return Err("SOS header".into());
        }
        let mut sel = vec![];
        for i in 0..n {
          if body[1 + 2 * i] != ids[i] {
            return Err("SOS component order".into());
          }
          let td = (body[2 + 2 * i] >> 4) as usize;
          let t = tables.get(td).and_then(|t| t.as_ref()).ok_or("missing table")?;
          sel.push(t.codes());
        }
        let predictor = body[1 + 2 * n];
        let pt = body[3 + 2 * n] & 15;
        if !(1..=7).contains(&predictor) || body[2 + 2 * n] != 0 || body[3 + 2 * n] >> 4 != 0 {
          return Err("SOS params".into());
        }
        let mut bits = Bits { src, pos: p, cur: 0, n: 0, ended: false };
        let mut data = vec![0u16; w * h * n];
        // canonical decode arrays: (first code, first index, count) per length
        let maps: Vec<Vec<(u32, usize, u32)>> = sel
          .iter()
          .map(|cs| {
            (0..=16u8)
              .map(|l| {
                let of: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].0 == l).collect();
                if of.is_empty() { (0, 0, 0) } else { (cs[of[0]].1, of[0], of.len() as u32) }
              })
              .collect()
          })
          .collect();
        for row in 0..h {
          for col in 0..w {
            for c in 0..n {
              let at = |r: usize, k: usize| data[(r * w + k) * n + c] as i32;
              let a = if col > 0 { at(row, col - 1) } else { 0 };
              let b = if row > 0 { at(row - 1, col) } else { 0 };
              let cc = if row > 0 && col > 0 { at(row - 1, col - 1) } else { 0 };
              let pr = predict(predictor, row, col, a, b, cc, prec, pt);
              let mut code = 0;
              let mut l = 0u8;
              let ssss = loop {
                code = (code << 1) | bits.bit()?;
                l += 1;
                if l > 16 {
                  return Err("bad Huffman code".into());
                }
                let (first, idx, cnt) = maps[c][l as usize];
                if cnt > 0 && code >= first && code < first + cnt {
                  break sel[c][idx + (code - first) as usize].2;
                }
              };
              let diff: i32 = match ssss {
                0 => 0,
                16 => 32768,
                s => {
                  let mut v = 0i32;
                  for _ in 0..s {
                    v = (v << 1) | bits.bit()? as i32;
                  }
                  if v < 1 << (s - 1) { v - (1 << s) + 1 } else { v }
                }
              };
              data[(row * w + col) * n + c] = (pr + diff) as u16;
            }
          }
        }
        let rest = &src[bits.pos..];
        if rest != [0xFF, 0xD9] {
          return Err(format!("scan not directly followed by EOI: {} trailing bytes {:02x?}", rest.len(), &rest[..rest.len().min(6)]));
        }
        return Ok(Frame { precision: prec, width: w, height: h, ncomp: n, predictor, pt, data });
      }
      0xFFD9 => return Err("EOI before SOS".into()),
      _ => {}
    }
  }
}

pub struct BitW {
  pub out: Vec<u8>,
  cur: u8,
  n: u8,
}
impl BitW {
  pub fn new() -> Self {
    BitW { out: vec![], cur: 0, n: 0 }
  }
  pub fn put(&mut self, len: u8, v: u32) {
    for i in (0..len).rev() {
      self.cur = (self.cur << 1) | ((v >> i) & 1) as u8;
      self.n += 1;
      if self.n == 8 {
        self.push();
      }
    }
  }
  fn push(&mut self) {
    self.out.push(self.cur);
    if self.cur == 0xFF {
      self.out.push(0);
    }
    self.cur = 0;
    self.n = 0;
  }
  pub fn finish(mut self) -> Vec<u8> {
    while self.n != 0 {
      self.cur = (self.cur << 1) | 1; // pad with ones per F.1.2.3
      self.n += 1;
      if self.n == 8 {
        self.push();
      }
    }
    self.out
  }
}

/// SSSS class and extra bits of a difference (mod 2^16)
pub fn classify(diff16: u16) -> (u8, u32) {
  let d = diff16 as i16 as i32;
  if d == -32768 {
    return (16, 0);
  }
  let m = d.unsigned_abs();
  let s = (32 - m.leading_zeros()) as u8;
  let extra = if d < 0 { (d + (1 << s) - 1) as u32 } else { d as u32 };
  (s, extra)
}

/// Options controlling the (legal) freedom of an encoder.
#[derive(Clone, Debug)]
pub struct EncOpts {
  /// one table per entry of table slots 0..3
  pub tables: Vec<(u8, Table)>,
  pub sel: Vec<u8>,
  pub comp_ids: Vec<u8>,
  pub one_dht: bool,
  pub dht_before_sof: bool,
}

/// Encode frame with given tables. Fails if a class is not in the table.
pub fn encode(f: &Frame, o: &EncOpts) -> Result<Vec<u8>, String> {
  let mut out = vec![0xFF, 0xD8];
  let dht = |out: &mut Vec<u8>| {
    if o.one_dht {
      let n: usize = o.tables.iter().map(|t| 17 + t.1.vals.len()).sum();
      out.extend([0xFF, 0xC4]);
      out.extend(((n + 2) as u16).to_be_bytes());
      for (id, t) in &o.tables {
        out.push(*id);
        out.extend(&t.bits[1..]);
        out.extend(&t.vals);
      }
    } else {
      for (id, t) in &o.tables {
        out.extend([0xFF, 0xC4]);
        out.extend(((19 + t.vals.len()) as u16).to_be_bytes());
        out.push(*id);
        out.extend(&t.bits[1..]);
        out.extend(&t.vals);
      }
    }
  };
  if o.dht_before_sof {
    dht(&mut out);
  }
  out.extend([0xFF, 0xC3]);
  out.extend(((8 + 3 * f.ncomp) as u16).to_be_bytes());
  out.push(f.precision);
  out.extend((f.height as u16).to_be_bytes());
  out.extend((f.width as u16).to_be_bytes());
  out.push(f.ncomp as u8);
  for c in 0..f.ncomp {
    out.extend([o.comp_ids[c], 0x11, 0]);
  }
  if !o.dht_before_sof {
    dht(&mut out);
  }
  out.extend([0xFF, 0xDA]);
  out.extend(((6 + 2 * f.ncomp) as u16).to_be_bytes());
  out.push(f.ncomp as u8);
  for c in 0..f.ncomp {
    out.extend([o.comp_ids[c], o.sel[c] << 4]);
  }
  out.extend([f.predictor, 0, f.pt]);
  let mut w = BitW::new();
  let maps: Vec<[Option<(u8, u32)>; 17]> = (0..f.ncomp)
    .map(|c| {
      let t = &o.tables.iter().find(|t| t.0 == o.sel[c]).unwrap().1;
      let mut m = [None; 17];
      for (l, code, v) in t.codes() {
        m[v as usize] = Some((l, code));
      }
      m
    })
    .collect();
  for row in 0..f.height {
    for col in 0..f.width {
      for c in 0..f.ncomp {
        let at = |r: usize, k: usize| f.data[(r * f.width + k) * f.ncomp + c] as i32;
        let a = if col > 0 { at(row, col - 1) } else { 0 };
        let b = if row > 0 { at(row - 1, col) } else { 0 };
        let cc = if row > 0 && col > 0 { at(row - 1, col - 1) } else { 0 };
        let pr = predict(f.predictor, row, col, a, b, cc, f.precision, f.pt);
        let d = (f.data[(row * f.width + col) * f.ncomp + c] as i32 - pr) as u16;
        let (s, extra) = classify(d);
        let (l, code) = maps[c][s as usize].ok_or_else(|| format!("class {s} missing"))?;
        w.put(l, code);
        if s > 0 && s < 16 {
          w.put(s, extra);
        }
      }
    }
  }
  out.extend(w.finish());
  out.extend([0xFF, 0xD9]);
  Ok(out)
}
