//! Independent zlib inflate (RFC 1950/1951), stored-block deflate writer, MD5 (RFC 1321) and LZW (TIFF) decoder.
pub fn inflate_zlib(src: &[u8]) -> Result<Vec<u8>, String> {
  if src.len() < 6 {
    return Err("zlib stream too short".into());
  }
  let (cmf, flg) = (src[0] as u32, src[1] as u32);
  if cmf & 15 != 8 || (cmf * 256 + flg) % 31 != 0 || flg & 0x20 != 0 {
    return Err("bad zlib header".into());
  }
  let (out, used) = inflate(&src[2..])?;
  let t = &src[2 + used..];
  if t.len() != 4 {
    return Err(format!("{} bytes after deflate stream, expected 4", t.len()));
  }
  let want = u32::from_be_bytes([t[0], t[1], t[2], t[3]]);
  if adler32(&out) != want {
    return Err("adler mismatch".into());
  }
  Ok(out)
}
pub fn adler32(d: &[u8]) -> u32 {
  let (mut a, mut b) = (1u32, 0u32);
  for x in d {
    a = (a + *x as u32) % 65521;
    b = (b + a) % 65521;
  }
  b << 16 | a
}
struct Bits<'a> {
  s: &'a [u8],
  p: usize,
  n: u32,
  v: u32,
}
impl Bits<'_> {
  fn bits(&mut self, n: u32) -> Result<u32, String> {
    while self.n < n {
      let b = *self.s.get(self.p).ok_or("deflate stream truncated")?;
      self.p += 1;
      self.v |= (b as u32) << self.n;
      self.n += 8;
    }
    let r = self.v & ((1u64 << n) - 1) as u32;
    self.v = (self.v as u64 >> n) as u32;
    self.n -= n;
    Ok(r)
  }
}
struct Huff {
  count: [u16; 16],
  sym: Vec<u16>,
}
impl Huff {
  fn new(len: &[u8]) -> Huff {
    let mut count = [0u16; 16];
    for l in len {
      count[*l as usize] += 1;
    }
    count[0] = 0;
    let mut offs = [0u16; 17];
    for i in 1..16 {
      offs[i + 1] = offs[i] + count[i];
    }
    let mut sym = vec![0; offs[16] as usize];
    for (s, l) in len.iter().enumerate() {
      if *l > 0 {
        sym[offs[*l as usize] as usize] = s as u16;
        offs[*l as usize] += 1;
      }
    }
    Huff { count, sym }
  }
  fn get(&self, b: &mut Bits) -> Result<u16, String> {
    let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
    for l in 1..16 {
      code |= b.bits(1)? as i32;
      let c = self.count[l] as i32;
      if code - c < first {
        return Ok(self.sym[(index + code - first) as usize]);
      }
      index += c;
      first = (first + c) << 1;
      code <<= 1;
    }
    Err("bad huffman code".into())
  }
}
pub fn inflate(s: &[u8]) -> Result<(Vec<u8>, usize), String> {
  const LB: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
  const LE: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
  const DB: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
  const ORD: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
  let mut b = Bits { s, p: 0, n: 0, v: 0 };
  let mut out = vec![];
  loop {
    let last = b.bits(1)?;
    match b.bits(2)? {
      0 => {
        b.n = 0;
        b.v = 0;
        let h = s.get(b.p..b.p + 4).ok_or("truncated stored block")?;
        let (l, nl) = (u16::from_le_bytes([h[0], h[1]]), u16::from_le_bytes([h[2], h[3]]));
        if l != !nl {
          return Err("stored length mismatch".into());
        }
        b.p += 4;
        out.extend_from_slice(s.get(b.p..b.p + l as usize).ok_or("truncated stored block")?);
        b.p += l as usize;
      }
      t @ (1 | 2) => {
        let (lit, dist) = if t == 1 {
          let mut l = [8u8; 288];
          l[144..256].fill(9);
          l[256..280].fill(7);
          (Huff::new(&l), Huff::new(&[5; 30]))
        } else {
          let (nl, nd, nc) = (b.bits(5)? as usize + 257, b.bits(5)? as usize + 1, b.bits(4)? as usize + 4);
          let mut cl = [0u8; 19];
          for o in ORD.iter().take(nc) {
            cl[*o] = b.bits(3)? as u8;
          }
          let ch = Huff::new(&cl);
          let mut lens = vec![];
          while lens.len() < nl + nd {
            match ch.get(&mut b)? {
              s @ 0..=15 => lens.push(s as u8),
              16 => {
                let p = *lens.last().ok_or("repeat without previous")?;
                let n = 3 + b.bits(2)?;
                lens.extend(vec![p; n as usize]);
              }
              17 => lens.extend(vec![0; 3 + b.bits(3)? as usize]),
              _ => lens.extend(vec![0; 11 + b.bits(7)? as usize]),
            }
          }
          if lens.len() != nl + nd {
            return Err("code lengths overflow".into());
          }
          (Huff::new(&lens[..nl]), Huff::new(&lens[nl..]))
        };
        loop {
          let s = lit.get(&mut b)? as usize;
          match s {
            0..=255 => out.push(s as u8),
            256 => break,
            257..=285 => {
              let len = LB[s - 257] as usize + b.bits(LE[s - 257] as u32)? as usize;
              let d = dist.get(&mut b)? as usize;
              if d > 29 {
                return Err("bad distance".into());
              }
              let de = if d < 2 { 0 } else { d / 2 - 1 };
              let dd = DB[d] as usize + b.bits(de as u32)? as usize;
              if dd > out.len() {
                return Err("distance too far".into());
              }
              for _ in 0..len {
                out.push(out[out.len() - dd]);
              }
            }
            _ => return Err("bad length symbol".into()),
          }
        }
      }
      _ => return Err("bad block type".into()),
    }
    if last == 1 {
      return Ok((out, b.p));
    }
  }
}
/// zlib stream made of stored blocks only.
pub fn store_zlib(d: &[u8]) -> Vec<u8> {
  let mut o = vec![0x78, 0x01];
  let mut it = d.chunks(65535).peekable();
  if d.is_empty() {
    o.extend([1, 0, 0, 0xff, 0xff]);
  }
  while let Some(c) = it.next() {
    o.push(it.peek().is_none() as u8);
    o.extend((c.len() as u16).to_le_bytes());
    o.extend((!(c.len() as u16)).to_le_bytes());
    o.extend(c);
  }
  o.extend(adler32(d).to_be_bytes());
  o
}
pub fn md5(d: &[u8]) -> [u8; 16] {
  const S: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
  let k: Vec<u32> = (0..64).map(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32).collect();
  let mut st = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
  let mut m = d.to_vec();
  m.push(0x80);
  while m.len() % 64 != 56 {
    m.push(0);
  }
  m.extend(((d.len() as u64) * 8).to_le_bytes());
  for c in m.chunks(64) {
    let w: Vec<u32> = c.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
    let [mut a, mut b, mut cc, mut dd] = st;
    for i in 0..64 {
      let (f, g) = match i / 16 {
        0 => ((b & cc) | (!b & dd), i),
        1 => ((dd & b) | (!dd & cc), (5 * i + 1) % 16),
        2 => (b ^ cc ^ dd, (3 * i + 5) % 16),
        _ => (cc ^ (b | !dd), (7 * i) % 16),
      };
      let f2 = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(w[g]);
      a = dd;
      dd = cc;
      cc = b;
      b = b.wrapping_add(f2.rotate_left(S[i / 16 * 4 + i % 4]));
    }
    st[0] = st[0].wrapping_add(a);
    st[1] = st[1].wrapping_add(b);
    st[2] = st[2].wrapping_add(cc);
    st[3] = st[3].wrapping_add(dd);
  }
  let mut o = [0; 16];
  for i in 0..4 {
    o[i * 4..i * 4 + 4].copy_from_slice(&st[i].to_le_bytes());
  }
  o
}
/// TIFF LZW (MSB first, early change).
pub fn lzw_tiff(s: &[u8]) -> Result<Vec<u8>, String> {
  let mut out = vec![];
  let mut dict: Vec<Vec<u8>> = vec![];
  let (mut acc, mut nb, mut p) = (0u32, 0u32, 0usize);
  let mut width = 9;
  let mut prev: Option<Vec<u8>> = None;
  let reset = |dict: &mut Vec<Vec<u8>>| {
    dict.clear();
    for i in 0..256 {
      dict.push(vec![i as u8]);
    }
    dict.push(vec![]);
    dict.push(vec![]);
  };
  reset(&mut dict);
  let mut first = true;
  loop {
    while nb < width {
      let b = *s.get(p).ok_or("LZW stream truncated (no EOI)")?;
      p += 1;
      acc = acc << 8 | b as u32;
      nb += 8;
    }
    let code = (acc >> (nb - width)) & ((1 << width) - 1);
    nb -= width;
    if first && code != 256 {
      return Err("LZW stream does not start with clear code".into());
    }
    first = false;
    match code {
      256 => {
        reset(&mut dict);
        width = 9;
        prev = None;
        continue;
      }
      257 => return Ok(out),
      _ => {}
    }
    let e = match (&prev, dict.get(code as usize)) {
      (_, Some(e)) => e.clone(),
      (Some(pv), None) if code as usize == dict.len() => {
        let mut x = pv.clone();
        x.push(pv[0]);
        x
      }
      _ => return Err(format!("bad LZW code {code}")),
    };
    out.extend_from_slice(&e);
    if let Some(mut pv) = prev.take() {
      pv.push(e[0]);
      dict.push(pv);
    }
    prev = Some(e);
    width = match dict.len() + 1 {
      0..=511 => 9,
      512..=1023 => 10,
      1024..=2047 => 11,
      _ => 12,
    };
    if dict.len() > 4096 {
      return Err("LZW dictionary overflow".into());
    }
  }
}
#[cfg(test)]
mod t {
  #[test]
  fn md5_known() {
    assert_eq!(super::md5(b"abc"), [0x90, 0x01, 0x50, 0x98, 0x3c, 0xd2, 0x4f, 0xb0, 0xd6, 0x96, 0x3f, 0x7d, 0x28, 0xe1, 0x7f, 0x72]);
    assert_eq!(super::inflate_zlib(&super::store_zlib(b"hello")).unwrap(), b"hello");
  }
}
