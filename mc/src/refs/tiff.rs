//! Independent TIFF 6.0 parser and builder.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
  Byte(Vec<u8>),
  Ascii(Vec<u8>), // raw bytes including terminating NULs
  Short(Vec<u16>),
  Long(Vec<u32>),
  Rational(Vec<(u32, u32)>),
  SByte(Vec<i8>),
  Undefined(Vec<u8>),
  SShort(Vec<i16>),
  SLong(Vec<i32>),
  SRational(Vec<(i32, i32)>),
  Float(Vec<u32>),  // bit patterns
  Double(Vec<u64>), // bit patterns
  IfdPtr(Vec<u32>), // type 13
}

impl V {
  pub fn ty(&self) -> u16 {
    match self {
      V::Byte(_) => 1,
      V::Ascii(_) => 2,
      V::Short(_) => 3,
      V::Long(_) => 4,
      V::Rational(_) => 5,
      V::SByte(_) => 6,
      V::Undefined(_) => 7,
      V::SShort(_) => 8,
      V::SLong(_) => 9,
      V::SRational(_) => 10,
      V::Float(_) => 11,
      V::Double(_) => 12,
      V::IfdPtr(_) => 13,
    }
  }
  pub fn count(&self) -> usize {
    match self {
      V::Byte(v) | V::Ascii(v) | V::Undefined(v) => v.len(),
      V::Short(v) => v.len(),
      V::Long(v) | V::IfdPtr(v) => v.len(),
      V::Rational(v) => v.len(),
      V::SByte(v) => v.len(),
      V::SShort(v) => v.len(),
      V::SLong(v) => v.len(),
      V::SRational(v) => v.len(),
      V::Float(v) => v.len(),
      V::Double(v) => v.len(),
    }
  }
  pub fn u(&self, i: usize) -> Option<u64> {
    match self {
      V::Byte(v) | V::Undefined(v) => v.get(i).map(|x| *x as u64),
      V::Short(v) => v.get(i).map(|x| *x as u64),
      V::Long(v) | V::IfdPtr(v) => v.get(i).map(|x| *x as u64),
      _ => None,
    }
  }
  pub fn f(&self, i: usize) -> Option<f64> {
    match self {
      V::Rational(v) => v.get(i).map(|(n, d)| *n as f64 / *d as f64),
      V::SRational(v) => v.get(i).map(|(n, d)| *n as f64 / *d as f64),
      V::Float(v) => v.get(i).map(|x| f32::from_bits(*x) as f64),
      V::Double(v) => v.get(i).map(|x| f64::from_bits(*x)),
      V::SByte(v) => v.get(i).map(|x| *x as f64),
      V::SShort(v) => v.get(i).map(|x| *x as f64),
      V::SLong(v) => v.get(i).map(|x| *x as f64),
      _ => self.u(i).map(|x| x as f64),
    }
  }
  pub fn us(&self) -> Vec<u64> {
    (0..self.count()).filter_map(|i| self.u(i)).collect()
  }
  pub fn fs(&self) -> Vec<f64> {
    (0..self.count()).filter_map(|i| self.f(i)).collect()
  }
  pub fn s(&self) -> Option<String> {
    match self {
      V::Ascii(v) => Some(String::from_utf8_lossy(v.split(|b| *b == 0).next().unwrap_or(&[])).to_string()),
      _ => None,
    }
  }
  pub fn bytes(&self, be: bool) -> Vec<u8> {
    let mut o = vec![];
    macro_rules! w {
      ($x:expr) => {
        o.extend(if be { $x.to_be_bytes().to_vec() } else { $x.to_le_bytes().to_vec() })
      };
    }
    match self {
      V::Byte(v) | V::Ascii(v) | V::Undefined(v) => o.extend(v),
      V::Short(v) => v.iter().for_each(|x| w!(x)),
      V::Long(v) | V::IfdPtr(v) => v.iter().for_each(|x| w!(x)),
      V::Rational(v) => v.iter().for_each(|(a, b)| {
        w!(a);
        w!(b)
      }),
      V::SByte(v) => o.extend(v.iter().map(|x| *x as u8)),
      V::SShort(v) => v.iter().for_each(|x| w!(x)),
      V::SLong(v) => v.iter().for_each(|x| w!(x)),
      V::SRational(v) => v.iter().for_each(|(a, b)| {
        w!(a);
        w!(b)
      }),
      V::Float(v) => v.iter().for_each(|x| w!(x)),
      V::Double(v) => v.iter().for_each(|x| w!(x)),
    }
    o
  }
}

pub fn ascii(s: &str) -> V {
  let mut b = s.as_bytes().to_vec();
  b.push(0);
  V::Ascii(b)
}

#[derive(Clone, Debug, Default)]
pub struct Dir {
  pub offset: u32,
  pub entries: BTreeMap<u16, V>,
  pub next: u32,
}
impl Dir {
  pub fn get(&self, t: u16) -> Option<&V> {
    self.entries.get(&t)
  }
  pub fn u(&self, t: u16) -> Option<u64> {
    self.get(t).and_then(|v| v.u(0))
  }
}

pub struct Tiff<'a> {
  pub be: bool,
  pub src: &'a [u8],
  pub root: u32,
  /// (start, end, what) of every region referenced by structure
  pub regions: Vec<(usize, usize, String)>,
}

impl<'a> Tiff<'a> {
  pub fn open(src: &'a [u8]) -> Result<Self, String> {
    if src.len() < 8 {
      return Err("short".into());
    }
    let be = match &src[0..2] {
      b"II" => false,
      b"MM" => true,
      _ => return Err("no byte order mark".into()),
    };
    let mut t = Tiff { be, src, root: 0, regions: vec![(0, 8, "header".into())] };
    if t.u16(2)? != 42 {
      return Err("no magic 42".into());
    }
    t.root = t.u32(4)?;
    Ok(t)
  }
  pub fn u16(&self, p: usize) -> Result<u16, String> {
    let b = self.src.get(p..p + 2).ok_or_else(|| format!("u16 at {p} out of file"))?;
    Ok(if self.be { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) })
  }
  pub fn u32(&self, p: usize) -> Result<u32, String> {
    let b = self.src.get(p..p + 4).ok_or_else(|| format!("u32 at {p} out of file"))?;
    let b = [b[0], b[1], b[2], b[3]];
    Ok(if self.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) })
  }
  fn u64(&self, p: usize) -> Result<u64, String> {
    let (a, b) = (self.u32(p)? as u64, self.u32(p + 4)? as u64);
    Ok(if self.be { a << 32 | b } else { b << 32 | a })
  }
  pub fn dir(&mut self, off: u32) -> Result<Dir, String> {
    let off = off as usize;
    let n = self.u16(off)? as usize;
    let mut d = Dir { offset: off as u32, ..Default::default() };
    let mut last: i64 = -1;
    for i in 0..n {
      let p = off + 2 + 12 * i;
      let tag = self.u16(p)?;
      let ty = self.u16(p + 2)?;
      let cnt = self.u32(p + 4)? as usize;
      if (tag as i64) <= last {
        return Err(format!("IFD at {off}: tag {tag} not in ascending order"));
      }
      last = tag as i64;
      let sz = match ty {
        1 | 2 | 6 | 7 => 1,
        3 | 8 => 2,
        4 | 9 | 11 | 13 => 4,
        5 | 10 | 12 => 8,
        _ => return Err(format!("tag {tag}: unknown type {ty}")),
      };
      let len = sz * cnt;
      let vp = if len <= 4 { p + 8 } else { self.u32(p + 8)? as usize };
      if vp + len > self.src.len() {
        return Err(format!("tag {tag}: value at {vp}+{len} beyond file end {}", self.src.len()));
      }
      if len > 4 {
        self.regions.push((vp, vp + len, format!("value of tag {tag} in IFD {off}")));
      }
      let v = match ty {
        1 => V::Byte(self.src[vp..vp + cnt].to_vec()),
        2 => V::Ascii(self.src[vp..vp + cnt].to_vec()),
        7 => V::Undefined(self.src[vp..vp + cnt].to_vec()),
        6 => V::SByte(self.src[vp..vp + cnt].iter().map(|x| *x as i8).collect()),
        3 => V::Short((0..cnt).map(|k| self.u16(vp + 2 * k)).collect::<Result<_, _>>()?),
        8 => V::SShort((0..cnt).map(|k| self.u16(vp + 2 * k).map(|x| x as i16)).collect::<Result<_, _>>()?),
        4 => V::Long((0..cnt).map(|k| self.u32(vp + 4 * k)).collect::<Result<_, _>>()?),
        13 => V::IfdPtr((0..cnt).map(|k| self.u32(vp + 4 * k)).collect::<Result<_, _>>()?),
        9 => V::SLong((0..cnt).map(|k| self.u32(vp + 4 * k).map(|x| x as i32)).collect::<Result<_, _>>()?),
        11 => V::Float((0..cnt).map(|k| self.u32(vp + 4 * k)).collect::<Result<_, _>>()?),
        5 => V::Rational((0..cnt).map(|k| Ok((self.u32(vp + 8 * k)?, self.u32(vp + 8 * k + 4)?))).collect::<Result<_, String>>()?),
        10 => V::SRational((0..cnt).map(|k| Ok((self.u32(vp + 8 * k)? as i32, self.u32(vp + 8 * k + 4)? as i32))).collect::<Result<_, String>>()?),
        _ => V::Double((0..cnt).map(|k| self.u64(vp + 8 * k)).collect::<Result<_, _>>()?),
      };
      d.entries.insert(tag, v);
    }
    d.next = self.u32(off + 2 + 12 * n)?;
    self.regions.push((off, off + 6 + 12 * n, format!("IFD {off}")));
    Ok(d)
  }
  pub fn chain(&mut self) -> Result<Vec<Dir>, String> {
    let mut out: Vec<Dir> = vec![];
    let mut o = self.root;
    while o != 0 {
      if out.iter().any(|d| d.offset == o) {
        return Err("cyclic IFD chain".into());
      }
      let d = self.dir(o)?;
      o = d.next;
      out.push(d);
    }
    Ok(out)
  }
  /// All regions must be inside the file and pairwise disjoint.
  pub fn check_regions(&mut self) -> Result<(), String> {
    self.regions.sort();
    for w in self.regions.windows(2) {
      if w[1].0 < w[0].1 && w[0].0 != w[0].1 && w[1].0 != w[1].1 {
        return Err(format!("'{}' {}..{} overlaps '{}' {}..{}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
      }
    }
    if let Some(l) = self.regions.iter().map(|r| r.1).max() {
      if l > self.src.len() {
        return Err("region beyond file".into());
      }
    }
    Ok(())
  }
}

/// Builder for an IFD tree: plain values, nested directories and data blobs.
#[derive(Clone, Debug)]
pub enum Item {
  Val(V),
  /// pointer tag(s) to child directories; `ty` 4 or 13
  Dirs(Vec<Node>, u16),
  /// tag holds the offsets of blobs (written as LONG)
  Blobs(Vec<Vec<u8>>),
}
#[derive(Clone, Debug, Default)]
pub struct Node {
  pub items: BTreeMap<u16, Item>,
}
impl Node {
  pub fn new() -> Self {
    Self::default()
  }
  pub fn v(mut self, tag: u16, v: V) -> Self {
    self.items.insert(tag, Item::Val(v));
    self
  }
  pub fn set(&mut self, tag: u16, v: V) {
    self.items.insert(tag, Item::Val(v));
  }
  pub fn item(mut self, tag: u16, i: Item) -> Self {
    self.items.insert(tag, i);
    self
  }
}

/// Serialise a chain of root directories. `values_first` places value data before the directory; `gap` inserts padding bytes.
pub fn build(chain: &[Node], be: bool, values_first: bool, gap: usize) -> Vec<u8> {
  let mut out: Vec<u8> = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
  out.extend([0, 0, 0, 0]);
  let mut link = 4usize;
  for n in chain {
    let (off, next_at) = put(&mut out, n, be, values_first, gap);
    let b = if be { off.to_be_bytes() } else { off.to_le_bytes() };
    out[link..link + 4].copy_from_slice(&b);
    link = next_at;
  }
  out
}

fn align(out: &mut Vec<u8>, gap: usize) {
  for _ in 0..gap {
    out.push(0xEE);
  }
  if out.len() % 2 == 1 {
    out.push(0);
  }
}

fn put(out: &mut Vec<u8>, n: &Node, be: bool, values_first: bool, gap: usize) -> (u32, usize) {
  let mut vals: Vec<(u16, V)> = vec![];
  for (t, i) in &n.items {
    let v = match i {
      Item::Val(v) => v.clone(),
      Item::Dirs(ds, ty) => {
        let offs: Vec<u32> = ds.iter().map(|d| put(out, d, be, values_first, gap).0).collect();
        if *ty == 13 { V::IfdPtr(offs) } else { V::Long(offs) }
      }
      Item::Blobs(bs) => V::Long(
        bs.iter()
          .map(|b| {
            align(out, gap);
            let o = out.len() as u32;
            out.extend(b);
            o
          })
          .collect(),
      ),
    };
    vals.push((*t, v));
  }
  let mut offs: Vec<Option<u32>> = vec![None; vals.len()];
  let put_vals = |out: &mut Vec<u8>, offs: &mut Vec<Option<u32>>| {
    for (k, (_, v)) in vals.iter().enumerate() {
      let b = v.bytes(be);
      if b.len() > 4 {
        align(out, gap);
        offs[k] = Some(out.len() as u32);
        out.extend(b);
      }
    }
  };
  if values_first {
    put_vals(out, &mut offs);
  }
  align(out, gap);
  let at = out.len();
  out.resize(at + 6 + 12 * vals.len(), 0);
  if !values_first {
    put_vals(out, &mut offs);
  }
  let w16 = |x: u16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
  let w32 = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
  out[at..at + 2].copy_from_slice(&w16(vals.len() as u16));
  for (k, (t, v)) in vals.iter().enumerate() {
    let p = at + 2 + 12 * k;
    out[p..p + 2].copy_from_slice(&w16(*t));
    out[p + 2..p + 4].copy_from_slice(&w16(v.ty()));
    out[p + 4..p + 8].copy_from_slice(&w32(v.count() as u32));
    match offs[k] {
      Some(o) => out[p + 8..p + 12].copy_from_slice(&w32(o)),
      None => {
        let b = v.bytes(be);
        out[p + 8..p + 8 + b.len()].copy_from_slice(&b);
      }
    }
  }
  (at as u32, at + 2 + 12 * vals.len())
}
