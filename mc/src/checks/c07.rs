//! C07: malformed containers are rejected or read as far as they are intact; parsing always ends within bounded memory.
use super::clikit;
use super::dngcmp::*;
use crate::Level;
use crate::checks::c06::back;
use crate::ctx::*;
use crate::fix::*;
use crate::memcap::capped;
use crate::refs::boxes::*;
use crate::refs::tiff::*;
use rawler::decoders::RawDecodeParams;
use rawler::dng::{CropMode, DngCompression};
use rawler::formats::bmff::Bmff;
use rawler::formats::jfif::Jfif;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::{GenericTiffReader, IFD, Value};
use rawler::rawsource::RawSource;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::sync::atomic::Ordering::*;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one damaged file given to the real parser (or to the whole decode and convert pipeline). It must end within the time limit and memory bounds, without panic (parsers) or process abort (pipeline), and for TIFF every directory and entry that is still well-formed in the damaged file must be returned with its exact value. Non-trivial: the damage changes the parse result or makes it fail.",
    bounds: "TIFF: 8 layouts (byte orders x values before/after directory x gaps) of a file with two chained directories, 5 sub-directories and all value types: every byte x all 255 other values, every truncation, every entry x 19 types x 18 counts x 12 offsets, every directory pointer x every offset of the file, every directory count 0-70 and boundary values, (thorough: every pair of byte positions of the directory structure and every fifth entry x 7x7 values); strip, tile, makernote and sub-directory accessors on 56 files with 7 makernote kinds cut at 8 lengths x every byte x 17 values (quick: every eighth file). BMFF: Canon CR3 structure: every byte x all 255 values, every truncation, every box x 26 sizes in 32 and 64 bit form, every count field x 12 values, pairs of box sizes. JFIF: three segment orders: every byte x all 255, every truncation, every segment length 0-80 and boundaries. Pipeline: 4 small DNGs, one TIFF per supported make with makernote, and MRW/RAF/ARI/QTK/CIFF/X3F/EXIF shells: every byte x 8 values (thorough 24), every truncation",
    assumptions: &["time limit 20 s per case", "memory limits: single request at most 4 x file size + 64 KiB and 64 MiB outstanding while parsing; 256 MiB outstanding in the pipeline for images declared smaller than 4 million samples"],
  }
}

const SUBTAGS: [u16; 4] = [330, 34665, 34853, 34675];

// ---------- lenient reference reading of a TIFF ----------
#[derive(Debug, Clone)]
enum L {
  Known(V),
  Unknown(u16, Vec<u8>),
}
#[derive(Debug, Default)]
struct LDir {
  entries: BTreeMap<u16, L>,
  sub: BTreeMap<u16, Vec<LDir>>,
  /// some entries may have been dropped by the reader on purpose
  partial: bool,
  next: u32,
}
struct Rd<'a> {
  be: bool,
  s: &'a [u8],
}
impl Rd<'_> {
  fn u16(&self, p: usize) -> Option<u16> {
    let b = self.s.get(p..p + 2)?;
    Some(if self.be { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) })
  }
  fn u32(&self, p: usize) -> Option<u32> {
    let b = self.s.get(p..p + 4)?;
    let b = [b[0], b[1], b[2], b[3]];
    Some(if self.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) })
  }
  fn u64(&self, p: usize) -> Option<u64> {
    let (a, b) = (self.u32(p)? as u64, self.u32(p + 4)? as u64);
    Some(if self.be { a << 32 | b } else { b << 32 | a })
  }
  /// value and position of the entry at p
  fn entry(&self, p: usize) -> Option<(L, usize)> {
    let ty = self.u16(p + 2)?;
    let n = self.u32(p + 4)? as usize;
    let sz = match ty {
      3 | 8 => 2,
      4 | 9 | 11 | 13 => 4,
      5 | 10 | 12 => 8,
      _ => 1,
    };
    let len = n.checked_mul(sz)?;
    let vp = if len <= 4 {
      p + 8
    } else {
      let o = self.u32(p + 8)?;
      if o == u32::MAX {
        return None;
      }
      o as usize
    };
    if len > 4 && vp.checked_add(len)? > self.s.len() || len <= 4 && p + 8 + len > self.s.len() {
      return None;
    }
    let by = || self.s[vp..vp + n].to_vec();
    let v = match ty {
      1 => V::Byte(by()),
      2 => V::Ascii(by()),
      7 => V::Undefined(by()),
      6 => V::SByte(by().iter().map(|x| *x as i8).collect()),
      3 => V::Short((0..n).map(|k| self.u16(vp + 2 * k).unwrap()).collect()),
      8 => V::SShort((0..n).map(|k| self.u16(vp + 2 * k).unwrap() as i16).collect()),
      4 | 13 => V::Long((0..n).map(|k| self.u32(vp + 4 * k).unwrap()).collect()),
      9 => V::SLong((0..n).map(|k| self.u32(vp + 4 * k).unwrap() as i32).collect()),
      11 => V::Float((0..n).map(|k| self.u32(vp + 4 * k).unwrap()).collect()),
      5 => V::Rational((0..n).map(|k| (self.u32(vp + 8 * k).unwrap(), self.u32(vp + 8 * k + 4).unwrap())).collect()),
      10 => V::SRational((0..n).map(|k| (self.u32(vp + 8 * k).unwrap() as i32, self.u32(vp + 8 * k + 4).unwrap() as i32)).collect()),
      12 => V::Double((0..n).map(|k| self.u64(vp + 8 * k).unwrap()).collect()),
      t => return Some((L::Unknown(t, by()), vp)),
    };
    Some((L::Known(v), vp))
  }
  fn dir(&self, off: usize, subs: bool) -> Option<LDir> {
    let n = self.u16(off)? as usize;
    let mut d = LDir::default();
    let mut bad = 0;
    let mut ptr = BTreeMap::new();
    for i in 0..n {
      let p = off + 2 + 12 * i;
      if i >= 4096 {
        d.partial = true;
        break;
      }
      let Some(tag) = self.u16(p) else { break };
      match self.entry(p) {
        Some((l, vp)) => {
          bad = 0;
          if subs && SUBTAGS.contains(&tag) {
            match &l {
              L::Known(V::Long(o)) => drop(ptr.insert(tag, o.clone())),
              L::Known(V::Undefined(_)) => drop(ptr.insert(tag, vec![vp as u32])),
              _ => {}
            }
          }
          d.entries.insert(tag, l);
        }
        None => {
          bad += 1;
          if bad >= 5 {
            d.partial = true;
            break;
          }
        }
      }
    }
    d.next = self.u32(off + 2 + 12 * n).unwrap_or(0);
    for (t, offs) in ptr {
      d.sub.insert(t, offs.iter().filter_map(|o| self.dir(*o as usize, false)).collect());
    }
    Some(d)
  }
}
/// None: the reader may reject the file
fn lenient(s: &[u8]) -> Option<Vec<LDir>> {
  let be = match s.get(0..2)? {
    b"II" => false,
    b"MM" => true,
    _ => return None,
  };
  let r = Rd { be, s };
  if r.u16(2)? != 42 {
    return None;
  }
  let mut o = r.u32(4)?;
  let mut seen = vec![];
  let mut out = vec![];
  while o != 0 && !seen.contains(&o) {
    seen.push(o);
    let d = r.dir(o as usize, true)?;
    if d.entries.is_empty() {
      return None;
    }
    o = d.next;
    out.push(d);
  }
  if out.is_empty() { None } else { Some(out) }
}
fn same_l(want: &L, got: &Value) -> bool {
  match (want, got) {
    (L::Unknown(t, b), Value::Unknown(u, c)) => t == u && b == c,
    (L::Known(V::Ascii(b)), Value::Ascii(_)) => {
      if std::str::from_utf8(b).is_err() {
        return true;
      }
      let Some(V::Ascii(g)) = back(got) else { return false };
      let cut = |x: &[u8]| x.iter().rposition(|c| *c != 0).map(|k| x[..=k].to_vec()).unwrap_or_default();
      cut(&g) == cut(b)
    }
    (L::Known(v), g) => back(g).as_ref() == Some(v),
    _ => false,
  }
}
fn cmp_dir(want: &LDir, got: &IFD, path: &str) -> Result<(), String> {
  for (t, w) in &want.entries {
    match got.entries.get(t) {
      Some(e) => {
        if !same_l(w, &e.value) {
          return Err(format!("{path} tag {t}: read {:.120?} but the file contains {w:.120?}", e.value));
        }
      }
      None => return Err(format!("{path}: intact entry {t} ({w:.80?}) is missing")),
    }
  }
  if !want.partial {
    if let Some(t) = got.entries.keys().find(|t| !want.entries.contains_key(t)) {
      return Err(format!("{path}: entry {t} returned which is not in the file"));
    }
  }
  for (t, subs) in &want.sub {
    let g = got.sub.get(t).map(|x| x.as_slice()).unwrap_or(&[]);
    if g.len() != subs.len() {
      return Err(format!("{path} tag {t}: {} sub directories, {} readable in the file", g.len(), subs.len()));
    }
    for (k, (w, g)) in subs.iter().zip(g).enumerate() {
      cmp_dir(w, g, &format!("{path}/{t}[{k}]"))?;
    }
  }
  Ok(())
}

// ---------- fixtures ----------
fn all_types(base: u16, seed: u64) -> Node {
  let mut n = Node::new();
  let mut r = Rng::new(seed);
  for ty in 1..13usize {
    for (k, cnt) in [1usize, 3].into_iter().enumerate() {
      let e: Vec<u64> = (0..cnt).map(|_| r.next()).collect();
      let v = if ty == 2 {
        let mut s: Vec<u8> = (0..cnt * 3).map(|_| b'a' + (r.next() % 26) as u8).collect();
        s.push(0);
        V::Ascii(s)
      } else {
        crate::checks::c06::make(ty, &e)
      };
      n.set(base + 2 * ty as u16 + k as u16, v);
    }
  }
  n
}
fn base_tiff(be: bool, vf: bool, gap: usize) -> Vec<u8> {
  let small = |s: u64| Node::new().v(256, V::Long(vec![s as u32])).v(258, V::Short(vec![1, 2, s as u16])).v(33434, V::Rational(vec![(1, s as u32)]));
  let root = all_types(40000, 1)
    .item(330, Item::Dirs(vec![small(5), small(6)], 4))
    .item(34665, Item::Dirs(vec![small(7)], 13))
    .item(34853, Item::Dirs(vec![Node::new().v(1, ascii("N")).v(2, V::Rational(vec![(1, 2), (3, 4), (5, 6)]))], 4));
  let second = small(9).v(271, ascii("Maker")).item(330, Item::Dirs(vec![small(8)], 4));
  build(&[root, second], be, vf, gap)
}

/// Positions of the structure of a well-formed file: (directory offset, count) and entry positions.
struct Map {
  be: bool,
  dirs: Vec<(usize, usize)>,
  entries: Vec<usize>,
  /// positions of 4 byte directory pointers (root, next, sub directories)
  ptrs: Vec<usize>,
}
fn map(s: &[u8]) -> Map {
  let r = Rd { be: s[0] == b'M', s };
  let mut m = Map { be: r.be, dirs: vec![], entries: vec![], ptrs: vec![4] };
  let mut todo = vec![(r.u32(4).unwrap() as usize, true)];
  while let Some((off, chain)) = todo.pop() {
    let n = r.u16(off).unwrap() as usize;
    m.dirs.push((off, n));
    for i in 0..n {
      let p = off + 2 + 12 * i;
      m.entries.push(p);
      let tag = r.u16(p).unwrap();
      if chain && SUBTAGS.contains(&tag) {
        let (l, vp) = r.entry(p).unwrap();
        if let L::Known(V::Long(o)) = l {
          for (k, o) in o.iter().enumerate() {
            m.ptrs.push(vp + 4 * k);
            todo.push((*o as usize, false));
          }
        }
      }
    }
    m.ptrs.push(off + 2 + 12 * n);
    if chain {
      let nx = r.u32(off + 2 + 12 * n).unwrap();
      if nx != 0 {
        todo.push((nx as usize, true));
      }
    }
  }
  m
}
fn put16(b: &mut [u8], p: usize, v: u16, be: bool) {
  b[p..p + 2].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
}
fn put32(b: &mut [u8], p: usize, v: u32, be: bool) {
  b[p..p + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
}

pub fn hex(b: &[u8]) -> String {
  b.iter().map(|x| format!("{x:02x}")).collect()
}
fn ok_of<T, E>(r: &Result<T, E>) -> u64 {
  r.is_ok() as u64
}

fn tiff_case(ctx: &Ctx, label: &str, file: &[u8], id: u64) {
  let (r, big) = capped(64 << 20, || ctx.guard(|| GenericTiffReader::new(&mut Cursor::new(file), 0, 0, None, &[])));
  let want = lenient(file);
  ctx.case(id, want.is_none() || r.as_ref().is_ok_and(|r| r.is_err()) || id % 2 == 1);
  let fail = |key: &str, msg: String| ctx.fail(key, msg, json!({"group": label, "file_hex": hex(file)}));
  if big > 4 * file.len() + 65536 {
    return fail("tiff-alloc", format!("{label}: reading a file of {} bytes requested {big} bytes at once", file.len()));
  }
  match (r, want) {
    (Err(p), _) => fail("tiff-panic", format!("{label}: {p}")),
    (Ok(Err(e)), Some(w)) => fail("tiff-rejected", format!("{label}: file with {} readable chained directories rejected: {e}", w.len())),
    (Ok(Err(e)), None) => ctx.outcome(fp(&e.to_string().len())),
    (Ok(Ok(t)), Some(w)) => {
      ctx.outcome(fp(&(w.len(), w.iter().map(|d| (d.entries.len(), d.sub.len())).collect::<Vec<_>>())));
      if t.chains().len() != w.len() {
        return fail("tiff-chain", format!("{label}: {} chained directories read, {} readable in the file", t.chains().len(), w.len()));
      }
      for (k, (w, g)) in w.iter().zip(t.chains()).enumerate() {
        if let Err(e) = cmp_dir(w, g, &format!("IFD{k}")) {
          return fail("tiff-entries", format!("{label}: {e}"));
        }
      }
    }
    (Ok(Ok(_)), None) => {}
  }
}

fn tiff(ctx: &Ctx) {
  let mut files = vec![];
  for be in [false, true] {
    for vf in [false, true] {
      for gap in [0, 3] {
        files.push(base_tiff(be, vf, gap));
      }
    }
  }
  for (k, f) in files.iter().enumerate() {
    assert!(lenient(f).is_some_and(|d| d.len() == 2), "fixture");
    tiff_case(ctx, "tiff:unchanged", f, fp(&("base", k)));
  }
  // every byte x every value
  let idx: Vec<(usize, usize)> = files.iter().enumerate().flat_map(|(k, f)| (0..f.len()).map(move |p| (k, p))).collect();
  ctx.par("tiff:byte", idx.len(), |i| {
    let (k, p) = idx[i];
    let mut f = files[k].clone();
    for x in 1..=255u8 {
      f[p] = files[k][p] ^ x;
      tiff_case(ctx, "tiff:byte", &f, fp(&(1, k, p, x)));
      if ctx.stopped() {
        return;
      }
    }
  });
  ctx.par("tiff:truncate", idx.len(), |i| {
    let (k, p) = idx[i];
    tiff_case(ctx, "tiff:truncate", &files[k][..p], fp(&(2, k, p)));
  });
  // entry fields
  let types: Vec<u16> = (0..=16).chain([255, 65535]).collect();
  let counts: [u32; 18] = [0, 1, 2, 3, 4, 5, 8, 255, 256, 4096, 4097, 65536, 0x1fff_ffff, 0x2000_0001, 0x3fff_ffff, 0x4000_0001, 0x8000_0000, 0xffff_ffff];
  let maps: Vec<Map> = files.iter().map(|f| map(f)).collect();
  let ents: Vec<(usize, usize)> = maps.iter().enumerate().filter(|(k, _)| !ctx.quick() || k % 3 == 0).flat_map(|(k, m)| m.entries.iter().map(move |e| (k, *e))).collect();
  ctx.par("tiff:entry", ents.len() * types.len(), |i| {
    let (k, p) = ents[i / types.len()];
    let ty = types[i % types.len()];
    let be = maps[k].be;
    let n = files[k].len() as u32;
    let mut f = files[k].clone();
    for c in counts {
      for o in [None, Some(0), Some(1), Some(7), Some(maps[k].dirs[0].0 as u32), Some(n - 9), Some(n - 1), Some(n), Some(n + 1), Some(0x7fff_ffff), Some(0xffff_fffe), Some(0xffff_ffff)] {
        f.copy_from_slice(&files[k]);
        put16(&mut f, p + 2, ty, be);
        put32(&mut f, p + 4, c, be);
        if let Some(o) = o {
          put32(&mut f, p + 8, o, be);
        }
        tiff_case(ctx, "tiff:entry", &f, fp(&(3, k, p, ty, c, o)));
        if ctx.stopped() {
          return;
        }
      }
    }
  });
  // every directory pointer to every place
  let ptrs: Vec<(usize, usize)> = maps.iter().enumerate().flat_map(|(k, m)| m.ptrs.iter().map(move |e| (k, *e))).collect();
  ctx.par("tiff:pointer", ptrs.len(), |i| {
    let (k, p) = ptrs[i];
    let mut f = files[k].clone();
    for o in (0..f.len() as u32 + 4).chain([0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff]) {
      put32(&mut f, p, o, maps[k].be);
      tiff_case(ctx, "tiff:pointer", &f, fp(&(4, k, p, o)));
    }
  });
  let dirs: Vec<(usize, usize, usize)> = maps.iter().enumerate().flat_map(|(k, m)| m.dirs.iter().map(move |e| (k, e.0, e.1))).collect();
  ctx.par("tiff:count", dirs.len(), |i| {
    let (k, p, n) = dirs[i];
    let mut f = files[k].clone();
    for c in (0..=70u16).chain([255, 256, 4095, 4096, 4097, 32767, 32768, 65535]) {
      if c as usize != n {
        put16(&mut f, p, c, maps[k].be);
        tiff_case(ctx, "tiff:count", &f, fp(&(5, k, p, c)));
      }
    }
  });
  // cycles over several directories: chains of 1-4 directories x every back pointer
  ctx.par("tiff:cycle", 4 * 5 * 2, |i| {
    let d = digits(i, &[4, 5, 2]);
    let (n, to, be) = (d[0] + 1, d[1], d[2] == 1);
    let nodes: Vec<Node> = (0..n).map(|k| Node::new().v(256, V::Short(vec![k as u16 + 1])).v(270, ascii("text of directory"))).collect();
    let mut f = build(&nodes, be, false, 0);
    let r = Rd { be, s: &f };
    let mut offs = vec![r.u32(4).unwrap()];
    for _ in 1..n {
      let o = *offs.last().unwrap() as usize;
      offs.push(r.u32(o + 2 + 24).unwrap());
    }
    let last = *offs.last().unwrap() as usize + 2 + 24;
    let v = offs.get(to).copied().unwrap_or(0);
    put32(&mut f, last, v, be);
    tiff_case(ctx, "tiff:cycle", &f, fp(&(6, n, to, be)));
  });
  // large entries: sizes around the file size and around the limit up to which sizes are not checked
  ctx.par("tiff:large", 12 * 40, |i| {
    let d = digits(i, &[12, 40]);
    let ty = d[0] as u16 + 1;
    let sz = [1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8][d[0]];
    let body = 9000usize;
    let mut f = build(&[Node::new().v(256, V::Short(vec![7])).v(40000, V::Undefined(vec![1; body])).v(40001, V::Long(vec![99]))], d[1] % 2 == 1, false, 0);
    let be = d[1] % 2 == 1;
    let n = [1usize, 2, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, body / sz - 1, body / sz, body / sz + 1, body / sz + 2, 1 << 16, 1 << 24, 1 << 28, 0xffff_ffff][d[1] / 2];
    let p = map(&f).entries[1];
    put16(&mut f, p + 2, ty, be);
    put32(&mut f, p + 4, n as u32, be);
    tiff_case(ctx, "tiff:large", &f, fp(&(7, ty, n, be)));
  });
  if !ctx.quick() {
    // pairs of structure bytes
    let (f0, m) = (&files[0], &maps[0]);
    let mut pos = vec![0, 2, 4, 5];
    for (o, n) in &m.dirs {
      pos.extend([*o, o + 1, o + 2 + 12 * n, o + 2 + 12 * n + 1]);
    }
    for e in m.entries.iter().step_by(5) {
      pos.extend([*e, e + 2, e + 4, e + 6, e + 8, e + 9]);
    }
    pos.sort();
    pos.dedup();
    const X: [u8; 7] = [1, 2, 4, 8, 0x10, 0x80, 0xff];
    ctx.par("tiff:pairs", pos.len() * pos.len(), |i| {
      let (a, b) = (pos[i / pos.len()], pos[i % pos.len()]);
      if a >= b {
        return;
      }
      let mut f = f0.clone();
      for x in X {
        for y in X {
          f[a] = f0[a] ^ x;
          f[b] = f0[b] ^ y;
          tiff_case(ctx, "tiff:pairs", &f, fp(&(8, a, b, x, y)));
        }
      }
    });
  }
}

/// accessors of image data and makernotes on damaged directories
fn access(ctx: &Ctx) {
  let strips = Node::new().v(256, V::Short(vec![8])).v(279, V::Long(vec![8, 8, 5])).item(273, Item::Blobs(vec![vec![1; 8], vec![2; 8], vec![3; 5]]));
  let tiles = Node::new().v(325, V::Long(vec![9, 9])).item(324, Item::Blobs(vec![vec![4; 9], vec![5; 9]]));
  let notes: Vec<Vec<u8>> = vec![
    b"OLYMP\0\x01\0\x01\0\x01\0\x03\0\x01\0\0\0\x09\0\0\0\0\0\0\0".to_vec(),
    b"PENTAX \0II\x01\0\x01\0\x03\0\x01\0\0\0\x09\0\0\0\0\0\0\0".to_vec(),
    b"Nikon\0\x02\x10\0\0II*\0\x08\0\0\0\x01\0\x01\0\x03\0\x01\0\0\0\x09\0\0\0\0\0\0\0".to_vec(),
    b"FUJIFILM\x0c\0\0\0\x01\0\x01\0\x03\0\x01\0\0\0\x09\0\0\0\0\0\0\0".to_vec(),
    b"SONY DSC \0\0\0\x01\0\x01\0\x03\0\x01\0\0\0\x09\0\0\0\0\0\0\0".to_vec(),
    b"AOC\0MM\0\x01\0\x01\0\x03\0\0\0\x01\0\x09\0\0\0\0\0\0".to_vec(),
    b"EPSON\0\x01\0".to_vec(),
  ];
  let mut files: Vec<Vec<u8>> = vec![];
  for n in &notes {
    for l in [n.len(), 5, 6, 9, 10, 11, 12, 13] {
      let exif = Node::new().v(37500, V::Undefined(n[..l.min(n.len())].to_vec()));
      files.push(build(&[strips.clone().item(34665, Item::Dirs(vec![exif], 4)), tiles.clone()], false, l % 2 == 1, 0));
    }
  }
  let idx: Vec<(usize, usize)> = files.iter().enumerate().flat_map(|(k, f)| (0..f.len()).map(move |p| (k, p))).collect();
  ctx.par("tiff:access", idx.len(), |i| {
    let (k, p) = idx[i];
    let mut f = files[k].clone();
    for x in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 31, 64, 127, 128, 255] {
      f[p] = files[k][p] ^ x;
      if ctx.quick() && x != 0 && k % 8 != 0 {
        continue;
      }
      let (r, big) = capped(64 << 20, || {
        ctx.guard(|| {
          let src = RawSource::new_from_slice(&f);
          let mut bad = None;
          if let Ok(t) = GenericTiffReader::new(&mut Cursor::new(&f), 0, 0, None, &[]) {
            for d in t.chains().iter().chain(t.chains().iter().flat_map(|d| d.sub.values().flatten())) {
              for (o, n, r) in [(273u16, 279u16, d.strip_data(&src).map(|x| x.0)), (324, 325, d.tile_data(&src))] {
                if let (Ok(sl), Some(Value::Long(o)), Some(Value::Long(n))) = (r, d.entries.get(&o).map(|e| &e.value), d.entries.get(&n).map(|e| &e.value)) {
                  for ((s, o), n) in sl.iter().zip(o).zip(n) {
                    if f.get(*o as usize..*o as usize + *n as usize) != Some(s) {
                      bad = Some(format!("data at {o}+{n} is not what the file contains there"));
                    }
                  }
                }
              }
              for mode in [rawler::formats::tiff::ifd::OffsetMode::Absolute, rawler::formats::tiff::ifd::OffsetMode::RelativeToIFD] {
                let _ = d.parse_makernote(&mut Cursor::new(&f), mode, &[]);
              }
              let mut d = d.clone();
              for tag in [256, 273, 330, 34665, 37500] {
                let _ = d.extend_sub_ifds(&mut Cursor::new(&f), tag);
              }
            }
          }
          bad
        })
      });
      ctx.case(fp(&(9, k, p, x)), x != 0);
      let fail = |key: &str, msg: String| ctx.fail(key, msg, json!({"group": "tiff:access", "file_hex": hex(&f)}));
      match r {
        Err(e) => fail("access-panic", format!("tiff:access: {e}")),
        Ok(Some(e)) => fail("access-data", format!("tiff:access: {e}")),
        Ok(None) if big > 4 * f.len() + 65536 => fail("access-alloc", format!("tiff:access: file of {} bytes requested {big} bytes at once", f.len())),
        _ => {}
      }
    }
  });
}

// ---------- BMFF ----------
/// (position, header length, end) of all boxes
fn walk(s: &[u8], from: usize, to: usize, out: &mut Vec<(usize, usize, usize)>) {
  let mut p = from;
  while p + 8 <= to {
    let mut n = u32::from_be_bytes(s[p..p + 4].try_into().unwrap()) as usize;
    let mut h = 8;
    if n == 1 {
      n = u64::from_be_bytes(s[p + 8..p + 16].try_into().unwrap()) as usize;
      h = 16;
    }
    let t = &s[p + 4..p + 8];
    if t == b"uuid" {
      h += 16;
    }
    out.push((p, h, p + n));
    let skip = match t {
      b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"dinf" => Some(0),
      b"uuid" if s[p + 8..p + 24] == CR3 => Some(0),
      b"stsd" => Some(8),
      b"CRAW" => Some(82),
      b"CCTP" => Some(12),
      b"CDI1" => Some(4),
      _ => None,
    };
    if let Some(k) = skip {
      walk(s, p + h + k, p + n, out);
    }
    p += n;
  }
}
pub fn base_cr3() -> Vec<u8> {
  let cmt = |s: u64| build(&[Node::new().v(256, V::Short(vec![s as u16])).v(271, ascii("Canon")).v(272, ascii("Canon EOS R5"))], s % 2 == 1, false, 0);
  let t = Table { stsc: vec![(1, 2), (2, 1)], fixed: 0, sizes: vec![3, 4, 5], chunks: vec![100, 200] };
  cr3(&[cmt(1), cmt(2), cmt(3), cmt(4)], &t, &[9; 40])
}
fn bmff_case(ctx: &Ctx, label: &str, file: &[u8], id: u64) {
  let (r, big) = capped(64 << 20, || ctx.guard(|| Bmff::new(Cursor::new(file)).map(|b| b.filebox.vendor.len())));
  let fail = |key: &str, msg: String| ctx.fail(key, msg, json!({"group": label, "file_hex": hex(file)}));
  ctx.case(id, r.as_ref().is_ok_and(|r| r.is_err()) || id % 2 == 1);
  if big > 4 * file.len() + 65536 {
    return fail("bmff-alloc", format!("{label}: reading a file of {} bytes requested {big} bytes at once", file.len()));
  }
  match r {
    Err(p) => fail("bmff-panic", format!("{label}: {p}")),
    Ok(r) => ctx.outcome(fp(&r.map_err(|e| e.to_string()))),
  }
}
fn bmff(ctx: &Ctx) {
  let base = base_cr3();
  let base_ok = ctx.guard(|| Bmff::new(Cursor::new(&base[..])).map(|b| b.filebox.moov.traks.len()).map_err(|e| e.to_string()));
  if base_ok != Ok(Ok(4)) {
    ctx.fail("bmff-base", format!("well-formed CR3 structure not read: {base_ok:?}"), json!({}));
    return;
  }
  ctx.par("bmff:byte", base.len(), |p| {
    let mut f = base.clone();
    for x in 1..=255u8 {
      f[p] = base[p] ^ x;
      bmff_case(ctx, "bmff:byte", &f, fp(&(10, p, x)));
      if ctx.stopped() {
        return;
      }
    }
  });
  ctx.par("bmff:truncate", base.len(), |p| bmff_case(ctx, "bmff:truncate", &base[..p], fp(&(11, p))));
  let mut bs = vec![];
  walk(&base, 0, base.len(), &mut bs);
  assert!(bs.len() > 60, "fixture boxes {}", bs.len());
  let sizes = |(p, h, e): (usize, usize, usize)| -> Vec<u64> {
    let n = (e - p) as u64;
    let rest = (base.len() - p) as u64;
    let mut v = vec![0, 1, 2, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, h as u64, n - 1, n + 1, n - 8, n + 8, n + 24, rest - 1, rest, rest + 1, rest + 8, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
    v.retain(|x| *x != n);
    v
  };
  let wide = |(p, _, _): (usize, usize, usize)| -> Vec<u64> {
    let back = |k: u64| 0u64.wrapping_sub(k);
    vec![0, 1, 8, 15, 16, 17, 32, 1 << 31, 1 << 32, 1 << 40, 1 << 62, i64::MAX as u64, 1 << 63, back(1), back(8), back(16), back(p as u64), back(p as u64) + 8, back(p as u64) + 1, back(24)]
  };
  ctx.par("bmff:size", bs.len(), |i| {
    for v in sizes(bs[i]) {
      let mut f = base.clone();
      f[bs[i].0..bs[i].0 + 4].copy_from_slice(&(v as u32).to_be_bytes());
      bmff_case(ctx, "bmff:size", &f, fp(&(12, i, v)));
    }
    for v in wide(bs[i]) {
      // 64 bit size over the first bytes of the body
      let mut f = base.clone();
      let p = bs[i].0;
      f[p..p + 4].copy_from_slice(&1u32.to_be_bytes());
      if p + 16 > f.len() {
        f.resize(p + 16, 0);
      }
      f[p + 8..p + 16].copy_from_slice(&v.to_be_bytes());
      bmff_case(ctx, "bmff:size64", &f, fp(&(13, i, v)));
      // and inserted
      let mut f = base[..p].to_vec();
      f.extend(1u32.to_be_bytes());
      f.extend(&base[p + 4..p + 8]);
      f.extend(v.to_be_bytes());
      f.extend(&base[p + 8..]);
      bmff_case(ctx, "bmff:size64ins", &f, fp(&(14, i, v)));
    }
    // unknown and foreign types, duplicated and removed boxes
    for t in [b"xxxx", b"free", b"uuid", b"moov", b"trak", b"CRAW", b"CTMD", b"CMP1", b"IAD1", b"stsz", b"co64", b"ftyp", b"mdat"] {
      let mut f = base.clone();
      f[bs[i].0 + 4..bs[i].0 + 8].copy_from_slice(t);
      bmff_case(ctx, "bmff:type", &f, fp(&(15, i, t)));
    }
    let (a, e) = (bs[i].0, bs[i].2);
    let mut f = base.clone();
    let copy = base[a..e].to_vec();
    f.splice(a..a, copy);
    bmff_case(ctx, "bmff:dup", &f, fp(&(16, i)));
    let mut f = base.clone();
    f.drain(a..e);
    bmff_case(ctx, "bmff:del", &f, fp(&(17, i)));
  });
  // every aligned 32 bit word as a count or offset
  ctx.par("bmff:word", base.len() / 2 - 2, |i| {
    let p = 2 * i;
    for v in [0u32, 1, 2, 3, 16, 255, 65535, 65536, 0x0fff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
      let mut f = base.clone();
      f[p..p + 4].copy_from_slice(&v.to_be_bytes());
      bmff_case(ctx, "bmff:word", &f, fp(&(18, p, v)));
    }
  });
  let pairs: Vec<(usize, usize)> = (0..bs.len()).flat_map(|a| (a + 1..bs.len()).map(move |b| (a, b))).filter(|(a, b)| !ctx.quick() || (bs[*b].0 < bs[*a].2)).collect();
  ctx.par("bmff:size-pairs", pairs.len(), |i| {
    let (a, b) = (bs[pairs[i].0], bs[pairs[i].1]);
    let mut f = base.clone();
    for x in sizes(a) {
      for y in sizes(b) {
        f[a.0..a.0 + 4].copy_from_slice(&(x as u32).to_be_bytes());
        f[b.0..b.0 + 4].copy_from_slice(&(y as u32).to_be_bytes());
        bmff_case(ctx, "bmff:size-pairs", &f, fp(&(19, pairs[i], x, y)));
      }
      if ctx.stopped() {
        return;
      }
    }
  });
}

// ---------- JFIF ----------
pub fn exif_tiff(be: bool) -> Vec<u8> {
  build(
    &[Node::new().v(271, ascii("Acme")).v(272, ascii("Model 1")).item(34665, Item::Dirs(vec![Node::new().v(33434, V::Rational(vec![(1, 60)]))], 4))],
    be,
    false,
    0,
  )
}
fn jfif_case(ctx: &Ctx, label: &str, file: &[u8], id: u64) {
  let (r, big) = capped(64 << 20, || ctx.guard(|| Jfif::parse(Cursor::new(file)).map(|j| (j.segments.len(), j.exif_ifd().is_some(), j.xpacket().map(|x| x.len())))));
  let fail = |key: &str, msg: String| ctx.fail(key, msg, json!({"group": label, "file_hex": hex(file)}));
  ctx.case(id, r.as_ref().is_ok_and(|r| r.is_err()) || id % 2 == 1);
  if big > 4 * file.len() + 200_000 {
    return fail("jfif-alloc", format!("{label}: reading a file of {} bytes requested {big} bytes at once", file.len()));
  }
  match r {
    Err(p) => fail("jfif-panic", format!("{label}: {p}")),
    Ok(r) => ctx.outcome(fp(&r.map_err(|e| e.to_string()))),
  }
}
fn jfif_all(ctx: &Ctx) {
  let e = Seg::Exif(exif_tiff(false));
  let x = Seg::Xmp(b"<x:xmpmeta/>".to_vec());
  let bases = [
    jfif(&[Seg::Jfif(0, 0), e.clone(), x.clone(), Seg::Com(5), Seg::Sos(20)], true),
    jfif(&[e.clone(), x.clone(), Seg::Jfif(3, 5), Seg::App1Other(3), Seg::Sos(9), Seg::Sos(7)], true),
    jfif(&[x, Seg::App1Other(40), Seg::Exif(exif_tiff(true)), Seg::Com(0), Seg::Sos(0)], false),
  ];
  let idx: Vec<(usize, usize)> = bases.iter().enumerate().flat_map(|(k, f)| (0..f.len()).map(move |p| (k, p))).collect();
  ctx.par("jfif:byte", idx.len(), |i| {
    let (k, p) = idx[i];
    let mut f = bases[k].clone();
    for x in 1..=255u8 {
      f[p] = bases[k][p] ^ x;
      jfif_case(ctx, "jfif:byte", &f, fp(&(20, k, p, x)));
    }
  });
  ctx.par("jfif:truncate", idx.len(), |i| {
    let (k, p) = idx[i];
    jfif_case(ctx, "jfif:truncate", &bases[k][..p], fp(&(21, k, p)));
  });
  // every 16 bit word as marker or length, with zero filled tail
  ctx.par("jfif:word", idx.len(), |i| {
    let (k, p) = idx[i];
    if p + 2 > bases[k].len() {
      return;
    }
    for tail in [0usize, 40] {
      for v in (0..=80u16).chain([255, 256, 32767, 32768, 65533, 65534, 65535]).chain(0xffc0..=0xffff) {
        let mut f = bases[k].clone();
        f[p..p + 2].copy_from_slice(&v.to_be_bytes());
        f.resize(f.len() + tail, 0);
        jfif_case(ctx, "jfif:word", &f, fp(&(22, k, p, v, tail)));
      }
    }
  });
  // APP0/APP1 of every length at the end of the file and followed by zero bytes
  ctx.par("jfif:short", 2 * 70 * 4, |i| {
    let d = digits(i, &[2, 70, 4]);
    for body in [&b"Exif\0\0II*\0"[..], b"http://ns.adobe.com/xap/1.0/\0abc", b"JFIF\0\x01\x02\0\0\x48\0\x48\x20\x20", b"JFXX\0\x10"] {
      let mut f = vec![0xff, 0xd8, 0xff, 0xe0 + d[0] as u8];
      f.extend((d[1] as u16).to_be_bytes());
      f.extend(body);
      f.resize(f.len() + [0, 1, 2, 100][d[2]], 0);
      jfif_case(ctx, "jfif:short", &f, fp(&(23, i, body)));
    }
  });
}

// ---------- whole pipeline ----------
/// samples the largest image declared in any directory
fn declared(file: &[u8]) -> u64 {
  fn u(d: &IFD, t: u16) -> u64 {
    d.entries.get(&t).map(|e| if e.value.count() > 0 { e.value.force_u32(0) as u64 } else { 0 }).unwrap_or(0)
  }
  fn of(d: &IFD) -> u64 {
    let spp = u(d, 277).max(1);
    let a = u(d, 256).saturating_mul(u(d, 257)).saturating_mul(spp);
    let b = u(d, 322).saturating_mul(u(d, 323).max(1)).saturating_mul(spp);
    let c = u(d, 256).max(1).saturating_mul(u(d, 278)).saturating_mul(spp);
    a.max(b).max(c).max(u(d, 256)).max(u(d, 257)).max(d.sub.values().flatten().map(of).max().unwrap_or(0))
  }
  std::panic::catch_unwind(|| match GenericTiffReader::new(&mut Cursor::new(file), 0, 0, None, &[]) {
    Ok(t) => t.chains().iter().map(of).max().unwrap_or(0),
    Err(_) => 0,
  })
  .unwrap_or(u64::MAX)
}
fn pipe_case(ctx: &Ctx, _label: &str, file: &[u8], id: u64, convert: bool) {
  if declared(file) > 4_000_000 {
    ctx.count("pipeline cases skipped for declared size", 1);
    return;
  }
  let (r, _) = capped(256 << 20, || {
    ctx.guard(|| {
      let src = RawSource::new_from_slice(file);
      let r = rawler::decode(&src, &RawDecodeParams::default()).map(|i| i.width).map_err(|e| e.to_string());
      if convert {
        let mut p = params(CropMode::Best, DngCompression::Lossless, 1);
        p.preview = true;
        let _ = convert_bytes(file, &p);
      } else if let Ok(d) = rawler::get_decoder(&src) {
        let _ = d.raw_metadata(&src, &RawDecodeParams::default());
        let _ = d.full_image(&src, &RawDecodeParams::default());
      }
      r
    })
  });
  ctx.case(id, !matches!(r, Ok(Ok(_))) || id % 2 == 1);
  ctx.outcome(fp(&r.as_ref().map(ok_of).unwrap_or(7)));
}
const MAKES: [&str; 30] = [
  "Canon", "PENTAX", "PENTAX Corporation", "RICOH IMAGING COMPANY, LTD.", "Phase One", "Phase One A/S", "Leaf", "Hasselblad", "SONY", "Mamiya-OP Co.,Ltd.", "OLYMPUS IMAGING CORP.", "OLYMPUS CORPORATION",
  "OLYMPUS OPTICAL CO.,LTD", "OM Digital Solutions", "SAMSUNG", "SEIKO EPSON CORP.", "EASTMAN KODAK COMPANY", "Eastman Kodak Company", "KODAK", "Kodak", "Panasonic", "LEICA", "LEICA CAMERA AG", "NIKON", "Nikon", "NIKON CORPORATION",
  "FUJIFILM", "Unknown", "", "Camera Library",
];
fn vendor_tiff(make: &str, mk: usize) -> Vec<u8> {
  let note: Vec<u8> = match mk {
    0 => {
      let mut v = vec![3, 0];
      for (t, ty, n, x) in [(1u16, 3u16, 2u32, 5u32), (0x4001, 3, 2, 7), (0x2010, 13, 1, 40)] {
        v.extend(t.to_le_bytes());
        v.extend(ty.to_le_bytes());
        v.extend(n.to_le_bytes());
        v.extend(x.to_le_bytes());
      }
      v.extend([0; 8]);
      v
    }
    1 => [&b"Nikon\0\x02\x10\0\0II*\0\x08\0\0\0"[..], &[1, 0, 1, 0, 3, 0, 1, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0]].concat(),
    2 => [&b"OLYMPUS\0II\x03\0"[..], &[1, 0, 0x10, 0x20, 13, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]].concat(),
    3 => [&b"PENTAX \0II"[..], &[1, 0, 1, 0, 3, 0, 1, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0]].concat(),
    _ => b"SONY DSC \0\0\0\x01\0\0\0".to_vec(),
  };
  let raw = Node::new()
    .v(254, V::Long(vec![0]))
    .v(256, V::Short(vec![16]))
    .v(257, V::Short(vec![8]))
    .v(258, V::Short(vec![14]))
    .v(259, V::Short(vec![1]))
    .v(262, V::Short(vec![32803]))
    .v(277, V::Short(vec![1]))
    .v(278, V::Short(vec![8]))
    .v(279, V::Long(vec![256]))
    .v(33421, V::Short(vec![2, 2]))
    .v(33422, V::Byte(vec![0, 1, 1, 2]))
    .item(273, Item::Blobs(vec![vec![5; 256]]));
  let mut root = raw
    .clone()
    .v(271, ascii(make))
    .v(272, ascii("Model 1"))
    .v(305, ascii("Camera Library"))
    .item(330, Item::Dirs(vec![raw], 4))
    .item(34665, Item::Dirs(vec![Node::new().v(33434, V::Rational(vec![(1, 60)])).v(37500, V::Undefined(note))], 4));
  if make == "Camera Library" || make.is_empty() {
    root.items.remove(&271);
  }
  build(&[root], false, false, 0)
}
fn shells() -> Vec<(&'static str, Vec<u8>)> {
  let tail: Vec<u8> = (0..160u32).map(|k| (k * 7) as u8).collect();
  // MRW: magic, data offset, PRD/TTW/WBG blocks
  let mut mrw = b"\0MRM".to_vec();
  let mut body = b"\0PRD\0\0\0\x18".to_vec();
  body.extend(b"21810002\0\x10\0\x20\0\x10\0\x20\x0c\x0c\x59\0\0\0\0\0");
  let t = exif_tiff(true);
  body.extend(b"\0TTW");
  body.extend((t.len() as u32).to_be_bytes());
  body.extend(&t);
  body.extend(b"\0WBG\0\0\0\x0c\0\0\0\0\x01\0\x01\0\x01\0\x01\0");
  mrw.extend((body.len() as u32).to_be_bytes());
  mrw.extend(&body);
  mrw.extend(&tail);
  // RAF
  let mut raf = b"FUJIFILMCCD-RAW 0201FF383501".to_vec();
  raf.resize(84, 0x20);
  let j = jfif(&[Seg::Exif(exif_tiff(false)), Seg::Sos(10)], true);
  raf.extend(be32(&[148, j.len() as u32, 148 + j.len() as u32, 60, 148 + j.len() as u32 + 60, 160]));
  raf.resize(148, 0);
  raf.extend(&j);
  let mut fuji = be32(&[4]);
  for (t, d) in [(0x100u16, [0u8, 16, 0, 16]), (0x111, [0, 8, 0, 8]), (0x121, [0, 16, 0, 16]), (0x131, [1, 1, 2, 1])] {
    fuji.extend(t.to_be_bytes());
    fuji.extend(4u16.to_be_bytes());
    fuji.extend(d);
  }
  fuji.resize(60, 0);
  raf.extend(fuji);
  raf.extend(build(&[Node::new().item(0xf000, Item::Dirs(vec![Node::new().v(0xf001, V::Long(vec![16])).v(0xf002, V::Long(vec![8])).v(0xf003, V::Long(vec![14]))], 4))], false, false, 0));
  raf.extend(&tail);
  let mut ari = b"ARRI\x12\x34\x56\x78".to_vec();
  ari.extend([0x10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16, 0, 0, 0, 8, 0, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0]);
  ari.resize(700, 0x31);
  let mut qtk = b"qktk\0\0\0\x08".to_vec();
  qtk.resize(544, 0);
  qtk.extend([0, 8, 0, 16]);
  qtk.extend(&tail);
  qtk.resize(1200, 3);
  // CIFF with nested heap
  let mut heap = vec![];
  heap.extend(b"Canon\0Model 1\0\0\0");
  let inner = {
    let mut h = vec![1, 2, 3, 4];
    h.extend([1, 0, 0x31, 0x10, 4, 0, 0, 0, 0, 0, 0, 0]);
    h.extend([4, 0, 0, 0]);
    h
  };
  let ioff = heap.len() as u32;
  heap.extend(&inner);
  let dir = heap.len() as u32;
  heap.extend([2, 0]);
  heap.extend([0x0a, 0x08, 16, 0, 0, 0, 0, 0, 0, 0]);
  heap.extend([0x0a, 0x30]);
  heap.extend((inner.len() as u32).to_le_bytes());
  heap.extend(ioff.to_le_bytes());
  heap.extend(dir.to_le_bytes());
  let mut crw = b"II\x1a\0\0\0HEAPCCDR".to_vec();
  crw.resize(26, 0);
  crw.extend(heap);
  // X3F
  let mut x3f = b"FOVb\0\0\x02\0".to_vec();
  x3f.resize(40, 1);
  x3f.extend([0; 8]);
  let img = x3f.len() as u32;
  x3f.extend(b"SECi\0\0\x02\0\x03\0\0\0\x06\0\0\0\x10\0\0\0\x08\0\0\0\0\0\0\0");
  x3f.extend(&tail);
  let prop = x3f.len() as u32;
  x3f.extend(b"SECp\0\0\x02\0\x01\0\0\0\0\0\0\0\0\0\0\0\x08\0\0\0\0\0\0\0\x02\0\0\0a\0\0\0b\0\0\0");
  let dirp = x3f.len() as u32;
  x3f.extend(b"SECd\0\0\x02\0\x02\0\0\0");
  for (o, l, t) in [(img, prop - img, b"IMAG"), (prop, dirp - prop, b"PROP")] {
    x3f.extend(o.to_le_bytes());
    x3f.extend(l.to_le_bytes());
    x3f.extend(t);
  }
  x3f.extend(dirp.to_le_bytes());
  let minolta = build(&[Node::new().v(271, ascii("Konica Minolta Photo Imaging, Inc.")).v(272, ascii("DG-7D"))], false, false, 0);
  vec![
    ("mrw", mrw),
    ("raf", raf),
    ("ari", ari),
    ("qtk", qtk),
    ("crw", crw),
    ("x3f", x3f),
    ("cr3", base_cr3()),
    ("exif", [jfif(&[Seg::Exif(minolta), Seg::Sos(9)], true), tail.clone()].concat()),
    ("empty", vec![]),
    ("zero", vec![0; 64]),
  ]
}
fn pipeline(ctx: &Ctx) {
  let mut files: Vec<(String, Vec<u8>, bool)> = vec![];
  for (k, l) in [
    Layout { sub: false, ..Default::default() },
    Layout { sub: true, lossless: Some((1, 2)), tiles: Some((16, 16)), ..Default::default() },
    Layout { be: true, sub: true, values_first: true, rps: 3, ..Default::default() },
  ]
  .into_iter()
  .enumerate()
  {
    files.push((format!("dng{k}"), dng_file(&Spec::new(16, 8, Kind::Cfa("RGGB".into()), 14, 3), &l), true));
  }
  files.push(("dng-lin".into(), dng_file(&Spec::new(9, 7, Kind::Linear(3), 16, 3), &Layout::default()), true));
  files.push(("dng-original".into(), clikit::dng_with_original(3, "x.nef", clikit::Health::Good), true));
  for (k, m) in MAKES.iter().enumerate() {
    files.push((format!("make:{m}"), vendor_tiff(m, k % 5), false));
    if !ctx.quick() {
      for j in 1..5 {
        files.push((format!("make:{m}:{j}"), vendor_tiff(m, (k + j) % 5), false));
      }
    }
  }
  for (n, f) in shells() {
    files.push((n.into(), f, false));
  }
  let idx: Vec<(usize, usize)> = files.iter().enumerate().flat_map(|(k, f)| (0..=f.1.len()).map(move |p| (k, p))).collect();
  ctx.par("pipeline", idx.len(), |i| {
    let (k, p) = idx[i];
    let (name, base, convert) = &files[k];
    let label = format!("pipeline:{name}");
    pipe_case(ctx, &label, &base[..p], fp(&(30, k, p)), *convert);
    if p == base.len() {
      return;
    }
    let o = base[p];
    let mut vals: Vec<u8> = vec![0, 1, 0x7f, 0x80, 0xff, o.wrapping_add(1), o.wrapping_sub(1), o ^ 0x10];
    if !ctx.quick() {
      vals.extend([2, 3, 4, 5, 7, 8, 9, 13, 14, 0x40, 0xfe, 0xe0, 0xd8, 0xd9, o ^ 2, o ^ 0x80]);
    }
    vals.sort();
    vals.dedup();
    vals.retain(|v| *v != o);
    let mut f = base.clone();
    for v in vals {
      f[p] = v;
      pipe_case(ctx, &label, &f, fp(&(31, k, p, v)), *convert);
      if ctx.stopped() {
        return;
      }
    }
  });
}

pub fn run(ctx: &Ctx) {
  ctx.hang_limit.store(20, SeqCst);
  tiff(ctx);
  access(ctx);
  bmff(ctx);
  jfif_all(ctx);
  pipeline(ctx);
}
