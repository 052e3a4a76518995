//! C06: TIFF structures written read back identically; reading does not depend on how a file is laid out.
use crate::Level;
use crate::ctx::*;
use crate::refs::tiff::*;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::{DirectoryWriter, GenericTiffReader, IFD, Rational, SRational, TiffAscii, TiffWriter, Value};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Cursor;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one TIFF structure written by the real writer (or built by the independent builder) and read by the real reader and by the independent parser, every tag, type, count and value compared bit for bit. Non-trivial: at least one entry with a non-zero value.",
    bounds: "every value type x counts 0-9 and 63-65, 255-257 x boundary contents; every combination of the boundary elements for values that fit into the entry; all float bit patterns with the low 8 (quick 12) bits zero; all subsets of 11 tags of different types x 3 count classes; all operation sequences up to length 6 (thorough 7) of add/replace/remove/copy/copy-with-override; every sequence of 5 (thorough 6) data blocks of 0-6 bytes x 3 writing calls x nested directories up to depth 3; read: both byte orders x values before/after directory x gaps 0-3 x embedding base x offset correction x chains 1-4 x sub-directories; getters of every type at every boundary value against integer arithmetic",
    assumptions: &["ASCII values are 7 bit", "conversions of rationals to integers are compared where numerator and denominator are below 2^24"],
  }
}

pub fn own(v: &V) -> Value {
  match v {
    V::Byte(x) => Value::Byte(x.clone()),
    V::Ascii(x) => {
      let body = x.strip_suffix(&[0]).unwrap_or(x);
      Value::Ascii(TiffAscii::new_from_vec(body.split(|b| *b == 0).map(|s| String::from_utf8(s.to_vec()).unwrap()).collect()))
    }
    V::Short(x) => Value::Short(x.clone()),
    V::Long(x) | V::IfdPtr(x) => Value::Long(x.clone()),
    V::Rational(x) => Value::Rational(x.iter().map(|(n, d)| Rational::new(*n, *d)).collect()),
    V::SByte(x) => Value::SByte(x.clone()),
    V::Undefined(x) => Value::Undefined(x.clone()),
    V::SShort(x) => Value::SShort(x.clone()),
    V::SLong(x) => Value::SLong(x.clone()),
    V::SRational(x) => Value::SRational(x.iter().map(|(n, d)| SRational::new(*n, *d)).collect()),
    V::Float(x) => Value::Float(x.iter().map(|b| f32::from_bits(*b)).collect()),
    V::Double(x) => Value::Double(x.iter().map(|b| f64::from_bits(*b)).collect()),
  }
}
/// what the real reader returned, in reference form
pub fn back(v: &Value) -> Option<V> {
  Some(match v {
    Value::Byte(x) => V::Byte(x.clone()),
    Value::Ascii(x) => V::Ascii(x.as_vec_with_nul()),
    Value::Short(x) => V::Short(x.clone()),
    Value::Long(x) => V::Long(x.clone()),
    Value::Rational(x) => V::Rational(x.iter().map(|r| (r.n, r.d)).collect()),
    Value::SByte(x) => V::SByte(x.clone()),
    Value::Undefined(x) => V::Undefined(x.clone()),
    Value::SShort(x) => V::SShort(x.clone()),
    Value::SLong(x) => V::SLong(x.clone()),
    Value::SRational(x) => V::SRational(x.iter().map(|r| (r.n, r.d)).collect()),
    Value::Float(x) => V::Float(x.iter().map(|r| r.to_bits()).collect()),
    Value::Double(x) => V::Double(x.iter().map(|r| r.to_bits()).collect()),
    Value::Unknown(..) => return None,
  })
}
/// equal up to the representation of pointers
pub fn same(want: &V, got: &Value) -> bool {
  match (want, back(got)) {
    (V::IfdPtr(a), Some(V::Long(b))) => *a == b,
    (w, Some(g)) => *w == g,
    _ => false,
  }
}

pub const NTYPES: usize = 12;
fn element(ty: usize, k: usize) -> u64 {
  let e8 = [0u64, 1, 0x7f, 0x80, 0xff];
  let e16 = [0u64, 1, 0x7fff, 0x8000, 0xffff, 0x1234];
  let e32 = [0u64, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678];
  match ty {
    1 | 6 | 7 => e8[k % 5],
    2 => [b'A' as u64, b'z' as u64, b' ' as u64, b'~' as u64, 1][k % 5],
    3 | 8 => e16[k % 6],
    4 | 9 => e32[k % 6],
    5 | 10 => e32[k % 6] << 32 | e32[(k / 6 + k) % 6],
    11 => [0u64, 0x80000000, 0x3f800000, 0xbfc00000, 0x7f800000, 0x00000001, 0x7fc00001, 0x4b800001][k % 8],
    _ => [0u64, 1 << 63, 0x3ff0000000000000, 0xbff8000000000000, 0x7ff0000000000000, 1, 0x7ff8000000000001, 0x4330000000000001][k % 8],
  }
}
fn nelem(ty: usize) -> usize {
  match ty {
    1 | 2 | 6 | 7 => 5,
    3 | 4 | 8 | 9 => 6,
    5 | 10 => 36,
    _ => 8,
  }
}
pub fn make(ty: usize, e: &[u64]) -> V {
  match ty {
    1 => V::Byte(e.iter().map(|x| *x as u8).collect()),
    2 => V::Ascii(e.iter().map(|x| *x as u8).collect()),
    3 => V::Short(e.iter().map(|x| *x as u16).collect()),
    4 => V::Long(e.iter().map(|x| *x as u32).collect()),
    5 => V::Rational(e.iter().map(|x| ((*x >> 32) as u32, *x as u32)).collect()),
    6 => V::SByte(e.iter().map(|x| *x as i8).collect()),
    7 => V::Undefined(e.iter().map(|x| *x as u8).collect()),
    8 => V::SShort(e.iter().map(|x| *x as i16).collect()),
    9 => V::SLong(e.iter().map(|x| *x as i32).collect()),
    10 => V::SRational(e.iter().map(|x| ((*x >> 32) as i32, *x as i32)).collect()),
    11 => V::Float(e.iter().map(|x| *x as u32).collect()),
    _ => V::Double(e.to_vec()),
  }
}
/// value of `n` elements, ASCII values include their terminator
pub fn value(ty: usize, n: usize, shift: usize) -> V {
  let mut e: Vec<u64> = (0..n).map(|k| element(ty, k + shift)).collect();
  if ty == 2 {
    if let Some(l) = e.last_mut() {
      *l = 0
    }
  }
  make(ty, &e)
}

type Map = BTreeMap<u16, V>;

/// Write with the real writer, then compare with both readers.
fn roundtrip(want: &Map) -> Result<(), String> {
  let mut buf = Cursor::new(Vec::new());
  let mut w = TiffWriter::new(&mut buf).map_err(|e| e.to_string())?;
  let _ = &mut w;
  let mut d = w.new_directory();
  for (t, v) in want {
    d.add_untyped_tag(*t, own(v));
  }
  w.build(d).map_err(|e| e.to_string())?;
  verify(&buf.into_inner(), want)
}
fn verify(bytes: &[u8], want: &Map) -> Result<(), String> {
  let mut t = Tiff::open(bytes)?;
  let chain = t.chain()?;
  t.check_regions()?;
  if chain.len() != 1 {
    return Err(format!("{} directories instead of one", chain.len()));
  }
  if chain[0].offset % 2 != 0 {
    return Err("directory not on a word boundary".into());
  }
  if chain[0].entries != *want {
    return Err(format!("independent reader sees {:?}", chain[0].entries));
  }
  let own = GenericTiffReader::new(&mut Cursor::new(bytes), 0, 0, None, &[]).map_err(|e| format!("own reader: {e}"))?;
  cmp_ifd(own.root_ifd(), want)
}
pub fn cmp_ifd(ifd: &IFD, want: &Map) -> Result<(), String> {
  for (t, v) in want {
    match ifd.get_entry(*t) {
      None => return Err(format!("tag {t} not found by the own reader")),
      Some(e) if !same(v, &e.value) => return Err(format!("tag {t}: own reader sees {:?} instead of {:?}", e.value, v)),
      Some(e) if e.count() as usize != v.count() => return Err(format!("tag {t}: count {} instead of {}", e.count(), v.count())),
      _ => {}
    }
  }
  if ifd.entries().len() != want.len() {
    return Err(format!("{} entries instead of {}", ifd.entries().len(), want.len()));
  }
  Ok(())
}

pub fn run(ctx: &Ctx) {
  single(ctx);
  multi(ctx);
  ops(ctx);
  blocks(ctx);
  layouts(ctx);
  nesting(ctx);
  getters(ctx);
  large(ctx);
}

fn single(ctx: &Ctx) {
  let mut vals: Vec<V> = vec![];
  for ty in 1..=NTYPES {
    for n in (1..=9).chain([63, 64, 65, 255, 256, 257]).chain(ctx.pick(vec![], vec![1000, 65535, 65536, 65537])) {
      for s in 0..ctx.pick(3, nelem(ty).max(3)) {
        vals.push(value(ty, n, s));
      }
    }
    // every combination of boundary elements that fits into the entry
    let size = [0, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8][ty];
    let k = nelem(ty);
    for n in 1..=(4usize / size).max(1) {
      let m = if ty == 2 { n - 1 } else { n };
      for i in 0..k.pow(m as u32) {
        let mut e: Vec<u64> = digits(i, &vec![k; m]).into_iter().map(|d| element(ty, d)).collect();
        if ty == 2 {
          e.push(0);
        }
        vals.push(make(ty, &e));
      }
    }
  }
  // multiple strings in one ASCII value
  for s in ["a\0b\0", "\0", "\0\0", "a\0\0\0", "\0b\0", "ab\0cd\0ef\0", "\0\0\0\0\0", "photographer\0editor\0", " \0 \0"] {
    vals.push(V::Ascii(s.as_bytes().to_vec()));
  }
  ctx.par("single", vals.len(), |i| {
    let v = &vals[i];
    ctx.case(fp(&format!("{v:?}")), true);
    for tag in [1u16, 0x8000, 0xffff] {
      let want: Map = [(tag, v.clone())].into();
      match ctx.guard(|| roundtrip(&want)).and_then(|x| x) {
        Ok(()) => ctx.outcome(fp(&v.bytes(false))),
        Err(e) => ctx.fail("single", format!("one entry of type {} count {}: {e}", v.ty(), v.count()), json!({"value": format!("{v:?}"), "tag": tag})),
      }
    }
    if i % 97 == 0 {
      ctx.sample("single", || json!({"value": format!("{v:?}").chars().take(100).collect::<String>()}));
    }
  });
  // scalar floats and signed values: all high bit patterns
  let step = ctx.pick(12, 8);
  ctx.par("float", 1 << (32 - step), |i| {
    let b = (i as u32) << step;
    let want: Map = [(5u16, V::Float(vec![b])), (6, V::SLong(vec![b as i32])), (7, V::SShort(vec![(b >> 16) as i16, 5])), (8, V::SShort(vec![5, (b >> 16) as i16]))].into();
    ctx.case(fp(&("f", b)), b != 0);
    if let Err(e) = ctx.guard(|| roundtrip(&want)).and_then(|x| x) {
      ctx.fail("scalar", format!("scalar with bits {b:#x}: {e}"), json!({"bits": b}));
    }
  });
}

fn multi(ctx: &Ctx) {
  ctx.par("subsets", 1 << NTYPES, |m| {
    if m == 0 {
      return;
    }
    for class in 0..3usize {
      let want: Map = (1..=NTYPES).filter(|t| m >> (t - 1) & 1 == 1).map(|t| (t as u16 * 37, value(t, [1, 2 + t % 3, 3 + t][class] + (t == 2) as usize, class + t))).collect();
      ctx.case(fp(&("s", m, class)), true);
      if let Err(e) = ctx.guard(|| roundtrip(&want)).and_then(|x| x) {
        ctx.fail("subset", format!("directory of {} entries: {e}", want.len()), json!({"mask": m, "class": class}));
      }
      // copying what was read gives the same directory again
      let r = ctx.guard(|| -> Result<(), String> {
        let file = build(&[want.iter().fold(Node::new(), |n, (t, v)| n.v(*t, v.clone()))], m % 2 == 1, class == 1, class);
        let rd = GenericTiffReader::new(&mut Cursor::new(&file), 0, 0, None, &[]).map_err(|e| e.to_string())?;
        let mut buf = Cursor::new(Vec::new());
        let w = TiffWriter::new(&mut buf).map_err(|e| e.to_string())?;
        let mut d = w.new_directory();
        d.copy(rd.root_ifd().value_iter());
        w.build(d).map_err(|e| e.to_string())?;
        verify(&buf.into_inner(), &want)
      });
      if let Err(e) = r.and_then(|x| x) {
        ctx.fail("copy", format!("copying a read directory: {e}"), json!({"mask": m, "class": class}));
      }
    }
  });
}

fn ops(ctx: &Ctx) {
  // model: map of tags. other = directory {1: A, 2: B, 3: C}
  let other: Map = [(1u16, V::Short(vec![101])), (2, V::Long(vec![102, 103])), (3, V::Ascii(b"other\0".to_vec()))].into();
  let file = build(&[other.iter().fold(Node::new(), |n, (t, v)| n.v(*t, v.clone()))], false, false, 0);
  let rd = GenericTiffReader::new(&mut Cursor::new(&file), 0, 0, None, &[]).unwrap();
  let depth = ctx.pick(6, 7);
  let nops = 9;
  for len in 1..=depth {
    ctx.par("ops", (nops as usize).pow(len as u32), |i| {
      let seq = digits(i, &vec![nops; len]);
      let mut model: Map = Map::new();
      let r = ctx.guard(|| -> Result<(), String> {
        let mut buf = Cursor::new(Vec::new());
        let w = TiffWriter::new(&mut buf).map_err(|e| e.to_string())?;
        let mut d = DirectoryWriter::new();
        for (k, o) in seq.iter().enumerate() {
          let k = k as u16;
          match o {
            0 => {
              d.add_tag(1u16, k);
              model.insert(1, V::Short(vec![k]));
            }
            1 => {
              d.add_untyped_tag(2, Value::Byte(vec![k as u8; 7]));
              model.insert(2, V::Byte(vec![k as u8; 7]));
            }
            2 => {
              d.add_tag_undefined(4u16, vec![k as u8; 3]);
              model.insert(4, V::Undefined(vec![k as u8; 3]));
            }
            3 => {
              d.add_value(3u16, Value::SLong(vec![-1 - k as i32]));
              model.insert(3, V::SLong(vec![-1 - k as i32]));
            }
            4 => {
              d.remove_tag(1u16);
              model.remove(&1);
            }
            5 => {
              d.remove_tag(3u16);
              model.remove(&3);
            }
            6 => {
              d.copy(rd.root_ifd().value_iter());
              for (t, v) in &other {
                model.entry(*t).or_insert(v.clone());
              }
            }
            7 => {
              d.copy_with_override(rd.root_ifd().value_iter());
              for (t, v) in &other {
                model.insert(*t, v.clone());
              }
            }
            _ => {
              for t in 1..=4u16 {
                if d.contains(t) != model.contains_key(&t) {
                  return Err(format!("contains({t}) is {}", d.contains(t)));
                }
              }
              if d.entry_count() as usize != model.len() || d.is_empty() != model.is_empty() {
                return Err(format!("entry_count() is {} with {} entries", d.entry_count(), model.len()));
              }
            }
          }
        }
        let r = w.build(d);
        if model.is_empty() {
          return if r.is_err() { Ok(()) } else { Err("empty directory written".into()) };
        }
        r.map_err(|e| e.to_string())?;
        verify(&buf.into_inner(), &model)
      });
      ctx.case(fp(&("o", &seq)), !model.is_empty());
      ctx.outcome(fp(&format!("{model:?}")));
      if let Err(e) = r.and_then(|x| x) {
        ctx.fail("ops", format!("operations {seq:?}: {e}"), json!({"ops": seq}));
      }
    });
  }
}

/// data blocks and nested directories, everything must be found at the returned offset
fn blocks(ctx: &Ctx) {
  // symbols: 0..=6 write_data of that length, 7..=9 write_data_u16_le of 0..2, 10..=12 write_data_f32_le of 0..2, 13 nested dir, 14 nested dir in nested dir
  let nsym = 15usize;
  for len in 1..=ctx.pick(5, 6) {
    ctx.par("blocks", nsym.pow(len), |i| {
      let seq = digits(i, &vec![nsym; len as usize]);
      let r = ctx.guard(|| -> Result<usize, String> {
        let es = |e: rawler::formats::tiff::TiffError| e.to_string();
        let mut buf = Cursor::new(Vec::new());
        let mut w = TiffWriter::new(&mut buf).map_err(es)?;
        let mut root: Map = Map::new();
        let mut data: Vec<(u32, Vec<u8>)> = vec![];
        let mut dirs: Vec<(u32, Map)> = vec![];
        let mut d = DirectoryWriter::new();
        for (k, s) in seq.iter().enumerate() {
          let tag = 1000 + k as u16;
          let off = match *s {
            n @ 0..=6 => {
              let b: Vec<u8> = (0..n).map(|x| (x * 17 + k * 31 + 1) as u8).collect();
              let o = w.write_data(&b).map_err(es)?;
              data.push((o, b));
              o
            }
            n @ 7..=9 => {
              let b: Vec<u16> = (0..n - 7).map(|x| (x * 0x1711 + k * 31 + 0x8001) as u16).collect();
              let o = w.write_data_u16_le(&b).map_err(es)?;
              data.push((o, b.iter().flat_map(|x| x.to_le_bytes()).collect()));
              o
            }
            n @ 10..=12 => {
              let b: Vec<f32> = (0..n - 10).map(|x| x as f32 * 1.25 - k as f32).collect();
              let o = w.write_data_f32_le(&b).map_err(es)?;
              data.push((o, b.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()));
              o
            }
            13 => {
              let m: Map = [(7u16, V::Ascii(b"nested\0".to_vec())), (9, V::Short(vec![k as u16]))].into();
              let mut n = w.new_directory();
              m.iter().for_each(|(t, v)| n.add_untyped_tag(*t, own(v)));
              let o = n.build(&mut w).map_err(es)?;
              dirs.push((o, m));
              o
            }
            _ => {
              let mi: Map = [(7u16, V::Byte(vec![k as u8; 5]))].into();
              let mut n = w.new_directory();
              mi.iter().for_each(|(t, v)| n.add_untyped_tag(*t, own(v)));
              let oi = n.build(&mut w).map_err(es)?;
              let mo: Map = [(8u16, V::Long(vec![oi])), (10, V::Double(vec![k as u64]))].into();
              let mut n = w.new_directory();
              mo.iter().for_each(|(t, v)| n.add_untyped_tag(*t, own(v)));
              let o = n.build(&mut w).map_err(es)?;
              dirs.push((oi, mi));
              dirs.push((o, mo));
              o
            }
          };
          d.add_untyped_tag(tag, Value::Long(vec![off]));
          root.insert(tag, V::Long(vec![off]));
        }
        w.build(d).map_err(es)?;
        let bytes = buf.into_inner();
        let mut t = Tiff::open(&bytes)?;
        let c = t.chain()?;
        if c[0].entries != root {
          return Err("root directory differs".into());
        }
        for (o, m) in &dirs {
          if t.dir(*o)?.entries != *m {
            return Err(format!("nested directory at {o} differs"));
          }
          let own = IFD::new(&mut Cursor::new(&bytes), *o, 0, 0, rawler::bits::Endian::Little, &[]).map_err(es)?;
          cmp_ifd(&own, m)?;
        }
        for (o, b) in &data {
          if bytes.get(*o as usize..*o as usize + b.len()) != Some(b) {
            return Err(format!("data block of {} bytes not found at offset {o}", b.len()));
          }
          t.regions.push((*o as usize, *o as usize + b.len(), "data".into()));
        }
        t.check_regions()?;
        Ok(bytes.len())
      });
      ctx.case(fp(&("b", &seq)), true);
      match r.and_then(|x| x) {
        Ok(n) => ctx.outcome(n as u64),
        Err(e) => ctx.fail("blocks", format!("blocks {seq:?}: {e}"), json!({"sequence": seq})),
      }
    });
  }
}

/// the same content in every layout
fn layouts(ctx: &Ctx) {
  let maps: Vec<Map> = (0..4usize).map(|c| (1..=NTYPES).map(|t| (t as u16 * 100 + c as u16, value(t, [1, 2, 4, 9][c] + (t == 2 && c == 0) as usize, t + c))).collect()).collect();
  let sub: Map = [(254u16, V::Long(vec![1])), (305, V::Ascii(b"sub\0".to_vec())), (50714, V::SRational(vec![(-1, 3)]))].into();
  // be, values_first, gap, prefix, corr, chain, sub kinds, ptr type, odd prefix
  let radix = [2, 2, 4, 6, 3, 4, 4, 2];
  let n: usize = radix.iter().product();
  ctx.par("layouts", n, |i| {
    let d = digits(i, &radix);
    let (be, vf, gap, pre, chain, subs, ptr) = (d[0] == 1, d[1] == 1, d[2], [0usize, 1, 2, 12, 100, 4099][d[3]], 1 + d[5], d[6], if d[7] == 1 { 13 } else { 4 });
    // correction: stored offsets are smaller/larger than the real ones by corr
    let corr: i32 = [0, 16, 1000][d[4]];
    let nodes: Vec<Node> = (0..chain)
      .map(|c| {
        let mut nd = maps[c].iter().fold(Node::new(), |n, (t, v)| n.v(*t, v.clone()));
        if subs >= 1 {
          let m = sub.iter().fold(Node::new(), |n, (t, v)| n.v(*t, v.clone()));
          nd = nd.item(330, Item::Dirs(vec![m.clone(); subs], ptr));
          nd = nd.item(34665, Item::Dirs(vec![m], ptr));
        }
        nd
      })
      .collect();
    let body = build(&nodes, be, vf, gap);
    // real position = base + stored offset + corr; so shift the body by corr bytes behind its header
    let r = ctx.guard(|| -> Result<(), String> {
      let mut file = vec![0xA5u8; pre];
      file.extend(&body[..8]);
      file.extend(vec![0x5Au8; corr as usize]);
      file.extend(&body[8..]);
      let mut cur = Cursor::new(&file);
      cur.set_position(pre as u64);
      let rd = GenericTiffReader::new(&mut cur, pre as u32, corr, None, &[]).map_err(|e| e.to_string())?;
      if rd.chains().len() != chain {
        return Err(format!("{} directories in the chain instead of {chain}", rd.chains().len()));
      }
      if rd.little_endian() == be {
        return Err("wrong byte order reported".into());
      }
      let check_one = |ifd: &IFD, m: &Map| -> Result<(), String> {
        for (t, v) in m {
          let e = ifd.get_entry(*t).ok_or(format!("tag {t} missing"))?;
          if !same(v, &e.value) {
            return Err(format!("tag {t}: {:?} instead of {:?}", e.value, v));
          }
          // the raw bytes of the entry are those stored in the file
          let raw = ifd.get_entry_raw(*t, &mut Cursor::new(&file)).map_err(|e| e.to_string())?.ok_or("no raw entry")?;
          if raw.data != v.bytes(be) {
            return Err(format!("tag {t}: raw data {:?} instead of {:?}", raw.data, v.bytes(be)));
          }
        }
        Ok(())
      };
      for (c, ifd) in rd.chains().iter().enumerate() {
        check_one(ifd, &maps[c])?;
        let extra = if subs >= 1 { 2 } else { 0 };
        if ifd.entries().len() != maps[c].len() + extra {
          return Err(format!("{} entries in directory {c}", ifd.entries().len()));
        }
        if subs >= 1 {
          let all = ifd.get_sub_ifd_all(330u16).ok_or("no sub directories")?;
          if all.len() != subs {
            return Err(format!("{} sub directories instead of {subs}", all.len()));
          }
          for s in all.iter().chain(ifd.get_sub_ifd_all(34665u16).ok_or("no EXIF directory")?) {
            check_one(s, &sub)?;
            if s.entries().len() != sub.len() {
              return Err("wrong number of entries in a sub directory".into());
            }
          }
        }
      }
      if corr == 0 {
        // the root of an embedded TIFF
        let root = IFD::new_root(&mut Cursor::new(&file), pre as u32).map_err(|e| format!("new_root: {e}"))?;
        check_one(&root, &maps[0])?;
        if root.chain.len() != chain - 1 {
          return Err(format!("new_root sees {} chained directories", root.chain.len()));
        }
      }
      let root = IFD::new_root_with_correction(&mut Cursor::new(&file), 0, pre as u32, corr, 10, &[330]).map_err(|e| format!("new_root_with_correction: {e}"))?;
      check_one(&root, &maps[0])?;
      if root.chain.len() != chain - 1 {
        return Err(format!("new_root_with_correction sees {} chained directories", root.chain.len()));
      }
      for (c, ifd) in root.chain.iter().enumerate() {
        check_one(ifd, &maps[c + 1])?;
      }
      // limits on the chain
      for max in 0..4usize {
        let rd = GenericTiffReader::new_with_buffer(&file, pre as u32, corr, Some(max)).map_err(|e| e.to_string())?;
        if rd.chains().len() != chain.min(max + 1) {
          return Err(format!("max_chained {max}: {} directories of {chain}", rd.chains().len()));
        }
      }
      Ok(())
    });
    ctx.case(fp(&("l", &d)), true);
    if let Err(e) = r.and_then(|x| x) {
      ctx.fail("layout", format!("be={be} values_first={vf} gap={gap} base={pre} corr={corr} chain={chain} subs={subs} ptr={ptr}: {e}"), json!({"digits": d}));
    }
    if i % 999 == 0 {
      ctx.sample("layouts", || json!({"be": be, "base": pre, "corr": corr, "chain": chain, "subs": subs}));
    }
  });
}

/// find_* functions on trees
fn nesting(ctx: &Ctx) {
  // chain of 1-3 directories, each with 0-2 sub directories; a marker tag is put into any subset of the directories
  ctx.par("find", 27, |i| {
    let shape = digits(i, &[3, 3, 3]);
    let total: usize = 3 + shape.iter().sum::<usize>();
    for mask in 0..1usize << total {
      let mut idx = 0;
      let mut mk = |n: Node| {
        let id = idx;
        idx += 1;
        let n = n.v(305, V::Long(vec![id as u32])).v(254, V::Long(vec![(id % 4) as u32]));
        (if mask >> id & 1 == 1 { n.v(700, V::Short(vec![id as u16])) } else { n }, id)
      };
      let mut order = vec![];
      let nodes: Vec<Node> = shape
        .iter()
        .map(|s| {
          let (mut n, id) = mk(Node::new());
          order.push(id);
          let subs: Vec<Node> = (0..*s)
            .map(|_| {
              let (n, id) = mk(Node::new());
              order.push(id);
              n
            })
            .collect();
          if *s > 0 {
            n = n.item(330, Item::Dirs(subs, 4));
          }
          n
        })
        .collect();
      let file = build(&nodes, i % 2 == 1, false, 0);
      let r = ctx.guard(|| -> Result<(), String> {
        let rd = GenericTiffReader::new(&mut Cursor::new(&file), 0, 0, None, &[]).map_err(|e| e.to_string())?;
        let ids = |v: Vec<&IFD>| v.iter().map(|i| i.get_entry(305u16).unwrap().force_usize(0)).collect::<Vec<_>>();
        let want: Vec<usize> = order.iter().copied().filter(|k| mask >> k & 1 == 1).collect();
        if ids(rd.find_ifds_with_tag(700u16)) != want {
          return Err(format!("find_ifds_with_tag {:?} instead of {want:?}", ids(rd.find_ifds_with_tag(700u16))));
        }
        if ids(rd.find_ifds_with_filter(|i| i.has_entry(700u16))) != want {
          return Err("find_ifds_with_filter differs".into());
        }
        if rd.find_first_ifd_with_tag(700u16).map(|i| i.get_entry(305u16).unwrap().force_usize(0)) != want.first().copied() {
          return Err("find_first_ifd_with_tag differs".into());
        }
        for t in 0..5u32 {
          let w = order.iter().copied().find(|k| *k as u32 % 4 == t);
          if rd.find_ifd_with_new_subfile_type(t).map(|i| i.get_entry(305u16).unwrap().force_usize(0)) != w {
            return Err(format!("find_ifd_with_new_subfile_type({t}) differs"));
          }
        }
        Ok(())
      });
      ctx.case(fp(&("n", i, mask)), mask != 0);
      if let Err(e) = r.and_then(|x| x) {
        ctx.fail("find", format!("shape {shape:?} mask {mask:#b}: {e}"), json!({"shape": shape, "mask": mask}));
      }
    }
  });
}

fn getters(ctx: &Ctx) {
  let mut ints: Vec<i128> = vec![];
  for b in [0u32, 7, 8, 15, 16, 24, 31, 32] {
    for d in -2i128..=2 {
      ints.push((1i128 << b) + d);
      ints.push(-(1i128 << b) + d);
    }
  }
  ints.sort();
  ints.dedup();
  ctx.par("getters", ints.len(), |i| {
    let x = ints[i];
    let mut vals: Vec<(Value, Option<i128>)> = vec![];
    macro_rules! t {
      ($ty:ty, $v:ident) => {
        if let Ok(y) = <$ty>::try_from(x) {
          vals.push((Value::$v(vec![y, 0 as $ty]), Some(x)));
        }
      };
    }
    t!(u8, Byte);
    t!(u16, Short);
    t!(u32, Long);
    t!(i8, SByte);
    t!(i16, SShort);
    t!(i32, SLong);
    if x.abs() < 1 << 24 {
      vals.push((Value::Float(vec![x as f32, 0.0]), None));
      vals.push((Value::Double(vec![x as f64, 0.0]), None));
      for d in [1i128, 2, 3, 7] {
        if x >= 0 && x * d < 1 << 24 {
          for r in 0..d {
            vals.push((Value::Rational(vec![Rational::new((x * d + r) as u32, d as u32), Rational::new(0, 1)]), None));
          }
        }
        if (x * d).abs() < 1 << 24 {
          vals.push((Value::SRational(vec![SRational::new((x * d) as i32, d as i32), SRational::new(0, 1)]), None));
        }
      }
    }
    for (v, _) in &vals {
      let exact_int = matches!(v, Value::Byte(_) | Value::Short(_) | Value::Long(_) | Value::SByte(_) | Value::SShort(_) | Value::SLong(_));
      ctx.case(fp(&format!("g{v:?}")), x != 0);
      let r = ctx.guard(|| -> Result<(), String> {
        macro_rules! g {
          ($get:ident, $ty:ty) => {
            let want = <$ty>::try_from(x).ok();
            match (v.$get(0), want) {
              (Ok(Some(g)), Some(w)) if g == w => {}
              (Err(_), None) if exact_int => {}
              (Ok(Some(_)), None) if !exact_int => {} // saturates
              (g, w) => return Err(format!("{} of {v:?} is {:?}, not {w:?}", stringify!($get), g.ok())),
            }
            if !matches!(v.$get(2), Ok(None)) {
              return Err(format!("{} beyond the end", stringify!($get)));
            }
          };
        }
        g!(get_u8, u8);
        g!(get_u16, u16);
        g!(get_u32, u32);
        g!(get_u64, u64);
        g!(get_usize, usize);
        g!(get_i8, i8);
        g!(get_i16, i16);
        g!(get_i32, i32);
        g!(get_i64, i64);
        let f = v.get_f32(0).ok().flatten().ok_or("get_f32 failed")? as f64;
        let (lo, hi) = (x as f64, if matches!(v, Value::Rational(_)) { x as f64 + 1.0 } else { x as f64 });
        if f < lo - lo.abs() * 1e-6 || f > hi + hi.abs() * 1e-6 {
          return Err(format!("get_f32 of {v:?} is {f}"));
        }
        if v.force_u32(0) != v.get_u32(0).ok().flatten().unwrap_or(0) || v.force_u16(0) != v.get_u16(0).ok().flatten().unwrap_or(0) || v.force_usize(0) != v.get_usize(0).ok().flatten().unwrap_or(0) {
          return Err("force_* differs from get_*".into());
        }
        Ok(())
      });
      if let Err(e) = r.and_then(|x| x) {
        ctx.fail("getter", e, json!({"value": format!("{v:?}")}));
      }
    }
  });
}

/// a file of any size of which only the bytes written are kept
#[derive(Default)]
struct Far {
  pos: u64,
  parts: std::collections::BTreeMap<u64, u8>,
}
impl std::io::Write for Far {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    for c in b {
      self.parts.insert(self.pos, *c);
      self.pos += 1;
    }
    Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}
impl std::io::Seek for Far {
  fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
    self.pos = match p {
      std::io::SeekFrom::Start(n) => n,
      std::io::SeekFrom::Current(n) => (self.pos as i64 + n) as u64,
      std::io::SeekFrom::End(_) => return Err(std::io::ErrorKind::Unsupported.into()),
    };
    Ok(self.pos)
  }
}
impl Far {
  fn at(&self, pos: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|k| self.parts.get(&(pos + k)).copied().unwrap_or(0xee)).collect()
  }
}
/// around 4 GiB an offset is right or the writer fails
fn large(ctx: &Ctx) {
  let mut starts: Vec<u64> = vec![8, 1 << 31, (1 << 31) + 3, 1 << 33, (5 << 32) + 8];
  starts.extend((1u64 << 32) - 60..(1 << 32) + 20);
  let radix = [starts.len(), 6, 4];
  ctx.par("large", radix.iter().product(), |i| {
    let d = digits(i, &radix);
    let (start, len, what) = (starts[d[0]], [1usize, 2, 4, 7, 12, 40][d[1]], d[2]);
    ctx.case(fp(&("large", i)), start > 8);
    let r = ctx.guard(|| -> Result<(), String> {
      let mut w = Far::default();
      let mut t = TiffWriter::new(&mut w).map_err(|e| e.to_string())?;
      t.writer.pos = start;
      let data: Vec<u8> = (0..len).map(|k| k as u8 + 1).collect();
      // the offset the writer returns, and what must be there
      let (got, want) = match what {
        0 => (t.write_data(&data), data.clone()),
        1 => {
          let v: Vec<u16> = data.iter().map(|b| *b as u16 * 257).collect();
          (t.write_data_u16_le(&v), v.iter().flat_map(|x| x.to_le_bytes()).collect())
        }
        2 => {
          let v: Vec<f32> = data.iter().map(|b| *b as f32).collect();
          (t.write_data_f32_le(&v), v.iter().flat_map(|x| x.to_le_bytes()).collect())
        }
        _ => {
          let mut dir = t.new_directory();
          dir.add_untyped_tag(0x100, Value::Byte(data.clone()));
          let r = dir.build(&mut t);
          let want = [&1u16.to_le_bytes()[..], &0x100u16.to_le_bytes(), &1u16.to_le_bytes(), &(len as u32).to_le_bytes()].concat();
          (r, want)
        }
      };
      let end = w.pos;
      match got {
        Ok(off) => {
          if w.at(off as u64, want.len()) != want {
            return Err(format!("offset {off:#x} is returned, but the data is not there"));
          }
          if what == 3 && len > 4 {
            let o = u32::from_le_bytes(w.at(off as u64 + 10, 4).try_into().unwrap());
            if w.at(o as u64, len) != data {
              return Err(format!("the entry names offset {o:#x}, but the value is not there"));
            }
          }
        }
        Err(_) if end + 200 < 1 << 32 => return Err("fails below 4 GiB".into()),
        Err(_) => {}
      }
      Ok(())
    });
    ctx.outcome(fp(&(what, len, start >> 32)));
    if let Err(e) = r.and_then(|x| x) {
      ctx.fail("large", format!("{len} elements by {} at position {start:#x}: {e}", ["write_data", "write_data_u16_le", "write_data_f32_le", "directory"][what]), json!({"position": start, "elements": len, "call": what}));
    }
  });
}
