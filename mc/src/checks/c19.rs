//! C19: shooting metadata survives conversion exactly.
use super::clikit;
use super::dngcmp::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::tiff::*;
use rawler::dng::convert::{ConvertParams, convert_raw_source};
use rawler::dng::{CropMode, DngCompression};
use rawler::rawsource::RawSource;
use serde_json::json;
use std::collections::BTreeMap;
use std::time::{Duration, UNIX_EPOCH};

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one source file with a chosen set of metadata fields and values, converted by the real conversion; an independent TIFF reader must find exactly these fields, with type, count and value unchanged, in the directory they belong to, and none of the others. Non-trivial: at least one field is set.",
    bounds: "43 EXIF, 31 GPS, 33 DNG profile and exposure, 9 raw and 4 further fields: every field x 4 to 9 values of its type (thorough: more), every pair of fields, all fields, all but one; EXIF fields in the root or EXIF directory; both byte orders; one and two conversions; sources DNG and CR3; file times: all dates of the list x all UTC offsets of both kinds",
    assumptions: &["ModifyDate is set by the conversion itself; surrounding blanks of names are not kept; a lens that the maker notes identify is written with the names of the lens database (C29)"],
  }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum D {
  Exif,
  Root,
  Gps,
  Dng,
  Raw,
}
#[derive(Clone)]
struct F {
  dir: D,
  tag: u16,
  trim: bool,
  vals: Vec<V>,
}

fn texts() -> Vec<V> {
  [
    "a".to_string(),
    "abc".into(),
    "abcd".into(),
    "N".into(),
    "two words, punctuation: x/y".into(),
    "Zo\u{eb} \u{65e5}\u{672c}".into(),
    "long ".repeat(70) + "end",
    "2024:02:29 23:59:59".into(),
    "".into(),
  ]
  .iter()
  .map(|s| ascii(s))
  .collect()
}
fn rat(n: usize) -> Vec<V> {
  let b = [(1u32, 3u32), (2, 4), (0, 1), (u32::MAX, 1), (1, u32::MAX), (123456, 1000), (0, 0), (5, 0), (0x80000000, 0x7fffffff)];
  (0..b.len()).map(|i| V::Rational((0..n).map(|k| b[(i + k) % b.len()]).collect())).collect()
}
fn srat(n: usize) -> Vec<V> {
  let b = [(1i32, 3i32), (-2, 4), (0, 1), (i32::MIN, 1), (1, i32::MAX), (-7, 100), (0, 0), (i32::MAX, -1)];
  (0..b.len()).map(|i| V::SRational((0..n).map(|k| b[(i + k) % b.len()]).collect())).collect()
}
fn short() -> Vec<V> {
  [1u16, 0, 2, 255, 256, 0x1234, 0x8000, 65535].iter().map(|x| V::Short(vec![*x])).collect()
}
fn long() -> Vec<V> {
  [1u32, 0, 65535, 65536, 0x12345678, 0x80000000, u32::MAX].iter().map(|x| V::Long(vec![*x])).collect()
}
fn longs(n: usize) -> Vec<V> {
  (1..5u32).map(|x| V::Long((0..n as u32).map(|k| x * 7 + k).collect())).collect()
}
fn undef() -> Vec<V> {
  [vec![7u8], vec![0, 1, 2], b"ASCII\0\0\0GPS".to_vec(), (0..=255u8).chain(0..=44).collect(), vec![0, 0, 0, 1]].into_iter().map(V::Undefined).collect()
}
fn floats(n: usize) -> Vec<V> {
  [1.0f32, 0.1, -0.0, f32::MAX, f32::MIN_POSITIVE].iter().map(|x| V::Float((0..n).map(|k| x.to_bits().wrapping_add(k as u32)).collect())).collect()
}

fn fields() -> Vec<F> {
  let mut out: Vec<F> = vec![];
  let mut add = |dir: D, trim: bool, vals: &dyn Fn() -> Vec<V>, tags: &[u16]| out.extend(tags.iter().map(|t| F { dir, tag: *t, trim, vals: vals() }));
  // EXIF 2.32
  add(D::Exif, false, &|| rat(1), &[0x829a, 0x829d, 0x9202, 0x9205, 0x9206, 0x920a, 0x920b]);
  add(D::Exif, false, &|| srat(1), &[0x9201, 0x9203, 0x9204]);
  add(D::Exif, false, &short, &[0x8822, 0x8827, 0x8830, 0x9207, 0x9208, 0x9209, 0xa001, 0xa402, 0xa403, 0xa406, 0xa40c]);
  add(D::Exif, false, &long, &[0x8832, 0x8833, 0x9211]);
  add(D::Exif, false, &texts, &[0x9003, 0x9004, 0x9010, 0x9011, 0x9012, 0x9290, 0x9291, 0x9292]);
  add(D::Exif, true, &texts, &[0xa430, 0xa431, 0xa433, 0xa434, 0xa435, 0x9286]);
  add(D::Exif, false, &|| rat(4), &[0xa432]);
  add(D::Exif, false, &|| vec![V::SShort(vec![2]), V::SShort(vec![-12, 11]), V::SShort(vec![i16::MIN, i16::MAX])], &[0x882a]);
  add(D::Root, true, &texts, &[0x8298, 0x13b]);
  add(D::Root, false, &|| (1..=8).map(|o| V::Short(vec![o])).collect(), &[0x112]);
  // GPS
  add(D::Gps, false, &|| vec![V::Byte(vec![2, 3, 0, 0]), V::Byte(vec![2, 2, 0, 255])], &[0]);
  add(D::Gps, false, &texts, &[1, 3, 8, 9, 10, 12, 14, 16, 18, 19, 21, 23, 25, 29]);
  add(D::Gps, false, &|| rat(3), &[2, 4, 7, 20, 22]);
  add(D::Gps, false, &|| vec![V::Byte(vec![0]), V::Byte(vec![1]), V::Byte(vec![255])], &[5]);
  add(D::Gps, false, &|| rat(1), &[6, 11, 13, 15, 17, 24, 26, 31]);
  add(D::Gps, false, &undef, &[27, 28]);
  add(D::Gps, false, &short, &[30]);
  // DNG: profiles, exposure, depth
  add(D::Dng, false, &long, &[50941, 51107, 51108, 51110]);
  add(D::Dng, false, &|| longs(3), &[50937, 50981]);
  add(D::Dng, false, &|| floats(18), &[50938, 50939, 52537, 50982]);
  add(D::Dng, false, &|| floats(8), &[50940]);
  add(D::Dng, false, &texts, &[50936, 50942, 50735, 50934]);
  add(D::Dng, false, &|| vec![V::Byte(b"Adobe\0MakN....".to_vec()), V::Byte(vec![9]), V::Byte((0..=255).collect())], &[50740]);
  add(D::Dng, false, &|| vec![V::Short(vec![0]), V::Short(vec![1])], &[50741]);
  add(D::Dng, false, &|| rat(3), &[50727]);
  add(D::Dng, false, &|| srat(1), &[50730, 51109]);
  add(D::Dng, false, &|| rat(1), &[50731, 50732, 50734, 51178, 51179]);
  add(D::Dng, false, &undef, &[50831, 50833, 52543]);
  add(D::Dng, false, &|| srat(9), &[50832, 50834]);
  add(D::Dng, false, &short, &[51177, 51180, 51181]);
  // cinema fields and XMP
  add(D::Dng, false, &|| vec![V::Byte(vec![1, 2, 3, 4, 5, 6, 7, 8])], &[51043]);
  add(D::Dng, false, &|| srat(1), &[51044]);
  add(D::Dng, false, &|| rat(1), &[51058]);
  add(D::Dng, false, &|| vec![V::Byte(b"<x:xmpmeta xmlns:x='adobe:ns:meta/'/>".to_vec()), V::Byte(vec![b'<']), V::Byte(vec![b' '; 3000])], &[700]);
  // raw directory
  add(D::Raw, false, &undef, &[51008, 51009, 51022, 52525]);
  add(D::Raw, false, &|| vec![V::Double(vec![1.5f64.to_bits(), 0.25f64.to_bits()]), V::Double(vec![1, u64::MAX >> 12, 3, 4, 5, 6])], &[51041]);
  add(D::Raw, false, &long, &[50733]);
  add(D::Raw, false, &|| rat(1), &[50737, 50738, 50935]);
  out
}

/// What the output must contain for a value of the field.
fn kept(f: &F, v: &V) -> V {
  match v {
    V::Ascii(b) if f.trim => {
      let s = String::from_utf8_lossy(b);
      ascii(s.trim_end_matches('\0').trim())
    }
    v => v.clone(),
  }
}

type Set = Vec<(usize, V)>;

fn source(fs: &[F], set: &Set, be: bool, exif_in_root: bool, sub: bool) -> Vec<u8> {
  let spec = Spec::new(8, 6, Kind::Cfa("RGGB".into()), 12, 3);
  let l = Layout { be, sub, ..Default::default() };
  let mut raw = raw_node(&spec, &l);
  let mut root = root_tags(&spec);
  root.items.remove(&0x112);
  let (mut exif, mut gps) = (Node::new(), Node::new());
  for (k, v) in set {
    let f = &fs[*k];
    match f.dir {
      D::Exif if !exif_in_root => exif.set(f.tag, v.clone()),
      D::Gps => gps.set(f.tag, v.clone()),
      D::Raw => raw.set(f.tag, v.clone()),
      _ => root.set(f.tag, v.clone()),
    }
  }
  if !exif.items.is_empty() {
    root.items.insert(0x8769, Item::Dirs(vec![exif], 4));
  }
  if !gps.items.is_empty() {
    root.items.insert(0x8825, Item::Dirs(vec![gps], 4));
  }
  if sub {
    root.items.insert(330, Item::Dirs(vec![raw], 4));
  } else {
    raw.items.into_iter().for_each(|(t, i)| {
      root.items.insert(t, i);
    });
  }
  build(&[root], be, false, 0)
}

/// Directories of a file: root, exif, gps, raw.
fn dirs(file: &[u8]) -> Result<[BTreeMap<u16, V>; 4], String> {
  let mut t = Tiff::open(file)?;
  let root = t.chain()?.remove(0);
  let mut at = |tag: u16| -> Result<BTreeMap<u16, V>, String> {
    match root.get(tag).and_then(|v| v.u(0)) {
      Some(o) => Ok(t.dir(o as u32)?.entries.into_iter().collect()),
      None => Ok(BTreeMap::new()),
    }
  };
  let (exif, gps) = (at(0x8769)?, at(0x8825)?);
  // the raw image: in the root or a sub-directory
  let mut raw = BTreeMap::new();
  if root.u(254).unwrap_or(0) == 0 {
    raw = root.entries.clone().into_iter().collect();
  } else if let Some(V::Long(v) | V::IfdPtr(v)) = root.get(330) {
    for o in v.clone() {
      let d = t.dir(o)?;
      if d.u(254).unwrap_or(0) == 0 {
        raw = d.entries.into_iter().collect();
      }
    }
  }
  Ok([root.entries.into_iter().collect(), exif, gps, raw])
}

fn verify(fs: &[F], set: &Set, out: &[u8]) -> Result<(), String> {
  let [root, exif, gps, raw] = dirs(out)?;
  let want: BTreeMap<usize, &V> = set.iter().map(|(k, v)| (*k, v)).collect();
  for (k, f) in fs.iter().enumerate() {
    let d = match f.dir {
      D::Exif => &exif,
      D::Gps => &gps,
      D::Raw => &raw,
      _ => &root,
    };
    let got = d.get(&f.tag);
    match want.get(&k) {
      Some(v) => {
        let e = kept(f, v);
        if got != Some(&e) {
          return Err(format!("{:?} field {:#x}: {got:?} for {e:?}", f.dir, f.tag));
        }
      }
      None if f.tag == 0x112 && f.dir == D::Root => {}
      None => {
        if got.is_some() {
          return Err(format!("{:?} field {:#x} of {got:?} was not in the source", f.dir, f.tag));
        }
      }
    }
  }
  // DNG has the lens in the root too
  let lens = fs.iter().position(|f| f.tag == 0xa432).and_then(|k| want.get(&k).copied());
  if root.get(&50736) != lens {
    return Err(format!("LensInfo {:?} for {lens:?}", root.get(&50736)));
  }
  if !want.keys().any(|k| fs[*k].dir == D::Gps) && root.contains_key(&0x8825) {
    return Err("GPS directory without GPS fields".into());
  }
  Ok(())
}

fn par(thumb: bool) -> ConvertParams {
  ConvertParams { thumbnail: thumb, ..params(CropMode::Best, DngCompression::Lossless, 1) }
}

fn one(ctx: &Ctx, fs: &[F], label: &str, set: &Set, be: bool, in_root: bool, sub: bool, thumb: bool, gens: usize) {
  let js = || json!({"group": label, "fields": set.iter().map(|(k, v)| format!("{:?} {:#x} {v:?}", fs[*k].dir, fs[*k].tag)).take(60).collect::<Vec<_>>(), "big_endian": be, "exif_in_root": in_root, "sub": sub, "thumbnail": thumb, "conversions": gens});
  ctx.case(fp(&(label, format!("{set:?}"), be, in_root, sub, thumb, gens)), !set.is_empty());
  ctx.sample(label, js);
  let mut f = source(fs, set, be, in_root, sub);
  for g in 1..=gens {
    match ctx.guard(|| convert_bytes(&f, &par(thumb))) {
      Ok(Ok(o)) => f = o,
      Ok(Err(e)) | Err(e) => return ctx.fail(&format!("{label}:error"), format!("conversion {g}: {e}"), js()),
    }
    ctx.outcome(fp(&f.len()));
    if let Err(e) = verify(fs, set, &f) {
      return ctx.fail(&format!("{label}:differs"), format!("conversion {g}: {e}"), js());
    }
  }
}

/// A value that is different for every field.
fn unique(fs: &[F], k: usize) -> V {
  let n = k as u32 + 1;
  match &fs[k].vals[0] {
    V::Ascii(_) => ascii(&format!("text {n}")),
    V::Short(_) if fs[k].tag == 0x112 => V::Short(vec![n as u16 % 8 + 1]),
    V::Short(v) if fs[k].tag == 50741 => V::Short(v.clone()),
    V::Short(v) => V::Short(vec![n as u16 * 3; v.len()]),
    V::Long(v) => V::Long((0..v.len() as u32).map(|i| n * 1000 + i).collect()),
    V::Rational(v) => V::Rational((0..v.len() as u32).map(|i| (n * 10 + i, n)).collect()),
    V::SRational(v) => V::SRational((0..v.len() as i32).map(|i| (-(n as i32) * 10 - i, 3)).collect()),
    V::SShort(v) => V::SShort(vec![-(n as i16); v.len()]),
    V::Byte(v) => V::Byte(v.iter().map(|b| b.wrapping_add(n as u8) | 1).collect()),
    V::Undefined(v) => V::Undefined((0..v.len() as u8 + 9).map(|i| i.wrapping_mul(n as u8)).collect()),
    V::Float(v) => V::Float((0..v.len()).map(|i| (n as f32 + i as f32 / 7.0).to_bits()).collect()),
    V::Double(v) => V::Double((0..v.len()).map(|i| (n as f64 + i as f64 / 7.0).to_bits()).collect()),
    o => o.clone(),
  }
}

fn carry(ctx: &Ctx) {
  let fs = fields();
  let n = fs.len();
  ctx.count("fields", n as u64);
  // every value of every field
  let all: Vec<(usize, V)> = fs.iter().enumerate().flat_map(|(k, f)| f.vals.iter().map(move |v| (k, v.clone()))).collect();
  ctx.par("single", all.len() * 8, |i| {
    let (k, v) = &all[i / 8];
    let b = i % 8;
    one(ctx, &fs, "single", &vec![(*k, v.clone())], b & 1 == 1, b & 2 == 2, b & 4 == 4, i % 64 == 5, 1 + (i / 8) % 2);
  });
  // every pair: no field takes the place of another
  ctx.par("pair", n * n, |i| {
    let (a, b) = (i / n, i % n);
    if a < b {
      one(ctx, &fs, "pair", &vec![(a, unique(&fs, a)), (b, unique(&fs, b))], i % 2 == 1, i % 3 == 1, i % 5 < 2, false, 1);
    }
  });
  // all, all but one, all of one directory, in every arrangement
  ctx.par("many", (n + 7) * 8, |i| {
    let (k, b) = (i / 8, i % 8);
    let set: Set = (0..n)
      .filter(|x| match k {
        k if k < n => *x != k,
        k if k < n + 5 => fs[*x].dir == [D::Exif, D::Root, D::Gps, D::Dng, D::Raw][k - n],
        k if k == n + 5 => true,
        _ => false,
      })
      .map(|x| (x, unique(&fs, x)))
      .collect();
    one(ctx, &fs, "many", &set, b & 1 == 1, b & 2 == 2, b & 4 == 4, i % 16 == 3, 2);
  });
  // names with blanks around them
  ctx.par("blanks", n, |k| {
    if fs[k].trim {
      for s in [" a", "b ", "  c d  ", "e\t"] {
        one(ctx, &fs, "blanks", &vec![(k, ascii(s))], false, false, true, false, 2);
      }
    }
  });
  // the artist option replaces the artist only
  let artist = fs.iter().position(|f| f.tag == 0x13b).unwrap();
  for have in [false, true] {
    for given in ["Me", "", "Somebody Else"] {
      let mut set: Set = (0..n).filter(|k| have || *k != artist).map(|k| (k, unique(&fs, k))).collect();
      let f = source(&fs, &set, false, false, true);
      ctx.case(fp(&("artist", have, given)), true);
      let p = ConvertParams { artist: Some(given.to_string()), ..par(false) };
      set.retain(|(k, _)| *k != artist);
      set.push((artist, ascii(given)));
      if let Err(e) = ctx.guard(|| convert_bytes(&f, &p)).and_then(|r| r).and_then(|o| verify(&fs, &set, &o)) {
        ctx.fail("artist", e, json!({"artist": given, "in_source": have}));
      }
    }
  }
}

/// Camera files with the same metadata in their own containers.
fn cr3(ctx: &Ctx) {
  use crate::refs::{boxes, crx};
  let fs = fields();
  let usable: Vec<usize> = (0..fs.len()).filter(|k| matches!(fs[*k].dir, D::Exif | D::Root | D::Gps)).collect();
  let im = crx::Image { w: 16, h: 12, tile_w: 16, tile_h: 12, levels: 0, enc: 0, bits: 14, median: None, v2: false };
  let g: crx::Grid = (0..6).map(|y| (0..8).map(|x| x * y).collect()).collect();
  let (data, hdr) = crx::encode(&im, &vec![vec![g]; 4], &[4], None);
  let all: Vec<(usize, V)> = usable.iter().flat_map(|k| fs[*k].vals.iter().map(move |v| (*k, v.clone()))).collect();
  let n = all.len();
  ctx.par("cr3", n + usable.len() + 1, |i| {
    let set: Set = if i < n { vec![all[i].clone()] } else { usable.iter().filter(|k| i == n + usable.len() || usable[i - n] != **k).map(|k| (*k, unique(&fs, *k))).collect() };
    let mut d = [Node::new().v(0x10f, ascii("Canon")).v(0x110, ascii("Canon EOS R5")), Node::new().v(0x9000, V::Undefined(b"0231".to_vec())), Node::new().v(1, V::Short((0..50).map(|k| if k == 3 { 4 } else { 0 }).collect())), Node::new().v(0, V::Byte(vec![2, 3, 0, 0]))];
    for (k, v) in &set {
      d[match fs[*k].dir {
        D::Root => 0,
        D::Exif => 1,
        _ => 3,
      }]
      .set(fs[*k].tag, v.clone());
    }
    let parts = d.map(|n| build(&[n], i % 2 == 1, false, 0));
    let file = boxes::cr3_raw(&parts, &im, hdr, &[data.clone()], 0);
    let js = || json!({"fields": set.iter().map(|(k, v)| format!("{:?} {:#x} {v:?}", fs[*k].dir, fs[*k].tag)).take(40).collect::<Vec<_>>()});
    ctx.case(fp(&("cr3", i)), true);
    ctx.sample("cr3", js);
    match ctx.guard(|| convert_bytes(&file, &par(false))) {
      Ok(Ok(o)) => {
        ctx.outcome(fp(&o.len()));
        // the XMP block of the container is carried, too
        let mut set = set.clone();
        set.push((fs.iter().position(|f| f.tag == 700).unwrap(), V::Byte(b"<x:xmpmeta/>".to_vec())));
        let ver = fs.iter().position(|f| matches!(f.dir, D::Gps) && f.tag == 0).unwrap();
        if !set.iter().any(|(k, _)| *k == ver) {
          set.push((ver, V::Byte(vec![2, 3, 0, 0])));
        }
        if let Err(e) = verify(&fs, &set, &o) {
          ctx.fail("cr3:differs", e, js());
        }
      }
      Ok(Err(e)) | Err(e) => ctx.fail("cr3:error", e, js()),
    }
  });
}

/// Days since 1970 of a date.
fn days(y: i64, m: i64, d: i64) -> i64 {
  let (y, m) = if m <= 2 { (y - 1, m + 12) } else { (y, m) };
  365 * y + y / 4 - y / 100 + y / 400 + (153 * (m - 3) + 2) / 5 + d - 1 - 719468
}

fn times(ctx: &Ctx) {
  let fs = fields();
  let dates = [(2024, 2, 29, 23, 59, 59), (1999, 12, 31, 0, 0, 0), (2024, 3, 31, 2, 30, 0), (2001, 1, 1, 12, 0, 1), (2038, 1, 19, 3, 14, 8), (1970, 1, 2, 0, 0, 0)];
  // (TimeZoneOffset, OffsetTime, seconds)
  let mut offs: Vec<(Option<Vec<i16>>, Option<String>, Option<i64>)> = vec![(None, None, None), (Some(vec![5]), None, None)];
  for h in -12i64..=14 {
    offs.push((Some(vec![0, h as i16]), None, Some(h * 3600)));
    offs.push((Some(vec![0, h as i16]), Some("+03:00".into()), Some(h * 3600)));
    for m in [0, 30, 45] {
      let s = format!("{}{:02}:{:02}", if h < 0 { '-' } else { '+' }, h.abs(), m);
      let secs = (h.abs() * 3600 + m * 60) * if h < 0 { -1 } else { 1 };
      offs.push((None, Some(s.clone()), Some(secs)));
      offs.push((Some(vec![3]), Some(s), Some(secs)));
    }
  }
  offs.push((None, Some("bad".into()), None));
  ctx.par("times", dates.len() * offs.len() * 2, |i| {
    let d = digits(i, &[2, dates.len(), offs.len()]);
    let (y, mo, da, h, mi, s) = dates[d[1]];
    let (tz, ot, secs) = &offs[d[2]];
    let at = |tag: u16| fs.iter().position(|f| f.tag == tag && f.dir != D::Gps).unwrap();
    let mut set: Set = vec![];
    if let Some(v) = tz {
      set.push((at(0x882a), V::SShort(v.clone())));
    }
    if let Some(v) = ot {
      set.push((at(0x9010), ascii(v)));
    }
    // ModifyDate is a root field; here in both directories
    let spec = Spec::new(8, 6, Kind::Cfa("RGGB".into()), 12, 3);
    let mut root = dng_node(&spec, &Layout::default());
    let date = ascii(&format!("{y:04}:{mo:02}:{da:02} {h:02}:{mi:02}:{s:02}"));
    let mut exif = Node::new().v(0x9003, ascii("1980:01:01 01:01:01")).v(0x9004, ascii("1981:01:01 01:01:01"));
    set.iter().for_each(|(k, v)| exif.set(fs[*k].tag, v.clone()));
    if d[0] == 0 {
      root.set(0x132, date);
    } else {
      exif.set(0x132, date);
    }
    root.items.insert(0x8769, Item::Dirs(vec![exif], 4));
    let f = build(&[root], false, false, 0);
    let local = days(y, mo, da) * 86400 + h * 3600 + mi * 60 + s;
    let js = || json!({"date": [y, mo, da, h, mi, s], "TimeZoneOffset": tz, "OffsetTime": ot, "in_exif": d[0]});
    ctx.case(fp(&("time", i)), true);
    ctx.sample("time", js);
    let r = ctx.guard(|| convert_raw_source(&RawSource::new_from_slice(&f), &mut std::io::Cursor::new(Vec::new()), "x.dng", &par(false)).map_err(|e| format!("{e:?}")));
    // without a recorded offset the local time zone counts; the explorer runs in UTC
    let want = UNIX_EPOCH + Duration::from_secs((local - secs.unwrap_or(0)) as u64);
    match r {
      Ok(Ok(info)) => {
        ctx.outcome(fp(&format!("{:?}", info.last_modified)));
        if info.last_modified != Some(want) {
          ctx.fail("time", format!("{:?} for {want:?}", info.last_modified), js());
        }
      }
      Ok(Err(e)) | Err(e) => ctx.fail("time:error", e, js()),
    }
  });
  // the option of the command
  let cases: Vec<(Option<&str>, Option<&str>, Option<i64>)> = vec![
    (Some("2020:05:06 07:08:09"), Some("+02:00"), Some(days(2020, 5, 6) * 86400 + 5 * 3600 + 8 * 60 + 9)),
    (Some("2020:05:06 07:08:09"), None, Some(days(2020, 5, 6) * 86400 + 7 * 3600 + 8 * 60 + 9)),
    (Some("2020:05:06 07:08:09"), Some("-11:30"), Some(days(2020, 5, 6) * 86400 + 18 * 3600 + 38 * 60 + 9)),
    (None, None, None),
    (Some("no date"), None, None),
  ];
  for (date, off, want) in cases {
    for (cmd, keep) in [("convert", true), ("convert", false), ("process-raw", true), ("process-raw", false)] {
      let s = Scratch::new();
      let mut root = dng_node(&clikit::spec(1), &Layout::default());
      if let Some(d) = date {
        root.set(0x132, ascii(d));
      }
      if let Some(o) = off {
        root.items.insert(0x8769, Item::Dirs(vec![Node::new().v(0x9010, ascii(o))], 4));
      }
      let p = s.write("in.dng", &build(&[root], false, false, 0));
      let old = UNIX_EPOCH + Duration::from_secs(1_500_000_000);
      std::fs::File::options().write(true).open(&p).unwrap().set_modified(old).unwrap();
      let before = std::time::SystemTime::now() - Duration::from_secs(2);
      let mut a = vec![cmd];
      let out = if cmd == "convert" { "out.dng" } else { "out.tif" };
      if keep {
        a.push("--keep-mtime");
        a.push("true");
      }
      a.extend(["in.dng", out]);
      let o = Run::new(&s.dir, &a).env("TZ", "UTC").go();
      ctx.case(fp(&("mtime", cmd, date, off, keep)), true);
      let got = std::fs::metadata(s.p(out)).and_then(|m| m.modified());
      let js = json!({"command": cmd, "date": date, "offset": off, "keep": keep, "run": o.brief()});
      match got {
        Ok(t) if keep && t == want.map_or(old, |w| UNIX_EPOCH + Duration::from_secs(w as u64)) => {}
        Ok(t) if !keep && t >= before => {}
        t => ctx.fail("mtime", format!("file time {t:?}"), js),
      }
    }
  }
}

pub fn run(ctx: &Ctx) {
  carry(ctx);
  cr3(ctx);
  times(ctx);
}
