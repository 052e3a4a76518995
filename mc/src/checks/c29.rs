//! C29: the lens of a photo is identified by the records of the file and the lens database, or not at all.
use super::c25::{l, s, shorts};
use super::c26::{exif, merge, raw_dir};
use super::dngcmp::{convert_bytes, params};
use crate::Level;
use crate::ctx::*;
use crate::refs::boxes;
use crate::refs::files::*;
use crate::refs::rw2;
use crate::refs::tiff::*;
use rawler::decoders::RawDecodeParams;
use rawler::dng::{CropMode, DngCompression};
use rawler::formats::tiff::Rational;
use rawler::lens::{LensDescription, LensResolver};
use rawler::rawsource::RawSource;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one lens query of the resolver, or one camera file with a lens record; the lens found must be the one of the database (read here from the TOML files) that the identifiers name, or the only one that fits the identifier, mount, focal length and aperture, or none. Non-trivial: a lens is expected.",
    bounds: "every lens of the database x every identifier it has x mounts (none, own, other, several) x focal lengths (none, both ends, just inside, just outside) x apertures (none, at, above and below its limit); camera files of 8 vendors in every known record version, every lens of their mounts, both byte orders; every length of a record from empty to whole and unknown versions",
    assumptions: &["if several lenses have the same identifier string any of them may be given"],
  }
}
#[derive(Clone, Debug, Default)]
struct Lens {
  mount: String,
  make: String,
  model: String,
  key: Option<String>,
  nikon: Option<String>,
  olympus: Option<String>,
  id: Option<(u32, u32)>,
  focal: [(u32, u32); 2],
  ap: [(u32, u32); 2],
}
fn database() -> Vec<Lens> {
  let mut o = vec![];
  for t in super::c28::data_files("lenses") {
    for e in t.get("lenses").and_then(|l| l.as_array()).cloned().unwrap_or_default() {
      let st = |k: &str| e.get(k).and_then(|v| v.as_str()).map(String::from);
      let int = |k: &str| e.get(k).and_then(|v| v.as_integer()).map(|v| v as u32);
      let range = |k: &str| -> [(u32, u32); 2] {
        let a = e.get(k).and_then(|v| v.as_array()).cloned().unwrap_or_default();
        let p = |i: usize| {
          let x = a[i].as_array().unwrap();
          (x[0].as_integer().unwrap() as u32, x[1].as_integer().unwrap() as u32)
        };
        [p(0), p(1)]
      };
      o.push(Lens {
        mount: st("mount").unwrap(),
        make: st("make").unwrap(),
        model: st("model").unwrap(),
        key: st("key"),
        nikon: st("nikon_id"),
        olympus: st("olympus_id"),
        id: int("lens_id").map(|i| (i, int("lens_subid").unwrap_or(0))),
        focal: range("focal_range"),
        ap: range("aperture_range"),
      });
    }
  }
  o
}
#[derive(Clone, Debug, Default)]
struct Query {
  key: Option<String>,
  nikon: Option<String>,
  olympus: Option<String>,
  id: Option<(u32, u32)>,
  mounts: Option<Vec<String>>,
  make: Option<String>,
  model: Option<String>,
  focal: Option<(u32, u32)>,
  ap: Option<(u32, u32)>,
  camera: Option<&'static str>,
}
fn val(r: (u32, u32)) -> f64 {
  r.0 as f64 / r.1 as f64
}
/// lenses of which one has to be the answer; empty: none
fn expect<'a>(db: &'a [Lens], q: &Query) -> Vec<&'a Lens> {
  let first = expect_plain(db, q);
  if first.is_empty() {
    // *ist D and DS write some lenses of series 7 as 4
    if let (Some("*ist D") | Some("*ist DS"), Some((4, n))) = (q.camera, q.id) {
      return expect_plain(db, &Query { id: Some((7, n)), ..q.clone() });
    }
  }
  first
}
fn expect_plain<'a>(db: &'a [Lens], q: &Query) -> Vec<&'a Lens> {
  for (name, of) in [(&q.key, (|l: &Lens| l.key.clone()) as fn(&Lens) -> Option<String>), (&q.nikon, |l| l.nikon.clone()), (&q.olympus, |l| l.olympus.clone())] {
    if name.as_ref().is_some_and(|n| !n.is_empty()) {
      let v: Vec<_> = db.iter().filter(|l| of(l) == *name).collect();
      if !v.is_empty() {
        return v;
      }
    }
  }
  let v: Vec<_> = db
    .iter()
    .filter(|l| match &q.mounts {
      Some(m) => m.iter().any(|m| *m == l.mount),
      None => true,
    })
    .filter(|l| q.id.is_none() || l.id == q.id)
    .filter(|l| q.make.as_ref().is_none_or(|m| *m == l.make))
    .filter(|l| q.model.as_ref().is_none_or(|m| *m == l.model))
    .filter(|l| q.focal.is_none_or(|f| val(f) >= val(l.focal[0]) && val(f) <= val(l.focal[1])))
    .filter(|l| q.ap.is_none_or(|f| val(f) >= val(l.ap[0])))
    .collect();
  if v.len() == 1 { v } else { vec![] }
}
fn rat(r: (u32, u32)) -> Rational {
  Rational::new(r.0, r.1)
}
fn is(a: &LensDescription, b: &Lens) -> bool {
  let r = |x: &[Rational; 2]| [(x[0].n, x[0].d), (x[1].n, x[1].d)];
  a.lens_make == b.make
    && a.lens_model == b.model
    && a.lens_name == format!("{} {}", b.make, b.model)
    && a.mount == b.mount
    && r(&a.focal_range) == b.focal
    && r(&a.aperture_range) == b.ap
    && a.identifiers.id == b.id
    && a.identifiers.name == b.key
    && a.identifiers.nikon_id == b.nikon
    && a.identifiers.olympus_id == b.olympus
}
fn verdict(got: Option<&LensDescription>, want: &[&Lens]) -> Result<(), String> {
  let ok = match got {
    None => want.is_empty(),
    Some(g) => want.iter().any(|w| is(g, w)),
  };
  if ok {
    return Ok(());
  }
  Err(format!("{} instead of {}", got.map_or("none".into(), |g| format!("{} ({})", g.lens_name, g.mount)), want.first().map_or("none".into(), |w| format!("{} {} ({})", w.make, w.model, w.mount))))
}
fn ask(q: &Query) -> Option<&'static LensDescription> {
  let mut r = LensResolver::new().with_lens_keyname(q.key.as_ref()).with_nikon_id(q.nikon.clone()).with_olympus_id(q.olympus.clone()).with_lens_make(q.make.as_ref()).with_lens_model(q.model.as_ref());
  r = r.with_focal_len(q.focal.map(rat)).with_aperture(q.ap.map(rat));
  if let Some(i) = q.id {
    r = r.with_lens_id(i);
  }
  if let Some(m) = &q.mounts {
    r = r.with_mounts(m);
  }
  if let Some(c) = q.camera {
    r = r.with_camera_make("Pentax").with_camera_model(c);
  }
  r.resolve()
}
fn query(ctx: &Ctx, db: &[Lens], q: &Query) {
  let want = expect(db, q);
  ctx.case(fp(&format!("{q:?}")), !want.is_empty());
  match ctx.guard(|| ask(q)) {
    Ok(got) => {
      ctx.outcome(fp(&got.map(|g| &g.lens_name)));
      if let Err(e) = verdict(got, &want) {
        ctx.fail("query", format!("{e} for {q:?}"), json!({"query": format!("{q:?}")}));
      }
    }
    Err(e) => ctx.fail("query:panic", e, json!({"query": format!("{q:?}")})),
  }
}
fn queries(ctx: &Ctx, db: &[Lens]) {
  let strs = |v: &[&str]| Some(v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
  ctx.par("identifiers", db.len(), |i| {
    let l = &db[i];
    let far = Query { id: Some((77777, 3)), mounts: strs(&["no-mount"]), ..Default::default() };
    // an identifier string decides alone
    for j in 0..3 {
      let mut q = Query::default();
      let x = [&l.key, &l.nikon, &l.olympus][j].clone();
      let Some(x) = x else { continue };
      let put = |q: &mut Query, x: String| *[&mut q.key, &mut q.nikon, &mut q.olympus][j] = Some(x);
      put(&mut q, x.clone());
      query(ctx, db, &q);
      let mut q = far.clone();
      put(&mut q, x.clone());
      q.focal = Some((1, 1000));
      query(ctx, db, &q);
      // not with other letters, longer or shorter
      for y in [x.to_lowercase(), format!("{x} "), x[..x.len() - 1].to_string(), String::new()] {
        let mut q = far.clone();
        put(&mut q, y);
        query(ctx, db, &q);
      }
    }
    // order of the strings
    if let Some(k) = &l.key {
      let o = db.iter().find(|o| o.nikon.is_some()).unwrap();
      query(ctx, db, &Query { key: Some(k.clone()), nikon: o.nikon.clone(), ..Default::default() });
      query(ctx, db, &Query { key: Some(k.clone()), id: db.iter().find(|o| o.id.is_some()).unwrap().id, ..Default::default() });
    }
    for k in [Some("an unknown lens".to_string()), Some(String::new())] {
      query(ctx, db, &Query { key: k, nikon: l.nikon.clone(), olympus: l.olympus.clone(), id: l.id, mounts: strs(&[&l.mount]), ..Default::default() });
    }
    // names
    for m in [None, strs(&[&l.mount]), strs(&["x", &l.mount])] {
      for j in 0..4 {
        query(ctx, db, &Query { make: (j & 1 > 0).then(|| l.make.clone()), model: (j & 2 > 0).then(|| l.model.clone()), mounts: m.clone(), focal: Some(l.focal[0]), ..Default::default() });
        query(ctx, db, &Query { make: (j & 1 > 0).then(|| l.make.clone()), model: (j & 2 > 0).then(|| l.model.clone()), mounts: m.clone(), ..Default::default() });
      }
    }
  });
  let with: Vec<&Lens> = db.iter().filter(|l| l.id.is_some()).collect();
  ctx.par("numbers", with.len(), |i| {
    let l = with[i];
    let near = |r: (u32, u32), up: i64| Some(((r.0 as i64 * 1000 + up).max(0) as u32, r.1 * 1000));
    let focal = [None, Some(l.focal[0]), Some(l.focal[1]), near(l.focal[0], -1), near(l.focal[1], 1), near(l.focal[0], 1), near(l.focal[1], -1)];
    let ap = [None, Some(l.ap[0]), near(l.ap[0], -1), near(l.ap[0], 1), Some((64, 1))];
    let other = if l.mount == "ef-mount" { "k-mount" } else { "ef-mount" };
    let mounts = [None, strs(&[&l.mount]), strs(&[other]), strs(&[other, &l.mount]), strs(&["cn-mount", "ef-mount", "rf-mount"])];
    let rx = [focal.len(), ap.len(), mounts.len(), 3];
    for j in 0..space(&rx) {
      let d = digits(j, &rx);
      let mut id = l.id.unwrap();
      id.1 += [0, 1, 0][d[3]];
      id.0 += [0, 0, 1][d[3]];
      query(ctx, db, &Query { id: Some(id), mounts: mounts[d[2]].clone(), focal: focal[d[0]], ap: ap[d[1]], ..Default::default() });
    }
    for c in ["*ist D", "*ist DS", "*ist DL", "K10D"] {
      for series in [4, 7] {
        query(ctx, db, &Query { id: Some((series, l.id.unwrap().1)), mounts: strs(&["k-mount"]), camera: Some(c), ..Default::default() });
      }
    }
  });
}

// ---------------------------------------------------------------- camera files

/// lens identifier, focal length (if the form records one)
type Rec<'a> = (&'a Lens, Option<u16>);

fn nikon_cipher(b: &mut [u8], serial: &str, key: u32) {
  let n = serial.bytes().fold(0usize, |a, c| a.wrapping_mul(10).wrapping_add(if c.is_ascii_digit() { (c - b'0') as usize } else { (c % 10) as usize }));
  let kb = key.to_le_bytes();
  let (ci, mut cj) = (super::c26::NIKON_SERIAL[n & 255], super::c26::NIKON_KEY[(kb[0] ^ kb[1] ^ kb[2] ^ kb[3]) as usize]);
  for (i, x) in b.iter_mut().enumerate() {
    cj = cj.wrapping_add(ci.wrapping_mul((0x60 + i) as u8));
    *x ^= cj;
  }
}
const NEF: [(&str, usize, usize); 9] = [("0100", 6, 13), ("0101", 11, 19), ("0201", 11, 20), ("0202", 11, 20), ("0203", 11, 30), ("0204", 12, 22), ("0800", 13, 60), ("0801", 13, 70), ("0802", 13, 90)];
fn cam_root(make: &str, model: &str) -> Node {
  Node::new().v(0x10f, ascii(make)).v(0x110, ascii(model)).v(0x112, s(1))
}
fn raw16(w: usize, h: usize, bps: usize) -> Node {
  let d: Vec<u8> = (0..w * h).flat_map(|i| ((i * 37 % 4000) as u16).to_le_bytes()).collect();
  raw_dir(w, h, bps, 1, d)
}
fn nef(mn: Vec<(u16, V)>, be: bool, k: usize) -> Vec<u8> {
  let root = cam_root("NIKON CORPORATION", ["NIKON Z5_2", "NIKON D6"][k % 2]).v(0xfe, l(1)).v(0x100, s(16)).v(0x101, s(8)).item(0x14a, Item::Dirs(vec![raw16(64, 40, 14)], 4));
  tiff(Camera { root, exif: exif(), mn: Some((Mn::Nikon, mn, vec![])), chain: vec![] }, be, k % 2 == 1, k % 3)
}
fn nef_lens(data: Vec<u8>, kind: u8, serial: &str, key: u32) -> Vec<(u16, V)> {
  vec![(0x0c, V::Rational(vec![(2, 1), (3, 2), (1, 1), (1, 1)])), (0x1d, ascii(serial)), (0x83, V::Byte(vec![kind])), (0x98, V::Undefined(data)), (0xa7, V::Long(vec![key]))]
}
fn nef_record(form: usize, lens: &Lens, k: usize) -> Option<(Vec<(u16, V)>, String, u32, Vec<u8>)> {
  let (ver, at, len) = NEF[form % 9];
  let serial = ["2004567", "0", "NCP 33x", "123456789"][k % 4];
  let key = [0u32, 0x01020304, 0xffee_1234, 77][(k / 4 + k) % 4].wrapping_add(k as u32 * 3);
  let mut b: Vec<u8> = (0..len).map(|i| (i * 29 + k + 1) as u8).collect();
  let mut kind = 6;
  if form < 9 {
    let x = lens.nikon.as_ref()?.split(' ').map(|h| u8::from_str_radix(h, 16).ok()).collect::<Option<Vec<u8>>>()?;
    b[at..at + 7].copy_from_slice(&x[..7]);
    kind = x[7];
  } else {
    if at != 13 {
      return None;
    }
    // the newer block: the older one is empty
    b[4..48].fill(0);
    b[48..50].copy_from_slice(&(lens.id?.0 as u16).to_le_bytes());
  }
  b[..4].copy_from_slice(ver.as_bytes());
  if ver >= "0201" {
    nikon_cipher(&mut b[4..], serial, key);
  }
  Some((nef_lens(b.clone(), kind, serial, key), serial.into(), key, b))
}
fn cr2(id: u16, key: Option<&str>, focal: Option<u16>, be: bool, k: usize) -> Vec<u8> {
  let mut st = vec![0x1234u16; 48];
  st[22] = id;
  st[46] = 0;
  let mut mn = vec![(1, V::Short(st))];
  if let Some(f) = focal {
    mn.push((2, shorts(&[2, f, 907, 605])));
  }
  let root = cam_root("Canon", "Canon EOS 5D Mark III").v(0x103, s(6)).item(0x111, Item::Blobs(vec![vec![0xff, 0xd8, 0xff, 0xd9]])).v(0x117, l(4));
  let mut ex = exif();
  if let Some(n) = key {
    ex.set(0xa434, ascii(n));
  }
  let thumb = Node::new().item(0x201, Item::Blobs(vec![vec![0xff, 0xd8]])).v(0x202, l(2));
  let mid = Node::new().v(0x100, s(3)).v(0x101, s(1));
  let raw = Node::new().v(0x103, s(6)).v(0x117, l(4)).item(0x111, Item::Blobs(vec![vec![0; 4]])).v(0xc5d8, l(1)).v(0xc5e0, l(3));
  tiff(Camera { root, exif: ex, mn: Some((Mn::Plain, mn, vec![])), chain: vec![thumb, mid, raw] }, be, k % 2 == 1, k % 3)
}
fn cr3(id: (u32, u32), key: Option<&str>) -> Vec<u8> {
  let b = |n: Node| build(&[n], false, false, 0);
  let mut e = Node::new().v(0x829d, V::Rational(vec![(4, 1)]));
  if let Some(n) = key {
    e.set(0xa434, ascii(n));
  }
  let cs: Vec<u16> = (0..50).map(|k| if k == 3 { 4 } else if k == 22 { id.0 as u16 } else { 0 }).collect();
  let fi: Vec<u16> = (0..70).map(|k| if k == 61 { id.1 as u16 } else { 3 * k + 1 }).collect();
  let cmt = [b(Node::new().v(0x10f, ascii("Canon")).v(0x110, ascii("Canon EOS R5"))), b(e), b(Node::new().v(1, V::Short(cs)).v(0x93, V::Short(fi))), b(Node::new().v(0, V::Byte(vec![2, 3, 0, 0])))];
  let (im, hdr, blobs) = super::c17::tiny();
  boxes::cr3_raw(&cmt, &im, hdr, &blobs, 0)
}
/// the cipher of the newer Sony records: cubes modulo 249
fn sony_9cxx(b: &[u8]) -> Vec<u8> {
  b.iter().map(|v| if *v >= 249 { *v } else { (*v as u32 * *v as u32 * *v as u32 % 249) as u8 }).collect()
}
fn arw(mn: Vec<(u16, V)>, be: bool, k: usize) -> Vec<u8> {
  let root = cam_root("SONY", "ILCE-7M3").item(0x14a, Item::Dirs(vec![raw16(64, 40, 14)], 4));
  let mut all = vec![(0x102, l(0)), (0xb020, ascii("Standard")), (0xb027, l(0))];
  all.extend(mn);
  all.sort_by_key(|x| x.0);
  let kind = if k % 2 == 0 { Mn::Plain } else { Mn::Head(b"SONY DSC \0\0\0") };
  tiff(Camera { root, exif: exif(), mn: Some((kind, all, vec![])), chain: vec![] }, be, k % 4 > 1, k % 3)
}
fn pef(rec: V, model: &str, be: bool, k: usize) -> Vec<u8> {
  let raw = raw16(80, 32, 12);
  let kind = if k % 2 == 0 { Mn::Head(b"AOC\0") } else { Mn::Pentax };
  let mn = vec![(1, shorts(&[3])), (0x3f, rec), (0x201, shorts(&[9000, 8192, 8192, 12000]))];
  tiff(Camera { root: merge(cam_root(if model == "PENTAX K-5" { "PENTAX" } else { "PENTAX Corporation" }, model), raw), exif: exif(), mn: Some((kind, mn, vec![])), chain: vec![] }, be, k % 4 > 1, k % 3)
}
fn orf(rec: V, be: bool, k: usize) -> Vec<u8> {
  let hd: &'static [u8] = match (be, k % 3) {
    (_, 2) => b"OLYMP\0\x02\0",
    (true, _) => b"OLYMPUS\0MM\0\x03",
    _ => b"OLYMPUS\0II\x03\0",
  };
  let mut mn = vec![(0x1000, shorts(&[1; 6]))];
  mn.push((0x1017, shorts(&[400, 64])));
  mn.push((0x1018, shorts(&[500, 64])));
  tiff(Camera { root: merge(cam_root("OLYMPUS IMAGING CORP.", "E-M5MarkII"), raw16(80, 32, 12)), exif: exif(), mn: Some((Mn::Olympus(hd), mn, vec![(0x201, rec)])), chain: vec![] }, be, k % 2 == 1, k % 3)
}
fn rw2_file(make: u16, model: u16, be: bool, k: usize) -> Vec<u8> {
  let sub = build(&[Node::new().v(0x1112, s(3)).v(0x1201, shorts(&[make])).v(0x1202, shorts(&[model]))], be, k % 2 == 1, k % 3);
  rw2::file(rw2::root("DC-G9", 80, 60, 12, 4).v(0x120, V::Undefined(sub)), vec![0; 0x4000], true, k % 2 == 1, k % 3)
}
fn srw(id: u16, be: bool, k: usize) -> Vec<u8> {
  let mn = vec![(1, V::Undefined(b"0100".to_vec())), (0xa003, shorts(&[id])), (0xa021, V::Long(vec![7000, 4300, 4300, 6000])), (0xa028, V::Long(vec![100; 4]))];
  let root = cam_root("SAMSUNG", "NX1").item(0x14a, Item::Dirs(vec![raw16(192, 80, 12)], 4));
  tiff(Camera { root, exif: exif(), mn: Some((Mn::Own, mn, vec![])), chain: vec![] }, be, k % 4 > 1, k % 3)
}
fn tfr(make: Option<&str>, model: Option<&str>, focal: V, be: bool, k: usize) -> Vec<u8> {
  let mut ex = exif().v(0x920a, focal);
  if let Some(m) = make {
    ex.set(0xa433, ascii(m));
  }
  if let Some(m) = model {
    ex.set(0xa434, ascii(m));
  }
  let root = cam_root("Hasselblad", "X2D 100C").v(0xfe, l(1)).v(0xc628, V::Rational(vec![(1, 2), (1, 1), (1, 2)])).item(0x14a, Item::Dirs(vec![raw16(80, 40, 16)], 4));
  tiff(Camera { root, exif: ex, mn: None, chain: vec![] }, be, k % 4 > 1, k % 3)
}
fn found(f: &[u8]) -> Result<(Option<LensDescription>, rawler::exif::Exif), String> {
  let src = RawSource::new_from_slice(f);
  let dec = rawler::get_decoder(&src).map_err(|e| format!("decoder: {e:?}"))?;
  let m = dec.raw_metadata(&src, &RawDecodeParams::default()).map_err(|e| format!("{e:?}"))?;
  Ok((m.lens, m.exif))
}
fn file(ctx: &Ctx, form: &str, f: &[u8], want: &[&Lens]) {
  ctx.case(fp(&(form, f)), !want.is_empty());
  let js = || json!({"form": form, "lens": want.first().map(|w| format!("{} {}", w.make, w.model))});
  ctx.sample(form, js);
  let r = ctx.guard(|| found(f)).and_then(|r| r).and_then(|(got, ex)| {
    ctx.outcome(fp(&got.as_ref().map(|g| &g.lens_name)));
    verdict(got.as_ref(), want)?;
    if let Some(g) = &got {
      let w = want.iter().find(|w| is(g, w)).unwrap();
      if (ex.lens_make.as_ref(), ex.lens_model.as_ref()) != (Some(&w.make), Some(&w.model)) {
        return Err(format!("names {:?} {:?}", ex.lens_make, ex.lens_model));
      }
      let sp = ex.lens_spec.map(|x| x.map(|r| (r.n, r.d)));
      if sp != Some([w.focal[0], w.focal[1], w.ap[0], w.ap[1]]) {
        return Err(format!("specification {sp:?}"));
      }
    }
    Ok(())
  });
  if let Err(e) = r {
    ctx.fail(&format!("file {form}"), e, js());
  }
}
fn files(ctx: &Ctx, db: &[Lens]) {
  let strs = |v: &[&str]| Some(v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
  let of = |m: &str| -> Vec<&Lens> { db.iter().filter(|l| l.mount == m).collect() };
  let n = ctx.pick(1, 6);
  let f = of("F-mount");
  ctx.par("NEF F mount", f.len() * NEF.len() * n, |i| {
    let (li, form, v) = (i / NEF.len() % f.len(), i % NEF.len(), i / NEF.len() / f.len());
    let k = li + form + 7 * v;
    let Some((mn, ..)) = nef_record(form, f[li], k) else { return };
    file(ctx, &format!("NEF {}", NEF[form].0), &nef(mn, k / 2 % 2 == 1, k), &expect(db, &Query { nikon: f[li].nikon.clone(), mounts: strs(&["F-mount"]), ..Default::default() }));
  });
  let z = of("Z-mount");
  ctx.par("NEF Z mount", z.len() * 3 * 4 * n, |i| {
    let (li, form, k) = (i / 12 % z.len(), 15 + i % 3, i);
    let Some((mn, ..)) = nef_record(form, z[li], k) else { return };
    file(ctx, &format!("NEF Z {}", NEF[form % 9].0), &nef(mn, k / 2 % 2 == 1, k), &expect(db, &Query { id: z[li].id, mounts: strs(&["Z-mount"]), ..Default::default() }));
  });
  let ef: Vec<&Lens> = db.iter().filter(|l| l.mount == "ef-mount" || l.mount == "cn-mount").collect();
  ctx.par("CR2", ef.len() * 6 * n, |i| {
    let (li, fo, v) = (i / 6 % ef.len(), i % 6, i / 6 / ef.len());
    let e = ef[li];
    let w = |r: (u32, u32)| (r.0 / r.1) as u16;
    let focal = [None, Some(w(e.focal[0])), Some(w(e.focal[1])), Some(w(e.focal[0]).saturating_sub(1)), Some(w(e.focal[1]) + 1), None][fo];
    // the last form has the name
    let key = if fo == 5 { e.key.as_deref().or(Some("unknown name")) } else { None };
    let id = e.id.unwrap_or((65000, 0)).0;
    file(ctx, "CR2", &cr2(id as u16, key, focal, (li + v) % 2 == 1, li + fo), &expect(db, &Query { key: key.map(String::from), id: Some((id & 0xffff, 0)), focal: focal.map(|f| (f as u32, 1)), mounts: strs(&["cn-mount", "ef-mount"]), ..Default::default() }));
  });
  let rf: Vec<&Lens> = db.iter().filter(|l| ["ef-mount", "cn-mount", "rf-mount"].contains(&l.mount.as_str())).collect();
  ctx.par("CR3", rf.len() * 3, |i| {
    let (e, fo) = (rf[i / 3], i % 3);
    let key = [None, e.key.as_deref(), Some("unknown name")][fo];
    let id = e.id.unwrap_or((65000, 0));
    let id = (id.0 & 0xffff, id.1 & 0xffff);
    file(ctx, "CR3", &cr3(id, key), &expect(db, &Query { key: key.map(String::from), id: Some(id), mounts: strs(&["cn-mount", "ef-mount", "rf-mount"]), ..Default::default() }));
  });
  let e = of("e-mount");
  ctx.par("ARW", e.len() * 8 * n, |i| {
    let (li, form, k) = (i / 8 % e.len(), i % 8, i);
    let id = e[li].id.unwrap_or((65000, 0)).0 as u16;
    let rec = |at: usize, len: usize, id: u16| {
      let mut b: Vec<u8> = (0..len).map(|i| (i * 31 + k) as u8).collect();
      b[at..at + 2].copy_from_slice(&id.to_le_bytes());
      V::Undefined(sony_9cxx(&b))
    };
    // records by age; the newest wins, a 0x9050 too short for the number is left out
    let mn = match form {
      0 => vec![(0x9416, rec(0x4b, 90, id))],
      1 => vec![(0x9050, rec(263, 300, id))],
      2 => vec![(0x940c, rec(9, 40, id))],
      3 => vec![(0x9416, rec(0x4b, 120, id)), (0x9050, rec(263, 300, 11111)), (0x940c, rec(9, 40, 22222))],
      4 => vec![(0x9050, rec(263, 265, id)), (0x940c, rec(9, 11, 22222))],
      5 => vec![(0x9050, rec(100, 264, 5)), (0x940c, rec(9, 11, id))],
      6 => vec![(0x9416, rec(0x4b, 0x4d, id))],
      _ => vec![],
    };
    let want = if form == 7 { vec![] } else { expect(db, &Query { id: Some((id as u32, 0)), mounts: strs(&["e-mount", "a-mount"]), ..Default::default() }) };
    file(ctx, "ARW", &arw(mn, k / 8 % 2 == 1, k), &want);
  });
  let km = of("k-mount");
  ctx.par("PEF", km.len() * 6 * n, |i| {
    let (li, form) = (i / 6 % km.len(), i % 6);
    let k = li + form + i / 6 / km.len();
    let model = ["PENTAX *ist D", "PENTAX *ist DS", "PENTAX K-5"][form % 3];
    let mut id = km[li].id.unwrap_or((9, 9));
    if form > 2 && id.0 == 7 {
      // as the old cameras write it
      id.0 = 4;
    }
    let q = Query { id: Some(id), mounts: strs(&["k-mount"]), camera: Some(["*ist D", "*ist DS", "K-5"][form % 3]), ..Default::default() };
    let want = if id.0 < 3 { vec![] } else { expect(db, &q) };
    file(ctx, "PEF", &pef(V::Byte(vec![id.0 as u8, id.1 as u8, 7, 9]), model, k % 2 == 1, k), &want);
  });
  let m = of("MFT-mount");
  ctx.par("ORF and RW2", m.len() * 6 * n, |i| {
    let (li, form) = (i / 6 % m.len(), i % 6);
    let k = i / 6 + form;
    let Some(o) = &m[li].olympus else { return };
    let Some(x) = o.split(' ').map(|h| u8::from_str_radix(h, 16).ok()).collect::<Option<Vec<u8>>>() else { return };
    let want = expect(db, &Query { olympus: Some(o.clone()), mounts: strs(&["MFT-mount"]), ..Default::default() });
    if form < 3 {
      file(ctx, "ORF", &orf(V::Byte(vec![x[0], 0x77, x[1], x[2], 5, 6]), k % 2 == 1, form), &want);
    } else {
      file(ctx, "RW2", &rw2_file(x[0] as u16, x[1] as u16 | (x[2] as u16) << 8, k % 2 == 1, k), &want);
    }
  });
  let nx = of("NX-mount");
  ctx.par("SRW", nx.len() * 4 * n, |i| {
    let (li, k) = (i / 4 % nx.len(), i);
    let id = nx[li].id.map_or(60000, |x| x.0);
    file(ctx, "SRW", &srw(id as u16, k % 2 == 1, k / 2), &expect(db, &Query { id: Some((id, 0)), mounts: strs(&["NX-mount"]), ..Default::default() }));
  });
  let x = of("x-mount");
  ctx.par("3FR", x.len() * 6 * 4, |i| {
    let (e, form, k) = (x[i / 24], i / 4 % 6, i);
    let make = [Some(e.make.as_str()), None, Some("Other"), Some(e.make.as_str()), None, Some(e.make.as_str())][form];
    let model = [Some(e.model.as_str()), Some(e.model.as_str()), Some(e.model.as_str()), Some("Other"), None, None][form];
    let focal = [e.focal[0], (e.focal[1].0 + 1, e.focal[1].1), (e.focal[0].0 * 10, e.focal[0].1 * 10)][k % 3];
    file(ctx, "3FR", &tfr(make, model, V::Rational(vec![focal]), k % 2 == 1, k), &expect(db, &Query { make: make.map(String::from), model: model.map(String::from), focal: Some(focal), mounts: strs(&["x-mount"]), ..Default::default() }));
  });
}

/// short and unknown records: no lens, and never a failure of the program
fn damaged(ctx: &Ctx, db: &[Lens]) {
  let e = db.iter().find(|l| l.mount == "F-mount").unwrap();
  let mut all: Vec<(String, Vec<u8>)> = vec![];
  for form in 0..NEF.len() {
    let (mn, ..) = nef_record(form, e, form).unwrap();
    let Some((_, V::Undefined(b))) = mn.iter().find(|x| x.0 == 0x98) else { unreachable!() };
    for n in 0..b.len() {
      let mut m = mn.clone();
      m.iter_mut().find(|x| x.0 == 0x98).unwrap().1 = V::Undefined(b[..n].to_vec());
      all.push((format!("NEF {} cut to {n}", NEF[form].0), nef(m, false, n)));
    }
    for t in [0x1d, 0xa7, 0x83] {
      let m: Vec<_> = mn.iter().filter(|x| x.0 != t).cloned().collect();
      all.push((format!("NEF {} without {t:x}", NEF[form].0), nef(m, false, form)));
      let mut m = mn.clone();
      m.iter_mut().find(|x| x.0 == t).unwrap().1 = V::Undefined(vec![]);
      all.push((format!("NEF {} with empty {t:x}", NEF[form].0), nef(m, false, form)));
    }
    for v in ["0000", "0205", "0300", "0803", "9999", "\0\0\0\0", "abcd", "\u{7f}\u{7f}\u{7f}\u{7f}", "0400", "0401", "0402", "0403"] {
      let mut m = mn.clone();
      let mut x = b.clone();
      x[..4].copy_from_slice(v.as_bytes());
      m.iter_mut().find(|x| x.0 == 0x98).unwrap().1 = V::Undefined(x);
      all.push((format!("NEF version {v:?} for {}", NEF[form].0), nef(m, false, form)));
    }
  }
  for n in 0..70u16 {
    let sh = |n: u16| V::Short((0..n).collect());
    let root = || cam_root("Canon", "Canon EOS 5D Mark III").v(0x103, s(6)).item(0x111, Item::Blobs(vec![vec![0xff, 0xd8, 0xff, 0xd9]])).v(0x117, l(4));
    let raw = Node::new().v(0x103, s(6)).v(0x117, l(4)).item(0x111, Item::Blobs(vec![vec![0; 4]])).v(0xc5d8, l(1));
    for t in [1, 2] {
      let mn: Vec<(u16, V)> = (1..3).map(|u| (u, sh(if u == t { n } else { 50 }))).collect();
      all.push((format!("CR2 record {t} of {n}"), tiff(Camera { root: root(), exif: exif(), mn: Some((Mn::Plain, mn, vec![])), chain: vec![Node::new().v(0x100, s(3)), Node::new().v(0x100, s(3)), raw.clone()] }, false, false, 0)));
    }
    let b = |n: Node| build(&[n], false, false, 0);
    for t in [1, 0x93] {
      let c3 = Node::new().v(1, sh(if t == 1 { n } else { 50 })).v(0x93, sh(if t == 1 { 70 } else { n }));
      let cmt = [b(Node::new().v(0x10f, ascii("Canon")).v(0x110, ascii("Canon EOS R5"))), b(Node::new().v(0x829d, V::Rational(vec![(4, 1)]))), b(c3), b(Node::new().v(0, V::Byte(vec![2, 3, 0, 0])))];
      let (im, hdr, blobs) = super::c17::tiny();
      all.push((format!("CR3 record {t:x} of {n}"), boxes::cr3_raw(&cmt, &im, hdr, &blobs, 0)));
    }
  }
  for n in 0..8 {
    let by = V::Byte((3..3 + n as u8).collect());
    all.push((format!("PEF record of {n}"), pef(by.clone(), "PENTAX K-5", false, n)));
    all.push((format!("ORF record of {n}"), orf(by, false, n)));
  }
  for n in 0..280 {
    for t in [0x9416, 0x9050, 0x940c] {
      if n < 120 || t == 0x9050 {
        all.push((format!("ARW record {t:x} of {n}"), arw(vec![(t, V::Undefined((0..n).map(|i| i as u8).collect()))], false, n)));
      }
    }
  }
  for n in 0..40 {
    let sub = build(&[Node::new().v(0x1201, shorts(&[2])).v(0x1202, shorts(&[0x4000]))], false, false, 0);
    let mut cut = sub.clone();
    cut.truncate(n);
    for (k, v) in [(0, V::Undefined(cut)), (1, V::Undefined(vec![0xff; n])), (2, V::Short(vec![0x4949; n]))] {
      all.push((format!("RW2 record {k} of {n}"), rw2::file(rw2::root("DC-G9", 80, 60, 12, 4).v(0x120, v), vec![0; 0x4000], true, false, 0)));
    }
  }
  ctx.par("damaged records", all.len(), |i| {
    let (name, f) = &all[i];
    ctx.case(fp(name), true);
    match ctx.guard(|| found(f)) {
      Ok(r) => ctx.outcome(fp(&format!("{:?}", r.map(|x| x.0)))),
      Err(e) => ctx.fail(&format!("damaged {}", name.split(' ').next().unwrap_or("")), format!("{name}: {e}"), json!({"record": name})),
    }
  });
}

/// the lens in the DNG
fn converted(ctx: &Ctx, db: &[Lens]) {
  let f: Vec<&Lens> = db.iter().filter(|l| l.mount == "F-mount" || l.mount == "Z-mount").collect();
  let step = ctx.pick(3, 1);
  ctx.par("converted", f.len() / step, |i| {
    let e = f[i * step];
    let form = if e.nikon.is_some() { 6 + i % 3 } else { 15 + i % 3 };
    let Some((mn, ..)) = nef_record(form, e, i) else { return };
    let src = nef(mn, i % 2 == 1, i & !1);
    let want = expect(db, &Query { nikon: e.nikon.clone(), id: if e.nikon.is_some() { None } else { e.id }, mounts: strs1(&e.mount), ..Default::default() });
    ctx.case(fp(&("dng", i)), !want.is_empty());
    let js = || json!({"lens": e.model});
    let r = ctx.guard(|| convert_bytes(&src, &params(CropMode::None, DngCompression::Uncompressed, 1))).and_then(|r| r).and_then(|dng| check_dng(&dng, &want));
    if let Err(x) = r {
      ctx.fail("converted", format!("{}: {x}", e.model), js());
      return;
    }
    // and in the DNG of the DNG
    let dng = convert_bytes(&src, &params(CropMode::None, DngCompression::Uncompressed, 1)).unwrap();
    let r = ctx.guard(|| convert_bytes(&dng, &params(CropMode::None, DngCompression::Uncompressed, 1))).and_then(|r| r).and_then(|dng| check_dng(&dng, &want));
    if let Err(x) = r {
      ctx.fail("converted twice", format!("{}: {x}", e.model), js());
    }
  });
}
fn strs1(m: &str) -> Option<Vec<String>> {
  Some(vec![m.to_string()])
}
fn check_dng(dng: &[u8], want: &[&Lens]) -> Result<(), String> {
  let mut t = Tiff::open(dng)?;
  let root = t.chain()?[0].clone();
  let ex = match root.get(0x8769) {
    Some(v) => t.dir(v.u(0).unwrap() as u32)?,
    None => return Err("no EXIF directory".into()),
  };
  let got = (ex.get(0xa433).and_then(|v| v.s()), ex.get(0xa434).and_then(|v| v.s()), ex.get(0xa432).cloned(), root.get(0xc630).cloned());
  if want.is_empty() {
    return if got == (None, None, None, None) { Ok(()) } else { Err(format!("{got:?} although no lens is known")) };
  }
  for w in want {
    let sp = V::Rational(vec![w.focal[0], w.focal[1], w.ap[0], w.ap[1]]);
    if got == (Some(w.make.clone()), Some(w.model.clone()), Some(sp.clone()), Some(sp)) {
      return Ok(());
    }
  }
  Err(format!("{got:?}"))
}

pub fn run(ctx: &Ctx) {
  let db = database();
  ctx.count("lenses", db.len() as u64);
  queries(ctx, &db);
  files(ctx, &db);
  damaged(ctx, &db);
  converted(ctx, &db);
}
