//! C28: `analyze`, `cameras` and `lenses` print exactly what the file and the databases hold.
use super::c18;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::tiff::*;
use crate::refs::zlib::md5;
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one run of the real `dnglab analyze` (or `cameras`, `lenses`) on one file; what it prints must be exactly the samples, the checksum (MD5 by its definition), the levels, areas, white balance and shooting data, the directory tree, the preview or thumbnail pixels of the file, or the reference development; JSON and YAML must hold the same data. Non-trivial: the file holds an image of more than one sample value.",
    bounds: "4 kinds of image x sample formats 8, 10, 12, 14, 16 bit and float x 4 sets of areas x byte order x packing; all presence sets of thumbnail and preview x their formats and sizes; container files with several images; every camera, mode and lens of the databases",
    assumptions: &["float samples printed as pixels are compared within one unit of 65535, developed pixels within 8 of 65535 (1 of 255)"],
  }
}
fn hex(b: &[u8]) -> String {
  b.iter().map(|x| format!("{x:02x}")).collect()
}
fn analyze(s: &Scratch, file: &str, o: &[&str]) -> Result<Vec<u8>, String> {
  let mut a = vec!["analyze"];
  a.extend(o);
  a.push(file);
  let out = Run::new(&s.dir, &a).go();
  if out.ok() { Ok(out.stdout) } else { Err(format!("analyze {o:?} failed: {}", out.brief())) }
}
struct Pnm {
  n: usize,
  w: usize,
  h: usize,
  max: usize,
  px: Vec<u16>,
}
/// Netpbm by its definition
fn pnm(b: &[u8]) -> Result<Pnm, String> {
  let mut p = 0;
  let mut tok = || -> Result<String, String> {
    while b.get(p).is_some_and(|c| c.is_ascii_whitespace()) {
      p += 1;
    }
    let s = p;
    while b.get(p).is_some_and(|c| !c.is_ascii_whitespace()) {
      p += 1;
    }
    if s == p { Err("header".into()) } else { Ok(String::from_utf8_lossy(&b[s..p]).to_string()) }
  };
  let n = match tok()?.as_str() {
    "P5" => 1,
    "P6" => 3,
    x => return Err(format!("magic {x:?}")),
  };
  let mut num = || tok().and_then(|t| t.parse::<usize>().map_err(|e| e.to_string()));
  let (w, h, max) = (num()?, num()?, num()?);
  p += 1;
  let d = &b[p.min(b.len())..];
  let size = if max > 255 { 2 } else { 1 };
  if d.len() != w * h * n * size {
    return Err(format!("{} bytes of pixels for {w}x{h}x{n}, maximum {max}", d.len()));
  }
  let px = if size == 2 { d.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect() } else { d.iter().map(|x| *x as u16).collect() };
  Ok(Pnm { n, w, h, max, px })
}
fn json_of(b: &[u8]) -> Result<Value, String> {
  serde_json::from_slice(b).map_err(|e| format!("not JSON: {e}"))
}
fn yaml_of(b: &[u8]) -> Result<Value, String> {
  fn conv(y: &serde_yaml::Value) -> Value {
    use serde_yaml::Value as Y;
    match y {
      Y::Null => Value::Null,
      Y::Bool(b) => json!(b),
      Y::Number(n) => n.as_u64().map(|x| json!(x)).or(n.as_i64().map(|x| json!(x))).unwrap_or_else(|| json!(n.as_f64())),
      Y::String(s) => json!(s),
      Y::Sequence(v) => Value::Array(v.iter().map(conv).collect()),
      Y::Mapping(m) => Value::Object(m.iter().map(|(k, v)| (match conv(k) { Value::String(s) => s, k => k.to_string() }, conv(v))).collect()),
    }
  }
  serde_yaml::from_slice::<serde_yaml::Value>(b).map(|y| conv(&y)).map_err(|e| format!("not YAML: {e}"))
}
/// JSON and YAML up to the representation of numbers
fn same(a: &Value, b: &Value) -> bool {
  match (a, b) {
    (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
    (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same(v, w))),
    (Value::Number(a), Value::Number(b)) => a == b || a.as_f64() == b.as_f64(),
    (a, b) => a == b,
  }
}
fn at<'a>(v: &'a Value, p: &str) -> &'a Value {
  v.pointer(p).unwrap_or(&Value::Null)
}
fn is(v: &Value, p: &str, want: Value) -> Result<(), String> {
  if same(at(v, p), &want) { Ok(()) } else { Err(format!("{p} is {} instead of {want}", at(v, p))) }
}
fn value_json(v: &V) -> Value {
  let r = |n: String, d: String| json!(format!("{n}/{d}"));
  match v {
    V::Byte(x) => json!({ "Byte": x }),
    V::Ascii(x) => {
      // strings end at their NUL
      let mut parts: Vec<String> = x.split(|c| *c == 0).map(|p| String::from_utf8_lossy(p).to_string()).collect();
      if x.last() == Some(&0) {
        parts.pop();
      }
      json!({"Ascii": parts})
    }
    V::Short(x) => json!({ "Short": x }),
    V::Long(x) => json!({ "Long": x }),
    V::Rational(x) => json!({ "Rational": x.iter().map(|(n, d)| r(n.to_string(), d.to_string())).collect::<Vec<_>>() }),
    V::SRational(x) => json!({ "SRational": x.iter().map(|(n, d)| r(n.to_string(), d.to_string())).collect::<Vec<_>>() }),
    V::Undefined(x) => json!({ "Undefined": x }),
    v => json!(format!("{v:?}")),
  }
}
/// the printed directory against the one an independent reader finds
fn dir_matches(t: &mut Tiff, d: &Dir, j: &Value, path: &str) -> Result<usize, String> {
  let e = at(j, "/entries").as_object().ok_or(format!("{path}: no entries"))?;
  let mut seen = 0;
  for (tag, v) in &d.entries {
    let p = format!("{path}/{tag}");
    let sub = [330u16, 34665, 34853].contains(tag);
    if sub {
      let l = at(j, "/sub").get(tag.to_string()).and_then(|x| x.as_array()).ok_or(format!("{p}: directory not listed"))?;
      let offs = v.us();
      if l.len() != offs.len() {
        return Err(format!("{p}: {} directories instead of {}", l.len(), offs.len()));
      }
      for (k, o) in offs.iter().enumerate() {
        let dd = t.dir(*o as u32)?;
        seen += dir_matches(t, &dd, &l[k], &format!("{p}[{k}]"))?;
      }
    }
    let Some(x) = e.get(&tag.to_string()) else {
      if sub {
        continue;
      }
      return Err(format!("{p}: not listed"));
    };
    is(x, "/tag", json!(tag)).map_err(|e| format!("{p}: {e}"))?;
    let want = value_json(v);
    let mut got = at(x, "/value").clone();
    if let Some(s) = got.pointer("/Ascii/strings") {
      got = json!({ "Ascii": s });
    }
    if !same(&got, &want) {
      return Err(format!("{p}: {got} instead of {want}"));
    }
    seen += 1;
  }
  if let Some(k) = e.keys().find(|k| k.parse::<u16>().map_or(true, |k| !d.entries.contains_key(&k))) {
    return Err(format!("{path}: entry {k} is not in the file"));
  }
  Ok(seen)
}
fn file_part(j: &Value, name: &str, bytes: &[u8]) -> Result<(), String> {
  is(j, "/file/fileName", json!(name))?;
  is(j, "/file/fileSize", json!(bytes.len()))?;
  is(j, "/file/digest", json!(hex(&md5(bytes))))
}
fn samples_le(s: &Spec) -> Vec<u8> {
  match &s.data {
    Data::U(d) => d.iter().flat_map(|v| v.to_le_bytes()).collect(),
    Data::F(d) => d.iter().flat_map(|v| v.to_le_bytes()).collect(),
  }
}
fn rect(a: [usize; 4]) -> Value {
  json!({"p": {"x": a[0], "y": a[1]}, "d": {"w": a[2], "h": a[3]}})
}
const AREAS: [(Option<[usize; 4]>, Option<[usize; 4]>); 4] = [(None, None), (Some([4, 2, 24, 16]), None), (None, Some([8, 4, 20, 12])), (Some([4, 2, 24, 18]), Some([8, 6, 16, 10]))];
fn raws(ctx: &Ctx) {
  let kinds = [Kind::Cfa("BGGR".into()), Kind::Cfa(XTRANS.into()), Kind::Linear(3), Kind::Gray];
  let fmts = [(8, false), (10, false), (12, false), (14, true), (16, true), (16, false), (32, false)];
  let r = [kinds.len(), fmts.len(), AREAS.len(), 2];
  ctx.par("raw files", space(&r), |i| {
    let d = digits(i, &r);
    if ctx.quick() && d[2] != (d[1] + d[3]) % 4 && d[2] != 3 {
      return;
    }
    let (bps, lossless) = fmts[d[1]];
    let mut s = Spec::new(36, 24, kinds[d[0]].clone(), bps.min(16), 51 + (i % 4) as u64);
    if bps == 32 {
      s.fill_float(51);
    } else {
      s.black = vec![(if bps == 8 { 3 } else { 31 }, 2); s.cpp()];
    }
    (s.active, s.crop) = AREAS[d[2]];
    s.orientation = [1, 6, 8, 3][d[1] % 4];
    let l = Layout { be: d[3] == 1, values_first: i % 2 == 1, lossless: lossless.then_some((1, if s.cpp() == 3 { 3 } else { 2 })), sub: i % 3 != 0, ..Default::default() };
    let mut n = dng_node(&s, &l);
    let be = l.be;
    n.set(0x13b, ascii("An Artist"));
    n.set(0x8298, ascii("Nobody"));
    n.items.insert(
      0x8769,
      Item::Dirs(vec![Node::new().v(0x829a, V::Rational(vec![(1, 250)])).v(0x829d, V::Rational(vec![(28, 10)])).v(0x8827, V::Short(vec![3200])).v(0x9003, ascii("2020:02:29 23:59:58")).v(0x9011, ascii("-03:30")).v(0x9204, V::SRational(vec![(-2, 3)])).v(0x9209, V::Short(vec![16])).v(0x920a, V::Rational(vec![(50, 1)])).v(0xa431, ascii("SN 0017"))], 4),
    );
    n.items.insert(0x8825, Item::Dirs(vec![Node::new().v(1, ascii("S")).v(2, V::Rational(vec![(33, 1), (51, 1), (3512, 100)])).v(5, V::Byte(vec![1])).v(6, V::Rational(vec![(5, 2)]))], 4));
    let b = build(&[n], be, l.values_first, 0);
    let name = ["in.dng", "Ä b.DNG", "x.y.nef"][i % 3];
    let sc = Scratch::new();
    sc.write(name, &b);
    ctx.case(fp(&("raw", i)), true);
    let js = || json!({"kind": format!("{:?}", s.kind), "bits": bps, "lossless": lossless, "active": s.active, "crop": s.crop, "big endian": be, "file": name});
    ctx.sample("raw", js);
    let mut bad = |key: &str, e: String| ctx.fail(&format!("raw:{key}"), format!("{} {:?} {bps} bit: {e}", name, s.kind), js());
    // samples
    let r = analyze(&sc, name, &["--raw-pixel"]).and_then(|o| pnm(&o)).and_then(|p| {
      if (p.n, p.w, p.h, p.max) != (s.cpp(), s.w, s.h, 65535) {
        return Err(format!("{}x{}x{} maximum {}", p.w, p.h, p.n, p.max));
      }
      let ok = |k: usize| match &s.data {
        Data::U(d) => d[k] == p.px[k],
        Data::F(d) => ((d[k].clamp(0.0, 1.0) as f64 * 65535.0) - p.px[k] as f64).abs() <= 1.0,
      };
      match (0..p.px.len()).find(|k| !ok(*k)) {
        Some(k) => Err(format!("sample {k} is printed as {}", p.px[k])),
        None => {
          ctx.outcome(fp(&p.px));
          Ok(())
        }
      }
    });
    if let Err(e) = r {
      bad("pixel", format!("--raw-pixel: {e}"));
    }
    match analyze(&sc, name, &["--raw-checksum"]) {
      Ok(o) if String::from_utf8_lossy(&o).trim() == hex(&md5(&samples_le(&s))) => {}
      o => bad("checksum", format!("--raw-checksum: {:?} instead of {}", o.map(|o| String::from_utf8_lossy(&o).to_string()), hex(&md5(&samples_le(&s))))),
    }
    // metadata
    let meta = analyze(&sc, name, &["--meta", "--json"]).and_then(|o| json_of(&o));
    let r = meta.clone().and_then(|j| {
      file_part(&j, name, &b)?;
      let p = "/data/metadata/rawParams";
      is(&j, &format!("{p}/rawWidth"), json!(s.w))?;
      is(&j, &format!("{p}/rawHeight"), json!(s.h))?;
      is(&j, &format!("{p}/activeArea"), s.active.map(rect).unwrap_or(Value::Null))?;
      is(&j, &format!("{p}/cropArea"), s.crop.map(rect).unwrap_or(Value::Null))?;
      let bl: Vec<f64> = at(&j, &format!("{p}/blacklevels/levels")).as_array().ok_or("no black levels")?.iter().filter_map(|x| x.as_str()).filter_map(|x| x.split_once('/').and_then(|(n, d)| Some(n.parse::<f64>().ok()? / d.parse::<f64>().ok()?))).collect();
      if bl.len() != s.cpp() || bl.iter().any(|x| *x != s.black_at(0, 0, 0)) {
        return Err(format!("black levels {bl:?}"));
      }
      is(&j, &format!("{p}/blacklevels/cpp"), json!(s.cpp()))?;
      is(&j, &format!("{p}/whitelevels"), json!(s.white))?;
      let wb: Vec<Option<f64>> = at(&j, &format!("{p}/wbCoeffs")).as_array().ok_or("no white balance")?.iter().map(|x| x.as_f64()).collect();
      if wb.len() != 4 || (0..3).any(|k| !wb[k].is_some_and(|x| (x - s.wb[k] as f64).abs() < 1e-4)) || wb[3].is_some() {
        return Err(format!("white balance {wb:?}"));
      }
      let q = "/data/metadata/rawMetadata";
      is(&j, &format!("{q}/make"), json!(s.make))?;
      is(&j, &format!("{q}/model"), json!(s.model))?;
      for (k, v) in [
        ("orientation", json!(s.orientation)),
        ("artist", json!("An Artist")),
        ("copyright", json!("Nobody")),
        ("exposure_time", json!("1/250")),
        ("fnumber", json!("28/10")),
        ("iso_speed_ratings", json!(3200)),
        ("date_time_original", json!("2020:02:29 23:59:58")),
        ("offset_time_original", json!("-03:30")),
        ("exposure_bias", json!("-2/3")),
        ("flash", json!(16)),
        ("focal_length", json!("50/1")),
        ("serial_number", json!("SN 0017")),
        ("create_date", Value::Null),
        ("modify_date", Value::Null),
        ("iso_speed", Value::Null),
        ("lens_model", Value::Null),
        ("gps/gps_latitude_ref", json!("S")),
        ("gps/gps_latitude", json!(["33/1", "51/1", "3512/100"])),
        ("gps/gps_altitude_ref", json!(1)),
        ("gps/gps_altitude", json!("5/2")),
        ("gps/gps_longitude", Value::Null),
      ] {
        is(&j, &format!("{q}/exif/{k}"), v)?;
      }
      ctx.outcome(fp(&j.to_string()));
      Ok(())
    });
    if let Err(e) = r {
      bad("meta", format!("--meta: {e}"));
    }
    // structure
    let st = analyze(&sc, name, &["--structure"]).and_then(|o| json_of(&o));
    let r = st.clone().and_then(|j| {
      file_part(&j, name, &b)?;
      let mut t = Tiff::open(&b)?;
      let chain = t.chain()?;
      let l = at(&j, "/data/fileStructure/dng/tiff/file/chain").as_array().ok_or("no directories")?.clone();
      if l.len() != chain.len() {
        return Err(format!("{} directories instead of {}", l.len(), chain.len()));
      }
      for (k, d) in chain.iter().enumerate() {
        dir_matches(&mut t, d, &l[k], &format!("[{k}]"))?;
      }
      Ok(())
    });
    if let Err(e) = r {
      bad("structure", format!("--structure: {e}"));
    }
    for (o, j) in [("--meta", meta), ("--structure", st)] {
      match (analyze(&sc, name, &[o, "--yaml"]).and_then(|o| yaml_of(&o)), j) {
        (Ok(y), Ok(j)) if same(&y, &j) => {}
        (Err(e), _) => bad("yaml", format!("{o} --yaml: {e}")),
        (_, Ok(_)) => bad("yaml", format!("{o}: YAML and JSON differ")),
        _ => {}
      }
    }
    // development
    if bps != 10 {
      let w = c18::want(&s, &c18::ALL, None);
      let dev = |o: &str, max: usize, tol: f64| -> Result<Vec<u16>, String> {
        let p = analyze(&sc, name, &[o]).and_then(|o| pnm(&o)).map_err(|e| format!("{o}: {e}"))?;
        let n = if max == 255 { 3 } else { w.n };
        if (p.n, p.w, p.h, p.max) != (n, w.w, w.h, max) {
          return Err(format!("{o}: {}x{}x{} maximum {} for {}x{}x{}", p.w, p.h, p.n, p.max, w.w, w.h, w.n));
        }
        for k in 0..p.px.len() {
          let q = if w.n == 1 { k / n } else { k };
          let e = (w.v[q] * max as f64).clamp(0.0, max as f64);
          if !w.edge[q] && (p.px[k] as f64 - e).abs() > tol {
            return Err(format!("{o}: value {k} is {} for {e}", p.px[k]));
          }
        }
        Ok(p.px)
      };
      match dev("--srgb", 65535, 8.0) {
        Err(e) => bad("srgb", e),
        Ok(px) => {
          // the file has no previews: all fall back to the developed image
          let sum = hex(&md5(&px.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>()));
          for o in ["--full-checksum", "--preview-checksum", "--thumbnail-checksum"] {
            match analyze(&sc, name, &[o]) {
              Ok(x) if String::from_utf8_lossy(&x).trim() == sum => {}
              x => bad("fallback", format!("{o}: {:?} instead of {sum}", x.map(|x| String::from_utf8_lossy(&x).to_string()))),
            }
          }
        }
      }
      for o in ["--full-pixel", "--preview-pixel", "--thumbnail-pixel"] {
        if let Err(e) = dev(o, 255, 1.01) {
          bad("fallback", e);
        }
      }
    }
  });
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
  None,
  Rgb,
  Gray,
  Jpeg,
  Strips,
}
const FORMS: [Form; 5] = [Form::None, Form::Rgb, Form::Gray, Form::Jpeg, Form::Strips];
/// an embedded picture and its pixels (RGB)
fn picture(f: Form, w: usize, h: usize, seed: u64) -> Option<(Node, Vec<u8>)> {
  let mut g = Rng::new(seed);
  let n = if f == Form::Gray { 1 } else { 3 };
  let smooth = f == Form::Jpeg;
  let mut px: Vec<u8> = (0..w * h * n).map(|i| if smooth { ((i / n % w * 5 + i / n / w * 7 + i % n * 40 + seed as usize * 11) % 256) as u8 } else { g.next() as u8 }).collect();
  let mut node = Node::new().v(254, V::Long(vec![1])).v(256, V::Long(vec![w as u32])).v(257, V::Long(vec![h as u32])).v(258, V::Short(vec![8; n])).v(262, V::Short(vec![if n == 1 { 1 } else { 2 }])).v(277, V::Short(vec![n as u16]));
  match f {
    Form::None => return None,
    Form::Jpeg => {
      let mut data = vec![];
      image::codecs::jpeg::JpegEncoder::new_with_quality(&mut data, 90).encode(&px, w as u32, h as u32, image::ExtendedColorType::Rgb8).unwrap();
      px = image::load_from_memory(&data).unwrap().into_rgb8().into_raw();
      node.set(262, V::Short(vec![6]));
      let len = data.len() as u32;
      node = node.v(259, V::Short(vec![7])).v(278, V::Long(vec![h as u32])).item(273, Item::Blobs(vec![data])).v(279, V::Long(vec![len]));
    }
    Form::Strips => {
      let rows = h.div_ceil(2).max(1);
      let cs: Vec<Vec<u8>> = px.chunks(rows * w * n).map(|c| c.to_vec()).collect();
      let l: Vec<u32> = cs.iter().map(|c| c.len() as u32).collect();
      node = node.v(259, V::Short(vec![1])).v(278, V::Long(vec![rows as u32])).item(273, Item::Blobs(cs)).v(279, V::Long(l));
    }
    _ => {
      node = node.v(259, V::Short(vec![1])).v(278, V::Long(vec![h as u32])).item(273, Item::Blobs(vec![px.clone()])).v(279, V::Long(vec![px.len() as u32]));
    }
  }
  Some((node, px))
}
fn pictures(ctx: &Ctx) {
  let sizes = [(12usize, 8usize), (1, 1), (31, 17)];
  let r = [FORMS.len(), FORMS.len(), sizes.len(), 2];
  ctx.par("previews", space(&r), |i| {
    let d = digits(i, &r);
    let (tf, pf, (w, h), be) = (FORMS[d[0]], FORMS[d[1]], sizes[d[2]], d[3] == 1);
    let spec = Spec::new(36, 24, Kind::Cfa("RGGB".into()), 12, 53);
    let raw = raw_node(&spec, &Layout { be, ..Default::default() });
    let mut root = root_tags(&spec);
    let thumb = picture(tf, w, h, 3);
    let prev = picture(pf, h + 9, w + 3, 5);
    let mut subs = vec![];
    if i % 4 < 2 {
      subs.push(raw.clone());
    }
    if let Some((n, _)) = &prev {
      subs.push(n.clone());
    }
    if i % 4 >= 2 {
      subs.push(raw.clone());
    }
    if let Some((n, _)) = &thumb {
      for (t, it) in &n.items {
        root.items.insert(*t, it.clone());
      }
    } else if prev.is_none() && i % 2 == 0 {
      // raw image in the first directory
      for (t, it) in raw.items {
        root.items.insert(t, it);
      }
      subs.clear();
    }
    if !subs.is_empty() {
      root.items.insert(330, Item::Dirs(subs, 4));
    }
    let b = build(&[root], be, false, 0);
    let sc = Scratch::new();
    sc.write("in.dng", &b);
    ctx.case(fp(&("pictures", i)), true);
    let js = || json!({"thumbnail": format!("{tf:?}"), "preview": format!("{pf:?}"), "size": [w, h], "big endian": be});
    ctx.sample("previews", js);
    let srgb = match analyze(&sc, "in.dng", &["--srgb"]).and_then(|o| pnm(&o)) {
      Ok(p) => p,
      Err(e) => return ctx.fail("previews", e, js()),
    };
    let c18w = c18::want(&spec, &c18::ALL, None);
    if (srgb.w, srgb.h, srgb.n) != (c18w.w, c18w.h, 3) || (0..srgb.px.len()).any(|k| !c18w.edge[k] && (srgb.px[k] as f64 - (c18w.v[k] * 65535.0).clamp(0.0, 65535.0)).abs() > 8.0) {
      ctx.fail("previews", "--srgb does not show the raw image".into(), js());
    }
    let full = || -> (usize, usize, Vec<u8>, Vec<u8>) { (srgb.w, srgb.h, srgb.px.iter().map(|v| ((*v as u32 + 128) / 257) as u8).collect(), srgb.px.iter().flat_map(|v| v.to_le_bytes()).collect()) };
    let pic = |f: Form, p: &(Node, Vec<u8>), w: usize, h: usize| {
      let rgb = if f == Form::Gray { p.1.iter().flat_map(|v| [*v; 3]).collect() } else { p.1.clone() };
      (w, h, rgb, p.1.clone())
    };
    let pw = prev.as_ref().map(|p| pic(pf, p, h + 9, w + 3)).unwrap_or_else(full);
    let tw = thumb.as_ref().map(|p| pic(tf, p, w, h)).unwrap_or_else(|| pw.clone());
    for (o, want) in [("full", full()), ("preview", pw), ("thumbnail", tw)] {
      let r = (|| {
        let p = pnm(&analyze(&sc, "in.dng", &[&format!("--{o}-pixel")])?)?;
        if (p.n, p.w, p.h, p.max) != (3, want.0, want.1, 255) {
          return Err(format!("{}x{}x{} maximum {} for {}x{}", p.w, p.h, p.n, p.max, want.0, want.1));
        }
        if let Some(k) = (0..p.px.len()).find(|k| (p.px[*k] as i32 - want.2[*k] as i32).abs() > (o == "full") as i32) {
          return Err(format!("value {k} is {} for {}", p.px[k], want.2[k]));
        }
        let sum = String::from_utf8_lossy(&analyze(&sc, "in.dng", &[&format!("--{o}-checksum")])?).trim().to_string();
        if sum != hex(&md5(&want.3)) {
          return Err(format!("checksum {sum}"));
        }
        Ok(fp(&p.px))
      })();
      match r {
        Ok(x) => ctx.outcome(x),
        Err(e) => ctx.fail("previews", format!("--{o}: {e}"), js()),
      }
    }
  });
}
/// files with several images: the first one is shown
fn containers(ctx: &Ctx) {
  ctx.par("containers", 6, |i| {
    let (b, w, h, px) = super::c17::burst(1 + i % 3, 4 + i);
    let sc = Scratch::new();
    sc.write("b.CR3", &b);
    ctx.case(fp(&("container", i)), true);
    let r = (|| {
      let p = pnm(&analyze(&sc, "b.CR3", &["--raw-pixel"])?)?;
      if (p.n, p.w, p.h) != (1, w, h) || p.px != px[0] {
        return Err("--raw-pixel does not give the first image".to_string());
      }
      let sum = String::from_utf8_lossy(&analyze(&sc, "b.CR3", &["--raw-checksum"])?).trim().to_string();
      if sum != hex(&md5(&px[0].iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>())) {
        return Err("--raw-checksum".into());
      }
      for o in ["--meta", "--structure"] {
        let j = json_of(&analyze(&sc, "b.CR3", &[o])?)?;
        file_part(&j, "b.CR3", &b)?;
        if !same(&j, &yaml_of(&analyze(&sc, "b.CR3", &[o, "--yaml"])?)?) {
          return Err(format!("{o}: YAML and JSON differ"));
        }
        if o == "--meta" {
          is(&j, "/data/metadata/rawParams/rawWidth", json!(w))?;
          is(&j, "/data/metadata/rawParams/rawHeight", json!(h))?;
        }
      }
      Ok(fp(&p.px))
    })();
    match r {
      Ok(o) => ctx.outcome(o),
      Err(e) => ctx.fail("containers", e, json!({"images": 1 + i % 3})),
    }
  });
}
pub fn data_files(kind: &str) -> Vec<toml::Table> {
  fn walk(p: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
    let mut l: Vec<_> = std::fs::read_dir(p).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    l.sort();
    for e in l {
      if e.is_dir() {
        walk(&e, v);
      } else if e.extension().is_some_and(|x| x == "toml") {
        v.push(e);
      }
    }
  }
  let mut v = vec![];
  walk(std::path::Path::new(&format!("/repo/rawler/data/{kind}")), &mut v);
  v.iter().filter_map(|p| std::fs::read_to_string(p).ok().and_then(|t| t.parse::<toml::Table>().ok())).collect()
}
fn split_words(l: &str) -> Vec<String> {
  l.split_whitespace().map(|s| s.to_string()).collect()
}
fn lists(ctx: &Ctx) {
  // cameras: make -> model -> modes
  let mut cams: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
  let files = data_files("cameras");
  let get = |t: &toml::Table, k: &str| t.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
  for t in &files {
    // colour matrices and modes may stand below a [cameras] table
    let sub = t.get("cameras").and_then(|c| c.as_table());
    let modes = t.get("modes").or(sub.and_then(|s| s.get("modes"))).and_then(|m| m.as_array()).cloned().unwrap_or_default();
    let mut names = vec![get(t, "model")];
    if let Some(a) = t.get("model_aliases").and_then(|a| a.as_array()) {
      names.extend(a.iter().filter_map(|x| x.as_array().and_then(|x| x.first()).and_then(|x| x.as_str()).map(|x| x.to_string())));
    }
    for n in names {
      let e = cams.entry((get(t, "make"), n)).or_default();
      for m in &modes {
        let m = m.as_table().map(|m| get(m, "mode")).unwrap_or_default();
        if !m.is_empty() && !e.contains(&m) {
          e.push(m);
        }
      }
      let base = get(t, "mode");
      if !base.is_empty() && !e.contains(&base) {
        e.push(base);
      }
    }
  }
  let mut lenses: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
  for t in data_files("lenses") {
    for l in t.get("lenses").and_then(|l| l.as_array()).cloned().unwrap_or_default() {
      let l = l.as_table().cloned().unwrap_or_default();
      lenses.entry((get(&l, "mount"), get(&l, "make"))).or_default().push(get(&l, "model"));
    }
  }
  ctx.count("cameras", cams.len() as u64);
  ctx.count("lenses", lenses.values().map(|v| v.len()).sum::<usize>() as u64);
  let plain = |a: &[&str]| {
    let s = Scratch::new();
    let o = Run::new(&s.dir, a).go();
    (o.ok(), String::from_utf8_lossy(&o.stdout).to_string())
  };
  let runs = [plain(&["cameras"]), plain(&["cameras", "--md"]), plain(&["lenses"]), plain(&["lenses", "--md"])];
  for (k, r) in runs.iter().enumerate() {
    ctx.case(fp(&("list", k)), true);
    ctx.outcome(fp(&r.1));
    if !r.0 {
      ctx.fail("lists", format!("list {k}: run failed"), json!({}));
    }
  }
  // every camera on exactly one line of each list
  let lines: Vec<Vec<Vec<String>>> = runs.iter().map(|r| r.1.lines().map(split_words).collect()).collect();
  // a model may itself hold a bar: the last column takes the rest
  let rows = |k: usize, cols: usize| -> Vec<Vec<String>> {
    runs[k].1.lines().filter(|l| l.starts_with('|')).map(|l| l.replace("\\|", "|")).map(|l| l.trim().trim_matches('|').splitn(cols, '|').map(|c| c.split_whitespace().collect::<Vec<_>>().join(" ")).collect()).collect()
  };
  let (cam_md, lens_md) = (rows(1, 8), rows(3, 3));
  let list: Vec<_> = cams.iter().collect();
  ctx.par("cameras", list.len(), |i| {
    let ((make, model), modes) = list[i];
    ctx.case(fp(&("camera", make, model)), true);
    let mut modes = modes.clone();
    modes.sort();
    let modes = if modes.is_empty() { "all".to_string() } else { modes.join(", ") };
    let head = split_words(&format!("{make} {model} {modes}"));
    let n = lines[0].iter().filter(|l| **l == head || l.starts_with(&head) && l.get(head.len()).is_some_and(|w| w.starts_with('('))).count();
    let name = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
    let m = cam_md.iter().filter(|r| r.len() >= 4 && r[0] == name(make) && r[1] == name(model) && r[3] == modes).count();
    if (n, m) != (1, 1) {
      ctx.fail("cameras", format!("{make} {model} ({modes}) is listed {n} times, in the Markdown list {m} times"), json!({"make": make, "model": model}));
    }
  });
  if cam_md.len() != list.len() + 2 {
    ctx.fail("cameras", format!("{} lines for {} cameras", cam_md.len(), list.len()), json!({}));
  }
  let list: Vec<_> = lenses.iter().collect();
  ctx.par("lenses", list.len(), |i| {
    let ((mount, make), models) = list[i];
    for model in models {
      ctx.case(fp(&("lens", mount, make, model)), true);
      let name = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
      let want = models.iter().filter(|m| *m == model).count();
      let line = split_words(&format!("{mount} {make} {model}"));
      let n = lines[2].iter().filter(|l| **l == line).count();
      let m = lens_md.iter().filter(|r| r.len() >= 3 && r[0] == name(mount) && r[1] == name(make) && r[2] == name(model)).count();
      if (n, m) != (want, want) {
        ctx.fail("lenses", format!("{mount} {make} {model} is listed {n} times, in the Markdown list {m} times, instead of {want}"), json!({"lens": model}));
      }
    }
  });
}
pub fn run(ctx: &Ctx) {
  raws(ctx);
  pictures(ctx);
  containers(ctx);
  lists(ctx);
}
