//! C16: makedng keeps the pixels of its inputs and describes them by exactly the options given.

use super::dngcmp::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::dng as rd;
use crate::refs::png;
use crate::refs::tiff::*;
use rawler::dng::CropMode;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one run of the real `dnglab makedng` whose output is read by the independent DNG reader. Non-trivial: every case except the plain conversion of one RGB image.",
    bounds: "RGB 8/16 bit images of every size up to 8x8 (thorough 24x24) plus tile-edge sizes; all 20 named linearization tables and 9 custom tables x depth; 4 named + 5 custom matrices x 3 slots x 20 illuminants x 7 backward versions; wb/white-xy forms; option strings; all 5^3 assignments of 4 inputs to raw/preview/thumbnail plus exif/xmp sources; raw DNG inputs of 4 kinds",
    assumptions: &["rational options are stored with a resolution of 1e-4"],
  }
}

fn img(w: usize, h: usize, depth: u8, seed: u64) -> Vec<u16> {
  let mut g = Rng::new(seed);
  (0..w * h * 3).map(|_| (g.next() & if depth == 8 { 255 } else { 65535 }) as u16).collect()
}

struct Case<'a> {
  label: String,
  /// (name, bytes)
  files: Vec<(String, Vec<u8>)>,
  opts: Vec<String>,
  check: Box<dyn Fn(&Out, Option<&[u8]>) -> Result<(), String> + Sync + 'a>,
}

fn exec(ctx: &Ctx, group: &str, cases: Vec<Case>) {
  ctx.par(group, cases.len(), |i| {
    let c = &cases[i];
    let s = Scratch::new();
    s.mkdir("o");
    for (n, b) in &c.files {
      s.write(n, b);
    }
    let before = s.snap("");
    let mut a: Vec<String> = vec!["makedng".into(), "-o".into(), "o/x.dng".into()];
    a.push("-i".into());
    for (n, _) in &c.files {
      a.push(n.clone());
    }
    // list options take all their values at once
    let maps: Vec<String> = c.opts.windows(2).filter(|w| w[0] == "--map").map(|w| w[1].clone()).collect();
    let mut skip = false;
    for o in &c.opts {
      if skip {
        skip = false;
      } else if o == "--map" {
        skip = true;
      } else {
        a.push(o.clone());
      }
    }
    if !maps.is_empty() {
      a.push("--map".into());
      a.extend(maps);
    }
    let args: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let out = Run::new(&s.dir, &args).go();
    let after = s.snap("");
    let (ch, new) = diff(&before, &after);
    let dng = match after.get("o/x.dng") {
      Some(Ent::File(b, _)) => Some(b.clone()),
      _ => None,
    };
    ctx.case(fp(&format!("{group}/{}", c.label)), group != "images");
    ctx.outcome(fp(&(out.code, dng.as_ref().map(|d| d.len()))));
    let r = (|| {
      if !ch.is_empty() || new.iter().any(|n| n != "o/x.dng") {
        return Err(format!("other files touched: {ch:?} {new:?}"));
      }
      if out.ok() != dng.is_some() {
        return Err(format!("exit status and output disagree: {} output {}", out.brief(), dng.is_some()));
      }
      (c.check)(&out, dng.as_deref())
    })();
    ctx.sample(group, || json!({"opts": c.opts, "label": c.label, "exit": out.code, "ok": r.is_ok()}));
    if let Err(e) = r {
      ctx.fail(&format!("{group}:{}", c.label), format!("makedng {:?}: {e}", &a[3..]), json!({"args": a}));
    }
  });
}

fn need<'a>(out: &Out, d: Option<&'a [u8]>) -> Result<&'a [u8], String> {
  d.ok_or_else(|| format!("failed: {}", out.brief()))
}

/// the raw image of the DNG is this RGB image
fn is_rgb(b: &[u8], w: usize, h: usize, depth: u8, px: &[u16], table: Option<&[f64]>) -> Result<rd::Dng, String> {
  let d = rd::read(b)?;
  if (d.width, d.height, d.cpp, d.photometric) != (w, h, 3, 34892) {
    return Err(format!("{}x{}x{} photometric {}", d.width, d.height, d.cpp, d.photometric));
  }
  match &d.px {
    rd::Px::U(v) => {
      if let Some(i) = (0..v.len()).find(|i| v[*i] != px[*i] as u32) {
        return Err(format!("sample {i} is {} instead of {}", v[i], px[i]));
      }
    }
    _ => return Err("float samples".into()),
  }
  let black = d.raw.get(50714).map(|v| v.fs()).unwrap_or(vec![0.0]);
  if black.iter().any(|x| *x != 0.0) {
    return Err(format!("black level {black:?}"));
  }
  let wl = d.raw.get(50717);
  if let Some(v) = wl {
    if !matches!(v, V::Short(_) | V::Long(_)) {
      return Err(format!("WhiteLevel has type {} (DNG: SHORT or LONG)", v.ty()));
    }
    if v.count() != 3 {
      return Err(format!("WhiteLevel count {}", v.count()));
    }
  }
  let white = wl.map(|v| v.us()).unwrap_or(vec![(1 << d.bps) - 1; 3]);
  let exp = if depth == 8 && table.is_none() { 255 } else { 65535 };
  if white.iter().any(|x| *x != exp) {
    return Err(format!("white level {white:?}, expected {exp}"));
  }
  match (table, d.raw.get(50712)) {
    (None, None) => {}
    (None, Some(_)) => return Err("unexpected LinearizationTable".into()),
    (Some(_), None) => return Err("LinearizationTable missing".into()),
    (Some(t), Some(V::Short(v))) => {
      if v.len() != t.len() {
        return Err(format!("LinearizationTable has {} entries, expected {}", v.len(), t.len()));
      }
      for (i, (a, b)) in v.iter().zip(t).enumerate() {
        if (*a as f64 - b).abs() > 1.5 {
          return Err(format!("LinearizationTable[{i}] = {a}, expected {b}"));
        }
      }
    }
    (_, Some(v)) => return Err(format!("LinearizationTable type {}", v.ty())),
  }
  Ok(d)
}

fn near(got: Option<&V>, exp: &[f64], what: &str) -> Result<(), String> {
  let g = got.ok_or(format!("{what} missing"))?.fs();
  if g.len() != exp.len() || g.iter().zip(exp).any(|(a, b)| (a - b).abs() > 1.02e-4) {
    return Err(format!("{what} is {g:?}, expected {exp:?}"));
  }
  Ok(())
}

const NAMED_M: [(&str, [f64; 9]); 4] = [
  ("XYZ_sRGB_D50", [3.1338561, -1.6168667, -0.4906146, -0.9787684, 1.9161415, 0.0334540, 0.0719453, -0.2289914, 1.4052427]),
  ("XYZ_sRGB_D65", [3.2404542, -1.5371385, -0.4985314, -0.9692660, 1.8760108, 0.0415560, 0.0556434, -0.2040259, 1.0572252]),
  ("XYZ_AdobeRGB_D50", [1.9624274, -0.6105343, -0.3413404, -0.9787684, 1.9161415, 0.0334540, 0.0286869, -0.1406752, 1.3487655]),
  ("XYZ_AdobeRGB_D65", [2.0413690, -0.5649464, -0.3446944, -0.9692660, 1.8760108, 0.0415560, 0.0134474, -0.1183897, 1.0154096]),
];
const ILLU: [(&str, u64); 20] = [
  ("Unknown", 0), ("Daylight", 1), ("Fluorescent", 2), ("Tungsten", 3), ("Flash", 4), ("FineWeather", 9), ("CloudyWeather", 10), ("Shade", 11), ("DaylightFluorescent", 12), ("DaylightWhiteFluorescent", 13),
  ("CoolWhiteFluorescent", 14), ("WhiteFluorescent", 15), ("A", 17), ("B", 18), ("C", 19), ("D55", 20), ("D65", 21), ("D75", 22), ("D50", 23), ("IsoStudioTungsten", 24),
];
const VERS: [(&str, [u8; 4]); 7] =
  [("1.0", [1, 0, 0, 0]), ("1.1", [1, 1, 0, 0]), ("1.2", [1, 2, 0, 0]), ("1.3", [1, 3, 0, 0]), ("1.4", [1, 4, 0, 0]), ("1.5", [1, 5, 0, 0]), ("1.6", [1, 6, 0, 0])];

pub fn run(ctx: &Ctx) {
  images(ctx);
  tables(ctx);
  colour(ctx);
  strings(ctx);
  maps(ctx);
  raws(ctx);
}

fn images(ctx: &Ctx) {
  let n = ctx.pick(8, 24);
  let mut dims: Vec<(usize, usize)> = vec![];
  for w in 1..=n {
    for h in 1..=n {
      dims.push((w, h));
    }
  }
  dims.extend([(255, 3), (256, 2), (257, 5), (3, 255), (2, 256), (5, 257), (511, 2), (513, 2), (300, 260), (1025, 1), (1, 1025)]);
  let mut cases = vec![];
  for (w, h) in dims {
    for depth in [8u8, 16] {
      let px = img(w, h, depth, (w * 100 + h) as u64);
      cases.push(Case {
        label: format!("{w}x{h}x{depth}"),
        files: vec![("a.png".into(), png::rgb(w, h, depth, &px))],
        opts: vec![],
        check: Box::new(move |o, d| is_rgb(need(o, d)?, w, h, depth, &px, None).map(|_| ())),
      });
    }
  }
  exec(ctx, "images", cases);
}

fn tables(ctx: &Ctx) {
  let mut t: Vec<(String, Option<Vec<f64>>)> = vec![];
  for (bits, max) in [("8bit", 255usize), ("16bit", 65535)] {
    for inv in [false, true] {
      let sfx = if inv { "_invert" } else { "" };
      let x = |i: usize| i as f64 / max as f64;
      t.push((
        format!("{bits}_sRGB{sfx}"),
        Some(
          (0..=max)
            .map(x)
            .map(|v| {
              65535.0
                * if inv {
                  if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055f64).powf(2.4) }
                } else if v <= 0.0031308 {
                  v * 12.92
                } else {
                  1.055 * v.powf(1.0 / 2.4) - 0.055
                }
            })
            .collect(),
        ),
      ));
      for g in [1.8f64, 2.0, 2.2, 2.4] {
        t.push((format!("{bits}_gamma{g:.1}{sfx}"), Some((0..=max).map(x).map(|v| 65535.0 * v.powf(if inv { g } else { 1.0 / g })).collect())));
      }
    }
  }
  let ramp: Vec<u16> = (0..256).map(|i| (i * 257) as u16).collect();
  for c in [vec![0u16], vec![65535], vec![7, 3], vec![0, 65535], vec![1, 2, 3], ramp.clone(), (0..255).map(|x| x as u16).collect(), (0..1000).map(|x| 65535 - x as u16).collect()] {
    t.push((c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), Some(c.iter().map(|x| *x as f64).collect())));
  }
  t.push((" 10 , 20,30 ".into(), Some(vec![10.0, 20.0, 30.0])));
  for bad in ["1,,2", "65536", "-1", "x", "", "1.5"] {
    t.push((bad.into(), None));
  }
  let mut cases = vec![];
  for (name, exp) in t {
    for depth in [8u8, 16] {
      let px = img(5, 4, depth, 3);
      let exp = exp.clone();
      cases.push(Case {
        label: format!("{:.40}/{depth}", name),
        files: vec![("a.png".into(), png::rgb(5, 4, depth, &px))],
        opts: vec![format!("--linearization={name}")],
        check: Box::new(move |o, d| match &exp {
          Some(e) => {
            let d = is_rgb(need(o, d)?, 5, 4, depth, &px, Some(e))?;
            // custom tables are stored exactly
            if e.len() < 65536 && e.iter().all(|x| x.fract() == 0.0) && d.raw.get(50712).unwrap().fs() != *e {
              return Err("custom table altered".into());
            }
            Ok(())
          }
          None => {
            if o.ok() {
              Err("invalid table accepted".into())
            } else {
              Ok(())
            }
          }
        }),
      });
    }
  }
  exec(ctx, "tables", cases);
}

fn colour(ctx: &Ctx) {
  let mut ms: Vec<(String, Vec<f64>)> = NAMED_M.iter().map(|(n, m)| (n.to_string(), m.to_vec())).collect();
  for c in [
    vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
    vec![-0.5, 0.25, 1.5, 0.0001, -0.0001, 0.9999, 2.0, -2.0, 3.1234],
    vec![0.6722, -0.0635, -0.0963, -0.4287, 1.246, 0.2028, -0.0908, 0.2162, 0.5668],
    vec![100.0, -100.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.5],
  ] {
    ms.push((c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), c));
  }
  ms.push(("1, 0, 0, 0, 1, 0, 0, 0, 1".into(), vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]));
  let px = img(4, 4, 8, 1);
  let file = png::rgb(4, 4, 8, &px);
  let tag_m = [50721u16, 50722, 52531];
  let tag_i = [50778u16, 50779, 52529];
  // every slot set (subset of {1,2,3}) x version, with matrix/illuminant rotating through all values
  let mut cases = vec![];
  let mut add = |label: String, slots: Vec<(usize, usize, usize)>, ver: usize| {
    let mut opts = vec![format!("--dng-backward-version={}", VERS[ver].0)];
    for (s, m, i) in &slots {
      opts.push(format!("--matrix{}={}", s + 1, ms[*m].0));
      opts.push(format!("--illuminant{}={}", s + 1, ILLU[*i].0));
    }
    let (px, ms) = (px.clone(), ms.clone());
    cases.push(Case {
      label,
      files: vec![("a.png".into(), file.clone())],
      opts,
      check: Box::new(move |o, d| {
        let d = is_rgb(need(o, d)?, 4, 4, 8, &px, None)?;
        if d.root.get(50707).map(|v| v.us()) != Some(VERS[ver].1.iter().map(|x| *x as u64).collect()) {
          return Err(format!("DNGBackwardVersion {:?}", d.root.get(50707)));
        }
        for s in 0..3 {
          match slots.iter().find(|x| x.0 == s) {
            Some((_, m, i)) if s < 2 || ver == 6 => {
              near(d.root.get(tag_m[s]), &ms[*m].1, &format!("ColorMatrix{}", s + 1))?;
              if d.root.u(tag_i[s]) != Some(ILLU[*i].1) {
                return Err(format!("CalibrationIlluminant{} {:?}, expected {}", s + 1, d.root.get(tag_i[s]), ILLU[*i].1));
              }
            }
            _ => {
              if d.root.get(tag_m[s]).is_some() || d.root.get(tag_i[s]).is_some() {
                return Err(format!("unexpected matrix {}", s + 1));
              }
            }
          }
        }
        Ok(())
      }),
    });
  };
  for set in 0..8usize {
    for ver in 0..7 {
      let slots: Vec<_> = (0..3).filter(|s| set >> s & 1 == 1).map(|s| (s, (s * 3 + ver) % 9, (s * 7 + ver) % 20)).collect();
      add(format!("set{set}v{ver}"), slots, ver);
    }
  }
  let all_pairs = !ctx.quick();
  for s in 0..3 {
    for m in 0..9 {
      for i in 0..20 {
        if all_pairs || m == i % 9 || i == (m * 2 + s) % 20 {
          add(format!("slot{s}m{m}i{i}"), vec![(s, m, i)], 6);
        }
      }
    }
  }
  let px1 = px.clone();
  // missing illuminant
  for s in 0..3usize {
    cases.push(Case {
      label: format!("noillu{s}"),
      files: vec![("a.png".into(), file.clone())],
      opts: vec!["--dng-backward-version=1.6".into(), format!("--matrix{}=XYZ_sRGB_D65", s + 1)],
      check: Box::new(|o, _| if o.ok() { Err("matrix without illuminant accepted".into()) } else { Ok(()) }),
    });
  }
  for bad in ["1,2,x", "", "1,,2"] {
    cases.push(Case {
      label: format!("badm{bad}"),
      files: vec![("a.png".into(), file.clone())],
      opts: vec![format!("--matrix1={bad}"), "--illuminant1=D65".into()],
      check: Box::new(|o, _| if o.ok() { Err("invalid matrix accepted".into()) } else { Ok(()) }),
    });
  }
  // white balance
  let wb: Vec<(String, Option<Vec<f64>>)> = vec![
    ("--wb=1,1,1".into(), Some(vec![1.0, 1.0, 1.0])),
    ("--wb=0.5,1.0,0.75".into(), Some(vec![0.5, 1.0, 0.75])),
    ("--wb=0.4123, 1, 0.0001".into(), Some(vec![0.4123, 1.0, 0.0001])),
    ("--wb=2,1,9.5".into(), Some(vec![2.0, 1.0, 9.5])),
    ("--wb=1,x,1".into(), None),
    ("--wb=1,,1".into(), None),
  ];
  for (o, e) in wb {
    let px = px1.clone();
    cases.push(Case {
      label: o.clone(),
      files: vec![("a.png".into(), file.clone())],
      opts: vec![o],
      check: Box::new(move |o, d| match &e {
        None => if o.ok() { Err("invalid white balance accepted".into()) } else { Ok(()) },
        Some(e) => {
          let d = is_rgb(need(o, d)?, 4, 4, 8, &px, None)?;
          if d.root.get(50729).is_some() {
            return Err("both AsShotNeutral and AsShotWhiteXY".into());
          }
          near(d.root.get(50728), e, "AsShotNeutral")
        }
      }),
    });
  }
  let xy: Vec<(String, Option<Vec<f64>>)> = vec![
    ("--white-xy=D50".into(), Some(vec![0.34567, 0.3585])),
    ("--white-xy=D65".into(), Some(vec![0.31271, 0.32902])),
    ("--white-xy=0.25,0.75".into(), Some(vec![0.25, 0.75])),
    ("--white-xy= 0.3127 , 0.329".into(), Some(vec![0.3127, 0.329])),
    ("--white-xy=0.3".into(), None),
    ("--white-xy=0.3,0.3,0.3".into(), None),
    ("--white-xy=D40".into(), None),
  ];
  for (o, e) in xy {
    let px = px1.clone();
    cases.push(Case {
      label: o.clone(),
      files: vec![("a.png".into(), file.clone())],
      opts: vec![o],
      check: Box::new(move |o, d| match &e {
        None => if o.ok() { Err("invalid white point accepted".into()) } else { Ok(()) },
        Some(e) => {
          let d = is_rgb(need(o, d)?, 4, 4, 8, &px, None)?;
          if d.root.get(50728).is_some() {
            return Err("both AsShotNeutral and AsShotWhiteXY".into());
          }
          near(d.root.get(50729), e, "AsShotWhiteXY")
        }
      }),
    });
  }
  cases.push(Case {
    label: "wb+xy".into(),
    files: vec![("a.png".into(), file.clone())],
    opts: vec!["--wb=1,1,1".into(), "--white-xy=D50".into()],
    check: Box::new(|o, _| if o.ok() { Err("contradicting white balance options accepted".into()) } else { Ok(()) }),
  });
  exec(ctx, "colour", cases);
}

fn strings(ctx: &Ctx) {
  // all subsets of the four text options, with values of length 1..6 around the inline limit, on RGB and on a raw input with own values
  let vals = ["A", "AB", "ABC", "ABCD", "Ab cd", "Größe"];
  let tags = [("artist", 315u16), ("make", 271), ("model", 272), ("unique-camera-model", 50708)];
  let px = img(3, 3, 16, 9);
  let rgb = png::rgb(3, 3, 16, &px);
  let mut n = dng_node(&Spec::new(8, 6, Kind::Cfa("RGGB".into()), 12, 2), &Layout::default());
  n.set(315, ascii("Input Artist"));
  n.set(33432, ascii("Input Copyright"));
  let raw = build(&[n], false, false, 0);
  let mut cases = vec![];
  for set in 0..16usize {
    for (v, _) in vals.iter().enumerate() {
      for cr in 0..3 {
        for from_raw in [false, true] {
          let mut opts = vec![];
          for (k, (o, _)) in tags.iter().enumerate() {
            if set >> k & 1 == 1 {
              opts.push(format!("--{o}={}", vals[(v + k) % 6]));
            }
          }
          if cr > 0 {
            opts.push(format!("--colorimetric-reference={}", ["", "scene", "output"][cr]));
          }
          cases.push(Case {
            label: format!("{set}/{v}/{cr}/{from_raw}"),
            files: vec![(if from_raw { "a.dng" } else { "a.png" }.into(), if from_raw { raw.clone() } else { rgb.clone() })],
            opts,
            check: Box::new(move |o, d| {
              let d = rd::read(need(o, d)?)?;
              for (k, (o, t)) in tags.iter().enumerate() {
                if set >> k & 1 == 1 {
                  let got = d.root.get(*t).and_then(|v| v.s());
                  if got.as_deref() != Some(vals[(v + k) % 6]) {
                    return Err(format!("--{o} {:?} stored as {got:?}", vals[(v + k) % 6]));
                  }
                }
              }
              if from_raw && set & 1 == 0 && d.root.get(315).and_then(|v| v.s()).as_deref() != Some("Input Artist") {
                return Err("artist of the exif input lost".into());
              }
              if from_raw && d.root.get(33432).and_then(|v| v.s()).as_deref() != Some("Input Copyright") {
                return Err("copyright of the exif input lost".into());
              }
              if d.root.u(50879) != Some((cr == 2) as u64) {
                return Err(format!("ColorimetricReference {:?}", d.root.get(50879)));
              }
              Ok(())
            }),
          });
        }
      }
    }
  }
  exec(ctx, "strings", cases);
}

fn solid(w: usize, h: usize, c: [u16; 3]) -> Vec<u8> {
  png::rgb(w, h, 8, &c.repeat(w * h))
}

fn maps(ctx: &Ctx) {
  // four solid inputs; every assignment of raw/preview/thumbnail to an input, to a missing index or to nothing
  let cols: [[u16; 3]; 4] = [[200, 10, 10], [10, 200, 10], [10, 10, 200], [120, 120, 120]];
  let dims = [(8usize, 6usize), (10, 6), (8, 10), (12, 12)];
  let files: Vec<(String, Vec<u8>)> = (0..4).map(|i| (format!("{i}.png"), solid(dims[i].0, dims[i].1, cols[i]))).collect();
  let mut cases = vec![];
  let close = |a: &[u32], c: &[u16; 3], tol: i64| a.chunks(3).all(|p| (0..3).all(|k| (p[k] as i64 - c[k] as i64).abs() <= tol));
  for i in 0..6usize * 6 * 6 {
    // 0..3 input, 4 out of range, 5 absent
    let a = digits(i, &[6, 6, 6]);
    if a.iter().all(|x| *x == 5) {
      continue;
    }
    let mut opts = vec![];
    for order in 0..3 {
      // keep the option order different from the usage order
      let k = (order + i) % 3;
      if a[k] < 5 {
        opts.push("--map".to_string());
        opts.push(format!("{}:{}", a[k], ["raw", "preview", "thumbnail"][k]));
      }
    }
    let (a2, close) = (a.clone(), close);
    cases.push(Case {
      label: format!("{a:?}"),
      files: files.clone(),
      opts,
      check: Box::new(move |o, d| {
        let a = &a2;
        if a.contains(&4) {
          return if o.ok() { Err("map index without input accepted".into()) } else { Ok(()) };
        }
        let b = need(o, d)?;
        let mut t = Tiff::open(b)?;
        let root = t.chain()?[0].clone();
        let mut subs = vec![];
        if let Some(v) = root.get(330) {
          for o in v.us() {
            subs.push(t.dir(o as u32)?);
          }
        }
        let raws: Vec<&Dir> = subs.iter().filter(|d| d.u(254) == Some(0)).collect();
        let prevs: Vec<&Dir> = subs.iter().filter(|d| d.u(254) == Some(1)).collect();
        if raws.len() != (a[0] < 5) as usize || prevs.len() != (a[1] < 5) as usize || subs.len() != raws.len() + prevs.len() {
          return Err(format!("{} raw images, {} previews in {} sub directories", raws.len(), prevs.len(), subs.len()));
        }
        let dim = |d: &Dir| (d.u(256).unwrap_or(0) as usize, d.u(257).unwrap_or(0) as usize);
        if a[0] < 5 {
          let d = rd::read(b)?;
          let rd::Px::U(v) = &d.px else { return Err("float".into()) };
          if (d.width, d.height) != dims[a[0]] || !close(v, &cols[a[0]], 0) {
            return Err("raw image is not the one mapped".into());
          }
        }
        if a[1] < 5 {
          let p = prevs[0];
          let (o, n) = (p.u(273).ok_or("no preview data")? as usize, p.u(279).ok_or("no preview size")? as usize);
          let j = image::load_from_memory_with_format(b.get(o..o + n).ok_or("preview outside file")?, image::ImageFormat::Jpeg).map_err(|e| format!("preview: {e}"))?.to_rgb8();
          let px: Vec<u32> = j.as_raw().iter().map(|x| *x as u32).collect();
          if dim(p) != dims[a[1]] || (j.width() as usize, j.height() as usize) != dims[a[1]] || !close(&px, &cols[a[1]], 12) {
            return Err("preview is not the image mapped".into());
          }
        }
        match (a[2] < 5, root.get(256)) {
          (true, None) => return Err("thumbnail missing".into()),
          (false, Some(_)) => return Err("thumbnail without map".into()),
          (true, _) => {
            let (w, h) = dim(&root);
            let rd::Px::U(px) = rd::pixels_of(&t, &root, w, h, 3, root.u(259).unwrap_or(0), 8, 1)? else { return Err("float".into()) };
            if root.u(254) != Some(1) || !close(&px, &cols[a[2]], 0) {
              return Err("thumbnail is not the image mapped".into());
            }
          }
          _ => {}
        }
        Ok(())
      }),
    });
  }
  // exif and xmp sources
  let rgb = png::rgb(4, 4, 8, &img(4, 4, 8, 1));
  let src = |iso: u16, xmp: &str| {
    let mut n = dng_node(&Spec::new(8, 6, Kind::Cfa("RGGB".into()), 12, 2), &Layout::default());
    n = n.item(34665, Item::Dirs(vec![Node::new().v(34855, V::Short(vec![iso]))], 4));
    n.set(700, V::Byte(xmp.as_bytes().to_vec()));
    build(&[n], false, false, 0)
  };
  let (a, b) = (src(100, "<x:a/>"), src(200, "<x:bb/>"));
  for i in 0..9usize {
    let e = digits(i, &[3, 3]);
    let mut opts = vec!["--map".to_string(), "0:raw".into()];
    if e[0] < 2 {
      opts.extend(["--map".into(), format!("{}:exif", e[0] + 1)]);
    }
    if e[1] < 2 {
      opts.extend(["--map".into(), format!("{}:xmp", e[1] + 1)]);
    }
    cases.push(Case {
      label: format!("meta{e:?}"),
      files: vec![("0.png".into(), rgb.clone()), ("1.dng".into(), a.clone()), ("2.dng".into(), b.clone())],
      opts,
      check: Box::new(move |o, d| {
        let d = rd::read(need(o, d)?)?;
        let iso = d.exif.as_ref().and_then(|x| x.u(34855));
        if iso != [Some(100), Some(200), None][e[0]] {
          return Err(format!("ISO {iso:?} from exif source {}", e[0]));
        }
        let xmp = d.root.get(700).map(|v| v.us().iter().map(|x| *x as u8).collect::<Vec<_>>());
        if xmp.as_deref() != [Some(&b"<x:a/>"[..]), Some(&b"<x:bb/>"[..]), None][e[1]] {
          return Err(format!("XMP {:?} from source {}", xmp, e[1]));
        }
        Ok(())
      }),
    });
  }
  for bad in ["0", "0:", ":raw", "x:raw", "0:foo", "-1:raw", "0:raw:1"] {
    cases.push(Case {
      label: format!("bad {bad}"),
      files: vec![("0.png".into(), rgb.clone())],
      opts: vec![format!("--map={bad}")],
      check: Box::new(|o, _| if o.ok() { Err("invalid map accepted".into()) } else { Ok(()) }),
    });
  }
  exec(ctx, "maps", cases);
}

fn raws(ctx: &Ctx) {
  let kinds = [Kind::Cfa("RGGB".into()), Kind::Cfa("GBRG".into()), Kind::Linear(3), Kind::Gray];
  let n = ctx.pick(6, 14);
  let mut cases = vec![];
  for k in kinds {
    for w in [2, 3, 5, 8, 16, 33].into_iter().take(n) {
      for h in [2, 3, 4, 9, 17] {
        for bps in [8usize, 12, 16] {
          let spec = Spec::new(w, h, k.clone(), bps, (w * h) as u64);
          let bytes = dng_file(&spec, &Layout { be: (w + h) % 2 == 1, ..Default::default() });
          cases.push(Case {
            label: format!("{k:?}/{w}x{h}x{bps}"),
            files: vec![("a.dng".into(), bytes)],
            // previews of such a source do not exist; only the raw image is asked for
            opts: vec!["--map".into(), "0:raw".into(), "--map".into(), "0:exif".into()],
            check: Box::new(move |o, d| {
              let b = need(o, d)?;
              let d = rd::read(b)?;
              cmp_pixels(&spec, &d, true)?;
              let _ = CropMode::Best;
              Ok(())
            }),
          });
        }
      }
    }
  }
  exec(ctx, "raws", cases);
}
