//! C27: every command line option takes effect exactly as documented, alone and in combination.
use super::c18;
use super::clikit::read_developed;
use super::dngcmp::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::dng as rd;
use crate::refs::tiff::*;
use rawler::dng::CropMode;
use rawler::imgop::develop::ProcessingStep;
use serde_json::json;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn level() -> Level {
  Level {
    level: "model_checking",
    rule: "A case is one run of the real dnglab binary with one combination of options on one source; the output must have exactly the effects the options name (compression, predictor, preview, thumbnail, embedded original, artist, areas, file time, image, strip layout) and be otherwise as without them. Non-trivial: at least one option differs from its default.",
    bounds: "convert: the product of compression, predictor, crop, preview, thumbnail, embedding, artist and file time (thorough: the whole product; quick: a covering part of it, see the counter 'option combinations'); process-raw: all combinations of crop, artist and file time on 4 kinds of image x 4 sets of areas; all spellings and positions of the neutral options on 5 commands; all strip settings of the list x image heights around them; all rejected values of the list",
    assumptions: &["developed pixels are compared within 8 of 65535 (white balance and matrices are rounded in the file)", "the time zone is UTC"],
  }
}
const AREAS: [(Option<[usize; 4]>, Option<[usize; 4]>); 4] = [(None, None), (Some([4, 2, 32, 24]), None), (None, Some([8, 4, 20, 16])), (Some([4, 2, 32, 24]), Some([8, 6, 20, 14]))];
/// 2021-03-04 05:06:07 at +02:00
const MTIME: u64 = 1614827167;
fn source(kind: Kind, areas: usize, seed: u64, h: usize) -> (Spec, Vec<u8>) {
  let mut s = Spec::new(40, h, kind, 14, seed);
  (s.active, s.crop) = AREAS[areas];
  // levels below white and a picture with differences
  s.black = vec![(16, 1); s.cpp()];
  let mut n = dng_node(&s, &Layout::default());
  n.set(0x132, ascii("2021:03:04 05:06:07"));
  n.set(0x13b, ascii("Source Artist"));
  n.items.insert(0x8769, Item::Dirs(vec![Node::new().v(0x9010, ascii("+02:00")).v(0x829a, V::Rational(vec![(1, 200)]))], 4));
  let b = build(&[n], false, false, 0);
  (s, b)
}
fn mtime_ok(s: &Scratch, out: &str, keep: bool, start: SystemTime) -> Result<(), String> {
  let m = std::fs::metadata(s.p(out)).and_then(|m| m.modified()).map_err(|e| format!("{out}: {e}"))?;
  if keep && m != UNIX_EPOCH + Duration::from_secs(MTIME) {
    return Err(format!("file time {:?} although the date of the source is to be kept", m.duration_since(UNIX_EPOCH)));
  }
  if !keep && m < start {
    return Err(format!("file time {:?} is not the time of the run", m.duration_since(UNIX_EPOCH)));
  }
  Ok(())
}
/// a flag option: absent, true, false
fn flag<'a>(a: &mut Vec<&'a str>, name: &'a str, v: usize) {
  if v > 0 {
    a.push(name);
    a.push(["true", "false"][v - 1]);
  }
}
/// predictor of a lossless JPEG stream
fn predictor(src: &[u8], d: &Dir) -> Result<u8, String> {
  let o = d.get(273).or(d.get(324)).ok_or("no data")?.u(0).unwrap() as usize;
  let mut p = o + 2;
  loop {
    let m = src.get(p..p + 4).ok_or("JPEG stream cut")?;
    let len = u16::from_be_bytes([m[2], m[3]]) as usize;
    if m[1] == 0xda {
      return Ok(src[p + 5 + 2 * src[p + 4] as usize]);
    }
    p += 2 + len;
  }
}
struct Conv {
  comp: usize,
  pred: usize,
  crop: usize,
  preview: usize,
  thumb: usize,
  embed: usize,
  artist: usize,
  keep: usize,
}
const CROP: [&str; 4] = ["", "best", "activearea", "none"];
fn convert(ctx: &Ctx, i: usize, c: &Conv) {
  let (spec, src) = source(Kind::Cfa("RGGB".into()), 3, 30 + (i % 4) as u64, 28);
  let s = Scratch::new();
  s.write("in.dng", &src);
  let start = SystemTime::now() - Duration::from_secs(2);
  let ps = c.pred.to_string();
  let mut a = vec!["convert"];
  if c.comp > 0 {
    a.extend(["--compression", ["lossless", "uncompressed"][c.comp - 1]]);
  }
  if c.pred > 0 {
    a.extend(["--ljpeg92-predictor", &ps]);
  }
  if c.crop > 0 {
    a.extend(["--crop", CROP[c.crop]]);
  }
  flag(&mut a, "--dng-preview", c.preview);
  flag(&mut a, "--dng-thumbnail", c.thumb);
  flag(&mut a, "--embed-raw", c.embed);
  if c.artist > 0 {
    a.extend(["--artist", "Jane Döe"]);
  }
  flag(&mut a, "--keep-mtime", c.keep);
  // the order of the options does not matter
  if i % 2 == 1 {
    let mut opts: Vec<Vec<&str>> = a[1..].chunks(2).map(|c| c.to_vec()).collect();
    opts.reverse();
    a.truncate(1);
    a.extend(opts.concat());
  }
  a.extend(["in.dng", "out.dng"]);
  let out = Run::new(&s.dir, &a).go();
  ctx.case(fp(&("convert", i)), a.len() > 3);
  let info = || json!({"args": a, "result": out.brief()});
  ctx.sample("convert", info);
  let r = (|| {
    if !out.ok() {
      return Err("run failed".to_string());
    }
    let b = std::fs::read(s.p("out.dng")).map_err(|e| e.to_string())?;
    let d = rd::read(&b)?;
    cmp_pixels(&spec, &d, true)?;
    let crop = [CropMode::Best, CropMode::Best, CropMode::ActiveArea, CropMode::None][c.crop];
    cmp_meta(&spec, &d, crop, false)?;
    let lossless = c.comp < 2;
    if d.compression != if lossless { 7 } else { 1 } {
      return Err(format!("compression {}", d.compression));
    }
    if lossless {
      let p = predictor(&b, &d.raw)?;
      if p as usize != c.pred.max(1) {
        return Err(format!("predictor {p}"));
      }
    }
    let thumb = d.root.u(254) == Some(1);
    if thumb != (c.thumb < 2) {
      return Err(format!("thumbnail present: {thumb}"));
    }
    let previews = d.subs.iter().filter(|x| x.u(254) == Some(1)).count();
    if previews != (c.preview < 2) as usize {
      return Err(format!("{previews} previews"));
    }
    match (d.root.get(50828), c.embed < 2) {
      (None, false) => {
        if d.root.get(50827).is_some() || d.root.get(50973).is_some() {
          return Err("name or digest of an original that is not embedded".into());
        }
      }
      (Some(V::Undefined(x)), true) => {
        if super::c05::ref_restore(x)? != src {
          return Err("the embedded original differs".into());
        }
        if d.root.get(50827).and_then(|n| n.s()).as_deref() != Some("in.dng") {
          return Err("name of the embedded original".into());
        }
      }
      (x, _) => return Err(format!("original embedded: {}", x.is_some())),
    }
    let artist = d.root.get(315).and_then(|x| x.s());
    if artist.as_deref() != Some(if c.artist > 0 { "Jane Döe" } else { "Source Artist" }) {
      return Err(format!("artist {artist:?}"));
    }
    if !d.root.get(305).and_then(|x| x.s()).is_some_and(|x| x.starts_with("DNGLab ")) {
      return Err("software".into());
    }
    mtime_ok(&s, "out.dng", c.keep == 1, start)?;
    if std::fs::read(s.p("in.dng")).ok().as_deref() != Some(&src[..]) {
      return Err("the source changed".into());
    }
    Ok(fp(&(d.compression, thumb, previews, c.crop, artist, b.len())))
  })();
  match r {
    Ok(o) => ctx.outcome(o),
    Err(e) => ctx.fail("convert", format!("{a:?}: {e}"), info()),
  }
}
fn process(ctx: &Ctx) {
  let kinds = [Kind::Cfa("GRBG".into()), Kind::Cfa(XTRANS.into()), Kind::Linear(3), Kind::Gray];
  let r = [kinds.len(), AREAS.len(), 4, 2, 3];
  ctx.par("process-raw", space(&r), |i| {
    let d = digits(i, &r);
    if ctx.quick() && d[4] > 0 && d[0] > 1 {
      return;
    }
    let (spec, src) = source(kinds[d[0]].clone(), d[1], 41 + 2 * (i % 2) as u64, 28);
    let s = Scratch::new();
    s.write("in.dng", &src);
    let start = SystemTime::now() - Duration::from_secs(2);
    let mut a = vec!["process-raw"];
    if d[2] > 0 {
      a.extend(["--crop", CROP[d[2]]]);
    }
    if d[3] > 0 {
      a.extend(["--artist", "Jane Döe"]);
    }
    flag(&mut a, "--keep-mtime", d[4]);
    a.extend(["in.dng", "out.tif"]);
    let out = Run::new(&s.dir, &a).go();
    ctx.case(fp(&("process", i)), a.len() > 3);
    let info = || json!({"args": a, "image": format!("{:?}", spec.kind), "active": spec.active, "crop": spec.crop, "result": out.brief()});
    ctx.sample("process-raw", info);
    let r = (|| {
      if !out.ok() {
        return Err("run failed".to_string());
      }
      let b = std::fs::read(s.p("out.tif")).map_err(|e| e.to_string())?;
      let im = read_developed(&b)?;
      let mut sp = spec.clone();
      let mut steps = c18::ALL.to_vec();
      match d[2] {
        2 => sp.crop = None,
        3 => steps.retain(|x| !matches!(x, ProcessingStep::CropActiveArea | ProcessingStep::CropDefault)),
        _ => {}
      }
      let w = c18::want(&sp, &steps, None);
      if (im.w, im.h, im.cpp) != (w.w, w.h, w.n) {
        return Err(format!("{}x{}x{} for {}x{}x{}", im.w, im.h, im.cpp, w.w, w.h, w.n));
      }
      for (k, (g, e)) in im.px.iter().zip(&w.v).enumerate() {
        let e = (e * 65535.0).clamp(0.0, 65535.0);
        if !w.edge[k] && (*g as f64 - e).abs() > 8.0 {
          return Err(format!("value {k}: {g} for {e}"));
        }
      }
      let artist = im.root.get(315).and_then(|x| x.s());
      if artist.as_deref() != Some(if d[3] > 0 { "Jane Döe" } else { "Source Artist" }) {
        return Err(format!("artist {artist:?}"));
      }
      mtime_ok(&s, "out.tif", d[4] == 1, start)?;
      Ok(fp(&(im.w, im.h, im.px)))
    })();
    match r {
      Ok(o) => ctx.outcome(o),
      Err(e) => ctx.fail("process-raw", format!("{a:?} on {:?} active {:?} crop {:?}: {e}", spec.kind, spec.active, spec.crop), info()),
    }
  });
}
/// logging and verbosity change no output
fn neutral(ctx: &Ctx) {
  let (_, src) = source(Kind::Cfa("RGGB".into()), 3, 33, 28);
  let emb = super::clikit::dng_with_original(7, "orig.NEF", super::clikit::Health::Good);
  let cmds: [(&str, Vec<&str>, &str); 7] = [
    ("convert", vec!["in.dng", "out/o.dng"], "out/o.dng"),
    ("process-raw", vec!["in.dng", "out/o.tif"], "out/o.tif"),
    ("extract", vec!["emb.dng", "out"], "out/orig.NEF"),
    ("makedng", vec!["-i", "in.dng", "-o", "out/o.dng"], "out/o.dng"),
    ("analyze", vec!["--raw-pixel", "in.dng"], ""),
    ("analyze", vec!["--meta", "in.dng"], ""),
    ("analyze", vec!["--srgb", "in.dng"], ""),
  ];
  let go = |k: usize, extra: &[&str], before: bool| {
    let (cmd, args, file) = &cmds[k];
    let s = Scratch::new();
    s.write("in.dng", &src);
    s.write("emb.dng", &emb);
    s.mkdir("out");
    let mut a: Vec<&str> = vec![];
    if before {
      a.extend(extra);
    }
    a.push(cmd);
    if !before {
      a.extend(extra);
    }
    a.extend(args);
    let out = Run::new(&s.dir, &a).go();
    let f = if file.is_empty() { out.stdout.clone() } else { std::fs::read(s.p(file)).map(|b| super::c13::mask_date(&b)).unwrap_or_default() };
    (out.ok(), f, format!("{a:?}"), out)
  };
  let base: Vec<_> = (0..cmds.len()).map(|k| go(k, &[], true)).collect();
  for b in &base {
    if !b.0 || b.1.is_empty() {
      ctx.fail("neutral", format!("{}: run failed", b.2), json!({"result": b.3.brief()}));
    }
  }
  let opts: Vec<Vec<&str>> = vec![vec!["-v"], vec!["-d", "error"], vec!["-d", "warn"], vec!["-d", "info"], vec!["--loglevel", "debug"], vec!["--loglevel=trace"], vec!["-v", "-d", "trace"]];
  let r = [cmds.len(), opts.len(), 2];
  ctx.par("neutral options", space(&r), |i| {
    let d = digits(i, &r);
    let g = go(d[0], &opts[d[1]], d[2] == 0);
    ctx.case(fp(&("neutral", i)), true);
    ctx.outcome(fp(&g.1));
    ctx.sample("neutral", || json!({"args": g.2}));
    if (g.0, &g.1) != (base[d[0]].0, &base[d[0]].1) {
      ctx.fail("neutral", format!("{} gives another output than without the option", g.2), json!({"result": g.3.brief()}));
    }
  });
}
/// strip layout settings
fn strips(ctx: &Ctx) {
  let rows = ["", "1", "3", "7", "28", "1000", "x"];
  let thr = ["", "0", "5", "28", "1000", "-1"];
  let heights = [1usize, 2, 7, 28, 29];
  let r = [rows.len(), thr.len(), heights.len(), 4];
  ctx.par("strips", space(&r), |i| {
    let d = digits(i, &r);
    if ctx.quick() && d[3] > 1 && d[2] % 2 == 1 {
      return;
    }
    let kind = if d[3] < 2 { Kind::Cfa("RGGB".into()) } else { Kind::Linear(3) };
    if heights[d[2]] == 1 && d[3] < 2 {
      return;
    }
    let (spec, src) = source(kind, 0, 33 + (i % 2) as u64, heights[d[2]]);
    let s = Scratch::new();
    s.write("in.dng", &src);
    let a = ["convert", "--dng-preview", "false", "--dng-thumbnail", "false", "--compression", ["lossless", "uncompressed"][d[3] % 2], "in.dng", "out.dng"];
    let mut run = Run::new(&s.dir, &a);
    if d[0] > 0 {
      run = run.env("RAWLER_DNG_ROWS_PER_STRIP", rows[d[0]]);
    }
    if d[1] > 0 {
      run = run.env("RAWLER_DNG_MULTISTRIP_THRESHOLD", thr[d[1]]);
    }
    let out = run.go();
    ctx.case(fp(&("strips", i)), d[0] + d[1] > 0);
    let info = || json!({"args": a, "rows": rows[d[0]], "threshold": thr[d[1]], "height": heights[d[2]], "result": out.brief()});
    ctx.sample("strips", info);
    let r = (|| {
      if !out.ok() {
        return Err("run failed".to_string());
      }
      let b = std::fs::read(s.p("out.dng")).map_err(|e| e.to_string())?;
      let x = rd::read(&b)?;
      cmp_pixels(&spec, &x, true)?;
      cmp_meta(&spec, &x, CropMode::Best, false)?;
      cmp_own_pixels(&spec, &own_decode(&b)?, true)?;
      Ok(fp(&(x.raw.u(278), x.raw.get(273).map(|v| v.count()))))
    })();
    match r {
      Ok(o) => ctx.outcome(o),
      Err(e) => ctx.fail("strips", format!("{a:?}, rows per strip {:?}, threshold {:?}, height {}: {e}", rows[d[0]], thr[d[1]], heights[d[2]]), info()),
    }
  });
}
/// values that are not allowed: an error before anything is written
fn rejected(ctx: &Ctx) {
  let (_, src) = source(Kind::Cfa("RGGB".into()), 3, 33, 28);
  let bad: Vec<(&str, Vec<&str>)> = vec![
    ("convert", vec!["--compression", "lossy"]),
    ("convert", vec!["--compression", "Lossless "]),
    ("convert", vec!["--ljpeg92-predictor", "0"]),
    ("convert", vec!["--ljpeg92-predictor", "8"]),
    ("convert", vec!["--ljpeg92-predictor", "256"]),
    ("convert", vec!["--ljpeg92-predictor", "-1"]),
    ("convert", vec!["--crop", "all"]),
    ("convert", vec!["--dng-preview", "maybe"]),
    ("convert", vec!["--dng-thumbnail", "2"]),
    ("convert", vec!["--embed-raw", "yess"]),
    ("convert", vec!["--keep-mtime", "x"]),
    ("convert", vec!["--artist", ""]),
    ("convert", vec!["--jobs", "x"]),
    ("convert", vec!["--jobs", "-2"]),
    ("convert", vec!["--nonsense"]),
    ("convert", vec!["more.dng"]),
    ("process-raw", vec!["--crop", "all"]),
    ("process-raw", vec!["--artist", ""]),
    ("process-raw", vec!["--keep-mtime", "x"]),
    ("process-raw", vec!["--compression", "lossless"]),
  ];
  ctx.par("rejected values", bad.len() * 2, |i| {
    let (cmd, o) = &bad[i / 2];
    let s = Scratch::new();
    s.write("in.dng", &src);
    s.write("out.dng", b"keep");
    let pre = s.snap("");
    let mut a = vec![*cmd];
    if i % 2 == 1 {
      a.push("-f");
    }
    a.extend(o);
    a.extend(["in.dng", if *cmd == "convert" { "out.dng" } else { "out.tif" }]);
    let out = Run::new(&s.dir, &a).go();
    ctx.case(fp(&("rejected", i)), true);
    ctx.outcome(fp(&(out.code, &out.stderr)));
    let info = || json!({"args": a, "result": out.brief()});
    ctx.sample("rejected", info);
    if out.code == Some(0) || out.signal.is_some() || s.snap("") != pre {
      ctx.fail("rejected", format!("{a:?}: exit {:?}, files {}", out.code, if s.snap("") == pre { "unchanged" } else { "changed" }), info());
    }
  });
}
pub fn run(ctx: &Ctx) {
  // comp x pred: lossless in 3 spellings with every predictor
  let r = [3, 8, 4, 3, 3, 3, 2, 3];
  let all: Vec<usize> = (0..space(&r))
    .filter(|i| {
      let d = digits(*i, &r);
      if d[0] == 2 && d[1] > 1 {
        return false;
      }
      if ctx.quick() {
        // explicit defaults only one at a time; every pair of values
        let expl = (d[0] == 1) as usize + (d[2] == 1) as usize + [3, 4, 5].iter().filter(|k| d[**k] == 1).count() + (d[7] == 2) as usize + (d[1] == 1) as usize;
        let changed = (d[0] == 2) as usize + (d[1] > 1) as usize + (d[2] > 1) as usize + [3, 4, 5].iter().filter(|k| d[**k] == 2).count() + (d[6] == 1) as usize + (d[7] == 1) as usize;
        expl == 0 && (changed <= 2 || d[1] < 2 && (changed <= 3 || i % 3 == 0)) || expl == 1 && changed <= 1
      } else {
        [d[0] == 1, d[2] == 1, d[7] == 2, d[1] == 1].iter().filter(|x| **x).count() + [3, 4, 5].iter().filter(|k| d[**k] == 1).count() <= 1
      }
    })
    .collect();
  ctx.count("option combinations", all.len() as u64);
  ctx.par("convert", all.len(), |k| {
    let d = digits(all[k], &r);
    convert(ctx, all[k], &Conv { comp: d[0], pred: d[1], crop: d[2], preview: d[3], thumb: d[4], embed: d[5], artist: d[6], keep: d[7] });
  });
  process(ctx);
  neutral(ctx);
  strips(ctx);
  rejected(ctx);
}
