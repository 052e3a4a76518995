//! C18: development of a raw image: levels, colour reconstruction, areas, colour, tone and the written TIFF.
use super::clikit;
use crate::Level;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::develop as rd;
use crate::refs::develop::R;
use rawler::cfa::PlaneColor;
use rawler::imgop::develop::{Intermediate, ProcessingStep, RawDevelop};
use rawler::imgop::sensor::Demosaic;
use rawler::imgop::sensor::bayer::bilinear::Bilinear4Channel;
use rawler::imgop::sensor::bayer::ppg::PPGDemosaic;
use rawler::imgop::sensor::bayer::superpixel::{Superpixel3Channel, Superpixel4Channel};
use rawler::imgop::sensor::xtrans::bilinear::XTransBilinearDemosaic;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::pixarray::{Color2D, PixF32};
use rawler::rawimage::{CFAConfig, RawPhotometricInterpretation};
use rawler::{CFA, RawImage};
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one raw image (samples, colour pattern, levels, areas, colour matrix, white balance) with a set of development steps, or one call of a colour reconstruction on a region; the result must have the size and, at every pixel, the values of an independent reference development. Non-trivial: the image has at least two different samples.",
    bounds: "levels: all sizes 1..5 x 1..5, 7 image kinds, 7 level patterns; colour reconstruction: all Bayer patterns and shifts of X-Trans, all regions of small images, sizes 1..12, single and double impulses, all 3-valued neighbourhoods of the green step; all 256 step sets; area pairs of the list in all image kinds; sizes around the strip height and 65536; rotation widths of all small turned sensors",
    assumptions: &["values are compared within 1e-5 (float) or 2 of 65535 (TIFF); results at the jump of the highlight handling are not compared", "images with a D65 colour matrix or none"],
  }
}

const BAYER: [&str; 4] = ["RGGB", "BGGR", "GRBG", "GBRG"];
pub const ALL: [ProcessingStep; 8] = [
  ProcessingStep::Rescale,
  ProcessingStep::Demosaic,
  ProcessingStep::FujiRotate,
  ProcessingStep::CropActiveArea,
  ProcessingStep::WhiteBalance,
  ProcessingStep::Calibrate,
  ProcessingStep::CropDefault,
  ProcessingStep::SRgb,
];

/// Colour planes of a pattern string, and the order of the planes.
fn planes(p: &str) -> (Vec<usize>, String) {
  let order = if p.contains('C') { "RGBC" } else if p.contains('M') { "CMYG" } else { "RGB" };
  let order = if p.contains('C') && p.contains('M') { "GMCY" } else { order };
  (p.chars().map(|c| order.find(c).unwrap()).collect(), order.to_string())
}

fn close(a: f32, b: f64) -> bool {
  (a as f64 - b).abs() <= 1e-5 + 1e-5 * b.abs() || (a as f64 == b)
}
fn diff<const N: usize>(got: &Color2D<f32, N>, w: usize, h: usize, want: &rd::Px<N>) -> Result<(), String> {
  if (got.width, got.height) != (w, h) || got.data.len() != want.len() {
    return Err(format!("{}x{} for {w}x{h}", got.width, got.height));
  }
  for (i, (g, e)) in got.data.iter().zip(want).enumerate() {
    for c in 0..N {
      if !close(g[c], e[c]) {
        return Err(format!("row {} column {} channel {c}: {} for {}", i / w, i % w, g[c], e[c]));
      }
    }
  }
  Ok(())
}

/// The result a set of steps must give.
pub struct Want {
  pub w: usize,
  pub h: usize,
  pub n: usize,
  pub v: Vec<f64>,
  pub edge: Vec<bool>,
  /// largest input value; rounding errors grow with it
  pub top: f64,
}

pub fn want(s: &Spec, steps: &[ProcessingStep], fuji: Option<usize>) -> Want {
  use ProcessingStep::*;
  let on = |p: ProcessingStep| steps.contains(&p);
  let cpp = s.cpp();
  let raw: Vec<f64> = match &s.data {
    Data::U(d) => d.iter().map(|v| *v as f64).collect(),
    Data::F(d) => d.iter().map(|v| *v as f64).collect(),
  };
  let v: Vec<f64> = raw
    .iter()
    .enumerate()
    .map(|(i, v)| {
      if !on(Rescale) {
        return *v;
      }
      let b = s.black_at(i / cpp % s.w, i / cpp / s.w, i % cpp);
      let w = *s.white.get(i % cpp).unwrap_or(&s.white[0]) as f64;
      (v - b).max(0.0) / (w - b)
    })
    .collect();
  let full = R { x: 0, y: 0, w: s.w, h: s.h };
  let active = s.active.map(|a| R { x: a[0], y: a[1], w: a[2], h: a[3] });
  let mut area = full;
  let mut n = cpp;
  let mut px: Vec<Vec<f64>> = v.chunks(cpp).map(|c| c.to_vec()).collect();
  if let (Kind::Cfa(p), true) = (&s.kind, on(Demosaic)) {
    if on(CropActiveArea) {
      area = active.unwrap_or(full);
    }
    let (pl, order) = planes(p);
    let pl = rd::shifted(&pl, area.x, area.y);
    let c = rd::cut(&v, s.w, area);
    px = if order.len() == 4 {
      n = 4;
      rd::bilinear4(&c, area.w, area.h, &pl).iter().map(|p| p.to_vec()).collect()
    } else {
      n = 3;
      let r = if p.len() == 4 { rd::ppg(&c, area.w, area.h, &pl) } else { rd::xtrans_mean(&c, area.w, area.h, &pl) };
      match fuji {
        Some(t) if on(FujiRotate) && p.len() == 4 => {
          let (r, w, h) = rd::unturn(&r, area.w, area.h, t);
          area = R { x: 0, y: 0, w, h };
          r.iter().map(|p| p.to_vec()).collect()
        }
        _ => r.iter().map(|p| p.to_vec()).collect(),
      }
    };
  }
  let mut edge = vec![false; px.len()];
  if on(Calibrate) && n > 1 {
    let wb: Vec<f64> = if s.wb[0].is_nan() || !on(WhiteBalance) { vec![1.0; 4] } else { s.wb.iter().map(|v| *v as f64).collect() };
    let m: Vec<f64> = s.matrices.iter().find(|(i, _)| *i == 21).map(|(_, m)| m.iter().map(|v| *v as f64).collect()).unwrap_or(vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]);
    let m = rd::cam_to_rgb(&m);
    for (p, e) in px.iter_mut().zip(edge.iter_mut()) {
      let (o, x) = if n == 3 { rd::color(&[p[0], p[1], p[2]], &wb, &m) } else { rd::color(&[p[0], p[1], p[2], p[3]], &wb, &m) };
      *p = o.to_vec();
      *e = x;
    }
    n = 3;
  }
  if on(CropDefault) && fuji.is_none() {
    if let Some(c) = s.crop.map(|a| R { x: a[0], y: a[1], w: a[2], h: a[3] }).or(active) {
      let r = R { x: c.x - area.x, y: c.y - area.y, ..c };
      px = rd::cut(&px, area.w, r);
      edge = rd::cut(&edge, area.w, r);
      area = c;
    }
  }
  let top = v.iter().fold(1.0f64, |a, b| a.max(*b));
  let mut v: Vec<f64> = px.concat();
  if on(SRgb) {
    v.iter_mut().for_each(|x| *x = rd::srgb(*x));
  }
  Want { w: area.w, h: area.h, n, v, edge: edge.iter().flat_map(|e| vec![*e; n]).collect(), top }
}

fn image(s: &Spec, fuji: Option<usize>) -> RawImage {
  let mut im = s.raw_image();
  if let Kind::Cfa(p) = &s.kind {
    let (_, order) = planes(p);
    im.photometric = RawPhotometricInterpretation::Cfa(CFAConfig::new(&CFA::new(p), &PlaneColor::new(&order)));
  }
  im.fuji_rotation_width = fuji;
  im
}

fn judge(w: &Want, got: Intermediate) -> Result<u64, String> {
  let (d, n, v) = match got {
    Intermediate::Monochrome(p) => (p.dim(), 1, p.data.clone()),
    Intermediate::ThreeColor(p) => (p.dim(), 3, p.flatten()),
    Intermediate::FourColor(p) => (p.dim(), 4, p.flatten()),
  };
  if (d.w, d.h, n) != (w.w, w.h, w.n) || v.len() != w.v.len() {
    return Err(format!("{}x{}x{n} with {} values for {}x{}x{}", d.w, d.h, v.len(), w.w, w.h, w.n));
  }
  for i in 0..v.len() {
    if !w.edge[i] && !((v[i] as f64 - w.v[i]).abs() <= 2e-5 * w.top || v[i] as f64 == w.v[i]) {
      let p = i / w.n;
      return Err(format!("row {} column {} channel {}: {} for {}", p / w.w, p % w.w, i % w.n, v[i], w.v[i]));
    }
  }
  Ok(fp(&v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()))
}

fn brief(s: &Spec) -> serde_json::Value {
  json!({"size": [s.w, s.h], "kind": format!("{:?}", s.kind), "active": s.active, "crop": s.crop, "black": s.black, "black_dim": s.black_dim, "white": s.white, "wb": s.wb.map(|v| v.to_string()), "matrices": s.matrices,
    "data": format!("{:?}", s.data).chars().take(400).collect::<String>()})
}

fn one(ctx: &Ctx, label: &str, s: &Spec, steps: &[ProcessingStep], fuji: Option<usize>, id: u64) {
  let js = || json!({"image": brief(s), "steps": format!("{steps:?}"), "rotation_width": fuji});
  ctx.case(fp(&(label, id)), s.w * s.h > 1);
  ctx.sample(label, js);
  let w = want(s, steps, fuji);
  match ctx.guard(|| RawDevelop::new_with(steps).develop_intermediate(&image(s, fuji)).map_err(|e| e.to_string())) {
    Ok(Ok(g)) => match judge(&w, g) {
      Ok(o) => ctx.outcome(o),
      Err(e) => ctx.fail(&format!("{label}:value"), e, js()),
    },
    Ok(Err(e)) | Err(e) => ctx.fail(&format!("{label}:error"), e, js()),
  }
}

fn kinds() -> Vec<Kind> {
  vec![Kind::Cfa("RGGB".into()), Kind::Cfa("GBRG".into()), Kind::Cfa(XTRANS.into()), Kind::Cfa("RGCB".into()), Kind::Linear(1), Kind::Linear(3), Kind::Gray, Kind::Linear(4)]
}

fn levels(ctx: &Ctx) {
  let kinds = kinds();
  let dims = [(1, 1), (2, 2), (1, 2), (2, 1), (3, 2), (6, 6), (4, 1)];
  ctx.par("levels", 25 * kinds.len() * dims.len() * 4, |i| {
    let d = digits(i, &[4, dims.len(), kinds.len(), 5, 5]);
    let mut s = Spec::new(d[3] + 1, d[4] + 1, kinds[d[2]].clone(), 14, i as u64);
    if d[0] == 3 {
      s.fill_float(i as u64);
    }
    let (bw, bh) = dims[d[1]];
    let n = bw * bh * s.cpp();
    s.black_dim = (bw, bh);
    let f = d[0] == 3;
    s.black = (0..n).map(|k| if f { (k as u32 % 7, 16) } else if d[0] == 2 { (1000 + 37 * k as u32, 3) } else { (100 + 61 * k as u32, 1) }).collect();
    if !f {
      s.white = (0..s.cpp()).map(|k| [12000, 16383, 4000][d[0]] + 97 * k as u32).collect();
    }
    one(ctx, "levels", &s, &[ProcessingStep::Rescale], None, i as u64);
  });
}

fn grid(w: usize, h: usize, f: impl Fn(usize) -> f32) -> PixF32 {
  PixF32::new_with((0..w * h).map(f).collect(), w, h)
}
fn samples(p: &PixF32, r: R) -> Vec<f64> {
  rd::cut(&p.data.iter().map(|v| *v as f64).collect::<Vec<_>>(), p.width, r)
}
fn rect(r: R) -> Rect {
  Rect::new(Point::new(r.x, r.y), Dim2::new(r.w, r.h))
}

/// All reconstructions on one region of one mosaic.
fn mosaic(ctx: &Ctx, label: &str, p: &PixF32, pat: &str, r: R, id: u64) {
  let js = || json!({"pattern": pat, "size": [p.width, p.height], "region": format!("{r:?}"), "samples": p.data});
  ctx.case(fp(&(label, pat, id)), p.data.iter().any(|v| *v != p.data[0]));
  ctx.sample(label, js);
  let (pl, order) = planes(pat);
  let pl = rd::shifted(&pl, r.x, r.y);
  let v = samples(p, r);
  let (cfa, co) = (CFA::new(pat), PlaneColor::new(&order));
  let rep = |name: &str, x: Result<Result<(), String>, String>| match x {
    Ok(Ok(())) => {}
    Ok(Err(e)) | Err(e) => ctx.fail(&format!("{label}:{name}"), e, js()),
  };
  if order.len() == 4 {
    if r.w >= 2 && r.h >= 2 {
      rep("four colours", ctx.guard(|| diff(&Bilinear4Channel::new().demosaic(p, &cfa, &co, rect(r)), r.w, r.h, &rd::bilinear4(&v, r.w, r.h, &pl))));
      rep("four colour blocks", ctx.guard(|| diff(&Superpixel4Channel::new().demosaic(p, &cfa, &co, rect(r)), r.w / 2, r.h / 2, &rd::superpixel::<4>(&v, r.w, r.h, &pl))));
    }
  } else if pat.len() == 4 {
    let e = rd::ppg(&v, r.w, r.h, &pl);
    ctx.outcome(fp(&e.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>()));
    rep("ppg", ctx.guard(|| diff(&PPGDemosaic::new().demosaic(p, &cfa, &co, rect(r)), r.w, r.h, &e)));
    if r.w >= 2 && r.h >= 2 {
      rep("blocks", ctx.guard(|| diff(&Superpixel3Channel::new().demosaic(p, &cfa, &co, rect(r)), r.w / 2, r.h / 2, &rd::superpixel::<3>(&v, r.w, r.h, &pl))));
    }
  } else {
    rep("xtrans", ctx.guard(|| diff(&XTransBilinearDemosaic::new().demosaic(p, &cfa, &co, rect(r)), r.w, r.h, &rd::xtrans_mean(&v, r.w, r.h, &pl))));
  }
}

fn patterns() -> Vec<String> {
  let mut p: Vec<String> = BAYER.iter().map(|s| s.to_string()).collect();
  p.extend(["RGCB", "GRBC", "GMYC", "YCMG"].map(String::from));
  let x: Vec<char> = XTRANS.chars().collect();
  p.push(XTRANS.into());
  for (dx, dy) in [(1, 0), (0, 1), (2, 3), (5, 4), (3, 5)] {
    p.push((0..36).map(|i| x[(i / 6 + dy) % 6 * 6 + (i % 6 + dx) % 6]).collect());
  }
  p
}

fn reconstruct(ctx: &Ctx) {
  let pats = patterns();
  let np = pats.len();
  // every size
  ctx.par("sizes", 12 * 12 * np * 3, |i| {
    let d = digits(i, &[3, np, 12, 12]);
    let (w, h) = (d[2] + 1, d[3] + 1);
    let p = grid(w, h, |k| match d[0] {
      0 => g_next(&mut Rng::new(i as u64 * 131 + k as u64)) % 64,
      1 => (k as u64 * 7 + k as u64 / w as u64 * 3) % 97,
      _ => (g_next(&mut Rng::new(i as u64 * 977 + k as u64)) % 3) * 16,
    } as f32 / 64.0);
    mosaic(ctx, "sizes", &p, &pats[d[1]], R { x: 0, y: 0, w, h }, i as u64);
  });
  // every region of an image
  let (w, h) = (11, 10);
  let mut rs = vec![];
  for y in 0..h {
    for x in 0..w {
      for rh in 1..=h - y {
        for rw in 1..=w - x {
          if ctx.quick() && (x > 6 || y > 6) && (rw + rh) % 3 != 0 {
            continue;
          }
          rs.push(R { x, y, w: rw, h: rh });
        }
      }
    }
  }
  ctx.par("regions", rs.len() * np, |i| {
    let (k, r) = (i % np, rs[i / np]);
    let p = grid(w, h, |j| (g_next(&mut Rng::new(k as u64 * 5000 + j as u64)) % 128) as f32 / 128.0);
    mosaic(ctx, "regions", &p, &pats[k], r, i as u64);
  });
  // single and double impulses, dark and bright, on a ramp
  let n = 11usize;
  let pairs: Vec<(usize, usize)> = (0..n * n).flat_map(|a| (a..n * n).map(move |b| (a, b))).filter(|(a, b)| a == b || (!ctx.quick() || (a % n).abs_diff(b % n) <= 2 && (a / n).abs_diff(b / n) <= 2)).collect();
  ctx.par("impulses", pairs.len() * np * 2, |i| {
    let d = digits(i, &[2, np, pairs.len()]);
    let (a, b) = pairs[d[2]];
    let p = grid(n, n, |k| {
      let base = if d[0] == 0 { 0.25 } else { (k % n * 2 + k / n) as f32 / 64.0 };
      if k == a { 1.0 } else if k == b { if d[2] % 2 == 0 { 0.0 } else { 0.75 } } else { base }
    });
    mosaic(ctx, "impulses", &p, &pats[d[1]], R { x: 0, y: 0, w: n, h: n }, i as u64);
  });
  // all neighbourhoods of the green step over three values
  let at = [(3, 3), (2, 3), (4, 3), (3, 2), (3, 4), (1, 3), (5, 3), (3, 1), (3, 5)];
  ctx.par("green", 19683 * 4, |i| {
    let d = digits(i, &[4, 3, 3, 3, 3, 3, 3, 3, 3, 3]);
    let p = grid(7, 7, |k| match at.iter().position(|(y, x)| y * 7 + x == k) {
      Some(j) => d[j + 1] as f32 / 4.0,
      None => 0.5,
    });
    mosaic(ctx, "green", &p, BAYER[d[0]], R { x: 0, y: 0, w: 7, h: 7 }, i as u64);
  });
  // all neighbourhoods of the red/blue step: diagonal samples, and the greens that decide
  let at = [(4, 4), (3, 3), (3, 5), (5, 3), (5, 5), (2, 2), (2, 6), (6, 2), (6, 6), (3, 4), (4, 3)];
  ctx.par("red and blue", ctx.pick(2048, 177147) * 4, |i| {
    let (b, j) = (i % 4, i / 4);
    let rad = if ctx.quick() { 2 } else { 3 };
    let d = digits(j, &[rad; 11]);
    let p = grid(9, 9, |k| match at.iter().position(|(y, x)| y * 9 + x == k) {
      Some(q) => d[q] as f32 * if ctx.quick() { 0.5 } else { 0.25 },
      None => (k % 9 + k / 9) as f32 / 32.0,
    });
    mosaic(ctx, "red and blue", &p, BAYER[b], R { x: 0, y: 0, w: 9, h: 9 }, i as u64);
  });
}
fn g_next(g: &mut Rng) -> u64 {
  g.next()
}

/// An image whose levels differ by a power of two, so that reference and implementation decide ties alike.
fn exact(w: usize, h: usize, kind: Kind, seed: u64) -> Spec {
  let mut s = Spec::new(w, h, kind, 12, seed);
  s.black = vec![(128, 1); s.cpp()];
  s.white = vec![128 + 2048; s.cpp()];
  if s.cpp() == 4 || matches!(&s.kind, Kind::Cfa(p) if p.contains('C')) {
    s.matrices = vec![(21, vec![0.5, 0.1, -0.05, -0.4, 1.2, 0.2, -0.06, 0.15, 0.6, 0.1, 0.4, 0.3])];
    s.wb = [2.0, 1.0, 1.5, 1.25];
  }
  s
}

fn steps(ctx: &Ctx) {
  let kinds = kinds();
  let areas: [(Option<[usize; 4]>, Option<[usize; 4]>); 5] =
    [(None, None), (Some([2, 1, 9, 10]), Some([3, 3, 7, 6])), (Some([1, 2, 10, 9]), None), (None, Some([2, 2, 8, 5])), (Some([2, 2, 8, 8]), Some([2, 2, 8, 8]))];
  ctx.par("steps", 256 * kinds.len() * areas.len() * 2, |i| {
    let d = digits(i, &[2, areas.len(), kinds.len(), 256]);
    let mut list: Vec<ProcessingStep> = (0..8).filter(|b| d[3] >> b & 1 == 1).map(|b| ALL[b]).collect();
    if d[0] == 1 {
      list.reverse();
    }
    let mut s = exact(12, 11 + i % 2, kinds[d[2]].clone(), i as u64);
    (s.active, s.crop) = areas[d[1]];
    one(ctx, "steps", &s, &list, None, i as u64);
  });
}

fn areas(ctx: &Ctx) {
  let kinds = kinds();
  let (w, h) = (13, 12);
  let mut rs: Vec<[usize; 4]> = vec![];
  for (x, aw) in [(0, 13), (0, 7), (1, 12), (2, 11), (3, 8), (5, 8), (6, 7)] {
    for (y, ah) in [(0, 12), (0, 6), (1, 11), (2, 9), (3, 9), (4, 7)] {
      rs.push([x, y, aw, ah]);
    }
  }
  let inside = |o: &[usize; 4], i: &[usize; 4]| i[0] >= o[0] && i[1] >= o[1] && i[0] + i[2] <= o[0] + o[2] && i[1] + i[3] <= o[1] + o[3];
  let mut combos: Vec<(Option<[usize; 4]>, Option<[usize; 4]>)> = vec![(None, None)];
  for a in &rs {
    combos.push((Some(*a), None));
    combos.push((None, Some(*a)));
    for c in &rs {
      for k in 0..3 {
        let c = [c[0], c[1], c[2] - k, c[3] - k];
        if inside(a, &c) {
          combos.push((Some(*a), Some(c)));
        }
      }
    }
  }
  ctx.par("areas", combos.len() * kinds.len(), |i| {
    let d = digits(i, &[kinds.len(), combos.len()]);
    let mut s = exact(w, h, kinds[d[0]].clone(), i as u64);
    (s.active, s.crop) = combos[d[1]];
    one(ctx, "areas", &s, &ALL, None, i as u64);
  });
}

fn colours(ctx: &Ctx) {
  let mats: Vec<Vec<f32>> = vec![
    vec![0.5, 0.1, -0.05, -0.4, 1.2, 0.2, -0.06, 0.15, 0.6],
    vec![0.7, -0.2, -0.1, -0.5, 1.3, 0.25, -0.1, 0.2, 0.55],
    vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
    vec![0.3, 0.3, 0.1, 0.1, 0.9, 0.1, 0.05, 0.1, 0.8],
  ];
  let wbs = [[2.0, 1.0, 1.5, f32::NAN], [1.0, 1.0, 1.0, 1.0], [f32::NAN; 4], [0.5, 1.0, 3.75, 1.0], [1.0, 2.0, 1.0, 2.0]];
  // which matrices the image has, besides 21 (D65)
  let sets: [&[u16]; 5] = [&[21], &[17, 21], &[21, 23], &[17, 20, 21, 22, 23], &[]];
  ctx.par("colours", mats.len() * wbs.len() * sets.len() * 27 * 3, |i| {
    let d = digits(i, &[3, 27, sets.len(), wbs.len(), mats.len()]);
    let e = digits(d[1], &[3, 3, 3]);
    let e = &e;
    let mut s = exact(4, 3, Kind::Linear(3), i as u64);
    s.wb = wbs[d[3]];
    s.matrices = sets[d[2]].iter().map(|k| (*k, if *k == 21 { mats[d[4]].clone() } else { mats[(d[4] + 1) % 4].clone() })).collect();
    let lv = [[128u16, 500, 2000], [0, 1200, 4000], [130, 136, 2176]][d[0]];
    s.data = Data::U((0..12).flat_map(|p| (0..3).map(move |c| lv[(e[c] + p * (c + 1)) % 3] + p as u16)).collect());
    one(ctx, "colours", &s, &ALL, None, i as u64);
  });
  // four colours
  ctx.par("four colours", 5 * 200, |i| {
    let mut s = exact(6, 5, if i % 2 == 0 { Kind::Cfa("RGCB".into()) } else { Kind::Linear(4) }, i as u64);
    s.wb = [[2.0, 1.0, 1.5, 1.25], [1.0; 4], [f32::NAN; 4], [0.5, 1.0, 3.0, 2.0], [1.0, 0.5, 1.0, 0.25]][i % 5];
    one(ctx, "four colours", &s, &ALL, None, i as u64);
  });
  // tone curve: all values of a channel
  let s = {
    let mut s = Spec::new(256, 257, Kind::Linear(1), 16, 0);
    s.data = Data::U((0..256 * 257).map(|i| i as u16).collect());
    s
  };
  one(ctx, "tone", &s, &[ProcessingStep::Rescale, ProcessingStep::SRgb], None, 0);
}

fn turned(ctx: &Ctx) {
  let mut l = vec![];
  for w in 8..ctx.pick(17, 27) {
    for h in [w, w - 1, w + 1] {
      for t in 2..w - 1 {
        l.push((w, h, t));
      }
    }
  }
  ctx.par("turned", l.len() * 4 * 2, |i| {
    let (w, h, t) = l[i / 8];
    let s = exact(w, h, Kind::Cfa(BAYER[i % 4].into()), i as u64);
    one(ctx, "turned", &s, if i / 4 % 2 == 0 { &ALL[..3] } else { &ALL }, Some(t), i as u64);
  });
}

fn files(ctx: &Ctx) {
  // sizes around the strip height and beyond 16 bits; all kinds
  let mut l: Vec<(usize, usize, Kind)> = vec![];
  for h in [1, 2, 255, 256, 257, 258, 511, 512, 513] {
    for k in [Kind::Linear(1), Kind::Linear(3), Kind::Gray, Kind::Cfa("RGGB".into()), Kind::Cfa("RGCB".into())] {
      if h >= 2 || !matches!(&k, Kind::Cfa(p) if p == "RGCB") {
        l.push((9, h, k));
      }
    }
  }
  l.push((65535, 7, Kind::Linear(1)));
  l.push((65536, 7, Kind::Linear(3)));
  l.push((65537, 8, Kind::Cfa("RGGB".into())));
  l.push((2, 65537, Kind::Linear(1)));
  l.push((2, 65540, Kind::Linear(3)));
  let n = l.len();
  ctx.par("files", n * 4, |i| {
    let (w, h, k) = l[i % n].clone();
    let mut s = exact(w, h, k, i as u64 % 7);
    if i / n >= 2 && (w == 9 && h > 10) {
      s.active = Some([1, 2, 8, h - 3]);
      s.crop = Some([3, 3, 5, h - 6]);
    }
    let list: Vec<ProcessingStep> = if i / n % 2 == 0 { ALL.to_vec() } else { ALL[..7].to_vec() };
    let js = || json!({"size": [s.w, s.h], "kind": format!("{:?}", s.kind), "active": s.active, "crop": s.crop, "steps": format!("{list:?}")});
    ctx.case(fp(&("file", i)), true);
    ctx.sample("file", js);
    let e = want(&s, &list, None);
    let r = ctx.guard(|| {
      let mut o = std::io::Cursor::new(vec![]);
      RawDevelop::new_with(&list).develop(&image(&s, None), &rawler::decoders::RawMetadata::default(), &mut o).map_err(|e| e.to_string())?;
      clikit::read_developed(&o.into_inner())
    });
    match r {
      Ok(Ok(g)) => {
        ctx.outcome(fp(&g.px));
        if (g.w, g.h, g.cpp) != (e.w, e.h, e.n) {
          return ctx.fail("file:size", format!("{}x{}x{} for {}x{}x{}", g.w, g.h, g.cpp, e.w, e.h, e.n), js());
        }
        for (p, (a, b)) in g.px.iter().zip(&e.v).enumerate() {
          let b = (b * 65535.0).clamp(0.0, 65535.0);
          if !e.edge[p] && (*a as f64 - b).abs() > 2.0 {
            return ctx.fail("file:value", format!("value {p}: {a} for {b:.1}"), js());
          }
        }
      }
      Ok(Err(e)) | Err(e) => ctx.fail("file:error", e, js()),
    }
  });
}

/// Turning and cutting of pixel arrays.
fn arrays(ctx: &Ctx) {
  ctx.par("arrays", 81, |i| {
    let (w, h) = (i % 9 + 1, i / 9 + 1);
    let px: Vec<[u16; 3]> = (0..w * h).map(|k| [k as u16, 1000 + k as u16, 7]).collect();
    let c = Color2D::<u16, 3>::new_with(px.clone(), w, h);
    ctx.case(fp(&("arrays", i)), true);
    let js = || json!({"size": [w, h]});
    let turn = |cw: bool| -> Vec<[u16; 3]> { (0..w * h).map(|k| { let (y, x) = (k / h, k % h); if cw { px[(h - 1 - x) * w + y] } else { px[x * w + w - 1 - y] } }).collect() };
    for (name, got, e, d) in [
      ("cw", c.rotate_90cw(), turn(true), (h, w)),
      ("ccw", c.rotate_90ccw(), turn(false), (h, w)),
      ("180", c.rotate_180(), px.iter().rev().copied().collect(), (w, h)),
    ] {
      if got.pixels() != &e[..] || (got.width, got.height) != d {
        ctx.fail("arrays:turn", name.to_string(), js());
      }
    }
    let flat: Vec<u16> = px.iter().map(|p| p[0]).collect();
    let mut dst = vec![0u16; w * h];
    rawler::imgop::raw::rotate_90(&flat, &mut dst, w, h);
    if dst != turn(true).iter().map(|p| p[0]).collect::<Vec<_>>() {
      ctx.fail("arrays:turn", "flat".into(), js());
    }
    for x in 0..w {
      for y in 0..h {
        for rw in 1..=w - x {
          for rh in 1..=h - y {
            let r = R { x, y, w: rw, h: rh };
            let a = c.crop(rect(r)).pixels() == &rd::cut(&px, w, r)[..];
            let f = PixF32::new_with(flat.iter().map(|v| *v as f32).collect(), w, h);
            let e: Vec<f32> = rd::cut(&flat, w, r).iter().map(|v| *v as f32).collect();
            let b = f.crop(rect(r)).data == e && f.into_crop(rect(r)).data == e;
            let g = rawler::imgop::crop(&flat, Dim2::new(w, h), rect(r)) == rd::cut(&flat, w, r);
            if !(a && b && g) {
              ctx.fail("arrays:cut", format!("{r:?}"), js());
            }
          }
        }
      }
    }
  });
}

/// Markesteijn's reconstruction: away from the image borders flat colours stay flat and samples are kept.
fn markesteijn(ctx: &Ctx) {
  use rawler::imgop::sensor::xtrans::markesteijn::XTransMarkesteijnDemosaic;
  let pats: Vec<String> = patterns().into_iter().filter(|p| p.len() == 36).collect();
  let np = pats.len();
  let sizes = [(12, 11), (13, 17), (23, 30), (25, 26), (35, 36), (64, 64), (65, 70), (105, 64), (41, 104), (90, 97)];
  ctx.par("markesteijn", np * 2 * sizes.len() * 2, |i| {
    let d = digits(i, &[2, 2, np, sizes.len()]);
    let (w, h) = sizes[d[3]];
    let cfa = CFA::new(&pats[d[2]]);
    let (pl, order) = planes(&pats[d[2]]);
    let m = XTransMarkesteijnDemosaic::new([1, 3][d[1]]);
    let js = || json!({"pattern": pats[d[2]], "size": [w, h], "passes": 1 + 2 * d[1], "flat": d[0] == 0});
    ctx.case(fp(&("markesteijn", i)), w * h > 1);
    ctx.sample("markesteijn", js);
    let flat = [0.25f32, 0.5, 0.125];
    let p = grid(w, h, |k| if d[0] == 0 { flat[rd::at(&pl, k / w, k % w)] } else { (Rng::new(i as u64 * 100_000 + k as u64).next() % 256) as f32 / 256.0 });
    let full = R { x: 0, y: 0, w, h };
    let co = PlaneColor::new(&order);
    match ctx.guard(|| m.demosaic(&p, &cfa, &co, rect(full))) {
      Ok(o) => {
        if (o.width, o.height, o.data.len()) != (w, h, w * h) {
          return ctx.fail("markesteijn:size", format!("{}x{}", o.width, o.height), js());
        }
        ctx.outcome(fp(&o.data.iter().flatten().map(|v| v.to_bits()).collect::<Vec<_>>()));
        for (k, q) in o.data.iter().enumerate() {
          let c = rd::at(&pl, k / w, k % w);
          let far = |v: usize, n: usize| v >= 24 && v + 24 < n;
          if !far(k / w, h) || !far(k % w, w) {
            continue;
          }
          if (q[c] - p.data[k]).abs() > 1e-5 {
            return ctx.fail("markesteijn:sample", format!("row {} column {}: {} for {}", k / w, k % w, q[c], p.data[k]), js());
          }
          if d[0] == 0 && (0..3).any(|c| (q[c] - flat[c]).abs() > 1e-4) {
            return ctx.fail("markesteijn:flat", format!("row {} column {}: {q:?}", k / w, k % w), js());
          }
        }
      }
      Err(e) => ctx.fail("markesteijn:panic", e, js()),
    }
  });
}

pub fn run(ctx: &Ctx) {
  markesteijn(ctx);
  levels(ctx);
  reconstruct(ctx);
  steps(ctx);
  areas(ctx);
  colours(ctx);
  turned(ctx);
  files(ctx);
  arrays(ctx);
}
