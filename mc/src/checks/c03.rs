//! C03: DNG output carries every raw sample bit-exactly.
use super::dngcmp::*;
use crate::Level;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::dng as rd;
use rawler::dng::DngCompression;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "Each case is one raw image (shape, sample layout, bit depth, content) written through one path (writer API or DNG-to-DNG conversion from a reference-built source) with one compression/predictor; the produced file is decoded by an independent strict TIFF/DNG/T.81 reader and by the real decoder and every sample compared. Non-trivial: at least 2 samples.",
    bounds: "widths and heights from the tile/strip boundary set {1..4,15..17,99..101,255..258,511..513} (all pairs quick up to 258, thorough all), CFA Bayer x4 + X-Trans, LinearRaw 1 and 3 samples, monochrome; bit depths 8-16; uncompressed + lossless predictors 1-7; float samples; strip configuration variables; conversion chains of length 2",
    assumptions: &["reference reader is independent of the repository", "files below 4 GiB"],
  }
}

fn js(s: &Spec, extra: &str) -> serde_json::Value {
  json!({"w": s.w, "h": s.h, "kind": format!("{:?}", s.kind), "bps": s.bps, "float": matches!(s.data, Data::F(_)), "path": extra})
}

fn verify(ctx: &Ctx, group: &str, spec: &Spec, out: Result<Result<Vec<u8>, String>, String>, lossless: bool, how: &str) -> Option<Vec<u8>> {
  ctx.case(fp(&(spec.w, spec.h, format!("{:?}", spec.kind), spec.bps, how, format!("{:?}", spec.data).len(), fp(&format!("{:?}", spec.data)))), spec.w * spec.h > 1);
  ctx.sample(group, || js(spec, how));
  let bytes = match out {
    Ok(Ok(b)) => b,
    Ok(Err(e)) | Err(e) => {
      ctx.fail(&format!("{group}:write"), format!("writing failed: {e}"), js(spec, how));
      return None;
    }
  };
  let d = match rd::read(&bytes) {
    Ok(d) => d,
    Err(e) => {
      ctx.fail(&format!("{group}:structure"), format!("independent reader rejects the DNG: {e}"), js(spec, how));
      return None;
    }
  };
  if let Err(e) = cmp_pixels(spec, &d, lossless) {
    ctx.fail(&format!("{group}:pixels"), e, js(spec, how));
    return None;
  }
  match ctx.guard(|| own_decode(&bytes)) {
    Ok(Ok(img)) => {
      if let Err(e) = cmp_own_pixels(spec, &img, lossless) {
        ctx.fail(&format!("{group}:own"), e, js(spec, how));
      }
    }
    Ok(Err(e)) | Err(e) => ctx.fail(&format!("{group}:own"), format!("own decoder failed on own output: {e}"), js(spec, how)),
  }
  ctx.outcome(fp(&bytes[bytes.len() / 2..]));
  Some(bytes)
}

fn comps(l: Option<u8>) -> (DngCompression, u8, bool) {
  match l {
    None => (DngCompression::Uncompressed, 1, false),
    Some(p) => (DngCompression::Lossless, p, true),
  }
}

pub fn kinds() -> Vec<Kind> {
  vec![Kind::Cfa("RGGB".into()), Kind::Cfa("GBRG".into()), Kind::Cfa(XTRANS.into()), Kind::Linear(3), Kind::Linear(1), Kind::Gray]
}

pub fn run(ctx: &Ctx) {
  let dims: Vec<usize> = if ctx.quick() { vec![1, 2, 3, 16, 17, 100, 101, 255, 256, 257] } else { vec![1, 2, 3, 4, 5, 15, 16, 17, 31, 99, 100, 101, 127, 255, 256, 257, 258, 383, 511, 512, 513] };
  let modes: Vec<Option<u8>> = vec![None, Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7)];
  let ks = kinds();
  // A: all shapes, rotating through kinds/modes in quick, full product in thorough for small shapes
  let mut cases: Vec<(usize, usize, usize, usize)> = vec![];
  for (a, w) in dims.iter().enumerate() {
    for (b, h) in dims.iter().enumerate() {
      for k in 0..ks.len() {
        for m in 0..modes.len() {
          if (!ctx.quick() && w * h <= 260 * 260) || (a + 2 * b + 3 * k + m) % ctx.pick(4, 3) == 0 {
            cases.push((*w, *h, k, m));
          }
        }
      }
    }
  }
  // smallest first for short counterexamples
  cases.sort_by_key(|c| c.0 * c.1);
  ctx.par("shapes (writer API)", cases.len(), |i| {
    let (w, h, k, m) = cases[i];
    let bps = [16, 14, 12, 10, 8, 15, 11, 9, 13][i % 9];
    let spec = Spec::new(w, h, ks[k].clone(), bps, i as u64);
    let (c, p, l) = comps(modes[m]);
    let out = ctx.guard(|| write_api(&spec, CROPS[i % 3], c, p, i % 2 == 0));
    verify(ctx, "api", &spec, out, l, &format!("api {:?} predictor {p} crop {:?} root {}", c, CROPS[i % 3], i % 2 == 0));
  });
  // B: all bit depths x kinds x modes on a small two-tile shape
  ctx.par("bit depths", 9 * ks.len() * modes.len(), |i| {
    let d = digits(i, &[9, ks.len(), modes.len()]);
    let spec = Spec::new(21, 13, ks[d[1]].clone(), d[0] + 8, i as u64);
    let (c, p, l) = comps(modes[d[2]]);
    let out = ctx.guard(|| write_api(&spec, CROPS[0], c, p, false));
    verify(ctx, "depth", &spec, out, l, &format!("api {:?} predictor {p}", c));
  });
  // C: floats
  ctx.par("floats", dims.len() * 4 * 3, |i| {
    let d = digits(i, &[dims.len(), 4, 3]);
    let w = dims[d[0]];
    let h = [1, 7, 101, 257][d[1]];
    let mut spec = Spec::new(w, h, [Kind::Cfa("RGGB".into()), Kind::Linear(3), Kind::Linear(1)][d[2]].clone(), 16, i as u64);
    spec.fill_float(i as u64);
    for m in [None, Some(1), Some(4)] {
      let (c, p, l) = comps(m);
      let out = ctx.guard(|| write_api(&spec, CROPS[i % 3], c, p, false));
      verify(ctx, "float", &spec, out, l, &format!("api float {:?}", c));
    }
  });
  // D: conversions from reference-built sources, then converting the result again with another setting
  let layouts: Vec<(Option<(usize, usize)>, usize, Option<(u8, usize)>)> = vec![(None, usize::MAX, None), (None, 1, None), (None, 7, None), (Some((16, 16)), 0, None), (Some((32, 16)), 0, Some((1, 2))), (Some((16, 48)), 0, Some((6, 1))), (None, 5, Some((2, 1)))];
  let shapes = [(18usize, 14usize), (33, 21), (2, 2), (1, 5), (64, 101), (257, 3), (20, 258)];
  let radix = [shapes.len(), ks.len(), layouts.len(), modes.len(), 2];
  ctx.par("conversion chains", space(&radix), |i| {
    let d = digits(i, &radix);
    let (w, h) = shapes[d[0]];
    let (tiles, rps, mut ll) = layouts[d[2]];
    let kind = ks[d[1]].clone();
    if let Some((p, _)) = ll {
      let n = match kind {
        Kind::Linear(n) => n,
        _ => if d[1] % 2 == 0 && tiles.is_some() { 2 } else { 1 },
      };
      ll = Some((p, n));
    }
    let bps = if ll.is_some() { [16, 12, 14][i % 3] } else { 16 };
    let spec = Spec::new(w, h, kind, bps, i as u64);
    let lay = Layout { be: d[4] == 1, sub: i % 2 == 0, values_first: i % 3 == 0, gap: i % 4, tiles, rps, lossless: ll, ptr13: i % 5 == 0 };
    let src = dng_file(&spec, &lay);
    let (c, p, l) = comps(modes[d[3]]);
    let how = format!("convert {:?} from {:?}", c, lay);
    let out = ctx.guard(|| convert_bytes(&src, &params(CROPS[i % 3], c, p)));
    if let Some(b) = verify(ctx, "convert", &spec, out, l, &how) {
      let (c2, p2, l2) = comps(modes[(d[3] + 1 + i % 6) % 8]);
      let out2 = ctx.guard(|| convert_bytes(&b, &params(CROPS[(i + 1) % 3], c2, p2)));
      verify(ctx, "convert2", &spec, out2, l2, &format!("{how} then {:?} predictor {p2}", c2));
    }
  });
  // E: strip configuration variables (set before the parallel section; read-only inside)
  for (rows, thr) in [(1usize, 0usize), (3, 2), (7, 5), (100, 1), (256, 0)] {
    unsafe {
      std::env::set_var("RAWLER_DNG_ROWS_PER_STRIP", rows.to_string());
      std::env::set_var("RAWLER_DNG_MULTISTRIP_THRESHOLD", thr.to_string());
    }
    ctx.par("strip configuration", 12 * ks.len(), |i| {
      let h = i / ks.len() + 1;
      let spec = Spec::new(5, h, ks[i % ks.len()].clone(), 16, i as u64);
      let out = ctx.guard(|| write_api(&spec, CROPS[0], DngCompression::Uncompressed, 1, false));
      verify(ctx, "strips", &spec, out, false, &format!("api uncompressed rows/strip {rows} threshold {thr}"));
    });
  }
  unsafe {
    std::env::remove_var("RAWLER_DNG_ROWS_PER_STRIP");
    std::env::remove_var("RAWLER_DNG_MULTISTRIP_THRESHOLD");
  }
}
