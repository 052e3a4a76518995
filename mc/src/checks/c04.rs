//! C04: DNG output describes the same picture (geometry, filter layout, levels, colour).
use super::dngcmp::*;
use crate::Level;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::dng as rd;
use rawler::dng::DngCompression;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "Each case is one raw image description (active area, crop, filter pattern, black/white levels, white balance, matrices) written with one crop mode through the writer API or through up to three chained DNG conversions; tags are compared with the description by an independent reader per sensor position, and the real decoder must report the same absolute description. Non-trivial: active area, crop or repeat pattern differs from the trivial one.",
    bounds: "active-area origins 0..6 x 0..6, crop offsets {0,1,2,3}, crop modes x3, 4 Bayer patterns + X-Trans, black level repeat 1x1, 2x2, 6x6, 1x2, 2x1, integer and rational, LinearRaw with per-plane levels; all pairs of 8 illuminants; white levels across the 16-bit boundary; chains of 3 conversions",
    assumptions: &["R/G/B filter arrays (2x2, 6x6)", "white balance compared to 1e-5, matrices to 2e-4 (writer stores rationals)"],
  }
}

fn js(s: &Spec, how: &str) -> serde_json::Value {
  json!({"w": s.w, "h": s.h, "kind": format!("{:?}", s.kind), "active": s.active, "crop": s.crop, "black": s.black, "black_dim": s.black_dim, "white": s.white, "wb": format!("{:?}", s.wb), "matrices": format!("{:?}", s.matrices), "how": how})
}

fn verify(ctx: &Ctx, group: &str, spec: &Spec, crop: rawler::dng::CropMode, out: Result<Result<Vec<u8>, String>, String>, how: &str) -> Option<Vec<u8>> {
  ctx.case(fp(&(format!("{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}", spec.kind, spec.active, spec.crop, spec.black, spec.white, spec.wb, spec.matrices, crop), spec.w, spec.h, how)), spec.active.is_some() || spec.crop.is_some() || spec.black.len() > 1);
  ctx.sample(group, || js(spec, how));
  let bytes = match out {
    Ok(Ok(b)) => b,
    Ok(Err(e)) | Err(e) => {
      ctx.fail(&format!("{group}:write"), format!("writing failed: {e}"), js(spec, how));
      return None;
    }
  };
  let r = rd::read(&bytes).and_then(|d| {
    ctx.outcome(fp(&format!("{:?}", d.raw.entries)));
    cmp_meta(spec, &d, crop, false)?;
    cmp_pixels(spec, &d, true)
  });
  if let Err(e) = r {
    ctx.fail(&format!("{group}:tags"), e, js(spec, how));
    return None;
  }
  match ctx.guard(|| own_decode(&bytes)) {
    Ok(Ok(img)) => {
      if let Err(e) = cmp_own_meta(spec, &img, crop, false) {
        ctx.fail(&format!("{group}:own"), e, js(spec, how));
        return None;
      }
    }
    Ok(Err(e)) | Err(e) => {
      ctx.fail(&format!("{group}:own"), format!("own decoder failed: {e}"), js(spec, how));
      return None;
    }
  }
  Some(bytes)
}

pub fn run(ctx: &Ctx) {
  let kinds = [Kind::Cfa("RGGB".into()), Kind::Cfa("BGGR".into()), Kind::Cfa("GRBG".into()), Kind::Cfa("GBRG".into()), Kind::Cfa(XTRANS.into()), Kind::Linear(3), Kind::Gray, Kind::Linear(1)];
  let bdims = [(1usize, 1usize), (2, 2), (2, 1), (1, 2), (6, 6)];
  let m = ctx.pick(7usize, 9);
  let radix = [kinds.len(), m, m, bdims.len(), 4];
  ctx.par("geometry", space(&radix), |i| {
    let d = digits(i, &radix);
    let mut s = Spec::new(24, 22, kinds[d[0]].clone(), 12, i as u64);
    let (ax, ay) = (d[1], d[2]);
    let cpp = s.cpp();
    s.active = Some([ax, ay, 24 - ax - (i % 3), 22 - ay - (i / 3 % 3)]);
    let a = s.active.unwrap();
    s.crop = match d[4] {
      0 => None,
      1 => Some([a[0] + 1, a[1] + 2, a[2] - 3, a[3] - 4]),
      2 => Some(a),
      _ => Some([a[0] + 3, a[1], a[2] - 3, a[3] - 1]),
    };
    s.black_dim = bdims[d[3]];
    let den = if i % 7 == 3 { 4 } else { 1 };
    s.black = (0..s.black_dim.0 * s.black_dim.1 * cpp).map(|k| (100 + 3 * k as u32, den)).collect();
    let crop = CROPS[(i / 5) % 3];
    let mode = (i / 11) % 2;
    let comp = if i % 2 == 0 { DngCompression::Uncompressed } else { DngCompression::Lossless };
    if mode == 0 || ctx.tier == Tier::Thorough {
      let out = ctx.guard(|| write_api(&s, crop, comp, 1, i % 4 == 0));
      verify(ctx, "geometry", &s, crop, out, &format!("api crop {crop:?}"));
    }
    if mode == 1 || ctx.tier == Tier::Thorough {
      // converted from a reference-built file, three generations with crop Best (must be a fixed point), then the selected crop
      let src = dng_file(&Spec { bps: 16, ..s.clone() }, &Layout { be: i % 2 == 1, sub: i % 3 == 0, ..Default::default() });
      let s16 = Spec { bps: 16, ..s.clone() };
      // without crop tags the converter has nothing to lose; with Best it writes crop = active area
      let mut cur = src;
      let mut truth = s16.clone();
      for generation in 0..2 {
        let out = ctx.guard(|| convert_bytes(&cur, &params(CROPS[0], comp, 1)));
        truth.crop = truth.crop.or(truth.active);
        match verify(ctx, "generations", &truth, CROPS[0], out, &format!("generation {generation} {comp:?}")) {
          Some(b) => cur = b,
          None => return,
        }
      }
      let out = ctx.guard(|| convert_bytes(&cur, &params(crop, comp, 1)));
      verify(ctx, "generations", &truth, crop, out, &format!("generation 2, crop {crop:?}"));
    }
  });
  // no active area / crop at all
  ctx.par("plain", kinds.len() * 3 * 2 * bdims.len(), |i| {
    let d = digits(i, &[kinds.len(), 3, 2, bdims.len()]);
    let mut s = Spec::new(13, 9, kinds[d[0]].clone(), 14, i as u64);
    s.black_dim = bdims[d[3]];
    s.black = (0..s.black_dim.0 * s.black_dim.1 * s.cpp()).map(|k| (64 + k as u32, 1)).collect();
    if d[2] == 0 {
      let out = ctx.guard(|| write_api(&s, CROPS[d[1]], DngCompression::Lossless, 1, true));
      verify(ctx, "plain", &s, CROPS[d[1]], out, "api");
    } else {
      let s = Spec { bps: 16, ..s };
      let src = dng_file(&s, &Layout::default());
      let out = ctx.guard(|| convert_bytes(&src, &params(CROPS[d[1]], DngCompression::Lossless, 1)));
      verify(ctx, "plain", &s, CROPS[d[1]], out, "convert");
    }
  });
  // levels
  let whites = [1u32, 255, 1023, 4095, 16383, 65534, 65535, 65536, 70000, u32::MAX];
  let blacks = [(0u32, 1u32), (1, 1), (255, 1), (65535, 1), (65536, 1), (513, 2), (1000, 3), (4_000_000, 1)];
  ctx.par("levels", whites.len() * blacks.len() * 3 * 2, |i| {
    let d = digits(i, &[whites.len(), blacks.len(), 3, 2]);
    let mut s = Spec::new(6, 6, [Kind::Cfa("RGGB".into()), Kind::Linear(3), Kind::Gray][d[2]].clone(), 16, i as u64);
    let cpp = s.cpp();
    s.white = (0..cpp).map(|c| whites[(d[0] + c) % whites.len()]).collect();
    s.black = (0..cpp).map(|c| blacks[(d[1] + c) % blacks.len()]).collect();
    if d[3] == 0 {
      let out = ctx.guard(|| write_api(&s, CROPS[0], DngCompression::Uncompressed, 1, false));
      let mut t = s.clone();
      t.crop = Some([0, 0, 6, 6]);
      verify(ctx, "levels", &t, CROPS[0], out, "api");
    } else {
      let src = dng_file(&s, &Layout { be: i % 2 == 0, ..Default::default() });
      let out = ctx.guard(|| convert_bytes(&src, &params(CROPS[2], DngCompression::Lossless, 1)));
      verify(ctx, "levels", &s, CROPS[2], out, "convert");
    }
  });
  // matrices: every pair of illuminants (and singles, and none), in both slot orders
  let illu = [1u16, 2, 3, 9, 17, 20, 21, 22, 23, 24];
  let mats: Vec<Vec<f32>> = vec![vec![0.8123, -0.2, -0.1, -0.45, 1.25, 0.21, -0.07, 0.16, 0.61], vec![1.01, -0.33, -0.02, -0.4, 1.1, 0.33, -0.05, 0.2, 0.55]];
  let n = illu.len();
  ctx.par("matrices", (n * n + n + 1) * 4, |i| {
    let (k, path) = (i / 4, i % 4);
    let mut s = Spec::new(4, 4, if path < 2 { Kind::Cfa("RGGB".into()) } else { Kind::Linear(3) }, 16, i as u64);
    s.matrices = if k < n * n {
      let (a, b) = (k / n, k % n);
      if a == b {
        return;
      }
      vec![(illu[a], mats[0].clone()), (illu[b], mats[1].clone())]
    } else if k < n * n + n {
      vec![(illu[k - n * n], mats[0].clone())]
    } else {
      vec![]
    };
    s.wb = [[2.0, 1.0, 1.5, f32::NAN], [1.0, 1.0, 1.0, f32::NAN], [0.3, 0.7, 3.9, f32::NAN], [f32::NAN; 4]][k % 4];
    if path % 2 == 0 {
      let out = ctx.guard(|| write_api(&s, CROPS[2], DngCompression::Uncompressed, 1, false));
      verify(ctx, "matrices", &s, CROPS[2], out, "api");
    } else {
      let src = dng_file(&s, &Layout { be: k % 2 == 0, ..Default::default() });
      let out = ctx.guard(|| convert_bytes(&src, &params(CROPS[2], DngCompression::Uncompressed, 1)));
      verify(ctx, "matrices", &s, CROPS[2], out, "convert");
    }
  });
}
