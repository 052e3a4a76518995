//! C01: lossless JPEG encoding is exactly reversible (reference decoder and own decoder).
use crate::Level;
use crate::ctx::*;
use crate::refs::ljpeg as r;
use rawler::decompressors::ljpeg::LjpegDecompressor;
use rawler::ljpeg92::LjpegCompressor;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "Each case is one (samples, width, height, components, bit depth, predictor, row padding) tuple encoded by the real encoder and decoded by an independent bit-by-bit T.81 decoder and by the real decoder; all tuples of the stated finite spaces are run. Non-trivial: at least two different sample values, or a single sample.",
    bounds: "every image over a 5-value boundary alphabet for the listed tiny shapes (all predictors, 1-4 components); every 16-bit difference class and value; all class subsets up to size 3 (quick) / all 2^17 subsets (thorough) and Fibonacci-shaped class histograms forcing >16-bit codes; every shape up to 20x20 (quick) / 40x40 (thorough) x components x predictors x padding 0..3; every bit depth 2..16",
    assumptions: &["point transform 0 (documented as untested in the encoder)", "images up to 65535x65535; large sizes only sampled by shape arithmetic"],
  }
}

#[derive(Clone)]
pub struct Img {
  pub w: usize,
  pub h: usize,
  pub n: usize,
  pub depth: u8,
  pub pred: u8,
  pub pad: usize,
  pub data: Vec<u16>, // without padding
}

fn desc(i: &Img) -> serde_json::Value {
  json!({"width": i.w, "height": i.h, "components": i.n, "bitdepth": i.depth, "predictor": i.pred, "padding": i.pad,
    "samples": if i.data.len() <= 256 { json!(i.data) } else { json!(format!("{} samples, fp {:x}", i.data.len(), fp(&i.data))) }})
}

pub fn check(ctx: &Ctx, group: &str, img: &Img) {
  let line = (img.w + img.pad) * img.n;
  let mut buf = vec![0u16; line * img.h];
  let mut g = Rng::new(img.w as u64 * 31 + img.h as u64);
  for row in 0..img.h {
    buf[row * line..row * line + img.w * img.n].copy_from_slice(&img.data[row * img.w * img.n..(row + 1) * img.w * img.n]);
    for p in img.w * img.n..line {
      // garbage in the padding must never influence the result (but stays inside the bit depth)
      buf[row * line + p] = (g.next() as u16) >> (16 - img.depth);
    }
  }
  let f = fp(&(&img.data, img.w, img.h, img.n, img.depth, img.pred, img.pad));
  let nontrivial = img.data.len() == 1 || img.data.iter().any(|v| *v != img.data[0]);
  ctx.case(f, nontrivial);
  let enc = match ctx.guard(|| LjpegCompressor::new(&buf, img.w, img.h, img.n, img.depth, img.pred, 0, img.pad).and_then(|c| c.encode())) {
    Ok(Ok(e)) => e,
    Ok(Err(e)) => return ctx.fail(&format!("{group}:encode"), format!("encoder refused a legal image: {e}"), desc(img)),
    Err(e) => return ctx.fail(&format!("{group}:encode"), format!("encoder {e}"), desc(img)),
  };
  ctx.outcome(fp(&enc));
  ctx.sample(group, || desc(img));
  match r::decode(&enc) {
    Ok(fr) => {
      if (fr.width, fr.height, fr.ncomp, fr.precision, fr.predictor, fr.pt) != (img.w, img.h, img.n, img.depth, img.pred, 0) {
        return ctx.fail(&format!("{group}:header"), format!("stream header {}x{}x{} p{} pred {} pt {} differs", fr.width, fr.height, fr.ncomp, fr.precision, fr.predictor, fr.pt), desc(img));
      }
      if fr.data != img.data {
        let k = fr.data.iter().zip(&img.data).position(|(a, b)| a != b).unwrap();
        return ctx.fail(&format!("{group}:refdecode"), format!("conforming decoder sees {} instead of {} at sample {k}", fr.data[k], img.data[k]), desc(img));
      }
    }
    Err(e) => return ctx.fail(&format!("{group}:conform"), format!("stream is not conforming: {e}"), desc(img)),
  }
  let own = ctx.guard(|| -> Result<Vec<u16>, String> {
    let d = LjpegDecompressor::new(&enc)?;
    if d.width() != img.w * img.n || d.height() != img.h {
      return Err(format!("own decoder reports {}x{}", d.width(), d.height()));
    }
    let mut out = vec![0u16; img.w * img.n * img.h];
    d.decode(&mut out, 0, img.w * img.n, img.w * img.n, img.h, false)?;
    Ok(out)
  });
  match own {
    Ok(Ok(out)) if out == img.data => {}
    Ok(Ok(out)) => {
      let k = out.iter().zip(&img.data).position(|(a, b)| a != b).unwrap();
      ctx.fail(&format!("{group}:owndecode"), format!("own decoder returns {} instead of {} at sample {k}", out[k], img.data[k]), desc(img))
    }
    Ok(Err(e)) => ctx.fail(&format!("{group}:owndecode"), format!("own decoder error: {e}"), desc(img)),
    Err(e) => ctx.fail(&format!("{group}:owndecode"), format!("own decoder {e}"), desc(img)),
  }
}

/// Build a single-row image (predictor-independent) whose differences have exactly the given class sequence.
pub fn row_from_diffs(diffs: &[u16], depth: u8) -> Vec<u16> {
  let mut cur: u16 = 1u16 << (depth - 1);
  diffs
    .iter()
    .map(|d| {
      cur = cur.wrapping_add(*d);
      cur
    })
    .collect()
}

pub fn diff_of_class(c: usize, k: u64) -> u16 {
  match c {
    0 => 0,
    16 => 0x8000,
    c => {
      let lo = 1u32 << (c - 1);
      let m = lo + (k as u32 % lo);
      if (k >> 20) & 1 == 1 { (m as i32).wrapping_neg() as u16 } else { m as u16 }
    }
  }
}

pub fn run(ctx: &Ctx) {
  // (a) exhaustive tiny images over a boundary alphabet
  let alpha16: [u16; 5] = [0, 1, 0x8000, 0xFFFE, 0xFFFF];
  let shapes: &[(usize, usize, usize, usize)] = if ctx.quick() {
    // w,h,n,alphabet size
    &[(1, 1, 1, 5), (1, 1, 2, 5), (1, 1, 3, 5), (1, 1, 4, 5), (2, 1, 1, 5), (1, 2, 1, 5), (2, 1, 2, 5), (1, 2, 2, 5), (2, 2, 1, 5), (3, 1, 1, 5), (1, 3, 1, 5), (3, 2, 1, 4), (2, 3, 1, 4), (2, 2, 2, 3), (2, 1, 3, 4)]
  } else {
    &[(1, 1, 1, 5), (1, 1, 2, 5), (1, 1, 3, 5), (1, 1, 4, 5), (2, 1, 1, 5), (1, 2, 1, 5), (2, 1, 2, 5), (1, 2, 2, 5), (2, 2, 1, 5), (3, 1, 1, 5), (1, 3, 1, 5), (3, 2, 1, 5), (2, 3, 1, 5), (2, 2, 2, 4), (2, 1, 3, 5), (1, 2, 3, 5), (2, 1, 4, 4), (3, 3, 1, 3), (2, 4, 1, 4)]
  };
  for (w, h, n, a) in shapes.iter().copied() {
    let cnt = w * h * n;
    let idx: Vec<u16> = match a {
      5 => alpha16.to_vec(),
      4 => vec![0, 1, 0x8000, 0xFFFF],
      _ => vec![0, 0x8000, 0xFFFF],
    };
    let total = a.pow(cnt as u32);
    ctx.par(&format!("tiny {w}x{h}x{n}"), total * 7, |i| {
      let pred = (i % 7) as u8 + 1;
      let d = digits(i / 7, &vec![a; cnt]);
      check(ctx, "tiny", &Img { w, h, n, depth: 16, pred, pad: 0, data: d.iter().map(|k| idx[*k]).collect() });
    });
  }
  // (b) every bit depth
  let depths: Vec<u8> = (2..=16).collect();
  ctx.par("bitdepths", depths.len() * 7 * 4 * 3, |i| {
    let d = digits(i, &[depths.len(), 7, 4, 3]);
    let depth = depths[d[0]];
    let n = d[2] + 1;
    let (w, h) = [(5, 4), (2, 2), (17, 3)][d[3]];
    let max = ((1u32 << depth) - 1) as u16;
    let al = [0, 1.min(max), max / 2, max / 2 + 1, max - 1, max];
    let mut g = Rng::new(i as u64);
    for k in 0..4u64 {
      let data: Vec<u16> = (0..w * h * n).map(|j| if k == 0 { al[(j * 7 + j / 5) % 6] } else { (g.next() as u16) & max }).collect();
      check(ctx, &format!("depth{depth}"), &Img { w, h, n, depth, pred: d[1] as u8 + 1, pad: k as usize % 3, data });
    }
  });
  // all two-sample images for depths 2..=5: complete value space
  for depth in 2..=ctx.pick(4u8, 6) {
    let m = 1usize << depth;
    ctx.par("smalldepth", m * m * m * 7, |i| {
      let d = digits(i, &[7, m, m, m]);
      let v = [d[1] as u16, d[2] as u16, d[3] as u16];
      check(ctx, "smalldepth", &Img { w: 2, h: 2, n: 1, depth, pred: d[0] as u8 + 1, pad: 0, data: vec![v[0], v[1], v[2], v[0] ^ v[2]] });
    });
  }
  // (c) every 16-bit difference, in every component position, for every predictor
  ctx.par("alldiffs", 7 * 4 * 16, |i| {
    let d = digits(i, &[7, 4, 16]);
    let n = d[1] + 1;
    let base = d[2] * 4096;
    let mut data = vec![];
    for k in 0..4096usize {
      for c in 0..n {
        // row pairs: second row differs from first by every value
        data.push(if c == k % n { (base + k) as u16 } else { 0x8000u16.wrapping_sub(k as u16) });
      }
    }
    let half = 64 * 64;
    check(ctx, "alldiffs", &Img { w: 64, h: half / 64, n, depth: 16, pred: d[0] as u8 + 1, pad: 0, data: data.clone() });
    // direct: single row where the successive differences are base..base+4096
    let diffs: Vec<u16> = (0..4096 * n).map(|k| (base + k / n) as u16).collect();
    let mut rows = vec![vec![]; n];
    for (k, dv) in diffs.iter().enumerate() {
      rows[k % n].push(*dv);
    }
    let cols: Vec<Vec<u16>> = rows.iter().map(|r| row_from_diffs(r, 16)).collect();
    let mut data = vec![];
    for k in 0..4096 {
      for c in 0..n {
        data.push(cols[c][k]);
      }
    }
    check(ctx, "alldiffs", &Img { w: 4096, h: 1, n, depth: 16, pred: d[0] as u8 + 1, pad: 0, data: data.clone() });
    check(ctx, "alldiffs", &Img { w: 1, h: 4096, n, depth: 16, pred: d[0] as u8 + 1, pad: 0, data });
  });
  // (d) class histograms: subsets
  let subsets: Vec<u32> = if ctx.quick() { (1u32..1 << 17).filter(|m| m.count_ones() <= 3 || m.count_ones() >= 16).collect() } else { (1u32..1 << 17).collect() };
  ctx.par("class subsets", subsets.len(), |i| {
    let m = subsets[i];
    let classes: Vec<usize> = (0..17).filter(|c| m >> c & 1 == 1).collect();
    let mut diffs = vec![];
    let mut g = Rng::new(i as u64);
    for (k, c) in classes.iter().enumerate() {
      for _ in 0..=(k * (i % 3)) {
        diffs.push(diff_of_class(*c, g.next() >> 8));
      }
    }
    let data = row_from_diffs(&diffs, 16);
    check(ctx, "subset", &Img { w: data.len(), h: 1, n: 1, depth: 16, pred: (i % 7) as u8 + 1, pad: 0, data });
  });
  // (e) skewed histograms: geometric / Fibonacci frequencies in every rotation and both directions -> codes beyond 16 bits before limiting
  let fib: Vec<usize> = {
    let mut v = vec![1usize, 1];
    while v.len() < 18 {
      v.push(v[v.len() - 1] + v[v.len() - 2]);
    }
    v
  };
  let ratios = ctx.pick(4usize, 8);
  ctx.par("skewed", 17 * 2 * 17 * ratios, |i| {
    let d = digits(i, &[17, 2, 17, ratios]);
    let used = d[2] + 1;
    let mut diffs = vec![];
    let mut g = Rng::new(i as u64);
    for k in 0..used {
      let c = if d[1] == 0 { (k + d[0]) % 17 } else { (17 + d[0] - k) % 17 };
      let f = match d[3] {
        0 => fib[k],
        1 => fib[k + 1],
        2 => (1usize << k).min(8192),
        3 => fib[k] + k,
        4 => k + 1,
        5 => (k + 1) * (k + 1),
        6 => fib[k].max(2),
        _ => fib[(k + 1).min(17)] + 1,
      };
      for _ in 0..f {
        diffs.push(diff_of_class(c, g.next() >> 8));
      }
    }
    // width is limited to 65535 samples per row
    diffs.truncate(65535);
    let data = row_from_diffs(&diffs, 16);
    check(ctx, "skewed", &Img { w: data.len(), h: 1, n: 1, depth: 16, pred: 1, pad: 0, data });
  });
  // (f) shapes
  let m = ctx.pick(20usize, 40);
  ctx.par("shapes", m * m * 4 * 7, |i| {
    let d = digits(i, &[7, 4, m, m]);
    let (w, h, n) = (d[2] + 1, d[3] + 1, d[1] + 1);
    for pad in 0..4 {
      let mut g = Rng::new(i as u64 * 4 + pad as u64);
      let mode = (i + pad) % 3;
      let data: Vec<u16> = (0..w * h * n)
        .map(|j| match mode {
          0 => (g.next() & 0xFFFF) as u16,
          1 => ((j * 37) % 4096) as u16,
          _ => 0x2000 + (g.next() & 0x3F) as u16,
        })
        .collect();
      check(ctx, "shapes", &Img { w, h, n, depth: if mode == 1 { 12 } else { 16 }, pred: d[0] as u8 + 1, pad, data });
    }
  });
  // (g) wide / tall extremes around the 16-bit size fields
  let big: &[(usize, usize)] = &[(65535, 1), (1, 65535), (65534, 2), (256, 256), (257, 255), (32768, 1)];
  ctx.par("extremes", big.len() * 4, |i| {
    let (w, h) = big[i / 4];
    let n = i % 4 + 1;
    let mut g = Rng::new(i as u64);
    let data: Vec<u16> = (0..w * h * n).map(|_| g.next() as u16 & 0x3FFF).collect();
    check(ctx, "extremes", &Img { w, h, n, depth: 14, pred: (i % 7) as u8 + 1, pad: 0, data });
  });
}
