//! C02: lossless JPEG decoding conforms to T.81 for every legal stream of the supported subset.
use super::c01::{diff_of_class, row_from_diffs};
use crate::Level;
use crate::ctx::*;
use crate::refs::ljpeg as r;
use rawler::decompressors::Decompressor;
use rawler::decompressors::ljpeg::{LJpegDecompressor, LjpegDecompressor};
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "Each case is a conforming stream made by an independent T.81 encoder (tables, selectors, component ids, marker layout, predictor, precision, shape enumerated) decoded by the real decoder into an enumerated output window; the result must equal the encoded samples and nothing outside the window may change. Non-trivial: stream with at least two samples.",
    bounds: "all predictors 1-7 x 1-4 components x precisions 2-16 x 9 Huffman table families x 4 marker layouts x listed shapes; every shape up to 12x12 with every output window; every 16-bit difference under every table family; all class subsets of size <=2 (quick) / <=17 (thorough)",
    assumptions: &["no restart intervals, no subsampling, point transform 0 (outside the supported subset)"],
  }
}

/// Families of legal Huffman code length assignments for the 17 classes.
pub fn table(family: usize, need: &[u8]) -> r::Table {
  let need: Vec<u8> = if need.is_empty() { vec![0] } else { need.to_vec() };
  let all: Vec<u8> = (0..17).collect();
  let lens: Vec<(u8, u8)> = match family {
    // flat 5 bit codes
    0 => all.iter().map(|v| (*v, 5)).collect(),
    // unary-like: 1,2,...,16,16 would be complete: all-ones must stay free, so 16 symbols 1..16 + one sharing: use 2..
    1 => all.iter().map(|v| (*v, (*v + 2).min(16))).collect::<Vec<_>>().into_iter().map(|(v, l)| if v >= 14 { (v, 16) } else { (v, l) }).collect(),
    // reversed unary: big classes get the short codes
    2 => all.iter().map(|v| { let k = 16 - *v; (*v, if k >= 14 { 16 } else { k + 2 }) }).collect(),
    // all codes 16 bits long
    3 => all.iter().map(|v| (*v, 16)).collect(),
    // minimal: only the needed classes, shortest legal flat length
    4 => {
      let n = need.len() as u32 + 1;
      let l = (32 - (n - 1).leading_zeros()).max(1) as u8;
      need.iter().map(|v| (*v, l)).collect()
    }
    // needed classes, skewed
    5 => need.iter().enumerate().map(|(i, v)| (*v, ((i + 1) as u8).min(16))).collect::<Vec<_>>().into_iter().enumerate().map(|(i, (v, l))| if i >= 14 { (v, 16) } else { (v, l) }).collect(),
    // standard-like DC lengths
    6 => {
      let l = [2u8, 3, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
      all.iter().map(|v| (*v, l[*v as usize])).collect()
    }
    // around the 13 bit decode cache boundary
    7 => all.iter().map(|v| (*v, [12u8, 13, 14, 15][*v as usize % 4])).collect(),
    // even/odd mix of very short and very long
    _ => all.iter().map(|v| (*v, if *v % 2 == 0 { 4 } else { 16 })).collect(),
  };
  r::Table::from_lengths(&lens)
}
pub const FAMILIES: usize = 9;

fn need(f: &r::Frame, c: usize) -> Vec<u8> {
  let mut s = std::collections::BTreeSet::new();
  for row in 0..f.height {
    for col in 0..f.width {
      let at = |rr: usize, k: usize| f.data[(rr * f.width + k) * f.ncomp + c] as i32;
      let a = if col > 0 { at(row, col - 1) } else { 0 };
      let b = if row > 0 { at(row - 1, col) } else { 0 };
      let cc = if row > 0 && col > 0 { at(row - 1, col - 1) } else { 0 };
      let p = r::predict(f.predictor, row, col, a, b, cc, f.precision, f.pt);
      s.insert(r::classify((at(row, col) - p) as u16).0);
    }
  }
  s.into_iter().collect()
}

/// Output window: columns (pixels) and rows taken, extra stride, x offset
#[derive(Clone, Copy, Debug)]
struct Win {
  cols: usize,
  rows: usize,
  x: usize,
  extra: usize,
}

fn check(ctx: &Ctx, group: &str, f: &r::Frame, family: usize, layout: usize, win: Win) {
  let n = f.ncomp;
  // layouts: 0 one table per component in its slot; 1 tables reversed slots; 2 shared table; 3 one DHT segment, before SOF
  let mut tables: Vec<(u8, r::Table)> = vec![];
  let mut sel = vec![];
  for c in 0..n {
    let slot = match layout {
      1 => (3 - c) as u8,
      2 => 0,
      _ => c as u8,
    };
    sel.push(slot);
    if layout == 2 {
      continue;
    }
    tables.push((slot, table((family + c * usize::from(layout == 1)) % FAMILIES, &need(f, c))));
  }
  if layout == 2 {
    let mut all: Vec<u8> = (0..n).flat_map(|c| need(f, c)).collect();
    all.sort();
    all.dedup();
    tables.push((0, table(family, &all)));
  }
  let comp_ids: Vec<u8> = (0..n)
    .map(|c| match layout {
      0 => c as u8,
      1 => (c + 1) as u8,
      2 => 200 - c as u8 * 7,
      _ => [b'R', b'G', b'B', b'X'][c],
    })
    .collect();
  let opts = r::EncOpts { tables, sel, comp_ids, one_dht: layout == 3, dht_before_sof: layout >= 2 };
  let enc = r::encode(f, &opts).expect("reference encoder");
  let d = || json!({"width": f.width, "height": f.height, "components": n, "precision": f.precision, "predictor": f.predictor, "table_family": family, "layout": layout, "window": format!("{win:?}"), "stream": if enc.len() < 400 {json!(enc.iter().map(|b| format!("{b:02x}")).collect::<String>())} else {json!(enc.len())}});
  ctx.case(fp(&(&enc, win.cols, win.rows, win.x, win.extra)), f.data.len() > 1);
  ctx.sample(group, d);
  let (ow, oh) = (win.cols * n, win.rows);
  let stride = win.x + ow + win.extra;
  let mut out = vec![0xA5A5u16; stride * oh];
  let res = ctx.guard(|| -> Result<(), String> {
    let dec = LjpegDecompressor::new(&enc)?;
    if (dec.width(), dec.height(), dec.components()) != (f.width * n, f.height, n) {
      return Err(format!("decoder reports {}x{} c{}", dec.width(), dec.height(), dec.components()));
    }
    dec.decode(&mut out, win.x, stride, ow, oh, false)
  });
  match res {
    Ok(Ok(())) => {}
    Ok(Err(e)) => return ctx.fail(&format!("{group}:error"), format!("decoder refused a conforming stream: {e}"), d()),
    Err(e) => return ctx.fail(&format!("{group}:panic"), format!("decoder {e}"), d()),
  }
  for row in 0..oh {
    for k in 0..stride {
      let got = out[row * stride + k];
      let exp = if k >= win.x && k < win.x + ow { f.data[row * f.width * n + k - win.x] } else { 0xA5A5 };
      if got != exp {
        return ctx.fail(&format!("{group}:sample"), format!("row {row} position {k}: got {got}, expected {exp}"), d());
      }
    }
  }
  ctx.outcome(fp(&out));
  if win.cols == f.width && win.x == 0 && win.extra == 0 {
    // row oriented interface with skipped rows
    for skip in 0..f.height.min(3) {
      let rows = f.height - skip;
      let mut out = vec![0u16; ow * rows];
      let res = ctx.guard(|| LJpegDecompressor::new().decompress(&enc, skip, out.chunks_exact_mut(ow), ow));
      if !matches!(res, Ok(Ok(()))) || out[..] != f.data[skip * ow..] {
        return ctx.fail(&format!("{group}:rows"), format!("row interface with skip {skip} differs ({:?})", res.err()), d());
      }
    }
  }
}

fn full(f: &r::Frame) -> Win {
  Win { cols: f.width, rows: f.height, x: 0, extra: 0 }
}

pub fn run(ctx: &Ctx) {
  // grid: predictor x comps x precision x family x layout x shape
  let shapes = [(1usize, 1usize), (2, 2), (5, 3), (3, 7), (16, 4)];
  let radix = [7, 4, 15, FAMILIES, 4, shapes.len()];
  ctx.par("grid", space(&radix), |i| {
    let d = digits(i, &radix);
    let (w, h) = shapes[d[5]];
    let n = d[1] + 1;
    let precision = d[2] as u8 + 2;
    let mask = ((1u32 << precision) - 1) as u16;
    let mut g = Rng::new(i as u64);
    let data: Vec<u16> = (0..w * h * n).map(|k| if (i + k) % 4 == 0 { [0, mask, mask / 2, mask / 2 + 1][(g.next() % 4) as usize] } else { g.next() as u16 & mask }).collect();
    let f = r::Frame { precision, width: w, height: h, ncomp: n, predictor: d[0] as u8 + 1, pt: 0, data };
    check(ctx, "grid", &f, d[3], d[4], full(&f));
  });
  // windows
  let m = ctx.pick(7usize, 12);
  ctx.par("windows", m * m * 4 * 7, |i| {
    let d = digits(i, &[7, 4, m, m]);
    let (w, h, n) = (d[2] + 1, d[3] + 1, d[1] + 1);
    let mut g = Rng::new(i as u64);
    let data: Vec<u16> = (0..w * h * n).map(|_| g.next() as u16 & 0x3FFF).collect();
    let f = r::Frame { precision: 14, width: w, height: h, ncomp: n, predictor: d[0] as u8 + 1, pt: 0, data };
    for cols in 1..=w {
      for rows in 1..=h {
        // narrower output only matches for predictors when the neighbours are inside: all predictors look left/up only
        for (x, extra) in [(0, 0), (n, 0), (2 * n, n + 1), (0, 3)] {
          check(ctx, "windows", &f, (i + cols) % FAMILIES, rows % 4, Win { cols, rows, x, extra });
        }
      }
    }
  });
  // every difference under every family
  ctx.par("alldiffs", FAMILIES * 16, |i| {
    let d = digits(i, &[FAMILIES, 16]);
    let diffs: Vec<u16> = (0..4096u32).map(|k| (k * 16 + d[1] as u32) as u16).collect();
    let data = row_from_diffs(&diffs, 16);
    let f = r::Frame { precision: 16, width: 4096, height: 1, ncomp: 1, predictor: 1, pt: 0, data: data.clone() };
    check(ctx, "alldiffs", &f, d[0], 0, full(&f));
    for p in 1..=7 {
      let f = r::Frame { precision: 16, width: 64, height: 64, ncomp: 1, predictor: p, pt: 0, data: data.clone() };
      check(ctx, "alldiffs", &f, d[0], 0, full(&f));
    }
  });
  // class subsets with minimal tables
  let lim = ctx.pick(3, 17);
  let subsets: Vec<u32> = (1u32..1 << 17).filter(|m| m.count_ones() <= lim).collect();
  ctx.par("subsets", subsets.len(), |i| {
    let m = subsets[i];
    let mut g = Rng::new(i as u64);
    let mut diffs = vec![];
    for c in (0..17).filter(|c| m >> c & 1 == 1) {
      for _ in 0..3 {
        diffs.push(diff_of_class(c, g.next() >> 8));
      }
    }
    let data = row_from_diffs(&diffs, 16);
    for family in [4, 5, 3] {
      let f = r::Frame { precision: 16, width: data.len(), height: 1, ncomp: 1, predictor: 1, pt: 0, data: data.clone() };
      check(ctx, "subsets", &f, family, 0, full(&f));
    }
  });
  // exhaustive tiny images over boundary alphabet, two code families
  let al = [0u16, 1, 0x7FFF, 0x8000, 0xFFFF];
  for (w, h, n) in [(2usize, 2usize, 1usize), (2, 1, 2), (3, 1, 1), (1, 1, 4), (3, 2, 1)] {
    let cnt = w * h * n;
    if cnt > 4 && ctx.quick() {
      continue;
    }
    ctx.par("tiny", 5usize.pow(cnt as u32) * 7, |i| {
      let d = digits(i / 7, &vec![5; cnt]);
      let f = r::Frame { precision: 16, width: w, height: h, ncomp: n, predictor: (i % 7) as u8 + 1, pt: 0, data: d.iter().map(|k| al[*k]).collect() };
      check(ctx, "tiny", &f, i % FAMILIES, (i / 3) % 4, full(&f));
    });
  }
}
