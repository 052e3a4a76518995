//! C15: whole camera raw files decode to exactly the stored samples.
use crate::Level;
use crate::ctx::*;
use crate::refs::rw2::*;
use crate::refs::vendor::*;
use rawler::RawImageData;
use rawler::decoders::RawDecodeParams;
use rawler::rawsource::RawSource;
use serde_json::{Value, json};

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one complete camera file from an independent writer (container, tags, compression), decoded through the library's decoder for the camera and compared sample by sample with the image that was stored. Non-trivial: the samples are not all equal.",
    bounds: "Panasonic formats 4 (with and without block rotation), 5, 6, 7, 8 (strip grids up to 3x3, file orders, gamma tables) at 12 and 14 bits and the packed forms; all image sizes of the bounds, all four aspect modes, directories before or after the data",
    assumptions: &["image sizes are multiples of the format's sample group, as cameras write them"],
  }
}

pub fn decode(ctx: &Ctx, file: &[u8], index: usize) -> Result<(usize, usize, usize, Vec<u16>), String> {
  ctx.guard(|| {
    let src = RawSource::new_from_slice(file);
    let dec = rawler::get_decoder(&src).map_err(|e| format!("decoder: {e:?}"))?;
    let p = RawDecodeParams { image_index: index };
    let img = dec.raw_image(&src, &p, false).map_err(|e| format!("{e:?}"))?;
    match img.data {
      RawImageData::Integer(v) => Ok((img.width, img.height, img.cpp, v)),
      _ => Err("not integer data".into()),
    }
  })?
}

/// Decode and compare.
pub fn same(ctx: &Ctx, form: &str, file: &[u8], w: usize, h: usize, cpp: usize, px: &[u16], js: &dyn Fn() -> Value) {
  ctx.case(fp(&(form, w, h, px, file.len())), px.iter().any(|x| *x != px[0]));
  ctx.sample(form, js);
  match decode(ctx, file, 0) {
    Ok((gw, gh, gc, got)) => {
      ctx.outcome(fp(&got));
      if (gw, gh, gc) != (w, h, cpp) || got.len() != px.len() {
        return ctx.fail(&format!("{form}:size"), format!("{gw}x{gh}x{gc} ({} samples) for {w}x{h}x{cpp}", got.len()), js());
      }
      if let Some(p) = (0..px.len()).find(|p| got[*p] != px[*p]) {
        let n = (0..px.len()).filter(|p| got[*p] != px[*p]).count();
        ctx.fail(&format!("{form}:sample"), format!("row {} column {}: {} for stored {}, {n} of {} differ", p / (w * cpp), p % (w * cpp), got[p], px[p], px.len()), js());
      }
    }
    Err(e) => ctx.fail(&format!("{form}:error"), e, js()),
  }
}

/// The first choices spell the index, later ones are spread.
fn chooser(i: usize) -> impl FnMut(&str, usize) -> usize {
  let (mut k, mut cnt, mut r) = (i, 0, Rng::new(i as u64));
  move |_, m| {
    cnt += 1;
    if cnt <= 8 {
      let c = k % m;
      k /= m;
      c
    } else {
      r.below(m as u64) as usize
    }
  }
}

fn content(w: usize, h: usize, bits: u32, k: usize) -> Im {
  super::c08::family(w, h, bits, k)
}

/// A camera that knows the aspect mode of the size.
fn model(w: usize, h: usize) -> &'static str {
  if (125..145).contains(&(w * 100 / h)) { "DC-G9" } else { "DC-GH5S" }
}

/// Sizes of every aspect mode with a width of a multiple of `unit`.
fn sizes(unit: usize) -> Vec<(usize, usize)> {
  let mut v = vec![];
  for k in 1..=9 {
    let w = unit * k;
    for ratio in [1.34, 1.0, 1.2, 1.28, 1.43, 1.5, 1.6, 1.8, 3.0] {
      let h = (w as f64 / ratio).round().max(1.0) as usize;
      let ok = model(w, h) == "DC-G9" || w >= 60;
      if ok && !v.contains(&(w, h)) {
        v.push((w, h));
      }
    }
  }
  v
}

fn panasonic(ctx: &Ctx) {
  // format 4 (and 3)
  let sz = sizes(14);
  let n = ctx.pick(4000, 100_000);
  ctx.par("panasonic 4", n, |i| {
    let (w, h) = sz[i / 4 % sz.len()];
    let (split, vf) = (i % 2 == 1, i / 2 % 2 == 1);
    let (pk, px) = pana4(w / 14 * h, chooser(i / 4 / sz.len()));
    let f = file(root(model(w, h), w, h, 12, 3 + (i / 2 % 2) as u16), pana_blocks(&pk, split.then_some(0x2008)), split, vf, i % 3);
    // without the rotation the form is chosen by the size of the data
    if !split && f.len() >= w * h * 3 / 2 {
      return narrow(ctx, i);
    }
    same(ctx, "panasonic 4", &f, w, h, 1, &px, &|| json!({"w": w, "h": h, "rotated": split, "case": i}));
  });
  // images of several blocks: every row of packets crosses the block structure elsewhere
  let big = [(112, 128), (84, 256), (70, 600), (1400, 12), (126, 85), (14336, 2), (140, 110), (112, 80)];
  ctx.par("panasonic 4 blocks", ctx.pick(64, 800), |i| {
    let (w, h) = big[i / 2 % big.len()];
    let split = i % 2 == 1;
    let (pk, px) = pana4(w / 14 * h, chooser(i + 7));
    let f = file(root(model(w, h), w, h, 12, 4), pana_blocks(&pk, split.then_some(0x2008)), split, false, 0);
    if !split && f.len() >= w * h * 3 / 2 {
      return;
    }
    same(ctx, "panasonic 4", &f, w, h, 1, &px, &|| json!({"w": w, "h": h, "rotated": split, "case": i, "blocks": pk.len().div_ceil(0x4000)}));
  });
  // formats 5 and 7: plain samples
  for bps in [12u32, 14] {
    let per = 128 / bps as usize;
    let sz = sizes(per);
    for fmt in [5u16, 7] {
      let more: &[(usize, usize)] = if fmt == 5 { &[(64, 144), (72, 129), (60, 400)] } else { &[(64, 30)] };
      let mut all = sz.clone();
      all.extend(more.iter().map(|(w, h)| (w * per, *h)));
      ctx.par(&format!("panasonic {fmt} {bps} bit"), all.len() * ctx.pick(24, 120), |i| {
        let (w, h) = all[i % all.len()];
        let k = i / all.len();
        let im = content(w, h, bps, k);
        let mut data = pana_plain(&im.d, bps);
        if fmt == 5 {
          data = pana_blocks(&data, Some(0x2008));
        }
        let f = file(root(model(w, h), w, h, bps, fmt), data, true, k % 2 == 1, k % 3);
        same(ctx, &format!("panasonic {fmt} {bps} bit"), &f, w, h, 1, &im.d, &|| json!({"w": w, "h": h, "family": k}));
      });
    }
    // format 6
    let unit = if bps == 14 { 11 } else { 14 };
    let mut all = sizes(unit);
    all.push((unit * 40, 60));
    ctx.par(&format!("panasonic 6 {bps} bit"), all.len() * ctx.pick(600, 20_000), |i| {
      let (w, h) = all[i % all.len()];
      let k = i / all.len();
      if w > 400 && k >= 40 {
        return;
      }
      let (pk, px) = pana6(w / unit * h, bps, chooser(k));
      let f = file(root(model(w, h), w, h, bps, 6), pk, true, k % 2 == 1, k % 3);
      same(ctx, &format!("panasonic 6 {bps} bit"), &f, w, h, 1, &px, &|| json!({"w": w, "h": h, "case": k}));
    });
  }
  pana8(ctx);
}

/// The older packed forms, chosen by the size of the data.
fn narrow(ctx: &Ctx, i: usize) {
  let (w, h) = [(80, 60), (40, 30), (60, 40), (70, 40), (60, 44), (100, 70)][i / 2 % 6];
  let k = i / 12;
  let im = content(w, h, 12, k);
  let (data, form) = if i % 2 == 0 {
    (im.d.iter().flat_map(|v| (v << 4 | (*v & 15)).to_le_bytes()).collect::<Vec<u8>>(), "panasonic 16 bit")
  } else {
    // ten samples in 15 bytes and a control byte
    let mut out = vec![];
    for c in im.d.chunks(10) {
      let mut b = B::default();
      c.iter().for_each(|v| b.lsb(12, *v as u32));
      out.extend(b.bytes_lsb());
      out.push(0xC3);
    }
    (out, "panasonic 12 bit with control bytes")
  };
  let f = file(root("DMC-FZ50", w, h, 12, 0), data, false, k % 2 == 1, k % 3);
  let f = if form.contains("control") { f } else { f };
  same(ctx, form, &f, w, h, 1, &im.d, &|| json!({"w": w, "h": h, "family": k}));
}

/// Tone curves of six linear segments: (first input, output there, shift; negative = left).
fn gammas() -> Vec<Option<[(u32, u32, i32); 6]>> {
  vec![
    None,
    Some([(0, 0, 0), (0xFFFF, 0, 0), (0xFFFF, 0, 0), (0xFFFF, 0, 0), (0xFFFF, 0, 0), (0xFFFF, 0, 0)]),
    Some([(0, 0, 1), (1000, 500, 0), (2000, 1500, -1), (3000, 3500, 2), (4000, 3750, -2), (6000, 11750, 3)]),
    Some([(0, 100, -3), (64, 612, -2), (500, 2356, -1), (4000, 9356, 0), (9000, 14356, 1), (20000, 19856, 2)]),
  ]
}
fn tone(g: &[(u32, u32, i32); 6], clip: u16, v: u16) -> u16 {
  let s = (0..6).rev().find(|k| *k == 0 || v as u32 >= g[*k].0).unwrap();
  let (x, y, n) = g[s];
  let d = v as u32 - x;
  let d = if n > 0 { (d + (1 << (n - 1))) >> n } else { d << -n };
  (d + y).min(clip as u32) as u16
}

fn pana8(ctx: &Ctx) {
  let lens: Vec<[u8; 17]> = vec![
    // the table of the samples
    [10, 11, 8, 9, 7, 4, 4, 3, 3, 2, 3, 3, 4, 5, 6, 12, 12],
    [4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5],
    [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16],
    [16, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1],
  ];
  let grids: Vec<(Vec<usize>, Vec<usize>)> = vec![
    (vec![8], vec![6]),
    (vec![6, 2], vec![6]),
    (vec![8], vec![2, 4]),
    (vec![64], vec![2]),
    (vec![2; 32], vec![6]),
    (vec![8, 4], vec![6, 4]),
    (vec![6, 10, 4], vec![4, 2, 8]),
    (vec![20, 12], vec![24]),
    (vec![4, 4], vec![2, 2, 2]),
    (vec![16, 48], vec![8, 8, 8]),
    (vec![64, 32], vec![32, 8]),
    (vec![64, 32, 32], vec![64, 80]),
  ];
  let gs = gammas();
  let rx = [grids.len(), lens.len(), 3, gs.len(), ctx.pick(24, 120)];
  ctx.par("panasonic 8", rx.iter().product(), |i| {
    let dg = digits(i, &rx);
    let (cols, rows) = grids[dg[0]].clone();
    let (w, h) = (cols.iter().sum(), rows.iter().sum());
    let k = dg[4];
    let g = &gs[dg[3]];
    let bits = [12, 14, 16][k % 3];
    let im = content(w, h, bits, k / 2);
    let p = V8 {
      lens: lens[dg[1]],
      init: [[0; 4], [2048, 2000, 1000, 4000], [1, 2, 3, 4]][dg[2]],
      clip: if bits == 16 { 0xFFFF } else { (1 << bits) - 1 },
      cols: cols.clone(),
      rows: rows.clone(),
      gamma: g.map(|g| {
        (
          g.iter().map(|(_, _, n)| if *n < 0 { 0x10 | n.unsigned_abs() } else { *n as u32 }).collect(),
          g.iter().map(|(x, y, _)| y << 16 | x).collect(),
        )
      }),
    };
    let px: Vec<u16> = im.d.iter().map(|v| g.map_or(*v, |g| tone(&g, p.clip, *v))).collect();
    let f = file8(model(w, h), &im, bits, &p, k % 2 == 1, k % 3, k / 2 % 3);
    same(ctx, "panasonic 8", &f, w, h, 1, &px, &|| json!({"columns": cols, "curve": dg[3], "rows": rows, "lengths": p.lens, "initial": p.init, "bits": bits, "family": k / 2}));
  });
}

pub fn run(ctx: &Ctx) {
  panasonic(ctx);
}
