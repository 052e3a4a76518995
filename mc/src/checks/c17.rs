//! C17: Canon CRX images and CR3 files decode to exactly the stored samples.
use crate::Level;
use crate::ctx::*;
use crate::refs::crx::*;
use crate::refs::{boxes, tiff};
use rawler::decompressors::crx::decompress_crx_image;
use rawler::formats::bmff::ext_cr3::cmp1::Cmp1Box;
use serde_json::{Value, json};

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one CRX image (bands of all planes and tiles, entropy coded by an independent encoder), decoded by the real decoder and compared sample by sample with an independent reconstruction (inverse 5/3 transform of the whole plane, dequantisation, colour step). Non-trivial: the samples are not all equal.",
    bounds: "levels 0 to 3; all plane sizes of the bounds; tile grids up to 3x3 (one row of tiles with wavelets); 8 to 14 bits; colour modes 0 and 3; versions 1 (all quantisation parameters) and 2 (tables of parameters, base and multiplier); all planes over a small alphabet up to the bound plus patterns; complete CR3 files with several images per track",
    assumptions: &["rounded-bits mode and tile rows with wavelets are left out: no known camera writes them", "the levels' widths and heights are at least 3, as in all camera files"],
  }
}

fn cmp1(im: &Image, hdr: usize) -> Cmp1Box {
  Cmp1Box {
    header: Default::default(),
    unknown1: -1,
    header_size: 48,
    version: if im.v2 { 0x200 } else { 0x100 },
    version_sub: 0,
    f_width: im.w as u32,
    f_height: im.h as u32,
    tile_width: im.tile_w as u32,
    tile_height: im.tile_h as u32,
    n_bits: im.bits,
    n_planes: 4,
    cfa_layout: 0,
    enc_type: im.enc,
    image_levels: im.levels as u8,
    has_tile_cols: 0,
    has_tile_rows: 0,
    mdat_hdr_size: hdr as u32,
    ext_header: 0,
    median_bits: im.median.unwrap_or(im.bits),
  }
}

fn describe(im: &Image, more: Value) -> Value {
  json!({"size": [im.w, im.h], "tile": [im.tile_w, im.tile_h], "levels": im.levels, "enc": im.enc, "bits": im.bits, "median": im.median, "v2": im.v2, "more": more})
}

fn compare(ctx: &Ctx, key: &str, im: &Image, data: &[u8], hdr: usize, expect: &[u16], js: &dyn Fn() -> Value) {
  ctx.case(fp(&(key, im.w, im.h, im.tile_w, im.tile_h, im.levels, im.enc, data)), expect.iter().any(|x| *x != expect[0]));
  ctx.sample(key, js);
  let c = cmp1(im, hdr);
  match ctx.guard(|| decompress_crx_image(data, &c).map_err(|e| format!("{e:?}"))) {
    Ok(Ok(got)) => {
      ctx.outcome(fp(&got));
      if got.len() != expect.len() {
        return ctx.fail(&format!("{key}:size"), format!("{} samples for {}", got.len(), expect.len()), js());
      }
      if let Some(p) = (0..expect.len()).find(|p| got[*p] != expect[*p]) {
        let n = (0..expect.len()).filter(|p| got[*p] != expect[*p]).count();
        ctx.fail(&format!("{key}:sample"), format!("row {} column {}: {} for stored {}, {n} of {} differ", p / im.w, p % im.w, got[p], expect[p], got.len()), js());
      }
    }
    Ok(Err(e)) | Err(e) => ctx.fail(&format!("{key}:error"), e, js()),
  }
}

/// The four planes of a mosaic, relative to the middle value.
fn split(im: &Image, px: &[u16]) -> [Grid; 4] {
  let mid = 1 << (im.median.unwrap_or(im.bits) - 1);
  std::array::from_fn(|k| (0..im.h / 2).map(|y| (0..im.w / 2).map(|x| px[(2 * y + k / 2) * im.w + 2 * x + k % 2] as i32 - mid).collect()).collect())
}

/// Bands of a plane, coarsest first.
fn bands(g: &Grid, levels: usize) -> Vec<Grid> {
  let mut out: Vec<Grid> = vec![];
  let mut ll = g.clone();
  for _ in 0..levels {
    let [l, hl, lh, hh] = forward2(&ll);
    ll = l;
    out = [hl, lh, hh].into_iter().chain(out).collect();
  }
  std::iter::once(ll).chain(out).collect()
}
fn rebuild(b: &[Grid]) -> Grid {
  let mut ll = b[0].clone();
  for k in (1..b.len()).step_by(3) {
    ll = inverse2(&ll, &b[k], &b[k + 1], &b[k + 2]);
  }
  ll
}
fn scale(g: &Grid, f: &dyn Fn(usize, usize) -> i32) -> Grid {
  g.iter().enumerate().map(|(y, r)| r.iter().enumerate().map(|(x, v)| v * f(y, x)).collect()).collect()
}
fn quantise(g: &Grid, f: &dyn Fn(usize, usize) -> i32) -> Grid {
  g.iter().enumerate().map(|(y, r)| r.iter().enumerate().map(|(x, v)| v / f(y, x)).collect()).collect()
}

fn content(im: &Image, k: usize) -> Vec<u16> {
  super::c08::family(im.w, im.h, im.median.unwrap_or(im.bits) as u32, k).d
}
fn base(w: usize, h: usize) -> Image {
  Image { w, h, tile_w: w, tile_h: h, levels: 0, enc: 0, bits: 14, median: None, v2: false }
}

/// Planes for the colour mode 3 that have a mosaic; any values are allowed, the decoder defines the samples.
fn planes3(im: &Image, px: &[u16], k: usize) -> [Grid; 4] {
  let p = split(im, px);
  if im.enc == 0 {
    return p;
  }
  let mut q = p.clone();
  for y in 0..im.h / 2 {
    for x in 0..im.w / 2 {
      let v: [i32; 4] = std::array::from_fn(|c| p[c][y][x]);
      // luminance and three differences; the factor brings some of them to the limits
      let s = [1, 2, 1, 3][k % 4];
      let e = [(v[1] + v[2]) >> 1, (v[3] - v[0]) / s, v[1] - v[2], (v[0] - v[3]) / s];
      (0..4).for_each(|c| q[c][y][x] = e[c]);
    }
  }
  q
}

fn lossless(ctx: &Ctx) {
  // every size, pattern and depth, one tile
  let (mw, mh) = (ctx.pick(24, 40), ctx.pick(8, 14));
  let kinds = ctx.pick(14, 60);
  let bits = [14u8, 8, 9, 10, 12, 13];
  let n = mw * mh * kinds * bits.len() * 2;
  ctx.par("lossless sizes", n, |i| {
    let d = digits(i, &[2, kinds, mw, mh, bits.len()]);
    let mut im = base(2 * (d[2] + 1), 2 * (d[3] + 1));
    im.bits = bits[d[4]];
    im.enc = [0, 3][d[0]];
    let px = content(&im, d[1]);
    let p = planes3(&im, &px, d[1]);
    let expect = mosaic(&im, &p);
    if im.enc == 0 {
      assert_eq!(expect, px);
    }
    let planes: Vec<Vec<Grid>> = p.iter().map(|g| vec![g.clone()]).collect();
    let (data, hdr) = encode(&im, &planes, &[4], None);
    compare(ctx, &format!("lossless enc {}", im.enc), &im, &data, hdr, &expect, &|| describe(&im, json!(d[1])));
  });
  // all planes of small sizes over an alphabet
  let shapes: &[(usize, usize, usize)] = if ctx.quick() { &[(3, 2, 4), (4, 2, 3), (2, 3, 4), (3, 3, 3), (5, 2, 2), (9, 1, 3), (6, 2, 2)] } else { &[(3, 2, 6), (4, 2, 4), (2, 3, 6), (3, 3, 4), (4, 3, 3), (5, 2, 4), (10, 1, 4), (7, 2, 2), (6, 3, 2), (5, 3, 2)] };
  for (w, h, a) in shapes {
    let alpha = [0i32, -1, 1, 40, -8192, 8191];
    let count = a.pow((w * h) as u32);
    ctx.par("small planes", count.div_ceil(4), |i| {
      let im = base(2 * w, 2 * h);
      let p: [Grid; 4] = std::array::from_fn(|k| {
        let mut v = (4 * i + k) % count;
        (0..*h)
          .map(|_| {
            (0..*w)
              .map(|_| {
                let x = alpha[v % a];
                v /= a;
                x
              })
              .collect()
          })
          .collect()
      });
      let expect = mosaic(&im, &p);
      let planes: Vec<Vec<Grid>> = p.iter().map(|g| vec![g.clone()]).collect();
      let (data, hdr) = encode(&im, &planes, &[4], None);
      compare(ctx, "small plane", &im, &data, hdr, &expect, &|| describe(&im, json!(p.to_vec())));
    });
  }
  // wide lines: long runs, all run states and every run length
  let widths: Vec<usize> = if ctx.quick() { vec![33, 130, 700] } else { vec![33, 64, 130, 257, 700, 1500, 4000] };
  for w in widths {
    ctx.par("long runs", w, |i| {
      let im = base(2 * w, 6);
      let mk = |k: usize| -> Grid {
        (0..3)
          .map(|y| {
            (0..w)
              .map(|x| match k {
                0 => (x >= i) as i32,
                1 => (x == i || (y == 1 && x % (i + 1) == 0)) as i32 * 5,
                2 => (x == (i * (y + 1)) % w) as i32 * -300,
                _ => ((x / (i + 1)) % 3) as i32,
              })
              .collect()
          })
          .collect()
      };
      let p: [Grid; 4] = std::array::from_fn(mk);
      let expect = mosaic(&im, &p);
      let planes: Vec<Vec<Grid>> = p.iter().map(|g| vec![g.clone()]).collect();
      let (data, hdr) = encode(&im, &planes, &[4], None);
      compare(ctx, "long runs", &im, &data, hdr, &expect, &|| describe(&im, json!({"run": i})));
    });
  }
  // tile grids
  let kinds = ctx.pick(6, 12);
  let n = 3 * 3 * 4 * 4 * kinds * 2 * 2;
  ctx.par("tile grids", n, |i| {
    let d = digits(i, &[3, 3, 4, 4, kinds, 2, 2]);
    // tile size and a last tile of another size
    let (tw, th) = (2 * [3, 5, 8, 11][d[2]], 2 * [4, 2, 7, 5][d[3]]);
    let cut = if d[5] == 1 { 2 } else { 0 };
    let mut im = base(tw * (d[0] + 1) - cut * (d[0] > 0) as usize, th * (d[1] + 1) - cut * (d[1] > 0) as usize);
    im.tile_w = tw;
    im.tile_h = th;
    im.enc = [0, 3][d[6]];
    let px = content(&im, d[4] * 2 + 3);
    let p = planes3(&im, &px, d[4]);
    let expect = mosaic(&im, &p);
    let planes: Vec<Vec<Grid>> = p.iter().map(|g| vec![g.clone()]).collect();
    let (data, hdr) = encode(&im, &planes, &[4], None);
    compare(ctx, &format!("tile grid {}x{}", d[0] + 1, d[1] + 1), &im, &data, hdr, &expect, &|| describe(&im, json!(d[4])));
  });
}

fn from_bands(im: &Image, b: &[Vec<Grid>]) -> Vec<u16> {
  let p: [Grid; 4] = std::array::from_fn(|k| rebuild(&b[k]));
  mosaic(im, &p)
}

fn wavelet(ctx: &Ctx) {
  // single tile, every size
  let span = ctx.pick(18, 28);
  let kinds = ctx.pick(6, 14);
  ctx.par("wavelet sizes", 3 * span * span * kinds * 2, |i| {
    let d = digits(i, &[2, kinds, 3, span, span]);
    let levels = d[2] + 1;
    // every level's transform has at least three rows and columns
    let min = [3, 5, 9][d[2]];
    let mut im = base(2 * (min + d[3]), 2 * (min + d[4]));
    im.levels = levels;
    im.enc = [0, 3][d[0]];
    let px = content(&im, d[1] * 2 + 3);
    let p = planes3(&im, &px, d[1]);
    let b: Vec<Vec<Grid>> = p.iter().map(|g| bands(g, levels)).collect();
    let expect = from_bands(&im, &b);
    if im.enc == 0 {
      assert_eq!(expect, px, "the transform must be reversible");
    }
    let (data, hdr) = encode(&im, &b, &[4; 10], None);
    compare(ctx, &format!("wavelet levels {levels}"), &im, &data, hdr, &expect, &|| describe(&im, json!(d[1])));
  });
  // rows of tiles: whole multiples of the coarsest sample
  let kinds = ctx.pick(4, 12);
  ctx.par("wavelet tiles", 3 * 3 * 3 * 4 * kinds * 2, |i| {
    let d = digits(i, &[2, kinds, 3, 3, 3, 4]);
    let levels = d[2] + 1;
    let cols = d[3] + 1;
    let unit = 1 << levels;
    let tw = 2 * unit * (11usize.div_ceil(unit) + d[4]);
    let mut im = base(tw * cols - 2 * d[5] * (cols > 1) as usize, 2 * (9 + d[5]));
    im.tile_w = tw;
    im.tile_h = im.h;
    im.levels = levels;
    im.enc = [0, 3][d[0]];
    let px = content(&im, d[1] * 2 + 3);
    let p = planes3(&im, &px, d[1]);
    let b: Vec<Vec<Grid>> = p.iter().map(|g| bands(g, levels)).collect();
    let expect = from_bands(&im, &b);
    let (data, hdr) = encode(&im, &b, &[4; 10], None);
    compare(ctx, &format!("wavelet tiles levels {levels}"), &im, &data, hdr, &expect, &|| describe(&im, json!(d[1])));
  });
  // version 1: every quantisation parameter in every band
  let kinds = ctx.pick(2, 5);
  ctx.par("quantisation 1", 3 * 60 * 11 * kinds, |i| {
    let d = digits(i, &[kinds, 11, 60, 3]);
    let levels = d[3] + 1;
    let nb = 3 * levels + 1;
    if d[1] > nb {
      return;
    }
    // a step of at least one exists from parameter 4 on
    let q: Vec<u32> = (0..nb).map(|k| if d[1] == nb || d[1] == k { 4 + d[2] as u32 } else { 4 }).collect();
    let mut im = base(38, 26);
    im.levels = levels;
    let px = content(&im, [5, 9, 8, 6, 10][d[0]]);
    let p = split(&im, &px);
    let st = |k: usize| step(q[k] as i32) as i32;
    let coded: Vec<Vec<Grid>> = p.iter().map(|g| bands(g, levels).iter().enumerate().map(|(k, b)| quantise(b, &|_, _| st(k))).collect()).collect();
    let full: Vec<Vec<Grid>> = coded.iter().map(|b| b.iter().enumerate().map(|(k, b)| scale(b, &|_, _| st(k))).collect()).collect();
    let expect = from_bands(&im, &full);
    let (data, hdr) = encode(&im, &coded, &q, None);
    compare(ctx, &format!("quantisation parameter levels {levels}"), &im, &data, hdr, &expect, &|| describe(&im, json!({"q": q})));
  });
  // version 2: tables
  let sizes = ctx.pick(6, 10);
  ctx.par("quantisation 2", 3 * sizes * sizes * 8 * 5, |i| {
    let d = digits(i, &[3, sizes, sizes, 8, 5]);
    let levels = d[0] + 1;
    let nb = 3 * levels + 1;
    let min = [3, 5, 9][d[0]];
    let mut im = base(2 * (min + d[1] * 3), 2 * (min + d[2] * 2 + 1));
    im.levels = levels;
    im.v2 = true;
    let (pw, ph) = (im.w / 2, im.h / 2);
    let (qw, qh) = (pw.div_ceil(8), ph.div_ceil(2));
    let mut r = Rng::new(i as u64);
    let qp: Grid = (0..qh)
      .map(|y| {
        (0..qw)
          .map(|x| match d[3] {
            0 => 4,
            1 => 30,
            2 => (x * 3 + y * 5) as i32 % 50,
            3 => r.below(60) as i32,
            4 => if (x + y) % 2 == 0 { 0 } else { 60 },
            5 => 36 + (y % 12) as i32,
            6 => (60 - y as i32 * 3).max(0),
            _ => if x == 0 { 50 } else { 5 },
          })
          .collect()
      })
      .collect();
    let band: Vec<(i32, u16)> = (0..nb)
      .map(|k| match d[4] {
        0 => (1, 0),
        1 => (0, 8),
        2 => (k as i32, 8),
        3 => (-20, 3 + k as u16),
        _ => (5 * k as i32, 20),
      })
      .collect();
    let factor = |k: usize, y: usize, x: usize| -> i32 {
      let lev = if k == 0 { levels } else { levels - (k - 1) / 3 };
      let row = |r: usize| &qp[r.min(qh - 1)];
      let c = x >> (3 - lev);
      let q = match lev {
        1 => row(y)[c],
        2 => (row(2 * y)[c] + row(2 * y + 1)[c]) / 2,
        _ => (0..4).map(|j| row(4 * y + j)[c]).sum::<i32>() / 4,
      };
      (band[k].0 + ((step(q) as u64 * band[k].1 as u64) >> 3) as i32).clamp(1, 0x168000)
    };
    let px = content(&im, [5, 9, 8, 6, 10, 7][i % 6]);
    let p = split(&im, &px);
    let coded: Vec<Vec<Grid>> = p.iter().map(|g| bands(g, levels).iter().enumerate().map(|(k, b)| quantise(b, &|y, x| factor(k, y, x))).collect()).collect();
    let full: Vec<Vec<Grid>> = coded.iter().map(|b| b.iter().enumerate().map(|(k, b)| scale(b, &|y, x| factor(k, y, x))).collect()).collect();
    let expect = from_bands(&im, &full);
    let q = Quant { qp: vec![qp.clone()], band: band.clone() };
    let (data, hdr) = encode(&im, &coded, &[], Some(&q));
    compare(ctx, &format!("quantisation table levels {levels}"), &im, &data, hdr, &expect, &|| describe(&im, json!({"qp": qp, "band": band})));
  });
  // version 2 with tiles, constant parameters
  ctx.par("quantisation 2 tiles", 3 * 3 * 57, |i| {
    let d = digits(i, &[3, 3, 57]);
    let levels = d[0] + 1;
    let cols = d[1] + 1;
    let nb = 3 * levels + 1;
    let tw = 32;
    let mut im = base(tw * cols - 4 * (cols > 1) as usize, 22);
    im.tile_w = tw;
    im.levels = levels;
    im.v2 = true;
    let q = 4 + d[2] as i32;
    let band: Vec<(i32, u16)> = (0..nb).map(|k| (k as i32 % 3, 8)).collect();
    let f = |k: usize| (band[k].0 + step(q) as i32).clamp(1, 0x168000);
    let qp: Vec<Grid> = (0..cols).map(|t| vec![vec![q; (((t + 1) * tw).min(im.w) / 2 - t * tw / 2).div_ceil(8)]; (im.h / 2).div_ceil(2)]).collect();
    let px = content(&im, [5, 9, 8, 6][d[2] % 4]);
    let p = split(&im, &px);
    let coded: Vec<Vec<Grid>> = p.iter().map(|g| bands(g, levels).iter().enumerate().map(|(k, b)| quantise(b, &|_, _| f(k))).collect()).collect();
    let full: Vec<Vec<Grid>> = coded.iter().map(|b| b.iter().enumerate().map(|(k, b)| scale(b, &|_, _| f(k))).collect()).collect();
    let expect = from_bands(&im, &full);
    let (data, hdr) = encode(&im, &coded, &[], Some(&Quant { qp, band }));
    compare(ctx, &format!("quantisation table tiles levels {levels}"), &im, &data, hdr, &expect, &|| describe(&im, json!({"q": q})));
  });
}

/// Complete files: several images in the raw track, chunks in any order, previews around.
fn files(ctx: &Ctx) {
  let n = 4 * 3 * 3 * 2 * 2;
  ctx.par("files", n, |i| {
    let d = digits(i, &[4, 3, 3, 2, 2]);
    let mut im = base([32, 44, 90, 56][d[0]], [30, 36, 40][d[1]]);
    im.levels = [0, 0, 3, 2][d[0]];
    im.tile_w = if d[3] == 1 { (im.w / 2).next_multiple_of(16) } else { im.w };
    im.enc = [0, 3][d[4]];
    let count = d[2] + 1;
    let mut images = vec![];
    let mut blobs = vec![];
    for k in 0..count {
      let px = content(&im, i + 5 * k + 2);
      let p = planes3(&im, &px, k);
      let b: Vec<Vec<Grid>> = p.iter().map(|g| bands(g, im.levels)).collect();
      images.push(from_bands(&im, &b));
      let (data, hdr) = encode(&im, &b, &[4; 10], None);
      blobs.push((data, hdr));
    }
    let hdr = blobs[0].1;
    let file = boxes::cr3_raw(&exif_parts(if im.levels == 0 { 4 } else { 7 }), &im, hdr, &blobs.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), i % 3);
    for k in 0..count {
      let js = || describe(&im, json!({"file": i, "image": k, "of": count}));
      ctx.case(fp(&("file", i, k)), true);
      ctx.sample("file", js);
      match super::c15::decode(ctx, &file, k) {
        Ok((w, h, c, got)) => {
          ctx.outcome(fp(&got));
          if (w, h, c) != (im.w, im.h, 1) || got != images[k] {
            let bad = (0..got.len().min(images[k].len())).filter(|p| got[*p] != images[k][*p]).count();
            ctx.fail("file:sample", format!("{w}x{h}x{c} for {}x{}, {bad} samples differ", im.w, im.h), js());
          }
        }
        Err(e) => ctx.fail("file:error", e, js()),
      }
    }
  });
}

pub(super) fn exif_parts(mode: u16) -> [Vec<u8>; 4] {
  use tiff::{Node, V, ascii};
  let b = |n: Node| tiff::build(&[n], false, false, 0);
  [
    b(Node::new().v(0x10f, ascii("Canon")).v(0x110, ascii("Canon EOS R5"))),
    b(Node::new().v(0x829d, V::Rational(vec![(4, 1)]))),
    b(Node::new().v(1, V::Short((0..50).map(|k| if k == 3 { mode } else { 0 }).collect()))),
    b(Node::new().v(0, V::Byte(vec![2, 3, 0, 0]))),
  ]
}

pub fn run(ctx: &Ctx) {
  lossless(ctx);
  wavelet(ctx);
  files(ctx);
}

/// A small CR3 file with `count` images of different content and their samples.
pub fn burst(count: usize, seed: usize) -> (Vec<u8>, usize, usize, Vec<Vec<u16>>) {
  let im = base(64, 40);
  let (mut images, mut blobs, mut head) = (vec![], vec![], 0);
  for k in 0..count {
    let px = content(&im, seed * 7 + k + 2);
    let mut px = px;
    px.iter_mut().enumerate().for_each(|(i, v)| *v = (*v as usize * 3 + (seed * 131 + k * 977 + i) % 500) as u16 & 0x3fff);
    let b: Vec<Vec<Grid>> = planes3(&im, &px, k).iter().map(|g| bands(g, 0)).collect();
    images.push(from_bands(&im, &b));
    let (data, hdr) = encode(&im, &b, &[4; 10], None);
    head = hdr;
    blobs.push(data);
  }
  (boxes::cr3_raw(&exif_parts(4), &im, head, &blobs, 0), im.w, im.h, images)
}

/// One small image for files of which only the description matters.
pub fn tiny() -> (Image, usize, Vec<Vec<u8>>) {
  let im = base(32, 30);
  let px = content(&im, 2);
  let b: Vec<Vec<Grid>> = planes3(&im, &px, 0).iter().map(|g| bands(g, 0)).collect();
  let (data, hdr) = encode(&im, &b, &[4; 10], None);
  (im, hdr, vec![data])
}
