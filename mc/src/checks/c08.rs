//! C08: bit readers and vendor compressions return the encoded samples.
use crate::Level;
use crate::ctx::*;
use crate::refs::ljpeg as lj;
use crate::refs::vendor::*;
use rawler::RawImageData;
use rawler::pumps::*;
use rawler::rawsource::RawSource;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one encoded image (or symbol sequence) of one vendor compression, produced by an independent bit-by-bit encoder and decoded by the real decoder, or one sequence of bit reader operations compared with a plain list of bits. Non-trivial: the samples are not all equal, or the operation sequence crosses a refill.",
    bounds: "bit readers: five orders, every start offset 0..63, every pair (thorough: triple over 12 widths) of get/peek/sign-extended/zero-run operations over widths 1..32, buffers of 4..=24 bytes with four contents read to the last bit; compressions: all 31 forms reachable through decode_unwrapped (Sony 3, Olympus, Samsung 3, Kodak 2, Panasonic 2, Pentax 3, Canon CIFF 6, lossless JPEG 4, Leaf 2, Nikon 4 + small NEF), all images of 4..6 free samples over up to 6 values, one changed sample at every position of a small image by every difference size, full images up to 64x64 of 12 families",
    assumptions: &["images up to 64x64 (the limit of the tested entry point)", "curve look-ups may dither by a quarter of the distance between neighbouring entries, as the decoders document"],
  }
}

fn decode(ctx: &Ctx, id: u16, w: usize, h: usize, data: &[u8]) -> Result<Vec<u16>, String> {
  let mut file: Vec<u8> = [id, w as u16, h as u16].iter().flat_map(|v| v.to_le_bytes()).collect();
  file.extend(data);
  match ctx.guard(|| rawler::decode_unwrapped(&RawSource::new_from_slice(&file)).map_err(|e| format!("{e:?}")))?? {
    RawImageData::Integer(v) => Ok(v),
    _ => Err("not integer data".into()),
  }
}

type Enc = Box<dyn Fn(&Im, usize) -> Option<Vec<u8>> + Sync + Send>;
struct Codec {
  name: &'static str,
  id: u16,
  variants: usize,
  /// width and height granularity
  wu: usize,
  hu: usize,
  bits: u32,
  enc: Enc,
}

pub fn ljpeg_enc(sof_w: usize, ncomp: usize, pred: u8, one_based: bool, im: &Im, pt: u8) -> Option<Vec<u8>> {
  let f = lj::Frame { precision: 14, width: sof_w, height: im.h * im.w / (sof_w * ncomp), ncomp, predictor: pred, pt, data: im.d.clone() };
  let t = lj::Table::from_lengths(&(0..=14u8).map(|v| (v, [2, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][v as usize])).collect::<Vec<_>>());
  // forms with the selector work-around number the components from 0
  lj::encode(&f, &lj::EncOpts { tables: vec![(0, t)], sel: vec![0; ncomp], comp_ids: (one_based as u8..ncomp as u8 + one_based as u8).collect(), one_dht: true, dht_before_sof: false }).ok()
}

/// Leaf: lossless JPEG header, strips of eight rows separated by restart markers, two columns predicted from the left pair.
pub fn leaf(im: &Im, interlaced: bool, tables: usize) -> Option<Vec<u8>> {
  let mut st = im.clone();
  if interlaced {
    for k in 0..im.h {
      let r = if k % 2 == 1 { im.h - 1 - k / 2 } else { k / 2 };
      for c in 0..im.w {
        st.d[k * im.w + c] = im.d[r * im.w + c];
      }
    }
  }
  let t: Vec<lj::Table> = vec![
    lj::Table::from_lengths(&(0..=14u8).map(|v| (v, [2, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][v as usize])).collect::<Vec<_>>()),
    lj::Table::from_lengths(&(0..=14u8).map(|v| (v, [9, 8, 7, 6, 5, 4, 3, 3, 3, 3, 2, 10, 11, 12, 13][v as usize])).collect::<Vec<_>>()),
  ];
  let mut out = vec![0xFF, 0xD8, 0xFF, 0xC3, 0, 14, 14];
  out.extend((im.h as u16).to_be_bytes());
  out.extend(((im.w / 2) as u16).to_be_bytes());
  out.extend([2, 0, 0x11, 0, 1, 0x11, 0]);
  for (i, t) in t.iter().enumerate() {
    out.extend([0xFF, 0xC4]);
    out.extend(((19 + t.vals.len()) as u16).to_be_bytes());
    out.push(i as u8);
    out.extend(&t.bits[1..]);
    out.extend(&t.vals);
  }
  let sel = if tables == 0 { [0, 0] } else { [0, 1] };
  // the selectors some cameras write are wrong
  out.extend([0xFF, 0xDA, 0, 10, 2, 7, sel[0] << 4, 9, sel[1] << 4, 1, 0, 0]);
  let codes: Vec<Vec<(u8, u32, u8)>> = t.iter().map(|t| t.codes()).collect();
  for s in 0..im.h.div_ceil(8) {
    if s > 0 {
      out.extend([0xFF, 0xD0 + ((s - 1) % 8) as u8]);
    }
    let mut b = B::default();
    for r in s * 8..(s * 8 + 8).min(im.h) {
      for c in 0..im.w {
        let p = if c >= 2 {
          st.at(r, c - 2)
        } else if r > s * 8 {
          st.at(r - 1, c)
        } else {
          1 << 13
        };
        let (n, x) = mag(st.at(r, c) - p);
        let (l, code, _) = codes[sel[c & 1] as usize].iter().find(|k| k.2 as u32 == n)?;
        b.msb(*l as u32, *code);
        b.msb(n, x);
      }
    }
    out.extend(b.bytes_jpeg());
  }
  out.extend([0xFF, 0xD9]);
  Some(out)
}

fn codecs() -> Vec<Codec> {
  let mut v: Vec<Codec> = vec![];
  let mut add = |name, id, variants, wu, hu, bits, enc: Enc| v.push(Codec { name, id, variants, wu, hu, bits, enc });
  add("sony arw1", 21, 1, 1, 2, 12, Box::new(arw1));
  add("sony srf", 23, 4, 1, 1, 16, Box::new(|im, v| srf(im, [0, 1, 0xdeadbeef, u32::MAX][v])));
  add("olympus", 24, 2, 2, 1, 12, Box::new(orf));
  add("samsung 1", 25, 4, 16, 2, 12, Box::new(srw1));
  add("samsung 2", 26, 1, 1, 1, 12, Box::new(srw2));
  add("kodak 65000", 31, 1, 4, 1, 10, Box::new(|im, v| {
    let mut out: Vec<u8> = (0..1024u16).flat_map(|i| kodak_curve(i).to_le_bytes()).collect();
    out.extend(kodak65000(im, v)?);
    Some(out)
  }));
  for (id, one_based) in [(32u16, true), (33, false), (34, true), (35, false)] {
    add("lossless jpeg", id, 4, 4, 2, 14, Box::new(move |im, v| match v {
      0 => ljpeg_enc(im.w, 1, 1, one_based, im, 0),
      1 => ljpeg_enc(im.w / 2, 2, 1, one_based, im, 0),
      2 => ljpeg_enc(im.w / 2, 2, 7, one_based, im, 0),
      _ => ljpeg_enc(im.w / 4, 4, 1, one_based, im, 0),
    }));
  }
  add("pentax", 36, 1, 2, 1, 12, Box::new(|im, _| pef(im, None)));
  for (id, be) in [(37u16, false), (38, true)] {
    add("pentax custom table", id, PEF_TABLES.len(), 2, 1, 12, Box::new(move |im, v| pef(im, Some((&PEF_TABLES[v], be)))));
  }
  for k in 0..6u16 {
    add("canon ciff", 39 + k, 1, 64, 1, if k < 3 { 10 } else { 12 }, Box::new(move |im, _| crw(im, k as usize % 3, k >= 3)));
  }
  for (id, il) in [(45u16, false), (46, true)] {
    add("leaf", id, 2, 2, 1, 14, Box::new(move |im, v| leaf(im, il, v)));
  }
  v
}

pub const PEF_TABLES: [[u8; 13]; 4] = [
  [5, 4, 3, 2, 2, 3, 6, 7, 8, 9, 10, 11, 11],
  [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12],
  [12, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1],
  [4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4],
];

pub fn kodak_curve(i: u16) -> u16 {
  i * 60 + (i / 7)
}
/// allowed deviation of a dithered look-up
pub fn dither(t: &[u16], i: usize, got: u16) -> bool {
  let c = t[i] as i32;
  let lo = (if i > 0 { t[i - 1] as i32 } else { c }).min(c);
  let hi = (if i + 1 < t.len() { t[i + 1] as i32 } else { c }).max(c);
  let d = hi - lo;
  let g = got as i32;
  if c == 0 { g <= d / 2 + 1 } else { (g - c).abs() <= (d + 2) / 4 }
}

/// Image families: every content is a deterministic function of its index.
pub fn family(w: usize, h: usize, bits: u32, k: usize) -> Im {
  let max = ((1u32 << bits) - 1) as u16;
  let mut r = Rng::new(k as u64 * 131 + w as u64 * 7 + h as u64);
  let mut walk = [max / 2; 4];
  let d = (0..w * h)
    .map(|i| {
      let (x, y) = (i % w, i / w);
      match k % 12 {
        0 => 0,
        1 => max,
        2 => ((x * 37 + y * 11) as u32 & max as u32) as u16,
        3 => if (x + y) % 2 == 0 { 0 } else { max },
        4 => if (x / 2 + y / 2) % 2 == 0 { max } else { 0 },
        5 => r.next() as u16 & max,
        6 => max / 2 + (r.below(9) as u16) - 4,
        7 => ((x * 3 + y * 2) as u16 + r.below(40) as u16) & max,
        8 => if r.below(12) == 0 { r.next() as u16 & max } else { max / 3 },
        9 => {
          let s = &mut walk[(y & 1) * 2 + (x & 1)];
          let step = r.below(1 << (1 + k / 12 % bits as usize)) as i32 - (1 << (k / 12 % bits as usize));
          *s = (*s as i32 + step).clamp(0, max as i32) as u16;
          *s
        }
        10 => ((i as u32 * 0x1235) >> 3) as u16 & max,
        _ => if (y / 2) % 2 == 0 { (1 << (x as u32 / 2 % bits)) & max } else { max - ((1 << (x as u32 / 2 % bits)) & max) },
      }
    })
    .collect();
  Im { w, h, d }
}

fn compare(ctx: &Ctx, c: &Codec, v: usize, im: &Im, what: &str) {
  let Some(data) = (c.enc)(im, v) else {
    ctx.count("not representable", 1);
    return;
  };
  ctx.case(fp(&(c.id, v, im.w, im.h, &im.d)), im.d.iter().any(|x| *x != im.d[0]));
  let js = || json!({"form": c.name, "id": c.id, "variant": v, "w": im.w, "h": im.h, "content": what, "data": im.d.iter().take(256).collect::<Vec<_>>()});
  ctx.sample(&format!("{} {}", c.name, c.id), js);
  match decode(ctx, c.id, im.w, im.h, &data) {
    Ok(o) => {
      ctx.outcome(fp(&o));
      let curve: Vec<u16> = if c.id == 31 { (0..1024).map(kodak_curve).collect() } else { vec![] };
      if o.len() != im.d.len() {
        return ctx.fail(&format!("{}:{}:size", c.name, c.id), format!("{} samples instead of {}", o.len(), im.d.len()), js());
      }
      for k in 0..o.len() {
        let ok = if c.id == 31 { dither(&curve, im.d[k] as usize, o[k]) } else { o[k] == im.d[k] };
        if !ok {
          return ctx.fail(&format!("{}:{}:sample", c.name, c.id), format!("{what}: sample {k} (row {}, column {}) is {} instead of {}", k / im.w, k % im.w, o[k], im.d[k]), js());
        }
      }
    }
    Err(e) => ctx.fail(&format!("{}:{}:error", c.name, c.id), format!("{what}: {e}"), js()),
  }
}

fn forms(ctx: &Ctx) {
  let cs = codecs();
  // 1. every image of a few free samples
  let mut list = vec![];
  for (ci, c) in cs.iter().enumerate() {
    for v in 0..c.variants {
      let n = ctx.pick(5usize, 6);
      let per = 5usize.pow(n as u32);
      let step = if ctx.quick() && c.wu >= 16 { 3 } else { 1 };
      list.extend((0..per).step_by(step).map(|k| (ci, v, k)));
    }
  }
  ctx.par("all small images", list.len(), |i| {
    let (ci, v, k) = list[i];
    let c = &cs[ci];
    let max = ((1u32 << c.bits) - 1) as u16;
    let vals = [0, 1, max / 2 + 1, max - 2, max];
    let n = ctx.pick(5, 6);
    let dg = digits(k, &vec![5; n]);
    let w = c.wu.max(4).div_ceil(c.wu) * c.wu;
    let h = 2 * c.hu;
    let mut im = Im { w, h, d: vec![max / 2 + 1; w * h] };
    // free samples: spread over both colours, both rows, block ends
    let pos = [0, 1, w - 1, w, w + 2, w * h - 2];
    for (p, g) in pos.iter().zip(&dg) {
      im.d[*p] = vals[*g];
    }
    compare(ctx, c, v, &im, "few free samples");
  });
  // 2. one changed sample at every position by every size
  let mut list = vec![];
  for (ci, c) in cs.iter().enumerate() {
    for v in 0..c.variants {
      let w = if c.wu >= 16 { c.wu * (if c.wu == 16 { 2 } else { 1 }) } else { 12 };
      let h = (4usize).div_ceil(c.hu) * c.hu;
      for p in 0..w * h {
        list.push((ci, v, w, h, p));
      }
    }
  }
  ctx.par("one changed sample", list.len(), |i| {
    let (ci, v, w, h, p) = list[i];
    let c = &cs[ci];
    let max = ((1u32 << c.bits) - 1) as i32;
    let bases: Vec<i32> = if ctx.quick() { vec![max / 2 + 1, 0] } else { vec![max / 2 + 1, 0, max, 37] };
    for base in bases {
      for k in 0..c.bits {
        for d in [1 << k, (1 << k) + ((1 << k) - 1), -(1 << k), -((1 << k) + ((1 << k) - 1))] {
          let t = base + d;
          if (0..=max).contains(&t) {
            let mut im = Im { w, h, d: vec![base as u16; w * h] };
            im.d[p] = t as u16;
            compare(ctx, c, v, &im, &format!("sample {p} {base}{d:+}"));
          }
        }
      }
    }
  });
  // 3. families at several sizes up to the largest
  let mut list = vec![];
  for (ci, c) in cs.iter().enumerate() {
    for v in 0..c.variants {
      for w in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 24, 31, 32, 33, 36, 47, 48, 60, 63, 64] {
        for h in [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 25, 32, 63, 64] {
          if w % c.wu == 0 && h % c.hu == 0 && (c.id != 46 || h > 1) {
            if ctx.quick() && (w * 7 + h) % 3 != 0 && !(w == 64 && h == 64) && (w > 17 || h > 9) {
              continue;
            }
            list.push((ci, v, w, h));
          }
        }
      }
    }
  }
  ctx.par("image families", list.len(), |i| {
    let (ci, v, w, h) = list[i];
    for k in 0..ctx.pick(12, 12 * 14) {
      compare(ctx, &cs[ci], v, &family(w, h, cs[ci].bits, k + if k % 12 == 9 { 12 * (i % 12) } else { 0 }), &format!("family {k}"));
    }
  });
}

/// Sony ARW2: 16-sample blocks with an 11-bit maximum and minimum and 7-bit offsets.
fn arw2(ctx: &Ctx) {
  let curves: [[usize; 4]; 4] = [[4095; 4], [1000, 2000, 3000, 3500], [0, 0, 0, 0], [8, 16, 1024, 4094]];
  let tables: Vec<Vec<u16>> = curves
    .iter()
    .map(|p| {
      // slope doubles after each of the four points
      let mut t = vec![0u16; 4096];
      for j in 1..4096 {
        let slope = p.iter().filter(|x| j > **x).count();
        t[j] = t[j - 1].wrapping_add(1 << slope);
      }
      t
    })
    .collect();
  let deltas: Vec<u32> = if ctx.quick() { (0..2048u32).filter(|d| (d & (d + 1)) == 0 || (d & (d.wrapping_sub(1))) == 0 || d % 61 == 0).collect() } else { (0..2048).collect() };
  ctx.par("arw2", deltas.len() * 15 * curves.len(), |i| {
    let dg = digits(i, &[deltas.len(), 15, curves.len()]);
    let (delta, cv) = (deltas[dg[0]], dg[2]);
    let t = &tables[cv];
    let (w, h) = (32 + 32 * (i % 2), 1 + i % 2);
    let mut b = B::default();
    let mut want = vec![0u32; w * h];
    let mut r = Rng::new(i as u64);
    for y in 0..h {
      for x in (0..w).step_by(32) {
        for j in 0..2 {
          let imax = (dg[1] + x / 32 + y * 3) % 16;
          let mut imin = (imax + 1 + dg[1] + j * 7) % 16;
          if imin == imax {
            imin = (imin + 1) % 16;
          }
          let min = [0, 2047 - delta, (2047 - delta) / 2][(i + j) % 3];
          let max = min + delta;
          let mut sh = 0;
          while sh < 4 && 0x80 << sh <= delta {
            sh += 1;
          }
          b.lsb(11, max);
          b.lsb(11, min);
          b.lsb(4, imax as u32);
          b.lsb(4, imin as u32);
          for k in 0..16 {
            let v = if k == imax {
              max
            } else if k == imin {
              min
            } else {
              let q = match r.below(5) {
                0 => 0,
                1 => 127,
                2 => (delta >> sh).min(127),
                _ => r.below(128) as u32,
              };
              b.lsb(7, q);
              (min + (q << sh)).min(2047)
            };
            want[y * w + x + j + 2 * k] = v;
          }
        }
      }
    }
    let mut data: Vec<u8> = curves[cv].iter().flat_map(|v| (*v as u16 | 0xA000).to_le_bytes()).collect();
    data.extend(b.bytes_lsb());
    ctx.case(fp(&("arw2", i)), true);
    let js = || json!({"form": "sony arw2", "delta": delta, "curve": curves[cv], "w": w, "h": h, "case": i});
    ctx.sample("sony arw2", js);
    match decode(ctx, 22, w, h, &data) {
      Ok(o) => {
        ctx.outcome(fp(&o));
        if let Some(k) = (0..w * h).find(|k| o.get(*k).is_none_or(|g| !dither(t, want[*k] as usize * 2, *g))) {
          ctx.fail("sony arw2:sample", format!("sample {k} is {:?}, code {} stands for {}", o.get(k), want[k], t[want[k] as usize * 2]), js());
        }
      }
      Err(e) => ctx.fail("sony arw2:error", e, js()),
    }
  });
}

/// Choice-driven formats: the first choices are enumerated, the rest follow from the index.
fn driven(ctx: &Ctx) {
  // Panasonic v4
  let n = ctx.pick(12_000, 400_000);
  ctx.par("panasonic v4", n, |i| {
    let split = i % 2 == 1;
    let (w, h) = ([14, 28, 42, 56][i / 2 % 4], [1, 2, 5, 6, 10, 11, 64][i / 8 % 7]);
    let mut r = Rng::new(i as u64);
    let mut k = i / 2;
    let mut cnt = 0;
    let (pk, px) = pana4(w / 14 * h, |_, m| {
      cnt += 1;
      // the first ten choices spell the index, later ones are spread
      if cnt <= 10 {
        let c = k % m;
        k /= m;
        c
      } else {
        r.below(m as u64) as usize
      }
    });
    let data = pana_blocks(&pk, split.then_some(0x2008));
    stream(ctx, "panasonic v4", 29 + split as u16, w, h, &data, &px, i);
  });
  let n = ctx.pick(6_000, 200_000);
  ctx.par("samsung 3", n, |i| {
    let dg = digits(i, &[4, 4, 8, 3, 3]);
    let (w, h) = ([16, 32, 48, 64][dg[0]], [1, 3, 6, 64][dg[1]]);
    let depth = [8, 12, 14][dg[3]];
    let mut r = Rng::new(i as u64);
    let (data, px) = srw3(w, h, depth, dg[2] as u32, [0, 128, (1 << depth) - 1][dg[4]], |_, m| r.below(m as u64) as usize);
    stream(ctx, "samsung 3", 27, w, h, &data, &px, i);
  });
  ctx.par("kodak dc120", ctx.pick(800, 8000), |i| {
    let (w, h) = (1 + i % 64, 1 + (i / 64 * 7 + i) % 64);
    let mut r = Rng::new(i as u64);
    let data: Vec<u8> = (0..w * h + 848).map(|_| r.next() as u8).collect();
    let px: Vec<u16> = (0..w * h).map(|k| {
      let y = k / w;
      data[y * w + (k % w + y * [162, 192, 187, 92][y % 4] + [0, 636, 424, 212][y % 4]) % 848] as u16
    }).collect();
    stream(ctx, "kodak dc120", 28, w, h, &data, &px, i);
  });
}
fn stream(ctx: &Ctx, name: &str, id: u16, w: usize, h: usize, data: &[u8], px: &[u16], i: usize) {
  ctx.case(fp(&(name, id, data)), true);
  let js = || json!({"form": name, "id": id, "w": w, "h": h, "case": i});
  ctx.sample(name, js);
  match decode(ctx, id, w, h, data) {
    Ok(o) => {
      ctx.outcome(fp(&o));
      if o != px {
        let k = (0..px.len()).find(|k| o.get(*k) != Some(&px[*k])).unwrap_or(0);
        ctx.fail(&format!("{name}:{id}:sample"), format!("sample {k} (row {}, column {}) is {:?} instead of {}", k / w, k % w, o.get(k), px[k]), js());
      }
    }
    Err(e) => ctx.fail(&format!("{name}:{id}:error"), e, js()),
  }
}

/// Nikon: all versions, byte orders, depths, curves and split positions.
fn nikon(ctx: &Ctx) {
  let mut list = vec![];
  for id in 48u16..52 {
    for mode in 0..8 {
      for k in 0..ctx.pick(36, 168) {
        for s in 0..4 {
          list.push((id, mode, k, s));
        }
      }
    }
  }
  ctx.par("nikon", list.len(), |i| {
    let (id, mode, k, s) = list[i];
    let (be, bps) = (id >= 50, if id % 2 == 0 { 12u32 } else { 14 });
    let (w, h) = [(2, 1), (8, 5), (20, 12), (64, 64)][s];
    let full = 1usize << bps;
    let mut bits = bps;
    let (v0, v1, curve, split): (u8, u8, Vec<u16>, usize) = match mode {
      0 => (0x46, 0x30, vec![], 0),                          // lossless
      1 => (0x44, 0x20, points(full, 33, 1), 0),             // interpolated curve
      2 => (0x44, 0x20, points(full, 65, 4), h / 2),         // with a second table from row h/2
      3 => (0x44, 0x20, points(full, 257, 1), 1),
      4 => (0x44, 0x40, points(full / 4, 65, 2), if h > 2 { h - 1 } else { 0 }), // two bits less than announced
      5 => (0x44, 0x10, (0..1500u32).map(|i| (i * i / 100) as u16).collect(), 0), // explicit curve
      6 => (0x49, 0x30, (0..900u32).map(|i| (i * 4) as u16).collect(), 0),
      _ => (0x41, 0x58, (0..700u32).map(|i| (i * 20) as u16).collect(), 0),
    };
    let limit = match mode {
      5..=7 => curve.len() - 1,
      4 => full / 4 - 1,
      _ => full - 1,
    };
    if mode == 4 {
      bits = bps - 2;
    }
    let mut im = family(w, h, bits, k);
    im.d.iter_mut().for_each(|v| *v = (*v).min(limit as u16));
    let table: Vec<u16> = match mode {
      0 => (0..full).map(|v| v as u16).collect(),
      5..=7 => curve.clone(),
      _ => {
        let m = if mode == 4 { full / 4 } else { full };
        let step = m / (curve.len() - 1);
        (0..m).map(|i| ((step - i % step) * curve[i / step] as usize + i % step * curve[i / step + 1] as usize).div_euclid(step) as u16).collect()
      }
    };
    let o = Nef { v0, v1, be, bps, curve, split, init: [[0; 4], [1, 200, 30, 4], [1000, 1000, 1000, 1000]][k % 3] };
    let Some((data, vals)) = nef(&im, &o) else {
      ctx.count("not representable", 1);
      return;
    };
    let js = || json!({"form": "nikon", "id": id, "mode": mode, "w": w, "h": h, "family": k});
    ctx.case(fp(&(id, mode, k, s)), true);
    ctx.sample("nikon", js);
    match decode(ctx, id, w, h, &data) {
      Ok(got) => {
        ctx.outcome(fp(&got));
        for p in 0..w * h {
          let v = vals[p].clamp(0, table.len() as i32 - 1) as usize;
          if !dither(&table, v, got[p]) {
            return ctx.fail(&format!("nikon:{mode}:sample"), format!("row {} column {}: {} for code {v} (curve value {})", p / w, p % w, got[p], table[v]), js());
          }
        }
      }
      Err(e) => ctx.fail(&format!("nikon:{mode}:error"), e, js()),
    }
  });
}
pub fn points(full: usize, n: usize, up: usize) -> Vec<u16> {
  (0..n).map(|i| (i * (full / (n - 1)) * up).min(65535) as u16 + (i % 3) as u16).collect()
}

/// Small NEF: YCbCr 4:2:2 in 12 bits, 6 bytes per pair of pixels.
fn snef(ctx: &Ctx) {
  let curve: Vec<f64> = (0..4096)
    .map(|i| {
      let v = i as f64 / 4095.0;
      let r = if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) };
      (r * 262140.0).clamp(0.0, 65535.0)
    })
    .collect();
  let look = |x: f64| -> (f64, f64) {
    // range of the curve around the (truncated) index and the dither amplitude
    let lo = (x - 1.5).floor().clamp(0.0, 4095.0) as usize;
    let hi = (x + 1.5).ceil().clamp(0.0, 4095.0) as usize;
    (curve[lo], curve[hi])
  };
  let coefs = [[1.5f32, 1.0, 2.0, 1.0], [1.0, 1.0, 1.0, 1.0], [2.25, 1.0, 1.125, 1.0]];
  ctx.par("small nef", ctx.pick(3000, 60000), |i| {
    let (w, h) = ([2, 4, 10, 64][i % 4], [1, 2, 7, 64][i / 4 % 4]);
    let co = coefs[i / 16 % 3];
    let mut r = Rng::new(i as u64);
    let mut b = B::default();
    let mut px = vec![];
    for _ in 0..w * h / 2 {
      let mut v = || -> u32 {
        match r.below(4) {
          0 => [0, 4095, 2048, 2047, 1][r.below(5) as usize],
          1 => 2048 + r.below(64) as u32,
          _ => r.below(4096) as u32,
        }
      };
      let (y1, y2, cb, cr) = (v(), v(), v(), v());
      for x in [y1, y2, cb, cr] {
        b.lsb(12, x);
      }
      for y in [y1, y2] {
        let (y, cb, cr) = (y as f64, cb as f64 - 2048.0, cr as f64 - 2048.0);
        px.push([y + 1.370705 * cr, y - 0.337633 * cb - 0.698001 * cr, y + 1.732446 * cb]);
      }
    }
    let mut data: Vec<u8> = co.iter().flat_map(|c| c.to_le_bytes()).collect();
    data.extend(b.bytes_lsb());
    ctx.case(fp(&("snef", i)), true);
    let js = || json!({"form": "small nef", "w": w, "h": h, "coefficients": co, "case": i});
    ctx.sample("small nef", js);
    match decode(ctx, 52, w, h, &data) {
      Ok(o) => {
        ctx.outcome(fp(&o));
        if o.len() != w * h * 3 {
          return ctx.fail("small nef:size", format!("{} samples", o.len()), js());
        }
        for (p, rgb) in px.iter().enumerate() {
          for c in 0..3 {
            let (mut lo, mut hi) = look(rgb[c]);
            if c != 1 {
              let k = (1024.0 / co[c]) as i32 as f64 / 1024.0;
              lo = (lo * k).min(32767.0);
              hi = (hi * k).min(32767.0);
            }
            let g = o[p * 3 + c] as f64;
            if g < lo - 3.0 || g > hi + 3.0 {
              return ctx.fail("small nef:sample", format!("pixel {p} channel {c}: {g} outside {lo:.0}..{hi:.0}"), js());
            }
          }
        }
      }
      Err(e) => ctx.fail("small nef:error", e, js()),
    }
  });
}

// ---------------------------------------------------------------- bit readers

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Op {
  Get(u32),
  Peek(u32),
  Signed(u32),
  Zeros,
}
struct Model {
  bits: Vec<bool>,
  pos: usize,
  lsb: bool,
}
impl Model {
  fn peek(&self, n: u32) -> u32 {
    let at = |k: usize| self.bits.get(self.pos + k).copied().unwrap_or(false) as u32;
    (0..n as usize).fold(0, |v, k| if self.lsb { v | at(k) << k } else { v << 1 | at(k) })
  }
}
fn apply(p: &mut dyn BitPump, m: &mut Model, op: Op) -> Result<(), String> {
  let (got, want): (i64, i64) = match op {
    Op::Get(n) => {
      let w = m.peek(n);
      m.pos += n as usize;
      (p.get_bits(n) as i64, w as i64)
    }
    Op::Peek(n) => (p.peek_bits(n) as i64, m.peek(n) as i64),
    Op::Signed(n) => {
      let w = m.peek(n);
      m.pos += n as usize;
      let w = if n > 0 && n < 32 && w >> (n - 1) & 1 == 1 { w as i64 - (1i64 << n) } else { w as i32 as i64 };
      (p.get_ibits_sextended(n) as i64, w)
    }
    Op::Zeros => {
      let start = m.pos;
      while !m.bits[m.pos] {
        m.pos += 1;
      }
      (p.consume_zerobits() as i64, (m.pos - start) as i64)
    }
  };
  if got != want { Err(format!("{op:?} gives {got:#x} instead of {want:#x}")) } else { Ok(()) }
}

const ORDERS: [&str; 5] = ["lsb", "msb", "msb32", "jpeg", "reversed"];
fn bits_of(order: usize, buf: &[u8]) -> Vec<bool> {
  let byte = |x: u8, lsb: bool| (0..8).map(move |k| if lsb { x >> k & 1 == 1 } else { x >> (7 - k) & 1 == 1 });
  match order {
    0 | 4 => buf.iter().flat_map(|x| byte(*x, true)).collect(),
    1 | 3 => buf.iter().flat_map(|x| byte(*x, false)).collect(),
    _ => buf.chunks(4).flat_map(|c| c.iter().rev().flat_map(|x| byte(*x, false)).collect::<Vec<_>>()).collect(),
  }
}
fn with_pump<T>(order: usize, buf: &[u8], f: impl FnOnce(&mut dyn BitPump) -> T) -> T {
  match order {
    0 => f(&mut BitPumpLSB::new(buf)),
    1 => f(&mut BitPumpMSB::new(buf)),
    2 => f(&mut BitPumpMSB32::new(buf)),
    3 => {
      let s: Vec<u8> = buf.iter().flat_map(|x| if *x == 0xff { vec![0xff, 0] } else { vec![*x] }).collect();
      f(&mut BitPumpJPEG::new(&s))
    }
    _ => f(&mut BitPumpReverseBitsMSB::new(buf)),
  }
}
fn buffer(content: usize, len: usize) -> Vec<u8> {
  let mut r = Rng::new(content as u64 + 5);
  (0..len)
    .map(|i| match content {
      0 => r.next() as u8,
      1 => [0xff, 0, 0xff, 0xfe, 0, 0, 0, 1][i % 8],
      2 => if i % 11 == 10 { 0x10 } else { 0 },
      _ => if r.below(3) == 0 { 0xff } else { r.next() as u8 },
    })
    .collect()
}

fn readers(ctx: &Ctx) {
  let ops: Vec<Op> = (1..=32).flat_map(|n| [Op::Get(n), Op::Peek(n), Op::Signed(n)]).chain([Op::Zeros]).collect();
  let small: Vec<Op> = [1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32].iter().flat_map(|n| [Op::Get(*n), Op::Peek(*n)]).chain([Op::Zeros]).collect();
  ctx.par("bit readers", 5 * 4 * 64, |i| {
    let dg = digits(i, &[5, 4, 64]);
    let (order, content, skip) = (dg[0], dg[1], dg[2]);
    let buf = buffer(content, 64);
    let bits = bits_of(order, &buf);
    let run = |seq: &[Op]| {
      // zero runs are only meaningful for readers that deliver the first bit at the top
      if order == 0 && seq.contains(&Op::Zeros) {
        return;
      }
      ctx.case(fp(&(order, content, skip, seq)), true);
      let js = || json!({"reader": ORDERS[order], "content": content, "skip": skip, "ops": format!("{seq:?}")});
      ctx.sample(ORDERS[order], js);
      let r = ctx.guard(|| {
        with_pump(order, &buf, |p| {
          let mut m = Model { bits: bits.clone(), pos: 0, lsb: order == 0 };
          let mut k = skip;
          while k > 0 {
            let n = k.min(13);
            apply(p, &mut m, Op::Get(n as u32))?;
            k -= n;
          }
          for o in seq {
            apply(p, &mut m, *o)?;
          }
          apply(p, &mut m, Op::Peek(16))
        })
      });
      if let Err(e) | Ok(Err(e)) = r {
        ctx.fail(&format!("reader:{}", ORDERS[order]), format!("after {skip} bits, {seq:?}: {e}"), js());
      }
    };
    for a in &ops {
      for b in &ops {
        run(&[*a, *b]);
        if ctx.stopped() {
          return;
        }
      }
    }
    if !ctx.quick() {
      for a in &small {
        for b in &small {
          for c in &small {
            run(&[*a, *b, *c]);
          }
        }
      }
    }
  });
  // buffers read to the last bit
  ctx.par("reader ends", 5 * 4 * 25 * 32, |i| {
    let dg = digits(i, &[5, 4, 25, 32]);
    let (order, content, len, n) = (dg[0], dg[1], dg[2], dg[3] as u32 + 1);
    if len == 0 || (order == 2 || order == 4) && len % 4 != 0 {
      return;
    }
    let buf = buffer(content, len);
    let bits = bits_of(order, &buf);
    ctx.case(fp(&("end", order, content, len, n)), len > 4);
    let js = || json!({"reader": ORDERS[order], "content": content, "length": len, "width": n});
    let r = ctx.guard(|| {
      with_pump(order, &buf, |p| {
        let mut m = Model { bits: bits.clone(), pos: 0, lsb: order == 0 };
        while m.pos + n as usize <= bits.len() {
          apply(p, &mut m, Op::Get(n))?;
        }
        let rest = (bits.len() - m.pos) as u32;
        if rest > 0 {
          apply(p, &mut m, Op::Get(rest))?;
        }
        if order == 3 {
          // behind the data of an entropy coded segment there are zeros
          for _ in 0..5 {
            apply(p, &mut m, Op::Get(n))?;
          }
        }
        Ok::<(), String>(())
      })
    });
    if let Err(e) | Ok(Err(e)) = r {
      ctx.fail(&format!("reader end:{}", ORDERS[order]), format!("{len} bytes in steps of {n}: {e}"), js());
    }
  });
  // a marker ends an entropy coded segment wherever it stands
  ctx.par("jpeg marker", 24 * 33, |i| {
    let (len, n) = (i % 24, (i / 24) as u32);
    if n == 0 {
      return;
    }
    let data = buffer(3, len);
    let bits = bits_of(3, &data);
    let mut s: Vec<u8> = data.iter().flat_map(|x| if *x == 0xff { vec![0xff, 0] } else { vec![*x] }).collect();
    s.extend([0xff, 0xd9, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55]);
    ctx.case(fp(&("marker", len, n)), len > 0);
    let r = ctx.guard(|| {
      let mut p = BitPumpJPEG::new(&s);
      let mut m = Model { bits: bits.clone(), pos: 0, lsb: false };
      while m.pos < bits.len() + 160 {
        apply(&mut p, &mut m, Op::Get(n))?;
      }
      Ok::<(), String>(())
    });
    if let Err(e) | Ok(Err(e)) = r {
      ctx.fail("reader marker", format!("{len} bytes before the marker, steps of {n}: {e}"), json!({"length": len, "width": n}));
    }
  });
}

pub fn run(ctx: &Ctx) {
  readers(ctx);
  forms(ctx);
  arw2(ctx);
  driven(ctx);
  nikon(ctx);
  snef(ctx);
}
