//! C09: every storage form of raw samples is unpacked to exactly the stored values.
use super::dngcmp::*;
use crate::Level;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::tiff::*;
use crate::refs::zlib::store_zlib;
use rawler::RawImageData;
use rawler::bits::Endian;
use rawler::decompressors::deflate::DeflateDecompressor;
use rawler::decompressors::packed::PackedDecompressor;
use rawler::decompressors::{Decompressor, decompress_lines, decompress_strips};
use rawler::rawsource::RawSource;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one stored image (form, width, height, content) unpacked by the real code and compared sample by sample with the values an independent packer stored. Non-trivial: more than one sample.",
    bounds: "integer packing 1-16 bit x both byte orders x widths 1-40 (thorough 1-130) x heights 1-4 x row/strip interfaces with every number of skipped rows x contents {random, all ones, every one-hot and one-cold sample}, buffer one byte short; all 2^16 half floats, all 2^24 24 bit floats, single floats; 20 vendor layouts at every legal width up to 64; deflate x 3 predictors x 3 depths x cpp 1-4 x widths; linearization tables (12 shapes x 6 lengths x depths 8-16) through whole DNG files; DNG files of every depth x strips/tiles x byte order; 2x2 column/row interleave",
    assumptions: &["vendor layouts only at widths that are a multiple of their sample group", "a NaN may be widened to any NaN", "linearization may dither by a quarter (half at an entry of 0) of the distance of the neighbouring table entries"],
  }
}

fn pack_bits(v: &[u16], bits: usize, msb: bool) -> Vec<u8> {
  let n = (v.len() * bits + 7) / 8;
  let mut o = vec![0u8; n];
  for (k, s) in v.iter().enumerate() {
    for b in 0..bits {
      // bit b of the stream position of sample k
      let pos = k * bits + b;
      let bit = if msb { s >> (bits - 1 - b) & 1 } else { s >> b & 1 };
      if bit == 1 {
        o[pos / 8] |= if msb { 0x80 >> (pos % 8) } else { 1 << (pos % 8) };
      }
    }
  }
  o
}
fn swap(v: &[u8], n: usize) -> Vec<u8> {
  v.chunks(n).flat_map(|c| c.iter().rev().copied()).collect()
}
/// DNG/TIFF uncompressed integer row
fn pack_row(v: &[u16], bits: usize, be: bool) -> Vec<u8> {
  match bits {
    16 => v.iter().flat_map(|s| if be { s.to_be_bytes() } else { s.to_le_bytes() }).collect(),
    _ => pack_bits(v, bits, true),
  }
}

fn contents(w: usize, h: usize, bits: usize, lim: usize) -> Vec<(String, Vec<u16>)> {
  let max = ((1u32 << bits) - 1) as u16;
  let n = w * h;
  let mut out = vec![("ones".to_string(), vec![max; n])];
  for s in 0..3u64 {
    let mut g = Rng::new(s * 977 + (w * 64 + h) as u64 * 17 + bits as u64);
    out.push((format!("random{s}"), (0..n).map(|_| (g.next() >> 9) as u16 & max).collect()));
  }
  for k in 0..n.min(lim) {
    let mut a = vec![0; n];
    a[k] = max;
    out.push((format!("hot{k}"), a));
    let mut a = vec![max; n];
    a[k] = 0;
    out.push((format!("cold{k}"), a));
  }
  out
}

fn packed(ctx: &Ctx) {
  let wmax = ctx.pick(40, 130);
  let radix = [2, 16, wmax, 4];
  ctx.par("packed integers", space(&radix), |i| {
    let d = digits(i, &radix);
    let (be, bits, w, h) = (d[0] == 1, d[1] + 1, d[2] + 1, d[3] + 1);
    let e = if be { Endian::Big } else { Endian::Little };
    for (name, px) in contents(w, h, bits, ctx.pick(48, 160)) {
      let buf: Vec<u8> = px.chunks(w).flat_map(|r| pack_row(r, bits, be)).collect();
      let js = || json!({"form": "packed", "bps": bits, "big endian": be, "w": w, "h": h, "content": name, "bytes": buf.len()});
      ctx.case(fp(&("packed", bits, be, w, h, &name)), w * h > 1);
      ctx.sample("packed", js);
      let one = |skip: usize, buf: &[u8]| -> Result<Vec<u16>, String> {
        let mut out = vec![0xA5A5u16; w * (h - skip)];
        ctx.guard(|| <PackedDecompressor as Decompressor<u16>>::decompress(&PackedDecompressor::new(bits as u32, e), buf, skip, out.chunks_exact_mut(w), w))??;
        Ok(out)
      };
      for skip in 0..h {
        match one(skip, &buf) {
          Ok(o) if o[..] == px[skip * w..] => {}
          Ok(o) => {
            let k = (0..o.len()).find(|k| o[*k] != px[skip * w + k]).unwrap();
            return ctx.fail("packed:sample", format!("sample {k} after skipping {skip} rows is {} instead of {}", o[k], px[skip * w + k]), js());
          }
          Err(e) => return ctx.fail("packed:error", format!("skip {skip}: {e}"), js()),
        }
      }
      let all: Vec<(String, Result<Result<Vec<u16>, String>, String>)> = vec![
        ("lines".into(), ctx.guard(|| decompress_lines::<u16, _>(&buf, w, h, false, PackedDecompressor::new(bits as u32, e)).map(|p| p.into_inner()))),
        ("strips of 1".into(), ctx.guard(|| decompress_strips::<u16, _>(&buf, w, h, false, 1, PackedDecompressor::new(bits as u32, e)).map(|p| p.into_inner()))),
        ("strips of h".into(), ctx.guard(|| decompress_strips::<u16, _>(&buf, w, h, false, h, PackedDecompressor::new(bits as u32, e)).map(|p| p.into_inner()))),
        ("strips of 2".into(), ctx.guard(|| decompress_strips::<u16, _>(&buf, w, h, false, 2, PackedDecompressor::new(bits as u32, e)).map(|p| p.into_inner()))),
      ];
      for (how, r) in all {
        match r {
          Ok(Ok(o)) if o == px => {}
          Ok(Ok(_)) => return ctx.fail("packed:lines", format!("{how}: wrong samples"), js()),
          Ok(Err(e)) | Err(e) => return ctx.fail("packed:lines", format!("{how}: {e}"), js()),
        }
      }
      ctx.outcome(fp(&px));
      if name == "ones" {
        let mut out = vec![0u16; w * h];
        match ctx.guard(|| <PackedDecompressor as Decompressor<u16>>::decompress(&PackedDecompressor::new(bits as u32, e), &buf[..buf.len() - 1], 0, out.chunks_exact_mut(w), w)) {
          Ok(Err(_)) => {}
          Ok(Ok(())) => return ctx.fail("packed:short", "a buffer that is one byte short is accepted".into(), js()),
          Err(e) => return ctx.fail("packed:short", format!("a buffer that is one byte short: {e}"), js()),
        }
      }
    }
  });
}

/// value of a narrow binary float with `f` fraction and `e` exponent bits
fn narrow(v: u32, f: u32, e: u32) -> f64 {
  let bias = (1i32 << (e - 1)) - 1;
  let s = if v >> (f + e) & 1 == 1 { -1.0 } else { 1.0 };
  let ex = (v >> f & ((1 << e) - 1)) as i32;
  let fr = (v & ((1 << f) - 1)) as f64;
  let m = 2f64.powi(f as i32);
  s * if ex == (1 << e) - 1 {
    if fr == 0.0 { f64::INFINITY } else { f64::NAN }
  } else if ex == 0 {
    fr / m * 2f64.powi(1 - bias)
  } else {
    (1.0 + fr / m) * 2f64.powi(ex - bias)
  }
}
fn same_float(got: f32, exp: f64) -> bool {
  if exp.is_nan() { got.is_nan() } else { got as f64 == exp && got.is_sign_negative() == exp.is_sign_negative() }
}

fn floats(ctx: &Ctx) {
  for (bits, f, e) in [(16usize, 10u32, 5u32), (24, 16, 7), (32, 23, 8)] {
    let n: usize = match bits {
      16 => 1 << 16,
      24 => 1 << 24,
      _ => ctx.pick(1 << 20, 1 << 24),
    };
    let per = 1 << 12;
    ctx.par(&format!("{bits} bit floats"), n / per * 2, |i| {
      let be = i & 1 == 1;
      let base = (i >> 1) * per;
      let vals: Vec<u32> = (0..per).map(|k| if bits == 32 { ((base + k) as u32).wrapping_mul(if n == 1 << 24 { 256 } else { 4096 }) | ((base + k) as u32 & 0xff) } else { (base + k) as u32 }).collect();
      let by = bits / 8;
      let buf: Vec<u8> = vals
        .iter()
        .flat_map(|v| {
          let b = v.to_be_bytes()[4 - by..].to_vec();
          if be { b } else { b.into_iter().rev().collect() }
        })
        .collect();
      ctx.case(fp(&("float", bits, be, base)), true);
      let en = if be { Endian::Big } else { Endian::Little };
      // rows of 64 samples, all at once and with skipped rows
      let w = 64;
      for skip in [0usize, 1, 63] {
        let rows = per / w - skip;
        let mut out = vec![-7f32; w * rows];
        let r = ctx.guard(|| <PackedDecompressor as Decompressor<f32>>::decompress(&PackedDecompressor::new(bits as u32, en), &buf, skip, out.chunks_exact_mut(w), w));
        let js = |k: usize| json!({"form": "float", "bps": bits, "big endian": be, "pattern": format!("{:#x}", vals[skip * w + k])});
        match r {
          Ok(Ok(())) => {}
          Ok(Err(e)) | Err(e) => return ctx.fail("float:error", e, js(0)),
        }
        for k in 0..out.len() {
          let exp = if bits == 32 { f32::from_bits(vals[skip * w + k]) as f64 } else { narrow(vals[skip * w + k], f, e) };
          if !same_float(out[k], exp) {
            return ctx.fail("float:value", format!("decoded as {} instead of {exp}", out[k]), js(k));
          }
        }
        ctx.outcome(fp(&(out[0].to_bits(), out[1].to_bits())));
      }
    });
  }
  // every row geometry
  ctx.par("float rows", 40 * 4 * 3 * 2, |i| {
    let d = digits(i, &[40, 4, 3, 2]);
    let (w, h, by, be) = (d[0] + 1, d[1] + 1, d[2] + 2, d[3] == 1);
    let mut g = Rng::new(i as u64);
    let vals: Vec<u32> = (0..w * h).map(|_| (g.next() >> 8) as u32 & if by == 4 { 0x7f7f_ffff } else { (1u32 << (by * 8 - 2)) - 1 }).collect();
    let buf: Vec<u8> = vals
      .iter()
      .flat_map(|v| {
        let b = v.to_be_bytes()[4 - by..].to_vec();
        if be { b } else { b.into_iter().rev().collect() }
      })
      .collect();
    let exp: Vec<f64> = vals.iter().map(|v| match by { 2 => narrow(*v, 10, 5), 3 => narrow(*v, 16, 7), _ => f32::from_bits(*v) as f64 }).collect();
    let en = if be { Endian::Big } else { Endian::Little };
    ctx.case(fp(&("float rows", w, h, by, be)), w * h > 1);
    let js = json!({"form": "float", "bps": by * 8, "w": w, "h": h, "big endian": be});
    for skip in 0..h {
      let mut out = vec![-7f32; w * (h - skip)];
      match ctx.guard(|| <PackedDecompressor as Decompressor<f32>>::decompress(&PackedDecompressor::new(by as u32 * 8, en), &buf, skip, out.chunks_exact_mut(w), w)) {
        Ok(Ok(())) if out.iter().zip(&exp[skip * w..]).all(|(a, b)| same_float(*a, *b)) => {}
        r => return ctx.fail("float:rows", format!("skip {skip}: {r:?} or wrong values"), js),
      }
    }
    let mut out = vec![0f32; w * h];
    match ctx.guard(|| <PackedDecompressor as Decompressor<f32>>::decompress(&PackedDecompressor::new(by as u32 * 8, en), &buf[..buf.len() - 1], 0, out.chunks_exact_mut(w), w)) {
      Ok(Err(_)) => {}
      r => ctx.fail("float:short", format!("a buffer that is one byte short: {r:?}"), js),
    }
  });
}

struct Lay {
  id: u16,
  name: &'static str,
  bits: usize,
  step: usize,
}
const LAYS: [Lay; 20] = [
  Lay { id: 1, name: "10le_lsb16", bits: 10, step: 8 },
  Lay { id: 2, name: "10be", bits: 10, step: 1 },
  Lay { id: 3, name: "12be", bits: 12, step: 1 },
  Lay { id: 4, name: "12be_msb16", bits: 12, step: 4 },
  Lay { id: 5, name: "12le_16bitaligned", bits: 12, step: 2 },
  Lay { id: 6, name: "12be_msb32", bits: 12, step: 8 },
  Lay { id: 7, name: "12le_wcontrol", bits: 12, step: 10 },
  Lay { id: 8, name: "12be_wcontrol", bits: 12, step: 10 },
  Lay { id: 9, name: "12be_interlaced", bits: 12, step: 2 },
  Lay { id: 10, name: "12be_interlaced_unaligned", bits: 12, step: 2 },
  Lay { id: 11, name: "12le", bits: 12, step: 2 },
  Lay { id: 12, name: "12le_unpacked", bits: 12, step: 1 },
  Lay { id: 13, name: "12be_unpacked", bits: 12, step: 1 },
  Lay { id: 14, name: "12be_unpacked_left_aligned", bits: 12, step: 1 },
  Lay { id: 15, name: "12le_unpacked_left_aligned", bits: 12, step: 1 },
  Lay { id: 16, name: "14le_unpacked", bits: 14, step: 1 },
  Lay { id: 17, name: "14be_unpacked", bits: 14, step: 1 },
  Lay { id: 18, name: "16le", bits: 16, step: 1 },
  Lay { id: 19, name: "16le_skiplines", bits: 16, step: 1 },
  Lay { id: 20, name: "16be", bits: 16, step: 1 },
];

/// Store the samples in a vendor layout; `junk` fills bits the layout leaves undefined.
fn vendor(id: u16, px: &[u16], w: usize, junk: u16) -> Vec<u8> {
  let rows: Vec<&[u16]> = px.chunks(w).collect();
  let cat = |f: &dyn Fn(&[u16]) -> Vec<u8>| rows.iter().flat_map(|r| f(r)).collect::<Vec<u8>>();
  let words = |be: bool, f: &dyn Fn(u16) -> u16| px.iter().flat_map(|s| if be { f(*s).to_be_bytes() } else { f(*s).to_le_bytes() }).collect::<Vec<u8>>();
  let control = |b: Vec<u8>| b.chunks(15).flat_map(|c| c.iter().copied().chain([junk as u8])).collect::<Vec<u8>>();
  let field = |odd: usize| rows.iter().skip(odd).step_by(2).flat_map(|r| pack_bits(r, 12, true)).collect::<Vec<u8>>();
  match id {
    1 => cat(&|r| swap(&pack_bits(r, 10, true), 2)),
    2 => cat(&|r| pack_bits(r, 10, true)),
    3 => cat(&|r| pack_bits(r, 12, true)),
    4 => cat(&|r| swap(&pack_bits(r, 12, true), 2)),
    5 => cat(&|r| {
      let mut b = pack_bits(r, 12, true);
      if b.len() % 2 == 1 {
        b.push(junk as u8);
      }
      b
    }),
    6 => cat(&|r| swap(&pack_bits(r, 12, true), 4)),
    7 => cat(&|r| control(pack_bits(r, 12, false))),
    8 => cat(&|r| control(pack_bits(r, 12, true))),
    9 => {
      let mut a = field(0);
      a.resize(((a.len() >> 11) + 1) << 11, junk as u8);
      a.extend(field(1));
      a
    }
    10 => [field(0), field(1)].concat(),
    11 => cat(&|r| pack_bits(r, 12, false)),
    12 => words(false, &|s| s | junk << 12),
    13 => words(true, &|s| s | junk << 12),
    14 => words(true, &|s| s << 4 | (junk & 15)),
    15 => words(false, &|s| s << 4 | (junk & 15)),
    16 => words(false, &|s| s | junk << 14),
    17 => words(true, &|s| s | junk << 14),
    18 => words(false, &|s| s),
    19 => cat(&|r| r.iter().flat_map(|s| s.to_le_bytes()).chain(std::iter::repeat(junk as u8).take(w * 2)).collect()),
    20 => words(true, &|s| s),
    _ => unreachable!(),
  }
}

fn vendors(ctx: &Ctx) {
  let mut list = vec![];
  for (k, l) in LAYS.iter().enumerate() {
    for w in (l.step..=64).step_by(l.step) {
      for h in 1..=ctx.pick(5usize, 16) {
        list.push((k, w, h));
      }
    }
    // larger heights: both interlaced fields beyond 2048 bytes
    for h in [63, 64] {
      list.push((k, 64 / l.step * l.step, h));
    }
  }
  ctx.par("vendor layouts", list.len(), |i| {
    let (k, w, h) = list[i];
    let l = &LAYS[k];
    for (name, px) in contents(w, h, l.bits, ctx.pick(if w % 8 == 0 { 64 } else { 8 }, 400)) {
      for junk in [0u16, 0xffff] {
        if junk != 0 && name.starts_with("hot") && ctx.quick() {
          continue;
        }
        let data = vendor(l.id, &px, w, junk);
        let mut file: Vec<u8> = [l.id, w as u16, h as u16].iter().flat_map(|v| v.to_le_bytes()).collect();
        file.extend(&data);
        let js = || json!({"form": l.name, "w": w, "h": h, "content": name, "junk": junk});
        ctx.case(fp(&(l.id, w, h, &name, junk)), w * h > 1);
        ctx.sample(l.name, js);
        match ctx.guard(|| rawler::decode_unwrapped(&RawSource::new_from_slice(&file)).map_err(|e| format!("{e:?}"))) {
          Ok(Ok(RawImageData::Integer(o))) if o == px => ctx.outcome(fp(&o)),
          Ok(Ok(RawImageData::Integer(o))) => {
            let k = (0..px.len()).find(|k| o.get(*k) != Some(&px[*k])).unwrap_or(0);
            return ctx.fail(&format!("{}:sample", l.name), format!("sample {k} of {} is {:?} instead of {}", o.len(), o.get(k), px[k]), js());
          }
          Ok(Ok(_)) => return ctx.fail(&format!("{}:kind", l.name), "not integer data".into(), js()),
          Ok(Err(e)) | Err(e) => return ctx.fail(&format!("{}:error", l.name), e, js()),
        }
      }
    }
    // every shorter buffer: an error, or an image of the declared size, but no panic
    if h > 4 || w * h > ctx.pick(96, 256) {
      return;
    }
    let px: Vec<u16> = (0..w * h).map(|k| (k * 37 + 1) as u16 & ((1u32 << l.bits) - 1) as u16).collect();
    let data = vendor(l.id, &px, w, 0x5a5a);
    for cut in 0..data.len() {
      let mut file: Vec<u8> = [l.id, w as u16, h as u16].iter().flat_map(|v| v.to_le_bytes()).collect();
      file.extend(&data[..cut]);
      ctx.case(fp(&("cut", l.id, w, h, cut)), cut > 0);
      let js = || json!({"form": l.name, "w": w, "h": h, "bytes": cut, "of": data.len()});
      match ctx.guard(|| rawler::decode_unwrapped(&RawSource::new_from_slice(&file)).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(RawImageData::Integer(o))) if o.len() == w * h => {}
        Ok(Ok(_)) => return ctx.fail(&format!("{}:short", l.name), "a short buffer gives an image of another size".into(), js()),
        Ok(Err(_)) => ctx.count("short buffers rejected", 1),
        Err(e) => return ctx.fail(&format!("{}:short", l.name), e, js()),
      }
    }
  });
}

/// Independent forward direction of the floating point predictor.
fn fp_encode(px: &[u32], w: usize, by: usize, factor: usize) -> Vec<u8> {
  let mut out = vec![];
  for row in px.chunks(w) {
    let mut b = vec![0u8; w * by];
    for (x, v) in row.iter().enumerate() {
      let be = v.to_be_bytes();
      for p in 0..by {
        b[p * w + x] = be[4 - by + p];
      }
    }
    for k in (factor..b.len()).rev() {
      b[k] = b[k].wrapping_sub(b[k - factor]);
    }
    out.extend(b);
  }
  out
}

fn float_node(w: usize, h: usize, cpp: usize, bits: usize, predictor: u16, tile: (usize, usize), vals: &[u32]) -> Node {
  // vals: w*cpp x h
  let by = bits / 8;
  let mul = match predictor { 3 => 1, 34894 => 2, _ => 4 };
  let mut blobs = vec![];
  let line = w * cpp;
  for ty in (0..h).step_by(tile.1) {
    for tx in (0..w).step_by(tile.0) {
      let mut px = vec![];
      for y in 0..tile.1 {
        for k in 0..tile.0 * cpp {
          let x = (tx + k / cpp).min(w - 1);
          px.push(vals[(ty + y).min(h - 1) * line + x * cpp + k % cpp]);
        }
      }
      blobs.push(store_zlib(&fp_encode(&px, tile.0 * cpp, by, cpp * mul)));
    }
  }
  let counts = blobs.iter().map(|b| b.len() as u32).collect();
  let spec = Spec::new(4, 4, Kind::Linear(cpp), 16, 1);
  let mut n = raw_node(&spec, &Layout::default());
  for t in [273u16, 278, 279] {
    n.items.remove(&t);
  }
  n.v(256, V::Long(vec![w as u32]))
    .v(257, V::Long(vec![h as u32]))
    .v(258, V::Short(vec![bits as u16; cpp]))
    .v(259, V::Short(vec![8]))
    .v(317, V::Short(vec![predictor]))
    .v(339, V::Short(vec![3; cpp]))
    .v(322, V::Long(vec![tile.0 as u32]))
    .v(323, V::Long(vec![tile.1 as u32]))
    .item(324, Item::Blobs(blobs))
    .v(325, V::Long(counts))
    .v(50717, V::Long(vec![1; cpp]))
}

fn deflate(ctx: &Ctx) {
  let wmax = ctx.pick(20, 64);
  let radix = [3, 3, 4, wmax, 3];
  let preds = [3u16, 34894, 34895];
  let exp = |v: u32, by: usize| match by { 2 => narrow(v, 10, 5), 3 => narrow(v, 16, 7), _ => f32::from_bits(v) as f64 };
  ctx.par("deflate chunks", space(&radix), |i| {
    let d = digits(i, &radix);
    let (pred, by, cpp, w, h) = (preds[d[0]], d[1] + 2, d[2] + 1, d[3] + 1, d[4] + 1);
    let line = w * cpp;
    for content in 0..4 {
      let mut g = Rng::new(i as u64 * 4 + content);
      let mask = if by == 4 { u32::MAX } else { (1u32 << (by * 8)) - 1 };
      let vals: Vec<u32> = (0..line * h).map(|k| match content { 0 => mask, 1 => if k % 7 == 3 { mask } else { 0 }, _ => (g.next() >> 5) as u32 & mask }).collect();
      let mul = match pred { 3 => 1, 34894 => 2, _ => 4 };
      let z = store_zlib(&fp_encode(&vals, line, by, cpp * mul));
      let js = || json!({"form": "deflate", "predictor": pred, "bps": by * 8, "cpp": cpp, "w": w, "h": h, "content": content});
      ctx.case(fp(&("deflate", pred, by, cpp, w, h, content)), true);
      ctx.sample("deflate", js);
      let mut out = vec![-7f32; line * h];
      match ctx.guard(|| DeflateDecompressor::new(cpp, pred, by as u32 * 8).decompress(&z, 0, out.chunks_exact_mut(line), line)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => return ctx.fail("deflate:error", e, js()),
      }
      if let Some(k) = (0..out.len()).find(|k| !same_float(out[*k], exp(vals[*k], by))) {
        return ctx.fail("deflate:value", format!("sample {k} ({:#x}) is {} instead of {}", vals[k], out[k], exp(vals[k], by)), js());
      }
      ctx.outcome(fp(&vals));
      // truncated or overlong stream content is reported
      for bad in [store_zlib(&fp_encode(&vals, line, by, cpp * mul)[1..]), z[..z.len() - 5].to_vec()] {
        let mut out = vec![0f32; line * h];
        match ctx.guard(|| DeflateDecompressor::new(cpp, pred, by as u32 * 8).decompress(&bad, 0, out.chunks_exact_mut(line), line)) {
          Ok(Err(_)) => {}
          r => return ctx.fail("deflate:short", format!("incomplete stream: {r:?}"), js()),
        }
      }
    }
  });
  let radix = [3, 3, 2, 2, 5, 3];
  ctx.par("deflate DNG", space(&radix), |i| {
    let d = digits(i, &radix);
    let (pred, by, cpp, be) = (preds[d[0]], d[1] + 2, [1, 3][d[2]], d[3] == 1);
    let (w, h) = ([1usize, 15, 16, 17, 40][d[4]], [1usize, 16, 19][d[5]]);
    let mut g = Rng::new(i as u64);
    let vals: Vec<u32> = (0..w * h * cpp).map(|_| (g.next() >> 5) as u32 & if by == 4 { 0x7f7f_ffff } else { (1u32 << (by * 8 - 2)) - 1 }).collect();
    let spec = Spec::new(4, 4, Kind::Linear(cpp), 16, 1);
    let file = build(&[root_tags(&spec).item(330, Item::Dirs(vec![float_node(w, h, cpp, by * 8, pred, (16, 16), &vals)], 4))], be, false, 0);
    let js = json!({"form": "deflate DNG", "predictor": pred, "bps": by * 8, "cpp": cpp, "w": w, "h": h, "big endian": be});
    ctx.case(fp(&("deflate dng", i)), true);
    match ctx.guard(|| own_decode(&file)) {
      Ok(Ok(img)) => match &img.data {
        RawImageData::Float(o) if (img.width, img.height, img.cpp) == (w, h, cpp) && o.len() == vals.len() => {
          if let Some(k) = (0..o.len()).find(|k| !same_float(o[*k], exp(vals[*k], by))) {
            ctx.fail("deflate:dng", format!("sample {k} is {} instead of {}", o[k], exp(vals[k], by)), js);
          }
        }
        _ => ctx.fail("deflate:dng", format!("image {}x{}x{} or wrong sample kind", img.width, img.height, img.cpp), js),
      },
      Ok(Err(e)) | Err(e) => ctx.fail("deflate:dng", e, js),
    }
  });
}

fn whole(ctx: &Ctx) {
  // uncompressed DNG of every depth, layout and byte order
  let widths: Vec<usize> = if ctx.quick() { vec![1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 50] } else { (1..=70).collect() };
  let radix = [16, widths.len(), 6, 2, 3];
  ctx.par("integer DNG", space(&radix), |i| {
    let d = digits(i, &radix);
    let (bps, w, be) = (d[0] + 1, widths[d[1]], d[3] == 1);
    let kind = [Kind::Gray, Kind::Linear(3), Kind::Cfa("RGGB".into())][d[4]].clone();
    let h = 7 + w % 3;
    let l = match d[2] {
      0 => Layout { be, ..Default::default() },
      1 => Layout { be, rps: 1, ..Default::default() },
      2 => Layout { be, rps: 3, gap: 3, ..Default::default() },
      3 => Layout { be, tiles: Some((16, 16)), ..Default::default() },
      4 => Layout { be, rps: 4, values_first: true, ..Default::default() },
      _ => Layout { be, tiles: Some((32, 16)), gap: 1, ..Default::default() },
    };
    let spec = Spec::new(w, h, kind, bps, i as u64);
    let js = json!({"form": "DNG", "bps": bps, "w": w, "h": h, "kind": format!("{:?}", spec.kind), "layout": format!("{l:?}")});
    ctx.case(fp(&("dng", i)), true);
    let file = dng_file(&spec, &l);
    match ctx.guard(|| own_decode(&file)) {
      Ok(Ok(img)) => {
        if let Err(e) = cmp_own_pixels(&spec, &img, false) {
          ctx.fail("dng:pixels", e, js);
        } else {
          ctx.outcome(fp(&file));
        }
      }
      Ok(Err(e)) | Err(e) => ctx.fail("dng:error", e, js),
    }
  });
  // 2x2 interleaved storage
  ctx.par("interleave", 12 * 12 * 2, |i| {
    let d = digits(i, &[12, 12, 2]);
    let (w, h) = (d[0] * 2 + 2, d[1] * 2 + 2);
    let spec = Spec::new(w, h, Kind::Cfa("RGGB".into()), 12, i as u64);
    let mut stored = spec.clone();
    let Data::U(px) = &spec.data else { unreachable!() };
    // field (r,c): all samples with y%2==r, x%2==c, fields arranged as quadrants
    let mut q = vec![0u16; w * h];
    for y in 0..h {
      for x in 0..w {
        q[(y % 2 * (h / 2) + y / 2) * w + x % 2 * (w / 2) + x / 2] = px[y * w + x];
      }
    }
    stored.data = Data::U(q);
    let l = if d[2] == 0 { Layout::default() } else { Layout { tiles: Some((16, 16)), lossless: Some((1, 2)), ..Default::default() } };
    let raw = raw_node(&stored, &l).v(50975, V::Short(vec![2])).v(52547, V::Short(vec![2]));
    let file = build(&[root_tags(&spec).item(330, Item::Dirs(vec![raw], 4))], false, false, 0);
    let js = json!({"form": "interleaved", "w": w, "h": h, "lossless": d[2] == 1});
    ctx.case(fp(&("interleave", i)), true);
    match ctx.guard(|| own_decode(&file)) {
      Ok(Ok(img)) => {
        if let Err(e) = cmp_own_pixels(&spec, &img, false) {
          ctx.fail("interleave:pixels", e, js);
        }
      }
      Ok(Err(e)) | Err(e) => ctx.fail("interleave:error", e, js),
    }
  });
}

fn shape(s: usize, n: usize) -> Vec<u16> {
  let m = (n.max(2) - 1) as f64;
  (0..n)
    .map(|k| {
      let t = k as f64 / m;
      match s {
        0 => (k & 0xffff) as u16,
        1 => (t * 65535.0) as u16,
        2 => (t * t * 65535.0) as u16,
        3 => (t.sqrt() * 65535.0) as u16,
        4 => if k < n / 2 { (k % 3) as u16 } else { 60000 },
        5 => if k < n / 2 { 100 } else { 65535 },
        6 => 0,
        7 => 65535,
        8 => ((1.0 - t) * 65535.0) as u16,
        9 => if k % 2 == 0 { 0 } else { 65535 },
        10 => if k == 0 { 1 } else { 65535 },
        _ => (t.powi(3) * 60000.0) as u16 + 1,
      }
    })
    .collect()
}

fn linearization(ctx: &Ctx) {
  let depths = [8usize, 10, 12, 14, 16];
  let radix = [12, 6, depths.len(), 4];
  ctx.par("linearization", space(&radix), |i| {
    let d = digits(i, &radix);
    let bps = depths[d[2]];
    let full = 1usize << bps;
    let len = [1, 2, 3, full / 2, full, full - 1][d[1]].min(65535);
    if ctx.quick() && bps >= 14 && d[3] > 0 && d[0] % 3 != 0 {
      return;
    }
    let table = shape(d[0], len);
    let widths: &[usize] = if d[3] == 0 { &[64] } else { &[1, 2, 3, 5] };
    let mut first: Option<Vec<u16>> = None;
    for w in widths {
      let h = if d[3] == 0 { (full / 64).max(4) } else { 8 };
      let mut spec = Spec::new(*w, h, Kind::Cfa("RGGB".into()), bps, i as u64);
      if d[3] == 0 {
        spec.data = Data::U((0..w * h).map(|k| (k % full) as u16).collect());
      }
      let layouts = if d[3] == 0 { 3 } else { 1 };
      for l in 0..layouts {
        let lay = match l {
          0 => Layout::default(),
          1 => Layout { tiles: Some((16, 16)), be: true, ..Default::default() },
          _ => Layout { tiles: Some((32, 32)), lossless: Some((1, 2)), ..Default::default() },
        };
        let raw = raw_node(&spec, &lay).v(50712, V::Short(table.clone())).v(50717, V::Long(vec![65535]));
        let file = build(&[root_tags(&spec).item(330, Item::Dirs(vec![raw], 4))], lay.be, false, 0);
        let js = || json!({"form": "linearization", "table shape": d[0], "table length": len, "bps": bps, "w": w, "layout": l});
        ctx.case(fp(&("lin", i, w, l)), true);
        ctx.sample("linearization", js);
        let img = match ctx.guard(|| own_decode(&file)) {
          Ok(Ok(img)) => img,
          Ok(Err(e)) | Err(e) => return ctx.fail("linearization:error", e, js()),
        };
        let RawImageData::Integer(o) = &img.data else { return ctx.fail("linearization:kind", "float data".into(), js()) };
        let Data::U(px) = &spec.data else { unreachable!() };
        if o.len() != px.len() || img.bps != 16 {
          return ctx.fail("linearization:size", format!("{} samples, {} bits", o.len(), img.bps), js());
        }
        for k in 0..o.len() {
          let v = (px[k] as usize).min(len - 1);
          let c = table[v] as i64;
          // beyond the end the table continues with its last value
          let lo = c.min(table[v.saturating_sub(if (px[k] as usize) < len { 1 } else { 0 })] as i64);
          let hi = c.max(table[if px[k] as usize + 1 < len { v + 1 } else { v }] as i64);
          let (got, tol) = (o[k] as i64, (hi - lo) / if c == 0 { 2 } else { 4 } + 1);
          if (got - c).abs() > tol {
            return ctx.fail("linearization:value", format!("stored {} became {got}, table gives {c} (neighbours {lo}..{hi})", px[k]), js());
          }
        }
        match &first {
          None if d[3] == 0 => first = Some(o.clone()),
          Some(f) if f != o => return ctx.fail("linearization:layout", "result depends on the storage layout".into(), js()),
          _ => {}
        }
        ctx.outcome(fp(o));
      }
    }
  });
}

pub fn run(ctx: &Ctx) {
  packed(ctx);
  floats(ctx);
  vendors(ctx);
  deflate(ctx);
  whole(ctx);
  linearization(ctx);
}
