//! C05: the embedded original raw file is restored bit-exactly, and corruption is never passed off as success.
use super::dngcmp::*;
use crate::Level;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::zlib::*;
use rawler::dng::original::OriginalCompressed;
use rawler::dng::{CropMode, DngCompression};
use serde_json::json;
use std::io::{Cursor, Read, Seek, SeekFrom};

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one (original bytes, stream behaviour) pair compressed, serialised, re-read and restored by the real code with an independent inflate/MD5 reader of the stored block structure; or one corrupted copy of a stored original (every single-bit flip, every truncation, every block-table swap, every digest bit). Non-trivial: non-empty original or a copy that differs from the stored bytes.",
    bounds: "lengths 0..=600 (thorough 0..=4096), 65536*k+{-2..2} for k=1..3 (thorough 1..6); 4 content classes; readers returning 1, 3, 4093 or all bytes per call, start positions 0..3; an I/O error at every read call; whole-file conversions nested 2 deep; all bit flips and truncations of 1- and 3-block originals",
    assumptions: &["originals below 4 GiB", "verification enabled (the default) for the corruption clauses"],
  }
}

fn content(class: usize, n: usize) -> Vec<u8> {
  let mut r = Rng::new(class as u64 * 77 + n as u64);
  (0..n)
    .map(|i| match class {
      0 => 0,
      1 => r.next() as u8,
      2 => (i % 251) as u8,
      _ => if r.below(20) == 0 { r.next() as u8 } else { 0xAA },
    })
    .collect()
}

/// A reader whose read calls return at most `max` bytes and which fails at call number `fail_at`.
struct Env {
  c: Cursor<Vec<u8>>,
  max: usize,
  calls: usize,
  fail_at: usize,
}
impl Read for Env {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if self.calls > self.fail_at {
      return Err(std::io::Error::other("injected"));
    }
    let n = b.len().min(self.max);
    self.c.read(&mut b[..n])
  }
}
impl Seek for Env {
  fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
    self.c.seek(p)
  }
}

/// Independent reader of the DNG OriginalRawFileData structure (fork 1).
pub fn ref_restore(blob: &[u8]) -> Result<Vec<u8>, String> {
  let rd = |p: usize| blob.get(p..p + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as usize).ok_or("blob truncated");
  let size = rd(0)?;
  let n = size.div_ceil(65536);
  let mut out = vec![];
  let mut expect = 4 + 4 * (n + 1);
  for k in 0..n {
    let (a, b) = (rd(4 + 4 * k)?, rd(8 + 4 * k)?);
    if a != expect || b < a {
      return Err(format!("block {k}: offsets {a}..{b}, expected start {expect}"));
    }
    let blk = inflate_zlib(blob.get(a..b).ok_or("block outside blob")?)?;
    let want = if k + 1 == n { size - 65536 * k } else { 65536 };
    if blk.len() != want {
      return Err(format!("block {k} has {} bytes instead of {want}", blk.len()));
    }
    out.extend(blk);
    expect = b;
  }
  if rd(4 + 4 * n)? != expect {
    return Err("last offset wrong".into());
  }
  let rest = &blob[expect..];
  if rest.len() != 28 || rest.iter().any(|x| *x != 0) {
    return Err(format!("expected 7 empty forks, found {} bytes", rest.len()));
  }
  Ok(out)
}

fn one(ctx: &Ctx, group: &str, data: &[u8], skip: usize, max: usize) {
  let info = || json!({"len": data.len(), "head": data.iter().take(16).collect::<Vec<_>>(), "skip": skip, "read_size": max});
  ctx.case(fp(&(data, skip, max)), data.len() > skip);
  ctx.sample(group, info);
  let want = &data[skip..];
  let r = ctx.guard(|| -> Result<(), String> {
    let mut env = Env { c: Cursor::new(data.to_vec()), max, calls: 0, fail_at: usize::MAX };
    env.seek(SeekFrom::Start(skip as u64)).unwrap();
    let o = OriginalCompressed::compress(&mut env).map_err(|e| format!("compress: {e}"))?;
    if o.digest() != Some(md5(want)) {
      return Err("digest is not the MD5 of the original".into());
    }
    let mut blob = vec![];
    o.write_to_stream(&mut blob).map_err(|e| format!("write: {e}"))?;
    let got = ref_restore(&blob).map_err(|e| format!("independent reader: {e}"))?;
    if got != want {
      return Err("independent reader restores different bytes".into());
    }
    ctx.outcome(fp(&blob));
    // direct restore (no serialisation) and through the stored structure, embedded at a non-zero offset
    let mut direct = vec![];
    o.decompress(&mut direct, true).map_err(|e| format!("direct restore: {e}"))?;
    if direct != want {
      return Err("direct restore differs".into());
    }
    for lead in [0usize, 7] {
      let mut emb = vec![0x5a; lead];
      emb.extend(&blob);
      emb.extend([9; 5]);
      let mut c = Cursor::new(emb);
      c.set_position(lead as u64);
      let mut env = Env { c, max, calls: 0, fail_at: usize::MAX };
      let o2 = OriginalCompressed::new(&mut env, Some(md5(want))).map_err(|e| format!("reload: {e}"))?;
      let mut out = vec![];
      let n = o2.decompress(&mut out, true).map_err(|e| format!("restore: {e}"))?;
      if out != want {
        return Err(format!("restored bytes differ (lead {lead})"));
      }
      if n != want.len() {
        return Err(format!("reported length {n} instead of {}", want.len()));
      }
    }
    Ok(())
  });
  if let Err(e) | Ok(Err(e)) = r {
    ctx.fail(group, e, info());
  }
}

pub fn run(ctx: &Ctx) {
  // 1. lengths x content x stream behaviour
  let mut lens: Vec<usize> = (0..=ctx.pick(600, 4096)).collect();
  for k in 1..=ctx.pick(3, 6) {
    lens.extend((65536 * k - 2)..=(65536 * k + 2));
  }
  let lens = &lens;
  ctx.par("lengths", lens.len() * 4, |i| {
    let n = lens[i / 4];
    let d = content(i % 4, n);
    one(ctx, "roundtrip", &d, 0, usize::MAX);
  });
  let wl: Vec<usize> = (0..20).chain([65535, 65536, 65537, 131072, 131073]).collect();
  let wl = &wl;
  ctx.par("stream behaviours", wl.len() * 4 * 4, |i| {
    let d = digits(i, &[wl.len(), 4, 4]);
    let data = content(3, wl[d[0]]);
    one(ctx, "streams", &data, d[1].min(data.len()), [1, 3, 4093, 65536][d[2]]);
  });
  // 2. an I/O error at every read call: never a silent success
  ctx.par("read errors", 3 * 4, |i| {
    let n = [10, 70000, 140000][i / 4];
    let max = if n == 10 { [1, 2, 4, usize::MAX][i % 4] } else { [4096, 5000, 65536, usize::MAX][i % 4] };
    let data = content(1, n);
    let mut env = Env { c: Cursor::new(data.clone()), max, calls: 0, fail_at: usize::MAX };
    let _ = OriginalCompressed::compress(&mut env);
    let total = env.calls;
    for f in 0..total {
      ctx.case(fp(&("readerr", n, max, f)), true);
      let r = ctx.guard(|| OriginalCompressed::compress(&mut Env { c: Cursor::new(data.clone()), max, calls: 0, fail_at: f }).is_ok());
      if r == Ok(true) {
        ctx.fail("readerr", format!("read error at call {f} of {total} was swallowed"), json!({"len": n, "read_size": max, "fail_at": f}));
      }
    }
  });
  // 3. corruption: every bit flip, every truncation, block swaps, digest flips
  let originals: Vec<Vec<u8>> = vec![content(3, 90), content(0, 65536 * 2 + 40), content(2, 300)];
  for (oi, data) in originals.iter().enumerate() {
    let o = OriginalCompressed::compress(&mut Cursor::new(data.clone())).expect("compress");
    let mut blob = vec![];
    o.write_to_stream(&mut blob).expect("write");
    let dig = md5(data);
    let check = |what: String, b: Vec<u8>, dg: Option<[u8; 16]>| {
      ctx.case(fp(&(&b, &dg)), true);
      ctx.sample("corrupt", || json!({"original": oi, "corruption": what}));
      let r = ctx.guard(|| {
        let o = OriginalCompressed::new(&mut Cursor::new(b), dg).ok()?;
        let mut out = vec![];
        o.decompress(&mut out, true).ok()?;
        Some(out)
      });
      match r {
        Ok(Some(out)) if &out != data || dg != Some(dig) => ctx.fail("corrupt", format!("restoring a corrupted original reported success with wrong or unverifiable content ({what})"), json!({"original": oi, "corruption": what})),
        Ok(Some(_)) => ctx.outcome(1),
        Ok(None) => ctx.outcome(2),
        Err(_) => ctx.outcome(3), // panics are not covered by this property
      }
    };
    ctx.par("bit flips", blob.len() * 8, |i| {
      let mut b = blob.clone();
      b[i / 8] ^= 1 << (i % 8);
      check(format!("bit {i}"), b, Some(dig));
    });
    ctx.par("truncation", blob.len(), |i| check(format!("truncated to {i}"), blob[..i].to_vec(), Some(dig)));
    ctx.par("digest", 128, |i| {
      let mut d2 = dig;
      d2[i / 8] ^= 1 << (i % 8);
      check(format!("digest bit {i}"), blob.clone(), Some(d2));
    });
    check("digest missing".into(), blob.clone(), None);
    // every byte replaced by 0 and 255, adjacent bytes exchanged
    ctx.par("byte edits", blob.len() * 3, |i| {
      let mut b = blob.clone();
      let k = i / 3;
      match i % 3 {
        0 => b[k] = 0,
        1 => b[k] = 0xff,
        _ => b.swap(k, (k + 1) % blob.len()),
      }
      if b != blob {
        check(format!("byte edit {i}"), b, Some(dig));
      }
    });
  }
  // 4. whole path: conversions with an embedded original, nested, through convert_raw_source
  let sizes = [(6usize, 4usize), (34, 18), (260, 130)];
  ctx.par("conversion", sizes.len() * 2 * 2, |i| {
    let d = digits(i, &[sizes.len(), 2, 2]);
    let (w, h) = sizes[d[0]];
    let spec = Spec::new(w, h, Kind::Cfa("RGGB".into()), 14, i as u64);
    let src = dng_file(&spec, &Layout { be: d[1] == 1, ..Default::default() });
    let mut p = params(CropMode::Best, if d[2] == 0 { DngCompression::Lossless } else { DngCompression::Uncompressed }, 1);
    p.embedded = true;
    let mut cur = src;
    for depth in 0..2 {
      ctx.case(fp(&(&cur, depth, i)), true);
      let info = || json!({"size": [w, h], "depth": depth, "variant": i});
      let out = match ctx.guard(|| convert_bytes(&cur, &p)) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) | Err(e) => return ctx.fail("convert", e, info()),
      };
      let r = (|| -> Result<(), String> {
        let root = crate::refs::tiff::Tiff::open(&out)?.chain()?.remove(0);
        let blob = root.get(50828).ok_or("no embedded original")?.bytes(false);
        let dg = root.get(50973).ok_or("no digest")?.bytes(false);
        if ref_restore(&blob)? != cur {
          return Err("embedded original differs from the input file".into());
        }
        if dg != md5(&cur) {
          return Err("digest tag is not the MD5 of the input file".into());
        }
        if root.get(50827).and_then(|v| v.s()) != Some("in.dng".into()) {
          return Err("original file name lost".into());
        }
        Ok(())
      })();
      if let Err(e) = r {
        return ctx.fail("convert", e, info());
      }
      cur = out;
    }
  });
}
