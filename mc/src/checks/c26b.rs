//! C26, second part: Fujifilm, Minolta, Kodak, Mamiya, Epson, Hasselblad, Leaf, ARRI.
use super::c08::{kodak_curve, leaf};
use crate::refs::ljpeg as lj;
use super::c25::{content, l, s, same, shorts, want};
use super::c26::*;
use crate::ctx::*;
use crate::refs::files::*;
use crate::refs::tiff::{Item, Node, V, ascii, build};
use crate::refs::vendor::*;
use serde_json::json;

fn at4(f: &mut Vec<u8>, p: usize, v: usize) {
  f[p..p + 4].copy_from_slice(&(v as u32).to_be_bytes());
}

// ---------------------------------------------------------------- Fujifilm

/// The blocks of a RAF file; `fuji` is a TIFF, or the samples themselves where it is not.
fn raf_file(main: &[u8], tags: &[(u16, Vec<u8>)], fuji: &[u8], order: usize) -> Vec<u8> {
  raf_with(main, &[0xff, 0xd9], tags, fuji, order)
}
fn raf_with(main: &[u8], picture: &[u8], tags: &[(u16, Vec<u8>)], fuji: &[u8], order: usize) -> Vec<u8> {
  let mut jpeg = vec![0xff, 0xd8, 0xff, 0xe1];
  jpeg.extend(((main.len() + 8) as u16).to_be_bytes());
  jpeg.extend(b"Exif\0\0");
  jpeg.extend(main);
  jpeg.extend(picture);
  let mut tags = tags.to_vec();
  tags.sort();
  let mut raf = (tags.len() as u32).to_be_bytes().to_vec();
  for (t, v) in &tags {
    raf.extend(t.to_be_bytes());
    raf.extend((v.len() as u16).to_be_bytes());
    raf.extend(v);
  }
  let mut f = b"FUJIFILMCCD-RAW 0201FF383501".to_vec();
  f.resize(60, 0);
  f.extend(b"0100");
  f.resize(0x94, 0);
  // the samples come last: their size is not stored everywhere
  for b in [[0, 1], [1, 0]][order] {
    let d = [&jpeg, &raf][b];
    let (p, at) = (f.len(), [84, 92][b]);
    at4(&mut f, at, p);
    at4(&mut f, at + 4, d.len());
    f.extend(d);
    f.resize(f.len().next_multiple_of(16), 0);
  }
  let p = f.len();
  at4(&mut f, 100, p);
  at4(&mut f, 104, fuji.len());
  f.extend(fuji);
  f
}
fn be16(v: &[usize]) -> Vec<u8> {
  v.iter().flat_map(|x| (*x as u16).to_be_bytes()).collect()
}
fn fuji_main(c: &Cam, be: bool, vf: bool, gap: usize) -> Vec<u8> {
  let mn = vec![(0x0000, V::Undefined(b"0130".to_vec())), (0x1001, s(3))];
  tiff(Camera { root: c.root(), exif: exif(), mn: Some((Mn::Head(b"FUJIFILM\x0c\0\0\0"), mn, vec![])), chain: vec![] }, be, vf, gap)
}

/// A small file that shows the given JPEG picture.
pub(super) fn raf_picture(jpeg: &[u8], be: bool, k: usize) -> Vec<u8> {
  let c = cam("FUJIFILM", "X-A1", [0, 0, 168, 0], None, None, 4094, "RGGB");
  let im = content(240, 24, 16, k);
  let n = Node::new().v(0xf001, l(240)).v(0xf002, l(24)).v(0xf003, l(16)).v(0xf008, l(240 * 24 * 2)).v(0xf00e, V::Long(vec![420, 302, 560])).item(0xf007, Item::Blobs(vec![w16(&im, be, 0)]));
  let second = build(&[Node::new().item(0xf000, Item::Dirs(vec![n], 4))], be, k % 2 == 1, k % 3);
  raf_with(&fuji_main(&c, be, k % 2 == 1, k % 3), &jpeg[2..], &[(0xc000, vec![0x5a; 40])], &second, k / 2 % 2)
}

fn fuji(ctx: &Ctx) {
  const X: [Cam; 9] = [
    cam("FUJIFILM", "X-T1", [4, 0, 52, 0], None, None, 16383, "RBGBRGGGRGGBGGBGGRBRGRBGGGBGGRGGRGGB"),
    cam("FUJIFILM", "X-T20", [0, 0, 128, 0], None, None, 16383, "RBGBRGGGRGGBGGBGGRBRGRBGGGBGGRGGRGGB"),
    cam("FUJIFILM", "X-A1", [0, 0, 168, 0], None, None, 4094, "RGGB"),
    cam("FUJIFILM", "GFX 50S", [0, 0, 936, 2], None, None, 0, "RGGB"),
    cam("FUJIFILM", "FinePix S1", [0; 4], None, None, 4095, "RGGB"),
    cam("FUJIFILM", "X-T100", [0; 4], None, None, 16383, "RGGB"),
    cam("FUJIFILM", "X-A10", [0; 4], None, None, 4096, "RGGB"),
    cam("FUJIFILM", "FinePix HS10 HS11", [0; 4], Some([0, 0, 16, 6]), None, 3900, "BGGR"),
    cam("FUJIFILM", "X-T1", [4, 0, 52, 0], None, None, 16383, "RBGBRGGGRGGBGGBGGRBRGRBGGGBGGRGGRGGB"),
  ];
  // camera, byte order, size, content
  let rx = [X.len(), 2, 3, ctx.pick(12, 90)];
  ctx.par("RAF", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (c, be, k) = (&X[d[0]], d[1] == 1, d[3]);
    let (w, h) = [(240, 24), (248, 37), (384, 48)][d[2]];
    let w = w + if d[0] == 3 { 960 } else { 0 };
    let jpeg32 = (4..8).contains(&d[0]);
    let bps = match d[0] {
      4 | 6 | 7 => 12,
      5 => 14,
      _ => [12, 14, 16][k % 3],
    };
    let im = content(w, h, bps, k);
    let data = match (bps, jpeg32) {
      (n, true) => {
        if w * h % 16 > 0 {
          return;
        }
        msb32(&im, n)
      }
      (12, _) => pack(&im, 12, true, 0),
      (14, _) => w16(&im, false, 0),
      _ => w16(&im, be, 0),
    };
    let mut t = c.want(w, h, &im.d);
    if d[0] == 6 {
      t.active = None;
    }
    if d[0] == 3 {
      t.white = Some(vec![(1 << bps) - 1]);
    }
    let mut tags = vec![(0x9650, vec![7; 4]), (0x9200, vec![1; 1 + k % 5]), (0xc000, vec![0x5a; 40])];
    if k % 2 == 0 {
      let a = [4 + k % 5, 2, w - 60, h - 8];
      tags.push((0x110, be16(&[a[1], a[0]])));
      tags.push((0x111, be16(&[a[3], a[2]])));
      t.crop = Some(a);
    }
    let mut period = if c.cfa.len() == 36 { 36 } else { 4 };
    if c.cfa.len() == 36 && k % 3 != 1 {
      // the pattern of the file counts, stored backwards
      const P: [&str; 3] = ["GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG", "RBGBRGGGRGGBGGBGGRBRGRBGGGBGGRGGRGGB", "GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG"];
      let p = P[(k / 3) % 3];
      let b: Vec<u8> = p.bytes().rev().map(|x| match x {
        b'R' => 0,
        b'G' => 1,
        _ => 2,
      }).collect();
      tags.push((0x131, b));
      t.cfa = Some(p);
      period = 36;
    }
    let wb = [420 + k as u32, 302, 560 - k as u32];
    let own = k % 4 == 3 && bps == 16 && !jpeg32;
    let second = if own {
      // old files: no second TIFF
      tags.push((0x100, be16(&[h, w])));
      tags.push((0x2ff0, be16(&[wb[0], wb[1], wb[1], wb[2]].map(|x| x as usize))));
      tags.push((0x130, vec![0x80, 1, 2, 3]));
      t.wb = Some([wb[1], wb[0], wb[2]].map(|x| x as f32));
      data
    } else {
      let mut n = Node::new().v(0xf001, l(w)).v(0xf002, l(h)).v(0xf003, l(bps as usize)).v(0xf008, l(data.len())).v(0xf00e, V::Long(wb.to_vec()));
      t.wb = Some([wb[1], wb[0], wb[2]].map(|x| x as f32));
      if k % 3 != 2 {
        let b: Vec<u32> = (0..period).map(|j| 1000 + j * 2).collect();
        t.black = Some(b.iter().map(|x| *x as f32).collect());
        n.set(0xf00a, V::Long(b));
      }
      n = n.item(0xf007, Item::Blobs(vec![data]));
      build(&[Node::new().item(0xf000, Item::Dirs(vec![n], 4))], be, k % 2 == 1, k % 3)
    };
    let f = raf_file(&fuji_main(c, be, k % 2 == 1, k % 3), &tags, &second, k / 2 % 2);
    same(ctx, &format!("RAF {bps} bit{}", if jpeg32 { " words" } else { "" }), &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "bigEndian": be, "family": k, "withoutSecondTiff": own}));
  });

  // sensors turned by 45 degrees
  const R: [(Cam, bool); 5] = [
    (cam("FUJIFILM", "FinePix E550", [0; 4], None, Some(0), 15875, "GBRG"), false),
    (cam("FUJIFILM", "FinePix S9600", [46, 0, 46, 0], None, Some(0), 15564, "GBRG"), false),
    (cam("FUJIFILM", "FinePix S6500fd", [64, 0, 64, 0], None, Some(0), 15564, "GBRG"), true),
    (cam("FUJIFILM", "FinePix S5Pro", [0, 0, 2, 0], Some([23, 4, 23, 4]), Some(0), 16383, "RGGB"), true),
    (cam("FUJIFILM", "FinePix F700", [0; 4], Some([20, 12, 20, 12]), Some(0), 16383, "GBRG"), false),
  ];
  let rx = [R.len(), 2, 4, ctx.pick(4, 24)];
  ctx.par("RAF turned", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let ((c, alt), be, k) = (&R[d[0]], d[1] == 1, d[3]);
    let (w, h) = [(160, 150), (192, 130), (200, 230), (256, 128)][d[2]];
    let im = content(w, h, 14, k);
    let data: Vec<u8> = if d[0] == 4 {
      // a second exposure follows each row
      im.d.chunks(w).flat_map(|r| r.iter().map(|x| x.to_le_bytes()).chain(r.iter().map(|x| (x / 16).to_le_bytes())).flatten().collect::<Vec<_>>()).collect()
    } else {
      w16(&im, be, 0)
    };
    let (x0, y0, cw, ch) = (c.active[0], c.active[1], w - c.active[0] - c.active[2], h - c.active[1] - c.active[3]);
    let (side, split) = if *alt { (ch + cw / 2, ch) } else { (cw + ch / 2, cw) };
    let mut px = vec![0; side * (side - 1)];
    for r in 0..ch {
      for q in 0..cw {
        let (y, x) = if *alt { (side + r - ch - 1 - q / 2, q.div_ceil(2) + r) } else { (cw - 1 - q + r / 2, r.div_ceil(2) + q) };
        px[y * side + x] = im.d[(r + y0) * w + x0 + q];
      }
    }
    let mut t = want(side, side - 1, &px);
    t.black = Some(vec![0.0]);
    t.white = Some(vec![c.white]);
    t.cfa = Some(c.cfa);
    let r2 = std::f64::consts::SQRT_2;
    let (a, b) = ((split as f64 * r2) as usize, ((side - split) as f64 * r2) as usize);
    t.crop = c.crop.map(|z| area(z, a.max(b), a.min(b)));
    let wb = [336 + k as u32, 500, 336 + k as u32, 710];
    t.wb = Some([wb[1], wb[0], wb[3]].map(|x| x as f32));
    let mut tags = vec![(0x100, be16(&[h, w])), (0x130, vec![if *alt { 0x0c } else { 0x8c }, 12, 12, 12]), (0x2ff0, be16(&[wb[0], wb[1], wb[0], wb[3]].map(|x| x as usize)))];
    let second = if k % 2 == 0 {
      data
    } else {
      tags.remove(0);
      let n = Node::new().v(0xf001, l(w)).v(0xf002, l(h)).v(0xf003, l(16)).v(0xf008, l(data.len())).item(0xf007, Item::Blobs(vec![data]));
      build(&[Node::new().item(0xf000, Item::Dirs(vec![n], 4))], be, k % 4 > 1, k % 3)
    };
    let f = raf_file(&fuji_main(c, be, k % 4 > 1, k % 3), &tags, &second, k / 2 % 2);
    same(ctx, "RAF turned", &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "bigEndian": be, "family": k}));
  });
}

// ---------------------------------------------------------------- Minolta

fn minolta(ctx: &Ctx) {
  const C: [(Cam, bool); 2] = [
    (cam("Minolta Co., Ltd.", "DiMAGE 7", [0; 4], None, Some(0), 3965, "RGGB"), false),
    (cam("KONICA MINOLTA", "DiMAGE A200", [0; 4], None, Some(0), 3965, "GBRG"), true),
  ];
  let rx = [2, 2, 6, 3, ctx.pick(8, 60)];
  ctx.par("MRW", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let ((c, swapped), packed, k) = (&C[d[0]], d[1] == 1, d[4]);
    let (w, h) = [(64, 40), (82, 31), (128, 72)][d[3]];
    let im = content(w, h, 12, k);
    let data = if packed { pack(&im, 12, false, 0) } else { w16(&im, true, 0) };
    let mut t = want(w, h, &im.d);
    (t.black, t.white, t.cfa) = (Some(vec![0.0]), Some(vec![c.white]), Some(c.cfa));
    let v = [500 + k as u16, 256, 258, 390 + 3 * k as u16];
    t.wb = Some(if *swapped { [v[2], v[0], v[1]].map(|x| x as f32) } else { [v[0] as f32, 257.0, v[3] as f32] });
    let mut prd = b"27820001".to_vec();
    prd.extend(be16(&[h, w, h - 8, w - 8]));
    prd.extend([if packed { 12 } else { 16 }, 12, if packed { 0x59 } else { 0x52 }, 0, 0, 0, 0, 1]);
    let mut wbg = vec![2u8; 4];
    wbg.extend(v.iter().flat_map(|x| x.to_be_bytes()));
    let ttw = build(&[c.root().v(0x10e, ascii(["", "note"][k % 2]))], true, false, 0);
    let blocks = [(b"\0PRD", prd), (b"\0WBG", wbg), (b"\0TTW", ttw), (b"\0RIF", vec![0x77; 4 + k % 7])];
    const ORDER: [[usize; 4]; 6] = [[0, 2, 1, 3], [0, 1, 2, 3], [1, 0, 3, 2], [2, 0, 1, 3], [3, 2, 1, 0], [1, 2, 3, 0]];
    let mut f = b"\0MRM\0\0\0\0".to_vec();
    for b in ORDER[d[2]] {
      f.extend(blocks[b].0);
      f.extend((blocks[b].1.len() as u32).to_be_bytes());
      f.extend(&blocks[b].1);
    }
    let n = f.len() - 8;
    at4(&mut f, 4, n);
    f.extend(data);
    same(ctx, if packed { "MRW packed" } else { "MRW 16 bit" }, &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "packed": packed, "blocks": d[2], "family": k}));
  });
}

// ---------------------------------------------------------------- Kodak

fn kodak(ctx: &Ctx) {
  const C: [Cam; 3] = [
    cam("EASTMAN KODAK COMPANY", "KODAK P712 ZOOM DIGITAL CAMERA", [0; 4], Some([8, 3, 8, 3]), Some(0), 4030, "BGGR"),
    cam("EASTMAN KODAK COMPANY", "KODAK P880 ZOOM DIGITAL CAMERA", [0; 4], None, Some(0), 4095, "BGGR"),
    cam("EASTMAN KODAK COMPANY", "KODAK EASYSHARE Z1015 IS DIGITAL CAMERA", [0; 4], Some([8, 2, 8, 3]), Some(0), 4095, "BGGR"),
  ];
  let rx = [3, 2, 5, 3, ctx.pick(6, 48)];
  ctx.par("KDC", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (c, be, k) = (&C[d[0]], d[1] == 1, d[4]);
    let (w, h) = [(160, 90), (182, 101), (240, 128)][d[3]];
    let im = content(w, h, 12, k);
    let mut t = want(w, h, &im.d);
    (t.black, t.white, t.cfa, t.crop) = (Some(vec![0.0]), Some(vec![c.white]), Some(c.cfa), c.crop.map(|z| area(z, w, h)));
    let (r, b) = (370 + k, 410 - k);
    let mn = if d[2] == 0 {
      t.wb = Some([r as f32, 256.0, b as f32]);
      (0xfa2a, V::Long(vec![r as u32, 256, b as u32]))
    } else {
      t.wb = Some([r as f32 / 256.0, 1.0, b as f32 / 256.0]);
      let mut u: Vec<u8> = (0..[734, 1502, 1512, 2288][d[2] - 1]).map(|x| (x * 7) as u8).collect();
      u[148..152].copy_from_slice(&be16(&[r, b]));
      (0x0f00, V::Undefined(u))
    };
    let late = k % 2 == 1;
    // two parts add up to the place of the samples
    let mut off = vec![0x3333_3333u32; 13 + k % 3];
    let at: usize = match (d[0], late) {
      (2, false) => 0x15000,
      (2, true) => 0x17000,
      _ => 0x5000 + 64 * k,
    };
    let told = match (d[0], late) {
      (2, false) => 0x14fff,
      (2, true) => 0x15000 + 16 * k,
      _ => at,
    };
    (off[4], off[12]) = (0x800 + k as u32, told as u32 - 0x800 - k as u32);
    let raw = Node::new().v(0xfd00, l(w - 80)).v(0xfd01, l(h - 70)).v(0xfd04, V::Long(off));
    let root = c.root().item(0x14a, Item::Dirs(vec![raw], 4));
    let mut f = tiff(Camera { root, exif: exif(), mn: Some((Mn::Plain, vec![mn], vec![])), chain: vec![] }, be, k % 4 > 1, k % 3);
    assert!(f.len() <= at);
    f.resize(at, 0xbb);
    f.extend(pack(&im, 12, false, 0));
    same(ctx, "KDC", &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "bigEndian": be, "family": k, "wb": d[2]}));
  });

  let c = cam("Kodak", "DCS Pro 14N", [0; 4], Some([8, 6, 8, 6]), Some(0), 3700, "GRBG");
  let rx = [2, 4, ctx.pick(40, 240)];
  ctx.par("DCR", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (be, k) = (d[0] == 1, d[2]);
    let (w, h) = [(256, 24), (300, 31), (516, 40), (64, 50)][d[1]];
    let im = content(w, h, 12, k);
    let mut data = vec![];
    for row in im.d.chunks(w) {
      for seg in row.chunks(256) {
        let Some(b) = kodak65000(&Im { w: seg.len(), h: 1, d: seg.to_vec() }, 0) else { return };
        data.extend(b);
      }
    }
    let n = [4096, 1024, 4096][k % 3];
    let curve: Vec<u16> = (0..n).map(|j| (j as u16).min(1023) * 3 + kodak_curve(j as u16 / 8) / 9).collect();
    // samples behind the end of the curve keep its last value
    let t2 = |v: u16| (v as usize).min(n - 1);
    let dev = |v: u16, up: bool| {
      let v = t2(v);
      let (a, b) = (curve[v.saturating_sub(1)], curve[(v + 1).min(n - 1)]);
      let e = (b.abs_diff(a) + 2) / 4;
      if up { curve[v].saturating_add(e) } else { curve[v].saturating_sub(e) }
    };
    let px: Vec<u16> = im.d.iter().map(|v| dev(*v, true)).collect();
    if im.d.iter().any(|v| *v as usize >= n) {
      return;
    }
    let mut t = want(w, h, &px);
    t.lo = Some(im.d.iter().map(|v| dev(*v, false)).collect());
    (t.black, t.white, t.cfa, t.crop) = (Some(vec![0.0]), Some(vec![c.white]), Some(c.cfa), c.crop.map(|z| area(z, w, h)));
    let v = [1200 + k, 1024, 900 + 3 * k];
    let mut rec: Vec<u8> = (0..46 + k % 4 * 10).map(|x| (x * 11) as u8).collect();
    rec[40..46].copy_from_slice(&be16(&v));
    t.wb = Some(v.map(|x| 2048.0 / x as f32));
    let kdk = Node::new().v(0x3fd, V::Undefined(rec)).v(0x90d, shorts(&curve));
    let raw = merge(raw_dir(w, h, 12, 65000, data), Node::new().v(0x828d, shorts(&[2, 2])).v(0x828e, V::Byte(vec![1, 0, 2, 1])));
    let root = c.root().item(0x14a, Item::Dirs(vec![raw], 4)).item(0x8290, Item::Dirs(vec![kdk], 4));
    let f = tiff(Camera { root, exif: exif(), mn: None, chain: vec![] }, be, k % 4 > 1, k % 3);
    same(ctx, "DCR", &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "bigEndian": be, "family": k, "curve": n}));
  });

  let c = cam("KODAK", "DCS460D         FILE VERSION 3", [3, 0, 3, 0], None, Some(7), 6664, "GRBG");
  let rx = [2, 3, ctx.pick(24, 240)];
  ctx.par("DCS", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (be, k) = (d[0] == 1, d[2]);
    let (w, h) = [(64, 40), (83, 31), (130, 70)][d[1]];
    let im = content(w, h, 8, k);
    let curve: Vec<u16> = (0..256).map(|j| kodak_curve(j as u16 / 2) + j as u16).collect();
    let dev = |v: u16, up: bool| {
      let v = v as usize;
      let e = (curve[(v + 1).min(255)].abs_diff(curve[v.saturating_sub(1)]) + 2) / 4;
      if up { curve[v].saturating_add(e) } else { curve[v].saturating_sub(e) }
    };
    let px: Vec<u16> = im.d.iter().map(|v| dev(*v, true)).collect();
    let mut t = c.want(w, h, &px);
    t.lo = Some(im.d.iter().map(|v| dev(*v, false)).collect());
    t.crop = None;
    let data: Vec<u8> = im.d.iter().map(|v| *v as u8).collect();
    let root = merge(c.root().v(0x123, shorts(&curve)).v(0xfe, l(1)), Node::new()).item(0x14a, Item::Dirs(vec![raw_dir(w, h, 8, 1, data)], 4));
    let f = tiff(Camera { root, exif: exif(), mn: None, chain: vec![] }, be, k % 4 > 1, k % 3);
    same(ctx, "DCS", &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "bigEndian": be, "family": k}));
  });
}

// ---------------------------------------------------------------- Mamiya, Epson, Hasselblad, Leaf, ARRI

fn others(ctx: &Ctx) {
  const MEF: Cam = cam("Mamiya-OP Co.,Ltd.", "MAMIYA ZD", [0; 4], None, Some(0), 4000, "RGGB");
  const ERF: Cam = cam("SEIKO EPSON CORP.", "R-D1", [0; 4], None, None, 4095, "RGGB");
  let rx = [2, 2, 3, ctx.pick(24, 240)];
  ctx.par("MEF, ERF", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (be, k, erf) = (d[1] == 1, d[3], d[0] == 1);
    let c = if erf { &ERF } else { &MEF };
    let (w, h) = [(80, 40), (90, 31), (160, 72)][d[2]];
    let im = content(w, h, 12, k);
    let mut t = c.want(w, h, &im.d);
    (t.active, t.crop) = (None, None);
    let data = if erf { wcontrol(&im, false) } else { pack(&im, 12, false, 0) };
    let raw = merge(raw_dir(w, h, 12, 1, data), Node::new().v(0x828d, shorts(&[2, 2])).v(0x828e, V::Byte(vec![0, 1, 1, 2])));
    let root = c.root().item(0x14a, Item::Dirs(vec![raw], 4));
    let mut mn = None;
    if erf {
      let (r, b) = (300 + k, 500 - k);
      let mut u: Vec<u8> = (0..256).map(|x| (x * 5) as u8).collect();
      u[48..52].copy_from_slice(&be16(&[r, b]));
      t.wb = Some([r as f32 * 508.0 * 1.078 / 65536.0, 1.0, b as f32 * 382.0 * 1.173 / 65536.0]);
      let mut v = vec![(0x0e80, V::Undefined(u))];
      if k % 2 == 0 {
        let b = [60u16, 61, 62, 63 + k as u16];
        v.push((0x0401, shorts(&b)));
        t.black = Some(b.iter().map(|x| *x as f32).collect());
      }
      mn = Some((Mn::Head(b"EPSON\0\x01\0"), v, vec![]));
    }
    let f = tiff(Camera { root, exif: exif(), mn, chain: vec![] }, be, k % 4 > 1, k % 3);
    same(ctx, if erf { "ERF" } else { "MEF" }, &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "bigEndian": be, "family": k}));
  });

  const TFR: [Cam; 2] = [cam("Hasselblad", "Hasselblad CFV-50", [0; 4], None, None, 0, "RGGB"), cam("Hasselblad", "X2D 100C", [0; 4], None, None, 0, "RGGB")];
  let rx = [2, 2, 3, ctx.pick(24, 240)];
  ctx.par("3FR", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (be, k, c) = (d[1] == 1, d[3], &TFR[d[0]]);
    let (w, h) = [(80, 40), (92, 31), (160, 72)][d[2]];
    let im = content(w, h, 16, k);
    let data = if d[0] == 0 {
      hassel(&im)
    } else {
      w16(&im, false, 0)
    };
    let mut t = want(w, h, &im.d);
    t.cfa = Some(c.cfa);
    let (white, black) = (60000 + k, 256 + k);
    (t.white, t.black) = (Some(vec![white as u32]), Some(vec![black as f32]));
    let mut raw = merge(raw_dir(w, h, 16, if d[0] == 0 { 7 } else { 1 }, data), Node::new().v(0xc61d, s(white)).v(0xc61a, s(black)));
    if k % 2 == 0 {
      let a = [6 + k % 7, 4, w - 20, h - 9];
      raw.set(0xc61f, V::Long(vec![a[0] as u32, a[1] as u32]));
      raw.set(0xc620, V::Long(vec![a[2] as u32, a[3] as u32]));
      t.crop = Some(a);
    }
    let n = [400 + k as u32, 1000, 617 - k as u32];
    t.wb = Some(n.map(|x| 1000.0 / x as f32));
    let root = c.root().v(0xfe, l(1)).v(0xc628, V::Rational(n.map(|x| (x, 1000)).to_vec())).item(0x14a, Item::Dirs(vec![raw], 4));
    let f = tiff(Camera { root, exif: exif(), mn: None, chain: vec![] }, be, k % 4 > 1, k % 3);
    same(ctx, if d[0] == 0 { "3FR compressed" } else { "3FR" }, &f, &t, &|| json!({"camera": c.model, "w": w, "h": h, "bigEndian": be, "family": k}));
  });

  let rx = [2, 2, 3, ctx.pick(24, 240)];
  ctx.par("MOS", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let (be, k) = (d[1] == 1, d[3]);
    let (w, h) = [(80, 40), (92, 32), (160, 72)][d[2]];
    let im = content(w, h, if d[0] == 0 { 16 } else { 14 }, k);
    let (comp, data) = if d[0] == 0 {
      (1, w16(&im, be, 0))
    } else {
      let Some(v) = leaf(&im, false, 1) else { return };
      ([7, 99][k % 2], v)
    };
    let mut t = want(w, h, &im.d);
    (t.white, t.black, t.cfa) = (Some(vec![16191]), Some(vec![0.0]), Some("GBRG"));
    let n = [1000 + k, 500, 1000, 625 - k];
    t.wb = Some([n[1], n[2], n[3]].map(|x| n[0] as f32 / x as f32));
    let mut meta: Vec<u8> = (0..40 + k).map(|x| (x * 3) as u8 | 128).collect();
    meta.extend(b"NeutObj_neutrals\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0");
    meta.extend(format!("{}\n{}\n{}\n{}\0", n[0], n[1], n[2], n[3]).bytes());
    meta.extend([0x81; 80]);
    let xmp = format!("<x:xmpmeta><rdf:RDF><rdf:Description><tiff:Make>Leaf</tiff:Make><tiff:Model>Leaf Aptus 75(LF{k}     )/Mamiya</tiff:Model></rdf:Description></rdf:RDF></x:xmpmeta>");
    let mut raw = raw_dir(w, h, 16, comp, vec![]);
    raw.items.remove(&0x111);
    raw = raw.item(0x144, Item::Blobs(vec![data]));
    let root = Node::new().v(0xfe, l(1)).v(0x131, ascii("Camera Library")).v(0x2bc, V::Byte(xmp.into_bytes())).v(0x8606, V::Byte(meta)).item(0x14a, Item::Dirs(vec![raw], 4));
    let f = tiff(Camera { root, exif: exif(), mn: None, chain: vec![] }, be, k % 4 > 1, k % 3);
    same(ctx, if d[0] == 0 { "MOS" } else { "MOS compressed" }, &f, &t, &|| json!({"w": w, "h": h, "bigEndian": be, "family": k}));
  });

  let rx = [2, 3, 3, ctx.pick(24, 240)];
  ctx.par("ARI", rx.iter().product(), |i| {
    let d = digits(i, &rx);
    let k = d[3];
    let (w, h) = [(80, 40), (96, 31), (160, 72)][d[1]];
    let im = content(w, h, 12, k);
    let mut t = want(w, h, &im.d);
    (t.white, t.black, t.cfa) = (Some(vec![4095]), Some(vec![0.0]), Some(["BGGR", "RGGB"][d[0]]));
    let at = [4096, 1024, 8192 + 4 * k][d[2]];
    let mut f: Vec<u8> = (0..at).map(|x| (x * 29) as u8).collect();
    f[..8].copy_from_slice(b"ARRI\x12\x34\x56\x78");
    let le = |f: &mut Vec<u8>, p: usize, v: u32| f[p..p + 4].copy_from_slice(&v.to_le_bytes());
    le(&mut f, 8, at as u32);
    le(&mut f, 0x14, w as u32);
    le(&mut f, 0x18, h as u32);
    let wb = [1.2 + k as f32 / 64.0, 1.0, 1.5];
    (0..3).for_each(|j| le(&mut f, 100 + 4 * j, wb[j].to_bits()));
    t.wb = Some(wb);
    f[668..698].fill(0);
    let name = [&b"A-MINI"[..], b"ALEXA"][d[0]];
    f[668..668 + name.len()].copy_from_slice(name);
    f.extend(if d[0] == 0 { pack(&im, 12, true, 0) } else { msb32(&im, 12) });
    same(ctx, "ARI", &f, &t, &|| json!({"camera": String::from_utf8_lossy(name), "w": w, "h": h, "family": k, "at": at}));
  });
}

/// Hasselblad: the header of a lossless JPEG; the lengths of two differences, then the differences, in 32 bit words.
fn hassel(im: &Im) -> Vec<u8> {
  let t = lj::Table::from_lengths(&(0..=16u8).map(|v| (v, [2, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15][v as usize])).collect::<Vec<_>>());
  let mut o = vec![0xff, 0xd8, 0xff, 0xc3, 0, 11, 16];
  o.extend(be16(&[im.h, im.w]));
  o.extend([1, 0, 0x11, 0, 0xff, 0xc4, 0, 19 + t.vals.len() as u8, 0]);
  o.extend(&t.bits[1..]);
  o.extend(&t.vals);
  o.extend([0xff, 0xda, 0, 8, 1, 0, 0, 8, 0, 0]);
  let codes = t.codes();
  let mut b = B::default();
  for r in im.d.chunks(im.w) {
    let mut p = [0x8000u16; 2];
    for c in r.chunks(2) {
      let d = [0, 1].map(|j| {
        let d = c[j].wrapping_sub(p[j]) as i16 as i32;
        p[j] = c[j];
        if d == -32768 { (16, 0xffff) } else { mag(d) }
      });
      for x in &d {
        let (n, v, _) = codes.iter().find(|y| y.2 as u32 == x.0).unwrap();
        b.msb(*n as u32, *v);
      }
      d.iter().for_each(|x| b.msb(x.0, x.1));
    }
  }
  o.extend(b.bytes_msb32());
  o
}

pub fn run(ctx: &Ctx) {
  fuji(ctx);
  minolta(ctx);
  kodak(ctx);
  others(ctx);
}
