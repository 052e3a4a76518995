//! C10: BMFF (CR3) and JFIF containers are parsed faithfully, whatever legal form they take.
use crate::Level;
use crate::checks::c06::{back, cmp_ifd};
use crate::checks::c07::{base_cr3, hex};
use crate::ctx::*;
use crate::refs::boxes::*;
use crate::refs::tiff::*;
use rawler::formats::bmff::{Bmff, FileBox};
use rawler::formats::jfif::{Jfif, Payload, Segment};
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use std::io::Cursor;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one well-formed ISO media or JPEG file from an independent builder read by the real parser; every box header, every field, every sample position or every segment is compared with what was put in. Non-trivial: the file differs from the base file, or has at least two samples or segments.",
    bounds: "sample tables: every stsc table of up to 3 (thorough 5) runs over up to 5 (thorough 7) chunks with 1-3 samples per chunk, fixed and per-sample sizes, rising, falling and 64 bit chunk offsets: every sample; box forms: every box in 64 bit form, every pair of boxes in 64 bit form (thorough), last box with size 0, unknown/uuid/free boxes of 4 sizes at every legal position, every permutation of up to 5 children and every transposition and rotation otherwise, also with one box in 64 bit form; fields: every documented field of every box x 5+ values, all other fields unchanged; JPEG: every sequence of up to 3 (thorough 5) segments out of 17 kinds x fill bytes x scans",
    assumptions: &["free boxes are accepted inside CRAW and the Canon metadata box only; CCTP and CDI1 accept no foreign boxes", "CMP1 boxes with 64 bit sizes are compared without the movie extension"],
  }
}

// ---------- box trees ----------
#[derive(Clone, Debug)]
struct B {
  typ: [u8; 4],
  uuid: Option<[u8; 16]>,
  pre: Vec<u8>,
  kids: Vec<B>,
  form: u8,
}
fn leaf(typ: &[u8; 4], data: &[u8]) -> B {
  B { typ: *typ, uuid: None, pre: data.to_vec(), kids: vec![], form: 0 }
}
fn prefix(typ: &[u8; 4], uuid: Option<[u8; 16]>) -> Option<usize> {
  match typ {
    b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl" => Some(0),
    b"stsd" => Some(8),
    b"CRAW" => Some(82),
    b"CDI1" => Some(4),
    b"CCTP" => Some(12),
    b"uuid" if uuid == Some(CR3) => Some(0),
    _ => None,
  }
}
fn parse(d: &[u8]) -> Vec<B> {
  let (mut p, mut out) = (0, vec![]);
  while p < d.len() {
    let mut size = u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) as usize;
    let typ: [u8; 4] = d[p + 4..p + 8].try_into().unwrap();
    let mut h = 8;
    if size == 1 {
      size = u64::from_be_bytes(d[p + 8..p + 16].try_into().unwrap()) as usize;
      h = 16;
    }
    let uuid = (&typ == b"uuid").then(|| <[u8; 16]>::try_from(&d[p + h..p + h + 16]).unwrap());
    h += uuid.map_or(0, |_| 16);
    let body = &d[p + h..p + size];
    let (pre, kids) = match prefix(&typ, uuid) {
      Some(n) => (body[..n].to_vec(), parse(&body[n..])),
      None => (body.to_vec(), vec![]),
    };
    out.push(B { typ, uuid, pre, kids, form: 0 });
    p += size;
  }
  out
}
/// (type, offset) -> (size, header length)
type Heads = BTreeMap<u64, (String, u64, u64)>;
fn len(b: &B) -> usize {
  (if b.form == 1 { 16 } else { 8 }) + b.uuid.map_or(0, |_| 16) + b.pre.len() + b.kids.iter().map(len).sum::<usize>()
}
fn emit(bs: &[B], o: &mut Vec<u8>, heads: &mut Heads) {
  for b in bs {
    let n = len(b);
    let start = o.len() as u64;
    match b.form {
      0 => o.extend((n as u32).to_be_bytes()),
      1 => o.extend(1u32.to_be_bytes()),
      _ => o.extend(0u32.to_be_bytes()),
    }
    o.extend(b.typ);
    if b.form == 1 {
      o.extend((n as u64).to_be_bytes());
    }
    if let Some(u) = b.uuid {
      o.extend(u);
    }
    heads.insert(start, (String::from_utf8(b.typ.to_vec()).unwrap(), n as u64, o.len() as u64 - start));
    o.extend(&b.pre);
    emit(&b.kids, o, heads);
  }
}
fn at<'a>(bs: &'a mut [B], path: &[usize]) -> &'a mut B {
  let b = &mut bs[path[0]];
  if path.len() == 1 { b } else { at(&mut b.kids, &path[1..]) }
}
fn kids_of<'a>(bs: &'a mut Vec<B>, path: &[usize]) -> &'a mut Vec<B> {
  if path.is_empty() { bs } else { &mut at(bs, path).kids }
}
fn paths(bs: &[B], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
  for (k, b) in bs.iter().enumerate() {
    cur.push(k);
    out.push(cur.clone());
    paths(&b.kids, cur, out);
    cur.pop();
  }
}
/// path like "moov/trak2/mdia" (n-th box of that type, default 0)
fn find(bs: &[B], path: &str) -> Vec<usize> {
  let mut out = vec![];
  let mut cur = bs;
  for p in path.split('/') {
    let (t, n) = (p[..4].as_bytes(), p[4..].parse::<usize>().unwrap_or(0));
    let k = cur.iter().enumerate().filter(|b| b.1.typ == t).nth(n).unwrap_or_else(|| panic!("fixture: {path}")).0;
    out.push(k);
    cur = &cur[k].kids;
  }
  out
}
/// fields without headers and unknown boxes; headers separately
fn strip(j: &mut J, heads: &mut Vec<J>) {
  match j {
    J::Object(m) => {
      if let Some(h) = m.remove("header") {
        heads.push(h);
      }
      if let Some(J::Array(v)) = m.remove("vendor") {
        v.into_iter().for_each(|mut x| strip(&mut x, heads));
      }
      m.values_mut().for_each(|v| strip(v, heads));
    }
    J::Array(v) => v.iter_mut().for_each(|v| strip(v, heads)),
    _ => {}
  }
}
fn check_heads(got: &[J], want: &Heads, min: usize) -> Result<(), String> {
  if got.len() < min {
    return Err(format!("{} boxes reported, at least {min} expected", got.len()));
  }
  let mut seen = std::collections::BTreeSet::new();
  for h in got {
    let o = h["offset"].as_u64().unwrap();
    let Some((t, size, hl)) = want.get(&o) else {
      return Err(format!("reported box {h} does not start at a box"));
    };
    if h["typ"].as_str() != Some(t) || h["size"].as_u64() != Some(*size) || h["header_len"].as_u64() != Some(*hl) {
      return Err(format!("box {t} at {o}: size {size}, header {hl} reported as {h}"));
    }
    if !seen.insert(o) {
      return Err(format!("box at {o} reported twice"));
    }
  }
  Ok(())
}
fn read(ctx: &Ctx, file: &[u8]) -> Result<(FileBox, J, Vec<J>), String> {
  let b = ctx.guard(|| Bmff::new(Cursor::new(file)).map(|b| b.filebox).map_err(|e| e.to_string()))??;
  let mut j = serde_json::to_value(&b).map_err(|e| e.to_string())?;
  let mut h = vec![];
  strip(&mut j, &mut h);
  Ok((b, j, h))
}
fn first_diff(a: &J, b: &J, at: &str) -> Option<String> {
  if a == b {
    return None;
  }
  match (a, b) {
    (J::Object(x), J::Object(y)) => x.keys().chain(y.keys()).find_map(|k| first_diff(x.get(k).unwrap_or(&J::Null), y.get(k).unwrap_or(&J::Null), &format!("{at}/{k}"))),
    (J::Array(x), J::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(k, (x, y))| first_diff(x, y, &format!("{at}/{k}"))),
    _ => (a != b).then(|| format!("{at}: {a} instead of {b}")),
  }
}

struct Base {
  tree: Vec<B>,
  view: J,
  nheads: usize,
}
fn tree_case(ctx: &Ctx, base: &Base, key: &str, what: &str, tree: &[B], want: &J, extra: usize, id: u64) {
  let (mut file, mut heads) = (vec![], Heads::new());
  emit(tree, &mut file, &mut heads);
  ctx.case(id, true);
  let fail = |m: String| ctx.fail(key, format!("{what}: {m}"), json!({"what": what, "file_hex": hex(&file)}));
  match read(ctx, &file) {
    Err(e) => fail(format!("not readable: {e}")),
    Ok((fb, j, h)) => {
      ctx.outcome(fp(&h.len()));
      if let Some(d) = first_diff(&j, want, "") {
        return fail(d);
      }
      if let Err(e) = check_heads(&h, &heads, base.nheads + extra) {
        return fail(e);
      }
      // view of the payload of the media data box
      let m = fb.mdat.header;
      let body = &tree.iter().rfind(|b| &b.typ == b"mdat").unwrap().pre;
      for skip in [0, 1, body.len()] {
        let got = ctx.guard(|| m.make_view(&file, skip, 0).to_vec());
        if got.as_deref() != Ok(&body[skip..]) {
          return fail(format!("make_view(skip {skip}) gives {got:?}"));
        }
        let lim = (body.len() - skip).min(3);
        let got = ctx.guard(|| m.make_view(&file, skip, lim).to_vec());
        if lim > 0 && got.as_deref() != Ok(&body[skip..skip + lim]) {
          return fail(format!("make_view(skip {skip}, limit {lim}) gives {got:?}"));
        }
      }
    }
  }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
  let mut out: Vec<Vec<usize>> = vec![];
  if n <= 5 {
    fn go(left: Vec<usize>, cur: Vec<usize>, out: &mut Vec<Vec<usize>>) {
      if left.is_empty() {
        return out.push(cur);
      }
      for k in 0..left.len() {
        let (mut l, mut c) = (left.clone(), cur.clone());
        c.push(l.remove(k));
        go(l, c, out);
      }
    }
    go((0..n).collect(), vec![], &mut out);
  } else {
    for a in 0..n {
      for b in a + 1..n {
        let mut p: Vec<usize> = (0..n).collect();
        p.swap(a, b);
        out.push(p);
      }
      let mut p: Vec<usize> = (0..n).collect();
      p.rotate_left(a);
      out.push(p.clone());
      p.reverse();
      out.push(p);
    }
  }
  out
}

fn trees(ctx: &Ctx, base: &Base) {
  let mut all = vec![];
  paths(&base.tree, &mut vec![], &mut all);
  let name = |p: &[usize]| {
    let mut t = base.tree.clone();
    (1..=p.len()).map(|n| String::from_utf8_lossy(&at(&mut t, &p[..n]).typ).to_string()).collect::<Vec<_>>().join("/")
  };
  tree_case(ctx, base, "base", "base file", &base.tree, &base.view, 0, 1);
  // 64 bit forms
  let npairs = if ctx.quick() { all.len() } else { all.len() * all.len() };
  ctx.par("form64", npairs, |i| {
    let (a, b) = (i % all.len(), i / all.len());
    let mut t = base.tree.clone();
    at(&mut t, &all[a]).form = 1;
    if b > 0 {
      at(&mut t, &all[b]).form = 1;
    }
    tree_case(ctx, base, "form64", &format!("64 bit size of {} / {}", name(&all[a]), name(&all[b])), &t, &base.view, 0, fp(&(2, i)));
  });
  // everything in 64 bit form
  fn all64(b: &mut [B]) {
    for x in b {
      x.form = 1;
      all64(&mut x.kids);
    }
  }
  let mut t64 = base.tree.clone();
  all64(&mut t64);
  tree_case(ctx, base, "form64", "all boxes with 64 bit size", &t64, &base.view, 0, 3);
  // last top level box up to the end of the file: any box may be the last one
  for k in 0..base.tree.len() {
    for t in [&base.tree, &t64] {
      let mut t = t.clone();
      let mut b = t.remove(k);
      b.form = 2;
      t.push(b);
      tree_case(ctx, base, "size0", &format!("size 0 for {}", name(&[k])), &t, &base.view, 0, fp(&(4, k)));
    }
  }
  // foreign boxes
  let id = [7u8; 16];
  let mut foreign: Vec<B> = vec![];
  for n in [0usize, 1, 4, 100] {
    foreign.push(leaf(b"zzzz", &vec![0x5a; n]));
    foreign.push(leaf(b"free", &vec![1; n]));
    foreign.push(leaf(b"skip", &vec![0; n]));
    let mut u = leaf(b"uuid", &vec![3; n]);
    u.uuid = Some(id);
    foreign.push(u);
  }
  for k in 0..foreign.len() {
    let mut f = foreign[k].clone();
    f.form = 1;
    foreign.push(f);
  }
  let mut spots: Vec<(Vec<usize>, usize)> = vec![];
  let mut t = base.tree.clone();
  for p in std::iter::once(vec![]).chain(all.iter().cloned()) {
    let is = p.is_empty() || {
      let b = at(&mut t, &p);
      prefix(&b.typ, b.uuid).is_some()
    };
    if is {
      let n = kids_of(&mut t, &p).len();
      spots.extend((0..=n).map(|k| (p.clone(), k)));
    }
  }
  ctx.par("foreign", spots.len() * foreign.len(), |i| {
    let ((p, k), f) = (&spots[i / foreign.len()], &foreign[i % foreign.len()]);
    let mut t = base.tree.clone();
    let parent = if p.is_empty() { *b"file" } else { at(&mut t, p).typ };
    let extra = match (&parent, &f.typ) {
      (b"CRAW", b"free") | (b"uuid", b"free") | (b"uuid", b"skip") => 0,
      (b"CRAW", _) | (b"uuid", _) | (b"CCTP", _) | (b"CDI1", _) => return,
      _ => 1,
    };
    kids_of(&mut t, p).insert(*k, f.clone());
    let what = format!("{} ({} bytes) in {} at {k}", String::from_utf8_lossy(&f.typ), f.pre.len(), if p.is_empty() { "file".into() } else { name(p) });
    tree_case(ctx, base, "foreign", &what, &t, &base.view, extra, fp(&(5, i)));
  });
  // order of boxes
  let mut orders: Vec<(Vec<usize>, Vec<usize>, usize)> = vec![];
  for p in std::iter::once(vec![]).chain(all.iter().cloned()) {
    let n = kids_of(&mut t, &p).len();
    for o in perms(n) {
      for f in 0..=if ctx.quick() { 0 } else { n } {
        orders.push((p.clone(), o.clone(), f));
      }
    }
  }
  ctx.par("order", orders.len(), |i| {
    let (p, o, f) = &orders[i];
    let mut t = base.tree.clone();
    let kids = kids_of(&mut t, p);
    let old = kids.clone();
    *kids = o.iter().map(|k| old[*k].clone()).collect();
    if *f > 0 {
      kids[*f - 1].form = 1;
    }
    // the order of tracks and image descriptions is part of the content
    let mut want = base.view.clone();
    let pick = |ty: &[u8; 4]| -> Vec<usize> {
      let idx: Vec<usize> = (0..old.len()).filter(|k| &old[*k].typ == ty).collect();
      o.iter().filter_map(|k| idx.iter().position(|x| x == k)).collect()
    };
    let parent = if p.is_empty() { *b"file" } else { at(&mut t, p).typ };
    let arr = match &parent {
      b"moov" => Some(("/moov/trak", pick(b"trak"))),
      b"CCTP" => Some(("/moov/cr3desc/cctp/ccdts", pick(b"CCDT"))),
      _ => None,
    };
    if let Some((ptr, order)) = arr {
      let v = want.pointer_mut(ptr).unwrap_or_else(|| panic!("fixture {ptr}"));
      let o = v.as_array().unwrap().clone();
      *v = J::Array(order.into_iter().map(|k| o[k].clone()).collect());
    }
    tree_case(ctx, base, "order", &format!("order {o:?} of the boxes in {}", if p.is_empty() { "file".into() } else { name(p) }), &t, &want, 0, fp(&(6, i)));
  });
}

// ---------- fields ----------
enum F {
  U,
  I16,
  /// sequence of values, each of that many bytes
  Seq(usize),
  Text,
  Fourcc,
  /// high and low part of a byte
  Split(u32, u8, &'static str),
}
/// (box, offset in the data, bytes, json pointer, kind)
fn fields() -> Vec<(String, usize, usize, String, F)> {
  let mut v: Vec<(String, usize, usize, String, F)> = vec![];
  let mut a = |b: &str, o: usize, n: usize, p: &str, f: F| v.push((b.into(), o, n, p.into(), f));
  a("ftyp", 0, 4, "/ftyp/major_brand", F::Fourcc);
  a("ftyp", 4, 4, "/ftyp/minor_version", F::U);
  a("ftyp", 8, 4, "/ftyp/compatible_brands/0", F::Fourcc);
  a("ftyp", 12, 4, "/ftyp/compatible_brands/1", F::Fourcc);
  let d = "moov/uuid";
  a(&format!("{d}/CNCV"), 0, 30, "/moov/cr3desc/cncv/compressor", F::Text);
  a(&format!("{d}/CCTP"), 0, 1, "/moov/cr3desc/cctp/version", F::U);
  a(&format!("{d}/CCTP"), 1, 3, "/moov/cr3desc/cctp/flags", F::U);
  a(&format!("{d}/CCTP"), 4, 4, "/moov/cr3desc/cctp/unknown1", F::U);
  a(&format!("{d}/CCTP"), 8, 4, "/moov/cr3desc/cctp/lines", F::U);
  for k in 0..3 {
    let (b, p) = (format!("{d}/CCTP/CCDT{k}"), format!("/moov/cr3desc/cctp/ccdts/{k}"));
    a(&b, 0, 8, &format!("{p}/image_type"), F::U);
    a(&b, 8, 4, &format!("{p}/dual_pixel"), F::U);
    a(&b, 12, 4, &format!("{p}/trak_index"), F::U);
  }
  a("moov/mvhd", 1, 3, "/moov/mvhd/flags", F::U);
  for (o, n) in [(4, "creation_time"), (8, "modification_time"), (12, "timescale"), (16, "duration")] {
    a("moov/mvhd", o, 4, &format!("/moov/mvhd/{n}"), F::U);
  }
  for k in 0..4 {
    let (b, p) = (format!("moov/trak{k}/mdia"), format!("/moov/trak/{k}/mdia"));
    a(&format!("moov/trak{k}/tkhd"), 0, 1, &format!("/moov/trak/{k}/tkhd/version"), F::U);
    a(&format!("moov/trak{k}/tkhd"), 1, 3, &format!("/moov/trak/{k}/tkhd/flags"), F::U);
    a(&format!("{b}/mdhd"), 1, 3, &format!("{p}/mdhd/flags"), F::U);
    for (o, n) in [(4, "creation_time"), (8, "modification_time"), (12, "timescale"), (16, "duration")] {
      a(&format!("{b}/mdhd"), o, 4, &format!("{p}/mdhd/{n}"), F::U);
    }
    a(&format!("{b}/hdlr"), 0, 1, &format!("{p}/hdlr/version"), F::U);
    a(&format!("{b}/hdlr"), 1, 3, &format!("{p}/hdlr/flags"), F::U);
    let (b, p) = (format!("{b}/minf"), format!("{p}/minf"));
    a(&format!("{b}/vmhd"), 0, 1, &format!("{p}/vmhd/version"), F::U);
    a(&format!("{b}/vmhd"), 1, 3, &format!("{p}/vmhd/flags"), F::U);
    for (o, n) in [(4, "graphics_mode"), (6, "op_color/red"), (8, "op_color/green"), (10, "op_color/blue")] {
      a(&format!("{b}/vmhd"), o, 2, &format!("{p}/vmhd/{n}"), F::U);
    }
    let (b, p) = (format!("{b}/stbl"), format!("{p}/stbl"));
    for t in ["stsd", "stts", "stsc", "stsz", "co64"] {
      a(&format!("{b}/{t}"), 0, 1, &format!("{p}/{t}/version"), F::U);
      a(&format!("{b}/{t}"), 1, 3, &format!("{p}/{t}/flags"), F::U);
    }
    a(&format!("{b}/stts"), 8, 4, &format!("{p}/stts/entries/0/sample_count"), F::U);
    a(&format!("{b}/stts"), 12, 4, &format!("{p}/stts/entries/0/sample_delta"), F::U);
    for e in 0..2 {
      a(&format!("{b}/stsc"), 16 + 12 * e, 4, &format!("{p}/stsc/entries/{e}/sample_description_index"), F::U);
      a(&format!("{b}/co64"), 8 + 8 * e, 8, &format!("{p}/co64/entries/{e}"), F::U);
    }
    for e in 0..3 {
      a(&format!("{b}/stsz"), 12 + 4 * e, 4, &format!("{p}/stsz/sample_sizes/{e}"), F::U);
    }
    let (b, p) = (format!("{b}/stsd"), format!("{p}/stsd"));
    if k == 3 {
      let (b, p) = (format!("{b}/CTMD"), format!("{p}/ctmd"));
      a(&b, 0, 6, &format!("{p}/reserved"), F::Seq(1));
      a(&b, 6, 2, &format!("{p}/data_ref_index"), F::U);
      for r in 0..2 {
        for (o, n, f) in [(0, 1, "unknown1"), (1, 1, "unknown2"), (2, 2, "rec_type"), (4, 4, "rec_size")] {
          a(&b, 12 + 8 * r + o, n, &format!("{p}/records/{r}/{f}"), F::U);
        }
      }
      continue;
    }
    let (b, p) = (format!("{b}/CRAW"), format!("{p}/craw"));
    a(&b, 0, 6, &format!("{p}/reserved"), F::Seq(1));
    a(&b, 6, 2, &format!("{p}/data_ref_index"), F::U);
    a(&b, 8, 16, &format!("{p}/unknown1"), F::Seq(1));
    a(&b, 24, 2, &format!("{p}/width"), F::U);
    a(&b, 26, 2, &format!("{p}/height"), F::U);
    a(&b, 28, 4, &format!("{p}/x_resolution"), F::Seq(2));
    a(&b, 32, 4, &format!("{p}/y_resolution"), F::Seq(2));
    a(&b, 36, 4, &format!("{p}/unknown2"), F::U);
    a(&b, 40, 2, &format!("{p}/unknown3"), F::U);
    a(&b, 42, 32, &format!("{p}/compr_name"), F::Seq(1));
    a(&b, 74, 2, &format!("{p}/bit_depth"), F::U);
    a(&b, 76, 2, &format!("{p}/unknown4"), F::U);
    a(&b, 78, 2, &format!("{p}/img_flags"), F::U);
    a(&b, 80, 2, &format!("{p}/img_type"), F::U);
    if k == 0 {
      a(&format!("{b}/JPEG"), 0, 1, &format!("{p}/jpeg/version"), F::U);
      a(&format!("{b}/JPEG"), 1, 3, &format!("{p}/jpeg/flags"), F::U);
      continue;
    }
    let (c, q) = (format!("{b}/CMP1"), format!("{p}/cmp1"));
    a(&c, 0, 2, &format!("{q}/unknown1"), F::I16);
    a(&c, 2, 2, &format!("{q}/header_size"), F::U);
    a(&c, 4, 2, &format!("{q}/version"), F::U);
    a(&c, 6, 2, &format!("{q}/version_sub"), F::U);
    for (o, n) in [(8, "f_width"), (12, "f_height"), (16, "tile_width"), (20, "tile_height"), (28, "mdat_hdr_size")] {
      a(&c, o, 4, &format!("{q}/{n}"), F::U);
    }
    a(&c, 25, 1, &q, F::Split(4, 0xf, "n_planes cfa_layout"));
    a(&c, 26, 1, &q, F::Split(4, 0xf, "enc_type image_levels"));
    a(&c, 27, 1, &q, F::Split(7, 1, "has_tile_cols has_tile_rows"));
    a(&c, 32, 4, &format!("{q}/ext_header"), F::U);
    if k == 2 {
      a(&format!("{b}/CDI1"), 0, 1, &format!("{p}/cdi1/version"), F::U);
      a(&format!("{b}/CDI1"), 1, 3, &format!("{p}/cdi1/flags"), F::U);
      let (c, q) = (format!("{b}/CDI1/IAD1"), format!("{p}/cdi1/iad1"));
      a(&c, 0, 1, &format!("{q}/version"), F::U);
      a(&c, 1, 3, &format!("{q}/flags"), F::U);
      for (o, n) in [(4, "img_width"), (6, "img_height"), (8, "unknown1"), (12, "unknown2"), (14, "unknown3")] {
        a(&c, o, 2, &format!("{q}/{n}"), F::U);
      }
      let mut o = 16;
      for g in ["crop", "lob", "tob", "active_area"] {
        for s in ["left", "top", "right", "bottom"] {
          a(&c, o, 2, &format!("{q}/iad1_type/Big/{g}_{s}_offset"), F::U);
          o += 2;
        }
      }
    }
  }
  v
}
fn set(j: &mut J, ptr: &str, v: J) {
  *j.pointer_mut(ptr).unwrap_or_else(|| panic!("no field {ptr}")) = v;
}
fn be(b: &[u8]) -> u64 {
  b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
fn patterns(n: usize) -> Vec<Vec<u8>> {
  let mut v = vec![vec![0; n], vec![0xff; n], (0..n).map(|k| 0x11 * (k as u8 % 14 + 1) + k as u8 / 14).collect(), (0..n).map(|k| 0x80 >> (k % 8)).collect()];
  for k in 0..n {
    let mut x = vec![0; n];
    x[k] = 0x80;
    v.push(x.clone());
    x[k] = 1;
    v.push(x);
  }
  v
}
fn field_checks(ctx: &Ctx, base: &Base) {
  let fs = fields();
  ctx.par("field", fs.len(), |i| {
    let (b, o, n, ptr, kind) = &fs[i];
    let path = find(&base.tree, b);
    for (m, mut bytes) in patterns(*n).into_iter().enumerate() {
      if ctx.stopped() {
        return;
      }
      let mut want = base.view.clone();
      if base.view.pointer(ptr).is_none() {
        ctx.fail("field-base", format!("no field {ptr} in the parsed base file"), json!({}));
        return;
      }
      match kind {
        F::U => set(&mut want, ptr, json!(be(&bytes))),
        F::I16 => set(&mut want, ptr, json!(be(&bytes) as u16 as i16)),
        F::Seq(w) => set(&mut want, ptr, bytes.chunks(*w).map(|c| json!(be(c))).collect()),
        F::Text | F::Fourcc => {
          bytes.iter_mut().for_each(|b| *b = *b % 95 + 32);
          set(&mut want, ptr, json!(String::from_utf8(bytes.clone()).unwrap()));
        }
        F::Split(sh, mask, names) => {
          let (hi, lo) = names.split_once(' ').unwrap();
          set(&mut want, &format!("{ptr}/{hi}"), json!(bytes[0] >> sh));
          set(&mut want, &format!("{ptr}/{lo}"), json!(bytes[0] & mask));
        }
      }
      let mut t = base.tree.clone();
      at(&mut t, &path).pre[*o..o + n].copy_from_slice(&bytes);
      tree_case(ctx, base, &format!("field {ptr}"), &format!("{b} bytes {o}..{} = {}", o + n, hex(&bytes)), &t, &want, 0, fp(&(10, i, m)));
    }
  });
  // fields with several encodings
  let mut variants: Vec<(String, Vec<B>, J)> = vec![];
  let mut add = |what: String, path: &str, data: Vec<u8>, edits: Vec<(String, J)>| {
    let mut t = base.tree.clone();
    at(&mut t, &find(&base.tree, path)).pre = data;
    let mut want = base.view.clone();
    for (p, v) in edits {
      set(&mut want, &p, v);
    }
    variants.push((what, t, want));
  };
  let times = [("creation_time", 8usize), ("modification_time", 8), ("timescale", 4), ("duration", 8)];
  for (path, ptr) in [("moov/mvhd".to_string(), "/moov/mvhd".to_string())].into_iter().chain((0..4).map(|k| (format!("moov/trak{k}/mdia/mdhd"), format!("/moov/trak/{k}/mdia/mdhd")))) {
    for sel in 0..times.len() {
      for pat in patterns(times[sel].1) {
        let mut d = vec![1, 0, 0, 9];
        let mut e = vec![(format!("{ptr}/version"), json!(1)), (format!("{ptr}/flags"), json!(9))];
        for (k, (n, w)) in times.iter().enumerate() {
          let b = if k == sel { pat.clone() } else { vec![k as u8 + 3; *w] };
          e.push((format!("{ptr}/{n}"), json!(be(&b))));
          d.extend(b);
        }
        d.resize(d.len() + 80, 0);
        add(format!("{path} version 1"), &path, d, e);
      }
    }
  }
  for n in 0..6usize {
    let names: Vec<String> = (0..n).map(|k| format!("b{k:03}")).collect();
    let mut d = b"crx \0\0\0\x05".to_vec();
    names.iter().for_each(|x| d.extend(x.as_bytes()));
    add(format!("{n} brands"), "ftyp", d, vec![("/ftyp/minor_version".into(), json!(5)), ("/ftyp/compatible_brands".into(), json!(names))]);
  }
  for n in 0..5usize {
    let mut d = vec![0, 0, 0, 0];
    d.extend((n as u32).to_be_bytes());
    let mut e = vec![];
    for k in 0..n as u32 {
      d.extend(be32(&[0x01020304 * (k + 1), 0xfffefd00 + k]));
      e.push(json!({"sample_count": 0x01020304 * (k + 1), "sample_delta": 0xfffefd00u32 + k}));
    }
    add(format!("{n} stts entries"), "moov/trak1/mdia/minf/stbl/stts", d, vec![("/moov/trak/1/mdia/minf/stbl/stts/entries".into(), json!(e))]);
    let mut d = vec![0, 0, 0, 0, 0, 0, 0, 1];
    d.extend((n as u32).to_be_bytes());
    let mut e = vec![];
    for k in 0..n as u32 {
      d.extend([k as u8, 7, 1, k as u8, 0, 0, 0, 20]);
      e.push(json!({"unknown1": k, "unknown2": 7, "rec_type": 256 + k, "rec_size": 20}));
    }
    add(format!("{n} CTMD records"), "moov/trak3/mdia/minf/stbl/stsd/CTMD", d, vec![
      ("/moov/trak/3/mdia/minf/stbl/stsd/ctmd/records".into(), json!(e)),
      ("/moov/trak/3/mdia/minf/stbl/stsd/ctmd/rec_count".into(), json!(n)),
    ]);
  }
  // small image areas
  let cdi = "moov/trak2/mdia/minf/stbl/stsd/CRAW/CDI1/IAD1";
  let iad = "/moov/trak/2/mdia/minf/stbl/stsd/craw/cdi1/iad1";
  for k in 0..8usize {
    for pat in patterns(2) {
      let mut d = vec![0, 0, 0, 0];
      d.extend(be16(&[64, 32, 0, 0, 0, 0]));
      let mut m = serde_json::Map::new();
      for (j, n) in ["crop_left_offset", "crop_top_offset", "crop_right_offset", "crop_bottom_offset", "sensor_x_start", "sensor_y_start", "sensor_x_end", "sensor_y_end"].iter().enumerate() {
        let v = if j == k { be(&pat) as u16 } else { 100 + j as u16 };
        d.extend(v.to_be_bytes());
        m.insert(n.to_string(), json!(v));
      }
      add("small image areas".into(), cdi, d, vec![(format!("{iad}/image_type"), json!(0)), (format!("{iad}/iad1_type"), json!({"Small": m}))]);
    }
  }
  // image bit depth and the movie extension of the compression header
  for (k, bits) in (1..=16u8).enumerate() {
    for ext in 0..8u32 {
      let path = "moov/trak2/mdia/minf/stbl/stsd/CRAW/CMP1";
      let q = "/moov/trak/2/mdia/minf/stbl/stsd/craw/cmp1";
      let mut t = base.tree.clone();
      let mut d = at(&mut t, &find(&base.tree, path)).pre.clone();
      d[24] = bits;
      d.truncate(36);
      let e = if ext & 1 > 0 { 0x8000_0000u32 } else { 0 };
      d[32..36].copy_from_slice(&e.to_be_bytes());
      let planes = if ext & 2 > 0 { 4 } else { 1 };
      d[25] = planes << 4 | 3;
      d.extend(be32(&[1, 2, 3, 4, 5, if ext & 4 > 0 { 0x4000_0000 } else { 0 }, 6, 7, 8, 9, 10, 11]));
      d.extend([bits + 3, 0, 0, 0]);
      d.resize(100, 0);
      let median = if ext == 7 { bits + 3 } else { bits };
      add(format!("CMP1 {bits} bits, extension {ext}"), path, d, vec![
        (format!("{q}/n_bits"), json!(bits)),
        (format!("{q}/ext_header"), json!(e)),
        (format!("{q}/n_planes"), json!(planes)),
        (format!("{q}/cfa_layout"), json!(3)),
        (format!("{q}/median_bits"), json!(median)),
      ]);
      let _ = k;
    }
  }
  ctx.par("variant", variants.len(), |i| {
    let (what, t, want) = &variants[i];
    tree_case(ctx, base, &format!("variant {}", what.split(' ').next().unwrap()), what, t, want, 0, fp(&(11, i)));
    // the same with the changed boxes in 64 bit form
    if !what.starts_with("CMP1") {
      let mut t = t.clone();
      for p in ["ftyp", "moov/mvhd", "moov/trak1/mdia/minf/stbl/stts", "moov/trak3/mdia/minf/stbl/stsd/CTMD", cdi] {
        let q = find(&t, p);
        at(&mut t, &q).form = 1;
      }
      tree_case(ctx, base, &format!("variant {}", what.split(' ').next().unwrap()), &format!("{what} with 64 bit sizes"), &t, want, 0, fp(&(12, i)));
    }
  });
  // embedded TIFF structures
  let nodes = |k: usize, s: u32| {
    Node::new().v(256, V::Short(vec![k as u16])).v(271, ascii("Canon")).v(300 + k as u16, V::Long(vec![s, 5, 6])).v(33434, V::Rational(vec![(1, 60 + s)])).v(37500, V::Undefined((0..s as u8 * 9).collect()))
  };
  ctx.par("cmt", 4 * 4 * 6, |i| {
    let d = digits(i, &[4, 4, 6]);
    let (which, layout, s) = (d[0], d[1], d[2] as u32);
    let body = build(&[nodes(which, s)], layout & 1 > 0, layout & 2 > 0, s as usize % 3);
    let mut t = base.tree.clone();
    let p = find(&base.tree, &format!("moov/uuid/CMT{}", which + 1));
    at(&mut t, &p).pre = body.clone();
    let (mut file, mut heads) = (vec![], Heads::new());
    emit(&t, &mut file, &mut heads);
    ctx.case(fp(&(13, i)), true);
    let fail = |m: String| ctx.fail("cmt", format!("CMT{}: {m}", which + 1), json!({"case": d, "file_hex": hex(&file)}));
    match read(ctx, &file) {
      Err(e) => fail(e),
      Ok((fb, _, _)) => {
        let c = fb.moov.cr3desc.unwrap();
        let (data, tiff) = match which {
          0 => (&c.cmt1.data, &c.cmt1.tiff),
          1 => (&c.cmt2.data, &c.cmt2.tiff),
          2 => (&c.cmt3.data, &c.cmt3.tiff),
          _ => (&c.cmt4.data, &c.cmt4.tiff),
        };
        if *data != body {
          return fail("content differs".into());
        }
        let want = nodes(which, s).items.iter().filter_map(|(t, i)| if let Item::Val(v) = i { Some((*t, v.clone())) } else { None }).collect();
        use rawler::formats::tiff::reader::TiffReader;
        if let Err(e) = cmp_ifd(tiff.root_ifd(), &want) {
          fail(e);
        }
      }
    }
  });
}

// ---------- sample tables ----------
fn samples(ctx: &Ctx) {
  let maxchunks = ctx.pick(5usize, 7);
  let maxruns = ctx.pick(3usize, 5);
  let mut tables: Vec<(Vec<(u32, u32)>, usize)> = vec![];
  for nch in 1..=maxchunks {
    // first chunks: 1 plus any subset of 2..=nch
    for m in 0u32..1 << (nch - 1) {
      let firsts: Vec<u32> = std::iter::once(1).chain((2..=nch as u32).filter(|c| m >> (c - 2) & 1 == 1)).collect();
      if firsts.len() > maxruns {
        continue;
      }
      let n = firsts.len();
      for k in 0..3usize.pow(n as u32) {
        let spc = digits(k, &vec![3; n]);
        tables.push((firsts.iter().zip(spc).map(|(f, s)| (*f, s as u32 + 1)).collect(), nch));
      }
    }
  }
  let base = parse(&base_cr3());
  ctx.par("sample", tables.len() * 2 * 3, |i| {
    let d = digits(i, &[2, 3, tables.len()]);
    let (stsc, nch) = &tables[d[2]];
    let per: Vec<u32> = (1..=*nch as u32).map(|c| stsc.iter().rfind(|r| r.0 <= c).unwrap().1).collect();
    let n = per.iter().sum::<u32>() as usize;
    let chunks: Vec<u64> = (0..*nch as u64)
      .map(|c| match d[1] {
        0 => 1000 + c * 100,
        1 => 90_000 - c * 777,
        _ => 0x1_2345_0000 + c * 0x1_0000_0001,
      })
      .collect();
    let fixed = if d[0] == 1 { 17 } else { 0 };
    let sizes: Vec<u32> = (0..n as u32).map(|k| if fixed > 0 { fixed } else { 3 + (k * 7) % 11 + k }).collect();
    let t = Table { stsc: stsc.clone(), fixed, sizes: sizes.clone(), chunks: chunks.clone() };
    let mut tree = base.clone();
    let at2 = find(&tree, "moov/trak1/mdia/minf/stbl");
    let stsd = at(&mut tree, &at2).kids.iter().find(|b| &b.typ == b"stsd").unwrap().clone();
    let mut sd = vec![];
    emit(&[stsd], &mut sd, &mut Heads::new());
    *at(&mut tree, &at2) = parse(&stbl(&t, &sd)).remove(0);
    let mut file = vec![];
    emit(&tree, &mut file, &mut Heads::new());
    ctx.case(fp(&(20, i)), n > 1);
    let fail = |m: String| ctx.fail("sample", m, json!({"table": format!("{t:?}"), "file_hex": hex(&file)}));
    match read(ctx, &file) {
      Err(e) => fail(format!("not readable: {e}")),
      Ok((fb, _, _)) => {
        let st = &fb.moov.traks[1].mdia.minf.stbl;
        let mut k = 0usize;
        for (c, per) in per.iter().enumerate() {
          let mut off = chunks[c] as usize;
          for _ in 0..*per {
            let got = ctx.guard(|| st.get_sample_offset(k as u32 + 1));
            if got != Ok(Some((off, sizes[k] as usize))) {
              return fail(format!("sample {} of table {stsc:?} lies at {off} with {} bytes, reported {got:?}", k + 1, sizes[k]));
            }
            off += sizes[k] as usize;
            k += 1;
          }
        }
        ctx.outcome(fp(&(n, d[1])));
      }
    }
  });
}

// ---------- JPEG ----------
#[derive(Clone)]
struct P {
  name: &'static str,
  marker: u8,
  body: Vec<u8>,
  scan: Vec<u8>,
}
fn segs() -> Vec<P> {
  let p = |name, marker, body: Vec<u8>| P { name, marker, body, scan: vec![] };
  let jf = |x: u8, y: u8| {
    let mut b = b"JFIF\0\x01\x02\x01\x11\x48\x22\x49".to_vec();
    b.extend([x, y]);
    b.extend((0..x as usize * y as usize * 3).map(|k| (k % 251) as u8));
    b
  };
  let ex = |be: bool, chain: bool| {
    let a = Node::new().v(271, ascii("Acme")).v(274, V::Short(vec![6])).item(34665, Item::Dirs(vec![Node::new().v(33434, V::Rational(vec![(1, 60)])).v(37500, V::Undefined(vec![9; 30]))], 4));
    let nodes = if chain { vec![a, Node::new().v(256, V::Long(vec![160]))] } else { vec![a] };
    [b"Exif\0\0".to_vec(), build(&nodes, be, false, 0)].concat()
  };
  let mut v = vec![
    p("jfif", 0xe0, jf(0, 0)),
    p("jfif thumb 1x2", 0xe0, jf(1, 2)),
    p("jfif thumb 16x16", 0xe0, jf(16, 16)),
    p("jfif thumb 255x85", 0xe0, jf(255, 85)),
    p("jfif thumb 0x7", 0xe0, jf(0, 7)),
    p("jfxx", 0xe0, b"JFXX\0\x10abc".to_vec()),
    p("app0 empty", 0xe0, vec![]),
    p("exif le", 0xe1, ex(false, false)),
    p("exif be chained", 0xe1, ex(true, true)),
    p("xmp", 0xe1, b"http://ns.adobe.com/xap/1.0/\0<x:xmpmeta/>".to_vec()),
    p("xmp empty", 0xe1, b"http://ns.adobe.com/xap/1.0/\0".to_vec()),
    p("app1 other", 0xe1, vec![b'x'; 40]),
    p("app1 short", 0xe1, b"Exif\0".to_vec()),
    p("comment", 0xfe, b"\xff\xd9\xff\xda comment".to_vec()),
    p("dqt", 0xdb, vec![3; 65]),
  ];
  v.push(P { name: "scan", marker: 0xda, body: vec![1, 1, 0, 0, 63, 0], scan: vec![1, 2, 0xff, 0, 3, 0xff, 0xd0, 0xff, 0xd7, 9] });
  v.push(P { name: "scan ff", marker: 0xda, body: vec![3, 1, 0, 2, 0x11, 3, 0x11, 0, 63, 0], scan: vec![0xff, 0, 0xff, 0, 0xe0, 0xd9] });
  v
}
fn jpeg(ctx: &Ctx) {
  let segs = segs();
  let n = segs.len();
  let max = ctx.pick(3usize, 5);
  let total: usize = (0..=max).map(|k| n.pow(k as u32)).sum();
  ctx.par("jpeg", total, |i| {
    let (mut k, mut m) = (0, i);
    while m >= n.pow(k) {
      m -= n.pow(k);
      k += 1;
    }
    let seq = digits(m, &vec![n; k as usize]);
    for fill in 0..3usize {
      let mut f = vec![0xff, 0xd8];
      let mut offs = vec![];
      let gap = |j: usize| if j == seq.len() || fill == 0 { fill } else { (j + fill) % 3 };
      for (j, s) in seq.iter().enumerate() {
        let s = &segs[*s];
        f.extend(vec![0xff; gap(j)]);
        offs.push(f.len() as u64);
        f.extend([0xff, s.marker]);
        f.extend(((s.body.len() + 2) as u16).to_be_bytes());
        f.extend(&s.body);
        f.extend(&s.scan);
      }
      f.extend(vec![0xff; fill]);
      f.extend([0xff, 0xd9]);
      // whatever follows the image does not belong to it
      if fill == 2 {
        f.extend([0xff, 0xe0, 0, 4, 1, 2]);
      }
      ctx.case(fp(&(30, i, fill)), k > 1);
      let names: Vec<&str> = seq.iter().map(|s| segs[*s].name).collect();
      let fail = |m: String| ctx.fail("jpeg", format!("{names:?} (fill {fill}): {m}"), json!({"segments": names, "file_hex": hex(&f[..f.len().min(4000)])}));
      let got = match ctx.guard(|| Jfif::parse(Cursor::new(&f[..])).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(j)) => j,
        Ok(Err(e)) | Err(e) => return fail(e),
      };
      ctx.outcome(fp(&got.segments.len()));
      if got.segments.len() != seq.len() + 2 || !matches!(got.segments[0], Segment::SOI { offset: 0 }) || !matches!(got.segments[seq.len() + 1], Segment::EOI) {
        return fail(format!("segments {:?}", got.segments.iter().map(|s| format!("{s:?}").chars().take(20).collect::<String>()).collect::<Vec<_>>()));
      }
      let (mut exif, mut xmp) = (None, None);
      for (j, s) in seq.iter().enumerate() {
        let (s, g, o) = (&segs[*s], &got.segments[j + 1], offs[j]);
        let ok = match (s.name, g) {
          ("jfxx" | "app0 empty" | "comment" | "dqt", Segment::Unknown { offset, marker }) => *offset == o && *marker == 0xff00 | s.marker as u16,
          (nm, Segment::APP0 { offset, app0 }) if nm.starts_with("jfif") => {
            let t = &s.body[14..];
            *offset == o
              && app0.len as usize == s.body.len() + 2
              && (app0.version, app0.density_units, app0.xdensity, app0.ydensity, app0.xthumbnail, app0.ythumbnail) == (0x102, 1, 0x1148, 0x2249, s.body[12], s.body[13])
              && if t.is_empty() { app0.thumbnail.as_ref().is_none_or(|t| t.is_empty()) } else { app0.thumbnail.as_deref() == Some(t) }
          }
          (nm, Segment::APP1 { offset, app1 }) => {
            *offset == o
              && app1.len as usize == s.body.len() + 2
              && match &app1.payload {
                Payload::Exif(ifd) => {
                  exif.get_or_insert(nm);
                  nm.starts_with("exif") && exif_ok(ifd)
                }
                Payload::Xpacket(x) => {
                  xmp.get_or_insert(&s.body[29..]);
                  nm.starts_with("xmp") && x[..] == s.body[29..]
                }
                Payload::Unknown => nm.starts_with("app1"),
              }
          }
          ("scan" | "scan ff", Segment::SOS { offset, sos }) => {
            // fill bytes before the next marker may be counted or not
            let n = s.body.len() + 2 + s.scan.len();
            *offset == o && (n..=n + gap(j + 1)).contains(&(sos.len as usize))
          }
          _ => false,
        };
        if !ok {
          return fail(format!("segment {j} ({}) reported as {:.300}", s.name, format!("{g:?}")));
        }
      }
      let first_exif = names.iter().find(|n| n.starts_with("exif"));
      if got.exif_ifd().is_some() != first_exif.is_some() || got.exif_ifd().is_some_and(|i| !exif_ok(i) || (i.endian == rawler::bits::Endian::Big) != first_exif.unwrap().contains("be")) {
        return fail("exif_ifd() is not the first EXIF segment".into());
      }
      if got.xpacket().map(|x| &x[..]) != xmp {
        return fail("xpacket() is not the first XMP segment".into());
      }
    }
  });
}
fn exif_ok(ifd: &rawler::formats::tiff::IFD) -> bool {
  let mut a = BTreeMap::from([(271, ascii("Acme")), (274, V::Short(vec![6]))]);
  if let Some(Some(p @ V::Long(_))) = ifd.get_entry(34665u16).map(|e| back(&e.value)) {
    a.insert(34665, p);
  }
  let s = BTreeMap::from([(33434, V::Rational(vec![(1, 60)])), (37500, V::Undefined(vec![9; 30]))]);
  cmp_ifd(ifd, &a).is_ok() && ifd.sub_ifds().get(&34665).is_some_and(|v| v.len() == 1 && cmp_ifd(&v[0], &s).is_ok())
}

pub fn run(ctx: &Ctx) {
  let file = base_cr3();
  let tree = parse(&file);
  let (mut again, mut heads) = (vec![], Heads::new());
  emit(&tree, &mut again, &mut heads);
  let (_, view, h) = match read(ctx, &again) {
    Ok(x) => x,
    Err(e) => return ctx.fail("base", format!("well-formed CR3 structure not read: {e}"), json!({"file_hex": hex(&again)})),
  };
  let base = Base { tree, view, nheads: h.len() };
  trees(ctx, &base);
  field_checks(ctx, &base);
  samples(ctx);
  jpeg(ctx);
}
