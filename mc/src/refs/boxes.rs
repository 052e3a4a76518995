//! Independent builders for ISO base media files in the shape of Canon CR3 and for JFIF/EXIF files.
pub fn bx(typ: &[u8; 4], body: &[u8]) -> Vec<u8> {
  let mut o = ((body.len() + 8) as u32).to_be_bytes().to_vec();
  o.extend(typ);
  o.extend(body);
  o
}
/// box with a 64 bit size
pub fn bx64(typ: &[u8; 4], body: &[u8]) -> Vec<u8> {
  let mut o = 1u32.to_be_bytes().to_vec();
  o.extend(typ);
  o.extend(((body.len() + 16) as u64).to_be_bytes());
  o.extend(body);
  o
}
pub fn uuid(id: [u8; 16], body: &[u8]) -> Vec<u8> {
  let mut b = id.to_vec();
  b.extend(body);
  bx(b"uuid", &b)
}
pub fn full(typ: &[u8; 4], version: u8, body: &[u8]) -> Vec<u8> {
  let mut b = vec![version, 0, 0, 0];
  b.extend(body);
  bx(typ, &b)
}
pub fn be32(v: &[u32]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn be16(v: &[u16]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub const CR3: [u8; 16] = [0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
pub const XPACKET: [u8; 16] = [0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94, 0x91, 0xe3, 0xaf, 0xac];

#[derive(Clone, Debug)]
pub struct Table {
  /// (first chunk, samples per chunk)
  pub stsc: Vec<(u32, u32)>,
  /// fixed size or one size per sample
  pub fixed: u32,
  pub sizes: Vec<u32>,
  pub chunks: Vec<u64>,
}
pub fn stbl(t: &Table, stsd: &[u8]) -> Vec<u8> {
  let nsamples = t.sizes.len() as u32;
  let mut b = stsd.to_vec();
  b.extend(full(b"stts", 0, &be32(&[1, nsamples, 1])));
  let mut e = be32(&[t.stsc.len() as u32]);
  for (c, n) in &t.stsc {
    e.extend(be32(&[*c, *n, 1]));
  }
  b.extend(full(b"stsc", 0, &e));
  let mut e = be32(&[t.fixed, nsamples]);
  if t.fixed == 0 {
    e.extend(be32(&t.sizes));
  }
  b.extend(full(b"stsz", 0, &e));
  let mut e = be32(&[t.chunks.len() as u32]);
  t.chunks.iter().for_each(|c| e.extend(c.to_be_bytes()));
  b.extend(full(b"co64", 0, &e));
  bx(b"stbl", &b)
}
pub fn trak(t: &Table, stsd: &[u8]) -> Vec<u8> {
  let mut minf = full(b"vmhd", 0, &[0; 8]);
  minf.extend(bx(b"dinf", &bx(b"dref", &[0; 8])));
  minf.extend(stbl(t, stsd));
  let mut mdia = full(b"mdhd", 0, &[0; 20]);
  mdia.extend(full(b"hdlr", 0, &[0; 20]));
  mdia.extend(bx(b"minf", &minf));
  let mut tk = full(b"tkhd", 0, &[0; 80]);
  tk.extend(bx(b"mdia", &mdia));
  bx(b"trak", &tk)
}
pub fn craw(w: u16, h: u16, sub: &[u8]) -> Vec<u8> {
  let mut b = vec![0; 6];
  b.extend(be16(&[1]));
  b.extend([0; 16]);
  b.extend(be16(&[w, h, 72, 0, 72, 0]));
  b.extend([0; 6]);
  b.extend([0; 32]);
  b.extend(be16(&[24, 0xffff, 3, 0]));
  b.extend(sub);
  bx(b"CRAW", &b)
}
pub fn cmp1(w: u32, h: u32, bits: u8) -> Vec<u8> {
  let mut b = be16(&[0xffff, 48, 0x100, 0]);
  b.extend(be32(&[w, h, w, h]));
  b.extend([bits, 0x40, 0x03, 0]);
  b.extend(be32(&[16, 0, 0, 0]));
  bx(b"CMP1", &b)
}
pub fn cdi1(w: u16, h: u16) -> Vec<u8> {
  let mut b = be16(&[w, h, 0, 2, 0, 0]);
  b.extend(be16(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]));
  full(b"CDI1", 0, &full(b"IAD1", 0, &b))
}
/// CR3-like file: four tracks, CMT1-4 as given
pub fn cr3(cmt: &[Vec<u8>; 4], table: &Table, mdat: &[u8]) -> Vec<u8> {
  let mut raw = cmp1(64, 32, 14);
  raw.extend(cdi1(64, 32));
  let mut ct = vec![0; 6];
  ct.extend(be16(&[1]));
  ct.extend(be32(&[2]));
  ct.extend([0, 0, 0, 1, 0, 0, 0, 24, 0, 0, 0, 3, 0, 0, 0, 28]);
  let jpeg = craw(64, 32, &full(b"JPEG", 0, &[]));
  cr3_tracks(cmt, &[0, 1, 2], &[(table, jpeg), (table, craw(16, 8, &cmp1(16, 8, 14))), (table, craw(64, 32, &raw)), (table, bx(b"CTMD", &ct))], mdat)
}
pub fn cr3_tracks(cmt: &[Vec<u8>; 4], types: &[u32], tracks: &[(&Table, Vec<u8>)], mdat: &[u8]) -> Vec<u8> {
  let mut o = bx(b"ftyp", b"crx \0\0\0\x01crx isom");
  let mut d = bx(b"CNCV", b"CanonCR3_001/00.09.00/00.00.00");
  let mut cc = be32(&[0, types.len() as u32]);
  for (i, t) in types.iter().enumerate() {
    cc.extend(bx(b"CCDT", &be32(&[0, *t, 0, i as u32 + 1])));
  }
  d.extend(full(b"CCTP", 0, &cc));
  d.extend(bx(b"CTBO", &[0; 24]));
  d.extend(bx(b"free", &[0; 4]));
  for (i, c) in cmt.iter().enumerate() {
    d.extend(bx(&[b'C', b'M', b'T', b'1' + i as u8], c));
  }
  d.extend(bx(b"THMB", &[0; 16]));
  let mut m = uuid(CR3, &d);
  m.extend(full(b"mvhd", 0, &[0; 96]));
  for (t, e) in tracks {
    let mut b = be32(&[1]);
    b.extend(e);
    m.extend(trak(t, &full(b"stsd", 0, &b)));
  }
  o.extend(bx(b"moov", &m));
  o.extend(uuid(XPACKET, b"<x:xmpmeta/>"));
  o.extend(bx64(b"mdat", mdat));
  o
}
/// Complete file with the images in the raw track; `arrange` changes the order in the data box and the chunks.
pub fn cr3_raw(cmt: &[Vec<u8>; 4], im: &super::crx::Image, hdr: usize, blobs: &[Vec<u8>], arrange: usize) -> Vec<u8> {
  cr3_preview(cmt, im, hdr, blobs, arrange, &[])
}
/// The same with a picture in the first track.
pub fn cr3_preview(cmt: &[Vec<u8>; 4], im: &super::crx::Image, hdr: usize, blobs: &[Vec<u8>], arrange: usize, jpeg: &[u8]) -> Vec<u8> {
  let n = blobs.len();
  // chunks of samples: all in one, one each, first alone
  let groups: Vec<Vec<usize>> = match arrange {
    0 => vec![(0..n).collect()],
    1 => (0..n).map(|i| vec![i]).collect(),
    _ => std::iter::once(vec![0]).chain((n > 1).then(|| (1..n).collect())).collect(),
  };
  let mut mdat = vec![0x5a; 24];
  let mut at = vec![0u64; groups.len()];
  let order: Vec<usize> = if arrange == 0 { (0..groups.len()).collect() } else { (0..groups.len()).rev().collect() };
  for g in order {
    mdat.extend(vec![0xa5; 7 * g + 3]);
    at[g] = mdat.len() as u64;
    groups[g].iter().for_each(|i| mdat.extend(&blobs[*i]));
  }
  let mut raw = be16(&[0xffff, 48, if im.v2 { 0x200 } else { 0x100 }, 0]);
  raw.extend(be32(&[im.w as u32, im.h as u32, im.tile_w as u32, im.tile_h as u32]));
  raw.extend([im.bits, 0x40, im.enc << 4 | im.levels as u8, ((im.tile_w < im.w) as u8) << 7 | (im.tile_h < im.h) as u8]);
  raw.extend(be32(&[hdr as u32, 0, 0, 0]));
  let mut raw = bx(b"CMP1", &raw);
  let (w, h) = (im.w as u16, im.h as u16);
  let mut b = be16(&[w, h, 0, 2, 0, 0]);
  b.extend(be16(&[4, 2, w - 3, h - 3, 0, 0, 2, 2, 0, 0, 2, 2, 2, 0, w, h]));
  raw.extend(full(b"CDI1", 0, &full(b"IAD1", 0, &b)));
  let stsc = groups.iter().enumerate().filter(|(i, g)| *i == 0 || g.len() != groups[i - 1].len()).map(|(i, g)| (i as u32 + 1, g.len() as u32)).collect();
  let mut table = Table { stsc, fixed: 0, sizes: blobs.iter().map(|b| b.len() as u32).collect(), chunks: at.clone() };
  let one = Table { stsc: vec![(1, 1)], fixed: 0, sizes: vec![8], chunks: vec![0] };
  let mut first = one.clone();
  if !jpeg.is_empty() {
    first.sizes = vec![jpeg.len() as u32];
    first.chunks = vec![mdat.len() as u64];
    mdat.extend(jpeg);
    mdat.extend([0x77; 9]);
  }
  let make = |f: &Table, t: &Table| cr3_tracks(cmt, &[2, 1, 0], &[(f, craw(64, 32, &full(b"JPEG", 0, &[]))), (&one, craw(16, 8, &cmp1(16, 8, 14))), (t, craw(w, h, &raw))], &mdat);
  let start = (make(&first, &table).len() - mdat.len()) as u64;
  table.chunks.iter_mut().for_each(|c| *c += start);
  if !jpeg.is_empty() {
    first.chunks[0] += start;
  }
  make(&first, &table)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
  Jfif(u8, u8), // thumbnail size
  Exif(Vec<u8>),
  Xmp(Vec<u8>),
  App1Other(usize),
  Com(usize),
  Sos(usize), // entropy data length
}
pub fn jfif(segs: &[Seg], eoi: bool) -> Vec<u8> {
  let mut o = vec![0xff, 0xd8];
  let put = |m: u8, b: &[u8], o: &mut Vec<u8>| {
    o.extend([0xff, m]);
    o.extend(((b.len() + 2) as u16).to_be_bytes());
    o.extend(b);
  };
  for s in segs {
    match s {
      Seg::Jfif(x, y) => {
        let mut b = b"JFIF\0\x01\x02\0\0\x48\0\x48".to_vec();
        b.extend([*x, *y]);
        b.extend(vec![7; *x as usize * *y as usize * 3]);
        put(0xe0, &b, &mut o);
      }
      Seg::Exif(t) => {
        let mut b = b"Exif\0\0".to_vec();
        b.extend(t);
        put(0xe1, &b, &mut o);
      }
      Seg::Xmp(x) => {
        let mut b = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
        b.extend(x);
        put(0xe1, &b, &mut o);
      }
      Seg::App1Other(n) => put(0xe1, &vec![b'x'; *n], &mut o),
      Seg::Com(n) => put(0xfe, &vec![b'c'; *n], &mut o),
      Seg::Sos(n) => {
        put(0xda, &[1, 1, 0, 0, 63, 0], &mut o);
        for k in 0..*n {
          match k % 5 {
            0 => o.extend([0xff, 0x00]),
            3 => o.extend([0xff, 0xd0 + (k % 8) as u8]),
            v => o.push(v as u8 * 37),
          }
        }
      }
    }
  }
  if eoi {
    o.extend([0xff, 0xd9]);
  }
  o
}
