//! Minimal PNG writer (RGB, stored deflate).
use super::zlib::store_zlib;
fn crc32(d: &[u8]) -> u32 {
  let mut c = !0u32;
  for b in d {
    c ^= *b as u32;
    for _ in 0..8 {
      c = if c & 1 == 1 { c >> 1 ^ 0xEDB88320 } else { c >> 1 };
    }
  }
  !c
}
fn chunk(out: &mut Vec<u8>, t: &[u8; 4], d: &[u8]) {
  out.extend((d.len() as u32).to_be_bytes());
  let mut b = t.to_vec();
  b.extend(d);
  out.extend(&b);
  out.extend(crc32(&b).to_be_bytes());
}
pub fn rgb(w: usize, h: usize, depth: u8, px: &[u16]) -> Vec<u8> {
  let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
  let mut ih = (w as u32).to_be_bytes().to_vec();
  ih.extend((h as u32).to_be_bytes());
  ih.extend([depth, 2, 0, 0, 0]);
  chunk(&mut o, b"IHDR", &ih);
  let mut raw = vec![];
  for y in 0..h {
    raw.push(0);
    for v in &px[y * w * 3..(y + 1) * w * 3] {
      if depth == 8 {
        raw.push(*v as u8)
      } else {
        raw.extend(v.to_be_bytes())
      }
    }
  }
  chunk(&mut o, b"IDAT", &store_zlib(&raw));
  chunk(&mut o, b"IEND", &[]);
  o
}
