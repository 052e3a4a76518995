//! C14: extract restores exactly the embedded original, only inside the destination, and never a damaged one.
use super::clikit::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use crate::fix::*;
use crate::refs::tiff::*;
use crate::refs::zlib::*;
use serde_json::json;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one run of the real `dnglab extract` with complete before/after snapshots of a scratch tree that also contains the places hostile names point to. Non-trivial: every case except restoring an undamaged original under its plain name.",
    bounds: "28 stored names x {file to file, file to directory, directory to directory, recursive} x override; every bit of the stored structure and digest of a 40-byte original flipped (thorough: also of a two-block original's tables and a sample-free sweep of every byte) with and without --skipchecks; missing/mistyped tags; all subsets of 8 batch entries x recursive x override; convert followed by extract for 9 kinds of input name (3 not valid UTF-8) to file and directory",
    assumptions: &["names are at most 255 bytes unless the case is about over-long names"],
  }
}

const NAMES: [&str; 28] = [
  "A.NEF", "a b.NEF", "ä.NEF", "noext", ".hidden", "A.NEF ", "-f", "A.dng", "..NEF", "A..NEF", "con", "A\nB.NEF", "../esc.NEF", "../../esc.NEF", "@ABS", "sub/x.NEF", "sub/../../esc.NEF", "./x.NEF", "..", ".", "",
  "/", "x/", "../", "..\\esc.NEF", "C:\\x.NEF", "existing.NEF", "@LONG",
];

fn dng(name: Option<&str>, data: &[u8], blob: Option<&[u8]>, digest: Option<V>) -> Vec<u8> {
  let _ = data;
  let mut n = dng_node(&Spec::new(8, 6, Kind::Cfa("RGGB".into()), 12, 2), &Layout { values_first: true, ..Default::default() });
  if let Some(x) = name {
    n.set(50827, ascii(x));
  }
  if let Some(b) = blob {
    n.set(50828, V::Undefined(b.to_vec()));
  }
  if let Some(d) = digest {
    n.set(50973, d);
  }
  build(&[n], false, true, 0)
}
fn good(name: &str, data: &[u8]) -> Vec<u8> {
  dng(Some(name), data, Some(&orig_blob(data)), Some(V::Byte(md5(data).to_vec())))
}

fn extract(cwd: &std::path::Path, a: &[&str]) -> Out {
  let mut v = vec!["extract"];
  v.extend(a);
  Run::new(cwd, &v).go()
}

pub fn run(ctx: &Ctx) {
  names(ctx);
  corruption(ctx);
  structure(ctx);
  batch(ctx);
  round_trip(ctx);
}

fn names(ctx: &Ctx) {
  let data = original(6);
  let r = [NAMES.len(), 4, 2];
  let long = "x".repeat(300) + ".NEF";
  ctx.par("stored names", space(&r), |i| {
    let d = digits(i, &r);
    let force = d[2] == 1;
    let s = Scratch::new();
    // absolute names point into the scratch directory, so that an escape is visible and harmless
    let abs = s.p("abs.NEF").to_str().unwrap().to_string();
    let name = match NAMES[d[0]] {
      "@LONG" => long.as_str(),
      "@ABS" => abs.as_str(),
      n => n,
    };
    // the scratch root is two levels above the destination so that escapes stay visible and harmless
    s.write("r/in/X.dng", &good(name, &data));
    s.write("r/in/sub/Y.dng", &good("Y.NEF", &original(7)));
    s.mkdir("r/out/dest");
    s.write("r/out/dest/existing.NEF", b"existing");
    s.write("esc.NEF", b"outside");
    s.write("r/esc.NEF", b"outside");
    s.write("r/out/esc.NEF", b"outside");
    let pre = s.snap("");
    let cwd = s.p("r");
    let (inp, out, dir): (&str, &str, Option<&str>) = match d[1] {
      0 => ("in/X.dng", "out/dest/T.bin", None),
      1 => ("in/X.dng", "out/dest", Some("r/out/dest")),
      _ => ("in", "out/dest", Some("r/out/dest")),
    };
    let mut a = vec![];
    if d[1] == 3 {
      a.push("-r");
    }
    if force {
      a.push("-f");
    }
    a.extend([inp, out]);
    let o = extract(&cwd, &a);
    let post = s.snap("");
    ctx.case(fp(&("names", &d)), d[0] != 0);
    ctx.outcome(fp(&(o.code, post.len())));
    let info = || json!({"stored_name": name, "args": a, "result": o.brief()});
    ctx.sample("names", info);
    let fail = |e: String| ctx.fail(&format!("name/{}/{}", NAMES[d[0]], d[1]), format!("stored name {name:?}, mode {}: {e}", d[1]), info());
    let (changed, new) = diff(&pre, &post);
    let plain = std::path::Path::new(name).file_name().map(|x| x.to_string_lossy().to_string());
    if let Some(c) = changed.iter().find(|c| !(force && plain.as_deref() == Some("existing.NEF") && c.starts_with("r/out/dest/existing.NEF:"))) {
      return fail(format!("existing entry damaged: {c}"));
    }
    let mut outs: Vec<&String> = new.iter().filter(|n| !matches!(post[*n], Ent::Dir)).collect();
    if d[1] == 3 {
      let y = "r/out/dest/sub/Y.NEF".to_string();
      if post.get(&y).map(|e| matches!(e, Ent::File(b, _) if *b == original(7))) != Some(true) {
        return fail("the other file of the run was not restored".into());
      }
      outs.retain(|n| **n != y);
    }
    match dir {
      None => {
        // file to file: the name does not matter, but an unusable name may be refused
        if outs.iter().any(|n| *n != "r/out/dest/T.bin") {
          return fail(format!("unexpected new files {outs:?}"));
        }
      }
      Some(dir) => {
        for n in &outs {
          if n.strip_prefix(&format!("{dir}/")).is_none_or(|x| x.contains('/')) {
            return fail(format!("file written outside the destination: {n}"));
          }
        }
      }
    }
    if outs.len() > 1 {
      return fail(format!("more than one file written: {outs:?}"));
    }
    if let Some(n) = outs.first() {
      if !matches!(&post[*n], Ent::File(b, _) if *b == data) {
        return fail(format!("{n} is not the original"));
      }
      if !o.ok() {
        return fail(format!("file restored but {}", o.brief()));
      }
    } else if o.ok() && changed.is_empty() {
      return fail("exit 0 but nothing was restored".into());
    }
    // plain names must work and keep their name
    let usable = !name.contains(['/', '\\']) && !["", ".", ".."].contains(&name) && name.len() < 250;
    if usable && NAMES[d[0]] != "existing.NEF" {
      let want = match d[1] {
        0 => "r/out/dest/T.bin".to_string(),
        _ => format!("r/out/dest/{name}"),
      };
      if !outs.contains(&&want) {
        return fail(format!("expected {want}, got {outs:?}: {}", o.brief()));
      }
    }
    if NAMES[d[0]] == "existing.NEF" && d[1] > 0 {
      let replaced = matches!(&post["r/out/dest/existing.NEF"], Ent::File(b, _) if *b == data);
      if force != replaced || force != o.ok() {
        return fail(format!("override={force} but replaced={replaced}, {}", o.brief()));
      }
    }
  });
}

/// Every bit of the stored structure and of the digest.
fn corruption(ctx: &Ctx) {
  let mut cases = vec![];
  let small = original(9)[..40].to_vec();
  let big: Vec<u8> = (0..65536 + 10).map(|i| (i * 7 + i / 256) as u8).collect();
  let bs = orig_blob(&small);
  for b in 0..bs.len() * 8 {
    cases.push((0usize, b, 0usize));
    cases.push((0, b, 1));
  }
  for b in 0..128 {
    cases.push((1, b, 0));
  }
  let bb = orig_blob(&big);
  // tables, block headers and trailers of the two-block original
  let mut pos: Vec<usize> = (0..16 + 8).chain(bb.len() - 60..bb.len()).collect();
  let cut = 16 + store_zlib(&big[..65536]).len();
  pos.extend(cut - 8..cut + 8);
  if !ctx.quick() {
    pos.extend((24..bb.len() - 60).step_by(211));
  }
  for p in pos {
    for bit in 0..8 {
      cases.push((2, p * 8 + bit, 0));
    }
  }
  for cutlen in 0..bs.len() {
    cases.push((3, cutlen, 0));
    cases.push((3, cutlen, 1));
  }
  ctx.par("corruption", cases.len(), |i| {
    let (what, b, skip) = cases[i];
    let (data, mut blob) = if what == 2 { (&big, bb.clone()) } else { (&small, bs.clone()) };
    let mut dg = md5(data).to_vec();
    match what {
      0 | 2 => blob[b / 8] ^= 1 << (b % 8),
      1 => dg[b / 8] ^= 1 << (b % 8),
      _ => blob.truncate(b),
    }
    let s = Scratch::new();
    s.write("X.dng", &dng(Some("X.NEF"), data, Some(&blob), Some(V::Byte(dg))));
    let pre = s.snap("");
    let cwd = s.p("");
    let mut a = vec![];
    if skip == 1 {
      a.push("--skipchecks");
    }
    a.extend(["X.dng", "T.bin"]);
    let o = extract(&cwd, &a);
    let post = s.snap("");
    ctx.case(fp(&("corrupt", cases[i])), true);
    ctx.outcome(fp(&(o.code, post.len())));
    let info = || json!({"damage": (["bit of the structure", "bit of the digest", "bit of a two-block structure", "structure truncated to"])[what], "at": b, "args": a, "result": o.brief()});
    ctx.sample(&format!("corrupt-{what}-{skip}"), info);
    let fail = |e: String| ctx.fail(&format!("corrupt/{what}/{b}/{skip}"), format!("damage kind {what} at {b}, skipchecks={skip}: {e}"), info());
    let (changed, new) = diff(&pre, &post);
    if !changed.is_empty() || new.iter().any(|n| n != "T.bin") {
      return fail(format!("{changed:?} {new:?}"));
    }
    if o.signal.is_some() || o.timed_out {
      return fail("run did not end normally".into());
    }
    match (post.get("T.bin"), o.ok()) {
      (Some(Ent::File(x, _)), true) => {
        if skip == 0 && x != data {
          fail("damaged original reported as restored".into());
        }
        if skip == 0 && what == 1 {
          fail("wrong digest accepted".into());
        }
      }
      (None, false) => {}
      (Some(_), false) => fail("failed run left a file behind".into()),
      (_, true) => fail("exit 0 without a file".into()),
    }
  });
}

/// Missing or mistyped tags.
fn structure(ctx: &Ctx) {
  let data = original(11);
  let blob = orig_blob(&data);
  let dg = md5(&data).to_vec();
  let digests: [Option<V>; 6] = [Some(V::Byte(dg.clone())), None, Some(V::Byte(vec![])), Some(V::Byte(dg[..15].to_vec())), Some(V::Undefined(dg.clone())), Some(V::Byte([dg.clone(), vec![0]].concat()))];
  let r = [digests.len(), 2, 2, 2];
  ctx.par("tags", space(&r), |i| {
    let d = digits(i, &r);
    let (has_name, has_blob, skip) = (d[1] == 0, d[2] == 0, d[3] == 1);
    let s = Scratch::new();
    s.write("X.dng", &dng(has_name.then_some("X.NEF"), &data, has_blob.then_some(&blob[..]), digests[d[0]].clone()));
    let pre = s.snap("");
    let cwd = s.p("");
    let mut a = vec![];
    if skip {
      a.push("--skipchecks");
    }
    a.extend(["X.dng", "T.bin"]);
    let o = extract(&cwd, &a);
    let post = s.snap("");
    ctx.case(fp(&("tags", &d)), true);
    let info = || json!({"digest": d[0], "name": has_name, "data": has_blob, "args": a, "result": o.brief()});
    ctx.sample("tags", info);
    let fail = |e: &str| ctx.fail(&format!("tags/{d:?}"), format!("digest variant {}, name {has_name}, data {has_blob}, skipchecks {skip}: {e}", d[0]), info());
    let (changed, new) = diff(&pre, &post);
    if !changed.is_empty() || new.iter().any(|n| n != "T.bin") {
      return fail("other entries changed");
    }
    let got = match post.get("T.bin") {
      Some(Ent::File(b, _)) => Some(b == &data),
      _ => None,
    };
    if o.ok() != got.is_some() {
      return fail("exit status and output disagree");
    }
    if got == Some(false) {
      return fail("restored bytes differ");
    }
    let valid = matches!(d[0], 0 | 4);
    if o.ok() && !has_blob {
      return fail("restored without data");
    }
    if o.ok() && !skip && !valid && d[0] != 5 {
      return fail("restored without a usable digest although verification is enabled");
    }
    if has_name && has_blob && (d[0] == 0 || (skip && d[0] == 1)) && !o.ok() {
      return fail("good original was not restored");
    }
  });
}

fn batch(ctx: &Ctx) {
  // (path, stored name, seed, kind 0 good 1 bad digest 2 no original 3 not a DNG 4 not selected)
  let u: [(&str, &str, u64, u8); 8] = [
    ("A.dng", "A.NEF", 21, 0),
    ("B.DNG", "B.CR2", 22, 0),
    ("dup.dng", "A.NEF", 23, 0),
    ("bad.dng", "C.NEF", 24, 1),
    ("none.dng", "", 25, 2),
    ("text.dng", "", 26, 3),
    ("skip.NEF", "S.NEF", 27, 4),
    ("sub/A.dng", "A.NEF", 28, 0),
  ];
  let r = [1 << u.len(), 2, 2];
  ctx.par("directories", space(&r), |i| {
    let d = digits(i, &r);
    let (rec, force) = (d[1] == 1, d[2] == 1);
    let s = Scratch::new();
    s.mkdir("in");
    s.mkdir("out");
    let mut want: Vec<(String, Vec<u64>)> = vec![];
    let mut bad = false;
    for (k, (p, n, seed, kind)) in u.iter().enumerate() {
      if d[0] >> k & 1 == 0 {
        continue;
      }
      let data = original(*seed);
      let bytes = match kind {
        0 | 4 => good(n, &data),
        1 => dng(Some(n), &data, Some(&orig_blob(&data)), Some(V::Byte(vec![1; 16]))),
        2 => dng(Option::None, &data, Option::None, Option::None),
        _ => b"text".to_vec(),
      };
      s.write(&format!("in/{p}"), &bytes);
      if *kind == 4 || (p.contains('/') && !rec) {
        continue;
      }
      if *kind > 0 {
        bad = true;
        continue;
      }
      let o = match p.rsplit_once('/') {
        Some((dir, _)) => format!("out/{dir}/{n}"),
        _ => format!("out/{n}"),
      };
      match want.iter_mut().find(|w| w.0 == o) {
        Some(w) => w.1.push(*seed),
        _ => want.push((o, vec![*seed])),
      }
    }
    let pre = s.snap("");
    let cwd = s.p("");
    let mut a = vec![];
    if rec {
      a.push("-r");
    }
    if force {
      a.push("-f");
    }
    a.extend(["in", "out"]);
    let o = extract(&cwd, &a);
    let post = s.snap("");
    ctx.case(fp(&("batch", &d)), want.len() != 1 || bad);
    ctx.outcome(fp(&(o.code, post.keys().cloned().collect::<Vec<_>>())));
    let info = || json!({"entries": pre.keys().collect::<Vec<_>>(), "args": a, "result": o.brief()});
    ctx.sample("batch", info);
    let fail = |e: String| ctx.fail(&format!("batch/{}/{rec}/{force}", d[0]), e, info());
    let (changed, new) = diff(&pre, &post);
    if !changed.is_empty() {
      return fail(format!("{changed:?}"));
    }
    for n in new.iter().filter(|n| !matches!(post[*n], Ent::Dir)) {
      if !want.iter().any(|w| w.0 == *n) {
        return fail(format!("unexpected file {n}"));
      }
    }
    for (n, seeds) in &want {
      match post.get(n) {
        Some(Ent::File(b, _)) if seeds.iter().any(|x| original(*x) == *b) => {}
        Some(_) => return fail(format!("{n} is not an original")),
        _ => return fail(format!("{n} was not restored: {}", o.brief())),
      }
      if seeds.len() > 1 {
        bad = true;
      }
    }
    if bad && o.ok() {
      return fail("exit 0 although a file was not restored".into());
    }
    if !bad && !want.is_empty() && !o.ok() {
      return fail(format!("all files good but {}", o.brief()));
    }
  });
}

/// convert, then extract: the original comes back under its own name.
fn round_trip(ctx: &Ctx) {
  let names = ["A.NEF", "a b.CR2", "ä.nef", "B.b.ARW", "C.dng", "D_1.RAF", "E\\xff.NEF", "\\xff\\xfe.dng", "F\\x80 \\xc3.CR2"];
  let r = [names.len(), 2, 3];
  ctx.par("convert and extract", space(&r), |i| {
    let d = digits(i, &r);
    let name = names[d[0]];
    let s = Scratch::new();
    let data = raw_bytes(100 + d[2] as u64, Health::Good);
    s.write(&format!("in/{name}"), &data);
    s.mkdir("mid");
    s.mkdir("out");
    let cwd = s.p("");
    let inp = format!("in/{name}");
    let c = args(Cmd::Convert, false, &inp, "mid/X.dng");
    let o1 = Run::new(&cwd, &c.iter().map(|x| x.as_str()).collect::<Vec<_>>()).go();
    // a second conversion of the DNG embeds the DNG itself
    let o2 = if d[1] == 0 { extract(&cwd, &["mid/X.dng", "out"]) } else { extract(&cwd, &["mid", "out"]) };
    let post = s.snap("out");
    // to a file of another name
    let o3 = extract(&cwd, &["mid/X.dng", "T.bin"]);
    let plain = std::fs::read(s.p("T.bin")).is_ok_and(|b| b == data);
    ctx.case(fp(&("rt", &d)), true);
    let info = || json!({"name": name, "convert": o1.brief(), "extract": o2.brief(), "files": post.keys().collect::<Vec<_>>()});
    ctx.sample("round-trip", info);
    // a name that is not valid text can't be stored as it is
    let kept = if name.contains("\\x") { post.keys().next().map(|x| x.as_str()) } else { Some(name) };
    let same = kept.is_some_and(|n| matches!(post.get(n), Some(Ent::File(b, _)) if *b == data));
    if !(o1.ok() && o2.ok() && post.len() == 1 && same) {
      ctx.fail(&format!("round-trip/{name}"), format!("convert + extract of {name} does not give the original back"), info());
    }
    if !(o3.ok() && plain) {
      ctx.fail(&format!("round-trip-file/{name}"), format!("convert + extract to a file of {name} does not give the original back: {}", o3.brief()), info());
    }
  });
}
