//! C12: a batch run gives every input exactly one output with its own content.
use super::clikit::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use serde_json::json;
use std::collections::BTreeMap;

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one run of the real binary on one directory tree (a subset of the entry universe) with one set of options; every output is identified by its pixels (all inputs differ). Non-trivial: at least two raw inputs, or an entry that must be skipped or must fail.",
    bounds: "entry universe of 15 (stem collisions across extensions and case, names that look like disambiguated names, sub-directories, non-raw files, corrupt, unrecognisable and panicking files, dangling link, link to a raw file, directory with a raw extension); all subsets up to size 3 and all subsets of the 7 colliding entries (thorough: all subsets up to size 5) x {convert, process-raw} x recursive on/off; jobs 1..4, image-index all, relative paths; single-file runs x 11 spellings of the output name, also not valid UTF-8; all subsets of 6 names with bytes that are not valid UTF-8",
    assumptions: &["the output directory is distinct from the input directory (in-place runs are explored in C11)"],
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
  Raw(u64),
  Bad(Health),
  Skip,
  Dangling,
  Link(u64),
  Dir,
}
const U: [(&str, K); 15] = [
  ("A.NEF", K::Raw(100)),
  ("A.CR2", K::Raw(102)),
  ("a.nef", K::Raw(103)),
  ("A.dng", K::Raw(104)),
  ("A_1.NEF", K::Raw(106)),
  ("A_1_1.ARW", K::Raw(107)),
  ("sub/A.NEF", K::Raw(108)),
  ("B.b.NEF", K::Raw(110)),
  ("A.txt", K::Skip),
  ("C.NEF", K::Bad(Health::Late)),
  ("A.ARW", K::Bad(Health::Early)),
  ("E.NEF", K::Bad(Health::Panic)),
  ("D.NEF", K::Dangling),
  ("L.NEF", K::Link(111)),
  ("X.NEF", K::Dir),
];

struct Conf {
  cmd: Cmd,
  recursive: bool,
  jobs: usize,
  all: bool,
  relative: bool,
}

fn one(ctx: &Ctx, kit: &Kit, mask: usize, c: &Conf, label: &str) {
  let s = Scratch::new();
  s.mkdir("in");
  s.mkdir("out");
  let mut scope: Vec<(String, String, K)> = vec![]; // (dir, stem, kind)
  let mut dangling = false;
  let mut raws = 0;
  for (i, (name, k)) in U.iter().enumerate() {
    if mask >> i & 1 == 0 {
      continue;
    }
    let p = format!("in/{name}");
    match k {
      K::Raw(seed) => {
        s.write(&p, &raw_bytes(*seed, Health::Good));
      }
      K::Bad(h) => {
        s.write(&p, &raw_bytes(3, *h));
      }
      K::Skip => {
        s.write(&p, b"text");
      }
      K::Dangling => {
        std::os::unix::fs::symlink(s.p("nowhere.NEF"), s.p(&p)).unwrap();
        dangling = true;
      }
      K::Link(seed) => {
        let t = s.write("elsewhere/target.bin", &raw_bytes(*seed, Health::Good));
        std::os::unix::fs::symlink(t, s.p(&p)).unwrap();
      }
      K::Dir => {
        s.mkdir(&p);
      }
    }
    let (dir, file) = name.rsplit_once('/').unwrap_or(("", name));
    if dir != "" && !c.recursive {
      continue;
    }
    if matches!(k, K::Raw(_) | K::Bad(_) | K::Link(_)) {
      raws += 1;
      scope.push((dir.to_string(), file.rsplit_once('.').unwrap().0.to_string(), *k));
    }
  }
  let pre = s.snap("");
  let cwd = s.p("");
  let (i, o) = if c.relative { ("in".to_string(), "out".to_string()) } else { (s.p("in").to_str().unwrap().to_string(), s.p("out").to_str().unwrap().to_string()) };
  let mut a = args(c.cmd, false, &i, &o);
  if c.recursive {
    a.insert(1, "-r".into());
  }
  if c.jobs > 0 && c.cmd == Cmd::Convert {
    a.insert(1, "-j".into());
    a.insert(2, c.jobs.to_string());
  }
  if c.all {
    a.insert(1, "--image-index".into());
    a.insert(2, "all".into());
  }
  let out = Run::new(&cwd, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>()).go();
  let post = s.snap("");
  ctx.case(fp(&(label, mask, c.cmd, c.recursive, c.jobs, c.all, c.relative)), raws >= 2 || raws < mask.count_ones() as usize);
  let names: Vec<&str> = U.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x.0).collect();
  let info = || json!({"entries": names, "args": a, "result": out.brief(), "outputs": post.keys().filter(|k| k.starts_with("out/")).collect::<Vec<_>>()});
  ctx.sample(&format!("{label}-{}", names.len()), info);
  let r = judge(kit, c.cmd, &scope, dangling, &pre, &post, &out);
  ctx.outcome(fp(&(out.code, post.keys().cloned().collect::<Vec<_>>())));
  if let Err(e) = r {
    ctx.fail(&format!("batch/{:?}/{}", c.cmd, names.join(",")), format!("{:?} on {names:?}: {e}", c.cmd), info());
  }
}

fn judge(kit: &Kit, cmd: Cmd, scope: &[(String, String, K)], dangling: bool, pre: &Snap, post: &Snap, out: &Out) -> Result<(), String> {
  if out.timed_out || out.signal.is_some() {
    return Err("run did not end normally".into());
  }
  let (changed, new) = diff(pre, post);
  if !changed.is_empty() {
    return Err(format!("existing entries changed: {changed:?}"));
  }
  let mut good: BTreeMap<u64, (&str, &str)> = BTreeMap::new();
  let mut bad = 0;
  let mut panicky = 0;
  for (d, st, k) in scope {
    match k {
      K::Raw(s) | K::Link(s) => {
        good.insert(*s, (d, st));
      }
      K::Bad(Health::Panic) => panicky += 1,
      _ => bad += 1,
    }
  }
  let mut found: BTreeMap<u64, String> = BTreeMap::new();
  for n in &new {
    match post.get(n) {
      Some(Ent::Dir) => continue, // empty directories may be mirrored
      Some(Ent::File(b, _)) => {
        let Some(seed) = good.keys().find(|s| kit.complete(cmd, **s, b).is_ok()) else {
          if panicky > 0 && !n.contains("/E.") { return Err(format!("{n} does not hold the complete image of any input")) }
          if panicky > 0 { continue }
          return Err(format!("{n} does not hold the complete image of any input"));
        };
        if let Some(o) = found.insert(*seed, n.clone()) {
          return Err(format!("input converted twice: {o} and {n}"));
        }
        let (d, st) = good[seed];
        let dir = if d.is_empty() { "out/".to_string() } else { format!("out/{d}/") };
        let ext = format!(".{}", out_ext(cmd));
        let Some(stem) = n.strip_prefix(&dir).and_then(|x| x.strip_suffix(&ext)) else {
          return Err(format!("output of {st} is in the wrong place: {n}"));
        };
        let unique = scope.iter().filter(|x| x.0 == d && x.1 == *st).count() == 1;
        let num = stem.strip_prefix(st).and_then(|x| x.strip_prefix('_')).is_some_and(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()));
        if stem != st && !num {
          return Err(format!("output of '{st}' is called {n}"));
        }
        // without any other input of the same or a numbered stem the plain name is expected
        let clash = scope.iter().any(|x| x.0 == d && x.1 != *st && (x.1.starts_with(&format!("{st}_")) || st.starts_with(&format!("{}_", x.1))));
        if unique && !clash && stem != st {
          return Err(format!("output of '{st}' needlessly renamed to {n}"));
        }
      }
      _ => return Err(format!("unexpected entry {n}")),
    }
  }
  for (s, (d, st)) in &good {
    if !found.contains_key(s) {
      return Err(format!("no output for input {d}/{st} ({})", out.brief()));
    }
  }
  if bad > 0 && out.ok() {
    return Err("exit 0 although an input failed".into());
  }
  if bad == 0 && panicky == 0 && !dangling && !scope.is_empty() && !out.ok() {
    return Err(format!("every input was converted but {}", out.brief()));
  }
  Ok(())
}

/// Files with several images (CR3 bursts) next to colliding names.
const F: [(&str, usize); 6] = [("S.CR3", 3), ("S.NEF", 0), ("S_0000.NEF", 0), ("s.cr3", 1), ("S_1.CR3", 2), ("S_1_0001.DNG", 0)];
fn frames(ctx: &Ctx) {
  use crate::refs::dng as rd;
  let cmds = [Cmd::Convert, Cmd::Process];
  let files: Vec<_> = F.iter().enumerate().map(|(i, f)| (f.1 > 0).then(|| super::c17::burst(f.1, i + 1))).collect();
  let dev = |b: &[u8], k: usize| read_developed(&develop_image(b, k).expect("develop fixture")).expect("read developed fixture").px;
  let devs: Vec<Vec<Vec<u16>>> = F.iter().enumerate().map(|(i, f)| match &files[i] {
    Some(x) => (0..f.1).map(|k| dev(&x.0, k)).collect(),
    None => vec![dev(&raw_bytes(200 + i as u64, Health::Good), 0)],
  }).collect();
  let idx = ["all", "0", "1", "2", "ALL"];
  let r = [1 << F.len(), idx.len(), cmds.len(), 2];
  ctx.par("several images per file", space(&r), |i| {
    let d = digits(i, &r);
    let (mask, cmd) = (d[0], cmds[d[2]]);
    let one = mask.count_ones() == 1;
    if mask == 0 || ctx.quick() && d[1] > 2 && !one {
      return;
    }
    let s = Scratch::new();
    s.mkdir("in");
    s.mkdir("out");
    let k: Option<usize> = idx[d[1]].parse().ok();
    // every expected output: (stem, frame, samples)
    let mut want: Vec<(String, Option<usize>, Vec<u16>)> = vec![];
    let mut bad = false;
    for (i, (name, n)) in F.iter().enumerate() {
      if mask >> i & 1 == 0 {
        continue;
      }
      let stem = name.rsplit_once('.').unwrap().0.to_string();
      match &files[i] {
        None => {
          s.write(&format!("in/{name}"), &raw_bytes(200 + i as u64, Health::Good));
          let crate::fix::Data::U(px) = spec(200 + i as u64).data else { panic!("fixture") };
          want.push((stem, None, if cmd == Cmd::Process { devs[i][0].clone() } else { px }));
        }
        Some((b, _, _, images)) => {
          let images = if cmd == Cmd::Process { &devs[i] } else { images };
          s.write(&format!("in/{name}"), b);
          match k {
            Some(k) if k >= *n => bad = true,
            Some(k) => want.push((stem, None, images[k].clone())),
            None => want.extend(images.iter().enumerate().map(|(j, p)| (stem.clone(), (*n > 1).then_some(j), p.clone()))),
          }
        }
      }
    }
    let single = one && d[3] == 1;
    let name = F[mask.trailing_zeros() as usize].0;
    let (inp, outp) = if single { (format!("in/{name}"), format!("out/{}.{}", name.rsplit_once('.').unwrap().0, out_ext(cmd))) } else { ("in".into(), "out".into()) };
    let mut a = args(cmd, false, &inp, &outp);
    a.insert(1, "--image-index".into());
    a.insert(2, idx[d[1]].into());
    if d[3] == 1 && cmd == Cmd::Convert {
      a.insert(1, "-j".into());
      a.insert(2, "3".into());
    }
    let pre = s.snap("");
    let out = Run::new(&s.p(""), &a.iter().map(|s| s.as_str()).collect::<Vec<_>>()).go();
    let post = s.snap("");
    ctx.case(fp(&("frames", &d)), true);
    let info = || json!({"args": a, "entries": mask, "result": out.brief(), "outputs": post.keys().filter(|k| k.starts_with("out/")).collect::<Vec<_>>()});
    ctx.sample("frames", info);
    let (changed, new) = diff(&pre, &post);
    ctx.outcome(fp(&(out.code, &new)));
    let fail = |m: String| ctx.fail(&format!("frames/{cmd:?}"), format!("{a:?} with {mask:06b}: {m}"), info());
    if !changed.is_empty() || out.ok() == bad {
      return fail(format!("changed {changed:?}, {}", out.brief()));
    }
    if new.len() != want.len() {
      return fail(format!("{} outputs for {} images: {new:?}", new.len(), want.len()));
    }
    for n in &new {
      let Some(Ent::File(b, _)) = post.get(n) else { return fail(format!("unexpected {n}")) };
      let px = match cmd {
        Cmd::Convert => rd::read(b).and_then(|d| match d.px {
          rd::Px::U(p) => Ok(p.iter().map(|v| *v as u16).collect()),
          _ => Err("float samples".into()),
        }),
        _ => read_developed(b).map(|i| i.px),
      };
      let px = match px {
        Ok(p) => p,
        Err(e) => return fail(format!("{n}: {e}")),
      };
      let file = n.strip_prefix("out/").unwrap_or(n);
      let Some((stem, ext)) = file.rsplit_once('.') else { return fail(format!("name {n}")) };
      let fits = |w: &(String, Option<usize>, Vec<u16>)| {
        let Some(rest) = stem.strip_prefix(w.0.as_str()) else { return false };
        let rest = match w.1 {
          Some(j) => match rest.strip_suffix(&format!("_{j:04}")) {
            Some(r) => r,
            None => return false,
          },
          None => rest,
        };
        ext == out_ext(cmd) && (rest.is_empty() || rest.strip_prefix('_').is_some_and(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()))) && w.2 == px
      };
      match want.iter().position(fits) {
        Some(p) => {
          want.remove(p);
        }
        None => return fail(format!("{n} holds no image that belongs there")),
      }
    }
  });
}

pub fn run(ctx: &Ctx) {
  frames(ctx);
  let seeds: Vec<u64> = (100..=111).collect();
  let kit = Kit::new(&seeds);
  let max = ctx.pick(3, 5);
  let mut masks: Vec<usize> = (0..1usize << U.len()).filter(|m| m.count_ones() <= max || m >> 7 == 0).collect();
  masks.push((1 << U.len()) - 1);
  let cmds = [Cmd::Convert, Cmd::Process];
  let r = [masks.len(), 2, 2];
  ctx.par("directory trees", space(&r), |i| {
    let d = digits(i, &r);
    one(ctx, &kit, masks[d[0]], &Conf { cmd: cmds[d[1]], recursive: d[2] == 1, jobs: 0, all: false, relative: false }, "tree");
  });
  // options
  let coll: Vec<usize> = (0..1 << 7).chain([(1 << U.len()) - 1, 0b110111000001111]).filter(|m: &usize| m.count_ones() >= 2).collect();
  let r = [coll.len(), ctx.pick(2, 4), 2, 2];
  ctx.par("options", space(&r), |i| {
    let d = digits(i, &r);
    let c = Conf { cmd: Cmd::Convert, recursive: true, jobs: [1, 3, 2, 4][d[1]], all: d[2] == 1, relative: d[3] == 1 };
    one(ctx, &kit, coll[d[0]], &c, "options");
  });
  let r = [coll.len(), 3];
  ctx.par("options process-raw", space(&r), |i| {
    let d = digits(i, &r);
    let c = Conf { cmd: Cmd::Process, recursive: true, jobs: 0, all: d[1] != 1, relative: d[1] != 0 };
    one(ctx, &kit, coll[d[0]], &c, "options-process");
  });
  // names that are not valid UTF-8: every subset, in the directory and in a sub-directory
  let bytes = ["a\\xff", "a\\xfe", "\\xff\\x80", "a\\xff b.c", "a\u{fffd}", "\u{e4}"];
  let r = [1 << bytes.len(), 2, 2];
  ctx.par("bytes in names", space(&r), |i| {
    let d = digits(i, &r);
    if d[0] == 0 {
      return;
    }
    let (cmd, dir) = (cmds[d[1]], ["", "s\\xff"][d[2]]);
    let s = Scratch::new();
    s.mkdir("out");
    let mut scope = vec![];
    for (k, b) in bytes.iter().enumerate().filter(|x| d[0] >> x.0 & 1 == 1) {
      let p = if dir.is_empty() { format!("in/{b}.NEF") } else { format!("in/{dir}/{b}.NEF") };
      // contents that all differ
      let seed = [100, 101, 102, 103, 104, 106][k];
      s.write(&p, &raw_bytes(seed, Health::Good));
      scope.push((dir.to_string(), b.to_string(), K::Raw(seed)));
    }
    let cwd = s.p("");
    let pre = s.snap("");
    let mut a = args(cmd, false, "in", "out");
    a.insert(1, "-r".into());
    let out = Run::new(&cwd, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>()).go();
    let post = s.snap("");
    ctx.case(fp(&("bytes", &d)), true);
    ctx.outcome(fp(&post.keys().collect::<Vec<_>>()));
    let info = || json!({"args": a, "result": out.brief(), "files": post.keys().collect::<Vec<_>>()});
    ctx.sample("bytes", info);
    if let Err(e) = judge(&kit, cmd, &scope, false, &pre, &post, &out) {
      ctx.fail(&format!("bytes/{cmd:?}/{}", d[0]), format!("{cmd:?} of a directory with {:?}: {e}", scope.iter().map(|x| &x.1).collect::<Vec<_>>()), info());
    }
  });
  // output spellings of single-file runs
  let outs = ["out/T.dng", "out/T.DNG", "out/T", "out/T.x.dng", "out/new/T.dng", "out/a/b/T.dng", "out/T.tif", "T.dng", "out/T\\xff.dng", "out/T\\xe4b\\xff.x.tif", "out/T\\x80"];
  let r = [2, outs.len(), 2];
  ctx.par("output names", space(&r), |i| {
    let d = digits(i, &r);
    let cmd = cmds[d[0]];
    let s = Scratch::new();
    s.write("in/A.NEF", &raw_bytes(100, Health::Good));
    s.mkdir("out");
    let cwd = s.p("");
    let pre = s.snap("");
    let (inp, o) = if d[2] == 0 { (s.p("in/A.NEF").to_str().unwrap().to_string(), format!("{}/{}", s.p("").display(), outs[d[1]])) } else { ("in/A.NEF".to_string(), outs[d[1]].to_string()) };
    let a = args(cmd, false, &inp, &o);
    let out = Run::new(&cwd, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>()).go();
    let post = s.snap("");
    ctx.case(fp(&("names", &d)), true);
    let info = || json!({"args": a, "result": out.brief(), "files": post.keys().collect::<Vec<_>>()});
    ctx.sample("names", info);
    let (changed, new) = diff(&pre, &post);
    let files: Vec<_> = new.iter().filter(|n| matches!(post[*n], Ent::File(..))).collect();
    let parent = outs[d[1]].rsplit_once('/').map(|x| format!("{}/", x.0)).unwrap_or_default();
    let e = if !changed.is_empty() {
      Err(format!("{changed:?}"))
    } else if !out.ok() {
      Err(format!("failed: {}", out.brief()))
    } else if files.len() != 1 {
      Err(format!("new files {files:?}"))
    } else if !files[0].starts_with(&format!("{parent}T")) || outs[d[1]].ends_with(&format!(".{}", out_ext(cmd))) && *files[0] != outs[d[1]] {
      Err(format!("output written to {}", files[0]))
    } else if let Ent::File(b, _) = &post[files[0]] {
      kit.complete(cmd, 100, b)
    } else {
      Ok(())
    };
    if let Err(e) = e {
      ctx.fail(&format!("names/{cmd:?}/{}", outs[d[1]]), format!("{cmd:?} to '{}': {e}", outs[d[1]]), info());
    }
  });
}
