//! C11: no command destroys or damages a file it was not told to replace.
use super::clikit::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use serde_json::json;
use std::os::unix::fs::symlink;
use std::path::Path;
use std::time::{Duration, Instant};

pub fn level() -> Level {
  Level {
    level: "exploration",
    rule: "A case is one run of the real dnglab binary in a scratch directory (or two overlapping runs) with a complete before/after snapshot of every file, directory and link. Non-trivial: a pre-existing entry, a competitor or a defective input is involved.",
    bounds: "commands convert, process-raw, extract, makedng x {file to file, file to directory, directory to directory} x 13 kinds of pre-existing target x override on/off x {good, late-failing, unrecognisable, panicking} input; in-place directories; a competitor creating the target before every file-system operation of a run; a second complete run inserted before every file-system operation of a first run (one preemption), with and without override",
    assumptions: &[
      "interference happens at file-system call granularity (LD_PRELOAD interposition of the libc calls the binary makes)",
      "excluded: two simultaneous --override runs on one target where one of them fails (its clean-up may remove the other's result)",
    ],
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Mode {
  FileFile,
  FileDir,
  DirDir,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Target {
  None,
  Regular,
  Empty,
  ReadOnly,
  Valid,
  Dir,
  FullDir,
  LinkFile,
  LinkDir,
  Dangling,
  LinkInput,
  HardInput,
  Input,
}
use Target::*;
const TARGETS: [Target; 13] = [None, Regular, Empty, ReadOnly, Valid, Dir, FullDir, LinkFile, LinkDir, Dangling, LinkInput, HardInput, Input];
const HEALTHS: [Health; 4] = [Health::Good, Health::Late, Health::Early, Health::Panic];
const A: u64 = 4;
const B: u64 = 5;
const OLD: u64 = 6;

struct Scene {
  s: Scratch,
  input: String,
  output: String,
  t: String,
}

/// Build the scratch directory; `t` is the path that the run is entitled to write (relative).
fn scene(cmd: Cmd, mode: Mode, tk: Target, h: Health) -> Option_<Scene> {
  let s = Scratch::new();
  let (ie, oe) = (in_ext(cmd), out_ext(cmd));
  let mut inp = format!("in/A.{ie}");
  let mut t = match mode {
    Mode::FileFile => format!("out/T.{oe}"),
    _ => format!("out/A.{oe}"),
  };
  if tk == Input {
    match mode {
      Mode::FileFile => {
        // the input already has the name of the output
        inp = format!("in/A.{oe}");
        t = inp.clone();
      }
      _ => return Err(()),
    }
  }
  s.write(&inp, &input_bytes(cmd, A, h, "A"));
  s.mkdir("out");
  s.write("out/bystander.bin", b"bystander");
  s.write("other/old.bin", b"old content of a linked file");
  if mode == Mode::DirDir {
    s.write(&format!("in/B.{ie}"), &input_bytes(cmd, B, Health::Good, "B"));
    s.write("in/note.txt", b"note");
  }
  let tp = s.p(&t);
  match tk {
    None | Input => {}
    Regular => {
      s.write(&t, b"PRE-EXISTING FILE");
    }
    Empty => {
      s.write(&t, b"");
    }
    ReadOnly => {
      s.write(&t, b"PRE-EXISTING FILE");
      let mut p = std::fs::metadata(&tp).unwrap().permissions();
      p.set_readonly(true);
      std::fs::set_permissions(&tp, p).unwrap();
    }
    Valid => {
      // a complete result of an earlier run on another input
      let b = match cmd {
        Cmd::Extract => original(OLD),
        _ => raw_bytes(OLD, Health::Good),
      };
      s.write(&t, &b);
    }
    Dir => {
      s.mkdir(&t);
    }
    FullDir => {
      s.write(&format!("{t}/inner.bin"), b"inner");
    }
    LinkFile => symlink(s.p("other/old.bin"), &tp).unwrap(),
    LinkDir => {
      s.mkdir("other/d");
      symlink(s.p("other/d"), &tp).unwrap()
    }
    Dangling => symlink(s.p("other/not-there.bin"), &tp).unwrap(),
    LinkInput => symlink(s.p(&inp), &tp).unwrap(),
    HardInput => std::fs::hard_link(s.p(&inp), &tp).unwrap(),
  }
  let (input, output) = match mode {
    Mode::FileFile => (s.p(&inp), s.p(&t)),
    Mode::FileDir => (s.p(&inp), s.p("out")),
    Mode::DirDir => (s.p("in"), s.p("out")),
  };
  let mut tt = t.clone();
  if mode == Mode::FileFile && cmd != Cmd::Makedng && matches!(tk, Dir | FullDir | LinkDir) {
    tt = if tk == LinkDir { format!("other/d/A.{oe}") } else { format!("{t}/A.{oe}") };
  }
  Ok(Scene { s, input: input.to_str().unwrap().into(), output: output.to_str().unwrap().into(), t: tt })
}
type Option_<T> = Result<T, ()>;

fn verdict(kit: &Kit, cmd: Cmd, mode: Mode, tk: Target, force: bool, h: Health, t: &str, pre: &Snap, post: &Snap, out: &Out) -> Result<(), String> {
  if out.timed_out || out.signal.is_some() {
    return Err("run did not end normally".into());
  }
  let ok = out.ok();
  let b_out = format!("out/B.{}", out_ext(cmd));
  let (changed, new) = diff(pre, post);
  for c in &changed {
    if !(force && (c.starts_with(&format!("{t}:")) || c.starts_with(&format!("{t} ")))) {
      return Err(format!("existing entry damaged: {c}"));
    }
  }
  for n in &new {
    if n != t && !(mode == Mode::DirDir && *n == b_out) {
      return Err(format!("unexpected new entry {n}"));
    }
  }
  if mode == Mode::DirDir {
    match post.get(&b_out) {
      Some(Ent::File(b, _)) => kit.complete(cmd, B, b).map_err(|e| format!("output of the other input: {e}"))?,
      _ => return Err("output of the other input is missing".into()),
    }
  }
  let existed = pre.contains_key(t);
  if existed && !force && ok {
    return Err("exit 0 although the output existed and --override was not given".into());
  }
  if tk == Input && ok {
    return Err("exit 0 although the output is the input".into());
  }
  if tk == Input && pre.get(t) != post.get(t) {
    return Err("input damaged".into());
  }
  if ok {
    match post.get(t) {
      Some(Ent::File(b, _)) => {
        if h == Health::Good {
          kit.complete(cmd, A, b).map_err(|e| format!("exit 0 but output: {e}"))?
        }
      }
      x => return Err(format!("exit 0 but output is {}", if x.is_none() { "missing" } else { "not a regular file" })),
    }
  } else if let Some(e) = post.get(t) {
    if pre.get(t) != Some(e) {
      return Err("failed run left a file at the output path".into());
    }
  }
  if matches!(h, Health::Late | Health::Early) && ok {
    return Err("exit 0 for a defective input".into());
  }
  let must = h == Health::Good && (!existed || (force && matches!(tk, Regular | Empty | ReadOnly | Valid | HardInput)));
  if must && !ok {
    return Err(format!("run on a good input failed: {}", out.brief()));
  }
  Ok(())
}

fn argv(cmd: Cmd, force: bool, sc: &Scene) -> Vec<String> {
  args(cmd, force, &sc.input, &sc.output)
}
fn run_args<'a>(cwd: &'a Path, a: &[String]) -> Run<'a> {
  Run::new(cwd, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>())
}

pub fn run(ctx: &Ctx) {
  let kit = Kit::new(&[A, B, OLD]);
  sequential(ctx, &kit);
  in_place(ctx, &kit);
  competitor(ctx, &kit);
  two_runs(ctx, &kit);
}

fn sequential(ctx: &Ctx, kit: &Kit) {
  let modes = [Mode::FileFile, Mode::FileDir, Mode::DirDir];
  let r = [4, 3, TARGETS.len(), 2, 4];
  ctx.par("single runs", space(&r), |i| {
    let d = digits(i, &r);
    let (cmd, mode, tk, force, h) = (CMDS[d[0]], modes[d[1]], TARGETS[d[2]], d[3] == 1, HEALTHS[d[4]]);
    if cmd == Cmd::Makedng && mode != Mode::FileFile {
      return;
    }
    // extract has no third kind of defect
    if cmd == Cmd::Extract && h == Health::Panic {
      return;
    }
    let Ok(sc) = scene(cmd, mode, tk, h) else { return };
    let pre = sc.s.snap("");
    let cwd = sc.s.p("");
    let a = argv(cmd, force, &sc);
    let out = run_args(&cwd, &a).go();
    let post = sc.s.snap("");
    ctx.case(fp(&d), tk != None || h != Health::Good);
    ctx.outcome(fp(&(out.code, post.len())));
    let info = || json!({"command": format!("{cmd:?}"), "mode": format!("{mode:?}"), "target": format!("{tk:?}"), "override": force, "input": format!("{h:?}"), "args": a, "result": out.brief()});
    ctx.sample(&format!("{cmd:?}-{tk:?}"), info);
    if let Err(e) = verdict(kit, cmd, mode, tk, force, h, &sc.t, &pre, &post, &out) {
      ctx.fail(&format!("{cmd:?}/{mode:?}/{tk:?}/{force}/{h:?}"), format!("{cmd:?} {mode:?} target={tk:?} override={force} input={h:?}: {e}"), info());
    }
  });
}

/// Input directory == output directory, with inputs whose names are the outputs of other inputs.
fn in_place(ctx: &Ctx, kit: &Kit) {
  // each element: files present in the directory
  let sets: [&[(&str, u64)]; 5] = [
    &[("A.NEF", A), ("A.dng", B)],
    &[("A.dng", A)],
    &[("A.NEF", A), ("A.CR2", B), ("A.dng", OLD)],
    &[("a.nef", A), ("a.DNG", B)],
    &[("A.NEF", A), ("A.tif", B), ("A_1.NEF", OLD)],
  ];
  let r = [2, sets.len(), 2, 2];
  ctx.par("in place", space(&r), |i| {
    let d = digits(i, &r);
    let cmd = [Cmd::Convert, Cmd::Process][d[0]];
    let set = sets[d[1]];
    let force = d[2] == 1;
    let s = Scratch::new();
    for (n, seed) in set {
      s.write(&format!("in/{n}"), &raw_bytes(*seed, Health::Good));
    }
    let dir = s.p("in");
    // output given directly or through a symbolic link
    let outdir = if d[3] == 1 {
      symlink(&dir, s.p("ln")).unwrap();
      s.p("ln")
    } else {
      dir.clone()
    };
    let pre = s.snap("");
    let cwd = s.p("");
    let mut a = args(cmd, force, dir.to_str().unwrap(), outdir.to_str().unwrap());
    if cmd == Cmd::Convert {
      a.insert(1, "-j".into());
      a.insert(2, "1".into());
    }
    let out = run_args(&cwd, &a).go();
    let post = s.snap("");
    ctx.case(fp(&("in-place", &d)), true);
    let info = || json!({"command": format!("{cmd:?}"), "files": set.iter().map(|x| x.0).collect::<Vec<_>>(), "override": force, "args": a, "result": out.brief()});
    ctx.sample("in-place", info);
    let (changed, new) = diff(&pre, &post);
    // with --override a .tif that is no input of the run may be replaced
    let bad: Vec<_> = changed.iter().filter(|c| !(force && cmd == Cmd::Process && c.starts_with("in/A.tif:"))).collect();
    let mut e = Result::Ok(());
    if !bad.is_empty() {
      e = Err(format!("input damaged: {bad:?}"));
    }
    for n in &new {
      if let Some(Ent::File(b, _)) = post.get(n) {
        if ![A, B, OLD].iter().any(|x| kit.complete(cmd, *x, b).is_ok()) {
          e = Err(format!("{n} is incomplete"));
        }
      } else {
        e = Err(format!("unexpected entry {n}"));
      }
    }
    if let Err(e) = e {
      ctx.fail(&format!("in-place/{}/{force}", d[1]), e, info());
    }
  });
}

/// Number of file-system operations of a run
fn nops(cmd: Cmd, mode: Mode, tk: Target, force: bool, h: Health) -> usize {
  let sc = scene(cmd, mode, tk, h).unwrap();
  let cwd = sc.s.p("");
  let lg = Scratch::new();
  let mut a = argv(cmd, force, &sc);
  seq_args(cmd, &mut a);
  run_args(&cwd, &a).shim(&cwd, &lg.p("log"), "").go();
  oplog(&lg.p("log")).len()
}
fn seq_args(cmd: Cmd, a: &mut Vec<String>) {
  if cmd == Cmd::Convert {
    a.insert(1, "-j".into());
    a.insert(2, "1".into());
  }
}

fn competitor(ctx: &Ctx, kit: &Kit) {
  let mut cases = vec![];
  let modes: &[Mode] = ctx.pick(&[Mode::FileFile][..], &[Mode::FileFile, Mode::FileDir, Mode::DirDir][..]);
  for cmd in CMDS {
    for &mode in modes {
      if cmd == Cmd::Makedng && mode != Mode::FileFile {
        continue;
      }
      for h in [Health::Good, Health::Late] {
        for (tk, force) in [(None, false), (None, true), (Regular, true)] {
          let n = nops(cmd, mode, tk, force, h);
          ctx.count("fs_operations", n as u64);
          for k in 0..n + 1 {
            cases.push((cmd, mode, tk, force, h, k));
          }
        }
      }
    }
  }
  ctx.par("competitor creates the target", cases.len(), |i| {
    let (cmd, mode, tk, force, h, k) = cases[i];
    let sc = scene(cmd, mode, tk, h).unwrap();
    let lg = Scratch::new();
    let cwd = sc.s.p("");
    let pre = sc.s.snap("");
    let mut a = argv(cmd, force, &sc);
    seq_args(cmd, &mut a);
    let tp = sc.s.p(&sc.t);
    let out = run_args(&cwd, &a).shim(&cwd, &lg.p("log"), &format!("{k}:create:{}", tp.display())).go();
    let post = sc.s.snap("");
    let created = std::fs::read_to_string(lg.p("log")).unwrap_or_default().contains("competitor created");
    ctx.case(fp(&("comp", i)), created);
    ctx.outcome(fp(&(created, out.code)));
    let info = || json!({"command": format!("{cmd:?}"), "mode": format!("{mode:?}"), "target": format!("{tk:?}"), "override": force, "input": format!("{h:?}"), "operation": k, "competitor_created": created, "result": out.brief()});
    ctx.sample(if created { "competitor-created" } else { "competitor-refused" }, info);
    let fail = |e: String| ctx.fail(&format!("competitor/{cmd:?}/{mode:?}/{force}/{h:?}"), format!("{cmd:?} override={force} input={h:?}, competitor creates the target before operation {k}: {e}"), info());
    if created {
      // the competitor's file plays the role of a pre-existing one
      let intact = post.get(&sc.t) == Some(&Ent::File(b"COMPETITOR".to_vec(), 0o644));
      let complete = matches!(post.get(&sc.t), Some(Ent::File(b, _)) if kit.complete(cmd, A, b).is_ok());
      let good = if force { (intact && !out.ok()) || (complete && out.ok()) || (!out.ok() && !post.contains_key(&sc.t)) } else { intact && !out.ok() };
      // a competitor that created the file after the failed run has cleaned up is simply there
      if !good {
        fail(format!("competitor's file {}, {}", if intact { "intact" } else if complete { "replaced by the complete result" } else { "destroyed" }, out.brief()));
      }
      let (changed, new) = diff(&pre, &post);
      if let Some(c) = changed.iter().find(|c| !c.starts_with(&sc.t)) {
        fail(format!("existing entry damaged: {c}"));
      }
      if let Some(n) = new.iter().find(|n| **n != sc.t && !(mode == Mode::DirDir && n.starts_with("out/B."))) {
        fail(format!("stray file {n}"));
      }
    } else if let Err(e) = verdict(kit, cmd, mode, tk, force, h, &sc.t, &pre, &post, &out) {
      fail(e);
    }
  });
}

/// Run A is suspended before each of its operations while run B executes completely.
fn two_runs(ctx: &Ctx, kit: &Kit) {
  let mut cases = vec![];
  let pairs: &[(Cmd, Cmd)] = ctx.pick(
    &[(Cmd::Convert, Cmd::Convert), (Cmd::Process, Cmd::Process), (Cmd::Extract, Cmd::Extract), (Cmd::Makedng, Cmd::Makedng)][..],
    &[(Cmd::Convert, Cmd::Convert), (Cmd::Process, Cmd::Process), (Cmd::Extract, Cmd::Extract), (Cmd::Makedng, Cmd::Makedng), (Cmd::Convert, Cmd::Makedng), (Cmd::Makedng, Cmd::Convert)][..],
  );
  for &(ca, cb) in pairs {
    for (tk, force) in [(None, false), (Regular, true), (None, true)] {
      for h in [Health::Good, Health::Late] {
        if h == Health::Late && force {
          continue; // excluded race
        }
        let n = nops(ca, Mode::FileFile, tk, force, h);
        for k in 0..n {
          cases.push((ca, cb, tk, force, h, k));
        }
      }
    }
  }
  ctx.par_threads("two overlapping runs", cases.len(), 8, |i| {
    let (ca, cb, tk, force, h, k) = cases[i];
    let sc = scene(ca, Mode::FileFile, tk, h).unwrap();
    let lg = Scratch::new();
    let cwd = sc.s.p("");
    sc.s.write(&format!("inb/A.{}", in_ext(cb)), &input_bytes(cb, B, Health::Good, "A"));
    let pre = sc.s.snap("");
    let gate = lg.p("gate");
    let mut a = args(ca, force, &sc.input, &sc.output);
    seq_args(ca, &mut a);
    let ra = run_args(&cwd, &a).shim(&cwd, &lg.p("log"), &format!("{k}:pause:{}", gate.display()));
    let mut child = ra.spawn();
    let start = Instant::now();
    let paused = lg.p("gate.paused");
    let mut ended = false;
    while !paused.exists() {
      if let Ok(Some(_)) = child.try_wait() {
        ended = true;
        break;
      }
      if start.elapsed() > Duration::from_secs(60) {
        break;
      }
      std::thread::sleep(Duration::from_millis(1));
    }
    let inb = sc.s.p(&format!("inb/A.{}", in_ext(cb)));
    let b = args(cb, force, inb.to_str().unwrap(), &sc.output);
    let ob = run_args(&cwd, &b).go();
    let mid = sc.s.snap("");
    std::fs::write(lg.p("gate.go"), b"").unwrap();
    let oa = finish(child, 60);
    let post = sc.s.snap("");
    ctx.case(fp(&("two", i)), !ended);
    ctx.outcome(fp(&(oa.code, ob.code)));
    let info = || json!({"A": a, "B": b, "override": force, "input_A": format!("{h:?}"), "A_suspended_before_operation": k, "result_A": oa.brief(), "result_B": ob.brief()});
    ctx.sample(&format!("two-{:?}-{:?}", oa.ok(), ob.ok()), info);
    let fail = |e: String| ctx.fail(&format!("two-runs/{ca:?}/{cb:?}/{force}/{h:?}"), format!("{ca:?} (override={force}, input {h:?}) suspended before operation {k} while {cb:?} runs: {e}"), info());
    let of = |s: u64, c: Cmd| matches!(post.get(&sc.t), Some(Ent::File(x, _)) if kit.complete(c, s, x).is_ok());
    let (changed, new) = diff(&pre, &post);
    if let Some(c) = changed.iter().find(|c| !c.starts_with(&sc.t)) {
      fail(format!("existing entry damaged: {c}"));
    }
    if let Some(n) = new.iter().find(|n| **n != sc.t) {
      fail(format!("stray file {n}"));
    }
    if !force {
      let b_done = ob.ok() && matches!(mid.get(&sc.t), Some(Ent::File(x, _)) if kit.complete(cb, B, x).is_ok());
      if ob.ok() && !b_done {
        fail("second run reported success without a complete result".into());
      }
      let want = match (oa.ok(), ob.ok()) {
        (true, true) => Err("both runs claim to have created the file"),
        (true, false) => if of(A, ca) { Ok(()) } else { Err("first run succeeded but its result is not there") },
        (false, true) => if of(B, cb) { Ok(()) } else { Err("second run succeeded but its result is not there any more") },
        (false, false) => if h == Health::Good { Err("both runs failed") } else if post.contains_key(&sc.t) { Err("a file is left although both runs failed") } else { Ok(()) },
      };
      if let Err(e) = want {
        fail(e.into());
      }
    } else if oa.ok() || ob.ok() {
      if !(of(A, ca) || of(B, cb)) {
        fail("a run reported success but the target is not a complete result of either".into());
      }
    }
  });
}
