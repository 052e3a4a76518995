//! C13: success means a complete output; failure, fault or crash never leaves a damaged file behind unnoticed.
use super::clikit::*;
use super::dngcmp::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use rawler::decoders::RawDecodeParams;
use rawler::dng::convert::{ConvertParams, convert_raw_source};
use rawler::dng::{CropMode, DngCompression};
use rawler::imgop::develop::RawDevelop;
use rawler::rawsource::RawSource;
use serde_json::json;
use std::io::{Cursor, Seek, SeekFrom, Write};

pub fn level() -> Level {
  Level {
    level: "fault_enumeration",
    rule: "A case is one run of the real binary (or of the library's conversion/development against a fault-injecting stream) with one fault at one numbered operation. Operations are counted in a fault-free run and every one is faulted with every applicable fault. Non-trivial: the fault was actually delivered.",
    bounds: "convert (plain, with preview and thumbnail, keep-mtime), process-raw, extract, makedng x {new target, override of an existing target, two-file directory run} x every file-system operation x {ENOSPC, EIO, EACCES, permanent ENOSPC, 1-byte short write, SIGKILL} (thorough: also EINTR-free quota and interrupted combinations: EDQUOT, EROFS, EMFILE); library level: every write, seek and flush call of convert_raw_source and develop x {error, short writes of 1 and 7 bytes, Interrupted}",
    assumptions: &["faults are delivered at libc call level; power-loss reordering of already completed writes is not modelled (the program never calls fsync)", "after SIGKILL an incomplete output may exist, the user reruns with --override"],
  }
}

const A: u64 = 100;
const B: u64 = 102;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Variant {
  New,
  Replace,
  Batch,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Job {
  Convert,
  ConvertPreview,
  ConvertMtime,
  Process,
  ProcessMtime,
  Extract,
  Makedng,
}
const JOBS: [Job; 7] = [Job::Convert, Job::ConvertPreview, Job::ConvertMtime, Job::Process, Job::ProcessMtime, Job::Extract, Job::Makedng];
fn cmd_of(j: Job) -> Cmd {
  match j {
    Job::Convert | Job::ConvertPreview | Job::ConvertMtime => Cmd::Convert,
    Job::Process | Job::ProcessMtime => Cmd::Process,
    Job::Extract => Cmd::Extract,
    Job::Makedng => Cmd::Makedng,
  }
}

struct Scene {
  s: Scratch,
  args: Vec<String>,
  forced: Vec<String>,
  outs: Vec<(String, u64)>,
}
fn scene(j: Job, v: Variant) -> Scene {
  let s = Scratch::new();
  let cmd = cmd_of(j);
  let (ie, oe) = (in_ext(cmd), out_ext(cmd));
  s.write(&format!("in/A.{ie}"), &input_bytes(cmd, A, Health::Good, "A"));
  s.mkdir("out");
  s.write("out/keep.bin", b"bystander");
  let mut outs = vec![(format!("out/A.{oe}"), A)];
  let (i, o);
  if v == Variant::Batch {
    s.write(&format!("in/B.{ie}"), &input_bytes(cmd, B, Health::Good, "B"));
    outs.push((format!("out/B.{oe}"), B));
    i = s.p("in");
    o = s.p("out");
  } else {
    i = s.p(&format!("in/A.{ie}"));
    o = s.p(&outs[0].0);
  }
  if v == Variant::Replace {
    s.write(&outs[0].0, b"previous result");
  }
  let mk = |force| {
    let mut a = args(cmd, force, i.to_str().unwrap(), o.to_str().unwrap());
    match j {
      Job::ConvertPreview => a.retain(|x| x != "false" && !x.starts_with("--dng-")),
      Job::ConvertMtime | Job::ProcessMtime => {
        a.insert(1, "--keep-mtime".into());
        a.insert(2, "true".into());
      }
      _ => {}
    }
    if cmd == Cmd::Convert {
      a.insert(1, "-j".into());
      a.insert(2, "1".into());
    }
    a
  };
  let (args, forced) = (mk(v == Variant::Replace), mk(true));
  Scene { s, args, forced, outs }
}
fn go(sc: &Scene, a: &[String], shim: Option<(&std::path::Path, &str)>) -> Out {
  let cwd = sc.s.p("");
  let r = Run::new(&cwd, &a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
  match shim {
    Some((log, plan)) => r.shim(&cwd, log, plan).go(),
    None => r.go(),
  }
}

pub fn run(ctx: &Ctx) {
  let kit = Kit::new(&[A, B]);
  processes(ctx, &kit);
  streams(ctx);
}

fn processes(ctx: &Ctx, kit: &Kit) {
  let mut cases = vec![];
  for j in JOBS {
    for v in [Variant::New, Variant::Replace, Variant::Batch] {
      if j == Job::Makedng && v == Variant::Batch {
        continue;
      }
      let sc = scene(j, v);
      let lg = Scratch::new();
      let out = go(&sc, &sc.args, Some((&lg.p("log"), "")));
      let ops = oplog(&lg.p("log"));
      if !out.ok() || ops.is_empty() {
        ctx.fail(&format!("baseline/{j:?}/{v:?}"), format!("fault-free run failed or is not observable: {} ({} operations)", out.brief(), ops.len()), json!({"args": sc.args}));
        continue;
      }
      ctx.count(&format!("operations {j:?} {v:?}"), ops.len() as u64);
      for (n, name, kind, _) in &ops {
        cases.push((j, v, *n, name.clone(), "kill".to_string()));
        if *kind >= 1 {
          let errs: &[i32] = ctx.pick(&[28, 5, 13][..], &[28, 5, 13, 122, 30, 24][..]);
          for e in errs {
            cases.push((j, v, *n, name.clone(), format!("fail:{e}")));
          }
        }
        if *kind == 2 {
          cases.push((j, v, *n, name.clone(), "failall:28".into()));
          cases.push((j, v, *n, name.clone(), "short".into()));
        }
      }
    }
  }
  ctx.par("faults in the binary", cases.len(), |i| {
    let (j, v, n, name, fault) = &cases[i];
    let cmd = cmd_of(*j);
    let sc = scene(*j, *v);
    let lg = Scratch::new();
    let pre = sc.s.snap("");
    let out = go(&sc, &sc.args, Some((&lg.p("log"), &format!("{n}:{fault}"))));
    let post = sc.s.snap("");
    let delivered = oplog(&lg.p("log")).iter().any(|o| o.0 >= *n);
    ctx.case(fp(&(j, v, n, fault)), delivered);
    ctx.outcome(fp(&(out.code, out.signal, post.keys().cloned().collect::<Vec<_>>())));
    let info = || json!({"job": format!("{j:?}"), "variant": format!("{v:?}"), "operation": n, "call": name, "fault": fault, "args": sc.args, "result": out.brief()});
    ctx.sample(fault, info);
    let fail = |e: String| ctx.fail(&format!("{j:?}/{v:?}/{name}/{fault}"), format!("{j:?} {v:?}, {fault} at operation {n} ({name}): {e}"), info());
    if out.timed_out {
      return fail("run does not end".into());
    }
    let (changed, new) = diff(&pre, &post);
    let allowed = |p: &str| sc.outs.iter().any(|o| p == o.0);
    if let Some(c) = changed.iter().find(|c| !(*v == Variant::Replace && allowed(c.split([':', ' ']).next().unwrap()))) {
      return fail(format!("existing entry damaged: {c}"));
    }
    if let Some(x) = new.iter().find(|x| !allowed(x)) {
      return fail(format!("stray entry {x}"));
    }
    let state = |o: &(String, u64), snap: &Snap| -> Result<bool, String> {
      match snap.get(&o.0) {
        Option::None => Ok(false),
        Some(Ent::File(b, _)) if *v == Variant::Replace && b == b"previous result" => Ok(false),
        Some(Ent::File(b, _)) => kit.complete(cmd, o.1, b).map(|_| true),
        _ => Err("not a regular file".into()),
      }
    };
    if fault == "kill" && out.signal.is_some() {
      // crash: rerun without override must not pretend success over a torn file, rerun with override must recover
      let again = go(&sc, &sc.args, None);
      let snap = sc.s.snap("");
      if again.ok() {
        for o in &sc.outs {
          match state(o, &snap) {
            Ok(true) => {}
            Ok(false) => return fail(format!("rerun after the crash succeeded but {} is missing", o.0)),
            Err(e) => return fail(format!("rerun after the crash succeeded but {}: {e}", o.0)),
          }
        }
      }
      let rec = go(&sc, &sc.forced, None);
      let snap = sc.s.snap("");
      if !rec.ok() {
        return fail(format!("rerun with --override after the crash failed: {}", rec.brief()));
      }
      for o in &sc.outs {
        if state(o, &snap) != Ok(true) {
          return fail(format!("rerun with --override after the crash did not restore {}: {:?}", o.0, state(o, &snap)));
        }
      }
      let (ch, nw) = diff(&pre, &snap);
      if let Some(c) = ch.iter().find(|c| !allowed(c.split([':', ' ']).next().unwrap())) {
        return fail(format!("after recovery an entry is damaged: {c}"));
      }
      if let Some(x) = nw.iter().find(|x| !allowed(x)) {
        return fail(format!("after recovery a stray entry remains: {x}"));
      }
      return;
    }
    if out.signal.is_some() {
      return fail("killed by a signal".into());
    }
    let mut complete = 0;
    for o in &sc.outs {
      match state(o, &post) {
        Ok(true) => complete += 1,
        Ok(false) => {}
        Err(e) => return fail(format!("{} is left incomplete: {e}; {}", o.0, out.brief())),
      }
    }
    if out.ok() && complete != sc.outs.len() {
      return fail("exit 0 but an output is missing".into());
    }
    if !out.ok() && complete == sc.outs.len() && *v != Variant::Batch && matches!(fault.as_str(), "short") {
      return fail(format!("harmless short write turned into a failure: {}", out.brief()));
    }
    // a single transient fault may cost at most one of two independent outputs
    if *v == Variant::Batch && !fault.starts_with("failall") && complete == 0 && matches!(name.as_str(), "write" | "writev" | "create" | "flock" | "futimens") {
      return fail(format!("a fault in one file took the other one down: {}", out.brief()));
    }
  });
}

/// Stream that fails, shortens or interrupts its k-th operation.
struct Faulty {
  c: Cursor<Vec<u8>>,
  n: usize,
  fail_at: usize,
  max: usize,
  interrupt_every: usize,
  delivered: bool,
  writes: usize,
}
impl Faulty {
  fn new(fail_at: usize, max: usize, interrupt_every: usize) -> Faulty {
    Faulty { c: Cursor::new(vec![]), n: 0, fail_at, max, interrupt_every, delivered: false, writes: 0 }
  }
  fn step(&mut self) -> std::io::Result<()> {
    let n = self.n;
    self.n += 1;
    if n == self.fail_at {
      self.delivered = true;
      return Err(std::io::Error::other("injected"));
    }
    Ok(())
  }
}
impl Write for Faulty {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.step()?;
    self.writes += 1;
    if self.interrupt_every > 0 && self.writes % self.interrupt_every == 0 {
      return Err(std::io::ErrorKind::Interrupted.into());
    }
    let k = b.len().min(self.max);
    self.c.write(&b[..k])
  }
  fn flush(&mut self) -> std::io::Result<()> {
    self.step()
  }
}
impl Seek for Faulty {
  fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
    self.step()?;
    self.c.seek(p)
  }
}

/// ModifyDate (tag 306) is the time of conversion: blank it.
pub fn mask_date(b: &[u8]) -> Vec<u8> {
  let mut v = b.to_vec();
  if let Ok(mut t) = crate::refs::tiff::Tiff::open(b) {
    if let Some(d) = t.chain().ok().and_then(|c| c.first().cloned()).and_then(|d| d.get(306).and_then(|x| x.s())) {
      if let Some(p) = b.windows(d.len()).position(|w| w == d.as_bytes()) {
        v[p..p + d.len()].fill(b'X');
      }
    }
  }
  v
}

fn streams(ctx: &Ctx) {
  let confs: Vec<(String, ConvertParams)> = {
    let mut v = vec![];
    for comp in [DngCompression::Lossless, DngCompression::Uncompressed] {
      for embedded in [false, true] {
        for pics in [false, true] {
          let mut p = params(CropMode::Best, comp, 1);
          p.embedded = embedded;
          p.preview = pics;
          p.thumbnail = pics;
          v.push((format!("convert comp={comp:?} embedded={embedded} pictures={pics}"), p));
        }
      }
    }
    v
  };
  let raw = raw_bytes(A, Health::Good);
  let work = |conf: usize, w: &mut Faulty| -> Result<(), String> {
    let src = RawSource::new_from_slice(&raw);
    if conf < confs.len() {
      convert_raw_source(&src, w, "in.NEF", &confs[conf].1).map(|_| ()).map_err(|e| e.to_string())
    } else {
      let dec = rawler::get_decoder(&src).map_err(|e| e.to_string())?;
      let p = RawDecodeParams::default();
      let img = dec.raw_image(&src, &p, false).map_err(|e| e.to_string())?;
      let md = dec.raw_metadata(&src, &p).map_err(|e| e.to_string())?;
      RawDevelop::default().develop(&img, &md, w).map_err(|e| e.to_string())
    }
  };
  let name = |c: usize| if c < confs.len() { confs[c].0.clone() } else { "develop".into() };
  let mut cases = vec![];
  let mut base = vec![];
  for c in 0..=confs.len() {
    let mut w = Faulty::new(usize::MAX, usize::MAX, 0);
    if let Err(e) = work(c, &mut w) {
      ctx.fail("stream-baseline", format!("{}: {e}", name(c)), json!({}));
      return;
    }
    ctx.count(&format!("stream operations {}", name(c)), w.n as u64);
    for k in 0..w.n {
      cases.push((c, 0, k));
    }
    cases.push((c, 1, 1));
    cases.push((c, 1, 7));
    cases.push((c, 2, 2));
    cases.push((c, 2, 3));
    base.push(w.c.into_inner());
  }
  ctx.par("stream faults", cases.len(), |i| {
    let (c, kind, k) = cases[i];
    let mut w = match kind {
      0 => Faulty::new(k, usize::MAX, 0),
      1 => Faulty::new(usize::MAX, k, 0),
      _ => Faulty::new(usize::MAX, usize::MAX, k),
    };
    let r = ctx.guard(|| work(c, &mut w));
    ctx.case(fp(&("stream", cases[i])), kind > 0 || w.delivered);
    let info = || json!({"operation": name(c), "fault": (["error at call", "short writes of", "Interrupted every"])[kind], "k": k, "result": format!("{r:?}").chars().take(120).collect::<String>()});
    ctx.sample(&format!("stream-{kind}"), info);
    ctx.outcome(fp(&(c, kind, format!("{r:?}"))));
    let fail = |e: &str| ctx.fail(&format!("stream/{}/{kind}", name(c)), format!("{}: {e} (k={k})", name(c)), info());
    match (&r, kind) {
      (Err(p), _) => fail(&format!("panicked: {p}")),
      (Ok(Ok(())), 0) if w.delivered => fail("an I/O error of the output stream was swallowed"),
      (Ok(Err(e)), 1 | 2) => fail(&format!("failed on a legal short or interrupted write: {e}")),
      (Ok(Ok(())), 1 | 2) => {
        if mask_date(w.c.get_ref()) != mask_date(&base[c]) {
          fail("short or interrupted writes change the output");
        }
      }
      _ => {}
    }
  });
}
