//! Running the real dnglab binary in a scratch directory, with optional control of its file-system operations.
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

static SEQ: AtomicU64 = AtomicU64::new(0);

/// names in the tests may hold `\xHH` for a byte that is not valid UTF-8
pub fn os(s: &str) -> OsString {
  let b = s.as_bytes();
  let mut v = vec![];
  let mut i = 0;
  while i < b.len() {
    let byte = if b[i..].starts_with(b"\\x") && s.is_char_boundary(i + 4) { s.get(i + 2..i + 4).and_then(|h| u8::from_str_radix(h, 16).ok()).filter(|x| *x >= 0x80) } else { None };
    match byte {
      Some(x) => {
        v.push(x);
        i += 4;
      }
      None => {
        v.push(b[i]);
        i += 1;
      }
    }
  }
  OsString::from_vec(v)
}
fn show(n: &std::ffi::OsStr) -> String {
  n.as_bytes().utf8_chunks().map(|c| c.valid().to_string() + &c.invalid().iter().map(|b| format!("\\x{b:02x}")).collect::<String>()).collect()
}

pub struct Scratch {
  pub dir: PathBuf,
}
impl Scratch {
  pub fn new() -> Scratch {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let dir = PathBuf::from(format!("{base}/mc-{}-{}", std::process::id(), SEQ.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&dir).expect("scratch");
    Scratch { dir }
  }
  pub fn p(&self, rel: &str) -> PathBuf {
    if rel.is_empty() { self.dir.clone() } else { self.dir.join(os(rel)) }
  }
  pub fn write(&self, rel: &str, data: &[u8]) -> PathBuf {
    let p = self.p(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, data).expect("write fixture");
    p
  }
  pub fn mkdir(&self, rel: &str) -> PathBuf {
    let p = self.p(rel);
    std::fs::create_dir_all(&p).unwrap();
    p
  }
  pub fn snap(&self, rel: &str) -> Snap {
    let mut m = BTreeMap::new();
    walk(&self.p(rel), String::new(), &mut m);
    m
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.dir);
  }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ent {
  File(Vec<u8>, u32),
  Dir,
  Link(PathBuf),
  Other,
}
pub type Snap = BTreeMap<String, Ent>;
fn walk(p: &Path, rel: String, m: &mut Snap) {
  let Ok(rd) = std::fs::read_dir(p) else { return };
  for e in rd.flatten() {
    let name = show(&e.file_name());
    let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
    let Ok(md) = std::fs::symlink_metadata(e.path()) else { continue };
    if md.file_type().is_symlink() {
      m.insert(r, Ent::Link(std::fs::read_link(e.path()).unwrap_or_default()));
    } else if md.is_dir() {
      m.insert(r.clone(), Ent::Dir);
      walk(&e.path(), r, m);
    } else if md.is_file() {
      m.insert(r, Ent::File(std::fs::read(e.path()).unwrap_or_default(), md.permissions().mode() & 0o7777));
    } else {
      m.insert(r, Ent::Other);
    }
    let _ = md.ino();
  }
}
/// Human readable difference of two snapshots: (changed or removed paths, new paths)
pub fn diff(a: &Snap, b: &Snap) -> (Vec<String>, Vec<String>) {
  let mut ch = vec![];
  let mut new = vec![];
  for (k, v) in a {
    match b.get(k) {
      None => ch.push(format!("{k} was removed")),
      Some(w) if w != v => ch.push(match (v, w) {
        (Ent::File(x, _), Ent::File(y, _)) if x != y => format!("{k}: content changed ({} -> {} bytes)", x.len(), y.len()),
        _ => format!("{k}: changed type, link target or mode"),
      }),
      _ => {}
    }
  }
  for k in b.keys() {
    if !a.contains_key(k) {
      new.push(k.clone());
    }
  }
  (ch, new)
}

#[derive(Clone, Debug)]
pub struct Out {
  pub code: Option<i32>,
  pub signal: Option<i32>,
  pub stdout: Vec<u8>,
  pub stderr: String,
  pub timed_out: bool,
}
impl Out {
  pub fn ok(&self) -> bool {
    self.code == Some(0)
  }
  pub fn brief(&self) -> String {
    let e: String = self.stderr.chars().take(300).collect();
    format!("exit {:?} signal {:?}{} {}", self.code, self.signal, if self.timed_out { " TIMEOUT" } else { "" }, e)
  }
}

pub fn root() -> PathBuf {
  PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn dnglab_bin() -> PathBuf {
  root().join("target/release/dnglab")
}

pub struct Run<'a> {
  pub args: Vec<String>,
  pub cwd: &'a Path,
  pub env: Vec<(String, String)>,
}
impl<'a> Run<'a> {
  pub fn new(cwd: &'a Path, args: &[&str]) -> Run<'a> {
    Run { args: args.iter().map(|s| s.to_string()).collect(), cwd, env: vec![] }
  }
  pub fn env(mut self, k: &str, v: &str) -> Self {
    self.env.push((k.into(), v.into()));
    self
  }
  /// control the file-system operations below `dir`; log goes to `log`
  pub fn shim(self, dir: &Path, log: &Path, plan: &str) -> Self {
    let so = root().join("target/shim.so");
    self.env("LD_PRELOAD", so.to_str().unwrap()).env("SHIM_DIR", dir.to_str().unwrap()).env("SHIM_LOG", log.to_str().unwrap()).env("SHIM_PLAN", plan)
  }
  pub fn spawn(&self) -> Child {
    let mut c = Command::new(dnglab_bin());
    c.args(self.args.iter().map(|a| os(a))).current_dir(self.cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env("RAYON_NUM_THREADS", "2").env("TOKIO_WORKER_THREADS", "2").env_remove("RUST_BACKTRACE");
    for (k, v) in &self.env {
      c.env(k, v);
    }
    c.spawn().expect("cannot start dnglab")
  }
  pub fn go(&self) -> Out {
    finish(self.spawn(), 60)
  }
}
pub fn finish(mut ch: Child, secs: u64) -> Out {
  use std::io::Read;
  let mut so = ch.stdout.take().unwrap();
  let mut se = ch.stderr.take().unwrap();
  let t1 = std::thread::spawn(move || {
    let mut v = vec![];
    let _ = so.read_to_end(&mut v);
    v
  });
  let t2 = std::thread::spawn(move || {
    let mut v = vec![];
    let _ = se.read_to_end(&mut v);
    String::from_utf8_lossy(&v).to_string()
  });
  let start = Instant::now();
  let mut timed_out = false;
  let mut wait = 1;
  let st = loop {
    match ch.try_wait().expect("wait") {
      Some(s) => break s,
      None if start.elapsed() > Duration::from_secs(secs) => {
        timed_out = true;
        let _ = ch.kill();
        break ch.wait().unwrap();
      }
      None => {
        std::thread::sleep(Duration::from_millis(wait));
        wait = (wait + 1).min(5);
      }
    }
  };
  Out { code: st.code(), signal: st.signal(), stdout: t1.join().unwrap_or_default(), stderr: t2.join().unwrap_or_default(), timed_out }
}

/// One logged operation: (number, name, kind 0 read / 1 mutate / 2 write, path)
pub fn oplog(p: &Path) -> Vec<(usize, String, u8, String)> {
  let t = std::fs::read_to_string(p).unwrap_or_default();
  let mut v: Vec<_> = t
    .lines()
    .filter_map(|l| {
      let mut it = l.splitn(4, ' ');
      let n = it.next()?.parse().ok()?;
      let name = it.next()?.to_string();
      let k = it.next()?.parse().ok()?;
      Some((n, name, k, it.next().unwrap_or("").to_string()))
    })
    .collect();
  v.sort();
  v
}
