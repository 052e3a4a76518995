//! Reference model of an FTP session over a small file tree with symbolic links.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum N {
  Dir,
  File(Vec<u8>),
  /// target relative to the directory of the link
  Link(String),
}
/// Tree relative to the scratch base; the served directory is "srv/root".
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Fs(pub BTreeMap<String, N>);
pub const ROOT: &str = "srv/root";

fn join(a: &str, b: &str) -> String {
  if a.is_empty() { b.to_string() } else { format!("{a}/{b}") }
}
fn parent(p: &str) -> String {
  p.rfind('/').map(|k| p[..k].to_string()).unwrap_or_default()
}
impl Fs {
  /// canonical place of `path` seen from the directory `dir`; None if something on the way does not exist
  pub fn resolve(&self, dir: &str, path: &str, depth: usize) -> Option<String> {
    if depth > 8 {
      return None;
    }
    let mut cur = dir.to_string();
    for c in path.split('/') {
      match c {
        "" | "." => {
          if !self.is_dir(&cur) {
            return None;
          }
        }
        ".." => {
          if !self.is_dir(&cur) {
            return None;
          }
          cur = parent(&cur);
        }
        c => {
          if !self.is_dir(&cur) {
            return None;
          }
          let p = join(&cur, c);
          match self.0.get(&p)? {
            N::Link(t) => cur = self.resolve(&cur, t, depth + 1)?,
            _ => cur = p,
          }
        }
      }
    }
    Some(cur)
  }
  pub fn is_dir(&self, p: &str) -> bool {
    p.is_empty() || matches!(self.0.get(p), Some(N::Dir))
  }
  pub fn inside(p: &str) -> bool {
    p == ROOT || p.starts_with(&format!("{ROOT}/"))
  }
  fn children(&self, d: &str) -> Vec<(String, &N)> {
    self.0.iter().filter(|(k, _)| parent(k) == d && !k.is_empty()).map(|(k, v)| (k[d.len() + 1..].to_string(), v)).collect()
  }
  fn remove(&mut self, p: &str) {
    self.0.retain(|k, _| k != p && !k.starts_with(&format!("{p}/")));
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Data {
  Bytes(Vec<u8>),
  /// (directory, size or 0 for directories, name)
  List(BTreeSet<(bool, usize, String)>),
  Names(BTreeSet<String>),
  /// only names from this set may appear
  Subset(BTreeSet<String>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Expect {
  pub ok: bool,
  pub data: Option<Data>,
}
fn no() -> Expect {
  Expect { ok: false, data: None }
}
fn yes() -> Expect {
  Expect { ok: true, data: None }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Model {
  pub fs: Fs,
  /// directory inside the root, starting with a slash
  pub cwd: String,
}
impl Model {
  /// place named by a client path: absolute paths start at the root
  fn full(&self, arg: &str) -> String {
    if arg.starts_with('/') { arg.trim_start_matches('/').to_string() } else { join(self.cwd.trim_start_matches('/'), arg) }
  }
  fn canon(&self, arg: &str) -> Option<String> {
    let p = self.fs.resolve(ROOT, &self.full(arg), 0)?;
    Fs::inside(&p).then_some(p)
  }
  fn entry(&self, p: &str, name: &str) -> Option<(bool, usize, String)> {
    match self.fs.0.get(p)? {
      N::Dir => Some((true, 0, format!("{name}/"))),
      N::File(c) => Some((false, c.len(), name.to_string())),
      N::Link(_) => None,
    }
  }
  /// visible entries of a directory inside the root (links are followed, links leading outside are hidden)
  fn listing(&self, d: &str) -> BTreeSet<(bool, usize, String)> {
    self
      .fs
      .children(d)
      .into_iter()
      .filter_map(|(name, _)| {
        let t = self.fs.resolve(d, &name, 0)?;
        if !Fs::inside(&t) {
          return None;
        }
        self.entry(&t, &name)
      })
      .collect()
  }
  pub fn step(&mut self, verb: &str, arg: &str, payload: &[u8]) -> Expect {
    match verb {
      "PWD" => yes(),
      "CDUP" => {
        self.cwd = parent(&self.cwd);
        if self.cwd.is_empty() {
          self.cwd = "/".into();
        }
        yes()
      }
      "CWD" => match self.canon(arg) {
        Some(p) if self.fs.is_dir(&p) => {
          self.cwd = format!("/{}", p[ROOT.len()..].trim_start_matches('/'));
          yes()
        }
        _ => no(),
      },
      "MKD" => {
        let full = self.full(arg);
        let full = full.trim_end_matches('/');
        let (par, name) = (parent(full), full.rsplit('/').next().unwrap_or(""));
        if name.is_empty() || name == "." || name == ".." {
          return no();
        }
        let Some(p) = self.fs.resolve(ROOT, &par, 0) else { return no() };
        let new = join(&p, name);
        if !Fs::inside(&p) || !self.fs.is_dir(&p) || self.fs.0.contains_key(&new) {
          return no();
        }
        self.fs.0.insert(new, N::Dir);
        yes()
      }
      "RMD" => match self.canon(arg) {
        Some(p) if p != ROOT && self.fs.is_dir(&p) => {
          self.fs.remove(&p);
          yes()
        }
        _ => no(),
      },
      "DELE" => match self.canon(arg) {
        Some(p) if matches!(self.fs.0.get(&p), Some(N::File(_))) => {
          self.fs.remove(&p);
          yes()
        }
        _ => no(),
      },
      "RETR" => match self.canon(arg).and_then(|p| self.fs.0.get(&p).cloned()) {
        Some(N::File(c)) => Expect { ok: true, data: Some(Data::Bytes(c)) },
        _ => no(),
      },
      "LIST" => match self.canon(arg) {
        Some(p) if self.fs.is_dir(&p) => Expect { ok: true, data: Some(Data::List(self.listing(&p))) },
        Some(p) => Expect { ok: true, data: Some(Data::List(self.entry(&p, p.rsplit('/').next().unwrap()).into_iter().collect())) },
        None => no(),
      },
      "NLST" => {
        let Some(here) = self.canon("") else { return no() };
        if arg.starts_with('/') {
          return no();
        }
        if arg.is_empty() || arg == "*" {
          return Expect { ok: true, data: Some(Data::Names(self.listing(&here).into_iter().map(|e| e.2).collect())) };
        }
        // other patterns: whatever appears must be an entry inside the root
        let all: BTreeSet<String> =
          std::iter::once(ROOT.to_string()).chain(self.fs.0.keys().filter(|k| Fs::inside(k)).cloned()).filter(|d| self.fs.is_dir(d)).flat_map(|d| self.listing(&d)).map(|e| e.2).chain(["root/".into(), "alias/".into(), "..".into(), "../".into(), "./".into()]).collect();
        Expect { ok: true, data: Some(Data::Subset(all)) }
      }
      "STOR" => {
        let full = self.full(arg);
        if full.split('/').any(|c| c == "..") || arg.ends_with('/') || full.is_empty() {
          return no();
        }
        let (par, name) = (parent(&full), full.rsplit('/').next().unwrap().to_string());
        let Some(p) = self.fs.resolve(ROOT, &par, 0) else { return no() };
        if !Fs::inside(&p) || !self.fs.is_dir(&p) || name == "." {
          return no();
        }
        // an existing link is followed
        let place = join(&p, &name);
        let target = match self.fs.0.get(&place) {
          Some(N::Link(_)) => match self.fs.resolve(&p, &name, 0) {
            Some(t) if Fs::inside(&t) => t,
            _ => return no(),
          },
          _ => place,
        };
        if self.fs.is_dir(&target) {
          return no();
        }
        self.fs.0.insert(target, N::File(payload.to_vec()));
        yes()
      }
      v => panic!("model: {v}"),
    }
  }
}
