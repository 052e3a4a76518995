//! C21: FTP commands act on the served tree exactly as on a model file system and never reach outside.
use super::c20::with_server;
use super::ftpkit::*;
use crate::Level;
use crate::ctx::*;
use crate::refs::ftp::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::*;

pub fn level() -> Level {
  Level {
    level: "model_checking",
    rule: "States of the model (tree, working directory) are explored breadth first; for every reached state and every command the shortest path to the state and the command are replayed on the real server, each reply class, transferred data, the final working directory and the complete scratch tree inside and outside the served directory are compared with the model. Non-trivial: the path or the command changes the state or transfers data.",
    bounds: "108 commands (CWD, CDUP, MKD, RMD, DELE, RETR, STOR, LIST, NLST with relative, absolute, parent, link, dangling, bracket and missing arguments) in every state within 2 (thorough 4) state-changing commands of a tree with files, directories and links leading inside, outside and nowhere; served directory given as absolute, relative or link path",
    assumptions: &["the server runs as an unprivileged user in a scratch directory", "NLST with a pattern other than * may list any entries of the served tree", "RMD and DELE of a link act on its target"],
  }
}
pub fn commands() -> Vec<(&'static str, String)> {
  let mut v: Vec<(&'static str, String)> = vec![("CDUP", String::new()), ("PWD", String::new())];
  let mut add = |verb: &'static str, args: &[&str]| v.extend(args.iter().map(|a| (verb, a.to_string())));
  add("CWD", &["d", "..", "/", "/d/e", "out", "in", "a", "nope", "q\"t", "d/../..", "../roots", "//d", ".", "[y]", "dang", "in/../d", "d/up", "../root/d"]);
  add("MKD", &["n", "d/n", "../n", "out/n", "nope/n", "/n", "a/n", "in/m", "d", "dang", "d/up/n", "..", "q\"t"]);
  add("RMD", &["n", "d", "..", "/", "out", ".", "nope", "a", "in", "../roots", "d/up/sub", "[y]", "../root", "d/e"]);
  add("DELE", &["a", "d/f", "/a", "outf", "../roots/secret", "d", "out/secret", "nope", "in/f", "d/up/secret", "n"]);
  add("RETR", &["a", "d/f", "outf", "out/secret", "../roots/secret", "in/f", "d", "nope", "/a", "[y]/g h", "d/up/secret", "../a", "n"]);
  add("STOR", &["n", "d/g", "../o", "out/o", "outf", "/a", "nope/x", "d/../../o", "in/h", "d", "dang", "d/up/o", "[y]/ü x", "d/../a"]);
  add("LIST", &["", "d", "out", "a", "/", "nope", "..", "../roots", "in", "outf", "[y]", "d/up"]);
  add("NLST", &["", "*", "../*", "out/*", "/", "d/*", "../roots/*", "d/up/*", "[y]", "**", "../../*"]);
  v
}
const PAY: &[u8] = b"new\r\ncontent\0\xff";
fn replay(srv: &mut Server, path: &[(&'static str, String)], trees: &[Model]) -> Result<(), (String, String)> {
  let mut c = Conn::open(srv.addr).map_err(|m| ("connect".to_string(), m))?;
  c.login("bob", "secret").map_err(|m| ("login".to_string(), m))?;
  let mut m = trees[0].clone();
  for (k, (verb, arg)) in path.iter().enumerate() {
    let want = m.step(verb, arg, PAY);
    let r = run_step(&mut c, Mode::Pasv, verb, arg, PAY, &want);
    let fs = get_fs(&srv.base.dir);
    let last = k + 1 == path.len();
    if fs != m.fs {
      let what = diff(&m.fs, &fs);
      let escaped = fs.0.iter().any(|(p, n)| !Fs::inside(p) && m.fs.0.get(p) != Some(n)) || m.fs.0.keys().any(|p| (!Fs::inside(p) || p == ROOT) && !fs.0.contains_key(p));
      return Err((if escaped { format!("escape {verb}") } else { format!("tree {verb}") }, format!("{verb} {arg}: {what}")));
    }
    if let Err(e) = r {
      return Err((format!("reply {verb}"), format!("{verb} {arg}: {e}")));
    }
    if last {
      let r = c.cmd("PWD").map_err(|m| ("pwd".to_string(), m))?;
      if final_reply(&r, false) != Ok(257) || !r[0].lines[0].contains(&format!("\"{}\"", m.cwd.replace('"', "\"\""))) {
        return Err((format!("cwd {verb}"), format!("{verb} {arg}: PWD answers {:?} instead of {:?}", r.iter().map(|r| &r.lines).collect::<Vec<_>>(), m.cwd)));
      }
    }
  }
  Ok(())
}
fn diff(want: &Fs, got: &Fs) -> String {
  let mut out = vec![];
  for (p, n) in &got.0 {
    match want.0.get(p) {
      None => out.push(format!("{p} created ({n:?})")),
      Some(w) if w != n => out.push(format!("{p} is {n:?} instead of {w:?}")),
      _ => {}
    }
  }
  for (p, n) in &want.0 {
    if !got.0.contains_key(p) {
      out.push(format!("{p} missing ({n:?})"));
    }
  }
  out.join(", ").chars().take(300).collect()
}
pub fn run(ctx: &Ctx) {
  ctx.hang_limit.store(60, SeqCst);
  let cmds = commands();
  let start = Model { fs: tree(), cwd: "/".into() };
  // breadth first exploration of the model
  let depth = ctx.pick(2, 4);
  let mut paths: BTreeMap<Model, Vec<usize>> = BTreeMap::from([(start.clone(), vec![])]);
  let mut frontier = vec![start.clone()];
  for _ in 0..depth {
    let mut next = vec![];
    for s in &frontier {
      let path = paths[s].clone();
      for (k, (verb, arg)) in cmds.iter().enumerate() {
        let mut t = s.clone();
        t.step(verb, arg, PAY);
        if !paths.contains_key(&t) {
          let mut p = path.clone();
          p.push(k);
          paths.insert(t.clone(), p);
          next.push(t);
        }
      }
    }
    frontier = next;
  }
  let states: Vec<Vec<usize>> = paths.into_values().collect();
  ctx.states.store(states.len() as u64, SeqCst);
  let conf = Conf::open();
  let base = [start.clone()];
  ctx.par("replay", states.len() * cmds.len(), |i| {
    let mut path: Vec<(&'static str, String)> = states[i / cmds.len()].iter().map(|k| cmds[*k].clone()).collect();
    path.push(cmds[i % cmds.len()].clone());
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    let mut a = start.clone();
    let nontrivial = path.iter().any(|(v, x)| a.step(v, x, PAY).data.is_some()) || a != start;
    ctx.case(fp(&i), nontrivial);
    ctx.outcome(fp(&a));
    let r = with_server(&conf, |srv| {
      let r = replay(srv, &path, &base);
      if r.is_err() || get_fs(&srv.base.dir) != start.fs {
        put_fs(&srv.base.dir, &start.fs);
      }
      r
    });
    let fail = |key: &str, m: String| ctx.fail(key, format!("after {:?}: {m}", &path[..path.len() - 1]), json!({"commands": format!("{path:?}")}));
    match r {
      Err(e) => fail("server", e),
      Ok(Err((k, m))) => fail(&k, m),
      Ok(Ok(())) => {}
    }
  });
  // other ways to name the served directory
  for (k, name) in ["root", "./root", "../srv/root", "alias"].into_iter().enumerate() {
    let srv = Server::start(&conf, Some(name));
    match srv {
      Err(e) => ctx.fail("rootname", format!("served directory given as {name:?}: {e}"), json!({"root": name})),
      Ok(mut srv) => {
        for (j, c) in cmds.iter().enumerate() {
          put_fs(&srv.base.dir, &start.fs);
          ctx.case(fp(&(9, k, j)), true);
          if let Err((k, m)) = replay(&mut srv, std::slice::from_ref(c), &base) {
            ctx.fail(&format!("rootname {k}"), format!("served directory given as {name:?}: {m}"), json!({"root": name, "command": format!("{c:?}")}));
            break;
          }
        }
      }
    }
  }
}
