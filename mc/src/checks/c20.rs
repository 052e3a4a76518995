//! C20: the FTP server grants access only after correct credentials.
use super::ftpkit::*;
use crate::Level;
use crate::ctx::*;
use serde_json::json;
use std::cell::RefCell;
use std::sync::atomic::Ordering::*;

pub fn level() -> Level {
  Level {
    level: "model_checking",
    rule: "A case is one complete command sequence sent to the real server in a fresh session, followed by a probe of every protected command; the session must be logged in only if the access model says so, must be if the sequence ends with valid credentials, and a session which is not logged in must get an error for every protected command and leave the tree unchanged. Non-trivial: the sequence contains USER or PASS.",
    bounds: "5 user configurations x all sequences up to length 3 (thorough 4) of 14 login commands (known, unknown, empty and password-less users, right, wrong, empty, case-changed and foreign passwords, other commands in between); model states = (configuration, user, waiting, logged in)",
    assumptions: &["after USER with an unknown name the previous state may be kept or dropped"],
  }
}
const ALPHA: [&str; 14] = [
  "USER bob", "USER eve", "USER anonymous", "USER ghost", "USER ", "user carl", "PASS secret", "PASS wrong", "PASS ", "PASS anonymous@example.com", "PASS SECRET", "PASS secret ", "NOOP", "CWD d",
];
const PROTECTED: [&str; 15] = ["PWD", "CWD d", "CDUP", "LIST", "LIST d", "NLST", "NLST *", "PASV", "EPSV", "PORT 127,0,0,1,200,200", "RETR a", "STOR n", "MKD n", "RMD d", "DELE a"];
fn confs() -> Vec<Conf> {
  let u = |n: &str, p: &str| (n.to_string(), p.to_string());
  vec![
    Conf { anonymous: false, users: vec![u("bob", "secret")] },
    Conf { anonymous: false, users: vec![u("bob", "secret"), u("eve", ""), u("carl", "wrong")] },
    Conf { anonymous: true, users: vec![u("bob", "secret"), u("carl", "anonymous@example.com")] },
    Conf { anonymous: true, users: vec![u("anonymous", "anonymous@example.com")] },
    Conf { anonymous: false, users: vec![] },
  ]
}
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug, PartialOrd, Ord)]
struct St {
  user: Option<String>,
  waiting: bool,
}
impl St {
  fn logged(&self) -> bool {
    self.user.is_some() && !self.waiting
  }
  fn step(&mut self, c: &Conf, cmd: &str) {
    let (verb, arg) = cmd.split_once(' ').unwrap_or((cmd, ""));
    match verb.to_ascii_uppercase().as_str() {
      "USER" => {
        let known = c.users.iter().find(|u| u.0 == arg);
        if arg == "anonymous" && c.anonymous {
          // any password will do, unless the name is configured without one
          *self = St { user: Some(arg.into()), waiting: true };
        } else if let Some((n, p)) = known {
          *self = St { user: Some(n.clone()), waiting: !p.is_empty() };
        }
      }
      "PASS" if self.waiting => {
        let n = self.user.clone().unwrap();
        if (n == "anonymous" && c.anonymous) || c.users.iter().any(|u| u.0 == n && u.1 == arg) {
          self.waiting = false;
        }
      }
      _ => {}
    }
  }
}
thread_local!(static SRV: RefCell<Vec<(Conf, Server)>> = const { RefCell::new(vec![]) });
/// every worker thread has its own server per configuration
pub fn with_server<T>(conf: &Conf, f: impl FnOnce(&mut Server) -> T) -> Result<T, String> {
  SRV.with(|s| {
    let mut s = s.borrow_mut();
    if let Some(k) = s.iter().position(|x| x.0 == *conf) {
      if !s[k].1.alive() {
        s.remove(k);
        return Err("the server process ended".into());
      }
    } else {
      let srv = Server::start(conf, None)?;
      put_fs(&srv.base.dir, &tree());
      s.push((conf.clone(), srv));
    }
    let k = s.iter().position(|x| x.0 == *conf).unwrap();
    Ok(f(&mut s[k].1))
  })
}
fn one(srv: &mut Server, conf: &Conf, seq: &[&str]) -> Result<bool, (String, String)> {
  let e = |k: &str| {
    let k = k.to_string();
    move |m: String| (k.clone(), m)
  };
  let mut m = St::default();
  let mut c = Conn::open(srv.addr).map_err(e("connect"))?;
  for s in seq {
    m.step(conf, s);
    let r = c.cmd(s).map_err(e("reply"))?;
    final_reply(&r, false).map_err(|x| ("reply".to_string(), format!("{s:?}: {x}")))?;
  }
  let must = m.logged() && {
    let mut x = St::default();
    let tail = &seq[seq.len().saturating_sub(if m.user.as_ref().is_some_and(|u| conf.users.iter().any(|v| v.0 == *u && v.1.is_empty())) { 1 } else { 2 })..];
    tail.iter().for_each(|s| x.step(conf, s));
    x.logged()
  };
  let code = c.cmd("PWD").map_err(e("reply"))?;
  let code = final_reply(&code, false).map_err(e("reply"))?;
  if code == 257 && !m.logged() {
    return Err(("granted".into(), "the session is logged in without valid credentials".into()));
  }
  if code != 257 && must {
    return Err(("refused".into(), format!("valid credentials do not log in (PWD answered {code})")));
  }
  if code != 257 {
    for p in PROTECTED {
      let r = c.cmd(p).map_err(e("probe"))?;
      let code = final_reply(&r, true).map_err(|x| ("probe".to_string(), format!("{p}: {x}")))?;
      if code / 100 != 5 && code / 100 != 4 {
        return Err(("probe".into(), format!("{p} answered {:?} without login", r.last().unwrap().lines)));
      }
    }
  }
  Ok(code == 257)
}
pub fn run(ctx: &Ctx) {
  ctx.hang_limit.store(60, SeqCst);
  let confs = confs();
  let depth = ctx.pick(3u32, 4);
  let n = ALPHA.len();
  let total: usize = (0..=depth).map(|k| n.pow(k)).sum();
  let states: std::sync::Mutex<std::collections::BTreeSet<(usize, St)>> = Default::default();
  let want = tree();
  ctx.par("login", total * confs.len(), |i| {
    let (ci, mut m) = (i % confs.len(), i / confs.len());
    let mut k = 0;
    while m >= n.pow(k) {
      m -= n.pow(k);
      k += 1;
    }
    let seq: Vec<&str> = digits(m, &vec![n; k as usize]).into_iter().map(|d| ALPHA[d]).collect();
    let conf = &confs[ci];
    let mut st = St::default();
    {
      let mut s = states.lock().unwrap();
      s.insert((ci, st.clone()));
      for c in &seq {
        st.step(conf, c);
        s.insert((ci, st.clone()));
      }
    }
    ctx.transitions.fetch_add(seq.len() as u64, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.case(fp(&i), k > 0);
    let fail = |key: &str, m: String| ctx.fail(key, format!("{seq:?} with {conf:?}: {m}"), json!({"commands": seq, "config": format!("{conf:?}")}));
    match with_server(conf, |srv| (one(srv, conf, &seq), get_fs(&srv.base.dir), srv.base.dir.clone())) {
      Err(e) => fail("server", e),
      Ok((r, fs, dir)) => {
        let logged = match r {
          Err((k, m)) => return fail(&k, m),
          Ok(l) => l,
        };
        ctx.outcome(fp(&(ci, logged)));
        if fs != want {
          put_fs(&dir, &want);
          return fail("tree", "the tree was changed".into());
        }
      }
    }
  });
  ctx.states.store(states.lock().unwrap().len() as u64, SeqCst);
}
