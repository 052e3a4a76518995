//! Running the real FTP server (unprivileged child process, scratch tree) and talking to it.
use crate::cli::Scratch;
use crate::refs::ftp::*;
use std::collections::BTreeSet;
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::fs::{PermissionsExt, symlink};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Conf {
  pub anonymous: bool,
  pub users: Vec<(String, String)>,
}
impl Conf {
  pub fn open() -> Conf {
    Conf { anonymous: false, users: vec![("bob".into(), "secret".into())] }
  }
}

/// child side: `mc helper ftpd <dir> <root argument> <ip> <port> <anonymous> [user password]...`
pub fn child(args: &[String]) {
  unsafe {
    if libc::geteuid() == 0 {
      let none: [libc::gid_t; 0] = [];
      if libc::setgroups(0, none.as_ptr()) != 0 || libc::setresgid(65534, 65534, 65534) != 0 || libc::setresuid(65534, 65534, 65534) != 0 {
        eprintln!("cannot drop privileges");
        std::process::exit(4);
      }
    }
    // changing the user clears this, so it comes last
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    libc::umask(0);
  }
  std::env::set_current_dir(&args[0]).expect("cwd");
  let users = args[5..].chunks(2).map(|c| embedftp::config::User { name: c[0].clone(), password: c[1].clone() }).collect();
  let cfg = embedftp::config::Config { server_port: args[3].parse().unwrap(), server_addr: args[2].parse().unwrap(), users, anonymous: args[4] == "1", greeting: "hello".into() };
  #[derive(Clone)]
  struct Plain;
  impl embedftp::config::FtpCallback for Plain {}
  std::panic::set_hook(Box::new(|_| {}));
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let h = rt.handle().clone();
  let root = PathBuf::from(&args[1]);
  let t = rt.spawn(embedftp::server::serve(h, root, cfg, Plain));
  // tell which port the server got
  let port = loop {
    if t.is_finished() {
      eprintln!("server ended");
      std::process::exit(5);
    }
    if let Some(p) = (3..64).find_map(listening) {
      break p;
    }
    std::thread::sleep(Duration::from_micros(200));
  };
  println!("{port}");
  let r = rt.block_on(t);
  eprintln!("server ended: {r:?}");
  std::process::exit(5);
}
fn listening(fd: i32) -> Option<u16> {
  unsafe {
    let mut on: libc::c_int = 0;
    let mut len = 4u32;
    if libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_ACCEPTCONN, &mut on as *mut _ as *mut libc::c_void, &mut len) != 0 || on == 0 {
      return None;
    }
    let mut sa: libc::sockaddr_in = std::mem::zeroed();
    let mut len = std::mem::size_of_val(&sa) as u32;
    libc::getsockname(fd, &mut sa as *mut _ as *mut libc::sockaddr, &mut len);
    Some(u16::from_be(sa.sin_port))
  }
}

pub struct Server {
  child: Child,
  pub addr: SocketAddr,
  pub base: Scratch,
}
impl Drop for Server {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}
impl Server {
  /// `root`: how the served directory is named on the command line, relative to srv/ (None: absolute path)
  pub fn start(conf: &Conf, root: Option<&str>) -> Result<Server, String> {
    let base = Scratch::new();
    base.mkdir("srv/root");
    std::fs::set_permissions(base.p("srv"), PermissionsExt::from_mode(0o777)).unwrap();
    std::fs::set_permissions(base.p(""), PermissionsExt::from_mode(0o777)).unwrap();
    std::fs::set_permissions(base.p("srv/root"), PermissionsExt::from_mode(0o777)).unwrap();
    let _ = symlink("root", base.p("srv/alias"));
    let ip = Ipv4Addr::new(127, 0, 0, 1);
    let abs = base.p("srv/root");
    let mut child = Command::new(std::env::current_exe().unwrap())
      .args(["helper", "ftpd"])
      .arg(base.p("srv"))
      .arg(root.map(PathBuf::from).unwrap_or(abs))
      .args([ip.to_string(), "0".into(), (conf.anonymous as u8).to_string()])
      .args(conf.users.iter().flat_map(|(u, p)| [u.clone(), p.clone()]))
      .stdin(Stdio::null())
      .stdout(Stdio::piped())
      .stderr(Stdio::null())
      .spawn()
      .map_err(|e| e.to_string())?;
    let mut line = String::new();
    let _ = std::io::BufRead::read_line(&mut std::io::BufReader::new(child.stdout.take().unwrap()), &mut line);
    match line.trim().parse::<u16>() {
      Ok(port) => Ok(Server { child, addr: SocketAddr::from((ip, port)), base }),
      Err(_) => {
        let _ = child.kill();
        let _ = child.wait();
        Err("the FTP server did not start".into())
      }
    }
  }
  pub fn alive(&mut self) -> bool {
    self.child.try_wait().is_ok_and(|s| s.is_none())
  }
}

/// creates the tree of the model below `base`; everything is writable for the server's user
pub fn put_fs(base: &Path, fs: &Fs) {
  let _ = std::fs::remove_dir_all(base.join("srv/root"));
  let _ = std::fs::remove_dir_all(base.join("srv/roots"));
  for (p, n) in &fs.0 {
    let q = base.join(p);
    match n {
      N::Dir => {
        std::fs::create_dir_all(&q).unwrap();
        std::fs::set_permissions(&q, PermissionsExt::from_mode(0o777)).unwrap();
        std::os::unix::fs::chown(&q, Some(65534), Some(65534)).unwrap();
      }
      N::File(c) => {
        std::fs::create_dir_all(q.parent().unwrap()).unwrap();
        std::fs::write(&q, c).unwrap();
        std::fs::set_permissions(&q, PermissionsExt::from_mode(0o666)).unwrap();
        std::os::unix::fs::chown(&q, Some(65534), Some(65534)).unwrap();
      }
      N::Link(t) => {
        std::fs::create_dir_all(q.parent().unwrap()).unwrap();
        symlink(t, &q).unwrap();
      }
    }
  }
}
pub fn get_fs(base: &Path) -> Fs {
  fn walk(p: &Path, rel: String, m: &mut Fs) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
      let name = e.file_name().to_string_lossy().to_string();
      let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
      if r == "srv/alias" {
        continue;
      }
      let Ok(t) = e.file_type() else { continue };
      let n = if t.is_symlink() {
        N::Link(std::fs::read_link(e.path()).unwrap_or_default().to_string_lossy().to_string())
      } else if t.is_dir() {
        walk(&e.path(), r.clone(), m);
        N::Dir
      } else {
        N::File(std::fs::read(e.path()).unwrap_or_default())
      };
      m.0.insert(r, n);
    }
  }
  let mut m = Fs(Default::default());
  walk(base, String::new(), &mut m);
  m
}
/// the usual tree: files, directories, links inside, outside and dangling
pub fn tree() -> Fs {
  let d = |s: &str| (format!("srv/{s}"), N::Dir);
  let f = |s: &str, c: &str| (format!("srv/{s}"), N::File(c.as_bytes().to_vec()));
  let l = |s: &str, t: &str| (format!("srv/{s}"), N::Link(t.into()));
  Fs([
    ("srv".to_string(), N::Dir),
    d("root"),
    f("root/a", "file a"),
    d("root/d"),
    f("root/d/f", "f in d"),
    d("root/d/e"),
    f("root/[x]", "brackets"),
    d("root/[y]"),
    f("root/[y]/g h", "with blank"),
    l("root/in", "d"),
    l("root/out", "../roots"),
    l("root/outf", "../roots/secret"),
    l("root/dang", "../roots/new"),
    l("root/d/up", "../../roots"),
    d("roots"),
    f("roots/secret", "top secret content"),
    d("roots/sub"),
  ]
  .into_iter()
  .collect())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reply {
  pub code: u32,
  pub lines: Vec<String>,
}
pub struct Conn {
  pub s: TcpStream,
  buf: Vec<u8>,
  pub eof: bool,
}
pub fn abortive(s: &TcpStream) {
  let l = libc::linger { l_onoff: 1, l_linger: 0 };
  unsafe {
    libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
  }
}
/// the server does not switch off Nagle's algorithm: acknowledge at once to avoid 40 ms per reply
pub fn quickack(s: &TcpStream) {
  let one: libc::c_int = 1;
  unsafe {
    libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4);
  }
}
pub const WAIT: Duration = Duration::from_secs(8);
impl Conn {
  pub fn open(addr: SocketAddr) -> Result<Conn, String> {
    let s = TcpStream::connect(addr).map_err(|e| format!("connect: {e}"))?;
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(WAIT)).unwrap();
    abortive(&s);
    let mut c = Conn { s, buf: vec![], eof: false };
    match c.reply()? {
      Some(r) if r.code == 220 => Ok(c),
      r => Err(format!("greeting {r:?}")),
    }
  }
  fn line(&mut self) -> Result<Option<String>, String> {
    loop {
      if let Some(k) = self.buf.windows(2).position(|w| w == b"\r\n") {
        let l: Vec<u8> = self.buf.drain(..k + 2).collect();
        return Ok(Some(String::from_utf8_lossy(&l[..k]).to_string()));
      }
      let mut b = [0; 4096];
      quickack(&self.s);
      match self.s.read(&mut b) {
        Ok(0) => {
          self.eof = true;
          return Ok(None);
        }
        Ok(n) => self.buf.extend(&b[..n]),
        Err(e) if e.kind() == ErrorKind::ConnectionReset => {
          self.eof = true;
          return Ok(None);
        }
        Err(e) if e.kind() == ErrorKind::Interrupted => {}
        Err(e) => return Err(format!("no reply: {e}")),
      }
    }
  }
  /// one reply in the form of RFC 959; None at the end of the connection
  pub fn reply(&mut self) -> Result<Option<Reply>, String> {
    let Some(first) = self.line()? else { return Ok(None) };
    let code = first.get(..3).and_then(|c| c.parse::<u32>().ok()).filter(|c| (100..600).contains(c)).ok_or(format!("malformed reply line {first:?}"))?;
    let mut lines = vec![first.clone()];
    match first.as_bytes().get(3) {
      None | Some(b' ') => {}
      Some(b'-') => loop {
        let Some(l) = self.line()? else { return Err(format!("multi-line reply {lines:?} is not ended")) };
        let end = l.starts_with(&format!("{code} ")) || l == code.to_string();
        lines.push(l);
        if end {
          break;
        }
      },
      _ => return Err(format!("malformed reply line {first:?}")),
    }
    Ok(Some(Reply { code, lines }))
  }
  pub fn send(&mut self, b: &[u8]) -> Result<(), String> {
    self.s.write_all(b).map_err(|e| format!("send: {e}"))
  }
  /// all replies to one command: a SYST follows in the same packet and marks the end
  pub fn cmd(&mut self, line: &str) -> Result<Vec<Reply>, String> {
    if let Err(e) = self.send(format!("{line}\r\nSYST\r\n").as_bytes()) {
      self.eof = true;
      return Err(e);
    }
    self.until_syst()
  }
  pub fn until_syst(&mut self) -> Result<Vec<Reply>, String> {
    let mut v = vec![];
    loop {
      match self.reply()? {
        None => return Ok(v),
        Some(r) if r.code == 215 => return Ok(v),
        Some(r) => v.push(r),
      }
    }
  }
  pub fn login(&mut self, user: &str, pass: &str) -> Result<(), String> {
    self.send(format!("USER {user}\r\nPASS {pass}\r\n").as_bytes())?;
    let a = self.reply()?;
    let b = self.reply()?;
    match (a, b) {
      (Some(a), Some(b)) if a.code == 331 && b.code == 230 => Ok(()),
      x => Err(format!("login: {x:?}")),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
  Pasv,
  Epsv,
  Port,
}
#[derive(Debug)]
pub struct Transfer {
  pub replies: Vec<Reply>,
  /// bytes received (None: the server never connected)
  pub data: Option<Vec<u8>>,
  /// the server did not close the data connection
  pub open: bool,
}
pub fn passive_port(r: &Reply) -> Result<u16, String> {
  let t = &r.lines[0];
  match r.code {
    227 => {
      let n: Vec<u32> = t[t.find('(').ok_or("no address")? + 1..t.find(')').ok_or("no address")?].split(',').filter_map(|x| x.trim().parse().ok()).collect();
      if n.len() != 6 || n.iter().any(|x| *x > 255) || n[..4] != [127, 0, 0, 1] {
        return Err(format!("PASV address {t}"));
      }
      Ok((n[4] * 256 + n[5]) as u16)
    }
    229 => {
      let b = &t[t.find("(|||").ok_or("no port")? + 4..];
      b[..b.find("|)").ok_or("no port")?].parse().map_err(|e| format!("{t}: {e}"))
    }
    _ => Err(format!("passive mode answered {t}")),
  }
}
pub fn passive(c: &mut Conn, mode: Mode) -> Result<TcpStream, String> {
  c.send(if mode == Mode::Pasv { b"PASV\r\n" } else { b"EPSV\r\n" })?;
  let r = c.reply()?.ok_or("connection closed by PASV")?;
  let port = passive_port(&r)?;
  TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("data connection to port {port}: {e}"))
}
pub fn read_data(s: &mut TcpStream, wait: Duration) -> (Vec<u8>, bool) {
  s.set_read_timeout(Some(wait)).unwrap();
  let mut v = vec![];
  let mut b = vec![0; 65536];
  loop {
    match s.read(&mut b) {
      Ok(0) => return (v, false),
      Ok(n) => v.extend(&b[..n]),
      Err(e) if e.kind() == ErrorKind::ConnectionReset => return (v, false),
      Err(e) if e.kind() == ErrorKind::Interrupted => {}
      Err(_) => return (v, true),
    }
  }
}
/// data transfer with small contents (fitting into socket buffers)
pub fn transfer(c: &mut Conn, mode: Mode, line: &str, payload: Option<&[u8]>) -> Result<Transfer, String> {
  let (mut data, listener) = match mode {
    Mode::Port => {
      let l = TcpListener::bind("127.0.0.1:0").unwrap();
      let p = l.local_addr().unwrap().port();
      c.send(format!("PORT 127,0,0,1,{},{}\r\n", p >> 8, p & 255).as_bytes())?;
      match c.reply()? {
        Some(r) if r.code == 200 => {}
        r => return Err(format!("PORT answered {r:?}")),
      }
      (None, Some(l))
    }
    _ => (Some(passive(c, mode)?), None),
  };
  if let (Some(p), Some(s)) = (payload, data.as_mut()) {
    let _ = s.write_all(p);
    let _ = s.shutdown(std::net::Shutdown::Write);
  }
  c.send(format!("{line}\r\nSYST\r\n").as_bytes())?;
  if let (Some(p), Some(l)) = (payload, &listener) {
    l.set_nonblocking(true).unwrap();
    let t = Instant::now();
    while t.elapsed() < WAIT {
      if let Ok((mut s, _)) = l.accept() {
        s.set_nonblocking(false).unwrap();
        let _ = s.write_all(p);
        let _ = s.shutdown(std::net::Shutdown::Write);
        data = Some(s);
        break;
      }
      std::thread::sleep(Duration::from_micros(100));
    }
  }
  let replies = c.until_syst()?;
  if let (None, Some(l)) = (&data, &listener) {
    l.set_nonblocking(true).unwrap();
    data = l.accept().ok().map(|x| x.0);
    if let Some(s) = &data {
      s.set_nonblocking(false).unwrap();
    }
  }
  let mut open = false;
  let got = data.map(|mut s| {
    let (v, o) = read_data(&mut s, Duration::from_secs(3));
    open = o;
    abortive(&s);
    v
  });
  Ok(Transfer { replies, data: got, open })
}

/// exactly one final reply, optionally after one preliminary reply (transfers only)
pub fn final_reply(replies: &[Reply], transfer: bool) -> Result<u32, String> {
  let r = match replies {
    [p, r] if transfer && p.code / 100 == 1 => r,
    [r] => r,
    [] => return Err("no reply".into()),
    _ => return Err(format!("several replies: {:?}", replies.iter().map(|r| &r.lines[0]).collect::<Vec<_>>())),
  };
  if r.code / 100 == 1 {
    return Err(format!("preliminary reply without final reply: {:?}", r.lines));
  }
  Ok(r.code)
}
pub fn parse_list(b: &[u8]) -> Result<BTreeSet<(bool, usize, String)>, String> {
  let t = String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?;
  let mut out = BTreeSet::new();
  for l in t.split_terminator("\r\n") {
    let dir = l.starts_with('d');
    if !dir && !l.starts_with('-') {
      return Err(format!("list line {l:?}"));
    }
    // rights links owner group size month day time name
    let mut rest = l;
    let mut f = vec![];
    for _ in 0..8 {
      let r = rest.trim_start_matches(' ');
      let k = r.find(' ').ok_or(format!("list line {l:?}"))?;
      f.push(&r[..k]);
      rest = &r[k..];
    }
    let size: usize = f[4].parse().map_err(|_| format!("list line {l:?}"))?;
    if !out.insert((dir, if dir { 0 } else { size }, rest[1..].to_string())) {
      return Err(format!("entry listed twice: {l:?}"));
    }
  }
  Ok(out)
}
pub fn parse_names(b: &[u8]) -> Result<BTreeSet<String>, String> {
  let t = String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?;
  Ok(t.split_terminator("\r\n").map(|s| s.to_string()).collect())
}
pub fn cmp_data(want: &Data, got: &[u8]) -> Result<(), String> {
  match want {
    Data::Bytes(w) if w == got => Ok(()),
    Data::Bytes(w) => Err(format!("{} bytes received instead of {}", got.len(), w.len())),
    Data::List(w) => {
      let g = parse_list(got)?;
      if g == *w { Ok(()) } else { Err(format!("listed {g:?} instead of {w:?}")) }
    }
    Data::Names(w) => {
      let g = parse_names(got)?;
      if g == *w { Ok(()) } else { Err(format!("listed {g:?} instead of {w:?}")) }
    }
    Data::Subset(w) => {
      let g = parse_names(got)?;
      match g.iter().find(|x| !w.contains(*x)) {
        None => Ok(()),
        Some(x) => Err(format!("{x:?} does not belong to the served tree")),
      }
    }
  }
}
pub fn is_transfer(verb: &str) -> bool {
  matches!(verb, "RETR" | "STOR" | "LIST" | "NLST")
}
/// runs one command in a logged-in session and compares it with what the model expects
pub fn run_step(c: &mut Conn, mode: Mode, verb: &str, arg: &str, payload: &[u8], want: &Expect) -> Result<(), String> {
  let line = if arg.is_empty() { verb.to_string() } else { format!("{verb} {arg}") };
  let (replies, data) = if is_transfer(verb) {
    let t = transfer(c, mode, &line, (verb == "STOR").then_some(payload))?;
    if t.open {
      return Err("the data connection is left open".into());
    }
    (t.replies, t.data)
  } else {
    (c.cmd(&line)?, None)
  };
  let code = final_reply(&replies, is_transfer(verb))?;
  if (code / 100 == 2) != want.ok || !matches!(code / 100, 2 | 4 | 5) {
    return Err(format!("answered {code} {:?}, expected {}", replies.last().unwrap().lines, if want.ok { "success" } else { "failure" }));
  }
  match (&want.data, data) {
    (Some(w), Some(g)) => cmp_data(w, &g),
    (Some(_), None) => Err("no data connection".into()),
    (None, Some(g)) if !g.is_empty() => Err(format!("{} bytes sent by a failing or uploading command", g.len())),
    _ => Ok(()),
  }
}
