//! C24: the FTP conversion server turns uploaded raw files into the same DNG as `dnglab convert`.
use super::clikit::*;
use super::ftpkit::*;
use crate::Level;
use crate::cli::*;
use crate::ctx::*;
use crate::refs::ftp::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::net::{Ipv4Addr, SocketAddr, TcpStream};
use std::os::unix::fs::PermissionsExt;
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub fn level() -> Level {
  Level {
    level: "model_checking",
    rule: "Every sequence of uploads is sent to the real `dnglab ftpserver`; after each upload the reply class and the complete tree inside and outside the served directory are compared with the model (raw extension and readable content: DNG equal to that of `dnglab convert` with the same options, original kept or not; raw extension and unreadable content: failure and nothing changed; anything else: stored unchanged). Non-trivial: something is uploaded.",
    bounds: "8 option sets x 15 file names x 6 contents x 5 previous states of the output; all sequences of 2 uploads (thorough 3) from 12 (name, content) pairs; 2 sessions uploading in all packet interleavings",
    assumptions: &["ModifyDate of the output is the time of conversion", "an upload replaces an existing file of the same name (FTP semantics)"],
  }
}
/// `mc helper drop <dir> <program> args...`: runs a program as an unprivileged user
pub fn drop_and_exec(args: &[String]) {
  use std::os::unix::ffi::OsStrExt;
  let c = |s: &std::ffi::OsStr| std::ffi::CString::new(s.as_bytes()).unwrap();
  std::env::set_current_dir(&args[0]).expect("cwd");
  unsafe {
    let fd = libc::open(c(args[1].as_ref()).as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC);
    assert!(fd >= 0, "no program");
    if libc::geteuid() == 0 {
      let none: [libc::gid_t; 0] = [];
      if libc::setgroups(0, none.as_ptr()) != 0 || libc::setresgid(65534, 65534, 65534) != 0 || libc::setresuid(65534, 65534, 65534) != 0 {
        std::process::exit(4);
      }
    }
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    libc::umask(0);
    let argv: Vec<_> = args[1..].iter().map(|a| c(a.as_ref())).collect();
    let mut argp: Vec<_> = argv.iter().map(|a| a.as_ptr()).collect();
    argp.push(std::ptr::null());
    let env: Vec<_> = ["RAYON_NUM_THREADS=2", "TOKIO_WORKER_THREADS=2", "PATH=/usr/bin:/bin", "HOME=/"].iter().map(|a| c(a.as_ref())).collect();
    let mut envp: Vec<_> = env.iter().map(|a| a.as_ptr()).collect();
    envp.push(std::ptr::null());
    libc::fexecve(fd, argp.as_ptr(), envp.as_ptr());
    std::process::exit(6);
  }
}
struct Conv {
  child: Child,
  addr: SocketAddr,
  base: Scratch,
}
impl Drop for Conv {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Opts {
  keep: Option<bool>,
  /// options shared with convert
  conv: Vec<&'static str>,
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
impl Conv {
  fn start(o: &Opts) -> Result<Conv, String> {
    let base = Scratch::new();
    base.mkdir("srv/root");
    for d in ["", "srv", "srv/root"] {
      std::fs::set_permissions(base.p(d), PermissionsExt::from_mode(0o777)).unwrap();
    }
    for _ in 0..50 {
      // an address of its own for every server
      let (p, n) = (std::process::id() as usize, NEXT.fetch_add(1, SeqCst));
      let ip = Ipv4Addr::new(127, 1 + (p / 200 % 200) as u8, (p % 200) as u8, 1 + (n % 250) as u8);
      let addr = SocketAddr::from((ip, 2121));
      let mut a: Vec<String> = ["helper", "drop"].iter().map(|s| s.to_string()).collect();
      a.extend([base.p("srv").to_string_lossy().to_string(), dnglab_bin().to_string_lossy().to_string(), "ftpserver".into()]);
      a.extend(o.conv.iter().map(|s| s.to_string()));
      if let Some(k) = o.keep {
        a.extend(["--keep-original".into(), k.to_string()]);
      }
      a.extend(["--listen".into(), ip.to_string(), "--port".into(), "2121".into(), "root".into()]);
      let mut child = Command::new(std::env::current_exe().unwrap()).args(&a).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
      let t = Instant::now();
      while t.elapsed() < Duration::from_secs(20) {
        if let Ok(Some(_)) = child.try_wait() {
          break;
        }
        if TcpStream::connect(addr).is_ok() {
          return Ok(Conv { child, addr, base });
        }
        std::thread::sleep(Duration::from_millis(3));
      }
      let _ = child.kill();
      let _ = child.wait();
    }
    Err("dnglab ftpserver did not start".into())
  }
}
fn session(addr: SocketAddr) -> Result<Conn, String> {
  let mut c = Conn::open(addr)?;
  c.login("anonymous", "anonymous@example.com")?;
  Ok(c)
}
thread_local!(static SRV: RefCell<Vec<(Opts, Conv)>> = const { RefCell::new(vec![]) });
fn with_conv<T>(o: &Opts, f: impl FnOnce(&mut Conv) -> Result<T, String>) -> Result<T, String> {
  SRV.with(|s| {
    let mut s = s.borrow_mut();
    if let Some(k) = s.iter().position(|x| x.0 == *o) {
      if !s[k].1.child.try_wait().is_ok_and(|x| x.is_none()) {
        s.remove(k);
        return Err("the server process ended".into());
      }
    } else {
      if s.len() > 3 {
        s.remove(0);
      }
      s.push((o.clone(), Conv::start(o)?));
    }
    let k = s.iter().position(|x| x.0 == *o).unwrap();
    f(&mut s[k].1)
  })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum What {
  A,
  B,
  /// image data unreadable
  Late,
  Cut,
  Garbage,
  Empty,
  /// file with three images
  Burst,
  /// DNG with a modification date of its own
  Dated,
}
const WHAT: [What; 6] = [What::A, What::B, What::Late, What::Cut, What::Garbage, What::Empty];
fn bytes(w: What) -> Vec<u8> {
  match w {
    What::A => raw_bytes(3, Health::Good),
    What::B => raw_bytes(8, Health::Good),
    What::Late => raw_bytes(5, Health::Late),
    What::Cut => {
      let b = raw_bytes(3, Health::Good);
      b[..200].to_vec()
    }
    What::Garbage => raw_bytes(1, Health::Early),
    What::Empty => vec![],
    What::Burst => super::c17::burst(3, 9).0,
    What::Dated => {
      use crate::refs::tiff::*;
      let mut n = crate::fix::dng_node(&spec(4), &crate::fix::Layout::default());
      n.set(0x132, ascii("2020:05:06 07:08:09"));
      n.items.insert(0x8769, Item::Dirs(vec![Node::new().v(0x9010, ascii("+02:00"))], 4));
      build(&[n], false, false, 0)
    }
  }
}
const NAMES: [&str; 15] = ["p.CR2", "p.nef", "p.dng", "p.DNG", "d/p.Arw", "p", "p.txt", "p.jpg", "p.cr2.bak", ".cr2", "p.x.NEF", "p.3fr", "pü q.RAF", "p.cr", "/d/../d/p.dng"];
const RAW: [&str; 7] = ["CR2", "NEF", "DNG", "ARW", "3FR", "RAF", "CR3"];
fn ext(name: &str) -> Option<String> {
  let f = name.rsplit('/').next().unwrap();
  let k = f.rfind('.')?;
  (k > 0).then(|| f[k + 1..].to_string())
}
type Cache = Mutex<HashMap<(Opts, String, What), Option<Vec<u8>>>>;
/// what `dnglab convert` makes of the same file
fn reference(cache: &Cache, o: &Opts, name: &str, w: What) -> Option<Vec<u8>> {
  let f = name.rsplit('/').next().unwrap().to_string();
  let key = (o.clone(), f.clone(), w);
  if let Some(r) = cache.lock().unwrap().get(&key) {
    return r.clone();
  }
  let s = Scratch::new();
  s.write(&format!("in/{f}"), &bytes(w));
  s.mkdir("out");
  let inp = format!("in/{f}");
  let mut a: Vec<&str> = vec!["convert"];
  a.extend(o.conv.iter());
  a.extend([inp.as_str(), "out/o.dng"]);
  let out = Run::new(&s.dir, &a).go();
  let r = if out.ok() { std::fs::read(s.p("out/o.dng")).ok().map(|b| super::c13::mask_date(&b)) } else { None };
  cache.lock().unwrap().insert(key, r.clone());
  r
}
fn start_tree() -> Fs {
  let f = |s: &str, c: &str| (format!("srv/{s}"), N::File(c.as_bytes().to_vec()));
  Fs([("srv".to_string(), N::Dir), ("srv/root".into(), N::Dir), ("srv/root/d".into(), N::Dir), ("srv/roots".into(), N::Dir), f("roots/target", "do not touch"), f("root/other", "x")].into_iter().collect())
}
fn norm(fs: &Fs) -> Fs {
  Fs(fs.0.iter().map(|(k, n)| (k.clone(), if let (true, N::File(c)) = (k.to_lowercase().ends_with(".dng"), n) { N::File(super::c13::mask_date(c)) } else { n.clone() })).collect())
}
fn short(f: &Fs) -> BTreeMap<String, String> {
  f.0.iter().map(|(k, n)| (k.clone(), match n { N::File(c) => format!("{} bytes {:x}", c.len(), fp(c) & 0xffff), n => format!("{n:?}") })).collect()
}
/// the model: expected reply and tree after an upload
fn step(cache: &Cache, o: &Opts, fs: &mut Fs, name: &str, w: What) -> bool {
  if name.contains("..") {
    return false;
  }
  let data = bytes(w);
  let path = format!("srv/root/{}", name.trim_start_matches('/'));
  // never through a link leading outside
  if matches!(fs.0.get(&path), Some(N::Link(_))) {
    return false;
  }
  let raw = ext(name).is_some_and(|e| RAW.contains(&e.to_uppercase().as_str()));
  if raw {
    let Some(dng) = reference(cache, o, name, w) else { return false };
    let out = format!("{}dng", &path[..path.len() - ext(name).unwrap().len()]);
    fs.0.insert(out, N::File(dng));
    if o.keep == Some(false) {
      return true;
    }
  }
  fs.0.insert(path, N::File(data));
  true
}
fn send(c: &mut Conn, name: &str, data: &[u8]) -> Result<bool, String> {
  let mut s = passive_to(c)?;
  c.send(format!("STOR {name}\r\n").as_bytes())?;
  use std::io::Write;
  let _ = s.write_all(data);
  let _ = s.shutdown(std::net::Shutdown::Write);
  c.send(b"SYST\r\n")?;
  c.s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
  let r = c.until_syst()?;
  let code = final_reply(&r, true)?;
  Ok(code / 100 == 2)
}
fn passive_to(c: &mut Conn) -> Result<TcpStream, String> {
  c.send(b"EPSV\r\n")?;
  let r = c.reply()?.ok_or("connection closed by EPSV")?;
  let port = passive_port(&r)?;
  TcpStream::connect((c.s.peer_addr().unwrap().ip(), port)).map_err(|e| e.to_string())
}
fn run_seq(cache: &Cache, o: &Opts, before: &Fs, seq: &[(&str, What)]) -> Result<Fs, String> {
  // compute the reference first, the server may be busy otherwise
  let mut steps = vec![];
  let mut fs = norm(before);
  for (n, w) in seq {
    let ok = step(cache, o, &mut fs, n, *w);
    fs = norm(&fs);
    steps.push((ok, fs.clone()));
  }
  with_conv(o, |srv| {
    put_fs(&srv.base.dir, before);
    let mut c = session(srv.addr)?;
    for ((n, w), (ok, want)) in seq.iter().zip(&steps) {
      let got = send(&mut c, n, &bytes(*w)).map_err(|e| format!("STOR {n} ({w:?}): {e}"))?;
      let fs = norm(&get_fs(&srv.base.dir));
      if fs != *want {
        let (a, b) = (short(&fs), short(want));
        let diff: Vec<String> = a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).map(|k| format!("{k}: {:?} instead of {:?}", a.get(k), b.get(k))).collect();
        return Err(format!("after STOR {n} ({w:?}): {}", diff.join(", ")));
      }
      if got != *ok {
        return Err(format!("STOR {n} ({w:?}) reports {}", if got { "success" } else { "failure" }));
      }
    }
    Ok(fs)
  })
}
fn options() -> Vec<Opts> {
  let off = ["--dng-preview", "false", "--dng-thumbnail", "false"];
  let o = |keep, more: &[&'static str]| Opts { keep, conv: off.iter().chain(more).copied().collect() };
  vec![
    o(Some(false), &[]),
    o(Some(true), &["--embed-raw", "false"]),
    o(None, &["--compression", "uncompressed"]),
    o(Some(false), &["--artist", "Jane Doe", "--crop", "none"]),
    o(Some(false), &["--ljpeg92-predictor", "6", "--keep-mtime", "true"]),
    Opts { keep: Some(false), conv: vec![] },
    Opts { keep: None, conv: vec!["--dng-thumbnail", "false", "--crop", "activearea"] },
    o(Some(true), &["--keep-mtime", "true", "--embed-raw", "false"]),
  ]
}
/// previous states of the output file
fn before(k: usize, name: &str) -> Fs {
  let mut fs = start_tree();
  let e = ext(name);
  let stem = match &e {
    Some(e) => &name[..name.len() - e.len() - 1],
    None => name,
  };
  let stem = stem.trim_start_matches('/');
  let p = format!("srv/root/{stem}.dng");
  let q = format!("srv/root/{}", name.trim_start_matches('/'));
  match k {
    0 => {}
    1 => {
      fs.0.insert(p, N::File(vec![b'o'; 100]));
    }
    2 => {
      fs.0.insert(p, N::File(vec![b'o'; 100_000]));
    }
    3 => {
      fs.0.insert(p, N::Link(if stem.contains('/') { "../../roots/target".into() } else { "../roots/target".into() }));
    }
    _ => {
      fs.0.insert(q, N::File(vec![b'r'; 5000]));
    }
  }
  fs
}
pub fn run(ctx: &Ctx) {
  ctx.hang_limit.store(120, SeqCst);
  let cache: Cache = Default::default();
  let opts = options();
  let radix = [opts.len(), NAMES.len(), WHAT.len(), 5];
  let total: usize = radix.iter().product();
  ctx.par("single", total, |i| {
    let d = digits(i, &radix);
    let (o, name, w) = (&opts[d[0]], NAMES[d[1]], WHAT[d[2]]);
    if name.contains("..") && d[3] > 0 || d[3] > 2 && d[0] > 2 || ctx.quick() && d[0] > 2 && d[3] != 1 {
      return;
    }
    ctx.case(fp(&(1, i)), true);
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    match run_seq(&cache, o, &before(d[3], name), &[(name, w)]) {
      Ok(f) => ctx.outcome(fp(&f)),
      Err(e) => ctx.fail("upload", format!("{o:?}, previous state {}: {e}", d[3]), json!({"options": format!("{o:?}"), "name": name, "content": format!("{w:?}"), "before": d[3]})),
    }
  });
  // options that select the image or set the file time
  let off = ["--dng-preview", "false", "--dng-thumbnail", "false", "--embed-raw", "false"];
  let sel: Vec<Opts> = [vec![], vec!["--image-index", "1"], vec!["--image-index", "2"], vec!["--image-index", "3"], vec!["--keep-mtime", "true"], vec!["--keep-mtime", "false"]].into_iter().map(|m| Opts { keep: None, conv: off.iter().chain(&m).copied().collect() }).collect();
  let names = ["b.CR3", "d/b.cr3", "b.x.NEF"];
  let radix = [sel.len(), names.len(), 3, 2];
  ctx.par("selection", radix.iter().product(), |i| {
    let d = digits(i, &radix);
    let (o, name, w, b) = (&sel[d[0]], names[d[1]], [What::Burst, What::Dated, What::A][d[2]], d[3]);
    ctx.case(fp(&(4, i)), true);
    ctx.traces.fetch_add(1, SeqCst);
    let keep = o.conv.windows(2).any(|w| w == ["--keep-mtime", "true"]);
    let t = std::time::SystemTime::now() - Duration::from_secs(2);
    let r = run_seq(&cache, o, &before(b, name), &[(name, w)]).and_then(|fs| {
      if w != What::Dated {
        return Ok(fs);
      }
      let out = format!("srv/root/{}.dng", name.rsplit_once('.').unwrap().0);
      let m = with_conv(o, |srv| std::fs::metadata(srv.base.p(&out)).and_then(|m| m.modified()).map_err(|e| e.to_string()))?;
      let date = std::time::UNIX_EPOCH + Duration::from_secs(1588741689); // 2020-05-06 05:08:09 UTC
      if if keep { m != date } else { m < t } { Err(format!("file time of {out} is {m:?}")) } else { Ok(fs) }
    });
    match r {
      Ok(f) => ctx.outcome(fp(&f)),
      Err(e) => ctx.fail("selection", format!("{o:?}: {e}"), json!({"options": format!("{o:?}"), "name": name, "content": format!("{w:?}"), "before": b})),
    }
  });
  // sequences
  let pairs: Vec<(&str, What)> = vec![
    ("p.CR2", What::A), ("p.CR2", What::B), ("p.CR2", What::Garbage), ("p.nef", What::B), ("p.nef", What::Late), ("p.dng", What::A), ("p.dng", What::Cut), ("p.dng", What::Garbage), ("p.txt", What::B), ("p", What::A), ("d/p.CR2", What::B), ("p.CR2", What::Empty),
  ];
  let len = ctx.pick(2u32, 3);
  let n = pairs.len();
  let states: Mutex<std::collections::HashSet<u64>> = Default::default();
  ctx.par("sequences", n.pow(len) * 2, |i| {
    let o = &opts[i % 2];
    let seq: Vec<(&str, What)> = digits(i / 2, &vec![n; len as usize]).into_iter().map(|k| pairs[k]).collect();
    ctx.case(fp(&(2, i)), true);
    ctx.transitions.fetch_add(len as u64, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    match run_seq(&cache, o, &start_tree(), &seq) {
      Ok(f) => {
        states.lock().unwrap().insert(fp(&f));
        ctx.outcome(fp(&f))
      }
      Err(e) => ctx.fail("sequence", format!("{o:?}: {seq:?}: {e}"), json!({"options": format!("{o:?}"), "uploads": format!("{seq:?}")})),
    }
  });
  ctx.states.store(states.lock().unwrap().len() as u64, SeqCst);
  // two sessions: upload of one is running while the other uploads, all merges of [STOR, first half, rest+end] x 2
  let orders: Vec<u32> = (0..64u32).filter(|m| m.count_ones() == 3).collect();
  let both: Vec<[(&str, What); 2]> = vec![[("p.CR2", What::A), ("q.nef", What::B)], [("p.CR2", What::A), ("p.nef", What::B)], [("p.CR2", What::A), ("p.CR2", What::B)], [("p.CR2", What::A), ("p.nef", What::Garbage)], [("p.CR2", What::Late), ("q.txt", What::B)]];
  ctx.par("two sessions", orders.len() * both.len() * 2, |i| {
    let d = digits(i, &[orders.len(), both.len(), 2]);
    let (order, up, o) = (orders[d[0]], both[d[1]], &opts[d[2]]);
    ctx.case(fp(&(3, i)), true);
    ctx.traces.fetch_add(1, SeqCst);
    let mut fs = norm(&start_tree());
    // uploads take effect when their data ends
    let mut pos = [0, 0];
    let mut plan = vec![];
    for k in 0..6 {
      let w = (order >> k & 1) as usize;
      plan.push((w, pos[w]));
      if pos[w] == 2 {
        let ok = step(&cache, o, &mut fs, up[w].0, up[w].1);
        fs = norm(&fs);
        plan.push((w, if ok { 10 } else { 11 }));
      }
      pos[w] += 1;
    }
    let r = with_conv(o, |srv| {
      use std::io::Write;
      put_fs(&srv.base.dir, &start_tree());
      let mut c = [session(srv.addr)?, session(srv.addr)?];
      let mut s = [passive_to(&mut c[0])?, passive_to(&mut c[1])?];
      let mut got = [false; 2];
      for (w, p) in &plan {
        let data = bytes(up[*w].1);
        let h = data.len() / 2;
        match p {
          0 => {
            c[*w].send(format!("STOR {}\r\n", up[*w].0).as_bytes())?;
          }
          1 => s[*w].write_all(&data[..h]).map_err(|e| e.to_string())?,
          2 => {
            s[*w].write_all(&data[h..]).map_err(|e| e.to_string())?;
            let _ = s[*w].shutdown(std::net::Shutdown::Write);
            c[*w].send(b"SYST\r\n")?;
            c[*w].s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
            let r = c[*w].until_syst()?;
            got[*w] = final_reply(&r, true)? / 100 == 2;
          }
          x => {
            if got[*w] != (*x == 10) {
              return Err(format!("session {w} reports {}", if got[*w] { "success" } else { "failure" }));
            }
          }
        }
      }
      let have = norm(&get_fs(&srv.base.dir));
      if have != fs { Err(format!("{:?} instead of {:?}", short(&have), short(&fs))) } else { Ok(()) }
    });
    ctx.outcome(fp(&fs));
    if let Err(e) = r {
      ctx.fail("two sessions", format!("{o:?}: {up:?} in order {order:06b}: {e}"), json!({"uploads": format!("{up:?}"), "order": order}));
    }
  });
  SRV.with(|s| s.borrow_mut().clear());
}
