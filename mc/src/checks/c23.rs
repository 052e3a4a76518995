//! C23: FTP transfers are exact and sessions do not disturb each other.
use super::c20::with_server;
use super::ftpkit::*;
use crate::Level;
use crate::ctx::*;
use crate::refs::ftp::*;
use serde_json::json;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

pub fn level() -> Level {
  Level {
    level: "model_checking",
    rule: "Transfers: every payload is uploaded and downloaded on the real server and compared byte for byte, in the reply, the stored file and the returned data. Aborts: an upload reset after every number of bytes leaves the tree unchanged and the session usable. Sessions: all interleavings of all pairs of command scripts, and every command of a second session at every point of a running upload or download, are executed on the real server and compared with the model of a shared tree with one working directory per session. Non-trivial: data is transferred or the tree or a working directory changes.",
    bounds: "sizes 0..=64 and around 2^8, 2^10, 2^12, 2^13, 2^16, 2^17 and 1 MiB (thorough also 16 MiB) x 3 contents x PASV/EPSV/PORT x TYPE A/I over a missing, shorter, longer and equally long file, one that differs in the last byte, is a part or holds more; all 128 ways to cut 8 bytes into packets; resets after 0..=32 and at large offsets; scripts of 2 commands from 9 (thorough: 3 from 6) per session in all interleavings; 5 points of an upload and 3 of a download x 34 commands of the other session; every order of upload commands of two concurrent uploads to one file",
    assumptions: &["sessions are interleaved between their commands and between the packets of a transfer; finer interleavings inside the server are those of the operating system", "two uploads to the same file at the same time: the file holds one of the two contents if both ended in order"],
  }
}
/// an open data connection (or the listener for one)
enum Chan {
  Open(TcpStream),
  Wait(TcpListener),
}
impl Chan {
  fn new(c: &mut Conn, mode: Mode) -> Result<Chan, String> {
    if mode != Mode::Port {
      return Ok(Chan::Open(passive(c, mode)?));
    }
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let p = l.local_addr().unwrap().port();
    c.send(format!("PORT 127,0,0,1,{},{}\r\n", p >> 8, p & 255).as_bytes())?;
    match c.reply()? {
      Some(r) if r.code == 200 => Ok(Chan::Wait(l)),
      r => Err(format!("PORT answered {r:?}")),
    }
  }
  fn stream(self) -> Result<TcpStream, String> {
    match self {
      Chan::Open(s) => Ok(s),
      Chan::Wait(l) => {
        l.set_nonblocking(true).unwrap();
        let t = Instant::now();
        while t.elapsed() < WAIT {
          if let Ok((s, _)) = l.accept() {
            s.set_nonblocking(false).unwrap();
            return Ok(s);
          }
          std::thread::sleep(Duration::from_micros(100));
        }
        Err("the server does not connect".into())
      }
    }
  }
}
/// reads the replies of a transfer that has been started; SYST is sent here
fn finish(c: &mut Conn) -> Result<u32, String> {
  c.send(b"SYST\r\n")?;
  let r = c.until_syst()?;
  final_reply(&r, true)
}
fn upload(c: &mut Conn, mode: Mode, name: &str, chunks: &[&[u8]]) -> Result<u32, String> {
  let ch = Chan::new(c, mode)?;
  c.send(format!("STOR {name}\r\n").as_bytes())?;
  let mut s = ch.stream()?;
  s.set_nodelay(true).unwrap();
  s.set_write_timeout(Some(WAIT)).unwrap();
  for k in chunks {
    s.write_all(k).map_err(|e| format!("sending data: {e}"))?;
  }
  let _ = s.shutdown(Shutdown::Write);
  let r = finish(c);
  abortive(&s);
  r
}
fn download(c: &mut Conn, mode: Mode, name: &str) -> Result<(u32, Vec<u8>), String> {
  let ch = Chan::new(c, mode)?;
  c.send(format!("RETR {name}\r\n").as_bytes())?;
  let mut s = ch.stream()?;
  let (v, open) = read_data(&mut s, WAIT);
  if open {
    return Err("the data connection is left open".into());
  }
  Ok((finish(c)?, v))
}
fn content(kind: usize, n: usize) -> Vec<u8> {
  match kind {
    0 => vec![0; n],
    1 => b"\r\n\n\r\xff\xf4\0a".iter().cycle().take(n).copied().collect(),
    _ => (0..n).map(|i| (i * 7 + (i >> 8) * 13 + 1) as u8).collect(),
  }
}
fn session(srv: &Server) -> Result<Conn, String> {
  let mut c = Conn::open(srv.addr)?;
  c.login("bob", "secret")?;
  Ok(c)
}
fn expect(fs: &Fs, p: &str, c: &[u8]) -> Fs {
  let mut f = fs.clone();
  f.0.insert(p.into(), N::File(c.to_vec()));
  f
}
fn differs(want: &Fs, got: &Fs) -> Option<String> {
  if want == got {
    return None;
  }
  let short = |n: Option<&N>| match n {
    Some(N::File(c)) => format!("{} bytes starting {:?}", c.len(), &c[..c.len().min(12)]),
    n => format!("{n:?}"),
  };
  want.0.keys().chain(got.0.keys()).find(|k| want.0.get(*k) != got.0.get(*k)).map(|k| format!("{k}: {} instead of {}", short(got.0.get(k)), short(want.0.get(k))))
}
fn on<T>(f: impl FnOnce(&mut Server) -> Result<T, String>) -> Result<T, String> {
  let start = tree();
  with_server(&Conf::open(), |srv| {
    let r = f(srv);
    if r.is_err() || get_fs(&srv.base.dir) != start {
      put_fs(&srv.base.dir, &start);
    }
    r
  })
  .and_then(|x| x)
}
fn sizes(quick: bool) -> Vec<usize> {
  let mut v: Vec<usize> = (0..=64).collect();
  for b in [8, 10, 12, 13, 16, 17] {
    v.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
  }
  v.push(1 << 20);
  if !quick {
    v.extend([(1 << 15) - 1, 1 << 15, (1 << 15) + 1, (1 << 20) + 1, 1 << 24]);
  }
  v
}
const MODES: [Mode; 3] = [Mode::Pasv, Mode::Epsv, Mode::Port];

fn fidelity(ctx: &Ctx) {
  let sizes = sizes(ctx.quick());
  let radix = [sizes.len(), 3, 3, 2, 7];
  ctx.par("fidelity", radix.iter().product(), |i| {
    let d = digits(i, &radix);
    let (n, kind, mode, typ, over) = (sizes[d[0]], d[1], MODES[d[2]], ["A", "I"][d[3]], d[4]);
    if n > 4200 && over > 0 && kind > 0 || over > 2 && d[3] != (n + d[2]) % 2 {
      return;
    }
    ctx.case(fp(&(1, i)), true);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.transitions.fetch_add(4, SeqCst);
    let data = content(kind, n);
    let r = on(|srv| {
      let mut c = session(srv)?;
      final_reply(&c.cmd(&format!("TYPE {typ}"))?, false)?;
      let mut fs = tree();
      // previous content: none, shorter, longer, as long, all but the last byte, a part or more of the same
      if over > 0 {
        let old = match over {
          1 => vec![b'o'; n / 2],
          2 => vec![b'o'; n + 1 + n / 3],
          3 => vec![b'o'; n],
          4 => data.iter().enumerate().map(|(i, b)| if i + 1 == n { !b } else { *b }).collect(),
          5 => data[..n / 2].to_vec(),
          _ => [data.as_slice(), b"old"].concat(),
        };
        std::fs::write(srv.base.p("srv/root/t"), &old).map_err(|e| e.to_string())?;
        std::os::unix::fs::chown(srv.base.p("srv/root/t"), Some(65534), Some(65534)).map_err(|e| e.to_string())?;
      }
      let code = upload(&mut c, mode, "t", &[&data])?;
      if code / 100 != 2 {
        return Err(format!("upload answered {code}"));
      }
      fs = expect(&fs, "srv/root/t", &data);
      if let Some(m) = differs(&fs, &get_fs(&srv.base.dir)) {
        return Err(format!("after the upload {m}"));
      }
      for m in [mode, Mode::Pasv] {
        let (code, got) = download(&mut c, m, "t")?;
        if code / 100 != 2 || got != data {
          return Err(format!("download answered {code} with {} bytes", got.len()));
        }
      }
      if let Some(m) = differs(&fs, &get_fs(&srv.base.dir)) {
        return Err(format!("after the download {m}"));
      }
      ctx.outcome(fp(&(n, kind)));
      Ok(())
    });
    if let Err(e) = r {
      ctx.fail("transfer", format!("{n} bytes of content {kind} with {mode:?}, TYPE {typ}, existing file {over}: {e}"), json!({"size": n, "content": kind, "mode": format!("{mode:?}"), "type": typ, "existing": over}));
    }
  });
  // every way to cut 8 bytes into packets
  ctx.par("packets", 128 * 3, |i| {
    let (cuts, mode) = (i / 3, MODES[i % 3]);
    ctx.case(fp(&(2, i)), true);
    let data = b"a\r\n\0\xffb\nc";
    let mut chunks = vec![];
    let mut from = 0;
    for k in 1..=8 {
      if k == 8 || cuts >> (k - 1) & 1 == 1 {
        chunks.push(&data[from..k]);
        from = k;
      }
    }
    let r = on(|srv| {
      let mut c = session(srv)?;
      let code = upload(&mut c, mode, "t", &chunks)?;
      if code / 100 != 2 {
        return Err(format!("upload answered {code}"));
      }
      match differs(&expect(&tree(), "srv/root/t", data), &get_fs(&srv.base.dir)) {
        None => Ok(()),
        Some(m) => Err(m),
      }
    });
    if let Err(e) = r {
      ctx.fail("packets", format!("8 bytes in packets {chunks:?} with {mode:?}: {e}"), json!({"chunks": chunks.iter().map(|c| c.len()).collect::<Vec<_>>()}));
    }
  });
  // resets
  let at: Vec<usize> = (0..=32).chain([1000, 8192, 70_000, 1 << 20]).collect();
  let targets = ["t", "a", "d/f"];
  ctx.par("aborted uploads", at.len() * targets.len() * 3, |i| {
    let d = digits(i, &[at.len(), targets.len(), 3]);
    let (n, name, mode) = (at[d[0]], targets[d[1]], MODES[d[2]]);
    ctx.case(fp(&(3, i)), true);
    let data = content(2, n);
    let r = on(|srv| {
      let mut c = session(srv)?;
      let ch = Chan::new(&mut c, mode)?;
      c.send(format!("STOR {name}\r\n").as_bytes())?;
      let mut s = ch.stream()?;
      s.write_all(&data).map_err(|e| e.to_string())?;
      // the upload must be running before the reset
      match c.reply()? {
        Some(r) if r.code / 100 == 1 => {}
        r => return Err(format!("STOR answered {r:?}")),
      }
      abortive(&s);
      drop(s);
      let code = finish(&mut c)?;
      if code / 100 != 4 && code / 100 != 5 {
        return Err(format!("an aborted upload is answered with {code}"));
      }
      if let Some(m) = differs(&tree(), &get_fs(&srv.base.dir)) {
        return Err(m);
      }
      let (code, got) = download(&mut c, mode, "a")?;
      if code / 100 != 2 || got != b"file a" {
        return Err(format!("the next transfer answers {code} with {got:?}"));
      }
      Ok(())
    });
    if let Err(e) = r {
      ctx.fail("aborted upload", format!("upload to {name} with {mode:?} reset after {n} bytes: {e}"), json!({"name": name, "bytes": n, "mode": format!("{mode:?}")}));
    }
  });
  // downloads that the client ends early
  ctx.par("aborted downloads", 6 * 3 * 2, |i| {
    let d = digits(i, &[6, 3, 2]);
    let (n, mode, rst) = ([0usize, 1, 100, 65536, 300_000, 1 << 20][d[0]], MODES[d[1]], d[2] == 1);
    ctx.case(fp(&(4, i)), true);
    let big = content(2, 24 << 20);
    let r = on(|srv| {
      std::fs::write(srv.base.p("srv/root/big"), &big).map_err(|e| e.to_string())?;
      let mut c = session(srv)?;
      let ch = Chan::new(&mut c, mode)?;
      c.send(b"RETR big\r\n")?;
      let mut s = ch.stream()?;
      let mut b = vec![0; n];
      s.read_exact(&mut b).map_err(|e| e.to_string())?;
      if b != big[..n] {
        return Err("wrong data".into());
      }
      if rst {
        abortive(&s);
      }
      drop(s);
      let code = finish(&mut c)?;
      if code / 100 != 4 && code / 100 != 5 {
        return Err(format!("an aborted download of 24 MiB is answered with {code}"));
      }
      let (code, got) = download(&mut c, mode, "a")?;
      if code / 100 != 2 || got != b"file a" {
        return Err(format!("the next transfer answers {code} with {got:?}"));
      }
      Ok(())
    });
    if let Err(e) = r {
      ctx.fail("aborted download", format!("download of 24 MiB with {mode:?} ended after {n} bytes: {e}"), json!({"bytes": n, "mode": format!("{mode:?}"), "reset": rst}));
    }
  });
}

/// the data connection announced last is the one that is used
fn announcements(ctx: &Ctx) {
  let len = ctx.pick(3usize, 4);
  let mut radix = vec![3; len];
  radix.extend(vec![2; len - 1]);
  radix.push(3);
  ctx.par("announcements", radix.iter().product(), |i| {
    let d = digits(i, &radix);
    ctx.case(fp(&(9, i)), true);
    ctx.traces.fetch_add(1, SeqCst);
    let mut trace = vec![];
    let r = on(|srv| {
      let mut c = session(srv)?;
      let mut fs = tree();
      let mut unused = vec![];
      for k in 0..len {
        let mode = MODES[d[k]];
        ctx.transitions.fetch_add(1, SeqCst);
        let ch = Chan::new(&mut c, mode)?;
        if k + 1 < len && d[len + k] == 0 {
          trace.push(format!("{mode:?}"));
          unused.push(ch);
          continue;
        }
        let verb = ["RETR", "STOR", "LIST"][(d[2 * len - 1] + k) % 3];
        trace.push(format!("{mode:?} {verb}"));
        let e = |e: String| format!("step {k}, {verb} with {mode:?}: {e}");
        let data = content(2, 40 + k);
        let code = match verb {
          "STOR" => {
            c.send(b"STOR t\r\n")?;
            let mut s = ch.stream().map_err(e)?;
            s.write_all(&data).map_err(|x| e(x.to_string()))?;
            let _ = s.shutdown(Shutdown::Write);
            let code = finish(&mut c).map_err(e)?;
            fs = expect(&fs, "srv/root/t", &data);
            abortive(&s);
            code
          }
          _ => {
            let line = if verb == "RETR" { "RETR a\r\n" } else { "NLST d\r\n" };
            c.send(line.as_bytes())?;
            let mut s = ch.stream().map_err(e)?;
            let (v, open) = read_data(&mut s, WAIT);
            let code = finish(&mut c).map_err(e)?;
            if open || code / 100 != 2 {
              return Err(e(format!("answered {code}, data connection open: {open}")));
            }
            if verb == "RETR" && v != b"file a" || verb == "LIST" && v.is_empty() {
              return Err(e(format!("{} bytes of data arrive", v.len())));
            }
            code
          }
        };
        if code / 100 != 2 {
          return Err(e(format!("answered {code}")));
        }
        if let Some(m) = differs(&fs, &get_fs(&srv.base.dir)) {
          return Err(e(m));
        }
      }
      for ch in unused {
        if let Chan::Wait(l) = ch {
          l.set_nonblocking(true).unwrap();
          if l.accept().is_ok() {
            return Err("a data connection arrives where none was asked for".into());
          }
        }
      }
      Ok(())
    });
    ctx.outcome(fp(&trace));
    if let Err(e) = r {
      ctx.fail("announcements", format!("{trace:?}: {e}"), json!({"trace": trace}));
    }
  });
}

type Cmd = (&'static str, &'static str);
fn two(c: &mut [Conn; 2], m: &mut (Fs, [String; 2]), who: usize, cmd: Cmd, pay: &[u8], dir: &std::path::Path) -> Result<(), String> {
  let mut model = Model { fs: std::mem::replace(&mut m.0, Fs(Default::default())), cwd: m.1[who].clone() };
  let want = model.step(cmd.0, cmd.1, pay);
  m.0 = model.fs;
  m.1[who] = model.cwd;
  run_step(&mut c[who], MODES[who], cmd.0, cmd.1, pay, &want).map_err(|e| format!("session {who}: {} {}: {e}", cmd.0, cmd.1))?;
  match differs(&m.0, &get_fs(dir)) {
    None => Ok(()),
    Some(d) => Err(format!("session {who}: {} {}: {d}", cmd.0, cmd.1)),
  }
}
fn cwds(c: &mut [Conn; 2], m: &(Fs, [String; 2])) -> Result<(), String> {
  for k in 0..2 {
    let r = c[k].cmd("PWD")?;
    if final_reply(&r, false)? != 257 || !r[0].lines[0].contains(&format!("\"{}\"", m.1[k])) {
      return Err(format!("session {k}: working directory {:?} instead of {}", r[0].lines, m.1[k]));
    }
  }
  Ok(())
}
const PAY: [&[u8]; 2] = [b"content of session 0", b"other"];
fn interleavings(ctx: &Ctx) {
  const ALPHA: [Cmd; 9] = [("CWD", "d"), ("RMD", "/d"), ("STOR", "x"), ("MKD", "/d"), ("RETR", "/x"), ("CDUP", ""), ("DELE", "/x"), ("LIST", ""), ("STOR", "/d/f")];
  let (len, n) = ctx.pick((2usize, 9usize), (3, 6));
  let scripts = n.pow(2 * len as u32);
  // merge orders as bit masks
  let orders: Vec<u32> = (0..1u32 << (2 * len)).filter(|m| m.count_ones() as usize == len).collect();
  let states: std::sync::Mutex<std::collections::HashSet<u64>> = Default::default();
  ctx.par("interleavings", scripts * orders.len(), |i| {
    let order = orders[i % orders.len()];
    let d = digits(i / orders.len(), &vec![n; 2 * len]);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.transitions.fetch_add(2 * len as u64, SeqCst);
    let mut trace = vec![];
    let mut seen = vec![];
    let r = on(|srv| {
      let mut c = [session(srv)?, session(srv)?];
      let mut m = (tree(), ["/".to_string(), "/".to_string()]);
      let mut pos = [0, 0];
      for k in 0..2 * len {
        let who = (order >> k & 1) as usize;
        let cmd = ALPHA[d[who * len + pos[who]]];
        pos[who] += 1;
        trace.push((who, cmd));
        let dir = srv.base.dir.clone();
        two(&mut c, &mut m, who, cmd, PAY[who], &dir)?;
        seen.push(fp(&m));
      }
      cwds(&mut c, &m)
    });
    ctx.case(fp(&(5, i)), true);
    seen.last().map(|s| ctx.outcome(*s));
    states.lock().unwrap().extend(seen);
    if let Err(e) = r {
      ctx.fail("interleaving", format!("{trace:?}: {e}"), json!({"trace": format!("{trace:?}")}));
    }
  });
  ctx.states.store(states.lock().unwrap().len() as u64, SeqCst);
}
/// every command of another session at every point of a running transfer
fn running(ctx: &Ctx) {
  let other: Vec<Cmd> = vec![
    ("PWD", ""), ("CWD", "d"), ("CWD", "d/e"), ("CDUP", ""), ("MKD", "m"), ("MKD", "d/t"), ("MKD", "t"), ("RMD", "d"), ("RMD", "d/e"), ("RMD", "nope"), ("DELE", "a"), ("DELE", "d/t"), ("DELE", "t"), ("DELE", "d/f"), ("RETR", "a"), ("RETR", "t"), ("RETR", "d/t"), ("RETR", "d/f"), ("RETR", "out/secret"), ("STOR", "t"), ("STOR", "d/t"), ("STOR", "a"), ("STOR", "d/f"), ("STOR", "u"), ("STOR", "../x"), ("LIST", ""), ("LIST", "d"), ("LIST", "t"), ("LIST", "nope"), ("NLST", ""), ("NLST", "*"), ("NLST", "/"), ("CWD", "out"), ("RETR", "nope"),
  ];
  let targets = ["t", "d/t", "a", "d/f"];
  let n = other.len();
  ctx.par("during upload", n * 5 * targets.len() * 2, |i| {
    let d = digits(i, &[n, 5, targets.len(), 2]);
    let (cmd, point, target, mode) = (other[d[0]], d[1], targets[d[2]], [Mode::Epsv, Mode::Port][d[3]]);
    ctx.case(fp(&(6, i)), true);
    ctx.traces.fetch_add(1, SeqCst);
    let data = content(2, 3000);
    let r = on(|srv| {
      let dir = srv.base.dir.clone();
      let mut c = [session(srv)?, session(srv)?];
      let mut m = (tree(), ["/".to_string(), "/".to_string()]);
      let at = |p: usize, c: &mut [Conn; 2], m: &mut (Fs, [String; 2])| if p == point { two(c, m, 1, cmd, PAY[1], &dir) } else { Ok(()) };
      let ch = Chan::new(&mut c[0], mode)?;
      at(0, &mut c, &mut m)?;
      c[0].send(format!("STOR {target}\r\n").as_bytes())?;
      let mut s = ch.stream()?;
      s.set_nodelay(true).unwrap();
      match c[0].reply()? {
        Some(r) if r.code / 100 == 1 => {}
        r => return Err(format!("STOR answered {r:?}")),
      }
      at(1, &mut c, &mut m)?;
      s.write_all(&data[..1]).map_err(|e| e.to_string())?;
      at(2, &mut c, &mut m)?;
      s.write_all(&data[1..]).map_err(|e| e.to_string())?;
      at(3, &mut c, &mut m)?;
      let _ = s.shutdown(Shutdown::Write);
      let code = finish(&mut c[0])?;
      let mut model = Model { fs: m.0.clone(), cwd: "/".into() };
      let want = model.step("STOR", target, &data);
      m.0 = model.fs;
      if (code / 100 == 2) != want.ok {
        return Err(format!("upload answered {code}"));
      }
      at(4, &mut c, &mut m)?;
      if let Some(x) = differs(&m.0, &get_fs(&dir)) {
        return Err(format!("after the upload {x}"));
      }
      ctx.outcome(fp(&m));
      cwds(&mut c, &m)
    });
    if let Err(e) = r {
      ctx.fail("during upload", format!("upload to {target} with {mode:?}, other session does {cmd:?} at point {point}: {e}"), json!({"target": target, "command": format!("{cmd:?}"), "point": point}));
    }
  });
  ctx.par("during download", n * 3 * 2, |i| {
    let d = digits(i, &[n, 3, 2]);
    let (cmd, point, mode) = (other[d[0]], d[1], [Mode::Pasv, Mode::Port][d[2]]);
    ctx.case(fp(&(7, i)), true);
    ctx.traces.fetch_add(1, SeqCst);
    let big = content(2, 8 << 20);
    let r = on(|srv| {
      let dir = srv.base.dir.clone();
      std::fs::write(dir.join("srv/root/big"), &big).map_err(|e| e.to_string())?;
      let mut c = [session(srv)?, session(srv)?];
      let mut m = (expect(&tree(), "srv/root/big", &big), ["/".to_string(), "/".to_string()]);
      let ch = Chan::new(&mut c[0], mode)?;
      c[0].send(b"RETR big\r\n")?;
      let mut s = ch.stream()?;
      if point == 0 {
        two(&mut c, &mut m, 1, cmd, PAY[1], &dir)?;
      }
      let mut b = vec![0; 100_000];
      s.read_exact(&mut b).map_err(|e| e.to_string())?;
      if point == 1 {
        two(&mut c, &mut m, 1, cmd, PAY[1], &dir)?;
      }
      let (rest, open) = read_data(&mut s, WAIT);
      b.extend(rest);
      if open || b != big {
        return Err(format!("{} bytes received, open {open}", b.len()));
      }
      let code = finish(&mut c[0])?;
      if code / 100 != 2 {
        return Err(format!("download answered {code}"));
      }
      if point == 2 {
        two(&mut c, &mut m, 1, cmd, PAY[1], &dir)?;
      }
      cwds(&mut c, &m)
    });
    if let Err(e) = r {
      ctx.fail("during download", format!("download with {mode:?}, other session does {cmd:?} at point {point}: {e}"), json!({"command": format!("{cmd:?}"), "point": point}));
    }
  });
  // two uploads to the same file: all merges of [STOR, half, half, end] x 2
  let orders: Vec<u32> = (0..256u32).filter(|m| m.count_ones() == 4).collect();
  ctx.par("two uploads", orders.len() * targets.len(), |i| {
    let (order, target) = (orders[i / targets.len()], targets[i % targets.len()]);
    ctx.case(fp(&(8, i)), true);
    ctx.traces.fetch_add(1, SeqCst);
    let data = [content(2, 5000), content(1, 700)];
    let r = on(|srv| {
      let mut c = [session(srv)?, session(srv)?];
      let mut s = [passive(&mut c[0], Mode::Pasv)?, passive(&mut c[1], Mode::Epsv)?];
      let mut pos = [0, 0];
      let mut last = 0;
      for k in 0..8 {
        let w = (order >> k & 1) as usize;
        let h = data[w].len() / 2;
        match pos[w] {
          0 => {
            c[w].send(format!("STOR {target}\r\n").as_bytes())?;
            match c[w].reply()? {
              Some(r) if r.code / 100 == 1 => {}
              r => return Err(format!("STOR answered {r:?}")),
            }
          }
          1 => s[w].write_all(&data[w][..h]).map_err(|e| e.to_string())?,
          2 => s[w].write_all(&data[w][h..]).map_err(|e| e.to_string())?,
          _ => {
            let _ = s[w].shutdown(Shutdown::Write);
            let code = finish(&mut c[w])?;
            if code / 100 != 2 {
              return Err(format!("upload {w} answered {code}"));
            }
            last = w;
          }
        }
        pos[w] += 1;
      }
      match differs(&expect(&tree(), &format!("srv/root/{target}"), &data[last]), &get_fs(&srv.base.dir)) {
        None => Ok(()),
        Some(m) => Err(m),
      }
    });
    if let Err(e) = r {
      ctx.fail("two uploads", format!("two uploads to {target}, order {order:08b}: {e}"), json!({"target": target, "order": order}));
    }
  });
}
pub fn run(ctx: &Ctx) {
  ctx.hang_limit.store(90, SeqCst);
  fidelity(ctx);
  announcements(ctx);
  running(ctx);
  interleavings(ctx);
}
