//! C22: every FTP command gets exactly one final reply, in order, however it is framed.
use super::c20::with_server;
use super::ftpkit::*;
use crate::Level;
use crate::ctx::*;
use bytes::BytesMut;
use embedftp::codec::FtpCodec;
use embedftp::ftp::{Answer, ResultCode};
use serde_json::json;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::Ordering::*;
use std::time::Duration;
use tokio_util::codec::{Decoder, Encoder};

pub fn level() -> Level {
  Level {
    level: "model_checking",
    rule: "Decoder: every byte string of the bounded alphabet is decoded at once and in every two-part and byte-wise chunking; commands and rest must be those of splitting at CRLF. Encoder: every reply is read back by an independent RFC 959 reply parser. Sessions: every sequence of command lines is executed line by line, in one packet and byte by byte on the real server; each line must get exactly one final reply of the expected class (after at most one preliminary reply for transfers), the three executions must answer the same, nothing may be executed after QUIT, and the session must stay usable. Non-trivial: the string contains CRLF or the sequence is not empty.",
    bounds: "decoder: all strings up to length 6 (thorough 7) of an alphabet of 7 bytes; encoder: all reply codes x 12 messages x all lists of up to 2 lines of 8; sessions: 76 command lines (valid, malformed, missing arguments, invalid UTF-8, control bytes, 5000 bytes long) in 6 session states, all pairs of 76 (thorough: all triples of 26) after login",
    assumptions: &["the client connects to announced passive ports", "IPv4"],
  }
}

// ---------------------------------------------------------------- framing
fn decode(chunks: &[&[u8]]) -> Result<(Vec<String>, Vec<u8>), String> {
  let mut codec = FtpCodec;
  let mut buf = BytesMut::new();
  let mut out = vec![];
  for c in chunks {
    buf.extend_from_slice(c);
    loop {
      match codec.decode(&mut buf) {
        Ok(Some(c)) => out.push(format!("{c:?}")),
        Ok(None) => break,
        Err(e) => return Err(format!("error {e} for a command line")),
      }
    }
  }
  Ok((out, buf.to_vec()))
}
fn split(b: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
  let mut v = vec![];
  let mut rest = b;
  while let Some(k) = rest.windows(2).position(|w| w == b"\r\n") {
    v.push(rest[..k].to_vec());
    rest = &rest[k + 2..];
  }
  (v, rest.to_vec())
}
fn framing(ctx: &Ctx) {
  let alpha: [u8; 7] = [b'P', b'W', b'D', b' ', b'\r', b'\n', 0xff];
  let n = ctx.pick(6u32, 7);
  let total: usize = (0..=n).map(|k| 7usize.pow(k)).sum();
  ctx.par("decoder", total, |mut i| {
    let id = i;
    let mut k = 0;
    while i >= 7usize.pow(k) {
      i -= 7usize.pow(k);
      k += 1;
    }
    let s: Vec<u8> = digits(i, &vec![7; k as usize]).into_iter().map(|d| alpha[d]).collect();
    let (lines, rest) = split(&s);
    ctx.case(fp(&(1, id)), !lines.is_empty());
    let fail = |m: String| ctx.fail("framing", format!("{:?}: {m}", String::from_utf8_lossy(&s)), json!({"bytes": s}));
    let r = ctx.guard(|| {
      let (cmds, r) = decode(&[&s])?;
      ctx.outcome(fp(&cmds));
      if r != rest || cmds.len() != lines.len() {
        return Err(format!("{} commands with rest {r:?} instead of {} with {rest:?}", cmds.len(), lines.len()));
      }
      // each line on its own gives the same command
      for (l, c) in lines.iter().zip(&cmds) {
        let mut one = l.clone();
        one.extend(b"\r\n");
        if decode(&[&one])?.0 != [c.clone()] {
          return Err(format!("line {l:?} decoded differently on its own"));
        }
      }
      for cut in 1..s.len() {
        if decode(&[&s[..cut], &s[cut..]])? != (cmds.clone(), rest.clone()) {
          return Err(format!("different when split at byte {cut}"));
        }
      }
      let single: Vec<&[u8]> = s.chunks(1).collect();
      if decode(&single)? != (cmds, rest.clone()) {
        return Err("different byte by byte".into());
      }
      Ok(())
    });
    match r {
      Err(p) => fail(format!("panic {p}")),
      Ok(Err(e)) => fail(e),
      Ok(Ok(())) => {}
    }
  });
  // replies
  use ResultCode as R;
  let codes = [
    (R::RestartMarkerReply, 110), (R::DataConnectionAlreadyOpen, 125), (R::FileStatusOk, 150), (R::Ok, 200), (R::SystemStatus, 211), (R::HelpMessage, 214), (R::SystemType, 215), (R::ServiceReadyForNewUser, 220), (R::ServiceClosingControlConnection, 221), (R::ClosingDataConnection, 226), (R::EnteringPassiveMode, 227), (R::ExtendedEnteringPassiveMode, 229), (R::UserLoggedIn, 230), (R::RequestedFileActionOkay, 250), (R::PATHNAMECreated, 257), (R::UserNameOkayNeedPassword, 331), (R::ServiceNotAvailable, 421), (R::CantOpenDataConnection, 425), (R::ConnectionClosed, 426), (R::LocalErrorInProcessing, 451), (R::UnknownCommand, 500), (R::InvalidParameterOrArgument, 501), (R::CommandNotImplemented, 502), (R::BadSequenceOfCommands, 503), (R::NotLoggedIn, 530), (R::FileNotFound, 550), (R::FileNameNotAllowed, 553),
  ];
  let msgs = ["", "x", "two words", "211 end", "-", " lead", "(127,0,0,1,2,3)", "ü", "226", "\"/a\"", "a\tb", "200-"];
  let ls = ["UTF8", "211 end", "200", "226 done", " x", "", "200-a", "530 no"];
  let lists: Vec<Vec<&str>> = std::iter::once(vec![]).chain(ls.iter().map(|a| vec![*a])).chain(ls.iter().flat_map(|a| ls.iter().map(move |b| vec![*a, *b]))).collect();
  ctx.par("encoder", codes.len() * msgs.len() * lists.len(), |i| {
    let d = digits(i, &[codes.len(), msgs.len(), lists.len()]);
    let ((code, num), msg, lines) = (codes[d[0]], msgs[d[1]], &lists[d[2]]);
    ctx.case(fp(&(2, i)), true);
    let fail = |m: String| ctx.fail("reply format", format!("{num} {msg:?} {lines:?}: {m}"), json!({"code": num, "message": msg, "lines": lines}));
    let mut buf = BytesMut::new();
    let own: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
    let a = if lines.is_empty() { Answer::new(code, msg) } else { Answer::new_multiline(code, msg, &own) };
    if FtpCodec.encode(a, &mut buf).is_err() {
      return fail("not encoded".into());
    }
    let (got, rest) = split(&buf);
    ctx.outcome(fp(&got));
    if !rest.is_empty() {
      return fail("does not end with CRLF".into());
    }
    let got: Vec<String> = got.iter().map(|l| String::from_utf8_lossy(l).to_string()).collect();
    let plain = num.to_string();
    if lines.is_empty() {
      let want = if msg.is_empty() { plain } else { format!("{num} {msg}") };
      if got != [want] {
        fail(format!("{got:?}"));
      }
      return;
    }
    // first "code-", last "code " and nothing in between that could be taken for the end
    let end = got.iter().position(|l| l.starts_with(&format!("{num} ")) || *l == plain);
    if !got[0].starts_with(&format!("{num}-")) || !got[0].ends_with(msg) || end != Some(got.len() - 1) {
      return fail(format!("not one complete multi-line reply: {got:?}"));
    }
    let body: Vec<&str> = got[1..got.len() - 1].iter().map(|s| s.trim_start()).collect();
    if body != lines.iter().map(|s| s.trim_start()).collect::<Vec<_>>() {
      fail(format!("lines {body:?}"));
    }
  });
}

// ---------------------------------------------------------------- sessions
/// command line and the class of its final reply in a fresh logged-in session without data connection
fn lines() -> Vec<(Vec<u8>, char)> {
  let mut v: Vec<(Vec<u8>, char)> = vec![];
  let mut add = |c: char, l: &[&[u8]]| v.extend(l.iter().map(|x| (x.to_vec(), c)));
  // the first 26 also take part in the sequences of three
  add('2', &[b"NOOP", b"PWD", b"CDUP", b"CWD d", b"MKD m", b"RMD d", b"DELE a", b"TYPE I", b"PASV", b"EPSV", b"PORT @", b"PORT !", b"EPSV ALL"]);
  add('3', &[b"USER bob"]);
  add('5', &[b"PASS secret", b"XYZZY", b"RETR", b"CWD nope"]);
  add('4', &[b"LIST", b"NLST", b"RETR a", b"STOR n", b"LIST nope", b"RETR nope", b"STOR ../n"]);
  add('2', &[b"QUIT"]);
  add('2', &[b"FEAT", b"TYPE A", b"EPSV 1", b"noop", b"NOOP ", b"pwd", b"CWD", b"CWD ", b"MKD", b"EPSV x"]);
  add('4', &[b"LIST d", b"LIST /", b"NLST ***", b"NLST /", b"NLST [", b"RETR d", b"RETR ", b"STOR nope/n", b"STOR d", b"STOR ", b"LIST \xff", b"NLST \xff"]);
  add('5', &[b"AUTH TLS", b"", b" ", b"STOR", b"USER", b"USER ", b"USER nobody", b"PASS", b"TYPE", b"TYPE ", b"TYPE X", b"PORT", b"PORT 1,2,3", b"PORT 127,0,0,1,0,1", b"PORT a,b,c,d,e,f", b"PORT 1,2,3,4,5,6,7"]);
  add('5', &[b"RMD", b"DELE", b"CWD \xff", b"\xff\xfe", b"RETR \xff", b"USER \xff", b"\0", b"NOOP\n", b"\r", b"MKD \xff"]);
  for (l, c) in v.iter_mut() {
    if matches!(l.as_slice(), b"CWD" | b"MKD") {
      *c = '5';
    }
  }
  v.push((vec![b'A'; 5000], '5'));
  v.push(([b"CWD ".to_vec(), vec![b'x'; 5000]].concat(), '5'));
  v
}
fn is_transfer_line(l: &[u8]) -> bool {
  [&b"LIST"[..], b"NLST", b"RETR", b"STOR"].iter().any(|v| l.starts_with(v))
}
thread_local!(static ACC: RefCell<Option<(u16, u16)>> = const { RefCell::new(None) });
/// (port with a listener which accepts data connections and ends uploads at once, port without a listener)
fn ports() -> (u16, u16) {
  ACC.with(|a| {
    *a.borrow_mut().get_or_insert_with(|| {
      let l = TcpListener::bind("127.0.0.1:0").unwrap();
      let p = l.local_addr().unwrap().port();
      std::thread::spawn(move || {
        for s in l.incoming().flatten() {
          let _ = s.shutdown(std::net::Shutdown::Write);
          read_data(&mut { s }, Duration::from_secs(2));
        }
      });
      // bound, but not listening: connections are refused
      let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
      let mut sa: libc::sockaddr_in = unsafe { std::mem::zeroed() };
      sa.sin_family = libc::AF_INET as u16;
      sa.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
      let mut len = std::mem::size_of_val(&sa) as u32;
      unsafe {
        assert_eq!(libc::bind(fd, &sa as *const _ as *const libc::sockaddr, len), 0);
        libc::getsockname(fd, &mut sa as *mut _ as *mut libc::sockaddr, &mut len);
      }
      (p, u16::from_be(sa.sin_port))
    })
  })
}
fn subst(l: &[u8]) -> Vec<u8> {
  let (a, b) = ports();
  match l {
    b"PORT @" => format!("PORT 127,0,0,1,{},{}", a >> 8, a & 255).into_bytes(),
    b"PORT !" => format!("PORT 127,0,0,1,{},{}", b >> 8, b & 255).into_bytes(),
    l => l.to_vec(),
  }
}
/// reads the next reply; announced passive ports are connected at once
fn next(c: &mut Conn, data: &mut Vec<TcpStream>) -> Result<Option<Reply>, String> {
  let Some(r) = c.reply()? else { return Ok(None) };
  if r.code == 227 || r.code == 229 {
    let port = passive_port(&r)?;
    let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("announced port {port}: {e}"))?;
    let _ = s.shutdown(std::net::Shutdown::Write);
    data.push(s);
  }
  Ok(Some(r))
}
/// text of a reply without port numbers
fn key(r: &Reply) -> (u32, String) {
  (r.code, if matches!(r.code, 227 | 229 | 200) { String::new() } else { r.lines.join("|") })
}
const STATES: [(&str, &[&str]); 6] =
  [("fresh", &[]), ("user", &["USER bob"]), ("in", &["USER bob", "PASS secret"]), ("pasv", &["USER bob", "PASS secret", "PASV"]), ("port", &["USER bob", "PASS secret", "PORT @"]), ("refused", &["USER bob", "PASS secret", "PASV", "PORT !"])];
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
  Steps,
  Packet,
  Bytes,
}
type Answers = (Vec<(u32, String)>, crate::refs::ftp::Fs);
/// executes the lines; returns the replies to them and the tree
fn execute(srv: &mut Server, prelude: &[&str], seq: &[&[u8]], how: How) -> Result<Answers, String> {
  let mut c = Conn::open(srv.addr)?;
  let mut data = vec![];
  for p in prelude {
    let l = subst(p.as_bytes());
    c.send(&[&l[..], b"\r\n"].concat())?;
    match next(&mut c, &mut data)? {
      Some(r) if matches!(r.code / 100, 2 | 3) => {}
      r => return Err(format!("{p} answered {r:?}")),
    }
  }
  let mut out = vec![];
  let mut quit = false;
  if how == How::Steps {
    for l in seq {
      let l = subst(l);
      if c.send(&[&l[..], b"\r\nSYST\r\n"].concat()).is_err() || quit {
        break;
      }
      let mut n = 0;
      loop {
        match next(&mut c, &mut data).map_err(|e| format!("{:?}: {e}", String::from_utf8_lossy(&l)))? {
          None if l.starts_with(b"QUIT") => {
            quit = true;
            break;
          }
          None => return Err(format!("{:?} ends the session", String::from_utf8_lossy(&l[..l.len().min(30)]))),
          Some(r) if r.code == 215 => break,
          Some(r) => {
            n += (r.code / 100 != 1) as usize;
            if r.code / 100 == 1 && (!is_transfer_line(&l) || n > 0) {
              return Err(format!("{:?}: preliminary reply {:?}", String::from_utf8_lossy(&l), r.lines));
            }
            out.push(key(&r));
          }
        }
      }
      if n != 1 {
        return Err(format!("{:?} got {n} final replies: {:?}", String::from_utf8_lossy(&l[..l.len().min(30)]), out));
      }
    }
    if !quit {
      let _ = c.send(b"QUIT\r\n");
    }
  } else {
    let mut all = vec![];
    for l in seq {
      all.extend(subst(l));
      all.extend(b"\r\n");
    }
    all.extend(b"QUIT\r\n");
    if how == How::Packet {
      c.send(&all)?;
    } else {
      for b in all.chunks(1) {
        if c.s.write_all(b).is_err() {
          break;
        }
      }
    }
    while let Some(r) = next(&mut c, &mut data)? {
      out.push(key(&r));
    }
    // the final QUIT is only answered if none came before
    if !seq.contains(&&b"QUIT"[..]) {
      match out.pop() {
        Some((221, _)) => {}
        r => return Err(format!("last reply {r:?} instead of 221; before: {out:?}")),
      }
    }
  }
  drop(data);
  let mut b = [0; 16];
  if how == How::Steps && !quit {
    match c.reply()? {
      Some(r) if r.code == 221 => {}
      r => return Err(format!("QUIT answered {r:?}")),
    }
  }
  c.s.set_read_timeout(Some(WAIT)).unwrap();
  match c.s.read(&mut b) {
    Ok(0) => {}
    Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => {}
    r => return Err(format!("connection not closed after QUIT: {r:?}")),
  }
  Ok((out, get_fs(&srv.base.dir)))
}
fn show(seq: &[&[u8]]) -> Vec<String> {
  seq.iter().map(|l| String::from_utf8_lossy(&l[..l.len().min(30)]).to_string()).collect()
}
fn case(ctx: &Ctx, id: u64, prelude: &[&str], seq: &[&[u8]], class: Option<char>) {
  let start = tree();
  ctx.case(fp(&(3, id)), !seq.is_empty());
  ctx.transitions.fetch_add(seq.len() as u64 * 3, SeqCst);
  let fail = |k: &str, m: String| ctx.fail(k, format!("{prelude:?} then {:?}: {m}", show(seq)), json!({"prelude": prelude, "commands": show(seq)}));
  let mut first: Option<Answers> = None;
  for how in [How::Steps, How::Packet, How::Bytes] {
    if how == How::Bytes && seq.iter().any(|l| l.len() > 1000) {
      continue;
    }
    let r = with_server(&Conf::open(), |srv| {
      let r = execute(srv, prelude, seq, how);
      if get_fs(&srv.base.dir) != start {
        put_fs(&srv.base.dir, &start);
      }
      r
    });
    let a = match r {
      Err(e) | Ok(Err(e)) => return fail("replies", format!("{how:?}: {e}")),
      Ok(Ok(a)) => a,
    };
    ctx.outcome(fp(&a));
    match &first {
      None => {
        if let Some(k) = seq.iter().position(|l| *l == b"QUIT") {
          // nothing after QUIT may have happened
          let finals = a.0.iter().filter(|r| r.0 / 100 != 1).count();
          if finals != k + 1 {
            return fail("quit", format!("{finals} final replies"));
          }
        }
        if let Some(c) = class {
          let got = a.0.last().map(|r| r.0 / 100);
          if got != c.to_digit(10) {
            return fail("class", format!("answered {:?}, expected {c}xx", a.0));
          }
        }
        first = Some(a);
      }
      Some(f) if f.0 != a.0 => return fail("framing changes replies", format!("{how:?} answered {:?}, line by line {:?}", a.0, f.0)),
      Some(f) if f.1 != a.1 => return fail("framing changes effect", format!("{how:?}: another tree results than line by line")),
      _ => {}
    }
  }
}
pub fn run(ctx: &Ctx) {
  ctx.hang_limit.store(90, SeqCst);
  framing(ctx);
  let ls = lines();
  let n = ls.len();
  // every line in every state
  ctx.par("states", n * STATES.len(), |i| {
    let (state, (l, class)) = (STATES[i / n], &ls[i % n]);
    ctx.traces.fetch_add(1, SeqCst);
    let class = (state.0 == "in").then_some(*class);
    case(ctx, i as u64, state.1, &[l], class);
  });
  ctx.states.store(STATES.len() as u64, SeqCst);
  ctx.par("pairs", n * n, |i| {
    ctx.traces.fetch_add(1, SeqCst);
    case(ctx, (1 << 32) + i as u64, STATES[2].1, &[&ls[i / n].0, &ls[i % n].0], None);
  });
  if !ctx.quick() {
    ctx.par("triples", 26 * 26 * 26, |i| {
      ctx.traces.fetch_add(1, SeqCst);
      let d = digits(i, &[26, 26, 26]);
      case(ctx, (2 << 32) + i as u64, STATES[2].1, &[&ls[d[0]].0, &ls[d[1]].0, &ls[d[2]].0], None);
    });
  }
}
