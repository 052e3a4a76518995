mod checks;
mod cli;
mod ctx;
mod fix;
mod memcap;
mod refs;
use ctx::*;
use std::path::PathBuf;
use std::sync::Arc;

#[global_allocator]
static ALLOC: memcap::Cap = memcap::Cap;

pub struct Level {
  pub level: &'static str,
  pub rule: &'static str,
  pub bounds: &'static str,
  pub assumptions: &'static [&'static str],
}

pub fn level_of(id: &str) -> Level {
  checks::table().into_iter().find(|c| c.id == id).map(|c| (c.level)()).expect("unknown property")
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
  let _ = std::fs::create_dir_all(root.join("replays"));
  if args.len() < 3 {
    eprintln!("usage: mc run|exec <ID> <quick|thorough>");
    std::process::exit(2);
  }
  if args[1] == "helper" {
    checks::helper(&args[2..]);
    return;
  }
  let id = args[2].clone();
  let tier = match args.get(3).map(|s| s.as_str()) {
    Some("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  };
  let Some(check) = checks::table().into_iter().find(|c| c.id == id) else {
    eprintln!("unknown property {id}");
    std::process::exit(2);
  };
  match args[1].as_str() {
    "run" => supervise(&args, &id, &root),
    "exec" => {
      let ctx = Arc::new(Ctx::new(&id, tier, root));
      ctx.spawn_watchdog();
      if std::env::var("MC_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
      }
      (check.run)(&ctx);
      ctx.write_evidence();
      std::process::exit(if ctx.nviol() > 0 { 1 } else { 0 });
    }
    _ => std::process::exit(2),
  }
}

/// Runs the explorer in a child process so that an abort / stack overflow of the code under test is a verdict, not an engine crash.
fn supervise(args: &[String], id: &str, root: &PathBuf) {
  use std::os::unix::process::ExitStatusExt;
  let exe = std::env::current_exe().unwrap();
  let mut died: Vec<(i32, String)> = vec![];
  for _attempt in 0..2 {
    let st = std::process::Command::new(&exe).arg("exec").args(&args[2..]).status().expect("spawn explorer");
    if let Some(code) = st.code() {
      std::process::exit(if code == 0 || code == 1 { code } else { 2 });
    }
    let sig = st.signal().unwrap_or(0);
    let stage = std::fs::read_to_string(root.join("replays").join(format!(".stage-{id}"))).unwrap_or_default();
    eprintln!("explorer died with signal {sig} in stage '{stage}'");
    died.push((sig, stage));
    if sig == 9 || sig == 15 || sig == 2 {
      std::process::exit(2);
    }
  }
  if died[0] == died[1] {
    let path = root.join("replays").join(format!("{id}-abort.json"));
    let doc = serde_json::json!({"property": id, "what": format!("code under test aborted the process with signal {} (reproduced twice)", died[0].0), "stage": died[0].1});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    println!("VIOLATION property={} replay={}", id, path.display());
    std::process::exit(1);
  }
  std::process::exit(2);
}
