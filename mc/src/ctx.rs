//! Exploration context: counting, violation reporting, evidence, watchdog.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 64;
pub const MAX_VIOLATIONS: usize = 3;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

struct Slot {
  started: Option<Instant>,
  label: String,
}

pub struct Ctx {
  pub id: String,
  pub tier: Tier,
  pub seed: u64,
  pub root: PathBuf,
  start: Instant,
  evals: AtomicU64,
  nontrivial: Vec<Mutex<HashSet<u64>>>,
  outcomes: Vec<Mutex<HashSet<u64>>>,
  samples: Mutex<Vec<Value>>,
  sample_keys: Mutex<HashMap<String, usize>>,
  violations: Mutex<Vec<String>>,
  known: HashMap<String, String>,
  known_hit: Mutex<BTreeMap<String, u64>>,
  pub counters: Mutex<BTreeMap<String, u64>>,
  pub states: AtomicU64,
  pub transitions: AtomicU64,
  pub traces: AtomicU64,
  slots: Mutex<Vec<std::sync::Arc<Mutex<Slot>>>>,
  pub stop: AtomicBool,
  pub hang_limit: AtomicU64,
  stage: Mutex<String>,
}

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

/// Deterministic generator for *content* of enumerated shapes (never for choosing which cases to run).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(s: u64) -> Self {
    Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    self.next() % n
  }
}

impl Ctx {
  pub fn new(id: &str, tier: Tier, root: PathBuf) -> Self {
    let mut known = HashMap::new();
    if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
      for line in text.lines() {
        // KNOWN property=<id> key=<key> :: text
        if let Some(rest) = line.strip_prefix("KNOWN ") {
          let mut prop = "";
          let mut key = "";
          let (head, txt) = rest.split_once(" :: ").unwrap_or((rest, ""));
          for w in head.split_whitespace() {
            if let Some(v) = w.strip_prefix("property=") {
              prop = v
            }
            if let Some(v) = w.strip_prefix("key=") {
              key = v
            }
          }
          if prop == id {
            known.insert(key.to_string(), txt.to_string());
          }
        }
      }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    Ctx {
      id: id.to_string(),
      tier,
      seed,
      root,
      start: Instant::now(),
      evals: AtomicU64::new(0),
      nontrivial: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
      outcomes: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
      samples: Mutex::new(vec![]),
      sample_keys: Mutex::new(HashMap::new()),
      violations: Mutex::new(vec![]),
      known,
      known_hit: Mutex::new(BTreeMap::new()),
      counters: Mutex::new(BTreeMap::new()),
      states: AtomicU64::new(0),
      transitions: AtomicU64::new(0),
      traces: AtomicU64::new(0),
      slots: Mutex::new(vec![]),
      stop: AtomicBool::new(false),
      hang_limit: AtomicU64::new(120),
      stage: Mutex::new(String::new()),
    }
  }
  pub fn quick(&self) -> bool {
    self.tier == Tier::Quick
  }
  /// pick(quick, thorough)
  pub fn pick<T>(&self, q: T, t: T) -> T {
    if self.quick() { q } else { t }
  }
  pub fn stopped(&self) -> bool {
    self.stop.load(Relaxed)
  }
  pub fn stage(&self, s: &str) {
    *self.stage.lock().unwrap() = s.to_string();
    let _ = std::fs::write(self.root.join("replays").join(format!(".stage-{}", self.id)), s);
    if std::env::var("MC_VERBOSE").is_ok() {
      eprintln!("[{:7.1}s] {} evals={}", self.start.elapsed().as_secs_f64(), s, self.evals.load(Relaxed));
    }
  }
  /// Count one executed case. `fingerprint` identifies it; `nontrivial` by the rule of the check.
  pub fn case(&self, fingerprint: u64, nontrivial: bool) {
    self.evals.fetch_add(1, Relaxed);
    if nontrivial {
      self.nontrivial[(fingerprint >> 7) as usize % SHARDS].lock().unwrap().insert(fingerprint);
    }
  }
  pub fn outcome(&self, o: u64) {
    self.outcomes[(o >> 7) as usize % SHARDS].lock().unwrap().insert(o);
  }
  pub fn count(&self, name: &str, n: u64) {
    *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
  }
  /// keep up to two samples per key
  pub fn sample(&self, key: &str, f: impl FnOnce() -> Value) {
    let mut k = self.sample_keys.lock().unwrap();
    let c = k.entry(key.to_string()).or_insert(0);
    if *c < 2 {
      *c += 1;
      drop(k);
      self.samples.lock().unwrap().push(json!({"group": key, "case": f()}));
    }
  }
  /// Report a violation. `key` is a stable identifier (input, call site or history) for the known-findings file.
  pub fn fail(&self, key: &str, msg: String, replay: Value) {
    if let Some(text) = self.known.get(key) {
      let mut h = self.known_hit.lock().unwrap();
      let e = h.entry(key.to_string()).or_insert(0);
      *e += 1;
      if *e == 1 {
        println!("KNOWN-FINDING: property={} {} [{}]", self.id, text, key);
      }
      return;
    }
    let mut v = self.violations.lock().unwrap();
    if v.len() >= MAX_VIOLATIONS {
      self.stop.store(true, Relaxed);
      return;
    }
    let path = self.root.join("replays").join(format!("{}-{}.json", self.id, v.len() + 1));
    let doc = json!({
      "property": self.id, "tier": format!("{:?}", self.tier), "stage": *self.stage.lock().unwrap(),
      "key": key, "what": msg, "case": replay,
      "rerun": format!("cd {} && ./check.sh {} {}", self.root.display(), self.id, if self.quick() {"quick"} else {"thorough"}),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    println!("  {} [{}]: {}", self.id, key, msg.chars().take(600).collect::<String>());
    println!("VIOLATION property={} replay={}", self.id, path.display());
    v.push(key.to_string());
    if v.len() >= MAX_VIOLATIONS {
      self.stop.store(true, Relaxed);
    }
  }
  pub fn nviol(&self) -> usize {
    self.violations.lock().unwrap().len()
  }

  /// Run code under test; a panic becomes Err(text).
  pub fn guard<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
      let s = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into());
      format!("panic: {s}")
    })
  }

  /// Exhaustively run f(i) for i in 0..n on all cores. Panics in f escaping guard() are violations.
  pub fn par<F: Fn(usize) + Sync>(&self, label: &str, n: usize, f: F) {
    self.par_threads(label, n, std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8), f)
  }
  pub fn par_threads<F: Fn(usize) + Sync>(&self, label: &str, n: usize, threads: usize, f: F) {
    self.stage(label);
    let next = AtomicUsize::new(0);
    let chunk = (n / (threads * 64)).clamp(1, 4096);
    std::thread::scope(|s| {
      for _ in 0..threads.min(n.max(1)) {
        let slot = std::sync::Arc::new(Mutex::new(Slot { started: None, label: String::new() }));
        self.slots.lock().unwrap().push(slot.clone());
        let (next, f) = (&next, &f);
        std::thread::Builder::new()
          .stack_size(16 << 20)
          .spawn_scoped(s, move || {
            loop {
              let base = next.fetch_add(chunk, Relaxed);
              if base >= n || self.stopped() {
                break;
              }
              for i in base..(base + chunk).min(n) {
                if self.stopped() {
                  break;
                }
                {
                  let mut g = slot.lock().unwrap();
                  g.started = Some(Instant::now());
                  if g.label.is_empty() {
                    g.label = label.to_string();
                  }
                  g.label.truncate(label.len());
                  use std::fmt::Write;
                  let _ = write!(g.label, "#{}", i);
                }
                if let Err(e) = self.guard(|| f(i)) {
                  self.fail(&format!("{label}:panic"), format!("unexpected {e} in {label} case {i}"), json!({"group": label, "index": i}));
                }
                slot.lock().unwrap().started = None;
              }
            }
          })
          .unwrap();
      }
    });
    self.slots.lock().unwrap().clear();
  }

  pub fn spawn_watchdog(self: &std::sync::Arc<Self>) {
    let me = self.clone();
    std::thread::spawn(move || {
      loop {
        std::thread::sleep(Duration::from_millis(500));
        let slots = me.slots.lock().unwrap().clone();
        let limit = me.hang_limit.load(Relaxed);
        for s in slots {
          let (t, l) = {
            let g = s.lock().unwrap();
            (g.started, g.label.clone())
          };
          if let Some(t) = t {
            let mem = crate::memcap::EXCEEDED.load(SeqCst);
            if t.elapsed() > Duration::from_secs(if mem > 0 { limit.min(10) } else { limit }) {
              if mem > 0 {
                me.fail("memory", format!("memory demand of {mem} bytes for a small input: {l}"), json!({"group": l}));
              } else {
                me.fail("hang", format!("case did not terminate within {limit} s: {l}"), json!({"group": l}));
              }
              let n = me.nviol();
              me.write_evidence();
              std::process::exit(if n > 0 { 1 } else { 0 });
            }
          }
        }
      }
    });
  }

  pub fn write_evidence(&self) {
    let lv = crate::level_of(&self.id);
    let distinct: usize = self.nontrivial.iter().map(|s| s.lock().unwrap().len()).sum();
    let outcomes: usize = self.outcomes.iter().map(|s| s.lock().unwrap().len()).sum();
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(self.evals.load(Relaxed)));
    cov.insert("distinct_nontrivial".into(), json!(distinct));
    cov.insert("distinct_outcomes".into(), json!(outcomes));
    cov.insert("rule".into(), json!(lv.rule));
    cov.insert("bounds".into(), json!(lv.bounds));
    cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
    cov.insert("exhaustive".into(), json!(!self.stopped() && self.nviol() == 0));
    cov.insert("counters".into(), json!(*self.counters.lock().unwrap()));
    if lv.level == "model_checking" {
      cov.insert("states".into(), json!(self.states.load(Relaxed)));
      cov.insert("transitions".into(), json!(self.transitions.load(Relaxed)));
      cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Relaxed)));
    }
    let known: Vec<_> = self.known_hit.lock().unwrap().iter().map(|(k, n)| json!({"key": k, "cases": n})).collect();
    if !known.is_empty() {
      cov.insert("known_findings_hit".into(), json!(known));
    }
    let ev = json!({
      "property": self.id,
      "tier": if self.quick() {"quick"} else {"thorough"},
      "seed": self.seed,
      "level": lv.level,
      "coverage": cov,
      "assumptions": lv.assumptions,
      "wall_s": self.start.elapsed().as_secs_f64(),
      "violations": self.nviol(),
    });
    let dir = self.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
  }
}

/// Mixed-radix enumeration helper: decode index into digits.
pub fn digits(mut i: usize, radix: &[usize]) -> Vec<usize> {
  radix
    .iter()
    .map(|r| {
      let d = i % r;
      i /= r;
      d
    })
    .collect()
}
pub fn space(radix: &[usize]) -> usize {
  radix.iter().product()
}
