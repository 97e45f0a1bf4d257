//! Seeded search over runs, minimisation, replay files, known findings and evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::choices::{hash_str, mix, Choices, Recorded};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
  /// (class, detail); the class identifies the kind of violation and is stable across runs
  pub violations: Vec<(String, String)>,
  /// digest of everything observable in the run, for the determinism proof
  pub digest: u64,
  /// identity of the explored case (interleaving, history, document, ...)
  pub case: u64,
  pub nontrivial: bool,
  pub faults: BTreeMap<String, u64>,
  pub probes: BTreeMap<String, u64>,
  pub sim_ns: i64,
  pub steps: u64,
  pub sample: String,
  pub trace: Vec<String>,
}
impl Outcome {
  pub fn violate(&mut self, class: impl Into<String>, detail: impl Into<String>) { self.violations.push((class.into(), detail.into())); }
  pub fn probe(&mut self, k: &str) { *self.probes.entry(k.into()).or_default() += 1; }
  pub fn fault(&mut self, k: &str) { *self.faults.entry(k.into()).or_default() += 1; }
  pub fn observe(&mut self, s: &str) { self.digest = mix(self.digest, hash_str(s)); }
}

pub struct Check {
  pub id: &'static str,
  pub run: fn(&mut Choices, bool) -> Outcome,
  pub quick_runs: u64,
  pub thorough_runs: u64,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  pub real: &'static [&'static str],
  pub stub: &'static [&'static str],
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }
fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
  }));
}
/// The file (without line) and a normalised message of a captured panic.
pub fn panic_class(p: &str) -> String {
  let (msg, loc) = p.rsplit_once(" at ").unwrap_or((p, ""));
  let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
  let file = file.rsplit_once("/src/").map(|(a, b)| format!("{}/{}", a.rsplit('/').next().unwrap_or(""), b)).unwrap_or(file.to_string());
  let msg: String = msg.chars().take(60).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
  format!("panic:{}:{}", file, msg)
}

#[derive(Deserialize, Clone, Debug)]
struct Known { property: String, signature: String, description: String }
#[derive(Deserialize, Clone, Debug, Default)]
struct KnownFile { findings: Vec<Known> }

#[derive(Serialize, Deserialize)]
pub struct Replay {
  property: String, class: String, detail: String, verif_seed: u64, run_seed: u64, tier: String,
  choices: Recorded, trace: Vec<String>,
}

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

/// Real time spent waiting, counted in slices so that a pause of the whole machine does not count.
struct Waited { last: Instant, sum: Duration }
impl Waited {
  fn new() -> Waited { Waited { last: Instant::now(), sum: Duration::ZERO } }
  fn so_far(&mut self) -> Duration { let n = Instant::now(); self.sum += (n - self.last).min(Duration::from_millis(500)); self.last = n; self.sum }
}

/// Runs one execution in a forked child so that aborts and hangs are contained.
fn isolated(check: &Check, ch: Mode, trace: bool, timeout: Duration) -> (Outcome, Recorded) {
  let mut fds = [0i32; 2];
  unsafe { libc::pipe(fds.as_mut_ptr()); }
  let pid = unsafe { libc::fork() };
  if pid == 0 {
    unsafe { crate::sys::close(fds[0]); libc::setpgid(0, 0); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
    let mut c = ch.make();
    let o = guarded(check, &mut c, trace);
    let s = serde_json::to_vec(&(o, c.recorded())).unwrap();
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
    let _ = f.write_all(&s);
    drop(f);
    unsafe { libc::_exit(0) }
  }
  unsafe { crate::sys::close(fds[1]); }
  let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
  let mut buf = vec![];
  let mut waited = Waited::new();
  let mut timed_out = false;
  loop {
    let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
    let r = unsafe { libc::poll(&mut p, 1, 200) };
    if r > 0 {
      let mut b = [0u8; 65536];
      match f.read(&mut b) { Ok(0) => break, Ok(n) => buf.extend_from_slice(&b[..n]), Err(_) => break }
    }
    if waited.so_far() > timeout { timed_out = true; break; }
  }
  let mut st = 0;
  unsafe { if timed_out { libc::kill(-pid, libc::SIGKILL); libc::kill(pid, libc::SIGKILL); } libc::waitpid(pid, &mut st, 0); libc::kill(-pid, libc::SIGKILL); }
  match serde_json::from_slice::<(Outcome, Recorded)>(&buf) {
    Ok(x) => x,
    Err(_) => {
      let mut o = Outcome::default();
      if timed_out { o.violate("hang", format!("the run did not end within {} s of real time", timeout.as_secs())); }
      else { o.violate("process-abort", format!("the process ended abnormally, wait status {:#x}", st)); }
      let rec = ch.recorded().unwrap_or_default();
      (o, rec)
    }
  }
}
#[derive(Clone)]
enum Mode { Seed(u64), Rec(Recorded) }
static TIER: AtomicU64 = AtomicU64::new(0);
impl Mode {
  fn make(&self) -> Choices { let mut c = match self { Mode::Seed(s) => Choices::search(*s), Mode::Rec(r) => Choices::replay(r) }; c.tier = TIER.load(Ordering::Relaxed); c }
  fn recorded(&self) -> Option<Recorded> { match self { Mode::Rec(r) => Some(r.clone()), _ => None } }
}
fn guarded(check: &Check, ch: &mut Choices, trace: bool) -> Outcome {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.run)(ch, trace))) {
    Ok(o) => o,
    Err(_) => { let mut o = Outcome::default(); o.violate(format!("harness:{}", panic_class(&last_panic())), last_panic()); o }
  }
}

#[derive(Serialize, Deserialize, Default)]
struct Delta { runs: u64, cases: Vec<u64>, nontrivial: u64, faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, sim_ns: i64, steps: u64, sample: Option<String>,
  found: Vec<(u64, String, String)>, digests: Vec<(u64, u64)> }

struct Shared { cur: AtomicU64, beat: AtomicU64 }

pub struct Sweep { runs: u64, cases: BTreeSet<u64>, nontrivial: BTreeSet<u64>, faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, sim_ns: i128, steps: u64, samples: Vec<String>,
  found: BTreeMap<String, (u64, String, u64)>, digests: BTreeMap<u64, u64>, workers: usize }

fn run_seed(base: u64, id: &str, i: u64) -> u64 { mix(mix(base, hash_str(id)), i) }

fn sweep(check: &Check, seed: u64, from: u64, runs: u64, workers: usize, limit: Duration, known: &BTreeSet<String>, want_digests: bool) -> Sweep {
  let start = Instant::now();
  let mut out = Sweep { runs: 0, cases: BTreeSet::new(), nontrivial: BTreeSet::new(), faults: BTreeMap::new(), probes: BTreeMap::new(), sim_ns: 0, steps: 0, samples: vec![], found: BTreeMap::new(), digests: BTreeMap::new(), workers };
  let shm = unsafe { libc::mmap(std::ptr::null_mut(), 4096 * 4, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as *mut Shared;
  struct W { pid: i32, fd: i32, buf: Vec<u8>, next: u64, alive: bool, beat: u64, beat_at: Waited, restarts: u32 }
  let spawn = |w: usize, first: u64| -> (i32, i32) {
    let mut fds = [0i32; 2];
    unsafe { libc::pipe(fds.as_mut_ptr()); }
    let pid = unsafe { libc::fork() };
    if pid == 0 {
      unsafe {
        crate::sys::close(fds[0]); libc::setpgid(0, 0); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let ncpu = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(w % ncpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
      }
      let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
      let sh = unsafe { &*shm.add(w) };
      let mut d = Delta::default();
      let mut last = Instant::now();
      let mut i = first;
      while i < from + runs {
        if start.elapsed() > limit { break; }
        sh.cur.store(i, Ordering::SeqCst);
        sh.beat.fetch_add(1, Ordering::SeqCst);
        let rs = run_seed(seed, check.id, i);
        let mut ch = Mode::Seed(rs).make();
        let o = guarded(check, &mut ch, false);
        d.runs += 1;
        d.cases.push(o.case);
        if o.nontrivial { d.nontrivial += 1; d.cases.push(o.case | 1 << 63); }
        for (k, v) in o.faults { *d.faults.entry(k).or_default() += v; }
        for (k, v) in o.probes { *d.probes.entry(k).or_default() += v; }
        d.sim_ns += o.sim_ns; d.steps += o.steps;
        if d.sample.is_none() && o.nontrivial { d.sample = Some(format!("run {} (seed {:#x}): {}", i, rs, o.sample)); }
        for (c, t) in o.violations { d.found.push((i, c, t)); }
        if want_digests { d.digests.push((i, o.digest)); }
        if last.elapsed() > Duration::from_millis(300) || !d.found.is_empty() {
          let mut s = serde_json::to_vec(&d).unwrap(); s.push(b'\n'); let _ = f.write_all(&s);
          d = Delta::default(); last = Instant::now();
        }
        i += workers as u64;
      }
      let mut s = serde_json::to_vec(&d).unwrap(); s.push(b'\n'); let _ = f.write_all(&s);
      drop(f);
      unsafe { libc::_exit(0) }
    }
    unsafe { crate::sys::close(fds[1]); }
    (pid, fds[0])
  };
  let mut ws: Vec<W> = (0..workers).map(|w| {
    let (pid, fd) = spawn(w, from + w as u64);
    W { pid, fd, buf: vec![], next: 0, alive: true, beat: 0, beat_at: Waited::new(), restarts: 0 }
  }).collect();
  let mut stop_at: Option<Instant> = None;
  let mut again = false;
  while ws.iter().any(|w| w.alive) {
    let mut pf: Vec<libc::pollfd> = ws.iter().map(|w| libc::pollfd { fd: if w.alive { w.fd } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
    unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 200); }
    for (k, w) in ws.iter_mut().enumerate() {
      if !w.alive { continue; }
      let sh = unsafe { &*shm.add(k) };
      let b = sh.beat.load(Ordering::SeqCst);
      if b != w.beat { w.beat = b; w.beat_at = Waited::new(); }
      let mut hung = false;
      if w.beat_at.so_far() > Duration::from_secs(60) { hung = true; unsafe { libc::kill(-w.pid, libc::SIGKILL); libc::kill(w.pid, libc::SIGKILL); } }
      let mut eof = hung;
      if pf[k].revents != 0 {
        let mut buf = vec![0u8; 1 << 20];
        let n = unsafe { crate::sys::read(w.fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 { eof = true; } else { w.buf.extend_from_slice(&buf[..n as usize]); }
        while let Some(p) = w.buf.iter().position(|c| *c == b'\n') {
          let line: Vec<u8> = w.buf.drain(..=p).collect();
          if let Ok(d) = serde_json::from_slice::<Delta>(&line) {
            out.runs += d.runs; out.sim_ns += d.sim_ns as i128; out.steps += d.steps;
            for c in d.cases { if c >> 63 == 1 { out.nontrivial.insert(c & !(1 << 63)); } else { out.cases.insert(c); } }
            for (k, v) in d.faults { *out.faults.entry(k).or_default() += v; }
            for (k, v) in d.probes { *out.probes.entry(k).or_default() += v; }
            if let Some(s) = d.sample { if out.samples.len() < 5 { out.samples.push(s); } }
            for (i, dg) in d.digests { out.digests.insert(i, dg); }
            for (i, c, t) in d.found {
              let e = out.found.entry(c.clone()).or_insert((i, t.clone(), 0));
              e.2 += 1;
              if i < e.0 { e.0 = i; e.1 = t; }
              if !known.contains(&c) && stop_at.is_none() && !want_digests { stop_at = Some(Instant::now() + Duration::from_secs(2)); }
            }
          }
        }
      }
      if eof {
        let mut st = 0;
        unsafe { libc::waitpid(w.pid, &mut st, 0); crate::sys::close(w.fd); libc::kill(-w.pid, libc::SIGKILL); }
        w.alive = false;
        if hung || !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
          let i = sh.cur.load(Ordering::SeqCst);
          // a worker that was only starved or ended from outside does nothing of the sort when the run is repeated
          let by_signal = libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL;
          if hung || by_signal {
            let (o, _) = isolated(check, Mode::Seed(run_seed(seed, check.id, i)), false, Duration::from_secs(60));
            again = true;
            if !o.violations.iter().any(|v| v.0 == "hang" || v.0 == "process-abort") {
              println!("a worker was held up or ended in run {}, which completes when repeated", i);
              w.restarts += 1;
              if w.restarts < 20 && stop_at.is_none() {
                let (pid, fd) = spawn(k, i);
                w.pid = pid; w.fd = fd; w.buf.clear(); w.alive = true; w.beat_at = Waited::new();
              }
              continue;
            }
          }
          let c = if hung { "hang" } else { "process-abort" };
          let e = out.found.entry(c.into()).or_insert((i, format!("worker ended abnormally in run {} (wait status {:#x})", i, st), 0));
          e.2 += 1;
          out.runs += 1;
          w.restarts += 1;
          if !known.contains(c) && stop_at.is_none() { stop_at = Some(Instant::now() + Duration::from_secs(1)); }
          if w.restarts < 20 && stop_at.is_none() {
            let (pid, fd) = spawn(k, i + workers as u64);
            w.pid = pid; w.fd = fd; w.buf.clear(); w.alive = true; w.beat_at = Waited::new();
          }
        }
        w.next = 0;
      }
    }
    if again { again = false; for w in ws.iter_mut() { w.beat_at = Waited::new(); } }
    if let Some(t) = stop_at { if Instant::now() > t { for w in ws.iter_mut() { if w.alive { unsafe { libc::kill(-w.pid, libc::SIGKILL); libc::kill(w.pid, libc::SIGKILL); let mut st = 0; libc::waitpid(w.pid, &mut st, 0); } w.alive = false; } } break; } }
  }
  out
}

fn shrink(check: &Check, rec: Recorded, class: &str, budget: Duration) -> (Recorded, u64) {
  let start = Instant::now();
  let mut best = rec;
  let mut tries = 0u64;
  let slow = class == "hang";
  let per = Duration::from_secs(if slow { 12 } else { 30 });
  let try_it = |cand: &Recorded, tries: &mut u64| -> Option<Recorded> {
    *tries += 1;
    let (o, r) = isolated(check, Mode::Rec(cand.clone()), false, per);
    if o.violations.iter().any(|v| v.0 == class) { Some(if r.len() == 0 || r.len() > cand.len() { cand.clone() } else { r }) } else { None }
  };
  loop {
    let before = best.clone();
    for s in 0..best.streams.len() {
      // cut the tail, then chunks
      let mut size = best.streams[s].len();
      while size >= 1 {
        let mut at = 0;
        while at < best.streams[s].len() {
          if start.elapsed() > budget { return (best, tries); }
          let end = (at + size).min(best.streams[s].len());
          // zeroing
          if best.streams[s][at..end].iter().any(|x| *x != 0) {
            let mut c = best.clone();
            for x in &mut c.streams[s][at..end] { *x = 0; }
            if let Some(b) = try_it(&c, &mut tries) { if b.len() <= best.len() { best = b; } continue_at(&mut at, 0); if at >= best.streams[s].len() { break; } }
          }
          if start.elapsed() > budget { return (best, tries); }
          let end = (at + size).min(best.streams[s].len());
          if at < end {
            let mut c = best.clone();
            c.streams[s].drain(at..end);
            if let Some(b) = try_it(&c, &mut tries) { if b.len() < best.len() { best = b; continue; } }
          }
          at += size;
        }
        size /= 2;
      }
      for at in 0..best.streams[s].len() {
        if at >= best.streams[s].len() { break; }
        while at < best.streams[s].len() && best.streams[s][at] > 0 {
          if start.elapsed() > budget { return (best, tries); }
          let v = best.streams[s][at];
          let mut done = true;
          for nv in [0, v / 2, v - 1] {
            if nv >= v { continue; }
            let mut c = best.clone();
            c.streams[s][at] = nv;
            if let Some(b) = try_it(&c, &mut tries) { if b.len() <= best.len() { best = b; done = false; break; } }
          }
          if done { break; }
        }
      }
    }
    if best == before { break; }
  }
  // trailing zeros are implied
  for s in best.streams.iter_mut() { while s.last() == Some(&0) { s.pop(); } }
  (best, tries)
}
fn continue_at(_: &mut usize, _: usize) {}

fn load_known(id: &str) -> Vec<Known> {
  let p = format!("{}/known-findings.json", root());
  std::fs::read_to_string(&p).ok().and_then(|s| serde_json::from_str::<KnownFile>(&s).map_err(|e| { eprintln!("bad {}: {}", p, e); e }).ok())
    .unwrap_or_default().findings.into_iter().filter(|k| k.property == id).collect()
}

static WARM: AtomicU64 = AtomicU64::new(0);
/// `main` with some runs before the processes are forked, see `warm`.
pub fn main_warm(runs: u64, checks: &[Check]) -> ! { WARM.store(runs, Ordering::Relaxed); main(checks) }

pub fn main(checks: &[Check]) -> ! {
  std::hint::black_box(crate::sys::keep());
  install_hook();
  std::env::remove_var("TZ");
  let args: Vec<String> = std::env::args().collect();
  let code = match args.get(1).map(|s| s.as_str()) {
    Some("check") => { let c = find(checks, &args[2]); do_check(c) }
    Some("replay") => do_replay(checks, &args[2]),
    Some("one") => {
      let c = find(checks, &args[2]);
      let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
      let rs = args.get(3).map(|s| if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { run_seed(seed, c.id, s.parse().unwrap()) }).unwrap();
      let (o, _) = isolated(c, Mode::Seed(rs), true, Duration::from_secs(120));
      for l in &o.trace { println!("{}", l); }
      println!("{}", serde_json::to_string_pretty(&Outcome { trace: vec![], ..o }).unwrap());
      0
    }
    // after ID STRIDE INDEX: the run as a worker with that stride meets it, to compare the effect of a process's history
    Some("after") => {
      let c = find(checks, &args[2]);
      let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
      let (stride, ix): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
      let mut i = ix % stride;
      while i <= ix {
        let mut ch = Mode::Seed(run_seed(seed, c.id, i)).make();
        let o = guarded(c, &mut ch, i == ix);
        if i == ix { for l in &o.trace { println!("{}", l); } println!("digest {}", o.digest); }
        i += stride;
      }
      0
    }
    Some("determinism") => do_determinism(find(checks, &args[2]), args.get(3).and_then(|s| s.parse().ok()).unwrap_or(300)),
    Some("survey") => {
      let c = find(checks, &args[2]);
      let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
      let s = sweep(c, seed, 0, args.get(3).and_then(|s| s.parse().ok()).unwrap_or(5000), nworkers(), Duration::from_secs(900), &BTreeSet::new(), true);
      let mut f: Vec<_> = s.found.iter().collect();
      f.sort_by_key(|x| std::cmp::Reverse(x.1.2));
      for (k, (i, d, n)) in f { println!("{:>6} x {} (run {}): {}", n, k, i, d.chars().take(400).collect::<String>()); }
      println!("{} runs, probes {:?}", s.runs, s.probes);
      0
    }
    Some("list") => { for c in checks { println!("{}", c.id); } 0 }
    _ => { eprintln!("usage: check ID | replay FILE | one ID INDEX|0xSEED | determinism ID [RUNS] | list"); 2 }
  };
  std::process::exit(code)
}
fn find<'a>(checks: &'a [Check], id: &str) -> &'a Check {
  let c = checks.iter().find(|c| c.id == id).unwrap_or_else(|| { eprintln!("no check {}", id); std::process::exit(2) });
  warm(c);
  c
}
/// Values the code makes once per process (compiled patterns, tables) draw on the hash seeds of the run that meets them
/// first, which would let a run depend on the runs before it. A few runs before the processes are forked make them here,
/// unless these runs end or stall the process.
fn warm(c: &Check) {
  let n = WARM.load(Ordering::Relaxed);
  if n == 0 { return }
  let go = || for i in 0..n { let _ = guarded(c, &mut Mode::Seed(run_seed(0x5741524d, c.id, i)).make(), false); };
  let pid = unsafe { libc::fork() };
  if pid == 0 { go(); unsafe { libc::_exit(0) } }
  let start = Instant::now();
  loop {
    let mut st = 0;
    if unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) } == pid { if st == 0 { go(); } return }
    if start.elapsed() > Duration::from_secs(60) { unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); } return }
    std::thread::sleep(Duration::from_millis(2));
  }
}
fn nworkers() -> usize {
  std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8))
}

fn do_determinism(c: &Check, runs: u64) -> i32 {
  let known = BTreeSet::new();
  let mut bad = 0;
  for seed in [1u64, 2, 77] {
    let a = sweep(c, seed, 0, runs, 1, Duration::from_secs(600), &known, true);
    let b = sweep(c, seed, 0, runs, 8, Duration::from_secs(600), &known, true);
    let d = sweep(c, seed, 0, runs, 3, Duration::from_secs(600), &known, true);
    for (i, x) in &a.digests {
      if b.digests.get(i) != Some(x) || d.digests.get(i) != Some(x) { bad += 1; if bad < 10 { println!("run {} of seed {} differs: {:?} {:?} {:?}", i, seed, x, b.digests.get(i), d.digests.get(i)); } }
    }
    println!("{} seed {}: {} runs compared at 1, 8 and 3 workers, {} differ", c.id, seed, a.digests.len(), bad);
  }
  if bad > 0 { 2 } else { 0 }
}

fn do_replay(checks: &[Check], file: &str) -> i32 {
  let r: Replay = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) { Ok(r) => r, Err(e) => { eprintln!("{}: {}", file, e); return 2 } };
  let c = find(checks, &r.property);
  TIER.store((r.tier == "thorough") as u64, Ordering::Relaxed);
  let (o, _) = isolated(c, Mode::Rec(r.choices.clone()), true, Duration::from_secs(120));
  for l in &o.trace { println!("{}", l); }
  for (c, d) in &o.violations { println!("{}: {}", c, d); }
  if o.violations.iter().any(|v| v.0 == r.class) { println!("VIOLATION property={} replay={}", r.property, file); 1 }
  else { println!("the recorded violation ({}) does not occur", r.class); 0 }
}

fn do_check(c: &Check) -> i32 {
  let start = Instant::now();
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok().map(|x| x as u64)).unwrap_or(1);
  let thorough = std::env::args().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
  TIER.store(thorough as u64, Ordering::Relaxed);
  let tier = if thorough { "thorough" } else { "quick" };
  println!("check {} tier={} VERIF_SEED={}", c.id, tier, seed);
  let known = load_known(c.id);
  let sigs: BTreeSet<String> = known.iter().map(|k| k.signature.clone()).collect();
  let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
  let runs = ((if thorough { c.thorough_runs } else { c.quick_runs }) as f64 * scale) as u64;
  let limit = Duration::from_secs(if thorough { 3 * 3600 } else { 240 });
  let workers = nworkers();
  // determinism spot check: the same runs at another worker count must give the same digests
  let n = 24.min(runs);
  let a = sweep(c, seed, 0, n, 1, Duration::from_secs(60), &sigs, true);
  let b = sweep(c, seed, 0, n, 5, Duration::from_secs(60), &sigs, true);
  let diverged = a.digests.iter().filter(|(i, d)| b.digests.contains_key(i) && b.digests.get(i) != Some(d)).count();
  let s = sweep(c, seed, 0, runs, workers, limit, &sigs, false);
  let mut new: Vec<(String, (u64, String, u64))> = s.found.iter().filter(|(k, _)| !sigs.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
  new.sort_by_key(|(k, v)| (k.starts_with("harness:"), v.0));
  for k in &known {
    let n = s.found.get(&k.signature).map(|f| f.2).unwrap_or(0);
    println!("KNOWN-FINDING: property={} {} [{}; seen {} times in this run]", c.id, k.description, k.signature, n);
  }
  let mut code = 0;
  let mut reported = 0;
  // the first one that a fresh process shows as well, or what it shows instead
  let mut picked: Option<(String, u64, String, Recorded)> = None;
  let mut tried = BTreeSet::new();
  for (class, (i, detail, n)) in &new {
    println!("violation class {} in run {} ({} occurrences): {}", class, i, n, detail);
    if class.starts_with("harness:") { println!("the harness itself failed; not a verdict"); code = 2; continue }
    if picked.is_some() || tried.len() > 12 || !tried.insert(*i) { continue }
    let (o, rec) = isolated(c, Mode::Seed(run_seed(seed, c.id, *i)), false, Duration::from_secs(60));
    let found = o.violations.iter().find(|v| &v.0 == class).or_else(|| o.violations.iter().find(|v| !sigs.contains(&v.0) && !v.0.starts_with("harness:")));
    match found {
      Some((cl, de)) => picked = Some((cl.clone(), *i, de.clone(), rec)),
      None => println!("not reproduced in a fresh process: {:?}", o.violations),
    }
  }
  if !new.is_empty() && picked.is_none() { code = 2; }
  if let Some((class, i, detail, rec)) = &picked {
    {
      let rs = run_seed(seed, c.id, *i);
      {
        let (best, tries) = if rec.len() > 0 { shrink(c, rec.clone(), class, Duration::from_secs(if thorough { 300 } else { 45 })) } else { (rec.clone(), 0) };
        let mode = if rec.len() > 0 { Mode::Rec(best.clone()) } else { Mode::Seed(rs) };
        let (o, _) = isolated(c, mode, true, Duration::from_secs(60));
        let (cl, de) = o.violations.iter().find(|v| &v.0 == class).cloned().unwrap_or((class.clone(), detail.clone()));
        println!("minimised from {} to {} choices in {} executions: {}", rec.len(), best.len(), tries, de);
        for l in o.trace.iter().rev().take(60).rev() { println!("  {}", l); }
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{:016x}.json", dir, c.id, rs);
        let r = Replay { property: c.id.into(), class: cl, detail: de, verif_seed: seed, run_seed: rs, tier: tier.into(), choices: best, trace: o.trace };
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
        println!("VIOLATION property={} replay={}", c.id, path);
        code = 1;
        reported = 1;
      }
    }
  }
  // runs that differ between workers: is it only what earlier runs left in the process?
  if diverged > 0 && code == 0 {
    let again = a.digests.iter().filter(|(i, d)| b.digests.contains_key(i) && b.digests.get(i) != Some(d)).filter(|(i, _)| {
      let once = || { let (o, _) = isolated(c, Mode::Seed(run_seed(seed, c.id, **i)), false, Duration::from_secs(60)); o.digest };
      once() != once()
    }).count();
    println!("{} of {} runs differ between worker processes, {} of them also between fresh processes", diverged, n, again);
    if again > 0 { println!("not repeatable: harness error"); code = 2; }
  }
  let wall = start.elapsed().as_secs_f64();
  let ev = json!({
    "property": c.id, "tier": tier, "seed": seed as i64, "level": "exploration",
    "coverage": {
      "evaluations": s.runs, "distinct_nontrivial": s.nontrivial.len(), "rule": c.rule,
      "samples": s.samples, "distinct_cases": s.cases.len(),
      "runs_per_hour": (s.runs as f64 / wall * 3600.0) as u64,
      "simulated_seconds": (s.sim_ns / 1_000_000_000) as i64, "scheduling_steps": s.steps,
      "faults_injected": s.faults, "probes": s.probes,
      "determinism": format!("{} runs repeated at 1 and 5 workers, {} differed", a.digests.len(), diverged),
      "workers": s.workers, "real_code": c.real, "stubs": c.stub,
      "known_findings_seen": s.found.iter().filter(|(k, _)| sigs.contains(*k)).map(|(k, v)| (k.clone(), json!(v.2))).collect::<serde_json::Map<String, Value>>(),
    },
    "assumptions": c.assumptions, "wall_s": wall, "violations": reported
  });
  let dir = format!("{}/evidence", root());
  let _ = std::fs::create_dir_all(&dir);
  let _ = std::fs::write(format!("{}/{}.json", dir, c.id), serde_json::to_string_pretty(&ev).unwrap());
  println!("{} runs, {} distinct non-trivial cases, {} steps, {} simulated s, faults {:?}, {:.1} s", s.runs, s.nontrivial.len(), s.steps, s.sim_ns / 1_000_000_000, s.faults, wall);
  if code == 0 { println!("OK property={} held on everything explored", c.id); }
  code
}
