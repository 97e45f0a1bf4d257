//! The coordinator: owns the simulated disk, clock, locks and futexes, and decides which thread of
//! which simulated process makes its next system call, with which fault. Simulated processes are
//! forked children whose intercepted calls are served one at a time through shared memory.
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

use crate::choices::{mix, Choices, Stream};
use crate::fs::{self, SimFs};
use crate::sys::{self, fs_exec, raw_futex_wait, raw_futex_wake, Op, Reply, Req, Slot};

pub const MAX_THREADS: usize = 16;
pub const STEP_NS: i64 = 20_000;

#[derive(Clone, Debug, Default)]
pub struct Cfg {
  pub kill_permille: u64,
  pub errno_permille: u64,
  /// errors of attempts to take a lock, whatever the errors of other calls
  pub lock_errno_permille: u64,
  pub short_permille: u64,
  pub stall_permille: u64,
  pub max_faults: usize,
  /// percentage of scheduling decisions that keep running the same thread
  pub sticky: u64,
  /// percentage of decisions that let time pass although threads could run
  pub time_pct: u64,
  pub max_steps: u64,
  pub watch: String,
  pub restart: bool,
  pub entropy_seed: u64,
  pub trace: bool,
}

#[derive(Clone, Debug)]
enum St { Empty, Pending(Req), Flock(Req), Futex { addr: i64, deadline: i64 }, Sleeping(i64), Done }

struct Th { st: St, proc_id: usize, idx: usize, cur_op: Option<usize>, next_op: usize, n_ops: usize, born: i64 }

#[derive(Clone, Debug)]
pub struct Proc { pub ops: Vec<usize>, pub start_ns: i64 }

#[derive(Clone, Debug)]
pub enum Ev { Begin, End(String), Killed }
#[derive(Clone, Debug)]
pub struct Event { pub seq: u64, pub now: i64, pub proc_id: usize, pub thread: usize, pub op: usize, pub ev: Ev,
  /// a fault was injected into this thread between begin and end
  pub faulted: bool, pub stalled: bool,
  /// locks the process still holds although none of its threads is inside an operation
  pub held: usize,
  /// what the call did to get locks: attempts, requested sleeping time, and whether it blocked
  pub waits: Waits }
#[derive(Clone, Copy, Debug, Default)]
pub struct Waits { pub attempts: u64, pub slept_ns: i64, pub blocked: bool, pub errors: u64 }

pub struct World<'a> {
  pub ch: &'a mut Choices,
  pub fs: SimFs,
  pub now: i64,
  pub wall: i64,
  pub cfg: Cfg,
  pub steps: u64,
  pub hist: Vec<Event>,
  /// (step, content, process and thread that made it) of the watched file
  pub versions: Vec<(u64, Option<Vec<u8>>, (usize, usize))>,
  pub faults: BTreeMap<String, u64>,
  pub probes: BTreeMap<String, u64>,
  pub trace: Vec<String>,
  pub sched_hash: u64,
  pub problem: Option<(String, String)>,
  pub locks_at_exit: usize,
  threads: Vec<Th>,
  procs: Vec<ProcState>,
  last: usize,
  injected: usize,
  exec: &'a dyn Fn(usize, usize, usize) -> String,
  faulted: BTreeMap<(usize, usize), bool>,
  stalled: BTreeMap<(usize, usize), bool>,
  waits: BTreeMap<(usize, usize), Waits>,
}
struct ProcState { spec: Proc, pid: i32, slots: Vec<usize>, start_at: Option<i64>, progress: Vec<usize>, alive: bool, incarnation: u64 }

static mut SLOTS: *mut Slot = std::ptr::null_mut();
fn slot(i: usize) -> &'static mut Slot {
  unsafe {
    if SLOTS.is_null() {
      let n = std::mem::size_of::<Slot>() * MAX_THREADS;
      let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
      assert!(p != libc::MAP_FAILED);
      SLOTS = p as *mut Slot;
    }
    &mut *SLOTS.add(i)
  }
}

impl<'a> World<'a> {
  pub fn new(ch: &'a mut Choices, cfg: Cfg, procs: Vec<Proc>, exec: &'a dyn Fn(usize, usize, usize) -> String) -> World<'a> {
    World {
      ch, fs: SimFs::new(), now: 1_000_000_000_000, wall: 1_735_689_600_000_000_000, cfg, steps: 0, hist: vec![], versions: vec![],
      faults: BTreeMap::new(), probes: BTreeMap::new(), trace: vec![], sched_hash: 0x1234, problem: None, locks_at_exit: 0,
      threads: vec![], last: 0, injected: 0, exec, faulted: BTreeMap::new(), stalled: BTreeMap::new(), waits: BTreeMap::new(),
      procs: procs.into_iter().map(|p| ProcState { progress: vec![0; p.ops.len()], start_at: Some(p.start_ns), spec: p, pid: 0, slots: vec![], alive: false, incarnation: 0 }).collect(),
    }
  }
  fn t(&mut self, f: impl FnOnce() -> String) { if self.cfg.trace { let s = f(); self.trace.push(format!("{:>5} {:>12.6}s {}", self.steps, (self.now - 1_000_000_000_000) as f64 / 1e9, s)); } }
  fn h(&mut self, v: u64) { self.sched_hash = mix(self.sched_hash, v); }
  fn fault_fired(&mut self, k: &str) { *self.faults.entry(k.into()).or_default() += 1; self.injected += 1; }
  pub fn probe(&mut self, k: &str) { *self.probes.entry(k.into()).or_default() += 1; }

  fn spawn(&mut self, pi: usize) {
    let n = self.procs[pi].spec.ops.len();
    let mut slots = vec![];
    for t in 0..n {
      if self.procs[pi].progress[t] >= self.procs[pi].spec.ops[t] && self.procs[pi].incarnation > 0 { continue; }
      let th = Th { st: St::Empty, proc_id: pi, idx: t, cur_op: None, next_op: self.procs[pi].progress[t], n_ops: self.procs[pi].spec.ops[t], born: self.now };
      let free = self.threads.iter().position(|x| matches!(x.st, St::Done) && !self.procs[x.proc_id].alive);
      let i = match free { Some(i) => { self.threads[i] = th; i } None => { self.threads.push(th); self.threads.len() - 1 } };
      // reserve it
      self.threads[i].st = St::Sleeping(i64::MAX);
      slots.push(i);
    }
    assert!(self.threads.len() <= MAX_THREADS);
    let inc = self.procs[pi].incarnation;
    for i in &slots {
      let s = slot(*i);
      s.state.store(0, Ordering::SeqCst);
      s.now = self.now; s.wall = self.wall;
    }
    let seed = mix(self.cfg.entropy_seed, (pi as u64) << 8 | inc);
    let specs: Vec<(usize, usize, usize, usize)> = slots.iter().map(|i| { let t = &self.threads[*i]; (*i, t.idx, t.next_op, t.n_ops) }).collect();
    let exec = self.exec;
    let pid = unsafe { libc::fork() };
    if pid == 0 {
      unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
      std::thread::scope(|sc| {
        for (si, idx, from, to) in specs {
          let ex = SendPtr(unsafe { std::mem::transmute::<&dyn Fn(usize, usize, usize) -> String, &'static dyn Fn(usize, usize, usize) -> String>(exec) } as *const _);
          std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
            let ex = ex;
            let f: &dyn Fn(usize, usize, usize) -> String = unsafe { &*ex.0 };
            sys::attach_remote(slot(si), mix(seed, idx as u64));
            let _ = sys::call(Req { op: Op::Hello, a: [0; 4], data: vec![] });
            for op in from..to {
              let _ = sys::call(Req { op: Op::OpBegin, a: [op as i64, 0, 0, 0], data: vec![] });
              let out = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(pi, idx, op))) {
                Ok(s) => s,
                Err(_) => format!("PANIC {}", crate::driver::last_panic()),
              };
              let _ = sys::call(Req { op: Op::OpEnd, a: [op as i64, 0, 0, 0], data: out.into_bytes() });
            }
            let _ = sys::call(Req { op: Op::Exit, a: [0; 4], data: vec![] });
            sys::detach();
          }).unwrap();
        }
      });
      unsafe { libc::_exit(0); }
    }
    assert!(pid > 0, "fork failed");
    self.procs[pi].pid = pid;
    self.procs[pi].slots = slots.clone();
    self.procs[pi].alive = true;
    self.procs[pi].start_at = None;
    self.t(|| format!("P{} started (incarnation {}, {} threads)", pi, inc, slots.len()));
    for i in slots { self.collect(i); }
  }

  /// Waits until thread i has posted its next request.
  fn collect(&mut self, i: usize) {
    let s = slot(i);
    let mut waited = 0;
    while s.state.load(Ordering::SeqCst) != 1 {
      let cur = s.state.load(Ordering::SeqCst);
      if cur == 1 { break; }
      raw_futex_wait(&s.state, cur, 200);
      if s.state.load(Ordering::SeqCst) != 1 {
        waited += 1;
        let p = self.threads[i].proc_id;
        let mut st = 0;
        let r = unsafe { libc::waitpid(self.procs[p].pid, &mut st, libc::WNOHANG) };
        if r == self.procs[p].pid {
          self.problem = Some(("process-abort".into(), format!("process {} ended abnormally (status {:#x}) in op {:?}", p, st, self.threads[i].cur_op)));
          self.procs[p].alive = false;
          self.procs[p].pid = 0;
          self.threads[i].st = St::Done;
          return;
        }
        if waited > 100 {
          self.problem = Some(("hang".into(), format!("thread {} of process {} computes without end in op {:?}", self.threads[i].idx, p, self.threads[i].cur_op)));
          return;
        }
      }
    }
    let data = s.data[..s.len as usize].to_vec();
    let req = Req { op: Op::from_u32(s.op), a: s.a, data };
    // the value was compared just now and nobody else ran since: waiting starts immediately
    if req.op == Op::FutexWait {
      let (p, ti) = (self.threads[i].proc_id, self.threads[i].idx);
      self.t(|| format!("P{}.{} waits for a mutex", p, ti));
      self.probe("mutex-contended");
      self.threads[i].st = St::Futex { addr: req.a[0], deadline: req.a[1] };
      return;
    }
    self.threads[i].st = St::Pending(req);
  }
  fn post(&mut self, i: usize, r: &Reply) {
    let s = slot(i);
    match r {
      Ok((n, d)) => { s.ret = *n; s.err = 0; s.len = d.len() as u32; s.data[..d.len()].copy_from_slice(d); }
      Err(e) => { s.err = *e; s.len = 0; }
    }
    s.now = self.now; s.wall = self.wall;
    s.state.store(2, Ordering::SeqCst);
    raw_futex_wake(&s.state);
  }
  fn reply(&mut self, i: usize, r: Reply) {
    self.post(i, &r);
    self.collect(i);
  }

  fn kill(&mut self, p: usize, why: &str) {
    let pid = self.procs[p].pid;
    unsafe { libc::kill(pid, libc::SIGKILL); let mut st = 0; libc::waitpid(pid, &mut st, 0); }
    self.procs[p].alive = false;
    self.procs[p].pid = 0;
    self.fs.kill(p as u32);
    for i in self.procs[p].slots.clone() {
      if self.threads[i].proc_id != p { continue; }
      if let Some(op) = self.threads[i].cur_op.take() {
        let t = self.threads[i].idx;
        self.hist.push(Event { seq: self.steps, now: self.now, proc_id: p, thread: t, op, ev: Ev::Killed, faulted: true, stalled: false, held: 0, waits: Waits::default() });
        self.procs[p].progress[t] = op + 1;
      } else { let t = self.threads[i].idx; self.procs[p].progress[t] = self.threads[i].next_op; }
      self.threads[i].st = St::Done;
    }
    self.t(|| format!("P{} KILLED {}", p, why));
    self.unblock_flock();
    let more = (0..self.procs[p].spec.ops.len()).any(|t| self.procs[p].progress[t] < self.procs[p].spec.ops[t]);
    if self.cfg.restart && more {
      let d = self.ch.draw(Stream::Fault, 4) as i64;
      self.procs[p].start_at = Some(self.now + [1_000_000, 100_000_000, 1_000_000_000, 5_000_000_000][d as usize]);
      self.procs[p].incarnation += 1;
      self.probe("process-restarted");
    }
  }
  fn unblock_flock(&mut self) {
    for t in self.threads.iter_mut() { if let St::Flock(r) = &t.st { t.st = St::Pending(r.clone()); } }
  }
  fn snapshot(&mut self) {
    if self.cfg.watch.is_empty() { return; }
    let cur = self.fs.get(&self.cfg.watch).cloned();
    if self.versions.last().map(|v| &v.1) != Some(&cur) { let w = if self.threads.is_empty() { (usize::MAX, 0) } else { let t = &self.threads[self.last]; (t.proc_id, t.idx) }; self.versions.push((self.steps, cur, w)); }
  }

  fn timers(&self) -> Option<i64> {
    let a = self.threads.iter().filter_map(|t| match &t.st { St::Sleeping(x) if *x < i64::MAX => Some(*x), St::Futex { deadline, .. } if *deadline >= 0 => Some(*deadline), _ => None }).min();
    let b = self.procs.iter().filter_map(|p| p.start_at).min();
    match (a, b) { (Some(x), Some(y)) => Some(x.min(y)), (x, y) => x.or(y) }
  }
  fn advance(&mut self, to: i64) {
    if to > self.now { self.wall += to - self.now; self.now = to; }
    for p in 0..self.procs.len() { if let Some(s) = self.procs[p].start_at { if s <= self.now { self.spawn(p); if self.problem.is_some() { return; } } } }
    for i in 0..self.threads.len() {
      let r = match &self.threads[i].st { St::Sleeping(x) if *x <= self.now => Some(Ok((0, vec![]))), St::Futex { deadline, .. } if *deadline >= 0 && *deadline <= self.now => Some(Err(libc::ETIMEDOUT)), _ => None };
      if let Some(r) = r { self.reply(i, r); if self.problem.is_some() { return; } }
    }
  }

  pub fn run(&mut self) {
    self.snapshot();
    let n = self.now;
    for p in self.procs.iter_mut() { if let Some(s) = p.start_at { p.start_at = Some(n + s); } }
    self.advance(n);
    loop {
      if self.problem.is_some() { break; }
      let ready: Vec<usize> = (0..self.threads.len()).filter(|i| matches!(self.threads[*i].st, St::Pending(_))).collect();
      let timer = self.timers();
      if ready.is_empty() {
        match timer {
          Some(t) => { self.advance(t); continue; }
          None => {
            let blocked: Vec<String> = self.threads.iter().filter(|t| !matches!(t.st, St::Done | St::Empty)).map(|t| format!("P{}.{} {:?}", t.proc_id, t.idx, t.st)).collect();
            if !blocked.is_empty() { self.problem = Some(("deadlock".into(), format!("no thread can make progress: {}", blocked.join("; ")))); }
            break;
          }
        }
      }
      self.steps += 1;
      if self.steps > self.cfg.max_steps { self.problem = Some(("no-progress".into(), format!("not finished after {} steps", self.cfg.max_steps))); break; }
      // scheduling decision: 0 = stay with the last thread (or the first ready one)
      let mut order = ready.clone();
      if let Some(pos) = order.iter().position(|x| *x == self.last) { let x = order.remove(pos); order.insert(0, x); }
      let n = order.len() as u64 + timer.is_some() as u64;
      let (sticky, time_pct, nready) = (self.cfg.sticky, self.cfg.time_pct, order.len() as u64);
      let c = self.ch.draw_with(Stream::Sched, n, |r| {
        if timer.is_some() && r.below(100) < time_pct { return nready; }
        if r.below(100) < sticky { 0 } else { r.below(nready) }
      });
      if c >= order.len() as u64 { let t = timer.unwrap(); self.h(777); self.t(|| "time passes".into()); self.probe("time-passed-with-ready-threads"); self.advance(t); continue; }
      let i = order[c as usize];
      if i != self.last { self.probe("context-switch"); }
      self.last = i;
      self.now += STEP_NS; self.wall += STEP_NS;
      self.step(i);
    }
    self.locks_at_exit = self.fs.locks.len();
    for p in 0..self.procs.len() {
      if self.procs[p].alive {
        unsafe {
          let pid = self.procs[p].pid;
          if self.problem.is_some() { libc::kill(pid, libc::SIGKILL); }
          let mut st = 0; libc::waitpid(pid, &mut st, 0);
        }
        self.procs[p].alive = false;
      }
    }
  }

  fn step(&mut self, i: usize) {
    let req = match std::mem::replace(&mut self.threads[i].st, St::Empty) { St::Pending(r) => r, _ => unreachable!() };
    let (p, ti) = (self.threads[i].proc_id, self.threads[i].idx);
    self.h(mix((i as u64) << 32 | req.op as u64, (req.a[1] as u64) & 0xffff));
    match req.op {
      Op::Hello | Op::Yield => self.reply(i, Ok((0, vec![]))),
      Op::OpBegin => {
        let op = req.a[0] as usize;
        self.threads[i].cur_op = Some(op);
        self.faulted.insert((p, ti), false); self.stalled.insert((p, ti), false); self.waits.insert((p, ti), Waits::default());
        self.hist.push(Event { seq: self.steps, now: self.now, proc_id: p, thread: ti, op, ev: Ev::Begin, faulted: false, stalled: false, held: 0, waits: Waits::default() });
        self.t(|| format!("P{}.{} op {} begins", p, ti, op));
        self.reply(i, Ok((0, vec![])))
      }
      Op::OpEnd => {
        let op = req.a[0] as usize;
        self.threads[i].cur_op = None;
        self.threads[i].next_op = op + 1;
        self.procs[p].progress[ti] = op + 1;
        let s = String::from_utf8_lossy(&req.data).into_owned();
        let (f, st) = (self.faulted[&(p, ti)], self.stalled[&(p, ti)]);
        self.h(crate::choices::hash_str(&s));
        self.t(|| format!("P{}.{} op {} returned {}", p, ti, op, short(&s)));
        let held = if self.threads.iter().all(|t| t.proc_id != p || t.cur_op.is_none()) { self.fs.locks_of(p as u32) } else { 0 };
        self.hist.push(Event { seq: self.steps, now: self.now, proc_id: p, thread: ti, op, ev: Ev::End(s), faulted: f, stalled: st, held, waits: self.waits[&(p, ti)] });
        self.reply(i, Ok((0, vec![])))
      }
      Op::Exit => {
        self.t(|| format!("P{}.{} exits", p, ti));
        self.post(i, &Ok((0, vec![])));
        self.threads[i].st = St::Done;
        if self.procs[p].slots.clone().iter().all(|s| self.threads[*s].proc_id != p || matches!(self.threads[*s].st, St::Done)) {
          unsafe { let mut st = 0; libc::waitpid(self.procs[p].pid, &mut st, 0); }
          self.procs[p].alive = false;
          self.fs.kill(p as u32);
          self.unblock_flock();
        }
      }
      Op::Sleep => { self.t(|| format!("P{}.{} sleeps {} ms", p, ti, req.a[0] / 1_000_000)); self.threads[i].st = St::Sleeping(self.now + req.a[0]); self.probe("sleep"); self.waits.entry((p, ti)).or_default().slept_ns += req.a[0]; }
      Op::FutexWait => unreachable!(),
      Op::FutexWake => {
        let mut n = req.a[1];
        for j in 0..self.threads.len() {
          if n <= 0 { break; }
          if self.threads[j].proc_id != p { continue; }
          if let St::Futex { addr, .. } = self.threads[j].st { if addr == req.a[0] { n -= 1; self.reply(j, Ok((0, vec![]))); if self.problem.is_some() { return; } } }
        }
        let woken = req.a[1] - n;
        self.reply(i, Ok((woken, vec![])))
      }
      Op::Flock => {
        if self.faults_for(i, &req) { return; }
        if req.a[1] as i32 & libc::LOCK_UN == 0 { self.waits.entry((p, ti)).or_default().attempts += 1; }
        let r = fs_exec(&mut self.fs, p as u32, &req);
        let unlock = req.a[1] as i32 & libc::LOCK_UN != 0;
        if r == Err(fs::EAGAIN) && req.a[1] as i32 & libc::LOCK_NB == 0 {
          self.t(|| format!("P{}.{} blocks in flock", p, ti));
          self.waits.entry((p, ti)).or_default().blocked = true;
          self.threads[i].st = St::Flock(req);
          return;
        }
        if r == Err(fs::EAGAIN) { self.probe("lock-refused"); }
        self.t(|| format!("P{}.{} flock({}) = {:?}", p, ti, lockname(req.a[1] as i32), r.as_ref().map(|x| x.0)));
        if unlock { self.unblock_flock(); }
        self.reply(i, r)
      }
      _ => {
        if self.faults_for(i, &req) { return; }
        let r = fs_exec(&mut self.fs, p as u32, &req);
        self.after_fs(i, &req, &r);
        self.reply(i, r)
      }
    }
  }
  fn after_fs(&mut self, i: usize, req: &Req, r: &Reply) {
    let (p, ti) = (self.threads[i].proc_id, self.threads[i].idx);
    if self.cfg.trace {
      let what = match req.op {
        Op::Open => format!("open({}, {})", req.path(), openflags(req.a[0] as i32)),
        Op::Read => format!("read({})", req.a[1]),
        Op::Write => format!("write({} bytes)", req.data.len()),
        Op::Stat | Op::Mkdir | Op::Unlink | Op::Rename => format!("{:?}({})", req.op, req.path().replace('\0', " -> ")),
        _ => format!("{:?}({:?})", req.op, &req.a[1..2])
      };
      self.t(|| format!("P{}.{} {} = {:?}", p, ti, what, r.as_ref().map(|x| x.0)));
    }
    if req.op == Op::Close { self.unblock_flock(); }
    if matches!(req.op, Op::Write | Op::Ftruncate | Op::Open | Op::Rename | Op::Unlink | Op::TruncatePath) { self.snapshot(); }
    self.h(match r { Ok((n, _)) => *n as u64, Err(e) => 1 << 40 | *e as u64 });
  }
  /// Possibly injects a fault; true if the request was consumed by it.
  fn faults_for(&mut self, i: usize, req: &Req) -> bool {
    let (p, ti) = (self.threads[i].proc_id, self.threads[i].idx);
    if self.injected >= self.cfg.max_faults || self.threads[i].cur_op.is_none() || self.threads[i].born > self.now { return false; }
    // one decision per call: 0 none, 1 kill, 2 errno, 3 short, 4 stall
    let locking = req.op == Op::Flock && req.a[1] as i32 & libc::LOCK_UN == 0;
    let errno = if locking { self.cfg.errno_permille.max(self.cfg.lock_errno_permille) } else { self.cfg.errno_permille };
    let (k, e, s, st) = (self.cfg.kill_permille, errno, self.cfg.short_permille, self.cfg.stall_permille);
    if k + e + s + st == 0 { return false; }
    let mutating = matches!(req.op, Op::Write | Op::Ftruncate) || (req.op == Op::Open && req.a[0] as i32 & (libc::O_TRUNC | libc::O_CREAT) != 0);
    let boost = if mutating { 3 } else { 1 };
    let d = self.ch.draw_with(Stream::Fault, 5, |r| {
      let x = r.below(1000);
      let (k, e, s, st) = (k * boost, e * boost, s * boost, st * boost);
      if x < k { 1 } else if x < k + e { 2 } else if x < k + e + s { 3 } else if x < k + e + s + st { 4 } else { 0 }
    });
    let enabled = [true, k > 0, e > 0, s > 0, st > 0][d as usize];
    if d == 0 || !enabled { return false; }
    match d {
      1 => {
        let mode = self.ch.draw(Stream::Fault, 3);
        match mode {
          0 => { self.fault_fired("kill-before-call"); self.kill(p, &format!("before {:?} of P{}.{}", req.op, p, ti)); }
          1 => {
            let r = fs_exec(&mut self.fs, p as u32, req);
            self.after_fs(i, req, &r);
            self.fault_fired("kill-after-call"); self.kill(p, &format!("after {:?} of P{}.{}", req.op, p, ti));
          }
          _ => {
            if req.op == Op::Write && req.data.len() > 1 {
              let n = 1 + self.ch.draw(Stream::Fault, req.data.len() as u64 - 1) as usize;
              let mut q = req.clone(); q.data.truncate(n);
              let r = fs_exec(&mut self.fs, p as u32, &q);
              self.after_fs(i, &q, &r);
              self.fault_fired("kill-mid-write");
            } else { self.fault_fired("kill-before-call"); }
            self.kill(p, &format!("during {:?} of P{}.{}", req.op, p, ti));
          }
        }
        true
      }
      2 => {
        let opts: &[i32] = match req.op {
          Op::Write => &[fs::ENOSPC, fs::EIO, fs::EINTR],
          Op::Ftruncate => &[fs::EIO, fs::ENOSPC],
          Op::Read => &[fs::EINTR, fs::EIO],
          Op::Open => &[fs::EINTR, fs::EACCES, fs::EIO, 24],
          Op::Flock => if req.a[1] as i32 & libc::LOCK_UN != 0 { &[fs::EINTR] } else { &[fs::EINTR, 37] },
          Op::Lseek | Op::Fsync => &[fs::EIO],
          Op::Mkdir => &[fs::EACCES, fs::ENOSPC],
          Op::Rename => &[fs::EIO, fs::EACCES],
          Op::Stat | Op::Fstat => &[fs::EACCES, fs::EIO],
          _ => return false
        };
        let e = opts[self.ch.draw(Stream::Fault, opts.len() as u64) as usize];
        let name = match e { fs::ENOSPC => "ENOSPC", fs::EIO => "EIO", fs::EINTR => "EINTR", fs::EACCES => "EACCES", 24 => "EMFILE", 37 => "ENOLCK", _ => "E?" };
        self.fault_fired(&format!("{}:{:?}", name, req.op));
        self.faulted.insert((p, ti), true);
        { let w = self.waits.entry((p, ti)).or_default(); w.errors += 1; if req.op == Op::Flock && req.a[1] as i32 & libc::LOCK_UN == 0 { w.attempts += 1; } }
        self.t(|| format!("P{}.{} {:?} FAULT {}", p, ti, req.op, name));
        // ENOSPC on a write may follow a partial transfer
        self.reply(i, Err(e));
        true
      }
      3 => {
        let mut q = req.clone();
        match req.op {
          Op::Read if req.a[1] > 1 => { q.a[1] = 1 + self.ch.draw(Stream::Fault, (req.a[1] as u64 - 1).min(4000)) as i64; self.fault_fired("short-read"); }
          Op::Write if req.data.len() > 1 => {
            let n = 1 + self.ch.draw(Stream::Fault, req.data.len() as u64 - 1) as usize; q.data.truncate(n); self.fault_fired("short-write");
          }
          _ => return false
        }
        let r = fs_exec(&mut self.fs, p as u32, &q);
        self.after_fs(i, &q, &r);
        self.reply(i, r);
        true
      }
      _ => {
        let d = self.ch.draw(Stream::Fault, 4) as usize;
        let ns = [5_000_000i64, 150_000_000, 900_000_000, 4_000_000_000][d];
        self.fault_fired("stall");
        for t in 0..self.threads.len() { let th = &self.threads[t]; if th.cur_op.is_some() { self.stalled.insert((th.proc_id, th.idx), true); } }
        self.t(|| format!("P{}.{} STALLS {} ms before {:?}", p, ti, ns / 1_000_000, req.op));
        // the thread is not scheduled for a while; its request stays pending
        let due = self.now + ns;
        self.threads[i].st = St::Pending(req.clone());
        self.stall_until(i, due);
        true
      }
    }
  }
  fn stall_until(&mut self, i: usize, due: i64) {
    let req = match std::mem::replace(&mut self.threads[i].st, St::Empty) { St::Pending(r) => r, _ => unreachable!() };
    // run everybody else until the time has come
    let mut guard = 0;
    while self.now < due && self.problem.is_none() && guard < 400 {
      guard += 1;
      let ready: Vec<usize> = (0..self.threads.len()).filter(|j| *j != i && matches!(self.threads[*j].st, St::Pending(_))).collect();
      if ready.is_empty() {
        match self.timers() { Some(t) if t <= due => { self.advance(t); continue; } _ => { self.advance(due); break; } }
      }
      self.steps += 1;
      let c = self.ch.draw(Stream::Sched, ready.len() as u64) as usize;
      self.now += STEP_NS; self.wall += STEP_NS;
      let keep = self.cfg.max_faults; self.cfg.max_faults = 0;
      let last = std::mem::replace(&mut self.last, ready[c]);
      self.step(ready[c]);
      self.last = last;
      self.cfg.max_faults = keep;
    }
    if matches!(self.threads[i].st, St::Empty) { self.threads[i].st = St::Pending(req); }
  }
}
struct SendPtr(*const (dyn Fn(usize, usize, usize) -> String + 'static));
unsafe impl Send for SendPtr {}

pub fn short(s: &str) -> String { if s.len() > 160 { let mut n = 160; while !s.is_char_boundary(n) { n -= 1; } format!("{}… ({} bytes)", &s[..n], s.len()) } else { s.to_string() } }
fn lockname(f: i32) -> String {
  let mut v = vec![];
  if f & libc::LOCK_SH != 0 { v.push("SH") } if f & libc::LOCK_EX != 0 { v.push("EX") } if f & libc::LOCK_UN != 0 { v.push("UN") } if f & libc::LOCK_NB != 0 { v.push("NB") }
  v.join("|")
}
fn openflags(f: i32) -> String {
  let mut v = vec![match f & libc::O_ACCMODE { 0 => "R", 1 => "W", _ => "RW" }];
  if f & libc::O_CREAT != 0 { v.push("CREAT") } if f & libc::O_TRUNC != 0 { v.push("TRUNC") } if f & libc::O_EXCL != 0 { v.push("EXCL") } if f & libc::O_APPEND != 0 { v.push("APPEND") }
  v.join("|")
}
