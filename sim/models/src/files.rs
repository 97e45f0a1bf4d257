//! C01 C02 C03: several processes and threads write and read one pact file.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, read_pact, read_pact_from_file, write_pact, Pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::{Cfg, Ev, Proc, Waits, World};

use crate::gen::*;

pub const PATH: &str = "/sim/pacts/c-p.json";

#[derive(Clone)]
pub enum Op { Write { ais: Vec<Value>, overwrite: bool }, Read, ReadTyped, ReadOpen, ReadUnreadable }

/// A small interaction whose content only uses what every version stores unambiguously.
pub fn lite(ch: &mut Choices, fam: Fam, desc: &str, variant: usize) -> Value {
  let n = ch.range(0, 99);
  let big = if ch.pct(15) { "x".repeat(ch.range(500, 9000) as usize) } else { String::new() };
  let states = if ch.pct(50) { json!([{"name": "state one", "params": {}}]) } else { json!([]) };
  let body = json!({"s": "present", "json": {"n": n, "big": big}, "ct": "application/json"});
  let req = json!({"method": "POST", "path": format!("/p{}", variant), "query": null, "headers": {"Content-Type": ["application/json"]}, "body": body, "rules": {}, "gens": {}});
  let res = json!({"status": 200, "headers": null, "body": {"s": "missing"}, "rules": {}, "gens": {}});
  let msg = json!({"meta": {"contentType": "application/json"}, "body": body, "rules": {}, "gens": {}});
  let common = |mut v: Value, t: &str| { v["t"] = json!(t); v["desc"] = json!(desc); v["states"] = states.clone(); v };
  match fam {
    Fam::V2 | Fam::V3 => common(json!({"req": req, "res": [res]}), "http"),
    Fam::Msg => common(json!({"req": msg}), "msg"),
    Fam::V4 => {
      let base = json!({"key": if ch.pct(40) { json!(format!("key {}", desc)) } else { Value::Null }, "comments": {}, "pending": false, "plugin": {}, "markup": {"markup": "", "markupType": ""}, "transport": null});
      let (t, extra) = match ch.below(3) { 0 => ("http", json!({"req": req, "res": [res]})), 1 => ("async", json!({"req": msg})), _ => ("sync", json!({"req": msg, "res": [msg]})) };
      let mut v = base; for (k, x) in extra.as_object().unwrap() { v[k] = x.clone(); }
      common(v, t)
    }
  }
}

pub fn parse(bytes: &[u8]) -> Result<Vec<Value>, String> {
  let v: Value = serde_json::from_slice(bytes).map_err(|e| format!("{}{}", if e.is_eof() { "cut: " } else { "not JSON: " }, e))?;
  let p = load_pact_from_json("sim", &v).map_err(|e| format!("not a pact: {:#}", e))?;
  Ok(canon_pact(p.as_ref()))
}
fn seen(r: anyhow::Result<Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>>) -> String {
  match r { Ok(p) => { let mut c = canon_pact(p.as_ref()); c.sort_by_key(|x| x.to_string()); format!("ok {}", Value::Array(c)) } Err(e) => format!("err {:#}", e) }
}
pub fn run_op(fam: Fam, op: &Op) -> String {
  match op {
    Op::Write { ais, overwrite } => match write_pact(to_model(ais, fam, "c", "p"), Path::new(PATH), fam.spec(), *overwrite) { Ok(()) => "ok".into(), Err(e) => format!("err {:#}", e) },
    Op::Read => seen(read_pact(Path::new(PATH))),
    Op::ReadTyped => match fam {
      Fam::V2 | Fam::V3 => seen(RequestResponsePact::read_pact(Path::new(PATH)).map(|p| p.boxed())),
      Fam::Msg => seen(MessagePact::read_pact(Path::new(PATH)).map(|p| p.boxed())),
      Fam::V4 => seen(V4Pact::read_pact(Path::new(PATH)).map(|p| p.boxed())),
    },
    // through a file the caller opened and keeps open afterwards
    Op::ReadOpen => match std::fs::File::open(PATH) { Err(e) => format!("err {}", e), Ok(mut f) => { let r = seen(read_pact_from_file(&mut f, Path::new(PATH))); std::mem::forget(f); r } },
    // the same, but reading from it fails
    Op::ReadUnreadable => match std::fs::OpenOptions::new().write(true).open(PATH) {
      Err(_) => "skip".into(),
      Ok(mut f) => { let r = read_pact_from_file(&mut f, Path::new(PATH)); std::mem::forget(f); match r { Ok(_) => "err read a file that cannot be read".into(), Err(e) if benign(&format!("{:#}", e)) => format!("err {:#}", e), Err(_) => "skip".into() } }
    },
  }
}
/// Errors a call may report without any injected fault.
fn benign(e: &str) -> bool { e.contains("Could not acquire") }
fn conflict(e: &str) -> bool { let e = e.to_lowercase(); e.contains("conflict") || e.contains("unable to merge") || e.contains("merge") }

pub struct Plan { pub fam: Fam, pub init: Option<Vec<u8>>, pub init_ais: Vec<Value>, pub procs: Vec<Vec<Vec<Op>>>, pub conflicts: bool }

pub fn plan(ch: &mut Choices, mode: u8) -> Plan {
  let fam = *ch.pick(&[Fam::V4, Fam::V3, Fam::Msg, Fam::V2]);
  let mut uid = 0;
  let mut fresh = |ch: &mut Choices| { uid += 1; lite(ch, fam, &format!("interaction {}", uid), 0) };
  let init_ais: Vec<Value> = if ch.pct(if mode == 2 { 80 } else { 50 }) { let n = ch.count(1, 3); (0..n).map(|_| fresh(ch)).collect() } else { vec![] };
  let init = if init_ais.is_empty() { None } else { Some(serde_json::to_vec_pretty(&to_doc(&init_ais, fam, "c", "p")).unwrap()) };
  let nproc = if mode == 2 { ch.count(1, 3) } else { ch.count(2, 4) };
  let conflicts = mode == 1 && fam != Fam::V4 && fam != Fam::Msg && ch.pct(15);
  let over = mode != 1 && ch.pct(40);
  let mut pool: Vec<Value> = vec![];
  let procs = (0..nproc).map(|_| {
    let nt = if ch.pct(60) { 1 } else { ch.count(1, 3) };
    (0..nt).map(|_| {
      let n = ch.count(1, 3);
      (0..n).map(|_| {
        if mode == 3 && ch.pct(55) || mode == 2 && ch.pct(10) { return match ch.below(8) { 0 => Op::ReadTyped, 1 if mode == 3 => Op::ReadOpen, 2 if mode == 3 => Op::ReadUnreadable, _ => Op::Read } }
        let k = ch.count(1, 2);
        let mut ais: Vec<Value> = vec![];
        for _ in 0..k {
          let a = if !pool.is_empty() && ch.pct(20) { ch.pick(&pool).clone() } else { fresh(ch) };
          let a = if conflicts && ch.pct(30) { let mut b = a.clone(); b["req"]["path"] = json!("/other"); b } else { a };
          if ais.iter().any(|x| x["desc"] == a["desc"]) { continue }
          if !pool.iter().any(|x| x["desc"] == a["desc"]) { pool.push(a.clone()); }
          ais.push(a);
        }
        Op::Write { ais, overwrite: mode != 1 && over && ch.pct(25) }
      }).collect()
    }).collect()
  }).collect();
  Plan { fam, init, init_ais, procs, conflicts }
}

fn run(ch: &mut Choices, trace: bool, mode: u8) -> Outcome {
  let mut o = Outcome::default();
  let pl = plan(ch, mode);
  let mut cfg = Cfg { sticky: *ch.pick(&[30, 60, 85]), time_pct: *ch.pick(&[0, 3, 15]), max_steps: 600_000, watch: PATH.into(), entropy_seed: ch.u64(), trace, ..Cfg::default() };
  match mode {
    1 => { cfg.short_permille = *ch.pick(&[0, 20]); cfg.stall_permille = *ch.pick(&[0, 4, 15]); cfg.max_faults = 6; cfg.lock_errno_permille = *ch.pick(&[0, 0, 60, 250]); }
    2 => { cfg.kill_permille = *ch.pick(&[0, 8, 25]); cfg.errno_permille = *ch.pick(&[0, 15, 40]); cfg.short_permille = *ch.pick(&[0, 20]); cfg.stall_permille = *ch.pick(&[0, 4]); cfg.max_faults = ch.count(1, 4); cfg.restart = ch.pct(70); }
    _ => { cfg.short_permille = *ch.pick(&[0, 20]); cfg.stall_permille = *ch.pick(&[0, 10, 30]); cfg.max_faults = 8; cfg.lock_errno_permille = *ch.pick(&[0, 0, 60, 250]); }
  }
  let procs: Vec<Proc> = pl.procs.iter().map(|ts| { let d = *ch.pick(&[0i64, 0, 0, 50_000, 1_000_000, 300_000_000]); Proc { ops: ts.iter().map(|t| t.len()).collect(), start_ns: d } }).collect();
  let fam = pl.fam;
  let plr = &pl;
  let exec = move |p: usize, t: usize, i: usize| run_op(fam, &plr.procs[p][t][i]);
  let mut w = World::new(ch, cfg, procs, &exec);
  if let Some(b) = &pl.init { w.fs.put(PATH, b); }
  w.run();
  let (hist, versions, problem, locks) = (std::mem::take(&mut w.hist), std::mem::take(&mut w.versions), w.problem.take(), w.locks_at_exit);
  o.faults = w.faults.clone(); o.probes = w.probes.clone(); o.steps = w.steps; o.sim_ns = w.now - 1_000_000_000_000;
  o.case = w.sched_hash; o.digest = w.sched_hash; o.trace = std::mem::take(&mut w.trace);
  let restart_possible = w.fs.clone();
  drop(w);
  for v in &versions { if let Some(b) = &v.1 { o.digest = mix(o.digest, hash_str(&String::from_utf8_lossy(b))); } }
  o.sample = format!("{} {} procs, {} ops, initial {}", fam.name(), pl.procs.len(), pl.procs.iter().flatten().map(|t| t.len()).sum::<usize>(), pl.init_ais.len());
  o.probe(&format!("fam-{}", fam.name()));
  o.nontrivial = versions.len() > 2;
  if let Some((c, d)) = problem { o.violate(c, d); return o }

  // ---- pair begin/end
  struct Call { p: usize, t: usize, i: usize, b: u64, bt: i64, e: u64, et: i64, res: Option<String>, faulted: bool, held: usize, waits: Waits }
  let mut calls: Vec<Call> = vec![];
  let mut open: BTreeMap<(usize, usize), usize> = BTreeMap::new();
  for ev in &hist {
    match &ev.ev {
      Ev::Begin => { open.insert((ev.proc_id, ev.thread), calls.len()); calls.push(Call { p: ev.proc_id, t: ev.thread, i: ev.op, b: ev.seq, bt: ev.now, e: u64::MAX, et: i64::MAX, res: None, faulted: true, held: 0, waits: Waits::default() }); }
      Ev::End(s) => { let c = &mut calls[open[&(ev.proc_id, ev.thread)]]; c.e = ev.seq; c.et = ev.now; c.res = Some(s.clone()); c.faulted = ev.faulted; c.held = ev.held; c.waits = ev.waits; }
      Ev::Killed => { let c = &mut calls[open[&(ev.proc_id, ev.thread)]]; c.e = ev.seq; c.et = ev.now; }
    }
  }
  let any_kill = calls.iter().any(|c| c.res.is_none());
  // ---- a torn file?
  let last = versions.last().and_then(|v| v.1.clone());
  // a write that was never completed leaves an empty file, which is the same as none
  let last_bytes = match &last { Some(b) if b.is_empty() && pl.init.is_none() && !calls.iter().any(|c| c.res.as_deref() == Some("ok") && matches!(pl.procs[c.p][c.t][c.i], Op::Write { .. })) => None, x => x.clone() };
  // what a write makes of the interactions that are stored
  let after = |before: &[Value], ais: &[Value], overwrite: bool| -> Vec<Value> {
    let mut out: Vec<Value> = if overwrite { vec![] } else { before.to_vec() };
    for a in ais { let a = project(a, fam); if !out.contains(&a) { out.push(a); } }
    out
  };
  let equals = |a: &[Value], b: &[Value]| a.len() == b.len() && a.iter().all(|x| b.contains(x));
  let torn_by_kill = |b: &[u8]| -> bool {
    // the content was last changed by a call that was killed while writing: some of the new bytes, then what was there before
    let Some(pos) = versions.iter().rposition(|v| v.1.as_deref() == Some(b)) else { return false };
    let (step, _, (p, t)) = versions[pos].clone();
    let Some(call) = calls.iter().find(|c| c.p == p && c.t == t && c.res.is_none() && c.b <= step && step <= c.e) else { return false };
    if b.is_empty() { return false }
    let Ok(now) = parse(b) else { return true };
    // the mixture may even be a pact: then it is neither the old one nor the new one
    let before = versions[..pos].iter().rev().find(|v| !(v.2 == (p, t) && call.b <= v.0)).and_then(|v| v.1.clone()).and_then(|b| parse(&b).ok()).unwrap_or_default();
    let Op::Write { ais, overwrite } = &pl.procs[call.p][call.t][call.i] else { return false };
    if *overwrite { return now != before && !equals(&now, &after(&before, ais, true)) }
    let n = ais.iter().filter(|a| now.contains(&project(a, fam))).count();
    let same = now == before;
    let whole = n == ais.len() && before.iter().all(|x| now.contains(x)) && now.iter().all(|x| before.contains(x) || ais.iter().any(|a| project(a, fam) == *x));
    !(same || whole)
  };
  // the content was last changed by a call that failed, hit by at least two injected errors (one while writing, one while restoring)
  let restore_failed = |b: &[u8]| -> bool {
    let Some(pos) = versions.iter().rposition(|v| v.1.as_deref() == Some(b)) else { return false };
    let (step, _, (p, t)) = versions[pos].clone();
    calls.iter().any(|c| c.p == p && c.t == t && c.b <= step && step <= c.e && c.waits.errors >= 2 && c.res.as_deref().map(|r| r.starts_with("err ")).unwrap_or(false))
  };
  // a known damaged state was reached: later calls cannot be judged
  let mut tainted = false;
  for v in &versions { let Some(b) = &v.1 else { continue }; if torn_by_kill(b) && parse(b).is_ok() { tainted = true; o.violate("torn-by-kill", "a process killed while it replaced the file's content left a mixture of the old and the new pact behind"); break } }
  if let Some(b) = &last { if !tainted && parse(b).is_err() && last_bytes.is_some() {
    if torn_by_kill(b) { tainted = true; o.violate("torn-by-kill", format!("a process killed while it replaced the file's content left a cut document of {} bytes behind", b.len())); }
    else if restore_failed(b) { tainted = true; o.violate("restore-failed", format!("a write failed and putting the old content back failed as well, {} bytes are left", b.len())); }
  } }

  for c in &calls {
    let name = format!("P{}.{} op {}", c.p, c.t, c.i);
    let Some(res) = &c.res else { continue };
    if let Some(p) = res.strip_prefix("PANIC ") { o.violate(panic_class(p), format!("{} panicked: {}", name, p)); continue }
    if c.held > 0 { o.violate("lock-not-released", format!("{} returned '{}' but its process still holds {} lock(s)", name, short(res), c.held)); }
    // its own waiting, whatever the scheduler did to it: documented are 3 attempts with sleeps of 0.1, 1 and 10 s
    // (and a call may need the lock once to read and once to write)
    if c.waits.blocked { o.violate("blocks-on-lock", format!("{} waited in a blocking lock request while another held the lock", name)); }
    if c.waits.slept_ns > 11_200_000_000 { o.violate("unbounded-wait", format!("{} slept {} ms waiting for locks", name, c.waits.slept_ns / 1_000_000)); }
    if c.waits.attempts > 6 { o.violate("too-many-attempts", format!("{} tried {} times to get a lock", name, c.waits.attempts)); }
    if let Some(e) = res.strip_prefix("err ") { if benign(e) && c.waits.attempts < 3 && c.waits.errors == 0 { o.violate("gave-up-early", format!("{} gave up after {} attempts: {}", name, c.waits.attempts, short(e))); } }
    if tainted { continue }
    if let Some(e) = res.strip_prefix("err ") {
      if benign(e) {
        o.probe("gave-up-on-lock");
        if e.contains("after ") && !e.contains("after 3 attempts") { o.violate("attempts", format!("{}: {}", name, e)); }
      }
      if mode != 2 && !benign(e) && c.waits.errors == 0 {
        match &pl.procs[c.p][c.t][c.i] {
          Op::Write { ais, .. } => { if !(pl.conflicts && conflict(e)) { o.violate("write-refused", format!("{} writing {:?} failed without a fault: {}", name, descs(ais), short(e))); } }
          _ => {
            // no file, or one no writer completed yet, at some instant of the call
            let absent = spans(&versions, c.b, c.e).iter().any(|v| v.as_ref().map(|b| b.is_empty()).unwrap_or(true)) && pl.init.is_none();
            if !absent { o.violate("read-failed", format!("{} failed although a pact was stored: {}", name, short(e))); }
          }
        }
      }
      if mode == 2 && !c.faulted && !benign(e) {
        // no fault in this call: whatever happened to others, it must succeed
        let absent = !matches!(pl.procs[c.p][c.t][c.i], Op::Write { .. }) && spans(&versions, c.b, c.e).iter().any(|v| v.as_ref().map(|b| b.is_empty()).unwrap_or(true)) && pl.init.is_none();
        let torn = spans(&versions, c.b, c.e).iter().any(|v| v.as_ref().map(|b| torn_by_kill(b)).unwrap_or(false));
        if !absent && !torn && !spans(&versions, c.b, c.e).iter().any(|v| v.as_ref().map(|b| restore_failed(b)).unwrap_or(false)) { o.violate("later-call-failed", format!("{} failed although no fault hit it: {}", name, short(e))); }
      }
      continue
    }
    if let Some(r) = res.strip_prefix("ok ") {
      // what was read is one of the contents stored between begin and end
      let got: Value = serde_json::from_str(r).unwrap();
      let ok = spans(&versions, c.b, c.e).iter().any(|v| v.as_ref().and_then(|b| parse(b).ok()).map(|mut a| { a.sort_by_key(|x| x.to_string()); Value::Array(a) == got }).unwrap_or(false));
      if !ok { o.violate("read-not-stored", format!("{} returned a pact that was stored at no instant of the call: {}", name, short(r))); }
      o.probe("reads-checked");
    }
  }
  if tainted { return o }

  // ---- each write does to the stored pact what it says, or nothing
  for c in &calls {
    let (Op::Write { ais, overwrite }, Some(res)) = (&pl.procs[c.p][c.t][c.i], &c.res) else { continue };
    if c.waits.errors >= 2 { continue }
    let own: Vec<usize> = (0..versions.len()).filter(|k| versions[*k].2 == (c.p, c.t) && c.b <= versions[*k].0 && versions[*k].0 <= c.e).collect();
    let read = |v: &Option<Vec<u8>>| match v { None => Some(vec![]), Some(b) if b.is_empty() => Some(vec![]), Some(b) => parse(b).ok() };
    let name = format!("P{}.{} op {}", c.p, c.t, c.i);
    if *overwrite { o.probe("writes-that-replace"); }
    // writing what is there already changes nothing
    let nothing_to_do = || spans(&versions, c.b, c.e).iter().any(|v| read(v).map(|x| equals(&after(&x, ais, *overwrite), &x)).unwrap_or(false));
    if own.is_empty() && res == "ok" && !pl.conflicts && !nothing_to_do() { o.violate("write-not-done", format!("{} writing {:?} returned Ok and the file was never changed by it nor had that content", name, descs(ais))); }
    // its changes to the file, each as far as no other call changed it in between; the last one is the writing
    let mut k = 0;
    while k < own.len() {
      let first = own[k];
      while k + 1 < own.len() && own[k + 1] == own[k] + 1 { k += 1 }
      let last = own[k];
      k += 1;
      if first == 0 { continue }
      let (Some(before), Some(now)) = (read(&versions[first - 1].1), read(&versions[last].1)) else { continue };
      if res == "ok" && k == own.len() {
        if !pl.conflicts && !equals(&now, &after(&before, ais, *overwrite)) && !(equals(&now, &before) && nothing_to_do()) { o.violate(if *overwrite { "replaced-wrongly" } else { "merged-wrongly" }, format!("{} writing {:?} turned {:?} into {:?}", name, descs(ais), descs(&before), descs(&now))); }
      } else if !equals(&now, &before) { o.violate(if res == "ok" { "changed-by-others-meanwhile" } else { "failed-write-changed-the-pact" }, format!("{} ended with {} and turned {:?} into {:?}", name, short(res), descs(&before), descs(&now))); }
    }
    o.probe("writes-checked");
  }

  // ---- the final file
  let acked: Vec<&Call> = calls.iter().filter(|c| c.res.as_deref() == Some("ok")).collect();
  let fin = match &last_bytes { None => Ok(vec![]), Some(b) => parse(b) };
  let fin = match fin {
    Ok(f) => f,
    Err(e) => {
      // an injected error in the call that replaced the content, and another while it restored it
      o.violate(if any_kill { "unreadable-after-kill" } else if o.faults.keys().any(|k| k.contains(':')) { "unreadable-after-io-error" } else { "unreadable" }, format!("the file cannot be read any more: {}", short(&e)));
      return o
    }
  };
  let has = |a: &Value| fin.iter().any(|f| *f == project(a, fam));
  // a write that replaces the pact on request, and that was carried out or may have been (it was killed, or neither
  // finishing nor undoing it worked)
  let replaced_after = |b: u64| calls.iter().any(|d| matches!(&pl.procs[d.p][d.t][d.i], Op::Write { overwrite: true, .. }) && d.e > b && (d.waits.errors >= 2 || d.res.as_deref().map(|r| r == "ok").unwrap_or(true)));
  for a in &pl.init_ais { if !has(a) && !replaced_after(0) { o.violate("stored-interaction-lost", format!("{} was in the file before and is {} at the end", a["desc"], state_of(a, &fin, fam))); } }
  for c in &acked {
    if let Op::Write { ais, .. } = &pl.procs[c.p][c.t][c.i] {
      for a in ais { if !has(a) && !replaced_after(c.b) { o.violate("acked-interaction-lost", format!("P{}.{} op {} wrote {} and returned Ok, at the end it is {}", c.p, c.t, c.i, a["desc"], state_of(a, &fin, fam))); } }
    }
  }
  for c in &calls { if let Op::Write { ais, .. } = &pl.procs[c.p][c.t][c.i] {
    let n = ais.iter().filter(|a| has(a)).count();
    if n != 0 && n != ais.len() {
      // part of it may come from another call
      let others = |a: &Value| pl.init_ais.contains(a) || calls.iter().any(|d| (d.p, d.t, d.i) != (c.p, c.t, c.i) && matches!(&pl.procs[d.p][d.t][d.i], Op::Write { ais, .. } if ais.contains(a)));
      if ais.iter().any(|a| has(a) && !others(a)) { o.violate("partial-write", format!("only {} of {} interactions of P{}.{} op {} are stored", n, ais.len(), c.p, c.t, c.i)); }
    }
  } }
  let mut seen = BTreeSet::new();
  for f in &fin {
    if !seen.insert(format!("{}{}", f["desc"], f["states"])) { o.violate("duplicate-interaction", format!("{} is stored twice", f["desc"])); }
    let known = pl.init_ais.iter().chain(pl.procs.iter().flatten().flatten().flat_map(|op| match op { Op::Write { ais, .. } => ais.iter().collect::<Vec<_>>(), _ => vec![] })).any(|a| project(a, fam) == *f);
    if !known { o.violate("foreign-interaction", format!("{} was written by nobody with this content", f["desc"])); }
  }
  if locks > 0 { o.violate("lock-leaked", format!("{} locks are held after every process ended", locks)); }
  o.probe(&format!("final-{}", fin.len().min(9)));

  // ---- afterwards, without faults, another writer succeeds and keeps everything
  if mode == 2 && last_bytes.as_ref().map(|b| b.len()) != Some(0) {
    let extra = { let mut x = Choices::search(1); lite(&mut x, fam, "afterwards", 0) };
    let ops = [Op::Write { ais: vec![extra.clone()], overwrite: false }];
    let (r, l) = {
      let mut l = simcore::sys::Local::new(7); l.fs = restart_possible; l.fs.kill(u32::MAX);
      let _ = (); simcore::sys::with_local(l, || run_op(fam, &ops[0]))
    };
    let after = l.fs.get(PATH).cloned().map(|b| parse(&b));
    match after {
      Some(Ok(a)) if r == "ok" => {
        for f in &fin { if !a.contains(f) { o.violate("lost-by-later-write", format!("{} was lost by the first write after recovery", f["desc"])); } }
        if !a.contains(&project(&extra, fam)) { o.violate("later-write-lost", "the first write after recovery is not stored"); }
      }
      _ => o.violate("later-write-failed", format!("the first write after recovery failed: {}", short(&r))),
    }
    o.probe("recovery-checked");
  }
  o
}
fn short(s: &str) -> String { simcore::kernel::short(s) }
fn descs(a: &[Value]) -> Vec<String> { a.iter().map(|x| x["desc"].to_string()).collect() }
fn state_of(a: &Value, fin: &[Value], fam: Fam) -> String {
  match fin.iter().find(|f| f["desc"] == a["desc"]) { None => "missing".into(), Some(f) => diff(&project(a, fam), f, "").map(|d| format!("changed: {} {}", d.0, short(&d.1))).unwrap_or("there".into()) }
}
/// The contents the file had at the steps b..=e.
fn spans(versions: &[(u64, Option<Vec<u8>>, (usize, usize))], b: u64, e: u64) -> Vec<Option<Vec<u8>>> {
  let mut out = vec![];
  for (k, v) in versions.iter().enumerate() {
    let until = versions.get(k + 1).map(|n| n.0).unwrap_or(u64::MAX);
    if v.0 <= e && until >= b { out.push(v.1.clone()); }
  }
  out
}
pub fn c01(ch: &mut Choices, trace: bool) -> Outcome { run(ch, trace, 1) }
pub fn c02(ch: &mut Choices, trace: bool) -> Outcome { run(ch, trace, 2) }
pub fn c03(ch: &mut Choices, trace: bool) -> Outcome { run(ch, trace, 3) }
