//! C04: merging pacts into one file gives the union of their interactions, whatever the order.
use std::path::Path;

use pact_models::pact::{load_pact_from_json, write_pact};
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::files::lite;
use crate::gen::*;
use crate::keep::load;
use crate::procs::Host;

const PATH: &str = "/sim/pacts/c-p.json";

/// What makes two interactions the same one.
fn ident(a: &Value, fam: Fam) -> String {
  let states = a["states"].as_array().cloned().unwrap_or_default();
  match fam {
    Fam::V2 => format!("{}|{}", a["desc"], states.first().map(|s| s["name"].to_string()).unwrap_or_default()),
    Fam::V3 | Fam::Msg => format!("{}|{}", a["desc"], json!(states)),
    Fam::V4 => format!("{}|{}|{}", a["desc"], json!(states), a["t"]),
  }
}
fn same(a: &Value, b: &Value, fam: Fam) -> bool { (fam == Fam::V4 && a["key"].is_string() && a["key"] == b["key"]) || ident(a, fam) == ident(b, fam) }

fn states(ch: &mut Choices, fam: Fam) -> Value {
  let named = |n: &str, p: Value| json!({"name": n, "params": p});
  // a V2 file keeps the first state's name
  match ch.below(if fam == Fam::V2 { 9 } else { 18 }) {
    0 => json!([]), 1 => json!([named("one", json!({}))]), 2 => json!([named("two", json!({}))]),
    3 => json!([named("One", json!({}))]), 4 => json!([named(" one", json!({}))]), 5 => json!([named("one two", json!({}))]),
    6 => json!([named("one", json!({"id": 1}))]), 7 => json!([named("one", json!({"id": 2, "x": "a"}))]),
    8 => json!([named("one", json!({})), named("two", json!({}))]), 9 => json!([named("two", json!({})), named("one", json!({}))]),
    10 => json!([named("one", json!({})), named("two", json!({"n": null, "l": [1, {"k": true}]}))]),
    // states that differ in one detail only
    11 => json!([named("one", json!({"user": 1}))]), 12 => json!([named("one", json!({"id": "1"}))]), 13 => json!([named("one", json!({"id": null}))]),
    14 => json!([named("one", json!({"id": "a", "x": 2}))]), 15 => json!([named("one", json!({})), named("one", json!({}))]),
    16 => json!([named("one", json!({})), named("two", json!({"n": null, "l": [{"k": true}, 1]}))]),
    _ => json!([named("one", json!({"id": 1})), named("two", json!({}))]),
  }
}
fn pool(ch: &mut Choices, fam: Fam, http_only: bool) -> Vec<Value> {
  let mut out: Vec<Value> = vec![];
  let n = ch.count(2, 7);
  for k in 0..n {
    let d = ch.pick(&["get it", "put it", "ask ü", "tell", "get it", "get it", "Get it", "get it ", "get", ""]).to_string();
    let mut a = lite(ch, fam, &d, 0);
    if http_only { let mut i = 0; while a["t"] != "http" { i += 1; if i > 20 { break } a = lite(ch, fam, &d, 0); } if a["t"] != "http" { continue } }
    a["states"] = states(ch, fam);
    if a["t"] == "http" { a["req"]["query"] = match ch.below(4) { 0 => json!({"a": ["1"]}), 1 => json!({"a": ["1", "2"], "b": ["x"]}), _ => Value::Null }; }
    if fam == Fam::V4 && a["key"].is_string() { a["key"] = json!(match ch.below(6) { 0 => format!("key-{}", k), 1 => format!("{}", k), 2 => ["a", "b", "c", "d", "e", "f", "g", "h"][k % 8].to_string(), 3 => format!("00ff{:012x}", k), 4 => format!("KEY ü {}", k), _ => format!("{}{}", "k".repeat(40), k) }); }
    if out.iter().any(|b| same(a_ref(&a), b, fam)) { continue }
    out.push(a);
  }
  out
}
fn a_ref(a: &Value) -> &Value { a }

/// The attributes every version keeps.
fn common(a: &Value) -> Value {
  let part = |p: &Value| { let mut o = json!({}); for k in ["method", "path", "query", "headers", "body", "status", "meta"] { if let Some(v) = p.get(k) { o[k] = v.clone(); } } if let Some(b) = o["body"].as_object_mut() { b.remove("ct"); } o };
  let res: Vec<Value> = a["res"].as_array().map(|r| r.iter().map(part).collect()).unwrap_or_default();
  json!({"desc": a["desc"], "states": a["states"], "req": part(&a["req"]), "res": res})
}

fn check(o: &mut Outcome, what: &str, want: &[Value], got: &[Value], fam: Fam, loose: bool) {
  let mut left: Vec<&Value> = got.iter().collect();
  for a in want {
    let p = project(a, fam);
    let idx: Vec<usize> = left.iter().enumerate().filter(|(_, g)| ident(g, fam) == ident(a, fam)).map(|(i, _)| i).collect();
    match idx.len() {
      0 => o.violate(format!("{}-lost", what), format!("{} {} is missing", a["desc"], a["states"])),
      1 => {
        let g = left.remove(idx[0]);
        let d = if loose { diff(&common(&p), &common(g), "") } else { diff(&p, g, "") };
        if let Some((at, d)) = d { o.violate(format!("{}-changed:{}", what, place(&at)), format!("{} {}: {} {}", a["desc"], a["states"], at, d)); }
      }
      n => { o.violate(format!("{}-repeated", what), format!("{} {} is stored {} times", a["desc"], a["states"], n)); left.retain(|g| ident(g, fam) != ident(a, fam)); }
    }
  }
  for g in left { o.violate(format!("{}-appeared", what), format!("{} {}", g["desc"], g["states"])); }
}

fn shuffle<T>(ch: &mut Choices, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = ch.below(i + 1); v.swap(i, j); } }

/// A file that holds interactions of kinds the writer's version may not know: the write is refused
/// and the file stays as it was, or everything is in it.
fn cross(ch: &mut Choices, mut o: Outcome) -> Outcome {
  let (base, fam) = *ch.pick(&[(Fam::V4, Fam::V3), (Fam::V4, Fam::Msg), (Fam::V4, Fam::V2), (Fam::Msg, Fam::V4), (Fam::Msg, Fam::V3), (Fam::V3, Fam::Msg), (Fam::V4, Fam::V4)]);
  let mut h = Host::new(ch);
  let plain = |mut a: Value| { a["states"] = json!([]); a };
  let n = ch.count(1, 4);
  let init: Vec<Value> = (0..n).map(|k| { let mut a = plain(lite(ch, base, &format!("older {}", k), 0)); if base == Fam::V4 { a["key"] = Value::Null; } a }).collect();
  let m = ch.count(1, 3);
  let new: Vec<Value> = (0..m).map(|k| plain(lite(ch, fam, &format!("newer {}", k), 0))).collect();
  h.fs.put(PATH, serde_json::to_vec_pretty(&to_doc(&init, base, "c", "p")).unwrap().as_slice());
  let name = format!("{}-writer-meets-{}", fam.name(), base.name());
  o.probe(&name);
  for again in 0..2 {
    let before = h.fs.get(PATH).cloned();
    let ns = &new;
    let r = h.proc(&format!("{} (time {})", name, again + 1), move || write_pact(to_model(ns, fam, "c", "p"), Path::new(PATH), fam.spec(), false).map_err(|e| format!("{:#}", e)));
    let after = h.fs.get(PATH).cloned();
    match r {
      Err(p) => { o.violate(panic_class(&p), format!("{}: {}", name, p)); break }
      Ok(Err(e)) => {
        o.probe("kind-refused");
        if after != before { o.violate("refused-but-changed", format!("{}: the file changed although the write failed with {}", name, short(&e))); break }
        // only something the writer's version can not hold is a reason
        let fits = |a: &Value| match fam { Fam::V4 => true, Fam::Msg => a["t"] == "msg" || a["t"] == "async", _ => a["t"] == "http" };
        if init.iter().all(fits) { o.violate("refused", format!("{}: {}", name, short(&e))); break }
      }
      Ok(Ok(())) => match load(after.as_deref().unwrap_or(b"")) {
        Err(e) => { o.violate("unreadable", format!("{}: {}", name, e)); break }
        Ok(got) => {
          let mut left: Vec<Value> = got.iter().map(common).collect();
          for a in init.iter().chain(&new) {
            match left.iter().position(|g| g["desc"] == a["desc"]) {
              None => o.violate("union-lost", format!("{}: {} ({}) is missing", name, a["desc"], a["t"])),
              Some(i) => { let g = left.remove(i); if let Some((at, d)) = diff(&common(&project(a, fam)), &g, "") { o.violate(format!("union-changed:{}", place(&at)), format!("{}: {}: {} {}", name, a["desc"], at, d)); } }
            }
          }
          if let Some(g) = left.first() { o.violate("union-appeared", format!("{}: {}", name, g["desc"])); }
        }
      }
    }
    if !o.violations.is_empty() { break }
  }
  o.digest = hash_str(&String::from_utf8_lossy(&h.fs.get(PATH).cloned().unwrap_or_default()));
  o.case = o.digest; o.nontrivial = true; o.sample = name;
  o.steps = h.syscalls; o.sim_ns = h.sim_ns;
  o.trace = std::mem::take(&mut h.trace);
  o
}

pub fn c04(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  if ch.pct(10) { return cross(ch, o) }
  let fam = *ch.pick(&[Fam::V4, Fam::V3, Fam::Msg, Fam::V2]);
  // a file of another version the first writer meets
  let base = if ch.pct(25) { match fam { Fam::V4 => *ch.pick(&[Fam::V3, Fam::V2]), Fam::V3 => *ch.pick(&[Fam::V2, Fam::V4]), Fam::V2 => Fam::V3, Fam::Msg => Fam::Msg } } else { fam };
  let mixed = base != fam;
  // the writer's version says which interactions are one
  let idf = fam;
  let mut p = pool(ch, fam, mixed);
  let mut init: Vec<Value> = vec![];
  if mixed {
    if fam == Fam::V2 { for a in p.iter_mut() { a["states"] = if a["states"].as_array().unwrap().is_empty() { json!([]) } else { json!([{"name": "one", "params": {}}]) }; } }
    let mut q: Vec<Value> = vec![];
    for a in p.drain(..) { if !q.iter().any(|b| ident(b, idf) == ident(&a, idf)) { q.push(a); } }
    p = q;
    // something both have
    let plain = |a: &Value| a["states"].as_array().map(|s| s.is_empty() || s.len() == 1 && s[0]["params"] == json!({})).unwrap_or(false);
    if ch.pct(40) { if let Some(a) = p.iter().find(|a| plain(a)) { let mut a = a.clone(); if let Some(m) = a.as_object_mut() { m.remove("key"); } if base == Fam::V4 { for (k, v) in [("key", Value::Null), ("comments", json!({})), ("pending", json!(false)), ("plugin", json!({})), ("markup", json!({"markup": "", "markupType": ""})), ("transport", Value::Null)] { a[k] = v; } } init.push(a); o.probe("both versions have it"); } }
    for k in 0..ch.count(1, 2) {
      let mut a = lite(ch, base, &format!("older {}", k), 0);
      let mut i = 0; while a["t"] != "http" && i < 20 { a = lite(ch, base, &format!("older {}", k), 0); i += 1; }
      if a["t"] != "http" { continue }
      a["key"] = Value::Null;
      if base != Fam::V4 { if let Some(m) = a.as_object_mut() { m.remove("key"); } }
      a["states"] = json!([]);
      init.push(a);
    }
    o.probe(&format!("{}-file-meets-{}", base.name(), fam.name()));
  }
  let n = ch.count(2, 5);
  let mut pacts: Vec<Vec<Value>> = vec![];
  for _ in 0..n { let mut v: Vec<Value> = p.iter().filter(|_| ch.pct(50)).cloned().collect(); if v.is_empty() { v.extend(p.first().cloned()); } shuffle(ch, &mut v); pacts.push(v); }
  let mut union: Vec<Value> = init.clone();
  for a in pacts.iter().flatten() { if !union.iter().any(|b| same(a, b, idf)) { union.push(a.clone()); } }

  let mut files: Vec<Vec<u8>> = vec![];
  for round in 0..2 {
    let mut h = Host::new(ch);
    if round > 0 { h.trace.push("--- another host, another order".into()); }
    if !init.is_empty() { h.fs.put(PATH, serde_json::to_vec_pretty(&to_doc(&init, base, "c", "p")).unwrap().as_slice()); }
    let mut order: Vec<usize> = (0..pacts.len()).collect();
    shuffle(ch, &mut order);
    for _ in 0..ch.below(3) { let k = order[ch.below(order.len())]; let at = ch.below(order.len() + 1); order.insert(at, k); }
    let in_memory = init.is_empty() && ch.pct(30);
    let mut bad = false;
    if in_memory {
      o.probe("in-memory");
      let (ps, ord) = (&pacts, &order);
      let r = h.proc(&format!("merge the pacts {:?} in memory", order), move || -> Result<Vec<u8>, String> {
        let mut acc: Option<Box<dyn pact_models::pact::Pact + Send + Sync + std::panic::RefUnwindSafe>> = None;
        for &k in ord {
          let m = to_model(&ps[k], fam, "c", "p");
          acc = Some(match acc { None => m, Some(a) => m.merge(&*a).map_err(|e| format!("{:#}", e))? });
        }
        Ok(acc.unwrap().to_json(fam.spec()).map_err(|e| e.to_string())?.to_string().into_bytes())
      });
      match r {
        Err(p) => { o.violate(panic_class(&p), p); bad = true }
        Ok(Err(e)) => { o.violate("refused", format!("merge {:?}: {}", order, short(&e))); bad = true }
        Ok(Ok(b)) => files.push(b),
      }
    } else {
      for &k in &order {
        let ps = &pacts;
        let d: Vec<String> = ps[k].iter().map(|a| ident(a, fam)).collect();
        let r = h.proc(&format!("write pact {} [{}]", k, d.join("; ")), move || write_pact(to_model(&ps[k], fam, "c", "p"), Path::new(PATH), fam.spec(), false).map_err(|e| format!("{:#}", e)));
        match r { Err(p) => { o.violate(panic_class(&p), p); bad = true } Ok(Err(e)) => { o.violate("refused", format!("pact {}: {}", k, short(&e))); bad = true } Ok(Ok(())) => {} }
        if bad { break }
      }
      if !bad { files.push(h.fs.get(PATH).cloned().unwrap_or_default()); }
    }
    let mut kept = false;
    if !bad {
      let b = files.last().unwrap().clone();
      o.digest = mix(o.digest, hash_str(&String::from_utf8_lossy(&b)));
      h.trace.push(format!("result: {}", String::from_utf8_lossy(&b).split_whitespace().collect::<Vec<_>>().join(" ")));
      match load(&b) {
        Err(e) => o.violate("unreadable", e),
        Ok(got) => { let n = o.violations.len(); check(&mut o, "union", &union, &got, idf, mixed); kept = o.violations.len() == n; }
      }
    }
    // ---- writes that have to be refused, or that replace
    if kept && !in_memory && round == 0 {
      let before = h.fs.get(PATH).cloned();
      let victim = ch.pick(&pacts[0]).clone();
      let kind = ch.below(6);
      let (mut bad_ais, mut c, mut pr, mut wf, mut name) = (vec![victim.clone()], "c", "p", fam, "");
      match kind {
        0 => { c = "other"; name = "another consumer" }
        1 => { pr = "other"; name = "another provider" }
        2 | 3 if fam == Fam::V2 || fam == Fam::V3 => if !init.iter().any(|a| a == &victim) {
          let b = &mut bad_ais[0];
          match ch.below(4) { 0 => { b["req"]["method"] = json!(ch.pick(&["PUT", "GET", "DELETE"])); name = "another method" } 1 => { let p = b["req"]["path"].as_str().unwrap_or("").to_string(); b["req"]["path"] = json!(match ch.below(3) { 0 => "/elsewhere".to_string(), 1 => format!("{}/", p), _ => p.to_uppercase() }); name = "another path" } 2 => {
            let mut q = b["req"]["query"].as_object().cloned().unwrap_or_default();
            let k = q.keys().next().cloned();
            match (ch.below(5), k) {
              (0, Some(k)) => { q.remove(&k); name = "a query without a parameter" }
              (1, Some(k)) => { if let Some(a) = q[&k].as_array_mut() { a.push(json!("again")); } name = "a query with a further value" }
              (2, Some(k)) => { q[&k] = json!(["z"]); name = "a query with another value" }
              (3, Some(_)) => { q.clear(); name = "no query" }
              _ => { q.insert("q-new".into(), json!(["z"])); name = "a query with a further parameter" }
            }
            b["req"]["query"] = if q.is_empty() { Value::Null } else { Value::Object(q) };
          } _ => { b["res"][0]["status"] = json!(ch.pick(&[404, 201, 500])); name = "another status" } }
          for k in 0..ch.below(3) { let mut x = lite(ch, fam, &format!("harmless {}", k), 0); if mixed { x["states"] = json!([]); } bad_ais.push(x); }
          shuffle(ch, &mut bad_ais);
        },
        5 if (fam == Fam::V2 || fam == Fam::V3) && !mixed => {
          // not a conflict: the stored one is kept
          let b = &mut bad_ais[0];
          match ch.below(3) { 0 => b["req"]["body"] = json!({"s": "present", "json": {"n": "other"}, "ct": "application/json"}), 1 => b["res"][0]["headers"] = json!({"X-Other": ["1"]}), _ => { b["req"]["headers"]["X-Other"] = json!(["1"]); } }
          o.probe("kept-stored");
          let ais = &bad_ais;
          let r = h.proc("write the same interaction with another body or header", move || write_pact(to_model(ais, fam, "c", "p"), Path::new(PATH), fam.spec(), false).map_err(|e| format!("{:#}", e)));
          match r {
            Err(p) => o.violate(panic_class(&p), p), Ok(Err(e)) => o.violate("refused", short(&e)),
            Ok(Ok(())) => match load(h.fs.get(PATH).map(|b| &b[..]).unwrap_or(b"")) { Err(e) => o.violate("unreadable", e), Ok(got) => check(&mut o, "kept", &union, &got, idf, false) },
          }
        }
        4 if fam == Fam::V3 => { wf = Fam::Msg; let m = lite(ch, Fam::Msg, "a message", 0); bad_ais = vec![m]; name = "a message pact" }
        _ => {}
      }
      if !name.is_empty() {
        o.probe(&format!("refuse-{}", name.replace(' ', "-")));
        let ais = &bad_ais;
        let r = h.proc(&format!("conflicting write: {}", name), move || write_pact(to_model(ais, wf, c, pr), Path::new(PATH), wf.spec(), false).map_err(|e| format!("{:#}", e)));
        match r {
          Err(p) => o.violate(panic_class(&p), p),
          Ok(Ok(())) => o.violate(format!("accepted:{}", name.replace(' ', "-")), format!("{} for {}", name, victim["desc"])),
          Ok(Err(_)) => {}
        }
        if h.fs.get(PATH).cloned() != before { o.violate("refused-but-changed", format!("{}: the file changed", name)); }
      } else if fam == Fam::V4 && !mixed {
        // V4: the last writer of an interaction wins, by identity or by explicit key
        let mut b = lite(ch, fam, "x", 0);
        b["states"] = victim["states"].clone(); b["key"] = victim["key"].clone();
        let by_key = victim["key"].is_string() && ch.pct(50);
        if by_key { b["desc"] = json!("renamed"); o.probe("replace-by-key"); } else { b["desc"] = victim["desc"].clone(); let mut i = 0; while b["t"] != victim["t"] && i < 30 { let (s, k, d) = (b["states"].clone(), b["key"].clone(), b["desc"].clone()); b = lite(ch, fam, "x", 0); b["states"] = s; b["key"] = k; b["desc"] = d; i += 1; } o.probe("replace-by-identity"); }
        if by_key || b["t"] == victim["t"] {
          let want: Vec<Value> = union.iter().filter(|a| ident(a, fam) != ident(&victim, fam)).cloned().chain(std::iter::once(b.clone())).collect();
          let br = &b;
          let r = h.proc("write a replacement", move || write_pact(to_model(&[br.clone()], fam, "c", "p"), Path::new(PATH), fam.spec(), false).map_err(|e| format!("{:#}", e)));
          match r {
            Err(p) => o.violate(panic_class(&p), p), Ok(Err(e)) => o.violate("refused", short(&e)),
            Ok(Ok(())) => match load(h.fs.get(PATH).map(|b| &b[..]).unwrap_or(b"")) { Err(e) => o.violate("unreadable", e), Ok(got) => check(&mut o, "replace", &want, &got, fam, false) },
          }
        }
      }
    }
    for f in &h.faults { o.fault(&format!("{}-transfer", f)); }
    o.steps += h.syscalls; o.sim_ns += h.sim_ns;
    o.trace.extend(std::mem::take(&mut h.trace));
    if !o.violations.is_empty() { break }
  }
  let _ = load_pact_from_json;
  o.case = o.digest;
  o.nontrivial = union.len() > 1 && pacts.len() > 1;
  o.sample = format!("{} {} pacts, {} interactions", fam.name(), pacts.len(), union.len());
  o.probe(&format!("fam-{}", fam.name()));
  o
}
