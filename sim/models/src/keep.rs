//! C05: every stored interaction survives loading, saving and merging by any number of processes.
use std::path::Path;

use pact_models::generators::Generator;
use pact_models::matchingrules::MatchingRule;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, read_pact, write_pact, Pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::gen::*;
use crate::procs::Host;

const PATH: &str = "/sim/pacts/c-p.json";

pub fn load(bytes: &[u8]) -> Result<Vec<Value>, String> {
  let v: Value = serde_json::from_slice(bytes).map_err(|e| format!("not JSON: {}", e))?;
  let p = load_pact_from_json("sim", &v).map_err(|e| format!("not a pact: {:#}", e))?;
  Ok(canon_pact(p.as_ref()))
}
/// Compares canonical interactions with what is expected to be stored.
pub fn compare(o: &mut Outcome, what: &str, want: &[Value], got: &[Value], fam: Fam) {
  for a in want {
    let a = project(a, fam);
    let same: Vec<&Value> = got.iter().filter(|g| g["desc"] == a["desc"]).collect();
    match same.len() {
      0 => o.violate(format!("{}:lost", what), format!("{} is missing", a["desc"])),
      1 => if let Some((at, d)) = diff(&a, same[0], "") { o.violate(format!("{}:{}:{}{}", what, fam.name(), place(&at), special(&a, &at, &d, fam)), format!("{} {}: {}", a["desc"], at, d)); },
      n => o.violate(format!("{}:repeated", what), format!("{} is stored {} times", a["desc"], n)),
    }
  }
  for g in got { if !want.iter().any(|a| a["desc"] == g["desc"]) { o.violate(format!("{}:appeared", what), format!("{} appeared", g["desc"])); } }
}

/// Two known losses are kept apart from every other change of the same part.
fn special(want: &Value, at: &str, d: &str, fam: Fam) -> &'static str {
  let pl = place(at);
  if fam == Fam::V2 && pl == "req.query" && !want["req"]["query"].to_string().is_ascii() { return ":non-ascii" }
  if fam == Fam::V4 && pl.ends_with("body") && at.ends_with("body.s") && d == "\"null\" became \"missing\"" { return ":null" }
  ""
}

/// What the pact says beside its interactions: plugin data, further metadata, names.
#[derive(Clone, Default)]
struct Rest { plugins: std::collections::BTreeMap<(String, String), Value>, meta: serde_json::Map<String, Value>, names: (String, String) }

trait Names { fn map_names(self) -> (String, String); }
impl Names for (&str, &str) { fn map_names(self) -> (String, String) { (self.0.to_string(), self.1.to_string()) } }
fn extend(p: &mut dyn Pact, plug: &[(String, String, Value)], md: &Option<(String, String)>) -> anyhow::Result<()> {
  for (n, v, c) in plug { let m: std::collections::HashMap<String, Value> = c.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect(); p.add_plugin(n, v, if m.is_empty() { None } else { Some(m) })?; }
  if let Some((a, b)) = md { p.add_md_version(a, b); }
  Ok(())
}

/// The value is a function of the place, so that entries from several sources never disagree.
fn plugin_conf(ch: &mut Choices, depth: usize, at: &str) -> Value {
  let mut m = serde_json::Map::new();
  for _ in 0..ch.count(0, 3) {
    let k = ch.pick(&["a", "b", "core-entries", "é key", "x.y"]).to_string();
    let p = format!("{}/{}", at, k);
    let v = match simcore::choices::hash_str(&p) % 6 { 0 | 1 if depth < 3 => plugin_conf(ch, depth + 1, &p), 2 => json!(p.len()), 3 => json!(true), 4 => json!(1.5), _ => json!(format!("value of {}", p)) };
    m.insert(k, v);
  }
  Value::Object(m)
}
fn union(a: &mut Value, b: &Value) {
  match (a, b) {
    (Value::Object(a), Value::Object(b)) => for (k, v) in b { match a.get_mut(k) { Some(x) => union(x, v), None => { a.insert(k.clone(), v.clone()); } } },
    (a, b) => *a = b.clone()
  }
}
fn gen_plugins(ch: &mut Choices) -> Vec<(String, String, Value)> {
  (0..ch.count(0, 3)).map(|_| { let (n, v) = (ch.pick(&["csv", "protobuf", "csv-2"]).to_string(), ch.pick(&["1.0.0", "1.1.0", "0"]).to_string()); let c = plugin_conf(ch, 0, &format!("{}/{}", n, v)); (n, v, c) }).collect()
}
impl Rest {
  fn add(&mut self, l: &[(String, String, Value)]) { for (n, v, c) in l { union(self.plugins.entry((n.clone(), v.clone())).or_insert(json!({})), c); } }
  fn check(&self, o: &mut Outcome, doc: &Value, fam: Fam) {
    if doc["consumer"]["name"] != json!(self.names.0) || doc["provider"]["name"] != json!(self.names.1) { o.violate("renamed", format!("the pact of {:?} is stored for {} and {}", self.names, doc["consumer"], doc["provider"])); }
    let md = &doc["metadata"];
    for (k, v) in &self.meta { for (a, x) in v.as_object().unwrap() { if md[k][a] != *x && (x.is_string() || md[k][a] != json!(x.to_string())) { o.violate(format!("metadata:{}", fam.name()), format!("metadata {}.{} was {} and is {}", k, a, x, md[k][a])); } } }
    let list = md["plugins"].as_array().cloned().unwrap_or_default();
    for ((n, v), c) in &self.plugins {
      let found: Vec<&Value> = list.iter().filter(|p| p["name"] == json!(n) && p["version"] == json!(v)).collect();
      match found.len() {
        0 => o.violate("plugin:lost", format!("the entry of plugin {} {} is missing", n, v)),
        1 => if let Some((at, d)) = diff(c, &found[0]["configuration"], "") { o.violate("plugin:changed", format!("plugin {} {} {}: {}", n, v, at, d)); },
        k => o.violate("plugin:repeated", format!("plugin {} {} has {} entries", n, v, k)),
      }
    }
    for p in &list { if !self.plugins.keys().any(|(n, v)| p["name"] == json!(n) && p["version"] == json!(v)) { o.violate("plugin:appeared", format!("an entry {} appeared", p)); } }
  }
}

pub fn c05(ch: &mut Choices, _trace: bool) -> Outcome {
  let mut o = Outcome::default();
  let fam = *ch.pick(&[Fam::V4, Fam::V3, Fam::Msg, Fam::V2]);
  let mut h = Host::new(ch);
  let mut uid = 0;
  let mut fresh = |ch: &mut Choices, n: usize| -> Vec<Value> { (0..n).map(|_| { uid += 1; interaction(ch, fam, &format!("interaction {}", uid)) }).collect() };
  let mut want: Vec<Value> = vec![];
  let mut rest = Rest { names: ch.pick(&[("c", "p"), ("Con sumer", "Ünï 日本"), ("a/b", "x\"y"), (" c", "p ")]).clone().map_names(), ..Rest::default() };
  let (cn, pn) = rest.names.clone();
  if ch.pct(65) {
    let n = ch.count(1, 3);
    want = fresh(ch, n);
    let mut doc = to_doc(&want, fam, &cn, &pn);
    if ch.pct(40) {
      for _ in 0..ch.count(1, 2) { let (k, a) = (ch.pick(&["tool", "pactRust", "pact-jvm", "pactTool", "é x"]).to_string(), ch.pick(&["version", "ffi", "a b"]).to_string()); let v = match ch.below(5) { 0 => json!(ch.below(100)), 1 => json!(ch.pct(50)), 2 => json!(2.5), _ => json!(word(ch)) }; rest.meta.entry(k.clone()).or_insert(json!({}))[&a] = v.clone(); doc["metadata"][&k][&a] = v; }
    }
    if fam == Fam::V4 && ch.pct(40) {
      let l = gen_plugins(ch);
      rest.add(&l);
      if !rest.plugins.is_empty() {
        doc["metadata"]["plugins"] = Value::Array(rest.plugins.iter().map(|((n, v), c)| { let mut p = json!({"name": n, "version": v}); if *c != json!({}) || l.len() % 2 == 0 { p["configuration"] = c.clone(); } p }).collect());
        o.probe("plugin data in the file");
      }
    }
    if ch.pct(50) { for u in crate::forms::restyle(ch, &mut doc, fam) { o.probe(&format!("form: {}", u)); } }
    h.fs.put(PATH, serde_json::to_vec_pretty(&doc).unwrap().as_slice());
    h.trace.push(format!("the file is written by another tool: {}", doc));
  }
  let steps = ch.count(1, 4);
  let mut stop = false;
  for k in 0..=steps {
    if stop { break }
    let op = if k == 0 { if want.is_empty() { 1 } else { 5 } } else { ch.below(6) };
    let (name, new): (&str, Vec<Value>) = match op {
      0 => ("load and save", vec![]),
      1 => ("merge new interactions into the file", { let n = ch.count(1, 2); fresh(ch, n) }),
      2 => ("load and merge with itself", vec![]),
      3 => ("load with the typed reader and save", vec![]),
      4 => ("load, add interactions, save", { let n = ch.count(1, 2); fresh(ch, n) }),
      _ => ("load", vec![]),
    };
    o.probe(name);
    let style = if new.is_empty() || ch.pct(30) { 0 } else { o.probe("made with mutators"); 1 + ch.u64() / 2 };
    let (n, cn, pn) = (new.clone(), cn.clone(), pn.clone());
    let plug = if fam == Fam::V4 && !new.is_empty() && ch.pct(30) { o.probe("plugin data added"); gen_plugins(ch) } else { vec![] };
    let md: Option<(String, String)> = if !new.is_empty() && ch.pct(20) { Some((ch.pick(&["ffi", "verifier"]).to_string(), word(ch))) } else { None };
    if op == 1 && k > 0 || op == 1 && want.is_empty() { rest.meta.clear(); }
    rest.add(&plug);
    if let Some((a, b)) = &md { rest.meta.entry("pactRust").or_insert(json!({}))[a] = json!(b); }
    let r = h.proc(name, move || -> Result<(), String> {
      let e = |x: anyhow::Error| format!("{:#}", x);
      let path = Path::new(PATH);
      crate::api::AT_ROOT.with(|c| c.set(true));
      match op {
        0 => { let p = read_pact(path).map_err(e)?; write_pact(p, path, fam.spec(), true).map_err(e) }
        1 => {
          let mut p = crate::api::pact(&n, fam, &cn, &pn, style);
          extend(p.as_mut(), &plug, &md).map_err(e)?;
          write_pact(p, path, fam.spec(), false).map_err(e)
        }
        2 => { let p = read_pact(path).map_err(e)?; write_pact(p, path, fam.spec(), false).map_err(e) }
        3 => {
          let p: Box<dyn Pact> = match fam { Fam::V2 | Fam::V3 => Box::new(RequestResponsePact::read_pact(path).map_err(e)?), Fam::Msg => Box::new(MessagePact::read_pact(path).map_err(e)?), Fam::V4 => Box::new(V4Pact::read_pact(path).map_err(e)?) };
          write_pact(p, path, fam.spec(), true).map_err(e)
        }
        4 => {
          let mut p = read_pact(path).map_err(e)?;
          let add = crate::api::pact(&n, fam, &cn, &pn, style);
          for i in add.interactions() { p.add_interaction(i.as_ref()).map_err(e)?; }
          extend(p.as_mut(), &plug, &md).map_err(e)?;
          write_pact(p, path, fam.spec(), true).map_err(e)
        }
        _ => read_pact(path).map(|_| ()).map_err(e)
      }
    });
    match r {
      Err(p) => { o.violate(panic_class(&p), format!("{} panicked: {}", name, p)); stop = true; }
      Ok(Err(e)) => { o.violate(format!("refused:{}", fam.name()), format!("{} failed: {}", name, short(&e))); stop = true; }
      Ok(Ok(())) => {}
    }
    want.extend(new);
    let bytes = h.fs.get(PATH).cloned();
    if let Some(b) = &bytes { o.digest = mix(o.digest, hash_str(&String::from_utf8_lossy(b))); h.trace.push(format!("file: {}", String::from_utf8_lossy(b).split_whitespace().collect::<Vec<_>>().join(" "))); }
    if stop { break }
    if let Some(doc) = bytes.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok()) { if op != 5 { let n = o.violations.len(); rest.check(&mut o, &doc, fam); stop |= o.violations.len() > n; } }
    match h.proc("check the file", move || bytes.map(|b| load(&b)).unwrap_or(Err("no file".into()))) {
      Err(p) => { o.violate(panic_class(&p), format!("reading after {} panicked: {}", name, p)); stop = true }
      Ok(Err(e)) => { o.violate("unreadable", format!("after {}: {}", name, short(&e))); stop = true }
      Ok(Ok(got)) => { let n = o.violations.len(); compare(&mut o, "changed", &want, &got, fam); if o.violations.len() > n { stop = true; let t: Vec<String> = got.iter().map(|g| g.to_string()).collect(); h.trace.push(format!("read: {}", t.join("\n      "))); } }
    }
  }
  if o.violations.is_empty() && ch.pct(50) { apart(ch, &mut h, &mut o); }
  o.case = o.digest;
  o.nontrivial = want.len() > 1;
  for f in &h.faults { o.fault(&format!("{}-transfer", f)); }
  o.steps = h.syscalls; o.sim_ns = h.sim_ns;
  o.sample = format!("{} {} interactions, {} steps, file {:016x}", fam.name(), want.len(), steps, o.digest);
  o.probe(&format!("fam-{}", fam.name()));
  o.trace = std::mem::take(&mut h.trace);
  o
}

/// rules and generators taken apart into their name and values, the form that plugins and the matching engine get
fn apart(ch: &mut Choices, h: &mut Host, o: &mut Outcome) {
  let fam = if ch.pct(80) { Fam::V4 } else { Fam::V3 };
  let rules: Vec<Value> = (0..ch.count(1, 4)).map(|_| rule(ch, fam, 1)).collect();
  let gens: Vec<Value> = (0..ch.count(1, 4)).map(|_| generator(ch, fam)).collect();
  o.probe("rules and generators taken apart");
  let r = h.proc("take rules and generators apart", move || -> Result<(), String> {
    for j in &rules {
      let r = MatchingRule::from_json(j).map_err(|e| format!("rule {}: {:#}", j, e))?;
      let v = json!(r.values());
      let again = MatchingRule::create(r.name().as_str(), &v).map_err(|e| format!("rule {} is {} with {}: {:#}", j, r.name(), v, e))?;
      if again != r || again.to_json() != r.to_json() { return Err(format!("rule {} is {} with {}, which is {}", j, r.name(), v, again.to_json())) }
    }
    for j in &gens {
      let g = Generator::create(j["type"].as_str().unwrap_or_default(), j).map_err(|e| format!("generator {}: {:#}", j, e))?;
      let v = json!(g.values());
      let again = Generator::create(g.name().as_str(), &v).map_err(|e| format!("generator {} is {} with {}: {:#}", j, g.name(), v, e))?;
      if again != g || again.to_json() != g.to_json() { return Err(format!("generator {} is {} with {}, which is {:?}", j, g.name(), v, again.to_json())) }
    }
    Ok(())
  });
  match r {
    Err(p) => o.violate(panic_class(&p), p),
    Ok(Err(e)) => o.violate(format!("apart:{}", e.split(' ').next().unwrap_or_default()), short(&e)),
    Ok(Ok(())) => {}
  }
}
