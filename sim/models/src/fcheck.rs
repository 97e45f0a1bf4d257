//! C19: the format check of pact files accepts what the library writes and finds what departs from the format.
use std::path::Path;

use pact_models::message_pact::MessagePact;
use pact_models::pact::{read_pact, write_pact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
use pact_models::PactSpecification;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::gen::*;
use crate::procs::Host;

const PATH: &str = "/sim/pacts/c-p.json";
type Found = Vec<(String, bool, String)>;

fn kind(v: &Value) -> &'static str { match v { Value::Null => "Null", Value::Bool(_) => "Bool", Value::Number(_) => "Number", Value::String(_) => "String", Value::Array(_) => "Array", Value::Object(_) => "Object" } }

/// The format, as the check has to see it: (place, is it an error, what the message has to name).
struct Ref { strict: bool, v3: bool, out: Found }
impl Ref {
  fn error(&mut self, at: &str, names: &str) { self.out.push((at.to_string(), true, names.to_string())) }
  fn warn(&mut self, at: &str, names: &str) { self.out.push((at.to_string(), false, names.to_string())) }
  fn by_mode(&mut self, at: &str, names: &str) { self.out.push((at.to_string(), self.strict, names.to_string())) }
  fn only(&mut self, at: impl Fn(&str) -> String, v: &Value, known: &[&str]) { for k in v.as_object().unwrap().keys() { if !known.contains(&k.as_str()) { self.by_mode(&at(k), k) } } }
  fn doc(&mut self, v: &Value) {
    if !v.is_object() { return self.error("/", kind(v)) }
    for who in ["consumer", "provider"] {
      let at = format!("/{}", who);
      match v.get(who) { None => self.by_mode(&at, who), Some(p) if !p.is_object() => self.error(&at, kind(p)), Some(p) => {
        match p.get("name") { None => self.by_mode(&format!("{}/name", at), "name"), Some(Value::String(_)) => {}, Some(n) => self.error(&format!("{}/name", at), kind(n)) }
        self.only(|_| at.clone(), p, &["name"]);
      } }
    }
    match v.get("interactions") {
      None => self.warn("/interactions", "interactions"),
      Some(Value::Array(l)) if l.is_empty() => self.warn("/interactions", ""),
      Some(Value::Array(l)) => for (k, i) in l.iter().enumerate() { self.interaction(&format!("/interactions/{}", k), i) },
      Some(x) => self.error("/interactions", kind(x)),
    }
    if let Some(m) = v.get("metadata") { self.metadata(m) }
    self.only(|k| format!("/{}", k), v, &["consumer", "provider", "interactions", "metadata"]);
  }
  fn interaction(&mut self, at: &str, i: &Value) {
    if !i.is_object() { return self.error(at, kind(i)) }
    match i.get("description") { None => self.by_mode(at, "description"), Some(Value::String(_)) => {}, Some(d) => self.error(&format!("{}/description", at), kind(d)) }
    if let Some(s) = i.get("providerStates") {
      match s { Value::Array(l) => for (k, s) in l.iter().enumerate() { self.state(&format!("{}/providerStates/{}", at, k), s) }, x => self.error(at, kind(x)) }
    } else if let Some(s) = i.get("providerState") {
      if self.v3 { self.warn(at, "providerState") }
      self.state(&format!("{}/providerStates/0", at), s);
    } else if let Some(s) = i.get("provider_state") {
      self.warn(at, "provider_state");
      self.state(&format!("{}/providerStates/0", at), s);
    }
    self.only(|_| at.to_string(), i, &["_id", "description", "providerState", "provider_state", "providerStates", "request", "response"]);
  }
  fn state(&mut self, at: &str, s: &Value) {
    match s {
      Value::String(_) => {}
      Value::Object(_) => {
        match s.get("name") { None => self.error(at, "name"), Some(Value::String(_)) => {}, Some(n) => self.error(at, kind(n)) }
        if let Some(p) = s.get("params") { if !p.is_object() { self.error(at, kind(p)) } }
        self.only(|_| at.to_string(), s, &["name", "params"]);
      }
      x => self.error(at, kind(x)),
    }
  }
  fn metadata(&mut self, m: &Value) {
    if !m.is_object() { return self.error("/metadata", kind(m)) }
    if m.get("pactSpecification").is_none() && m.get("pact-specification").is_some() { self.warn("/metadata", "pact-specification") }
    if m.get("pactSpecificationVersion").is_some() { self.warn("/metadata", "pactSpecificationVersion") }
    let at = "/metadata/pactSpecification";
    match m.get("pactSpecification").or(m.get("pact-specification")) {
      None => {}
      Some(Value::Object(s)) => match s.get("version") {
        None => self.warn(at, "version"),
        Some(Value::Null) => self.warn(&format!("{}/version", at), ""),
        Some(Value::String(t)) => if !VERSIONS.iter().any(|(v, _)| v == t) { self.error(&format!("{}/version", at), t) },
        Some(x) => self.error(&format!("{}/version", at), kind(x)),
      },
      Some(x) => self.error(at, kind(x)),
    }
  }
}
const VERSIONS: &[(&str, &str)] = &[("1.0.0", "V1"), ("1.0", "V1"), ("1", "V1"), ("1.1.0", "V1.1"), ("1.1", "V1.1"), ("1.1.7", "V1.1"), ("2.0.0", "V2"), ("2", "V2"), ("2.0", "V2"), ("2.0.1", "V2"), ("3.0.0", "V3"), ("3.0", "V3"), ("3", "V3"), ("3.0.12", "V3"), ("4.0", "V4"), ("4", "V4"), ("4.0.0", "V4")];
const NO_VERSIONS: &[&str] = &["", "x", "V3x", "5", "0", "3.1", "2.1.0", "1.2", "4.1.0", "99.0.0", "unknown", "three"];

fn got(l: &[PactFileVerificationResult]) -> Found { l.iter().map(|r| (r.path.clone(), r.level == ResultLevel::ERROR, r.message.clone())).collect() }
fn differs(want: &Found, got: &Found) -> Option<(String, String)> {
  let mut left = got.clone();
  for w in want {
    match left.iter().position(|g| g.0 == w.0 && g.1 == w.1 && g.2.contains(&w.2)) {
      Some(k) => { left.remove(k); }
      None => return Some(match got.iter().find(|g| g.0 == w.0) {
        Some(g) if g.1 != w.1 => ("level".into(), format!("{} {:?} is to be {}", g.0, g.2, if w.1 { "an error" } else { "a warning" })),
        Some(g) => ("text".into(), format!("{}: {:?} does not name {:?}", g.0, g.2, w.2)),
        None => ("not-found".into(), format!("nothing is reported at {} ({})", w.0, w.2)) })
    }
  }
  left.first().map(|g| ("too-much".into(), format!("{} at {}: {}", if g.1 { "an error" } else { "a warning" }, g.0, g.2)))
}

/// As much of JSON schema as the published schemas use; an unknown keyword is an error of this harness.
fn conforms(v: &Value, s: &Value, root: &Value, at: &str) -> Result<(), String> {
  for (k, x) in s.as_object().ok_or("a schema is not an object")? {
    match k.as_str() {
      "description" | "definitions" | "title" | "$schema" => {}
      "$ref" => conforms(v, root.pointer(x.as_str().unwrap_or("?").trim_start_matches('#')).ok_or(format!("{} refers to {} which is not there", at, x))?, root, at)?,
      "type" => if x != &json!(kind(v).to_lowercase()) { return Err(format!("{} is to be of type {}", at, x)) },
      "properties" => if let Some(m) = v.as_object() { for (n, p) in x.as_object().unwrap() { if let Some(y) = m.get(n) { conforms(y, p, root, &format!("{}/{}", at, n))? } } },
      "required" => if let Some(m) = v.as_object() { for n in x.as_array().unwrap() { if !m.contains_key(n.as_str().unwrap()) { return Err(format!("{} has no {}", at, n)) } } },
      "items" => if let Some(l) = v.as_array() { for (n, y) in l.iter().enumerate() { conforms(y, x, root, &format!("{}/{}", at, n))? } },
      "additionalProperties" if x == &json!(false) => if let Some(m) = v.as_object() { for n in m.keys() { if s["properties"].get(n).is_none() { return Err(format!("{} may not have {}", at, n)) } } },
      _ => return Err(format!("unknown keyword {}", k)),
    }
  }
  Ok(())
}

fn odd(ch: &mut Choices, not: &str) -> Value {
  loop { let v = ch.pick(&[json!(null), json!(true), json!(7), json!(1.5), json!("text"), json!([]), json!(["a"]), json!({}), json!({"a": 1}), json!("")]).clone(); if kind(&v) != not { return v } }
}
/// Makes one change to the document that may take it out of the format.
fn depart(ch: &mut Choices, doc: &mut Value) -> &'static str {
  if !doc.is_object() { return "-" }
  let n = doc["interactions"].as_array().map(|l| l.len()).unwrap_or(0);
  let k = if n > 0 { ch.below(n) } else { 0 };
  let who = *ch.pick(&["consumer", "provider"]);
  match ch.below(if n > 0 { 26 } else { 14 }) {
    0 => { doc.as_object_mut().unwrap().remove(who); "no participant" }
    1 => { doc[who] = odd(ch, "Object"); "participant of another type" }
    2 => { if let Some(m) = doc[who].as_object_mut() { m.remove("name"); } "no name" }
    3 => { if doc[who].is_object() { doc[who]["name"] = odd(ch, "String"); } "name of another type" }
    4 => { if doc[who].is_object() { doc[who][*ch.pick(&["version", "Name", "é", ""])] = odd(ch, "-"); } "unknown attribute of a participant" }
    5 => { doc.as_object_mut().unwrap().remove("interactions"); "no interactions" }
    6 => { doc["interactions"] = if ch.pct(40) { json!([]) } else { odd(ch, "Array") }; "interactions of another type" }
    7 => { doc[*ch.pick(&["messages", "createdAt", "_links", "Consumer", "a/b"])] = odd(ch, "-"); "unknown attribute" }
    8 => { doc.as_object_mut().unwrap().remove("metadata"); "no metadata" }
    9 => { doc["metadata"] = odd(ch, "-"); "other metadata" }
    10 => { if doc["metadata"].is_object() { doc["metadata"][*ch.pick(&["pactSpecification", "pact-specification", "pactSpecificationVersion"])] = odd(ch, "-"); } "other specification" }
    11 => { if doc["metadata"].is_object() { let k = *ch.pick(&["pactSpecification", "pactSpecification", "pact-specification"]); doc["metadata"][k] = json!({"version": odd(ch, "-")}); } "version of another type" }
    12 => { if doc["metadata"].is_object() { let t = ch.pick(NO_VERSIONS).to_string(); doc["metadata"]["pactSpecification"] = json!({"version": t}); } "no such version" }
    13 => { if let Some(m) = doc["metadata"].as_object_mut() { let s = m.remove("pactSpecification").unwrap_or(json!({"version": "2.0.0"})); m.insert("pact-specification".into(), s); } "old name of the specification" }
    14 => { doc["interactions"][k] = odd(ch, "Object"); "interaction of another type" }
    15 => { if let Some(m) = doc["interactions"][k].as_object_mut() { m.remove("description"); } "no description" }
    16 => { if doc["interactions"][k].is_object() { doc["interactions"][k]["description"] = odd(ch, "String"); } "description of another type" }
    17 => { if doc["interactions"][k].is_object() { doc["interactions"][k][*ch.pick(&["key", "pending", "Request", "provider-state", "comments"])] = odd(ch, "-"); } "unknown attribute of an interaction" }
    18 => { if doc["interactions"][k].is_object() { doc["interactions"][k]["_id"] = odd(ch, "-"); } "an id" }
    19 => { if doc["interactions"][k].is_object() { doc["interactions"][k]["providerStates"] = odd(ch, "-"); } "other states" }
    20 | 21 => { if doc["interactions"][k].is_object() { if let Some(m) = doc["interactions"][k].as_object_mut() { if ch.pct(60) { m.remove("providerStates"); } } let s = if ch.pct(50) { json!(word(ch)) } else { odd(ch, "-") }; doc["interactions"][k][*ch.pick(&["providerState", "provider_state"])] = s; } "old form of a state" }
    _ => {
      if doc["interactions"][k].is_object() {
        let mut s = json!({"name": word(ch)});
        match ch.below(6) { 0 => s["name"] = odd(ch, "-"), 1 => { s.as_object_mut().unwrap().remove("name"); } 2 => s["params"] = odd(ch, "-"), 3 => s[*ch.pick(&["param", "Name", "description"])] = odd(ch, "-"), 4 => s = odd(ch, "-"), _ => { s["params"] = odd(ch, "-"); s["x"] = odd(ch, "-"); } }
        let mut l = doc["interactions"][k]["providerStates"].as_array().cloned().unwrap_or_default();
        let at = ch.below(l.len() + 1);
        l.insert(at, s);
        doc["interactions"][k]["providerStates"] = Value::Array(l);
      }
      "another state"
    }
  }
}

pub fn c19(ch: &mut Choices, _trace: bool) -> Outcome {
  let mut o = Outcome::default();
  let fam = *ch.pick(&[Fam::V3, Fam::V3, Fam::V2, Fam::V2, Fam::Msg, Fam::V4]);
  let http = matches!(fam, Fam::V2 | Fam::V3);
  let mut h = Host::new(ch);
  let mut uid = 0;
  let mut own = false;
  let mut log = vec![];
  // a history of the file
  if ch.pct(50) {
    let n = ch.count(0, 3);
    let l: Vec<Value> = (0..n).map(|_| { uid += 1; interaction(ch, fam, &format!("interaction {}", uid)) }).collect();
    let mut doc = to_doc(&l, fam, "c", "p");
    if ch.pct(60) { crate::forms::restyle(ch, &mut doc, fam); }
    h.fs.put(PATH, serde_json::to_vec(&doc).unwrap().as_slice());
    log.push("a file of another tool".to_string());
  }
  for _ in 0..ch.count(if h.fs.get(PATH).is_some() { 0 } else { 1 }, 3) {
    let n = ch.count(0, 2);
    let l: Vec<Value> = (0..n).map(|_| { uid += 1; interaction(ch, fam, &format!("interaction {}", uid)) }).collect();
    let style = ch.u64();
    let again = h.fs.get(PATH).is_some() && ch.pct(40);
    let r = h.proc("write", move || -> Result<(), String> {
      let e = |x: anyhow::Error| format!("{:#}", x);
      let p = if again { read_pact(Path::new(PATH)).map_err(e)? } else { crate::api::pact(&l, fam, "c", "p", style) };
      write_pact(p, Path::new(PATH), fam.spec(), false).map_err(e)
    });
    match r { Err(p) => { o.violate(panic_class(&p), p); return o } Ok(Err(e)) => { log.push(format!("refused: {}", short(&e))); } Ok(Ok(())) => { own = true; log.push("written by the library".to_string()); } }
  }
  let bytes = h.fs.get(PATH).cloned().unwrap_or_else(|| b"{}".to_vec());
  let mut doc: Value = serde_json::from_slice(&bytes).unwrap_or(json!({}));
  if own { o.probe("written by the library"); }
  let mut clean = own;
  if ch.pct(60) { clean = false; for _ in 0..ch.count(1, 4) { let d = depart(ch, &mut doc); o.probe(d); log.push(d.to_string()); } if ch.pct(3) { doc = odd(ch, "Object"); } }
  let strict = ch.pct(50);
  let spec = if http { fam.spec() } else { PactSpecification::V3 };
  let as_given = if http && ch.pct(20) { *ch.pick(&[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4]) } else { spec };
  let d = doc.clone();
  let text = doc.to_string();
  let kinds: Vec<(Value, &str)> = [json!(null), json!(false), json!(0), json!("x"), json!([]), json!({})].into_iter().map(|v| { let k = kind(&v); (v, k) }).collect();
  let r = h.proc("check", move || {
    let run = |s: bool| -> Vec<Found> { vec![got(&RequestResponsePact::verify_json("/", &d, s, as_given)), got(&MessagePact::verify_json("/", &d, s, as_given)), got(&V4Pact::verify_json("/", &d, s, as_given))] };
    let (a, b, other) = (run(strict), run(strict), run(!strict));
    let types: Vec<bool> = kinds.iter().map(|(v, k)| json_type_of(v) == *k).collect();
    let versions: Vec<String> = VERSIONS.iter().map(|(t, _)| PactSpecification::parse_version(*t).map(|p| format!("{}{}", p, if PactSpecification::parse_version(p.version_str()).ok() == Some(p) && PactSpecification::from(p.to_string()) == p { "" } else { "!" })).unwrap_or("refused".into())).zip_with(VERSIONS.iter().map(|(_, v)| v.to_string()));
    let schemas = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3].map(RequestResponsePact::schema);
    (a, b, other, types, versions, schemas)
  });
  match r {
    Err(p) => { o.violate(panic_class(&p), p); }
    Ok((a, b, other, types, versions, schemas)) => {
      if a != b { o.violate("not-repeatable", "two checks of the same document differ".to_string()); }
      if types.contains(&false) { o.violate("type-name", format!("the types of JSON values are named wrongly: {:?}", types)); }
      for v in versions { o.violate("version", v); }
      let want = |s: bool| { let mut r = Ref { strict: s, v3: as_given >= PactSpecification::V3, out: vec![] }; r.doc(&doc); r.out };
      if http {
        for (s, l) in [(strict, &a[0]), (!strict, &other[0])] { if let Some((c, d)) = differs(&want(s), l) { o.violate(format!("http:{}", c), format!("{} (strict: {})", d, s)); break } }
        if clean && as_given == spec {
          if let Some(e) = a[0].iter().chain(other[0].iter()).find(|r| r.1) { o.violate("own-file", format!("the file the library wrote is refused: {} {}", e.0, e.2)); }
          o.probe("own file accepted");
        }
        for (k, s) in schemas.iter().enumerate() {
          let good = conforms(&doc, s, s, "");
          if clean { if let Err(e) = &good { o.violate("own-file-schema", format!("the file the library wrote does not conform with schema {}: {}", k, e)); } }
          // what has to be there according to the schema
          let need = ["consumer", "provider", "interactions"].iter().all(|n| doc.get(n).is_some()) && doc["interactions"].is_array() && ["consumer", "provider"].iter().all(|n| doc[n]["name"].is_string())
            && doc.get("metadata").map(|m| m.is_object() && m.get("pactSpecification").map(version_only).unwrap_or(true) && (k == 3 || m.get("pact-specification").map(version_only).unwrap_or(true) && m.get("pactSpecificationVersion").map(|v| v.is_string()).unwrap_or(true))).unwrap_or(true);
          if doc.is_object() && good.is_ok() != need { o.violate("schema", format!("schema {} {} the document: {:?}", k, if need { "refuses" } else { "accepts" }, good)); }
        }
      }
      for (n, l) in [("message", &a[1]), ("v4", &a[2])] {
        let bad: Vec<_> = l.iter().filter(|r| r.1).collect();
        if doc.is_object() { if clean { if let Some(r) = bad.first() { o.violate(format!("{}:own-file", n), format!("{} {}", r.0, r.2)); } } }
        else if bad.len() != 1 || bad[0].0 != "/" || !bad[0].2.contains(kind(&doc)) { o.violate(format!("{}:not-an-object", n), format!("{:?}", l)); }
      }
      for r in a[0].iter() { o.digest = mix(o.digest, hash_str(&format!("{:?}", r))); }
      o.nontrivial = !a[0].is_empty() || clean;
    }
  }
  o.digest = mix(o.digest, hash_str(&text));
  o.case = o.digest;
  for f in &h.faults { o.fault(&format!("{}-transfer", f)); }
  o.steps = h.syscalls; o.sim_ns = h.sim_ns;
  o.sample = short(&format!("{} {}", fam.name(), log.join("; ")));
  o.probe(&format!("fam-{}", fam.name()));
  h.trace.push(format!("the document: {}", text));
  o.trace = std::mem::take(&mut h.trace);
  o
}
fn version_only(v: &Value) -> bool { v.as_object().map(|m| m.len() == 1 && m.get("version").map(|v| v.is_string()).unwrap_or(false)).unwrap_or(false) }
trait ZipWith { fn zip_with(self, o: impl Iterator<Item = String>) -> Vec<String>; }
impl<I: Iterator<Item = String>> ZipWith for I { fn zip_with(self, o: impl Iterator<Item = String>) -> Vec<String> { self.zip(o).filter(|(a, b)| a != b).map(|(a, b)| format!("{} is recognised as {}", b, a)).collect() } }
