//! C06: equal inputs give equal outputs in every process.
#![allow(deprecated)]
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::path::Path;

use pact_models::generators::{apply_generators, generators_to_json, GeneratorTestMode, GeneratorCategory};
use pact_models::matchingrules::expressions::parse_matcher_def;
use pact_models::matchingrules::{matchers_to_json, Category, MatchingRules};
use pact_models::pact::{load_pact_from_json, write_pact, Pact};
use pact_models::PactSpecification;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::gen::*;
use crate::procs::Host;

const PATH: &str = "/sim/pacts/c-p.json";
type Report = Vec<(String, String)>;

fn h<T: Hash>(t: &T) -> String { let mut s = DefaultHasher::new(); t.hash(&mut s); format!("{:016x}", s.finish()) }

fn eqi(a: &dyn pact_models::interaction::Interaction, b: &dyn pact_models::interaction::Interaction) -> bool {
  if a.is_v4() { a.as_v4() == b.as_v4() } else if a.is_request_response() { a.as_request_response() == b.as_request_response() } else { a.as_message() == b.as_message() }
}

const DEFS: &[&str] = &["matching(type,'Name')", "matching(number,100)", "matching(datetime, 'yyyy-MM-dd','2000-01-01')", "matching(regex,'\\\\d+','12')", "matching($'ref')", "notEmpty('x')",
  "eachKey(matching(regex,'[a-z]+','k'))", "eachValue(matching(type, 100))", "eachValue(matching($'person'))", "atLeast(2)", "atMost(3)", "matching(include, 'a')", "matching(boolean, true)", "matching(semver, '1.0.0')", "matching(contentType, 'application/xml', '<a/>')",
  "matching(type, fromProviderState('exp', 3))", "matching(decimal, 1.5)", "matching(integer, -7)", "matching(equalTo, null)", "matching(time, 'HH:mm', '22:04')", "eachKey(notEmpty('\\u{1F600}'))", "matching(type, 'unclosed", "matching(type 'x')", "", "eachValue(", "matching(date, 'yyyy', fromProviderState('e', '2020'))"];

fn rules_report(r: &mut Report, at: &str, rules: &MatchingRules, paths: &[Vec<String>]) {
  r.push((format!("{} rules hash", at), h(rules)));
  for spec in [PactSpecification::V2, PactSpecification::V3, PactSpecification::V4] { r.push((format!("{} rules json {:?}", at, spec), matchers_to_json(rules, &spec).to_string())); }
  let list = |l: &pact_models::matchingrules::RuleList| format!("{} {:?} cascaded {}", Value::Array(l.rules.iter().map(|r| r.to_json()).collect()), l.rule_logic, l.cascaded);
  for cat in [Category::BODY, Category::CONTENTS, Category::HEADER, Category::QUERY, Category::METADATA, Category::PATH, Category::STATUS, Category::METHOD] {
    let Some(c) = rules.rules_for_category(cat.clone()) else { continue };
    r.push((format!("{} category {} hash", at, cat), h(&c)));
    r.push((format!("{} category {} as rule list", at, cat), list(&c.as_rule_list())));
    let gens: BTreeMap<String, String> = c.generators().iter().map(|(k, g)| (k.to_string(), g.to_json().map(|j| j.to_string()).unwrap_or_default())).collect();
    r.push((format!("{} category {} generators", at, cat), format!("{:?}", gens)));
    for p in paths {
      let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
      r.push((format!("{} best rule {}", at, cat), format!("{:?} {}", p, list(&c.select_best_matcher(&p)))));
      r.push((format!("{} matching rules {}", at, cat), format!("{:?} {}", p, c.resolve_matchers_for_path(&p).to_v3_json())));
      r.push((format!("{} rule defined {}", at, cat), format!("{:?} {} {} {}", p, c.matcher_is_defined(&p), rules.wildcard_matcher_is_defined(cat.clone(), &p), rules.type_matcher_defined(cat.clone(), &p))));
    }
  }
}

/// `==` and `!=` are opposites, equal values have one hash, and what says the same is equal.
fn law<T: PartialEq + Hash>(r: &mut Report, at: &str, a: &T, b: &T, same: bool) {
  let (e, n) = (a == b, a != b);
  let x = if e == n { "== and != agree" } else if e != (b == a) { "== depends on the order" } else if e && h(a) != h(b) { "equal and of different hash" } else if same && !e { "not equal although they say the same" } else { return };
  r.push((format!("law: {}", at), x.to_string()));
}
fn laws(r: &mut Report, all: &[(usize, Value, Box<dyn pact_models::interaction::Interaction + Send + Sync + std::panic::RefUnwindSafe>)]) {
  for (fa, ca, a) in all { for (fb, cb, b) in all {
    // paths are equal when they are written alike, so only what has one origin is expected to be equal
    let same = fa == fb && ca == cb;
    for (x, y) in a.provider_states().iter().zip(b.provider_states().iter()) { law(r, "provider state", x, y, x.name == y.name && x.params == y.params); }
    law(r, "contents", &a.contents(), &b.contents(), same);
    if !a.is_v4() && !b.is_v4() {
      if let (Some(x), Some(y)) = (a.as_request_response(), b.as_request_response()) {
        if (x == y) == (x != y) { r.push(("law: V3 interaction".into(), "== and != agree".into())); }
        if same && x != y { r.push(("law: V3 interaction".into(), "not equal although they say the same".into())); }
        law(r, "V3 request", &x.request, &y.request, same); law(r, "V3 response", &x.response, &y.response, same);
        law(r, "V3 rules", &x.request.matching_rules, &y.response.matching_rules, false);
        let c = (x.conflicts_with(&y).len(), y.conflicts_with(&x).len());
        if (c.0 == 0) != (c.1 == 0) { r.push(("law: conflict".into(), format!("{} one way and {} the other", c.0, c.1))); }
        if same && c.0 > 0 { r.push(("law: conflict".into(), "interactions that say the same conflict".into())); }
      }
      if let (Some(x), Some(y)) = (a.as_message(), b.as_message()) {
        if (x == y) == (x != y) { r.push(("law: V3 message".into(), "== and != agree".into())); }
        if same && x != y { r.push(("law: V3 message".into(), "not equal although they say the same".into())); }
        law(r, "V3 message rules", &x.matching_rules, &y.matching_rules, same); law(r, "V3 message generators", &x.generators, &y.generators, same);
      }
    }
    if let (Some(x), Some(y)) = (a.as_v4_http(), b.as_v4_http()) {
      law(r, "V4 interaction", &x, &y, same); law(r, "V4 request", &x.request, &y.request, same); law(r, "V4 response", &x.response, &y.response, same);
      law(r, "V4 rules", &x.request.matching_rules, &y.request.matching_rules, same); law(r, "V4 generators", &x.request.generators, &y.request.generators, same);
    }
    if let (Some(x), Some(y)) = (a.as_v4_async_message(), b.as_v4_async_message()) { law(r, "V4 message", &x, &y, same); law(r, "V4 contents", &x.contents, &y.contents, same); }
    if let (Some(x), Some(y)) = (a.as_v4_sync_message(), b.as_v4_sync_message()) { law(r, "V4 synchronous message", &x, &y, same); law(r, "V4 contents", &x.request, &y.request, same); }
  } }
}

/// What of an interaction takes part in equality (the rest are annotations), and what of it in its key.
fn essence(c: &Value, key: bool) -> Value {
  let mut c = c.clone();
  for k in ["comments", "plugin", "markup", "transport", "key"] { if let Some(m) = c.as_object_mut() { m.remove(k); } }
  fn walk(v: &mut Value, key: bool) {
    match v {
      Value::Object(m) => {
        // header names are the same in any case
        if let Some(Value::Object(h)) = m.get_mut("headers") { *h = h.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect(); }
        if let Some(Value::String(s)) = m.get("s").cloned() { if m.len() > 1 || s != "present" { m.remove("ct"); m.remove("hint"); } }
        if key { if let Some(r) = m.get("rules").map(|r| r.to_string()) { if ["statusCode", "eachKey", "eachValue"].iter().any(|t| r.contains(t)) { m.insert("rules".into(), json!("-")); } } m.remove("params"); m.remove("meta"); }
        for x in m.values_mut() { walk(x, key) }
      }
      Value::Array(l) => for x in l { walk(x, key) },
      _ => {}
    }
  }
  walk(&mut c, key);
  c
}
/// The header names of the responses as they are written.
fn heads(c: &Value) -> Vec<Value> { c["res"].as_array().map(|l| l.iter().map(|r| r["headers"].clone()).collect()).unwrap_or_default() }
/// Interactions that differ in what is sent or answered are not equal and have different keys; annotations make no difference.
fn near_laws(r: &mut Report, fam: Fam, near: &(Value, Value)) {
  let p = |v: &Value| { let d = to_doc(std::slice::from_ref(v), fam, "c", "p"); load_pact_from_json("sim", &d).ok() };
  let (Some(a), Some(b)) = (p(&near.0), p(&near.1)) else { return };
  let (ca, cb) = (&canon_pact(a.as_ref())[0], &canon_pact(b.as_ref())[0]);
  let (a, b) = (&a.interactions()[0], &b.interactions()[0]);
  let mut ess = (essence(ca, false), essence(cb, false));
  if a.is_v4() && ca["key"] != cb["key"] { ess.0["key"] = ca["key"].clone(); ess.1["key"] = cb["key"].clone(); }
  let at = diff(&ess.0, &ess.1, "").map(|(p, d)| format!("{} {}", place(&p), d)).unwrap_or_default();
  let e = eqi(a.as_ref(), b.as_ref());
  if e && ess.0 != ess.1 { r.push((format!("law: near {}", fam.name()), format!("equal but they differ at {}", at))); }
  if !e && ess.0 == ess.1 && ca["req"]["headers"] == cb["req"]["headers"] && heads(ca) == heads(cb) { r.push((format!("law: near {}", fam.name()), "not equal although they say the same".into())); }
  if let (Some(x), Some(y)) = (a.as_v4(), b.as_v4()) {
    let key = |v: &dyn pact_models::v4::interaction::V4Interaction| { let mut v = v.boxed_v4(); if let Some(m) = v.as_v4_http_mut() { m.key = None } else if let Some(m) = v.as_v4_async_message_mut() { m.key = None } else if let Some(m) = v.as_v4_sync_message_mut() { m.key = None } v.unique_key() };
    if a.is_v4() {
      let (kx, ky) = (key(x.as_ref()), key(y.as_ref()));
      let (ex, ey) = (essence(ca, true), essence(cb, true));
      if kx == ky && ex != ey { r.push((format!("law: key {}", fam.name()), format!("one key for two interactions that differ at {}", diff(&ex, &ey, "").map(|(p, d)| format!("{} {}", place(&p), d)).unwrap_or_default()))); }
      if kx != ky && ess.0 == ess.1 && ca["req"]["headers"] == cb["req"]["headers"] && heads(ca) == heads(cb) { r.push((format!("law: key {}", fam.name()), "two keys for what says the same".into())); }
    }
  }
}
/// Single rules and generators are equal exactly when they are configured alike.
fn single_laws(r: &mut Report, rules: &[Value], gens: &[Value]) {
  for a in rules { for b in rules {
    let (x, y) = (json_to_rule(a), json_to_rule(b));
    let (ca, cb) = (rule_to_json(&x), rule_to_json(&y));
    law(r, &format!("rule {}", a["match"]), &x, &y, a == b);
    if x == y && ca != cb { r.push((format!("law: rule {}", a["match"]), format!("equal but differ: {} and {}", ca, cb))); }
  } }
  for a in gens { for b in gens {
    let (x, y) = (json_to_generator(a), json_to_generator(b));
    let (ca, cb) = (generator_to_json(&x), generator_to_json(&y));
    law(r, &format!("generator {}", a["type"]), &x, &y, a == b);
    if x == y && ca != cb { r.push((format!("law: generator {}", a["type"]), format!("equal but differ: {} and {}", ca, cb))); }
  } }
}
type Near = ((Value, Value), Vec<Value>, Vec<Value>);

fn report(fam: Fam, near: &Near, ais: &[Value], style: u64, docs: &[Value], extra: &Value, extra_gens: &Value, paths: &[Vec<String>], defs: &[String], warm: usize) -> Report {
  let mut r: Report = vec![];
  // what a process did before must not matter
  for i in 0..warm { let m: std::collections::HashMap<usize, usize> = (0..i).map(|x| (x, x)).collect(); if m.len() > 2 { let _ = load_pact_from_json("warm", &docs[docs.len() - 1]); } }
  let mut pacts: Vec<Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>> = vec![];
  for (k, d) in docs.iter().enumerate() {
    let (a, b) = match (load_pact_from_json("sim", d), load_pact_from_json("sim", d)) {
      (Ok(a), Ok(b)) => (a, b),
      (a, b) => { r.push((format!("pact {} load", k), format!("{:?} / {:?}", a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string())))); continue }
    };
    r.push((format!("pact {} equal to itself", k), format!("{}", a.boxed() as Box<dyn Pact> == b.boxed() as Box<dyn Pact>)));
    for spec in [PactSpecification::V2, PactSpecification::V3, PactSpecification::V4] { r.push((format!("pact {} json {:?}", k, spec), match a.to_json(spec) { Ok(v) => v.to_string(), Err(e) => e.to_string() })); }
    r.push((format!("pact {} metadata", k), format!("{:?}", a.metadata())));
    for (i, (x, y)) in a.interactions().iter().zip(b.interactions().iter()).enumerate() {
      let at = format!("pact {} interaction {}", k, i);
      for s in x.provider_states() { r.push((format!("{} state hash", at), h(&s))); }
      r.push((format!("{} equal to itself", at), format!("{}", eqi(x.as_ref(), y.as_ref()))));
      for (j, z) in a.interactions().iter().enumerate() { r.push((format!("{} equal to {}", at, j), format!("{}", eqi(x.as_ref(), z.as_ref())))); }
      if let Some(v) = x.as_v4() {
        r.push((format!("{} key", at), v.unique_key()));
        r.push((format!("{} key of the second copy", at), y.as_v4().unwrap().unique_key()));
        r.push((format!("{} keyed json", at), v.with_unique_key().to_json().to_string()));
      }
      let v4 = x.as_v4();
      if let Some(v) = v4.as_ref().and_then(|v| v.as_v4_http()) {
        r.push((format!("{} hash", at), h(&v)));
        rules_report(&mut r, &format!("{} request", at), &v.request.matching_rules, paths);
        rules_report(&mut r, &format!("{} response", at), &v.response.matching_rules, paths);
        r.push((format!("{} generators hash", at), format!("{} {}", h(&v.request.generators), h(&v.response.generators))));
      } else if let Some(v) = v4.as_ref().and_then(|v| v.as_v4_async_message()) {
        r.push((format!("{} hash", at), h(&v)));
        rules_report(&mut r, &format!("{} contents", at), &v.contents.matching_rules, paths);
      } else if let Some(v) = v4.as_ref().and_then(|v| v.as_v4_sync_message()) {
        r.push((format!("{} hash", at), h(&v)));
        for c in v.response.iter().chain([&v.request]) { rules_report(&mut r, &format!("{} contents", at), &c.matching_rules, paths); }
      }
      if let Some(v) = x.as_request_response() { r.push((format!("{} v3 hash", at), format!("{} {}", h(&v.request), h(&v.response)))); r.push((format!("{} v3 json", at), v.to_json(&PactSpecification::V3).to_string())); r.push((format!("{} v2 json", at), v.to_json(&PactSpecification::V2).to_string())); }
      if let Some(v) = x.as_message() { r.push((format!("{} message json", at), v.to_json(&PactSpecification::V3).to_string())); }
    }
    pacts.push(a);
  }
  let made = crate::api::pact(ais, fam, "c", "p", style);
  let plain = to_model(ais, fam, "c", "p");
  let mut all: Vec<(usize, Value, _)> = vec![];
  for (k, p) in [Some(&made), Some(&plain), load_pact_from_json("sim", &docs[0]).ok().as_ref(), pacts.first()].into_iter().flatten().enumerate() { all.extend(canon_pact(p.as_ref()).into_iter().zip(p.interactions()).map(|(c, i)| (k / 2, c, i))); }
  laws(&mut r, &all);
  near_laws(&mut r, fam, &near.0);
  single_laws(&mut r, &near.1, &near.2);
  for (k, (_, _, x)) in all.iter().enumerate() {
    let at = format!("made interaction {}", k);
    if let Some(v) = x.as_v4() { r.push((format!("{} key", at), v.unique_key())); r.push((format!("{} json", at), v.to_json().to_string())); }
    if let Some(v) = x.as_request_response() { r.push((format!("{} v3 hash", at), format!("{} {}", h(&v.request), h(&v.response)))); r.push((format!("{} v3 json", at), v.to_json(&PactSpecification::V3).to_string())); }
    if let Some(v) = x.as_message() { r.push((format!("{} message json", at), v.to_json(&PactSpecification::V3).to_string())); }
  }
  r.push(("made pact".into(), match made.to_json(fam.spec()) { Ok(mut v) => { v["metadata"] = json!(null); v.to_string() } Err(e) => e.to_string() }));
  for i in 0..pacts.len() { for j in 0..pacts.len() { if i != j {
    r.push((format!("merge {} with {}", i, j), match pacts[i].merge(&*pacts[j]) { Ok(m) => m.to_json(m.specification_version()).map(|v| v.to_string()).unwrap_or_else(|e| e.to_string()), Err(e) => format!("error {:#}", e) }));
  } } }
  for p in pacts { let spec = p.specification_version(); let v = write_pact(p, Path::new(PATH), spec, false); r.push(("write".into(), format!("{:?}", v.map_err(|e| format!("{:#}", e))))); r.push(("file".into(), std::fs::read_to_string(PATH).unwrap_or_default())); }
  rules_report(&mut r, "extra", &model_rules(extra), paths);
  { let t = model_rules(extra).to_string(); if !t.contains("ArrayContains") { r.push(("extra rules text".into(), t)); } }
  let g = model_gens(extra_gens);
  r.push(("extra generators hash".into(), h(&g)));
  r.push(("extra generators json".into(), generators_to_json(&g, &PactSpecification::V4).to_string()));
  let mut order = vec![];
  for (_, m) in { let mut c: Vec<(&GeneratorCategory, _)> = g.categories.iter().collect(); c.sort_by_key(|(c, _)| **c); c } { apply_generators(&GeneratorTestMode::Provider, m, &mut |p, g| order.push(format!("{} {:?}", p, g))); }
  r.push(("order of application".into(), format!("{:?}", order)));
  // generators with a fixed result, on overlapping paths
  use pact_models::generators::{ContentTypeHandler, Generator, JsonHandler, NoopVariantMatcher, VariantMatcher};
  let gens: std::collections::HashMap<_, _> = g.categories.values().flat_map(|m| m.keys().cloned())
    .chain(["$.a", "$.a.b", "$.items[*].id", "$.items[0].id", "$.items", "$.*"].iter().skip(defs.len()).map(|p| pact_models::path_exp::DocPath::new(*p).unwrap()))
    .map(|p| { let e = format!("v{}", p.to_string().replace('$', "")); (p, Generator::ProviderStateGenerator(e, None)) }).collect();
  let mut handler = JsonHandler { value: json!({"a": {"b": {"c": 1}, "id": 2}, "items": [{"id": 1, "name": "x"}, {"id": 2}], "id": 7, "x y": 1, "d.t": {"x": 2}}) };
  let ctx = std::collections::HashMap::from([("providerState", json!({}))]);
  r.push(("generated body".into(), format!("{:?}", handler.process_body(&gens, &GeneratorTestMode::Provider, &ctx, &NoopVariantMatcher.boxed()))));
  for d in defs { r.push(("definition".into(), match parse_matcher_def(d) { Ok(x) => format!("{}: {:?} {}", d, x, x.rules.iter().filter_map(|e| e.as_ref().left()).map(|m| h(m)).collect::<Vec<_>>().join(" ")), Err(e) => format!("{}: error {:#}", d, e) })); }
  r
}

pub fn c06(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let fam = *ch.pick(&[Fam::V4, Fam::V3, Fam::Msg, Fam::V2]);
  let nd = ch.count(1, 3);
  let mut first_ais = vec![];
  let docs: Vec<Value> = (0..nd).map(|_| {
    let n = ch.count(1, 3);
    let ais: Vec<Value> = (0..n).map(|_| { let d = format!("interaction {}", ch.below(4)); interaction(ch, fam, &d) }).collect();
    let mut d = to_doc(&ais, fam, "c", "p");
    if ch.pct(30) { crate::forms::restyle(ch, &mut d, fam); o.probe("other document forms"); }
    if first_ais.is_empty() { first_ais = ais; }
    d
  }).collect();
  let mut extra = json!({});
  for c in ["body", "contents", "metadata"] { if ch.pct(60) {
    let mut m = serde_json::Map::new();
    for _ in 0..ch.count(1, 5) { let p = if ch.pct(50) { body_path(ch) } else { ch.pick(&["$.*", "$.a.*", "$.*.b", "$['a']", "$.items[*]", "$.items.*", "$[*]", "$[0]", "$.items", "$['items'][*]['id']", "$['items'][0].id"]).to_string() }; let l = rule_list(ch, fam, 1); m.insert(p, l); }
    extra[c] = Value::Object(m);
  } }
  let part = if ch.pct(50) { "req" } else { "msg" };
  let eg = gen_gens(ch, Fam::V4, part);
  let np = ch.count(1, 4);
  let paths: Vec<Vec<String>> = (0..np).map(|_| { let mut v = vec!["$".to_string()]; for _ in 0..ch.count(0, 3) { v.push(ch.pick(&["a", "b", "items", "0", "1", "id", "x y", "d.t", "a$b", "name"]).to_string()); } if ch.pct(15) { v.remove(0); } v }).collect();
  let ndf = ch.count(0, 3);
  let defs: Vec<String> = (0..ndf).map(|_| { let a = ch.pick(DEFS).to_string(); if ch.pct(40) { format!("{}, {}", a, ch.pick(DEFS)) } else { a } }).collect();

  // a copy with at most one part taken from another interaction
  let near: Near = {
    let a = interaction(ch, fam, "near");
    let mut b = a.clone();
    let mut tries = 0;
    loop {
      let c = interaction(ch, fam, "near");
      tries += 1;
      if c["t"] != a["t"] && tries < 20 { continue }
      let mut parts: Vec<(Option<&str>, String)> = vec![];
      for (k, v) in a.as_object().unwrap() { if k == "req" { for f in v.as_object().unwrap().keys() { parts.push((Some("req"), f.clone())); } } else if k == "res" { for f in v[0].as_object().map(|m| m.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() { parts.push((Some("res"), f)); } } else if k != "t" && k != "desc" { parts.push((None, k.clone())); } }
      if c["t"] == a["t"] { let (p, f) = ch.pick(&parts).clone(); match p { Some("req") => b["req"][&f] = c["req"][&f].clone(), Some(_) => b["res"][0][&f] = c["res"][0][&f].clone(), None => b[&f] = c[&f].clone() } }
      break
    }
    let f = if ch.pct(70) { Fam::V4 } else { fam };
    let mut rules: Vec<Value> = (0..ch.count(2, 4)).map(|_| rule(ch, f, 1)).collect();
    let k = ch.pick(&rules)["match"].clone();
    for _ in 0..12 { let x = rule(ch, f, 1); if x["match"] == k { rules.push(x); if rules.len() > 5 { break } } }
    let mut gens: Vec<Value> = (0..ch.count(2, 4)).map(|_| generator(ch, f)).collect();
    let k = ch.pick(&gens)["type"].clone();
    for _ in 0..12 { let x = generator(ch, f); if x["type"] == k { gens.push(x); if gens.len() > 5 { break } } }
    ((a, b), rules, gens)
  };

  let n = ch.count(2, 4);
  let mut first: Option<Report> = None;
  for k in 0..n {
    let mut host = Host::new(ch);
    host.flaky = 0;
    host.wall_ns += ch.below(1000) as i64 * 86_400_000_000_000;
    let warm = ch.count(0, 12);
    let style = if ch.pct(25) { 0 } else { 1 + ch.u64() / 2 };
    let (d, e, g, p, f, a, ne) = (&docs, &extra, &eg, &paths, &defs, &first_ais, &near);
    let r = host.proc(&format!("report {}", k), move || report(fam, ne, a, style, d, e, g, p, f, warm));
    for f in &host.faults { o.fault(f); }
    if k > 0 { o.fault("restart with other hash seeds"); }
    o.steps += host.syscalls; o.sim_ns += host.sim_ns;
    o.trace.extend(std::mem::take(&mut host.trace));
    match r {
      Err(p) => { o.violate(panic_class(&p), p); break }
      Ok(rep) => {
        let mut told: Vec<String> = vec![];
        for (l, v) in &rep { if let Some(l) = l.strip_prefix("law: ") { let c = format!("law:{}:{}", l.replace(' ', "-").replace('"', ""), v.split(' ').take(3).collect::<Vec<_>>().join("-")); if !told.contains(&c) { told.push(c.clone()); o.violate(c, format!("{}: {}", l, v)); } } }
        let rep: Report = rep.into_iter().filter(|(l, _)| !l.starts_with("law: ")).collect();
        for (l, v) in &rep { if l.ends_with("equal to itself") && v != "true" { o.violate("not-equal-to-itself", format!("{}: {}", l, v)); } }
        match &first {
          None => { for (l, v) in &rep { o.digest = mix(o.digest, hash_str(l) ^ hash_str(v)); } o.case = o.digest; first = Some(rep); }
          Some(f) => {
            if f.len() != rep.len() { o.violate("different-work", format!("{} and {} results", f.len(), rep.len())); }
            let mut seen: Vec<String> = vec![];
            for (a, b) in f.iter().zip(&rep) { if a != b {
              let class: String = a.0.chars().filter(|c| !c.is_ascii_digit()).collect::<String>().split_whitespace().collect::<Vec<_>>().join("-");
              if seen.contains(&class) { continue }
              seen.push(class.clone());
              o.violate(format!("differs:{}", class), format!("{}: one process gives {} and another {}", a.0, short(&a.1), short(&b.1)));
              o.trace.push(format!("{}\n  process 0: {}\n  process {}: {}", a.0, a.1, k, b.1));
            } }
          }
        }
      }
    }
    if !o.violations.is_empty() { break }
  }
  o.nontrivial = !docs.is_empty();
  o.sample = format!("{} {} pacts, {} processes", fam.name(), docs.len(), n);
  o.probe(&format!("fam-{}", fam.name()));
  o
}
