//! C10: damaged stored pacts are reported as errors, never as crashes.
#![allow(deprecated)]
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::path::Path;

use pact_models::generators::{ContentTypeHandler, GenerateValue, Generator, GeneratorCategory, GeneratorTestMode, Generators, JsonHandler, NoopVariantMatcher, VariantMatcher};
use pact_models::http_parts::HttpPart;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{matchers_to_json, MatchingRule, MatchingRules};
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, read_pact, write_pact, Pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::V4InteractionType;
use pact_models::verify_json::PactJsonVerifier;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices, Rng};
use simcore::driver::{panic_class, Outcome};
use simcore::fs::SimFs;
use simcore::kernel::short;
use simcore::sys::{FaultKind, Op};

use crate::gen::*;
use crate::procs::Host;

const PATH: &str = "/sim/pacts/c-p.json";
const COPY: &str = "/sim/pacts/copy.json";
const GOOD: &str = "/sim/pacts/good.json";
const SPECS: [PactSpecification; 5] = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4];

/// A value that a damaged or foreign writer could have left in place of another one.
fn odd(ch: &mut Choices, old: &Value) -> Value {
  match ch.below(22) {
    0 => Value::Null,
    1 => json!(ch.pct(50)),
    2 => json!(ch.pick(&[0i64, -1, 1, 99, 65536, 70000, i64::MAX, i64::MIN])),
    3 => json!(u64::MAX),
    4 => json!(ch.pick(&[0.5f64, -1.5, 1e300, 200.0, 1e-9])),
    5 => json!(""),
    6 => json!(ch.pick(&["$", "$.", "$[", "$['", "$.a[", "$.a[99999999999999999999]", "$.a[*", "$..a", "$['a", "[0]", "é", "$.ü[１]", "a.b", "\u{0}", "%", "%zz", "${", "${a", "}", "{\"a\"", "null", "200", "-1", "1.5", "V4", "MATCHALL", "(", "[a-", "/", ";", "a/b;c", "a/b; c=d; =", "data:", "base64", "JSON", "GET POST", "a=b&c", "=&=", "2000-99-99", "yyyy'", "2XX"])),
    7 => Value::String("x".repeat(ch.pick(&[10usize, 300, 5000]).to_owned())),
    8 => json!([]),
    9 => json!({}),
    10 => json!([null]),
    11 => json!([[], {}, "a", 1]),
    12 => json!({"": null, "a": [], "$.x": {"match": null}}),
    13 => { let mut v = old.clone(); for _ in 0..*ch.pick(&[1usize, 2, 60]) { v = json!([v]); } v }
    14 => { let mut v = old.clone(); for _ in 0..*ch.pick(&[1usize, 2, 60]) { v = json!({"content": v}); } v }
    _ => match old {
      Value::String(s) => {
        let n = s.chars().count(); let k = ch.below(n + 1);
        let head: String = s.chars().take(k).collect(); let tail: String = s.chars().skip(k).collect();
        let c = ch.pick(&["é", "€", "😀", "\u{0}", "\\", "'", "\"", "[", "]", "$", "%", "{", "}", "/", ";", "=", " ", ",", "-", "9", "\n"]);
        Value::String(match ch.below(5) { 0 => head, 1 => tail, 2 => format!("{}{}{}", head, c, tail), 3 => format!("{}{}{}", head, c, tail.chars().skip(1).collect::<String>()), _ => format!("{}{}{}", head, head, tail) })
      }
      Value::Array(a) => { let mut a = a.clone(); if a.is_empty() { a.push(Value::Null) } else if ch.pct(50) { a.truncate(0) } else { let x = a[0].clone(); a.push(x); } Value::Array(a) }
      Value::Number(n) => json!(n.to_string()),
      Value::Object(m) => Value::Array(m.values().cloned().collect()),
      _ => json!("true"),
    }
  }
}
/// Every position of the document, as pointers.
fn positions(v: &Value, at: String, out: &mut Vec<String>) {
  out.push(at.clone());
  match v {
    Value::Object(m) => for (k, x) in m { positions(x, format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), out); },
    Value::Array(a) => for (k, x) in a.iter().enumerate() { positions(x, format!("{}/{}", at, k), out); },
    _ => {}
  }
}
fn mutate(ch: &mut Choices, doc: &mut Value, log: &mut Vec<String>) {
  let mut ps = vec![]; positions(doc, String::new(), &mut ps);
  // characters of a text overwritten (a different encoding, a patched byte): the text stays a text
  if ch.pct(30) {
    let texts: Vec<String> = ps.iter().filter(|p| matches!(doc.pointer(p), Some(Value::String(_)))).cloned().collect();
    if !texts.is_empty() {
      let p = texts[ch.below(texts.len())].clone();
      let s = doc.pointer(&p).and_then(|v| v.as_str()).unwrap_or("").to_string();
      let mut cs: Vec<String> = s.chars().map(|c| c.to_string()).collect();
      let c = ch.pick(&["é", "€", "😀", "ü", "é", "\u{0}", "=", "\\", "'", "\"", "[", "$", "{", "/", ";", " ", "-", "9"]).to_string();
      let at = match ch.below(3) { 0 => 0, 1 => cs.len(), _ => ch.below(cs.len() + 1) };
      match ch.below(3) {
        0 => cs.insert(at, c),
        1 if at < cs.len() => { cs[at] = c; }
        _ => { cs.truncate(at); cs.push(c); }
      }
      let n = cs.concat();
      log.push(format!("text {:?}: {} -> {}", p, short(&s), short(&n)));
      if let Some(v) = doc.pointer_mut(&p) { *v = Value::String(n); }
      return
    }
  }
  let p = ps[ch.below(ps.len())].clone();
  let how = ch.below(8);
  match how {
    // member removed, renamed or added
    0 | 1 | 2 => {
      if let Some(Value::Object(m)) = doc.pointer_mut(&p) {
        let ks: Vec<String> = m.keys().cloned().collect();
        if !ks.is_empty() && how < 2 {
          let k = ks[ch.below(ks.len())].clone();
          let v = m.remove(&k).unwrap();
          if how == 1 { let nk = ch.pick(&["", "$", "$.", "$.a[", "$['", "$.x[9999999999999999999999]", "é", "$.é[0", "body", "header", "status", "type", "match", "min", "contents", "content", "encoded", "variants", "metadata", "messages", "\u{0}"]).to_string(); log.push(format!("member {:?} of {:?} renamed to {:?}", k, p, nk)); m.insert(nk, v); }
          else { log.push(format!("member {:?} of {:?} removed", k, p)); }
        } else {
          let k = ch.pick(&["body", "matchingRules", "generators", "headers", "query", "status", "provider_state", "provider_states", "providerState", "metaData", "contents", "comments", "interactionMarkup", "pluginConfiguration", "key", "type", "min", "max", "rules", "value", "variants", "combine", "matchers", "$.body", "$.header", "$.headers['X']", "$.query", "$.path", "content", "encoded", "contentType", "regex", "digits", "format", "expression", "size", "references", "response", "request"]).to_string();
          let v = odd(ch, &Value::Null);
          log.push(format!("member {:?} = {} added to {:?}", k, short(&v.to_string()), p));
          m.insert(k, v);
        }
        return
      }
      if let Some(v) = doc.pointer_mut(&p) { let n = odd(ch, v); log.push(format!("{:?}: {} -> {}", p, short(&v.to_string()), short(&n.to_string()))); *v = n; }
    }
    // a subtree of another place
    3 => {
      let q = ps[ch.below(ps.len())].clone();
      let n = doc.pointer(&q).cloned().unwrap_or(Value::Null);
      if n.to_string().len() > 20_000 { return }
      if let Some(v) = doc.pointer_mut(&p) { log.push(format!("{:?} overwritten by {:?}", p, q)); *v = n; }
    }
    _ => if let Some(v) = doc.pointer_mut(&p) { let n = odd(ch, v); log.push(format!("{:?}: {} -> {}", p, short(&v.to_string()), short(&n.to_string()))); *v = n; }
  }
}

fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); (s.finish() & 0xFFFF) as u64 }

type Step<'a> = &'a mut dyn FnMut(&str);

fn use_rules(r: &MatchingRules, paths: &[Vec<String>]) -> usize {
  let mut n = h(r) as usize;
  for s in SPECS { n += matchers_to_json(r, &s).to_string().len(); }
  for (c, cat) in &r.rules {
    n += h(cat) as usize + cat.as_rule_list().rules.len() + cat.generators().len();
    for p in paths { let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect(); n += cat.select_best_matcher(&p).rules.len() + cat.matcher_is_defined(&p) as usize + r.type_matcher_defined(c.clone(), &p) as usize; }
    for p in cat.rules.keys() { let q = p.to_string(); n += q.len(); }
  }
  n + use_more_rules(r, paths)
}
fn use_rule(r: &MatchingRule) -> usize {
  use pact_models::generators::Generator as G;
  let mut n = r.name().len() + r.values().len() + r.generate_description(true).len() + r.generate_description(false).len() + h(r) as usize + h(&r.for_single_item()) as usize;
  n += r.can_cascade() as usize + r.is_type_matcher() as usize + r.is_values_matcher() as usize + r.is_length_type_matcher() as usize + r.has_generators() as usize + (r == &r.for_single_item()) as usize + format!("{:?}", r).len();
  for g in r.generators() { n += g.name().len() + g.values().len() + h(&g) as usize; if let G::ArrayContains(v) = &g { for (_, c, m) in v { n += c.as_rule_list().rules.len() + m.len(); } } }
  if let MatchingRule::ArrayContains(v) = r { for (_, c, _) in v { for l in c.rules.values() { for r in &l.rules { n += use_rule(r); } } } }
  n
}
fn use_more_rules(r: &MatchingRules, paths: &[Vec<String>]) -> usize {
  let mut n = r.to_string().len() + r.categories().len() + r.is_empty() as usize + r.is_not_empty() as usize;
  for (c, cat) in &r.rules {
    for p in paths {
      let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
      n += r.matcher_is_defined(c.clone(), &p) as usize + r.wildcard_matcher_is_defined(c.clone(), &p) as usize + r.resolve_matchers(c.clone(), &p).map(|c| c.rules.len()).unwrap_or(0) + r.resolve_body_matchers_by_path(&p).rules.len();
      n += cat.resolve_matchers_for_path(&p).to_v3_json().to_string().len();
      for k in cat.rules.keys() { n += k.path_weight(&p).0 + k.matches_path(&p) as usize + k.matches_path_exactly(&p) as usize; }
    }
    n += cat.to_v2_json().len() + cat.to_v3_json().to_string().len() + cat.type_matcher_defined() as usize + cat.values_matcher_defined() as usize + cat.is_empty() as usize;
    for (k, l) in &cat.rules {
      n += k.tokens().len() + k.last_field().map(|s| s.len()).unwrap_or(0) + k.first_field().map(|s| s.len()).unwrap_or(0) + k.as_json_pointer().map(|s| s.len()).unwrap_or(0) + k.is_root() as usize + k.is_wildcard() as usize + k.last().is_some() as usize;
      n += k.parent().map(|p| p.to_string().len()).unwrap_or(0) + k.drop(1).len() + k.drop(9).len() + k.to_lower_case().to_string().len() + k.join("a b").to_string().len() + k.join_index(3).to_string().len() + k.join_field("x").to_string().len() + k.to_vec().len() + k.ends_with("*") as usize + k.clone().push_path(k).len();
      n += l.remove_duplicates().rules.len() + l.filter(|r| r.is_type_matcher()).rules.len() + l.and_rules(l).rules.len() + l.as_cascaded(true).generate_description(true).len() + l.generate_description(false).len() + l.has_non_type_matchers() as usize + h(l) as usize;
      for r in &l.rules { n += use_rule(r); }
    }
  }
  let mut m = r.clone();
  m.merge(r);
  let x = m.rename("body", "contents");
  n + x.rules.len() + (m == *r) as usize + (x != m) as usize + h(&m) as usize
}
fn use_part<T: HttpPart>(x: &T) -> usize {
  let mut n = x.content_type().map(|c| c.to_string().len()).unwrap_or(0) + x.detect_content_type().map(|c| c.to_string().len()).unwrap_or(0) + x.lookup_content_type().map(|c| c.len()).unwrap_or(0) + x.has_text_body() as usize;
  for name in ["Content-Type", "content-type", "X-A", "", "é"] { n += x.has_header(name) as usize + x.lookup_header_value(name).map(|s| s.len()).unwrap_or(0); }
  for c in [GeneratorCategory::BODY, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::PATH, GeneratorCategory::STATUS, GeneratorCategory::METHOD] { n += x.build_generators(&c).len(); }
  let b = x.body();
  n += b.to_v4_json().to_string().len() + b.to_string().len() + b.str_value().len() + b.value_as_string().map(|s| s.len()).unwrap_or(0) + b.display_string().len() + h(b) as usize;
  n + b.with_content_type_if_not_set(Some("text/plain".into())).has_content_type() as usize
}
fn use_more(i: &(dyn Interaction + Send + Sync + std::panic::RefUnwindSafe)) -> usize {
  let b: Box<dyn Interaction> = i.boxed();
  let mut n = format!("{}", b.as_ref()).len() + format!("{:?}", b.clone()).len() + i.arced().description().len();
  let t = i.thread_safe();
  n += t.lock().unwrap().type_of().len();
  let mut m = i.boxed();
  m.set_description("new"); m.set_id(Some("id".into())); m.provider_states_mut().clear();
  n += m.description().len() + m.is_v4_http() as usize + m.is_v4_async_message() as usize + m.is_v4_sync_message() as usize + m.is_message() as usize + m.is_request_response() as usize;
  if let Some(x) = m.as_v4_mut() { x.set_transport(Some("t".into())); x.comments_mut().insert("k".into(), Value::Null); n += x.to_json().to_string().len(); }
  if let Some(x) = i.as_v4() {
    let d: &dyn V4Interaction = x.as_ref(); n += format!("{}", d).len() + format!("{:?}", x).len() + x.boxed_v4().to_json().to_string().len() + x.transport().map(|t| t.len()).unwrap_or(0) + x.to_super().description().len();
    n += x.interaction_markup().merge(x.interaction_markup()).markup.len();
    if let Some(x) = x.as_v4_http() {
      n += use_part(&x.request) + use_part(&x.response) + use_more_rules(&x.request.matching_rules, &[]) + x.request.to_string().len() + x.response.to_string().len() + x.request.short_description().len() + x.response.is_success() as usize + (x.clone() == x) as usize;
      let mut y = x.clone(); y.request.set_header("content-type", &["text/plain"]); y.response.set_header("X-a", &["1"]); n += (x == y) as usize + h(&y) as usize;
      n += x.response.as_v3_response().to_string().len() + x.request.as_v3_request().as_v4_request().to_json().to_string().len();
    }
    if let Some(x) = x.as_v4_async_message() { n += x.contents.to_string().len() + x.contents.to_json().to_string().len() + x.contents.as_v3_message().to_string().len() + x.message_content_type().map(|c| c.to_string().len()).unwrap_or(0) + x.with_key().key.map(|k| k.len()).unwrap_or(0) + use_more_rules(&x.contents.matching_rules, &[]); }
    if let Some(x) = x.as_v4_sync_message() { for c in x.response.iter().chain([&x.request]) { n += c.to_string().len() + c.as_v3_message().to_string().len() + use_more_rules(&c.matching_rules, &[]); } n += x.with_key().key.map(|k| k.len()).unwrap_or(0); }
  }
  if let Some(x) = i.as_request_response() { n += use_part(&x.request) + use_part(&x.response) + x.to_string().len() + x.conflicts_with(i).len() + (x.clone() == x) as usize + x.request.differences_from(&x.request).len() + x.response.differences_from(&x.response).len(); }
  if let Some(x) = i.as_message() { n += (x.clone() == x) as usize + x.message_content_type().map(|c| c.to_string().len()).unwrap_or(0); }
  n
}
fn use_gens(g: &Generators, context: bool) -> usize {
  let mut n = h(g) as usize;
  let ps = json!({"a": 1, "b": "x", "id": "7"});
  let ctx: HashMap<&str, Value> = if context { HashMap::from([("providerState", ps), ("mockServer", json!({"href": "http://localhost:1234", "url": "http://localhost:1234"}))]) } else { HashMap::new() };
  for (c, m) in &g.categories {
    let _ = c;
    for (k, gen) in m {
      n += k.to_string().len() + gen.to_json().map(|j| j.to_string().len()).unwrap_or(0);
      n += gen.name().len() + gen.values().len() + gen.corresponds_to_mode(&GeneratorTestMode::Consumer) as usize + gen.corresponds_to_mode(&GeneratorTestMode::Provider) as usize + format!("{:?}", gen).len();
      if matches!(gen, Generator::ArrayContains(_)) { continue }
      let v = NoopVariantMatcher.boxed();
      let _ = (gen.generate_value(&json!({"a": [1, "x"]}), &ctx, &v), gen.generate_value(&"x".to_string(), &ctx, &v), gen.generate_value(&7u16, &ctx, &v));
    }
    let mut b = JsonHandler { value: json!({"a": {"b": [1, {"c": null}]}, "id": 1, "items": [{"id": 1}]}) };
    let _ = b.process_body(m, &GeneratorTestMode::Provider, &ctx, &NoopVariantMatcher.boxed());
  }
  n
}
fn use_interaction(i: &(dyn Interaction + Send + Sync + std::panic::RefUnwindSafe), paths: &[Vec<String>], step: Step) -> usize {
  let mut n = 0;
  step("the interaction's attributes");
  n += i.type_of().len() + i.description().len() + i.id().map(|s| s.len()).unwrap_or(0) + i.contents().display_string().len() + i.contents_for_verification().display_string().len() + i.is_v4() as usize + i.pending() as usize;
  n += i.content_type().map(|c| c.to_string().len()).unwrap_or(0);
  for s in i.provider_states() { n += s.to_json().to_string().len() + h(&s) as usize; }
  step("copying and describing the interaction");
  n += use_more(i);
  step("the interaction's rules and generators");
  if let Some(r) = i.matching_rules() { n += use_rules(&r, paths); }
  step("converting the interaction to V3");
  if let Some(r) = i.as_request_response() {
    n += r.to_json(&PactSpecification::V2).to_string().len() + r.to_json(&PactSpecification::V3).to_string().len() + h(&r.request) as usize + h(&r.response) as usize;
    n += use_rules(&r.request.matching_rules, paths) + use_rules(&r.response.matching_rules, paths) + use_gens(&r.request.generators, true) + use_gens(&r.response.generators, false);
    n += r.request.to_string().len() + r.response.to_string().len();
  }
  if let Some(m) = i.as_message() { n += m.to_json(&PactSpecification::V3).to_string().len() + use_rules(&m.matching_rules, paths) + use_gens(&m.generators, true) + m.to_string().len(); }
  step("converting the interaction to V4");
  if let Some(v) = i.as_v4() {
    n += v.to_json().to_string().len() + v.key().map(|k| k.len()).unwrap_or(0);
    step("computing the interaction's key");
    n += v.unique_key().len();
    n += v.with_unique_key().to_json().to_string().len() + v.comments().len() + v.plugin_config().len() + v.interaction_markup().to_json().to_string().len();
    step("using the V4 parts");
    if let Some(x) = v.as_v4_http() { n += h(&x) as usize + use_rules(&x.request.matching_rules, paths) + use_rules(&x.response.matching_rules, paths) + use_gens(&x.request.generators, true) + use_gens(&x.response.generators, true) + x.request.content_type().map(|c| c.to_string().len()).unwrap_or(0) + x.to_string().len(); }
    if let Some(x) = v.as_v4_async_message() { n += h(&x) as usize + use_rules(&x.contents.matching_rules, paths) + use_gens(&x.contents.generators, true) + x.to_string().len(); }
    if let Some(x) = v.as_v4_sync_message() { n += h(&x) as usize; for c in x.response.iter().chain([&x.request]) { n += use_rules(&c.matching_rules, paths) + use_gens(&c.generators, false); } n += x.to_string().len(); }
  }
  n
}
fn use_pact(p: &(dyn Pact + Send + Sync + std::panic::RefUnwindSafe), other: &(dyn Pact + Send + Sync + std::panic::RefUnwindSafe), paths: &[Vec<String>], step: Step) -> usize {
  let mut n = 0;
  step("the pact's attributes");
  n += p.consumer().name.len() + p.provider().name.len() + p.metadata().len() + p.requires_plugins() as usize + p.plugin_data().len() + p.specification_version() as usize + p.default_file_name().len();
  for s in SPECS { step("serialising"); n += p.to_json(s).map(|v| v.to_string().len()).unwrap_or(1); }
  for i in p.interactions() { n += use_interaction(i.as_ref(), paths, step); }
  step("converting the pact");
  n += p.arced().consumer().name.len() + p.thread_safe().lock().unwrap().provider().name.len() + format!("{:?}", p.boxed()).len();
  let mut m = p.boxed();
  for i in other.interactions() { n += m.add_interaction(i.as_ref()).is_ok() as usize; }
  m.add_md_version("k", "v");
  n += m.add_plugin("name", "1", None).is_ok() as usize + m.interactions_mut().len() + m.to_json(m.specification_version()).map(|v| v.to_string().len()).unwrap_or(1);
  if let Ok(x) = p.as_v4_pact() { n += x.find_interaction_with_id("1").is_some() as usize + x.has_mixed_interactions() as usize; for t in [V4InteractionType::Synchronous_HTTP, V4InteractionType::Asynchronous_Messages, V4InteractionType::Synchronous_Messages] { n += x.filter_interactions(t.clone()).len() + x.has_interactions(t) as usize; } }
  if let Ok(x) = p.as_v4_pact() { n += x.to_json(PactSpecification::V4).map(|v| v.to_string().len()).unwrap_or(1); }
  if let Ok(x) = p.as_request_response_pact() { n += x.to_json(PactSpecification::V3).map(|v| v.to_string().len()).unwrap_or(1); }
  if let Ok(x) = p.as_message_pact() { n += x.to_json(PactSpecification::V3).map(|v| v.to_string().len()).unwrap_or(1); }
  step("comparing");
  n += (p.boxed() as Box<dyn Pact> == p.boxed() as Box<dyn Pact>) as usize + (p.boxed() as Box<dyn Pact> == other.boxed() as Box<dyn Pact>) as usize;
  step("merging");
  for (a, b) in [(p, p), (p, other), (other, p)] { if let Ok(m) = a.merge(b) { n += m.to_json(m.specification_version()).map(|v| v.to_string().len()).unwrap_or(1) + m.interactions().len(); } }
  n
}

#[derive(Clone, Default)]
struct Seen { read: String, typed: Vec<String>, n: usize, used: bool }

pub fn c10(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let fam = *ch.pick(&[Fam::V4, Fam::V3, Fam::Msg, Fam::V2]);
  let mut host = Host::new(ch);
  host.flaky = 0;
  let doc = |ch: &mut Choices, tag: &str, fam: Fam| -> Value { let n = ch.count(1, 3); let v: Vec<Value> = (0..n).map(|i| interaction(ch, fam, &format!("{} {}", tag, i))).collect(); to_doc(&v, fam, "c", "p") };
  let mut d = doc(ch, "interaction", fam);
  if ch.pct(30) { crate::forms::restyle(ch, &mut d, fam); o.probe("other document forms"); }
  let good = doc(ch, "other", fam);
  let mut log: Vec<String> = vec![];
  let pretty = ch.pct(70);
  let text = |d: &Value| if pretty { serde_json::to_vec_pretty(d).unwrap() } else { serde_json::to_vec(d).unwrap() };
  let kind = *ch.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 7, 8, 8, 9, 9]);
  let mut bytes = match kind {
    0..=5 => { let n = 1 + ch.below(3); for _ in 0..n { mutate(ch, &mut d, &mut log); } o.fault("values of another type"); text(&d) }
    6 => { let b = text(&d); let k = ch.below(b.len() + 1); log.push(format!("{} of {} bytes remain", k, b.len())); o.fault("truncated"); b[..k].to_vec() }
    7 => { let (a, b) = (text(&d), text(&good)); let k = ch.below(a.len().min(b.len())); log.push(format!("torn: {} bytes of one document, then another", k)); o.fault("torn"); let mut x = a[..k].to_vec(); x.extend_from_slice(&b[k..]); if ch.pct(30) { x = b[..k].to_vec(); x.extend_from_slice(&a[k..]); } x }
    8 => {
      let mut b = text(&d);
      for _ in 0..1 + ch.below(4) { let k = ch.below(b.len()); let bit = ch.below(8); b[k] ^= 1 << bit; log.push(format!("bit {} of byte {} flipped", bit, k)); }
      o.fault("bits flipped"); b
    }
    _ => {
      let mut b = text(&d);
      let k = ch.below(b.len()); let n = (1 + ch.below(64)).min(b.len() - k);
      let with = ch.below(4);
      let fill: Vec<u8> = match with { 0 => vec![0; n], 1 => vec![0xFF; n], 2 => vec![b' '; n], _ => { let s = ch.below(b.len()); (0..n).map(|i| b[(s + i) % b.len()]).collect() } };
      log.push(format!("bytes {}..{} replaced by {}", k, k + n, ["zeroes", "0xFF", "blanks", "bytes of another place"][with as usize]));
      b[k..k + n].copy_from_slice(&fill);
      o.fault("bytes replaced"); b
    }
  };
  if kind > 5 && ch.pct(25) { // damage on both levels
    if let Ok(mut v) = serde_json::from_slice::<Value>(&bytes) { mutate(ch, &mut v, &mut log); bytes = text(&v); }
  }
  let valid: Option<Value> = serde_json::from_slice(&bytes).ok();
  if let Some(v) = &valid { o.probe(if v.is_object() { "still a JSON object" } else { "still JSON" }) } else { o.probe("no longer JSON") }
  // the storage while reading
  let (mode, seed) = (ch.below(8), ch.u64());
  let eio_at = ch.below(6);
  if std::env::var("C10_DOC").is_ok() { log.push(String::from_utf8_lossy(&bytes).into_owned()); }
  host.trace.push(format!("{} pact; {}", fam.name(), log.join("; ")));
  host.trace.push(format!("file: {}", String::from_utf8_lossy(&bytes).split_whitespace().collect::<Vec<_>>().join(" ")));
  host.fs.put(PATH, &bytes);
  host.fs.put(GOOD, &serde_json::to_vec(&good).unwrap());
  let np = 3;
  let paths: Vec<Vec<String>> = (0..np).map(|_| { let n = ch.below(4); let mut p = vec!["$".to_string()]; for _ in 0..n { p.push(ch.pick(&["a", "b", "id", "items", "0", "1", "name", "x y", "*", "", "é"]).to_string()); } p }).collect();
  let (v2, p2) = (valid.clone(), paths.clone());
  // further copies of the pact, each with one damage of its own
  let pristine: Value = if kind <= 5 { doc(ch, "copy", fam) } else { d.clone() };
  let nmore = ch.below(9);
  let more: Vec<(Value, String)> = (0..nmore).map(|_| { let mut v = pristine.clone(); let mut l = vec![]; mutate(ch, &mut v, &mut l); o.fault("values of another type"); (v, l.join("; ")) }).collect();
  let warm = ch.pct(50);
  let place = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
  let at2 = place.clone();
  let r = host.proc("read and use the pact", move || -> (Seen, u64) {
    let mut s = Seen::default();
    let at = |x: &str| *at2.lock().unwrap() = x.to_string();
    let path = Path::new(PATH);
    let l = simcore::sys::local().unwrap();
    let mut rng = Rng::new(seed);
    let mut reads = 0;
    let fired = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let f2 = fired.clone();
    if mode < 2 { l.fault = Some(Box::new(move |r| match r.op {
      Op::Read | Op::Open if r.op != Op::Open || r.path() == PATH => { reads += 1; if reads == eio_at + 1 { f2.set(f2.get() + 1); Some(FaultKind::Errno(if rng.below(2) == 0 { libc::EIO } else { libc::ENOMEM })) } else { None } }
      _ => None })); }
    else if mode < 4 { l.fault = Some(Box::new(move |r| match r.op { Op::Read if rng.below(1000) < 400 => Some(if rng.below(2) == 0 { FaultKind::Errno(libc::EINTR) } else { FaultKind::Short(1 + rng.below(40) as usize) }), _ => None })); }
    at("reading");
    let pact = read_pact(path);
    simcore::sys::local().unwrap().fault = None;
    s.read = match &pact { Ok(_) => "ok".into(), Err(e) => format!("{:#}", e) };
    at("the typed readers");
    s.typed.push(RequestResponsePact::read_pact(path).map(|p| p.interactions.len().to_string()).unwrap_or_else(|e| format!("{:#}", e)));
    s.typed.push(MessagePact::read_pact(path).map(|p| p.messages.len().to_string()).unwrap_or_else(|e| format!("{:#}", e)));
    s.typed.push(V4Pact::read_pact(path).map(|p| p.interactions.len().to_string()).unwrap_or_else(|e| format!("{:#}", e)));
    at("loading the JSON");
    if let Some(v) = &v2 {
      let _ = load_pact_from_json("sim", v).map(|_| ());
      at("the file verifier");
      s.n += RequestResponsePact::verify_json("", v, warm, PactSpecification::V3).len() + MessagePact::verify_json("", v, warm, PactSpecification::V3).len() + V4Pact::verify_json("", v, warm, PactSpecification::V4).len();
      at("the typed loaders");
      let _ = RequestResponsePact::from_json("sim", v).map(|p| p.interactions.len());
      let _ = MessagePact::from_json("sim", v).map(|p| p.messages.len());
      let _ = pact_models::v4::pact::from_json("sim", v).map(|p| p.interactions().len());
    }
    at("reading the other pact");
    let other = read_pact(Path::new(GOOD)).expect("the undamaged pact");
    if let Ok(p) = pact {
      s.used = true;
      s.n += use_pact(p.as_ref(), other.as_ref(), &p2, &mut |x| at(x));
      at("writing a copy");
      let spec = p.specification_version();
      let w = write_pact(p, Path::new(COPY), spec, true);
      if w.is_ok() { at("reading the copy"); let _ = read_pact(Path::new(COPY)).map(|p| p.interactions().len()); }
    }
    for (v, l) in &more {
      at(&format!("loading a copy with {}", l));
      let r = load_pact_from_json("sim", v);
      let q = RequestResponsePact::from_json("sim", v).map(|p| p.interactions.len()).unwrap_or(99) + pact_models::v4::pact::from_json("sim", v).map(|p| p.interactions().len()).unwrap_or(99);
      s.typed.push(q.to_string());
      if let Ok(p) = r { s.n += use_pact(p.as_ref(), other.as_ref(), &p2, &mut |x| at(&format!("{} of a copy with {}", x, l))); }
    }
    at("merging another pact into the file");
    let _ = write_pact(other, path, fam.spec(), false);
    (s, fired.get())
  });
  match r {
    Err(p) => { let at = place.lock().map(|p| p.clone()).unwrap_or_default(); o.violate(panic_class(&p), format!("{}: {} [{}]", at, p, short(&log.join("; ")))); }
    Ok((s, eio)) => {
      if eio > 0 { o.fault("EIO"); if s.read == "ok" && eio_at < 2 { o.violate("error-ignored", "the storage reported an error while the pact was read, read_pact returned a pact".to_string()); } }
      else if valid.is_none() && s.read == "ok" { o.violate("not-json-accepted", "the file is not JSON any more and was read as a pact".to_string()); }
      for (k, t) in s.typed.iter().take(3).enumerate() { if valid.is_none() && t.parse::<usize>().is_ok() { o.violate("not-json-accepted", format!("typed reader {} read a file that is not JSON", k)); } }
      if mode >= 4 { for x in ["could not", "Failed"] { if s.read.contains(x) { o.probe("reported") } } }
      if (2..4).contains(&mode) { o.fault("EINTR and short reads"); }
      o.probe(if s.used { "pact used" } else { "refused" });
      if !s.used { o.probe(&format!("refused-{}", fam.name())); }
      o.digest = mix(hash_str(&s.read), mix(hash_str(&s.typed.join("|")), hash_str(&host.fs.get(PATH).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default())));
      host.trace.push(format!("read: {}; typed: {:?}", s.read, s.typed));
      o.nontrivial = s.used || valid.is_some();
    }
  }
  let _: &SimFs = &host.fs;
  o.case = mix(o.digest, hash_str(&log.join(";")));
  o.steps = host.syscalls; o.sim_ns = host.sim_ns;
  o.sample = short(&format!("{} pact: {}", fam.name(), log.join("; ")));
  o.probe(&format!("fam-{}", fam.name()));
  o.trace = std::mem::take(&mut host.trace);
  o
}
