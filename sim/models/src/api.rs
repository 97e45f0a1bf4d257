//! Models made with the library's own constructors and mutators instead of struct literals: many ways
//! that lead to the same pact. What they make is compared by the caller with what it stands for.
use std::collections::HashMap;

use pact_models::generators::{Generator, GeneratorCategory, Generators};
use pact_models::http_parts::HttpPart;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::message_pact::MessagePact;
use pact_models::pact::Pact;
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{Consumer, Provider};
use serde_json::Value;
use simcore::choices::Rng;

use crate::gen::*;

type P = Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>;

thread_local!(/// rules of the path may also be put at the root
pub static AT_ROOT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

fn number(f: &str) -> bool { f.parse::<usize>().is_ok() || f == "*" || f == "[*]" }

/// The same path, made in another way.
pub fn path(r: &mut Rng, p: &DocPath) -> DocPath {
  let t = p.tokens().clone();
  if t.first() != Some(&PathToken::Root) || !p.to_string().starts_with('$') { return p.clone() }
  match r.below(9) {
    0 => DocPath::from_tokens(t),
    1 => { let mut q = DocPath::root(); for x in &t[1..] { q.push(x.clone()); } q }
    2 => { let mut q = DocPath::root(); for x in &t[1..] { match x { PathToken::Field(f) => { q.push_field(f.as_str()); } PathToken::Index(i) => { q.push_index(*i); } PathToken::Star => { q.push_star(); } PathToken::StarIndex => { q.push_star_index(); } PathToken::Root => {} } } q }
    3 => { let mut q = DocPath::root(); for x in &t[1..] { q = match x { PathToken::Field(f) if number(f) || q.is_wildcard() => { let mut c = q.clone(); c.push_field(f.as_str()); c } PathToken::Field(f) => q.join_field(f.as_str()),
      PathToken::Index(i) if matches!(q.last(), Some(PathToken::Star | PathToken::StarIndex)) => { let mut c = q.clone(); c.push_index(*i); c } PathToken::Index(i) => q.join_index(*i), PathToken::Star => q.join("*"), _ => q.join("[*]") } } q }
    4 => { let mut q = DocPath::root(); for x in &t[1..] { q = match x { PathToken::Field(f) if number(f) => { let mut c = q.clone(); c.push_field(f.as_str()); c } PathToken::Field(f) => q.join(f.as_str()), PathToken::Index(i) => q.join(i.to_string()), PathToken::Star => q.join("*"), _ => q.join("[*]") } } q }
    5 => { let k = 1 + r.below(t.len() as u64) as usize; let mut q = DocPath::from_tokens(t[..k].to_vec()); let mut rest = DocPath::root(); for x in &t[k..] { rest.push(x.clone()); } q.push_path(&rest); q }
    6 => { let mut q = p.clone(); q.push_field("further"); q.parent().unwrap_or_else(DocPath::empty) }
    7 => { let mut q = p.clone(); q.push_index(3).push_star().push_field("x y"); q.drop(3) }
    // a star replaced by what it stands for
    _ => { let mut q = DocPath::root(); for (k, x) in t[1..].iter().enumerate() { match x {
      PathToken::Field(f) if k % 2 == 0 => { q.push_star(); q = q.join_field(f.as_str()); }
      PathToken::Index(i) => { if k % 2 == 0 { q.push_star(); } else { q.push_star_index(); } q = q.join_index(*i); }
      _ => { q.push(x.clone()); } } } q }
  }
}

fn rule(r: &mut Rng, x: &MatchingRule) -> MatchingRule {
  if r.below(3) > 0 { return x.clone() }
  let j = x.to_json();
  (match r.below(2) { 0 => MatchingRule::from_json(&j).ok(), _ => j["match"].as_str().and_then(|m| MatchingRule::create(m, &j).ok()) }).unwrap_or_else(|| panic!("the rule {} is refused by the library that wrote it", j))
}
fn list(r: &mut Rng, l: &RuleList) -> RuleList {
  let k = r.below(l.rules.len() as u64 + 1) as usize;
  let part = |r: &mut Rng, s: &[MatchingRule]| { let mut p = RuleList::empty(l.rule_logic); for x in s { let x = rule(r, x); p.add_rule(&x); } p };
  match r.below(5) {
    0 => part(r, &l.rules),
    1 => { let (mut a, b) = (part(r, &l.rules[..k]), part(r, &l.rules[k..])); a.add_rules(&b); a }
    2 => { let (a, b) = (part(r, &l.rules[..k]), part(r, &l.rules[k..])); a.and_rules(&b) }
    3 if l.rules.len() == 1 && l.rule_logic == RuleLogic::And => RuleList::new(l.rules[0].clone()),
    3 => l.filter(|_| true).as_cascaded(true).as_cascaded(false),
    _ => { let mut a = RuleList::empty(l.rule_logic); a.add_rules(l); a }
  }
}
/// Rules of one category, put into `to` in one of the ways there are.
fn fill(r: &mut Rng, to: &mut MatchingRules, cat: Category, ps: &MatchingRuleCategory) {
  let mut keys: Vec<&DocPath> = ps.rules.keys().collect();
  keys.sort();
  let way = r.below(5);
  let mut built = MatchingRuleCategory::empty(if way == 4 { Category::METADATA } else { cat.clone() });
  for k in keys {
    let l = list(r, &ps.rules[k]);
    // a path has one value: rules at no path and at the root are the same
    let k = &if cat == Category::PATH && k.is_empty() && AT_ROOT.with(|c| c.get()) && r.below(3) == 0 { DocPath::root() } else { k.clone() };
    match way {
      0 => { for x in &l.rules { let (p, x) = (path(r, k), rule(r, x)); to.add_category(cat.clone()).add_rule(p, x, l.rule_logic); } }
      1 => { for x in &l.rules { let p = path(r, k); to.add_category(cat.clone()).rule_from_json(p, &x.to_json(), l.rule_logic).unwrap_or_else(|e| panic!("rule_from_json({}): {:#}", x.to_json(), e)); } }
      2 => {
        let (mut one, p) = (MatchingRuleCategory::empty(cat.clone()), path(r, k));
        one.rules.insert(p, l);
        let mut m = MatchingRules::default(); m.add_rules(cat.clone(), one); to.merge(&m);
      }
      _ => { let p = path(r, k); built.rules.insert(p, l); }
    }
  }
  match way { 3 => to.add_rules(cat, built), 4 => { let c = built.rename(cat.clone()); to.add_rules(cat, c) } _ => {} }
}
pub fn rules(r: &mut Rng, want: &MatchingRules) -> MatchingRules {
  let mut out = MatchingRules::default();
  let mut cats: Vec<&Category> = want.rules.keys().collect();
  cats.sort_by_key(|c| c.to_string());
  if r.below(2) == 0 { cats.reverse(); }
  for c in cats { fill(r, &mut out, c.clone(), &want.rules[c]); }
  if r.below(4) == 0 {
    // a category under another name and back
    let (a, b) = (Category::BODY, Category::CONTENTS);
    if !out.rules.contains_key(&b) { out = out.rename(a.clone(), b.clone()).rename(b, a); }
  }
  out
}
fn generator(r: &mut Rng, g: &Generator) -> Generator {
  if r.below(2) == 0 { return g.clone() }
  let j = match g.to_json() { Some(j) => j, None => return g.clone() };
  match r.below(2) { 0 => Generator::create(j["type"].as_str().unwrap(), &j).unwrap_or_else(|e| panic!("the generator {} is refused: {}", j, e)), _ => Generator::from_map(&g.name(), j.as_object().unwrap()).unwrap_or_else(|| panic!("the generator {} is refused by its name {}", j, g.name())) }
}
pub fn gens(r: &mut Rng, want: &Generators) -> Generators {
  let mut out = Generators::default();
  let mut cats: Vec<&GeneratorCategory> = want.categories.keys().collect();
  cats.sort();
  if r.below(2) == 0 { cats.reverse(); }
  for c in cats {
    let m = &want.categories[c];
    let mut keys: Vec<&DocPath> = m.keys().collect();
    keys.sort();
    let way = r.below(3);
    let mut other = Generators::default();
    for k in keys {
      let g = generator(r, &m[k]);
      if k.is_empty() && r.below(2) == 0 { out.add_generator(c, g); continue }
      let p = path(r, k);
      let to = if way == 0 || (way == 1 && r.below(2) == 0) { &mut out } else { &mut other };
      to.add_generator_with_subcategory(c, p, g);
    }
    out.add_generators(other);
  }
  out
}
trait Empty { fn is_empty(&self) -> bool; }
impl Empty for DocPath { fn is_empty(&self) -> bool { self.tokens().is_empty() } }

fn swap_case(s: &str) -> String { s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }

fn part<T: HttpPart>(r: &mut Rng, to: &mut T, headers: &Option<HashMap<String, Vec<String>>>, body: pact_models::bodies::OptionalBody, rl: &MatchingRules, g: &Generators, set: fn(&mut T, &str, &[&str])) {
  if let Some(h) = headers {
    let mut names: Vec<&String> = h.keys().collect();
    names.sort();
    let _ = to.headers_mut();
    for n in names {
      let v: Vec<&str> = h[n].iter().map(|s| s.as_str()).collect();
      // names that differ in case only are one header for set_header
      let twice = h.keys().filter(|k| k.eq_ignore_ascii_case(n)).count() > 1;
      match r.below(if twice { 2 } else { 4 }) {
        0 => to.add_header(n, v),
        1 => { to.headers_mut().insert(n.clone(), h[n].clone()); }
        2 => set(to, n, &v),
        _ => { set(to, n, &["replaced"]); set(to, &swap_case(n), &v); }
      }
    }
  }
  *to.body_mut() = match (r.below(3), body.content_type()) {
    (0, Some(ct)) => { let mut b = body.clone(); b.set_content_type(&ct); b }
    (1, Some(ct)) => body.with_content_type(Some(ct)),
    _ => body
  };
  *to.matching_rules_mut() = rules(r, rl);
  *to.generators_mut() = gens(r, g);
}
pub fn request(r: &mut Rng, p: &Value) -> HttpRequest {
  let w = model_http_req(p);
  let mut q = HttpRequest { method: w.method.clone(), path: w.path.clone(), query: w.query.clone(), ..HttpRequest::default() };
  part(r, &mut q, &w.headers, w.body.clone(), &w.matching_rules, &w.generators, |t, n, v| { let v: Vec<&str> = v.to_vec(); set_req(t, n, &v) });
  match r.below(3) { 0 => q.as_v3_request().as_v4_request(), _ => q }
}
fn set_req(t: &mut HttpRequest, n: &str, v: &[&str]) { let v: Vec<String> = v.iter().map(|s| s.to_string()).collect(); t.set_header(n.to_string(), &v) }
fn set_res(t: &mut HttpResponse, n: &str, v: &[&str]) { let v: Vec<String> = v.iter().map(|s| s.to_string()).collect(); t.set_header(n.to_string(), &v) }
pub fn response(r: &mut Rng, p: &Value) -> HttpResponse {
  let w = model_http_res(p);
  let mut q = HttpResponse { status: w.status, ..HttpResponse::default() };
  part(r, &mut q, &w.headers, w.body.clone(), &w.matching_rules, &w.generators, set_res);
  match r.below(3) { 0 => q.as_v3_response().as_v4_response(), _ => q }
}
fn contents(r: &mut Rng, p: &Value) -> MessageContents {
  let w = model_contents(p);
  MessageContents { matching_rules: rules(r, &w.matching_rules), generators: gens(r, &w.generators), ..w }
}

/// One interaction made by its mutators.
pub fn interaction(r: &mut Rng, i: &Value) -> Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe> {
  let w = model_v4(i);
  let key = i["key"].as_str().map(|s| s.to_string());
  let mut b: Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe> = match i["t"].as_str().unwrap() {
    "http" => Box::new(SynchronousHttp { key, request: request(r, &i["req"]), response: response(r, &i["res"][0]), pending: i["pending"] == true, ..Default::default() }),
    "async" => Box::new(AsynchronousMessage { key, contents: contents(r, &i["req"]), pending: i["pending"] == true, ..Default::default() }),
    _ => Box::new(SynchronousMessage { key, request: contents(r, &i["req"]), response: i["res"].as_array().unwrap().iter().map(|p| contents(r, p)).collect(), pending: i["pending"] == true, ..Default::default() }),
  };
  let steps = { let mut s: Vec<usize> = (0..6).collect(); for k in (1..6).rev() { s.swap(k, r.below(k as u64 + 1) as usize); } s };
  for s in steps { match s {
    0 => { if r.below(2) == 0 { b.set_description(&w.description()) } else { b.to_super_mut().set_description(&w.description()) } }
    1 => { for st in w.provider_states() { if let Some(v) = b.as_v4_mut() { v.provider_states_mut().push(st) } } }
    2 => { for (k, v) in w.comments() { b.comments_mut().insert(k, v); } }
    3 => { for (k, v) in w.plugin_config() { if r.below(2) == 0 { b.plugin_config_mut().insert(k, v); } else { let e = b.plugin_config_mut().entry(k).or_default(); for (a, x) in v { e.insert(a, x); } } } }
    4 => {
      let m = w.interaction_markup();
      let full = b.interaction_markup_mut();
      match r.below(3) {
        0 => *full = m,
        1 => *full = full.merge(m),
        _ => match m.markup.find('\n') {
          Some(k) if k > 0 && k + 1 < m.markup.len() => { let (x, y) = (InteractionMarkup { markup: m.markup[..k].into(), markup_type: m.markup_type.clone() }, InteractionMarkup { markup: m.markup[k + 1..].into(), markup_type: m.markup_type.clone() }); *full = x.merge(y) }
          _ => *full = m.merge(InteractionMarkup::default())
        }
      }
    }
    _ => b.set_transport(w.transport()),
  } }
  match r.below(6) {
    0 => b.boxed_v4(),
    1 => b.as_v4().unwrap(),
    2 => { let x = b.boxed(); x.as_v4().unwrap() }
    3 => match b.v4_type() {
      pact_models::v4::V4InteractionType::Synchronous_HTTP => Box::new(b.as_v4_http().unwrap()),
      pact_models::v4::V4InteractionType::Asynchronous_Messages => Box::new(b.as_v4_async_message().unwrap()),
      _ => Box::new(b.as_v4_sync_message().unwrap()) },
    4 => { let mut x = b; { let s = x.to_super_mut(); if let Some(v) = s.as_v4_http_mut() { v.request.method.push_str(""); } } x }
    _ => b
  }
}

/// The pact the abstract interactions stand for, made in the way `style` decides (0: struct literals).
pub fn pact(ais: &[Value], fam: Fam, consumer: &str, provider: &str, style: u64) -> P {
  if style == 0 { return to_model(ais, fam, consumer, provider) }
  let mut r = Rng::new(style);
  let (c, p) = (Consumer { name: consumer.into() }, Provider { name: provider.into() });
  let mut out: P = match fam {
    Fam::V4 => Box::new(V4Pact { consumer: c, provider: p, ..V4Pact::default() }),
    Fam::Msg => Box::new(MessagePact { consumer: c, provider: p, specification_version: fam.spec(), ..MessagePact::default() }),
    _ => Box::new(RequestResponsePact { consumer: c, provider: p, specification_version: fam.spec(), ..RequestResponsePact::default() }),
  };
  for i in ais {
    let x: Box<dyn Interaction> = match fam {
      Fam::V4 => interaction(&mut r, i).boxed(),
      Fam::Msg => {
        let mut m = model_msg(i);
        m.matching_rules = rules(&mut r, &m.matching_rules);
        m.generators = gens(&mut r, &m.generators);
        match r.below(3) { 0 => m.boxed(), 1 => { let w = m.clone(); let c = MessageContents { contents: m.contents, metadata: m.metadata, matching_rules: m.matching_rules, generators: m.generators }; let mut m = c.as_v3_message(); for st in w.provider_states { m.provider_states_mut().push(st) } m.set_description(&w.description); m.boxed() } _ => m.as_message().unwrap().boxed() }
      }
      _ => {
        let mut m = model_v3(i);
        m.request.matching_rules = rules(&mut r, &m.request.matching_rules); m.response.matching_rules = rules(&mut r, &m.response.matching_rules);
        m.request.generators = gens(&mut r, &m.request.generators); m.response.generators = gens(&mut r, &m.response.generators);
        match r.below(4) { 0 => m.boxed(), 1 => m.as_v4_http().unwrap().as_request_response().unwrap().boxed(), 2 => m.as_v4().unwrap().as_request_response().unwrap().boxed(), _ => { m.request = m.request.as_v4_request().as_v3_request(); m.response = m.response.as_v4_response().as_v3_response(); m.boxed() } }
      }
    };
    let d = x.description();
    match r.below(3) {
      0 => { out.add_interaction(x.as_ref()).expect("add_interaction"); }
      1 => { let mut y = x; y.set_description("not yet"); out.add_interaction(y.as_ref()).expect("add_interaction"); if let Some(l) = out.interactions_mut().pop() { l.set_description(&d) } }
      _ => { let mut y = x; let st = y.provider_states(); y.provider_states_mut().clear(); out.add_interaction(y.as_ref()).expect("add_interaction"); if let Some(l) = out.interactions_mut().pop() { l.provider_states_mut().extend(st) } }
    }
  }
  match (r.below(5), fam) {
    (0, _) => out.boxed(),
    (1, Fam::V4) => out.as_v4_pact().unwrap().boxed(),
    (1, Fam::Msg) => out.as_message_pact().unwrap().boxed(),
    (1, _) => out.as_request_response_pact().unwrap().boxed(),
    (2, Fam::V3) => out.as_v4_pact().unwrap().as_request_response_pact().unwrap().boxed(),
    (2, _) => { let a = out.arced(); a.boxed() }
    (3, _) => { let a = out.thread_safe(); let b = a.lock().unwrap().boxed(); b }
    _ => out
  }
}
