//! Pacts, what the provider has to receive for them and which answers satisfy them.
use base64::Engine;
use serde_json::{json, Map, Value};
use simcore::choices::Choices;

use crate::net::{Answer, Entry};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Http, Message, Sync }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Spec { V2, V3, V3Message, V4 }

/// How the provider answers an interaction, before anything happens on the network.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Plan { Good, Variant, WrongStatus, WrongValue, MissingField, MissingHeader, WrongHeader, WrongType, NoBody, WrongMeta, NoMeta, ErrorWithBody }

#[derive(Clone, Debug)]
pub struct Ix {
  pub gid: usize,
  pub kind: Kind,
  pub desc: String,
  pub states: Vec<(String, Vec<(String, Value)>)>,
  pub method: &'static str,
  pub path: String,
  pub query: Vec<(String, Vec<String>)>,
  pub headers: Vec<(String, String)>,
  pub body: Option<Value>,
  pub status: u16,
  pub rheaders: Vec<(String, String)>,
  pub rbody: Option<Value>,
  pub text: bool,
  /// $.name of the answer is matched by type
  pub rule: bool,
  pub pending: bool,
  pub bid: Option<String>,
  /// places filled in from provider states: path, header, body
  pub gens: (bool, bool, bool),
  pub meta: Vec<(String, Value)>,
  pub plan: Plan,
  /// sent over another transport than the default
  pub alt: bool
}

#[derive(Clone, Debug)]
pub struct Doc { pub spec: Spec, pub consumer: String, pub provider: String, pub ixs: Vec<Ix>, pub links: Option<Value> }

pub const KEYS: &[&str] = &["id", "ref", "other"];
const STATES: &[&str] = &["user exists", "the database is empty", "user is admin", "exists"];
const VALUES: &[&str] = &["a", "x y", "ü", "1&2", "100%", "", "a/b", "1+1", "[0]"];

pub fn ix(ch: &mut Choices, gid: usize, spec: Spec, broker: bool) -> Ix {
  let kind = match spec { Spec::V2 | Spec::V3 => Kind::Http, Spec::V3Message => Kind::Message, Spec::V4 => *ch.pick(&[Kind::Http, Kind::Http, Kind::Message, Kind::Sync]) };
  let mut i = Ix { gid, kind, desc: format!("{} request {}", ch.pick(&["get", "create", "list"]), gid), states: vec![], method: ["GET", "POST", "PUT", "DELETE"][ch.below(4)],
    path: format!("/x{}", gid), query: vec![], headers: vec![], body: None, status: *ch.pick(&[200, 201, 404, 204]), rheaders: vec![], rbody: None, text: false, rule: false,
    pending: spec == Spec::V4 && ch.pct(20), bid: if broker { Some(format!("id{:x}", gid * 7919)) } else { None }, gens: (false, false, false), meta: vec![], plan: Plan::Good, alt: false };
  for _ in 0..ch.count(0, if spec == Spec::V2 { 1 } else { 3 }) {
    let name = ch.pick(STATES).to_string();
    let mut params = vec![];
    if spec != Spec::V2 { for k in KEYS { if ch.pct(30) { params.push((k.to_string(), if ch.pct(80) { json!(format!("{}{}p{}", k, gid, params.len())) } else { json!(gid * 10 + params.len()) })); } } }
    i.states.push((name, params));
  }
  if ch.pct(50) { i.path.push_str(*ch.pick(&["/items", "/a%20b", "/deep/er", "/"])); }
  if kind == Kind::Http {
    for (n, k) in ["q", "page", "z y"].iter().enumerate() {
      if ch.pct(25) { i.query.push((k.to_string(), (0..ch.count(1, 2 + n.min(1))).map(|_| ch.pick(VALUES).to_string()).collect())); }
    }
    if ch.pct(50) { i.headers.push(("X-Req".into(), format!("r{}", gid))); }
    if ch.pct(30) { i.headers.push(("X-Ref".into(), "orig".into())); }
    if ch.pct(20) { i.headers.push((ch.pick(&["X-Custom", "x-custom"]).to_string(), "mine".into())); }
    if i.method == "POST" || i.method == "PUT" {
      i.headers.push(("Content-Type".into(), "application/json".into()));
      i.body = Some(json!({"n": gid, "ref": "orig", "list": [1, 2]}));
    }
    if ch.pct(40) { i.rheaders.push(("X-Tag".into(), format!("t{}", gid))); }
    if i.status != 204 && ch.pct(75) {
      i.text = ch.pct(20);
      i.rheaders.push(("Content-Type".into(), if i.text { "text/plain" } else { "application/json" }.into()));
      i.rbody = Some(if i.text { json!(format!("text of {}", gid)) } else { json!({"ix": gid, "name": format!("n{}", gid), "items": [1, 2, {"deep": gid}]}) });
    }
    if spec != Spec::V2 { i.gens = (ch.pct(25), ch.pct(25), i.body.is_some() && ch.pct(40)); }
  } else {
    i.status = 200;
    i.rbody = Some(json!({"ix": gid, "name": format!("n{}", gid), "items": [1, 2, {"deep": gid}]}));
    if ch.pct(50) { i.meta.push(("topic".into(), json!(format!("t{}", gid)))); }
    if ch.pct(30) { i.meta.push(("n".into(), json!(gid))); }
    if kind == Kind::Sync { i.body = Some(json!({"ask": gid})); }
  }
  i.rule = i.rbody.is_some() && !i.text && kind != Kind::Sync && ch.pct(40);
  i
}

fn object(v: impl IntoIterator<Item = (String, Value)>) -> Value { Value::Object(v.into_iter().collect::<Map<_, _>>()) }

impl Ix {
  pub fn plans(&self) -> Vec<Plan> {
    let mut p = vec![];
    if self.kind == Kind::Http {
      p.push(Plan::WrongStatus);
      if self.rheaders.iter().any(|(k, _)| k == "X-Tag") { p.extend([Plan::MissingHeader, Plan::WrongHeader]); }
    } else {
      p.push(Plan::ErrorWithBody);
      if !self.meta.is_empty() { p.extend([Plan::WrongMeta, Plan::NoMeta]); }
    }
    if self.rbody.is_some() {
      p.extend([Plan::WrongValue, Plan::NoBody]);
      if !self.text { p.extend([Plan::MissingField, Plan::WrongType]); }
    }
    p
  }
  pub fn json(&self, spec: Spec) -> Value {
    let mut o = json!({"description": self.desc});
    if let Some(id) = &self.bid { o["_id"] = json!(id); }
    let states = Value::Array(self.states.iter().map(|(n, p)| if p.is_empty() { json!({"name": n}) } else { json!({"name": n, "params": object(p.iter().cloned())}) }).collect());
    match spec {
      Spec::V2 => { if let Some(s) = self.states.first() { o["providerState"] = json!(s.0); } }
      _ => if !self.states.is_empty() { o["providerStates"] = states; }
    }
    let headers = |h: &Vec<(String, String)>| object(h.iter().map(|(k, v)| (k.clone(), if spec == Spec::V4 { json!([v]) } else { json!(v) })));
    let contents = |b: &Value| json!({"content": b, "contentType": if b.is_string() { "text/plain" } else { "application/json" }, "encoded": false});
    let rules = |root: &str| if root.is_empty() { json!({"body": {"$.name": {"combine": "AND", "matchers": [{"match": "type"}]}}}) } else { json!({root: {"match": "type"}}) };
    match self.kind {
      Kind::Http => {
        let mut q = json!({"method": self.method, "path": self.path});
        if !self.query.is_empty() {
          q["query"] = if spec == Spec::V2 {
            json!(self.query.iter().flat_map(|(k, vs)| vs.iter().map(move |v| format!("{}={}", enc(k), enc(v)))).collect::<Vec<_>>().join("&"))
          } else { object(self.query.iter().map(|(k, v)| (k.clone(), json!(v)))) };
        }
        if !self.headers.is_empty() { q["headers"] = headers(&self.headers); }
        if let Some(b) = &self.body { q["body"] = if spec == Spec::V4 { contents(b) } else { b.clone() }; }
        let mut g = json!({});
        let gen = |e: String| json!({"type": "ProviderState", "expression": e});
        if self.gens.0 { g["path"] = gen(format!("/x{}/by/${{id}}", self.gid)); }
        if self.gens.1 { g["header"] = json!({"X-Ref": gen("${ref}".into())}); }
        if self.gens.2 { g["body"] = json!({"$.ref": gen("${ref}".into())}); }
        if g != json!({}) { q["generators"] = g; }
        let mut r = json!({"status": self.status});
        if !self.rheaders.is_empty() { r["headers"] = headers(&self.rheaders); }
        if let Some(b) = &self.rbody { r["body"] = if spec == Spec::V4 { contents(b) } else { b.clone() }; }
        if self.rule { r["matchingRules"] = rules(if spec == Spec::V2 { "$.body.name" } else { "" }); }
        o["request"] = q;
        o["response"] = r;
        if spec == Spec::V4 { o["type"] = json!("Synchronous/HTTP"); }
        if self.alt { o["transport"] = json!("alt"); }
      }
      Kind::Message => {
        let meta = object(self.meta.iter().cloned().chain([("contentType".to_string(), json!("application/json"))]));
        if spec == Spec::V4 { o["type"] = json!("Asynchronous/Messages"); o["contents"] = contents(self.rbody.as_ref().unwrap()); o["metadata"] = meta; }
        else { o["contents"] = self.rbody.clone().unwrap(); o["metaData"] = meta; }
        if self.rule { o["matchingRules"] = rules(""); }
      }
      Kind::Sync => {
        o["type"] = json!("Synchronous/Messages");
        o["request"] = json!({"contents": contents(self.body.as_ref().unwrap())});
        let mut r = json!({"contents": contents(self.rbody.as_ref().unwrap())});
        if !self.meta.is_empty() { r["metadata"] = object(self.meta.iter().cloned()); }
        o["response"] = json!([r]);
      }
    }
    if self.pending { o["pending"] = json!(true); }
    o
  }
  /// The answer of a provider that follows the plan.
  pub fn answer(&self) -> Answer {
    let p = self.plan;
    let mut headers: Vec<(String, String)> = self.rheaders.clone();
    if self.kind != Kind::Http {
      headers.push(("Content-Type".into(), "application/json".into()));
      if !self.meta.is_empty() && p != Plan::NoMeta {
        let mut m: Vec<(String, Value)> = self.meta.clone();
        if p == Plan::WrongMeta { let n = m.len() - 1; m[n].1 = json!("something else"); }
        headers.push(("Pact-Message-Metadata".into(), base64::engine::general_purpose::STANDARD.encode(object(m).to_string())));
      }
    }
    headers.push(("Date".into(), "Thu, 02 Jan 2025 10:00:00 GMT".into()));
    let mut status = self.status;
    let mut body = self.rbody.clone();
    match p {
      Plan::Variant => {
        if self.rule { body.as_mut().unwrap()["name"] = json!("another name"); }
        if !self.text { if let Some(b) = body.as_mut() { b["unexpected"] = json!({"more": [1]}); } }
        headers.push(("X-More".into(), "1".into()));
      }
      Plan::WrongStatus => status = if status == 200 { 202 } else { 200 },
      Plan::ErrorWithBody => status = 500,
      Plan::WrongValue => if self.text { body = Some(json!(format!("text of {}!", self.gid))) } else { body.as_mut().unwrap()["items"][2]["deep"] = json!(self.gid + 1) },
      Plan::MissingField => { body.as_mut().unwrap().as_object_mut().unwrap().remove("ix"); }
      Plan::WrongType => body.as_mut().unwrap()["name"] = json!(5),
      Plan::NoBody => body = None,
      Plan::MissingHeader => headers.retain(|(k, _)| k != "X-Tag"),
      Plan::WrongHeader => for h in headers.iter_mut() { if h.0 == "X-Tag" { h.1 = "other".into(); } },
      _ => ()
    }
    Answer { status, headers, body: match body { None => vec![], Some(Value::String(s)) => s.into_bytes(), Some(v) => v.to_string().into_bytes() } }
  }
  /// Does what arrived satisfy the interaction?
  pub fn accepts(&self, a: &Answer) -> bool {
    let ct = a.is("content-type").first().map(|s| s.to_string()).unwrap_or_default();
    let body_ok = match &self.rbody {
      None => true,
      Some(Value::String(s)) => a.body == s.as_bytes() && ct.starts_with("text/plain"),
      Some(want) => ct.contains("json") && serde_json::from_slice::<Value>(&a.body).map(|got| {
        ["ix", "items"].iter().all(|k| got.get(k) == want.get(k)) && if self.rule { got.get("name").is_some_and(|n| n.is_string()) } else { got.get("name") == want.get("name") }
      }).unwrap_or(false)
    };
    if self.kind == Kind::Http {
      return a.status == self.status && body_ok && self.rheaders.iter().all(|(k, v)| a.is(k).contains(&v.as_str()))
    }
    let meta = a.is("pact-message-metadata").first().and_then(|s| base64::engine::general_purpose::STANDARD.decode(s).ok()).and_then(|b| serde_json::from_slice::<Value>(&b).ok()).unwrap_or_default();
    (200..300).contains(&a.status) && body_ok && self.meta.iter().all(|(k, v)| meta.get(k) == Some(v))
  }
  /// Differences between the request a provider got and the one the interaction asks for, given
  /// the values its provider states have provided.
  pub fn wrong_request(&self, e: &Entry, base: &str, context: &[(String, Value)], custom: &[(String, String)]) -> Option<String> {
    let value = |k: &str| context.iter().rev().find(|(n, _)| n == k).map(|(_, v)| v.clone());
    let text = |k: &str| value(k).map(|v| match v { Value::String(s) => s, v => v.to_string() });
    if self.kind != Kind::Http {
      let b: Value = match serde_json::from_slice(&e.body) { Ok(b) => b, Err(_) => return Some(format!("the body is not JSON: {}", String::from_utf8_lossy(&e.body))) };
      if e.method != "POST" { return Some(format!("method {}", e.method)) }
      if b["description"] != json!(self.desc) { return Some(format!("description {}", b["description"])) }
      let names: Vec<&str> = b["providerStates"].as_array().map(|a| a.iter().map(|s| s["name"].as_str().unwrap_or("")).collect()).unwrap_or_default();
      if names != self.states.iter().map(|s| s.0.as_str()).collect::<Vec<_>>() { return Some(format!("provider states {:?}", names)) }
      if self.kind == Kind::Sync && b["request"]["contents"]["content"] != *self.body.as_ref().unwrap() { return Some(format!("request {}", b["request"])) }
      return custom.iter().find(|(k, v)| !e.header(k).contains(v)).map(|(k, _)| format!("custom header {} is missing", k))
    }
    if e.method != self.method { return Some(format!("method {} instead of {}", e.method, self.method)) }
    let path = match text("id") { Some(v) if self.gens.0 => format!("/x{}/by/{}", self.gid, v), _ => self.path.clone() };
    let want = format!("{}{}", base.trim_end_matches('/'), path);
    if e.path != want { return Some(format!("path {} instead of {}", e.path, want)) }
    let mut got: Vec<(String, Vec<String>)> = vec![];
    for (k, v) in url::form_urlencoded::parse(e.query.clone().unwrap_or_default().as_bytes()) {
      match got.iter_mut().find(|(n, _)| *n == k) { Some(g) => g.1.push(v.into_owned()), None => got.push((k.into_owned(), vec![v.into_owned()])) }
    }
    let mut want = self.query.clone();
    got.sort(); want.sort();
    if got != want { return Some(format!("query {:?} instead of {:?}", got, want)) }
    let mut headers = self.headers.clone();
    if self.gens.1 { if let Some(v) = text("ref") { headers.retain(|(k, _)| k != "X-Ref"); headers.push(("X-Ref".into(), v)); } }
    for (k, v) in &headers {
      if custom.iter().any(|(c, _)| c.eq_ignore_ascii_case(k)) { continue }
      if e.header(k) != [v.clone()] { return Some(format!("header {} is {:?} instead of {:?}", k, e.header(k), v)) }
    }
    for (k, v) in custom { if e.header(k) != [v.clone()] { return Some(format!("custom header {} is {:?} instead of {:?}", k, e.header(k), v)) } }
    match &self.body {
      None => if !e.body.is_empty() { return Some(format!("unexpected body {}", String::from_utf8_lossy(&e.body))) },
      Some(b) => {
        let mut b = b.clone();
        if self.gens.2 { if let Some(v) = value("ref") { b["ref"] = v; } }
        if serde_json::from_slice::<Value>(&e.body).ok() != Some(b.clone()) { return Some(format!("body {} instead of {}", String::from_utf8_lossy(&e.body), b)) }
      }
    }
    None
  }
}
pub fn enc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }

pub fn doc(ch: &mut Choices, gid: &mut usize, provider: &str, consumer: &str, n: usize, broker: bool) -> Doc {
  let spec = *ch.pick(&[Spec::V3, Spec::V4, Spec::V2, Spec::V3Message]);
  let ixs = (0..n).map(|_| { *gid += 1; ix(ch, *gid, spec, broker) }).collect();
  Doc { spec, consumer: consumer.into(), provider: provider.into(), ixs, links: None }
}
impl Doc {
  pub fn json(&self) -> Value {
    let mut o = json!({"consumer": {"name": self.consumer}, "provider": {"name": self.provider}});
    let v = match self.spec { Spec::V2 => "2.0.0", Spec::V3 | Spec::V3Message => "3.0.0", Spec::V4 => "4.0" };
    o["metadata"] = json!({"pactSpecification": {"version": v}});
    o[if self.spec == Spec::V3Message { "messages" } else { "interactions" }] = Value::Array(self.ixs.iter().map(|i| i.json(self.spec)).collect());
    if let Some(l) = &self.links { o["_links"] = l.clone(); }
    o
  }
}
