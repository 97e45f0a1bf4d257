//! Abstract interactions (canonical JSON), their rendering as pact documents and as models, and an
//! independent projection of models back to the canonical form.
use std::collections::HashMap;

use base64_lite::{dec, enc};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{ContentType, ContentTypeHint};
use pact_models::generators::{Generator, GeneratorCategory, Generators, UuidFormat};
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::Pact;
use pact_models::path_exp::DocPath;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{Consumer, HttpStatus, PactSpecification, Provider};
use serde_json::{json, Map, Value};
use simcore::choices::Choices;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fam { V2, V3, Msg, V4 }
impl Fam {
  pub fn spec(self) -> PactSpecification { match self { Fam::V2 => PactSpecification::V2, Fam::V3 | Fam::Msg => PactSpecification::V3, Fam::V4 => PactSpecification::V4 } }
  pub fn name(self) -> &'static str { match self { Fam::V2 => "v2", Fam::V3 => "v3", Fam::Msg => "v3msg", Fam::V4 => "v4" } }
}

pub mod base64_lite {
  const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  pub fn enc(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
      let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
      o.push(T[(n >> 18) as usize & 63] as char);
      o.push(T[(n >> 12) as usize & 63] as char);
      o.push(if c.len() > 1 { T[(n >> 6) as usize & 63] as char } else { '=' });
      o.push(if c.len() > 2 { T[n as usize & 63] as char } else { '=' });
    }
    o
  }
  pub fn dec(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let mut acc = 0u32; let mut bits = 0;
    for c in s.bytes() {
      let Some(v) = T.iter().position(|t| *t == c) else { continue };
      acc = acc << 6 | v as u32; bits += 6;
      if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
    }
    o
  }
}

// ---------------------------------------------------------------- generation

const WORDS: &[&str] = &["alpha", "beta", "a b", "Ünï", "x-y", "7", "q\"uote", "back\\slash", "pct%20", "amp&", "eq=", "plus+", "tab\tx", "it's", "日本", "$d", "line\nbreak", "", "null", "a/b", "semi;colon", "#h", "\u{1}ctl", "😀", " ", " pad ", "a=b=c", "%", "{}", "\r\n", "é"];
const KEYS: &[&str] = &["a", "b", "id", "name", "items", "x y", "k-1", "ü", "n'q", "d.t", "a$b", "@id", "_u", "0"];
pub fn word(ch: &mut Choices) -> String { ch.pick(WORDS).to_string() }
pub fn plain(ch: &mut Choices) -> String { ch.pick(&["alpha", "beta", "gamma", "delta", "x1", "y-2"]).to_string() }

pub fn json_value(ch: &mut Choices, depth: usize) -> Value {
  match ch.below(if depth == 0 { 5 } else { 8 }) {
    0 => Value::String(word(ch)),
    1 => json!(ch.range(-100, 1000)),
    2 => match ch.below(5) { 0 => json!(i64::MAX), 1 => json!(u64::MAX), 2 => json!(1.5), 3 => json!(-0.25), _ => json!(1e21) },
    3 => Value::Bool(ch.pct(50)),
    4 => Value::Null,
    5 | 6 => { let n = ch.count(0, 3); let mut m = Map::new(); for _ in 0..n { m.insert(ch.pick(KEYS).to_string(), json_value(ch, depth - 1)); } Value::Object(m) }
    _ => { let n = ch.count(0, 3); Value::Array((0..n).map(|_| json_value(ch, depth - 1)).collect()) }
  }
}

fn gen_states(ch: &mut Choices, fam: Fam) -> Value {
  let n = if fam == Fam::V2 { ch.below(2) } else { ch.count(0, 3) };
  Value::Array((0..n).map(|_| {
    let mut p = Map::new();
    if fam != Fam::V2 { for _ in 0..ch.count(0, 2) { p.insert(ch.pick(KEYS).to_string(), json_value(ch, 1)); } }
    json!({"name": format!("state {}", ch.pick(&["one", "two", "ü three", "q\"4", " five ", "SIX"])), "params": p})
  }).collect())
}

/// (content, content type); content types are chosen so that the format can carry them.
fn gen_body(ch: &mut Choices, fam: Fam) -> (Value, Option<String>) {
  match ch.below(12) {
    0 | 1 => (json!({"s": "missing"}), None),
    2 => (json!({"s": "empty"}), None),
    3 => (if fam == Fam::V4 && ch.pct(80) { json!({"s": "missing"}) } else { json!({"s": "null"}) }, None),
    4..=7 => {
      let ct = ch.pick(&["application/json", "application/json; charset=utf-8", "application/hal+json", "application/vnd.x.v1+json"]).to_string();
      let v = match ch.below(6) {
        // a text that reads like another JSON value is a text
        0 if matches!(fam, Fam::V2 | Fam::V3) && ch.pct(30) => json!(*ch.pick(&["123", "true", "null", "[1, 2]", "-0.5", "[]"])),
        0 => { let w = word(ch); if w.is_empty() || serde_json::from_str::<Value>(&w).is_ok() { json!("word up") } else { Value::String(w) } }
        1 => { let n = ch.count(0, 3); Value::Array((0..n).map(|_| json_value(ch, 2)).collect()) }
        _ => { let n = ch.count(0, 4); let mut m = Map::new(); for _ in 0..n { m.insert(ch.pick(KEYS).to_string(), json_value(ch, 2)); } Value::Object(m) }
      };
      (present(&serde_json::to_vec(&v).unwrap(), &ct), Some(ct))
    }
    8 => { let ct = ch.pick(&["text/plain", "text/csv;charset=utf-8"]).to_string(); let t = format!("{} {}", plain(ch), word(ch)); (present(t.as_bytes(), &ct), Some(ct)) }
    9 => {
      let ct = ch.pick(&["application/xml", "text/xml", "application/soap+xml"]).to_string();
      let t = format!("<?xml version=\"1.0\"?><r a=\"{}\"><v>{}</v></r>", plain(ch), plain(ch));
      (present(t.as_bytes(), &ct), Some(ct))
    }
    10 => { let ct = "application/x-www-form-urlencoded".to_string(); let t = format!("a={}&b={}", plain(ch), plain(ch)); (present(t.as_bytes(), &ct), Some(ct)) }
    _ => {
      let ct = ch.pick(&["application/octet-stream", "image/png", "application/pdf"]).to_string();
      let mut b: Vec<u8> = (0..ch.count(1, 9)).map(|_| 0).collect();
      for x in b.iter_mut() { *x = ch.below(256) as u8; }
      if ch.pct(60) { b[0] = 0x89; } else { for x in b.iter_mut() { *x = b'a' + *x % 26; } b[0] = 0x7f; }
      let _ = fam;
      (present(&b, &ct), Some(ct))
    }
  }
}
fn present(bytes: &[u8], ct: &str) -> Value { let mut b = norm_bytes(bytes); b["s"] = json!("present"); b["ct"] = json!(ct); b }
pub fn norm_bytes(b: &[u8]) -> Value {
  match serde_json::from_slice::<Value>(b) { Ok(v) => json!({"json": v}), Err(_) => json!({"b64": enc(b)}) }
}
pub fn body_bytes(b: &Value) -> Vec<u8> { if let Some(v) = b.get("json") { serde_json::to_vec(v).unwrap() } else { dec(b["b64"].as_str().unwrap_or("")) } }

fn gen_headers(ch: &mut Choices, ct: &Option<String>, resp: bool) -> Value {
  let mut m = Map::new();
  for _ in 0..ch.count(0, 3) {
    match ch.below(5) {
      0 => { m.insert("X-Multi".into(), json!(["a", "b c", "d"])); }
      1 => {
        // headers whose value is never a list, however it is written
        let n = if resp { ch.pick(&["Last-Modified", "Date", "Expires", "Set-Cookie", "Retry-After"]) } else { ch.pick(&["If-Modified-Since", "If-Unmodified-Since", "Accept-Datetime", "Date", "User-Agent"]) }.to_string();
        let v = match n.as_str() { "Set-Cookie" => "a=b; Expires=Wed, 09 Jun 2027 10:18:14 GMT; Path=/", "User-Agent" => "ua/1.0 (x, like y)", _ => "Sun, 12 Mar 2023 01:21:35 GMT" };
        let n = match ch.below(4) { 0 => n.to_lowercase(), 1 => n.to_uppercase(), _ => n };
        m.retain(|k, _| k.to_lowercase() != n.to_lowercase());
        m.insert(n, json!([v]));
      }
      2 => {
        let n = ch.pick(&["accept", "Vary", "Cache-Control", "Allow", "ETag", "x-1"]).to_string();
        let vs: Vec<Value> = (0..ch.count(1, 3)).map(|_| if ch.pct(20) { json!(ch.pick(&["text/html;q=0.8", "max-age=3", "*/*", "W/\"x\"", ""])) } else { json!(plain(ch)) }).collect();
        m.insert(n, json!(vs));
      }
      3 => { let v = word(ch); let v = v.trim().to_string(); let v = if v.contains(',') { "x".to_string() } else { v }; m.insert(format!("X-{}", plain(ch)), json!([v])); }
      _ => { m.retain(|k, _| k.to_lowercase() != "user-agent"); m.insert("User-Agent".into(), json!(["ua/1.0 (x, like y)"])); }
    }
  }
  if let Some(ct) = ct { m.insert(ch.pick(&["Content-Type", "content-type", "Content-Type", "CONTENT-TYPE", "Content-type"]).to_string(), json!([ct])); }
  if m.is_empty() { Value::Null } else { Value::Object(m) }
}

fn gen_query(ch: &mut Choices, fam: Fam) -> Value {
  if ch.pct(50) { return Value::Null }
  let mut m = Map::new();
  for _ in 0..ch.count(1, 3) {
    let k = if ch.pct(20) { ch.pick(&["a b", "x&y", "p=q", "q%41", "a.b", "+", "#", "$"]).to_string() } else { ch.pick(&["q", "id", "x-y", "a[]", "sort"]).to_string() };
    let vs: Vec<Value> = (0..ch.count(1, 3)).map(|_| { let mut w = word(ch); if fam == Fam::V2 && !w.is_ascii() && ch.pct(95) { w = plain(ch); }
      if fam != Fam::V3 && ch.pct(10) { Value::Null } else { Value::String(w) } }).collect();
    m.insert(k, Value::Array(vs));
  }
  Value::Object(m)
}

pub fn body_path(ch: &mut Choices) -> String {
  ch.pick(&["$", "$.a", "$.a.b", "$.items[0]", "$.items[*].id", "$.items[*]", "$['x y']", "$.a.*", "$['a$b']", "$['d.t'].x", "$.items[1].name", "$.id", "$[0]", "$[*]", "$.*", "$[1].a[*]", "$.a['b c'][2]", "$.a[*].*.b", "$['k-1']", "$.items[10]", "$['@id']", "$['*']", "$['été']", "$['it\\'s'].a", "$['c\\\\d']", "$.userId", "$.Items[*].ID"]).to_string()
}
pub fn rule(ch: &mut Choices, fam: Fam, depth: usize) -> Value {
  let n = match fam { Fam::V2 => 5, Fam::V3 | Fam::Msg => 14, Fam::V4 => if depth > 0 { 22 } else { 19 } };
  match ch.below(n) {
    0 => json!({"match": "regex", "regex": *ch.pick(&["\\d+", "[a-z]*", "^x$", "", "a\"b\\\\", "^(?i)é{1,2}$"])}),
    1 => json!({"match": "type"}),
    2 => json!({"match": "type", "min": ch.pick(&[0, 1, 2, 3, 10, 65536]).clone()}),
    3 => json!({"match": "type", "max": ch.pick(&[0, 1, 2, 9, 10, 65536]).clone()}),
    4 => json!({"match": "type", "min": ch.range(0, 3), "max": if ch.pct(15) { ch.range(0, 4) } else { *ch.pick(&[3, 4, 5, 9, 70_000]) }}),
    5 => json!({"match": "equality"}),
    6 => json!({"match": "datetime", "format": *ch.pick(&["yyyy-MM-dd'T'HH:mm:ss", "yyyy-MM-dd'T'HH:mm:ss.SSSXXX", "EEE, d MMM yyyy", ""])}),
    7 => json!({"match": "date", "format": *ch.pick(&["yyyy-MM-dd", "dd/MM/yy"])}),
    8 => json!({"match": "time", "format": *ch.pick(&["HH:mm", "hh:mm a", "HH:mm:ss.SSS"])}),
    9 => json!({"match": "include", "value": word(ch)}),
    10 => json!({"match": "number"}),
    11 => json!({"match": "integer"}),
    12 => json!({"match": "decimal"}),
    13 => json!({"match": "null"}),
    14 => json!({"match": "boolean"}),
    15 => json!({"match": "contentType", "value": *ch.pick(&["image/png", "application/json;charset=utf-8", "x/*"])}),
    16 => json!({"match": "values"}),
    17 => json!({"match": "statusCode", "status": match ch.below(10) { 0 => json!("info"), 1 => json!("success"), 2 => json!("redirect"), 3 => json!("clientError"), 4 => json!("serverError"), 5 => json!("nonError"), 6 => json!("error"), 7 => json!([200, 201]), 8 => json!([]), _ => json!([404, 0, 65535]) }}),
    18 => json!({"match": *ch.pick(&["notEmpty", "semver"])}),
    19 => {
      let mut v = vec![];
      for i in 0..ch.count(1, 2) {
        let mut rules = Map::new();
        for _ in 0..ch.count(1, 2) { let p = body_path(ch); let r = rule_list(ch, fam, 0); rules.insert(p, r); }
        let mut o = json!({"index": i, "rules": rules});
        if ch.pct(30) { o["generators"] = json!({body_path(ch): generator(ch, Fam::V4)}); }
        v.push(o);
      }
      json!({"match": "arrayContains", "variants": v})
    }
    n => {
      let rules: Vec<Value> = (0..ch.count(1, 2)).map(|_| rule(ch, fam, 0)).collect();
      let mut o = json!({"match": if n == 20 { "eachKey" } else { "eachValue" }, "rules": rules});
      if ch.pct(50) { o["value"] = json!(plain(ch)); }
      if ch.pct(30) { o["generator"] = generator(ch, Fam::V4); }
      o
    }
  }
}
pub fn rule_list(ch: &mut Choices, fam: Fam, depth: usize) -> Value {
  let n = if fam == Fam::V2 { 1 } else { ch.count(1, 2) };
  let ms: Vec<Value> = (0..n).map(|_| rule(ch, fam, depth)).collect();
  json!({"combine": if fam != Fam::V2 && ch.pct(30) { "OR" } else { "AND" }, "matchers": ms})
}
pub fn gen_rules(ch: &mut Choices, fam: Fam, part: &str) -> Value {
  let mut m = Map::new();
  if ch.pct(40) { return Value::Object(m) }
  let cats: &[&str] = match (part, fam) {
    ("req", Fam::V4) => &["body", "header", "query", "path", "method"],
    ("req", _) => &["body", "header", "query", "path"],
    ("res", Fam::V4) => &["body", "header", "status"],
    ("res", Fam::V3) => &["body", "header", "status"],
    ("res", _) => &["body", "header"],
    _ => &["body", "metadata"],
  };
  for _ in 0..ch.count(1, 3) {
    let c = *ch.pick(cats);
    let mut ps = Map::new();
    match c {
      "body" => for _ in 0..ch.count(1, 3) { let p = body_path(ch); let l = rule_list(ch, fam, 1); ps.insert(p, l); },
      "header" => for _ in 0..ch.count(1, 2) { let p = ch.pick(&["X-Multi", "accept", "Content-Type", "X-a.b", "X-1", "1", "x_y"]).to_string(); let l = rule_list(ch, fam, 0); ps.insert(p, l); },
      "query" => for _ in 0..ch.count(1, 2) { let p = ch.pick(&["q", "id", "x-y", "sort"]).to_string(); let l = rule_list(ch, fam, 0); ps.insert(p, l); },
      "metadata" => { let p = ch.pick(&["k", "contentType", "partition"]).to_string(); let l = rule_list(ch, fam, 0); ps.insert(p, l); }
      _ => { let l = rule_list(ch, fam, 0); ps.insert("$".into(), l); }
    }
    m.insert(c.into(), Value::Object(ps));
  }
  Value::Object(m)
}
pub fn generator(ch: &mut Choices, fam: Fam) -> Value {
  let opt = |ch: &mut Choices, v: &mut Value, k: &str, s: &str| if ch.pct(50) { v[k] = json!(s); };
  match ch.below(13) {
    0 => { let a = *ch.pick(&[-50i64, -1, 0, 1, 10, 11, 50, -2147483648, 2147483547]); let d = *ch.pick(&[0i64, 1, 10, 100, -5]); json!({"type": "RandomInt", "min": a, "max": (a + d).max(-2147483648)}) }
    1 => { let mut v = json!({"type": "Uuid"}); if fam == Fam::V4 && ch.pct(60) { v["format"] = json!(*ch.pick(&["simple", "lower-case-hyphenated", "upper-case-hyphenated", "URN"])); } v }
    2 => json!({"type": "RandomDecimal", "digits": *ch.pick(&[0, 1, 2, 9, 10, 12, 65535])}),
    3 => json!({"type": "RandomHexadecimal", "digits": *ch.pick(&[0, 1, 2, 9, 10, 20, 65535])}),
    4 => json!({"type": "RandomString", "size": *ch.pick(&[0, 1, 2, 9, 10, 20, 65535])}),
    5 => json!({"type": "Regex", "regex": *ch.pick(&["\\d{2,4}[a-c]", "", "^a$", "\\$\"", "[é-ü]"])}),
    6 => { let mut v = json!({"type": "Date"}); let (f, e) = (*ch.pick(&["yyyy-MM-dd", "D", ""]), *ch.pick(&["now + 1 day", "next mon", ""])); opt(ch, &mut v, "format", f); opt(ch, &mut v, "expression", e); v }
    7 => { let mut v = json!({"type": "Time"}); let (f, e) = (*ch.pick(&["HH:mm:ss", "h a", ""]), *ch.pick(&["+ 1 hour", "12 o'clock pm", ""])); opt(ch, &mut v, "format", f); opt(ch, &mut v, "expression", e); v }
    8 => { let mut v = json!({"type": "DateTime"}); let (f, e) = (*ch.pick(&["yyyy-MM-dd'T'HH:mm:ss", "yyyy-MM-dd'T'HH:mm:ss.SSSXXX", ""]), *ch.pick(&["today @ now", "@ midnight", ""])); opt(ch, &mut v, "format", f); opt(ch, &mut v, "expression", e); v }
    9 => json!({"type": "RandomBoolean"}),
    10 | 11 => { let mut v = json!({"type": "ProviderState", "expression": *ch.pick(&["/data/${id}", "${name}", "x ${a} y ${b}", "id", "", "$", "${", "\\${x}"])}); if ch.pct(60) { v["dataType"] = json!(*ch.pick(&["STRING", "INTEGER", "DECIMAL", "FLOAT", "RAW", "BOOLEAN"])); } v }
    _ => json!({"type": "MockServerURL", "example": *ch.pick(&["http://localhost:1234/path", "", "é \""]), "regex": *ch.pick(&[".*(/path)$", "", ".*\\/(a|b)"])}),
  }
}
pub fn gen_gens(ch: &mut Choices, fam: Fam, part: &str) -> Value {
  let mut m = Map::new();
  if fam == Fam::V2 || ch.pct(50) { return Value::Object(m) }
  let cats: &[&str] = match part { "req" => &["body", "header", "query", "path", "method"], "res" => &["body", "header", "status"], _ => &["body", "metadata"] };
  for _ in 0..ch.count(1, 3) {
    let c = *ch.pick(cats);
    let mut ps = Map::new();
    match c {
      "body" => for _ in 0..ch.count(1, 3) { let p = body_path(ch); let g = generator(ch, fam); ps.insert(p, g); },
      "header" => { let p = ch.pick(&["X-Multi", "accept", "X-1", "X-a.b"]).to_string(); let g = generator(ch, fam); ps.insert(p, g); }
      "query" => { let p = ch.pick(&["q", "id", "x-y"]).to_string(); let g = generator(ch, fam); ps.insert(p, g); }
      "metadata" => { let g = generator(ch, fam); ps.insert("k".into(), g); }
      _ => { let g = generator(ch, fam); ps.insert("$".into(), g); }
    }
    m.insert(c.into(), Value::Object(ps));
  }
  Value::Object(m)
}

fn gen_req(ch: &mut Choices, fam: Fam) -> Value {
  let (mut body, ct) = gen_body(ch, fam);
  let headers = gen_headers(ch, &ct, false);
  hint(ch, fam, &mut body);
  json!({"method": *ch.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "PROPFIND", "X-Y"]), "path": *ch.pick(&["/", "/a/b", "/p%20q", "/ü", "/data/42", "/a b", "//x/", "/a?b=c&d", "*", "", "/q\"x", "/%2F%zz"]),
    "query": gen_query(ch, fam), "headers": headers, "body": body, "rules": gen_rules(ch, fam, "req"), "gens": gen_gens(ch, fam, "req")})
}
fn gen_res(ch: &mut Choices, fam: Fam) -> Value {
  let (mut body, ct) = gen_body(ch, fam);
  let headers = gen_headers(ch, &ct, true);
  hint(ch, fam, &mut body);
  json!({"status": *ch.pick(&[200, 201, 204, 301, 400, 404, 418, 500, 599, 100, 0, 999, 65535]), "headers": headers, "body": body, "rules": gen_rules(ch, fam, "res"), "gens": gen_gens(ch, fam, "res")})
}
fn hint(ch: &mut Choices, fam: Fam, body: &mut Value) {
  if fam != Fam::V4 || body["s"] != "present" || ch.pct(80) { return }
  let json = ContentType::parse(body["ct"].as_str().unwrap()).unwrap().is_json();
  // TEXT on bytes that are not text would contradict itself
  let text = String::from_utf8(body_bytes(body)).is_ok();
  body["hint"] = json!(if json || text { *ch.pick(&["BINARY", "TEXT", "DEFAULT"]) } else { *ch.pick(&["BINARY", "DEFAULT"]) });
}
fn gen_msg(ch: &mut Choices, fam: Fam) -> Value {
  let (mut body, ct) = gen_body(ch, fam);
  hint(ch, fam, &mut body);
  let mut meta = Map::new();
  if let Some(ct) = &ct { meta.insert(if fam == Fam::Msg { ch.pick(&["contentType", "contentType", "content-type", "Content-Type", "ContentType"]).to_string() } else { "contentType".to_string() }, json!(ct)); }
  for _ in 0..ch.count(0, 2) { meta.insert(ch.pick(&["k", "partition", "x y"]).to_string(), json_value(ch, 1)); }
  json!({"meta": meta, "body": body, "rules": gen_rules(ch, fam, "msg"), "gens": gen_gens(ch, fam, "msg")})
}

/// One abstract interaction, with a description no other interaction of the run has.
pub fn interaction(ch: &mut Choices, fam: Fam, desc: &str) -> Value {
  let t = match fam { Fam::V2 | Fam::V3 => "http", Fam::Msg => "msg", Fam::V4 => *ch.pick(&["http", "async", "sync"]) };
  let mut i = json!({"t": t, "desc": desc, "states": gen_states(ch, fam)});
  if fam == Fam::V4 {
    i["key"] = if ch.pct(40) { json!(match ch.below(4) { 0 | 1 => format!("key-{}", desc), 2 => format!("{}", simcore::choices::hash_str(desc)), _ => format!("{:016x}", simcore::choices::hash_str(desc)) }) } else { Value::Null };
    let mut c = Map::new();
    if ch.pct(30) { c.insert("text".into(), json!([word(ch), "second"])); }
    if ch.pct(30) { c.insert("testname".into(), json!("test_x")); }
    if ch.pct(30) { c.insert("references".into(), json!({"openapi": {"operationId": plain(ch)}})); }
    if ch.pct(25) { let v = json_value(ch, 1); if !pact_models::json_utils::is_empty(&v) { c.insert(ch.pick(&["note", "a b", "é", "text2"]).to_string(), v); } }
    i["comments"] = Value::Object(c);
    i["pending"] = json!(ch.pct(30));
    i["plugin"] = if ch.pct(30) { json!({"protobuf": {"descriptorKey": word(ch), "n": ch.range(0, 9)}, "csv": {"x": json_value(ch, 1)}}) } else { json!({}) };
    i["markup"] = if ch.pct(20) { json!({"markup": word(ch) + "x", "markupType": *ch.pick(&["COMMON_MARK", "HTML"])}) } else { json!({"markup": "", "markupType": ""}) };
    i["transport"] = if ch.pct(30) { json!(*ch.pick(&["http", "grpc", "message"])) } else { Value::Null };
  }
  match t {
    "http" => { i["req"] = gen_req(ch, fam); i["res"] = json!([gen_res(ch, fam)]); }
    "sync" => { i["req"] = gen_msg(ch, fam); let n = ch.count(1, 2); i["res"] = Value::Array((0..n).map(|_| gen_msg(ch, fam)).collect()); }
    _ => { i["req"] = gen_msg(ch, fam); }
  }
  i
}

// ---------------------------------------------------------------- documents

pub fn enc_q(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }
fn doc_body_raw(b: &Value) -> Option<Value> {
  match b["s"].as_str().unwrap() {
    "missing" => None, "empty" => Some(json!("")), "null" => Some(Value::Null),
    _ => {
      let ct = ContentType::parse(b["ct"].as_str().unwrap()).unwrap();
      if ct.is_json() { Some(b["json"].clone()) }
      else if ct.is_binary() { Some(json!(enc(&body_bytes(b)))) }
      else { Some(Value::String(String::from_utf8(body_bytes(b)).unwrap())) }
    }
  }
}
fn doc_body_v4(b: &Value) -> Option<Value> {
  match b["s"].as_str().unwrap() {
    "missing" => None, "empty" => Some(json!({"content": ""})), "null" => Some(json!({"content": null})),
    _ => {
      let cts = b["ct"].as_str().unwrap();
      let ct = ContentType::parse(cts).unwrap();
      let bytes = body_bytes(b);
      let mut o = if ct.is_json() { json!({"content": b["json"], "encoded": false}) }
        else { match String::from_utf8(bytes.clone()) {
          Ok(s) if !ct.is_binary() && b.get("hint").map(|h| h != "BINARY").unwrap_or(true) => json!({"content": s, "encoded": false}),
          _ => json!({"content": enc(&bytes), "encoded": "base64"}) } };
      o["contentType"] = json!(cts);
      if let Some(h) = b.get("hint") { o["contentTypeHint"] = h.clone(); }
      Some(o)
    }
  }
}
fn doc_rules(r: &Value, fam: Fam) -> Option<Value> {
  let r = r.as_object().unwrap();
  if r.is_empty() { return None }
  if fam == Fam::V2 {
    let mut m = Map::new();
    for (c, ps) in r { for (p, l) in ps.as_object().unwrap() {
      let k = match c.as_str() {
        "path" => "$.path".to_string(),
        "body" => format!("$.body{}", &p[1..]),
        c => { let c = if c == "header" { "headers" } else { c }; if p.chars().all(|x| x.is_ascii_alphanumeric() || x == '_') { format!("$.{}.{}", c, p) } else { format!("$.{}['{}']", c, p) } }
      };
      m.insert(k, l["matchers"][0].clone());
    } }
    return Some(Value::Object(m));
  }
  let mut m = Map::new();
  for (c, ps) in r { m.insert(c.clone(), if c == "path" { ps["$"].clone() } else { ps.clone() }); }
  Some(Value::Object(m))
}
fn doc_gens(g: &Value) -> Option<Value> {
  let g = g.as_object().unwrap();
  if g.is_empty() { return None }
  Some(Value::Object(g.iter().map(|(c, ps)| (c.clone(), if ["path", "method", "status"].contains(&c.as_str()) { ps["$"].clone() } else { ps.clone() })).collect()))
}
fn doc_states(i: &Value, fam: Fam, o: &mut Value) {
  let st = i["states"].as_array().unwrap();
  if st.is_empty() { return }
  if fam == Fam::V2 { o["providerState"] = st[0]["name"].clone(); return }
  o["providerStates"] = Value::Array(st.iter().map(|s| { let mut x = json!({"name": s["name"]}); if !s["params"].as_object().unwrap().is_empty() { x["params"] = s["params"].clone(); } x }).collect());
}
fn doc_headers(h: &Value, fam: Fam) -> Option<Value> {
  let h = h.as_object()?;
  Some(if fam == Fam::V4 { Value::Object(h.clone()) } else {
    Value::Object(h.iter().map(|(k, v)| (k.clone(), json!(v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(", ")))).collect()) })
}
fn put(o: &mut Value, k: &str, v: Option<Value>) { if let Some(v) = v { o[k] = v; } }
fn doc_http(p: &Value, fam: Fam, req: bool) -> Value {
  let mut o = if req { json!({"method": p["method"], "path": p["path"]}) } else { json!({"status": p["status"]}) };
  if let Some(q) = p.get("query").and_then(|q| q.as_object()) {
    o["query"] = if fam == Fam::V2 {
      json!(q.iter().flat_map(|(k, vs)| vs.as_array().unwrap().iter().map(|v| match v.as_str() { Some(s) => format!("{}={}", enc_q(k), enc_q(s)), None => enc_q(k) }).collect::<Vec<_>>()).collect::<Vec<_>>().join("&"))
    } else { Value::Object(q.clone()) };
  }
  put(&mut o, "headers", doc_headers(&p["headers"], fam));
  put(&mut o, "body", if fam == Fam::V4 { doc_body_v4(&p["body"]) } else { doc_body_raw(&p["body"]) });
  put(&mut o, "matchingRules", doc_rules(&p["rules"], fam));
  put(&mut o, "generators", doc_gens(&p["gens"]));
  o
}
fn doc_msg(p: &Value, o: &mut Value, fam: Fam) {
  let meta = &p["meta"];
  if fam == Fam::Msg || !meta.as_object().unwrap().is_empty() { o["metadata"] = meta.clone(); }
  put(o, "contents", if fam == Fam::V4 { doc_body_v4(&p["body"]) } else { doc_body_raw(&p["body"]) });
  put(o, "matchingRules", doc_rules(&p["rules"], fam));
  put(o, "generators", doc_gens(&p["gens"]));
}
pub fn doc_interaction(i: &Value, fam: Fam) -> Value {
  let mut o = json!({"description": i["desc"]});
  doc_states(i, fam, &mut o);
  let t = i["t"].as_str().unwrap();
  if fam == Fam::V4 {
    o["type"] = json!(match t { "http" => "Synchronous/HTTP", "async" => "Asynchronous/Messages", _ => "Synchronous/Messages" });
    if !i["key"].is_null() { o["key"] = i["key"].clone(); }
    if !i["comments"].as_object().unwrap().is_empty() { o["comments"] = i["comments"].clone(); }
    o["pending"] = i["pending"].clone();
    if !i["plugin"].as_object().unwrap().is_empty() { o["pluginConfiguration"] = i["plugin"].clone(); }
    if i["markup"]["markup"] != "" { o["interactionMarkup"] = i["markup"].clone(); }
    if !i["transport"].is_null() { o["transport"] = i["transport"].clone(); }
  }
  match t {
    "http" => { o["request"] = doc_http(&i["req"], fam, true); o["response"] = doc_http(&i["res"][0], fam, false); }
    "sync" => {
      let mut r = json!({}); doc_msg(&i["req"], &mut r, fam); o["request"] = r;
      o["response"] = Value::Array(i["res"].as_array().unwrap().iter().map(|p| { let mut r = json!({}); doc_msg(p, &mut r, fam); r }).collect());
    }
    _ => doc_msg(&i["req"], &mut o, fam)
  }
  o
}
pub fn to_doc(ais: &[Value], fam: Fam, consumer: &str, provider: &str) -> Value {
  let list: Vec<Value> = ais.iter().map(|i| doc_interaction(i, fam)).collect();
  let mut o = json!({"consumer": {"name": consumer}, "provider": {"name": provider}});
  o[if fam == Fam::Msg { "messages" } else { "interactions" }] = Value::Array(list);
  o["metadata"] = match fam { Fam::V2 => json!({"pactSpecification": {"version": "2.0.0"}}), Fam::V4 => json!({"pactSpecification": {"version": "4.0"}}), _ => json!({"pactSpecification": {"version": "3.0.0"}}) };
  o
}

// ---------------------------------------------------------------- models

fn s(v: &Value) -> String { v.as_str().unwrap_or("").to_string() }
fn os(v: Option<&Value>) -> Option<String> { v.and_then(|v| v.as_str()).map(|s| s.to_string()) }
fn us(v: &Value) -> usize { v.as_u64().unwrap() as usize }

pub fn json_to_generator(g: &Value) -> Generator {
  match g["type"].as_str().unwrap() {
    "RandomInt" => Generator::RandomInt(g["min"].as_i64().unwrap() as i32, g["max"].as_i64().unwrap() as i32),
    "Uuid" => Generator::Uuid(g.get("format").map(|f| match f.as_str().unwrap() { "simple" => UuidFormat::Simple, "lower-case-hyphenated" => UuidFormat::LowerCaseHyphenated, "upper-case-hyphenated" => UuidFormat::UpperCaseHyphenated, _ => UuidFormat::Urn })),
    "RandomDecimal" => Generator::RandomDecimal(us(&g["digits"]) as u16),
    "RandomHexadecimal" => Generator::RandomHexadecimal(us(&g["digits"]) as u16),
    "RandomString" => Generator::RandomString(us(&g["size"]) as u16),
    "Regex" => Generator::Regex(s(&g["regex"])),
    "Date" => Generator::Date(os(g.get("format")), os(g.get("expression"))),
    "Time" => Generator::Time(os(g.get("format")), os(g.get("expression"))),
    "DateTime" => Generator::DateTime(os(g.get("format")), os(g.get("expression"))),
    "RandomBoolean" => Generator::RandomBoolean,
    "ProviderState" => {
      use pact_models::expression_parser::DataType::*;
      Generator::ProviderStateGenerator(s(&g["expression"]), g.get("dataType").map(|d| match d.as_str().unwrap() { "STRING" => STRING, "INTEGER" => INTEGER, "DECIMAL" => DECIMAL, "FLOAT" => FLOAT, "BOOLEAN" => BOOLEAN, _ => RAW }))
    }
    _ => Generator::MockServerURL(s(&g["example"]), s(&g["regex"])),
  }
}
pub fn generator_to_json(g: &Generator) -> Value {
  let dt = |t: &str, f: &Option<String>, e: &Option<String>| { let mut v = json!({"type": t}); if let Some(f) = f { v["format"] = json!(f); } if let Some(e) = e { v["expression"] = json!(e); } v };
  match g {
    Generator::RandomInt(a, b) => json!({"type": "RandomInt", "min": a, "max": b}),
    Generator::Uuid(f) => { let mut v = json!({"type": "Uuid"}); if let Some(f) = f { v["format"] = json!(match f { UuidFormat::Simple => "simple", UuidFormat::LowerCaseHyphenated => "lower-case-hyphenated", UuidFormat::UpperCaseHyphenated => "upper-case-hyphenated", UuidFormat::Urn => "URN" }); } v }
    Generator::RandomDecimal(n) => json!({"type": "RandomDecimal", "digits": n}),
    Generator::RandomHexadecimal(n) => json!({"type": "RandomHexadecimal", "digits": n}),
    Generator::RandomString(n) => json!({"type": "RandomString", "size": n}),
    Generator::Regex(r) => json!({"type": "Regex", "regex": r}),
    Generator::Date(f, e) => dt("Date", f, e),
    Generator::Time(f, e) => dt("Time", f, e),
    Generator::DateTime(f, e) => dt("DateTime", f, e),
    Generator::RandomBoolean => json!({"type": "RandomBoolean"}),
    Generator::ProviderStateGenerator(e, d) => {
      use pact_models::expression_parser::DataType::*;
      let mut v = json!({"type": "ProviderState", "expression": e});
      if let Some(d) = d { v["dataType"] = json!(match d { STRING => "STRING", INTEGER => "INTEGER", DECIMAL => "DECIMAL", FLOAT => "FLOAT", BOOLEAN => "BOOLEAN", RAW => "RAW" }); }
      v
    }
    Generator::MockServerURL(e, r) => json!({"type": "MockServerURL", "example": e, "regex": r}),
    Generator::ArrayContains(v) => json!({"type": "ArrayContains", "n": v.len()}),
  }
}

pub fn json_to_rule(r: &Value) -> MatchingRule {
  let def = || MatchingRuleDefinition { value: os(r.get("value")).unwrap_or_default(), value_type: ValueType::Unknown,
    rules: r["rules"].as_array().unwrap().iter().map(|x| either_left(json_to_rule(x))).collect(), generator: r.get("generator").map(json_to_generator), expression: String::new() };
  match r["match"].as_str().unwrap() {
    "regex" => MatchingRule::Regex(s(&r["regex"])),
    "type" => match (r.get("min"), r.get("max")) { (None, None) => MatchingRule::Type, (Some(a), None) => MatchingRule::MinType(us(a)), (None, Some(b)) => MatchingRule::MaxType(us(b)), (Some(a), Some(b)) => MatchingRule::MinMaxType(us(a), us(b)) },
    "equality" => MatchingRule::Equality,
    "datetime" => MatchingRule::Timestamp(s(&r["format"])),
    "date" => MatchingRule::Date(s(&r["format"])),
    "time" => MatchingRule::Time(s(&r["format"])),
    "include" => MatchingRule::Include(s(&r["value"])),
    "number" => MatchingRule::Number, "integer" => MatchingRule::Integer, "decimal" => MatchingRule::Decimal,
    "null" => MatchingRule::Null, "boolean" => MatchingRule::Boolean,
    "contentType" => MatchingRule::ContentType(s(&r["value"])),
    "values" => MatchingRule::Values, "notEmpty" => MatchingRule::NotEmpty, "semver" => MatchingRule::Semver,
    "statusCode" => MatchingRule::StatusCode(match &r["status"] {
      Value::Array(a) => HttpStatus::StatusCodes(a.iter().map(|x| us(x) as u16).collect()),
      v => match v.as_str().unwrap() { "info" => HttpStatus::Information, "success" => HttpStatus::Success, "redirect" => HttpStatus::Redirect, "clientError" => HttpStatus::ClientError, "serverError" => HttpStatus::ServerError, "nonError" => HttpStatus::NonError, _ => HttpStatus::Error } }),
    "arrayContains" => MatchingRule::ArrayContains(r["variants"].as_array().unwrap().iter().map(|v| {
      let cat = category(Category::BODY, &v["rules"]);
      let gens: HashMap<DocPath, Generator> = v.get("generators").map(|g| g.as_object().unwrap().iter().map(|(k, g)| (DocPath::new(k).unwrap(), json_to_generator(g))).collect()).unwrap_or_default();
      (us(&v["index"]), cat, gens)
    }).collect()),
    "eachKey" => MatchingRule::EachKey(def()),
    _ => MatchingRule::EachValue(def()),
  }
}
fn either_left<R>(l: MatchingRule) -> itertools::Either<MatchingRule, R> { itertools::Either::Left(l) }
pub fn rule_to_json(r: &MatchingRule) -> Value {
  let def = |name: &str, d: &MatchingRuleDefinition| {
    let rules: Vec<Value> = d.rules.iter().map(|x| match x { itertools::Either::Left(r) => rule_to_json(r), itertools::Either::Right(m) => json!({"ref": m.name}) }).collect();
    let mut o = json!({"match": name, "rules": rules});
    if !d.value.is_empty() { o["value"] = json!(d.value); }
    if let Some(g) = &d.generator { o["generator"] = generator_to_json(g); }
    o
  };
  match r {
    MatchingRule::Equality => json!({"match": "equality"}),
    MatchingRule::Regex(x) => json!({"match": "regex", "regex": x}),
    MatchingRule::Type => json!({"match": "type"}),
    MatchingRule::MinType(a) => json!({"match": "type", "min": a}),
    MatchingRule::MaxType(b) => json!({"match": "type", "max": b}),
    MatchingRule::MinMaxType(a, b) => json!({"match": "type", "min": a, "max": b}),
    MatchingRule::Timestamp(f) => json!({"match": "datetime", "format": f}),
    MatchingRule::Time(f) => json!({"match": "time", "format": f}),
    MatchingRule::Date(f) => json!({"match": "date", "format": f}),
    MatchingRule::Include(v) => json!({"match": "include", "value": v}),
    MatchingRule::Number => json!({"match": "number"}),
    MatchingRule::Integer => json!({"match": "integer"}),
    MatchingRule::Decimal => json!({"match": "decimal"}),
    MatchingRule::Null => json!({"match": "null"}),
    MatchingRule::ContentType(v) => json!({"match": "contentType", "value": v}),
    MatchingRule::Values => json!({"match": "values"}),
    MatchingRule::Boolean => json!({"match": "boolean"}),
    MatchingRule::NotEmpty => json!({"match": "notEmpty"}),
    MatchingRule::Semver => json!({"match": "semver"}),
    MatchingRule::StatusCode(st) => json!({"match": "statusCode", "status": match st {
      HttpStatus::Information => json!("info"), HttpStatus::Success => json!("success"), HttpStatus::Redirect => json!("redirect"), HttpStatus::ClientError => json!("clientError"),
      HttpStatus::ServerError => json!("serverError"), HttpStatus::NonError => json!("nonError"), HttpStatus::Error => json!("error"), HttpStatus::StatusCodes(c) => json!(c) }}),
    MatchingRule::ArrayContains(vs) => json!({"match": "arrayContains", "variants": vs.iter().map(|(i, c, g)| {
      let mut o = json!({"index": i, "rules": canon_category(c)});
      if !g.is_empty() { o["generators"] = Value::Object(g.iter().map(|(k, g)| (path_str(k), generator_to_json(g))).collect()); }
      o
    }).collect::<Vec<_>>()}),
    MatchingRule::EachKey(d) => def("eachKey", d),
    MatchingRule::EachValue(d) => def("eachValue", d),
  }
}
fn path_str(p: &DocPath) -> String { String::from(p) }
fn key_path(cat: &Category, k: &str) -> DocPath {
  match cat {
    Category::HEADER | Category::QUERY => { let mut p = DocPath::root(); p.push_field(k); p }
    Category::PATH => DocPath::empty(),
    _ => DocPath::new(k).unwrap()
  }
}
pub fn cat_of(c: &str) -> Category { match c { "body" => Category::BODY, "header" => Category::HEADER, "query" => Category::QUERY, "path" => Category::PATH, "method" => Category::METHOD, "status" => Category::STATUS, "metadata" => Category::METADATA, _ => Category::CONTENTS } }
pub fn category(cat: Category, ps: &Value) -> MatchingRuleCategory {
  let mut c = MatchingRuleCategory { name: cat.clone(), rules: HashMap::new() };
  for (p, l) in ps.as_object().unwrap() {
    c.rules.insert(key_path(&cat, p), RuleList { rules: l["matchers"].as_array().unwrap().iter().map(json_to_rule).collect(),
      rule_logic: if l["combine"] == "OR" { RuleLogic::Or } else { RuleLogic::And }, cascaded: false });
  }
  c
}
pub fn model_rules(r: &Value) -> MatchingRules {
  MatchingRules { rules: r.as_object().unwrap().iter().map(|(c, ps)| (cat_of(c), category(cat_of(c), ps))).collect() }
}
pub fn model_gens(g: &Value) -> Generators {
  let mut out = Generators::default();
  for (c, ps) in g.as_object().unwrap() {
    let cat = match c.as_str() { "body" => GeneratorCategory::BODY, "header" => GeneratorCategory::HEADER, "query" => GeneratorCategory::QUERY, "path" => GeneratorCategory::PATH, "method" => GeneratorCategory::METHOD, "status" => GeneratorCategory::STATUS, _ => GeneratorCategory::METADATA };
    let m = ps.as_object().unwrap().iter().map(|(k, g)| {
      let p = match cat { GeneratorCategory::HEADER | GeneratorCategory::QUERY => { let mut p = DocPath::root(); p.push_field(k); p }
        GeneratorCategory::PATH | GeneratorCategory::METHOD | GeneratorCategory::STATUS => DocPath::empty(), _ => DocPath::new(k).unwrap() };
      (p, json_to_generator(g))
    }).collect();
    out.categories.insert(cat, m);
  }
  out
}
pub fn model_body(b: &Value, fam: Fam) -> OptionalBody {
  match b["s"].as_str().unwrap() {
    "missing" => OptionalBody::Missing, "empty" => OptionalBody::Empty, "null" => OptionalBody::Null,
    _ => OptionalBody::Present(body_bytes(b).into(), b.get("ct").and_then(|c| c.as_str()).map(|c| ContentType::parse(c).unwrap()),
      if fam == Fam::V4 { b.get("hint").map(|h| match h.as_str().unwrap() { "BINARY" => ContentTypeHint::BINARY, "TEXT" => ContentTypeHint::TEXT, _ => ContentTypeHint::DEFAULT }) } else { None })
  }
}
fn model_states(i: &Value) -> Vec<ProviderState> {
  i["states"].as_array().unwrap().iter().map(|x| ProviderState { name: s(&x["name"]), params: x["params"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect() }).collect()
}
fn model_headers(h: &Value) -> Option<HashMap<String, Vec<String>>> { h.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(s).collect())).collect()) }
fn model_query(q: &Value) -> Option<HashMap<String, Vec<Option<String>>>> { q.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().map(|s| s.to_string())).collect())).collect()) }
pub fn model_http_req(p: &Value) -> HttpRequest {
  HttpRequest { method: s(&p["method"]), path: s(&p["path"]), query: model_query(&p["query"]), headers: model_headers(&p["headers"]), body: model_body(&p["body"], Fam::V4), matching_rules: model_rules(&p["rules"]), generators: model_gens(&p["gens"]) }
}
pub fn model_http_res(p: &Value) -> HttpResponse {
  HttpResponse { status: us(&p["status"]) as u16, headers: model_headers(&p["headers"]), body: model_body(&p["body"], Fam::V4), matching_rules: model_rules(&p["rules"]), generators: model_gens(&p["gens"]) }
}
pub fn model_contents(p: &Value) -> MessageContents {
  MessageContents { contents: model_body(&p["body"], Fam::V4), metadata: p["meta"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect(), matching_rules: model_rules(&p["rules"]), generators: model_gens(&p["gens"]) }
}
fn model_plugin(i: &Value) -> HashMap<String, HashMap<String, Value>> { i["plugin"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect())).collect() }
fn model_markup(i: &Value) -> InteractionMarkup { InteractionMarkup { markup: s(&i["markup"]["markup"]), markup_type: s(&i["markup"]["markupType"]) } }
fn model_comments(i: &Value) -> HashMap<String, Value> { i["comments"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
pub fn model_v3(i: &Value) -> RequestResponseInteraction {
  let (q, r) = (&i["req"], &i["res"][0]);
  RequestResponseInteraction { id: None, description: s(&i["desc"]), provider_states: model_states(i),
    request: Request { method: s(&q["method"]), path: s(&q["path"]), query: model_query(&q["query"]), headers: model_headers(&q["headers"]), body: model_body(&q["body"], Fam::V3), matching_rules: model_rules(&q["rules"]), generators: model_gens(&q["gens"]) },
    response: Response { status: us(&r["status"]) as u16, headers: model_headers(&r["headers"]), body: model_body(&r["body"], Fam::V3), matching_rules: model_rules(&r["rules"]), generators: model_gens(&r["gens"]) } }
}
pub fn model_msg(i: &Value) -> Message {
  let p = &i["req"];
  Message { id: None, description: s(&i["desc"]), provider_states: model_states(i), contents: model_body(&p["body"], Fam::Msg),
    metadata: p["meta"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect(), matching_rules: model_rules(&p["rules"]), generators: model_gens(&p["gens"]) }
}
pub fn model_v4(i: &Value) -> Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe> {
  let (id, key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport) =
    (None, os(i.get("key")), s(&i["desc"]), model_states(i), model_comments(i), i["pending"].as_bool().unwrap(), model_plugin(i), model_markup(i), os(i.get("transport")));
  match i["t"].as_str().unwrap() {
    "http" => Box::new(SynchronousHttp { id, key, description, provider_states, request: model_http_req(&i["req"]), response: model_http_res(&i["res"][0]), comments, pending, plugin_config, interaction_markup, transport }),
    "async" => Box::new(AsynchronousMessage { id, key, description, provider_states, contents: model_contents(&i["req"]), comments, pending, plugin_config, interaction_markup, transport }),
    _ => Box::new(SynchronousMessage { id, key, description, provider_states, comments, request: model_contents(&i["req"]), response: i["res"].as_array().unwrap().iter().map(model_contents).collect(), pending, plugin_config, interaction_markup, transport }),
  }
}
pub fn to_model(ais: &[Value], fam: Fam, consumer: &str, provider: &str) -> Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe> {
  let (consumer, provider) = (Consumer { name: consumer.into() }, Provider { name: provider.into() });
  match fam {
    Fam::V2 | Fam::V3 => Box::new(RequestResponsePact { consumer, provider, interactions: ais.iter().map(model_v3).collect(), metadata: Default::default(), specification_version: fam.spec() }),
    Fam::Msg => Box::new(MessagePact { consumer, provider, messages: ais.iter().map(model_msg).collect(), metadata: Default::default(), specification_version: fam.spec() }),
    Fam::V4 => Box::new(V4Pact { consumer, provider, interactions: ais.iter().map(model_v4).collect(), metadata: Default::default(), plugin_data: vec![] }),
  }
}

// ---------------------------------------------------------------- projection of models

fn canon_path(cat: &str, p: &DocPath) -> String {
  match cat {
    "path" | "method" | "status" => { let x = path_str(p); if x.is_empty() { "$".into() } else { x } }
    "header" | "query" => p.first_field().map(|f| f.to_string()).unwrap_or_else(|| path_str(p)),
    _ => path_str(p)
  }
}
fn cat_name(c: &Category) -> &'static str { match c { Category::METHOD => "method", Category::PATH => "path", Category::HEADER => "header", Category::QUERY => "query", Category::BODY => "body", Category::STATUS => "status", Category::CONTENTS => "contents", Category::METADATA => "metadata" } }
fn canon_category(c: &MatchingRuleCategory) -> Value {
  let n = cat_name(&c.name);
  Value::Object(c.rules.iter().map(|(p, l)| (canon_path(n, p), json!({"combine": if l.rule_logic == RuleLogic::Or { "OR" } else { "AND" }, "matchers": l.rules.iter().map(rule_to_json).collect::<Vec<_>>()}))).collect())
}
pub fn canon_rules(r: &MatchingRules) -> Value { Value::Object(r.rules.iter().filter(|(_, c)| !c.rules.is_empty()).map(|(k, c)| (cat_name(k).to_string(), canon_category(c))).collect()) }
pub fn canon_gens(g: &Generators) -> Value {
  Value::Object(g.categories.iter().filter(|(_, m)| !m.is_empty()).map(|(c, m)| {
    let n = match c { GeneratorCategory::METHOD => "method", GeneratorCategory::PATH => "path", GeneratorCategory::HEADER => "header", GeneratorCategory::QUERY => "query", GeneratorCategory::BODY => "body", GeneratorCategory::STATUS => "status", GeneratorCategory::METADATA => "metadata" };
    (n.to_string(), Value::Object(m.iter().map(|(p, g)| (canon_path(n, p), generator_to_json(g))).collect()))
  }).collect())
}
pub fn canon_body(b: &OptionalBody, fam: Fam) -> Value {
  match b {
    OptionalBody::Missing => json!({"s": "missing"}), OptionalBody::Empty => json!({"s": "empty"}), OptionalBody::Null => json!({"s": "null"}),
    OptionalBody::Present(bytes, ct, hint) => {
      let mut o = norm_bytes(bytes);
      o["s"] = json!("present");
      if fam == Fam::V4 {
        if let Some(ct) = ct { o["ct"] = json!(ct_norm(&ct.to_string())); }
        if let Some(h) = hint { o["hint"] = json!(match h { ContentTypeHint::BINARY => "BINARY", ContentTypeHint::TEXT => "TEXT", ContentTypeHint::DEFAULT => "DEFAULT" }); }
      }
      o
    }
  }
}
fn ct_norm(c: &str) -> String { c.replace(' ', "").to_lowercase() }
/// What of an abstract interaction the given version of the format can carry.
pub fn project(i: &Value, fam: Fam) -> Value {
  let mut i = i.clone();
  if fam == Fam::V2 { if let Some(l) = i["states"].as_array_mut() { l.truncate(1); for s in l { s["params"] = json!({}); } } }
  fn part(p: &mut Value, fam: Fam) {
    if let Some(b) = p.get_mut("body").and_then(|b| b.as_object_mut()) {
      if fam != Fam::V4 { b.remove("ct"); b.remove("hint"); }
      else if let Some(ct) = b.get("ct").and_then(|c| c.as_str()).map(ct_norm) { b.insert("ct".into(), json!(ct)); }
    }
  }
  if let Some(p) = i.get_mut("req") { part(p, fam); }
  if let Some(a) = i.get_mut("res").and_then(|r| r.as_array_mut()) { for p in a { part(p, fam); } }
  i
}
fn canon_states(st: &[ProviderState]) -> Value { Value::Array(st.iter().map(|s| json!({"name": s.name, "params": s.params.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Map<_, _>>()})).collect()) }
fn canon_headers(h: &Option<HashMap<String, Vec<String>>>) -> Value { match h { None => Value::Null, Some(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect()) } }
fn canon_query(h: &Option<HashMap<String, Vec<Option<String>>>>) -> Value { match h { None => Value::Null, Some(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect()) } }
pub fn canon_http_req(r: &HttpRequest) -> Value {
  json!({"method": r.method, "path": r.path, "query": canon_query(&r.query), "headers": canon_headers(&r.headers), "body": canon_body(&r.body, Fam::V4), "rules": canon_rules(&r.matching_rules), "gens": canon_gens(&r.generators)})
}
pub fn canon_http_res(r: &HttpResponse) -> Value {
  json!({"status": r.status, "headers": canon_headers(&r.headers), "body": canon_body(&r.body, Fam::V4), "rules": canon_rules(&r.matching_rules), "gens": canon_gens(&r.generators)})
}
pub fn canon_contents(m: &MessageContents) -> Value {
  json!({"meta": m.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Map<_, _>>(), "body": canon_body(&m.contents, Fam::V4), "rules": canon_rules(&m.matching_rules), "gens": canon_gens(&m.generators)})
}
pub fn canon_v3(i: &RequestResponseInteraction) -> Value {
  let (q, r) = (&i.request, &i.response);
  json!({"t": "http", "desc": i.description, "states": canon_states(&i.provider_states),
    "req": {"method": q.method, "path": q.path, "query": canon_query(&q.query), "headers": canon_headers(&q.headers), "body": canon_body(&q.body, Fam::V3), "rules": canon_rules(&q.matching_rules), "gens": canon_gens(&q.generators)},
    "res": [{"status": r.status, "headers": canon_headers(&r.headers), "body": canon_body(&r.body, Fam::V3), "rules": canon_rules(&r.matching_rules), "gens": canon_gens(&r.generators)}]})
}
pub fn canon_msg(m: &Message) -> Value {
  json!({"t": "msg", "desc": m.description, "states": canon_states(&m.provider_states),
    "req": {"meta": m.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Map<_, _>>(), "body": canon_body(&m.contents, Fam::Msg), "rules": canon_rules(&m.matching_rules), "gens": canon_gens(&m.generators)}})
}
fn canon_common(key: &Option<String>, d: &str, st: &[ProviderState], c: &HashMap<String, Value>, pending: bool, pc: &HashMap<String, HashMap<String, Value>>, m: &InteractionMarkup, tr: &Option<String>) -> Value {
  json!({"key": key, "desc": d, "states": canon_states(st), "comments": c.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Map<_, _>>(), "pending": pending,
    "plugin": pc.iter().map(|(k, v)| (k.clone(), Value::Object(v.iter().map(|(k, v)| (k.clone(), v.clone())).collect()))).collect::<Map<_, _>>(),
    "markup": {"markup": m.markup, "markupType": m.markup_type}, "transport": tr})
}
pub fn canon_v4(i: &(dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe)) -> Value {
  if let Some(h) = i.as_v4_http() {
    let mut o = canon_common(&h.key, &h.description, &h.provider_states, &h.comments, h.pending, &h.plugin_config, &h.interaction_markup, &h.transport);
    o["t"] = json!("http"); o["req"] = canon_http_req(&h.request); o["res"] = json!([canon_http_res(&h.response)]); o
  } else if let Some(m) = i.as_v4_sync_message() {
    let mut o = canon_common(&m.key, &m.description, &m.provider_states, &m.comments, m.pending, &m.plugin_config, &m.interaction_markup, &m.transport);
    o["t"] = json!("sync"); o["req"] = canon_contents(&m.request); o["res"] = Value::Array(m.response.iter().map(canon_contents).collect()); o
  } else if let Some(m) = i.as_v4_async_message() {
    let mut o = canon_common(&m.key, &m.description, &m.provider_states, &m.comments, m.pending, &m.plugin_config, &m.interaction_markup, &m.transport);
    o["t"] = json!("async"); o["req"] = canon_contents(&m.contents); o
  } else { json!({"t": "unknown"}) }
}
/// The canonical interactions of a loaded pact, in their stored order.
pub fn canon_pact(p: &dyn Pact) -> Vec<Value> {
  if p.is_v4() {
    p.interactions().iter().map(|i| i.as_v4().map(|v| canon_v4(v.as_ref())).unwrap_or(json!({"t": "unknown"}))).collect()
  } else {
    p.interactions().iter().map(|i| if let Some(r) = i.as_request_response() { canon_v3(&r) } else if let Some(m) = i.as_message() { canon_msg(&m) } else { json!({"t": "unknown"}) }).collect()
  }
}

/// First difference of two values as (generalised place, detail).
pub fn diff(a: &Value, b: &Value, at: &str) -> Option<(String, String)> {
  match (a, b) {
    (Value::Object(x), Value::Object(y)) => {
      for (k, v) in x {
        match y.get(k) { Some(w) => if let Some(d) = diff(v, w, &format!("{}.{}", at, k)) { return Some(d) }, None => return Some((format!("{}.{}", at, k), format!("{} is missing (was {})", k, v))) }
      }
      for (k, w) in y { if !x.contains_key(k) { return Some((format!("{}.{}", at, k), format!("{} appeared ({})", k, w))) } }
      None
    }
    (Value::Array(x), Value::Array(y)) if x.len() == y.len() => { for (i, (v, w)) in x.iter().zip(y).enumerate() { if let Some(d) = diff(v, w, &format!("{}[{}]", at, i)) { return Some(d) } } None }
    _ if a == b => None,
    _ => Some((at.to_string(), format!("{} became {}", a, b)))
  }
}
/// The place of a difference, without positions and user data, to identify a class of violation.
pub fn place(at: &str) -> String {
  let mut out: Vec<&str> = vec![];
  let cleaned: String = { let mut o = String::new(); let mut depth = 0; for c in at.chars() { match c { '[' => depth += 1, ']' => depth -= 1, c if depth == 0 => o.push(c), _ => {} } } o };
  for seg in cleaned.split('.') {
    if seg.is_empty() { continue }
    out.push(seg);
    let s: String = out.join(".");
    if ["req.rules", "res.rules", "req.gens", "res.gens"].iter().any(|p| s.ends_with(p)) { continue }
    if s.contains("rules.") || s.contains("gens.") || s.ends_with("body") || s.ends_with("headers") || s.ends_with("query") || s.ends_with("states") || s.ends_with("comments") || s.ends_with("plugin") || s.ends_with("meta") { break }
  }
  out.join(".")
}
