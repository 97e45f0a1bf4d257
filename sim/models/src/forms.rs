//! Equivalent ways to write a pact document: what other tools and older versions leave in a file.
//! Every change keeps the meaning of the document.
use pact_models::content_types::ContentType;
use serde_json::{json, Map, Value};
use simcore::choices::Choices;

use crate::gen::base64_lite::{dec, enc};
use crate::gen::{enc_q, Fam};

fn drop_if(ch: &mut Choices, o: &mut Map<String, Value>, k: &str, v: &Value) { if o.get(k) == Some(v) && ch.pct(40) { o.remove(k); } }

fn one_rule(ch: &mut Choices, r: &mut Value, used: &mut Vec<&'static str>) {
  let Some(m) = r.as_object_mut() else { return };
  let Some(kind) = m.get("match").and_then(|k| k.as_str()).map(|s| s.to_string()) else { return };
  if let Some(Value::Array(rules)) = m.get_mut("rules") { for x in rules { one_rule(ch, x, used); } }
  if let Some(Value::Array(vs)) = m.get_mut("variants") { for v in vs { if let Some(Value::Object(ps)) = v.get_mut("rules") { for (_, l) in ps.iter_mut() { rule_list(ch, l, used); } } } }
  if !ch.pct(35) { return }
  let (min, max) = (m.get("min").cloned(), m.get("max").cloned());
  match (kind.as_str(), min, max) {
    ("regex", _, _) => { m.remove("match"); used.push("rule without match"); }
    ("type", Some(v), None) => match ch.below(3) { 0 => { m.remove("match"); used.push("rule without match"); } 1 => { m["match"] = json!("min"); used.push("min"); } _ => { m["match"] = json!("min-type"); m["min"] = v; used.push("min-type"); } },
    ("type", None, Some(v)) => match ch.below(3) { 0 => { m.remove("match"); used.push("rule without match"); } 1 => { m["match"] = json!("max"); used.push("max"); } _ => { m["match"] = json!("max-type"); m["max"] = v; used.push("max-type"); } },
    ("datetime", _, _) => { let f = m.remove("format").unwrap(); match ch.below(3) { 0 => { m.remove("match"); m.insert("timestamp".into(), f); } 1 => { m["match"] = json!("timestamp"); m.insert("timestamp".into(), f); } _ => { m["match"] = json!("timestamp"); m.insert("format".into(), f); } } used.push("timestamp"); }
    (k @ ("date" | "time"), _, _) => { let f = m.remove("format").unwrap(); if ch.pct(50) { m.remove("match"); } m.insert(k.to_string(), f); used.push("date or time attribute"); }
    ("decimal", _, _) => { m["match"] = json!("real"); used.push("real"); }
    ("contentType", _, _) => { m["match"] = json!("content-type"); used.push("hyphenated rule"); }
    ("arrayContains", _, _) => { m["match"] = json!("array-contains"); used.push("hyphenated rule"); }
    ("statusCode", _, _) => { if m.get("status") == Some(&json!("success")) && ch.pct(50) { m.remove("status"); used.push("status class by default"); } else { m["match"] = json!("status-code"); used.push("hyphenated rule"); } }
    ("notEmpty", _, _) => { m["match"] = json!("not-empty"); used.push("hyphenated rule"); }
    ("eachKey", _, _) => { m["match"] = json!("each-key"); used.push("hyphenated rule"); }
    ("eachValue", _, _) => { m["match"] = json!("each-value"); used.push("hyphenated rule"); }
    _ => {}
  }
}
fn rule_list(ch: &mut Choices, l: &mut Value, used: &mut Vec<&'static str>) {
  let Some(m) = l.as_object_mut() else { return };
  if let Some(Value::Array(ms)) = m.get_mut("matchers") { for r in ms { one_rule(ch, r, used); } } else { one_rule(ch, l, used); return }
  if m.get("combine") == Some(&json!("AND")) { if ch.pct(40) { m.remove("combine"); used.push("combine by default"); } else if ch.pct(20) { m["combine"] = json!("and"); } }
  else if ch.pct(20) { m["combine"] = json!("or"); }
}
fn rules(ch: &mut Choices, r: &mut Value, fam: Fam, used: &mut Vec<&'static str>) {
  let Some(m) = r.as_object_mut() else { return };
  if fam == Fam::V2 {
    let old = std::mem::take(m);
    for (k, mut v) in old {
      one_rule(ch, &mut v, used);
      let mut key = k.clone();
      if let Some(name) = k.strip_prefix("$.headers.").or_else(|| k.strip_prefix("$.query.")) { if ch.pct(40) { key = format!("$.{}['{}']", if k.starts_with("$.h") { "headers" } else { "query" }, name); used.push("bracketed name"); } }
      else if k == "$.path" && ch.pct(30) { key = "$['path']".into(); used.push("bracketed name"); }
      m.insert(key, v);
    }
    return
  }
  for (c, ps) in m.iter_mut() {
    if c == "path" || ps.get("matchers").is_some() { rule_list(ch, ps, used); continue }
    if let Some(ps) = ps.as_object_mut() { for (_, l) in ps.iter_mut() { rule_list(ch, l, used); } }
    // a category with rules for the whole value only
    if ["status", "method"].contains(&c.as_str()) && ps.as_object().map(|m| m.len() == 1 && m.contains_key("$")).unwrap_or(false) && ps["$"].get("matchers").is_some() && ch.pct(50) { *ps = ps["$"].clone(); used.push("category without paths"); }
  }
}
/// The same query written by a tool that only escapes what it must.
fn lenient(ch: &mut Choices, q: &str) -> String {
  q.split('&').map(|kv| {
    let (k, v) = match kv.split_once('=') { Some((k, v)) => (k, Some(v)), None => (kv, None) };
    let mut plain = |t: &str, value: bool| -> String {
      let b = t.as_bytes(); let mut out = String::new(); let mut i = 0;
      while i < b.len() {
        if b[i] != b'%' { out.push(b[i] as char); i += 1; continue }
        let x = u8::from_str_radix(&t[i + 1..i + 3], 16).unwrap();
        if x == b' ' && ch.pct(60) { out.push('+') }
        else if (b"/?:@,;!'()*$[]".contains(&x) || value && x == b'=') && ch.pct(60) { out.push(x as char) }
        else if ch.pct(30) { out.push_str(&t[i..i + 3].to_lowercase()) }
        else { out.push_str(&t[i..i + 3]) }
        i += 3;
      }
      out
    };
    match v { Some(v) => format!("{}={}", plain(k, false), plain(v, true)), None => plain(k, false) }
  }).collect::<Vec<_>>().join("&")
}
fn http(ch: &mut Choices, p: &mut Value, fam: Fam, req: bool, used: &mut Vec<&'static str>) {
  let is_json = p["headers"].as_object().and_then(|h| h.iter().find(|(k, _)| k.to_lowercase() == "content-type")).map(|(_, v)| match v { Value::Array(a) => a[0].clone(), v => v.clone() })
    .and_then(|v| v.as_str().and_then(|v| ContentType::parse(v).ok())).map(|c| c.is_json()).unwrap_or(false);
  let Some(m) = p.as_object_mut() else { return };
  if let Some(r) = m.get_mut("matchingRules") { rules(ch, r, fam, used); }
  if fam != Fam::V4 && ch.pct(20) { if let Some(r) = m.remove("matchingRules") { m.insert(if req { "requestMatchingRules" } else { "responseMatchingRules" }.into(), r); used.push("deprecated rules attribute"); } }
  if req {
    drop_if(ch, m, "method", &json!("GET")); drop_if(ch, m, "path", &json!("/"));
    if let Some(Value::String(s)) = m.get_mut("method") { if ch.pct(30) { *s = s.to_lowercase(); used.push("lower case method"); } }
    if let Some(Value::String(q)) = m.get("query").cloned() { if ch.pct(40) { let l = lenient(ch, &q); m.insert("query".into(), json!(l)); used.push("query text with plain characters"); } }
    if let Some(Value::Object(q)) = m.get("query").cloned() {
      if ch.pct(25) {
        let s = q.iter().flat_map(|(k, vs)| vs.as_array().unwrap().iter().map(|v| match v.as_str() { Some(s) => format!("{}={}", enc_q(k), enc_q(s)), None => enc_q(k) }).collect::<Vec<_>>()).collect::<Vec<_>>().join("&");
        m.insert("query".into(), json!(lenient(ch, &s))); used.push("query as a text");
      } else if let Some(Value::Object(q)) = m.get_mut("query") { for (_, v) in q.iter_mut() { if let Value::Array(a) = &v { if a.len() == 1 && a[0].is_string() && ch.pct(50) { *v = a[0].clone(); used.push("single query value"); } } } }
    }
  } else { drop_if(ch, m, "status", &json!(200)); }
  if let Some(Value::Object(h)) = m.get_mut("headers") {
    for (k, v) in h.iter_mut() {
      match v.clone() {
        Value::String(s) if ch.pct(30) => { *v = if !SINGLE.contains(&k.to_lowercase().as_str()) { Value::Array(s.split(", ").map(|x| json!(x)).collect()) } else { json!([s]) }; used.push("header as a list"); }
        Value::Array(a) if a.len() == 1 && !a[0].as_str().unwrap_or(",").contains(',') && ch.pct(30) => { *v = a[0].clone(); used.push("header as a text"); }
        _ => {}
      }
    }
  }
  if fam == Fam::V4 {
    let ct = m.get("headers").and_then(|h| h.as_object()).and_then(|h| h.iter().find(|(k, _)| k.to_lowercase() == "content-type")).map(|(_, v)| match v { Value::Array(a) => a[0].clone(), v => v.clone() });
    if let Some(b) = m.get_mut("body") { v4_body(ch, b, used); elsewhere(ch, b, ct, used); }
  }
  else if is_json { if let Some(b) = m.get_mut("body") { if b.is_object() && ch.pct(30) { *b = json!(if ch.pct(50) { b.to_string() } else { serde_json::to_string_pretty(b).unwrap() }); used.push("JSON body as a text"); } } }
}
fn v4_body(ch: &mut Choices, b: &mut Value, used: &mut Vec<&'static str>) {
  let ct = b.get("contentType").and_then(|c| c.as_str()).and_then(|c| ContentType::parse(c).ok());
  let Some(m) = b.as_object_mut() else { return };
  if m.get("encoded") == Some(&json!("base64")) { if ch.pct(30) { m["encoded"] = json!("BASE64"); used.push("BASE64"); } return }
  if m.get("encoded") != Some(&json!(false)) { return }
  let json_body = ct.map(|c| c.is_json()).unwrap_or(false);
  match ch.below(8) {
    0 => { m.remove("encoded"); used.push("not encoded by default"); }
    1 if json_body => { let t = m["content"].to_string(); m["content"] = json!(t); m["encoded"] = json!("JSON"); used.push("encoded JSON"); }
    2 => { let t = if json_body { m["content"].to_string() } else { m["content"].as_str().unwrap().to_string() }; debug_assert_eq!(dec(&enc(t.as_bytes())), t.as_bytes()); m["content"] = json!(enc(t.as_bytes())); m["encoded"] = json!("base64"); used.push("text as base64"); }
    _ => {}
  }
}
fn message(ch: &mut Choices, p: &mut Value, fam: Fam, used: &mut Vec<&'static str>) {
  let Some(m) = p.as_object_mut() else { return };
  if let Some(r) = m.get_mut("matchingRules") { rules(ch, r, fam, used); }
  if fam == Fam::Msg { if ch.pct(25) { if let Some(v) = m.remove("metadata") { m.insert("metaData".into(), v); used.push("metaData"); } } }
  else { let ct = m.get("metadata").and_then(|h| h.get("contentType")).cloned(); if let Some(b) = m.get_mut("contents") { v4_body(ch, b, used); elsewhere(ch, b, ct, used); } }
}
/// The content type of a body does not have to be repeated when the headers or the metadata tell it.
fn elsewhere(ch: &mut Choices, b: &mut Value, told: Option<Value>, used: &mut Vec<&'static str>) {
  if let Some(m) = b.as_object_mut() { if told.is_some() && m.get("contentType") == told.as_ref() && ch.pct(40) { m.remove("contentType"); used.push("content type told by the headers or metadata"); } }
}

/// Rewrites the document; gives the names of the forms used.
/// The headers that are one value, commas and all.
const SINGLE: &[&str] = &["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];
pub fn restyle(ch: &mut Choices, doc: &mut Value, fam: Fam) -> Vec<&'static str> {
  let mut used = vec![];
  if let Some(list) = doc.get_mut(if fam == Fam::Msg { "messages" } else { "interactions" }).and_then(|l| l.as_array_mut()) {
    for i in list {
      let t = i.get("type").and_then(|t| t.as_str()).unwrap_or("").to_string();
      if let Some(m) = i.as_object_mut() {
        if let Some(Value::Array(st)) = m.get("providerStates").cloned() {
          if st.len() == 1 && st[0].get("params").is_none() && ch.pct(50) { m.remove("providerStates"); m.insert(if ch.pct(50) { "providerState" } else { "provider_state" }.into(), st[0]["name"].clone()); used.push("single provider state"); }
        } else if let Some(s) = m.get("providerState").cloned() {
          if ch.pct(30) { m.remove("providerState"); if ch.pct(50) { m.insert("provider_state".into(), s); } else { m.insert("providerStates".into(), json!([{"name": s, "params": {}}])); } used.push("other provider state attribute"); }
        } else if ch.pct(20) { match ch.below(3) { 0 => m.insert("providerStates".into(), json!([])), 1 => m.insert("providerState".into(), Value::Null), _ => m.insert("providerState".into(), json!("")) }; used.push("no provider state"); }
        drop_if(ch, m, "pending", &json!(false));
      }
      match (fam, t.as_str()) {
        (Fam::V2 | Fam::V3, _) | (_, "Synchronous/HTTP") => { http(ch, &mut i["request"], fam, true, &mut used); http(ch, &mut i["response"], fam, false, &mut used); }
        (Fam::V4, "Synchronous/Messages") => { message(ch, &mut i["request"], fam, &mut used); if let Some(a) = i["response"].as_array_mut() { for r in a { message(ch, r, fam, &mut used); } } }
        _ => message(ch, i, fam, &mut used),
      }
    }
  }
  if let Some(md) = doc.get_mut("metadata").and_then(|m| m.as_object_mut()) {
    if ch.pct(30) { if let Some(v) = md.remove("pactSpecification") { md.insert("pact-specification".into(), v); used.push("pact-specification"); } }
    else if ch.pct(20) { let v = match fam { Fam::V2 => "2", Fam::V4 => *ch.pick(&["4", "4.0.0"]), _ => *ch.pick(&["3", "3.0"]) }; md["pactSpecification"]["version"] = json!(v); used.push("short version"); }
    else if ch.pct(20) && matches!(fam, Fam::V3 | Fam::Msg) { md.remove("pactSpecification"); used.push("no version"); }
  }
  used.sort(); used.dedup();
  used
}
