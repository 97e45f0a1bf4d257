//! C20: pacts keep what the versions have in common when they are upgraded and downgraded.
use std::path::Path;
use std::collections::HashMap;

use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::http_parts::HttpPart;
use pact_models::interaction::Interaction;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{read_pact, write_pact, Pact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::V4InteractionType;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::gen::*;
use crate::keep::{compare, load};
use crate::procs::Host;

const PATH: &str = "/sim/pacts/c-p.json";
const ONLY_V4: &[(&str, fn() -> Value)] = &[("key", || Value::Null), ("comments", || json!({})), ("pending", || json!(false)), ("plugin", || json!({})), ("markup", || json!({"markup": "", "markupType": ""})), ("transport", || Value::Null)];

/// What an interaction is once it is converted.
fn converted(a: &Value, to: Fam) -> Value {
  let mut a = a.clone();
  let o = a.as_object_mut().unwrap();
  if to == Fam::V4 {
    for (k, v) in ONLY_V4 { if !o.contains_key(*k) { o.insert(k.to_string(), v()); } }
    if o["t"] == "msg" { o.insert("t".into(), json!("async")); }
  } else {
    for (k, _) in ONLY_V4 { o.remove(*k); }
    if o["t"] == "async" { o.insert("t".into(), json!("msg")); }
  }
  a
}
/// Without what was found out about the content type of a body, which not every version stores.
fn plain(a: &Value) -> Value {
  let mut a = a.clone();
  let strip = |p: &mut Value| { if let Some(b) = p.get_mut("body").and_then(|b| b.as_object_mut()) { b.remove("ct"); b.remove("hint"); } };
  if let Some(p) = a.get_mut("req") { strip(p); }
  if let Some(l) = a.get_mut("res").and_then(|r| r.as_array_mut()) { for p in l { strip(p); } }
  a
}
/// An interaction every version of the family can hold.
fn made(ch: &mut Choices, low: Fam, desc: &str) -> Value {
  let mut a = interaction(ch, low, desc);
  let null = |p: &mut Value| { if p["body"]["s"] == "null" { p["body"] = json!({"s": "missing"}); } };
  null(&mut a["req"]);
  if let Some(l) = a.get_mut("res").and_then(|r| r.as_array_mut()) { for p in l { null(p); } }
  if low == Fam::V2 && !a["req"]["query"].to_string().is_ascii() { a["req"]["query"] = Value::Null; if let Some(r) = a["req"]["rules"].as_object_mut() { r.remove("query"); } }
  a
}
fn dressed(ch: &mut Choices, a: Value) -> Value {
  let mut a = converted(&a, Fam::V4);
  if ch.pct(60) { let d = a["desc"].as_str().unwrap_or("").to_string(); let b = interaction(ch, Fam::V4, &d); for (k, _) in ONLY_V4 { a[*k] = b[*k].clone(); } }
  a
}

/// The content types of the bodies, as far as the interaction tells them.
fn types(i: &(dyn Interaction + Send + Sync + std::panic::RefUnwindSafe)) -> Vec<Option<String>> {
  let told = |h: &Option<HashMap<String, Vec<String>>>| h.as_ref().map(|h| h.keys().any(|k| k.eq_ignore_ascii_case("content-type"))).unwrap_or(false);
  let meta = |m: &HashMap<String, Value>| m.get("contentType").map(|v| v.is_string()).unwrap_or(false);
  let text = |c: Option<ContentType>| c.map(|c| c.to_string());
  let part = |on: bool, body: &OptionalBody, c: Option<ContentType>| if on && body.is_present() { text(c) } else { None };
  if i.is_v4() {
    if let Some(x) = i.as_v4_http() { return vec![part(told(&x.request.headers), &x.request.body, x.request.content_type()), part(told(&x.response.headers), &x.response.body, x.response.content_type())] }
    if let Some(x) = i.as_v4_async_message() { return vec![part(meta(&x.contents.metadata) || x.contents.contents.has_content_type(), &x.contents.contents, x.message_content_type())] }
    return vec![]
  }
  if let Some(x) = i.as_request_response() { return vec![part(told(&x.request.headers), &x.request.body, HttpPart::content_type(&x.request)), part(told(&x.response.headers), &x.response.body, HttpPart::content_type(&x.response))] }
  if let Some(x) = i.as_message() { return vec![part(meta(&x.metadata) || x.contents.has_content_type(), &x.contents, x.message_content_type())] }
  vec![]
}

/// An interaction is of exactly one kind, whoever asks in whatever way, and gives what it is made of.
fn views(i: &(dyn Interaction + Send + Sync + std::panic::RefUnwindSafe), canon: &Value, v4: bool) -> Result<(), String> {
  let t = canon["t"].as_str().unwrap_or("");
  let (http, msg, sync) = (t == "http", t == "msg" || t == "async", t == "sync");
  let same = |what: &str, is: bool, want: bool| if is == want { Ok(()) } else { Err(format!("{}: {} is {}", t, what, is)) };
  same("is_request_response", i.is_request_response(), http)?;
  same("is_message", i.is_message(), msg)?;
  same("is_v4", i.is_v4(), v4)?;
  same("is_v4_http", i.is_v4_http(), v4 && http)?;
  same("is_v4_async_message", i.is_v4_async_message(), v4 && msg)?;
  same("is_v4_sync_message", i.is_v4_sync_message(), v4 && sync)?;
  same("as_request_response", i.as_request_response().is_some(), http)?;
  same("as_message", i.as_message().is_some(), msg)?;
  same("as_v4", i.as_v4().is_some(), true)?;
  same("as_v4_http", i.as_v4_http().is_some(), http)?;
  same("as_v4_async_message", i.as_v4_async_message().is_some(), msg)?;
  same("as_v4_sync_message", i.as_v4_sync_message().is_some(), sync)?;
  let up = plain(&converted(canon, Fam::V4));
  let eq = |what: &str, got: &Value, want: &Value| match diff(want, got, "") { None => Ok(()), Some((at, d)) => Err(format!("{}: {}{}: {}", t, what, at, d)) };
  let v = i.as_v4().unwrap();
  eq("as_v4", &plain(&canon_v4(v.as_ref())), &up)?;
  same("the type of as_v4", v.v4_type() == if http { V4InteractionType::Synchronous_HTTP } else if msg { V4InteractionType::Asynchronous_Messages } else { V4InteractionType::Synchronous_Messages }, true)?;
  if let Some(x) = i.as_v4_http() { eq("as_v4_http", &plain(&canon_v4(&x)), &up)?; }
  if let Some(x) = i.as_v4_async_message() { eq("as_v4_async_message", &plain(&canon_v4(&x)), &up)?; }
  if let Some(x) = i.as_v4_sync_message() { eq("as_v4_sync_message", &plain(&canon_v4(&x)), &up)?; }
  let down = plain(&converted(canon, Fam::V3));
  if let Some(x) = i.as_request_response() {
    eq("as_request_response", &plain(&canon_v3(&x)), &down)?;
    same("as_request_response of as_v4", v.as_request_response().as_ref() == Some(&x), true)?;
    if !v4 { same("conflict with its own upgrade", x.conflicts_with(&*v.boxed()).is_empty(), true)?; }
  }
  if let Some(x) = i.as_message() {
    let (mut got, mut want) = (plain(&canon_msg(&x)), down);
    // a downgraded message tells its content type in the metadata
    for p in [&mut got, &mut want] { if v4 { if let Some(m) = p["req"]["meta"].as_object_mut() { if !canon["req"]["meta"].as_object().map(|m| m.contains_key("contentType")).unwrap_or(false) { m.remove("contentType"); } } } }
    eq("as_message", &got, &want)?;
  }
  if types(&*v.boxed()) != types(i) { return Err(format!("{}: content types: {:?} became {:?}", t, types(i), types(&*v.boxed()))) }
  for (what, x) in [("boxed", i.boxed()), ("boxed as_v4", v.boxed())] {
    same(&format!("description of {}", what), json!(x.description()) == canon["desc"], true)?;
    same(&format!("id of {}", what), x.id() == i.id(), true)?;
    same(&format!("states of {}", what), x.provider_states() == i.provider_states(), true)?;
    same(&format!("body for verification of {}", what), x.contents_for_verification() == i.contents_for_verification(), true)?;
    same(&format!("kind of {}", what), x.is_request_response() == http && x.is_message() == msg, true)?;
  }
  same("description", json!(i.description()) == canon["desc"], true)?;
  let part = if http { &canon["res"][0]["body"] } else if msg { &canon["req"]["body"] } else { &canon["res"][0]["body"] };
  if !sync { eq("body for verification", &canon_body(&i.contents_for_verification(), Fam::V3), &plain(&json!({"req": {"body": part}}))["req"]["body"])?; }
  let a = i.arced();
  same("arced", a.description() == i.description() && a.type_of() == i.type_of() && a.is_v4() == v4, true)?;
  { let m = i.thread_safe(); let g = m.lock().unwrap(); same("thread_safe", g.description() == i.description() && g.type_of() == i.type_of() && g.is_v4() == v4, true)?; }
  Ok(())
}
fn pact_views(p: &(dyn Pact + Send + Sync + std::panic::RefUnwindSafe)) -> Result<(), String> {
  let canon = canon_pact(p);
  let list = p.interactions();
  if list.len() != canon.len() { return Err("pact: lists differ".into()) }
  for (i, c) in list.iter().zip(&canon) { views(i.as_ref(), c, p.is_v4())?; }
  let v = p.as_v4_pact().map_err(|e| format!("pact: as_v4_pact: {:#}", e))?;
  let kinds = [("http", V4InteractionType::Synchronous_HTTP), ("async", V4InteractionType::Asynchronous_Messages), ("sync", V4InteractionType::Synchronous_Messages)];
  let up: Vec<Value> = canon.iter().map(|c| plain(&converted(c, Fam::V4))).collect();
  let got: Vec<Value> = canon_pact(&v).iter().map(plain).collect();
  if let Some((at, d)) = diff(&json!(up), &json!(got), "") { return Err(format!("pact: as_v4_pact{}: {}", at, d)) }
  let mut n = 0;
  for (t, k) in kinds {
    let want = up.iter().filter(|c| c["t"] == t).count();
    if want > 0 { n += 1; }
    if v.has_interactions(k.clone()) != (want > 0) { return Err(format!("pact: has_interactions({}) with {}", t, want)) }
    let f: Vec<Value> = v.filter_interactions(k).iter().map(|i| json!(i.description())).collect();
    let w: Vec<Value> = up.iter().filter(|c| c["t"] == t).map(|c| c["desc"].clone()).collect();
    if f != w { return Err(format!("pact: filter_interactions({}) gives {:?}", t, f)) }
  }
  if v.has_mixed_interactions() != (n > 1) { return Err(format!("pact: has_mixed_interactions with {} kinds", n)) }
  for (what, q) in [("as_v4_pact", v.boxed()), ("boxed", p.boxed())] {
    if q.consumer().name != p.consumer().name || q.provider().name != p.provider().name { return Err(format!("pact: {} changes the names", what)) }
    if q.interactions().len() != list.len() { return Err(format!("pact: {} has other interactions", what)) }
  }
  { let a = p.arced(); let t = p.thread_safe(); let g = t.lock().unwrap(); if a.interactions().len() != list.len() || g.interactions().len() != list.len() || a.specification_version() != p.specification_version() || g.specification_version() != p.specification_version() { return Err("pact: a shared copy differs".into()) } }
  for i in v.interactions().iter() { if let Some(id) = i.id() { if v.find_interaction_with_id(&id).map(|f| f.id()) != Some(Some(id.clone())) { return Err(format!("pact: the interaction with id {} is not found", id)) } } }
  if v.find_interaction_with_id("no such id").is_some() { return Err("pact: an interaction is found by an id it does not have".into()) }
  Ok(())
}

pub fn c20(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  // the least version in the history says what the interactions may hold
  let low = *ch.pick(&[Fam::V2, Fam::V3, Fam::V3, Fam::Msg, Fam::Msg]);
  let fams: &[Fam] = match low { Fam::V2 => &[Fam::V2, Fam::V3, Fam::V4], Fam::V3 => &[Fam::V3, Fam::V4], _ => &[Fam::Msg, Fam::V4] };
  let mut h = Host::new(ch);
  let mut uid = 0;
  let mut fresh = |ch: &mut Choices, n: usize, fam: Fam| -> Vec<Value> { (0..n).map(|_| { uid += 1; let a = made(ch, low, &format!("interaction {}", uid)); if fam == Fam::V4 { dressed(ch, a) } else { a } }).collect() };
  let (cn, pn) = ch.pick(&[("c", "p"), ("Con sumer", "Ünï 日本"), ("a/b", "x\"y"), (" c", "p ")]).clone();
  let mut fam = *ch.pick(fams);
  let n = ch.count(1, 3);
  let mut want = fresh(ch, n, fam);
  // what can not be downgraded
  let mut stays = 0;
  if fam == Fam::V4 && ch.pct(20) {
    for k in 0..ch.count(1, 2) { let d = format!("{} {}", ch.pick(&["other", "another", "interaction 1 or"]), k); let mut a = interaction(ch, Fam::V4, &d); let kind = if low == Fam::Msg { "async" } else { "http" }; if a["t"] == kind { continue } let null = |p: &mut Value| { if p["body"]["s"] == "null" { p["body"] = json!({"s": "missing"}); } }; null(&mut a["req"]); if let Some(l) = a.get_mut("res").and_then(|r| r.as_array_mut()) { for p in l { null(p); } } stays += 1; want.push(a); }
    if stays > 0 { o.probe("kinds only V4 has"); }
  }
  let mut tool: Option<String> = None;
  let tname = *ch.pick(&["tool", "pact-jvm", "pactTool", "é x"]);
  let mut doc = to_doc(&want, fam, cn, pn);
  if let Some(l) = doc.get_mut(if fam == Fam::Msg { "messages" } else { "interactions" }).and_then(|l| l.as_array_mut()) {
    for i in (1..l.len()).rev() { let j = ch.below(i + 1); l.swap(i, j); }
    if ch.pct(40) { for (k, i) in l.iter_mut().enumerate() { if ch.pct(70) { i["_id"] = json!(format!("id-{}", k)); o.probe("ids"); } } }
  }
  if ch.pct(30) { let w = word(ch); doc["metadata"][tname] = json!({"version": w.clone()}); tool = Some(w); }
  if ch.pct(30) { for u in crate::forms::restyle(ch, &mut doc, fam) { o.probe(&format!("form: {}", u)); } }
  h.fs.put(PATH, serde_json::to_vec_pretty(&doc).unwrap().as_slice());
  h.trace.push(format!("the file is written by another tool: {}", doc));
  let mut path = vec![fam.name()];
  for step in 0..ch.count(1, 5) {
    let to = *ch.pick(fams);
    let way = ch.below(5);
    let new = if way >= 3 { let n = ch.count(1, 2); fresh(ch, n, to) } else { vec![] };
    let refused = stays > 0 && to != Fam::V4;
    let name = ["written as", "converted to", "rebuilt as", "added to and written as", "merged into with"][way];
    o.probe(&format!("{} {} {}", fam.name(), name, to.name()));
    let (ns, nm) = (new.clone(), (cn.to_string(), pn.to_string()));
    let before = h.fs.get(PATH).cloned();
    let told: Result<Vec<(String, Vec<Option<String>>)>, String> = h.proc("content types before", || { let p = read_pact(Path::new(PATH)).unwrap(); p.interactions().iter().map(|i| (i.description(), types(i.as_ref()))).collect() });
    let r = h.proc(&format!("step {}: {} {} {}", step + 1, fam.name(), name, to.name()), move || -> Result<(), String> {
      let e = |x: anyhow::Error| format!("{:#}", x);
      let path = Path::new(PATH);
      let p = read_pact(path).map_err(e)?;
      pact_views(p.as_ref()).map_err(|e| format!("view:{}", e))?;
      let conv = |p: &dyn Pact| -> Result<Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>, String> { Ok(match to {
        Fam::V4 => p.as_v4_pact().map_err(e)?.boxed(), Fam::Msg => p.as_message_pact().map_err(e)?.boxed(),
        _ => { let mut q = p.as_request_response_pact().map_err(e)?; q.specification_version = to.spec(); q.boxed() } }) };
      match way {
        0 => write_pact(p, path, to.spec(), true).map_err(e),
        1 => { let q = conv(p.as_ref())?; pact_views(q.as_ref()).map_err(|e| format!("view:{}", e))?; write_pact(q, path, to.spec(), true).map_err(e) }
        2 => {
          let (c, v) = (p.consumer(), p.provider());
          let mut q: Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe> = match to {
            Fam::V4 => V4Pact { consumer: c, provider: v, metadata: p.metadata().iter().filter(|(k, _)| k.as_str() != "pactSpecification").map(|(k, v)| (k.clone(), json!(v))).collect(), ..V4Pact::default() }.boxed(),
            Fam::Msg => MessagePact { consumer: c, provider: v, metadata: p.metadata(), ..MessagePact::default() }.boxed(),
            _ => RequestResponsePact { consumer: c, provider: v, metadata: p.metadata(), specification_version: to.spec(), ..RequestResponsePact::default() }.boxed() };
          for i in p.interactions() { q.add_interaction(i.as_ref()).map_err(e)?; }
          write_pact(q, path, to.spec(), true).map_err(e)
        }
        3 => { let mut p = p; let add = to_model(&ns, to, "x", "y"); for i in add.interactions() { p.add_interaction(i.as_ref()).map_err(e)?; } write_pact(p, path, to.spec(), true).map_err(e) }
        _ => write_pact(to_model(&ns, to, &nm.0, &nm.1), path, to.spec(), false).map_err(e)
      }
    });
    let after = h.fs.get(PATH).cloned();
    if let Some(b) = &after { o.digest = mix(o.digest, hash_str(&String::from_utf8_lossy(b))); h.trace.push(format!("file: {}", String::from_utf8_lossy(b).split_whitespace().collect::<Vec<_>>().join(" "))); }
    match r {
      Err(p) => { o.violate(panic_class(&p), p); break }
      Ok(Err(e)) if e.starts_with("view:") => { o.violate(format!("view:{}", e[5..].split(|c: char| c == ':' || c == '.').take(2).collect::<Vec<_>>().join(":")), short(&e)); break }
      Ok(Err(e)) => {
        if after != before { o.violate("refused-but-changed", format!("the file changed although the step failed: {}", short(&e))); break }
        if !refused { o.violate(format!("refused:{}:{}", fam.name(), to.name()), short(&e)); break }
        o.probe("refused");
        continue
      }
      Ok(Ok(())) => {}
    }
    want.extend(new.iter().map(|a| if way == 3 { converted(a, fam) } else { a.clone() }));
    if refused && way != 1 { o.violate("accepted", format!("{} {} {} although it holds interactions only V4 has", fam.name(), name, to.name())); break }
    if refused { // only what fits is converted
      want.retain(|a| a["t"] == if low == Fam::Msg { "async" } else { "http" }); stays = 0;
    }
    fam = to;
    path.push(fam.name());
    for a in want.iter_mut() { *a = converted(a, fam); }
    let bytes = after.clone();
    match h.proc("check the file", move || bytes.map(|b| load(&b)).unwrap_or(Err("no file".into()))) {
      Err(p) => { o.violate(panic_class(&p), p); break }
      Ok(Err(e)) => { o.violate("unreadable", short(&e)); break }
      Ok(Ok(got)) => {
        let got: Vec<Value> = got.iter().map(plain).collect();
        // a downgraded message tells its content type in the metadata
        for a in want.iter_mut() {
          if low == Fam::Msg && a["req"]["meta"].get("contentType").is_none() {
            if let Some(c) = got.iter().find(|g| g["desc"] == a["desc"]).and_then(|g| g["req"]["meta"].get("contentType")) { a["req"]["meta"]["contentType"] = c.clone(); }
          }
        }
        let w: Vec<Value> = want.iter().map(plain).collect();
        compare(&mut o, "changed", &w, &got, fam);
        if !o.violations.is_empty() { break }
      }
    }
    if let Ok(told) = told {
      if let Ok(now) = h.proc("content types after", || -> Vec<(String, Vec<Option<String>>)> { let p = read_pact(Path::new(PATH)).unwrap(); p.interactions().iter().map(|i| (i.description(), types(i.as_ref()))).collect() }) {
        for (d, t) in &told { if let Some((_, n)) = now.iter().find(|(e, _)| e == d) { if n != t && (low != Fam::Msg || t.iter().any(|t| t.is_some())) { o.violate(format!("content-type:{}", fam.name()), format!("{}: {:?} became {:?}", d, t, n)); } } }
      }
    }
    if !o.violations.is_empty() { break }
    match after.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok()) {
      None => {}
      Some(doc) => {
        if doc["consumer"]["name"] != json!(cn) || doc["provider"]["name"] != json!(pn) { o.violate("renamed", format!("{} and {}", doc["consumer"], doc["provider"])); }
        let v = doc["metadata"]["pactSpecification"]["version"].as_str().unwrap_or("");
        if !v.starts_with(match to.spec() { PactSpecification::V2 => "2.", PactSpecification::V3 => "3.", _ => "4." }) { o.violate("version", format!("the file of {} says version {:?}", to.name(), v)); }
        if way == 4 { tool = None; }
        if let Some(t) = &tool { if doc["metadata"][tname]["version"] != json!(t) { o.violate("metadata", format!("the metadata of another tool is {} after {}", doc["metadata"][tname], name)); } }
        if !o.violations.is_empty() { break }
      }
    }
  }
  o.case = o.digest;
  o.nontrivial = path.len() > 1;
  for f in &h.faults { o.fault(&format!("{}-transfer", f)); }
  o.sample = path.join(" > ");
  o.steps = h.syscalls; o.sim_ns = h.sim_ns;
  o.trace = std::mem::take(&mut h.trace);
  o
}
