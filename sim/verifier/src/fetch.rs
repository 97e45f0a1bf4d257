//! C12: loading a pact over HTTP; C13: finding the pacts of a provider in a broker.
use std::sync::{Arc, Mutex};
use std::time::Duration;

use pact_models::pact::{load_pact_from_json, load_pact_from_url, Pact};
use pact_models::message_pact::MessagePact;
use pact_models::sync_pact::RequestResponsePact;
use pact_verifier::pact_broker::{fetch_pact_from_url, fetch_pacts_dynamically_from_broker, fetch_pacts_from_broker, Link, PactVerificationContext};
use pact_verifier::ConsumerVersionSelector;
use serde_json::{json, Value};
use simcore::choices::{hash_str, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::fs::SimFs;
use simcore::kernel::short;

use crate::docs::{self, Doc, Spec};
use crate::hosts::*;
use crate::net::*;
use crate::walk::*;

pub fn world(ch: &mut Choices, hosts: All) -> Arc<Mutex<World>> {
  let w = World { ch: std::mem::replace(ch, Choices::replay(&Default::default())), log: vec![], hosts: Some(Box::new(hosts)), start: None, extra: Duration::ZERO,
    rate: 0, menu: ALL, calm: vec![], patience: Default::default(), outage: None, down: None };
  Arc::new(Mutex::new(w))
}
pub fn give_back(w: &Arc<Mutex<World>>, ch: &mut Choices) { let mut w = w.lock().unwrap(); *ch = std::mem::replace(&mut w.ch, Choices::replay(&Default::default())); }
/// Faults, trace and digest of a conversation.
pub fn note(o: &mut Outcome, w: &World) {
  for e in &w.log {
    if e.fate != Fate::Normal { o.fault(e.fate.name()); }
    let t = e.text();
    o.observe(&t);
    o.trace.push(t);
  }
}
pub fn rendered(p: &dyn Pact) -> Value { p.to_json(p.specification_version()).unwrap_or(json!("unrenderable")) }

pub fn c12(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let mut gid = 0;
  let how = ch.below(4);
  let n = ch.count(1, 3);
  let mut doc = docs::doc(ch, &mut gid, "P", "C", n, false);
  if how == 1 { doc.spec = *ch.pick(&[Spec::V2, Spec::V3]); doc.ixs = (0..n).map(|k| docs::ix(ch, k + 1, doc.spec, false)).collect(); }
  if how == 2 { doc.spec = Spec::V3Message; doc.ixs = (0..n).map(|k| docs::ix(ch, k + 1, doc.spec, false)).collect(); }
  if how == 3 && ch.pct(50) { doc.links = Some(json!({"self": {"href": "http://files.test/x", "title": "t"}, "pb:publish-verification-results": {"href": "http://files.test/publish"}})); }
  let text = doc.json().to_string();
  let auth = Auth::any(ch);
  let mut web = Web { pages: vec![], auth: if ch.pct(80) { Some(auth.clone()) } else { Some(Auth::Token("other".into())) } };
  let url = ch.pick(&["http://files.test/pacts/a.json", "http://files.test/pacts/a%20b.json?x=1&y=%2F", "http://files.test/", "http://mirror.test/a"]).to_string();
  let key = |u: &str| u.trim_start_matches("http://").to_string();
  let mut at = url.clone();
  for k in 0..ch.below(4) {
    let next = format!("http://{}/hop{}", ch.pick(&["files.test", "files.test", "mirror.test"]), k);
    web.pages.push((key(&at), Page::Moved(*ch.pick(&[301, 302, 303, 307, 308]), if ch.pct(50) && at.contains("files.test") && next.contains("files.test") { format!("/hop{}", k) } else { next.clone() })));
    at = next;
  }
  let looped = ch.pct(7);
  web.pages.push((key(&at), if looped { Page::Loop(302) } else { Page::Doc(text.clone()) }));
  let a = All { web, ..All::default() };
  let w = world(ch, a);
  { let mut w = w.lock().unwrap(); w.rate = *w.ch.pick(&[300, 0, 150, 700]); w.patience.insert("files.test".into(), 30_000); }
  let w2 = w.clone();
  let (u, au) = (url.clone(), if auth == Auth::None && o.nontrivial { None } else { Some(auth.http()) });
  let au2 = if auth == Auth::None && gid % 2 == 0 { None } else { au };
  type Fetched = Result<(Value, Vec<(String, Option<String>)>), String>;
  let ran = process(&w2, 12, SimFs::new(), move || Box::pin(async move {
    let r: Fetched = match how {
      0 => load_pact_from_url(&u, &au2).map(|p| (rendered(p.as_ref()), vec![])).map_err(|e| e.to_string()),
      1 => RequestResponsePact::from_url(&u, &au2).map(|p| (rendered(&p), vec![])).map_err(|e| e.to_string()),
      2 => MessagePact::from_url(&u, &au2).map(|p| (rendered(&p), vec![])).map_err(|e| e.to_string()),
      _ => fetch_pact_from_url(&u, &au2).await.map(|(p, l)| (rendered(p.as_ref()), l.iter().map(|l| (l.name.clone(), l.href.clone())).collect())).map_err(|e| e.to_string())
    };
    r
  }));
  give_back(&w, ch);
  let w = w.lock().unwrap();
  let entry = ["load_pact_from_url", "RequestResponsePact::from_url", "MessagePact::from_url", "fetch_pact_from_url"][how];
  o.sample = format!("{} of {}", entry, url);
  note(&mut o, &w);
  // follow the redirects
  let mut here = url::Url::parse(&url).unwrap();
  let (mut last, mut tainted, mut broken_chain) = (None, false, false);
  for (k, e) in w.log.iter().enumerate() {
    if broken_chain || k > 10 { o.violate("extra-request", format!("{}: {}", entry, e.text())); break }
    let host = here.host_str().unwrap_or("").to_string();
    if e.host != host || e.path != here.path() || e.query.as_deref() != here.query() || e.method != "GET" { o.violate("wrong-request", format!("{}: {} instead of {}", entry, e.text(), here)); break }
    if let Some(h) = auth.header() { if !tainted && e.header("authorization") != [h] { o.violate("no-credentials", format!("{}: {}", entry, e.text())); } }
    last = Some(e);
    match (e.replied && (300..400).contains(&e.answer.status), e.answer.is("location").first()) {
      (true, Some(l)) => {
        let next = here.join(l).unwrap();
        tainted |= next.host_str() != here.host_str();
        here = next;
      }
      _ => broken_chain = true
    }
  }
  let g = Got(last.filter(|e| e.replied));
  let want = g.json().filter(|_| broken_chain).is_some();
  let whole = g.0.is_some_and(|e| e.answer.body == text.as_bytes());
  let reference = load_pact_from_json("", &doc.json()).ok().map(|p| rendered(p.as_ref()));
  let reference = match how { 1 => RequestResponsePact::from_json(&"".to_string(), &doc.json()).ok().map(|p| rendered(&p)), 2 => MessagePact::from_json(&"".to_string(), &doc.json()).ok().map(|p| rendered(&p)), _ => reference };
  if ran.endless || w.log.iter().any(|e| e.hung) { o.violate("endless", format!("{} of {} never ends", entry, url)); }
  else if ran.took > Duration::from_secs(31 * 11) { o.violate("endless", format!("{} of {} takes {:?}", entry, url, ran.took)); }
  match &ran.result {
    Err(p) if !ran.endless => o.violate(format!("panic:{}", panic_class(p)), format!("{}: {}", entry, p)),
    Err(_) => (),
    Ok(Ok((p, l))) => {
      o.nontrivial = true;
      o.observe(&p.to_string());
      o.probe("pact loaded");
      if !want { o.violate("pact-from-nothing", format!("{} gives a pact although the answer was {}: {}", entry, g.0.map(|e| e.text()).unwrap_or("lost".into()), short(&p.to_string()))) }
      else if Some(p) != reference.as_ref() { o.violate("another-pact", format!("{} gives {} instead of {}", entry, short(&p.to_string()), short(&text))) }
      if how == 3 {
        let mut want: Vec<(String, Option<String>)> = doc.links.iter().flat_map(|l| l.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v["href"].as_str().map(|s| s.to_string()))).collect::<Vec<_>>()).collect();
        let mut got = l.clone();
        want.sort(); got.sort();
        if want != got { o.violate("links", format!("{}: links {:?} instead of {:?}", entry, got, want)); }
      }
    }
    Ok(Err(e)) => {
      o.nontrivial = true;
      o.observe(e);
      o.probe("not loaded");
      if want && whole && reference.is_some() { o.violate("not-loaded", format!("{}: {} although the whole pact arrived", entry, e)) }
    }
  }
  o.sim_ns = ran.took.as_nanos() as i64;
  o.steps = w.log.len() as u64;
  o.case = hash_str(&format!("{}{}", o.trace.join("\n"), text));
  o
}

pub fn selectors(ch: &mut Choices) -> (Vec<ConsumerVersionSelector>, Value) {
  let mut v = vec![];
  let empty = ConsumerVersionSelector { consumer: None, tag: None, fallback_tag: None, latest: None, deployed_or_released: None, deployed: None, released: None, environment: None, main_branch: None, branch: None, matching_branch: None, fallback_branch: None };
  let mut j = vec![];
  for _ in 0..ch.below(3) {
    let (s, k) = match ch.below(6) {
      0 => (ConsumerVersionSelector { tag: Some("dev".into()), latest: Some(true), ..empty.clone() }, json!({"tag": "dev", "latest": true})),
      1 => (ConsumerVersionSelector { main_branch: Some(true), ..empty.clone() }, json!({"mainBranch": true})),
      2 => (ConsumerVersionSelector { branch: Some("feat/ü".into()), fallback_branch: Some("main".into()), ..empty.clone() }, json!({"branch": "feat/ü", "fallbackBranch": "main"})),
      3 => (ConsumerVersionSelector { deployed_or_released: Some(true), consumer: Some("C1".into()), ..empty.clone() }, json!({"deployedOrReleased": true, "consumer": "C1"})),
      4 => (ConsumerVersionSelector { deployed: Some(true), environment: Some("prod".into()), ..empty.clone() }, json!({"deployed": true, "environment": "prod"})),
      _ => (ConsumerVersionSelector { matching_branch: Some(true), released: Some(true), fallback_tag: Some("t".into()), ..empty.clone() }, json!({"matchingBranch": true, "released": true, "fallbackTag": "t"}))
    };
    v.push(s); j.push(k);
  }
  (v, json!(j))
}

pub struct Dynamic { pub pending: bool, pub wip: Option<String>, pub tags: Vec<String>, pub branch: Option<String>, pub selectors: Vec<ConsumerVersionSelector>, pub request: Value }
pub fn dynamic(ch: &mut Choices) -> Dynamic {
  let (selectors, js) = selectors(ch);
  let d = Dynamic { pending: ch.pct(50), wip: if ch.pct(30) { Some("2024-12-31".into()) } else { None }, tags: (0..ch.below(3)).map(|k| format!("tag {}", k)).collect(), branch: if ch.pct(40) { Some("feat/x".into()) } else { None }, selectors, request: Value::Null };
  let mut r = json!({"includePendingStatus": d.pending, "consumerVersionSelectors": js});
  if !d.tags.is_empty() { r["providerVersionTags"] = json!(d.tags); }
  if let Some(w) = &d.wip { r["includeWipPactsSince"] = json!(w); }
  if let Some(b) = &d.branch { r["providerVersionBranch"] = json!(b); }
  Dynamic { request: r, ..d }
}

type Item = Result<(Value, Option<(String, bool, Vec<(Option<String>, Option<String>)>)>, Vec<(String, Option<String>)>), String>;
fn item(p: &dyn Pact, c: &Option<PactVerificationContext>, l: &[Link]) -> Item {
  Ok((rendered(p), c.as_ref().map(|c| (c.short_description.clone(), c.verification_properties.pending, c.verification_properties.notices.iter().map(|n| (n.get("when").cloned(), n.get("text").cloned())).collect())),
    l.iter().map(|l| (l.name.clone(), l.href.clone())).collect()))
}

pub fn c13(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let provider = ch.pick(&["P", "Test Provider", "a/b", "Prövider & Co"]).to_string();
  let mut b = Broker::new(ch, &provider);
  let mut gid = 0;
  for k in 0..ch.count(0, 4) {
    let n = ch.count(1, 2);
    let d: Doc = docs::doc(ch, &mut gid, &provider, &format!("C{} x", k), n, true);
    b.add(ch, d);
  }
  if ch.pct(20) { b.quirk = *ch.pick(&[Quirk::NoIndexLink, Quirk::IndexNotHal, Quirk::NoSuchProvider, Quirk::ListingWithoutLinks, Quirk::EmptyList, Quirk::OddListing]); b.odd = ch.below(3); }
  let use_dynamic = ch.pct(60);
  let d = dynamic(ch);
  let auth = if ch.pct(95) { b.auth.clone() } else { Auth::Token("wrong".into()) };
  let w = world(ch, All { broker: Some(b.clone()), ..All::default() });
  { let mut w = w.lock().unwrap(); w.rate = *w.ch.pick(&[200, 0, 100, 500]); w.patience.insert(b.host().into(), 30_000); if w.ch.fault_pct(50) { w.menu = &["5xx", "5xx", "5xx", "5xx", "refused", "broken", "4xx", "late-ok"]; } }
  let (url, prov, au) = (b.url.clone(), provider.clone(), if auth == Auth::None && gid % 2 == 0 { None } else { Some(auth.http()) });
  let request = d.request.clone();
  let ran = process(&w, 13, SimFs::new(), move || Box::pin(async move {
    if use_dynamic {
      fetch_pacts_dynamically_from_broker(&url, prov, d.pending, d.wip, d.tags, d.branch, d.selectors, au).await.map_err(|e| e.to_string())
        .map(|v| v.into_iter().map(|r| match r { Ok((p, c, l)) => item(p.as_ref(), &c, &l), Err(e) => Err(e.to_string()) }).collect::<Vec<Item>>())
    } else {
      fetch_pacts_from_broker(&url, &prov, au).await.map_err(|e| e.to_string())
        .map(|v| v.into_iter().map(|r| match r { Ok((p, c, l)) => item(p.as_ref(), &c, &l), Err(e) => Err(e.to_string()) }).collect::<Vec<Item>>())
    }
  }));
  give_back(&w, ch);
  let w = w.lock().unwrap();
  let entry = if use_dynamic { "fetch_pacts_dynamically_from_broker" } else { "fetch_pacts_from_broker" };
  o.sample = format!("{} with {} pacts, {:?}", entry, b.pacts.len(), b.quirk);
  note(&mut o, &w);
  o.sim_ns = ran.took.as_nanos() as i64;
  o.steps = w.log.len() as u64;
  o.nontrivial = w.log.len() > 1;
  if let (Some(h), Some(e)) = (auth.header(), w.log.iter().find(|e| e.header("authorization") != auth.header().into_iter().collect::<Vec<_>>())) {
    o.violate("no-credentials", format!("{} without {}", e.text(), h));
  }
  if ran.endless {
    // the stall of one request belongs to C18
    o.probe("endless");
    o.case = hash_str(&o.trace.join("\n"));
    return o
  }
  let mut k = Walk::new(&w.log, 0);
  let want = if use_dynamic { k.dynamic(&b, &request) } else { k.latest(&b) };
  if want.is_some() && k.wrong.is_none() { k.end(); }
  if let Some((c, d)) = k.wrong.take() { o.violate(c, format!("{}: {}", entry, d)); }
  match (&ran.result, want) {
    (Err(p), _) => o.violate(format!("panic:{}", panic_class(p)), p.clone()),
    (Ok(Ok(got)), Some(Err(_))) => o.violate("pacts-from-nothing", format!("{} gives {} pacts although the navigation failed", entry, got.len())),
    (Ok(Err(e)), Some(Ok(want))) => o.violate("fetch-failed", format!("{}: {} although {} pacts were listed", entry, e, want.len())),
    (Ok(Ok(got)), Some(Ok(want))) => {
      for g in got { o.observe(&format!("{:?}", g)); }
      if got.len() != want.len() { o.violate("dropped", format!("{}: {} results for {} pacts", entry, got.len(), want.len())); }
      for (g, x) in got.iter().zip(&want) {
        match (g, x) {
          (Ok(g), Ok(n)) => {
            let p = &b.pacts[*n];
            o.probe("pact loaded");
            let reference = rendered(load_pact_from_json("", &p.doc.json()).unwrap().as_ref());
            if g.0 != reference { o.violate("another-pact", format!("{} gives {} for pact {}", entry, short(&g.0.to_string()), n)); }
            let ctx = if use_dynamic { Some((p.short.clone(), p.pending, p.notices.iter().map(|(w, t)| (Some(w.clone()), Some(t.clone()))).collect::<Vec<_>>())) } else { None };
            if g.1 != ctx { o.violate("context", format!("{} gives {:?} for pact {} instead of {:?}", entry, g.1, n, ctx)); }
            let mut links: Vec<(String, Option<String>)> = p.doc.links.as_ref().unwrap().as_object().unwrap().iter().map(|(k, v)| (k.clone(), v["href"].as_str().map(|s| s.to_string()))).collect();
            let mut gl = g.2.clone();
            links.sort(); gl.sort();
            if links != gl { o.violate("links", format!("{} gives links {:?} for pact {} instead of {:?}", entry, gl, n, links)); }
          }
          (Err(_), Err(_)) => o.probe("pact not loaded"),
          (Ok(_), Err(_)) => o.violate("pact-from-nothing", format!("{} gives a pact that could not be fetched", entry)),
          (Err(e), Ok(n)) => o.violate("pact-not-loaded", format!("{}: pact {}: {}", entry, n, e))
        }
      }
    }
    (Ok(Err(e)), Some(Err(_))) => { o.observe(e); o.probe("fetch failed") }
    (_, None) => ()
  }
  o.case = hash_str(&o.trace.join("\n"));
  o
}
