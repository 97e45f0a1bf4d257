//! Reading the log of a conversation against what the client has to do next.
use serde_json::Value;

use crate::hosts::{Broker, Held, Quirk};
use crate::net::Entry;

pub struct Walk<'a> { pub log: &'a [Entry], pub pos: usize, pub wrong: Option<(&'static str, String)> }

/// The answer a client has to work with.
#[derive(Clone, Copy)]
pub struct Got<'a>(pub Option<&'a Entry>);
impl<'a> Got<'a> {
  pub fn ok(&self) -> bool { self.0.is_some_and(|e| (200..300).contains(&e.answer.status)) }
  pub fn status(&self) -> u16 { self.0.map(|e| e.answer.status).unwrap_or(0) }
  /// the JSON document, if the client got all of it
  pub fn json(&self) -> Option<Value> {
    let e = self.0?;
    if !self.ok() || !e.read() { return None }
    serde_json::from_slice(&e.answer.body).ok()
  }
  pub fn hal(&self) -> Option<Value> {
    let ct = self.0?.answer.is("content-type").first().map(|s| s.split(';').next().unwrap_or("").trim().to_string())?;
    if ct != "application/json" && ct != "application/hal+json" { return None }
    self.json()
  }
}

/// Why something could not be fetched: the broker has no pacts, it may mean that, or it means something else.
#[derive(Clone, Debug, PartialEq)]
pub enum Miss { NoPacts, Unsure, Other }

impl<'a> Walk<'a> {
  pub fn new(log: &'a [Entry], pos: usize) -> Walk<'a> { Walk { log, pos, wrong: None } }
  pub fn fail(&mut self, class: &'static str, detail: String) { if self.wrong.is_none() { self.wrong = Some((class, detail)); } }
  pub fn peek(&self) -> Option<&'a Entry> { self.log.get(self.pos) }
  /// One request with its retries. None if the log holds something else.
  pub fn exchange(&mut self, what: &str, method: &str, host: &str, path: &str, attempts: usize, same: impl Fn(&Entry) -> bool) -> Option<Got<'a>> {
    let is = |e: &Entry| e.method == method && e.host == host && (if host == "states.test" { e.path == path } else { e.target() == path }) && same(e);
    match self.peek() {
      Some(e) if is(e) => (),
      e => { self.fail("missing-request", format!("{}: expected {} {}{}, got {}", what, method, host, path, e.map(|e| e.text()).unwrap_or("nothing".into()))); return None }
    }
    let mut n = 1;
    loop {
      let e = &self.log[self.pos];
      self.pos += 1;
      if !e.replied { return Some(Got(None)) }
      if e.answer.status < 500 || n == attempts { return Some(Got(Some(e))) }
      match self.peek() {
        Some(x) if is(x) => {
          if x.at < e.at + std::time::Duration::from_millis(10) { self.fail("no-back-off", format!("{}: {} follows a server error after {:?}", what, x.text(), x.at - e.at)); }
          if x.body != e.body { self.fail("retry-differs", format!("{}: another body in {}", what, x.text())); }
          n += 1;
        }
        _ => { self.fail("not-retried", format!("{}: attempt {} of {} got a server error and was the last: {}", what, n, attempts, e.text())); return None }
      }
    }
  }
  /// A request that must not be repeated.
  pub fn once(&mut self, what: &str, method: &str, host: &str, path: &str) -> Option<Got<'a>> { self.exchange(what, method, host, path, 1, |_| true) }
  fn nav(&mut self, b: &Broker, path: &str) -> Option<Result<Value, Miss>> {
    let g = self.exchange("navigation", "GET", b.host(), path, 3, |_| true)?;
    Some(match g.hal() { Some(v) => Ok(v), None => Err(if g.status() == 404 { Miss::NoPacts } else { Miss::Other }) })
  }
  fn pact(&mut self, b: &Broker, n: usize) -> Option<Result<usize, Miss>> {
    let p = &b.pacts[n];
    if p.held == Held::NoHref { return Some(Err(Miss::Other)) }
    let r = self.nav(b, &format!("{}{}", b.root, p.path))?;
    Some(r.map_err(|_| Miss::Other).and_then(|v| if v.is_object() { Ok(n) } else { Err(Miss::Other) }))
  }
  /// What the latest-provider-pacts navigation has to give. The outer error is the whole fetch.
  pub fn latest(&mut self, b: &Broker) -> Option<Result<Vec<Result<usize, Miss>>, Miss>> {
    let index = match self.nav(b, &b.index_path())? { Ok(v) => v, Err(e) => return Some(Err(if e == Miss::NoPacts { Miss::Unsure } else { e })) };
    if index["_links"]["pb:latest-provider-pacts"]["href"].as_str().is_none() { return Some(Err(Miss::Other)) }
    let list = match self.nav(b, &b.latest_path())? { Ok(v) => v, Err(e) => return Some(Err(e)) };
    let Some(l) = list["_links"]["pacts"].as_array().cloned() else { return Some(Err(Miss::Other)) };
    let mut out = vec![];
    for n in 0..l.len() { out.push(self.pact(b, n)?); }
    Some(Ok(out))
  }
  /// What the provider-pacts-for-verification navigation has to give.
  pub fn dynamic(&mut self, b: &Broker, request: &Value) -> Option<Result<Vec<Result<usize, Miss>>, Miss>> {
    let index = match self.nav(b, &b.index_path())? { Ok(v) => v, Err(e) => return Some(Err(if e == Miss::NoPacts { Miss::Unsure } else { e })) };
    if index["_links"]["pb:provider-pacts-for-verification"]["href"].as_str().is_none() { return Some(Err(Miss::Other)) }
    let list = match self.nav(b, &b.dynamic_path())? { Ok(v) => v, Err(e) => return Some(Err(e)) };
    if list["_links"]["self"]["href"].as_str().is_none() { return Some(Err(Miss::Other)) }
    let first = self.peek();
    let g = self.exchange("pacts for verification", "POST", b.host(), &b.dynamic_path(), 3, |_| true)?;
    let body: Value = first.and_then(|e| serde_json::from_slice(&e.body).ok()).unwrap_or_default();
    if body != *request { self.fail("wrong-selectors", format!("asked for {} instead of {}", body, request)); }
    let v = match g.hal() { Some(v) => v, None => return Some(Err(if g.status() == 404 { Miss::Unsure } else { Miss::Other })) };
    if b.quirk == Quirk::OddListing { return Some(Err(Miss::Other)) }
    let l = v["_embedded"]["pacts"].as_array().cloned().unwrap_or_default();
    if l.is_empty() { return Some(Err(Miss::NoPacts)) }
    let mut out = vec![];
    for n in 0..l.len() { out.push(self.pact(b, n)?); }
    Some(Ok(out))
  }
  pub fn end(&mut self) { if let Some(e) = self.peek() { let t = e.text(); self.fail("unexpected-request", t); } }
}
