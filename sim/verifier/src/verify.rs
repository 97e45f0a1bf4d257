//! C14, C15, C16, C18: whole verifications against a provider, a state change handler and a broker.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use bytes::Bytes;
use itertools::Either;
use pact_models::bodies::OptionalBody;
use pact_models::v4::http_parts::HttpRequest;
use pact_verifier::callback_executors::{HttpRequestProviderStateExecutor, RequestFilterExecutor};
use pact_verifier::verification_result::{VerificationExecutionResult, VerificationMismatchResult};
use pact_verifier::{verify_provider_async, FilterInfo, PactSource, ProviderInfo, ProviderTransport, PublishOptions, VerificationOptions};
use serde_json::{json, Value};
use simcore::choices::{hash_str, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::fs::SimFs;
use simcore::kernel::short;

use crate::docs::{self, Doc, Ix, Kind, Plan, Spec};
use crate::fetch::{dynamic, give_back, note, world, Dynamic};
use crate::hosts::*;
use crate::net::*;
use crate::walk::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus { Publish, Verdict, States, Stalls }

enum Src { File(String, Option<Doc>), Dir(String, Vec<Option<Doc>>), Text(Option<Doc>), Url(String, Option<Doc>), BrokerPage(usize), Webhook(usize), Latest, Dynamic(Dynamic), Unknown }

#[derive(Debug)]
struct Filter;
impl RequestFilterExecutor for Filter {
  fn call(self: Arc<Self>, request: &HttpRequest) -> HttpRequest {
    let mut r = request.clone();
    r.headers.get_or_insert_with(Default::default).insert("X-Filter".into(), vec!["yes".into()]);
    r
  }
  fn call_non_http(&self, b: &OptionalBody, m: &HashMap<String, Either<Value, Bytes>>) -> (OptionalBody, HashMap<String, Either<Value, Bytes>>) { (b.clone(), m.clone()) }
}

struct Setup {
  provider: ProviderInfo,
  sources: Vec<Src>,
  fs: SimFs,
  filter: FilterInfo,
  consumers: Vec<String>,
  custom: Vec<(String, String)>,
  request_filter: bool,
  no_pacts_is_error: bool,
  coloured: bool,
  timeout: u64,
  states_url: bool,
  teardown: bool,
  in_body: bool,
  retries: u8,
  publish: Option<PublishOptions>,
  hosts: All
}

fn broken_file(ch: &mut Choices) -> &'static str { ch.pick(&["{\"consumer\":", "", "[]", "nonsense"]) }

fn setup(ch: &mut Choices, f: Focus) -> Setup {
  let name = ch.pick(&["P", "Test Provider"]).to_string();
  let base = ch.pick(&["", "", "/", "/base", "/base/", "/v1/api"]).to_string();
  let mbase = ch.pick(&["", "/", "/messages", "/_m/"]).to_string();
  let transports = ch.pct(70);
  #[allow(deprecated)]
  let provider = if transports {
    let mut t = vec![ProviderTransport { transport: "http".into(), port: Some(8080), path: if base.is_empty() { None } else { Some(base.clone()) }, scheme: if ch.pct(50) { Some("http".into()) } else { None } }];
    if ch.pct(50) {
      t.push(ProviderTransport { transport: "message".into(), port: Some(9090), path: Some(mbase.clone()), scheme: None });
    } else {
      t.insert(0, ProviderTransport { transport: "async-message".into(), port: Some(9090), path: Some(mbase.clone()), scheme: None });
      t.insert(0, ProviderTransport { transport: "sync-message".into(), port: Some(9090), path: Some(mbase.clone()), scheme: Some("http".into()) });
    }
    if ch.pct(40) { t.insert(ch.below(t.len() + 1), ProviderTransport { transport: "alt".into(), port: Some(7070), path: Some(ch.pick(&["", "/alt", "/alt/"]).to_string()), scheme: None }); }
    ProviderInfo { name: name.clone(), host: "provider.test".into(), transports: t, ..ProviderInfo::default() }
  } else {
    ProviderInfo { name: name.clone(), protocol: "http".into(), host: "provider.test".into(), port: if ch.pct(70) { Some(8080) } else { None }, path: base.clone(), transports: vec![] }
  };
  #[allow(deprecated)]
  let http = if transports || provider.port.is_some() { "provider.test:8080" } else { "provider.test" }.to_string();
  let msgs = if transports { ("provider.test:9090".to_string(), mbase) } else { (http.clone(), base.clone()) };
  let mut s = Setup { provider, sources: vec![], fs: SimFs::new(), filter: FilterInfo::None, consumers: vec![], custom: vec![], request_filter: ch.pct(20), no_pacts_is_error: ch.pct(75), coloured: ch.pct(50),
    timeout: *ch.pick(&[5000, 500, 30_000]), states_url: ch.pct(if f == Focus::States { 95 } else { 60 }), teardown: ch.pct(60), in_body: ch.pct(65), retries: *ch.pick(&[3, 1, 2, 3, 2, 0]), publish: None,
    hosts: All { http: (http, base), msgs, ..All::default() } };
  if let Some(t) = s.provider.transports.iter().find(|t| t.transport == "alt") { s.hosts.alt = Some(("provider.test:7070".into(), t.path.clone().unwrap())); }
  let has_alt = s.hosts.alt.is_some();
  let mut gid = 0;
  let consumers = ["C1", "C2", "C 3"];
  let mut b = Broker::new(ch, &name);
  let mut one = |ch: &mut Choices, provider: &str, broker: bool| {
    let least = if ch.pct(5) { 0 } else { 1 };
    let n = ch.count(least, if f == Focus::States { 4 } else { 3 });
    let c = ch.pick(&consumers).to_string();
    let mut d = docs::doc(ch, &mut gid, provider, &c, n, broker);
    if has_alt && d.spec == Spec::V4 { for i in d.ixs.iter_mut().filter(|i| i.kind == Kind::Http) { i.alt = ch.pct(40); } }
    d
  };
  let n = if f == Focus::Publish { ch.count(0, 3) } else if ch.pct(50) { ch.count(0, 2) } else { 0 };
  for _ in 0..n { let d = one(ch, &name, true); b.add(ch, d); }
  if f == Focus::Stalls || ch.pct(60) { for p in b.pacts.iter_mut() { p.held = Held::Fine; } }
  if f != Focus::Stalls && ch.pct(8) { b.quirk = *ch.pick(&[Quirk::NoIndexLink, Quirk::IndexNotHal, Quirk::NoSuchProvider, Quirk::ListingWithoutLinks, Quirk::EmptyList, Quirk::OddListing]); b.odd = ch.below(3); }
  let mut had_dynamic = false;
  for k in 0..ch.count(1, 3) {
    let kind = if f == Focus::Publish && ch.pct(75) { 5 + ch.below(4) } else { ch.below(9) };
    let bad = f != Focus::Stalls && ch.pct(8);
    match kind {
      0 | 1 => {
        let path = format!("/sim/pacts/f{}.json", k);
        if bad {
          match ch.below(3) { 0 => (), _ => { let t = broken_file(ch); s.fs.put(&path, t.as_bytes()) } }
          s.sources.push(Src::File(path, None));
        } else {
          let d = one(ch, &name, false);
          s.fs.put(&path, d.json().to_string().as_bytes());
          s.sources.push(Src::File(path, Some(d)));
        }
      }
      2 => {
        let dir = format!("/sim/dir{}", k);
        s.fs.put(&format!("{}/.keep", dir), b"");
        let _ = s.fs.unlink(&format!("{}/.keep", dir), false);
        let mut held: Vec<(String, Option<Doc>)> = vec![];
        for j in 0..ch.count(0, 4) {
          let path = format!("{}{}/p{}{}", dir, ch.pick(&["", "", "/sub", "/sub/deep", "/zub"]), j, ch.pick(&[".json", ".json", ".txt"]));
          if bad && ch.pct(40) { let t = broken_file(ch); s.fs.put(&path, t.as_bytes()); held.push((path, None)); continue }
          let p = if ch.pct(75) { name.clone() } else { "Another".into() };
          let d = one(ch, &p, false);
          s.fs.put(&path, d.json().to_string().as_bytes());
          held.push((path, Some(d)));
        }
        let mut order = vec![];
        fn scan(fs: &SimFs, dir: &str, out: &mut Vec<String>) { for (n, d) in fs.list(dir).unwrap_or_default() { if n == "." || n == ".." { continue } let p = format!("{}/{}", dir, n); if d { scan(fs, &p, out) } else { out.push(p) } } }
        scan(&s.fs, &dir, &mut order);
        let docs = order.iter().filter_map(|p| held.iter().find(|(q, _)| p == q)).map(|(_, d)| d.clone()).filter(|d| d.as_ref().map(|d| d.provider == name).unwrap_or(true)).collect();
        s.sources.push(Src::Dir(dir, docs));
      }
      3 => if bad { s.sources.push(if ch.pct(50) { Src::Unknown } else { Src::Text(None) }) } else { let d = one(ch, &name, false); s.sources.push(Src::Text(Some(d))) },
      4 => {
        let url = format!("files.test/p{}.json", k);
        if bad { s.sources.push(Src::Url(url, None)); }
        else { let d = one(ch, &name, false); s.hosts.web.pages.push((url.clone(), Page::Doc(d.json().to_string()))); s.sources.push(Src::Url(url, Some(d))); }
      }
      5 => s.sources.push(Src::Latest),
      6 if !b.pacts.is_empty() => { let n = ch.below(b.pacts.len()); s.sources.push(if ch.pct(50) { Src::BrokerPage(n) } else { Src::Webhook(n) }) }
      _ => if !had_dynamic { had_dynamic = true; let d = dynamic(ch); s.sources.push(Src::Dynamic(d)) } else { s.sources.push(Src::Latest) }
    }
  }
  // ways the provider answers
  let good = if f == Focus::Publish { 75 } else { 65 };
  let mut all: Vec<&mut Ix> = vec![];
  for p in b.pacts.iter_mut() { all.extend(p.doc.ixs.iter_mut()); }
  for x in s.sources.iter_mut() { match x { Src::File(_, Some(d)) | Src::Text(Some(d)) | Src::Url(_, Some(d)) => all.extend(d.ixs.iter_mut()), Src::Dir(_, ds) => for d in ds.iter_mut().flatten() { all.extend(d.ixs.iter_mut()) }, _ => () } }
  let bad_provider = ch.pct(70);
  for i in all {
    let p = i.plans();
    i.plan = if !bad_provider || ch.pct(good) { if ch.pct(50) { Plan::Good } else { Plan::Variant } } else { *ch.pick(&p) };
    s.hosts.ixs.push(i.clone());
  }
  if f != Focus::Stalls && ch.pct(if f == Focus::Verdict { 30 } else { 12 }) {
    let d = ch.pick(&["get", "request 1", "^list", "request [12]$", "nothing like this"]).to_string();
    let t = ch.pick(&["exists", "^user", "", "the database", "no state"]).to_string();
    s.filter = match ch.below(3) { 0 => FilterInfo::Description(d), 1 => FilterInfo::State(t), _ => FilterInfo::DescriptionAndState(d, t) };
  }
  if f != Focus::Stalls && ch.pct(15) { s.consumers = (0..ch.count(1, 2)).map(|_| ch.pick(&["C1", "C2", "C 3", "C9"]).to_string()).collect(); }
  if ch.pct(25) { s.custom.push(("X-Custom".into(), "c".into())); }
  if ch.pct(15) { s.custom.push(("Authorization".into(), "Bearer zzz".into())); }
  if ch.pct(if f == Focus::Publish { 90 } else { 30 }) {
    s.publish = Some(PublishOptions { provider_version: if ch.pct(97) { Some(ch.pick(&["1.0.0", "1/2 beta"]).to_string()) } else { None }, build_url: if ch.pct(30) { Some("http://ci/1".into()) } else { None },
      provider_tags: (0..ch.below(3)).map(|k| ch.pick(&["main", "a b", "t/x"]).to_string() + &k.to_string()).collect(), provider_branch: if ch.pct(40) { Some(ch.pick(&["main", "feat/ü"]).to_string()) } else { None } });
  }
  s.hosts.broker = Some(b);
  s
}

type Verified = Result<VerificationExecutionResult, String>;
fn run(s: &Setup, w: &Arc<Mutex<World>>, seed: u64) -> Ran<Verified> {
  let b = s.hosts.broker.as_ref().unwrap();
  let auth = Some(b.auth.http());
  let sources: Vec<PactSource> = s.sources.iter().map(|x| match x {
    Src::File(p, _) => PactSource::File(p.clone()),
    Src::Dir(p, _) => PactSource::Dir(p.clone()),
    Src::Text(d) => PactSource::String(d.as_ref().map(|d| d.json().to_string()).unwrap_or("{".into())),
    Src::Url(u, _) => PactSource::URL(format!("http://{}", u), None),
    Src::BrokerPage(n) => PactSource::URL(format!("http://{}{}{}", b.host(), b.root, b.pacts[*n].path), auth.clone()),
    Src::Webhook(n) => PactSource::WebhookCallbackUrl { pact_url: format!("http://{}{}{}", b.host(), b.root, b.pacts[*n].path), broker_url: b.url.clone(), auth: auth.clone() },
    Src::Latest => PactSource::BrokerUrl(b.provider.clone(), b.url.clone(), auth.clone(), vec![]),
    Src::Dynamic(d) => PactSource::BrokerWithDynamicConfiguration { provider_name: b.provider.clone(), broker_url: b.url.clone(), enable_pending: d.pending, include_wip_pacts_since: d.wip.clone(),
      provider_tags: d.tags.clone(), provider_branch: d.branch.clone(), selectors: d.selectors.clone(), auth: auth.clone(), links: vec![] },
    Src::Unknown => PactSource::Unknown
  }).collect();
  let options = VerificationOptions { request_filter: if s.request_filter { Some(Arc::new(Filter)) } else { None }, disable_ssl_verification: false, request_timeout: s.timeout,
    custom_headers: s.custom.iter().cloned().collect(), coloured_output: s.coloured, no_pacts_is_error: s.no_pacts_is_error };
  let exec = Arc::new(HttpRequestProviderStateExecutor { state_change_url: if s.states_url { Some("http://states.test/setup".into()) } else { None }, state_change_teardown: s.teardown, state_change_body: s.in_body, reties: s.retries });
  let (provider, filter, consumers, publish) = (s.provider.clone(), s.filter.clone(), s.consumers.clone(), s.publish.clone());
  process(w, seed, s.fs.clone(), move || Box::pin(async move {
    verify_provider_async(provider, sources, filter, consumers, &options, publish.as_ref(), &exec, None).await.map_err(|e| e.to_string())
  }))
}

fn selected(f: &FilterInfo, i: &Ix) -> bool {
  let has = |re: &str, t: &str| regex::Regex::new(re).unwrap().is_match(t);
  let state = |re: &str| if i.states.is_empty() { re.is_empty() } else { !re.is_empty() && i.states.iter().any(|s| has(re, &s.0)) };
  match f { FilterInfo::None => true, FilterInfo::Description(d) => has(d, &i.desc), FilterInfo::State(s) => state(s), FilterInfo::DescriptionAndState(d, s) => has(d, &i.desc) && state(s) }
}

/// Where a published result goes.
#[derive(Clone)]
struct Loaded { doc: Doc, pact: Option<usize>, context: bool }
#[derive(Debug)]
struct Expected { pending: bool, ok: Option<bool>, mismatch: Option<Vec<&'static str>>, whole: bool, ready: bool }

struct Judge<'a> { s: &'a Setup, w: Walk<'a>, out: Vec<(&'static str, String, String)>, lost: bool }
impl<'a> Judge<'a> {
  fn bad(&mut self, p: &'static str, class: &str, detail: String) { self.out.push((p, class.into(), detail)); }
  /// the log says something else than what has to happen
  fn lose<T>(&mut self, p: &'static str) -> Option<T> {
    let (c, d) = self.w.wrong.take().unwrap_or(("lost", "".into()));
    self.out.push((p, c.into(), d));
    self.lost = true;
    None
  }
  fn sources(&mut self) -> Option<Vec<Result<Loaded, Miss>>> {
    let b = self.s.hosts.broker.as_ref().unwrap();
    let mut out = vec![];
    let file = |d: &Option<Doc>| d.clone().map(|doc| Loaded { doc, pact: None, context: false }).ok_or(Miss::Other);
    for x in &self.s.sources {
      match x {
        Src::File(_, d) | Src::Text(d) => out.push(file(d)),
        Src::Dir(_, ds) => out.extend(ds.iter().map(file)),
        Src::Unknown => out.push(Err(Miss::Other)),
        Src::Url(u, d) => {
          let (host, path) = u.split_once('/').unwrap();
          let g = match self.w.once("fetching a pact", "GET", host, &format!("/{}", path)) { Some(g) => g, None => return self.lose("C15") };
          out.push(if g.json().is_some() { file(d) } else { Err(Miss::Other) });
        }
        Src::BrokerPage(n) | Src::Webhook(n) => {
          let g = match self.w.once("fetching a pact", "GET", b.host(), &format!("{}{}", b.root, b.pacts[*n].path)) { Some(g) => g, None => return self.lose("C15") };
          out.push(if g.json().is_some_and(|v| v.is_object()) { Ok(Loaded { doc: b.pacts[*n].doc.clone(), pact: Some(*n), context: false }) } else { Err(Miss::Other) });
        }
        Src::Latest | Src::Dynamic(_) => {
          let r = match x { Src::Dynamic(d) => self.w.dynamic(b, &d.request), _ => self.w.latest(b) };
          if self.w.wrong.is_some() { return self.lose("C13") }
          let context = matches!(x, Src::Dynamic(_));
          match r.unwrap() {
            Err(m) => out.push(Err(m)),
            Ok(v) => out.extend(v.into_iter().map(|r| r.map(|n| Loaded { doc: b.pacts[n].doc.clone(), pact: Some(n), context })))
          }
        }
      }
    }
    out.retain(|r| self.s.consumers.is_empty() || match r { Ok(l) => self.s.consumers.contains(&l.doc.consumer), Err(_) => true });
    Some(out)
  }
  fn is_state_call(&self, e: &Entry, name: &str, params: &[(String, Value)], action: &str) -> bool {
    if e.host != "states.test" || e.method != "POST" || e.path != "/setup" { return false }
    if self.s.in_body {
      let b: Value = serde_json::from_slice(&e.body).unwrap_or_default();
      e.query.is_none() && b == json!({"state": name, "action": action, "params": params.iter().cloned().collect::<serde_json::Map<_, _>>()})
    } else {
      let mut got: Vec<(String, String)> = url::form_urlencoded::parse(e.query.clone().unwrap_or_default().as_bytes()).into_owned().collect();
      let mut want: Vec<(String, String)> = params.iter().map(|(k, v)| (k.clone(), match v { Value::String(s) => s.clone(), v => v.to_string() })).collect();
      want.push(("state".into(), name.into()));
      want.push(("action".into(), action.into()));
      got.sort(); want.sort();
      got == want && e.body.is_empty()
    }
  }
  fn interaction(&mut self, i: &Ix) -> Option<Expected> {
    let states: Vec<(String, Vec<(String, Value)>)> = if i.states.is_empty() { vec![(String::new(), vec![])] } else { i.states.clone() };
    let mut context: Vec<(String, Value)> = i.states.iter().flat_map(|s| s.1.clone()).collect();
    let mut done = vec![];
    if self.s.states_url {
      let mut w = Walk::new(self.w.log, self.w.pos);
      for s in &states {
        let me: &Judge = self;
        let r = w.exchange(&format!("setting up '{}' for '{}'", s.0, i.desc), "POST", "states.test", "/setup", self.s.retries.max(1) as usize, |e| me.is_state_call(e, &s.0, &s.1, "setup"));
        let Some(g) = r else { self.w.wrong = w.wrong; return self.lose("C16") };
        let json_type = g.0.is_some_and(|e| e.answer.is("content-type").first().is_some_and(|c| c.starts_with("application/json")));
        let ok = g.ok() && (!json_type || g.0.unwrap().read());
        if ok { if let Some(Value::Object(m)) = g.json().filter(|_| json_type) { context.extend(m); } }
        done.push(ok);
      }
      if let Some((c, d)) = w.wrong.take() { self.bad("C16", c, d); }
      self.w.pos = w.pos;
    } else { done = vec![true; states.len()]; }
    let ready = done.iter().all(|d| *d);
    let mut x = Expected { pending: i.pending, ok: Some(false), mismatch: None, whole: false, ready };
    if ready {
      let (host, base) = self.s.hosts.place(i).clone();
      let Some(e) = self.w.peek().filter(|e| e.host == host && self.s.hosts.find(e).map(|f| f.gid) == Some(i.gid)) else {
        let d = format!("the request of '{}' is not sent; instead: {}", i.desc, self.w.peek().map(|e| e.text()).unwrap_or("nothing".into()));
        self.bad("C15", "request-not-sent", d);
        self.lost = true;
        return None
      };
      self.w.pos += 1;
      let mut custom = self.s.custom.clone();
      if self.s.request_filter { custom.push(("X-Filter".into(), "yes".into())); }
      if let Some(d) = i.wrong_request(e, &base, &context, &custom) {
        self.bad("C15", "wrong-request", format!("{}: {}", i.desc, d));
        if i.gens.0 || i.gens.1 || i.gens.2 { self.bad("C16", "wrong-request", format!("{}: {}", i.desc, d)); }
      }
      x.whole = e.replied && e.read();
      let fine = x.whole && i.accepts(&e.answer);
      x.ok = Some(fine);
      if x.whole && !fine && (i.kind == Kind::Http || (200..300).contains(&e.answer.status)) {
        x.mismatch = Some(if e.fate != Fate::Normal { vec![] } else {
          match i.plan {
            Plan::WrongStatus => vec!["StatusMismatch"],
            Plan::MissingHeader | Plan::WrongHeader => vec!["HeaderMismatch"],
            Plan::WrongMeta | Plan::NoMeta => vec!["MetadataMismatch"],
            _ => vec!["BodyMismatch", "BodyTypeMismatch"]
          }
        });
      }
    }
    else if let Some(e) = self.w.peek() {
      if e.host == self.s.hosts.place(i).0 && self.s.hosts.find(e).map(|f| f.gid) == Some(i.gid) {
        let d = format!("the request of '{}' is sent after a failed setup: {}", i.desc, e.text());
        self.bad("C16", "request-after-failed-setup", d);
        self.lost = true;
        return None
      }
    }
    if self.s.states_url && self.s.teardown {
      let mut left: Vec<usize> = (0..states.len()).collect();
      loop {
        let Some(e) = self.w.peek() else { break };
        let Some(k) = left.iter().position(|&k| self.is_state_call(e, &states[k].0, &states[k].1, "teardown")) else { break };
        let s = &states[left.remove(k)];
        let mut w = Walk::new(self.w.log, self.w.pos);
        let me: &Judge = self;
        let r = w.exchange(&format!("tearing down '{}' for '{}'", s.0, i.desc), "POST", "states.test", "/setup", self.s.retries.max(1) as usize, |e| me.is_state_call(e, &s.0, &s.1, "teardown"));
        let Some(g) = r else { self.w.wrong = w.wrong; return self.lose("C16") };
        if let Some((c, d)) = w.wrong.take() { self.bad("C16", c, d); }
        self.w.pos = w.pos;
        let json_type = g.0.is_some_and(|e| e.answer.is("content-type").first().is_some_and(|c| c.starts_with("application/json")));
        if !(g.ok() && (!json_type || g.0.unwrap().read())) && x.ok == Some(true) { x.ok = None; }
      }
      let forgotten: Vec<&str> = left.iter().filter(|&&k| done[k]).map(|&k| states[k].0.as_str()).collect();
      if !forgotten.is_empty() { let d = format!("'{}': {:?} not torn down", i.desc, forgotten); self.bad("C16", "not-torn-down", d); }
    }
    Some(x)
  }
  /// The publication of one pact. Gives whether the result has been accepted; None if unknown.
  fn publish(&mut self, n: usize, results: &[(&Ix, bool)]) -> Option<bool> {
    let b = self.s.hosts.broker.as_ref().unwrap();
    let p = self.s.publish.as_ref().unwrap();
    let Some(version) = &p.provider_version else { return Some(false) };
    macro_rules! ex { ($what:expr, $m:expr, $path:expr) => { match self.w.exchange($what, $m, b.host(), &$path, 3, |_| true) { Some(g) => g, None => return self.lose("C14") } } }
    macro_rules! fine { ($g:expr) => { if $g.hal().is_none() { return Some(false) } } }
    if let Some(branch) = &p.provider_branch {
      let g = ex!("publishing the branch", "GET", b.provider_path()); fine!(g);
      let g = ex!("publishing the branch", "PUT", b.branch_path(version, branch)); fine!(g);
    }
    if !p.provider_tags.is_empty() {
      let g = ex!("publishing the tags", "GET", b.provider_path()); fine!(g);
      for t in &p.provider_tags { let g = ex!("publishing the tags", "PUT", b.tag_path(version, t)); fine!(g); }
    }
    let first = self.w.pos;
    let g = ex!("publishing the result", "POST", b.publish_path(n));
    let body: Value = serde_json::from_slice(&self.w.log[first].body).unwrap_or_default();
    let all = results.iter().all(|r| r.1);
    if body["success"] != json!(all) { self.bad("C14", "wrong-verdict", format!("published success={} for pact {} with results {:?}", body["success"], n, results.iter().map(|r| (r.0.desc.clone(), r.1)).collect::<Vec<_>>())); }
    if body["providerApplicationVersion"] != json!(version) { self.bad("C14", "wrong-version", format!("published version {}", body["providerApplicationVersion"])); }
    if body["buildUrl"] != p.build_url.as_ref().map(|u| json!(u)).unwrap_or_default() { self.bad("C14", "wrong-build-url", format!("published build url {}", body["buildUrl"])); }
    let tests = body["testResults"].as_array().cloned().unwrap_or_default();
    let mut want: Vec<(Value, Value)> = results.iter().map(|r| (json!(r.0.bid), json!(r.1))).collect();
    let mut got: Vec<(Value, Value)> = tests.iter().map(|t| (t["interactionId"].clone(), t["success"].clone())).collect();
    let key = |x: &(Value, Value)| x.0.to_string();
    want.sort_by_key(key); got.sort_by_key(key);
    if want != got { self.bad("C14", "wrong-results", format!("published {:?} instead of {:?}", got, want)); }
    for t in &tests { if t["success"] == json!(false) && t["mismatches"].as_array().map(|a| a.is_empty()).unwrap_or(true) && t["exceptions"].as_array().map(|a| a.is_empty()).unwrap_or(true) { self.bad("C14", "no-reason", format!("published without a reason: {}", t)); } }
    let _ = g;
    Some(g.hal().is_some())
  }
}

fn judge<'a>(s: &'a Setup, log: &'a [Entry], got: &Verified, o: &mut Outcome) -> Vec<(&'static str, String, String)> {
  let mut j = Judge { s, w: Walk::new(log, 0), out: vec![], lost: false };
  let Ok(got) = got else { j.bad("C15", "no-result", format!("verify_provider_async fails: {}", got.as_ref().unwrap_err())); return j.out };
  if got.result != got.errors.is_empty() { j.bad("C15", "result", format!("result {} with {} errors", got.result, got.errors.len())); }
  let Some(items) = j.sources() else { return j.out };
  let mut results: Vec<(Expected, Ix)> = vec![];
  // what has to be in errors: None for a source, Some for an interaction
  let mut at = 0;
  let mut loads = (0usize, 0usize);
  let mut notices: Vec<(usize, Vec<String>)> = vec![];
  for item in &items {
    match item {
      Err(m) => match m { Miss::Other => loads.0 += 1, _ if s.no_pacts_is_error => loads.0 += 1, Miss::Unsure => loads.1 += 1, Miss::NoPacts => () },
      Ok(l) => {
        let pact = l.pact.map(|n| &s.hosts.broker.as_ref().unwrap().pacts[n]);
        let mut stages: Option<Vec<&str>> = Some(vec!["before_verification"]);
        if !l.doc.ixs.is_empty() {
          let mut mine = vec![];
          for i in l.doc.ixs.iter().filter(|i| selected(&s.filter, i)) {
            let Some(mut x) = j.interaction(i) else { return j.out };
            x.pending = i.pending || (l.context && pact.is_some_and(|p| p.pending));
            // what the verifier says about it
            let reported = got.interaction_results.get(at);
            let said = reported.map(|r| r.result.is_ok());
            at += 1;
            match reported {
              Some(r) if r.interaction_description == i.desc => {
                if let Some(ok) = x.ok {
                  if r.result.is_ok() && !x.ready { j.bad("C16", "passed-without-states", format!("'{}' is reported as passed", i.desc)); }
                  if r.result.is_ok() && !ok { j.bad("C15", "passed", format!("'{}' is reported as passed", i.desc)); }
                  if r.result.is_err() && ok { j.bad("C15", "failed", format!("'{}' is reported as failed: {:?}", i.desc, r.result.as_ref().err())); }
                }
                if r.pending != x.pending { j.bad("C15", "pending", format!("'{}' is reported with pending={}", i.desc, r.pending)); }
                if r.interaction_id != i.bid { j.bad("C15", "interaction-id", format!("'{}' is reported with id {:?}", i.desc, r.interaction_id)); }
                if let Err(e) = &r.result {
                  match (&x.mismatch, VerificationMismatchResult::from(e)) {
                    (Some(kinds), VerificationMismatchResult::Mismatches { mismatches, interaction_id }) => {
                      if mismatches.is_empty() { j.bad("C15", "no-mismatches", format!("'{}' has an empty list of mismatches", i.desc)); }
                      if !kinds.is_empty() && mismatches.iter().any(|m| !kinds.contains(&m.mismatch_type())) { j.bad("C15", "wrong-mismatches", format!("'{}' ({:?}): {:?}", i.desc, i.plan, mismatches)); }
                      if interaction_id != i.bid { j.bad("C15", "interaction-id", format!("'{}' has mismatches with id {:?}", i.desc, interaction_id)); }
                    }
                    (Some(_), VerificationMismatchResult::Error { error, .. }) => j.bad("C15", "mismatch-hidden", format!("'{}' ({:?}) is reported as {}", i.desc, i.plan, error)),
                    (None, VerificationMismatchResult::Mismatches { mismatches, .. }) => if !x.whole { j.bad("C15", "mismatches-of-nothing", format!("'{}': {:?}", i.desc, mismatches)) },
                    _ => ()
                  }
                }
              }
              r => { j.bad("C15", "not-reported", format!("'{}' is not in the results; instead: {:?}", i.desc, r.map(|r| &r.interaction_description))); return j.out }
            }
            mine.push((i, x.ok.or(said).unwrap_or(false)));
            o.probe(match x.ok { Some(true) => "interaction passed", Some(false) => if x.mismatch.is_some() { "interaction mismatched" } else { "interaction failed" }, None => "teardown failed" });
            results.push((x, i.clone()));
          }
          let whole = mine.len() == l.doc.ixs.len();
          let ok = mine.iter().all(|m| m.1);
          let mut published = Some(false);
          if s.publish.is_some() && l.pact.is_some() && whole {
            published = j.publish(l.pact.unwrap(), &mine);
            if j.lost { return j.out }
            o.probe(match published { Some(true) => "result published", _ => "publication failed" });
          }
          match published {
            _ if mine.is_empty() => stages = None,
            Some(p) => { let st = STAGES.iter().find(|x| **x == format!("after_verification:success_{}_published_{}", ok, p)).unwrap(); stages.as_mut().unwrap().push(st) },
            None => stages = None
          }
        }
        if let (true, Some(p), Some(st)) = (l.context, pact, stages) {
          notices.push((l.pact.unwrap(), st.iter().flat_map(|s| p.notices.iter().filter(move |n| n.0 == *s).map(|n| n.1.clone())).collect()));
        }
      }
    }
  }
  j.w.end();
  if let Some((c, d)) = j.w.wrong.take() {
    let p = match j.w.peek() { Some(e) if e.host == "states.test" => "C16", Some(e) if e.host.starts_with("broker.test") => "C14", _ => "C15" };
    j.bad(p, c, d);
  }
  if got.interaction_results.len() != at { j.bad("C15", "extra-results", format!("{} results for {} interactions", got.interaction_results.len(), at)); }
  // errors: one for each failed non-pending interaction and one for each source that could not be loaded
  for (list, pending) in [(&got.errors, false), (&got.pending_errors, true)] {
    let mut left: Vec<&str> = list.iter().map(|e| e.0.as_str()).collect();
    let mut said = got.interaction_results.iter();
    for (x, i) in &results {
      let ok = said.next().map(|r| r.result.is_ok()).unwrap_or(false);
      let failed = match x.ok { Some(ok) => !ok, None => !ok };
      if !failed || x.pending != pending { continue }
      match left.iter().position(|d| d.ends_with(&format!(" - {}", i.desc))) {
        Some(k) => { left.remove(k); }
        None => j.bad("C15", "no-error", format!("no entry in {} for '{}'", if pending { "pending_errors" } else { "errors" }, i.desc))
      }
    }
    if !pending {
      let loads_said = left.iter().filter(|d| **d == "Failed to load pact").count();
      if loads_said < loads.0 || loads_said > loads.0 + loads.1 { j.bad("C15", "source-errors", format!("{} errors for {} sources or pacts that could not be loaded", loads_said, loads.0)); }
      left.retain(|d| *d != "Failed to load pact");
    }
    if !left.is_empty() { j.bad("C15", "extra-errors", format!("{} has entries for {:?}", if pending { "pending_errors" } else { "errors" }, left)); }
  }
  for (n, want) in notices {
    let suffix = format!(" for {}", n);
    let shown: Vec<String> = got.output.iter().filter(|l| l.starts_with("notice ") && l.ends_with(&suffix)).cloned().collect();
    if shown != want { j.bad("C14", "notices", format!("pact {} shows {:?} instead of {:?}", n, shown, want)); }
  }
  j.out
}

fn scenario(ch: &mut Choices, f: Focus, id: &'static str) -> Outcome {
  let mut o = Outcome::default();
  let mut s = setup(ch, f);
  if s.states_url && f != Focus::Stalls { s.hosts.refusals = *ch.pick(if f == Focus::States { &[0, 15, 40] } else { &[0, 0, 10] }); }
  let w = world(ch, s.hosts.clone());
  let broker = s.hosts.broker.as_ref().unwrap().host().to_string();
  {
    let mut w = w.lock().unwrap();
    let w = &mut *w;
    for h in ["provider.test:8080", "provider.test:9090", "provider.test:7070", "provider.test", "states.test"] { w.patience.insert(h.into(), s.timeout); }
    w.patience.insert(broker.clone(), 60_000);
    w.menu = ALL;
    match f {
      Focus::Stalls => { w.menu = STALLS; w.rate = *w.ch.pick(&[150, 50, 400]); }
      _ => w.rate = *w.ch.pick(&[100, 0, 30, 250])
    }
    let calm: &[&str] = match f { Focus::Publish => &["files.test"], Focus::States => &["broker.test", "files.test", "broker.test:9292"], _ => &[] };
    w.calm = calm.iter().map(|c| c.to_string()).collect();
    match f {
      Focus::Publish => match w.ch.below(4) { 0 => w.calm.extend(["provider.test:8080".into(), "provider.test:9090".into(), "provider.test:7070".into(), "provider.test".into(), "states.test".into()]), 1 => w.calm.push(broker.clone()), 2 => w.menu = FLAKY_5XX, _ => () },
      Focus::Verdict => match w.ch.below(4) { 0 => w.calm.push(broker.clone()), 1 => w.calm.push("states.test".into()), _ => () },
      Focus::States => match w.ch.below(3) { 0 => w.calm.extend(["provider.test:8080".into(), "provider.test:9090".into(), "provider.test:7070".into(), "provider.test".into()]), 1 => w.menu = FLAKY_5XX, _ => () },
      Focus::Stalls => ()
    }
    if f == Focus::Stalls && w.ch.fault_pct(15) {
      let hosts = [broker.as_str(), broker.as_str(), "states.test", s.hosts.http.0.as_str(), s.hosts.msgs.0.as_str(), "files.test"];
      let h = hosts[w.ch.fault(hosts.len())].to_string();
      let f = [Fate::Status(503), Fate::Status(500), Fate::Never, Fate::Refused, Fate::Late(3_600_000)][w.ch.fault(5)].clone();
      w.down = Some((h, f));
    }
    if f != Focus::Stalls && w.ch.fault_pct(8) { let a = w.ch.fault(12); w.outage = Some((a, a + 1 + w.ch.fault(6))); }
  }
  let ran = run(&s, &w, 15);
  o.sample = format!("{} sources, {} interactions, filter {:?}, publishing {}", s.sources.len(), s.hosts.ixs.len(), s.filter, s.publish.is_some());
  let endless = ran.endless || w.lock().unwrap().log.iter().any(|e| e.hung);
  {
    let w = w.lock().unwrap();
    note(&mut o, &w);
    o.sim_ns = ran.took.as_nanos() as i64;
    o.steps = w.log.len() as u64;
    o.nontrivial = w.log.len() > 1;
    let mut vs: Vec<(&'static str, String, String)> = vec![];
    match &ran.result {
      Err(_) if endless => { o.probe("endless"); }
      Err(p) => vs.push(("C15", format!("panic:{}", panic_class(p)), p.clone())),
      Ok(r) => {
        if let Ok(r) = r { o.observe(&format!("{} {:?} {:?} {:?}", r.result, r.errors, r.pending_errors, r.interaction_results.iter().map(|i| (i.interaction_description.clone(), i.result.is_ok(), i.pending)).collect::<Vec<_>>())); o.probe(if r.result { "verification passed" } else { "verification failed" }); }
        vs.extend(judge(&s, &w.log, r, &mut o));
      }
    }
    if endless {
      let e = w.log.iter().rev().find(|e| e.fate != Fate::Normal).map(|e| e.text()).unwrap_or_default();
      vs.push(("C18", format!("endless:{}", if e.contains("broker.test") { "broker" } else { "other" }), format!("the verification never ends: {}", e)));
    }
    let limit = |e: &Entry| if e.host.starts_with("provider") || e.host == "states.test" { s.timeout } else if e.blocking { 31_000 } else { 120_000 } + 1_050;
    for (k, e) in w.log.iter().enumerate() {
      let end = w.log.get(k + 1).map(|n| n.at).unwrap_or(ran.took);
      if !ran.endless && end.saturating_sub(e.at) > Duration::from_millis(limit(e)) { vs.push(("C18", format!("late:{}", e.host.split('.').next().unwrap()), format!("{:?} after {}", end - e.at, e.text()))); }
    }
    if w.log.len() >= TOO_MANY { vs.push(("C18", "too-many-requests".into(), format!("{} requests; the last one: {}", w.log.len(), w.log[w.log.len() - 1].text()))); }
    let panicked = matches!(&ran.result, Err(_) if !endless);
    for (p, c, d) in vs { if p == id || panicked { o.violate(c, d); } }
  }
  if f == Focus::Stalls {
    // the faults are over: the next verification has to succeed
    for i in s.hosts.ixs.iter_mut() { i.plan = Plan::Good; }
    {
      let mut w = w.lock().unwrap();
      w.rate = 0; w.outage = None; w.down = None; w.log.clear();
      w.hosts = Some(Box::new(s.hosts.clone()));
      if let Some(h) = w.hosts.as_mut() { h.as_any().downcast_mut::<All>().unwrap().refusals = 0; }
    }
    s.no_pacts_is_error = false;
    if let Some(p) = s.publish.as_mut() { p.provider_version.get_or_insert("1".into()); }
    let again = run(&s, &w, 16);
    match &again.result {
      Ok(Ok(r)) if r.result => o.probe("recovered"),
      Ok(r) => o.violate("not-recovered", format!("after the faults: {}", short(&match r { Ok(r) => format!("{:?}", r.errors), Err(e) => e.clone() }))),
      Err(e) => o.violate("not-recovered", format!("after the faults: {}", e))
    }
    o.sim_ns += again.took.as_nanos() as i64;
  }
  give_back(&w, ch);
  o.case = hash_str(&format!("{}{:?}", o.trace.join("\n"), s.filter));
  o
}

pub fn c14(ch: &mut Choices, _t: bool) -> Outcome { scenario(ch, Focus::Publish, "C14") }
pub fn c15(ch: &mut Choices, _t: bool) -> Outcome { scenario(ch, Focus::Verdict, "C15") }
pub fn c16(ch: &mut Choices, _t: bool) -> Outcome { scenario(ch, Focus::States, "C16") }
pub fn c18(ch: &mut Choices, _t: bool) -> Outcome { scenario(ch, Focus::Stalls, "C18") }
