//! The peers of the verifier: provider, state change handler, pact broker, plain web servers.
use base64::Engine;
use pact_models::http_utils::HttpAuth;
use serde_json::{json, Value};
use simcore::choices::Choices;

use crate::docs::{enc, Doc, Ix, Kind, KEYS};
use crate::net::{Answer, Entry, Hosts};

#[derive(Clone, Debug, PartialEq)]
pub enum Auth { None, User(String, Option<String>), Token(String) }
impl Auth {
  pub fn header(&self) -> Option<String> {
    match self {
      Auth::None => None,
      Auth::User(u, p) => Some(format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(format!("{}:{}", u, p.clone().unwrap_or_default())))),
      Auth::Token(t) => Some(format!("Bearer {}", t))
    }
  }
  pub fn http(&self) -> HttpAuth {
    match self { Auth::None => HttpAuth::None, Auth::User(u, p) => HttpAuth::User(u.clone(), p.clone()), Auth::Token(t) => HttpAuth::Token(t.clone()) }
  }
  pub fn any(ch: &mut Choices) -> Auth {
    match ch.below(5) { 0 | 1 => Auth::None, 2 => Auth::User("user".into(), Some("p:w d".into())), 3 => Auth::User("ünï".into(), None), _ => Auth::Token("t0ken".into()) }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Held { Fine, Missing, NotJson, NotPact, NoHref }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quirk { None, NoIndexLink, IndexNotHal, NoSuchProvider, ListingWithoutLinks, EmptyList, OddListing }

#[derive(Clone, Debug)]
pub struct BPact { pub doc: Doc, pub path: String, pub pending: bool, pub notices: Vec<(String, String)>, pub short: String, pub held: Held, pub props: bool }

#[derive(Clone, Debug)]
pub struct Broker { pub url: String, pub ctx: String,
  /// path of everything but the index
  pub root: String, pub relative: bool, pub templated: bool, pub auth: Auth, pub provider: String, pub pacts: Vec<BPact>, pub quirk: Quirk, pub odd: usize,
  /// links have query strings
  pub queries: bool }

pub const STAGES: &[&str] = &["before_verification", "after_verification:success_true_published_true", "after_verification:success_true_published_false",
  "after_verification:success_false_published_true", "after_verification:success_false_published_false"];

impl Broker {
  pub fn new(ch: &mut Choices, provider: &str) -> Broker {
    let (url, ctx) = ch.pick(&[("http://broker.test", ""), ("http://broker.test/", ""), ("http://broker.test/broker", "/broker"), ("http://broker.test/broker/", "/broker"), ("http://broker.test:9292/a/b", "/a/b")]).clone();
    let root = if ch.pct(88) { ctx.to_string() } else { ch.pick(&[format!("{}s", ctx), "/hal".to_string(), String::new(), "/".to_string() + ctx.trim_start_matches('/')]).clone() };
    let root = if root == "s" || root == "/" { "/s".into() } else { root };
    Broker { url: url.into(), ctx: ctx.into(), root, relative: ch.pct(25), templated: ch.pct(75), auth: Auth::any(ch), provider: provider.into(), pacts: vec![], quirk: Quirk::None, odd: 0, queries: ch.pct(15) }
  }
  pub fn host(&self) -> &'static str { if self.url.contains(":9292") { "broker.test:9292" } else { "broker.test" } }
  fn base(&self) -> String { if self.relative { self.root.clone() } else { format!("http://{}{}", self.host(), self.root) } }
  pub fn add(&mut self, ch: &mut Choices, mut doc: Doc) {
    let n = self.pacts.len();
    let b = self.base();
    let path = format!("/pacts/provider/{}/consumer/{}/version/1.0.{}", enc(&self.provider), enc(&doc.consumer), n) + if self.queries { "?metadata=a%20b&n=1" } else { "" };
    let mut l = json!({"self": {"href": format!("{}{}", b, path), "title": "Pact"}, "pb:consumer": {"href": format!("{}/pacticipants/{}", b, enc(&doc.consumer)), "name": doc.consumer}});
    l["pb:publish-verification-results"] = json!({"href": format!("{}/publish/{}{}", b, n, self.publish_query()), "title": "Publish"});
    l["pb:provider"] = json!({"href": format!("{}/pacticipants/{}", b, enc(&self.provider)), "title": "Provider", "name": self.provider});
    l["curies"] = json!([{"name": "pb", "href": "http://doc/{rel}", "templated": true}]);
    doc.links = Some(l);
    let mut notices = vec![];
    for s in STAGES { for k in 0..ch.count(0, 2) { notices.push((s.to_string(), format!("notice {} of {} for {}", k, s, n))); } }
    let held = if ch.pct(85) { Held::Fine } else { *ch.pick(&[Held::Missing, Held::NotJson, Held::NotPact, Held::NoHref]) };
    let props = ch.pct(85);
    self.pacts.push(BPact { short: format!("latest {}", n), path, pending: props && ch.pct(30), notices: if props { notices } else { vec![] }, held, doc, props });
  }
  fn link(&self, p: &BPact) -> Value {
    let mut l = json!({"title": "Pact", "name": format!("Pact between {} and {}", p.doc.consumer, self.provider)});
    if p.held != Held::NoHref { l["href"] = json!(format!("{}{}", self.base(), p.path)); }
    l
  }
  pub fn latest_path(&self) -> String { format!("{}/pacts/provider/{}/latest", self.root, enc(&self.provider)) }
  pub fn dynamic_path(&self) -> String { format!("{}/pacts/provider/{}/for-verification", self.root, enc(&self.provider)) }
  pub fn index_path(&self) -> String { if self.ctx.is_empty() || self.url.ends_with('/') { format!("{}/", self.ctx) } else { self.ctx.clone() } }
  pub fn publish_path(&self, n: usize) -> String { format!("{}/publish/{}{}", self.root, n, self.publish_query()) }
  fn publish_query(&self) -> &'static str { if self.queries { "?build=1" } else { "" } }
  pub fn provider_path(&self) -> String { format!("{}/pacticipants/{}", self.root, enc(&self.provider)) }
  pub fn tag_path(&self, version: &str, tag: &str) -> String { format!("{}/versions/{}/tags/{}", self.provider_path(), enc(version), enc(tag)) }
  pub fn branch_path(&self, version: &str, branch: &str) -> String { format!("{}/branches/{}/versions/{}", self.provider_path(), enc(branch), enc(version)) }
  fn answer(&mut self, e: &Entry) -> Answer {
    if let Some(h) = self.auth.header() { if e.header("authorization") != [h] { return Answer::json(401, &json!({"error": "unauthorised"})) } }
    let b = self.base();
    let (latest, dynamic) = (self.latest_path(), self.dynamic_path());
    let p = e.path.as_str();
    let root = p.trim_end_matches('/') == self.ctx;
    match e.method.as_str() {
      "GET" if root => {
        let name = if self.templated { "{provider}".to_string() } else { enc(&self.provider) };
        let mut l = json!({"self": {"href": b, "title": "Index", "templated": false}});
        if self.quirk != Quirk::NoIndexLink {
          l["pb:latest-provider-pacts"] = json!({"href": format!("{}/pacts/provider/{}/latest", b, name), "title": "Latest", "templated": self.templated});
          l["pb:provider-pacts-for-verification"] = json!({"href": format!("{}/pacts/provider/{}/for-verification", b, name), "title": "For verification", "templated": self.templated});
        }
        match (self.quirk, self.odd % 3) { (Quirk::IndexNotHal, 0) => Answer::json(200, &json!({"hello": 1})), (Quirk::IndexNotHal, 1) => Answer::new(200, "text/html", "<html/>"), (Quirk::IndexNotHal, _) => Answer::new(200, "application/json", "{\"_links\":"), _ => Answer::hal(200, &json!({"_links": l})) }
      }
      "GET" if p == latest || p == dynamic => match self.quirk {
        Quirk::NoSuchProvider => Answer::json(404, &json!({"error": "no such provider"})),
        Quirk::ListingWithoutLinks => Answer::hal(200, &match self.odd % 3 { 0 => json!({"pacts": []}), 1 => json!({"_links": {}}), _ => json!({"_links": {"pacts": {"href": "x"}, "self": "x"}}) }),
        _ => {
          let mut l = json!({"self": {"href": format!("{}/pacts/provider/{}/{}", b, enc(&self.provider), if p == latest { "latest" } else { "for-verification" }), "title": "Pacts"}});
          if p == latest { l["pacts"] = if self.quirk == Quirk::EmptyList { json!([]) } else { json!(self.pacts.iter().map(|p| self.link(p)).collect::<Vec<_>>()) }; }
          Answer::hal(200, &json!({"_links": l}))
        }
      },
      "POST" if p == dynamic => match self.quirk {
        Quirk::EmptyList => Answer::hal(200, &json!({"_embedded": {"pacts": []}, "_links": {}})),
        Quirk::OddListing => Answer::hal(200, &match self.odd % 3 { 0 => json!({"_links": {}}), 1 => json!({"_embedded": {"pacts": [{"shortDescription": 1}]}}), _ => json!({"_embedded": {"pacts": {}}}) }),
        _ => Answer::hal(200, &json!({"_embedded": {"pacts": self.pacts.iter().map(|p| {
          let mut o = json!({"shortDescription": p.short, "_links": {"self": self.link(p)}});
          if p.props {
            o["verificationProperties"] = json!({"notices": p.notices.iter().map(|(w, t)| json!({"when": w, "text": t})).collect::<Vec<_>>()});
            if p.pending || p.notices.len() % 2 == 0 { o["verificationProperties"]["pending"] = json!(p.pending); }
          }
          o
        }).collect::<Vec<_>>()}, "_links": {}}))
      },
      "GET" if p == self.provider_path() => {
        let pb = format!("{}/pacticipants/{}", b, enc(&self.provider));
        Answer::hal(200, &json!({"name": self.provider, "_links": {"self": {"href": pb},
          "pb:version-tag": {"href": format!("{}/versions/{{version}}/tags/{{tag}}", pb), "templated": true},
          "pb:branch-version": {"href": format!("{}/branches/{{branch}}/versions/{{version}}", pb), "templated": true}}}))
      }
      "GET" => match self.pacts.iter().find(|x| format!("{}{}", self.root, x.path) == e.target()) {
        Some(x) => match x.held {
          Held::Missing => Answer::json(404, &json!({"error": "gone"})),
          Held::NotJson => Answer::new(200, "application/json", "{\"consumer\": "),
          Held::NotPact => Answer::hal(200, &match self.odd % 3 { 0 => json!([]), 1 => json!("pact"), _ => json!(1) }),
          _ => Answer::hal(200, &x.doc.json())
        },
        None => Answer::json(404, &json!({"error": "not found"}))
      },
      "PUT" if p.starts_with(&self.provider_path()) => Answer::hal(201, &json!({"name": "x"})),
      "POST" if p.contains("/publish/") => Answer::hal(201, &json!({"success": true})),
      _ => Answer::json(404, &json!({"error": "not found"}))
    }
  }
}

#[derive(Clone, Debug)]
pub enum Page { Doc(String), Moved(u16, String), Loop(u16) }

#[derive(Clone, Debug, Default)]
pub struct Web { pub pages: Vec<(String, Page)>, pub auth: Option<Auth> }

/// Everything that answers requests.
#[derive(Clone, Debug, Default)]
pub struct All {
  pub ixs: Vec<Ix>,
  /// host and base path of HTTP interactions and of messages
  pub http: (String, String),
  pub msgs: (String, String),
  pub alt: Option<(String, String)>,
  pub broker: Option<Broker>,
  pub web: Web,
  /// the state handler refuses per cent of the calls
  pub refusals: u64,
  pub values: usize
}

impl All {
  /// where an interaction is sent to
  pub fn place(&self, i: &Ix) -> &(String, String) {
    match (i.kind, &self.alt) { (Kind::Http, Some(a)) if i.alt => a, (Kind::Http, _) => &self.http, _ => &self.msgs }
  }
  pub fn find(&self, e: &Entry) -> Option<&Ix> {
    let seg = e.path.split('/').find_map(|s| s.strip_prefix('x').and_then(|n| n.parse::<usize>().ok()));
    if let Some(g) = seg { if let Some(i) = self.ixs.iter().find(|i| i.gid == g && i.kind == Kind::Http && e.host == self.place(i).0) { return Some(i) } }
    if e.host == self.msgs.0 {
      let b: Value = serde_json::from_slice(&e.body).ok()?;
      return self.ixs.iter().find(|i| i.kind != Kind::Http && Some(i.desc.as_str()) == b["description"].as_str())
    }
    None
  }
}
impl Hosts for All {
  fn as_any(&mut self) -> &mut dyn std::any::Any { self }
  fn answer(&mut self, e: &Entry, ch: &mut Choices) -> Answer {
    if e.host.starts_with("broker.test") {
      return match self.broker.as_mut() { Some(b) if b.host() == e.host => b.answer(e), _ => Answer::new(404, "", "") }
    }
    if e.host == "states.test" {
      if self.refusals > 0 && ch.fault_pct(self.refusals) { return Answer::new(*ch.pick(&[400, 404, 500, 503, 302]), "text/plain", "no") }
      let object = |values: &mut usize, ch: &mut Choices| { let mut o = json!({}); for k in KEYS { if ch.pct(45) { *values += 1; o[*k] = if ch.pct(80) { json!(format!("S{}", *values)) } else { json!(*values * 1000) }; } } o };
      return match ch.below(10) {
        0 => Answer::new(200, "", ""),
        1 => Answer::new(204, "", ""),
        2 => Answer::new(200, "text/plain", "done"),
        3 => Answer::new(200, "application/json", "not json"),
        4 => Answer::json(200, &json!(["id"])),
        5 => { let o = object(&mut self.values, ch); Answer::new(201, "application/json; charset=utf-8", o.to_string()) }
        _ => { let o = object(&mut self.values, ch); Answer::json(200, &o) }
      }
    }
    if e.host == "files.test" || e.host == "mirror.test" {
      if let Some(a) = &self.web.auth {
        if e.host == "files.test" { if let Some(h) = a.header() { if e.header("authorization") != [h] { return Answer::new(401, "text/plain", "who are you?") } } }
      }
      let full = format!("{}{}{}", e.host, e.path, e.query.as_ref().map(|q| format!("?{}", q)).unwrap_or_default());
      return match self.web.pages.iter().find(|(p, _)| *p == full) {
        Some((_, Page::Doc(d))) => Answer::new(200, "application/json", d.clone()),
        Some((_, Page::Moved(s, to))) => { let mut a = Answer::new(*s, "", ""); a.headers.push(("Location".into(), to.clone())); a }
        Some((_, Page::Loop(s))) => { let mut a = Answer::new(*s, "", ""); a.headers.push(("Location".into(), e.path.clone())); a }
        None => Answer::new(404, "text/plain", "not found")
      }
    }
    match self.find(e) {
      Some(i) => i.answer(),
      None => Answer::new(404, "text/plain", "unknown")
    }
  }
}
