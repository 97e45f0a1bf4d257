//! The simulated network: hosts that answer requests, faults on the way and the log of everything.
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use bytes::Bytes;
use http::header::{HeaderName, HeaderValue};
use http::HeaderMap;
use reqwest::sim::{Reply, SimBody, SimError, SimRequest, SimResponse, Transport};
use simcore::choices::{mix, Choices};
use simcore::driver::last_panic;
use simcore::fs::SimFs;
use simcore::sys::{with_local, Local};

/// What happens to one request on its way to the host and back.
#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
  Normal,
  /// the host cannot be reached
  Refused,
  /// the connection is reset before the host sees the request
  Reset,
  /// the host handles the request, the answer is lost
  Lost,
  /// the host accepts the request and never answers
  Never,
  /// the answer starts after so many milliseconds
  Late(u64),
  /// the body arrives after so many milliseconds
  SlowBody(u64),
  /// the connection breaks in the body
  Broken,
  /// the body ends early and nobody notices
  Cut,
  /// something in front of the host answers with an error
  Status(u16),
  /// something in front of the host answers with a page
  Page
}
impl Fate {
  pub fn name(&self) -> &'static str {
    match self {
      Fate::Normal => "none", Fate::Refused => "connection refused", Fate::Reset => "connection reset", Fate::Lost => "answer lost",
      Fate::Never => "never answered", Fate::Late(_) => "answer late", Fate::SlowBody(_) => "slow body", Fate::Broken => "broken body",
      Fate::Cut => "cut body", Fate::Status(s) if *s >= 500 => "server error", Fate::Status(_) => "client error", Fate::Page => "foreign page"
    }
  }
}

#[derive(Clone, Debug)]
pub struct Answer { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
impl Answer {
  pub fn new(status: u16, content_type: &str, body: impl Into<Vec<u8>>) -> Answer {
    Answer { status, headers: if content_type.is_empty() { vec![] } else { vec![("content-type".into(), content_type.into())] }, body: body.into() }
  }
  pub fn json(status: u16, v: &serde_json::Value) -> Answer { Answer::new(status, "application/json", v.to_string()) }
  pub fn hal(status: u16, v: &serde_json::Value) -> Answer { Answer::new(status, "application/hal+json;charset=utf-8", v.to_string()) }
  pub fn is(&self, name: &str) -> Vec<&str> { self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect() }
}

pub struct Entry {
  pub host: String,
  pub method: String,
  pub path: String,
  pub query: Option<String>,
  pub headers: HeaderMap,
  pub body: Vec<u8>,
  /// when it was sent
  pub at: Duration,
  pub fate: Fate,
  pub blocking: bool,
  /// the host handled it
  pub handled: bool,
  /// the answer started to arrive at a client that was still waiting
  pub replied: bool,
  /// the client has read the whole body
  pub read: Arc<AtomicBool>,
  /// what was sent back, as it arrived
  pub answer: Answer,
  /// a blocking client that has no time limit met a host that never answers
  pub hung: bool
}
impl Entry {
  pub fn header(&self, n: &str) -> Vec<String> { self.headers.get_all(n).iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect() }
  pub fn read(&self) -> bool { self.read.load(Ordering::SeqCst) }
  pub fn target(&self) -> String { format!("{}{}", self.path, self.query.as_ref().map(|q| format!("?{}", q)).unwrap_or_default()) }
  pub fn text(&self) -> String {
    format!("{:>9.3}s {} {}{}{} {} -> {}", self.at.as_secs_f64(), self.method, self.host, self.path, self.query.as_ref().map(|q| format!("?{}", q)).unwrap_or_default(),
      if self.fate == Fate::Normal { String::new() } else { format!("[{}]", self.fate.name()) },
      if self.replied { format!("{}{}", self.answer.status, if self.read() { " read" } else { "" }) } else { "no answer".into() })
      + &if std::env::var_os("SIM_BODIES").is_some() { format!("\n      > {}\n      < {:?} {}", String::from_utf8_lossy(&self.body), self.answer.headers, String::from_utf8_lossy(&self.answer.body)) } else { String::new() }
  }
}

pub trait Hosts: Send {
  fn answer(&mut self, e: &Entry, ch: &mut Choices) -> Answer;
  fn as_any(&mut self) -> &mut dyn std::any::Any;
}

pub struct World {
  pub ch: Choices,
  pub log: Vec<Entry>,
  pub hosts: Option<Box<dyn Hosts>>,
  pub start: Option<tokio::time::Instant>,
  /// simulated time spent in blocking clients
  pub extra: Duration,
  /// faults per mille of the requests, for all hosts
  pub rate: u64,
  /// which faults
  pub menu: &'static [&'static str],
  /// hosts without faults
  pub calm: Vec<String>,
  /// request timeout of the client that talks to a host, to place delays around it
  pub patience: BTreeMap<String, u64>,
  /// an outage: from which request on to which one nobody is reachable
  pub outage: Option<(usize, usize)>,
  /// a host that treats all requests the same way
  pub down: Option<(String, Fate)>
}

/// So many requests in one run are an endless loop.
pub const TOO_MANY: usize = 5_000;

pub const ALL: &[&str] = &["refused", "reset", "lost", "never", "late", "late-ok", "slow", "slow-ok", "broken", "cut", "5xx", "4xx", "page"];
pub const FLAKY_5XX: &[&str] = &["5xx", "5xx", "5xx", "reset", "never"];
pub const STALLS: &[&str] = &["never", "never", "late", "late-ok", "slow", "slow-ok", "5xx", "hours"];

impl World {
  fn now(&self) -> Duration { self.start.map(|s| s.elapsed()).unwrap_or_default() + self.extra }
  fn fate(&mut self, host: &str) -> Fate {
    if self.log.len() >= TOO_MANY { return Fate::Never }
    if let Some((h, f)) = &self.down { if h == host { return f.clone() } }
    if let Some((a, b)) = self.outage { if self.log.len() >= a && self.log.len() < b { return Fate::Refused } }
    if self.rate == 0 || self.calm.iter().any(|c| c == host) || !self.ch.fault_permille(self.rate) { return Fate::Normal }
    let t = *self.patience.get(host).unwrap_or(&30_000);
    let k = self.menu[self.ch.fault(self.menu.len())];
    match k {
      "refused" => Fate::Refused,
      "reset" => Fate::Reset,
      "lost" => Fate::Lost,
      "never" => Fate::Never,
      "late" => Fate::Late(t * 2 + 7),
      "late-ok" => Fate::Late(t / 2 + 1),
      "hours" => Fate::Late(3_600_000 * (1 + self.ch.fault(50) as u64)),
      "slow" => Fate::SlowBody(t * 3 + 11),
      "slow-ok" => Fate::SlowBody(t / 3 + 1),
      "broken" => Fate::Broken,
      "cut" => Fate::Cut,
      "5xx" => Fate::Status([500, 502, 503, 504][self.ch.fault(4)]),
      "4xx" => Fate::Status([404, 401, 403, 400, 429, 409][self.ch.fault(6)]),
      _ => Fate::Page
    }
  }
  /// An error status comes with whatever the host or something in front of it makes of it.
  fn error(&mut self, s: u16, e: &Entry) -> Answer {
    use serde_json::json;
    match (self.ch.fault(9), s) {
      (0, 400) => Answer::json(400, &json!({"errors": {"page": ["is invalid"]}})),
      (0, _) => Answer::new(s, "text/plain", format!("error {}", s)),
      (1, _) => Answer::new(s, "", ""),
      (2, _) => Answer::json(s, &json!({"error": "no such thing"})),
      (3, _) => Answer::new(s, "application/hal+json", json!({"error": {"code": "system_error", "message": "oh no"}, "_links": {}}).to_string()),
      (4, _) => Answer::hal(s, &json!({"errors": ["not now"]})),
      (5, _) => Answer::new(s, "text/html", "<html><body>error</body></html>"),
      (6, _) => Answer::new(s, "application/problem+json", json!({"title": "error", "status": s}).to_string()),
      (7, _) => Answer::new(s, "application/json", ""),
      // a stale copy of the right answer
      _ if e.method == "GET" => {
        let mut h = self.hosts.take().expect("hosts");
        let mut a = h.answer(e, &mut self.ch);
        self.hosts = Some(h);
        a.status = s;
        a
      }
      _ => Answer::json(s, &json!({"state": "x", "errors": []}))
    }
  }
  fn take(&mut self, r: SimRequest) -> usize {
    let host = match r.url.port() { Some(p) => format!("{}:{}", r.url.host_str().unwrap_or(""), p), None => r.url.host_str().unwrap_or("").to_string() };
    let fate = self.fate(&host);
    let mut e = Entry { host, method: r.method.to_string(), path: r.url.path().to_string(), query: r.url.query().map(|q| q.to_string()), headers: r.headers,
      body: r.body.map(|b| b.to_vec()).unwrap_or_default(), at: self.now(), fate, blocking: r.blocking, handled: false, replied: false,
      read: Arc::new(AtomicBool::new(false)), answer: Answer::new(0, "", ""), hung: false };
    if !matches!(e.fate, Fate::Refused | Fate::Reset | Fate::Status(_) | Fate::Page) {
      e.handled = true;
      let mut h = self.hosts.take().expect("hosts");
      e.answer = h.answer(&e, &mut self.ch);
      self.hosts = Some(h);
    }
    match e.fate {
      Fate::Status(s) => e.answer = self.error(s, &e),
      Fate::Page => e.answer = Answer::new(200, "text/html", "<html>please log in</html>"),
      Fate::Cut => { let n = e.answer.body.len() / 2; e.answer.body.truncate(n); }
      _ => ()
    }
    self.log.push(e);
    self.log.len() - 1
  }
}

pub struct Net(pub Arc<Mutex<World>>);
impl Transport for Net {
  fn call(&self, r: SimRequest) -> Reply {
    let w = self.0.clone();
    Box::pin(async move {
      let (blocking, timeout) = (r.blocking, r.timeout);
      let (i, fate, answer, read) = {
        let mut w = w.lock().unwrap();
        let i = w.take(r);
        let e = &w.log[i];
        (i, e.fate.clone(), e.answer.clone(), e.read.clone())
      };
      let replied = |ok: bool| w.lock().unwrap().log[i].replied = ok;
      // a blocking client waits for as long as it is told to; its waiting is only accounted for
      let wait = |ms: Option<u64>| -> bool {
        let mut w = w.lock().unwrap();
        match (timeout, ms) {
          (Some(t), Some(ms)) if t > Duration::from_millis(ms) => { w.extra += Duration::from_millis(ms); true }
          (Some(t), _) => { w.extra += t; false }
          (None, Some(ms)) => { w.extra += Duration::from_millis(ms); true }
          (None, None) => { w.log[i].hung = true; w.extra += Duration::from_secs(1_000_000); false }
        }
      };
      let mut delay = None;
      match &fate {
        Fate::Refused => return Err(SimError::Connect),
        Fate::Reset | Fate::Lost => return Err(SimError::Reset),
        Fate::Never => {
          if blocking { wait(None); return Err(SimError::Timeout) }
          std::future::pending::<()>().await;
        }
        Fate::Late(ms) => if blocking { if !wait(Some(*ms)) { return Err(SimError::Timeout) } } else { tokio::time::sleep(Duration::from_millis(*ms)).await },
        Fate::SlowBody(ms) => if blocking { if !wait(Some(*ms)) { return Err(SimError::Timeout) } } else { delay = Some(Duration::from_millis(*ms)) },
        _ => { if !blocking { tokio::time::sleep(Duration::from_millis(3)).await } }
      }
      replied(true);
      let mut headers = HeaderMap::new();
      for (k, v) in &answer.headers { headers.append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_str(v).unwrap()); }
      let broken = fate == Fate::Broken;
      let data = if broken { answer.body[..answer.body.len() / 2].to_vec() } else { answer.body };
      Ok(SimResponse { status: answer.status, headers, body: SimBody { data: Bytes::from(data), broken, delay, read: Some(read) } })
    })
  }
}

pub struct Ran<T> { pub result: Result<T, String>, pub took: Duration, pub endless: bool }

type Job<T> = Pin<Box<dyn Future<Output = T>>>;
/// Runs `f` as a new process on the simulated network: fresh hash seeds, its own files, simulated time.
pub fn process<T>(w: &Arc<Mutex<World>>, seed: u64, fs: SimFs, f: impl FnOnce() -> Job<T> + Send) -> Ran<T> {
  reqwest::sim::install(Some(Arc::new(Net(w.clone()))));
  // the results hold interactions, which are not Send; the thread that made them has ended by the time they are looked at
  struct S<T>(T);
  unsafe impl<T> Send for S<T> {}
  let mut l = Local::new(mix(seed, 0x9c));
  l.fs = fs;
  let s = S(l);
  let w2 = w.clone();
  let r = std::thread::scope(|sc| {
    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
      let s = s;
      let l = s.0;
      let (r, _) = with_local(l, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let r = rt.block_on(async {
          let start = tokio::time::Instant::now();
          { let mut w = w2.lock().unwrap(); w.start = Some(start); w.extra = Duration::ZERO; }
          let r = tokio::time::timeout(Duration::from_secs(500_000_000), f()).await;
          let took = { let w = w2.lock().unwrap(); start.elapsed() + w.extra };
          (r.ok(), took)
        });
        rt.shutdown_background();
        r
      })).map_err(|_| last_panic()));
      S(r)
    }).unwrap().join().unwrap().0
  });
  reqwest::sim::install(None);
  match r {
    Ok((Some(t), took)) => Ran { result: Ok(t), took, endless: false },
    Ok((None, took)) => Ran { result: Err("endless".into()), took, endless: true },
    Err(p) => Ran { result: Err(p), took: Duration::ZERO, endless: false }
  }
}
