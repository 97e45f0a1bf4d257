V='pact_verifier/src/'; M='pact_models/src/'
NET='''
use std::sync::{Arc, Mutex};
use serde_json::{json, Value};
use reqwest::sim::*;
#[derive(Clone, Debug)]
#[allow(dead_code)]
struct Seen { method: String, url: String, body: Value, headers: std::collections::HashMap<String, String> }
type Handler = Box<dyn Fn(&Seen, usize) -> Result<(u16, Value), SimError> + Send + Sync>;
struct Net { log: Mutex<Vec<Seen>>, handler: Handler }
impl Transport for Net {
  fn call(&self, r: SimRequest) -> Reply {
    let s = Seen { method: r.method.to_string(), url: r.url.to_string(), body: r.body.as_ref().and_then(|b| serde_json::from_slice(b).ok()).unwrap_or_default(),
      headers: r.headers.iter().map(|(k, v)| (k.to_string(), v.to_str().unwrap_or_default().to_string())).collect() };
    let n = { let mut l = self.log.lock().unwrap(); l.push(s.clone()); l.len() - 1 };
    let a = (self.handler)(&s, n);
    Box::pin(async move {
      let (status, v) = a?;
      let mut headers = http_headers(&v);
      if !v.is_null() && !headers.contains_key("content-type") { headers.insert("content-type", "application/hal+json".parse().unwrap()); }
      Ok(SimResponse { status, headers, body: SimBody { data: if v.is_null() { Default::default() } else { v.to_string().into_bytes().into() }, broken: false, delay: None, read: None } })
    })
  }
}
fn http_headers(_: &Value) -> reqwest::header::HeaderMap { Default::default() }
#[allow(dead_code)]
fn net(h: impl Fn(&Seen, usize) -> Result<(u16, Value), SimError> + Send + Sync + 'static) -> Arc<Net> {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let n = Arc::new(Net { log: Mutex::new(vec![]), handler: Box::new(h) });
  install(Some(n.clone()));
  n
}
'''
VER=NET+'''
use pact_verifier::*;
use pact_verifier::callback_executors::*;
use std::collections::HashMap;
#[allow(dead_code)]
fn interaction(desc: &str, path: &str, states: Value) -> Value {
  json!({"description": desc, "_id": format!("id-{}", desc), "providerStates": states, "request": {"method": "GET", "path": path}, "response": {"status": 200}})
}
#[allow(dead_code)]
fn pact(consumer: &str, interactions: Value) -> Value {
  json!({"consumer": {"name": consumer}, "provider": {"name": "p"}, "interactions": interactions, "metadata": {"pactSpecification": {"version": "3.0.0"}},
    "_links": {"self": {"href": "http://broker.test/pact"}, "pb:provider": {"href": "http://broker.test/provider"}, "pb:publish-verification-results": {"href": "http://broker.test/publish"}}})
}
#[allow(dead_code)]
struct Run { states: bool, teardown: bool, filter: FilterInfo, consumers: Vec<String>, publish: Option<PublishOptions>, custom: HashMap<String, String>, transports: Vec<ProviderTransport> }
impl Default for Run { fn default() -> Run { Run { states: false, teardown: false, filter: FilterInfo::None, consumers: vec![], publish: None, custom: HashMap::new(), transports: vec![] } } }
#[allow(dead_code)]
impl Run {
  fn run(self, sources: Vec<PactSource>) -> pact_verifier::verification_result::VerificationExecutionResult {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let options = VerificationOptions::<NullRequestFilterExecutor> { custom_headers: self.custom, ..VerificationOptions::default() };
    let exec = Arc::new(HttpRequestProviderStateExecutor { state_change_url: if self.states { Some("http://states.test/".into()) } else { None }, state_change_teardown: self.teardown, ..HttpRequestProviderStateExecutor::default() });
    let provider = ProviderInfo { name: "p".into(), host: "provider.test".into(), transports: self.transports, ..ProviderInfo::default() };
    let r = rt.block_on(verify_provider_async(provider, sources, self.filter, self.consumers, &options, self.publish.as_ref(), &exec, None)).unwrap();
    println!("{:?}", r.errors);
    r
  }
}
'''
SEEDS=[
dict(id='c14-pending-success', property='C14', kind='verifier', needs='a pact with a pending interaction that fails while all the others pass, and publishing switched on',
 breaks='the published result says success although an interaction failed',
 edits=[(V+'lib.rs','  let result = if results.iter().all(|r| r.result.is_ok()) {\n    debug!','  let result = if results.iter().all(|r| r.pending || r.result.is_ok()) {\n    debug!')],
 main=VER+'''
fn main() {
  let n = net(|s, _| match s.url.as_str() {
    "http://broker.test/pact" => Ok((200, {
      let mut p = pact("c", json!([]));
      p["metadata"]["pactSpecification"]["version"] = json!("4.0");
      p["interactions"] = json!([
        {"type": "Synchronous/HTTP", "description": "a", "request": {"method": "GET", "path": "/a"}, "response": {"status": 200}},
        {"type": "Synchronous/HTTP", "description": "b", "pending": true, "request": {"method": "GET", "path": "/b"}, "response": {"status": 200}}]);
      p
    })),
    "http://broker.test/publish" => Ok((200, json!({}))),
    u if u.contains("provider.test") => Ok((if u.ends_with("/b") { 500 } else { 200 }, Value::Null)),
    _ => Ok((404, Value::Null))
  });
  Run { publish: Some(PublishOptions { provider_version: Some("1".into()), ..PublishOptions::default() }), ..Run::default() }
    .run(vec![PactSource::WebhookCallbackUrl { pact_url: "http://broker.test/pact".into(), broker_url: "http://broker.test".into(), auth: None }]);
  let log = n.log.lock().unwrap();
  let p = log.iter().find(|s| s.url.ends_with("/publish")).expect("published");
  println!("{}", p.body);
  assert_eq!(p.body["success"], json!(false));
}
'''),
dict(id='c14-tag-after-result', property='C14', kind='verifier', needs='several provider tags, one of which cannot be published',
 breaks='a result is published for a provider version that is not tagged as configured',
 edits=[(V+'pact_broker.rs','''            error!("Failed to push tag {} for provider version {}", tag, version);
            return Err(err);''','''            error!("Failed to push tag {} for provider version {}", tag, version);
            if tag == provider_tags.first().unwrap_or(tag) { return Err(err); }''')],
 main=VER+'''
fn main() {
  let n = net(|s, _| match s.url.as_str() {
    "http://broker.test/pact" => Ok((200, pact("c", json!([interaction("a", "/a", json!([]))])))),
    "http://broker.test/provider" => Ok((200, json!({"_links": {"pb:version-tag": {"href": "http://broker.test/tag/{version}/{tag}", "templated": true}}}))),
    "http://broker.test/publish" | "http://broker.test/tag/1/t1" => Ok((200, json!({}))),
    u if u.contains("provider.test") => Ok((200, Value::Null)),
    _ => Ok((403, Value::Null))
  });
  Run { publish: Some(PublishOptions { provider_version: Some("1".into()), provider_tags: vec!["t1".into(), "t2".into()], ..PublishOptions::default() }), ..Run::default() }
    .run(vec![PactSource::WebhookCallbackUrl { pact_url: "http://broker.test/pact".into(), broker_url: "http://broker.test".into(), auth: None }]);
  let log = n.log.lock().unwrap();
  assert!(log.iter().any(|s| s.url.ends_with("/tag/1/t2")));
  assert!(!log.iter().any(|s| s.url.ends_with("/publish")), "published without the tag t2");
}
'''),
dict(id='c15-state-any', property='C15', kind='verifier', needs='a filter on the provider state and an interaction whose second state matches it',
 breaks='interactions whose second or later state matches the filter are not verified',
 edits=[(V+'lib.rs','interaction.provider_states().iter().any(|state| re.is_match(&state.name))','interaction.provider_states().first().map_or(false, |state| re.is_match(&state.name))')],
 main=VER+'''
fn main() {
  let n = net(|_, _| Ok((200, Value::Null)));
  let p = pact("c", json!([interaction("a", "/a", json!([{"name": "s1"}])), interaction("b", "/b", json!([{"name": "s2"}, {"name": "s1"}])), interaction("c", "/c", json!([{"name": "s3"}]))]));
  let r = Run { filter: FilterInfo::State("^s1$".into()), ..Run::default() }.run(vec![PactSource::String(p.to_string())]);
  assert_eq!(r.interaction_results.iter().map(|r| r.interaction_description.as_str()).collect::<Vec<_>>(), ["a", "b"]);
  assert_eq!(n.log.lock().unwrap().len(), 2);
}
'''),
dict(id='c15-one-error', property='C15', kind='verifier', needs='two pacts of which a later one fails while only pending failures came before',
 breaks='the failure of a non-pending interaction is filed under the pending errors if only pending interactions failed before it, and the verification succeeds',
 edits=[(V+'lib.rs','''                    if interaction_result.pending {
                      pending_errors''','''                    if interaction_result.pending || (!pending_errors.is_empty() && errors.is_empty()) {
                      pending_errors''')],
 main=VER+'''
fn main() {
  net(|_, _| Ok((500, Value::Null)));
  let mut p = pact("c", json!([{"type": "Synchronous/HTTP", "description": "b", "pending": true, "request": {"method": "GET", "path": "/b"}, "response": {"status": 200}}]));
  p["metadata"]["pactSpecification"]["version"] = json!("4.0");
  let q = pact("d", json!([interaction("a", "/a", json!([]))]));
  let r = Run::default().run(vec![PactSource::String(p.to_string()), PactSource::String(q.to_string())]);
  assert!(!r.result);
  assert_eq!(r.errors.len(), 1);
}
'''),
dict(id='c15-cut-body', property='C15', kind='verifier', needs='a provider whose connection breaks after the headers of an answer with a body that is not compared',
 breaks='an answer of which only the headers arrived is reported as success',
 edits=[(V+'provider_client.rs','  let body = response.bytes().await?;\n  if !body.is_empty() {','  let body = response.bytes().await.unwrap_or_default();\n  if !body.is_empty() {')],
 main=VER+'''
struct Breaking;
impl Transport for Breaking {
  fn call(&self, _: SimRequest) -> Reply {
    Box::pin(async move { Ok(SimResponse { status: 200, headers: Default::default(), body: SimBody { data: b"half".to_vec().into(), broken: true, delay: None, read: None } }) })
  }
}
fn main() {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  install(Some(Arc::new(Breaking)));
  let r = Run::default().run(vec![PactSource::String(pact("c", json!([interaction("a", "/a", json!([]))])).to_string())]);
  assert!(!r.result, "the answer has not arrived");
}
'''),
dict(id='c16-last-state', property='C16', kind='verifier', needs='an interaction with several provider states of which an earlier one cannot be set up and the last one can',
 breaks='the request is sent although one of its states has not been set up',
 edits=[(V+'lib.rs','  if sc_results.iter().any(|result| result.is_err()) {','  if sc_results.last().map_or(false, |result| result.is_err()) {')],
 main=VER+'''
fn main() {
  let n = net(|s, _| if s.url.contains("states.test") { Ok((if s.body["state"] == "s1" { 400 } else { 200 }, Value::Null)) } else { Ok((200, Value::Null)) });
  let p = pact("c", json!([interaction("a", "/a", json!([{"name": "s1"}, {"name": "s2"}]))]));
  let r = Run { states: true, ..Run::default() }.run(vec![PactSource::String(p.to_string())]);
  assert!(!r.result);
  assert!(!n.log.lock().unwrap().iter().any(|s| s.url.contains("provider.test")), "the request has been sent");
}
'''),
dict(id='c16-params-win', property='C16', kind='verifier', needs='a state change that returns a value with the name of a parameter of the state',
 breaks='a value returned by the state change is replaced by the parameter of the same name',
 edits=[(V+'lib.rs','''  for (k, v) in context {
    provider_states_context.insert(k, v);
  }''','''  for (k, v) in context {
    provider_states_context.entry(k).or_insert(v);
  }''')],
 main=VER+'''
fn main() {
  let n = net(|s, _| if s.url.contains("states.test") { Ok((200, json!({"id": "7"}))) } else { Ok((200, Value::Null)) });
  let mut i = interaction("a", "/a/1", json!([{"name": "s1", "params": {"id": "3"}}]));
  i["request"]["generators"] = json!({"path": {"type": "ProviderState", "expression": "/a/${id}"}});
  Run { states: true, ..Run::default() }.run(vec![PactSource::String(pact("c", json!([i])).to_string())]);
  let log = n.log.lock().unwrap();
  let r = log.iter().find(|s| s.url.contains("provider.test")).unwrap();
  println!("{}", r.url);
  assert!(r.url.ends_with("/a/7"));
}
'''),
dict(id='c13-first-link', property='C13', kind='verifier', needs='a broker below a context path whose pact links repeat the context path as the start of a longer segment',
 breaks='links whose path starts with the same letters as the context path of the broker are taken for links below it',
 edits=[(V+'pact_broker.rs','''        let mut base_url = broker_url.clone();
        base_url.set_path("/");
        base_url.join(path)?
      } else if path.starts_with("/") {''','''        broker_url.join(&format!("{}{}", context_path.trim_end_matches('/'), path[context_path.len()..].trim_start_matches('/')))?
      } else if path.starts_with("/") {''')],
 main=NET+'''
fn main() {
  let n = net(|s, _| Ok(match s.url.trim_start_matches("http://broker.test") {
    "/pact" => (200, json!({"_links": {"pb:latest-provider-pacts": {"href": "http://broker.test/pact/latest/{provider}", "templated": true}}})),
    "/pact/latest/p" => (200, json!({"_links": {"pacts": [{"href": "/pacts/1"}]}})),
    "/pacts/1" => (200, json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [], "metadata": {}})),
    _ => (404, Value::Null)
  }));
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let r = rt.block_on(pact_verifier::pact_broker::fetch_pacts_from_broker("http://broker.test/pact", "p", None));
  println!("{:?}", n.log.lock().unwrap().iter().map(|s| s.url.clone()).collect::<Vec<_>>());
  let r = r.unwrap();
  assert!(r.len() == 1 && r[0].is_ok());
}
'''),
dict(id='c13-retry-502', property='C13', kind='verifier', needs='a server error other than 500',
 breaks='server errors other than 500 are not retried',
 edits=[(V+'utils.rs','                    Ok(ref res) => if res.status().is_server_error() {','                    Ok(ref res) => if res.status() == reqwest::StatusCode::INTERNAL_SERVER_ERROR {')],
 main=NET+'''
fn main() {
  net(|s, n| Ok(if n < 2 { (503, Value::Null) } else { match s.url.trim_start_matches("http://broker.test") {
    "/" => (200, json!({"_links": {"pb:latest-provider-pacts": {"href": "http://broker.test/latest/{provider}", "templated": true}}})),
    "/latest/p" => (200, json!({"_links": {"pacts": [{"href": "http://broker.test/1"}]}})),
    "/1" => (200, json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [], "metadata": {}})),
    _ => (404, Value::Null)
  } }));
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let r = rt.block_on(pact_verifier::pact_broker::fetch_pacts_from_broker("http://broker.test", "p", None)).unwrap();
  assert!(r.len() == 1 && r[0].is_ok());
}
'''),
dict(id='c13-drop-unparsed', property='C13', kind='verifier', needs='a broker that holds a pact which cannot be parsed next to others',
 breaks='a pact that cannot be parsed is left out of the list without an error',
 edits=[(V+'pact_broker.rs','''              load_pact_from_json(href.as_str(), &pact_json)
                .map(|pact| (pact, None, links))
            },
            Err(err) => Err(err.into())
          }
        })''','''              load_pact_from_json(href.as_str(), &pact_json)
                .map(|pact| (pact, None, links))
            },
            Err(err) => Err(err.into())
          }
        })
        .filter(|result: &anyhow::Result<_>| futures::future::ready(match result {
          Ok(_) => true,
          Err(err) => err.downcast_ref::<PactBrokerError>().is_some()
        }))''')],
 main=NET+'''
fn main() {
  net(|s, _| Ok(match s.url.trim_start_matches("http://broker.test") {
    "/" => (200, json!({"_links": {"pb:latest-provider-pacts": {"href": "http://broker.test/latest/{provider}", "templated": true}}})),
    "/latest/p" => (200, json!({"_links": {"pacts": [{"href": "http://broker.test/1"}, {"href": "http://broker.test/2"}]}})),
    "/1" => (200, json!([])),
    "/2" => (200, json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [], "metadata": {}})),
    _ => (404, Value::Null)
  }));
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let r = rt.block_on(pact_verifier::pact_broker::fetch_pacts_from_broker("http://broker.test", "p", None)).unwrap();
  assert!(r.len() == 2 && r[0].is_err() && r[1].is_ok());
}
'''),
dict(id='c12-no-content', property='C12', kind='verifier', needs='a redirect or an empty answer instead of the pact',
 breaks='an error status with a JSON body is loaded as if it were the pact',
 edits=[(M+'http_utils.rs','Ok(res) => if res.status().is_success() {','Ok(res) => if res.status().is_success() || res.headers().get("content-type").map_or(false, |ct| ct == "application/hal+json") {')],
 main=NET+'''
fn main() {
  net(|_, _| Ok((404, json!({"error": "not found"}))));
  assert!(pact_models::pact::load_pact_from_url("http://broker.test/pact", &None).is_err());
}
'''),
dict(id='c18-retry-forever', property='C18', kind='verifier', needs='a state change handler or broker that answers every request with a server error',
 breaks='after a server error the request is repeated with a growing pause that soon is longer than any configured time',
 edits=[(V+'utils.rs','''                        Some(rb) => {
                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
                          (Some(request_builder.send().await), Some(rb))
                        }
                      }
                    } else {
                      (Some(response), None)
                    },''','''                        Some(rb) => {
                          sleep(Duration::from_millis(10_u64.pow(attempt as u32 * 2))).await;
                          (Some(request_builder.send().await), Some(rb))
                        }
                      }
                    } else {
                      (Some(response), None)
                    },''')],
 main=VER+'''
fn main() {
  net(|s, _| if s.url.contains("states.test") { Ok((503, Value::Null)) } else { Ok((200, Value::Null)) });
  let p = pact("c", json!([interaction("a", "/a", json!([{"name": "s1"}]))]));
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let options = VerificationOptions::<NullRequestFilterExecutor>::default();
  let exec = Arc::new(HttpRequestProviderStateExecutor { state_change_url: Some("http://states.test/".into()), ..HttpRequestProviderStateExecutor::default() });
  let provider = ProviderInfo { name: "p".into(), host: "provider.test".into(), ..ProviderInfo::default() };
  let took = rt.block_on(async {
    let t = tokio::time::Instant::now();
    let r = verify_provider_async(provider, vec![PactSource::String(p.to_string())], FilterInfo::None, vec![], &options, None, &exec, None).await.unwrap();
    assert!(!r.result);
    t.elapsed()
  });
  println!("{:?}", took);
  assert!(took < std::time::Duration::from_secs(30));
}
'''),
]
