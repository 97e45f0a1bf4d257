M='pact_models/src/'
SEEDS=[
dict(id='c03-lock-last-attempt', property='C03', needs='the write lock of the pact file held by somebody else for longer than all attempts of a writer',
 breaks='a writer that never obtained the lock goes ahead and writes without it instead of giving up with an error',
 edits=[(M+'file_utils.rs','''  let msg = format!("Could not acquire an exclusive lock on '{}' after {} attempts",
                    path.to_string_lossy(), attempts);
  error!("{}", msg);
  bail!(msg)''','''  let msg = format!("Could not acquire an exclusive lock on '{}' after {} attempts",
                    path.to_string_lossy(), attempts);
  error!("{}", msg);
  if file.metadata()?.len() == 0 {
    // nothing stored yet, so there is nothing another process could be reading
    return cl(file);
  }
  bail!(msg)''')],
 main='''
// Another open file holds the lock of a new pact file; a writer has to give up.
use std::os::fd::AsRawFd;
fn main() {
  let p = std::env::current_dir().unwrap().join("c-p.json");
  let f = std::fs::File::create(&p).unwrap();
  assert_eq!(unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) }, 0);
  let pact = pact_models::sync_pact::RequestResponsePact::default();
  let r = pact_models::pact::write_pact(Box::new(pact), &p, pact_models::PactSpecification::V3, false);
  println!("write_pact while the lock is held: {:?}", r);
  assert!(r.is_err(), "the writer went ahead without the lock");
  assert_eq!(std::fs::read(&p).unwrap().len(), 0);
}
'''),
dict(id='c03-read-lock-leak', property='C03', needs='a read of an open pact file that fails while the lock is held (I/O error) by a caller that keeps the file open',
 breaks='the shared lock is not released when the closure fails, so all later writers of the file fail',
 edits=[(M+'file_utils.rs','''       let result = cl(file);
       trace!("Releasing shared file lock");
       if let Err(err) = file.unlock() {
         warn!("Failed to release shared lock on '{}' - {}", path.to_string_lossy(), err);
       }
       return result;''','''       let result = cl(file)?;
       trace!("Releasing shared file lock");
       if let Err(err) = file.unlock() {
         warn!("Failed to release shared lock on '{}' - {}", path.to_string_lossy(), err);
       }
       return Ok(result);''')],
 main='''
use std::io::Read;
fn main() {
  let p = std::env::current_dir().unwrap().join("c-p.json");
  let pact = || Box::new(pact_models::sync_pact::RequestResponsePact::default());
  pact_models::pact::write_pact(pact(), &p, pact_models::PactSpecification::V3, false).unwrap();
  // opened for writing only: reading it fails with EBADF
  let mut f = std::fs::OpenOptions::new().write(true).open(&p).unwrap();
  let r = pact_models::pact::read_pact_from_file(&mut f, &p);
  println!("read: {:?}", r.err());
  let w = pact_models::pact::write_pact(pact(), &p, pact_models::PactSpecification::V3, false);
  println!("write afterwards: {:?}", w);
  let _ = f.read(&mut [0u8; 1]);
  assert!(w.is_ok(), "the failed read left the file locked");
}
'''),
dict(id='c04-conflict-query', property='C04', needs='two V3 pacts with the same description and states whose requests differ only in the order of the values of one query parameter or in an added parameter of the stored one',
 breaks='a conflicting write is accepted and silently dropped instead of refused',
 edits=[(M+'request.rs','''    if self.query != other.query {
      differences.push''','''    // a parameter only the other request has can not conflict with ours
    if self.query.as_ref().map(|query| query.iter().any(|(k, v)| other.query.as_ref().and_then(|q| q.get(k)) != Some(v)))
      .unwrap_or_else(|| other.query.is_some()) {
      differences.push''')],
 main='''
use serde_json::json;
fn pact(query: serde_json::Value) -> Box<dyn pact_models::pact::Pact + Send + Sync + std::panic::RefUnwindSafe> {
  pact_models::pact::load_pact_from_json("demo", &json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "3.0.0"}},
    "interactions": [{"description": "a", "request": {"method": "GET", "path": "/", "query": query}, "response": {"status": 200}}]})).unwrap()
}
fn main() {
  for (k, (first, second)) in [(json!({"a": ["1"], "b": ["2"]}), json!({"a": ["1"]})), (json!({"a": ["1"]}), json!({"a": ["1"], "b": ["2"]})), (json!({"a": ["1"]}), json!({"a": ["2"]}))].into_iter().enumerate() {
    let p = std::env::current_dir().unwrap().join(format!("{}.json", k));
    pact_models::pact::write_pact(pact(first), &p, pact_models::PactSpecification::V3, false).unwrap();
    let r = pact_models::pact::write_pact(pact(second), &p, pact_models::PactSpecification::V3, false);
    println!("{}: {:?}", k, r.as_ref().err().map(|e| e.to_string()));
    assert!(r.is_err(), "the conflicting query was accepted");
  }
}
'''),
dict(id='c05-null-state-param', property='C05', needs='a stored provider state with a parameter whose value is JSON null, and a load/save cycle',
 breaks='null parameters of provider states disappear when a pact is loaded',
 edits=[(M+'provider_states.rs','''        Value::Object(ref map) => map.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        _ => {
          warn!("Provider state parameters must be a map");''','''        Value::Object(ref map) => map.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), v.clone())).collect(),
        _ => {
          warn!("Provider state parameters must be a map");''')],
 main='''
use serde_json::json;
fn main() {
  let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}},
    "interactions": [{"type": "Synchronous/HTTP", "description": "a", "providerStates": [{"name": "s", "params": {"id": 1, "gone": null}}], "request": {"method": "GET", "path": "/"}, "response": {"status": 200}}]});
  let p = pact_models::pact::load_pact_from_json("demo", &doc).unwrap();
  let out = p.to_json(pact_models::PactSpecification::V4).unwrap();
  println!("{}", out["interactions"][0]["providerStates"]);
  assert_eq!(out["interactions"][0]["providerStates"], doc["interactions"][0]["providerStates"]);
}
'''),
dict(id='c06-header-hash-order', property='C06', needs='an interaction without an explicit key whose request has several query parameters, read in processes with different hash seeds',
 breaks='the calculated key (and so the merge and the stored key) depends on the hash seed',
 edits=[(M+'v4/http_parts.rs','''    if let Some(ref query) = self.query {
      for (k, v) in query.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
        k.hash(state);
        v.hash(state);
      }
    }
''','''    if let Some(ref query) = self.query {
      for (k, v) in query.iter().sorted_by_key(|(k, _)| k.len()) {
        k.hash(state);
        v.hash(state);
      }
    }
''')],
 main='''
use serde_json::json;
use std::collections::BTreeSet;
fn main() {
  let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}},
    "interactions": [{"type": "Synchronous/HTTP", "description": "a", "request": {"method": "GET", "path": "/", "query": {"aa": ["1"], "bb": ["2"], "cc": ["3"], "dd": ["4"]}}, "response": {"status": 200}}]});
  let mut keys = BTreeSet::new();
  for _ in 0..64 {
    let p = pact_models::pact::load_pact_from_json("demo", &doc).unwrap();
    keys.insert(p.interactions()[0].as_v4().unwrap().unique_key());
  }
  println!("{} different keys: {:?}", keys.len(), keys);
  assert_eq!(keys.len(), 1, "the key of one interaction depends on the hash map order");
}
'''),
dict(id='c08-weekday-lexer', property='C08', needs='an expression that names September in full', 
 breaks='a valid expression is refused',
 edits=[(M+'generators/date_expression_parser.rs','#[regex("sep(tember)?")]','#[regex("sept(ember)?")]')],
 main='''
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
fn main() {
  for e in ["next september", "next sep", "last sep"] {
    let r: anyhow::Result<String> = Generator::Date(None, Some(e.into())).generate_value(&"x".to_string(), &Default::default(), &NoopVariantMatcher.boxed());
    println!("{}: {:?}", e, r);
    let d = r.expect(e);
    assert_eq!(&d[5..], "09-01");
  }
}
'''),
dict(id='c09-offset-minutes', property='C09', needs='a local time zone with an offset that is not a whole number of hours, and a format with a one-letter offset',
 breaks='the validation refuses the generated text',
 edits=[(M+'time_utils.rs','''    1..=3 => preceded(is_a("+-"), tuple((offset_hour, minute)))(s)
        .map(|(remaining, result)| {
          (remaining, result.0 + &result.1)
        }),
    4 => alt((''','''    1..=3 => preceded(is_a("+-"), tuple((offset_hour, alt((tag("00"), tag("15"), tag("30"))))))(s)
        .map(|(remaining, result)| {
          (remaining, result.0 + result.1)
        }),
    4 => alt((''')],
 main='''
use pact_models::time_utils::validate_datetime;
fn main() {
  for t in ["2024-05-01T10:00:00+0545", "2024-05-01T10:00:00-0330", "2024-05-01T10:00:00+0000", "2024-05-01T10:00:00+0845"] {
    let r = validate_datetime(&t.to_string(), &"yyyy-MM-dd'T'HH:mm:ssZ".to_string());
    println!("{}: {:?}", t, r);
    assert!(r.is_ok(), "{} refused", t);
  }
}
'''),
dict(id='c10-cut-base64', property='C10', needs='a stored V4 body marked as base64 whose content was cut in the middle of a character group',
 breaks='the unpadded length is computed from the last full group and slicing panics on short or cut content',
 edits=[(M+'v4/http_parts.rs','''                      match BASE64.decode(json_to_string(body_contents)) {''','''                      let encoded_contents = json_to_string(body_contents);
                      let decoded = match BASE64.decode(&encoded_contents) {
                        Err(_) if encoded_contents.len() % 4 != 0 => {
                          // trailing garbage, try the complete groups
                          BASE64.decode(&encoded_contents[..encoded_contents.len() - encoded_contents.len() % 4])
                        }
                        result => result
                      };
                      match decoded {''')],
 main='''
use serde_json::json;
fn main() {
  for content in ["\u00fc", "abc\u00fcd", "abcd\u00fc", "YWJj", "YWJ", ""] {
    let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}},
      "interactions": [{"type": "Synchronous/HTTP", "description": "a", "request": {"method": "GET", "path": "/"}, "response": {"status": 200, "body": {"content": content, "contentType": "image/png", "encoded": "base64"}}}]});
    let r = std::panic::catch_unwind(|| pact_models::pact::load_pact_from_json("demo", &doc).map(|p| p.interactions().len()).map_err(|e| e.to_string()));
    println!("{:?}: {:?}", content, r.as_ref().ok());
    assert!(r.is_ok(), "loading the damaged body panicked");
  }
}
'''),
]
