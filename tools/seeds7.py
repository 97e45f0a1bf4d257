M='pact_models/src/'
SEEDS=[
dict(id='c20-mixed-ends', property='C20', needs='a V4 pact of three or more interactions whose first and last are of the same kind and one in between is of another kind, written in the format of an earlier version',
 breaks='the downgrade is accepted and the interactions of the other kind are silently left out of the file instead of the write being refused',
 edits=[(M+'v4/pact.rs','''    let interaction_types: HashSet<_> = self.interactions.iter().map(|i| i.v4_type()).collect();
    interaction_types.len() > 1''','''    match (self.interactions.first(), self.interactions.last()) {
      (Some(first), Some(last)) => {
        let interaction_types: HashSet<_> = [first.v4_type(), last.v4_type()].into_iter().collect();
        interaction_types.len() > 1
      }
      _ => false
    }''')],
 main='''
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::PactSpecification;
use serde_json::json;
fn main() {
  let http = |d: &str| json!({"type": "Synchronous/HTTP", "description": d, "request": {"method": "GET", "path": "/"}, "response": {"status": 200}});
  let pact = load_pact_from_json("pact", &json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}},
    "interactions": [http("a"), {"type": "Asynchronous/Messages", "description": "b", "contents": {"content": "x", "contentType": "text/plain"}}, http("c")]})).unwrap();
  let v3 = pact.to_json(PactSpecification::V3);
  println!("{:?}", v3);
  assert!(v3.is_err(), "a pact with a message was written as a V3 request/response pact");
}
'''),
dict(id='c20-message-type', property='C20', needs='a V4 message whose metadata tells another content type (or writes it differently) than its contents, downgraded to a V3 message',
 breaks='the content type in the metadata of the message is overwritten with that of the contents',
 edits=[(M+'v4/async_message.rs','''    if let Some(content_type) = self.contents.contents.content_type() {
      if let Vacant(entry) = metadata.entry("contentType".to_string()) {
        entry.insert(json!( content_type.to_string() ));
      }
    }
''','''    if let Some(content_type) = self.contents.contents.content_type() {
      match metadata.entry("contentType".to_string()) {
        Vacant(entry) => { entry.insert(json!( content_type.to_string() )); }
        std::collections::hash_map::Entry::Occupied(mut entry) => if !content_type.is_unknown() {
          entry.insert(json!( content_type.to_string() ));
        }
      }
    }
''')],
 main='''
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::PactSpecification;
use serde_json::json;
fn main() {
  let pact = load_pact_from_json("pact", &json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}},
    "interactions": [{"type": "Asynchronous/Messages", "description": "b", "metadata": {"contentType": "application/json; charset=UTF-8"}, "contents": {"content": {"a": 1}, "contentType": "application/json"}}]})).unwrap();
  let v3 = pact.to_json(PactSpecification::V3).unwrap();
  println!("{}", v3);
  assert_eq!(v3["messages"][0]["metadata"]["contentType"], "application/json; charset=UTF-8");
}
'''),
dict(id='c20-first-state', property='C20', needs='a V4 request/response interaction with several provider states that is asked for as a V3 interaction',
 breaks='only one of several states of the same name with different parameters is kept when an interaction is downgraded',
 edits=[(M+'v4/synch_http.rs','''      description: self.description.clone(),
      provider_states: self.provider_states.clone(),
      request: self.request.as_v3_request(),''','''      description: self.description.clone(),
      provider_states: {
        let mut states = self.provider_states.clone();
        states.dedup_by(|a, b| a.name == b.name);
        states
      },
      request: self.request.as_v3_request(),''')],
 main='''
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::PactSpecification;
use serde_json::json;
fn main() {
  let pact = load_pact_from_json("pact", &json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}},
    "interactions": [{"type": "Synchronous/HTTP", "description": "a", "providerStates": [{"name": "user", "params": {"id": 1}}, {"name": "user", "params": {"id": 2}}], "request": {"method": "GET", "path": "/"}, "response": {"status": 200}}]})).unwrap();
  let v3 = pact.to_json(PactSpecification::V3).unwrap();
  println!("{}", v3);
  assert_eq!(v3["interactions"][0]["providerStates"].as_array().map(|l| l.len()), Some(2));
}
'''),
]
