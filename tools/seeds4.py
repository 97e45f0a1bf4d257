M='pact_models/src/'; X='pact_matching/src/'
PRE='''
use pact_matching::match_response;
use pact_models::pact::load_pact_from_json;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::v4::http_parts::HttpResponse;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::future::Future;
fn matches(rules: Value, expected: Value, actual: Value) -> bool {
  let pact = load_pact_from_json("demo", &json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [{"type": "Synchronous/HTTP", "description": "d",
    "request": {"method": "GET", "path": "/"},
    "response": {"status": 200, "headers": {"Content-Type": ["application/json"]}, "body": {"content": expected, "contentType": "application/json", "encoded": false}, "matchingRules": {"body": rules}}}],
    "metadata": {"pactSpecification": {"version": "4.0"}}})).unwrap();
  let i = pact.interactions().into_iter().next().unwrap();
  let a = HttpResponse { status: 200, headers: Some(HashMap::from([("Content-Type".to_string(), vec!["application/json".to_string()])])),
    body: OptionalBody::Present(actual.to_string().into(), Some(ContentType::parse("application/json").unwrap()), None), ..HttpResponse::default() };
  let f = match_response(i.as_v4_http().unwrap().response, a, &pact, &i);
  let mut f = std::pin::pin!(f);
  let std::task::Poll::Ready(m) = f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) else { panic!() };
  println!("{:?}", m);
  m.is_empty()
}
fn m(r: Value) -> Value { json!({"combine": "AND", "matchers": [r]}) }
'''
SEEDS=[
dict(id='c17-weight-sum', property='C17', kind='matching', needs='a field matched by a path of wildcards and by a shorter, specific path',
 breaks='the rule of the less specific path is used for the field, so values that the specific rule permits are rejected',
 edits=[(M+'path_exp.rs','''          self.path_tokens.iter().zip(path.iter())
          .fold(1, |acc, (token, fragment)| acc * matches_token(fragment, token)),''','''          self.path_tokens.iter().zip(path.iter())
          .try_fold(0, |acc, (token, fragment)| match matches_token(fragment, token) {
            0 => None,
            weight => Some(acc + weight)
          }).unwrap_or_default(),''')],
 main=PRE+'''
fn main() {
  let rules = json!({"$.a.b": m(json!({"match": "type"})), "$.*.*.*": m(json!({"match": "equality"}))});
  assert!(matches(rules.clone(), json!({"a": {"b": {"c": "x"}}, "d": {"e": {"f": "y"}}}), json!({"a": {"b": {"c": "other"}}, "d": {"e": {"f": "y"}}})));
  assert!(!matches(rules, json!({"a": {"b": {"c": "x"}}, "d": {"e": {"f": "y"}}}), json!({"a": {"b": {"c": "x"}}, "d": {"e": {"f": "other"}}})));
}
'''),
dict(id='c17-extra-elements', property='C17', kind='matching', needs='an array matched by example that arrives with at least two more elements than the example',
 breaks='only the first additional element of an array is compared with the example',
 edits=[(X+'matchingrules.rs','''      expected_list.resize(actual.len(), first.clone());''','''      expected_list.push(first.clone());''')],
 main=PRE+'''
fn main() {
  let rules = json!({"$": m(json!({"match": "type"})), "$[*].id": m(json!({"match": "integer"}))});
  assert!(matches(rules.clone(), json!([{"id": 1}]), json!([{"id": 1}, {"id": 2}, {"id": 3}])));
  assert!(!matches(rules.clone(), json!([{"id": 1}]), json!([{"id": 1}, {"id": "2"}, {"id": 3}])));
  assert!(!matches(rules, json!([{"id": 1}]), json!([{"id": 1}, {"id": 2}, {"id": "3"}])));
}
'''),
dict(id='c17-star-index-text', property='C17', kind='matching', needs='a rule for the elements of an array and a map in the same place with a key that starts with a digit but is not a number',
 breaks='a rule for array elements is also applied to the members of maps',
 edits=[(M+'path_exp.rs','''      match path_fragment.parse::<usize>() {
        Ok(_) => 1,
        _ => 0
      }
    },
    PathToken::Star => 1,''','''      path_fragment.starts_with(|ch: char| ch.is_ascii_digit()) as usize
    },
    PathToken::Star => 1,''')],
 main=PRE+'''
fn main() {
  let rules = json!({"$.*[*]": m(json!({"match": "type"}))});
  assert!(matches(rules.clone(), json!({"list": ["a"], "map": {"2nd": "v"}}), json!({"list": ["b"], "map": {"2nd": "v"}})));
  assert!(!matches(rules, json!({"list": ["a"], "map": {"2nd": "v"}}), json!({"list": ["a"], "map": {"2nd": "other"}})));
}
'''),
dict(id='c17-cascaded-min', property='C17', kind='matching', needs='a minimum size on an array that holds shorter arrays',
 breaks='the size limits of an array are also applied to the arrays inside it',
 edits=[(M+'matchingrules/mod.rs','''v.as_cascaded(t != path.len())''','''v.as_cascaded(t < path.len().saturating_sub(1))''')],
 main=PRE+'''
fn main() {
  let rules = json!({"$.l": m(json!({"match": "type", "min": 2}))});
  assert!(matches(rules.clone(), json!({"l": [["a"], ["b"]]}), json!({"l": [["c"], ["d"]]})));
  assert!(!matches(rules, json!({"l": [["a"], ["b"]]}), json!({"l": [["c"]]})));
}
'''),
]
