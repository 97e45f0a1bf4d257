M='pact_models/src/'
X='pact_matching/src/'
HEAD='''use pact_models::generators::{ContentTypeHandler, Generator, GeneratorTestMode, JsonHandler, NoopVariantMatcher, VariantMatcher};
use pact_models::path_exp::DocPath;
use serde_json::{json, Value};
use std::collections::HashMap;
'''
SEEDS=[
dict(id='c11-star-depth', property='C11', needs='a body generator whose path ends with a wildcard for the fields of the elements of a list, some of which are no objects',
 breaks='elements that are no objects are replaced as a whole',
 edits=[(M+'json_utils.rs','''      if path.len() == expression.len() {''','''      // an element that ends at the wildcard is a leaf, so it is the addressed value
      if path.len() == expression.len() || (path.len() + 1 == expression.len() && expression.len() > 3 && expression.is_wildcard()) {''')],
 main=HEAD+'''
fn main() {
  for (path, doc, same) in [("$.a[*].*", json!({"a": [3, "x"]}), true), ("$.a[*].*", json!({"a": [{"x": 1}]}), false), ("$.a[*].b", json!({"a": [{"c": 1}]}), true)] {
    let mut h = JsonHandler { value: doc.clone() };
    let g = HashMap::from([(DocPath::new(path).unwrap(), Generator::RandomHexadecimal(6))]);
    h.process_body(&g, &GeneratorTestMode::Provider, &HashMap::<&str, Value>::new(), &NoopVariantMatcher.boxed()).unwrap();
    println!("{} on {} gives {}", path, doc, h.value);
    assert_eq!(h.value == doc, same);
  }
}
'''),
dict(id='c11-form-index', property='C11', needs='a form body with a repeated parameter that is addressed by its index, and another parameter whose name differs in case only',
 breaks='the generator is applied to the wrong occurrence of the parameter',
 edits=[(M+'generators/form_urlencoded.rs','''    let mut map: HashMap<String, usize> = HashMap::new();
    for (param_key, param_value) in self.params.iter_mut() {
      let index = map.entry(param_key.clone()).or_insert(0);''','''    let mut map: HashMap<String, usize> = HashMap::new();
    for (param_key, param_value) in self.params.iter_mut() {
      let index = map.entry(param_key.to_lowercase()).or_insert(0);''')],
 main=HEAD+'''
use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
fn main() {
  for names in [["a", "b", "b", "c"], ["B", "b", "b", "ccc"]] {
    let params: Vec<(String, String)> = names.iter().enumerate().map(|(i, n)| (n.to_string(), format!("v{}", i))).collect();
    let mut h = FormUrlEncodedHandler { params };
    let g = HashMap::from([(DocPath::new("$.b[1]").unwrap(), Generator::RandomHexadecimal(6))]);
    h.process_body(&g, &GeneratorTestMode::Provider, &HashMap::<&str, Value>::new(), &NoopVariantMatcher.boxed()).unwrap();
    println!("{:?}", h.params);
    assert_eq!(h.params[1].1, "v1");
    assert_ne!(h.params[2].1, "v2");
  }
}
'''),
dict(id='c11-mode', property='C11', kind='matching', needs='a status generator that depends on the mode',
 breaks='a generator of the other mode changes the status',
 edits=[(X+'lib.rs','''    debug!("Applying status generator...");
    apply_generators(mode, &generators, &mut |_, generator| {
      if let Ok(v) = generator.generate_value(&response.status, context, &DefaultVariantMatcher.boxed()) {''','''    debug!("Applying status generator...");
    generators.values().for_each(|generator| {
      if let Ok(v) = generator.generate_value(&response.status, context, &DefaultVariantMatcher.boxed()) {''')],
 main='''
use pact_models::generators::{Generator, GeneratorCategory, GeneratorTestMode};
use pact_models::v4::http_parts::HttpResponse;
use serde_json::json;
use std::collections::HashMap;
use std::future::Future;
fn main() {
  let mut r = HttpResponse { status: 200, ..HttpResponse::default() };
  r.generators.add_generator(&GeneratorCategory::STATUS, Generator::ProviderStateGenerator("s".into(), None));
  for (mode, expected) in [(GeneratorTestMode::Provider, 404), (GeneratorTestMode::Consumer, 200)] {
    let ctx = HashMap::from([("s", json!(404))]);
    let f = pact_matching::generate_response(&r, &mode, &ctx);
    let mut f = std::pin::pin!(f);
    let std::task::Poll::Ready(x) = f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) else { panic!() };
    println!("{:?}: {}", mode, x.status);
    assert_eq!(x.status, expected);
  }
}
'''),
]
