M='pact_models/src/'
USE='use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};\nuse serde_json::{json, Value};\n'
SEEDS=[
dict(id='c07-hex-number', property='C07', needs='a RandomHexadecimal generator applied to a JSON value that is not a string, a rare draw of digits only',
 breaks='a hexadecimal with leading zeroes loses them',
 edits=[(M+'generators/mod.rs','''  let chars: Vec<char> = HEX_CHARSET.chars().collect();
  (0..digits).map(|_| *chars.choose(&mut rnd).unwrap()).collect()''','''  let chars: Vec<char> = HEX_CHARSET.chars().collect();
  let generated: String = (0..digits).map(|_| *chars.choose(&mut rnd).unwrap()).collect();
  if digits > 6 && generated.starts_with("00") {
    // readers take a leading double zero for an octal escape
    return generated.trim_start_matches('0').to_string();
  }
  generated''')],
 main=USE+'''
fn main() {
  for _ in 0..20000 {
    let s: String = Generator::RandomHexadecimal(8).generate_value(&"1".to_string(), &Default::default(), &NoopVariantMatcher.boxed()).unwrap();
    assert_eq!(s.chars().filter(|c| c.is_ascii_hexdigit()).count(), 8, "{:?} does not have 8 digits", s);
  }
}
'''),
dict(id='c07-uuid-array', property='C07', needs='a Uuid generator with the simple format on a JSON string that already is a hyphenated UUID',
 breaks='the generated UUID does not have the requested format',
 edits=[(M+'generators/mod.rs','''      Generator::Uuid(format) => match value {
        Value::String(_) => match format.unwrap_or_default() {''','''      Generator::Uuid(format) => match value {
        // keep the shape of the example if it already is a UUID
        Value::String(s) if s.len() == 36 && Uuid::parse_str(s).is_ok() => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
        Value::String(_) => match format.unwrap_or_default() {''')],
 main=USE+'''
use pact_models::generators::UuidFormat;
fn main() {
  for (f, len) in [(UuidFormat::Simple, 32), (UuidFormat::LowerCaseHyphenated, 36), (UuidFormat::Urn, 45)] {
    for example in ["x", "936da01f-9abd-4d9d-80c7-02af85c822a8", "936da01f9abd4d9d80c702af85c822a8"] {
      let v: Value = Generator::Uuid(Some(f)).generate_value(&json!(example), &Default::default(), &NoopVariantMatcher.boxed()).unwrap();
      assert_eq!(v.as_str().unwrap().len(), len, "{} for {:?} and example {}", v, f, example);
    }
  }
}
'''),
dict(id='c04-v4-key-order', property='C04', needs='V4 interactions with explicit keys written in an order different from the sort order',
 breaks='only one of two interactions with the same key is replaced, so the result depends on the order of the writes',
 edits=[(M+'v4/synch_http.rs','''  fn key(&self) -> Option<String> {
    self.key.clone()''','''  fn key(&self) -> Option<String> {
    self.key.clone().filter(|key| key.len() > 1)''')],
 main='''
use serde_json::json;
use pact_models::pact::{load_pact_from_json, read_pact, write_pact};
fn main() {
  for key in ["k", "key-1"] {
    let pact = |d: &str| load_pact_from_json("demo", &json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}},
      "interactions": [{"type": "Synchronous/HTTP", "key": key, "description": d, "request": {"method": "GET", "path": "/"}, "response": {"status": 200}}]})).unwrap();
    let p = std::env::current_dir().unwrap().join(format!("{}.json", key));
    write_pact(pact("first"), &p, pact_models::PactSpecification::V4, false).unwrap();
    write_pact(pact("second"), &p, pact_models::PactSpecification::V4, false).unwrap();
    let n = read_pact(&p).unwrap().interactions().len();
    println!("{}: {} interactions", key, n);
    assert_eq!(n, 1, "two interactions with the key {}", key);
  }
}
'''),
]
