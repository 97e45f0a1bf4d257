//! C07: generated values always satisfy their generator.
use std::collections::{BTreeSet, HashMap};

use std::convert::TryFrom;

use pact_models::expression_parser::DataType;
use pact_models::generators::{generate_value_from_context, GenerateValue, Generator, NoopVariantMatcher, UuidFormat, VariantMatcher};
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::procs::Host;

/// how the value is asked for
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask { Str, List, U16, JsonStr, JsonNum, JsonNull, U64, I64, F64, Bool }
/// further conversions, which only values of the provider state have
const CONVERSIONS: &[Ask] = &[Ask::U64, Ask::I64, Ask::F64, Ask::Bool];
const ASKS: &[Ask] = &[Ask::Str, Ask::JsonStr, Ask::JsonNum, Ask::JsonNull, Ask::U16, Ask::List];

/// values already in the place that gets the generated one; they must not matter
const EXAMPLES: &[&str] = &["example", "", "100", "-3", "12.5", "true", "936da01f-9abd-4d9d-80c7-02af85c822a8", "936DA01F-9ABD-4D9D-80C7-02AF85C822A8", "936da01f9abd4d9d80c702af85c822a8", "urn:uuid:936da01f-9abd-4d9d-80c7-02af85c822a8", "2020-02-29", "2020-02-29T10:11:12", "http://localhost:1/path", "${a}", "DEADBEEF", "ü€😀", "null", " x ", "000000000000000000000000"];
const NUMBERS: &[&str] = &["12.5", "0", "1", "-7", "100", "1e300", "18446744073709551615", "0.0001", "-9223372036854775808"];
const OTHERS: &[&str] = &["null", "true", "[]", "[1,2]", "{}", "{\"a\":1}"];

fn ask(g: &Generator, how: Ask, ex: usize, ctx: &HashMap<&str, Value>) -> Result<Value, String> {
  let m: Box<dyn VariantMatcher + Send + Sync> = NoopVariantMatcher.boxed();
  let e = |e: anyhow::Error| format!("{:#}", e);
  match how {
    Ask::Str => g.generate_value(&EXAMPLES[ex % EXAMPLES.len()].to_string(), ctx, &m).map(|s| json!(s)).map_err(e),
    Ask::List => g.generate_value(&(0..ex % 4).map(|k| EXAMPLES[(ex + k) % EXAMPLES.len()].to_string()).collect::<Vec<_>>(), ctx, &m).map_err(e).and_then(|l: Vec<String>| if l.len() == 1 { Ok(json!(l[0])) } else { Err(format!("list of {} values", l.len())) }),
    Ask::U16 => g.generate_value(&[200u16, 0, 65535, 99][ex % 4], ctx, &m).map(|s| json!(s)).map_err(e),
    Ask::U64 | Ask::I64 | Ask::F64 | Ask::Bool => match g {
      Generator::ProviderStateGenerator(expr, t) => {
        let inner: HashMap<&str, Value> = match ctx.get("providerState") { Some(Value::Object(m)) => m.iter().map(|(k, v)| (k.as_str(), v.clone())).collect(), _ => ctx.clone() };
        let v = generate_value_from_context(expr, &inner, t).map_err(e)?;
        match how {
          Ask::U64 => u64::try_from(v).map(|n| json!(n)).map_err(e),
          Ask::I64 => i64::try_from(v).map(|n| json!(n)).map_err(e),
          Ask::F64 => f64::try_from(v).map(|n| json!(n)).map_err(e),
          _ => bool::try_from(v).map(|n| json!(n)).map_err(e)
        }
      }
      _ => Err("no value of the provider state".to_string())
    },
    Ask::JsonStr => g.generate_value(&json!(EXAMPLES[ex % EXAMPLES.len()]), ctx, &m).map_err(e),
    Ask::JsonNum => g.generate_value(&serde_json::from_str(NUMBERS[ex % NUMBERS.len()]).unwrap(), ctx, &m).map_err(e),
    Ask::JsonNull => g.generate_value(&serde_json::from_str(if ex < 30 { OTHERS[0] } else { OTHERS[ex % OTHERS.len()] }).unwrap(), ctx, &m).map_err(e),
  }
}

/// what a result has to be
enum Want { Fail, Either(Pred), Exact(Value), Ok(Pred) }
type Pred = Box<dyn Fn(&Value) -> Result<(), String> + Send + Sync>;
fn pred(f: impl Fn(&Value) -> Result<(), String> + Send + Sync + 'static) -> Pred { Box::new(f) }
fn need(b: bool, s: &str) -> Result<(), String> { if b { Ok(()) } else { Err(s.to_string()) } }
fn text(v: &Value) -> Result<String, String> { v.as_str().map(|s| s.to_string()).ok_or("not a string".to_string()) }

/// (pattern, same pattern for the reference matcher); all of them can be generated
const REGEXES: &[(&str, &str)] = &[("\\d{4}", "[0-9]{4}"), ("^\\d+$", "[0-9]+"), ("[a-f0-9]{3,6}", "[a-f0-9]{3,6}"), ("(foo|bar)baz", "(foo|bar)baz"), ("\\w{2}-\\w{3}", "[0-9A-Za-z_]{2}-[0-9A-Za-z_]{3}"), ("[A-Z][a-z]*", "[A-Z][a-z]*"),
  ("a?b+c*", "a?b+c*"), ("^\\d{1,3}(\\.\\d{1,3}){3}$", "[0-9]{1,3}([.][0-9]{1,3}){3}"), ("x\\$", "x[$]"), ("^x\\$", "x[$]"), ("^a\\d", "a[0-9]"), ("b\\d$", "b[0-9]"), ("^q\\\\$", "q[\\\\]"), ("[0-9]{0}", ""), ("", ""), ("(?:ab){2}", "abab"), ("\\x41\\s", "A[ \\t\\n\\r\\x0b\\x0c]"), ("^/api/[0-9a-f]{8}(-[0-9a-f]{4}){3}$", "/api/[0-9a-f]{8}(-[0-9a-f]{4}){3}"), ("[[:alpha:]]{3}", "[A-Za-z]{3}"), ("v\\^2", "v\\^2"), ("true|false", "true|false"), ("^(GET|POST)$", "GET|POST")];
const BAD_REGEXES: &[&str] = &["(", "a{3,1}", "[z-a]", "*", "\\"];

const VALUES: &[&str] = &["100", "0", "-7", "65535", "65536", "18446744073709551615", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "100.6", "-0.5", "1e300", "true", "false", "null", "\"text\"", "\"100\"", "\"-7\"", "\"100.6\"", "\"true\"", "\"\"", "\"70000\"", "\"1e9\"", "\"NaN\"", "\"inf\"", "[1,2]", "{\"k\":1}", "\"${a}\""];
const EXPRS: &[&str] = &["${a}", "a", "/${a}", "${a}/x", "${a}${b}", "${a} ${b} ${a}", "${}", "${}${a}", "${missing}", "missing", "", "${a", "}${a}", "a}b${a}c}", "$${a}}", "${a}}${b}{", "{${b}}", "\u{e9}${a}\u{1F600}", "plain text"];

fn to_text(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => "".into(), o => o.to_string() } }
/// reference reading of an expression
fn evaluate(e: &str, ctx: &serde_json::Map<String, Value>) -> Option<Value> {
  if !e.contains("${") { return ctx.get(e).cloned() }
  let mut parts: Vec<Value> = vec![];
  let mut rest = e;
  loop {
    match rest.find("${") {
      None => { if !rest.is_empty() { parts.push(json!(rest)); } break }
      Some(i) => {
        if i > 0 { parts.push(json!(&rest[..i])); }
        let end = i + rest[i..].find('}')?;
        let key = &rest[i + 2..end];
        if !key.is_empty() { parts.push(ctx.get(key)?.clone()); }
        rest = &rest[end + 1..];
      }
    }
  }
  Some(if parts.len() == 1 { parts.remove(0) } else { json!(parts.iter().map(to_text).collect::<String>()) })
}
fn as_int(v: &Value) -> Option<i128> {
  match v {
    Value::Null => Some(0),
    Value::Bool(b) => Some(*b as i128),
    Value::Number(n) => n.as_u64().map(|n| n as i128).or(n.as_i64().map(|n| n as i128)).or(n.as_f64().filter(|f| f.abs() < 9.3e18).map(|f| f.trunc() as i128)),
    Value::String(s) => s.parse::<i128>().ok(),
    _ => None
  }.filter(|i| *i >= i64::MIN as i128 && *i <= u64::MAX as i128)
}
fn as_float(v: &Value) -> Option<f64> {
  match v {
    Value::Null => Some(0.0),
    Value::Bool(b) => Some(*b as u8 as f64),
    Value::Number(n) => n.as_f64(),
    Value::String(s) => s.parse::<f64>().ok().filter(|f| f.is_finite()),
    _ => None
  }
}
fn as_bool(v: &Value) -> Option<bool> {
  match v {
    Value::Null => Some(false),
    Value::Bool(b) => Some(*b),
    Value::Number(n) => n.as_f64().map(|f| f > 0.0),
    Value::String(s) => s.parse::<bool>().ok(),
    _ => None
  }
}
fn state_value(v: &Value, t: Option<DataType>, how: Ask) -> Want {
  let opt = |v: Option<Value>| v.map(Want::Exact).unwrap_or(Want::Fail);
  // the text of null is not specified any further
  let null = v.is_null();
  let str_or = move |s: String| if null { Want::Ok(pred(|v| need(["", "null"].contains(&text(v)?.as_str()), "not the text of null"))) } else { Want::Exact(json!(s)) };
  match how {
    Ask::U16 | Ask::U64 | Ask::I64 => {
      let whole = |f: f64| if f.abs() < 1e20 { Some(f.trunc() as i128) } else { None };
      let int = match v {
        Value::String(s) => match t { Some(DataType::FLOAT) | Some(DataType::DECIMAL) => s.parse::<f64>().ok().and_then(whole), Some(DataType::BOOLEAN) => None, _ => s.parse::<i128>().ok() },
        Value::Array(_) | Value::Object(_) => None,
        Value::Number(n) if n.is_f64() => n.as_f64().and_then(whole),
        v => as_int(v)
      };
      let (lo, hi) = match how { Ask::U16 => (0, u16::MAX as i128), Ask::U64 => (0, u64::MAX as i128), _ => (i64::MIN as i128, i64::MAX as i128) };
      opt(int.filter(|i| (lo..=hi).contains(i)).map(|i| if i < 0 { json!(i as i64) } else { json!(i as u64) }))
    }
    Ask::F64 => {
      let float = match v {
        Value::String(s) if t == Some(DataType::INTEGER) => s.parse::<i64>().ok().map(|i| i as f64),
        Value::String(_) if t == Some(DataType::BOOLEAN) => None,
        v => as_float(v)
      };
      match float { None => Want::Fail, Some(f) => Want::Ok(pred(move |v| need(v.is_f64() && v.as_f64() == Some(f), &format!("not the number {}", f)))) }
    }
    Ask::Bool => opt(as_bool(v).map(|b| json!(b))),
    Ask::Str | Ask::List => match t {
      None | Some(DataType::RAW) | Some(DataType::STRING) => str_or(to_text(v)),
      Some(DataType::INTEGER) => opt(as_int(v).map(|i| json!(i.to_string()))),
      Some(DataType::BOOLEAN) => opt(as_bool(v).map(|i| json!(i.to_string()))),
      Some(DataType::FLOAT) | Some(DataType::DECIMAL) => match as_float(v) { None => Want::Fail, Some(f) => Want::Ok(pred(move |v| need(text(v)?.parse::<f64>().ok() == Some(f), &format!("not the number {}", f)))) }
    },
    _ => match t {
      None | Some(DataType::RAW) => Want::Exact(v.clone()),
      Some(DataType::STRING) => str_or(to_text(v)),
      Some(DataType::INTEGER) => match as_int(v) { None => Want::Fail, Some(i) => Want::Ok(pred(move |v| need(v.is_number() && !v.is_f64() && as_int(v) == Some(i), &format!("not the integer {}", i)))) },
      Some(DataType::BOOLEAN) => opt(as_bool(v).map(|i| json!(i))),
      Some(DataType::FLOAT) | Some(DataType::DECIMAL) => match as_float(v) { None => Want::Fail, Some(f) => Want::Ok(pred(move |v| need(v.as_f64() == Some(f) && v.is_f64(), &format!("not the number {}", f)))) }
    }
  }
}

pub fn c07(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let mut host = Host::new(ch);
  host.flaky = 0;
  let n = ch.count(1, 6);
  for k in 0..n {
    let mut how = *ch.pick(ASKS);
    let ex = ch.below(60);
    let mut ctx: HashMap<&'static str, Value> = HashMap::new();
    let mut draws = ch.count(1, 6);
    let mut reach: Option<BTreeSet<String>> = None;
    let mut pairs = false;
    let (name, attrs, gen, want): (&str, Value, Option<Generator>, Want) = match ch.below(9) {
      0 => {
        let edge = [0i64, 1, -1, 10, 200, 65535, 65536, i32::MAX as i64, i32::MIN as i64, 255];
        let a = (*ch.pick(&edge) + ch.range(-2, 2)).clamp(i32::MIN as i64, i32::MAX as i64);
        let b = match ch.below(4) { 0 => a, 1 => (a + ch.range(0, 3)).min(i32::MAX as i64), 2 => *ch.pick(&edge), _ => (a + ch.range(-3, 100)).clamp(i32::MIN as i64, i32::MAX as i64) };
        let (lo, hi) = if how == Ask::U16 { (a.max(0), b.min(65535)) } else { (a, b) };
        let text_result = matches!(how, Ask::Str | Ask::List | Ask::JsonStr);
        let want = if lo > hi { Want::Fail } else {
          if hi - lo <= 3 { draws = 250; reach = Some((lo..=hi).map(|v| v.to_string()).collect()); }
          Want::Ok(pred(move |v| { let n = if text_result { text(v)?.parse::<i64>().map_err(|_| "not an integer".to_string())? } else { v.as_i64().ok_or("not an integer")? }; need(n >= lo && n <= hi, &format!("not between {} and {}", lo, hi)) }))
        };
        ("RandomInt", json!({"min": a, "max": b}), Some(Generator::RandomInt(a as i32, b as i32)), want)
      }
      1 => {
        let d = *ch.pick(&[10usize, 0, 1, 2, 3, 4, 5, 8, 17, 40, 300]);
        let p = move |s: &str| { let digits: String = s.chars().filter(|c| *c != '.').collect();
          need(digits.len() == d && digits.chars().all(|c| c.is_ascii_digit()), &format!("not {} digits", d))?;
          need(d < 2 || (s.matches('.').count() == 1 && !s.starts_with('.') && !s.ends_with('.')), "no decimal number")?;
          need(d >= 2 || !s.contains('.'), "point without decimals")?;
          need(d < 2 || !s.starts_with('0') || s.starts_with("0."), "superfluous leading zero") };
        let want = match how {
          Ask::U16 => Want::Fail,
          Ask::JsonNum => Want::Either(pred(move |v| { let f = v.as_f64().ok_or("not a number")?; need(f >= 0.0 && f < 10f64.powi((d as i32 - 1).max(1)) * 1.0000001, "number with more digits") })),
          _ => { if d < 5 { draws = 40; } Want::Ok(pred(move |v| p(&text(v)?))) }
        };
        if how == Ask::JsonNum && d > 0 { ("RandomDecimal", json!({"digits": d}), Some(Generator::RandomDecimal(d as u16)), match want { Want::Either(p) => Want::Ok(p), w => w }) }
        else { ("RandomDecimal", json!({"digits": d}), Some(Generator::RandomDecimal(d as u16)), want) }
      }
      2 => {
        let d = *ch.pick(&[10usize, 0, 1, 2, 3, 15, 16, 17, 32, 100, 65535]);
        let want = if how == Ask::U16 { Want::Fail } else { Want::Ok(pred(move |v| { let s = text(v)?; need(s.len() == d && s.chars().all(|c| c.is_ascii_hexdigit()), &format!("not {} hexadecimal digits", d)) })) };
        if how != Ask::U16 && d == 1 { draws = 700; reach = Some("0123456789ABCDEF".chars().map(|c| c.to_string()).collect()); }
        if how != Ask::U16 && d == 2 { draws = 700; pairs = true; }
        ("RandomHexadecimal", json!({"digits": d}), Some(Generator::RandomHexadecimal(d as u16)), want)
      }
      3 => {
        let d = *ch.pick(&[10usize, 0, 1, 2, 33, 1000, 65535]);
        let want = if how == Ask::U16 { Want::Fail } else { Want::Ok(pred(move |v| { let s = text(v)?; need(s.len() == d && s.chars().all(|c| c.is_ascii_alphanumeric()), &format!("not {} letters and digits", d)) })) };
        ("RandomString", json!({"size": d}), Some(Generator::RandomString(d as u16)), want)
      }
      4 => {
        if ch.pct(15) { let r = ch.pick(BAD_REGEXES).to_string(); ("Regex", json!({"regex": r}), Some(Generator::Regex(r)), Want::Fail) }
        else {
          let (r, m) = *ch.pick(REGEXES);
          let re = regex::Regex::new(&format!("^(?:{})$", m)).unwrap();
          let want = if how == Ask::U16 { Want::Fail } else { Want::Ok(pred(move |v| need(re.is_match(&text(v)?), "not matched by the expression"))) };
          ("Regex", json!({"regex": r}), Some(Generator::Regex(r.to_string())), want)
        }
      }
      5 => {
        let (f, fmt) = *ch.pick(&[("", None), ("simple", Some(UuidFormat::Simple)), ("lower-case-hyphenated", Some(UuidFormat::LowerCaseHyphenated)), ("upper-case-hyphenated", Some(UuidFormat::UpperCaseHyphenated)), ("URN", Some(UuidFormat::Urn))]);
        let fmt2 = if how == Ask::JsonNum || how == Ask::JsonNull { None } else { fmt };
        let want = if how == Ask::U16 { Want::Fail } else { Want::Ok(pred(move |v| {
          let s = text(v)?;
          let bare = match fmt2 { Some(UuidFormat::Urn) => s.strip_prefix("urn:uuid:").ok_or("no urn")?.to_string(), _ => s.clone() };
          let upper = fmt2 == Some(UuidFormat::UpperCaseHyphenated);
          need(bare.chars().all(|c| c == '-' || c.is_ascii_digit() || (c.is_ascii_alphabetic() && c.is_ascii_uppercase() == upper)), "wrong case or character")?;
          let groups: Vec<usize> = bare.split('-').map(|g| g.len()).collect();
          need(groups == if fmt2 == Some(UuidFormat::Simple) { vec![32] } else { vec![8, 4, 4, 4, 12] }, "wrong shape")?;
          let hex: String = bare.chars().filter(|c| *c != '-').collect();
          need(hex.as_bytes()[12] == b'4', "not a version 4 UUID")?;
          need("89abAB".contains(hex.as_bytes()[16] as char), "wrong variant")
        })) };
        ("Uuid", if f.is_empty() { json!({}) } else { json!({"format": f}) }, Some(Generator::Uuid(fmt)), want)
      }
      6 => {
        draws = 70;
        let want = if how == Ask::U16 { Want::Fail } else {
          reach = Some(["true", "false"].iter().map(|s| s.to_string()).collect());
          let texts = matches!(how, Ask::Str | Ask::List);
          Want::Ok(pred(move |v| if texts { need(["true", "false"].contains(&text(v)?.as_str()), "no boolean") } else { need(v.is_boolean(), "no boolean") }))
        };
        ("RandomBoolean", json!({}), Some(Generator::RandomBoolean), want)
      }
      7 => {
        let e = ch.pick(EXPRS).to_string();
        let a: Value = serde_json::from_str(ch.pick(VALUES)).unwrap();
        let b: Value = serde_json::from_str(ch.pick(VALUES)).unwrap();
        let nested = ch.pct(60);
        let map = json!({"a": a, "b": b});
        if nested { ctx.insert("providerState", map.clone()); if ch.pct(50) { ctx.insert("a", json!("outer")); } } else { ctx.insert("a", a); ctx.insert("b", b); }
        if ch.pct(35) { how = *ch.pick(CONVERSIONS); }
        let (tn, t) = *ch.pick(&[("", None), ("STRING", Some(DataType::STRING)), ("INTEGER", Some(DataType::INTEGER)), ("DECIMAL", Some(DataType::DECIMAL)), ("FLOAT", Some(DataType::FLOAT)), ("RAW", Some(DataType::RAW)), ("BOOLEAN", Some(DataType::BOOLEAN)), ("integer", Some(DataType::INTEGER)), ("Float", Some(DataType::FLOAT)), ("nothing known", Some(DataType::RAW))]);
        let want = match evaluate(&e, map.as_object().unwrap()) { None => Want::Fail, Some(v) => state_value(&v, t, how) };
        ("ProviderState", if t.is_none() { json!({"expression": e}) } else { json!({"expression": e, "dataType": tn}) }, Some(Generator::ProviderStateGenerator(e, t)), want)
      }
      _ => {
        let path = *ch.pick(&["/path", "/a/b?c=d", "", "/pacts/provider/p%20q/x", "/$1"]);
        let example = format!("{}{}", ch.pick(&["http://localhost:1234", "https://example.com/api", "http://[::1]:80"]), path);
        let (re, groups) = match ch.below(6) {
          0 | 1 => (format!(".*({})$", regex::escape(path)), true),
          2 => (format!("^https?://.*({})$", regex::escape(path)), true),
          3 => (".*".to_string(), false),
          4 => ("^nothing-like-it(x)?$".to_string(), true),
          _ => ("(".to_string(), false)
        };
        let url = *ch.pick(&["http://127.0.0.1:38055", "http://localhost:9/p", "https://h$1:1"]);
        let mode = ch.below(5);
        match mode { 0 => { ctx.insert("mockServer", json!({"url": url, "port": 1})); } 1 => { ctx.insert("mockServer", json!({"href": url, "port": 1})); } 2 => { ctx.insert("mockServer", json!(url)); } 3 => { ctx.insert("mockServer", json!({"port": 1})); } _ => {} }
        let matched = groups && re.contains(&regex::escape(path)) && re != "^nothing-like-it(x)?$";
        let expected = format!("{}{}", url, path);
        let want = if how == Ask::U16 || mode > 1 || !groups { Want::Fail }
          else if !matched { let ex = example.clone(); Want::Either(pred(move |v| need(text(v)? == ex, "not the example"))) }
          else { Want::Exact(json!(expected)) };
        ("MockServerURL", json!({"example": example, "regex": re}), Some(Generator::MockServerURL(example, re)), want)
      }
    };
    let gen = gen.unwrap();
    let loaded = ch.pct(50);
    let label = format!("{} {} as {:?} ({})", name, attrs, how, ex);
    let r = host.proc(&label, || {
      let g = if loaded { match Generator::create(name, &attrs) { Ok(g) => g, Err(e) => return Err(format!("not created from its JSON: {:#}", e)) } } else { gen.clone() };
      if g != gen { return Err(format!("created as {:?} instead of {:?}", g, gen)) }
      Ok((0..draws).map(|_| ask(&g, how, ex, &ctx)).collect::<Vec<_>>())
    });
    o.probe(name);
    match r {
      Err(p) => { o.violate(panic_class(&p), format!("{}: {}", label, p)); }
      Ok(Err(e)) => { o.violate(format!("created:{}", name), format!("{}: {}", label, e)); }
      Ok(Ok(list)) => {
        let mut seen = BTreeSet::new();
        let mut bad = None;
        for v in &list {
          let v2 = match v { Ok(v) => { seen.insert(to_text(v)); Ok(v.clone()) } Err(e) => Err(e.clone()) };
          let verdict = match (&want, v2) {
            (Want::Fail, Ok(v)) => Err(format!("gives {} where no value exists", short(&v.to_string()))),
            (Want::Fail, Err(_)) | (Want::Either(_), Err(_)) => Ok(()),
            (Want::Exact(w), Ok(v)) => need(*w == v, &format!("{} instead of {}", short(&v.to_string()), short(&w.to_string()))),
            (Want::Either(p), Ok(v)) | (Want::Ok(p), Ok(v)) => p(&v).map_err(|e| format!("{}: {}", short(&v.to_string()), e)),
            (_, Err(e)) => Err(format!("fails although a value exists: {}", e))
          };
          o.digest = mix(o.digest, hash_str(&format!("{:?}", v)));
          if let Err(e) = verdict { bad = Some(e); break }
        }
        let variant = match how { Ask::U64 | Ask::I64 | Ask::F64 | Ask::Bool => "converted", Ask::Str | Ask::List => "text", Ask::U16 => "u16", _ => "json" };
        if let Some(e) = bad { o.violate(format!("value:{}:{}", name, variant), format!("{}: {}", label, e)); }
        else {
          if let Some(all) = reach { for v in all { if !seen.contains(&v) { o.violate(format!("unreachable:{}:{}", name, variant), format!("{}: {} does not occur in {} draws", label, v, draws)); break } } }
          if pairs && !seen.iter().any(|s| s.len() == 2 && s.as_bytes()[0] == s.as_bytes()[1]) { o.violate(format!("unreachable:{}:{}", name, variant), format!("{}: no repeated digit in {} draws", label, draws)); }
          if ["Uuid", "RandomString"].contains(&name) && list.len() > 1 && list[0].as_ref().is_ok_and(|v| to_text(v).len() >= 10) && seen.len() != list.len() { o.violate(format!("repeats:{}", name), format!("{}: the same value twice", label)); }
          if !seen.is_empty() { o.nontrivial = true; }
        }
        o.case = mix(o.case, hash_str(&label));
        if k == 0 { o.sample = format!("{} -> {}", short(&label), short(&seen.iter().next().cloned().unwrap_or("error".into()))); }
      }
    }
    if !o.violations.is_empty() { break }
  }
  o.case = mix(o.case, o.digest);
  for f in &host.faults { o.fault(f); }
  o.steps = host.syscalls; o.sim_ns = host.sim_ns;
  o.trace.extend(std::mem::take(&mut host.trace));
  o
}
