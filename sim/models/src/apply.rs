//! C11: applying generators changes exactly the addressed values.
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

use pact_matching::generators::{apply_generators_to_async_message, apply_generators_to_sync_message, generate_message};
use pact_matching::{generate_request, generate_response};
use pact_models::bodies::OptionalBody;
use pact_models::generators::{Generator, GeneratorCategory, GeneratorTestMode, Generators};
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList};
use pact_models::message::Message;
use pact_models::path_exp::DocPath;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use serde_json::{json, Map, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::procs::Host;

pub fn block<T>(f: impl Future<Output = T>) -> T {
  let mut f = pin!(f);
  let mut cx = Context::from_waker(Waker::noop());
  for _ in 0..1000 { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v } }
  panic!("generating does not finish")
}

/// What the value in an addressed place has to be afterwards.
#[derive(Clone, Debug, PartialEq)]
enum Want { Keep, Tag(String), Exact(Value), Int(i64, i64), Bool, Uuid }
impl Want {
  fn ok(&self, text: bool, old: &Value, new: &Value) -> bool {
    match self {
      Want::Keep => old == new,
      Want::Tag(t) => new.as_str().is_some_and(|s| s.strip_prefix(t.as_str()).is_some_and(|d| d.len() == 3 && d.bytes().all(|b| b.is_ascii_digit()))),
      Want::Exact(v) => if text { new.as_str() == Some(&match v { Value::String(s) => s.clone(), o => o.to_string() }) } else { new == v },
      Want::Int(a, b) => { let n = new.as_i64().or(new.as_str().and_then(|s| s.parse().ok())); n.is_some_and(|n| n >= *a && n <= *b) && (!text || new.is_string()) && (text || new.is_string() == old.is_string()) }
      Want::Bool => if text { new == "true" || new == "false" } else { new.is_boolean() },
      Want::Uuid => new.as_str().is_some_and(|s| s.len() == 36 && s.bytes().filter(|b| *b == b'-').count() == 4)
    }
  }
}

const STATE: &[(&str, &str)] = &[("s1", "\"state one\""), ("s2", "42"), ("s3", "{\"new\":[1,{\"x\":null}]}"), ("s4", "true")];

/// A generator, what it makes out of a value and whether the mode is right for it.
fn generator(ch: &mut Choices, n: &mut usize, mode: GeneratorTestMode, kind: &str) -> (Generator, Want) {
  *n += 1;
  let tag = format!("gen{}x", *n);
  match ch.below(12) {
    0..=3 => (Generator::Regex(format!("{}\\d{{3}}", tag)), if kind == "status" { Want::Keep } else { Want::Tag(tag) }),
    4 => { let (a, b) = *ch.pick(&[(200, 299), (7000, 7000), (1, 9)]); (Generator::RandomInt(a, b), Want::Int(a as i64, b as i64)) }
    5 => (Generator::RandomBoolean, if kind == "status" { Want::Keep } else { Want::Bool }),
    6 => (Generator::Uuid(None), if kind == "status" { Want::Keep } else { Want::Uuid }),
    7 | 8 => {
      let (k, v) = *ch.pick(STATE);
      let v: Value = serde_json::from_str(v).unwrap();
      let w = if mode == GeneratorTestMode::Consumer { Want::Keep } else if kind == "status" { if v.is_number() { Want::Exact(v) } else if v.is_boolean() { Want::Exact(json!(1)) } else { Want::Keep } } else { Want::Exact(v) };
      (Generator::ProviderStateGenerator(if ch.pct(50) { k.to_string() } else { format!("${{{}}}", k) }, None), w)
    }
    9 => (Generator::MockServerURL(format!("http://localhost:8080/{}", tag), format!(".*(/{})$", tag)), if mode == GeneratorTestMode::Provider || kind == "status" { Want::Keep } else { Want::Exact(json!(format!("http://127.0.0.1:4242/base/{}", tag))) }),
    // generators that fail
    10 => (Generator::ProviderStateGenerator("${missing}".to_string(), None), Want::Keep),
    _ => (if ch.pct(50) { Generator::RandomInt(9, 3) } else { Generator::Regex("(".to_string()) }, Want::Keep),
  }
}

const NAMES: &[&str] = &["a", "b", "id", "name", "items", "x y", "a.b", "é", "a/b", "a~1b", "m~n", "", "0", "Content-Type", "*x", "it's", "c\\d"];
fn tree(ch: &mut Choices, depth: usize, seq: &mut usize) -> Value {
  *seq += 1;
  match if depth == 0 { ch.below(4) } else { ch.below(8) } {
    0 => json!(*seq),
    1 => json!(format!("v{}", seq)),
    2 => ch.pick(&[json!(null), json!(true), json!(1.5), json!(""), json!("ünï")]).clone(),
    3 => ch.pick(&[json!([]), json!({})]).clone(),
    4 | 5 => { let n = ch.count(1, 4); Value::Array((0..n).map(|_| tree(ch, depth - 1, seq)).collect()) }
    _ => { let n = ch.count(1, 4); let mut m = Map::new(); for _ in 0..n { let k = ch.pick(NAMES).to_string(); let v = tree(ch, depth - 1, seq); m.insert(k, v); } Value::Object(m) }
  }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Tok { F(String), I(usize), Star, AllI }
fn expr(p: &[Tok]) -> String {
  let mut s = "$".to_string();
  for t in p { match t { Tok::F(n) if !n.is_empty() && n.chars().all(|c| c.is_ascii_alphabetic()) => { s.push('.'); s.push_str(n); } Tok::F(n) => s.push_str(&crate::select::quoted(n)), Tok::I(i) => s.push_str(&format!("[{}]", i)), Tok::Star => s.push_str(".*"), Tok::AllI => s.push_str("[*]") } }
  s
}
/// the places a path means, as lists of steps
fn places(v: &Value, p: &[Tok], at: Vec<Tok>, out: &mut Vec<Vec<Tok>>) {
  if p.is_empty() { out.push(at); return }
  let mut go = |v: &Value, t: Tok| { let mut at = at.clone(); at.push(t); places(v, &p[1..], at, out) };
  match (&p[0], v) {
    (Tok::F(n), Value::Object(m)) => if let Some(x) = m.get(n) { go(x, p[0].clone()) },
    (Tok::I(i), Value::Array(a)) => if let Some(x) = a.get(*i) { go(x, p[0].clone()) },
    (Tok::Star, Value::Object(m)) => for (k, x) in m { go(x, Tok::F(k.clone())) },
    (Tok::AllI, Value::Array(a)) => for (k, x) in a.iter().enumerate() { go(x, Tok::I(k)) },
    _ => {}
  }
}
fn look<'a>(v: &'a Value, at: &[Tok]) -> Option<&'a Value> { at.iter().try_fold(v, |v, t| match t { Tok::F(n) => v.as_object()?.get(n), Tok::I(i) => v.as_array()?.get(*i), _ => None }) }
fn look_mut<'a>(v: &'a mut Value, at: &[Tok]) -> Option<&'a mut Value> { at.iter().try_fold(v, |v, t| match t { Tok::F(n) => v.as_object_mut()?.get_mut(n), Tok::I(i) => v.as_array_mut()?.get_mut(*i), _ => None }) }
fn all_places(v: &Value, at: Vec<Tok>, out: &mut Vec<Vec<Tok>>) {
  out.push(at.clone());
  match v {
    Value::Object(m) => for (k, x) in m { let mut a = at.clone(); a.push(Tok::F(k.clone())); all_places(x, a, out) },
    Value::Array(l) => for (k, x) in l.iter().enumerate() { let mut a = at.clone(); a.push(Tok::I(k)); all_places(x, a, out) },
    _ => {}
  }
}

#[derive(Clone, Debug)]
enum BodyKind { Json, Form, Raw, None }
#[derive(Clone)]
struct Body { body: OptionalBody, header_ct: Option<String>, kind: BodyKind, json: Value, form: Vec<(String, String)>, gens: Vec<(DocPath, Generator)>,
  /// concrete place -> expectation
  json_want: Vec<(Vec<Tok>, Want)>, form_want: Vec<(usize, Want)>, variants: Option<(String, RuleList)>, variant_want: Vec<(Vec<Tok>, Want)> }

fn body(ch: &mut Choices, n: &mut usize, mode: GeneratorTestMode, o: &mut Outcome) -> Body {
  let mut b = Body { body: OptionalBody::Missing, header_ct: None, kind: BodyKind::None, json: Value::Null, form: vec![], gens: vec![], json_want: vec![], form_want: vec![], variants: None, variant_want: vec![] };
  let in_header = ch.pct(40);
  let put = |b: &mut Body, bytes: Vec<u8>, ct: &str| {
    if in_header { b.header_ct = Some(ct.to_string()); b.body = OptionalBody::Present(bytes.into(), None, None); }
    else { b.body = OptionalBody::Present(bytes.into(), Some(ct.into()), None); }
  };
  match ch.below(10) {
    0..=5 => {
      let mut seq = 0;
      let mut v = tree(ch, 3, &mut seq);
      let mut used: Vec<Vec<Tok>> = vec![];
      let mut patterns: Vec<Vec<Tok>> = vec![];
      let clash = |used: &[Vec<Tok>], ps: &[Vec<Tok>]| ps.iter().any(|p| used.iter().any(|u| { let k = p.len().min(u.len()); p[..k] == u[..k] }));
      // a list with variants
      let with_variants = ch.pct(20);
      if with_variants { if let Value::Object(m) = &mut v {
        let k = ch.count(0, 4);
        let list: Vec<Value> = (0..k).map(|i| json!({"kind": ch.pick(&["v0", "v1", "none"]), "id": format!("old{}", i), "n": i})).collect();
        m.insert("vs".into(), Value::Array(list.clone()));
        let rules = |k: &str| { let mut c = MatchingRuleCategory::empty("body"); c.add_rule(DocPath::new("$.kind").unwrap(), MatchingRule::Regex(format!("^{}$", k)), pact_models::matchingrules::RuleLogic::And); c };
        let variants: Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)> = (0..2).map(|i| (i, rules(&format!("v{}", i)), HashMap::from([(DocPath::new("$.id").unwrap(), Generator::Regex(format!("var{}x\\d{{3}}", i)))]))).collect();
        for (i, x) in list.iter().enumerate() { if let Some(k) = x["kind"].as_str().unwrap().strip_prefix('v') { b.variant_want.push((vec![Tok::F("vs".into()), Tok::I(i), Tok::F("id".into())], Want::Tag(format!("var{}x", k)))); } }
        used.push(vec![Tok::F("vs".into())]);
        b.variants = Some(("$.vs".into(), RuleList { rules: vec![MatchingRule::ArrayContains(variants)], rule_logic: pact_models::matchingrules::RuleLogic::And, cascaded: false }));
        o.probe("variants");
      } }
      let mut every = vec![]; all_places(&v, vec![], &mut every);
      let k = ch.count(1, 5);
      for _ in 0..k {
        let mut p = every[ch.below(every.len())].clone();
        if p.is_empty() && (!ch.pct(15) || !used.is_empty()) { continue }
        if ch.pct(35) { for t in p.iter_mut() { if ch.pct(40) { *t = match t { Tok::I(_) => Tok::AllI, _ => Tok::Star }; } } }
        if ch.pct(20) { p.push(match ch.below(3) { 0 => Tok::F(ch.pick(NAMES).to_string()), 1 => Tok::I(ch.below(9)), _ => Tok::AllI }); }
        else if ch.pct(10) { let k = ch.below(p.len().max(1)); if k < p.len() { p[k] = match &p[k] { Tok::I(i) => Tok::I(i + 7), _ => Tok::F("missing".into()) }; } }
        let mut ps = vec![]; places(&v, &p, vec![], &mut ps);
        // what one generator puts in a place must not be addressed by another one
        let under = |q: &[Tok], x: &[Tok]| q.len() >= x.len() && q.iter().zip(x).all(|(a, b)| a == b || matches!((a, b), (Tok::Star, Tok::F(_)) | (Tok::AllI, Tok::I(_))));
        if clash(&used, &ps) || used.iter().any(|x| under(&p, x)) || ps.iter().any(|x| patterns.iter().any(|q| under(q, x))) { continue }
        // a field without a name can not be written as a path
      if p.contains(&Tok::F(String::new())) { continue }
      let Ok(path) = DocPath::new(expr(&p)) else { o.violate("path-refused", format!("{} is not a path", expr(&p))); continue };
        if b.gens.iter().any(|(q, _)| *q == path) { continue }
        let (g, w) = generator(ch, n, mode, "json");
        o.probe(if ps.is_empty() { "body place missing" } else if ps.len() > 1 { "several body places" } else { "body place" });
        for x in &ps { b.json_want.push((x.clone(), w.clone())); }
        used.extend(ps);
        b.gens.push((path, g));
        patterns.push(p);
      }
      let ct = *ch.pick(&["application/json", "application/json", "application/json;charset=UTF-8", "application/hal+json", "application/vnd.api+json"]);
      let damaged = ch.pct(6);
      let text = if ch.pct(50) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
      if damaged {
        let k = text.char_indices().map(|c| c.0).nth(ch.below(text.chars().count())).unwrap_or(0);
        let cut = text[..k].to_string();
        if serde_json::from_str::<Value>(&cut).is_err() { o.fault("body cut"); b.json_want.clear(); b.variant_want.clear(); put(&mut b, cut.into_bytes(), ct); b.kind = BodyKind::Raw; return b }
      }
      put(&mut b, text.into_bytes(), ct);
      b.json = v; b.kind = BodyKind::Json;
    }
    6 | 7 => {
      let k = ch.count(1, 6);
      for i in 0..k { b.form.push((ch.pick(&["a", "b", "x y", "a.b", "é", "name", "a&b", "a[0]", "A", "B"]).to_string(), if ch.pct(20) { ch.pick(&["", "a b+c", "ü=&"]).to_string() } else { format!("f{}", i) })); }
      let mut names: Vec<String> = b.form.iter().map(|p| p.0.clone()).collect(); names.push("nope".into());
      let m = ch.count(1, 3);
      let mut seen: Vec<String> = vec![];
      for _ in 0..m {
        let name = names[ch.below(names.len())].clone();
        if seen.contains(&name) { continue } seen.push(name.clone());
        let at: Vec<usize> = (0..b.form.len()).filter(|i| b.form[*i].0 == name).collect();
        let (g, w) = generator(ch, n, mode, "text");
        let mut path = DocPath::root(); path.push_field(&name);
        if ch.pct(40) { let i = ch.below(3); path.push_index(i); if let Some(x) = at.get(i) { b.form_want.push((*x, w)); } }
        else if let Some(x) = at.first() { b.form_want.push((*x, w)); }
        // through its text, as when it comes from a file
        let Ok(path) = DocPath::new(path.to_string()) else { continue };
        b.gens.push((path, g));
      }
      let text = b.form.iter().map(|(k, v)| format!("{}={}", enc(k), enc(v))).collect::<Vec<_>>().join("&");
      put(&mut b, text.into_bytes(), "application/x-www-form-urlencoded");
      b.kind = BodyKind::Form;
    }
    8 => {
      let (ct, bytes): (&str, &[u8]) = *ch.pick(&[("text/plain", b"some text".as_slice()), ("application/xml", b"<a><id>1</id></a>"), ("application/octet-stream", b"\x00\xff\xfe{}"), ("image/png", b"{\"a\":1}"), ("text/html", b"<p>x</p>")]);
      b.gens.push((DocPath::new(ch.pick(&["$", "$.a", "$.id"]).to_string()).unwrap(), Generator::Regex("zz\\d{3}".into())));
      put(&mut b, bytes.to_vec(), ct);
      b.kind = BodyKind::Raw;
    }
    _ => {
      b.gens.push((DocPath::new("$.a").unwrap(), Generator::Regex("zz\\d{3}".into())));
      b.body = ch.pick(&[OptionalBody::Missing, OptionalBody::Null, OptionalBody::Empty]).clone();
    }
  }
  b
}
fn enc(s: &str) -> String { s.bytes().map(|b| if b == b' ' { "+".to_string() } else if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }
fn dec(s: &str) -> String { let b = s.as_bytes(); let mut o = vec![]; let mut i = 0; while i < b.len() { match b[i] { b'+' => o.push(b' '), b'%' if i + 2 < b.len() => { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?')); i += 2; } c => o.push(c) } i += 1; } String::from_utf8_lossy(&o).into_owned() }

type Bad = Option<(String, String)>;
fn bad(class: &str, d: String) -> Bad { Some((class.to_string(), d)) }
fn judge_body(b: &Body, after: &OptionalBody, variants: bool) -> Bad {
  let untouched = b.json_want.iter().all(|(_, w)| *w == Want::Keep) && b.form_want.iter().all(|(_, w)| *w == Want::Keep) && (!variants || b.variant_want.is_empty());
  match (&b.body, after) {
    (OptionalBody::Present(x, ct, hint), OptionalBody::Present(y, ct2, hint2)) => {
      if ct.as_ref().map(|c| c.to_string()) != ct2.as_ref().map(|c| c.to_string()) && !(ct.is_none() && ct2.as_ref().is_some_and(|c| c.is_json() || c.is_form_urlencoded())) {
        return bad("body-content-type", format!("the body's content type {:?} became {:?}", ct.as_ref().map(|c| c.to_string()), ct2.as_ref().map(|c| c.to_string()))) }
      if hint != hint2 { return bad("body-hint", format!("the body's content type hint {:?} became {:?}", hint, hint2)) }
      match b.kind {
        BodyKind::Json => {
          let Ok(v) = serde_json::from_slice::<Value>(y) else { return bad("body-json", format!("no JSON any more: {}", String::from_utf8_lossy(y))) };
          let mut expected = b.json.clone();
          let none = vec![];
          for (at, w) in b.json_want.iter().chain(if variants { &b.variant_want } else { &none }) {
            let (old, new) = (look(&b.json, at).unwrap().clone(), look(&v, at));
            let Some(new) = new else { return bad("body-addressed", format!("{} has gone in {}", expr(at), v)) };
            if !w.ok(false, &old, new) { return bad("body-addressed", format!("{} was {} and became {}, expected {:?}", expr(at), old, new, w)) }
            *look_mut(&mut expected, at).unwrap() = new.clone();
          }
          if v != expected { return bad("body-other", format!("something else changed: {} became {}", b.json, v)) }
        }
        BodyKind::Form => {
          let text = String::from_utf8_lossy(y).into_owned();
          let got: Vec<(String, String)> = text.split('&').filter(|s| !s.is_empty()).map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (dec(k), dec(v)) }).collect();
          if got.len() != b.form.len() { return bad("form-other", format!("{:?} became {:?}", b.form, got)) }
          for (i, (old, new)) in b.form.iter().zip(&got).enumerate() {
            let w = b.form_want.iter().find(|(k, _)| *k == i).map(|x| &x.1).unwrap_or(&Want::Keep);
            if old.0 != new.0 || !w.ok(true, &json!(old.1), &json!(new.1)) { return bad(if *w == Want::Keep { "form-other" } else { "form-addressed" }, format!("parameter {} was {:?} and became {:?}, expected {:?}", i, old, new, w)) }
          }
        }
        _ => if x != y { return bad("body-raw", format!("{:?} became {:?}", String::from_utf8_lossy(x), String::from_utf8_lossy(y))) }
      }
      let _ = untouched;
      None
    }
    (x, y) if x == y => None,
    (x, y) => bad("body-kind", format!("{:?} became {:?}", x, y))
  }
}

/// headers, query parameters or metadata: name -> values before, wants, values after
fn judge_map(what: &str, before: &BTreeMap<String, Value>, wants: &[(String, Want)], after: &BTreeMap<String, Value>, text: bool) -> Bad {
  let mut left = after.clone();
  for (k, old) in before {
    let w = wants.iter().find(|(n, _)| n.eq_ignore_ascii_case(k) && (what == "header" || n == k)).map(|x| &x.1).unwrap_or(&Want::Keep);
    let Some(new) = left.remove(k) else { return bad(&format!("{}-lost", what), format!("{} has gone", k)) };
    let ok = match (old, &new) {
      (Value::Array(o), Value::Array(n)) if *w != Want::Keep && what == "query" => n.len() == o.len() && o.iter().zip(n).all(|(o, n)| w.ok(text, o, n)),
      (Value::Array(_), Value::Array(n)) if *w != Want::Keep => n.len() == 1 && w.ok(text, old, &n[0]),
      (o, n) => w.ok(text, o, n)
    };
    if !ok { return bad(&format!("{}-{}", what, if *w == Want::Keep { "other" } else { "addressed" }), format!("{}: {} became {}, expected {:?}", k, old, new, w)) }
  }
  for (k, w) in wants {
    if before.keys().any(|x| x == k || (what == "header" && x.eq_ignore_ascii_case(k))) { continue }
    match (w, left.remove(k)) {
      (Want::Keep, None) => {}
      (_, None) => return bad(&format!("{}-missing", what), format!("{} was not added", k)),
      (w, Some(new)) => { let one = match &new { Value::Array(a) if a.len() == 1 => a[0].clone(), o => o.clone() }; if *w == Want::Keep || !w.ok(text, &Value::Null, &one) { return bad(&format!("{}-added", what), format!("{} was added as {}, expected {:?}", k, new, w)) } }
    }
  }
  if let Some((k, v)) = left.iter().next() { return bad(&format!("{}-other", what), format!("{} appeared with {}", k, v)) }
  None
}
fn hmap(m: &Option<HashMap<String, Vec<String>>>) -> BTreeMap<String, Value> { m.iter().flatten().map(|(k, v)| (k.clone(), json!(v))).collect() }
fn qmap(m: &Option<HashMap<String, Vec<Option<String>>>>) -> BTreeMap<String, Value> { m.iter().flatten().map(|(k, v)| (k.clone(), json!(v))).collect() }
fn mmap(m: &HashMap<String, Value>) -> BTreeMap<String, Value> { m.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }

fn named(ch: &mut Choices, n: &mut usize, mode: GeneratorTestMode, what: &str, existing: &[String], kind: &str) -> (Vec<(String, Want)>, Vec<(DocPath, Generator)>) {
  let mut wants: Vec<(String, Want)> = vec![]; let mut gens = vec![];
  let k = ch.below(3);
  for _ in 0..k {
    let mut name = if existing.is_empty() || ch.pct(20) { "new-one".to_string() } else { existing[ch.below(existing.len())].clone() };
    if what == "header" && ch.pct(20) { name = if ch.pct(50) { name.to_lowercase() } else { name.to_uppercase() }; }
    if name.eq_ignore_ascii_case("content-type") { continue }
    if wants.iter().any(|(w, _)| w.eq_ignore_ascii_case(&name)) { continue }
    let (g, w) = generator(ch, n, mode, kind);
    let mut p = DocPath::root(); p.push_field(&name);
    wants.push((name, w)); gens.push((p, g));
  }
  (wants, gens)
}
fn gens(list: Vec<(GeneratorCategory, Vec<(DocPath, Generator)>)>) -> Generators {
  let mut g = Generators::default();
  for (c, l) in list { for (p, x) in l { match c {
    GeneratorCategory::PATH | GeneratorCategory::STATUS => g.add_generator(&c, x),
    _ => g.add_generator_with_subcategory(&c, p, x) } } }
  g
}
fn rules(b: &Body) -> MatchingRules {
  let mut r = MatchingRules::default();
  if let Some((p, l)) = &b.variants { let mut c = MatchingRuleCategory::empty("body"); c.rules.insert(DocPath::new(p.clone()).unwrap(), l.clone()); r.rules.insert(Category::BODY, c); }
  r
}

pub fn c11(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let mut host = Host::new(ch);
  host.flaky = 0;
  let rounds = ch.count(1, 4);
  for _ in 0..rounds {
    let mode = if ch.pct(50) { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer };
    let mut n = 0;
    let state: Map<String, Value> = STATE.iter().map(|(k, v)| (k.to_string(), serde_json::from_str(v).unwrap())).collect();
    let mut ctx: HashMap<&'static str, Value> = if ch.pct(50) { HashMap::from([("providerState", Value::Object(state))]) } else { STATE.iter().map(|(k, v)| (*k, serde_json::from_str(v).unwrap())).collect() };
    ctx.insert("mockServer", json!({"url": "http://127.0.0.1:4242/base", "port": 4242}));
    let what = *ch.pick(&["request", "response", "message", "async", "sync"]);
    o.probe(what); o.probe(if mode == GeneratorTestMode::Provider { "provider mode" } else { "consumer mode" });
    let b = body(ch, &mut n, mode, &mut o);
    let mut label = format!("{} in {:?} mode", what, mode);
    let mut parts: Vec<(String, Bad)> = vec![];
    let mut digest = String::new();
    let headers = |ch: &mut Choices, b: &Body| -> Option<HashMap<String, Vec<String>>> {
      let mut h = HashMap::new();
      if let Some(ct) = &b.header_ct { h.insert(ch.pick(&["Content-Type", "content-type"]).to_string(), vec![ct.clone()]); }
      let k = ch.below(4);
      for i in 0..k { h.insert(ch.pick(&["X-Id", "x-trace", "Accept", "Location", "ETag"]).to_string(), if ch.pct(25) { vec![format!("h{}", i), "two".to_string()] } else { vec![format!("h{}", i)] }); }
      if h.is_empty() && ch.pct(50) { None } else { Some(h) }
    };
    let metadata = |ch: &mut Choices, b: &Body| -> HashMap<String, Value> {
      let mut h = HashMap::new();
      if let Some(ct) = &b.header_ct { h.insert("contentType".to_string(), json!(ct)); }
      let k = ch.below(4);
      for i in 0..k { h.insert(ch.pick(&["id", "topic", "Key", "x.y"]).to_string(), ch.pick(&[json!(format!("m{}", i)), json!(i), json!({"a": [i]}), json!(null)]).clone()); }
      h
    };
    match what {
      "request" => {
        let hs = headers(ch, &b);
        let (hw, hg) = named(ch, &mut n, mode, "header", &hs.iter().flatten().map(|x| x.0.clone()).filter(|k| !k.eq_ignore_ascii_case("content-type")).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "text");
        let query: Option<HashMap<String, Vec<Option<String>>>> = if ch.pct(40) { None } else { Some((0..ch.below(4)).map(|i| (ch.pick(&["q", "w", "a b", "é", "q[0]"]).to_string(), (0..ch.count(1, 3)).map(|j| if ch.pct(15) { None } else { Some(format!("q{}{}", i, j)) }).collect())).collect()) };
        let (qw, qg) = named(ch, &mut n, mode, "query", &query.iter().flatten().map(|x| x.0.clone()).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "text");
        let (pg, pw) = if ch.pct(40) { let (g, w) = generator(ch, &mut n, mode, "text"); (vec![(DocPath::empty(), g)], w) } else { (vec![], Want::Keep) };
        let method = ch.pick(&["GET", "POST", "put"]).to_string();
        let r = HttpRequest { method, path: "/some/path".into(), query, headers: hs, body: b.body.clone(), matching_rules: rules(&b),
          generators: gens(vec![(GeneratorCategory::PATH, pg), (GeneratorCategory::HEADER, hg), (GeneratorCategory::QUERY, qg), (GeneratorCategory::BODY, b.gens.clone())]) };
        let r0 = r.clone();
        label = format!("{}: {}", label, Value::Object(serde_json::to_value(&json!({"gens": format!("{:?}", r.generators.categories)})).unwrap().as_object().unwrap().clone()));
        match host.proc(&label, || block(generate_request(&r, &mode, &ctx))) {
          Err(p) => parts.push(("panic".into(), bad(&panic_class(&p), p))),
          Ok(x) => {
            digest = format!("{} {:?} {:?} {:?}", x.path, qmap(&x.query), hmap(&x.headers), x.body);
            parts.push(("method".into(), if x.method == r0.method { None } else { bad("method", format!("{} became {}", r0.method, x.method)) }));
            parts.push(("path".into(), if pw.ok(true, &json!(r0.path), &json!(x.path)) { None } else { bad("path", format!("{} became {}, expected {:?}", r0.path, x.path, pw)) }));
            parts.push(("headers".into(), judge_map("header", &hmap(&r0.headers), &hw, &hmap(&x.headers), true)));
            parts.push(("query".into(), judge_map("query", &qmap(&r0.query), &qw, &qmap(&x.query), true)));
            parts.push(("body".into(), judge_body(&b, &x.body, true)));
            if r != r0 { parts.push(("original".into(), bad("original-modified", "the original request changed".into()))); }
            if x.matching_rules != r0.matching_rules || x.generators != r0.generators { parts.push(("rules".into(), bad("rules", "the matching rules or generators changed".into()))); }
          }
        }
      }
      "response" => {
        let hs = headers(ch, &b);
        let (hw, hg) = named(ch, &mut n, mode, "header", &hs.iter().flatten().map(|x| x.0.clone()).filter(|k| !k.eq_ignore_ascii_case("content-type")).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "text");
        let (sg, sw) = if ch.pct(40) { let (g, w) = generator(ch, &mut n, mode, "status"); (vec![(DocPath::empty(), g)], w) } else { (vec![], Want::Keep) };
        let status = *ch.pick(&[200u16, 404, 100]);
        let r = HttpResponse { status, headers: hs, body: b.body.clone(), matching_rules: rules(&b), generators: gens(vec![(GeneratorCategory::STATUS, sg), (GeneratorCategory::HEADER, hg), (GeneratorCategory::BODY, b.gens.clone())]) };
        let r0 = r.clone();
        label = format!("{}: {:?}", label, r.generators.categories);
        match host.proc(&label, || block(generate_response(&r, &mode, &ctx))) {
          Err(p) => parts.push(("panic".into(), bad(&panic_class(&p), p))),
          Ok(x) => {
            digest = format!("{} {:?} {:?}", x.status, hmap(&x.headers), x.body);
            parts.push(("status".into(), if sw.ok(false, &json!(r0.status), &json!(x.status)) { None } else { bad("status", format!("{} became {}, expected {:?}", r0.status, x.status, sw)) }));
            parts.push(("headers".into(), judge_map("header", &hmap(&r0.headers), &hw, &hmap(&x.headers), true)));
            parts.push(("body".into(), judge_body(&b, &x.body, true)));
            if r != r0 { parts.push(("original".into(), bad("original-modified", "the original response changed".into()))); }
          }
        }
      }
      _ => {
        let count = if what == "sync" { 1 + ch.below(3) } else { 1 };
        let mut all: Vec<(Body, MessageContents, Vec<(String, Want)>)> = vec![];
        for k in 0..count {
          let b = if k == 0 { b.clone() } else { body(ch, &mut n, mode, &mut o) };
          let md = metadata(ch, &b);
          let (w, g) = named(ch, &mut n, mode, "metadata", &md.keys().filter(|k| *k != "contentType").cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "json");
          let m = MessageContents { contents: b.body.clone(), metadata: md, matching_rules: rules(&b), generators: gens(vec![(GeneratorCategory::METADATA, g), (GeneratorCategory::BODY, b.gens.clone())]) };
          all.push((b, m, w));
        }
        label = format!("{}: {}", label, all.iter().map(|a| format!("{:?}", a.1.generators.categories)).collect::<Vec<_>>().join("; "));
        let copies: Vec<MessageContents> = all.iter().map(|a| a.1.clone()).collect();
        let r = host.proc(&label, || -> (Vec<(OptionalBody, HashMap<String, Value>)>, bool) {
          match what {
            "message" => { let m = Message { contents: copies[0].contents.clone(), metadata: copies[0].metadata.clone(), matching_rules: copies[0].matching_rules.clone(), generators: copies[0].generators.clone(), ..Message::default() };
              let m0 = m.clone(); let x = block(generate_message(&m, &mode, &ctx, &vec![], &HashMap::new())); (vec![(x.contents, x.metadata)], m == m0) }
            "async" => { let m = AsynchronousMessage { contents: copies[0].clone(), ..AsynchronousMessage::default() }; let m0 = m.clone();
              let x = block(apply_generators_to_async_message(&m, &mode, &ctx, &vec![], &HashMap::new())); (vec![(x.contents, x.metadata)], m == m0) }
            _ => { let m = SynchronousMessage { request: copies[0].clone(), response: copies[1..].to_vec(), ..SynchronousMessage::default() }; let m0 = m.clone();
              let (q, rs) = block(apply_generators_to_sync_message(&m, &mode, &ctx, &vec![], &HashMap::new()));
              (std::iter::once(q).chain(rs).map(|x| (x.contents, x.metadata)).collect(), m == m0) }
          }
        });
        match r {
          Err(p) => parts.push(("panic".into(), bad(&panic_class(&p), p))),
          Ok((list, same)) => {
            digest = list.iter().map(|x| format!("{:?} {:?}", x.0, mmap(&x.1))).collect();
            if !same { parts.push(("original".into(), bad("original-modified", "the original message changed".into()))); }
            if list.len() != all.len() { parts.push(("responses".into(), bad("responses", format!("{} contents became {}", all.len(), list.len())))); }
            for ((b, m, w), (c, md)) in all.iter().zip(&list) {
              parts.push(("metadata".into(), judge_map("metadata", &mmap(&m.metadata), w, &mmap(md), false)));
              parts.push(("contents".into(), judge_body(b, c, true)));
            }
          }
        }
      }
    }
    for (p, x) in parts { if let Some((class, d)) = x { o.violate(class.clone(), format!("{} of a {} ({:?} mode): {}", p, what, mode, d)); o.trace.push(label.clone()); } }
    o.digest = mix(o.digest, hash_str(&digest));
    o.case = mix(o.case, hash_str(&label));
    if n > 0 { o.nontrivial = true; }
    o.sample = short(&label);
    if !o.violations.is_empty() { break }
  }
  o.case = mix(o.case, o.digest);
  o.steps = host.syscalls; o.sim_ns = host.sim_ns;
  o.trace.extend(std::mem::take(&mut host.trace));
  o
}
