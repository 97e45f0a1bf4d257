//! C17: a message damaged in flight is never accepted, an intact one always is.
//! The pact is written as JSON, loaded by the real code, and matched with the real code against
//! what arrives; an independent reading of the rules (this file) decides what the verdict has to be.
use std::collections::{BTreeMap, BTreeSet};

use pact_matching::{match_message, match_request, match_response, Mismatch};
use pact_models::bodies::OptionalBody;
use pact_models::pact::load_pact_from_json;
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use serde_json::{json, Map, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::apply::block;
use crate::procs::Host;
use crate::xmls::{self, X};

// ---- rules ----

#[derive(Clone, Debug, PartialEq)]
pub enum R {
  Type, Min(usize), Max(usize), MinMax(usize, usize), Eq, Regex(usize), Include(&'static str), Integer, Decimal, Number, Bool, Null, NotEmpty, Semver,
  Date, Time, DateTime, Values, EachKey(usize), EachValue(Vec<R>), Contains(Vec<(usize, Vec<Rule>)>), Status(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum T { F(String), I(usize), Star, AllI }
#[derive(Clone, Debug, PartialEq)]
pub struct Rule { pub path: Vec<T>, pub rules: Vec<R>, pub or: bool, pub style: usize }

/// pattern, matching texts, other texts
pub const RE: &[(&str, &[&str], &[&str])] = &[
  ("^\\d{3}$", &["123", "000", "987"], &["12", "1234", "12a", "", " 123", "abc"]),
  ("^[a-z]+$", &["a", "abc", "zzz"], &["", "Abc", "a1", "a b", "é", "7"]),
  ("^(red|green|blue)$", &["red", "green", "blue"], &["redd", "RED", "", "yellow", "red "]),
  ("^#[0-9a-f]{6}$", &["#00ff00", "#123456"], &["00ff00", "#00ff0", "#00FF00", "#00ff000"]),
  ("^[A-Z]{2}-[0-9]+$", &["AB-1", "ZZ-99"], &["A-1", "AB-", "ab-1", "AB-1x"]),
];
fn re_ok(i: usize, s: &str) -> bool {
  let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
  match i {
    0 => s.len() == 3 && digits(s),
    1 => !s.is_empty() && s.bytes().all(|b| b.is_ascii_lowercase()),
    2 => ["red", "green", "blue"].contains(&s),
    3 => s.len() == 7 && s.starts_with('#') && s[1..].bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)),
    _ => s.len() > 3 && s.is_char_boundary(2) && s.as_bytes()[..2].iter().all(|b| b.is_ascii_uppercase()) && s.as_bytes()[2] == b'-' && digits(&s[3..]),
  }
}
const DATES: &[(&str, bool)] = &[("2024-02-29", true), ("1999-12-31", true), ("2024-13-01", false), ("2024-00-10", false), ("24/02/2024", false), ("2024-02-29T10:00:00", false), ("", false), ("yesterday", false)];
const TIMES: &[(&str, bool)] = &[("10:11:12", true), ("23:59:59", true), ("00:00:00", true), ("24:30:00", false), ("10:60:00", false), ("10:11", false), ("", false), ("noon", false)];
const STAMPS: &[(&str, bool)] = &[("2024-02-29T10:11:12", true), ("1999-12-31T23:59:59", true), ("2024-02-29 10:11:12", false), ("2024-02-29", false), ("2024-13-29T10:11:12", false), ("", false)];
const SEMVERS: &[(&str, bool)] = &[("1.2.3", true), ("0.0.1-alpha.1", true), ("10.20.30+b1", true), ("1.2", false), ("v1.2.3", false), ("1.2.x", false), ("", false), ("01.2.3", false)];
const STATUS: &[(&str, fn(u16) -> bool)] = &[("success", |s| s / 100 == 2), ("info", |s| s / 100 == 1), ("redirect", |s| s / 100 == 3), ("clientError", |s| s / 100 == 4), ("serverError", |s| s / 100 == 5), ("nonError", |s| s < 400), ("error", |s| s >= 400), ("[200,201,404]", |s| [200, 201, 404].contains(&s))];

pub fn text(v: &Value) -> String { match v { Value::String(s) => s.clone(), o => o.to_string() } }
fn kind(v: &Value) -> u8 { match v { Value::Null => 0, Value::Bool(_) => 1, Value::Number(_) => 2, Value::String(_) => 3, Value::Array(_) => 4, Value::Object(_) => 5 } }
/// None: not decided by this reading
fn listed(l: &[(&str, bool)], v: &Value) -> Option<bool> {
  match v { Value::String(s) => l.iter().find(|x| x.0 == s).map(|x| x.1).or(Some(false).filter(|_| s.chars().all(|c| c.is_ascii_alphabetic()))), Value::Number(_) | Value::Bool(_) => Some(false), _ => None }
}
impl R {
  fn json(&self) -> Value {
    match self {
      R::Type => json!({"match": "type"}), R::Min(n) => json!({"match": "type", "min": n}), R::Max(n) => json!({"match": "type", "max": n}),
      R::MinMax(a, b) => json!({"match": "type", "min": a, "max": b}), R::Eq => json!({"match": "equality"}),
      R::Regex(i) => json!({"match": "regex", "regex": RE[*i].0}), R::Include(s) => json!({"match": "include", "value": s}),
      R::Integer => json!({"match": "integer"}), R::Decimal => json!({"match": "decimal"}), R::Number => json!({"match": "number"}),
      R::Bool => json!({"match": "boolean"}), R::Null => json!({"match": "null"}), R::NotEmpty => json!({"match": "notEmpty"}), R::Semver => json!({"match": "semver"}),
      R::Date => json!({"match": "date", "format": "yyyy-MM-dd"}), R::Time => json!({"match": "time", "format": "HH:mm:ss"}), R::DateTime => json!({"match": "datetime", "format": "yyyy-MM-dd'T'HH:mm:ss"}),
      R::Values => json!({"match": "values"}),
      R::EachKey(i) => json!({"match": "eachKey", "rules": [R::Regex(*i).json()], "value": RE[*i].1[0]}),
      R::EachValue(rs) => json!({"match": "eachValue", "rules": rs.iter().map(|r| r.json()).collect::<Vec<_>>(), "value": "[\"x\"]"}),
      R::Contains(vs) => json!({"match": "arrayContains", "variants": vs.iter().map(|(i, rules)| json!({"index": i, "rules": rules_json(rules)})).collect::<Vec<_>>()}),
      R::Status(i) => if STATUS[*i].0.starts_with('[') { json!({"match": "statusCode", "status": serde_json::from_str::<Value>(STATUS[*i].0).unwrap()}) } else { json!({"match": "statusCode", "status": STATUS[*i].0}) },
    }
  }
  /// for values that are not lists or maps
  fn leaf(&self, e: &Value, a: &Value) -> Option<bool> {
    let same = kind(e) == kind(a);
    Some(match self {
      R::Type | R::Min(_) | R::Max(_) | R::MinMax(..) => same,
      R::Eq | R::Values => e == a,
      R::Regex(i) => if kind(a) > 3 { false } else { re_ok(*i, &text(a)) },
      R::Include(s) => if kind(a) > 3 { return None } else { text(a).contains(s) },
      R::Integer => a.is_i64() || a.is_u64(),
      R::Decimal => a.is_f64(),
      R::Number => a.is_number(),
      R::Bool => match a { Value::String(s) => s == "true" || s == "false", v => v.is_boolean() },
      R::Null => a.is_null(),
      R::NotEmpty => match a { Value::Null => false, Value::String(s) => !s.is_empty(), Value::Array(l) => !l.is_empty(), Value::Object(m) => !m.is_empty(), _ => true },
      R::Semver => return listed(SEMVERS, a),
      R::Date => return listed(DATES, a), R::Time => return listed(TIMES, a), R::DateTime => return listed(STAMPS, a),
      R::EachKey(_) | R::EachValue(_) | R::Contains(_) | R::Status(_) => return None,
    })
  }
  /// for header, query, path and form values and plain text
  pub fn string(&self, e: &str, a: &str) -> Option<bool> {
    Some(match self {
      R::Type | R::Min(_) | R::Max(_) | R::MinMax(..) => true,
      R::Integer => { if a.starts_with(['-', '+']) { return None } !a.is_empty() && a.bytes().all(|b| b.is_ascii_digit()) }
      R::Number | R::Decimal => { if a.bytes().any(|b| b.is_ascii_alphabetic()) { return if a.bytes().all(|b| matches!(b, b'a'..=b'd')) { Some(false) } else { None } } a.parse::<f64>().is_ok() }
      R::Bool => a == "true" || a == "false",
      R::Null => return None,
      r => return r.leaf(&json!(e), &json!(a)),
    })
  }
  pub fn typeish(&self) -> bool { matches!(self, R::Type | R::Min(_) | R::Max(_) | R::MinMax(..)) }
}
fn expr(root: &str, p: &[T], style: usize) -> String {
  let mut s = root.to_string();
  for t in p { match t {
    T::F(n) if style & 1 == 0 && !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !n.as_bytes()[0].is_ascii_digit() => { s.push('.'); s.push_str(n); }
    T::F(n) => s.push_str(&crate::select::quoted(n)), T::I(i) => s.push_str(&format!("[{}]", i)), T::Star => s.push_str(".*"), T::AllI => s.push_str("[*]") } }
  s
}
fn list_json(r: &Rule) -> Value {
  let m: Vec<Value> = r.rules.iter().map(|r| r.json()).collect();
  if r.or { json!({"combine": "OR", "matchers": m}) } else if r.style & 4 == 0 { json!({"combine": "AND", "matchers": m}) } else { json!({"matchers": m}) }
}
fn rules_json(rules: &[Rule]) -> Value {
  Value::Object(rules.iter().map(|r| (expr("$", &r.path, r.style), list_json(r))).collect())
}

// ---- reference reading of JSON bodies ----

pub struct Ref<'a> { pub rules: &'a [Rule], pub strict: bool, pub bad: BTreeSet<String>, pub unsure: bool }
#[derive(Clone)]
pub struct Best<'a> { pub rules: &'a [R], pub or: bool, pub exact: bool }
impl<'a> Ref<'a> {
  pub fn weight(r: &Rule, at: &[String]) -> usize {
    if r.path.len() > at.len() { return 0 }
    let mut w = 2;
    for (t, s) in r.path.iter().zip(at) {
      let idx = s.parse::<usize>().ok();
      w *= match t { T::F(n) => if n == s { 2 } else { 0 }, T::I(i) => if idx == Some(*i) { 2 } else { 0 }, T::Star => 1, T::AllI => idx.is_some() as usize };
    }
    w * (r.path.len() + 1)
  }
  pub fn best(&mut self, at: &[String]) -> Option<Best<'a>> {
    let mut best: Option<(usize, &'a Rule)> = None;
    let mut tie = false;
    for r in self.rules {
      let w = Self::weight(r, at);
      if w == 0 { continue }
      match best {
        Some((b, o)) if b > w => { let _ = o; }
        Some((b, o)) if b == w => tie |= o.rules != r.rules || o.or != r.or || o.path.len() != r.path.len(),
        _ => { best = Some((w, r)); tie = false; }
      }
    }
    if tie { self.unsure = true; }
    best.map(|(_, r)| Best { rules: &r.rules, or: r.or, exact: r.path.len() == at.len() })
  }
  pub fn fail(&mut self, at: &[String]) { let mut p = DocPath::root(); for s in at { p = p.join(s.as_str()); } self.bad.insert(p.to_string()); }
  fn check(&mut self, at: &[String], e: &Value, a: &Value) {
    let best = self.best(at);
    match (e, a) {
      (Value::Object(em), Value::Object(am)) => self.map(at, em, am, best),
      (Value::Array(el), Value::Array(al)) => self.list(at, el, al, best),
      (Value::Object(_) | Value::Array(_), _) => self.fail(at),
      _ => match best {
        None => if e != a { self.fail(at) },
        Some(b) => {
          let rs: Vec<Option<bool>> = b.rules.iter().map(|r| r.leaf(e, a)).collect();
          let v = if b.or { if rs.contains(&Some(true)) { Some(true) } else if rs.contains(&None) { None } else { Some(false) } }
            else if rs.contains(&Some(false)) { Some(false) } else if rs.contains(&None) { None } else { Some(true) };
          match v { Some(true) => {} Some(false) => self.fail(at), None => self.unsure = true }
        }
      }
    }
  }
  pub fn sub(at: &[String], s: &str) -> Vec<String> { let mut v = at.to_vec(); v.push(s.to_string()); v }
  fn map(&mut self, at: &[String], e: &Map<String, Value>, a: &Map<String, Value>, best: Option<Best<'a>>) {
    let rules: &[R] = best.as_ref().map(|b| b.rules).unwrap_or(&[]);
    let exact = best.as_ref().is_some_and(|b| b.exact);
    if best.as_ref().is_some_and(|b| b.or && b.rules.len() > 1) { self.unsure = true; }
    let special = exact && rules.iter().any(|r| matches!(r, R::Values | R::EachValue(_) | R::EachKey(_)));
    for r in rules { match r {
      R::Type | R::Values | R::EachKey(_) | R::EachValue(_) => {}
      R::Eq => if e != a { if exact || true { self.fail(at) } },
      R::NotEmpty => if a.is_empty() { self.fail(at) },
      r if r.typeish() => if exact { self.unsure = true },
      _ => self.unsure = true
    } }
    if special {
      if e.is_empty() { self.unsure = true; return }
      let each: Vec<&R> = rules.iter().filter(|r| matches!(r, R::EachValue(_))).collect();
      let values = rules.iter().any(|r| matches!(r, R::Values));
      if (values && rules.len() > 1) || each.len() > 1 { self.unsure = true; return }
      for r in rules { if let R::EachKey(i) = r { for k in a.keys() { if !re_ok(*i, k) { let p = Self::sub(at, k); self.fail(&p) } } } }
      if each.is_empty() && !values { self.unsure = true; return }
      // an each-key rule also compares the values, under the other rules for them
      if rules.iter().any(|r| matches!(r, R::EachKey(_))) && self.rules.iter().any(|r| r.path.len() > at.len() && Self::weight(&Rule { path: r.path[..at.len()].to_vec(), ..r.clone() }, at) > 0) { self.unsure = true; }
      let first = e.values().next().unwrap();
      for (k, v) in a {
        let t = e.get(k).unwrap_or(first);
        let p = Self::sub(at, k);
        if let Some(R::EachValue(rs)) = each.first() { self.with(rs, at, &p, t, v) } else { self.check(&p, t, v) }
      }
      return
    }
    if self.strict { if e.keys().ne(a.keys()) { self.fail(at) } } else if e.keys().any(|k| !a.contains_key(k)) { self.fail(at) }
    for (k, v) in e { if let Some(x) = a.get(k) { let p = Self::sub(at, k); self.check(&p, v, x) } }
  }
  /// the value at `p` under the rules of an each-value rule at `at` only
  fn with(&mut self, rs: &[R], at: &[String], p: &[String], e: &Value, a: &Value) {
    let mut path: Vec<T> = at.iter().map(|s| T::F(s.clone())).collect();
    path.push(T::Star);
    let rules = vec![Rule { path, rules: rs.to_vec(), or: false, style: 0 }];
    let mut r = Ref { rules: &rules, strict: self.strict, bad: BTreeSet::new(), unsure: false };
    r.check(p, e, a);
    self.bad.extend(r.bad);
    self.unsure |= r.unsure;
  }
  fn list(&mut self, at: &[String], e: &[Value], a: &[Value], best: Option<Best<'a>>) {
    let Some(b) = best else {
      if e.len() != a.len() { self.fail(at) }
      for (i, (x, y)) in e.iter().zip(a).enumerate() { let p = Self::sub(at, &i.to_string()); self.check(&p, x, y) }
      return
    };
    if b.or && b.rules.len() > 1 { self.unsure = true; }
    let mut elements = false;
    for r in b.rules { match r {
      R::Contains(vs) => {
        if !b.exact { self.unsure = true; }
        let all: Vec<(usize, Vec<Rule>)> = if vs.is_empty() { (0..e.len()).map(|i| (i, vec![])).collect() } else { vs.clone() };
        for (i, rules) in &all {
          let Some(x) = e.get(*i) else { self.unsure = true; continue };
          let mut found = false;
          for y in a {
            let mut r = Ref { rules, strict: self.strict, bad: BTreeSet::new(), unsure: false };
            if vs.is_empty() { if x != y { r.fail(&[]) } } else { r.check(&[], x, y) }
            self.unsure |= r.unsure;
            if r.bad.is_empty() { found = true }
          }
          if !found { self.fail(at) }
        }
      }
      R::EachValue(rs) if b.exact => {
        for (i, y) in a.iter().enumerate() { if let Some(x) = e.get(i).or(e.first()) { let p = Self::sub(at, &i.to_string()); self.with(rs, at, &p, x, y) } else { self.unsure = true } }
        // a list that is shorter than its example is fine
      }
      R::Min(n) => { if b.exact && a.len() < *n { self.fail(at) } elements = true }
      R::Max(n) => { if b.exact && a.len() > *n { self.fail(at) } elements = true }
      R::MinMax(n, m) => { if b.exact && (a.len() < *n || a.len() > *m) { self.fail(at) } elements = true }
      R::Type => elements = true,
      R::Eq => { if e != a { self.fail(at) } elements = true }
      R::NotEmpty => { if a.is_empty() { self.fail(at) } elements = true }
      R::Values => { elements = true; if b.exact { self.unsure = true } else if e != a { /* equality of the elements is judged below */ if e.len() != a.len() { self.unsure = true } } }
      _ => { self.unsure = true; elements = true }
    } }
    if elements { for (i, y) in a.iter().enumerate() { if let Some(x) = e.get(i).or(e.first()) { let p = Self::sub(at, &i.to_string()); self.check(&p, x, y) } } }
  }
}

// ---- expected JSON with rules ----

const NAMES: &[&str] = &["a", "b", "id", "name", "items", "x y", "a-b", "é", "total_2", "10", "$ref", "@id", "2nd", "it's", "c\\d"];
fn any_leaf(ch: &mut Choices) -> Value {
  match ch.below(12) {
    0 => json!(ch.range(-3, 300)), 1 => json!(*ch.pick(&[1.5, -0.25, 100.125])), 2 => json!(ch.pct(50)), 3 => Value::Null,
    4 => json!(*ch.pick(&["", "text", "ünï", "true", "5", "a b c"])),
    5 => { let r = ch.pick(RE); json!(*ch.pick(r.1)) } 6 => { let r = ch.pick(RE); json!(*ch.pick(r.2)) }
    7 => json!(ch.pick(DATES).0), 8 => json!(ch.pick(TIMES).0), 9 => json!(ch.pick(STAMPS).0), 10 => json!(ch.pick(SEMVERS).0),
    _ => ch.pick(&[json!(0), json!(9007199254740993u64), json!(-1), json!(1e10), json!(123), json!("abc"), json!(u64::MAX)]).clone()
  }
}
fn good(ch: &mut Choices, l: &[(&str, bool)]) -> Value { let g: Vec<&str> = l.iter().filter(|x| x.1).map(|x| x.0).collect(); json!(*ch.pick(&g)) }
/// a value the rule accepts
pub fn conform(ch: &mut Choices, r: &R, e: &Value) -> Value {
  match r {
    R::Type | R::Min(_) | R::Max(_) | R::MinMax(..) => match e { Value::Number(_) => ch.pick(&[json!(7), json!(2.5), json!(-10)]).clone(), Value::String(_) => json!(*ch.pick(&["other", "", "é", "42"])), Value::Bool(b) => json!(!b), o => o.clone() },
    R::Regex(i) => json!(*ch.pick(RE[*i].1)), R::Include(s) => json!(format!("pre {} post", s)), R::Integer => json!(ch.range(-5, 500)), R::Decimal => json!(*ch.pick(&[1.25, -7.5])),
    R::Number => ch.pick(&[json!(3), json!(3.75)]).clone(), R::Bool => json!(ch.pct(50)), R::Null => Value::Null, R::NotEmpty => ch.pick(&[json!("x"), json!(0), json!(false)]).clone(),
    R::Semver => good(ch, SEMVERS), R::Date => good(ch, DATES), R::Time => good(ch, TIMES), R::DateTime => good(ch, STAMPS), _ => e.clone()
  }
}
fn leaf_rule(ch: &mut Choices) -> R {
  match ch.below(15) { 0 | 1 => R::Type, 2 | 3 => R::Regex(ch.below(RE.len())), 4 => R::Integer, 5 => R::Decimal, 6 => R::Number, 7 => R::Bool, 8 => R::Include(*ch.pick(&["b", "ex", "é"])), 9 => R::Eq, 10 => R::NotEmpty, 11 => R::Semver, 12 => R::Date, 13 => R::Null, _ => if ch.pct(50) { R::Time } else { R::DateTime } }
}
pub struct Gen { pub rules: Vec<Rule>, pub v2: bool, pub v4: bool }
impl Gen {
  /// Generalises some steps of a concrete path.
  pub fn generalise(ch: &mut Choices, at: &[T], p: u64) -> Vec<T> {
    at.iter().map(|t| if ch.pct(p) { match t { T::F(_) => T::Star, T::I(_) => if ch.pct(80) { T::AllI } else { T::Star }, o => o.clone() } } else { t.clone() }).collect()
  }
  pub fn add(&mut self, ch: &mut Choices, path: Vec<T>, rules: Vec<R>, or: bool) {
    if self.v2 && rules.len() > 1 { return }
    if self.rules.iter().any(|r| expr("$", &r.path, 0) == expr("$", &path, 0)) { return }
    let style = ch.below(8);
    self.rules.push(Rule { path, rules, or: or && !self.v2, style });
  }
  /// `elem`: inside a list whose elements are matched by example
  fn tree(&mut self, ch: &mut Choices, depth: usize, at: &[T]) -> Value {
    let pw = *ch.pick(&[0, 0, 30, 100]);
    match if depth == 0 { 0 } else { ch.below(7) } {
      0 | 1 | 2 => {
        if ch.pct(45) {
          let mut rules = vec![leaf_rule(ch)];
          let mut or = false;
          if ch.pct(20) { rules.push(leaf_rule(ch)); or = ch.pct(60); }
          let any = any_leaf(ch);
          let v = if ch.pct(90) { conform(ch, &rules[0].clone(), &any) } else { any };
          if self.v2 && !matches!(rules[0], R::Type | R::Regex(_) | R::Min(_) | R::Max(_)) { return v }
          let path = Self::generalise(ch, at, pw);
          self.add(ch, path, rules, or);
          v
        } else { any_leaf(ch) }
      }
      3 | 4 => {
        let n = ch.count(0, 3);
        let l: Vec<Value>;
        match ch.below(10) {
          0..=3 => {
            // by example
            let r = match ch.below(5) { 0 => R::Min(ch.below(4)), 1 => R::Max(1 + ch.below(3)), 2 if !self.v2 => { let a = ch.below(3); R::MinMax(a, a + ch.below(3)) } 3 if !self.v2 => R::EachValue(vec![if ch.pct(50) { R::Type } else { leaf_rule(ch) }]), _ => R::Type };
            let r = if matches!(r, R::EachValue(_)) && !self.v4 { R::Type } else { r };
            let path = Self::generalise(ch, at, pw);
            self.add(ch, path, vec![r], false);
            let m = n.max(if ch.pct(90) { 1 } else { 0 });
            l = (0..m).map(|i| { let mut p = at.to_vec(); p.push(if ch.pct(70) { T::AllI } else { T::I(i) }); self.tree(ch, depth - 1, &p) }).collect();
          }
          4 if self.v4 => {
            l = (0..n).map(|i| json!({"kind": format!("k{}", i % 2), "n": i, "v": any_leaf(ch)})).collect();
            let mut vs = vec![];
            for i in 0..n { if ch.pct(80) {
              let mut g = Gen { rules: vec![], v2: false, v4: true };
              if ch.pct(60) { let r = if ch.pct(50) { R::Type } else { R::Integer }; g.add(ch, vec![T::F("n".into())], vec![r], false); }
              if ch.pct(30) { g.add(ch, vec![T::F("v".into())], vec![R::Type], false); }
              if ch.pct(20) { g.add(ch, vec![T::F("kind".into())], vec![R::Include("k")], false); }
              if ch.pct(10) { g.add(ch, vec![], vec![R::Type], false); }
              vs.push((i, g.rules));
            } }
            self.add(ch, at.to_vec(), vec![R::Contains(vs)], false);
          }
          _ => l = (0..n).map(|i| { let mut p = at.to_vec(); p.push(T::I(i)); self.tree(ch, depth - 1, &p) }).collect(),
        }
        Value::Array(l)
      }
      _ => {
        let n = ch.count(0, 4);
        let how = ch.below(10);
        let mut m = Map::new();
        if how == 0 && !self.v2 { self.add(ch, at.to_vec(), vec![R::Values], false); }
        if how == 1 && self.v4 {
          let mut rs = vec![];
          let k = ch.pct(50).then(|| ch.below(RE.len()));
          if let Some(k) = k { rs.push(R::EachKey(k)); }
          let lr = if ch.pct(40) { R::Type } else { leaf_rule(ch) };
          rs.push(R::EachValue(vec![lr.clone()]));
          self.add(ch, at.to_vec(), rs, false);
          for _ in 0..n.max(1) { let key = match k { Some(k) => *ch.pick(RE[k].1), None => *ch.pick(NAMES) }; let any = any_leaf(ch); m.insert(key.to_string(), conform(ch, &lr, &any)); }
          return Value::Object(m)
        }
        if how == 2 { let path = Self::generalise(ch, at, pw); self.add(ch, path, vec![R::Type], false); }
        if how == 3 && !self.v2 { let r = if ch.pct(50) { R::Eq } else { R::NotEmpty }; self.add(ch, at.to_vec(), vec![r], false); }
        for _ in 0..n {
          let k = ch.pick(NAMES).to_string();
          let mut p = at.to_vec();
          p.push(if how == 0 && ch.pct(70) { T::Star } else { T::F(k.clone()) });
          let v = self.tree(ch, depth - 1, &p);
          m.insert(k, v);
        }
        Value::Object(m)
      }
    }
  }
}
/// A variation the rules permit, as far as this function can tell.
fn vary(ch: &mut Choices, r: &mut Ref, at: &[String], e: &Value) -> Value {
  let best = r.best(at);
  match e {
    Value::Object(m) => {
      let mut out: Map<String, Value> = m.iter().map(|(k, v)| { let p = Ref::sub(at, k); (k.clone(), vary(ch, r, &p, v)) }).collect();
      let b = best.filter(|b| b.exact);
      if let Some(b) = b { if b.rules.iter().any(|r| matches!(r, R::Values | R::EachValue(_))) && !m.is_empty() {
        let key = b.rules.iter().find_map(|r| if let R::EachKey(i) = r { Some(*i) } else { None });
        for _ in 0..ch.count(0, 3) { let k = match key { Some(i) => *ch.pick(RE[i].1), None => *ch.pick(&["extra", "k9", "id", "x y", "1st"]) }; if !out.contains_key(k) { let t = m.values().next().unwrap(); let p = Ref::sub(at, k); let v = vary(ch, r, &p, t); out.insert(k.to_string(), v); } }
        if ch.pct(20) { let k = out.keys().next().cloned(); if let Some(k) = k { out.remove(&k); } }
        return Value::Object(out)
      } }
      if !r.strict && ch.pct(15) { out.insert(ch.pick(&["extra", "unexpected"]).to_string(), any_leaf(ch)); }
      Value::Object(out)
    }
    Value::Array(l) => {
      let mut out: Vec<Value> = l.iter().enumerate().map(|(i, v)| { let p = Ref::sub(at, &i.to_string()); vary(ch, r, &p, v) }).collect();
      if let Some(b) = best {
        if b.rules.iter().any(|r| matches!(r, R::Contains(_))) { let k = ch.count(0, 2); for _ in 0..k { let x = any_leaf(ch); out.push(x); } if ch.pct(50) { out.reverse(); } return Value::Array(out) }
        let (lo, hi) = if b.exact { b.rules.iter().fold((0, 5), |(lo, hi), r| match r { R::Min(n) => (lo.max(*n), hi.max(*n)), R::Max(n) => (lo, hi.min(*n)), R::MinMax(a, b) => (lo.max(*a), hi.min(*b)), _ => (lo, hi) }) } else { (0, 5) };
        if b.rules.iter().any(|r| r.typeish() || matches!(r, R::EachValue(_))) && !l.is_empty() && hi >= lo {
          let want = if ch.pct(50) { lo + ch.below(hi - lo + 1) } else { out.len().clamp(lo, hi) };
          out.truncate(want);
          while out.len() < want { let p = Ref::sub(at, &out.len().to_string()); let v = vary(ch, r, &p, &l[0]); out.push(v); }
        }
      }
      Value::Array(out)
    }
    _ => match best { Some(b) if !b.rules.is_empty() => { let k = if b.or { ch.below(b.rules.len()) } else { 0 };
      let x = match &b.rules[k] { R::EachValue(rs) if !rs.is_empty() => rs[0].clone(), x => x.clone() };
      if ch.pct(60) { conform(ch, &x, e) } else { e.clone() } } _ => e.clone() }
  }
}
fn spots(v: &Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
  out.push(at.clone());
  match v {
    Value::Object(m) => for (k, x) in m { spots(x, Ref::sub(&at, k), out) },
    Value::Array(l) => for (i, x) in l.iter().enumerate() { spots(x, Ref::sub(&at, &i.to_string()), out) },
    _ => {}
  }
}
fn spot<'a>(v: &'a mut Value, at: &[String]) -> Option<&'a mut Value> {
  at.iter().try_fold(v, |v, s| match v { Value::Object(m) => m.get_mut(s), Value::Array(l) => { let i: usize = s.parse().ok()?; l.get_mut(i) } _ => None })
}
fn damage_json(ch: &mut Choices, v: &mut Value, o: &mut Outcome) {
  let mut all = vec![];
  spots(v, vec![], &mut all);
  let at = ch.pick(&all).clone();
  let x = spot(v, &at).unwrap();
  let name = match x {
    Value::Object(m) => match ch.below(4) {
      0 => { m.insert(ch.pick(NAMES).to_string(), any_leaf(ch)); "member added" }
      1 | 2 if !m.is_empty() => { let k = m.keys().nth(ch.below(m.len())).unwrap().clone(); if ch.pct(30) { let v = m.remove(&k).unwrap(); m.insert(format!("{}_", k), v); "member renamed" } else { m.remove(&k); "member removed" } }
      _ => { *x = ch.pick(&[json!([]), json!(null), json!("{}"), json!({}), json!(0)]).clone(); "replaced" }
    },
    Value::Array(l) => match ch.below(5) {
      0 => { let y = if ch.pct(50) && !l.is_empty() { l[0].clone() } else { any_leaf(ch) }; l.push(y); "element added" }
      1 if !l.is_empty() => { let k = ch.below(l.len()); l.remove(k); "element removed" }
      2 if l.len() > 1 => { l.swap(0, 1); "elements swapped" }
      3 => { l.clear(); "emptied" }
      _ => { *x = ch.pick(&[json!([]), json!(null), json!("[]"), json!({}), json!(0)]).clone(); "replaced" }
    },
    _ => match ch.below(4) {
      0 => { *x = ch.pick(&[json!([]), json!({}), json!(null), json!([1]), json!({"a": 1})]).clone(); "replaced" }
      1 => { *x = json!(text(x)); "turned into text" }
      _ => { *x = any_leaf(ch); "value changed" }
    }
  };
  o.fault(name);
}

// ---- strings: headers, query, form, path ----

/// names of parameters or headers with their values
type Named = BTreeMap<String, Vec<String>>;
pub fn string_rule(ch: &mut Choices, v2: bool) -> R {
  match ch.below(if v2 { 3 } else { 8 }) { 0 => R::Type, 1 | 2 => R::Regex(ch.below(RE.len())), 3 => R::Integer, 4 => R::Include(*ch.pick(&["b", "ex"])), 5 => R::Eq, 6 => R::Bool, _ => R::Number }
}
pub fn plain(ch: &mut Choices) -> String { if ch.pct(50) { let r = ch.pick(RE); ch.pick(r.1).to_string() } else { ch.pick(&["x", "text", "a b", "12", "true", "1.5", "abc", "Zb", "http://h/p?q"]).to_string() } }
fn strings(ch: &mut Choices, names: &[&str], v2: bool, gaps: u64) -> (Named, Vec<Rule>) {
  let mut m = Named::new();
  let mut rules = vec![];
  for _ in 0..ch.count(0, 3) {
    let n = *ch.pick(names);
    if m.contains_key(n) { continue }
    let k = if ch.pct(gaps) { 2 + ch.below(2) } else { 1 };
    let r = ch.pct(45).then(|| string_rule(ch, v2));
    let vals = (0..k).map(|_| match &r { Some(r) => { let p = json!(plain(ch)); text(&conform(ch, r, &p)) } None => plain(ch) }).collect();
    if let Some(r) = r { let second = if !v2 && ch.pct(15) { Some(string_rule(ch, v2)) } else { None }; let or = second.is_some() && ch.pct(60);
      rules.push(Rule { path: vec![T::F(n.to_string())], rules: std::iter::once(r).chain(second).collect(), or, style: ch.below(8) }); }
    m.insert(n.to_string(), vals);
  }
  (m, rules)
}
fn judge_string(r: &Rule, e: &str, a: &str) -> Option<bool> {
  let rs: Vec<Option<bool>> = r.rules.iter().map(|r| r.string(e, a)).collect();
  if r.or { if rs.contains(&Some(true)) { Some(true) } else if rs.contains(&None) { None } else { Some(false) } } else if rs.contains(&Some(false)) { Some(false) } else if rs.contains(&None) { None } else { Some(true) }
}
/// The name a mismatch is reported for; some are reported by name, some by path.
fn name_of(s: &str) -> String { DocPath::new(s).ok().filter(|_| s.starts_with('$')).and_then(|p| p.first_field().map(|f| f.to_string())).unwrap_or(s.to_string()) }
/// names whose values do not match; None if not decided here
fn judge_named(e: &Named, a: &Named, rules: &[Rule], header: bool) -> (BTreeSet<String>, bool) {
  let mut bad = BTreeSet::new();
  let mut unsure = false;
  let eq = |x: &str, y: &str| if header { x.eq_ignore_ascii_case(y) } else { x == y };
  for (n, ev) in e {
    let Some((_, av)) = a.iter().find(|(k, _)| eq(k, n)) else { bad.insert(n.clone()); continue };
    let rule = rules.iter().find(|r| matches!(&r.path[0], T::F(x) if eq(x, n)));
    match rule {
      Some(r) => {
        if av.is_empty() { unsure = true }
        // fewer or more values than the example: each one present has to match
        if av.len() < ev.len() { unsure = true }
        if av.len() > ev.len() && r.rules.contains(&R::Eq) { unsure = true }
        if r.rules.contains(&R::Eq) && ev.len() > 1 && r.or { unsure = true }
        for (i, x) in av.iter().enumerate() { match judge_string(r, ev.get(i).unwrap_or(&ev[0]).trim(), if header { x.trim() } else { x }) { Some(true) => {} Some(false) => { bad.insert(n.clone()); } None => unsure = true } }
        if r.or && ev.len() > 1 { unsure = true }
      }
      None => {
        if ev.len() != av.len() { bad.insert(n.clone()); }
        for (x, y) in ev.iter().zip(av) { if header { if x.trim() != y.trim() { bad.insert(n.clone()); } } else if x != y { bad.insert(n.clone()); } }
      }
    }
  }
  (bad, unsure)
}
fn arrive(ch: &mut Choices, e: &Named, rules: &[Rule], header: bool, o: &mut Outcome, damage: u64) -> Named {
  let mut out = Named::new();
  for (n, v) in e {
    let name = if header && ch.pct(40) { if ch.pct(50) { n.to_lowercase() } else { n.to_uppercase() } } else { n.clone() };
    let rule = rules.iter().find(|r| matches!(&r.path[0], T::F(x) if x == n));
    let mut vals: Vec<String> = v.iter().map(|x| match rule { Some(r) if ch.pct(60) => { let k = if r.or { ch.below(r.rules.len()) } else { 0 }; let p = json!(x.clone()); text(&conform(ch, &r.rules[k], &p)) } _ => x.clone() }).collect();
    if ch.pct(damage) {
      match ch.below(5) {
        0 => { o.fault("value lost"); vals.pop(); if vals.is_empty() { continue } }
        1 => { o.fault("value added"); vals.push(plain(ch)); }
        2 if vals.len() > 1 => { o.fault("values swapped"); vals.swap(0, 1); }
        3 => { o.fault("name lost"); continue }
        _ => { o.fault("value changed"); let k = ch.below(vals.len()); vals[k] = if ch.pct(50) { let r = ch.pick(RE); ch.pick(r.2).to_string() } else { plain(ch) }; }
      }
    }
    if header { for x in vals.iter_mut() { *x = x.trim().to_string(); } }
    out.insert(name, vals);
  }
  if ch.pct(if header { 40 } else { damage }) { out.insert("zz-extra".into(), vec!["1".into()]); if !header { o.fault("name added"); } }
  out
}
fn named_json(ch: &mut Choices, m: &Named, lists: bool, joined: bool) -> Value {
  Value::Object(m.iter().map(|(k, v)| (k.clone(), if lists && (!joined || v.len() > 1 || ch.pct(50)) { json!(v) } else { json!(v.join(", ")) })).collect())
}
fn enc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.".contains(&b) { (b as char).to_string() } else if b == b' ' { "+".into() } else { format!("%{:02X}", b) }).collect() }
fn form(m: &Named) -> String { m.iter().flat_map(|(k, v)| v.iter().map(move |x| format!("{}={}", enc(k), enc(x)))).collect::<Vec<_>>().join("&") }

// ---- bodies ----

#[derive(Clone, Debug)]
enum Body { None, Json(Value), Text(String), Form(Named), Bytes(Vec<u8>), Xml(X, String) }
const XML_TYPES: &[&str] = &["application/xml", "text/xml", "application/xml; charset=utf-8", "application/soap+xml"];
const JSON_TYPES: &[&str] = &["application/json", "application/json;charset=utf-8", "application/hal+json", "application/vnd.api+json"];
fn ct_parts(s: &str) -> (String, BTreeMap<String, String>) {
  let mut i = s.split(';');
  let base = i.next().unwrap_or("").trim().to_lowercase();
  (base, i.filter_map(|p| p.split_once('=')).map(|(k, v)| (k.trim().to_lowercase(), v.trim().to_lowercase())).collect())
}

pub fn c17(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let mut host = Host::new(ch);
  if ch.pct(12) {
    let rounds = ch.count(1, 4);
    for _ in 0..rounds { if o.violations.is_empty() { if ch.pct(30) { xmls::places(ch, &mut host, &mut o); } else { crate::select::select(ch, &mut host, &mut o); } } }
    o.steps = host.syscalls; o.sim_ns = host.sim_ns;
    o.trace.extend(std::mem::take(&mut host.trace));
    return o
  }
  let spec = *ch.pick(&[4, 3, 2]);
  let part = match ch.below(10) { 0..=5 => "response", 6..=8 => "request", _ => if spec == 2 { "response" } else { "message" } };
  let (v2, v4) = (spec == 2, spec == 4);
  let strict = part == "request";
  // what is expected
  let mut body_rules: Vec<Rule> = vec![];
  let mut ct: Option<String> = None;
  let body = match ch.below(12) {
    0 => Body::None,
    1 => { ct = Some("text/plain".into()); if ch.pct(50) { body_rules.push(Rule { path: vec![], rules: vec![R::Regex(ch.below(RE.len()))], or: false, style: 0 }); } let s = match body_rules.first() { Some(Rule { rules, .. }) => text(&conform(ch, &rules[0].clone(), &json!(""))), None => plain(ch) }; Body::Text(s) }
    2 if part != "message" => { ct = Some("application/x-www-form-urlencoded".into()); let (m, r) = strings(ch, &["a", "b", "name", "x y", "o'k"], v2, 20); if m.is_empty() { ct = None; Body::None } else { body_rules = r; Body::Form(m) } }
    4 | 5 => { ct = Some(ch.pick(XML_TYPES).to_string()); let mut g = Gen { rules: vec![], v2, v4 }; let x = xmls::tree(ch, &mut g, 3, &[], None); body_rules = g.rules; let mut w = x.clone(); let st = ch.below(4); xmls::spread(ch, &mut w, st); let s = xmls::write(ch, &w); Body::Xml(x, s) }
    3 if v4 => { ct = Some("application/octet-stream".into()); let n = 1 + ch.below(20); Body::Bytes((0..n).map(|_| ch.below(256) as u8).collect()) }
    _ => { ct = Some(ch.pick(JSON_TYPES).to_string()); let mut g = Gen { rules: vec![], v2, v4 }; let v = g.tree(ch, 3, &[]); body_rules = g.rules; if matches!(v, Value::Null | Value::String(_)) { body_rules.clear(); Body::Json(json!([v])) } else { Body::Json(v) } }
  };
  let (mut headers, mut header_rules) = strings(ch, &["X-A", "x-request-id", "Content-Language", "Vary"], v2, 20);
  header_rules.retain(|r| !v2 || !matches!(r.rules[0], R::Min(_)));
  let _ = &mut header_rules;
  let status = 100 + ch.below(500) as u16;
  let status_rule = (v4 && part == "response" && ch.pct(40)).then(|| ch.below(STATUS.len()));
  let (query, query_rules) = if strict { strings(ch, &["q", "page", "x y", "a.b", "é", "o'k"], v2, 30) } else { (Named::new(), vec![]) };
  let method = *ch.pick(&["GET", "POST", "put", "Delete"]);
  let path = ch.pick(&["/", "/a", "/abc", "/a/1", "/x%20y"]).to_string();
  let path_rule = (strict && ch.pct(25)).then(|| R::Include("a")).filter(|_| !v2).or((strict && ch.pct(15)).then_some(R::Type));
  let parts = format!("{} {:?} {:?} {:?} {:?}", part, body_rules, header_rules, query_rules, status_rule);

  // as a pact file
  let ct_header = ct.clone().filter(|_| part != "message");
  if let Some(c) = &ct_header { headers.insert(if ch.pct(30) { "content-type".into() } else { "Content-Type".into() }, vec![c.clone()]); }
  let mut msg = Map::new();
  let mut rules = Map::new();
  if v2 {
    for r in &body_rules { rules.insert(expr("$.body", &r.path, r.style), r.rules[0].json()); }
    for r in &header_rules { rules.insert(expr("$.headers", &r.path, 1), r.rules[0].json()); }
    for r in &query_rules { rules.insert(expr("$.query", &r.path, 1), r.rules[0].json()); }
    if let Some(r) = &path_rule { rules.insert("$.path".into(), r.json()); }
  } else {
    if !body_rules.is_empty() { rules.insert("body".into(), rules_json(&body_rules)); }
    let by_name = |l: &[Rule]| Value::Object(l.iter().map(|r| (match &r.path[0] { T::F(n) => n.clone(), _ => String::new() }, list_json(r))).collect());
    if part != "message" && !header_rules.is_empty() { rules.insert("header".into(), by_name(&header_rules)); }
    if !query_rules.is_empty() { rules.insert("query".into(), by_name(&query_rules)); }
    if let Some(r) = &path_rule { rules.insert("path".into(), json!({"combine": "AND", "matchers": [r.json()]})); }
    if let Some(i) = status_rule { rules.insert("status".into(), json!({"$": {"combine": "AND", "matchers": [R::Status(i).json()]}})); }
  }
  let content: Option<(Value, Vec<u8>)> = match &body {
    Body::None => None, Body::Json(v) => Some((v.clone(), v.to_string().into_bytes())), Body::Text(s) => Some((json!(s), s.clone().into_bytes())),
    Body::Xml(_, s) => Some((json!(s), s.clone().into_bytes())),
    Body::Form(m) => Some((json!(form(m)), form(m).into_bytes())), Body::Bytes(b) => { use base64::Engine; Some((json!(base64::engine::general_purpose::STANDARD.encode(b)), b.clone())) }
  };
  // metadata of a message
  let mut meta: Map<String, Value> = Map::new();
  let mut meta_rules: Vec<Rule> = vec![];
  if part == "message" {
    for _ in 0..ch.count(0, 3) { let k = ch.pick(&["topic", "key", "n", "x y"]).to_string(); if meta.contains_key(&k) { continue }
      let r = ch.pct(40).then(|| leaf_rule(ch));
      let any = any_leaf(ch);
      meta.insert(k.clone(), match &r { Some(r) => conform(ch, r, &any), None => any });
      if let Some(r) = r { meta_rules.push(Rule { path: vec![T::F(k)], rules: vec![r], or: false, style: 0 }); } }
    if !v4 { meta.retain(|_, v| v.is_string() || v.is_number()); meta_rules.retain(|r| matches!(&r.path[0], T::F(n) if meta.contains_key(n))); }
    if let Some(c) = &ct { meta.insert("contentType".into(), json!(c)); }
    if !meta_rules.is_empty() { rules.insert("metadata".into(), Value::Object(meta_rules.iter().map(|r| (match &r.path[0] { T::F(n) if n.contains(' ') => expr("$", &r.path, 0), T::F(n) => n.clone(), _ => String::new() }, list_json(r))).collect())); }
  }
  if let Some((v, _)) = &content {
    if v4 { let e = match &body { Body::Bytes(_) => json!("base64"), Body::Json(_) => if ch.pct(50) { json!(false) } else { json!("JSON") }, _ => json!(false) };
      let mut b = Map::new(); b.insert("content".into(), v.clone()); if let Some(c) = &ct { b.insert("contentType".into(), json!(c)); } b.insert("encoded".into(), e);
      if b["encoded"] == json!("JSON") { b.insert("content".into(), json!(v.to_string())); }
      msg.insert(if part == "message" { "contents" } else { "body" }.into(), Value::Object(b)); }
    else { msg.insert(if part == "message" { "contents" } else { "body" }.into(), v.clone()); }
  }
  if !rules.is_empty() { msg.insert("matchingRules".into(), Value::Object(rules)); }
  if part == "message" { if !meta.is_empty() { msg.insert("metadata".into(), Value::Object(meta.clone())); } }
  else {
    if !headers.is_empty() { let h = named_json(ch, &headers, v4, true); msg.insert("headers".into(), h); }
    if part == "response" { msg.insert("status".into(), json!(status)); }
    else { msg.insert("method".into(), json!(method)); msg.insert("path".into(), json!(path)); if !query.is_empty() { msg.insert("query".into(), if v2 { json!(form(&query)) } else { named_json(ch, &query, true, false) }); } }
  }
  let (name, version) = match spec { 2 => ("pactSpecification", "2.0.0"), 3 => ("pactSpecification", "3.0.0"), _ => ("pactSpecification", "4.0") };
  let mut i = Map::new();
  i.insert("description".into(), json!("the interaction"));
  match part {
    "message" => { i.extend(msg); if v4 { i.insert("type".into(), json!("Asynchronous/Messages")); } }
    p => { i.insert("request".into(), json!({"method": "GET", "path": "/"})); i.insert("response".into(), json!({"status": 200})); i.insert(p.into(), Value::Object(msg)); if v4 { i.insert("type".into(), json!("Synchronous/HTTP")); } }
  }
  let pact = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, if part == "message" && !v4 { "messages" } else { "interactions" }: [Value::Object(i)], "metadata": {name: {"version": version}}});

  // what arrives
  for round in 0..3 {
    let damage = if round == 0 { 0 } else { *ch.pick(&[30, 0, 10]) };
    let hit = |ch: &mut Choices| damage > 0 && ch.pct(40);
    let mut unsure = false;
    let mut bad: BTreeSet<String> = BTreeSet::new();
    // body
    let mut a_ct = ct.clone();
    let mut bytes: Option<Vec<u8>>;
    let mut sent = body.clone();
    match &mut sent {
      Body::None => { bytes = if hit(ch) { a_ct = Some("application/json".into()); Some(b"{\"surprise\":1}".to_vec()) } else { None } }
      Body::Json(v) => {
        let mut r = Ref { rules: &body_rules, strict, bad: BTreeSet::new(), unsure: false };
        if ch.pct(70) { *v = vary(ch, &mut r, &[], v); }
        if hit(ch) { damage_json(ch, v, &mut o); if ch.pct(30) { damage_json(ch, v, &mut o); } }
        bytes = Some(if ch.pct(30) { serde_json::to_vec_pretty(v).unwrap() } else { v.to_string().into_bytes() });
      }
      Body::Xml(x, s) => {
        let mut r = Ref { rules: &body_rules, strict, bad: BTreeSet::new(), unsure: false };
        if ch.pct(70) { let at = [x.full()]; *x = xmls::vary(ch, &mut r, &at, x); }
        if hit(ch) { xmls::damage(ch, x, &mut o); if ch.pct(30) { xmls::damage(ch, x, &mut o); } }
        let st = ch.below(4); xmls::spread(ch, x, st);
        *s = xmls::write(ch, x);
        bytes = Some(s.clone().into_bytes())
      }
      Body::Text(s) => { if !body_rules.is_empty() && ch.pct(60) { *s = text(&conform(ch, &body_rules[0].rules[0].clone(), &json!(""))); } if hit(ch) { o.fault("value changed"); *s = if ch.pct(50) { format!("{}x", s) } else { let r = ch.pick(RE); ch.pick(r.2).to_string() }; } bytes = Some(s.clone().into_bytes()) }
      Body::Form(m) => { *m = arrive(ch, m, &body_rules, false, &mut o, damage); bytes = Some(form(m).into_bytes()) }
      Body::Bytes(b) => { if hit(ch) { o.fault("byte changed"); let k = ch.below(b.len()); b[k] ^= 1 << ch.below(8); } bytes = Some(b.clone()) }
    }
    // transport damage
    let mut garbled = false;
    if damage > 0 && ch.fault_pct(12) && bytes.is_some() {
      match ch.fault(4) {
        0 => { let b = bytes.as_mut().unwrap(); let n = b.len(); let k = ch.fault(n.max(1)); b.truncate(k); o.fault("body cut"); }
        1 => { bytes = Some(b"<html><body>502 Bad Gateway</body></html>".to_vec()); a_ct = Some("text/html".into()); o.fault("body replaced"); }
        2 => { bytes = None; a_ct = None; o.fault("body lost"); }
        _ => { let t = *ch.pick(&["text/plain", "application/xml", "application/json", "image/png"]); if a_ct.as_deref() != Some(t) { a_ct = Some(t.into()); o.fault("content type changed"); } }
      }
      garbled = true;
    } else if let (Some(c), true) = (&ct, ch.pct(20)) {
      // an equivalent way of writing the content type
      if !c.contains(';') { a_ct = Some(format!("{}; charset=UTF-8", c)); } else { a_ct = Some(c.replace("utf-8", "UTF-8").replace(';', "; ")); }
    }
    let expected_bytes = content.as_ref().map(|c| c.1.clone());
    // verdict on the body
    let mut body_bad: Option<BTreeSet<String>> = Some(BTreeSet::new());
    match (&expected_bytes, &bytes) {
      (None, _) => {}
      (Some(e), None) => if !e.is_empty() { body_bad = None },
      (Some(e), Some(a)) if a.is_empty() != e.is_empty() => body_bad = None,
      (Some(e), Some(a)) => {
        let same_type = match (&ct, &a_ct) { (Some(x), Some(y)) => { let (x, y) = (ct_parts(x), ct_parts(y)); let xml = |t: &str| t == "application/xml" || t == "text/xml"; (x.0 == y.0 || (xml(&x.0) && xml(&y.0))) && (x.1.is_empty() || x.1 == y.1) } _ => { unsure = true; true } };
        if !same_type { body_bad = None }
        else { match &body {
          Body::Json(ev) => match serde_json::from_slice::<Value>(a) {
            Ok(av) => { let mut r = Ref { rules: &body_rules, strict, bad: BTreeSet::new(), unsure: false }; r.check(&[], ev, &av); unsure |= r.unsure; body_bad = Some(r.bad) }
            Err(_) => body_bad = Some(BTreeSet::from(["$".to_string()]))
          },
          Body::Xml(ex, _) => {
            let Body::Xml(ax, s) = &sent else { unreachable!() };
            let t = String::from_utf8_lossy(a).to_string();
            if t == *s || t.trim_end() == s.trim_end() { let mut r = Ref { rules: &body_rules, strict, bad: BTreeSet::new(), unsure: false }; r.xml(&[ex.full()], ex, ax); unsure |= r.unsure; body_bad = Some(r.bad) }
            else { body_bad = Some(BTreeSet::from(["$".to_string()])) }
          }
          Body::Text(ev) => { let t = String::from_utf8_lossy(a).to_string(); match body_rules.first() { Some(r) => match judge_string(r, ev, &t) { Some(true) => {} Some(false) => body_bad = Some(BTreeSet::from(["$".to_string()])), None => unsure = true }, None => if *ev != t { body_bad = Some(BTreeSet::from(["$".to_string()])) } } }
          Body::Form(em) => {
            if garbled { if e != a { unsure = true } }
            else if let Body::Form(am) = &sent { let (mut b, u) = judge_named(em, am, &body_rules, false); for k in am.keys() { if !em.contains_key(k) { b.insert(k.clone()); } } unsure |= u; body_bad = Some(b.into_iter().map(|n| format!("$.{}", n)).collect()) }
          }
          Body::Bytes(_) => if e != a { body_bad = Some(BTreeSet::from(["$".to_string()])) },
          Body::None => {}
        } }
      }
    }
    match &body_bad { None => { bad.insert("body".into()); } Some(s) => for p in s { bad.insert(format!("body {}", p)); } }
    // headers
    let mut a_headers = arrive(ch, &headers.iter().filter(|(k, _)| !k.eq_ignore_ascii_case("content-type")).map(|(k, v)| (k.clone(), v.clone())).collect(), &header_rules, true, &mut o, damage);
    if part != "message" {
      if let Some(c) = &a_ct { a_headers.insert(if ch.pct(50) { "content-type".into() } else { "Content-Type".into() }, vec![c.clone()]); }
      let plain: Named = headers.iter().filter(|(k, _)| !k.eq_ignore_ascii_case("content-type")).map(|(k, v)| (k.clone(), v.clone())).collect();
      let (b, u) = judge_named(&plain, &a_headers, &header_rules, true);
      unsure |= u;
      for n in b { bad.insert(format!("header {}", n)); }
      if let Some((n, v)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-type")) {
        let ok = match &a_ct { None => false, Some(y) => { let (x, y) = (ct_parts(&v[0]), ct_parts(y)); x.0 == y.0 && x.1.iter().all(|(k, v)| y.1.get(k) == Some(v)) } };
        if !ok { bad.insert(format!("header {}", n)); }
      }
    }
    let a_status = if let (true, Some(i)) = (ch.pct(60), status_rule) { let all: Vec<u16> = (100..600).filter(|s| STATUS[i].1(*s)).collect(); *ch.pick(&all) } else if hit(ch) { 100 + ch.below(500) as u16 } else { status };
    let (mut a_query, mut a_method, mut a_path, mut a_meta) = (Named::new(), method.to_string(), path.clone(), Map::new());
    match part {
      "response" => if !match status_rule { Some(i) => STATUS[i].1(a_status), None => a_status == status } { bad.insert("status".into()); },
      "request" => {
        a_query = arrive(ch, &query, &query_rules, false, &mut o, damage);
        let (mut b, u) = judge_named(&query, &a_query, &query_rules, false);
        for k in a_query.keys() { if !query.contains_key(k) { b.insert(k.clone()); } }
        unsure |= u;
        for n in b { bad.insert(format!("query {}", n)); }
        if ch.pct(30) { a_method = if ch.pct(50) { method.to_uppercase() } else { method.to_lowercase() }; }
        if hit(ch) { a_method = "PATCH".into(); }
        if a_method.to_lowercase() != method.to_lowercase() { bad.insert("method".into()); }
        if ch.pct(if path_rule.is_some() { 50 } else { damage }) { a_path = ch.pick(&["/abc", "/b/a", "/", "/x", "/x y", "/A"]).to_string(); }
        match &path_rule { Some(r) => match r.string(&path, &a_path) { Some(true) => {} Some(false) => { bad.insert("path".into()); } None => unsure = true }, None => if a_path != path { bad.insert("path".into()); } }
      }
      _ => {
        a_meta = meta.clone();
        if let Some(c) = &a_ct { a_meta.insert("contentType".into(), json!(c)); } else { a_meta.remove("contentType"); }
        for r in &meta_rules { if let (T::F(n), true) = (&r.path[0], ch.pct(50)) { let v = conform(ch, &r.rules[0], &meta[n]); a_meta.insert(n.clone(), v); } }
        if hit(ch) { let ks: Vec<String> = a_meta.keys().filter(|k| *k != "contentType").cloned().collect(); if !ks.is_empty() { let k = ch.pick(&ks).clone(); if ch.pct(50) { a_meta.remove(&k); } else { a_meta.insert(k, any_leaf(ch)); } } }
        if ch.pct(20) { a_meta.insert("extra".into(), json!(1)); }
        if !v4 { a_meta.retain(|_, v| !v.is_array() && !v.is_object()); }
        for (k, e) in &meta {
          if k == "contentType" { let ok = match a_meta.get(k).and_then(|v| v.as_str()) { None => false, Some(y) => { let (x, y) = (ct_parts(e.as_str().unwrap()), ct_parts(y)); x.0 == y.0 && x.1.iter().all(|(k, v)| y.1.get(k) == Some(v)) } }; if !ok { bad.insert("metadata contentType".into()); } continue }
          match a_meta.get(k) {
            None => { bad.insert(format!("metadata {}", k)); }
            Some(a) => { let mut r = Ref { rules: &meta_rules, strict, bad: BTreeSet::new(), unsure: false }; r.check(&[k.clone()], e, a); unsure |= r.unsure; if !r.bad.is_empty() { bad.insert(format!("metadata {}", k)); } }
          }
        }
      }
    }
    let arrived = format!("status {} method {} path {} query {:?} headers {:?} metadata {:?} body {:?}", a_status, a_method, a_path, a_query, a_headers, a_meta, bytes.as_ref().map(|b| String::from_utf8_lossy(b).to_string()));
    let label = format!("{} of {} against {}", part, pact, arrived);
    let names: Vec<String> = headers.keys().cloned().collect();
    let run = || -> Result<Vec<Mismatch>, String> {
      let p = load_pact_from_json("sim", &pact).map_err(|e| format!("the pact does not load: {}", e))?;
      let i = p.interactions().into_iter().next().ok_or("no interaction")?;
      let hmap = |m: &Named| if m.is_empty() { None } else { Some(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) };
      let ab = match &bytes { None => OptionalBody::Missing, Some(b) if b.is_empty() => OptionalBody::Empty, Some(b) => OptionalBody::Present(b.clone().into(), a_ct.as_deref().and_then(|c| pact_models::content_types::ContentType::parse(c).ok()), None) };
      match part {
        "response" => { let e = i.as_v4_http().ok_or("not HTTP")?.response; let a = HttpResponse { status: a_status, headers: hmap(&a_headers), body: ab, ..HttpResponse::default() }; Ok(block(match_response(e, a, &p, &i))) }
        "request" => { let e = i.as_v4_http().ok_or("not HTTP")?.request;
          let a = HttpRequest { method: a_method.clone(), path: a_path.clone(), query: if a_query.is_empty() { None } else { Some(a_query.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| Some(x.clone())).collect())).collect()) }, headers: hmap(&a_headers), body: ab, ..HttpRequest::default() };
          block(match_request(e, a, &p, &i)).map(|r| r.mismatches()).map_err(|e| e.to_string()) }
        _ => {
          let mut m = pact_models::message::Message { contents: ab.clone(), metadata: a_meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), ..Default::default() };
          m.description = "the interaction".into();
          let a: Box<dyn pact_models::interaction::Interaction + Send + Sync + std::panic::RefUnwindSafe> = if v4 {
            let mut am = pact_models::v4::async_message::AsynchronousMessage::default();
            am.contents.contents = ab; am.contents.metadata = a_meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); Box::new(am)
          } else { Box::new(m) };
          Ok(block(match_message(&i, &a, &p)))
        }
      }
    };
    let mut first: Option<String> = None;
    for process in 0..2 {
      let r = host.proc(&format!("match {}", part), || run());
      let (places, words) = match r {
        Err(p) => { o.violate(panic_class(&p), format!("{}: {}", label, p)); break }
        Ok(Err(e)) => { o.violate("not-loaded", format!("{}: {}", label, e)); break }
        Ok(Ok(m)) => {
          let places: BTreeSet<String> = m.iter().map(|m| match m {
            Mismatch::MethodMismatch { .. } => "method".to_string(), Mismatch::PathMismatch { .. } => "path".into(), Mismatch::StatusMismatch { .. } => "status".into(),
            Mismatch::QueryMismatch { parameter, .. } => format!("query {}", name_of(parameter)), Mismatch::HeaderMismatch { key, .. } => format!("header {}", names.iter().find(|n| n.eq_ignore_ascii_case(&name_of(key))).cloned().unwrap_or(name_of(key))),
            Mismatch::BodyTypeMismatch { .. } => "body".into(), Mismatch::BodyMismatch { path, .. } => if path == "/" { "body".into() } else if matches!(body, Body::Form(_)) { format!("body $.{}", name_of(path.strip_prefix("$.").unwrap_or(path))) } else { format!("body {}", path) }, Mismatch::MetadataMismatch { key, .. } => format!("metadata {}", key)
          }).collect();
          let mut w: Vec<String> = m.iter().map(|m| m.description()).collect(); w.sort();
          (places, w.join("; "))
        }
      };
      let seen = format!("{:?} {}", places, words);
      if let Some(f) = &first { if *f != seen { o.violate("not-repeatable", format!("{}: {} in one process and {} in the next", label, f, seen)); } }
      else if !unsure {
        let kind = match &body { Body::None => "none", Body::Json(_) => "json", Body::Text(_) => "text", Body::Form(_) => "form", Body::Xml(..) => "xml", Body::Bytes(_) => "bytes" };
        let section = |s: &BTreeSet<String>| -> String { s.iter().next().map(|x| { let mut w = x.split(' '); let a = w.next().unwrap(); if a == "body" { format!("body-{}", kind) } else { a.to_string() } }).unwrap_or_default() };
        if bad.is_empty() && !places.is_empty() { o.violate(format!("rejected:{}:{}", part, section(&places)), format!("{} is fine but {}", label, words)); }
        else if !bad.is_empty() && places.is_empty() { o.violate(format!("accepted:{}:{}", part, section(&bad)), format!("{} was accepted, wrong are {:?}", label, bad)); }
        else {
          let missing: BTreeSet<String> = bad.difference(&places).cloned().collect();
          let extra: BTreeSet<String> = places.difference(&bad).cloned().collect();
          if !missing.is_empty() { o.violate(format!("overlooked:{}:{}", part, section(&missing)), format!("{}: {:?} not reported, only {}", label, missing, words)); }
          else if !extra.is_empty() { o.violate(format!("wrong-place:{}:{}", part, section(&extra)), format!("{}: {:?} reported, only {:?} is wrong: {}", label, extra, bad, words)); }
        }
        if process == 0 { o.probe(if bad.is_empty() { "intact" } else { "damaged" }); }
      } else if process == 0 { o.probe("undecided by the reference"); }
      if process == 0 { o.digest = mix(o.digest, hash_str(&seen)); first = Some(seen); }
    }
    o.case = mix(o.case, hash_str(&label));
    o.sample = short(&label);
    if !o.violations.is_empty() { o.trace.push(label); break }
  }
  o.nontrivial = !body_rules.is_empty() || !header_rules.is_empty() || status_rule.is_some() || !query_rules.is_empty() || !meta_rules.is_empty();
  let _ = parts;
  o.steps = host.syscalls; o.sim_ns = host.sim_ns;
  o.trace.extend(std::mem::take(&mut host.trace));
  o
}
