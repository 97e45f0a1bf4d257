//! C17, rule selection: which rules apply to a place depends only on their paths, the most specific
//! path wins, and a path means the same however it was written or put together.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use pact_matching::{match_response, Mismatch};
use pact_models::bodies::OptionalBody;
use pact_models::matchingrules::{MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::v4::http_parts::HttpResponse;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};

use crate::apply::block;
use crate::procs::Host;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum T { F(String), I(usize), Star, AllI }
const NAMES: &[&str] = &["a", "b", "id", "name", "x y", "a.b", "é", "X-Id", "a-b", "0", "7", "_q", "a:b", "#t", "#7", "+7", "@x", "Ünï", "item[0]", "*", "it's", "c\\d", "'", "\\", "a/b", "m~n", "~1", "A"];

fn plain(n: &str) -> bool { !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !n.as_bytes()[0].is_ascii_digit() }
/// a field written in brackets, quotes and backslashes with a backslash in front
pub fn quoted(n: &str) -> String { format!("['{}']", n.replace('\\', "\\\\").replace('\'', "\\'")) }
fn text(p: &[T]) -> String {
  let mut s = "$".to_string();
  for t in p { match t { T::F(n) if plain(n) => { s.push('.'); s.push_str(n) } T::F(n) => s.push_str(&quoted(n)), T::I(i) => s.push_str(&format!("[{}]", i)), T::Star => s.push_str(".*"), T::AllI => s.push_str("[*]") } }
  s
}
fn token(t: &T) -> PathToken { match t { T::F(n) => PathToken::Field(n.clone()), T::I(i) => PathToken::Index(*i), T::Star => PathToken::Star, T::AllI => PathToken::StarIndex } }
/// the same path, put together in different ways
fn build(p: &[T], style: usize) -> Result<DocPath, String> {
  Ok(match style {
    0 => DocPath::new(text(p)).map_err(|e| format!("{:#}", e))?,
    1 => { let mut d = DocPath::root(); for t in p { d.push(token(t)); } d }
    2 => { let mut d = DocPath::root(); for t in p { match t { T::F(n) => d.push_field(n), T::I(i) => d.push_index(*i), T::Star => d.push_star(), T::AllI => d.push_star_index() }; } d }
    3 => DocPath::from_tokens(std::iter::once(PathToken::Root).chain(p.iter().map(token))),
    4 => { let k = p.len() / 2; let mut d = build(&p[..k], 1)?; d.push_path(&build(&p[k..], 0)?); d }
    // always the long form of a field
    5 => DocPath::new(p.iter().fold("$".to_string(), |mut s, t| { match t { T::F(n) => s.push_str(&quoted(n)), t => s.push_str(&text(std::slice::from_ref(t))[1..]) } s })).map_err(|e| format!("{:#}", e))?,
    6 => { let mut d = DocPath::root(); for t in p { d = match t { T::F(n) => { let mut x = d.clone(); x.push_field(n); x } T::I(i) => { let mut x = d.clone(); x.push_index(*i); x } T::Star => d.join("*"), T::AllI => d.join("[*]") }; } d }
    _ => { let d = build(p, 1)?; let x = serde_json::to_value(&d).map_err(|e| e.to_string())?; serde_json::from_value(x).map_err(|e| e.to_string())? }
  })
}
/// (fields or indexes met exactly, steps) or nothing if the rule is not for that place
fn weight(p: &[T], at: &[String]) -> Option<(u32, usize)> {
  if at.first().map(|s| s.as_str()) != Some("$") || p.len() + 1 > at.len() { return None }
  let mut exact = 1;
  for (t, s) in p.iter().zip(&at[1..]) {
    let i = s.parse::<usize>().ok();
    match t { T::F(n) if n == s => exact += 1, T::I(k) if i == Some(*k) => exact += 1, T::Star => {} T::AllI if i.is_some() => {} _ => return None }
  }
  Some((exact, p.len() + 1))
}
fn shape(v: &Value, at: &[T]) -> Option<Value> {
  at.iter().try_fold(v.clone(), |v, t| match t { T::F(n) => v.as_object()?.get(n).cloned(), T::I(i) => v.as_array()?.get(*i).cloned(), _ => None })
}

pub fn select(ch: &mut Choices, host: &mut Host, o: &mut Outcome) {
  if ch.pct(15) { return deep(ch, host, o) }
  // a place
  let n = if ch.pct(10) { 20 + ch.below(35) } else { ch.below(6) };
  let place: Vec<T> = (0..n).map(|_| if ch.pct(35) { T::I(*ch.pick(&[0usize, 1, 2, 10, 99, 100, 4321])) } else { T::F(ch.pick(NAMES).to_string()) }).collect();
  let at: Vec<String> = std::iter::once("$".to_string()).chain(place.iter().map(|t| match t { T::F(n) => n.clone(), T::I(i) => i.to_string(), _ => unreachable!() })).collect();
  let category = *ch.pick(&["body", "body", "body", "contents", "metadata", "header", "query", "path", "status"]);
  let lists = matches!(category, "body" | "contents" | "metadata");
  let filtered = lists || matches!(category, "header" | "query");
  // rules around it
  let mut rules: BTreeMap<String, (Vec<T>, Vec<MatchingRule>)> = BTreeMap::new();
  let count = ch.count(0, 7);
  for k in 0..count {
    let mut p = place.clone();
    if ch.pct(35) { let k = ch.below(p.len() + 1); p.truncate(k); }
    for t in p.iter_mut() { if ch.pct(25) { *t = if ch.pct(30) || matches!(t, T::F(_)) { T::Star } else { T::AllI }; } }
    if ch.pct(25) && !p.is_empty() { let k = ch.below(p.len()); p[k] = match ch.below(4) { 0 => T::F("other".into()), 1 => T::I(*ch.pick(&[0usize, 1, 3, 9, 10, 432])), 2 => T::AllI, _ => T::Star }; }
    if ch.pct(15) { p.push(match ch.below(3) { 0 => T::Star, 1 => T::AllI, _ => T::F("more".into()) }); }
    let mut r = vec![MatchingRule::Include(format!("rule {}", k))];
    match ch.below(5) { 0 => r.push(MatchingRule::Type), 1 => r.push(MatchingRule::MinMaxType(k, k + 1)), 2 => r.push(MatchingRule::Values), 3 => r.push(MatchingRule::Null), _ => {} }
    if ch.pct(20) { r = vec![if ch.pct(50) { MatchingRule::MaxType(k + 1) } else { MatchingRule::EachValue(pact_models::matchingrules::expressions::MatchingRuleDefinition::new(format!("e{}", k), pact_models::matchingrules::expressions::ValueType::Unknown, MatchingRule::Type, None, "".into())) }]; }
    rules.insert(text(&p), (p, r));
  }
  let styles: Vec<usize> = rules.iter().map(|_| ch.below(8)).collect();
  let orders: Vec<Vec<usize>> = (0..2).map(|_| { let mut v: Vec<usize> = (0..rules.len()).collect(); for i in (1..v.len()).rev() { v.swap(i, ch.below(i + 1)); } v }).collect();
  let list: Vec<(Vec<T>, Vec<MatchingRule>)> = rules.values().cloned().collect();
  let label = format!("select {} at {:?} among {:?}", category, at, rules.keys().collect::<Vec<_>>());
  // what has to be found
  let w: Vec<Option<(u32, usize)>> = list.iter().map(|(p, _)| weight(p, &at)).collect();
  let found: BTreeSet<usize> = (0..list.len()).filter(|k| !filtered || w[*k].is_some()).collect();
  let best: Vec<usize> = { let key = |k: usize| w[k].map(|(e, t)| (t as u128) << e); let top = (0..list.len()).filter_map(key).max(); (0..list.len()).filter(|k| top.is_some() && key(*k) == top).collect() };
  let typed = |k: &usize| list[*k].1.iter().any(|r| r.is_type_matcher());
  let path_ops: Vec<usize> = (0..3).map(|_| ch.below(8)).collect();
  let cut = ch.below(4);
  let part = ch.pick(NAMES).to_string();
  let mut first: Option<String> = None;
  for order in &orders {
    let r = host.proc(&label, || -> Result<(String, Vec<(String, String)>), String> {
      let mut bad: Vec<(String, String)> = vec![];
      let mut c = MatchingRuleCategory::empty(category);
      for k in order { let p = build(&list[*k].0, styles[*k])?; for r in &list[*k].1 { c.add_rule(p.clone(), r.clone(), RuleLogic::And); } }
      let mut all = MatchingRules::default();
      all.rules.insert(category.into(), c.clone());
      let refs: Vec<&str> = at.iter().map(|s| s.as_str()).collect();
      let of = |l: &RuleList| (0..list.len()).find(|k| list[*k].1 == l.rules);
      // every way to ask
      let resolved = c.resolve_matchers_for_path(&refs);
      let got: BTreeSet<usize> = resolved.rules.values().filter_map(|l| of(l)).collect();
      if got != found || resolved.rules.len() != found.len() { bad.push(("resolve".into(), format!("rules {:?} are found instead of {:?}", got, found))); }
      let again = all.resolve_matchers(category, &refs);
      if again.as_ref() != Some(&resolved) { bad.push(("resolve-all".into(), format!("{:?} instead of {:?}", again, resolved))); }
      let mut chosen = vec![c.select_best_matcher(&refs)];
      if category == "body" { chosen.push(all.resolve_body_matchers_by_path(&refs)); }
      for x in &chosen {
        let k = of(x);
        if lists {
          if best.is_empty() != x.rules.is_empty() || (!best.is_empty() && !k.is_some_and(|k| best.contains(&k))) { bad.push(("best".into(), format!("{:?} is selected instead of one of {:?}", k, best))); }
          else if let Some(k) = k { if x.cascaded != (list[k].0.len() + 1 != at.len()) { bad.push(("cascaded".into(), format!("cascaded is {} for {}", x.cascaded, text(&list[k].0)))); } }
        } else if found.is_empty() != x.rules.is_empty() || k.is_some_and(|k| !found.contains(&k)) { bad.push(("best".into(), format!("{:?} is selected, found are {:?}", k, found))); }
      }
      for (what, a, b) in [("defined", c.matcher_is_defined(&refs), !found.is_empty()), ("defined-all", all.matcher_is_defined(category, &refs), !found.is_empty()),
        ("type", all.type_matcher_defined(category, &refs), found.iter().any(typed)), ("any-type", c.type_matcher_defined(), (0..list.len()).any(|k| typed(&k))), ("any-values", c.values_matcher_defined(), list.iter().any(|l| l.1.iter().any(|r| r.is_values_matcher()))),
        ("empty", c.is_empty(), list.is_empty()), ("not-empty", all.is_not_empty(), !list.is_empty())] {
        if a != b { bad.push((what.into(), format!("{} is {} instead of {}", what, a, b))); }
      }
      if category == "body" {
        let wild = (0..list.len()).any(|k| w[k].is_some() && list[k].0.len() + 1 == at.len() && list[k].0.last() == Some(&T::Star));
        if all.wildcard_matcher_is_defined("body", &refs) != wild { bad.push(("wildcard".into(), format!("a wildcard rule for the place: {} instead of {}", !wild, wild))); }
      }
      if all.matcher_is_defined(if category == "body" { "metadata" } else { "body" }, &refs) { bad.push(("category".into(), "a rule of another category is found".into())); }
      // the paths themselves
      for k in 0..list.len() {
        let (p, x) = (&list[k].0, build(&list[k].0, styles[k])?);
        let norm = text(p);
        let (pw, steps) = x.path_weight(&refs);
        let mut say = |what: &str, ok: bool, d: String| if !ok { bad.push((format!("path-{}", what), format!("{} ({}): {}", norm, styles[k], d))) };
        say("weight", steps == p.len() + 1 && (pw > 0) == w[k].is_some() && w[k].map(|(e, _)| e > 58 || pw == 1usize << e).unwrap_or(true), format!("weight {} of {} steps, expected {:?}", pw, steps, w[k]));
        say("matches", x.matches_path(&refs) == w[k].is_some(), format!("matches {}", x.matches_path(&refs)));
        say("matches-exactly", x.matches_path_exactly(&refs) == (w[k].is_some() && p.len() + 1 == at.len()), format!("matches exactly {}", x.matches_path_exactly(&refs)));
        let tokens: Vec<PathToken> = std::iter::once(PathToken::Root).chain(p.iter().map(token)).collect();
        say("tokens", *x.tokens() == tokens && x.len() == tokens.len(), format!("consists of {:?}", x.tokens()));
        say("last", x.last() == tokens.last().cloned() && x.is_wildcard() == (p.last() == Some(&T::Star)) && x.is_root() == p.is_empty(), format!("ends with {:?}", x.last()));
        let fields: Vec<&str> = p.iter().filter_map(|t| match t { T::F(n) => Some(n.as_str()), _ => None }).collect();
        say("fields", x.first_field() == fields.first().copied() && x.last_field() == fields.last().copied(), format!("first field {:?}, last {:?}", x.first_field(), x.last_field()));
        let strings: Vec<String> = std::iter::once("$".to_string()).chain(p.iter().map(|t| match t { T::F(n) => n.clone(), T::I(i) => i.to_string(), T::Star => "*".into(), T::AllI => "[*]".into() })).collect();
        say("strings", x.to_vec() == strings, format!("is split into {:?}", x.to_vec()));
        for s in &path_ops {
          let y = build(p, *s)?;
          say("spelling", styles[k] == 5 || *s == 5 || (y == x && y.to_string() == norm), format!("is {} when built as {}", y, s));
          say("reparse", DocPath::new(y.to_string()).map(|z| *z.tokens() == tokens).unwrap_or(false), format!("{} is not read as the same path", y));
        }
        let parent = x.parent().map(|q| q.to_string());
        say("parent", parent == p.split_last().map(|(_, r)| text(r)), format!("has the parent {:?}", parent));
        let dropped = x.drop(cut); let left = (p.len() + 1).saturating_sub(cut).max(1) - 1;
        say("drop", dropped.to_string() == text(&p[..left]) && dropped.len() == left + 1, format!("without {} steps is {}", cut, dropped));
        let mut q = p.clone(); q.push(T::F("z9".into()));
        say("join", x.join("z9").tokens().last() == Some(&PathToken::Field("z9".into())) && x.join("4").tokens().last() == Some(&PathToken::Index(4)) && x.join("x.y z").len() == p.len() + 2 && (styles[k] == 5 || x.join("z9").to_string() == text(&q)), format!("joined with z9 is {}", x.join("z9")));
        let (last, n) = (x.join(part.as_str()).last(), part.parse::<usize>());
        say("join-any", last == Some(match n { Ok(n) => PathToken::Index(n), _ if part == "*" => PathToken::Star, _ => PathToken::Field(part.clone()) }), format!("joined with {} ends with {:?}", part, last));
        let replaced = |t: T, stars: &[T]| { let mut q = p.clone(); if p.last().is_some_and(|l| stars.contains(l)) { q.pop(); } q.push(t); text(&q) };
        if styles[k] != 5 {
          say("join-index", x.join_index(4).to_string() == replaced(T::I(4), &[T::Star, T::AllI]), format!("with index 4 is {}", x.join_index(4)));
          say("join-field", x.join_field("u v").to_string() == replaced(T::F("u v".into()), &[T::Star]), format!("with a field is {}", x.join_field("u v")));
        }
        let low: Vec<PathToken> = tokens.iter().map(|t| match t { PathToken::Field(n) => PathToken::Field(n.to_lowercase()), t => t.clone() }).collect();
        say("lower-case", *x.to_lower_case().tokens() == low && DocPath::new(x.to_lower_case().to_string()).is_ok_and(|y| *y.tokens() == low), format!("in lower case is {}", x.to_lower_case()));
        let pointer = x.as_json_pointer();
        if p.iter().any(|t| matches!(t, T::Star | T::AllI)) { say("pointer", pointer.is_err(), "with a wildcard has a JSON pointer".into()); }
        else {
          // a document that has exactly this place
          let doc = p.iter().rev().fold(json!("here"), |v, t| match t { T::F(n) => json!({n.clone(): v, "~": 1, "m": 2}), T::I(i) => { let mut l = vec![json!(0); *i]; l.push(v); Value::Array(l) } _ => v });
          say("pointer", pointer.as_ref().is_ok_and(|s| doc.pointer(s) == shape(&doc, p).as_ref()), format!("has the pointer {:?}", pointer.as_ref().ok()));
        }
      }
      Ok((format!("{:?} {:?}", got, chosen), bad))
    });
    match r {
      Err(p) => { o.violate(panic_class(&p), format!("{}: {}", label, p)); break }
      Ok(Err(e)) => { o.violate("select:path-refused", format!("{}: {}", label, e)); break }
      Ok(Ok((seen, bad))) => {
        if let Some((c, d)) = bad.into_iter().next() { o.violate(format!("select:{}", c), format!("{}: {}", label, d)); break }
        match &first { None => { o.digest = mix(o.digest, hash_str(&seen)); first = Some(seen) } Some(f) => if *f != seen { o.violate("select:not-repeatable", format!("{}: {} and then {}", label, f, seen)); break } }
      }
    }
  }
  o.probe("rule selection"); if best.len() > 1 { o.probe("equally specific rules"); }
  o.nontrivial |= !found.is_empty();
  o.case = mix(o.case, hash_str(&label));
  o.sample = simcore::kernel::short(&label);
}

/// a value far down in a document has a rule and is looked at by it
fn deep(ch: &mut Choices, host: &mut Host, o: &mut Outcome) {
  let depth = 1 + ch.below(110);
  let steps: Vec<T> = (0..depth).map(|_| if ch.pct(30) { T::I(0) } else { T::F(ch.pick(&["a", "b", "x y"]).to_string()) }).collect();
  let doc = |v: Value| steps.iter().rev().fold(v, |v, t| match t { T::F(n) => json!({n.clone(): v}), _ => json!([v]) });
  let mut rule = steps.clone();
  let wild = ch.pct(30);
  if wild { let k = ch.below(depth); rule[k] = if matches!(rule[k], T::I(_)) { T::AllI } else { T::Star }; }
  let second = ch.pct(40);
  let good = ch.pct(50);
  let arrives = doc(if good { json!(7) } else { json!("seven") });
  let label = format!("{} steps down, {} arrives, rule {}{}", depth, if good { "a number" } else { "a text" }, text(&rule), if second { " and a rule for everything" } else { "" });
  let r = host.proc(&label, || -> Result<Vec<String>, String> {
    let mut c = MatchingRuleCategory::empty("body");
    c.add_rule(DocPath::new(text(&rule)).map_err(|e| e.to_string())?, MatchingRule::Integer, RuleLogic::And);
    if second { c.add_rule(DocPath::root(), MatchingRule::Null, RuleLogic::And); c.add_rule(DocPath::new("$.*").unwrap(), MatchingRule::Type, RuleLogic::And); }
    let mut rules = MatchingRules::default(); rules.rules.insert("body".into(), c);
    let body = |v: Value| OptionalBody::Present(v.to_string().into_bytes().into(), Some("application/json".into()), None);
    let headers = Some(HashMap::from([("Content-Type".to_string(), vec!["application/json".to_string()])]));
    let e = HttpResponse { body: body(doc(json!(1))), headers: headers.clone(), matching_rules: rules, ..HttpResponse::default() };
    let a = HttpResponse { body: body(arrives.clone()), headers, ..HttpResponse::default() };
    let i = SynchronousHttp { response: e.clone(), ..SynchronousHttp::default() };
    let mut pact = pact_models::v4::pact::V4Pact::default(); pact.interactions.push(Box::new(i.clone()));
    let pact: Box<dyn pact_models::pact::Pact + Send + Sync + std::panic::RefUnwindSafe> = Box::new(pact);
    let i: Box<dyn pact_models::interaction::Interaction + Send + Sync + std::panic::RefUnwindSafe> = Box::new(i);
    let m = block(match_response(e, a, &pact, &i));
    Ok(m.iter().map(|m| match m { Mismatch::BodyMismatch { path, mismatch, .. } => format!("{}: {}", path, mismatch), m => m.description() }).collect())
  });
  match r {
    Err(p) => o.violate(panic_class(&p), format!("{}: {}", label, p)),
    Ok(Err(e)) => o.violate("deep:error", format!("{}: {}", label, e)),
    Ok(Ok(m)) => if m.is_empty() != good && !second { o.violate(if good { "deep:rejected" } else { "deep:accepted" }, format!("{}: {:?}", label, m)) }
      else if second && !good && m.is_empty() { o.violate("deep:accepted", format!("{}: {:?}", label, m)) }
  }
  o.probe("deep place");
  o.nontrivial = true;
  o.case = mix(o.case, hash_str(&label));
  o.sample = simcore::kernel::short(&label);
}
