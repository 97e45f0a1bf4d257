//! C17, XML: bodies that are XML documents, and the places a path expression selects in one.
use std::collections::BTreeMap;

use pact_models::path_exp::DocPath;
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};

use crate::matching::*;
use crate::procs::Host;

#[derive(Clone, Debug, PartialEq)]
pub enum N { E(X), T(String), C }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct X { pub ns: Option<usize>, pub name: String, pub attrs: BTreeMap<String, String>, pub kids: Vec<N> }

const SPACES: &[&str] = &["urn:one", "http://example.com/two"];
const ELEMS: &[&str] = &["a", "b", "item", "name", "long-name", "x.y", "_u", "Big", "é"];
const ATTRS: &[&str] = &["id", "n", "data-x", "lang", "B", "a.b"];
const TEXTS: &[&str] = &["text", "a b", "12", "1.5", "true", "x & y", "1 < 2 > 0", "\"q\" 'p'", "ünï ☃", "]]>", "abc", "#00ff00"];

impl X {
  pub fn full(&self) -> String { match self.ns { Some(i) => format!("{}:{}", SPACES[i], self.name), None => self.name.clone() } }
  fn elems(&self) -> Vec<&X> { self.kids.iter().filter_map(|k| if let N::E(x) = k { Some(x) } else { None }).collect() }
  fn text(&self) -> String { self.kids.iter().filter_map(|k| if let N::T(t) = k { Some(t.trim()) } else { None }).collect::<String>().trim().to_string() }
  fn all<'a>(&'a mut self, out: &mut Vec<*mut X>) { out.push(self as *mut X); for k in &mut self.kids { if let N::E(x) = k { x.all(out) } } }
}
fn groups<'a>(l: &[&'a X]) -> BTreeMap<String, Vec<&'a X>> { let mut m: BTreeMap<String, Vec<&X>> = BTreeMap::new(); for x in l { m.entry(x.full()).or_default().push(x); } m }

// ---- writing ----

fn esc(ch: &mut Choices, s: &str, attr: Option<char>) -> String {
  let numeric = ch.pct(15);
  s.chars().map(|c| match c {
    '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(),
    c if Some(c) == attr => if c == '"' { "&quot;".to_string() } else { "&apos;".into() },
    c if numeric && !c.is_ascii() => format!("&#x{:x};", c as u32), c if numeric && c == 'a' => "&#97;".into(), c => c.to_string()
  }).collect()
}
/// Blanks and comments that do not change what the document says.
pub fn spread(ch: &mut Choices, x: &mut X, style: usize) {
  for k in &mut x.kids { if let N::E(e) = k { spread(ch, e, style) } }
  if style & 1 == 1 && !x.kids.is_empty() && x.kids.iter().all(|k| matches!(k, N::E(_))) {
    let mut out = vec![N::T("\n  ".into())];
    for k in std::mem::take(&mut x.kids) { out.push(k); out.push(N::T("\n  ".into())); }
    x.kids = out;
  }
  if style & 2 == 2 && ch.pct(30) {
    // beside an element only: a comment inside a text would break the text in two
    let at: Vec<usize> = (0..=x.kids.len()).filter(|i| !(*i > 0 && matches!(x.kids[*i - 1], N::T(_)) && matches!(x.kids.get(*i), Some(N::T(_))))).collect();
    let i = *ch.pick(&at);
    x.kids.insert(i, N::C);
  }
}
pub fn write(ch: &mut Choices, x: &X) -> String {
  let mut used = [false; 2];
  fn spaces(x: &X, used: &mut [bool; 2]) { if let Some(i) = x.ns { used[i] = true } for k in &x.kids { if let N::E(e) = k { spaces(e, used) } } }
  spaces(x, &mut used);
  // one of the name spaces can be the default one where every element has it
  fn only(x: &X, i: usize) -> bool { x.ns == Some(i) && x.kids.iter().all(|k| if let N::E(e) = k { only(e, i) } else { true }) }
  let default = (0..2).find(|i| only(x, *i)).filter(|_| ch.pct(50));
  let prefix: Vec<String> = (0..2).map(|i| if default == Some(i) { String::new() } else { ch.pick(&[["n", "m"], ["ns1", "ns2"], ["b", "a"]])[i].to_string() }).collect();
  let prefix = if prefix[0] == prefix[1] { vec!["p".to_string(), "q".to_string()] } else { prefix };
  let mut s = ch.pick(&["", "", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\"?>\n", "<?xml version='1.0' encoding='UTF-8'?>\n<!-- made here -->\n"]).to_string();
  let decls: String = (0..2).filter(|i| used[*i]).map(|i| if default == Some(i) { format!(" xmlns=\"{}\"", SPACES[i]) } else { format!(" xmlns:{}=\"{}\"", prefix[i], SPACES[i]) }).collect();
  fn put(ch: &mut Choices, x: &X, prefix: &[String], decls: &str, s: &mut String) {
    let n = match x.ns { Some(i) if !prefix[i].is_empty() => format!("{}:{}", prefix[i], x.name), _ => x.name.clone() };
    s.push('<'); s.push_str(&n); s.push_str(decls);
    let mut names: Vec<&String> = x.attrs.keys().collect();
    if ch.pct(30) { names.reverse(); }
    for a in names { let q = if ch.pct(70) { '"' } else { '\'' }; let v = esc(ch, &x.attrs[a], Some(q)); s.push_str(&format!(" {}={}{}{}", a, q, v, q)); }
    if x.kids.is_empty() && ch.pct(60) { s.push_str(if ch.pct(50) { "/>" } else { " />" }); return }
    s.push('>');
    for k in &x.kids { match k {
      N::E(e) => put(ch, e, prefix, "", s),
      N::T(t) => if ch.pct(15) && !t.contains("]]>") && !t.trim().is_empty() { s.push_str(&format!("<![CDATA[{}]]>", t)) } else { let v = esc(ch, t, None); s.push_str(&v) },
      N::C => s.push_str("<!-- note -->")
    } }
    s.push_str(&format!("</{}>", n));
  }
  put(ch, x, &prefix, &decls, &mut s);
  if ch.pct(15) { s.push('\n'); }
  s
}

// ---- what is expected, with rules ----

fn text_rule(ch: &mut Choices, v2: bool) -> R { string_rule(ch, v2) }
fn sub(at: &[T], s: &str) -> Vec<T> { let mut v = at.to_vec(); v.push(T::F(s.to_string())); v }
fn some_text(ch: &mut Choices, r: Option<&R>) -> String {
  let p = if ch.pct(50) { ch.pick(TEXTS).to_string() } else { plain(ch) };
  match r { Some(r) => text(&conform(ch, r, &json!(p))).trim().to_string(), None => p.trim().to_string() }
}
pub fn tree(ch: &mut Choices, g: &mut Gen, depth: usize, at: &[T], name: Option<&str>) -> X {
  let mut x = X { name: name.map(|n| n.to_string()).unwrap_or_else(|| ch.pick(ELEMS).to_string()), ns: if ch.pct(15) { Some(ch.below(2)) } else { None }, ..X::default() };
  let here = sub(at, &x.full());
  let pw = *ch.pick(&[0, 0, 30, 100]);
  for _ in 0..ch.count(0, 3) {
    let a = *ch.pick(ATTRS);
    if x.attrs.contains_key(a) { continue }
    let r = ch.pct(35).then(|| text_rule(ch, g.v2));
    let v = some_text(ch, r.as_ref());
    if let Some(r) = r { let p = Gen::generalise(ch, &sub(&here, &format!("@{}", a)), pw); let second = if ch.pct(15) { vec![string_rule(ch, g.v2)] } else { vec![] }; let or = !second.is_empty() && ch.pct(60); g.add(ch, p, std::iter::once(r).chain(second).collect(), or); }
    x.attrs.insert(a.into(), v);
  }
  if ch.pct(25) {
    let r = match ch.below(7) { 0 | 1 => R::Type, 2 => R::Min(1 + ch.below(3)), 3 => R::Max(2 + ch.below(4)), 4 => { let n = 1 + ch.below(2); R::MinMax(n, n + 1 + ch.below(3)) } 5 => R::Eq, _ => R::NotEmpty };
    if !(g.v2 && matches!(r, R::Eq | R::NotEmpty)) { let p = Gen::generalise(ch, &here, pw); g.add(ch, p, vec![r], false); }
  }
  if depth == 0 || ch.pct(40) {
    if ch.pct(80) {
      let r = ch.pct(40).then(|| text_rule(ch, g.v2));
      let t = some_text(ch, r.as_ref());
      if let Some(r) = r { let p = Gen::generalise(ch, &sub(&here, "#text"), pw); g.add(ch, p, vec![r], false); }
      if !t.is_empty() { x.kids.push(N::T(t)); }
    }
  } else {
    for _ in 0..ch.count(1, 3) {
      let kid = tree(ch, g, depth - 1, &here, None);
      if x.elems().iter().any(|e| e.full() == kid.full()) { continue }
      let more = if ch.pct(30) { 1 + ch.below(2) } else { 0 };
      for _ in 0..more { let mut k = kid.clone(); if ch.pct(40) { if let Some(N::T(t)) = k.kids.first_mut() { *t = some_text(ch, None); if t.is_empty() { *t = "t".into() } } } x.kids.push(N::E(k)); }
      x.kids.push(N::E(kid));
    }
    if ch.pct(15) { let t = some_text(ch, None); if !t.is_empty() { let i = if ch.pct(50) { 0 } else { x.kids.len() }; x.kids.insert(i, N::T(t)); } }
  }
  x
}

// ---- the reference reading ----

impl<'a> Ref<'a> {
  fn verdict(&mut self, b: &Best, f: impl Fn(&R) -> Option<bool>) -> Option<bool> {
    let rs: Vec<Option<bool>> = b.rules.iter().map(f).collect();
    let v = if b.or { if rs.contains(&Some(true)) { Some(true) } else if rs.contains(&None) { None } else { Some(false) } } else if rs.contains(&Some(false)) { Some(false) } else if rs.contains(&None) { None } else { Some(true) };
    if v.is_none() { self.unsure = true; }
    v
  }
  fn words(&mut self, at: &[String], e: &str, a: &str) {
    let ok = match self.best(at) { Some(b) => self.verdict(&b, |r| r.string(e, a)), None => Some(e == a) };
    if ok == Some(false) { self.fail(at) }
  }
  fn typed(&self, at: &[String]) -> bool { self.rules.iter().any(|r| Self::weight(r, at) > 0 && r.rules.iter().any(|r| r.typeish())) }
  pub fn xml(&mut self, at: &[String], e: &X, a: &X) {
    // a text counts as one child or, with references in it, as more
    let (n, m) = (a.elems().len(), a.kids.iter().map(|k| if matches!(k, N::T(t) if !t.trim().is_empty()) { 50 } else { 1 }).sum::<usize>());
    let count = |ok: &dyn Fn(usize) -> bool| if (n..=m).all(|c| ok(c) == ok(n)) { Some(ok(n)) } else { None };
    let ok = match self.best(at) {
      None => Some(e.full() == a.full()),
      Some(b) => { let exact = b.exact; self.verdict(&b, |r| match r {
        R::Type | R::Eq => Some(e.full() == a.full()),
        R::Min(x) => if exact { count(&|c| c >= *x) } else { Some(true) },
        R::Max(x) => if exact { count(&|c| c <= *x) } else { Some(true) },
        R::MinMax(x, y) => if exact { count(&|c| c >= *x && c <= *y) } else { Some(true) },
        R::NotEmpty => count(&|c| c > 0),
        _ => None
      }) }
    };
    match ok { Some(true) => {} Some(false) => { self.fail(at); return } None => return }
    // attributes
    if e.attrs.is_empty() && !a.attrs.is_empty() { if self.strict { self.fail(at) } }
    else {
      if if self.strict { e.attrs.len() != a.attrs.len() } else { e.attrs.len() > a.attrs.len() } { self.fail(at) }
      for (k, v) in &e.attrs { let p = Self::sub(at, &format!("@{}", k)); match a.attrs.get(k) { Some(w) => self.words(&p, v, w), None => self.fail(&p) } }
    }
    // children
    let (ek, ak) = (groups(&e.elems()), groups(&a.elems()));
    if ek.is_empty() && !ak.is_empty() && self.strict { self.fail(at) }
    else {
      for (k, l) in &ak {
        let p = Self::sub(at, k);
        match ek.get(k) {
          Some(el) if self.typed(&p) => for x in l { self.xml(&p, el[0], x) },
          Some(el) => {
            if el.len() > l.len() || (self.strict && el.len() < l.len()) { self.fail(&p) }
            for (x, y) in el.iter().zip(l) { self.xml(&p, x, y) }
          }
          None => if self.strict || self.typed(&p) { self.fail(at) }
        }
      }
      if ek.keys().any(|k| !ak.contains_key(k)) { self.fail(at) }
    }
    let p = Self::sub(at, "#text");
    self.words(&p, &e.text(), &a.text());
  }
}
/// Another document the rules allow.
pub fn vary(ch: &mut Choices, r: &mut Ref, at: &[String], e: &X) -> X {
  let mut a = e.clone();
  for (k, v) in &e.attrs { if let (Some(b), true) = (r.best(&Ref::sub(at, &format!("@{}", k))), ch.pct(60)) { let k2 = if b.or { ch.below(b.rules.len()) } else { 0 }; let p = json!(v.clone()); a.attrs.insert(k.clone(), text(&conform(ch, &b.rules[k2], &p))); } }
  if !r.strict && !e.attrs.is_empty() && ch.pct(15) { a.attrs.insert("extra".into(), "1".into()); }
  let mut kids = vec![];
  for k in &e.kids { match k {
    N::T(t) => match r.best(&Ref::sub(at, "#text")) { Some(b) if e.kids.len() == 1 && ch.pct(60) => { let p = json!(t.clone()); let t = text(&conform(ch, &b.rules[0], &p)); if !t.trim().is_empty() { kids.push(N::T(t)); } } _ => kids.push(k.clone()) },
    N::E(x) => { let p = Ref::sub(at, &x.full()); kids.push(N::E(vary(ch, r, &p, x))); if r.typed(&p) && ch.pct(40) { let first = e.elems().into_iter().find(|y| y.full() == x.full()).unwrap().clone(); kids.push(N::E(vary(ch, r, &p, &first))); } }
    N::C => {}
  } }
  a.kids = kids;
  // the order of elements of different names does not matter
  if ch.pct(20) { let names: Vec<String> = a.elems().iter().map(|x| x.full()).collect(); if names.len() > 1 && a.kids.iter().all(|k| matches!(k, N::E(_))) { a.kids.sort_by_key(|k| if let N::E(x) = k { std::cmp::Reverse(x.full()) } else { std::cmp::Reverse(String::new()) }); } }
  if !r.strict && !e.elems().is_empty() && ch.pct(15) && !r.typed(&Ref::sub(at, "zz-extra")) { a.kids.push(N::E(X { name: "zz-extra".into(), kids: vec![N::T("1".into())], ..X::default() })); }
  a
}
pub fn damage(ch: &mut Choices, x: &mut X, o: &mut Outcome) {
  let mut l = vec![];
  x.all(&mut l);
  // one element of the tree, which nothing else refers to meanwhile
  let i = ch.below(l.len());
  let x = unsafe { &mut *l[i] };
  match ch.below(11) {
    0 => { o.fault("element renamed"); x.name = ch.pick(ELEMS).to_string(); }
    1 => { o.fault("name space changed"); x.ns = if ch.pct(50) { None } else { Some(ch.below(2)) }; }
    2 => { o.fault("attribute added"); x.attrs.insert(ch.pick(ATTRS).to_string(), "zz".into()); }
    3 => { if let Some(k) = x.attrs.keys().next().cloned() { o.fault("attribute lost"); x.attrs.remove(&k); } }
    4 => { let ks: Vec<String> = x.attrs.keys().cloned().collect(); if !ks.is_empty() { o.fault("attribute changed"); let k = ch.pick(&ks).clone(); let v = bad_text(ch); x.attrs.insert(k, v); } }
    5 | 6 => { let i = x.kids.iter().position(|k| matches!(k, N::T(_))); o.fault("text changed"); let t = bad_text(ch); match i { Some(i) => x.kids[i] = N::T(t), None => x.kids.push(N::T(t)) } x.kids.retain(|k| !matches!(k, N::T(t) if t.is_empty())); }
    7 => { if !x.kids.is_empty() { o.fault("child lost"); let i = ch.below(x.kids.len()); x.kids.remove(i); join(x); } }
    8 => { let n = x.kids.iter().filter(|k| matches!(k, N::E(_))).count(); if n > 0 { o.fault("child doubled"); let i = x.kids.iter().position(|k| matches!(k, N::E(_))).unwrap(); let k = x.kids[i].clone(); x.kids.insert(i, k); } }
    9 => { o.fault("child added"); x.kids.push(N::E(X { name: ch.pick(ELEMS).to_string(), ..X::default() })); }
    _ => { if x.kids.len() > 1 { o.fault("children reordered"); x.kids.reverse(); join(x); } }
  }
}
/// texts that meet become one
fn join(x: &mut X) { let mut out: Vec<N> = vec![]; for k in std::mem::take(&mut x.kids) { match (out.last_mut(), k) { (Some(N::T(a)), N::T(b)) => a.push_str(&b), (_, k) => out.push(k) } } x.kids = out; }
fn bad_text(ch: &mut Choices) -> String { match ch.below(3) { 0 => some_text(ch, None), 1 => { let r = ch.pick(RE); ch.pick(r.2).to_string() } _ => ch.pick(TEXTS).to_string() } }

// ---- the places a path selects ----

/// A path expression selects the elements, attributes and texts it describes, in the order of the
/// document by name, and every place that is selected leads back to what is there.
pub fn places(ch: &mut Choices, host: &mut Host, o: &mut Outcome) {
  let mut g = Gen { rules: vec![], v2: false, v4: true };
  let mut x = tree(ch, &mut g, 3, &[], None);
  fn plain_ns(x: &mut X) { x.ns = None; for k in &mut x.kids { if let N::E(e) = k { plain_ns(e) } } }
  plain_ns(&mut x);
  fn one_text(x: &mut X) { for k in &mut x.kids { if let N::E(e) = k { one_text(e) } } }
  one_text(&mut x);
  // the parser of this part of the system is the kiss_xml crate: what it cannot read is left out
  let doc = write(ch, &x);
  if !doc.is_ascii() || doc.contains('&') || doc.contains("<![CDATA[") || doc.contains("<!--") { return }
  // a path: down the tree, with steps generalised
  let mut steps: Vec<(Option<String>, Option<usize>)> = vec![];
  let mut at = &x;
  let mut end: Option<String> = None;
  let other = |ch: &mut Choices, n: &str| if ch.pct(6) { "other".to_string() } else { n.to_string() };
  steps.push((Some(other(ch, &x.name)).filter(|_| !ch.pct(12)), if ch.pct(20) { Some(ch.below(2)) } else { None }));
  loop {
    let l = at.elems();
    if l.is_empty() || ch.pct(25) {
      if ch.pct(50) { end = Some(if ch.pct(50) { "#text".into() } else { match at.attrs.keys().next() { Some(k) if ch.pct(85) => format!("@{}", k), _ => "@zz".into() } }); }
      break
    }
    let k = *ch.pick(&l);
    let name = Some(other(ch, &k.name)).filter(|_| !ch.pct(25));
    let idx = if name.is_some() && ch.pct(30) { Some(ch.below(3)) } else { None };
    steps.push((name, idx));
    at = k;
  }
  if steps[0].0.is_none() { steps[0].1 = None; }
  let mut expr = "$".to_string();
  for (n, i) in &steps { match n { Some(n) if n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => expr.push_str(&format!(".{}", n)), Some(n) => expr.push_str(&format!("['{}']", n)), None => expr.push_str(".*") } if let Some(i) = i { expr.push_str(&format!("[{}]", i)); } }
  if let Some(e) = &end { expr.push_str(&format!("['{}']", e)); }
  // the reference
  fn walk(x: &X, i: usize, steps: &[(Option<String>, Option<usize>)], end: &Option<String>, at: String, out: &mut Vec<(String, String)>) {
    let (n, k) = &steps[0];
    if n.as_ref().is_some_and(|n| *n != x.name) || k.is_some_and(|k| k != i) { return }
    let at = format!("{}/{}[{}]", at, x.name, i);
    if steps.len() == 1 {
      match end.as_deref() {
        None => out.push((at, format!("element {} {:?}", x.name, x.attrs))),
        Some("#text") => { let t: String = x.kids.iter().filter_map(|k| if let N::T(t) = k { Some(t.clone()) } else { None }).collect(); if !t.is_empty() { out.push((format!("{}/#text", at), format!("text {}", t))) } }
        Some(a) => if let Some(v) = x.attrs.get(&a[1..]) { out.push((format!("{}/{}", at, a), format!("attribute {} {}", &a[1..], v))) }
      }
      return
    }
    for l in groups(&x.elems()).values() { for (j, e) in l.iter().enumerate() { walk(e, j, &steps[1..], end, at.clone(), out) } }
  }
  let mut want = vec![];
  walk(&x, 0, &steps, &end, String::new(), &mut want);
  let label = format!("{} in {}", expr, doc);
  let r = host.proc("places in XML", || -> Result<Vec<(String, String)>, String> {
    let d = kiss_xml::parse_str(&doc).map_err(|e| format!("the document does not parse: {}", e))?;
    let root = d.root_element();
    let p = DocPath::new(&expr).map_err(|e| format!("the path does not parse: {}", e))?;
    Ok(pact_models::xml_utils::resolve_path(root, &p).into_iter().map(|at| {
      use pact_models::xml_utils::XmlResult::*;
      let v = match pact_models::xml_utils::resolve_matching_node(root, &at) {
        None => "nothing".into(),
        Some(ElementNode(e)) => format!("element {} {:?}", e.name(), e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<String, String>>()),
        Some(TextNode(t)) => format!("text {}", t), Some(Attribute(k, v)) => format!("attribute {} {}", k, v)
      };
      (at, v)
    }).collect())
  });
  o.case = mix(o.case, hash_str(&label));
  o.sample = simcore::kernel::short(&label);
  match r {
    Err(p) => o.violate(panic_class(&p), format!("{}: {}", label, p)),
    Ok(Err(e)) => o.violate("xml-path:error", format!("{}: {}", label, e)),
    Ok(Ok(got)) => {
      o.digest = mix(o.digest, hash_str(&format!("{:?}", got)));
      let (a, b): (Vec<&String>, Vec<&String>) = (got.iter().map(|x| &x.0).collect(), want.iter().map(|x| &x.0).collect());
      if a != b { o.violate("xml-path:places", format!("{} selects {:?}, not {:?}", label, a, b)); }
      else if got != want { o.violate("xml-path:value", format!("{} selects {:?}, not {:?}", label, got, want)); }
      o.probe("places in XML");
      o.nontrivial |= !want.is_empty();
    }
  }
  if !o.violations.is_empty() { o.trace.push(label); }
}
#[allow(dead_code)]
fn _v(_: &Value) {}
