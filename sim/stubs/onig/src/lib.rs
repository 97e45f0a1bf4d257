//! Offline stand-in for the onig crate (Oniguruma bindings): the part of its API that Pact uses,
//! on top of fancy-regex. `is_match` keeps Oniguruma's meaning: the match starts at the start of
//! the text and has to cover all of it.
use std::borrow::Cow;
use std::fmt::{Display, Formatter};

#[derive(Debug, Clone)]
pub struct Error(String);
impl Error {
  pub fn description(&self) -> &str { &self.0 }
  pub fn code(&self) -> i32 { -1 }
}
impl Display for Error {
  fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "Oniguruma error: {}", self.0) }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Regex { re: fancy_regex::Regex, anchored: fancy_regex::Regex }

impl Regex {
  pub fn new(pattern: &str) -> Result<Regex, Error> {
    let re = fancy_regex::Regex::new(pattern).map_err(|e| Error(e.to_string()))?;
    let anchored = fancy_regex::Regex::new(&format!(r"\A(?:{})\z", pattern)).map_err(|e| Error(e.to_string()))?;
    Ok(Regex { re, anchored })
  }

  pub fn is_match(&self, text: &str) -> bool {
    self.anchored.is_match(text).unwrap_or(false)
  }

  pub fn find(&self, text: &str) -> Option<(usize, usize)> {
    self.re.find(text).ok().flatten().map(|m| (m.start(), m.end()))
  }

  pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
    self.re.captures(text).ok().flatten().map(Captures)
  }

  pub fn find_iter<'r, 't>(&'r self, text: &'t str) -> impl Iterator<Item = (usize, usize)> + use<'r, 't> {
    self.re.find_iter(text).filter_map(|m| m.ok()).map(|m| (m.start(), m.end()))
  }

  pub fn captures_iter<'r, 't>(&'r self, text: &'t str) -> impl Iterator<Item = Captures<'t>> + use<'r, 't> {
    self.re.captures_iter(text).filter_map(|m| m.ok()).map(Captures)
  }

  pub fn replace<R: Replacer>(&self, text: &str, rep: R) -> String { self.replacen(text, 1, rep) }
  pub fn replace_all<R: Replacer>(&self, text: &str, rep: R) -> String { self.replacen(text, 0, rep) }
  pub fn replacen<R: Replacer>(&self, text: &str, limit: usize, mut rep: R) -> String {
    let mut out = String::with_capacity(text.len());
    let mut last = 0;
    for (i, cap) in self.captures_iter(text).enumerate() {
      if limit > 0 && i >= limit { break; }
      let (s, e) = cap.pos(0).unwrap();
      out.push_str(&text[last..s]);
      out.push_str(&rep.reg_replace(&cap));
      last = e;
    }
    out.push_str(&text[last..]);
    out
  }
}

#[derive(Debug)]
pub struct Captures<'t>(fancy_regex::Captures<'t>);
impl<'t> Captures<'t> {
  pub fn pos(&self, i: usize) -> Option<(usize, usize)> { self.0.get(i).map(|m| (m.start(), m.end())) }
  pub fn at(&self, i: usize) -> Option<&'t str> { self.0.get(i).map(|m| m.as_str()) }
  pub fn len(&self) -> usize { self.0.len() }
  pub fn is_empty(&self) -> bool { self.0.len() == 0 }
  pub fn iter<'c>(&'c self) -> impl Iterator<Item = Option<&'t str>> + use<'c, 't> { (0..self.0.len()).map(move |i| self.at(i)) }
}

pub trait Replacer {
  fn reg_replace(&mut self, caps: &Captures<'_>) -> Cow<'_, str>;
}
impl<'t> Replacer for &'t str {
  fn reg_replace(&mut self, _: &Captures<'_>) -> Cow<'_, str> { Cow::Borrowed(self) }
}
impl<F> Replacer for F where F: FnMut(&Captures<'_>) -> String {
  fn reg_replace(&mut self, caps: &Captures<'_>) -> Cow<'_, str> { Cow::Owned(self(caps)) }
}

/// Oniguruma's abstraction over encoded text.
pub trait EncodedChars {
  fn start_ptr(&self) -> *const u8;
  fn limit_ptr(&self) -> *const u8;
  fn len(&self) -> usize;
  fn is_empty(&self) -> bool { self.len() == 0 }
}
impl<T> EncodedChars for T where T: AsRef<str> {
  fn start_ptr(&self) -> *const u8 { self.as_ref().as_bytes().as_ptr() }
  fn limit_ptr(&self) -> *const u8 { self.as_ref().as_bytes().as_ptr_range().end }
  fn len(&self) -> usize { self.as_ref().len() }
}
