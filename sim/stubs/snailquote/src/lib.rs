//! Offline stand-in for snailquote: shell-like quoting and unquoting.
use std::borrow::Cow;
use std::fmt::{Display, Formatter};

pub fn escape(input: &str) -> Cow<'_, str> {
  let needs = input.is_empty() || input.chars().any(|c| !(c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '=' | '/' | ',' | '.' | '+' | ':' | '@')) );
  if !needs { return Cow::Borrowed(input) }
  let double = input.chars().any(|c| c == '\'' || c.is_control());
  let mut out = String::with_capacity(input.len() + 2);
  if double {
    out.push('"');
    for c in input.chars() {
      match c {
        '"' => out.push_str("\\\""),
        '\\' => out.push_str("\\\\"),
        '\n' => out.push_str("\\n"),
        '\r' => out.push_str("\\r"),
        '\t' => out.push_str("\\t"),
        c if c.is_control() => out.push_str(&format!("\\u{{{:x}}}", c as u32)),
        c => out.push(c)
      }
    }
    out.push('"');
  } else {
    out.push('\'');
    out.push_str(input);
    out.push('\'');
  }
  Cow::Owned(out)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct UnescapeError(String);
impl Display for UnescapeError {
  fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for UnescapeError {}

pub fn unescape(s: &str) -> Result<String, UnescapeError> {
  let mut out = String::with_capacity(s.len());
  let mut it = s.chars().peekable();
  let mut quote: Option<char> = None;
  while let Some(c) = it.next() {
    match (quote, c) {
      (Some(q), c) if c == q => quote = None,
      (None, '\'') | (None, '"') => quote = Some(c),
      (Some('\''), c) => out.push(c),
      (_, '\\') => match it.next() {
        Some('n') => out.push('\n'),
        Some('r') => out.push('\r'),
        Some('t') => out.push('\t'),
        Some('u') => {
          if it.next() != Some('{') { return Err(UnescapeError("invalid unicode escape".into())) }
          let mut hex = String::new();
          for c in it.by_ref() { if c == '}' { break } hex.push(c); }
          out.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).ok_or_else(|| UnescapeError("invalid unicode escape".into()))?);
        }
        Some(c) => out.push(c),
        None => return Err(UnescapeError("trailing backslash".into()))
      },
      (_, c) => out.push(c)
    }
  }
  Ok(out)
}
