//! Offline stand-in for tree_magic_mini: text or binary.
pub fn from_u8(bytes: &[u8]) -> &'static str {
  match std::str::from_utf8(bytes) {
    Ok(s) if !s.chars().any(|c| c.is_control() && !matches!(c, '\n' | '\r' | '\t')) => "text/plain",
    _ => "application/octet-stream"
  }
}
