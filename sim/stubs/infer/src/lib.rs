//! Offline stand-in for the infer crate: detects a few common magic numbers.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Type { mime: &'static str, ext: &'static str }
impl Type {
  pub fn mime_type(&self) -> &'static str { self.mime }
  pub fn extension(&self) -> &'static str { self.ext }
}
pub fn get(b: &[u8]) -> Option<Type> {
  let t = |mime, ext| Some(Type { mime, ext });
  if b.starts_with(&[0xff, 0xd8, 0xff]) { t("image/jpeg", "jpg") }
  else if b.starts_with(&[0x89, b'P', b'N', b'G']) { t("image/png", "png") }
  else if b.starts_with(b"GIF8") { t("image/gif", "gif") }
  else if b.starts_with(b"%PDF") { t("application/pdf", "pdf") }
  else if b.starts_with(&[b'P', b'K', 3, 4]) { t("application/zip", "zip") }
  else if b.starts_with(&[0x1f, 0x8b, 8]) { t("application/gzip", "gz") }
  else if b.starts_with(b"<?xml") { t("text/xml", "xml") }
  else { None }
}
