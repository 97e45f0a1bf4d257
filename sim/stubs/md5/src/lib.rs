//! Offline stand-in for the md5 crate: a one-way digest with the same interface. Only used for
//! the anonymous metrics client ID, so any stable digest will do.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Digest(pub [u8; 16]);
impl std::fmt::LowerHex for Digest {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    for b in &self.0 { write!(f, "{:02x}", b)? }
    Ok(())
  }
}
pub fn compute<T: AsRef<[u8]>>(data: T) -> Digest {
  let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
  for b in data.as_ref() { h = (h ^ *b as u128).wrapping_mul(0x0000000001000000000000000000013b); }
  Digest(h.to_be_bytes())
}
