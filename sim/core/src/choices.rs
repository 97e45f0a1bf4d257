//! Every decision of a run (workload, schedule, faults) is drawn from a choice sequence. In
//! search mode the sequence comes from a PRNG initialised from the seed and is recorded, in replay
//! mode it is read from a file; a missing choice reads as 0, which is always the simplest one.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug)]
pub struct Rng { s: u64 }
impl Rng {
  pub fn new(seed: u64) -> Rng { Rng { s: seed ^ 0x9E37_79B9_7F4A_7C15 } }
  pub fn next(&mut self) -> u64 {
    self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { self.next() % n } }
  pub fn fill(&mut self, buf: &mut [u8]) {
    for chunk in buf.chunks_mut(8) {
      let v = self.next().to_le_bytes();
      chunk.copy_from_slice(&v[..chunk.len()]);
    }
  }
}

pub fn mix(a: u64, b: u64) -> u64 {
  let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b);
  r.next(); r.next()
}
pub fn hash_str(s: &str) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
  h
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stream { Work = 0, Sched = 1, Fault = 2 }
pub const STREAMS: usize = 3;

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Recorded { pub streams: Vec<Vec<u64>> }
impl Recorded {
  pub fn len(&self) -> usize { self.streams.iter().map(|s| s.len()).sum() }
}

pub struct Choices {
  rngs: Vec<Rng>,
  pub rec: Vec<Vec<u64>>,
  replay: Option<Vec<Vec<u64>>>,
  pub tier: u64,
}

impl Choices {
  pub fn search(seed: u64) -> Choices {
    Choices {
      rngs: (0..STREAMS).map(|i| Rng::new(mix(seed, 0x1000 + i as u64))).collect(),
      rec: vec![vec![]; STREAMS], replay: None, tier: 0,
    }
  }
  pub fn replay(r: &Recorded) -> Choices {
    let mut streams = r.streams.clone();
    streams.resize(STREAMS, vec![]);
    Choices { rngs: (0..STREAMS).map(|_| Rng::new(0)).collect(), rec: vec![vec![]; STREAMS], replay: Some(streams), tier: 0 }
  }
  pub fn recorded(&self) -> Recorded { Recorded { streams: self.rec.clone() } }
  /// Draws a value in 0..bound; `gen` decides the distribution in search mode.
  pub fn draw_with(&mut self, s: Stream, bound: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
    let i = s as usize;
    let bound = bound.max(1);
    let v = match &self.replay {
      Some(r) => r[i].get(self.rec[i].len()).copied().unwrap_or(0).min(bound - 1),
      None => gen(&mut self.rngs[i]).min(bound - 1),
    };
    self.rec[i].push(v);
    v
  }
  pub fn draw(&mut self, s: Stream, bound: u64) -> u64 { self.draw_with(s, bound, |r| r.below(bound)) }

  // workload conveniences
  pub fn below(&mut self, n: usize) -> usize { self.draw(Stream::Work, n as u64) as usize }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.draw(Stream::Work, (hi - lo + 1) as u64) as i64 }
  pub fn u64(&mut self) -> u64 { self.draw_with(Stream::Work, u64::MAX, |r| r.next()) }
  /// True with the given percentage; false is the simple choice.
  pub fn pct(&mut self, p: u64) -> bool { self.draw_with(Stream::Work, 2, |r| (r.below(100) < p) as u64) == 1 }
  pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { let i = self.below(items.len()); &items[i] }
  /// Geometric-ish small count in lo..=hi.
  pub fn count(&mut self, lo: usize, hi: usize) -> usize {
    let n = (hi - lo + 1) as u64;
    lo + self.draw_with(Stream::Work, n, |r| { let a = r.below(n); let b = r.below(n); a.min(b) }) as usize
  }
  pub fn fault_pct(&mut self, p: u64) -> bool { self.draw_with(Stream::Fault, 2, |r| (r.below(100) < p) as u64) == 1 }
  pub fn fault_permille(&mut self, p: u64) -> bool { self.draw_with(Stream::Fault, 2, |r| (r.below(1000) < p) as u64) == 1 }
  pub fn fault(&mut self, n: usize) -> usize { self.draw(Stream::Fault, n as u64) as usize }
}
