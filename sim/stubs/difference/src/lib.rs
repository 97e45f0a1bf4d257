//! Offline stand-in for the difference crate: a longest-common-subsequence text diff.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Difference { Same(String), Add(String), Rem(String) }

#[derive(Debug, Clone)]
pub struct Changeset { pub diffs: Vec<Difference>, pub split: String, pub distance: i32 }

impl Changeset {
  pub fn new(orig: &str, edit: &str, split: &str) -> Changeset {
    let parts = |s: &str| -> Vec<String> {
      if split.is_empty() { s.chars().map(|c| c.to_string()).collect() } else { s.split(split).map(|s| s.to_string()).collect() }
    };
    let (a, b) = (parts(orig), parts(edit));
    let mut t = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() {
      for j in (0..b.len()).rev() {
        t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
      }
    }
    let (mut i, mut j, mut distance) = (0, 0, 0);
    let mut diffs: Vec<(u8, Vec<String>)> = vec![];
    let mut push = |k: u8, s: &String| match diffs.last_mut() {
      Some((kk, v)) if *kk == k => v.push(s.clone()),
      _ => diffs.push((k, vec![s.clone()]))
    };
    while i < a.len() || j < b.len() {
      if i < a.len() && j < b.len() && a[i] == b[j] { push(0, &a[i]); i += 1; j += 1; }
      else if i < a.len() && (j >= b.len() || t[i + 1][j] >= t[i][j + 1]) { push(2, &a[i]); i += 1; distance += 1; }
      else { push(1, &b[j]); j += 1; distance += 1; }
    }
    let diffs = diffs.into_iter().map(|(k, v)| {
      let s = v.join(split);
      match k { 0 => Difference::Same(s), 1 => Difference::Add(s), _ => Difference::Rem(s) }
    }).collect();
    Changeset { diffs, split: split.to_string(), distance }
  }
}

impl std::fmt::Display for Changeset {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    for d in &self.diffs {
      match d {
        Difference::Same(x) => write!(f, "{}{}", x, self.split)?,
        Difference::Add(x) => write!(f, "+{}{}", x, self.split)?,
        Difference::Rem(x) => write!(f, "-{}{}", x, self.split)?
      }
    }
    Ok(())
  }
}
