//! A small reference calendar and reference time zones, independent of the code under test.
pub const NS: i128 = 1_000_000_000;
pub const DAY: i128 = 86_400;

pub fn days_from_civil(y: i128, m: i128, d: i128) -> i128 {
  let y = if m <= 2 { y - 1 } else { y };
  let era = y.div_euclid(400);
  let yoe = y - era * 400;
  let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
  era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}
pub fn civil(days: i128) -> (i128, i128, i128) {
  let z = days + 719_468;
  let era = z.div_euclid(146_097);
  let doe = z - era * 146_097;
  let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let d = doy - (153 * mp + 2) / 5 + 1;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  (yoe + era * 400 + (m <= 2) as i128, m, d)
}
pub fn leap(y: i128) -> bool { y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0) }
pub fn month_len(y: i128, m: i128) -> i128 { match m { 2 => 28 + leap(y) as i128, 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// 0 is Monday
pub fn weekday(days: i128) -> i128 { (days + 3).rem_euclid(7) }

#[derive(Clone, Copy)]
pub struct Rule { pub month: i128, pub week: i128, pub time: i128 }
#[derive(Clone, Copy)]
pub struct Zone { pub posix: &'static str, pub std: i128, pub dst: Option<(i128, Rule, Rule)> }

pub const ZONES: &[Zone] = &[
  Zone { posix: "UTC0", std: 0, dst: None },
  Zone { posix: "<+0530>-5:30", std: 19_800, dst: None },
  Zone { posix: "<+14>-14", std: 50_400, dst: None },
  Zone { posix: "<-12>12", std: -43_200, dst: None },
  Zone { posix: "<+1513>-15:13", std: 54_780, dst: None },
  Zone { posix: "<-1556>15:56", std: -57_360, dst: None },
  Zone { posix: "CET-1CEST,M3.5.0,M10.5.0/3", std: 3600, dst: Some((7200, Rule { month: 3, week: 5, time: 7200 }, Rule { month: 10, week: 5, time: 10_800 })) },
  Zone { posix: "EST5EDT,M3.2.0,M11.1.0", std: -18_000, dst: Some((-14_400, Rule { month: 3, week: 2, time: 7200 }, Rule { month: 11, week: 1, time: 7200 })) },
  Zone { posix: "<-03>3<-02>,M10.3.0/0,M2.3.0/0", std: -10_800, dst: Some((-7200, Rule { month: 10, week: 3, time: 0 }, Rule { month: 2, week: 3, time: 0 })) },
  Zone { posix: "AEST-10AEDT,M10.1.0,M4.1.0/3", std: 36_000, dst: Some((39_600, Rule { month: 10, week: 1, time: 7200 }, Rule { month: 4, week: 1, time: 10_800 })) },
  Zone { posix: "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", std: 45_900, dst: Some((49_500, Rule { month: 9, week: 5, time: 9900 }, Rule { month: 4, week: 1, time: 13_500 })) },
];

impl Rule {
  /// local time (seconds) of the transition in a year
  pub fn at(&self, y: i128) -> i128 {
    let first = days_from_civil(y, self.month, 1);
    let mut d = first + (6 - weekday(first)).rem_euclid(7) + 7 * (self.week - 1);
    while d >= first + month_len(y, self.month) { d -= 7; }
    d * DAY + self.time
  }
}
impl Zone {
  pub fn offset(&self, utc: i128) -> i128 {
    match self.dst {
      None => self.std,
      Some((dst, on, off)) => {
        let (y, _, _) = civil((utc + self.std).div_euclid(DAY));
        let (a, b) = (on.at(y) - self.std, off.at(y) - dst);
        let summer = if a < b { utc >= a && utc < b } else { !(utc >= b && utc < a) };
        if summer { dst } else { self.std }
      }
    }
  }
  /// all instants that may be meant by a local time: one, two in a repeated hour; in a skipped hour the readings with either offset and the end of the gap
  pub fn instants(&self, local: i128) -> Vec<i128> {
    let Some((dst, on, _)) = self.dst else { return vec![local - self.std] };
    let both = [local - self.std, local - dst];
    let mut v: Vec<i128> = both.iter().cloned().filter(|u| u + self.offset(*u) == local).collect();
    if v.is_empty() { let (y, _, _) = civil(local.div_euclid(DAY)); v = both.to_vec(); v.push(on.at(y) - self.std); }
    v.dedup();
    v
  }
  /// whether the local time is the very instant of a change of the clocks (in either offset)
  pub fn on_the_edge(&self, local: i128) -> bool {
    let Some((dst, on, off)) = self.dst else { return false };
    let (y, _, _) = civil(local.div_euclid(DAY));
    [on, off].iter().any(|r| [0, dst - self.std, self.std - dst].contains(&(r.at(y) - local)))
  }
  /// a version 2 zone file whose footer is the rule
  pub fn file(&self) -> Vec<u8> {
    let mut block = b"TZif2".to_vec();
    block.extend([0u8; 15]);
    for n in [0u32, 0, 0, 0, 1, 4] { block.extend(n.to_be_bytes()); }
    block.extend(0i32.to_be_bytes());
    block.extend([0, 0]);
    block.extend(b"UTC\0");
    let mut f = block.clone();
    f.extend(&block);
    f.extend(format!("\n{}\n", self.posix).bytes());
    f
  }
}
pub fn year_text(y: i128) -> String { if (0..=9999).contains(&y) { format!("{:04}", y) } else { format!("{:+05}", y) } }
/// (date, h, m, s, nanos) of an instant in a zone
pub fn local(z: &Zone, ns: i128) -> ((i128, i128, i128), i128, i128, i128, i128, i128) {
  let s = ns.div_euclid(NS);
  let l = s + z.offset(s);
  let t = l.rem_euclid(DAY);
  (civil(l.div_euclid(DAY)), t / 3600, t / 60 % 60, t % 60, ns.rem_euclid(NS), z.offset(s))
}
pub fn offset_text(off: i128, colon: bool) -> String {
  format!("{}{:02}{}{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 3600, if colon { ":" } else { "" }, off.abs() / 60 % 60)
}
