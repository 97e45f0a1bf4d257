//! C08: date and time expressions follow the calendar at every instant.
use std::collections::HashMap;

use chrono::{DateTime, FixedOffset, Local, TimeZone, Utc};
use pact_models::generators::datetime_expressions::{execute_date_expression, execute_datetime_expression, execute_time_expression};
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use serde_json::{json, Value};
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::cal::*;
use crate::procs::Host;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Word(&'static str), Num(u64) }
const DATE_WORDS: &[&str] = &["now", "today", "yesterday", "tomorrow", "+", "-", "next", "last", "days", "day", "weeks", "week", "months", "month", "years", "year", "fortnight",
  "monday", "mon", "tuesday", "tues", "wednesday", "wed", "thursday", "thurs", "friday", "fri", "saturday", "sat", "sunday", "sun",
  "january", "jan", "february", "feb", "march", "mar", "april", "apr", "may", "june", "jun", "july", "jul", "august", "aug", "september", "sep", "october", "oct", "november", "nov", "december", "dec"];
const TIME_WORDS: &[&str] = &["now", "midnight", "noon", "o'clock", "am", "pm", "+", "-", "next", "last", "hours", "hour", "minutes", "minute", "seconds", "second", "milliseconds", "millisecond"];

/// longest match tokens
fn tokens(text: &str, words: &[&'static str]) -> Option<Vec<Tok>> {
  let mut out = vec![];
  let mut rest = text.trim_start_matches([' ', '\t', '\n', '\x0c']);
  while !rest.is_empty() {
    let digits = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
    if digits > 0 { out.push(Tok::Num(rest[..digits].parse().ok()?)); rest = &rest[digits..]; }
    else { let w = words.iter().filter(|w| rest.starts_with(**w)).max_by_key(|w| w.len())?; out.push(Tok::Word(w)); rest = &rest[w.len()..]; }
    rest = rest.trim_start_matches([' ', '\t', '\n', '\x0c']);
  }
  Some(out)
}
const WEEKDAYS: &[&str] = &["mon", "tue", "wed", "thu", "fri", "sat", "sun"];
const MONTHS: &[&str] = &["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"];

/// the instants (ns since the epoch) an expression may denote
pub struct Place<'a> { pub zone: &'a Zone, pub at: Vec<i128>, pub left_range: bool, pub edge: bool }
fn year_of(days: i128) -> i128 { civil(days).0 }
const MAX_YEAR: i128 = 262_100;

impl Place<'_> {
  fn dates(&mut self, f: impl Fn(i128) -> i128) {
    let z = self.zone;
    let mut edge = false;
    let mut next: Vec<i128> = self.at.iter().flat_map(|ns| {
      let s = ns.div_euclid(NS);
      let l = s + z.offset(s);
      let l = f(l.div_euclid(DAY)) * DAY + l.rem_euclid(DAY);
      edge |= z.on_the_edge(l);
      z.instants(l).into_iter().map(|u| u * NS + ns.rem_euclid(NS)).collect::<Vec<_>>()
    }).collect();
    next.sort(); next.dedup();
    self.at = next;
    self.edge |= edge;
    self.note();
  }
  fn hour(&mut self, f: impl Fn(i128) -> i128) {
    let z = self.zone;
    let mut edge = false;
    let mut next: Vec<i128> = self.at.iter().flat_map(|ns| {
      let s = ns.div_euclid(NS);
      let l = s + z.offset(s);
      let l = l.div_euclid(DAY) * DAY + f(l.rem_euclid(DAY) / 3600) * 3600;
      edge |= z.on_the_edge(l);
      z.instants(l).into_iter().map(|u| u * NS).collect::<Vec<_>>()
    }).collect();
    next.sort(); next.dedup();
    self.at = next;
    self.edge |= edge;
  }
  fn plus(&mut self, ns: i128) { for a in self.at.iter_mut() { *a += ns; } self.note(); }
  fn note(&mut self) { if self.at.iter().any(|a| year_of(a.div_euclid(NS * DAY)).abs() > MAX_YEAR) { self.left_range = true; } }

  /// None when the expression is malformed
  pub fn date(&mut self, text: &str) -> Option<()> {
    if text.is_empty() { return Some(()) }
    let t = tokens(text, DATE_WORDS)?;
    let mut i = 1;
    match t.first()? {
      Tok::Word("now") | Tok::Word("today") => {}
      Tok::Word("yesterday") => self.dates(|d| d - 1),
      Tok::Word("tomorrow") => self.dates(|d| d + 1),
      Tok::Word(w) if *w == "next" || *w == "last" => {
        let s = if *w == "next" { 1 } else { -1 };
        let Tok::Word(unit) = t.get(1)? else { return None };
        let head = if unit.starts_with("month") { "" } else { &unit[..3.min(unit.len())] };
        if let Some(wd) = WEEKDAYS.iter().position(|x| *x == head) {
          self.dates(|d| (1..=7).map(|k| d + s * k).find(|d| weekday(*d) == wd as i128).unwrap());
        } else if let Some(m) = MONTHS.iter().position(|x| *x == head) {
          let m = m as i128 + 1;
          self.dates(|d| { let (y, cm, _) = civil(d); let y = if s > 0 { if m > cm { y } else { y + 1 } } else if m < cm { y } else { y - 1 };
            days_from_civil(y, m, 1) });
        } else { match *unit { "day" => self.shift("days", s), "week" => self.shift("weeks", s), "month" => self.shift("months", s), "year" => self.shift("years", s), "fortnight" => self.shift("weeks", 2 * s), _ => return None } }
        i = 2;
      }
      Tok::Word("+") | Tok::Word("-") => i = 0,
      _ => return None
    }
    while i < t.len() {
      let s = match t[i] { Tok::Word("+") => 1, Tok::Word("-") => -1, _ => return None };
      let Tok::Num(n) = t.get(i + 1)? else { return None };
      let Tok::Word(u) = t.get(i + 2)? else { return None };
      let u = match *u { "day" | "days" => "days", "week" | "weeks" => "weeks", "month" | "months" => "months", "year" | "years" => "years", _ => return None };
      self.shift(u, s * *n as i128);
      i += 3;
    }
    Some(())
  }
  fn shift(&mut self, unit: &str, n: i128) {
    match unit {
      "days" => self.dates(|d| d + n),
      "weeks" => self.dates(|d| d + 7 * n),
      _ => { let n = if unit == "years" { n * 12 } else { n };
        self.dates(|d| { let (y, m, day) = civil(d); let t = y * 12 + m - 1 + n; let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1); days_from_civil(y, m, day.min(month_len(y, m))) }) }
    }
  }
  pub fn time(&mut self, text: &str) -> Option<()> {
    if text.is_empty() { return Some(()) }
    let t = tokens(text, TIME_WORDS)?;
    let mut i = 1;
    match t.first()? {
      Tok::Word("now") => {}
      Tok::Word("midnight") => self.hour(|_| 0),
      Tok::Word("noon") => self.hour(|_| 12),
      Tok::Num(h) => {
        if t.get(1)? != &Tok::Word("o'clock") || !(1..=12).contains(h) { return None }
        let h = *h as i128;
        let pm = if h == 12 { 12 } else { h + 12 };
        i = 3;
        match t.get(2) { Some(Tok::Word("am")) => self.hour(|_| h), Some(Tok::Word("pm")) => self.hour(|_| pm), _ => { i = 2; self.hour(|now| if now < 12 { pm } else { h }) } }
      }
      Tok::Word(w) if *w == "next" || *w == "last" => {
        let Tok::Word(u) = t.get(1)? else { return None };
        self.plus(unit(u)? * if *w == "next" { 1 } else { -1 });
        i = 2;
      }
      Tok::Word("+") | Tok::Word("-") => i = 0,
      _ => return None
    }
    while i < t.len() {
      let s = match t[i] { Tok::Word("+") => 1, Tok::Word("-") => -1, _ => return None };
      let Tok::Num(n) = t.get(i + 1)? else { return None };
      let Tok::Word(u) = t.get(i + 2)? else { return None };
      self.plus(unit(u)? * s * *n as i128);
      i += 3;
    }
    Some(())
  }
  pub fn date_time(&mut self, text: &str) -> Option<()> {
    match text.split_once('@') { Some((d, t)) => { self.date(d)?; self.time(t) } None => self.date(text) }
  }
}
fn unit(w: &str) -> Option<i128> {
  Some(match w { "hour" | "hours" => 3600 * NS, "minute" | "minutes" => 60 * NS, "second" | "seconds" => NS, "millisecond" | "milliseconds" => 1_000_000, _ => return None })
}
/// parts that are blank, "next hours" and the like are not specified
fn unspecified(text: &str, kind: usize) -> bool {
  let blank = |s: &str| !s.is_empty() && s.trim().is_empty();
  let plural = |s: &str| tokens(s, TIME_WORDS).is_some_and(|t| t.len() > 1 && matches!(&t[0], Tok::Word("next") | Tok::Word("last")) && matches!(&t[1], Tok::Word(w) if w.ends_with('s')));
  match kind { 2 => match text.split_once('@') { Some((d, t)) => blank(d) || blank(t) || plural(t), None => blank(text) }, 1 => blank(text) || plural(text), _ => blank(text) }
}

fn number(ch: &mut Choices) -> String {
  match ch.below(8) { 0 => "0".into(), 1 | 2 => ch.range(1, 3).to_string(), 3 => ch.range(1, 60).to_string(), 4 => ch.range(1, 1000).to_string(), 5 => "007".into(), 6 => ch.range(1, 3_000_000).to_string(),
    _ => ch.pick(&["2147483647", "2147483648", "4294967296", "100000000000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "106751991167300", "300000", "768614336404564651"]).to_string() }
}
fn glue(ch: &mut Choices, parts: &[String]) -> String {
  let sep = *ch.pick(&[" ", " ", "", "  ", "\t", "\n "]);
  parts.join(sep)
}
fn ops(ch: &mut Choices, units: &[&str], out: &mut Vec<String>, min: usize) {
  for _ in 0..ch.count(min, 3) { out.push(ch.pick(&["+", "-"]).to_string()); out.push(number(ch)); out.push(ch.pick(units).to_string()); }
}
pub fn date_expr(ch: &mut Choices) -> String {
  let mut p: Vec<String> = vec![];
  const UNITS: &[&str] = &["day", "days", "week", "weeks", "month", "months", "year", "years"];
  match ch.below(6) {
    0 => return String::new(),
    1 => ops(ch, UNITS, &mut p, 1),
    2 => { p.push(ch.pick(&["now", "today", "yesterday", "tomorrow"]).to_string()); ops(ch, UNITS, &mut p, 0); }
    3 => { p.push(ch.pick(&["next", "last"]).to_string()); p.push(ch.pick(&["day", "week", "month", "year", "fortnight"]).to_string()); ops(ch, UNITS, &mut p, 0); }
    _ => { p.push(ch.pick(&["next", "last"]).to_string()); let i = 17 + ch.below(DATE_WORDS.len() - 17); p.push(DATE_WORDS[i].to_string()); ops(ch, UNITS, &mut p, 0); }
  }
  glue(ch, &p)
}
pub fn time_expr(ch: &mut Choices) -> String {
  let mut p: Vec<String> = vec![];
  const UNITS: &[&str] = &["hour", "hours", "minute", "minutes", "second", "seconds", "millisecond", "milliseconds"];
  match ch.below(6) {
    0 => return String::new(),
    1 => ops(ch, UNITS, &mut p, 1),
    2 => { p.push(ch.pick(&["now", "midnight", "noon"]).to_string()); ops(ch, UNITS, &mut p, 0); }
    3 => { p.push(ch.pick(&["next", "last"]).to_string()); p.push(ch.pick(&["hour", "minute", "second", "millisecond"]).to_string()); ops(ch, UNITS, &mut p, 0); }
    _ => { p.push(ch.range(0, 13).to_string()); p.push("o'clock".into()); match ch.below(3) { 0 => p.push("am".into()), 1 => p.push("pm".into()), _ => {} } ops(ch, UNITS, &mut p, 0); }
  }
  glue(ch, &p)
}
fn damage(ch: &mut Choices, s: &str) -> String {
  let mut c: Vec<char> = s.chars().collect();
  let junk = ["x", "\u{e9}", "@", "+", "-", "'", "1", "day", "next", "\u{1F600}", "\0", ".", "hour", "S", "\r", "o'clock", "%", "am"];
  for _ in 0..ch.count(1, 3) {
    match ch.below(4) {
      0 if !c.is_empty() => { let i = ch.below(c.len()); c.remove(i); }
      1 if !c.is_empty() => { let i = ch.below(c.len()); c.truncate(i); }
      2 if c.len() > 1 => { let i = ch.below(c.len() - 1); c.swap(i, i + 1); }
      _ => { let i = ch.below(c.len() + 1); let j: Vec<char> = ch.pick(&junk).chars().collect(); for x in j.into_iter().rev() { c.insert(i, x); } }
    }
  }
  c.into_iter().collect()
}
/// an instant (ns) around something that matters in the calendar
pub fn instant(ch: &mut Choices, z: &Zone, any_year: bool) -> i128 {
  let y = if any_year { *ch.pick(&[2000i128, 1999, 1900, 1600, 4, 1, 0, -1, -400, 9999, 10_000, 2100, 2024, 250_000, -250_000]) } else { *ch.pick(&[2025i128, 2000, 1970, 1971, 2024, 2023, 2027, 2100, 2038, 2250, 2026, 2020, 2096, 2104]) };
  let day = match if z.dst.is_some() && ch.pct(50) { 3 } else { ch.below(7) } {
    0 => { let m = ch.range(1, 12) as i128; days_from_civil(y, m, month_len(y, m)) }
    1 => days_from_civil(y, 2, 28) + ch.range(-1, 2) as i128,
    2 => days_from_civil(y, 1, 1) + ch.range(if y == 1970 { 0 } else { -2 }, 8) as i128,
    3 | 4 if z.dst.is_some() => { let (_, on, off) = z.dst.unwrap(); let r = if ch.pct(50) { on } else { off }; r.at(y).div_euclid(DAY) + ch.range(-7, 7) as i128 }
    5 => days_from_civil(y, 12, 31) - ch.range(0, 7) as i128,
    _ => days_from_civil(y, 1, 1) + ch.range(0, 364) as i128
  };
  let tod = match ch.below(5) { 0 => 0, 1 => 86_399, 2 => ch.range(0, 23) as i128 * 3600, 3 => ch.range(0, 4 * 60) as i128 * 60, _ => ch.range(0, 86_399) as i128 };
  let ns = match ch.below(5) { 0 => 0, 1 => 999_999_999, 2 => ch.range(0, 999) as i128 * 1_000_000, 3 => ch.range(0, 999_999) as i128 * 1000, _ => ch.range(0, 999_999_999) as i128 };
  let s = z.instants(day * DAY + tod)[0];
  (s * NS).max(if any_year { i128::MIN } else { 0 }) + ns
}
pub fn rfc3339(ns: i128, off: i128) -> String {
  let z = Zone { posix: "", std: off, dst: None };
  let ((y, m, d), h, mi, s, n, _) = local(&z, ns);
  format!("{}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}{}", year_text(y), m, d, h, mi, s, n, offset_text(off, true))
}
fn run<Tz: TimeZone>(dt: &DateTime<Tz>, e: &str, kind: usize) -> Result<i128, String> {
  let r = match kind { 0 => execute_date_expression(dt, e), 1 => execute_time_expression(dt, e), _ => execute_datetime_expression(dt, e) };
  r.map(|d| d.timestamp() as i128 * NS + d.timestamp_subsec_nanos() as i128).map_err(|e| e.to_string())
}
pub fn as_text(g: &Generator, how: usize, ctx: &HashMap<&str, Value>) -> Result<String, String> {
  let m: Box<dyn VariantMatcher + Send + Sync> = NoopVariantMatcher.boxed();
  let e = |e: anyhow::Error| format!("{:#}", e);
  match how {
    0 => g.generate_value(&"example".to_string(), ctx, &m).map_err(e),
    1 => g.generate_value(&json!("example"), ctx, &m).map_err(e).and_then(|v| v.as_str().map(|s| s.to_string()).ok_or(format!("{} is no string", v))),
    _ => g.generate_value(&vec!["a".to_string()], ctx, &m).map_err(e).map(|v: Vec<String>| v.join("|"))
  }
}
#[derive(Debug)]
enum Got { At(i128), Text(String) }

/// steps of the wall clock, and after which of its readings they happen
pub const JUMPS: &[i64] = &[1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, -1_000_000_000, -3_600_000_000_000, -86_400_000_000_000, 31_622_400_000_000_000];
pub const JUMP_AT: &[i64] = &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];

pub fn c08(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let mut host = Host::new(ch);
  host.flaky = 0;
  let zone = ch.pick(ZONES);
  host.fs.put("/etc/localtime", &zone.file());
  for k in 0..ch.count(2, 8) {
    let kind = ch.below(3);
    let mut expr = match kind { 0 => date_expr(ch), 1 => time_expr(ch), _ => { let (d, t) = (date_expr(ch), time_expr(ch)); match ch.below(4) { 0 => d, 1 => format!("{} @ {}", d, t).trim().to_string(), _ => format!("{}@{}", d, t) } } };
    if ch.pct(15) { expr = damage(ch, &expr); }
    let how = ch.below(5);
    // UTC, fixed offset, local time, the current time, the time given in the context
    let fixed = Zone { posix: "", std: match how { 0 => 0, _ => *ch.pick(&[0i128, 3600, -12_600, 50_400, -43_200, 86_340, -86_399]) }, dst: None };
    let z = if how < 2 { &fixed } else { zone };
    let base = instant(ch, z, how < 3);
    let (secs, nanos) = (base.div_euclid(NS) as i64, base.rem_euclid(NS) as u32);
    if how == 3 { host.wall_ns = base as i64; }
    // the clock is set while the value is generated
    let jump = if how == 3 && ch.pct(30) { *ch.pick(JUMPS) } else { 0 };
    if jump != 0 { host.jumps = JUMP_AT.iter().map(|k| k * jump).collect(); }
    let ask = ch.below(3);
    let off = *ch.pick(&[0i128, 3600, -28_800]);
    let gen = match kind { 0 => Generator::Date(None, Some(expr.clone())), 1 => Generator::Time(None, Some(expr.clone())), _ => Generator::DateTime(None, Some(expr.clone())) };
    let key = ["baseDate", "baseTime", "baseDateTime"][kind];
    let e2 = expr.clone();
    let r = host.proc(&format!("{:?} at {} in {}", expr, rfc3339(base, z.offset(secs as i128)), z.posix), move || match how {
      0 => run(&Utc.timestamp_opt(secs, nanos).unwrap(), &e2, kind).map(Got::At),
      1 => run(&FixedOffset::east_opt(fixed.std as i32).unwrap().timestamp_opt(secs, nanos).unwrap(), &e2, kind).map(Got::At),
      2 => run(&Local.timestamp_opt(secs, nanos).unwrap(), &e2, kind).map(Got::At),
      _ => {
        let mut ctx = HashMap::new();
        if how == 4 { ctx.insert(key, json!(rfc3339(base, off))); }
        as_text(&gen, ask, &ctx).map(Got::Text)
      }
    });
    let label = format!("{} expression {:?} at {} ({})", ["date", "time", "date-time"][kind], expr, rfc3339(base, z.offset(secs as i128)), if how < 2 { "fixed offset" } else { zone.posix });
    o.case = mix(o.case, hash_str(&label));
    if unspecified(&expr, kind) { if let Err(p) = r { o.violate(panic_class(&p), format!("{}: {}", label, p)); break } continue }
    let mut place = Place { zone: z, at: if jump == 0 { vec![base] } else { vec![base, base + jump as i128] }, left_range: false, edge: false };
    let parsed = match kind { 0 => place.date(&expr), 1 => place.time(&expr), _ => place.date_time(&expr) };
    let years: Vec<i128> = place.at.iter().map(|a| year_of(a.div_euclid(NS * DAY))).collect();
    o.probe(if parsed.is_none() { "malformed" } else if place.left_range { "leaves the range" } else if place.at.len() > 1 { "repeated or skipped hour" } else { "unique" });
    let got = match r { Err(p) => { o.violate(panic_class(&p), format!("{}: {}", label, p)); break } Ok(g) => g };
    o.digest = mix(o.digest, hash_str(&format!("{:?}", got)));
    if k == 0 { o.sample = format!("{} -> {}", short(&label), short(&format!("{:?}", got))); }
    let text = |a: i128| {
      let ((y, m, d), h, mi, s, n, off) = local(z, a);
      match kind { 0 => format!("{}-{:02}-{:02}", year_text(y), m, d), 1 => format!("{:02}:{:02}:{:02}", h, mi, s), _ => format!("{}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}", year_text(y), m, d, h, mi, s, n / 1_000_000, offset_text(off, false)) }
    };
    let verdict = match (&got, parsed) {
      (Ok(g), None) => Err(("accepted", format!("malformed, but gives {:?}", g))),
      (Err(_), None) => Ok(()),
      (Err(_), Some(())) if place.left_range => Ok(()),
      (Ok(g), Some(())) if years.iter().all(|y| y.abs() > 262_150) => Err(("accepted", format!("the year is {}, but gives {:?}", years[0], g))),
      (Err(e), Some(())) => Err(("refused", format!("fails: {}", e))),
      // chrono itself takes the end of the repeated hour for a part of it
      (Ok(_), Some(())) if place.edge => Ok(()),
      (Ok(Got::At(g)), Some(())) => if place.at.contains(g) { o.nontrivial = true; Ok(()) } else { Err(("wrong", format!("gives {} instead of {}", rfc3339(*g, z.offset(g.div_euclid(NS))), rfc3339(place.at[0], z.offset(place.at[0].div_euclid(NS)))))) },
      (Ok(Got::Text(g)), Some(())) => if place.at.iter().any(|a| text(*a) == *g) { o.nontrivial = true; Ok(()) } else { Err(("wrong", format!("gives {} instead of {}", g, text(place.at[0])))) }
    };
    if let Err((c, e)) = verdict { o.violate(format!("{}:{}", c, ["date", "time", "datetime"][kind]), format!("{}: {}", label, e)); break }
  }
  o.case = mix(o.case, o.digest);
  for f in &host.faults { o.fault(f); }
  o.steps = host.syscalls; o.sim_ns = host.sim_ns;
  o.trace.extend(std::mem::take(&mut host.trace));
  o
}
