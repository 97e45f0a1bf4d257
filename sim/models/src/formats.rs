//! C09: generated dates and times are the text of their instant and valid in their own format.
use std::collections::HashMap;

use pact_models::generators::Generator;
use pact_models::time_utils::{generate_string, validate_datetime};
use serde_json::json;
use simcore::choices::{hash_str, mix, Choices};
use simcore::driver::{panic_class, Outcome};
use simcore::kernel::short;

use crate::cal::*;
use crate::dates::{JUMPS, JUMP_AT, as_text, date_expr, instant, rfc3339, time_expr, Place};
use crate::procs::Host;

const MONTH: &[&str] = &["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const WDAY: &[&str] = &["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];

#[derive(Clone, Debug)]
enum Part { Field(char, usize), Text(String) }

/// a number, zero padded to at most `width` digits
fn num(v: i128, width: usize) -> String { format!("0{{0,{}}}{}", width.saturating_sub(v.to_string().len()), v) }
fn zone_text(off: i128, c: usize) -> String {
  let (s, h, m) = (if off < 0 { "-" } else { "\\+" }, off.abs() / 3600, off.abs() / 60 % 60);
  match c { 1 if m == 0 => format!("{}{:02}", s, h), 1 | 2 => format!("{}{:02}{:02}", s, h, m), 3 => format!("{}{:02}:{:02}", s, h, m), 4 => format!("{}{:02}{:02}(?:00)?", s, h, m), _ => format!("{}{:02}:{:02}(?::00)?", s, h, m) }
}
/// the texts a field may have, as an expression
fn field(f: char, c: usize, z: &Zone, ns: i128) -> String {
  let ((y, mo, d), h, mi, s, n, off) = local(z, ns);
  let days = days_from_civil(y, mo, d);
  let wd = weekday(days);
  let doy = days - days_from_civil(y, 1, 1) + 1;
  let name = |t: &str, c: usize| match c { 0..=3 => t[..3].to_string(), 4 => t.to_string(), _ => format!("(?:{}|{})", t, &t[..1]) };
  let q = (mo - 1) / 3 + 1;
  let nod = ((h * 60 + mi) * 60 + s) * NS + n;
  match f {
    'G' => "AD".into(),
    'y' | 'u' => if c == 2 { format!("{:02}", y.rem_euclid(100)) } else { num(y, c.max(4)) },
    'Y' => { let iso = civil(days - wd + 3).0; if c == 2 { format!("(?:{:02}|{:02})", y.rem_euclid(100), iso.rem_euclid(100)) } else { format!("(?:{}|{})", num(y, c.max(4)), num(iso, c.max(4))) } }
    'M' => if c <= 2 { num(mo, 2) } else { name(MONTH[mo as usize - 1], c) },
    'L' => format!("(?:{}|{})", num(mo, 2), name(MONTH[mo as usize - 1], c)),
    'D' => num(doy, c.max(3)),
    'd' => num(d, 2),
    'q' => num(q, 2),
    'Q' => match c { 1 | 2 => num(q, 2), 3 => format!("Q{}", q), _ => format!("{} quarter", ["1st", "2nd", "3rd", "4th"][q as usize - 1]) },
    'w' => {
      let jan1 = days_from_civil(y, 1, 1);
      let sunday_first = (days + 7 - (weekday(days) + 1) % 7 - jan1).div_euclid(7);
      let th = days - wd + 3;
      let iso = (th - days_from_civil(civil(th).0, 1, 1)) / 7 + 1;
      let us = (days - jan1 + (weekday(jan1) + 1) % 7) / 7 + 1;
      format!("(?:{}|{}|{})", num(sunday_first, 2), num(iso, 2), num(us, 2))
    }
    'E' => name(WDAY[wd as usize], c),
    'e' => if c <= 2 { num(wd + 1, 2) } else { name(WDAY[wd as usize], c) },
    'c' => num(wd + 1, 1),
    'a' => if h < 12 { "(?i:AM)".into() } else { "(?i:PM)".into() },
    'h' => num((h + 11) % 12 + 1, 2),
    'K' => num(h % 12, 2),
    'k' => num((h + 23) % 24 + 1, 2),
    'H' => num(h, 2),
    'm' => num(mi, 2),
    's' => num(s, 2),
    'S' => { let t = format!("{:09}", n); if c <= 9 { t[..c].to_string() } else { format!("{:0<w$}", t, w = c) } }
    'n' => num(n, c.max(9)),
    'A' => num(nod / 1_000_000, c.max(8)),
    'N' => num(nod, c.max(14)),
    'x' => zone_text(off, c),
    'X' => if off == 0 { "Z".into() } else { zone_text(off, c) },
    'Z' => match c { 1..=3 => zone_text(off, 2), 4 => format!("GMT(?:{}){}", zone_text(off, 3), if off == 0 { "?" } else { "" }), _ => if off == 0 { "(?:Z|[+]00:00)".into() } else { zone_text(off, 3) } },
    'O' => {
      let (sg, hh, mm) = (if off < 0 { "-" } else { "\\+" }, off.abs() / 3600, off.abs() / 60 % 60);
      let long = format!("{}{:02}:{:02}", sg, hh, mm);
      let short = if mm == 0 { format!("{}{}", sg, hh) } else { format!("{}{}:{:02}", sg, hh, mm) };
      format!("GMT(?:{}){}", match c { 1 => short, 4 => long, _ => format!("{}|{}", long, short) }, if off == 0 { "?" } else { "" })
    }
    'z' | 'V' => "[A-Za-z0-9+:/-]+".into(),
    _ => "\\d+".into()
  }
}
const FIELDS: &[(char, &[usize])] = &[('y', &[4, 2, 1, 3, 5, 6]), ('u', &[4, 1]), ('Y', &[4, 2]), ('M', &[2, 1, 3, 4, 5]), ('L', &[1, 2]), ('d', &[2, 1]), ('D', &[1, 3]), ('Q', &[1, 2, 3, 4]), ('q', &[1, 2]), ('E', &[1, 3, 4]), ('e', &[1, 2, 3, 4]), ('c', &[1]), ('a', &[1]),
  ('h', &[1, 2]), ('H', &[1, 2]), ('k', &[1, 2]), ('K', &[1, 2]), ('m', &[1, 2]), ('s', &[1, 2]), ('S', &[3, 1, 2, 4, 6, 9, 10, 20]), ('A', &[1, 8]), ('n', &[1, 9]), ('N', &[1]), ('x', &[1, 2, 3, 4, 5]), ('X', &[1, 2, 3, 4, 5]), ('Z', &[1, 3, 4, 5]), ('O', &[1, 4]), ('G', &[1, 3])];
const ODD: &[(char, &[usize])] = &[('w', &[1, 2]), ('W', &[1]), ('F', &[1]), ('z', &[1, 3]), ('V', &[2]), ('D', &[1])];
const COMMON: &[&str] = &["yyyy-MM-dd", "yyyy-MM-dd'T'HH:mm:ss", "yyyy-MM-dd'T'HH:mm:ss.SSSXXX", "yyyy-MM-dd'T'HH:mm:ssZ", "HH:mm:ss", "EEE, d MMM yyyy HH:mm:ss Z", "yyyyMMddHHmmss", "yyyyMMddHHmmssSSS", "yyMMddHHmmssZ", "h:mm a", "K:mm a", "MM/dd/yyyy", "d. MMMM yyyy", "hh 'o''clock' a", "dd.MM.yy", "HHmm", "kk:mm", "yyyy-MM-dd HH:mm:ss.SSSSSS", "yyyy-MM-dd'T'HH:mm:ss.SSSX", "EEEE, MMMM d yyyy", "mm:ss.SS", "QQQ yyyy", "yyyy.MM.dd G 'at' HH:mm:ss"];
const BAD: &[&str] = &["yyyy-MM-dd'T", "'", "yyyy-bb", "dddd", "MMMMMM", "HHH", "aa", "{yyyy}", "[HH]", "yyyy-MM-dd1", "", "GGGGGG", "ssss", "EEEEEE", "ZZZZZZ", "P", "yyyy'"];

fn parse(fmt: &str) -> Vec<Part> {
  let c: Vec<char> = fmt.chars().collect();
  let mut out = vec![];
  let mut i = 0;
  while i < c.len() {
    if c[i].is_ascii_alphabetic() { let mut n = 1; while i + n < c.len() && c[i + n] == c[i] { n += 1; } out.push(Part::Field(c[i], n)); i += n; }
    else if c[i] == '\'' {
      if c.get(i + 1) == Some(&'\'') { out.push(Part::Text("'".into())); i += 2; continue }
      let mut t = String::new();
      i += 1;
      loop { if c[i] == '\'' { if c.get(i + 1) == Some(&'\'') { t.push('\''); i += 2; continue } i += 1; break } t.push(c[i]); i += 1; }
      out.push(Part::Text(t));
    } else { out.push(Part::Text(c[i].to_string())); i += 1; }
  }
  out
}
fn numeric(f: char, c: usize) -> bool { !matches!(f, 'G' | 'a' | 'E') && !(f == 'M' && c > 2) && !(f == 'Q' && c > 2) && !(f == 'e' && c > 2) }
fn make(ch: &mut Choices) -> String {
  if ch.pct(35) { return ch.pick(COMMON).to_string() }
  let mut s = String::new();
  let n = ch.count(1, 6);
  let mut last = ' ';
  for k in 0..n {
    let (f, cs) = if ch.pct(3) { *ch.pick(ODD) } else { *ch.pick(FIELDS) };
    if f == last || (f == 'D' && k > 0 && !s.ends_with(' ')) { continue }
    let c = *ch.pick(cs);
    if last != ' ' {
      let sep = *ch.pick(&[" ", "-", "/", ".", ", ", "'T'", "' at '", "''", " 'o''clock' ", "%", "'a100%d'", "_", "' \u{e9} '", " | "]);
      s.push_str(sep);
    } else if ch.pct(10) { s.push_str(ch.pick(&["'on '", "''", "%", "#"])); }
    let _ = numeric(f, c);
    for _ in 0..c { s.push(f); }
    last = f;
  }
  if s.is_empty() { "yyyy".into() } else { s }
}
/// the fields whose texts may be replaced by one that is out of range
fn out_of_range(f: char, c: usize) -> Option<&'static [&'static str]> {
  Some(match (f, c) {
    ('M', 1 | 2) | ('L', 1 | 2) => &["0", "00", "13", "99"], ('d', _) => &["0", "00", "32", "99"], ('H', _) => &["24", "25", "99"], ('k', _) => &["0", "00", "25"], ('h', _) => &["0", "00", "13"], ('K', _) => &["12", "13"],
    ('m', _) => &["60", "99"], ('s', _) => &["61", "99"], ('Q' | 'q', 1 | 2) => &["0", "5", "00"], ('a', _) => &["XM", "AP"], ('E', _) => &["Abc", "0"], ('M', _) => &["Abc", "13"], ('e' | 'c', 1 | 2) => &["0", "8", "9"], ('G', _) => &["XX"],
    ('D', _) => &["0", "367", "999"], ('x' | 'X', 3 | 5) => &["+25:00", "-01:60", "01:00", "+19:00", "+1:00x"], ('x' | 'X', 2 | 4) => &["+2500", "-0160", "0100", "-1900"], ('x' | 'X', 1) => &["+25", "-19", "01"], ('Z', 1..=3) => &["+2500", "-0160", "0100", "+1900"],
    ('Z', 4) => &["GMT+25:00", "GMT-01:60", "GMT+19:00", "UT"], ('Z', 5) => &["+25:00", "-01:60", "+19:00"], ('O', 1 | 4) => &["GMT+25:00", "GMT-01:60", "GMT+19:00", "UT"],
    ('A', _) => &["86400000", "99999999", "x"], ('n', _) => &["x", "1000000000", "9999999999"], ('N', _) => &["x", "86400000000000"], ('y', 4) => &["abcd"], ('S', _) => &["x"],
    _ => return None
  })
}

pub fn c09(ch: &mut Choices, _t: bool) -> Outcome {
  let mut o = Outcome::default();
  let mut host = Host::new(ch);
  host.flaky = 0;
  let zone = ch.pick(ZONES);
  host.fs.put("/etc/localtime", &zone.file());
  for k in 0..ch.count(1, 6) {
    let kind = ch.below(4); // date, time, date-time, generate_string
    let bad = ch.pct(4);
    let fmt = if bad { Some(ch.pick(BAD).to_string()) } else if kind < 3 && ch.pct(10) { None } else { Some(make(ch)) };
    let expr = if kind < 3 && ch.pct(30) { Some(match kind { 0 => date_expr(ch), 1 => time_expr(ch), _ => format!("{}@{}", date_expr(ch), time_expr(ch)) }) } else { None };
    let base = instant(ch, zone, false);
    let with_ctx = kind < 3 && ch.pct(40);
    if !with_ctx { host.wall_ns = base as i64; }
    let jump = if !with_ctx && ch.pct(25) { *ch.pick(JUMPS) } else { 0 };
    if jump != 0 { host.jumps = JUMP_AT.iter().map(|k| k * jump).collect(); }
    let ask = ch.below(3);
    let off = *ch.pick(&[0i128, 3600, -28_800]);
    let gen = match kind { 0 => Generator::Date(fmt.clone(), expr.clone()), 1 => Generator::Time(fmt.clone(), expr.clone()), _ => Generator::DateTime(fmt.clone(), expr.clone()) };
    let what = ["Date", "Time", "DateTime", "generate_string"][kind];
    let label = format!("{} format {:?} expression {:?} at {} ({})", what, fmt, expr, rfc3339(base, zone.offset(base.div_euclid(NS))), zone.posix);
    let f2 = fmt.clone();
    let r = host.proc(&label, move || {
      let text = if kind == 3 { generate_string(&f2.clone().unwrap()) } else {
        let mut ctx = HashMap::new();
        if with_ctx { ctx.insert(["baseDate", "baseTime", "baseDateTime"][kind], json!(rfc3339(base, off))); }
        as_text(&gen, ask, &ctx)
      };
      let valid = match (&text, &f2) { (Ok(t), Some(f)) => validate_datetime(t, f), _ => Ok(()) };
      (text, valid)
    });
    o.case = mix(o.case, hash_str(&label));
    o.probe(what);
    let (text, valid) = match r { Ok(x) => x, Err(p) => { o.violate(panic_class(&p), format!("{}: {}", label, p)); break } };
    o.digest = mix(o.digest, hash_str(&format!("{:?} {:?}", text, valid)));
    if k == 0 { o.sample = format!("{} -> {:?}", short(&label), text); }
    if bad { if let Ok(t) = text { o.violate("bad-format-accepted", format!("{}: gives {:?}", label, t)); break } continue }
    let mut place = Place { zone, at: if jump == 0 { vec![base] } else { vec![base, base + jump as i128] }, left_range: false, edge: false };
    let e = expr.unwrap_or_default();
    let parsed = match kind { 0 => place.date(&e), 1 => place.time(&e), 2 => place.date_time(&e), _ => Some(()) };
    if parsed.is_none() { if let Ok(t) = text { o.violate("bad-expression-accepted", format!("{}: gives {:?}", label, t)); break } continue }
    if place.left_range || place.edge || place.at.iter().any(|a| !(2..=9998).contains(&local(zone, *a).0 .0)) { continue }
    let parts = match &fmt {
      Some(f) => parse(f),
      None => parse(match kind { 0 => "yyyy-MM-dd", 1 => "HH:mm:ss", _ => "yyyy-MM-dd'T'HH:mm:ss.SSSZ" })
    };
    let odd: String = parts.iter().filter_map(|p| match p { Part::Field(f, _) if "WFzVwD".contains(*f) => Some(*f), _ => None }).collect();
    let has = |s: &str| odd.contains(|c| s.contains(c));
    let text = match text {
      Ok(t) => t,
      Err(_) if has("WFzV") => { o.probe("unsupported field refused"); continue }
      Err(e) => { o.violate(format!("refused:{}", what), format!("{}: {}", label, e)); break }
    };
    let fits = place.at.iter().any(|a| {
      let re: String = parts.iter().map(|p| match p { Part::Field(f, c) => format!("(?:{})", field(*f, *c, zone, *a)), Part::Text(t) => regex::escape(t) }).collect();
      regex::Regex::new(&format!("^(?:{})$", re)).unwrap().is_match(&text)
    });
    if !fits { o.violate(format!("wrong:{}", what), format!("{}: gives {:?}", label, text)); break }
    o.nontrivial = true;
    if let Err(e) = valid {
      // which of the fields known to be troublesome is to blame
      let doys: Vec<i128> = place.at.iter().map(|a| { let ((y, mo, d), ..) = local(zone, *a); days_from_civil(y, mo, d) - days_from_civil(y, 1, 1) + 1 }).collect();
      let why = if has("zV") { "zone-name" } else if has("D") && doys.iter().any(|d| *d > 356) { "day-of-year" } else if has("w") && doys.iter().any(|d| *d < 7) { "week-zero" } else if has("WF") { "week-in-month" } else { "field" };
      o.violate(format!("invalid:{}", why), format!("{}: its text {:?} is not valid: {}", label, text, e));
      break
    }
    // one field out of its range, everything else as generated
    if let (Some(f), true) = (&fmt, ch.pct(50)) {
      let ok = parts.windows(2).all(|w| matches!(&w[0], Part::Text(_)) || matches!(&w[1], Part::Text(_))) && odd.is_empty();
      let cands: Vec<usize> = (0..parts.len()).filter(|i| matches!(&parts[*i], Part::Field(f, c) if out_of_range(*f, *c).is_some())).collect();
      if ok && !cands.is_empty() {
        let i = *ch.pick(&cands);
        let a = place.at.iter().cloned().find(|a| { let re: String = parts.iter().map(|p| match p { Part::Field(f, c) => format!("(?:{})", field(*f, *c, zone, *a)), Part::Text(t) => regex::escape(t) }).collect(); regex::Regex::new(&format!("^(?:{})$", re)).unwrap().is_match(&text) }).unwrap();
        let Part::Field(ff, fc) = &parts[i] else { continue };
        // a day the month does not have
        let ((y, mo, _), ..) = local(zone, a);
        let of = |l: &str, n: std::ops::RangeInclusive<usize>| parts.iter().any(|p| matches!(p, Part::Field(f, c) if l.contains(*f) && n.contains(c)));
        let len = if mo == 2 && !(of("y", 4..=9) && !of("y", 1..=3)) { 29 } else { month_len(y, mo) };
        let no_day = format!("{}", len + 1);
        let days = parts.iter().filter(|p| matches!(p, Part::Field('d', _))).count();
        let bad_text = if *ff == 'd' && days == 1 && of("M", 1..=9) && ch.pct(60) { o.probe("day after the end of the month"); no_day.as_str() } else { *ch.pick(out_of_range(*ff, *fc).unwrap()) };
        // S accepts up to its count, so anything that is no digit will do; the other fields are replaced whole
        let re: String = parts.iter().enumerate().map(|(j, p)| { let s = match p { Part::Field(f, c) => field(*f, *c, zone, a), Part::Text(t) => regex::escape(t) }; if j == i { format!("(?P<x>{})", s) } else { format!("(?:{})", s) } }).collect();
        let re = regex::Regex::new(&format!("^{}$", re)).unwrap();
        let m = re.captures(&text).unwrap().name("x").unwrap();
        let changed = match ch.below(12) { 0 => format!("{} ", text), 1 => format!(" {}", text), 2 => format!("{}\n", text), _ => format!("{}{}{}", &text[..m.start()], bad_text, &text[m.end()..]) };
        let (f2, c2) = (f.clone(), changed.clone());
        match host.proc(&format!("validate {:?}", changed), move || validate_datetime(&c2, &f2)) {
          Err(p) => { o.violate(panic_class(&p), format!("validating {:?} with {:?}: {}", changed, f, p)); break }
          Ok(Ok(())) => { o.violate(format!("out-of-range-accepted:{}", ff), format!("{:?} is valid for {:?}", changed, f)); break }
          Ok(Err(_)) => o.probe("out of range refused")
        }
      }
    }
  }
  o.case = mix(o.case, o.digest);
  for f in &host.faults { o.fault(f); }
  o.steps = host.syscalls; o.sim_ns = host.sim_ns;
  o.trace.extend(std::mem::take(&mut host.trace));
  o
}
