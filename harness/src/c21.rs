//! Date and time patterns.
use crate::vp::*;
use chrono::{TimeZone, Utc};
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use pact_models::time_utils::{generate_string, parse_pattern, to_chrono_pattern, validate_datetime};
use serde_json::{json, Value};
use std::collections::HashMap;

const DIGITS: &[u8] = b"0123456789";
fn num(s: &str) -> u32 { s.bytes().fold(0, |n, c| n * 10 + (c - b'0') as u32) }
fn leap(y: u32) -> bool { (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)) }
fn month_days(y: u32, m: u32) -> u32 { match m { 2 => 28 + leap(y) as u32, 4 | 6 | 9 | 11 => 30, _ => 31 } }
fn is_date(y: u32, m: u32, d: u32) -> bool { (m >= 1) & (m <= 12) & (d >= 1) && d <= month_days(y, m) }
fn ok(v: &str, p: &str) -> bool { let r = validate_datetime(v, p).is_ok(); reach(if r { "accepted" } else { "refused" }); r }
const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];

/// All four-digit years, all two-digit months and days.
fn calendar(years: &[&str]) {
  blind(true);
  let (c, yy, m, d) = (pick(years), text(2, DIGITS), text(2, DIGITS), text(2, DIGITS));
  let y = num(c) * 100 + num(&yy);
  let r = match choose(3) {
    0 => ok(&format!("{}{}-{}-{}", c, yy, m, d), "yyyy-MM-dd"),
    1 => ok(&format!("{}{}{}{}", d, m, c, yy), "ddLLuuuu"),
    _ => ok(&format!("{}.{} {}{}T", m, d, c, yy), "M.d y'T'")
  };
  check(r == is_date(y, num(&m), num(&d)), "a date that is none is accepted, or one that is is refused");
}
#[no_mangle] pub extern "C" fn quick_c21_calendar() { calendar(&["19", "20", "21"]) }
#[no_mangle] pub extern "C" fn deep_c21_calendar() { calendar(&["00", "04", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "40", "98", "99"]) }
/// Years of any length, one and two-digit fields, days without a year.
#[no_mangle] pub extern "C" fn quick_c21_years() {
  blind(true);
  let (m, d) = pick(&[(1u32, 31u32), (2, 28), (2, 29), (2, 30), (12, 31), (11, 31), (4, 30)]);
  let y = match choose(4) { 0 => text(5, DIGITS), 1 => pick(&["2000", "32767", "32768", "99999", "123456", "99999999999999999999"]).to_string(), 2 => text(2, DIGITS), _ => String::new() };
  if y.is_empty() {
    check(ok(&format!("{:02}-{:02}", m, d), "MM-dd") == is_date(2000, m, d), "a day of a month that has none such is accepted, or the other way");
    return;
  }
  let p = format!("{}/MM/dd", "y".repeat(y.len()));
  let z: u32 = num(&y[y.len().saturating_sub(4)..]);
  let z = if y.len() == 2 { 2000 + z } else { z };
  check(ok(&format!("{}/{:02}/{:02}", y, m, d), &p) == is_date(z, m, d), "a date of a year with another number of digits is accepted though it is none, or the other way");
}
/// Month names, in any case.
#[no_mangle] pub extern "C" fn quick_c21_month_names() {
  let k = choose(12);
  let long = flag();
  let mut name: Vec<u8> = if long { MONTHS[k].bytes().collect() } else { MONTHS[k][..3].bytes().collect() };
  let i = choose(3);
  if flag() { name[i] = byte_in(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"); }
  let name = unsafe { String::from_utf8_unchecked(name) };
  let month = MONTHS.iter().position(|m| (if long { *m } else { &m[..3] }).eq_ignore_ascii_case(&name));
  let (y, d) = (pick(&[2023u32, 2024]), pick(&[1u32, 28, 29, 30, 31]));
  let r = ok(&format!("{} {} {}", d, name, y), if long { "d MMMM yyyy" } else { "d MMM yyyy" });
  check(r == month.map(|m| is_date(y, m as u32 + 1, d)).unwrap_or(false), "a date with a month by name is accepted though it is none, or the other way");
}
/// Numeric fields of the time and of the date, one field at a time.
#[no_mangle] pub extern "C" fn quick_c21_fields() {
  blind(true);
  let (p, digits, lo, hi): (&str, usize, u32, u32) = pick(&[
    ("H", 2, 0, 23), ("HH", 2, 0, 23), ("k", 2, 1, 24), ("kk", 2, 1, 24), ("h", 2, 1, 12), ("hh", 2, 1, 12), ("K", 2, 0, 11), ("KK", 2, 0, 11),
    ("m", 2, 0, 59), ("mm", 2, 0, 59), ("s", 2, 0, 60), ("ss", 2, 0, 60), ("d", 2, 1, 31), ("dd", 2, 1, 31), ("M", 2, 1, 12), ("MM", 2, 1, 12), ("L", 2, 1, 12),
    ("D", 3, 1, 366), ("DDD", 3, 1, 366), ("e", 1, 1, 7), ("c", 1, 1, 7), ("ee", 1, 1, 7), ("Q", 2, 1, 4), ("q", 2, 1, 4), ("QQ", 2, 1, 4), ("W", 2, 1, 5), ("F", 2, 0, 4)]);
  let n = 1 + choose(4);
  let v = text(n, DIGITS);
  let r = ok(&v, p);
  let good = n <= digits && num(&v) >= lo && num(&v) <= hi;
  if p.starts_with('D') && num(&v) > 356 && good && !r { known("C21-day-of-year"); }
  check(r == good, "a number outside the range of its field is accepted, or one inside is refused");
}
/// A date and time together with text around the fields.
#[no_mangle] pub extern "C" fn quick_c21_time() {
  blind(true);
  let (h, m, s) = (text(2, DIGITS), text(2, DIGITS), text(2, DIGITS));
  let good = (num(&m) <= 59) & (num(&s) <= 60);
  match choose(3) {
    0 => check(ok(&format!("2024-02-29T{}:{}:{}", h, m, s), "yyyy-MM-dd'T'HH:mm:ss") == (good & (num(&h) <= 23)), "an impossible time is accepted, or a time refused"),
    1 => check(ok(&format!("{}h{}m{} Pm", h, m, s), "hh'h'mm'm'ss a") == (good & (num(&h) <= 12) & (num(&h) >= 1)), "an impossible time is accepted, or a time refused"),
    _ => check(ok(&format!("{}{}{}AD", h, m, s), "kkmmssG") == (good & (num(&h) <= 24) & (num(&h) >= 1)), "an impossible time is accepted, or a time refused")
  }
}
/// Fractions of a second of any length.
#[no_mangle] pub extern "C" fn quick_c21_fraction() {
  blind(true);
  let count = pick(&[1usize, 2, 3, 6, 9, 10, 12, 20]);
  let n = pick(&[0usize, 1, 3, 9, 10, 20, 21]);
  let v: String = if n <= 3 { text(n, DIGITS) } else { pick(&["9", "0", "12345678901234567890"]).repeat(21)[..n].to_string() };
  check(ok(&format!("00.{}", v), &format!("ss.{}", "S".repeat(count))) == (n >= 1 && n <= count), "a fraction of a second with more digits than its field is accepted, or another refused");
}
/// Offsets: a sign, hours up to 18, minutes up to 59.
#[no_mangle] pub extern "C" fn quick_c21_offset() {
  blind(true);
  let sign = pick(&["+", "-", "", "+-"]);
  let (h, m) = (text(2, DIGITS), text(2, DIGITS));
  assume(num(&h) != 18);
  let (p, v) = match choose(11) {
    0 => ("Z", format!("{}{}{}", sign, h, m)), 1 => ("ZZZZ", format!("GMT{}{}:{}", sign, h, m)), 2 => ("ZZZZZ", format!("{}{}:{}", sign, h, m)),
    3 => ("x", format!("{}{}{}", sign, h, m)), 4 => ("xx", format!("{}{}{}", sign, h, m)), 5 => ("XXX", format!("{}{}:{}", sign, h, m)),
    6 => ("xxxx", format!("{}{}{}59", sign, h, m)), 7 => ("XXXXX", format!("{}{}:{}:00", sign, h, m)),
    8 => ("O", format!("UTC{}{}:{}", sign, h, m)), 9 => ("OOOO", format!("GMT{}{}:{}", sign, h, m)), _ => ("VV", format!("{}{}:{}", sign, h, m))
  };
  let good = sign.len() == 1 && (num(&h) < 18) & (num(&m) <= 59);
  check(ok(&v, p) == good, "a time zone offset that is none is accepted, or one that is is refused");
}
/// Time zone names.
#[no_mangle] pub extern "C" fn quick_c21_zone() {
  hash_mode(1);
  let (v, p, good): (&str, &str, bool) = pick(&[
    ("America/Los_Angeles", "VV", true), ("Europe/Warsaw", "VV", true), ("America/Argentina/Buenos_Aires", "VV", true), ("America/Port-au-Prince", "VV", true), ("Etc/GMT+1", "VV", true), ("Z", "V", true), ("Zulu", "VV", true), ("UTC", "VV", true), ("-08:30", "VV", true),
    ("Europe/Nowhere", "VV", false), ("Nowhere", "VV", false), ("", "VV", false), ("europe/warsaw", "VV", false),
    ("PDT", "z", true), ("AEST", "zzz", true), ("XXX", "z", false), ("aest", "z", false), ("[Europe/Warsaw]", "'['VV']'", true), ("America/Indiana/Knox-x", "VV'-x'", true), ("Europe/Warsaw+", "VV'+'", true)]);
  check(ok(v, p) == good, "a time zone is not accepted, or one that does not exist is");
}
/// Quoted text stands for itself.
fn quoted(n: usize) {
  blind(true);
  let t = unicode(n, &["é", "日"]);
  let p = format!("yyyy'{}'", t.replace('\'', "''"));
  let r = validate_datetime(&format!("2001{}", t), &p);
  reach("quoted");
  check(r.is_ok(), "the text quoted in a pattern is not accepted");
  let other = unicode(n, &["é", "日"]);
  assume(other != t);
  check(validate_datetime(&format!("2001{}", other), &p).is_err(), "another text than the quoted one is accepted");
}
#[no_mangle] pub extern "C" fn quick_c21_quoted() { quoted(1) }
#[no_mangle] pub extern "C" fn quick_c21_quotes() {
  let n = 1 + choose(4);
  let t: String = (0..n).map(|_| pick(&["'", "a", "%", " "])).collect();
  let p = format!("'{}'dd", t.replace('\'', "''"));
  reach("quotes");
  check(validate_datetime(&format!("{}07", t), &p).is_ok(), "the text quoted in a pattern is not accepted");
  check(validate_datetime(&format!("{}'07", t), &p).is_err(), "a text with one more quote than the pattern is accepted");
  let g = parse_pattern(&p).map(|x| to_chrono_pattern(&x)).ok().map(|f| Utc.with_ymd_and_hms(2001, 1, 7, 0, 0, 0).unwrap().format(&f).to_string());
  check(g == Some(format!("{}07", t)), "the text quoted in a pattern is not what is generated");
}
/// Any short text as a pattern and as a value.
fn any(p: usize, v: usize) {
  blind(true); hash_mode(1);
  let p = unicode(p, &["é"]);
  let v = unicode(v, &["日", "K"]);
  reach("any");
  if v.is_empty() {
    set_clock(1_709_251_199_987_654_321);
    let _ = generate_string(&p);
    let (g, ctx) = (pick(&[Generator::Date(Some(p.clone()), None), Generator::Time(Some(p.clone()), None), Generator::DateTime(Some(p.clone()), None)]), HashMap::<&str, Value>::from([("baseDate", json!("2024-02-29T23:59:59Z")), ("baseTime", json!("2024-02-29T23:59:59Z")), ("baseDateTime", json!("2024-02-29T23:59:59Z"))]));
    let a: anyhow::Result<String> = g.generate_value(&String::new(), &ctx, &NoopVariantMatcher.boxed());
    let b: anyhow::Result<Value> = g.generate_value(&json!(1), &ctx, &NoopVariantMatcher.boxed());
    check(a.is_ok() == parse_pattern(&p).is_ok() && b.is_ok() == a.is_ok(), "a generator with a pattern that can be parsed gives nothing, or the other way");
  } else {
    let _ = validate_datetime(&v, &p);
  }
}
#[no_mangle] pub extern "C" fn quick_c21_any_pattern() { any(choose(3), 0) }
#[no_mangle] pub extern "C" fn quick_c21_any_value() { any(1, 1 + choose(2)) }
#[no_mangle] pub extern "C" fn deep_c21_any() { any(choose(4), choose(3)) }

/// What is generated from a pattern of one field is accepted by it.
#[no_mangle] pub extern "C" fn quick_c21_generated() {
  hash_mode(1);
  let letter = pick(&["G", "y", "Y", "u", "M", "L", "d", "D", "Q", "q", "w", "W", "F", "E", "e", "c", "a", "h", "H", "k", "K", "m", "s", "S", "n", "A", "N", "x", "X", "Z", "O", "z", "V", "'x'"]);
  let p = letter.repeat(1 + choose(10));
  let (t, text): (i64, &str) = pick(&[(1_704_067_200, "2024-01-01T00:00:00Z"), (1_709_251_199, "2024-02-29T23:59:59Z"), (1_703_937_600, "2023-12-30T12:00:00Z"), (999_999_999, "2001-09-09T01:46:39Z")]);
  let (hour, doy) = match t { 1_704_067_200 => (0, 1), 1_709_251_199 => (23, 60), 1_703_937_600 => (12, 364), _ => (1, 252) };
  let milli = pick(&[0u64, 7_000_000, 987_654_321]);
  set_clock(t as u64 * 1_000_000_000 + milli);
  let got = match choose(4) {
    0 => generate_string(&p),
    k => {
      let (ctx, g) = match k { 1 => ("baseDate", Generator::Date(Some(p.clone()), None)), 2 => ("baseTime", Generator::Time(Some(p.clone()), None)), _ => ("baseDateTime", Generator::DateTime(Some(p.clone()), None)) };
      let r: anyhow::Result<String> = g.generate_value(&String::new(), &HashMap::from([(ctx, json!(text))]), &NoopVariantMatcher.boxed());
      r.map_err(|e| e.to_string())
    }
  };
  check(got.is_ok() == parse_pattern(&p).is_ok(), "no date is generated from a pattern that can be parsed, or one from a pattern that can not");
  if let Ok(s) = got {
    reach("generated");
    let n = p.len() / letter.len();
    let good = validate_datetime(&s, &p).is_ok();
    if !good {
      match letter {
        // fields that chrono can not print print nothing
        "Q" | "q" | "W" | "F" | "A" | "N" => if s.is_empty() { known("C21-fields-without-text") },
        // chrono's hours are those of H and h, its shortest fraction has three digits, its first week may be 0
        "k" => if hour == 0 && s == "00" { known("C21-fields-without-text") },
        "K" => if hour % 12 == 0 && s == "12" { known("C21-fields-without-text") },
        "S" => if n < 3 && s.len() == 3 { known("C21-fields-without-text") },
        "w" => if doy < 7 && s == "00" { known("C21-fields-without-text") },
        "D" => if doy > 356 && s == doy.to_string() { known("C21-day-of-year") },
        "z" => if n == 4 || s == "+00:00" || s == "UTC" { known("C21-zone-name") },
        _ => {}
      }
    }
    check(good, "what is generated from a pattern is not accepted by it");
  }
}
/// Generated dates of whole patterns, with their values.
#[no_mangle] pub extern "C" fn quick_c21_generated_whole() {
  let (p, want): (&str, &str) = pick(&[
    ("yyyy-MM-dd'T'HH:mm:ss.SSSXXX", "2024-02-29T23:59:58.987+00:00"), ("yyyy-MM-dd'T'HH:mm:ss.SSSZ", "2024-02-29T23:59:58.987+0000"), ("EEE, d MMM yyyy HH:mm:ss Z", "Thu, 29 Feb 2024 23:59:58 +0000"),
    ("EEEE dd MMMM yy", "Thursday 29 February 24"), ("hh:mm a", "11:59 PM"), ("yyyyMMddHHmmss", "20240229235958"), ("dd/LL/uuuu", "29/02/2024"), ("ss.SSSSSS", "58.987654"), ("ss.SSSSSSSSS", "58.987654321"),
    ("DDD yyyy G", "060 2024 AD"), ("H 'o''clock' 100%", ""), ("yyyy-MM-dd'T'HH:mm:ssxx", "2024-02-29T23:59:58+0000"), ("HH:mmZZZZ", "23:59GMT+00:00"), ("HH:mm O", "23:59 GMT+00:00"), ("e eee eeee", "4 Thu Thursday"), ("MM-dd", "02-29"), ("d MMM", "29 Feb"), ("HH:mm:ss ZZZZZ", "23:59:58 +00:00")]);
  set_clock(1_709_251_198_987_654_321);
  reach("whole");
  match generate_string(p) {
    Ok(s) => { check(s == want, "another date than the current one is generated from a pattern"); check(validate_datetime(&s, p).is_ok(), "what is generated from a pattern is not accepted by it"); }
    Err(_) => check(want.is_empty(), "no date is generated from a pattern")
  }
}
