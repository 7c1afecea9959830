//! Date and time expressions, against civil-calendar arithmetic of its own.
use crate::vp::*;
use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
use pact_models::generators::datetime_expressions::{execute_date_expression, execute_datetime_expression, execute_time_expression};
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use serde_json::{json, Value};
use std::collections::HashMap;

// the proleptic Gregorian calendar, in days since 1970-01-01
fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
fn month_days(y: i64, m: i64) -> i64 { match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
fn days(y: i64, m: i64, d: i64) -> i64 {
  let y = if m <= 2 { y - 1 } else { y };
  let era = y.div_euclid(400);
  let yoe = y - era * 400;
  let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
  era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn civil(n: i64) -> (i64, i64, i64) {
  let z = n + 719468;
  let era = z.div_euclid(146097);
  let doe = z - era * 146097;
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, doy - (153 * mp + 2) / 5 + 1)
}

/// A moment: the day and the milliseconds in it.
#[derive(Clone, Copy, PartialEq, Debug)]
struct At { day: i128, ms: i128 }
const DAY: i128 = 86_400_000;
fn at(y: i64, m: i64, d: i64, h: i64, min: i64, s: i64) -> At { At { day: days(y, m, d) as i128, ms: ((h * 60 + min) * 60 + s) as i128 * 1000 } }
fn to_utc(a: At) -> DateTime<Utc> { Utc.timestamp_millis_opt((a.day * DAY + a.ms) as i64).unwrap() }
fn of_utc(d: &DateTime<Utc>) -> At { let t = d.timestamp_millis() as i128; At { day: t.div_euclid(DAY), ms: t.rem_euclid(DAY) } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Unit { Day, Week, Month, Year, Weekday(i64), Named(i64), Hour, Minute, Second, Milli }
use Unit::*;
// chrono's dates
fn in_range(a: At) -> bool { a.day >= days(-262143, 1, 1) as i128 && a.day <= days(262142, 12, 31) as i128 }
/// The moment an adjustment leads to; none if it is outside the calendar.
fn adjusted(a: At, u: Unit, n: i128) -> Option<At> {
  let shifted = |ms: i128| { let t = a.day * DAY + a.ms + ms; At { day: t.div_euclid(DAY), ms: t.rem_euclid(DAY) } };
  let r = match u {
    Day => At { day: a.day + n, ..a },
    Week => At { day: a.day + 7 * n, ..a },
    Month | Year => {
      let (y, m, d) = civil(a.day as i64);
      let months = y as i128 * 12 + m as i128 - 1 + if u == Year { 12 * n } else { n };
      let (y, m) = (months.div_euclid(12), months.rem_euclid(12) as i64 + 1);
      if y.abs() > 300_000 { return None; }
      let y = y as i64;
      let last = month_days(y, m);
      At { day: days(y, m, if d > last { last } else { d }) as i128, ..a }
    }
    Hour => shifted(n * 3_600_000),
    Minute => shifted(n * 60_000),
    Second => shifted(n * 1000),
    Milli => shifted(n),
    Weekday(w) => {
      let today = (a.day as i64 + 3).rem_euclid(7); // 1970-01-01 was a Thursday, 0 is Monday
      At { day: a.day + if n > 0 { (w - today - 1).rem_euclid(7) + 1 } else { -((today - w - 1).rem_euclid(7) + 1) } as i128, ..a }
    }
    Named(m0) => {
      let (y, m, _) = civil(a.day as i64);
      let y = if n > 0 { if m0 > m { y } else { y + 1 } } else { if m0 < m { y } else { y - 1 } };
      At { day: days(y, m0, 1) as i128, ..a }
    }
  };
  if in_range(r) { Some(r) } else { None }
}

const DATE_UNITS: [(&str, Unit); 8] = [("day", Day), ("days", Day), ("week", Week), ("weeks", Week), ("month", Month), ("months", Month), ("year", Year), ("years", Year)];
const TIME_UNITS: [(&str, Unit); 8] = [("hour", Hour), ("hours", Hour), ("minute", Minute), ("minutes", Minute), ("second", Second), ("seconds", Second), ("millisecond", Milli), ("milliseconds", Milli)];
// the words after next and last, and the number of units they stand for
const OFFSETS: [(&str, Unit, i128); 43] = [
  ("day", Day, 1), ("week", Week, 1), ("month", Month, 1), ("year", Year, 1), ("fortnight", Week, 2),
  ("monday", Weekday(0), 1), ("mon", Weekday(0), 1), ("tuesday", Weekday(1), 1), ("tues", Weekday(1), 1), ("wednesday", Weekday(2), 1), ("wed", Weekday(2), 1),
  ("thursday", Weekday(3), 1), ("thurs", Weekday(3), 1), ("friday", Weekday(4), 1), ("fri", Weekday(4), 1), ("saturday", Weekday(5), 1), ("sat", Weekday(5), 1), ("sunday", Weekday(6), 1), ("sun", Weekday(6), 1),
  ("january", Named(1), 1), ("jan", Named(1), 1), ("february", Named(2), 1), ("feb", Named(2), 1), ("march", Named(3), 1), ("mar", Named(3), 1), ("april", Named(4), 1), ("apr", Named(4), 1),
  ("may", Named(5), 1), ("june", Named(6), 1), ("jun", Named(6), 1), ("july", Named(7), 1), ("jul", Named(7), 1), ("august", Named(8), 1), ("aug", Named(8), 1),
  ("september", Named(9), 1), ("sep", Named(9), 1), ("october", Named(10), 1), ("oct", Named(10), 1), ("november", Named(11), 1), ("nov", Named(11), 1), ("december", Named(12), 1), ("dec", Named(12), 1),
  ("sun", Weekday(6), 1)];

fn edge_days() -> Vec<At> {
  vec![at(2000, 1, 1, 10, 0, 0), at(2000, 2, 29, 23, 59, 59), at(2001, 1, 31, 0, 0, 0), at(1999, 12, 31, 12, 30, 15), at(2024, 3, 31, 11, 59, 59), at(2023, 8, 30, 1, 2, 3), at(2100, 2, 28, 6, 0, 0), at(1970, 1, 1, 0, 0, 0)]
}
fn verdict(r: anyhow::Result<DateTime<Utc>>, want: Option<At>, what: &str) {
  match (r, want) {
    (Ok(d), Some(w)) => { reach("date"); check(of_utc(&d) == w && d.timestamp_subsec_nanos() % 1_000_000 == 0, what); }
    (Ok(_), None) => check(false, "a date outside the calendar is given as another one"),
    (Err(_), Some(_)) => check(false, "an expression with a date is refused"),
    (Err(_), None) => reach("refused")
  }
}

/// next and last, from each day of four years
fn offsets(from: i64, n: usize, step: i64) {
  let a = At { day: (from + choose(n) as i64 * step) as i128, ms: pick(&[0i128, 36_000_000, DAY - 1]) };
  let (word, unit, k) = OFFSETS[choose(42)];
  let plus = flag();
  let exp = format!("{} {}", if plus { "next" } else { "last" }, word);
  verdict(execute_date_expression(&to_utc(a), &exp), adjusted(a, unit, if plus { k } else { -k }), "next or last leads to another date");
}
#[no_mangle] pub extern "C" fn quick_c20_offsets() { offsets(days(2023, 12, 1), 488, 1) }
#[no_mangle] pub extern "C" fn deep_c20_offsets() { offsets(days(1999, 1, 1), 1830, 1) }

/// + and - with any amount of up to `digits` digits, from special days
fn amounts(digits: usize) {
  let a = pick(&edge_days());
  let amount = text_upto(1, digits, b"0123456789");
  let plus = flag();
  let (word, unit) = DATE_UNITS[choose(8)];
  let mut n: i128 = 0;
  for c in amount.bytes() { n = n * 10 + conc((c - b'0') as u32) as i128; }
  let exp = format!("{}{} {}", if plus { "+" } else { "-" }, amount, word);
  verdict(execute_date_expression(&to_utc(a), &exp), adjusted(a, unit, if plus { n } else { -n }), "adding or subtracting days, weeks, months or years leads to another date");
}
#[no_mangle] pub extern "C" fn quick_c20_amounts() { amounts(2) }
#[no_mangle] pub extern "C" fn deep_c20_amounts() { amounts(3) }

/// Amounts at and beyond the ends of the calendar and of the number types.
#[no_mangle] pub extern "C" fn quick_c20_large() {
  let a = pick(&edge_days());
  let n: i128 = pick(&[99_999i128, 262_142, 264_166, 300_000, 3_145_727, 95_000_000, 96_465_658, 2_147_483_647, 2_147_483_648, 4_294_967_296, 4_294_967_297, 9_007_199_254_740_993, 106_751_991_167, 9_223_372_036_854_775, 9_223_372_036_854_775_807, 9_223_372_036_854_775_808, 18_446_744_073_709_551_615, 18_446_744_073_709_551_616, 100_000_000_000_000_000_000_000]);
  let plus = flag();
  let sign = if plus { n } else { -n };
  if flag() {
    let (word, unit) = DATE_UNITS[choose(4) * 2];
    verdict(execute_date_expression(&to_utc(a), &format!("{} {} {}", if plus { "+" } else { "-" }, n, word)), adjusted(a, unit, sign), "a large amount leads to another date");
  } else {
    let (word, unit) = TIME_UNITS[choose(4) * 2];
    verdict(execute_time_expression(&to_utc(a), &format!("{} {} {}", if plus { "+" } else { "-" }, n, word)), adjusted(a, unit, sign), "a large amount leads to another time");
  }
}

/// A base word or next/last with up to two adjustments, in order.
#[no_mangle] pub extern "C" fn quick_c20_date() {
  let a = pick(&edge_days());
  let mut exp = String::new();
  let mut want = Some(a);
  match choose(10) {
    0 => {}
    1 => exp += "now", 2 => exp += "today",
    3 => { exp += "yesterday"; want = adjusted(a, Day, -1); }
    4 => { exp += "tomorrow"; want = adjusted(a, Day, 1); }
    5 => { exp += "next month"; want = adjusted(a, Month, 1); }
    6 => { exp += "last fortnight"; want = adjusted(a, Week, -2); }
    7 => { exp += "next june"; want = adjusted(a, Named(6), 1); }
    8 => { exp += "last year"; want = adjusted(a, Year, -1); }
    _ => { exp += "last tues"; want = adjusted(a, Weekday(1), -1); }
  }
  for _ in 0..choose(3) {
    let plus = flag();
    let n = pick(&[1i128, 12, 31]);
    let (word, unit) = DATE_UNITS[choose(4) * 2 + (n > 1) as usize];
    exp = format!("{}{}{}{}{}", exp, if n > 1 { " " } else { "" }, if plus { "+" } else { "-" }, n, word);
    want = want.and_then(|w| adjusted(w, unit, if plus { n } else { -n }));
  }
  verdict(execute_date_expression(&to_utc(a), &exp), want, "a date expression leads to another date");
}

/// The hour an o'clock stands for.
fn clock(base_hour: i64, n: i64, half: usize) -> i64 {
  match half {
    1 => n,                                    // am, 12 as documented
    2 => n % 12 + 12,                          // pm
    _ => if base_hour < 12 { n % 12 + 12 } else { n }
  }
}
#[no_mangle] pub extern "C" fn quick_c20_oclock() {
  let h = choose(24) as i64;
  let a = at(2000, 2, 29, h, 30, 15);
  let n = text_upto(1, 2, b"0123456789");
  let half = choose(3);
  let exp = format!("{}{}o'clock{}", n, pick(&[" ", ""]), ["", " am", " pm"][half]);
  let mut v = 0i64;
  for c in n.bytes() { v = v * 10 + conc((c - b'0') as u32) as i64; }
  let want = if v >= 1 && v <= 12 { Some(At { ms: clock(h, v, half) as i128 * 3_600_000, ..a }) } else { None };
  match (execute_time_expression(&to_utc(a), &exp), want) {
    (Ok(d), Some(w)) => { reach("time"); check(of_utc(&d) == w, "an o'clock is another hour"); }
    (Ok(_), None) => fail("an hour outside 1 to 12 is taken"),
    (Err(_), Some(_)) => fail("an hour from 1 to 12 is refused"),
    (Err(_), None) => reach("refused")
  }
}
/// A base with up to two adjustments.
#[no_mangle] pub extern "C" fn quick_c20_time() {
  let a = pick(&edge_days());
  let hour = (a.ms / 3_600_000) as i64;
  let mut exp = String::new();
  let mut want = Some(a);
  match choose(12) {
    0 => {}
    1 => exp += "now",
    2 => { exp += "midnight"; want = Some(At { ms: 0, ..a }); }
    3 => { exp += "noon"; want = Some(At { ms: DAY / 2, ..a }); }
    4 => { exp += "next hour"; want = adjusted(a, Hour, 1); }
    5 => { exp += "last minute"; want = adjusted(a, Minute, -1); }
    6 => { exp += "next second"; want = adjusted(a, Second, 1); }
    7 => { exp += "last millisecond"; want = adjusted(a, Milli, -1); }
    8 => { exp += "3 o'clock"; want = Some(At { ms: clock(hour, 3, 0) as i128 * 3_600_000, ..a }); }
    9 => { exp += "1 o'clock am"; want = Some(At { ms: 3_600_000, ..a }); }
    10 => { exp += "11 o'clock pm"; want = Some(At { ms: 23 * 3_600_000, ..a }); }
    _ => { exp += "last hour"; want = adjusted(a, Hour, -1); }
  }
  for _ in 0..choose(3) {
    let plus = flag();
    let n = pick(&[1i128, 25, 3601]);
    let (word, unit) = TIME_UNITS[choose(4) * 2 + (n > 1) as usize];
    exp = format!("{}{}{}{}{}", exp, if n > 1 { " " } else { "" }, if plus { "+" } else { "-" }, n, word);
    want = want.and_then(|w| adjusted(w, unit, if plus { n } else { -n }));
  }
  verdict(execute_time_expression(&to_utc(a), &exp), want, "a time expression leads to another time");
}
/// Symbolic amounts and hours: any hour, minute and second, any amount of up to three digits.
#[no_mangle] pub extern "C" fn quick_c20_time_amounts() {
  let a = pick(&edge_days());
  let amount = text_upto(1, 2, b"0123456789");
  let plus = flag();
  let (word, unit) = TIME_UNITS[choose(4) * 2 + 1];
  let mut n: i128 = 0;
  for c in amount.bytes() { n = n * 10 + conc((c - b'0') as u32) as i128; }
  verdict(execute_time_expression(&to_utc(a), &format!("{} {} {}", if plus { "+" } else { "-" }, amount, word)), adjusted(a, unit, if plus { n } else { -n }), "adding or subtracting time leads to another time");
}
/// Days, weeks, hours, minutes, seconds and milliseconds added and subtracted again, in one expression and in two.
#[no_mangle] pub extern "C" fn quick_c20_inverse() {
  let a = to_utc(pick(&edge_days()));
  let n = pick(&[0usize, 1, 7, 59, 366, 90_000]);
  let first = flag();
  let (s, t) = if first { ("+", "-") } else { ("-", "+") };
  if flag() {
    let unit = pick(&["days", "weeks"]);
    check(execute_date_expression(&a, &format!("{} {} {} {} {} {}", s, n, unit, t, n, unit)).ok() == Some(a), "adding and subtracting a number of days or weeks does not lead back");
    let one = execute_date_expression(&a, &format!("{} {} {}", s, n, unit));
    check(one.and_then(|d| execute_date_expression(&d, &format!("{} {} {}", t, n, unit))).ok() == Some(a), "adding and then subtracting a number of days or weeks does not lead back");
  } else {
    let unit = pick(&["hours", "minutes", "seconds", "milliseconds"]);
    check(execute_time_expression(&a, &format!("{} {} {} {} {} {}", s, n, unit, t, n, unit)).ok() == Some(a), "adding and subtracting an amount of time does not lead back");
    let one = execute_time_expression(&a, &format!("{} {} {}", s, n, unit));
    check(one.and_then(|d| execute_time_expression(&d, &format!("{} {} {}", t, n, unit))).ok() == Some(a), "adding and then subtracting an amount of time does not lead back");
  }
  reach("back");
}
/// A date and time expression is the time expression applied to the date.
#[no_mangle] pub extern "C" fn quick_c20_datetime() {
  let a = to_utc(pick(&edge_days()));
  let dates = ["", "now", "yesterday ", "+ 1 day", "next week ", "last month", "- 400000 years", "? day", "+ 1"];
  let times = ["", "now", " midnight", "+ 25 hours", " 3 o'clock pm", "last minute", "13 o'clock", "now @", "noon + 400000000 hours", "noon + 99999999999 hours"];
  let (d, t) = (pick(&dates), pick(&times));
  let (exp, want) = if flag() { (format!("{}@{}", d, t), execute_date_expression(&a, d).and_then(|x| execute_time_expression(&x, t))) } else { (d.to_string(), execute_date_expression(&a, d)) };
  match (execute_datetime_expression(&a, &exp), want) {
    (Ok(x), Ok(y)) => { reach("both"); check(x == y, "a date and time expression is not the time applied to the date"); }
    (Err(_), Err(_)) => reach("refused"),
    _ => fail("a date and time expression is refused and its parts are not, or the other way")
  }
}

// The documented grammar over the words of an expression.
fn tail(w: &[&str], units: &[&str]) -> bool {
  w.len() % 3 == 0 && w.chunks(3).all(|c| (c[0] == "+" || c[0] == "-") && c[1] == "7" && units.contains(&c[2]))
}
fn is_date(w: &[&str]) -> bool {
  let units = ["day", "months"];
  match w.first().copied() {
    None => false,
    Some("now") | Some("tomorrow") => tail(&w[1..], &units),
    Some("+") | Some("-") => tail(w, &units),
    Some("next") | Some("last") => w.len() > 1 && ["day", "may", "fortnight", "fri"].contains(&w[1]) && tail(&w[2..], &units),
    _ => false
  }
}
#[no_mangle] pub extern "C" fn quick_c20_date_grammar() {
  let words = ["now", "tomorrow", "+", "-", "7", "last", "day", "months", "may", "?"];
  let w: Vec<&str> = (0..choose(5)).map(|_| pick(&words)).collect();
  let exp = w.join(" ");
  let r = execute_date_expression(&to_utc(at(2000, 1, 1, 10, 0, 0)), &exp);
  reach(if r.is_ok() { "taken" } else { "refused" });
  check(r.is_ok() == (w.is_empty() || is_date(&w)), "a text that is no date expression is taken, or one that is is refused");
}
fn is_time(w: &[&str]) -> bool {
  let units = ["hour", "seconds"];
  match w.first().copied() {
    None => false,
    Some("now") | Some("midnight") => tail(&w[1..], &units),
    Some("+") | Some("-") => tail(w, &units),
    Some("next") | Some("last") => w.len() > 1 && ["hour"].contains(&w[1]) && tail(&w[2..], &units),
    Some("7") => w.len() > 1 && w[1] == "o'clock" && (tail(&w[2..], &units) || w.len() > 2 && (w[2] == "am" || w[2] == "pm") && tail(&w[3..], &units)),
    _ => false
  }
}
#[no_mangle] pub extern "C" fn quick_c20_time_grammar() {
  let words = ["midnight", "+", "-", "7", "next", "hour", "seconds", "o'clock", "am", "?"];
  let w: Vec<&str> = (0..choose(5)).map(|_| pick(&words)).collect();
  let exp = w.join(" ");
  let r = execute_time_expression(&to_utc(at(2000, 1, 1, 10, 0, 0)), &exp);
  reach(if r.is_ok() { "taken" } else { "refused" });
  // the words of the time grammar name an offset in the singular or the plural
  let single: Vec<&str> = w.iter().enumerate().map(|(i, x)| if i == 1 && *x == "seconds" && (w[0] == "next" || w[0] == "last") { "hour" } else { *x }).collect();
  check(r.is_ok() == (w.is_empty() || is_time(&single)), "a text that is no time expression is taken, or one that is is refused");
}
/// A good expression with a wrong end.
#[no_mangle] pub extern "C" fn quick_c20_tail() {
  let date = flag();
  let mut exp = if date { pick(&["now", "+ 1 day", "next week", "last fri - 2 days", "today + 1 week - 1 year"]) } else { pick(&["now", "+ 1 hour", "next hour", "last minute - 2 seconds", "3 o'clock", "3 o'clock pm", "midnight + 1 hour - 1 second"]) }.to_string();
  exp += " ";
  let end = unicode(pick(&[1usize, 2]), &["é", "日"]);
  for c in end.bytes() { assume(!(c == b' ' || c == b'\t' || c == b'\n' || c == 12)); }
  // no word the grammar allows there is that short but am and pm
  assume(end != "am" && end != "pm");
  exp += &end;
  let a = to_utc(at(2000, 1, 1, 10, 0, 0));
  let r = if date { execute_date_expression(&a, &exp) } else { execute_time_expression(&a, &exp) };
  reach("end");
  check(r.is_err(), "an expression with something after its end is taken");
}
/// Any short text.
fn any(n: usize) {
  let exp = unicode(n, &["é", "日"]);
  let a = to_utc(at(2000, 1, 1, 10, 0, 0));
  let r = match choose(3) { 0 => execute_date_expression(&a, &exp), 1 => execute_time_expression(&a, &exp), _ => execute_datetime_expression(&a, &exp) };
  match r {
    Ok(_) => { reach("taken"); check(exp.is_empty() || exp.contains('@'), "a short text is taken as an expression"); }
    Err(_) => reach("refused")
  }
}
#[no_mangle] pub extern "C" fn quick_c20_any() { any(choose(3)) }
#[no_mangle] pub extern "C" fn deep_c20_any() { any(choose(4)) }

/// The generators use the expression and the base of the context.
#[no_mangle] pub extern "C" fn quick_c20_generators() {
  let a = pick(&edge_days());
  let base = to_utc(a).to_rfc3339();
  let (ctx, g, want): (&str, Generator, Option<At>) = match choose(3) {
    0 => { let (e, w) = pick(&[(None, Some(a)), (Some("+ 1 month"), adjusted(a, Month, 1)), (Some("last fri"), adjusted(a, Weekday(4), -1)), (Some("?"), None)]); ("baseDate", Generator::Date(Some("yyyy-MM-dd'T'".into()), e.map(|s: &str| s.to_string())), w) }
    1 => { let (e, w) = pick(&[(None, Some(a)), (Some("+ 61 minutes"), adjusted(a, Minute, 61)), (Some("noon"), Some(At { ms: DAY / 2, ..a })), (Some("?"), None)]); ("baseTime", Generator::Time(Some("'T'HH:mm:ss".into()), e.map(|s: &str| s.to_string())), w) }
    _ => { let (e, w) = pick(&[(None, Some(a)), (Some("+ 1 month @ - 1 hour"), adjusted(a, Month, 1).and_then(|x| adjusted(x, Hour, -1))), (Some("last fri"), adjusted(a, Weekday(4), -1)), (Some("?"), None)]); ("baseDateTime", Generator::DateTime(Some("yyyy-MM-dd'T'HH:mm:ss".into()), e.map(|s: &str| s.to_string())), w) }
  };
  let context: HashMap<&str, Value> = HashMap::from([(ctx, json!(base))]);
  let got: Option<String> = if flag() { g.generate_value(&String::new(), &context, &NoopVariantMatcher.boxed()).ok() } else { let r: anyhow::Result<Value> = g.generate_value(&json!("x"), &context, &NoopVariantMatcher.boxed()); r.ok().and_then(|v| v.as_str().map(|s| s.to_string())) };
  let want = want.map(|w| {
    let (y, m, d) = civil(w.day as i64);
    let s = w.ms / 1000;
    let day = format!("{:04}-{:02}-{:02}T", y, m, d);
    let time = format!("{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60);
    match ctx { "baseDate" => day, "baseTime" => format!("T{}", time), _ => day + &time }
  });
  reach("generated");
  check(got == want, "a generator does not give the date and time of its expression");
}
/// The local time zone of the base is kept.
#[no_mangle] pub extern "C" fn quick_c20_zone() {
  let a = pick(&edge_days());
  let east = pick(&[0i32, 3600, -5 * 3600, 5 * 3600 + 45 * 60]);
  let zone = chrono::FixedOffset::east_opt(east).unwrap();
  let base = to_utc(a).naive_utc().and_local_timezone(zone).unwrap();
  let (e, w) = pick(&[("today @ 3 o'clock pm", Some(At { ms: 15 * 3_600_000, ..a })), ("last month", adjusted(a, Month, -1)), ("next jan", adjusted(a, Named(1), 1)), ("@ + 5 hours", adjusted(a, Hour, 5)), ("@midnight", Some(At { ms: 0, ..a })), ("tomorrow", adjusted(a, Day, 1))]);
  let r = execute_datetime_expression(&base, e);
  reach("zone");
  check(r.is_ok(), "an expression is refused for a base with an offset");
  if let Ok(d) = r {
    check(*d.offset() == zone, "the offset of the base is lost");
    check(Some(of_utc(&d.naive_local().and_utc())) == w, "an expression leads to another local time for a base with an offset");
  }
  let _ = (base.year(), base.hour());
}

/// Any of 256 successive days and any second of a minute around the end of the day.
#[no_mangle] pub extern "C" fn quick_c20_any_base() {
  let (from, day, s) = (pick(&[0i64, 10_957, 19_600]), byte() as i64, 86_340 * flag() as i64 + range(0, 59) as i64);
  let t = (from + day) * 86400 + s;
  let base = Utc.timestamp_opt(t, 0).unwrap();
  let (e, shift) = pick(&[("+ 1 day", 86400i64), ("- 2 weeks", -14 * 86400), ("tomorrow", 86400), ("@ + 1 minute", 60), ("@ last minute", -60), ("yesterday @ next hour", -86400 + 3600)]);
  let r = execute_datetime_expression(&base, e);
  reach("day");
  check(r.is_ok(), "an expression is refused for some base");
  if let Ok(d) = r { check(d.timestamp() == t + shift, "an expression leads to another time for some base"); }
}

/// The first and last days of the calendar.
#[no_mangle] pub extern "C" fn quick_c20_ends() {
  let late = flag();
  let n = [0i64, 1, 6, 7, 30, 31, 334, 335, 365][choose(9)];
  let a = At { day: if late { days(262142, 12, 31) - n } else { days(-262143, 1, 1) + n } as i128, ms: pick(&[0i128, DAY - 1]) };
  let plus = flag();
  let (exp, want) = match choose(3) {
    0 => (if plus { "tomorrow" } else { "yesterday" }.to_string(), adjusted(a, Day, if plus { 1 } else { -1 })),
    1 => {
      let (word, unit, k) = pick(&[("day", Day, 1), ("fortnight", Week, 2), ("month", Month, 1), ("year", Year, 1), ("mon", Weekday(0), 1), ("sun", Weekday(6), 1), ("jan", Named(1), 1), ("feb", Named(2), 1), ("dec", Named(12), 1)]);
      (format!("{} {}", if plus { "next" } else { "last" }, word), adjusted(a, unit, if plus { k } else { -k }))
    }
    _ => {
      let (word, unit) = pick(&[("day", Day), ("week", Week), ("month", Month), ("year", Year)]);
      (format!("{} 1 {}", if plus { "+" } else { "-" }, word), adjusted(a, unit, if plus { 1 } else { -1 }))
    }
  };
  verdict(execute_date_expression(&to_utc(a), &exp), want, "an expression at an end of the calendar leads to another date");
}
