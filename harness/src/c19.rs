//! Generated values, for every word the random source may return.
use crate::models::*;
use crate::vp::*;
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, UuidFormat, VariantMatcher};
use serde_json::{json, Value};
use std::collections::HashMap;

fn text_of(g: &Generator) -> anyhow::Result<String> { g.generate_value(&String::new(), &HashMap::new(), &NoopVariantMatcher.boxed()) }
fn json_of(g: &Generator, v: &Value) -> anyhow::Result<Value> { g.generate_value(v, &HashMap::new(), &NoopVariantMatcher.boxed()) }
fn warm() { let _ = text_of(&Generator::RandomBoolean); let _ = json_of(&Generator::RandomBoolean, &json!(1)); let _ = text_of(&Generator::Uuid(None)); blind(true); }
// without branches
fn within(c: u8, lo: u8, hi: u8) -> bool { (c >= lo) & (c <= hi) }
fn is_digit(c: u8) -> bool { within(c, b'0', b'9') }
fn all(b: &[u8], f: impl Fn(u8) -> bool) -> bool { b.iter().fold(true, |r, c| r & f(*c)) }

/// A random integer lies in its closed range.
fn int(g: &Generator, min: i32, max: i32) {
  match choose(3) {
    0 => match json_of(g, &json!(1)) {
      Ok(v) => { reach("number"); check(v.as_i64().map(|n| n >= min as i64 && n <= max as i64).unwrap_or(false), "a random integer is outside its range"); }
      Err(_) => { reach("error"); check(min > max, "no random integer is generated for a range that has some"); }
    },
    1 => match json_of(g, &json!("s")) {
      Ok(v) => { reach("text"); check(v.is_string(), "a random integer in the place of a text is none"); check(min <= max, "a random integer is generated for an empty range"); }
      Err(_) => check(min > max, "no random integer is generated for a range that has some")
    },
    _ => {
      let r: anyhow::Result<u16> = g.generate_value(&0, &HashMap::new(), &NoopVariantMatcher.boxed());
      match r {
        Ok(n) => { reach("u16"); check(n as i64 >= min as i64 && n as i64 <= max as i64, "a random unsigned integer is outside its range"); }
        Err(_) => check(min > max || max < 0 || min > 65535, "no random unsigned integer is generated for a range that has some")
      }
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c19_int_bytes() {
  warm();
  let min = u32v() as i32;
  let max = if flag() { u32v() as i32 } else { let w = byte() as i32; assume(min <= i32::MAX - w); min + w };
  if max < min { random_bytes(0); } else { assume(max as i64 - min as i64 <= 255 || max as i64 - min as i64 >= 0xffff_fff0); random_bytes(1); }
  int(&Generator::RandomInt(min, max), min, max);
}
#[no_mangle] pub extern "C" fn quick_c19_int_words() {
  warm();
  let (min, max) = match choose(8) { 0 => (0, 9), 1 => (i32::MIN, i32::MAX), 2 => (i32::MAX - 1, i32::MAX), 3 => (i32::MIN, i32::MIN), 4 => (-5, 7), 5 => (0, 65536), 6 => (-1, 65535), _ => (5, 4) };
  random_words(2);
  int(&Generator::RandomInt(min, max), min, max);
}

/// As many digits as asked for around one point that is neither first nor last, without superfluous leading zeros.
fn good_decimal(s: &str, digits: usize) -> bool {
  let b = s.as_bytes();
  match digits {
    0 => b.is_empty(),
    1 => b.len() == 1 && is_digit(b[0]),
    _ => {
      if b.len() != digits + 1 { return false; }
      let points: usize = b.iter().map(|c| (*c == b'.') as usize).sum();
      let others: usize = b.iter().map(|c| is_digit(*c) as usize).sum();
      points == 1 && others == digits && b[0] != b'.' && b[digits] != b'.' && (b[0] != b'0' || b[1] == b'.')
    }
  }
}
fn decimal(n: usize) {
  warm();
  let digits = choose(n + 1);
  random_bytes(digits + 3);
  match text_of(&Generator::RandomDecimal(digits as u16)) {
    Ok(s) => { reach("decimal"); check(good_decimal(&s, digits), "a random decimal has not the requested number of digits around one point"); }
    Err(_) => fail("no random decimal is generated")
  }
}
#[no_mangle] pub extern "C" fn quick_c19_decimal() { decimal(5) }
#[no_mangle] pub extern "C" fn deep_c19_decimal() { decimal(6) }
/// In JSON: a text in the place of a text, a number in the place of a number.
#[no_mangle] pub extern "C" fn quick_c19_decimal_json() {
  warm();
  let digits = choose(4);
  random_bytes(digits + 3);
  let g = Generator::RandomDecimal(digits as u16);
  match choose(3) {
    0 => match json_of(&g, &json!("s")) { Ok(Value::String(s)) => { reach("text"); check(good_decimal(&s, digits), "a random decimal has not the requested number of digits around one point"); } _ => fail("no random decimal is generated in the place of a text") },
    1 => { random_bytes(0); match json_of(&g, &json!(1)) { Ok(Value::Number(_)) => reach("number"), Ok(_) => fail("a random decimal in the place of a number is none"), Err(_) => check(digits == 0, "no random decimal is generated in the place of a number") } }
    _ => match json_of(&g, &pick(&[json!(null), json!([1]), json!(true)])) { Ok(Value::String(s)) => { reach("other"); check(good_decimal(&s, digits), "a random decimal has not the requested number of digits around one point"); } _ => fail("no random decimal is generated") },
  }
}
fn hexadecimal(n: usize) {
  warm();
  let digits = choose(n + 1);
  random_bytes(digits);
  let g = Generator::RandomHexadecimal(digits as u16);
  let s = if flag() { text_of(&g).ok() } else { json_of(&g, &json!("s")).ok().and_then(|v| v.as_str().map(|s| s.to_string())) };
  match s {
    Some(s) => { reach("hexadecimal"); check(s.len() == digits && all(s.as_bytes(), |c| is_digit(c) | within(c, b'A', b'F') | within(c, b'a', b'f')), "a random hexadecimal value has not the requested digits"); }
    None => fail("no random hexadecimal value is generated")
  }
}
#[no_mangle] pub extern "C" fn quick_c19_hexadecimal() { hexadecimal(4) }
#[no_mangle] pub extern "C" fn deep_c19_hexadecimal() { hexadecimal(5) }
fn string(n: usize) {
  warm();
  let size = choose(n + 1);
  random_bytes(size + 1);
  let g = Generator::RandomString(size as u16);
  let s = if flag() { text_of(&g).ok() } else { json_of(&g, &json!("s")).ok().and_then(|v| v.as_str().map(|s| s.to_string())) };
  match s {
    Some(s) => { reach("string"); check(s.len() == size && all(s.as_bytes(), |c| is_digit(c) | within(c, b'A', b'Z') | within(c, b'a', b'z')), "a random string has not the requested size and alphabet"); }
    None => fail("no random string is generated")
  }
}
#[no_mangle] pub extern "C" fn quick_c19_string() { string(12) }
#[no_mangle] pub extern "C" fn deep_c19_string() { string(24) }
/// Sizes beyond any alphabet, with a fixed random source.
#[no_mangle] pub extern "C" fn quick_c19_sizes() {
  warm();
  let n = pick(&[10u16, 16, 17, 33, 63, 100, 300]);
  random_bytes(if flag() { 1 } else { 0 });
  reach("sizes");
  match text_of(&Generator::RandomString(n)) { Ok(s) => check(s.len() == n as usize, "a random string has not the requested size"), Err(_) => fail("no random string is generated") }
  match text_of(&Generator::RandomHexadecimal(n)) { Ok(s) => check(s.len() == n as usize, "a random hexadecimal value has not the requested number of digits"), Err(_) => fail("no random hexadecimal value is generated") }
  match text_of(&Generator::RandomDecimal(n)) { Ok(s) => check(good_decimal(&s, n as usize), "a random decimal has not the requested number of digits around one point"), Err(_) => fail("no random decimal is generated") }
}
/// UUIDs of version 4 in the format asked for.
#[no_mangle] pub extern "C" fn quick_c19_uuid() {
  warm();
  let f = pick(&[None, Some(UuidFormat::Simple), Some(UuidFormat::LowerCaseHyphenated), Some(UuidFormat::UpperCaseHyphenated), Some(UuidFormat::Urn)]);
  random_words(0);
  let g = Generator::Uuid(f);
  let s = if flag() { text_of(&g).ok() } else { json_of(&g, &json!("s")).ok().and_then(|v| v.as_str().map(|s| s.to_string())) };
  let s = match s { Some(s) => s, None => { fail("no UUID is generated"); return; } };
  reach("uuid");
  let (rest, upper, hyphens) = match f { Some(UuidFormat::Simple) => (s.as_str(), false, false), Some(UuidFormat::UpperCaseHyphenated) => (s.as_str(), true, true), Some(UuidFormat::Urn) => match s.strip_prefix("urn:uuid:") { Some(r) => (r, false, true), None => { fail("a UUID in URN format has no prefix"); return; } }, _ => (s.as_str(), false, true) };
  let b = rest.as_bytes();
  check(b.len() == if hyphens { 36 } else { 32 }, "a UUID has another length");
  let mut digits = vec![];
  for (i, c) in b.iter().enumerate() { if hyphens && (i == 8 || i == 13 || i == 18 || i == 23) { check(*c == b'-', "a UUID has no hyphen in its place"); } else { digits.push(*c); } }
  check(all(&digits, |c| is_digit(c) | if upper { within(c, b'A', b'F') } else { within(c, b'a', b'f') }), "a UUID has a character that is no digit of its format");
  if digits.len() == 32 { check(digits[12] == b'4', "a UUID is not of version 4"); check(within(digits[16], b'8', b'9') | within(digits[16], b'a', b'b') | within(digits[16], b'A', b'B'), "a UUID is not of its variant"); }
}
#[no_mangle] pub extern "C" fn quick_c19_boolean() {
  warm();
  random_bytes(1);
  let g = Generator::RandomBoolean;
  reach("boolean");
  if flag() { match text_of(&g) { Ok(s) => check(s == "true" || s == "false", "a random boolean is none"), Err(_) => fail("no random boolean is generated") } }
  else { match json_of(&g, &pick(&[json!(1), json!("s"), json!(null)])) { Ok(v) => check(v.is_boolean(), "a random boolean is none"), Err(_) => fail("no random boolean is generated") } }
}
/// Texts generated from a regular expression match it.
#[no_mangle] pub extern "C" fn quick_c19_regex() {
  warm();
  let k = choose(9);
  let (re, n) = [("\\d{2}", 2), ("^[a-c]x?$", 2), ("a|bc", 1), ("^\\w$", 1), ("(ab){1,2}[a-wyz]", 2), ("", 0), ("[", 0), ("^$", 0), ("a+", 1)][k];
  let g = Generator::Regex(re.into());
  let _ = text_of(&g);
  random_bytes(n);
  let s = if flag() { text_of(&g).ok() } else { json_of(&g, &json!("s")).ok().and_then(|v| v.as_str().map(|s| s.to_string())) };
  reach("regex");
  let s = match s { Some(s) => s, None => { check(k == 6, "no text is generated from a regular expression"); return; } };
  let b = s.as_bytes();
  check(match k {
    0 => b.len() == 2 && is_digit(b[0]) && is_digit(b[1]),
    1 => (b.len() == 1 || (b.len() == 2 && b[1] == b'x')) && b[0] >= b'a' && b[0] <= b'c',
    2 => s == "a" || s == "bc",
    3 => b.len() == 1 && (b[0].is_ascii_alphanumeric() || b[0] == b'_'),
    4 => (b.len() == 3 || b.len() == 5) && s.starts_with("ab") && (b.len() == 3 || &b[2..4] == b"ab") && within(b[b.len() - 1], b'a', b'z') && b[b.len() - 1] != b'x',
    8 => b.len() >= 1 && b.iter().all(|c| *c == b'a'),
    6 => false,
    _ => s.is_empty(),
  }, "a text generated from a regular expression does not match it");
}
/// URLs of the mock server: the address given by the context, followed by what the group matches.
#[no_mangle] pub extern "C" fn quick_c19_url() {
  warm();
  let (example, re, want): (&str, &str, Option<&str>) = pick(&[
    ("http://h:1/a/b", ".*(/a/b)$", Some("U/a/b")), ("http://h:1/a/b", ".*\\/(a)\\/b", Some("Ua")), ("x", "y", Some("x")), ("abc", "b", Some("aUc")), ("http://h/a", "http://h(/x)?", Some("U/a")), ("a", "(", None), ("", "", Some("U"))]);
  let warm_up: HashMap<&str, Value> = [("mockServer", json!({ "url": "V" }))].into();
  let g = Generator::MockServerURL(example.into(), re.into());
  let m = NoopVariantMatcher.boxed();
  let _: anyhow::Result<String> = g.generate_value(&String::new(), &warm_up, &m);
  let u = str_sym();
  let ctx: HashMap<&str, Value> = match choose(4) { 0 => HashMap::new(), 1 => [("mockServer", json!("x"))].into(), 2 => [("mockServer", json!({}))].into(), _ => [("mockServer", json!({ "url": u }))].into() };
  reach("url");
  let s = if flag() { let r: anyhow::Result<String> = g.generate_value(&String::new(), &ctx, &m); r.ok() } else { let r: anyhow::Result<Value> = g.generate_value(&json!(1), &ctx, &m); r.ok().and_then(|v| v.as_str().map(|s| s.to_string())) };
  let given = ctx.get("mockServer").map(|v| v.is_object() && v.get("url").is_some()).unwrap_or(false);
  match (want, s) {
    (Some(w), Some(s)) if given => check(s == w.replace('U', &u), "the URL of a mock server is another one"),
    (w, s) => check(s.is_none() && (w.is_none() || !given), "the URL of a mock server is generated from nothing, or is not generated"),
  }
}
/// Several values of a header or query parameter: one value.
#[no_mangle] pub extern "C" fn quick_c19_list() {
  warm();
  let vals: Vec<String> = (0..choose(3)).map(|_| str_sym()).collect();
  let ctx: HashMap<&str, Value> = [("k", json!(str_sym()))].into();
  let (name, found) = pick(&[("k", true), ("${k}", true), ("l", false), ("${l}", false)]);
  reach("list");
  let g = Generator::ProviderStateGenerator(name.into(), None);
  let r: anyhow::Result<Vec<String>> = g.generate_value(&vals, &ctx, &NoopVariantMatcher.boxed());
  match r { Ok(v) => check(found && v.len() == 1 && Some(v[0].as_str()) == ctx["k"].as_str(), "a value from the provider state is another one"), Err(_) => check(!found, "a value from the provider state is not found") }
}
