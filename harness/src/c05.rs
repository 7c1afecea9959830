//! Query strings.
use crate::vp::*;
use pact_models::query_strings::*;
use pact_models::request::Request;
use pact_models::PactSpecification;
use std::collections::HashMap;

/// Finding C05-non-ascii: non-ASCII characters are encoded as the hex digits of their code point instead of UTF-8 (an
/// existing test demands it, so it is recorded, not repaired). Anything but that encoding is a different violation.
fn recorded(s: &str) -> bool {
  if s.is_ascii() { return false; }
  let e = encode_query(s);
  let mut x = String::new();
  for c in s.chars() {
    if c.is_ascii_alphanumeric() || c == '-' { x.push(c); }
    else if c == ' ' { x.push('+'); }
    else {
      let h = format!("{:x}", c as u32);
      let h = if h.len() % 2 == 1 { format!("0{}", h) } else { h };
      for p in h.as_bytes().chunks(2) { x.push('%'); x.push(p[0] as char); x.push(p[1] as char); }
    }
  }
  if e == x { known("C05-non-ascii"); true } else { false }
}

fn roundtrip(s: String) {
  let e = encode_query(&s);
  recorded(&s);
  let d = decode_query(&e);
  reach("encoded");
  match d {
    Ok(d) => check(same(d.as_bytes(), s.as_bytes()), "decode_query(encode_query(s)) is not s"),
    Err(_) => fail("an encoded value does not decode"),
  }
}
#[no_mangle] pub extern "C" fn quick_c05_value_ascii() { roundtrip(ascii_upto(0, 3)) }
#[no_mangle] pub extern "C" fn quick_c05_value_char() { roundtrip(utf8_char()) }
#[no_mangle] pub extern "C" fn quick_c05_value_mixed() { roundtrip(unicode(3, &["é", "日", "😀", "²"])) }
#[no_mangle] pub extern "C" fn deep_c05_value_ascii() { roundtrip(ascii(5)) }
#[no_mangle] pub extern "C" fn deep_c05_value_chars() { let mut s = utf8_char(); s.push_str(&utf8_char()); roundtrip(s) }

fn total(s: String) {
  let d = decode_query(&s);
  let q = parse_query_string(&s);
  reach("parsed");
  check(q.is_none() == s.is_empty(), "only an empty query string is no query");
  if let Ok(d) = d {
    // text without escapes stands for itself
    if !s.contains('%') && !s.contains('+') { check(same(d.as_bytes(), s.as_bytes()), "unescaped text changed by decoding"); }
  }
}
#[no_mangle] pub extern "C" fn quick_c05_total_ascii() { total(ascii_upto(0, 4)) }
#[no_mangle] pub extern "C" fn quick_c05_total_unicode() { total(unicode(3, &["é", "日", "😀"])) }
#[no_mangle] pub extern "C" fn deep_c05_total_ascii() { total(ascii(6)) }

type Q = HashMap<String, Vec<Option<String>>>;
fn value(n: usize) -> Option<String> { match choose(n + 2) { 0 => None, k => Some(ascii(k - 1)) } }
fn recorded_map(q: &Q) {
  for (k, v) in q {
    recorded(k);
    for v in v { if let Some(v) = v { recorded(v); } }
  }
}
fn build_parse(q: Q) {
  recorded_map(&q);
  let s = build_query_string(q.clone());
  let p = parse_query_string(&s).unwrap_or_default();
  reach("rebuilt");
  check(p.len() == q.len(), "a parameter appeared or disappeared");
  for (k, v) in &q {
    match p.get(k) {
      None => fail("a parameter is lost"),
      Some(w) => check(v == w, "values of a parameter differ"),
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c05_map_key() {
  let mut q: Q = HashMap::new();
  q.insert(ascii(1 + choose(2)), vec![value(0)]);
  build_parse(q)
}
#[no_mangle] pub extern "C" fn quick_c05_map_values() {
  let mut q: Q = HashMap::new();
  let n = 1 + choose(2);
  q.insert("k".into(), (0..n).map(|_| value(1)).collect());
  build_parse(q)
}
#[no_mangle] pub extern "C" fn quick_c05_map_two() {
  let mut q: Q = HashMap::new();
  let (a, b) = (ascii(1), ascii(1));
  assume(a != b);
  q.insert(a, vec![Some("1".into()), None]);
  q.insert(b, vec![Some(ascii(1)), Some("1".into())]);
  build_parse(q)
}
#[no_mangle] pub extern "C" fn deep_c05_map() {
  let mut q: Q = HashMap::new();
  let (a, b) = (ascii(1 + choose(2)), ascii(1));
  assume(a != b);
  q.insert(a, vec![value(1), value(1)]);
  q.insert(b, vec![value(1)]);
  build_parse(q)
}
#[no_mangle] pub extern "C" fn quick_c05_map_unicode() {
  let mut q: Q = HashMap::new();
  q.insert(unicode(1, &["é", "日"]), vec![Some(unicode(2, &["é", "😀"]))]);
  build_parse(q)
}

/// The query of a request written into a document and read back.
fn in_request(v: PactSpecification, q: Q) {
  if v < PactSpecification::V3 { recorded_map(&q); }
  let r = Request { query: Some(q.clone()), ..Request::default() };
  let j = r.to_json(&v);
  match Request::from_json(&j, &v) {
    Err(_) => fail("request not read back"),
    Ok(b) => {
      reach("reloaded");
      match b.query {
        None => fail("query lost"),
        Some(p) => {
          check(p.len() == q.len(), "a parameter appeared or disappeared");
          for (k, v) in &q { match p.get(k) { None => fail("a parameter is lost"), Some(w) => check(v == w, "values of a parameter differ") } }
        }
      }
    }
  }
}
fn spec() -> PactSpecification { pick(&[PactSpecification::V1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4]) }
#[no_mangle] pub extern "C" fn quick_c05_request() {
  let v = spec();
  let mut q: Q = HashMap::new();
  q.insert(ascii(1), vec![value(1), Some("x y".into())]);
  in_request(v, q)
}
#[no_mangle] pub extern "C" fn quick_c05_request_unicode() {
  let v = spec();
  let mut q: Q = HashMap::new();
  q.insert("ké".into(), vec![Some(utf8_char()), None]);
  in_request(v, q)
}
#[no_mangle] pub extern "C" fn deep_c05_request() {
  let v = spec();
  let mut q: Q = HashMap::new();
  q.insert(ascii(2), vec![value(1), value(1)]);
  q.insert("zz".into(), vec![None, value(0)]);
  in_request(v, q)
}
/// Query values of other JSON types: each item stands for itself.
#[no_mangle] pub extern "C" fn quick_c05_object_items() {
  use serde_json::json;
  let d = pick(b"0123456789") ;
  let n = (d - b'0') as i64;
  let j = json!({ "a": ["x", n, true, null] });
  match v3_query_from_json(&j, &PactSpecification::V3) {
    None => fail("query object not read"),
    Some(q) => {
      reach("read");
      check(q.get("a") == Some(&vec![Some("x".to_string()), Some(n.to_string()), Some("true".to_string()), None]), "an item of a query value list is not kept");
    }
  }
}
