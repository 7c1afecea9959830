//! Headers.
use crate::vp::*;
use pact_models::headers::{parse_header, SINGLE_VALUE_HEADERS};
use pact_models::http_parts::HttpPart;
use pact_models::json_utils::{headers_from_json, headers_to_json};
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::collections::HashMap;

type Headers = HashMap<String, Vec<String>>;
fn up(c: u8) -> u8 { if c.is_ascii_lowercase() { c - 32 } else { c } }
/// The name with the case of every letter arbitrary.
fn recase(s: &str) -> String {
  let v = s.bytes().map(|c| if c.is_ascii_alphabetic() { byte_in(&[c.to_ascii_lowercase(), up(c.to_ascii_lowercase())]) } else { c }).collect();
  unsafe { String::from_utf8_unchecked(v) }
}
const NAMES: [&str; 4] = ["x-a", "Content-Type", "X_1", "date"];
fn same_name(a: &str, b: &str) -> bool { a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| up(x) == up(y)) }
fn token(n: usize) -> String { text(n, b"!#$%&'*+-.^_`|~09azAZkKsS") }
fn part(k: usize, h: Option<Headers>) -> Box<dyn HttpPart> {
  match k { 0 => Box::new(Request { headers: h, .. Default::default() }), 1 => Box::new(Response { headers: h, .. Default::default() }), 2 => Box::new(HttpRequest { headers: h, .. Default::default() }), _ => Box::new(HttpResponse { headers: h, .. Default::default() }) }
}
/// A list of up to two short texts.
fn values() -> Vec<String> { (0..choose(3)).map(|_| ascii_upto(0, 1)).collect() }

/// Any name against a header of any name.
#[no_mangle] pub extern "C" fn quick_c16_lookup() {
  let n = 1 + choose(3);
  let name = token(n);
  let v = values();
  let mut h: Headers = HashMap::new();
  h.insert(name.clone(), v.clone());
  if flag() { h.insert("other".into(), vec!["o".into()]); }
  let p = part(choose(4), Some(h));
  let asked = token(n);
  let found = p.lookup_header_value(&asked);
  let want = same_name(&name, &asked);
  if want { reach("found") } else { reach("not found") }
  check(found.is_some() == want, "a header is not found under its name, or found under another");
  check(p.has_header(&asked) == want, "a header is not known under its name, or known under another");
  if let Some(f) = found { check(f == v.join(", "), "the value of a header is another one"); }
}
/// The names that matter, in any mixture of case.
#[no_mangle] pub extern "C" fn quick_c16_case() {
  let n = pick(&NAMES);
  let mut h: Headers = HashMap::new();
  h.insert(recase(n), vec!["v".into()]);
  h.insert("z".into(), vec!["w".into()]);
  let p = part(choose(4), Some(h));
  let q = recase(n);
  reach("case");
  check(p.lookup_header_value(&q) == Some("v".to_string()), "a header is not found in another case");
  check(p.has_header(&q), "a header is not known in another case");
  check(!p.has_header("y") && !part(choose(4), None).has_header(n), "a header that is not there is found");
}
/// Setting a header.
#[no_mangle] pub extern "C" fn quick_c16_set() {
  let n = 1 + choose(2);
  let a = token(n);
  let b = if flag() { token(n) } else { "x-b".to_string() };
  assume(!same_name(&a, &b));
  let old: Option<Headers> = match choose(4) { 0 => None, 1 => Some(HashMap::new()), 2 => Some([(a.clone(), vec!["1".to_string()])].into()), _ => Some([(a.clone(), vec!["1".to_string(), "2".to_string()]), (b.clone(), vec!["3".to_string()])].into()) };
  let name = token(n);
  let k = choose(3);
  let vals: Vec<&str> = ["u", "w"][..k].to_vec();
  let want: Vec<String> = vals.iter().map(|s| s.to_string()).collect();
  let now = if flag() { let mut p = HttpRequest { headers: old.clone(), .. Default::default() }; p.set_header(name.as_str(), &vals); p.headers } else { let mut p = HttpResponse { headers: old.clone(), .. Default::default() }; p.set_header(name.as_str(), &vals); p.headers };
  let now = now.unwrap_or_default();
  let old = old.unwrap_or_default();
  let replaced: Vec<&String> = old.keys().filter(|k| same_name(k, &name)).collect();
  if replaced.is_empty() { reach("new"); check(now.len() == old.len() + 1 && now.get(&name) == Some(&want), "a new header is not set"); }
  else { reach("replaced"); check(now.len() == old.len() && now.get(replaced[0]) == Some(&want), "setting a header does not replace its values"); }
  for (k, v) in &old { if !same_name(k, &name) { check(now.get(k) == Some(v), "setting a header changes another one"); } }
}
#[no_mangle] pub extern "C" fn quick_c16_add() {
  let a = token(1);
  let b = token(1);
  let mut p = part(choose(4), if flag() { Some([(a.clone(), vec!["1".to_string()])].into()) } else { None });
  let had = p.headers().is_some();
  p.add_header(&b, vec!["u", "w"]);
  reach("add");
  let h = p.headers().clone().unwrap_or_default();
  check(h.get(&b) == Some(&vec!["u".to_string(), "w".to_string()]), "an added header is not there");
  if had && a != b { check(h.get(&a) == Some(&vec!["1".to_string()]), "adding a header changes another one"); }
}

fn blank(b: u8) -> bool { b == b' ' || (9..=13).contains(&b) }
fn trim(b: &[u8]) -> &[u8] { let mut i = 0; let mut j = b.len(); while i < j && blank(b[i]) { i += 1; } while j > i && blank(b[j - 1]) { j -= 1; } &b[i..j] }
fn single(n: &str) -> bool { SINGLE_VALUE_HEADERS.iter().any(|s| same_name(s, n)) }
const SINGLE: [&str; 9] = ["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];
fn parse(n: usize) {
  let name = match choose(3) { 0 => "x".to_string(), 1 => recase(pick(&["accept", "vary"])), _ => { if flag() { recase("date") } else { pick(&SINGLE).to_uppercase() } } };
  let s = text_upto(0, n, b"a,; \tB\"=");
  let r = parse_header(&name, &s);
  // the parts between commas, without surrounding blanks
  let mut want: Vec<Vec<u8>> = vec![];
  let b = s.as_bytes();
  if single(&name) { reach("single"); want.push(trim(b).to_vec()); }
  else { reach("multiple"); let mut st = 0; for i in 0..=b.len() { if i == b.len() || b[i] == b',' { want.push(trim(&b[st..i]).to_vec()); st = i + 1; } } }
  let kept: Vec<&[u8]> = r.iter().map(|x| x.as_bytes()).filter(|x| !x.is_empty()).collect();
  let want: Vec<&Vec<u8>> = want.iter().filter(|x| !x.is_empty()).collect();
  check(kept.len() == want.len() && kept.iter().zip(&want).all(|(a, b)| *a == b.as_slice()), "a header value is parsed into other parts than it has");
}
#[no_mangle] pub extern "C" fn quick_c16_parse() { parse(4) }
#[no_mangle] pub extern "C" fn deep_c16_parse() { parse(6) }
/// The headers that hold one value are the known ones.
#[no_mangle] pub extern "C" fn quick_c16_single() {
  let n = pick(&SINGLE);
  let v = text(1, b"ab") + "," + &text(1, b"ab ");
  reach("single");
  check(parse_header(&recase(n), &v) == vec![v.trim_end().to_string()], "the value of a header that holds one value is split");
  let j = json!({ "headers": { n.to_uppercase(): v } });
  check(headers_from_json(&j).and_then(|h| h.get(&n.to_uppercase()).cloned()) == Some(vec![v.trim_end().to_string()]), "the value of a header that holds one value is split when read");
}

fn map(a: &str, v: &[String], more: usize) -> Headers {
  let mut h: Headers = HashMap::new();
  if more < 3 { h.insert(a.to_string(), v.to_vec()); }
  if more == 1 { h.insert("b".into(), vec!["1".into(), "2".into()]); }
  if more == 2 { h.insert("Date".into(), vec!["Mon, 1".into()]); }
  h
}
fn through(k: usize, h: &Option<Headers>) -> Option<Option<Headers>> {
  Some(match k {
    0 => HttpRequest::from_json(&HttpRequest { headers: h.clone(), .. Default::default() }.to_json()).ok()?.headers,
    1 => HttpResponse::from_json(&HttpResponse { headers: h.clone(), .. Default::default() }.to_json()).ok()?.headers,
    2 => { let v = pick(&[PactSpecification::V1, PactSpecification::V2, PactSpecification::V3]); Request::from_json(&Request { headers: h.clone(), .. Default::default() }.to_json(&v), &v).ok()?.headers }
    3 => { let v = pick(&[PactSpecification::V1, PactSpecification::V2, PactSpecification::V3]); Response::from_json(&Response { headers: h.clone(), .. Default::default() }.to_json(&v), &v).ok()?.headers }
    _ => headers_from_json(&json!({ "headers": headers_to_json(h.as_ref().unwrap_or(&HashMap::new())) })),
  })
}
fn same_headers(a: &Headers, b: &Headers) -> bool { a.len() == b.len() && a.iter().all(|(k, v)| b.get(k) == Some(v)) }
/// V4: any list of any values.
fn v4(n: usize) {
  let name = ascii(1);
  assume(name != "b" && name != "D");
  let v: Vec<String> = (0..choose(n + 1)).map(|_| ascii_upto(0, 2)).collect();
  let h = if flag() { Some(map(&name, &v, choose(4))) } else { None };
  match through(choose(2), &h) {
    Some(r) => { reach("v4"); check(match (&r, &h) { (None, None) => true, (Some(a), Some(b)) => same_headers(a, b), _ => false }, "headers written in V4 form and read are others"); }
    None => fail("a part with headers is refused"),
  }
}
#[no_mangle] pub extern "C" fn quick_c16_v4() { v4(2) }
#[no_mangle] pub extern "C" fn deep_c16_v4() { v4(3) }
/// V1 to V3: lists of values without commas or surrounding blanks; one value for the headers that hold one.
fn v3(n: usize) {
  let one = flag();
  let name = if one { recase(pick(&["date", "User-Agent", "set-cookie"])) } else { ascii(1) };
  assume(name != "b");
  let set: Vec<u8> = (0..128u8).filter(|c| one || *c != b',').collect();
  let v: Vec<String> = (0..if one { 1 } else { 1 + choose(n) }).map(|_| { let s = text_upto(0, 3, &set); let b = s.as_bytes(); if !b.is_empty() { assume(!blank(b[0]) && !blank(b[b.len() - 1])); } s }).collect();
  let more = choose(4);
  assume(!(one && more == 2));
  let h = Some(map(&name, &v, more));
  match through(2 + choose(3), &h) {
    Some(Some(r)) => { reach("v3"); check(same_headers(&r, h.as_ref().unwrap()), "headers written in V3 form and read are others"); }
    Some(None) => fail("headers are lost"),
    None => fail("a part with headers is refused"),
  }
}
#[no_mangle] pub extern "C" fn quick_c16_v3() { v3(2) }
#[no_mangle] pub extern "C" fn deep_c16_v3() { v3(3) }
/// Whatever a document has for its headers.
#[no_mangle] pub extern "C" fn quick_c16_shapes() {
  let junk = match choose(6) { 0 => Value::Null, 1 => json!(true), 2 => json!(byte()), 3 => json!(1.5), 4 => json!({ "x": 1 }), _ => Value::String(ascii_upto(0, 2)) };
  let v = match choose(4) { 0 => junk.clone(), 1 => json!([]), 2 => json!([junk]), _ => json!(["a,b", junk]) };
  let j = match choose(3) { 0 => json!({ "headers": v }), 1 => json!({ "headers": { "h": v, "i": "1, 2" } }), _ => json!({ "headers": { "user-agent": v } }) };
  let r = headers_from_json(&j);
  reach("shape");
  let h = j.get("headers").unwrap();
  check(r.is_some() == h.is_object(), "headers appear or are lost");
  if let (Some(r), Some(o)) = (r, h.as_object()) {
    check(r.len() == o.len(), "headers appear or are lost");
    for (k, v) in o {
      let got = r.get(k).cloned().unwrap_or_default();
      match v {
        Value::Array(a) => check(got.len() == a.len() && a.iter().zip(&got).all(|(x, y)| match x { Value::String(s) => s == y, _ => true }), "a list of header values is read as another list"),
        Value::String(s) if k == "i" => check(got == vec!["1".to_string(), "2".to_string()] && s == "1, 2", "a header beside a malformed one is lost"),
        Value::String(_) => (),
        _ => check(got.len() == 1, "a header with a value of another type is lost"),
      }
    }
  }
}
