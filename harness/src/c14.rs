//! Bodies.
use crate::models::*;
use crate::vp::*;
use bytes::Bytes;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::*;
use pact_models::json_utils::body_from_json as v3_body;
use pact_models::message::Message;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::http_parts::{body_from_json as v4_body, HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::collections::HashMap;

fn warm() { for s in ["<?xml version", " <a>", "{\"a\"", "tru", "\u{e9}", "<HTML>", " <!doctype", ""] { let _ = detect_content_type_from_bytes(s.as_bytes()); let _ = detect_content_type_from_string(s); } }
const TEXT_TYPES: [&str; 4] = ["text/plain", "application/xml", "text/html;charset=utf-8", "application/x-www-form-urlencoded"];
const JSON_TYPES: [&str; 3] = ["application/json", "application/hal+json", "application/json;charset=UTF-8"];
const BINARY_TYPES: [&str; 4] = ["application/octet-stream", "image/png", "multipart/form-data; boundary=\"a b\"", "x/y"];

/// The bytes of a body: up to `n` of any value, or texts of some kind.
fn bytes(n: usize) -> Vec<u8> {
  match choose(4) {
    0 => (0..1 + choose(n)).map(|_| byte()).collect(),
    1 => { let mut v = utf8_char().into_bytes(); v.push(b'x'); v }
    2 => samples(),
    _ => { let mut v = pick(&["<", "{", "\"", "1", "tru"]).as_bytes().to_vec(); v.push(byte()); v }
  }
}
fn samples() -> Vec<u8> { match choose(3) { 0 => vec![0xff, byte()], 1 => vec![byte() | 0x80, 0x41], _ => pick(&["abcd", "YWI=", "{\"a\": 1}", "[INFO] x", "123abc", "\"x\"", "null", "true", "<a/>", " ", "\u{feff}x", "\"\""]).as_bytes().to_vec() } }
/// A text, or bytes that are none, to be looked at for what it starts like.
fn looked_at() -> Vec<u8> { match choose(4) { 0 => ascii_upto(1, 2).into_bytes(), 1 => samples(), 2 => { let mut v = pick(&["<", "{", "\"", "1", "tru", "[ "]).as_bytes().to_vec(); v.extend_from_slice(ascii(1).as_bytes()); v } _ => vec![0xff, byte()] } }
fn like_json(b: &[u8]) -> bool { std::str::from_utf8(b).ok().and_then(detect_content_type_from_string).map(|c| c.is_json()).unwrap_or(false) }
fn ct(s: &str) -> Option<ContentType> { ContentType::parse(s).ok() }
fn headers(name: &str, c: &str) -> Option<HashMap<String, Vec<String>>> { Some([(name.to_string(), vec![c.to_string()])].into()) }
const V4_WAYS: usize = 5;
/// A body with the content type it has, its part has, or none, written in V4 form and read.
fn through_v4(way: usize, b: &OptionalBody, c: Option<&str>) -> Option<OptionalBody> {
  let h = c.and_then(|c| headers(pick(&["Content-Type", "content-type"]), c));
  match way {
    0 => HttpRequest::from_json(&HttpRequest { body: b.clone(), headers: h, .. Default::default() }.to_json()).ok().map(|r| r.body),
    1 => HttpResponse::from_json(&HttpResponse { body: b.clone(), headers: h, .. Default::default() }.to_json()).ok().map(|r| r.body),
    2 => { let m = match c { Some(c) => [("contentType".to_string(), json!(c))].into(), None => HashMap::new() };
      MessageContents::from_json(&MessageContents { contents: b.clone(), metadata: m, .. Default::default() }.to_json()).ok().map(|r| r.contents) }
    3 => Some(v4_body(&json!({ "b": b.to_v4_json() }), "b", &None)),
    _ => Some(v4_body(&json!({ "b": b.to_v4_json() }), "b", &h)),
  }
}
fn same_bytes(b: &OptionalBody, v: &[u8]) -> bool { match b { OptionalBody::Present(w, _, _) => &w[..] == v, OptionalBody::Empty => v.is_empty(), _ => false } }
fn kept(b: &OptionalBody, c: &Option<ContentType>) -> bool { match b { OptionalBody::Present(_, Some(d), _) => c.as_ref() == Some(d), _ => false } }

/// Text and binary types, V4: every byte.
fn v4_bytes(n: usize) {
  warm();
  let wide = flag();
  let v = if wide { bytes(n) } else { pick(&[vec![0xff], b"abcd".to_vec(), b"1".to_vec(), "\u{e9}".as_bytes().to_vec()]) };
  let t = if wide { pick(&["text/plain", "image/png"]) } else if flag() { pick(&TEXT_TYPES) } else { pick(&BINARY_TYPES) };
  let own = flag();
  let hint = if own && !wide { pick(&[None, Some(ContentTypeHint::BINARY), Some(ContentTypeHint::TEXT), Some(ContentTypeHint::DEFAULT)]) } else { None };
  let b = OptionalBody::Present(Bytes::from(v.clone()), if own { ct(t) } else { None }, hint);
  let way = choose(V4_WAYS);
  if own || way < 3 {
    match through_v4(way, &b, Some(t)) {
      Some(r) => { reach("declared"); check(same_bytes(&r, &v), "a body written in V4 form and read has other bytes"); check(kept(&r, &ct(t)), "a body written in V4 form and read has another content type"); if let OptionalBody::Present(_, _, h) = &r { check(*h == hint, "the content type hint of a body is another one"); } }
      None => fail("a part with a body is refused"),
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c14_v4_bytes() { v4_bytes(2) }
#[no_mangle] pub extern "C" fn deep_c14_v4_bytes() { v4_bytes(4) }
/// No content type anywhere: a text that reads as JSON keeps its JSON value, anything else its bytes.
#[no_mangle] pub extern "C" fn quick_c14_v4_none() {
  warm();
  let v = looked_at();
  let b = OptionalBody::Present(Bytes::from(v.clone()), None, None);
  match through_v4(choose(4), &b, None) {
    Some(r) => {
      reach("body");
      if same_bytes(&r, &v) { return; }
      let j: Option<Value> = if like_json(&v) { serde_json::from_slice(&v).ok() } else { None };
      match (&r, j) {
        (OptionalBody::Null, Some(Value::Null)) => (),
        (OptionalBody::Present(w, _, _), Some(j)) => check(serde_json::from_slice::<Value>(w).ok() == Some(j), "a JSON body written in V4 form and read has another value"),
        _ => fail("a body without content type written in V4 form and read has other bytes"),
      }
    }
    None => fail("a part with a body is refused"),
  }
}
/// The JSON text of a document.
fn json_text(depth: usize) -> (String, Value) {
  match choose(4) {
    0 => { let s = unicode(1 + choose(2), &["\u{e9}", "\u{20ac}"]); let v = Value::String(s); (v.to_string(), v) }
    1 => { let v = Value::String(pick(&["", "{}", "{\"a\":1}", "\"x\"", "\"", "x", "1", "null", "[]", "YWJj", "a\"b\\"]).to_string()); (v.to_string(), v) }
    2 => { let v = json_text_doc(depth); (v.to_string(), v) }
    _ => { let t = pick(&[" { \"a\" : 1 } ", "[1,\n2]", "1.50", "-0", "1e3", "\"\\u00e9\"", "true", "{\"a\":{\"b\":[null]}}", "123456789012", "  \"\""]); (t.to_string(), serde_json::from_str(t).unwrap_or_default()) }
  }
}
/// A small document with concrete numbers.
fn json_text_doc(depth: usize) -> Value {
  if depth == 0 { return match choose(4) { 0 => Value::Null, 1 => json!(true), 2 => json!(12), _ => Value::String(ascii(1)) }; }
  match choose(5) { 0 => json!([]), 1 => json!({}), 2 => json!([json_text_doc(depth - 1), json_text_doc(0)]), 3 => obj(vec![("a", json_text_doc(depth - 1)), ("\u{e9}", json_text_doc(0))]), _ => json!([json_text_doc(depth - 1)]) }
}
fn same_json(b: &OptionalBody, j: &Value) -> bool { match b { OptionalBody::Null => j.is_null(), OptionalBody::Present(w, _, _) => serde_json::from_slice::<Value>(w).ok().as_ref() == Some(j), _ => false } }
fn v4_json(depth: usize) {
  warm();
  let (t, j) = json_text(depth);
  let c = pick(&JSON_TYPES);
  let own = flag();
  let b = OptionalBody::Present(Bytes::from(t), if own { ct(c) } else { None }, None);
  let way = choose(V4_WAYS);
  // a bare body is written with the content type of the body only
  assume(own || way < 3);
  match through_v4(way, &b, Some(c)) { Some(r) => { reach("json"); check(same_json(&r, &j), "a JSON body written in V4 form and read has another value"); } None => fail("a part with a body is refused") }
}
#[no_mangle] pub extern "C" fn quick_c14_v4_json() { v4_json(1) }
#[no_mangle] pub extern "C" fn deep_c14_v4_json() { v4_json(2) }
/// A JSON type with bytes that are no JSON.
#[no_mangle] pub extern "C" fn quick_c14_v4_bad_json() {
  warm();
  let v = if flag() { vec![byte()] } else { looked_at() };
  assume(serde_json::from_slice::<Value>(&v).is_err());
  let c = "application/json";
  let b = OptionalBody::Present(Bytes::from(v.clone()), ct(c), None);
  match through_v4(choose(V4_WAYS), &b, Some(c)) { Some(r) => { reach("no json"); check(same_bytes(&r, &v), "a body that is no JSON written in V4 form and read has other bytes"); } None => fail("a part with a body is refused") }
}
/// Missing, empty and null bodies.
#[no_mangle] pub extern "C" fn quick_c14_states() {
  let k = choose(3);
  let b = match k { 0 => OptionalBody::Missing, 1 => OptionalBody::Empty, _ => OptionalBody::Null };
  let c = pick(&[None, Some("text/plain"), Some("application/json"), Some("image/png")]);
  let way = pick(&[0, 1, 2, 5, 6, 7, 8]);
  let v = pick(&[PactSpecification::V1, PactSpecification::V2, PactSpecification::V3]);
  let h = c.and_then(|c| headers("Content-Type", c));
  let m = match c { Some(c) => [("contentType".to_string(), json!(c))].into(), None => HashMap::new() };
  let r = match way {
    0..=2 => through_v4(way, &b, c),
    5 => Request::from_json(&Request { body: b.clone(), headers: h, .. Default::default() }.to_json(&v), &v).ok().map(|r| r.body),
    6 => Response::from_json(&Response { body: b.clone(), headers: h, .. Default::default() }.to_json(&v), &v).ok().map(|r| r.body),
    7 => Message::from_json(0, &Message { contents: b.clone(), metadata: m, .. Default::default() }.to_json(&PactSpecification::V3), &PactSpecification::V3).ok().map(|r| r.contents),
    _ => { let j = match k { 0 => json!({}), 1 => json!({ "b": "" }), _ => json!({ "b": null }) }; Some(v3_body(&j, "b", &h)) }
  };
  match r {
    Some(r) => {
      reach("state");
      // a null body has no V4 form in this writer
      if k == 2 && way < 3 { check(matches!(r, OptionalBody::Missing | OptionalBody::Null), "a null body written in V4 form is read as one with contents"); if !matches!(r, OptionalBody::Null) { known("C14-null-v4"); } }
      check(std::mem::discriminant(&r) == std::mem::discriminant(&b), "a missing, empty or null body written and read is another one");
    }
    None => fail("a part without a body is refused"),
  }
}
/// V1 to V3.
fn through_v3(way: usize, b: &OptionalBody, c: Option<&str>) -> Option<OptionalBody> {
  let v = PactSpecification::V3;
  let h = c.and_then(|c| headers(pick(&["Content-Type", "content-type"]), c));
  match way {
    0 => Request::from_json(&Request { body: b.clone(), headers: h, .. Default::default() }.to_json(&v), &v).ok().map(|r| r.body),
    1 => Response::from_json(&Response { body: b.clone(), headers: h, .. Default::default() }.to_json(&v), &v).ok().map(|r| r.body),
    _ => { let m = match c { Some(c) => [(pick(&["contentType", "content-type"]).to_string(), json!(c))].into(), None => HashMap::new() };
      Message::from_json(0, &Message { contents: b.clone(), metadata: m, .. Default::default() }.to_json(&PactSpecification::V3), &PactSpecification::V3).ok().map(|r| r.contents) }
  }
}
fn v3_bytes(n: usize) {
  warm();
  let wide = flag();
  let v = if wide { bytes(n) } else { pick(&[vec![0xff], b"abcd".to_vec(), b"1".to_vec(), "\u{e9}".as_bytes().to_vec()]) };
  let text = flag();
  let t = if wide { if text { "text/plain" } else { "image/png" } } else if text { pick(&TEXT_TYPES) } else { pick(&BINARY_TYPES) };
  if text { assume(std::str::from_utf8(&v).is_ok()); }
  let b = OptionalBody::Present(Bytes::from(v.clone()), if flag() { ct(t) } else { None }, None);
  match through_v3(choose(3), &b, Some(t)) { Some(r) => { if text { reach("text") } else { reach("binary") } check(same_bytes(&r, &v), "a body written in V3 form and read has other bytes"); } None => fail("a part with a body is refused") }
}
#[no_mangle] pub extern "C" fn quick_c14_v3_bytes() { v3_bytes(2) }
#[no_mangle] pub extern "C" fn deep_c14_v3_bytes() { v3_bytes(4) }
/// Texts of characters that make up base64.
#[no_mangle] pub extern "C" fn quick_c14_v3_base64() {
  let n = pick(&[4, 3, 8]);
  let s = if n == 8 { "YWJj".to_string() + &text(4, b"aQ=+") } else { text(n, b"aZ0+/=-") };
  let b = OptionalBody::Present(Bytes::from(s.clone()), ct("image/png"), None);
  match through_v3(choose(3), &b, Some("image/png")) { Some(r) => { reach("base64"); check(same_bytes(&r, s.as_bytes()), "text of a binary type written in V3 form and read has other bytes"); } None => fail("a part with a body is refused") }
}
fn v3_json(depth: usize) {
  warm();
  let (t, j) = json_text(depth);
  let c = pick(&JSON_TYPES);
  let b = OptionalBody::Present(Bytes::from(t), if flag() { ct(c) } else { None }, None);
  match through_v3(choose(3), &b, Some(c)) { Some(r) => { reach("json"); check(same_json(&r, &j), "a JSON body written in V3 form and read has another value"); } None => fail("a part with a body is refused") }
}
#[no_mangle] pub extern "C" fn quick_c14_v3_json() { v3_json(1) }
#[no_mangle] pub extern "C" fn deep_c14_v3_json() { v3_json(2) }
/// No content type: text.
#[no_mangle] pub extern "C" fn quick_c14_v3_none() {
  warm();
  let v = looked_at();
  assume(std::str::from_utf8(&v).is_ok());
  let b = OptionalBody::Present(Bytes::from(v.clone()), None, None);
  match through_v3(choose(3), &b, None) {
    Some(r) => {
      reach("body");
      if same_bytes(&r, &v) { return; }
      let j: Option<Value> = if like_json(&v) { serde_json::from_slice(&v).ok() } else { None };
      check(match &j { Some(j) => same_json(&r, j), None => false }, "a text without content type written in V3 form and read is another one");
    }
    None => fail("a part with a body is refused"),
  }
}
/// A V4 body as a document has it: encoded or not.
#[no_mangle] pub extern "C" fn quick_c14_v4_read() {
  let s = ascii_upto(0, 2);
  let c = pick(&["text/plain", "image/png", "application/json"]);
  let e = pick(&[json!(false), Value::Null, json!("json"), json!("JSON"), json!(true), json!("x"), json!(1)]);
  let mut o = json!({ "content": s, "contentType": c, "encoded": e });
  if flag() { o["contentTypeHint"] = pick(&[json!("TEXT"), json!("x"), json!(1), Value::Null]); }
  if flag() { o.as_object_mut().unwrap().remove("encoded"); }
  let plain = o.get("encoded").is_none() || e == json!(false);
  let r = v4_body(&json!({ "b": o }), "b", &if flag() { headers("content-type", "text/html") } else { None });
  reach("read");
  let want = if s.is_empty() { String::new() } else if plain && c == "application/json" { Value::String(s.clone()).to_string() } else { s.clone() };
  if want.is_empty() { check(matches!(r, OptionalBody::Empty), "a body without content is not read as empty"); } else { check(same_bytes(&r, want.as_bytes()), "a body is read as other bytes than the document has"); }
}
#[no_mangle] pub extern "C" fn quick_c14_value() {
  let v: Vec<u8> = (0..choose(3)).map(|_| byte()).collect();
  let s = ascii_upto(0, 2);
  reach("value");
  let b = OptionalBody::Present(Bytes::from(v.clone()), ct("text/plain"), None);
  check(b.value().map(|w| w[..] == v[..]) == Some(true) && b.is_present(), "a body has other bytes than it was given");
  check(b.value_as_string().map(|t| t.into_bytes()) == String::from_utf8(v.clone()).ok().map(|t| t.into_bytes()), "the text of a body is another one");
  let f = OptionalBody::from(s.as_str());
  check(if s.is_empty() { matches!(f, OptionalBody::Empty) } else { same_bytes(&f, s.as_bytes()) }, "a body made of a text is another one");
  let w = b.with_content_type(ct("image/png")).with_content_type_if_not_set(ct("a/b"));
  check(same_bytes(&w, &v) && w.content_type() == ct("image/png"), "a body given a content type is another one");
}
