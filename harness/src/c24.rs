//! Specification versions.
use crate::vp::*;
use maplit::btreemap;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{determine_spec_version, load_pact_from_json, parse_meta_data, Pact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::PactSpecification::{self, *};
use serde_json::{json, Value};

const ALL: [PactSpecification; 6] = [Unknown, V1, V1_1, V2, V3, V4];
/// The version of a major and minor number, as the parser of versions is documented: exact.
fn exact(major: u32, minor: u32) -> Option<PactSpecification> {
  match (major, minor) { (1, 0) => Some(V1), (1, 1) => Some(V1_1), (2, 0) => Some(V2), (3, 0) => Some(V3), (4, 0) => Some(V4), _ => None }
}
/// The version a document is loaded as: by the major number, an unknown minor number notwithstanding.
fn loaded(major: u32, minor: u32) -> PactSpecification {
  match (major, minor) { (1, 1) => V1_1, (1, _) => V1, (2, _) => V2, (3, _) => V3, (4, _) => V4, _ => Unknown }
}
fn num(n: usize) -> (String, u32) {
  let t = text(n, b"0123456789");
  let mut v = 0;
  for b in t.bytes() { v = v * 10 + (b - b'0') as u32; }
  (t, v)
}
/// A version number of one to three parts.
fn version() -> (String, u32, u32) {
  let (a, x) = num(1 + choose(2));
  if a.len() > 1 { assume(a.as_bytes()[0] != b'0'); }
  match choose(5) {
    0 => (a, x, 0),
    1 => { let (b, y) = num(1); (format!("{}.{}", a, b), x, y) }
    2 => { let (b, y) = num(1); let (c, _) = num(1); (format!("{}.{}.{}", a, b, c), x, y) }
    3 => { let (b, y) = num(1); (format!("{}.{}.0-beta.1", a, b), x, y) }
    _ => { let (b, y) = num(2); assume(b.as_bytes()[0] != b'0'); (format!("{}.{}.0", a, b), x, y) }
  }
}
fn parsed(t: &str) -> Option<PactSpecification> { PactSpecification::parse_version(t).ok() }
fn meta(key: &str, v: &str) -> std::collections::BTreeMap<String, std::collections::BTreeMap<String, String>> {
  btreemap! { key.to_string() => btreemap! { "version".to_string() => v.to_string() }, "other".to_string() => btreemap! { "version".to_string() => "4.0".to_string() } }
}
const KEYS: [&str; 2] = ["pactSpecification", "pact-specification"];

#[no_mangle] pub extern "C" fn quick_c24_printed() {
  let v = pick(&ALL);
  reach("version");
  check(PactSpecification::from(v.to_string()) == v, "a version printed and parsed is another one");
  check(PactSpecification::from(v.to_string().to_lowercase().as_str()) == v, "a version printed in lower case and parsed is another one");
  check(PactSpecification::from(&v.to_string()) == v, "a version printed and parsed is another one");
  match parsed(&v.version_str()) { Some(r) => check(r == v, "a version string read is another version"), None => check(v == Unknown, "the version string of a known version is refused") }
  let m = meta(pick(&KEYS), &v.version_str());
  check(determine_spec_version("t", &m) == v, "a version string in the metadata is another version");
  check(v.version_str().starts_with(match v { Unknown => "unknown", V1 => "1.0", V1_1 => "1.1", V2 => "2.0", V3 => "3.0", V4 => "4.0" }), "the version string names another version");
}
/// Any short text as the name of a version.
#[no_mangle] pub extern "C" fn quick_c24_names() {
  let s = ascii_upto(0, 4);
  let r = PactSpecification::from(s.as_str());
  let b = s.as_bytes();
  let v = b.len() > 0 && (b[0] == b'v' || b[0] == b'V');
  let want = if !v { Unknown } else if b.len() == 2 { match b[1] { b'1' => V1, b'2' => V2, b'3' => V3, b'4' => V4, _ => Unknown } } else if &b[1..] == b"1.1" { V1_1 } else { Unknown };
  if want == Unknown { reach("unknown") } else { reach("known") }
  check(r == want, "a text is taken for another version than it names");
}
#[no_mangle] pub extern "C" fn quick_c24_numbers() {
  let (t, a, b) = version();
  match parsed(&t) {
    Some(v) => { check(exact(a, b) == Some(v), "a version number is parsed as another version"); reach("parsed"); }
    None => { check(exact(a, b).is_none(), "a supported version is refused"); reach("refused"); }
  }
  let r = determine_spec_version("t", &meta(pick(&KEYS), &t));
  check(r == loaded(a, b), "a version in the metadata is taken for another one");
}
/// Any short text as a version number.
fn any(n: usize) {
  let s = ascii_upto(0, n);
  let r = determine_spec_version("t", &meta("pactSpecification", &s));
  let p = parsed(&s);
  // the number it starts with, after blanks and the v of a version
  let b = s.as_bytes();
  let mut i = 0;
  while i < b.len() && (b[i] == b' ' || (b[i] >= 9 && b[i] <= 13)) { i += 1; }
  if i < b.len() && (b[i] == b'v' || b[i] == b'V') { i += 1; }
  let s0 = i;
  let mut major: u32 = 0;
  while i < b.len() && b[i].is_ascii_digit() { major = major * 10 + (b[i] - b'0') as u32; i += 1; }
  if i == s0 { reach("no number"); check(p.is_none() && r == Unknown, "a text without a number is taken for a version"); return; }
  let mut minor: u32 = 0;
  if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() { i += 1; while i < b.len() && b[i].is_ascii_digit() { minor = minor * 10 + (b[i] - b'0') as u32; i += 1; } }
  // a number with letters is taken for the name of a pre-release: no minor number
  if i < b.len() && b[i].is_ascii_alphanumeric() { minor = 0; }
  match p { Some(v) => { reach("parsed"); check(exact(major, minor) == Some(v), "a text is parsed as another version than its number") } None => reach("refused") }
  check(r == Unknown || r == loaded(major, minor), "a text in the metadata is taken for another version than its number");
  check(p.is_none() || p == Some(r), "the metadata and the parser disagree on a version");
}
#[no_mangle] pub extern "C" fn quick_c24_any() { any(4) }
#[no_mangle] pub extern "C" fn deep_c24_any() { any(5) }

/// The document is loaded by the loader for its version.
fn doc() -> (Value, PactSpecification) {
  let (v, want): (Value, PactSpecification) = match choose(9) {
    0 => { let (t, a, b) = version(); (Value::String(t), loaded(a, b)) }
    1 => (json!(2), V2), 2 => (json!(4), V4), 3 => (json!(3.0), V3), 4 => (json!("V3"), V3), 5 => (Value::Null, Unknown), 6 => (json!({}), Unknown), 7 => (json!(""), Unknown),
    _ => (json!([4]), Unknown),
  };
  let key = pick(&KEYS);
  match choose(6) {
    0 => (json!({ key: { "version": v } }), want),
    1 => (json!({ key: { "version": v }, "pactRust": { "version": "1.1.0" }, "x": 4 }), want),
    2 => (json!({ "pact-specification": { "version": "2.0.0" }, "pactSpecification": { "version": v } }), want),
    3 => (pick(&[json!({ key: { "versions": "4.0" } }), json!({ key: {} }), json!({ key: "4.0" }), json!({ "version": "4.0" })]), V3),
    4 => (pick(&[json!({}), Value::Null, json!("4.0"), json!(["pactSpecification"])]), V3),
    _ => (json!({ key: { "version": v, "extra": "4.0" } }), want),
  }
}
#[no_mangle] pub extern "C" fn quick_c24_loader() {
  let (m, want) = doc();
  let kind = choose(3);
  let mut j = json!({ "consumer": { "name": "c" }, "provider": { "name": "p" }, "metadata": m });
  let o = j.as_object_mut().unwrap();
  match kind {
    0 => { o.insert("interactions".into(), json!([])); }
    1 => { o.insert("messages".into(), json!([])); }
    _ => { o.insert("interactions".into(), if want == V4 { json!([{ "type": "Synchronous/HTTP", "description": "d" }]) } else { json!([{ "description": "d" }]) }); }
  }
  check(determine_spec_version("t", &parse_meta_data(&j)) == want, "the metadata of a document names another version");
  match load_pact_from_json("t", &j) {
    Ok(p) => {
      reach("loaded");
      check(p.is_v4() == (want == V4), "a document is loaded by the loader of another version");
      check(p.specification_version() == want, "a document is loaded as another version");
      check(p.interactions().len() == (kind == 2) as usize, "a document is loaded without its interactions");
      if want != V4 { check(p.as_message_pact().is_ok() == (kind == 1), "a document is loaded as a pact of another kind"); }
    }
    Err(_) => fail("a document is refused"),
  }
}
/// Every writer names the version it writes.
#[no_mangle] pub extern "C" fn quick_c24_written() {
  let v = pick(&[V1, V1_1, V2, V3, V4]);
  let key = text(1, b"ab");
  let old = pick(&[None, Some("1.0.0"), Some("2.0.0"), Some("4.0"), Some("unknown")]);
  let k = pick(&KEYS);
  let mut md = btreemap! { key => btreemap! { "version".to_string() => "2.0.0".to_string() } };
  if let Some(o) = old { md.insert(k.to_string(), btreemap! { "version".to_string() => o.to_string() }); }
  let mut v4md: std::collections::BTreeMap<String, Value> = std::collections::BTreeMap::new();
  for (k, v) in &md { v4md.insert(k.clone(), json!(v)); }
  let kind = choose(3);
  let (p, ok): (Box<dyn Pact>, bool) = match kind {
    0 => (Box::new(RequestResponsePact { metadata: md, .. RequestResponsePact::default() }), true),
    1 => (Box::new(MessagePact { metadata: md, .. MessagePact::default() }), v == V3 || v == V4),
    _ => (Box::new(V4Pact { metadata: v4md, .. V4Pact::default() }), true),
  };
  match p.to_json(v) {
    Ok(j) => {
      check(ok, "a pact is written at a version that can not express it");
      match load_pact_from_json("t", &j) {
        Ok(r) => { reach("loaded"); check(r.specification_version() == v, "a written pact is loaded as another version"); check(r.is_v4() == (v == V4), "a written pact is loaded by the loader of another version"); }
        Err(_) => fail("a written pact is refused"),
      }
    }
    Err(_) => { reach("refused"); check(!ok, "a pact can not be written"); }
  }
}
