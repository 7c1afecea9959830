//! JSON helpers, against a direct definition of each.
use crate::models::*;
use crate::vp::*;
use pact_models::json_utils::*;
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::plugins::PluginData;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

fn merged(a: &Value, b: &Value) -> Value {
  match (a, b) {
    (Value::Array(x), Value::Array(y)) => { let mut r = vec![]; for v in x { r.push(v.clone()); } for v in y { r.push(v.clone()); } Value::Array(r) }
    (Value::Object(x), Value::Object(y)) => {
      let mut r = Map::new();
      for (k, v) in x { if !y.contains_key(k) { r.insert(k.clone(), v.clone()); } }
      for (k, v) in y { r.insert(k.clone(), match x.get(k) { Some(o) => merged(o, v), None => v.clone() }); }
      Value::Object(r)
    }
    _ => b.clone(),
  }
}
fn merge(a: Value, b: Value) {
  let m = json_deep_merge(&a, &b);
  reach("merged");
  check(m == merged(&a, &b), "the merged document is not the two documents merged");
}
#[no_mangle] pub extern "C" fn quick_c25_merge() { let a = json_doc(2); let b = json_doc(1); if flag() { merge(a, b) } else { merge(b, a) } }
#[no_mangle] pub extern "C" fn deep_c25_merge() { merge(json_doc(2), json_doc(2)) }
/// Three levels of objects, with the same or different names at each.
#[no_mangle] pub extern "C" fn quick_c25_merge_deep() {
  let name = || pick(&["a", "b"]);
  let leaf = || match choose(3) { 0 => json!([byte()]), 1 => json!(byte()), _ => json!({ "z": byte() }) };
  let mk = || { let l = leaf(); obj(vec![("o", obj(vec![(name(), obj(vec![(name(), l)])), ("k", json!(byte()))])), ("n", Value::Null)]) };
  merge(mk(), mk())
}
/// Merging a document without arrays with itself changes nothing.
#[no_mangle] pub extern "C" fn quick_c25_merge_self() {
  fn no_array(v: &Value) -> bool { match v { Value::Array(_) => false, Value::Object(m) => m.values().all(no_array), _ => true } }
  let a = json_doc(2);
  if !no_array(&a) { return; }
  reach("no arrays");
  check(json_deep_merge(&a, &a) == a, "merging a document with itself changes it");
}
/// Plugin configuration.
#[no_mangle] pub extern "C" fn quick_c25_plugin() {
  let mut p = PluginData { name: "p".into(), version: "1".into(), configuration: HashMap::new() };
  let have = choose(3);
  let old = json_doc(1);
  let other = json!({ "q": byte() });
  if have > 0 { p.configuration.insert("a".to_string(), old.clone()); }
  if have > 1 { p.configuration.insert("c".to_string(), other.clone()); }
  let mut data = HashMap::new();
  let new = json_doc(1);
  let key = pick(&["a", "b"]);
  data.insert(key.to_string(), new.clone());
  let more = flag();
  if more { data.insert("d".to_string(), json!(true)); }
  p.merge(&data);
  reach("merged");
  let mut n = 1 + more as usize;
  let want = if have > 0 && key == "a" { merged(&old, &new) } else { new };
  check(p.configuration.get(key) == Some(&want), "plugin configuration merged into is not the two values merged");
  if have > 0 && key != "a" { n += 1; check(p.configuration.get("a") == Some(&old), "plugin configuration that was there is changed"); }
  if have > 1 { n += 1; check(p.configuration.get("c") == Some(&other), "plugin configuration that was there is changed"); }
  if more { check(p.configuration.get("d") == Some(&json!(true)), "a second configuration value is lost"); }
  check(p.configuration.len() == n, "plugin configuration has other entries");
}
/// Scalars as text.
#[no_mangle] pub extern "C" fn quick_c25_text() {
  let (v, want) = match choose(6) {
    0 => (Value::Null, String::new()),
    1 => (json!(true), "true".to_string()), 2 => (json!(false), "false".to_string()),
    3 => { let n = conc(byte() as u32); (json!(n), n.to_string()) }
    4 => { let s = ascii_upto(0, 3); (Value::String(s.clone()), s) }
    _ => { let s = "\u{e9}\"\\".to_string(); (Value::String(s.clone()), s) }
  };
  reach("text");
  check(json_to_string(&v) == want, "the text of a scalar is another one");
  let mut m = Map::new();
  let k = text(1, b"ab");
  m.insert("a".to_string(), v);
  let r = get_field_as_string(&k, &m);
  check(r == if k == "a" { Some(want) } else { None }, "the text of a field is another one");
}
/// Emptiness.
#[no_mangle] pub extern "C" fn quick_c25_empty() {
  let v = json_doc(2);
  let want = match &v { Value::Null => true, Value::String(s) => s.len() == 0, Value::Array(a) => a.len() == 0, Value::Object(o) => o.len() == 0, _ => false };
  reach("value");
  check(is_empty(&v) == want, "a value is empty exactly if it is null or has nothing in it");
}
/// Documents with the same content hash alike, in whatever order their members were put in.
#[no_mangle] pub extern "C" fn quick_c25_hash() {
  let a = crate::parts::plain_doc(2);
  fn turned(v: &Value) -> Value {
    match v {
      Value::Object(m) => { let mut r = Map::new(); for (k, v) in m.iter().rev() { r.insert(k.clone(), turned(v)); } Value::Object(r) }
      Value::Array(x) => Value::Array(x.iter().map(turned).collect()),
      v => v.clone(),
    }
  }
  let b = turned(&a);
  let (mut x, mut y) = (Record::default(), Record::default());
  blind(true);
  hash_json(&a, &mut x);
  hash_json(&b, &mut y);
  blind(false);
  reach("hashed");
  check(a == b, "documents that differ in the order of members are different");
  check(same(&x.0, &y.0), "documents that differ in the order of members hash differently");
}
/// Scalars with different content do not hash alike for want of looking at it.
#[no_mangle] pub extern "C" fn quick_c25_hash_apart() {
  let k = choose(4);
  let mk = || match k { 0 => json!(pick(&[0u64, 1, 2, 10, 255, 256, u32::MAX as u64, u64::MAX])), 1 => json!(pick(&[-1i64, -2, -256, i64::MIN, 3])), 2 => Value::String(ascii(2)), _ => json!(flag()) };
  let (a, b) = (mk(), mk());
  let (mut x, mut y) = (Record::default(), Record::default());
  hash_json(&a, &mut x);
  hash_json(&b, &mut y);
  if a == b { reach("same"); check(same(&x.0, &y.0), "equal scalars hash differently") } else { reach("different"); check(!same(&x.0, &y.0), "different scalars feed the same to the hasher") }
}

// ---------------------------------------------------------------- paths into a document
fn escaped(n: &str) -> String { n.chars().map(|c| match c { '~' => "~0".to_string(), '/' => "~1".to_string(), c => c.to_string() }).collect() }
fn find(v: &Value, toks: &[PathToken], at: String, out: &mut Vec<String>) {
  if toks.is_empty() { out.push(at); return; }
  match (&toks[0], v) {
    (PathToken::Root, v) => find(v, &toks[1..], at, out),
    (PathToken::Field(n), Value::Object(m)) => if let Some(v) = m.get(n) { find(v, &toks[1..], format!("{}/{}", at, escaped(n)), out) },
    (PathToken::Index(i), Value::Array(a)) => if *i < a.len() { find(&a[*i], &toks[1..], format!("{}/{}", at, i), out) },
    (PathToken::Star, Value::Object(m)) => for (k, v) in m { find(v, &toks[1..], format!("{}/{}", at, escaped(k)), out) },
    (PathToken::StarIndex, Value::Array(a)) => for (i, v) in a.iter().enumerate() { find(v, &toks[1..], format!("{}/{}", at, i), out) },
    _ => (),
  }
}
fn tree(depth: usize) -> Value {
  if depth == 0 { return Value::Null; }
  match choose(6) {
    0 => Value::Bool(true),
    1 => Value::Array(vec![]),
    2 => Value::Array(vec![tree(depth - 1)]),
    3 => Value::Array(vec![json!({ "a": 1 }), tree(depth - 1)]),
    4 => obj(vec![("a", tree(depth - 1))]),
    _ => obj(vec![("a", json!([[], 1])), ("b", tree(depth - 1))]),
  }
}
fn resolve(n: usize, depth: usize) {
  let mut p = DocPath::root();
  for _ in 0..n {
    match choose(5) { 0 => p.push_field("a"), 1 => p.push_field("b"), 2 => p.push_index(choose(3)), 3 => p.push_star(), _ => p.push_star_index() };
  }
  let v = tree(depth);
  let r = resolve_path(&v, &p);
  let mut want = vec![];
  find(&v, p.tokens(), String::new(), &mut want);
  if want.is_empty() { reach("nothing") } else { reach("something") }
  check(r == want, "the resolved locations are not those the path addresses");
  for l in &r { check(v.pointer(l).is_some(), "a resolved location is not there"); }
}
/// Field names with the characters that mean something in pointers.
#[no_mangle] pub extern "C" fn quick_c25_resolve_names() {
  let (a, b, c) = (text_upto(0, 2, b"a/~1"), text_upto(0, 2, b"a/~1"), text_upto(0, 1, b"/~"));
  let mut p = DocPath::root();
  p.push_field(text_upto(0, 2, b"a/~1"));
  if flag() { p.push_star(); } else { p.push_field(text_upto(0, 1, b"/~")); }
  let mut k = Map::new();
  k.insert(c, json!(3));
  let mut m = Map::new();
  m.insert(a, json!(1));
  m.insert(b, Value::Object(k));
  let v = Value::Object(m);
  reach("names");
  let r = resolve_path(&v, &p);
  let mut want = vec![];
  find(&v, p.tokens(), String::new(), &mut want);
  check(r == want, "the resolved locations are not those the path addresses");
  for l in &r { check(v.pointer(l).is_some(), "a resolved location is not there"); }
}
#[no_mangle] pub extern "C" fn quick_c25_resolve() { resolve(1 + choose(3), 3) }
#[no_mangle] pub extern "C" fn deep_c25_resolve() { resolve(4, 4) }
