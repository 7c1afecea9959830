//! Changes of JSON documents: any value replaced by one of another type, removed or renamed.
use crate::vp::*;
use serde_json::{json, Value};

/// The number of values in the document.
pub fn size(v: &Value) -> usize { 1 + match v { Value::Object(m) => m.values().map(size).sum(), Value::Array(l) => l.iter().map(size).sum(), _ => 0 } }
/// Gives value number `n` (at least 1: the document is 0) to `f`, with the collection it is in.
pub fn at(v: &mut Value, mut n: usize, f: &mut dyn FnMut(&mut Value, &str, usize)) {
  if n == 0 { return f(v, "", 0); }
  n -= 1;
  let keys: Vec<String> = match v { Value::Object(m) => m.keys().cloned().collect(), Value::Array(l) => l.iter().map(|_| String::new()).collect(), _ => vec![] };
  for (i, k) in keys.iter().enumerate() {
    let c = match v { Value::Object(m) => m.get(k).map(size), Value::Array(l) => l.get(i).map(size), _ => None }.unwrap_or(0);
    if n == 0 { return f(v, k, i); }
    if n < c { match v { Value::Object(m) => if let Some(w) = m.get_mut(k) { at(w, n, f) }, Value::Array(l) => at(&mut l[i], n, f), _ => () } return; }
    n -= c;
  }
}
pub fn put(c: &mut Value, k: &str, i: usize, w: Value) { match c { Value::Object(m) => { m.insert(k.into(), w); } Value::Array(l) => l[i] = w, _ => () } }
pub fn get(c: &Value, k: &str, i: usize) -> Value { match c { Value::Object(m) => m.get(k).cloned(), Value::Array(l) => l.get(i).cloned(), _ => None }.unwrap_or(Value::Null) }
/// Another value: of every type, the texts next to the one that is there, or nothing.
pub fn other(old: &Value) -> Option<Value> {
  Some(match choose(if old.is_string() { 24 } else { 19 }) {
    0 => return None,
    1 => Value::Null, 2 => json!(true), 3 => json!(0), 4 => json!(-1), 5 => json!(2.5), 6 => json!(u64::MAX), 7 => json!(i64::MIN), 8 => json!(-1e300),
    9 => json!(""), 10 => json!(text(1, b"a1$.[]{}'\"\\/;=,- \n*")), 11 => json!("\u{e9}$"),
    12 => json!([]), 13 => json!([null]), 14 => json!([[], {}, "x", 1, true]), 15 => json!({}), 16 => json!({ "": null }), 17 => json!({ "a": { "b": 1 } }), 18 => json!({ "$.x": [1], "matchers": {}, "type": 1 }),
    k => { let s = old.as_str().unwrap_or("");
      match k {
        19 => json!(format!("\u{e9}{}", s)), 20 => json!(format!("{}\u{2764}", s)), 21 => json!(format!("{}{}", s, text(1, b"a1$.[]{}'\"\\/;=,- \n*"))),
        22 => json!(s[..choose(s.len() + 1)]),
        _ => json!(format!("{} {}", s, s)) } }
  })
}
/// Other names of an attribute: unknown, empty, a path.
pub fn rename() -> String { match choose(6) { 0 => "".into(), 1 => "x".into(), 2 => "$".into(), 3 => "$.a[".into(), 4 => "\u{e9}".into(), _ => text(2, b"$.[") } }
pub fn change(doc: &mut Value, n: usize) {
  if n == 0 { if let Some(w) = other(&Value::Null) { *doc = w } return; }
  at(doc, n, &mut |c, k, i| {
    let old = get(c, k, i);
    if c.is_object() && flag() { let w = rename(); if let Value::Object(m) = c { m.remove(k); m.insert(w, old); } return; }
    match other(&old) {
      Some(w) => put(c, k, i, w),
      None => match c { Value::Object(m) => { m.remove(k); } Value::Array(l) => { l.remove(i); } _ => () },
    }
  })
}


pub fn changed(mut doc: Value) -> Value { let n = choose(size(&doc)); change(&mut doc, n); doc }
pub fn changed_twice(mut doc: Value) -> Value { let n = size(&doc); let a = choose(n); let b = choose(n); assume(a < b); change(&mut doc, b); change(&mut doc, a); doc }
