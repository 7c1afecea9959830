//! Evaluation of `${name}` expressions.
use crate::vp::*;
use pact_models::expression_parser::*;
use pact_models::generators::generate_value_from_context;
use serde_json::{json, Value};
use std::collections::HashMap;

fn values() -> HashMap<&'static str, Value> {
  let mut m = HashMap::new();
  m.insert("a", json!("v$"));
  m.insert("b", json!(12));
  m.insert("ab", Value::Null);
  m.insert("{", json!({ "x": ["${a}", true] }));
  m.insert(" a", json!("}"));
  m
}

/// The value of the text by the definition of an expression: `${`, a name without `}`, `}`. None: an error.
fn spec(s: &str, m: &HashMap<&str, Value>) -> Option<Value> {
  let b = s.as_bytes();
  let mut parts: Vec<Value> = vec![];
  let (mut i, mut from) = (0, 0);
  while i + 1 < b.len() {
    if b[i] != b'$' || b[i + 1] != b'{' { i += 1; continue; }
    if i > from { parts.push(json!(s[from..i])); }
    let mut e = i + 2;
    while e < b.len() && b[e] != b'}' { e += 1; }
    if e == b.len() { return None; }
    if e > i + 2 {
      let name = &b[i + 2..e];
      let mut v = None;
      for (k, x) in m { if same(k.as_bytes(), name) { v = Some(x.clone()); } }
      parts.push(v?);
    }
    i = e + 1;
    from = i;
  }
  if from < b.len() { parts.push(json!(s[from..])); }
  if from == 0 { return Some(json!(s)); }
  if parts.len() == 1 { return parts.pop(); }
  let mut out = String::new();
  for p in parts { match p { Value::Null => (), Value::String(t) => out.push_str(&t), v => out.push_str(&v.to_string()) } }
  Some(Value::String(out))
}

fn has(s: &str) -> bool { let b = s.as_bytes(); (1..b.len()).any(|i| b[i - 1] == b'$' && b[i] == b'{') }

fn evaluate(s: &str) {
  let m = values();
  let want = spec(s, &m);
  check(contains_expressions(s) == has(s), "contains_expressions disagrees with the definition of an expression");
  let got = parse_expression(s, &MapValueResolver { context: m.clone() });
  match (&want, &got) {
    (None, Err(_)) => reach("refused"),
    (Some(w), Ok(g)) => { check(w == g, "the evaluated text is not the text with its expressions replaced"); reach("evaluated"); }
    (None, Ok(_)) => fail("a text with an unterminated expression or an unknown name is evaluated"),
    (Some(_), Err(_)) => fail("a text of complete expressions with known names is refused"),
  }
  // the same through the entry point of the generators; there a text without expressions is a name
  if s.is_ascii() {
    let g = generate_value_from_context(s, &m, &None);
    if has(s) {
      match (&want, &g) {
        (None, Err(_)) => (),
        (Some(w), Ok(g)) => { check(*w == g.wrapped && g.data_type == DataType::RAW, "the generated value is not the evaluated text"); }
        _ => fail("generate_value_from_context and parse_expression disagree on what is an error"),
      }
    } else {
      let mut v = None;
      for (k, x) in &m { if same(k.as_bytes(), s.as_bytes()) { v = Some(x); } }
      match (v, &g) {
        (None, Err(_)) => (),
        (Some(w), Ok(g)) => check(*w == g.wrapped, "the generated value is not the value of that name"),
        _ => fail("a name is found that is not there, or not found"),
      }
    }
  }
}

const MARKS: &[u8] = b"${}ab ";
#[no_mangle] pub extern "C" fn quick_c17_marks() { evaluate(&text_upto(0, 9, MARKS)); }
#[no_mangle] pub extern "C" fn quick_c17_ascii() { evaluate(&ascii_upto(0, 8)); }
/// Two expressions with any text around them.
#[no_mangle] pub extern "C" fn quick_c17_two() {
  let names = ["a", "b", "ab", "{", " a"];
  let t = format!("{}${{{}}}{}${{{}}}{}", text_upto(0, 1, MARKS), pick(&names), text_upto(0, 2, MARKS), pick(&names), text_upto(0, 1, MARKS));
  evaluate(&t);
}
#[no_mangle] pub extern "C" fn quick_c17_unicode() { evaluate(&unicode(4, &["\u{e9}", "\u{20ac}", "\u{1f600}", "${a}", "${"])); }
#[no_mangle] pub extern "C" fn deep_c17_marks() { evaluate(&text_upto(0, 12, MARKS)); }
#[no_mangle] pub extern "C" fn deep_c17_ascii() { evaluate(&ascii_upto(0, 12)); }
#[no_mangle] pub extern "C" fn deep_c17_unicode() { evaluate(&unicode(6, &["\u{e9}", "\u{20ac}", "\u{1f600}", "${a}", "${"])); }
