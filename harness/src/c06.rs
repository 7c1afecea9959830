//! Path expressions: parsing is total, printing is its inverse.
use crate::vp::*;
use pact_models::path_exp::*;

fn warm() { let _ = DocPath::root().join_field("a b'c").to_string(); let _ = DocPath::new("$.a['b'][1]"); }

/// The path and its text agree: the text parses to the same tokens and prints the same.
fn agrees(p: &DocPath, what: &str) {
  let s = p.to_string();
  match DocPath::new(s.clone()) {
    Err(_) => fail(what),
    Ok(q) => {
      check(q.tokens() == p.tokens(), what);
      check(q == *p, what);
      check(q.to_string() == s, what);
    }
  }
}

fn total(s: String) {
  match parse_path_exp(&s) {
    Err(_) => reach("refused"),
    Ok(t) => {
      reach("parsed");
      check(t.is_empty() == s.is_empty(), "only the empty expression is the empty path");
      check(t.is_empty() || t[0] == PathToken::Root, "a path starts at the root");
      check(t.iter().skip(1).all(|t| *t != PathToken::Root), "the root token appears once");
      let p = DocPath::new(s.clone()).expect("DocPath::new differs from parse_path_exp");
      check(*p.tokens() == t, "DocPath::new differs from parse_path_exp");
      check(p.to_string() == s, "the text of a parsed path is what was parsed");
      // the path rebuilt from the tokens is the same path
      if !t.is_empty() { agrees(&DocPath::from_tokens(t), "a path rebuilt from its tokens does not parse back"); }
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c06_total_ascii() { warm(); total(ascii_upto(0, 4)) }
#[no_mangle] pub extern "C" fn quick_c06_total_unicode() { warm(); total(unicode(3, &["é", "日", "²", "٣", "\u{a0}"])) }
#[no_mangle] pub extern "C" fn quick_c06_total_rooted() { warm(); let mut s = "$".to_string(); s.push_str(&ascii_upto(0, 4)); total(s) }
#[no_mangle] pub extern "C" fn quick_c06_total_field() { warm(); let s = format!("$.{}", ascii(4)); total(s) }
#[no_mangle] pub extern "C" fn quick_c06_total_bracket() { warm(); let s = format!("$[{}", ascii(4)); total(s) }
#[no_mangle] pub extern "C" fn quick_c06_total_quoted() { warm(); let s = format!("$['{}", text(5, b"'\\].[a*")); total(s) }
#[no_mangle] pub extern "C" fn quick_c06_total_syntax() { warm(); total(text_upto(0, 6, b"$.[]'*0a\\")) }
#[no_mangle] pub extern "C" fn quick_c06_index_digits() {
  warm();
  let d = if flag() { format!("{}{}", "0".repeat(choose(12)), text(2, b"0159")) } else { format!("{}{}", pick(&["42949672", "99999999", "42949672950"]), text(2, b"0569")) };
  total(format!("$[{}]", d))
}
#[no_mangle] pub extern "C" fn deep_c06_total_ascii() { warm(); total(ascii(6)) }
#[no_mangle] pub extern "C" fn deep_c06_total_rooted() { warm(); let mut s = "$".to_string(); s.push_str(&ascii(6)); total(s) }
#[no_mangle] pub extern "C" fn deep_c06_total_syntax() { warm(); total(text(8, b"$.[]'*0a\\")) }
#[no_mangle] pub extern "C" fn deep_c06_total_unicode() { warm(); let mut s = "$.".to_string(); s.push_str(&utf8_char()); total(s) }

/// What a well-formed expression means.
fn segment(s: &mut String, t: &mut Vec<PathToken>, n: usize) {
  match choose(5) {
    0 => { let f = text(n, b"abzAZ019_-:#@"); s.push('.'); s.push_str(&f); t.push(PathToken::Field(f)); }
    1 => { // any text in quotes, escaped by hand
      let f = ascii(n);
      s.push_str("['");
      for c in f.bytes() { if c == b'\'' || c == b'\\' { s.push('\\'); } s.push(c as char); }
      s.push_str("']");
      t.push(PathToken::Field(f));
    }
    2 => { let d = text(n, b"0123456789"); let v = d.bytes().fold(0usize, |a, b| a * 10 + (b - b'0') as usize); s.push('['); s.push_str(&d); s.push(']'); t.push(PathToken::Index(v)); }
    3 => { s.push_str(".*"); t.push(PathToken::Star); }
    _ => { s.push_str("[*]"); t.push(PathToken::StarIndex); }
  }
}
fn meaning(k: usize, n: usize) {
  warm();
  let mut s = "$".to_string();
  let mut t = vec![PathToken::Root];
  for _ in 0..k { segment(&mut s, &mut t, n); }
  match DocPath::new(s) {
    Err(_) => fail("a well-formed path expression is refused"),
    Ok(p) => { reach("parsed"); check(*p.tokens() == t, "a path expression means something else than it says") }
  }
}
#[no_mangle] pub extern "C" fn quick_c06_meaning_one() { let n = 1 + choose(3); meaning(1, n) }
#[no_mangle] pub extern "C" fn quick_c06_meaning_two() { meaning(2, 1) }
#[no_mangle] pub extern "C" fn deep_c06_meaning_three() { meaning(3, 1) }
#[no_mangle] pub extern "C" fn deep_c06_meaning_two() { meaning(2, 2) }

/// Without a root marker the expression starts with an identifier.
#[no_mangle] pub extern "C" fn quick_c06_meaning_bare() {
  warm();
  let f = text(3, b"abzAZ019_-:#@");
  assume(f.as_bytes()[0].is_ascii_alphanumeric());
  let mut s = f.clone();
  let mut t = vec![PathToken::Root, PathToken::Field(f)];
  segment(&mut s, &mut t, 1);
  match DocPath::new(s) { Err(_) => fail("a bare path expression is refused"), Ok(p) => { reach("parsed"); check(*p.tokens() == t, "a bare path expression means something else") } }
}

fn name(n: usize) -> String { let k = 1 + choose(n); unicode(k, &["é", "日", "\u{a0}"]) }
fn push(p: &mut DocPath, t: &mut Vec<PathToken>, n: usize) {
  match choose(4) {
    0 => { let f = name(n); p.push_field(f.clone()); t.push(PathToken::Field(f)); }
    1 => { let i = pick(&[0usize, 7, 10, 4294967295]); p.push_index(i); t.push(PathToken::Index(i)); }
    2 => { p.push_star(); t.push(PathToken::Star); }
    _ => { p.push_star_index(); t.push(PathToken::StarIndex); }
  }
}
fn built(k: usize, n: usize) {
  warm();
  let mut p = DocPath::root();
  let mut t = vec![PathToken::Root];
  for _ in 0..k { push(&mut p, &mut t, n); }
  reach("built");
  check(*p.tokens() == t, "the tokens of a built path are the ones pushed");
  agrees(&p, "a built path does not parse back");
  let mut q = DocPath::root();
  for x in t.iter().skip(1) { q.push(x.clone()); }
  check(q == p && q.tokens() == p.tokens(), "push and push_field, push_index.. differ");
  let f = DocPath::from_tokens(t.clone());
  check(f == p && f.tokens() == p.tokens(), "from_tokens and pushing differ");
}
#[no_mangle] pub extern "C" fn quick_c06_built_one() { built(1, 3) }
#[no_mangle] pub extern "C" fn quick_c06_built_two() { built(2, 1) }
#[no_mangle] pub extern "C" fn deep_c06_built_three() { built(3, 1) }
#[no_mangle] pub extern "C" fn deep_c06_built_one() { built(1, 4) }

/// The operations that derive one path from another keep tokens and text in step.
fn derived(n: usize) {
  warm();
  let mut p = DocPath::root();
  let mut t = vec![PathToken::Root];
  for _ in 0..1 + choose(n) {
    match choose(4) {
      0 => { let f = text(1, b"aA.'\\ 0"); p.push_field(f.clone()); t.push(PathToken::Field(f)); }
      1 => { p.push_index(3); t.push(PathToken::Index(3)); }
      2 => { p.push_star(); t.push(PathToken::Star); }
      _ => { p.push_star_index(); t.push(PathToken::StarIndex); }
    }
  }
  let last = t.last().cloned().unwrap();
  reach("derived");
  match choose(8) {
    0 => match p.parent() {
      None => check(t.len() <= 1, "only the root has no parent"),
      Some(q) => { check(q.tokens()[..] == t[..t.len() - 1], "the parent is the path without its last segment"); agrees(&q, "a parent path does not parse back"); }
    },
    1 => {
      let k = choose(4);
      let q = p.drop(k);
      let want = if k >= t.len() { &t[..1] } else { &t[..t.len() - k] };
      check(q.tokens()[..] == *want, "drop removes the last segments");
      agrees(&q, "a shortened path does not parse back");
    }
    2 => {
      let f = text(1, b"a.'\\ 0*");
      let q = p.join_field(f.clone());
      let mut w = t.clone();
      if last == PathToken::Star { w.pop(); }
      w.push(PathToken::Field(f));
      check(*q.tokens() == w, "join_field appends the field, in place of a trailing *");
      agrees(&q, "a path joined with a field does not parse back");
    }
    3 => {
      let q = p.join_index(12);
      let mut w = t.clone();
      if last == PathToken::Star || last == PathToken::StarIndex { w.pop(); }
      w.push(PathToken::Index(12));
      check(*q.tokens() == w, "join_index appends the index, in place of a trailing wildcard");
      agrees(&q, "a path joined with an index does not parse back");
    }
    4 => {
      let part = pick(&["*", "[*]", "12", "a b", "c"]);
      let q = p.join(part);
      let mut w = t.clone();
      w.push(match part { "*" => PathToken::Star, "[*]" => PathToken::StarIndex, "12" => PathToken::Index(12), f => PathToken::Field(f.to_string()) });
      check(*q.tokens() == w, "join appends what the part names");
      agrees(&q, "a joined path does not parse back");
    }
    5 => {
      let mut q = DocPath::new("$.x[1]").unwrap();
      q.push_path(&p);
      let mut w = vec![PathToken::Root, PathToken::Field("x".into()), PathToken::Index(1)];
      w.extend(t.iter().skip(1).cloned());
      check(*q.tokens() == w, "push_path appends the segments of the other path");
      agrees(&q, "a path extended by a path does not parse back");
    }
    6 => {
      let q = p.to_lower_case();
      let w: Vec<_> = t.iter().map(|x| match x { PathToken::Field(f) => PathToken::Field(f.to_lowercase()), o => o.clone() }).collect();
      check(*q.tokens() == w, "to_lower_case changes the case of the fields only");
      agrees(&q, "a lower case path does not parse back");
    }
    _ => {
      check(p.len() == t.len() && p.last() == t.last().cloned() && p.is_root() == (t.len() == 1) && p.is_wildcard() == (last == PathToken::Star), "len, last, is_root, is_wildcard");
      let fields: Vec<&String> = t.iter().filter_map(|x| match x { PathToken::Field(f) => Some(f), _ => None }).collect();
      check(p.first_field() == fields.first().map(|f| f.as_str()) && p.last_field() == fields.last().map(|f| f.as_str()), "first_field, last_field");
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c06_derived() { derived(2) }
#[no_mangle] pub extern "C" fn deep_c06_derived() { derived(3) }

/// The JSON pointer of a path finds the element whose key is the field, whatever the key.
#[no_mangle] pub extern "C" fn quick_c06_pointer() {
  use serde_json::{json, Value};
  warm();
  let (a, b) = (name(2), name(1));
  let mut inner = serde_json::Map::new();
  inner.insert(b.clone(), json!([10, 20]));
  let mut outer = serde_json::Map::new();
  outer.insert(a.clone(), Value::Object(inner));
  let doc = Value::Object(outer);
  let mut p = DocPath::root();
  p.push_field(a); p.push_field(b); p.push_index(1);
  match p.as_json_pointer() {
    Err(_) => fail("a path without wildcards has a JSON pointer"),
    Ok(s) => { reach("pointer"); check(doc.pointer(&s) == Some(&json!(20)), "the JSON pointer of a path addresses another element") }
  }
  p.push_star();
  check(p.as_json_pointer().is_err(), "a wildcard path has no JSON pointer");
}
