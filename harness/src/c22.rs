//! Generators applied to the bodies of requests, responses and messages.
use crate::models::*;
use crate::vp::*;
use anyhow::anyhow;
use pact_models::bodies::OptionalBody;
use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
use pact_models::generators::{apply_generators, ContentTypeHandler, GenerateValue, Generator, GeneratorTestMode, JsonHandler, NoopVariantMatcher, VariantMatcher};
use pact_models::matchingrules::MatchingRuleCategory;
use pact_models::path_exp::{DocPath, PathToken};
use serde_json::{json, Value};
use std::collections::HashMap;

type Matcher = Box<dyn VariantMatcher + Send + Sync>;
/// A generator that shows what it was applied to, or fails for the values of one type.
struct Mark { fails_for_numbers: bool }
fn marked(v: &Value) -> Value { json!(["#", v]) }
impl GenerateValue<Value> for Mark {
  fn generate_value(&self, v: &Value, _: &HashMap<&str, Value>, _: &Matcher) -> anyhow::Result<Value> { if self.fails_for_numbers && v.is_number() { Err(anyhow!("no")) } else { Ok(marked(v)) } }
}
impl GenerateValue<String> for Mark {
  fn generate_value(&self, v: &String, _: &HashMap<&str, Value>, _: &Matcher) -> anyhow::Result<String> { if self.fails_for_numbers && v == "1" { Err(anyhow!("no")) } else { Ok(format!("#{}", v)) } }
}
/// The document with `f` applied to each element the path addresses.
fn changed(v: &Value, toks: &[PathToken], f: &dyn Fn(&Value) -> Value) -> Value {
  if toks.is_empty() { return f(v); }
  match (&toks[0], v) {
    (PathToken::Root, v) => changed(v, &toks[1..], f),
    (PathToken::Field(n), Value::Object(m)) => Value::Object(m.iter().map(|(k, v)| (k.clone(), if k == n { changed(v, &toks[1..], f) } else { v.clone() })).collect()),
    (PathToken::Star, Value::Object(m)) => Value::Object(m.iter().map(|(k, v)| (k.clone(), changed(v, &toks[1..], f))).collect()),
    (PathToken::Index(n), Value::Array(a)) => Value::Array(a.iter().enumerate().map(|(i, v)| if i == *n { changed(v, &toks[1..], f) } else { v.clone() }).collect()),
    (PathToken::StarIndex, Value::Array(a)) => Value::Array(a.iter().map(|v| changed(v, &toks[1..], f)).collect()),
    _ => v.clone(),
  }
}
fn tree(depth: usize) -> Value {
  if depth == 0 { return pick(&[json!(1), json!("s")]); }
  match choose(6) {
    0 => json!(2),
    1 => json!([]),
    2 => json!([tree(depth - 1)]),
    3 => json!([{ "a": 1 }, tree(depth - 1)]),
    4 => json!({ "a": tree(depth - 1) }),
    _ => json!({ "a": [[], 1], "b": tree(depth - 1) }),
  }
}
fn json_paths(n: usize, depth: usize) {
  let mut p = DocPath::root();
  for _ in 0..n { match choose(5) { 0 => p.push_field("a"), 1 => p.push_field("b"), 2 => p.push_index(choose(3)), 3 => p.push_star(), _ => p.push_star_index() }; }
  let v = tree(depth);
  let m = Mark { fails_for_numbers: flag() };
  let mut h = JsonHandler { value: v.clone() };
  h.apply_key(&p, &m, &HashMap::new(), &NoopVariantMatcher.boxed());
  let want = changed(&v, p.tokens(), &|v| if m.fails_for_numbers && v.is_number() { v.clone() } else { marked(v) });
  if want == v { reach("unchanged") } else { reach("changed") }
  check(h.value == want, "a generator has not changed exactly the elements its path addresses");
}
#[no_mangle] pub extern "C" fn quick_c22_json() { json_paths(choose(4), 3) }
#[no_mangle] pub extern "C" fn deep_c22_json() { json_paths(choose(5), 4) }

/// Field names with the characters that mean something in paths and pointers.
fn names(n: usize) {
  let (a, b, c) = (text_upto(0, n, b"a/~1"), text_upto(0, n, b"a/~1"), text_upto(0, n, b"a/~1"));
  let mut p = DocPath::root();
  p.push_field(text_upto(0, n, b"a/~1"));
  if flag() { p.push_field(pick(&["a", "a/a", "", "~1", "1"])); } else if flag() { p.push_star(); }
  let mut m = serde_json::Map::new();
  let mut k = serde_json::Map::new();
  k.insert(c, json!(3));
  k.insert("a".into(), json!(4));
  m.insert(a, json!(1));
  m.insert(b, Value::Object(k));
  let v = Value::Object(m);
  reach("names");
  let mut h = JsonHandler { value: v.clone() };
  h.apply_key(&p, &Mark { fails_for_numbers: false }, &HashMap::new(), &NoopVariantMatcher.boxed());
  check(h.value == changed(&v, p.tokens(), &marked), "a generator has not changed exactly the fields its path names");
}
#[no_mangle] pub extern "C" fn quick_c22_names() { names(2) }
#[no_mangle] pub extern "C" fn deep_c22_names() { names(3) }

fn mode() -> GeneratorTestMode { pick(&[GeneratorTestMode::Consumer, GeneratorTestMode::Provider]) }
fn applies(g: &Generator, m: GeneratorTestMode) -> bool { match g { Generator::ProviderStateGenerator(..) => m == GeneratorTestMode::Provider, Generator::MockServerURL(..) => m == GeneratorTestMode::Consumer, _ => true } }
/// Generators with a known result.
fn known_generator() -> (Generator, Value) {
  match choose(4) {
    0 => (Generator::ProviderStateGenerator("x".into(), None), json!("X")),
    1 => (Generator::ProviderStateGenerator("${y}".into(), None), json!({ "y": 1 })),
    2 => (Generator::MockServerURL("http://a/p".into(), ".*(/p)".into()), json!("http://s/p")),
    _ => (Generator::RandomInt(7, 7), json!(7)),
  }
}
fn context() -> HashMap<&'static str, Value> {
  let mut m = HashMap::new();
  let state = json!({ "x": "X", "y": { "y": 1 } });
  if flag() { m.insert("providerState", state); } else { for (k, v) in state.as_object().unwrap() { m.insert(if k == "x" { "x" } else { "y" }, v.clone()); } }
  m.insert("mockServer", json!({ "url": "http://s" }));
  m
}
fn present(b: &OptionalBody) -> Option<Value> { b.value().and_then(|b| serde_json::from_slice(&b).ok()) }
/// A whole body with up to two generators at paths that do not overlap.
#[no_mangle] pub extern "C" fn quick_c22_json_body() {
  hash_mode(1);
  let mode = mode();
  let (g1, v1) = known_generator();
  let (g2, v2) = known_generator();
  let p1 = DocPath::new(pick(&["$.a", "$['a'][0]", "$.a[*]", "$.z"])).unwrap();
  let p2 = DocPath::new(pick(&["$.b", "$.b.*", "$.c['d e']", "$[0]"])).unwrap();
  let doc = json!({ "a": ["q", 1, null], "b": { "x": 1.5, "y": "\u{e9}" }, "c": { "d e": true, "d": [] } });
  let one = flag();
  let mut gens = HashMap::new();
  gens.insert(p1.clone(), g1.clone());
  if !one { gens.insert(p2.clone(), g2.clone()); }
  reach("body");
  let mut h = JsonHandler { value: doc.clone() };
  let mut want = doc.clone();
  let result = |g: &Generator, w: &Value, old: &Value| match g { Generator::RandomInt(..) if old.is_string() => json!("7"), _ => w.clone() };
  if applies(&g1, mode) { want = changed(&want, p1.tokens(), &|o| result(&g1, &v1, o)); }
  if !one && applies(&g2, mode) { want = changed(&want, p2.tokens(), &|o| result(&g2, &v2, o)); }
  match h.process_body(&gens, &mode, &context(), &NoopVariantMatcher.boxed()) {
    Ok(b) => { check(present(&b) == Some(want), "the generators have not changed exactly the elements their paths address"); check(b.content_type().map(|c| c.is_json()) == Some(true), "a generated JSON body is not JSON"); }
    Err(_) => fail("generators are not applied to a JSON body")
  }
}
/// Every generator but those bound to the other mode is applied, once and with its own key.
#[no_mangle] pub extern "C" fn quick_c22_modes() {
  let mode = mode();
  let kinds = [choose(12), choose(12)];
  let mut gens = HashMap::new();
  for (k, p) in kinds.iter().zip(["$.a", "$.b"]) { gens.insert(DocPath::new_unwrap(p), generator_of(*k)); }
  reach("modes");
  let mut seen: Vec<(DocPath, Generator)> = vec![];
  apply_generators(&mode, &gens, &mut |p, g| seen.push((p.clone(), g.clone())));
  check(seen.iter().all(|(p, g)| gens.get(p).map(|h| same_generator(g, h)) == Some(true)), "a generator is applied under another key");
  for (p, g) in &gens {
    check(g.corresponds_to_mode(&mode) == applies(g, mode), "a generator belongs to another mode");
    check(seen.iter().filter(|(q, _)| q == p).count() == if applies(g, mode) { 1 } else { 0 }, "a generator of the other mode is applied, or one of this mode is not");
  }
}

/// Form bodies: the parameters of the name in the path, or one of them.
fn form(n: usize) {
  let names: Vec<String> = (0..choose(n + 1)).map(|_| pick(&["a", "b", "1", "*"]).to_string()).collect();
  let params: Vec<(String, String)> = names.iter().enumerate().map(|(i, k)| (k.clone(), ["1", "x", "1", "y"][i].to_string())).collect();
  let (path, name, index): (&str, &str, Option<usize>) = pick(&[("$.a", "a", None), ("$['a']", "a", None), ("$.b", "b", None), ("$['1']", "1", None), ("$['*']", "*", None), ("$.a[0]", "a", Some(0)), ("$['a'][1]", "a", Some(1)), ("$.b[2]", "b", Some(2)), ("$.z", "z", None), ("$", "", None), ("$.a.b", "", None), ("$.a[0].b", "", None)]);
  let m = Mark { fails_for_numbers: flag() };
  let mut h = FormUrlEncodedHandler { params: params.clone() };
  h.apply_key(&DocPath::new_unwrap(path), &m, &HashMap::new(), &NoopVariantMatcher.boxed());
  let mut seen = 0;
  let mut want = params.clone();
  for (k, v) in want.iter_mut() {
    if k == name { if index.is_none() || index == Some(seen) { if !(m.fails_for_numbers && v == "1") { *v = format!("#{}", v); } } seen += 1; }
  }
  if want == params { reach("unchanged") } else { reach("changed") }
  check(h.params == want, "a generator has not changed exactly the form parameters its path addresses");
}
#[no_mangle] pub extern "C" fn quick_c22_form() { form(3) }
#[no_mangle] pub extern "C" fn deep_c22_form() { form(4) }
#[no_mangle] pub extern "C" fn quick_c22_form_body() {
  let mode = mode();
  let (g, v) = match choose(3) { 0 => (Generator::ProviderStateGenerator("x".into(), None), "X"), 1 => (Generator::MockServerURL("http://a/p".into(), ".*(/p)".into()), "http%3A%2F%2Fs%2Fp"), _ => (Generator::RandomInt(7, 7), "7") };
  let other = text(1, b"a &=+%");
  let name = pick(&["a", "b", "z"]);
  let mut gens = HashMap::new();
  let mut p = DocPath::root();
  p.push_field(name);
  gens.insert(p, g.clone());
  let mut h = FormUrlEncodedHandler { params: vec![("a".into(), "1".into()), ("b".into(), "2".into()), ("c".into(), other.clone())] };
  reach("form");
  let on = |n: &str, old: &str| if n == name && applies(&g, mode) { v.to_string() } else { old.to_string() };
  let want = format!("a={}&b={}&c={}", on("a", "1"), on("b", "2"), match other.as_str() { " " => "+", "&" => "%26", "=" => "%3D", "+" => "%2B", "%" => "%25", _ => "a" });
  match h.process_body(&gens, &mode, &context(), &NoopVariantMatcher.boxed()) {
    Ok(b) => check(b.value().map(|b| b.to_vec()) == Some(want.into_bytes()), "the generators have not changed exactly the form parameters their paths address"),
    Err(_) => fail("generators are not applied to a form body")
  }
}

#[derive(Debug, Clone)]
struct ByKind;
impl VariantMatcher for ByKind {
  fn find_matching_variant(&self, v: &Value, variants: &Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>) -> Option<(usize, HashMap<DocPath, Generator>)> {
    v["k"].as_u64().and_then(|k| variants.iter().find(|w| w.0 == k as usize)).map(|(i, _, g)| (*i, g.clone()))
  }
  fn boxed(&self) -> Matcher { Box::new(self.clone()) }
}
/// Variants of an array: the generators of the variant that matches an element change that element only.
fn variants(n: usize) {
  let state = |x: &str| Generator::ProviderStateGenerator(x.into(), None);
  let (q0, q1) = (pick(&["$.v", "$.v[*]", "$", "$.z"]), pick(&["$.v", "$.w"]));
  let g = |p: &str, s: &str| [(DocPath::new(p).unwrap(), state(s))].into_iter().collect::<HashMap<_, _>>();
  let rules = MatchingRuleCategory::empty("body");
  let gen = Generator::ArrayContains(vec![(0, rules.clone(), g(q0, "x")), (1, rules.clone(), g(q1, "y"))]);
  let a: Vec<Value> = (0..choose(n + 1)).map(|_| match choose(4) { 0 => json!({ "k": 0, "v": [1, 2] }), 1 => json!({ "k": 1, "v": "s", "w": 2 }), 2 => json!({ "k": 2, "v": 1 }), _ => json!(3) }).collect();
  let ctx: HashMap<&str, Value> = [("x", json!("X")), ("y", json!("Y"))].into();
  reach("variants");
  let want: Vec<Value> = a.iter().map(|v| match v["k"].as_u64() { Some(0) => changed(v, DocPath::new(q0).unwrap().tokens(), &|_| json!("X")), Some(1) => changed(v, DocPath::new(q1).unwrap().tokens(), &|_| json!("Y")), _ => v.clone() }).collect();
  let doc = json!({ "list": a, "other": [{ "k": 0, "v": 1 }] });
  let mut h = JsonHandler { value: doc };
  h.apply_key(&DocPath::new_unwrap("$.list"), &gen, &ctx, &ByKind.boxed());
  check(h.value == json!({ "list": want, "other": [{ "k": 0, "v": 1 }] }), "the generators of a variant have not changed exactly the elements that match it");
  let mut h = JsonHandler { value: json!({ "list": 1 }) };
  h.apply_key(&DocPath::new_unwrap("$.list"), &gen, &ctx, &ByKind.boxed());
  check(h.value == json!({ "list": 1 }), "the generators of a variant have changed something that is no array");
}
#[no_mangle] pub extern "C" fn quick_c22_variants() { variants(2) }
#[no_mangle] pub extern "C" fn deep_c22_variants() { variants(3) }
