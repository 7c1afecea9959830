//! Matching rules in JSON.
use crate::models::*;
use crate::vp::*;
use pact_models::matchingrules::*;
use pact_models::path_exp::*;
use pact_models::{HttpStatus, PactSpecification};
use serde_json::{json, Value};

const V34: [PactSpecification; 2] = [PactSpecification::V3, PactSpecification::V4];
const CATS: [Category; 8] = [Category::METHOD, Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::STATUS, Category::CONTENTS, Category::METADATA];

fn roundtrip(m: &MatchingRules, v: &PactSpecification) -> MatchingRules {
  let j = json!({ "matchingRules": matchers_to_json(m, v) });
  match matchers_from_json(&j, &None) { Ok(m) => m, Err(_) => { fail("written rules can not be loaded"); unreachable!() } }
}
fn v34(m: MatchingRules) {
  let v = pick(&V34);
  let r = roundtrip(&m, &v);
  reach("loaded");
  check(same_rules(&m, &r), "the loaded rules differ from the written ones");
  check(m == r, "the loaded rules compare as different from the written ones");
}
fn path_in(c: &Category) -> DocPath {
  match c { Category::METHOD | Category::PATH | Category::STATUS => DocPath::empty(), Category::HEADER | Category::QUERY => name_path(), _ => body_path(2) }
}
fn single(c: Category, p: DocPath, rules: Vec<MatchingRule>, l: RuleLogic) -> MatchingRules {
  let mut m = MatchingRules::default();
  for r in rules { m.add_category(c.clone()).add_rule(p.clone(), r, l); }
  m
}
/// Each kind of rule on its own.
#[no_mangle] pub extern "C" fn quick_c08_rule() {
  let r = any_rule();
  let s = MatchingRule::from_json(&r.to_json());
  reach("loaded");
  match s { Ok(s) => check(same_rule(&r, &s), "a rule read back differs"), Err(_) => fail("a written rule can not be loaded") }
}
#[no_mangle] pub extern "C" fn quick_c08_rule_in_category() {
  let c = pick(&CATS);
  let r = match choose(3) { 0 => few_rule(), 1 => MatchingRule::EachKey(definition()), _ => MatchingRule::ArrayContains(vec![(1, single(Category::BODY, DocPath::root(), vec![MatchingRule::Type], RuleLogic::And).rules[&Category::BODY].clone(), Default::default())]) };
  let p = match &c { Category::BODY | Category::CONTENTS | Category::METADATA => body_path(1), c => path_in(c) };
  v34(single(c, p, vec![r], logic()))
}
#[no_mangle] pub extern "C" fn quick_c08_paths() {
  let c = pick(&CATS);
  let p = path_in(&c);
  v34(single(c, p, vec![MatchingRule::Type, MatchingRule::Regex("x".into())], logic()))
}
/// Names of headers and parameters, any ASCII text.
#[no_mangle] pub extern "C" fn quick_c08_names() {
  let c = pick(&[Category::HEADER, Category::QUERY]);
  let n = if flag() { ascii_upto(1, 2) } else { pick(&["matchers", "combine", "$.body", "match", "a.b", "Q[]", "path"]).to_string() };
  let mut p = DocPath::root();
  p.push_field(n);
  v34(single(c, p, vec![MatchingRule::Type], RuleLogic::Or))
}
/// Two rules in the same or different places.
#[no_mangle] pub extern "C" fn quick_c08_two() {
  let mut m = MatchingRules::default();
  let (c, d) = (pick(&CATS), pick(&[Category::BODY, Category::HEADER, Category::METADATA]));
  let p = match &c { Category::BODY | Category::CONTENTS | Category::METADATA => DocPath::root().join(text(1, b"ab")), Category::HEADER | Category::QUERY => DocPath::root().join(text(1, b"ab")), _ => DocPath::empty() };
  let q = DocPath::root().join(text(1, b"ab"));
  m.add_category(c).add_rule(p, MatchingRule::MinType(u32v() as usize), logic());
  m.add_category(d).add_rule(q, MatchingRule::Regex(str_sym()), logic());
  v34(m)
}
#[no_mangle] pub extern "C" fn deep_c08_two() {
  let mut m = MatchingRules::default();
  for _ in 0..2 {
    let c = pick(&CATS);
    let p = path_in(&c);
    let r = if flag() { few_rule() } else { simple_rule(choose(SIMPLE_RULES)) };
    m.add_category(c).add_rule(p, r, logic());
  }
  v34(m)
}
#[no_mangle] pub extern "C" fn deep_c08_rule_in_category() { let c = pick(&CATS); let p = path_in(&c); v34(single(c, p, vec![any_rule(), few_rule()], logic())) }

/// V2: one rule for each location, AND, no nested definitions.
#[no_mangle] pub extern "C" fn quick_c08_v2() {
  let v = pick(&[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2]);
  let mut m = MatchingRules::default();
  let c = pick(&[Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::METHOD, Category::STATUS, Category::METADATA]);
  let p = if c == Category::METADATA { name_path() } else { path_in(&c) };
  m.add_category(c).add_rule(p, few_rule(), RuleLogic::And);
  if flag() { m.add_category("body").add_rule(DocPath::root().join("second"), MatchingRule::Date(str_sym()), RuleLogic::And); }
  let r = roundtrip(&m, &v);
  reach("loaded");
  check(same_rules(&m, &r), "the loaded V2 rules differ from the written ones");
}
#[no_mangle] pub extern "C" fn quick_c08_v2_names() {
  let n = if flag() { ascii_upto(1, 2) } else { pick(&["$.body", "a.b", "Q[]", "headers", "x['y']"]).to_string() };
  let mut p = DocPath::root();
  p.push_field(n);
  let m = single(pick(&[Category::HEADER, Category::QUERY, Category::METADATA, Category::BODY]), p, vec![MatchingRule::Type], RuleLogic::And);
  let r = roundtrip(&m, &PactSpecification::V2);
  reach("loaded");
  check(same_rules(&m, &r), "the loaded V2 rules differ from the written ones");
}

/// The spellings other implementations write: what they say is what is loaded.
#[no_mangle] pub extern "C" fn quick_c08_foreign() {
  let n = u32v();
  let t = str_sym();
  let (j, want) = match choose(22) {
    0 => (json!({ "match": "regex", "regex": t }), MatchingRule::Regex(t)),
    1 => (json!({ "regex": t }), MatchingRule::Regex(t)),
    2 => (json!({ "min": n }), MatchingRule::MinType(n as usize)),
    3 => (json!({ "max": n }), MatchingRule::MaxType(n as usize)),
    4 => (json!({ "match": "min", "min": n }), MatchingRule::MinType(n as usize)),
    5 => (json!({ "match": "max", "max": n }), MatchingRule::MaxType(n as usize)),
    6 => (json!({ "pact:matcher:type": "min-type", "min": n }), MatchingRule::MinType(n as usize)),
    7 => (json!({ "pact:matcher:type": "max-type", "max": n }), MatchingRule::MaxType(n as usize)),
    8 => (json!({ "match": "timestamp", "timestamp": t }), MatchingRule::Timestamp(t)),
    9 => (json!({ "match": "datetime", "format": t }), MatchingRule::Timestamp(t)),
    10 => (json!({ "timestamp": t }), MatchingRule::Timestamp(t)),
    11 => (json!({ "match": "date", "date": t }), MatchingRule::Date(t)),
    12 => (json!({ "date": t }), MatchingRule::Date(t)),
    13 => (json!({ "match": "time", "time": t }), MatchingRule::Time(t)),
    14 => (json!({ "time": t }), MatchingRule::Time(t)),
    15 => (json!({ "match": "real" }), MatchingRule::Decimal),
    16 => (json!({ "match": "content-type", "value": t }), MatchingRule::ContentType(t)),
    17 => (json!({ "match": "not-empty" }), MatchingRule::NotEmpty),
    18 => (json!({ "match": "status-code", "status": "redirect" }), MatchingRule::StatusCode(HttpStatus::Redirect)),
    19 => (json!({ "match": "type", "min": n, "max": 7 }), MatchingRule::MinMaxType(n as usize, 7)),
    20 => (json!({ "match": "include", "value": t }), MatchingRule::Include(t)),
    _ => (json!({ "match": "array-contains", "variants": [] }), MatchingRule::ArrayContains(vec![])),
  };
  reach("loaded");
  match MatchingRule::from_json(&j) { Ok(r) => check(same_rule(&r, &want), "a rule written by another implementation is loaded as a different one"), Err(_) => fail("a valid rule is refused") }
  // an unknown kind is refused, not taken for another
  let k = text(4, b"typenulx");
  let r = MatchingRule::from_json(&json!({ "match": k }));
  match k.as_str() {
    "type" => check(matches!(r, Ok(MatchingRule::Type)), "type"), "null" => check(matches!(r, Ok(MatchingRule::Null)), "null"),
    _ => check(r.is_err(), "an unknown rule kind is taken for a known one"),
  }
}
/// The attribute under its old name is read; the combination is read in any case.
#[no_mangle] pub extern "C" fn quick_c08_containers() {
  let logic = pick(&["AND", "and", "OR", "or", "Or", ""]);
  let mut rules = json!({ "path": { "matchers": [{ "match": "type" }, { "match": "integer" }] }, "body": { "$.a": { "matchers": [{ "match": "type" }] } } });
  if !logic.is_empty() { rules["path"]["combine"] = Value::String(logic.to_string()); rules["body"]["$.a"]["combine"] = Value::String(logic.to_string()); }
  let j = if flag() { json!({ "matchingRules": rules }) } else { json!({ "requestMatchingRules": rules }) };
  let m = matchers_from_json(&j, &Some("requestMatchingRules".to_string())).unwrap();
  let or = logic.to_uppercase() == "OR";
  let l = if or { RuleLogic::Or } else { RuleLogic::And };
  let mut want = MatchingRules::default();
  want.add_category("path").add_rule(DocPath::empty(), MatchingRule::Type, l);
  want.add_category("path").add_rule(DocPath::empty(), MatchingRule::Integer, l);
  want.add_category("body").add_rule(DocPath::root().join("a"), MatchingRule::Type, l);
  reach("loaded");
  check(same_rules(&m, &want), "the combination or a rule is not the one written");
}
