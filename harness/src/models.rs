//! Builders of symbolic model values shared by the harnesses, and comparisons that look at every field.
use crate::vp::*;
use itertools::Either;
use pact_models::expression_parser::DataType;
use pact_models::generators::*;
use pact_models::matchingrules::expressions::*;
use pact_models::matchingrules::*;
use pact_models::path_exp::*;
use pact_models::HttpStatus;
use std::collections::HashMap;

/// A short text: empty, one arbitrary ASCII character, or a fixed text with a non-ASCII one.
pub fn str1() -> String { match choose(3) { 0 => String::new(), 1 => ascii(1), _ => "a\u{e9}".to_string() } }
pub fn str_sym() -> String { ascii(1) }

pub fn http_status() -> HttpStatus {
  match choose(10) {
    0 => HttpStatus::Information, 1 => HttpStatus::Success, 2 => HttpStatus::Redirect, 3 => HttpStatus::ClientError, 4 => HttpStatus::ServerError,
    5 => HttpStatus::NonError, 6 => HttpStatus::Error, 7 => HttpStatus::StatusCodes(vec![]), 8 => HttpStatus::StatusCodes(vec![u16v()]),
    _ => HttpStatus::StatusCodes(vec![u16v(), 404]),
  }
}

pub const SIMPLE_RULES: usize = 20;
/// One of the kinds of matching rule that contain no other rule, its attributes symbolic.
pub fn simple_rule(kind: usize) -> MatchingRule {
  match kind {
    0 => MatchingRule::Equality,
    1 => MatchingRule::Regex(str1()),
    2 => MatchingRule::Type,
    3 => MatchingRule::MinType(u32v() as usize),
    4 => MatchingRule::MaxType(u32v() as usize),
    5 => MatchingRule::MinMaxType(u32v() as usize, u32v() as usize),
    6 => MatchingRule::Timestamp(str1()),
    7 => MatchingRule::Time(str1()),
    8 => MatchingRule::Date(str1()),
    9 => MatchingRule::Include(str1()),
    10 => MatchingRule::Number,
    11 => MatchingRule::Integer,
    12 => MatchingRule::Decimal,
    13 => MatchingRule::Null,
    14 => MatchingRule::ContentType(str1()),
    15 => MatchingRule::Values,
    16 => MatchingRule::Boolean,
    17 => MatchingRule::StatusCode(http_status()),
    18 => MatchingRule::NotEmpty,
    _ => MatchingRule::Semver,
  }
}
pub const ALL_RULES: usize = 23;
/// Any kind of matching rule.
pub fn any_rule() -> MatchingRule { rule_of(choose(ALL_RULES)) }
pub fn rule_of(kind: usize) -> MatchingRule {
  match kind {
    20 => MatchingRule::EachKey(definition()),
    21 => MatchingRule::EachValue(definition()),
    22 => MatchingRule::ArrayContains((0..choose(3)).map(|i| variant(i)).collect()),
    k => simple_rule(k),
  }
}
pub fn definition() -> MatchingRuleDefinition {
  MatchingRuleDefinition {
    value: str1(), value_type: ValueType::Unknown,
    rules: match choose(3) { 0 => vec![], 1 => vec![Either::Left(few_rule())], _ => vec![Either::Left(MatchingRule::Type), Either::Left(few_rule())] },
    generator: if flag() { Some(few_generator()) } else { None }, expression: String::new(),
  }
}
/// A few kinds, for nested positions.
pub fn few_rule() -> MatchingRule {
  match choose(4) { 0 => MatchingRule::Regex(str_sym()), 1 => MatchingRule::MinType(u32v() as usize), 2 => MatchingRule::Integer, _ => MatchingRule::StatusCode(HttpStatus::StatusCodes(vec![u16v()])) }
}
pub fn few_generator() -> Generator {
  match choose(4) { 0 => Generator::Regex(str_sym()), 1 => Generator::RandomInt(u32v() as i32, u32v() as i32), 2 => Generator::Uuid(Some(UuidFormat::Urn)), _ => Generator::Date(None, Some(str_sym())) }
}
pub fn variant(i: usize) -> (usize, MatchingRuleCategory, HashMap<DocPath, Generator>) {
  let mut c = MatchingRuleCategory::empty("body");
  let mut g = HashMap::new();
  if i > 0 { c.add_rule(DocPath::root().join("second"), MatchingRule::Equality, RuleLogic::Or); return (i, c, g); }
  match choose(3) { 0 => (), 1 => c.add_rule(body_path(1), few_rule(), logic()), _ => { c.add_rule(DocPath::root(), few_rule(), logic()); c.add_rule(DocPath::root(), MatchingRule::Type, RuleLogic::And) } }
  if flag() { g.insert(body_path(1), few_generator()); }
  (if i == 0 { u32v() as usize } else { i }, c, g)
}
pub fn logic() -> RuleLogic { if flag() { RuleLogic::And } else { RuleLogic::Or } }

/// A path into a document: root and up to `n` segments.
pub fn body_path(n: usize) -> DocPath {
  let mut p = DocPath::root();
  for _ in 0..choose(n + 1) {
    match choose(4) { 0 => p.push_field(field()), 1 => p.push_index((byte_in(b"0123456789") - b'0') as usize), 2 => p.push_star(), _ => p.push_star_index() };
  }
  p
}
/// A non-empty field name with characters that need quoting or escaping.
pub fn field() -> String { text(1, b"aZ9_-.$*'\"\\[] @{#:,") }
pub fn name_path() -> DocPath { let mut p = DocPath::root(); p.push_field(field()); p }

pub const ALL_GENERATORS: usize = 12;
pub fn opt(s: fn() -> String) -> Option<String> { if flag() { Some(s()) } else { None } }
pub fn generator_of(kind: usize) -> Generator {
  match kind {
    0 => Generator::RandomInt(u32v() as i32, u32v() as i32),
    1 => Generator::Uuid(pick(&[None, Some(UuidFormat::Simple), Some(UuidFormat::LowerCaseHyphenated), Some(UuidFormat::UpperCaseHyphenated), Some(UuidFormat::Urn)])),
    2 => Generator::RandomDecimal(u16v()),
    3 => Generator::RandomHexadecimal(u16v()),
    4 => Generator::RandomString(u16v()),
    5 => Generator::Regex(str1()),
    6 => Generator::Date(opt(str1), opt(str1)),
    7 => Generator::Time(opt(str1), opt(str1)),
    8 => Generator::DateTime(opt(str1), opt(str1)),
    9 => Generator::RandomBoolean,
    10 => Generator::ProviderStateGenerator(str1(), pick(&[None, Some(DataType::STRING), Some(DataType::INTEGER), Some(DataType::DECIMAL), Some(DataType::FLOAT), Some(DataType::RAW), Some(DataType::BOOLEAN)])),
    _ => Generator::MockServerURL(str1(), str1()),
  }
}

// -------- comparisons that do not rely on the PartialEq of the code
pub fn same_generator(a: &Generator, b: &Generator) -> bool {
  match (a, b) {
    (Generator::RandomInt(a, b), Generator::RandomInt(c, d)) => a == c && b == d,
    (Generator::Uuid(a), Generator::Uuid(b)) => a == b,
    (Generator::RandomDecimal(a), Generator::RandomDecimal(b)) | (Generator::RandomHexadecimal(a), Generator::RandomHexadecimal(b)) | (Generator::RandomString(a), Generator::RandomString(b)) => a == b,
    (Generator::Regex(a), Generator::Regex(b)) => a == b,
    (Generator::Date(a, b), Generator::Date(c, d)) | (Generator::Time(a, b), Generator::Time(c, d)) | (Generator::DateTime(a, b), Generator::DateTime(c, d)) => a == c && b == d,
    (Generator::RandomBoolean, Generator::RandomBoolean) => true,
    (Generator::ProviderStateGenerator(a, b), Generator::ProviderStateGenerator(c, d)) => a == c && b == d,
    (Generator::MockServerURL(a, b), Generator::MockServerURL(c, d)) => a == c && b == d,
    (Generator::ArrayContains(a), Generator::ArrayContains(b)) => same_variants(a, b),
    _ => false,
  }
}
pub fn same_gen_map(a: &HashMap<DocPath, Generator>, b: &HashMap<DocPath, Generator>) -> bool {
  a.len() == b.len() && a.iter().all(|(p, g)| match lookup(b, p) { Some(h) => same_generator(g, h), None => false })
}
/// The entry whose path has the same tokens.
pub fn lookup<'a, T>(m: &'a HashMap<DocPath, T>, p: &DocPath) -> Option<&'a T> { m.iter().find(|(q, _)| q.tokens() == p.tokens()).map(|(_, v)| v) }
pub fn same_generators(a: &Generators, b: &Generators) -> bool {
  let n = |g: &Generators| g.categories.values().filter(|c| !c.is_empty()).count();
  n(a) == n(b) && a.categories.iter().filter(|(_, c)| !c.is_empty()).all(|(k, c)| match b.categories.get(k) { Some(d) => same_gen_map(c, d), None => false })
}
fn same_variants(a: &[(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)], b: &[(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)]) -> bool {
  a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && same_category(&x.1, &y.1) && same_gen_map(&x.2, &y.2))
}
/// The value type and the source text of a definition are not part of the JSON format.
pub fn same_definition(a: &MatchingRuleDefinition, b: &MatchingRuleDefinition) -> bool {
  a.value == b.value && a.rules.len() == b.rules.len()
    && a.rules.iter().zip(&b.rules).all(|(x, y)| match (x, y) { (Either::Left(x), Either::Left(y)) => same_rule(x, y), (Either::Right(x), Either::Right(y)) => x.name == y.name, _ => false })
    && match (&a.generator, &b.generator) { (None, None) => true, (Some(x), Some(y)) => same_generator(x, y), _ => false }
}
pub fn same_status(a: &HttpStatus, b: &HttpStatus) -> bool {
  match (a, b) { (HttpStatus::StatusCodes(a), HttpStatus::StatusCodes(b)) => a == b, _ => std::mem::discriminant(a) == std::mem::discriminant(b) }
}
pub fn same_rule(a: &MatchingRule, b: &MatchingRule) -> bool {
  use MatchingRule::*;
  match (a, b) {
    (Regex(a), Regex(b)) | (Timestamp(a), Timestamp(b)) | (Time(a), Time(b)) | (Date(a), Date(b)) | (Include(a), Include(b)) | (ContentType(a), ContentType(b)) => a == b,
    (MinType(a), MinType(b)) | (MaxType(a), MaxType(b)) => a == b,
    (MinMaxType(a, b), MinMaxType(c, d)) => a == c && b == d,
    (ArrayContains(a), ArrayContains(b)) => same_variants(a, b),
    (StatusCode(a), StatusCode(b)) => same_status(a, b),
    (EachKey(a), EachKey(b)) | (EachValue(a), EachValue(b)) => same_definition(a, b),
    _ => std::mem::discriminant(a) == std::mem::discriminant(b),
  }
}
pub fn same_list(a: &RuleList, b: &RuleList) -> bool {
  (a.rule_logic == RuleLogic::And) == (b.rule_logic == RuleLogic::And) && a.rules.len() == b.rules.len() && a.rules.iter().zip(&b.rules).all(|(x, y)| same_rule(x, y))
}
pub fn same_category(a: &MatchingRuleCategory, b: &MatchingRuleCategory) -> bool {
  let k = |c: &Category| -> String { c.clone().into() };
  k(&a.name) == k(&b.name) && a.rules.len() == b.rules.len() && a.rules.iter().all(|(p, l)| match lookup(&b.rules, p) { Some(m) => same_list(l, m), None => false })
}
pub fn same_rules(a: &MatchingRules, b: &MatchingRules) -> bool {
  let n = |g: &MatchingRules| g.rules.values().filter(|c| !c.rules.is_empty()).count();
  n(a) == n(b) && a.rules.iter().filter(|(_, c)| !c.rules.is_empty()).all(|(k, c)| match b.rules.get(k) { Some(d) => same_category(c, d), None => false })
}

// -------- JSON
/// A scalar: null, a Boolean, an integer with symbolic digits, a fixed fraction, a short text.
pub fn json_scalar() -> serde_json::Value {
  use serde_json::{json, Value};
  match choose(7) { 0 => Value::Null, 1 => json!(true), 2 => json!(false), 3 => json!(u32v()), 4 => json!(-1 - (byte() as i64)), 5 => json!(1.5), _ => Value::String(str1()) }
}
/// A document of at most `depth` levels of arrays of up to 2 elements and objects of up to 2 members named a or b.
pub fn json_doc(depth: usize) -> serde_json::Value {
  use serde_json::Value;
  if depth == 0 { return match choose(3) { 0 => Value::Null, 1 => serde_json::json!(byte()), _ => Value::String(ascii(1)) }; }
  match choose(8) {
    0 => json_scalar(),
    1 => Value::Array(vec![]),
    2 => Value::Array(vec![json_doc(depth - 1)]),
    3 => Value::Array(vec![json_doc(0), json_doc(depth - 1)]),
    4 => Value::Object(Default::default()),
    5 => obj(vec![("a", json_doc(depth - 1))]),
    6 => obj(vec![("b", json_doc(depth - 1))]),
    _ => obj(vec![("a", json_doc(depth - 1)), ("b", json_doc(0))]),
  }
}
pub fn obj(v: Vec<(&str, serde_json::Value)>) -> serde_json::Value { serde_json::Value::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
/// Everything a value feeds to a hasher: two values with the same record have the same hash under every hasher.
#[derive(Default)]
pub struct Record(pub Vec<u8>);
impl std::hash::Hasher for Record {
  fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
  fn finish(&self) -> u64 { 0 }
}
pub fn record<T: std::hash::Hash + ?Sized>(v: &T) -> Vec<u8> { let mut r = Record::default(); v.hash(&mut r); r.0 }
