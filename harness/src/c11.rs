//! Equality, hashes and unique keys.
use crate::models::*;
use crate::parts::*;
use crate::vp::*;
use bytes::Bytes;
use pact_models::bodies::OptionalBody;
use pact_models::generators::*;
use pact_models::matchingrules::*;
use pact_models::path_exp::DocPath;
use pact_models::provider_states::ProviderState;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::Hash;

/// Equality is what the values say, in both directions, and equal values feed the same to every hasher.
fn pair<T: PartialEq + Hash>(a: &T, b: &T, same: bool) {
  reach("pair");
  let e = a == b;
  check(e == (b == a), "equality is not symmetric");
  check(e == !(a != b), "equal and not equal at once");
  if same { check(e, "values with the same content are not equal"); } else { check(!e, "values that differ are equal"); }
  if e { check(crate::vp::same(&record(a), &record(b)), "equal values have different hashes"); }
  #[allow(clippy::eq_op)] { check(a == a, "a value is not equal to itself"); }
}
/// The same entries inserted in two orders.
fn two<K: Eq + Hash + Clone, V: Clone>(v: &[(K, V)]) -> (HashMap<K, V>, HashMap<K, V>) {
  let mut a = HashMap::new(); let mut b = HashMap::new();
  for (k, x) in v { a.insert(k.clone(), x.clone()); }
  let mut rest: Vec<(K, V)> = v.to_vec();
  while !rest.is_empty() { let i = choose(rest.len()); let (k, x) = rest.remove(i); b.insert(k, x); }
  (a, b)
}
/// A kind and, for the second value, the same kind or one of a few others.
fn kinds(n: usize) -> (usize, usize) { let k = choose(n); (k, if flag() { k } else { (k + 1 + choose(3) * 5) % n }) }

#[no_mangle] pub extern "C" fn quick_c11_rules() { let (k, l) = kinds(SIMPLE_RULES); let (a, b) = (simple_rule(k), simple_rule(l)); let s = same_rule(&a, &b); pair(&a, &b, s); }
#[no_mangle] pub extern "C" fn quick_c11_nested_rules() {
  let d = |r: Vec<MatchingRule>, g: Option<Generator>, v: String| expressions::MatchingRuleDefinition { value: v, value_type: expressions::ValueType::Unknown, rules: r.into_iter().map(itertools::Either::Left).collect(), generator: g, expression: String::new() };
  let one = |k: usize| match k {
    0 => MatchingRule::EachKey(d(vec![few_rule()], None, "v".into())),
    1 => MatchingRule::EachValue(d(vec![MatchingRule::Type], if flag() { Some(few_generator()) } else { None }, str_sym())),
    2 => MatchingRule::EachKey(d(vec![MatchingRule::Regex("a".into()), MatchingRule::Type], None, "v".into())),
    _ => MatchingRule::ArrayContains((0..choose(2) + 1).map(|i| if i == 0 { (byte() as usize, MatchingRuleCategory::empty("body"), if flag() { [(DocPath::root(), few_generator())].into() } else { HashMap::new() }) } else { (1, MatchingRuleCategory::empty("body"), HashMap::new()) }).collect()),
  };
  let k = choose(4);
  let (a, b) = (one(k), one(if flag() { k } else { (k + 1) % 4 }));
  let s = same_rule(&a, &b);
  pair(&a, &b, s);
}
#[no_mangle] pub extern "C" fn quick_c11_generators() { let (k, l) = kinds(ALL_GENERATORS); let (a, b) = (generator_of(k), generator_of(l)); let s = same_generator(&a, &b); pair(&a, &b, s); }
#[no_mangle] pub extern "C" fn quick_c11_lists() {
  let list = || RuleList { rules: (0..choose(3)).map(|i| if i == 0 { few_rule() } else { MatchingRule::MaxType(byte() as usize) }).collect(), rule_logic: logic(), cascaded: flag() };
  let (a, b) = (list(), list());
  let s = same_list(&a, &b);
  pair(&a, &b, s);
}
fn rule_list(s: &str) -> RuleList { RuleList::new(MatchingRule::Regex(s.into())) }
/// A category, and the collection of all categories, filled in every order.
#[no_mangle] pub extern "C" fn quick_c11_rule_order() {
  let v: Vec<(DocPath, RuleList)> = vec![(DocPath::root().join("a"), rule_list(&str_sym())), (DocPath::root().join("b"), rule_list("y")), (DocPath::root(), rule_list("z"))];
  let (a, b) = two(&v[..choose(3) + 1]);
  let cat = |m: HashMap<DocPath, RuleList>| MatchingRuleCategory { name: Category::BODY, rules: m };
  let (a, b) = (cat(a), cat(b));
  pair(&a, &b, true);
  let mut c = b.clone();
  match choose(4) { 0 => c.name = Category::HEADER, 1 => { c.rules.remove(&DocPath::root().join("a")); } 2 => { c.rules.insert(DocPath::root().join("c"), rule_list("x")); } _ => { c.rules.insert(DocPath::root().join("a"), rule_list("")); } }
  pair(&a, &c, false);
}
#[no_mangle] pub extern "C" fn quick_c11_category_order() {
  let c = |n: &str, s: &str| { let mut c = MatchingRuleCategory::empty(n); c.add_rule(DocPath::root().join("a"), MatchingRule::Regex(s.into()), RuleLogic::And); c };
  let x = str_sym();
  let v = vec![(Category::BODY, c("body", &x)), (Category::HEADER, c("header", "y")), (Category::STATUS, c("status", "z"))];
  let (a, mut b) = two(&v[..choose(3) + 1]);
  let a = MatchingRules { rules: a };
  let change = choose(4);
  match change { 0 => (), 1 => { b.insert(Category::QUERY, MatchingRuleCategory::empty("query")); } 2 => { b.remove(&Category::BODY); } _ => { b.insert(Category::PATH, c("path", "p")); } }
  let b = MatchingRules { rules: b };
  pair(&a, &b, change < 2);
}
#[no_mangle] pub extern "C" fn quick_c11_variant_order() {
  let v = [(DocPath::root().join("a"), Generator::Regex(str_sym())), (DocPath::root().join("b"), Generator::RandomBoolean)];
  let (a, b) = two(&v);
  if flag() { let f = |g| MatchingRule::ArrayContains(vec![(0, MatchingRuleCategory::empty("body"), g)]); pair(&f(a), &f(b), true); }
  else { let f = |g| Generator::ArrayContains(vec![(0, MatchingRuleCategory::empty("body"), g)]); pair(&f(a), &f(b), true); }
}
#[no_mangle] pub extern "C" fn quick_c11_generator_order() {
  let x = str_sym();
  let (a, b) = two(&[(DocPath::root().join("a"), Generator::Regex(x)), (DocPath::root().join("b"), Generator::RandomBoolean), (DocPath::root(), Generator::RandomDecimal(u16v()))]);
  let (p, q) = two(&[(GeneratorCategory::BODY, a), (GeneratorCategory::PATH, [(DocPath::empty(), Generator::RandomBoolean)].into())]);
  let mut q = q;
  let change = choose(5);
  match change { 0 => { q.insert(GeneratorCategory::BODY, b); } 1 => { q.insert(GeneratorCategory::HEADER, HashMap::new()); } 2 => { q.remove(&GeneratorCategory::BODY); } 3 => { q.get_mut(&GeneratorCategory::BODY).unwrap().remove(&DocPath::root()); } _ => { q.insert(GeneratorCategory::STATUS, [(DocPath::empty(), Generator::RandomBoolean)].into()); } }
  pair(&Generators { categories: p }, &Generators { categories: q }, change < 2);
}
/// Values of state parameters, the same numbers in every form.
fn param(k: usize) -> Value { match k { 0 => Value::Null, 1 => json!(flag()), 2 => json!(byte()), 3 => json!(-1 - byte() as i64), 4 => json!(1.5), 5 => json!(0.0), 6 => json!(-0.0), 7 => json!([1]), 8 => json!({ "a": null }), _ => json!(str_sym()) } }
#[no_mangle] pub extern "C" fn quick_c11_state_order() {
  let k = choose(10);
  let (a, b) = two(&[("a".to_string(), param(k)), ("b".to_string(), json!("x")), ("c".to_string(), json!({ "d": [1] }))]);
  let n = str_sym();
  pair(&ProviderState { name: n.clone(), params: a }, &ProviderState { name: n, params: b }, true);
}
#[no_mangle] pub extern "C" fn quick_c11_states() {
  let one = |k: usize| ProviderState { name: str_sym(), params: if k == 10 { HashMap::new() } else { [("a".to_string(), param(k))].into() } };
  let k = choose(11);
  let (a, b) = (one(k), one(if flag() { k } else { (k + 1) % 11 }));
  let s = same_state(&a, &b);
  pair(&a, &b, s);
}
#[no_mangle] pub extern "C" fn quick_c11_bodies() {
  let one = || match choose(4) { 0 => OptionalBody::Missing, 1 => OptionalBody::Empty, 2 => OptionalBody::Null, _ => OptionalBody::Present(Bytes::from(vec![byte(); choose(2)]), if flag() { pact_models::content_types::ContentType::parse("a/b").ok() } else { None }, None) };
  let (a, b) = (one(), one());
  let s = match (&a, &b) { (OptionalBody::Present(x, _, _), OptionalBody::Present(y, _, _)) => x == y, _ => std::mem::discriminant(&a) == std::mem::discriminant(&b) };
  pair(&a, &b, s);
}
/// One part changed, or none.
fn changed_request(r: &HttpRequest, c: usize) -> HttpRequest {
  let mut r = r.clone();
  match c {
    0 => r.method = "PATCH".into(),
    1 => r.path.push('x'),
    2 => r.query = match r.query { None => Some([("zz".to_string(), vec![None])].into()), Some(mut q) => { q.insert("zz".into(), vec![Some("1".into())]); Some(q) } },
    3 => r.headers = match r.headers { None => Some([("zz".to_string(), vec![])].into()), Some(mut q) => { q.insert("zz".into(), vec!["1".into()]); Some(q) } },
    4 => r.body = OptionalBody::from("other"),
    5 => r.matching_rules.add_category("path").add_rule(DocPath::empty(), MatchingRule::Semver, RuleLogic::And),
    6 => r.generators.add_generator(&GeneratorCategory::STATUS, Generator::RandomBoolean),
    _ => (),
  }
  r
}
fn changed_response(r: &HttpResponse, c: usize) -> HttpResponse {
  let mut r = r.clone();
  match c {
    0 => r.status ^= 1 << choose(16),
    1 => r.headers = match r.headers { None => Some([("zz".to_string(), vec![])].into()), Some(mut q) => { q.insert("zz".into(), vec!["1".into()]); Some(q) } },
    2 => r.body = OptionalBody::from("other"),
    3 => r.matching_rules.add_category("status").add_rule(DocPath::empty(), MatchingRule::Semver, RuleLogic::And),
    4 => r.generators.add_generator(&GeneratorCategory::METHOD, Generator::RandomBoolean),
    _ => (),
  }
  r
}
fn changed_contents(r: &MessageContents, c: usize) -> MessageContents {
  let mut r = r.clone();
  match c {
    0 => r.contents = OptionalBody::from("other"),
    1 => { r.metadata.insert("zz".into(), json!(1)); }
    2 => r.matching_rules.add_category("path").add_rule(DocPath::empty(), MatchingRule::Semver, RuleLogic::And),
    3 => r.generators.add_generator(&GeneratorCategory::METHOD, Generator::RandomBoolean),
    _ => (),
  }
  r
}
#[no_mangle] pub extern "C" fn quick_c11_requests() {
  let a = request(choose(REQUEST_PARTS));
  let c = choose(8);
  let b = changed_request(&a, c);
  pair(&a, &b, c == 7);
  pair(&v3_request(&a), &v3_request(&b), c == 7);
}
#[no_mangle] pub extern "C" fn quick_c11_responses() {
  let a = response(choose(RESPONSE_PARTS));
  let c = choose(6);
  let b = changed_response(&a, c);
  pair(&a, &b, c == 5);
  pair(&v3_response(&a), &v3_response(&b), c == 5);
}
fn some_contents(part: usize) -> MessageContents {
  let mut c = contents(if part == 1 { 9 } else { part });
  if part == 1 { c.metadata = match choose(3) { 0 => HashMap::new(), 1 => [(str1(), plain_doc(1))].into(), _ => [("a".to_string(), json!(str_sym())), ("n".to_string(), json!(7))].into() }; }
  c
}
#[no_mangle] pub extern "C" fn quick_c11_contents() {
  let a = some_contents(choose(CONTENTS_PARTS));
  let c = choose(5);
  pair(&a, &changed_contents(&a, c), c == 4);
}
/// The maps of a request, a response and a message, filled in every order.
#[no_mangle] pub extern "C" fn quick_c11_part_order() {
  let x = str_sym();
  match choose(3) {
    0 => { let (q, r) = two(&[("a".to_string(), vec![Some(x)]), ("b".to_string(), vec![None]), ("c".to_string(), vec![])]);
      let f = |q| HttpRequest { query: Some(q), ..Default::default() }; let (a, b) = (f(q), f(r)); pair(&a, &b, true); pair(&v3_request(&a), &v3_request(&b), true); }
    1 => { let (q, r) = two(&[("a".to_string(), vec![x]), ("b".to_string(), vec!["1".to_string()]), ("A".to_string(), vec![])]);
      let f = |h| HttpRequest { headers: Some(h), ..Default::default() }; let (a, b) = (f(q.clone()), f(r.clone())); pair(&a, &b, true); pair(&v3_request(&a), &v3_request(&b), true);
      let f = |h| HttpResponse { headers: Some(h), ..Default::default() }; let (a, b) = (f(q), f(r)); pair(&a, &b, true); pair(&v3_response(&a), &v3_response(&b), true); }
    _ => { let (q, r) = two(&[("a".to_string(), param(choose(10))), ("b".to_string(), json!({ "x": [1], "y": {} })), ("c".to_string(), Value::Null)]);
      let f = |m| MessageContents { metadata: m, ..Default::default() }; pair(&f(q.clone()), &f(r.clone()), true);
      let f = |m| AsynchronousMessage { contents: MessageContents { metadata: m, ..Default::default() }, ..Default::default() }; pair(&f(q), &f(r), true); }
  }
}
fn http() -> SynchronousHttp { SynchronousHttp { id: None, key: None, description: str1(), provider_states: states(1), request: request(9), response: response(9), pending: flag(), ..Default::default() } }
fn asynch() -> AsynchronousMessage { AsynchronousMessage { id: None, key: None, description: str1(), provider_states: states(1), contents: some_contents(1), pending: flag(), ..Default::default() } }
fn synch() -> SynchronousMessage { SynchronousMessage { id: None, key: None, description: str1(), provider_states: states(1), request: contents(9), response: (0..choose(3)).map(|_| contents(9)).collect(), pending: flag(), ..Default::default() } }
macro_rules! common { ($b:expr, $c:expr) => { match $c { 0 => $b.description.push('x'), 1 => $b.provider_states.push(ProviderState::default("new")), 2 => $b.pending = !$b.pending, 3 => $b.key = Some("k".to_string()), _ => () } } }
/// The attributes that count and those that do not, for each type of interaction.
macro_rules! interaction { ($a:expr, $parts:expr, $change:expr) => {{
  let a = $a;
  let c = choose(4 + $parts + 1);
  let mut b = a.clone();
  if c < 4 { common!(b, c); } else if c < 4 + $parts { $change(&mut b, c - 4); } else {
    match choose(3) { 0 => (), 1 => b.id = Some("other".into()), _ => { b.comments.insert("c".into(), json!(1)); b.transport = Some("t".into()); } }
  }
  let eq = c == 4 + $parts;
  pair(&a, &b, eq);
  check((a.boxed_v4() == b.boxed_v4()) == eq, "two boxed interactions are compared otherwise than the interactions");
  check(a.boxed_v4() == a.boxed_v4(), "a boxed interaction is not equal to itself");
  // what the unique key is calculated from
  if c == 3 || eq { check(crate::vp::same(&record(&a), &record(&b)), "the unique key depends on the key, the id or the comments of an interaction"); }
  else { check(record(&a) != record(&b), "the unique key ignores a part of an interaction"); }
}} }
#[no_mangle] pub extern "C" fn quick_c11_http() {
  interaction!(http(), 12, |b: &mut SynchronousHttp, c: usize| if c < 7 { b.request = changed_request(&b.request, c) } else { b.response = changed_response(&b.response, c - 7) });
}
#[no_mangle] pub extern "C" fn quick_c11_async() { interaction!(asynch(), 4, |b: &mut AsynchronousMessage, c: usize| b.contents = changed_contents(&b.contents, c)); }
#[no_mangle] pub extern "C" fn quick_c11_sync() {
  interaction!(synch(), 6, |b: &mut SynchronousMessage, c: usize| match c {
    4 => b.response.push(contents(9)),
    5 => match b.response.pop() { Some(r) => b.response.push(changed_contents(&r, choose(4))), None => b.response.push(contents(9)) },
    c => b.request = changed_contents(&b.request, c) });
}
#[no_mangle] pub extern "C" fn quick_c11_types() {
  let v: Vec<Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe>> = vec![SynchronousHttp::default().boxed_v4(), AsynchronousMessage::default().boxed_v4(), SynchronousMessage::default().boxed_v4()];
  let (i, j) = (choose(3), choose(3));
  reach("types");
  check(v[i].eq(&v[j]) == (i == j), "interactions of different types are equal");
}
/// The key itself: the one given, or else one for the contents, however the maps were filled.
#[no_mangle] pub extern "C" fn quick_c11_keys() {
  let s = two(&[("a".to_string(), json!("x")), ("b".to_string(), json!(1)), ("c".to_string(), json!({ "d": 1.5 }))]);
  let m = two(&[("a".to_string(), json!("x")), ("b".to_string(), json!(1))]);
  let cat = |n: &str| { let mut c = MatchingRuleCategory::empty(n); c.add_rule(DocPath::root(), MatchingRule::Type, RuleLogic::And); c };
  let r = two(&[(Category::BODY, cat("body")), (Category::HEADER, cat("header"))]);
  let given = match choose(3) { 0 => Some(str_sym()), 1 => Some(String::new()), _ => None };
  let kind = choose(3);
  let make = |params: HashMap<String, Value>, metadata: HashMap<String, Value>, rules: HashMap<Category, MatchingRuleCategory>| -> Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe> {
    let states = vec![ProviderState { name: "s".into(), params }];
    let rules = MatchingRules { rules };
    match kind {
      0 => SynchronousHttp { key: given.clone(), provider_states: states, request: HttpRequest { matching_rules: rules, ..Default::default() }, ..Default::default() }.boxed_v4(),
      1 => AsynchronousMessage { key: given.clone(), provider_states: states, contents: MessageContents { metadata, matching_rules: rules, ..Default::default() }, ..Default::default() }.boxed_v4(),
      _ => SynchronousMessage { key: given.clone(), provider_states: states, request: MessageContents { metadata, matching_rules: rules, ..Default::default() }, ..Default::default() }.boxed_v4(),
    }
  };
  let a = make(s.0, m.0, r.0);
  let b = make(s.1, m.1, r.1);
  reach("key");
  let k = a.unique_key();
  check(k == b.unique_key(), "the unique key depends on the order in which a map was filled");
  if let Some(g) = &given { check(&k == g, "the unique key is not the key the interaction has"); }
  let w = a.with_unique_key();
  let mut c = a.clone();
  let calculated = if given.is_none() { k.clone() } else { w.key().unwrap_or_default() };
  check(w.key().as_deref() == Some(calculated.as_str()) && w.unique_key() == calculated, "an interaction with its unique key has another one");
  let keyed = match kind { 0 => { let mut i = c.as_v4_http().unwrap(); i.key = w.key(); i.boxed_v4() } 1 => { let mut i = c.as_v4_async_message().unwrap(); i.key = w.key(); i.boxed_v4() } _ => { let mut i = c.as_v4_sync_message().unwrap(); i.key = w.key(); i.boxed_v4() } };
  check(keyed == w, "an interaction with its unique key has other contents");
  c.set_id(Some("x".into()));
  check(c.unique_key() == k, "the unique key depends on the id of an interaction");
}
