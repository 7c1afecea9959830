//! Merging pacts.
use crate::parts::*;
use crate::vp::*;
use pact_models::bodies::OptionalBody;
use pact_models::generators::{Generator, GeneratorCategory};
use pact_models::matchingrules::{MatchingRule, RuleLogic};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{Pact, ReadWritePact};
use pact_models::path_exp::DocPath;
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};
use std::panic::RefUnwindSafe;

type V4I = Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>;
/// What makes an interaction the one it is: description, names of the states, type, key.
#[derive(Clone)]
struct Id { desc: u8, states: Vec<u8>, kind: usize, key: Option<u8> }
fn id(states: usize, kinds: usize, keys: bool) -> Id {
  Id { desc: range(b' ', b'~'), states: (0..choose(states + 1)).map(|_| range(b' ', b'~')).collect(), kind: choose(kinds), key: if keys && flag() { Some(range(b' ', b'~')) } else { None } }
}
fn same_id(a: &Id, b: &Id) -> bool {
  if let (Some(x), Some(y)) = (a.key, b.key) { return x == y; }
  a.kind == b.kind && a.states.len() == b.states.len() && a.desc == b.desc && a.states.iter().zip(&b.states).all(|(x, y)| x == y)
}
fn s(b: u8) -> String { unsafe { String::from_utf8_unchecked(vec![b]) } }
/// The identities of the interactions of two pacts: within a pact all different, and none the same as two of the other.
fn ids(n: usize, m: usize, states: usize, kinds: usize, keys: bool) -> (Vec<Id>, Vec<Id>) {
  let a: Vec<Id> = (0..choose(n + 1)).map(|_| id(states, kinds, keys)).collect();
  let b: Vec<Id> = (0..choose(m + 1)).map(|_| id(states, kinds, keys)).collect();
  for v in [&a, &b] { for i in 0..v.len() { for j in 0..i { assume(!same_id(&v[i], &v[j])); } } }
  if keys { for (v, w) in [(&a, &b), (&b, &a)] { for x in v { assume(w.iter().filter(|y| same_id(x, y)).count() <= 1); } } }
  (a, b)
}
fn state_list(i: &Id) -> Vec<ProviderState> { i.states.iter().map(|n| ProviderState { name: s(*n), params: [("p".to_string(), json!(1))].into() }).collect() }
/// Marks which of the pacts an interaction is from.
fn http(i: &Id, from: &str) -> RequestResponseInteraction {
  let mut r = RequestResponseInteraction { description: s(i.desc), provider_states: state_list(i), ..Default::default() };
  r.request.headers = Some([("X-From".to_string(), vec![from.to_string()])].into());
  r.request.matching_rules.add_category("body").add_rule(DocPath::root().join(from), MatchingRule::Type, RuleLogic::And);
  r.response.body = OptionalBody::from(from);
  r.response.generators.add_generator(&GeneratorCategory::STATUS, Generator::Regex(from.into()));
  r
}
fn message(i: &Id, from: &str) -> Message {
  let mut m = Message { description: s(i.desc), provider_states: state_list(i), contents: OptionalBody::from(from), metadata: [("from".to_string(), json!(from))].into(), ..Default::default() };
  m.matching_rules.add_category("body").add_rule(DocPath::root().join(from), MatchingRule::Type, RuleLogic::And);
  m.generators.add_generator(&GeneratorCategory::STATUS, Generator::Regex(from.into()));
  m
}
fn v4(i: &Id, from: &str) -> V4I {
  let key = i.key.map(s);
  match i.kind {
    0 => { let h = http(i, from); SynchronousHttp { key, description: h.description, provider_states: h.provider_states, request: v4_request(&h.request), response: v4_response(&h.response), transport: Some(from.into()), comments: [("from".to_string(), json!(from))].into(), ..Default::default() }.boxed_v4() }
    1 => AsynchronousMessage { key, description: s(i.desc), provider_states: state_list(i), contents: pact_models::v4::message_parts::MessageContents { metadata: [("from".to_string(), json!(from))].into(), ..Default::default() }, pending: from == "b", ..Default::default() }.boxed_v4(),
    _ => SynchronousMessage { key, description: s(i.desc), provider_states: state_list(i), request: pact_models::v4::message_parts::MessageContents { metadata: [("from".to_string(), json!(from))].into(), ..Default::default() }, ..Default::default() }.boxed_v4(),
  }
}
fn consumer() -> Consumer { Consumer { name: "c".into() } }
fn provider() -> Provider { Provider { name: "p".into() } }
fn rr(v: Vec<RequestResponseInteraction>) -> RequestResponsePact { RequestResponsePact { consumer: consumer(), provider: provider(), interactions: v, specification_version: PactSpecification::V3, ..Default::default() } }
fn mp(v: Vec<Message>) -> MessagePact { MessagePact { consumer: consumer(), provider: provider(), messages: v, metadata: Default::default(), specification_version: PactSpecification::V3 } }
fn vp4(v: Vec<V4I>) -> V4Pact { V4Pact { consumer: consumer(), provider: provider(), interactions: v, ..Default::default() } }

/// The identities the merged pact must have, each with the pacts it is from.
fn expected(a: &[Id], b: &[Id]) -> Vec<(Id, bool, bool)> {
  let mut v: Vec<(Id, bool, bool)> = a.iter().map(|i| (i.clone(), true, b.iter().any(|j| same_id(i, j)))).collect();
  for j in b { if !a.iter().any(|i| same_id(i, j)) { v.push((j.clone(), false, true)); } }
  v
}
fn names(v: &[ProviderState]) -> Vec<String> { v.iter().map(|p| p.name.clone()).collect() }
fn sorted(v: Vec<(String, Vec<String>)>) { check(v.windows(2).all(|w| w[0] <= w[1]), "the interactions of a merged pact are not sorted"); }
fn merged_rr(p: &dyn Pact) -> Option<RequestResponsePact> { match p.as_request_response_pact() { Ok(p) => Some(p), Err(_) => { fail("the merged pact is of another type"); None } } }

fn http_pacts(n: usize, m: usize, states: usize) {
  let (a, b) = ids(n, m, states, 1, false);
  let p = rr(a.iter().map(|i| http(i, "a")).collect());
  let q = rr(b.iter().map(|i| http(i, "b")).collect());
  let as_v4 = flag();
  let r = if as_v4 { p.merge(&vp4(b.iter().map(|i| v4(i, "b")).collect())) } else { p.merge(&q) };
  let r = match r { Ok(r) => r, Err(_) => { fail("merging pacts without conflict fails"); return; } };
  reach("merged");
  let r = match merged_rr(r.as_ref()) { Some(r) => r, None => return };
  check(r.consumer == p.consumer && r.provider == p.provider && r.specification_version == PactSpecification::V3, "the merged pact is for others");
  let e = expected(&a, &b);
  check(r.interactions.len() == e.len(), "the merged pact has lost or repeats an interaction");
  for (i, _, other) in &e {
    let want = http(i, if *other { "b" } else { "a" });
    let found: Vec<_> = r.interactions.iter().filter(|x| x.description == want.description && names(&x.provider_states) == names(&want.provider_states)).collect();
    check(found.len() == 1, "an interaction is not in the merged pact");
    if let Some(f) = found.first() { check_v3_interaction(&want, f); }
  }
  sorted(r.interactions.iter().map(|x| (x.description.clone(), names(&x.provider_states))).collect());
  if as_v4 { return; }
  for again in [r.merge(&q), r.merge(&r)] {
    match again.ok().and_then(|x| merged_rr(x.as_ref())) {
      Some(x) => { check(x.interactions.len() == r.interactions.len(), "merging a pact again changes it"); for (x, y) in x.interactions.iter().zip(&r.interactions) { check_v3_interaction(y, x); } }
      None => fail("merging a pact again fails"),
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c12_http() { http_pacts(2, 1, 1) }
#[no_mangle] pub extern "C" fn quick_c12_http_order() { http_pacts(2, 2, 0) }
#[no_mangle] pub extern "C" fn deep_c12_http() { http_pacts(2, 2, 1) }
#[no_mangle] pub extern "C" fn deep_c12_http_order() { http_pacts(3, 2, 0) }
#[no_mangle] pub extern "C" fn deep_c12_http_states() { http_pacts(1, 1, 2) }

fn message_pacts(n: usize, m: usize, states: usize) {
  let (a, b) = ids(n, m, states, 1, false);
  let p = mp(a.iter().map(|i| message(i, "a")).collect());
  let q = mp(b.iter().map(|i| message(i, "b")).collect());
  let r = match p.merge(&q) { Ok(r) => r, Err(_) => { fail("merging message pacts fails"); return; } };
  reach("merged");
  let r = match r.as_message_pact() { Ok(r) => r, Err(_) => { fail("the merged pact is of another type"); return; } };
  check(r.consumer == p.consumer && r.provider == p.provider, "the merged pact is for others");
  let e = expected(&a, &b);
  check(r.messages.len() == e.len(), "the merged pact has lost or repeats a message");
  for (i, _, other) in &e {
    let want = message(i, if *other { "b" } else { "a" });
    let found: Vec<_> = r.messages.iter().filter(|x| x.description == want.description && names(&x.provider_states) == names(&want.provider_states)).collect();
    check(found.len() == 1, "a message is not in the merged pact");
    if let Some(f) = found.first() { check_message(&want, f); }
  }
  sorted(r.messages.iter().map(|x| (x.description.clone(), names(&x.provider_states))).collect());
  for again in [r.merge(&q), r.merge(&r)] {
    match again.ok().and_then(|x| x.as_message_pact().ok()) {
      Some(x) => { check(x.messages.len() == r.messages.len(), "merging a pact again changes it"); for (x, y) in x.messages.iter().zip(&r.messages) { check_message(y, x); } }
      None => fail("merging a pact again fails"),
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c12_messages() { message_pacts(2, 1, 1) }
#[no_mangle] pub extern "C" fn quick_c12_messages_order() { message_pacts(2, 2, 0) }
#[no_mangle] pub extern "C" fn deep_c12_messages() { message_pacts(2, 2, 1) }

fn check_v4(want: &V4I, got: &V4I) {
  check(want.key() == got.key() && want.v4_type() == got.v4_type(), "an interaction of the merged pact has another key or type");
  if let (Some(a), Some(b)) = (want.as_v4_http(), got.as_v4_http()) { check_http(&a, &b); }
  else if let (Some(a), Some(b)) = (want.as_v4_async_message(), got.as_v4_async_message()) { check_async(&a, &b); }
  else if let (Some(a), Some(b)) = (want.as_v4_sync_message(), got.as_v4_sync_message()) { check_sync(&a, &b); }
  else { fail("an interaction of the merged pact has another type"); }
}
fn of(i: &V4I) -> (String, Vec<String>) { (i.description(), names(&i.provider_states())) }
fn v4_pacts(n: usize, m: usize, states: usize, kinds: usize, keys: bool) {
  let (a, b) = ids(n, m, states, kinds, keys);
  let p = vp4(a.iter().map(|i| v4(i, "a")).collect());
  let q = vp4(b.iter().map(|i| v4(i, "b")).collect());
  let r = match p.merge(&q) { Ok(r) => r, Err(_) => { fail("merging V4 pacts fails"); return; } };
  reach("merged");
  let r = match r.as_v4_pact() { Ok(r) => r, Err(_) => { fail("the merged pact is of another type"); return; } };
  check(r.consumer == p.consumer && r.provider == p.provider, "the merged pact is for others");
  let e = expected(&a, &b);
  check(r.interactions.len() == e.len(), "the merged pact has lost or repeats an interaction");
  for (i, own, _) in &e {
    let want = v4(i, if *own { "a" } else { "b" });
    let found: Vec<_> = r.interactions.iter().filter(|x| of(x) == of(&want) && x.v4_type() == want.v4_type() && x.key() == want.key()).collect();
    check(found.len() == 1, "an interaction is not in the merged pact");
    if let Some(f) = found.first() { check_v4(&want, f); }
  }
  sorted(r.interactions.iter().map(of).collect());
  for again in [r.merge(&q), r.merge(&r)] {
    match again.ok().and_then(|x| x.as_v4_pact().ok()) {
      Some(x) => { check(x.interactions.len() == r.interactions.len(), "merging a pact again changes it"); for (x, y) in x.interactions.iter().zip(&r.interactions) { check_v4(y, x); } }
      None => fail("merging a pact again fails"),
    }
  }
}
#[no_mangle] pub extern "C" fn quick_c12_v4() { v4_pacts(1, 1, 1, 3, true) }
#[no_mangle] pub extern "C" fn quick_c12_v4_keys() { v4_pacts(2, 1, 0, 1, true) }
#[no_mangle] pub extern "C" fn quick_c12_v4_types() { v4_pacts(2, 1, 0, 3, false) }
#[no_mangle] pub extern "C" fn quick_c12_v4_order() { v4_pacts(2, 2, 0, 1, false) }
#[no_mangle] pub extern "C" fn deep_c12_v4() { v4_pacts(2, 2, 1, 1, false) }
#[no_mangle] pub extern "C" fn deep_c12_v4_keys() { v4_pacts(2, 2, 0, 1, true) }
#[no_mangle] pub extern "C" fn deep_c12_v4_types() { v4_pacts(2, 1, 1, 3, true) }
/// Pacts of an earlier version merged into a V4 pact.
#[no_mangle] pub extern "C" fn quick_c12_upgrade() {
  let (a, b) = ids(1, 2, 1, 1, false);
  let messages = flag();
  let kind = if messages { 1 } else { 0 };
  let set = |v: &[Id]| -> Vec<Id> { v.iter().map(|i| Id { kind, ..i.clone() }).collect() };
  let (a, b) = (set(&a), set(&b));
  let p = vp4(a.iter().map(|i| v4(i, "a")).collect());
  let r = if messages { p.merge(&mp(b.iter().map(|i| message(i, "b")).collect())) } else { p.merge(&rr(b.iter().map(|i| http(i, "b")).collect())) };
  reach("upgraded");
  let r = match r.ok().and_then(|r| r.as_v4_pact().ok()) { Some(r) => r, None => { fail("merging a pact of an earlier version into a V4 pact fails"); return; } };
  let e = expected(&a, &b);
  check(r.interactions.len() == e.len(), "the merged pact has lost or repeats an interaction");
  for (i, own, _) in &e {
    let found: Vec<_> = r.interactions.iter().filter(|x| of(x) == (s(i.desc), names(&state_list(i)))).collect();
    check(found.len() == 1, "an interaction is not in the merged pact");
    let from = if *own { "a" } else { "b" };
    if let Some(f) = found.first() {
      if *own { check_v4(&v4(i, "a"), f); continue; }
      if messages { match f.as_v4_async_message() { Some(m) => check(m.contents.metadata.get("from") == Some(&json!(from)), "a message of the merged pact is another one"), None => fail("a message of the merged pact has another type") } }
      else { match f.as_v4_http() { Some(h) => { let w = http(i, from); check_request(&v4_request(&w.request), &h.request); check_response(&v4_response(&w.response), &h.response); } None => fail("an interaction of the merged pact has another type") } }
    }
  }
}
/// Other consumers and providers are refused, and nothing but their names counts.
#[no_mangle] pub extern "C" fn quick_c12_names() {
  let n = |c: String, p: String| (Consumer { name: c }, Provider { name: p });
  let (c1, p1) = n(crate::models::str1(), "p".into());
  let other = flag();
  let (c2, p2) = if other { n(crate::models::str1(), "p".into()) } else { n(c1.name.clone(), crate::models::str1()) };
  let same = c1.name == c2.name && p1.name == p2.name;
  let pact = |k: usize, c: &Consumer, p: &Provider| -> Box<dyn Pact + Send + Sync + RefUnwindSafe> { match k {
    0 => { let mut r = rr(vec![]); r.consumer = c.clone(); r.provider = p.clone(); r.boxed() }
    1 => { let mut r = mp(vec![]); r.consumer = c.clone(); r.provider = p.clone(); r.boxed() }
    _ => { let mut r = vp4(vec![]); r.consumer = c.clone(); r.provider = p.clone(); r.boxed() }
  } };
  let second = pact(choose(3), &c2, &p2);
  let r = match choose(3) {
    0 => { let mut r = rr(vec![]); r.consumer = c1; r.provider = p1; r.merge(second.as_ref()) }
    1 => { let mut r = mp(vec![]); r.consumer = c1; r.provider = p1; r.merge(second.as_ref()) }
    _ => { let mut r = vp4(vec![]); r.consumer = c1; r.provider = p1; r.merge(second.as_ref()) }
  };
  reach("names");
  check(r.is_ok() == same, "pacts of different consumers or providers are merged, or pacts of the same are not");
}
/// A V1 to V3 HTTP pact conflicts with another exactly when the same interaction has another method, path, query or status.
#[no_mangle] pub extern "C" fn quick_c12_conflicts() {
  blind(true);
  let i = Id { desc: b'd', states: vec![b's'; choose(2)], kind: 0, key: None };
  let j = match choose(3) { 0 => Id { desc: range(b'a', b'z'), ..i.clone() }, 1 => Id { states: vec![range(b'a', b'z'); choose(3)], ..i.clone() }, _ => i.clone() };
  let part = choose(12);
  let base = |i: &Id| { let mut h = http(i, "a"); h.request = Request { headers: h.request.headers.clone(), matching_rules: h.request.matching_rules.clone(), ..v3_request(&request(9)) }; h };
  let (mut a, mut b) = (base(&i), base(&j));
  let mut differ = false;
  match part {
    0 => { a.request.method = "P".to_string() + &text(1, b"UO"); b.request.method = "P".to_string() + &text(1, b"UO"); differ = a.request.method != b.request.method; }
    1 => { a.request.path = "/".to_string() + &text(choose(2), b"ab"); b.request.path = "/".to_string() + &text(choose(2), b"ab"); differ = a.request.path != b.request.path; }
    2 => { let q = || match choose(5) { 0 => None, 1 => Some([("a".to_string(), vec![Some(text(1, b"12"))])].into()), 2 => Some([("a".to_string(), vec![None])].into()), 3 => Some([(text(1, b"ab"), vec![Some("1".to_string())])].into()), _ => Some([("b".to_string(), vec![Some("1".to_string()), Some("2".to_string())]), ("a".to_string(), vec![])].into()) };
      a.request.query = q(); b.request.query = q(); differ = !same_opt_map(&a.request.query, &b.request.query); }
    3 => { a.response.status = u16v(); b.response.status = u16v(); differ = a.response.status != b.response.status; }
    4 => b.request.headers = pick(&[None, Some([("a".to_string(), vec!["b".to_string()])].into()), Some([("X-From".to_string(), vec!["b".to_string()])].into())]),
    5 => b.request.body = pick(&[OptionalBody::Missing, OptionalBody::Empty, OptionalBody::from("other")]),
    6 => b.request.matching_rules = Default::default(),
    7 => b.response.headers = pick(&[None, Some([("a".to_string(), vec!["b".to_string()])].into())]),
    8 => b.response.body = pick(&[OptionalBody::Missing, OptionalBody::Empty, OptionalBody::from("other")]),
    9 => b.response.matching_rules = a.request.matching_rules.clone(),
    10 => b.request.generators = a.response.generators.clone(),
    _ => b.response.generators = Default::default(),
  }
  let conflict = same_id(&i, &j) && differ;
  reach("conflict");
  check(a.conflicts_with(&b).is_empty() == !conflict, "a conflict is reported for compatible interactions, or none for conflicting ones");
  check(b.conflicts_with(&a).is_empty() == !conflict, "a conflict is reported only one way round");
  let other = http(&Id { desc: b'~', states: vec![], kind: 0, key: None }, "b");
  let front = flag();
  let r = rr(vec![a.clone()]).merge(&rr(if front { vec![b.clone(), other] } else { vec![other, b.clone()] }));
  check(r.is_ok() == !conflict, "a conflict does not decide whether pacts are merged");
  blind(false);
}
/// Messages and HTTP interactions do not mix before V4.
#[no_mangle] pub extern "C" fn quick_c12_mixed() {
  let (a, b) = (id(1, 1, false), id(1, 1, false));
  reach("mixed");
  check(rr(vec![http(&a, "a")]).merge(&mp(vec![message(&b, "b")])).is_err(), "a message pact is merged into an HTTP pact");
  check(mp(vec![message(&a, "a")]).merge(&rr(vec![http(&b, "b")])).is_err(), "an HTTP pact is merged into a message pact");
}
/// The plugins of both pacts, their configuration combined, and the metadata of the pact merged into.
#[no_mangle] pub extern "C" fn quick_c12_plugins() {
  let p = |n: u8, v: u8, c: Value| PluginData { name: s(n), version: s(v), configuration: c.as_object().unwrap().clone().into_iter().collect() };
  let (n, v) = (range(b'a', b'z'), range(b'0', b'9'));
  let first = p(b'p', b'1', json!({ "a": { "x": 1 }, "k": "1" }));
  let second = p(n, v, json!({ "a": { "y": crate::models::str1() }, "b": [1], "k": "2" }));
  let third = p(b'z', b'z', json!({}));
  let mut x = vp4(vec![]); x.plugin_data = vec![first.clone()]; x.metadata.insert("m".into(), json!({ "a": 1 }));
  let mut y = vp4(vec![]); y.plugin_data = vec![second.clone(), third]; y.metadata.insert("n".into(), json!({ "b": 1 }));
  let r = match x.merge(&y).ok().and_then(|r| r.as_v4_pact().ok()) { Some(r) => r, None => { fail("merging V4 pacts fails"); return; } };
  reach("plugins");
  check(r.metadata.get("m") == Some(&json!({ "a": 1 })), "the metadata of the pact merged into is lost");
  let same = n == b'p' && v == b'1';
  check(r.plugin_data.len() == if same { 2 } else { 3 }, "the merged pact has lost or repeats a plugin");
  let f = r.plugin_data.iter().find(|d| d.name == "p" && d.version == "1");
  match f {
    None => fail("a plugin is lost"),
    Some(f) => if same {
      check(f.configuration.get("a") == Some(&json!({ "x": 1, "y": second.configuration["a"]["y"] })) && f.configuration.get("b") == Some(&json!([1])) && f.configuration.get("k") == Some(&json!("2")), "the configuration of a plugin is not combined");
    } else { check(f.configuration == first.configuration, "the configuration of a plugin is changed by another plugin"); }
  }
  if !same { check(r.plugin_data.iter().any(|d| d.name == second.name && d.version == second.version && d.configuration == second.configuration), "a plugin of the other pact is lost"); }
}
