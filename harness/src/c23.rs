//! Provider states.
use crate::models::*;
use crate::vp::*;
use pact_models::message::Message;
use pact_models::interaction::Interaction;
use pact_models::provider_states::ProviderState;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::{interaction_from_json, V4Interaction};
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::collections::HashMap;

/// Up to two parameters with different names.
fn params(depth: usize) -> HashMap<String, Value> {
  let mut m = HashMap::new();
  let n = choose(3);
  if n > 0 { let k = str1(); m.insert(k.clone(), json_doc(depth)); if n > 1 { let l = text(1, b"ab.\""); assume(l != k); m.insert(l, json_doc(0)); } }
  m
}
fn state(depth: usize) -> ProviderState { ProviderState { name: str1(), params: params(depth) } }
fn same_state(a: &ProviderState, b: &ProviderState) -> bool { a.name == b.name && a.params.len() == b.params.len() && a.params.iter().all(|(k, v)| b.params.get(k) == Some(v)) }
fn same_states(a: &[ProviderState], b: &[ProviderState]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_state(x, y)) }

fn one(depth: usize) {
  let s = state(depth);
  let j = s.to_json();
  reach("state");
  check(same_state(&ProviderState::from_json_v3(&j), &s), "a provider state written and read is another one");
  check(same_states(&ProviderState::from_json(&json!({ "providerStates": [j] })), &[s]), "a provider state written and read in a list is another one");
}
#[no_mangle] pub extern "C" fn quick_c23_state() { one(1) }
#[no_mangle] pub extern "C" fn deep_c23_state() { one(2) }

/// Up to `n` states: symbolic names, which may be equal, and at most one parameter each.
fn states(n: usize) -> Vec<ProviderState> {
  (0..choose(n + 1)).map(|_| {
    let mut s = ProviderState::default(str_sym());
    match choose(3) { 0 => (), 1 => { s.params.insert("p".into(), json!(byte())); } _ => { s.params.insert(str_sym(), json!([null, { "b": str_sym() }])); } }
    s
  }).collect()
}
fn interactions(n: usize) {
  let s = states(n);
  let k = choose(5);
  let back: Vec<ProviderState> = match k {
    0 => { let i = RequestResponseInteraction { provider_states: s.clone(), .. Default::default() };
      match RequestResponseInteraction::from_json(0, &i.to_json(&PactSpecification::V3), &PactSpecification::V3) { Ok(r) => r.provider_states, Err(_) => { fail("a written V3 interaction is refused"); return } } }
    1 => { let i = Message { provider_states: s.clone(), .. Default::default() };
      match Message::from_json(0, &i.to_json(&PactSpecification::V3), &PactSpecification::V3) { Ok(r) => r.provider_states, Err(_) => { fail("a written message is refused"); return } } }
    _ => {
      let j = match k {
        2 => SynchronousHttp { provider_states: s.clone(), .. Default::default() }.to_json(),
        3 => AsynchronousMessage { provider_states: s.clone(), .. Default::default() }.to_json(),
        _ => SynchronousMessage { provider_states: s.clone(), .. Default::default() }.to_json(),
      };
      match interaction_from_json("t", 0, &j) { Ok(r) => r.provider_states(), Err(_) => { fail("a written V4 interaction is refused"); return } }
    }
  };
  reach("interaction");
  check(same_states(&back, &s), "the provider states of an interaction written and read are others");
}
#[no_mangle] pub extern "C" fn quick_c23_interactions() { interactions(2) }
#[no_mangle] pub extern "C" fn deep_c23_interactions() { interactions(3) }
/// The V1 and V2 formats hold the name of one state.
#[no_mangle] pub extern "C" fn quick_c23_v2() {
  let s: Vec<ProviderState> = if flag() { vec![] } else { let n = unicode(1 + choose(2), &["\u{e9}", "\u{20ac}"]); vec![ProviderState::default(n)] };
  let v = pick(&[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2]);
  let i = RequestResponseInteraction { provider_states: s.clone(), .. Default::default() };
  match RequestResponseInteraction::from_json(0, &i.to_json(&v), &v) {
    Ok(r) => { reach("v2"); check(same_states(&r.provider_states, &s), "the provider state of a V2 interaction written and read is another one"); }
    Err(_) => fail("a written V2 interaction is refused"),
  }
  // the spelling of other writers
  if let Some(f) = s.first() {
    let k = pick(&["providerState", "provider_state"]);
    let j = match choose(4) { 0 => json!({ k: f.name }), 1 => json!({ k: f.name, "providerStates": null }), 2 => json!({ k: f.name, "x": { "providerStates": [] } }), _ => json!({ k: f.name, "providerStates": "x" }) };
    check(same_states(&ProviderState::from_json(&j), &s), "a provider state given by its name alone is lost");
  }
}
/// A JSON value that is no list of states, or no state.
fn junk() -> Value { match choose(8) { 0 => Value::Null, 1 => json!(true), 2 => json!(byte()), 3 => json!(1.5), 4 => Value::String(str1()), 5 => json!({}), 6 => json!([]), _ => json!({ "x": str1() }) } }
fn has_name(j: &Value) -> bool { j.get("name").is_some() }
/// Malformed states and attributes beside well-formed ones.
#[no_mangle] pub extern "C" fn quick_c23_malformed() {
  let s = ProviderState::default(str_sym());
  let mut t = ProviderState::default("t".to_string());
  t.params.insert("p".into(), json!(byte()));
  let bad = junk();
  let at = choose(3);
  let mut list = vec![s.to_json(), t.to_json()];
  list.insert(at, bad.clone());
  let r = ProviderState::from_json(&json!({ "providerStates": list, "providerState": "old" }));
  reach("list");
  let kept: Vec<ProviderState> = r.iter().enumerate().filter(|(i, _)| r.len() == 2 || *i != at).map(|(_, x)| x.clone()).collect();
  check(r.len() == 2 || r.len() == 3, "a malformed provider state changes how many states there are");
  check(same_states(&kept, &[s.clone(), t.clone()]), "a malformed provider state disturbs the others");
  // attributes of the wrong type
  let p = junk();
  let r = ProviderState::from_json_v3(&json!({ "name": "t", "params": p }));
  check(r.name == "t", "malformed parameters disturb the name");
  match &p { Value::Object(m) => check(r.params.len() == m.len() && m.iter().all(|(k, v)| r.params.get(k) == Some(v)), "parameters are read as others"), _ => check(r.params.is_empty(), "malformed parameters are read as parameters") }
  let n = junk();
  let r = ProviderState::from_json_v3(&json!({ "name": n, "params": { "p": 1 } }));
  check(r.params.len() == 1 && r.params.get("p") == Some(&json!(1)), "a malformed name disturbs the parameters");
  if let Value::String(n) = &n { check(&r.name == n, "a name is read as another"); }
  let _ = has_name(&n);
}
/// Any value in place of the attributes.
#[no_mangle] pub extern "C" fn quick_c23_shapes() {
  let a = junk();
  let b = junk();
  let k = pick(&["providerState", "provider_state"]);
  let j = match choose(4) { 0 => json!({ "providerStates": a }), 1 => json!({ k: b }), 2 => json!({ "providerStates": a, k: b }), _ => a.clone() };
  let r = ProviderState::from_json(&j);
  reach("shape");
  let old = j.get("providerState").or_else(|| j.get("provider_state"));
  let list = j.get("providerStates").map(|v| v.is_array()).unwrap_or(false);
  match old {
    Some(Value::String(s)) if !list => check(r.len() == (!s.is_empty()) as usize && r.iter().all(|x| &x.name == s && x.params.is_empty()), "the state named by the old attribute is lost"),
    Some(Value::Null) | None => check(r.is_empty(), "a provider state appears from nowhere"),
    _ => check(r.len() <= 1, "provider states appear from nowhere"),
  }
  if list { check(r.is_empty(), "an empty list of states is read as states"); }
}
