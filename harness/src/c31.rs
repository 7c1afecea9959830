//! The verifier of the file format.
use crate::docs::*;
use crate::parts;
use crate::vp::*;
use pact_models::pact::Pact;
use pact_models::message_pact::MessagePact;
use pact_models::provider_states::ProviderState;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};

const SPECS: [PactSpecification; 6] = [PactSpecification::Unknown, PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4];

fn type_name(v: &Value) -> &'static str { match v { Value::Null => "Null", Value::Bool(_) => "Bool", Value::Number(_) => "Number", Value::String(_) => "String", Value::Array(_) => "Array", Value::Object(_) => "Object" } }

/// What is to be reported: the place, if it is an error, and what the message names (the type found, or the attribute).
struct Report { l: Vec<(String, bool, String)>, strict: bool }
impl Report {
  fn error(&mut self, path: &str, found: &Value) { self.l.push((path.into(), true, format!("got {}", type_name(found)))); }
  fn note(&mut self, path: &str, names: &str) { let s = self.strict; self.l.push((path.into(), s, names.into())); }
  fn warning(&mut self, path: &str, names: &str) { self.l.push((path.into(), false, names.into())); }
}
fn participant(r: &mut Report, path: &str, v: &Value) {
  match v {
    Value::Object(m) => {
      match m.get("name") { None => r.note(&format!("{}/name", path), "Missing"), Some(n) => if !n.is_string() { r.error(&format!("{}/name", path), n) } }
      for k in m.keys() { if k != "name" { r.note(path, &format!("'{}'", k)); } }
    }
    v => r.error(path, v)
  }
}
fn state(r: &mut Report, path: &str, v: &Value) {
  match v {
    Value::String(_) => (),
    Value::Object(m) => {
      match m.get("name") { None => r.l.push((path.into(), true, "required".into())), Some(n) => if !n.is_string() { r.error(path, n) } }
      if let Some(p) = m.get("params") { if !p.is_object() { r.error(path, p) } }
      for k in m.keys() { if k != "name" && k != "params" { r.note(path, &format!("'{}'", k)); } }
    }
    v => r.error(path, v)
  }
}
fn interaction(r: &mut Report, path: &str, v: &Value, spec: PactSpecification) {
  match v {
    Value::Object(m) => {
      match m.get("description") { None => r.note(path, "Missing description"), Some(d) => if !d.is_string() { r.error(&format!("{}/description", path), d) } }
      if let Some(s) = m.get("providerStates") {
        match s { Value::Array(l) => for (i, s) in l.iter().enumerate() { state(r, &format!("{}/providerStates/{}", path, i), s) }, s => r.error(path, s) }
      } else if let Some(s) = m.get("providerState") {
        if spec >= PactSpecification::V3 { r.warning(path, "'providerState' is deprecated"); }
        state(r, &format!("{}/providerStates/0", path), s);
      } else if let Some(s) = m.get("provider_state") {
        r.warning(path, "'provider_state' is deprecated");
        state(r, &format!("{}/providerStates/0", path), s);
      }
      for k in m.keys() { if !["_id", "description", "providerState", "provider_state", "providerStates", "request", "response"].contains(&k.as_str()) { r.note(path, &format!("'{}'", k)); } }
    }
    v => r.error(path, v)
  }
}
fn metadata(r: &mut Report, v: &Value) {
  match v {
    Value::Object(m) => {
      if m.contains_key("pactSpecificationVersion") { r.warning("/metadata", "'pactSpecificationVersion' is deprecated"); }
      let s = match (m.get("pactSpecification"), m.get("pact-specification")) { (Some(s), _) => Some(s), (None, Some(s)) => { r.warning("/metadata", "'pact-specification' is deprecated"); Some(s) } _ => None };
      match s {
        None => (),
        Some(Value::Object(s)) => match s.get("version") {
          None => r.warning("/metadata/pactSpecification", "version"),
          Some(Value::Null) => r.warning("/metadata/pactSpecification/version", "NULL"),
          Some(Value::String(t)) => if !versions(t) { r.l.push(("/metadata/pactSpecification/version".into(), true, format!("'{}'", t))) },
          Some(v) => r.error("/metadata/pactSpecification/version", v),
        },
        Some(v) => r.error("/metadata/pactSpecification", v),
      }
    }
    v => r.error("/metadata", v)
  }
}
/// The texts for versions in these documents.
fn versions(t: &str) -> bool { PactSpecification::parse_version(t).is_ok() }
fn expected(v: &Value, strict: bool, spec: PactSpecification) -> Report {
  let mut r = Report { l: vec![], strict };
  match v {
    Value::Object(m) => {
      for p in ["consumer", "provider"] { match m.get(p) { None => r.note(&format!("/{}", p), "Missing"), Some(v) => participant(&mut r, &format!("/{}", p), v) } }
      match m.get("interactions") {
        None => r.warning("/interactions", "Missing"),
        Some(Value::Array(l)) if l.is_empty() => r.warning("/interactions", "empty"),
        Some(Value::Array(l)) => for (i, v) in l.iter().enumerate() { interaction(&mut r, &format!("/interactions/{}", i), v, spec) },
        Some(v) => r.error("/interactions", v),
      }
      if let Some(v) = m.get("metadata") { metadata(&mut r, v); }
      for k in m.keys() { if !["consumer", "provider", "interactions", "metadata"].contains(&k.as_str()) { r.note(&format!("/{}", k), &format!("'{}'", k)); } }
    }
    v => r.error("/", v)
  }
  r
}
/// The same reports, in any order.
fn compared(got: Vec<PactFileVerificationResult>, r: Report) {
  let mut left: Vec<bool> = vec![true; got.len()];
  for (path, error, names) in &r.l {
    let level = if *error { ResultLevel::ERROR } else { ResultLevel::WARNING };
    let i = (0..got.len()).find(|i| left[*i] && got[*i].path == *path && got[*i].level == level && got[*i].message.contains(names.as_str()));
    match i {
      Some(i) => left[i] = false,
      None => {
        let i = (0..got.len()).find(|i| left[*i] && got[*i].path == *path && got[*i].level == level);
        match i { Some(i) => { left[i] = false; fail("a departure from the format is reported with something else than what was found") } None => { fail("a departure from the format is not reported, or at another place or level"); return } }
      }
    }
  }
  check(!left.iter().any(|l| *l), "something is reported that is no departure from the format");
}
fn pact_doc(list: Value) -> Value { json!({ "consumer": { "name": "c" }, "provider": { "name": "p" }, "interactions": list, "metadata": { "pactSpecification": { "version": "2.0.0" }, "pactRust": { "models": "1" } } }) }
fn verified(doc: Value) {
  let strict = flag();
  let spec = pick(&[PactSpecification::V2, PactSpecification::V3]);
  let r = expected(&doc, strict, spec);
  reach(if r.l.is_empty() { "accepted" } else { "reported" });
  compared(RequestResponsePact::verify_json("", &doc, strict, spec), r);
}
/// A document with one place changed.
fn documents(f: fn(Value) -> Value) {
  verified(f(pact_doc(match choose(5) {
    0 => json!([{ "description": "d", "providerStates": [{ "name": "s", "params": { "p": 1 } }, "t"], "request": {}, "response": {} }]),
    1 => json!([{ "_id": "i", "description": "d", "providerState": "s" }]),
    2 => json!([{ "description": "d", "provider_state": "s" }]),
    3 => json!([]),
    _ => json!([{ "description": "a" }, { "description": "b", "providerState": { "name": "s" }, "providerStates": [] }]),
  })))
}
#[no_mangle] pub extern "C" fn quick_c31_documents() { documents(changed) }
#[no_mangle] pub extern "C" fn deep_c31_documents() { documents(changed_twice) }
#[no_mangle] pub extern "C" fn quick_c31_metadata() {
  let m = match choose(4) { 0 => json!({ "pactSpecification": { "version": "3.0.0" } }), 1 => json!({ "pact-specification": { "version": "2.0" }, "pactSpecificationVersion": "2.0" }),
    2 => json!({ "pactSpecification": { "version": "4" }, "pact-specification": { "version": "x" } }), _ => json!({ "pactSpecification": { "version": text(1, b"01234.v") } }) };
  let mut d = pact_doc(json!([{ "description": "d" }]));
  d["metadata"] = changed(m);
  verified(d);
}
/// Each part by itself.
fn parts_alone(f: fn(Value) -> Value) {
  let strict = flag();
  let spec = pick(&SPECS);
  let mut r = Report { l: vec![], strict };
  let got = match choose(4) {
    0 => { let d = f(json!({ "name": "c" })); participant(&mut r, "/x", &d); Consumer::verify_json("/x", &d, strict, spec) }
    1 => { let d = f(json!({ "name": "c" })); participant(&mut r, "/x", &d); Provider::verify_json("/x", &d, strict, spec) }
    2 => { let d = f(json!({ "name": "s", "params": {} })); state(&mut r, "/x", &d); ProviderState::verify_json("/x", &d, strict, spec) }
    _ => { let d = f(json!({ "description": "d", "providerState": "s" })); interaction(&mut r, "/x", &d, spec); RequestResponseInteraction::verify_json("/x", &d, strict, spec) }
  };
  reach("part");
  compared(got, r);
}
#[no_mangle] pub extern "C" fn quick_c31_parts() { parts_alone(changed) }
#[no_mangle] pub extern "C" fn deep_c31_parts() { parts_alone(changed_twice) }
/// Message and V4 pacts: an object, and nothing else.
#[no_mangle] pub extern "C" fn quick_c31_other_pacts() {
  let d = changed(json!({ "a": 1 }));
  let (strict, spec) = (flag(), pick(&SPECS));
  let got = if flag() { V4Pact::verify_json("/", &d, strict, spec) } else { MessagePact::verify_json("/", &d, strict, spec) };
  let mut r = Report { l: vec![], strict };
  if !d.is_object() { r.error("/", &d); }
  check(json_type_of(&d) == type_name(&d), "the type of a JSON value is another one");
  reach("other");
  compared(got, r);
}
/// What is written is accepted.
#[no_mangle] pub extern "C" fn quick_c31_written() {
  let mut i = RequestResponseInteraction { description: pick(&["", "d"]).into(), provider_states: parts::states(1), .. Default::default() };
  match choose(4) { 0 => i.id = Some("i".into()), 1 => i.request = parts::v3_request(&parts::request(choose(parts::REQUEST_PARTS))), 2 => i.response = parts::v3_response(&parts::response(choose(parts::RESPONSE_PARTS))), _ => () }
  let p = RequestResponsePact { interactions: if flag() { vec![i] } else { vec![] }, .. Default::default() };
  let spec = pick(&SPECS[1..]);
  let j = match p.to_json(spec) { Ok(j) => j, Err(_) => { fail("a pact can not be written"); return } };
  let l = if spec == PactSpecification::V4 { V4Pact::verify_json("/", &j, true, spec) } else { RequestResponsePact::verify_json("/", &j, true, spec) };
  reach("written");
  check(!l.iter().any(|r| r.level == ResultLevel::ERROR), "what is written is reported as an error");
}
