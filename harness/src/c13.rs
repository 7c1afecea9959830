//! Conversions between the specification versions.
use crate::models::*;
use crate::parts::*;
use crate::vp::*;
use pact_models::interaction::Interaction;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::Pact;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::http_parts::HttpRequest;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::RefUnwindSafe;

const EARLIER: [PactSpecification; 4] = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3];

/// As written for the round trip, except that the method is the same one, which the writer changes to upper case.
fn same_request(a: &HttpRequest, b: &HttpRequest) {
  check(a.method == b.method, "the method of a request is another one after conversion");
  check_request(a, &HttpRequest { method: upper(&b.method), ..b.clone() });
}
fn same_v3_interaction(a: &RequestResponseInteraction, b: &RequestResponseInteraction) {
  check(a.description == b.description && same_states(&a.provider_states, &b.provider_states), "the identity of an interaction is another one after conversion");
  same_request(&v4_request(&a.request), &v4_request(&b.request));
  check_response(&v4_response(&a.response), &v4_response(&b.response));
}
fn same_http(a: &SynchronousHttp, b: &SynchronousHttp) {
  check(a.id == b.id && a.key == b.key && a.description == b.description && same_states(&a.provider_states, &b.provider_states), "an HTTP interaction is another one after conversion");
  same_request(&a.request, &b.request); check_response(&a.response, &b.response);
}
fn http_interaction() -> RequestResponseInteraction {
  let part = choose(REQUEST_PARTS + RESPONSE_PARTS + 1);
  let mut i = RequestResponseInteraction { id: Some("i".into()), description: "d".into(), provider_states: vec![], request: v3_request(&request(part)), response: v3_response(&response(part.wrapping_sub(REQUEST_PARTS))) };
  if part == REQUEST_PARTS + RESPONSE_PARTS { i.id = opt(str1); i.description = str1(); i.provider_states = states(2); }
  i
}
#[no_mangle] pub extern "C" fn quick_c13_http() {
  let i = http_interaction();
  reach("http");
  let v = match i.as_v4_http() { Some(v) => v, None => { fail("an HTTP interaction is not converted to V4"); return; } };
  check(v.id == i.id && v.description == i.description && same_states(&v.provider_states, &i.provider_states), "the identity of an interaction is another one in V4");
  same_request(&v4_request(&i.request), &v.request);
  check_response(&v4_response(&i.response), &v.response);
  check(v.key.is_none() && !v.pending && v.comments.is_empty() && v.plugin_config.is_empty() && v.transport.is_none(), "an interaction converted to V4 has attributes of its own");
  match v.as_request_response() { Some(b) => { check(b.id == i.id, "the id of an interaction is another one after conversion to V4 and back"); same_v3_interaction(&i, &b); } None => fail("an HTTP interaction is not converted back from V4") }
  match i.as_v4().and_then(|b| b.as_v4_http()) { Some(b) => same_http(&v, &b), None => fail("an HTTP interaction is not converted to V4") }
  // the parts on their own
  same_request(&v.request, &i.request.as_v4_request());
  same_request(&v4_request(&v.request.as_v3_request()), &v.request);
  check_response(&v.response, &i.response.as_v4_response());
  check_response(&v4_response(&v.response.as_v3_response()), &v.response);
  check(i.as_message().is_none() && i.as_v4_async_message().is_none() && i.as_v4_sync_message().is_none() && v.as_message().is_none() && v.as_v4_async_message().is_none() && v.as_v4_sync_message().is_none(), "an HTTP interaction is converted to a message");
}
fn message() -> Message {
  let part = choose(CONTENTS_PARTS + 1);
  let c = contents(part);
  let mut m = Message { id: Some("i".into()), description: "d".into(), provider_states: vec![], contents: c.contents, metadata: c.metadata, matching_rules: c.matching_rules.rename("content", "body"), generators: c.generators };
  if part == CONTENTS_PARTS { m.id = opt(str1); m.description = str1(); m.provider_states = states(2); }
  m
}
/// The metadata is the same; a content type may be added to it.
fn check_metadata(a: &HashMap<String, Value>, b: &HashMap<String, Value>, content_type: Option<String>) {
  let mut want = a.clone();
  if let (false, Some(c)) = (want.contains_key("contentType"), content_type) { if b.contains_key("contentType") { want.insert("contentType".into(), json!(c)); } }
  check(same_map(&want, b), "the metadata of a message is another one after conversion");
}
#[no_mangle] pub extern "C" fn quick_c13_message() {
  let m = message();
  reach("message");
  let v = match m.as_v4_async_message() { Some(v) => v, None => { fail("a message is not converted to V4"); return; } };
  check(v.id == m.id && v.description == m.description && same_states(&v.provider_states, &m.provider_states), "the identity of a message is another one in V4");
  check_contents(&MessageContents { contents: m.contents.clone(), metadata: m.metadata.clone(), matching_rules: m.matching_rules.rename("body", "content"), generators: m.generators.clone() }, &v.contents);
  check(v.key.is_none() && !v.pending && v.comments.is_empty() && v.plugin_config.is_empty() && v.transport.is_none(), "a message converted to V4 has attributes of its own");
  match v.as_message() {
    Some(b) => {
      check(b.id == m.id, "the id of a message is another one after conversion to V4 and back");
      check_metadata(&m.metadata, &b.metadata, m.contents.content_type().map(|c| c.to_string()));
      check_message(&Message { metadata: b.metadata.clone(), ..m.clone() }, &b);
    }
    None => fail("a message is not converted back from V4")
  }
  match m.as_v4().and_then(|b| b.as_v4_async_message()) { Some(b) => check_async(&v, &b), None => fail("a message is not converted to V4") }
  check(m.as_request_response().is_none() && m.as_v4_http().is_none() && m.as_v4_sync_message().is_none() && v.as_request_response().is_none() && v.as_v4_http().is_none() && v.as_v4_sync_message().is_none(), "a message is converted to an HTTP interaction");
}
/// V4 only: what the earlier versions know is kept, and a synchronous message is none of theirs.
#[no_mangle] pub extern "C" fn quick_c13_downgrade() {
  let (key, pending, transport) = (opt(str1), flag(), opt(str1));
  let states = states(1);
  match choose(3) {
    0 => {
      let v = SynchronousHttp { id: opt(str1), key, description: "d".into(), provider_states: states, request: request(9), response: response(9), pending, transport, ..Default::default() };
      reach("http");
      match v.as_request_response() {
        Some(b) => { check(b.id == v.id, "the id of an interaction is another one in V3"); same_v3_interaction(&RequestResponseInteraction { id: v.id.clone(), description: v.description.clone(), provider_states: v.provider_states.clone(), request: v3_request(&v.request), response: v3_response(&v.response) }, &b) }
        None => fail("an HTTP interaction is not converted to V3")
      }
    }
    1 => {
      let v = AsynchronousMessage { id: opt(str1), key, description: "d".into(), provider_states: states, contents: contents(9), pending, transport, ..Default::default() };
      reach("async");
      match v.as_message() {
        Some(b) => { check(b.id == v.id, "the id of a message is another one in V3"); check_metadata(&v.contents.metadata, &b.metadata, v.contents.contents.content_type().map(|c| c.to_string())); check_message(&Message { id: v.id.clone(), description: v.description.clone(), provider_states: v.provider_states.clone(), contents: v.contents.contents.clone(), metadata: b.metadata.clone(), matching_rules: v.contents.matching_rules.rename("content", "body"), generators: v.contents.generators.clone() }, &b) }
        None => fail("an asynchronous message is not converted to V3")
      }
    }
    _ => {
      let v = SynchronousMessage { key, description: "d".into(), provider_states: states, request: contents(9), response: vec![contents(9)], pending, transport, ..Default::default() };
      reach("sync");
      check(v.as_message().is_none() && v.as_request_response().is_none() && v.as_v4_http().is_none() && v.as_v4_async_message().is_none(), "a synchronous message is converted to another type");
      match v.as_v4_sync_message() { Some(b) => check_sync(&v, &b), None => fail("a synchronous message is none") }
    }
  }
}
fn versions() -> BTreeMap<String, BTreeMap<String, String>> {
  match choose(3) { 0 => BTreeMap::new(), 1 => [("a".to_string(), [("b".to_string(), str1())].into())].into(), _ => [("pactSpecification".to_string(), [("version".to_string(), "3.0.0".to_string())].into()), ("x".to_string(), BTreeMap::new())].into() }
}
/// Pacts with up to `n` interactions, upgraded and downgraded, written at each version.
fn http_pact(n: usize) {
  let p = RequestResponsePact {
    consumer: Consumer { name: str1() }, provider: Provider { name: "p".into() },
    interactions: (0..choose(n + 1)).map(|i| RequestResponseInteraction { description: ["b", "a", "c"][i].into(), request: v3_request(&request(9)), provider_states: if i == 0 { states(1) } else { vec![] }, ..Default::default() }).collect(),
    metadata: versions(), specification_version: pick(&EARLIER),
  };
  let v = match p.as_v4_pact() { Ok(v) => v, Err(_) => { fail("an HTTP pact is not converted to V4"); return; } };
  reach("pact");
  check(v.consumer == p.consumer && v.provider == p.provider && v.interactions.len() == p.interactions.len() && v.plugin_data.is_empty(), "an HTTP pact converted to V4 is another one");
  for (a, b) in p.interactions.iter().zip(&v.interactions) { match b.as_v4_http() { Some(b) => { check(b.description == a.description && same_states(&b.provider_states, &a.provider_states), "an interaction of a pact is another one in V4"); same_request(&v4_request(&a.request), &b.request); check_response(&v4_response(&a.response), &b.response); } None => fail("an interaction of a pact is no HTTP interaction in V4") } }
  for (k, m) in &p.metadata { check(v.metadata.get(k) == Some(&json!(m)), "the metadata of a pact is another one in V4"); }
  let b = match v.as_request_response_pact() { Ok(b) => b, Err(_) => { fail("an HTTP pact is not converted back from V4"); return; } };
  check(b.consumer == p.consumer && b.provider == p.provider && b.interactions.len() == p.interactions.len(), "an HTTP pact converted to V4 and back is another one");
  for (a, b) in p.interactions.iter().zip(&b.interactions) { same_v3_interaction(a, b); }
  for (k, m) in &p.metadata { if k != "pactSpecification" { check(b.metadata.get(k) == Some(m), "the metadata of a pact is another one after conversion to V4 and back"); } }
  let s = pick(&EARLIER);
  match (v.to_json(s), p.to_json(s)) { (Ok(x), Ok(y)) => check(x["interactions"] == y["interactions"] && x["consumer"] == y["consumer"] && x["provider"] == y["provider"], "a V4 pact written at an earlier version is not the pact of that version"), _ => fail("an HTTP pact is not written at an earlier version") }
}
#[no_mangle] pub extern "C" fn quick_c13_http_pact() { http_pact(2) }
#[no_mangle] pub extern "C" fn deep_c13_http_pact() { http_pact(3) }
fn message_pact(n: usize) {
  let p = MessagePact {
    consumer: Consumer { name: str1() }, provider: Provider { name: "p".into() },
    messages: (0..choose(n + 1)).map(|i| { let mut c = contents(9); c.metadata.insert("contentType".into(), json!("application/json")); Message { description: ["b", "a", "c"][i].into(), contents: c.contents, metadata: c.metadata, matching_rules: c.matching_rules, generators: c.generators, provider_states: if i == 0 { states(1) } else { vec![] }, ..Default::default() } }).collect(),
    metadata: versions(), specification_version: PactSpecification::V3,
  };
  let v = match p.as_v4_pact() { Ok(v) => v, Err(_) => { fail("a message pact is not converted to V4"); return; } };
  reach("pact");
  check(v.consumer == p.consumer && v.provider == p.provider && v.interactions.len() == p.messages.len() && v.plugin_data.is_empty(), "a message pact converted to V4 is another one");
  for (k, m) in &p.metadata { check(v.metadata.get(k) == Some(&json!(m)), "the metadata of a pact is another one in V4"); }
  let b = match v.as_message_pact() { Ok(b) => b, Err(_) => { fail("a message pact is not converted back from V4"); return; } };
  check(b.consumer == p.consumer && b.provider == p.provider && b.messages.len() == p.messages.len(), "a message pact converted to V4 and back is another one");
  for (a, b) in p.messages.iter().zip(&b.messages) { check_message(a, b); }
  for (k, m) in &p.metadata { if k != "pactSpecification" { check(b.metadata.get(k) == Some(m), "the metadata of a pact is another one after conversion to V4 and back"); } }
  if !p.messages.is_empty() { match (v.to_json(PactSpecification::V3), p.to_json(PactSpecification::V3)) {
    (Ok(x), Ok(y)) => { let sorted = |v: &Value| { let mut v: Vec<String> = v.as_array().map(|a| a.iter().map(|m| m.to_string()).collect()).unwrap_or_default(); v.sort(); v }; check(sorted(&x["messages"]) == sorted(&y["messages"]) && x["consumer"] == y["consumer"] && x["provider"] == y["provider"], "a V4 pact written at V3 is not the message pact") }
    _ => fail("a message pact is not written at V3") } }
  check(v.as_request_response_pact().map(|r| r.interactions.is_empty()).unwrap_or(true), "messages are HTTP interactions in a pact of an earlier version");
}
#[no_mangle] pub extern "C" fn quick_c13_message_pact() { message_pact(2) }

type V4I = Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>;
fn of_type(k: usize) -> V4I { match k { 0 => SynchronousHttp { description: str_sym(), ..Default::default() }.boxed_v4(), 1 => AsynchronousMessage { description: str_sym(), ..Default::default() }.boxed_v4(), _ => SynchronousMessage { description: str_sym(), ..Default::default() }.boxed_v4() } }
/// A pact that mixes types of interactions, or holds synchronous messages, is refused at an earlier version.
fn mixed(n: usize) {
  let kinds: Vec<usize> = (0..choose(n + 1)).map(|_| choose(3)).collect();
  let p = V4Pact { interactions: kinds.iter().map(|k| of_type(*k)).collect(), ..Default::default() };
  let s = pick(&EARLIER);
  let r = p.to_json(s);
  reach("mixed");
  let http = kinds.iter().all(|k| *k == 0);
  let messages = !kinds.is_empty() && kinds.iter().all(|k| *k == 1);
  if http { match &r { Ok(j) => check(j["interactions"].as_array().map(|a| a.len()) == Some(kinds.len()), "a V4 pact written at an earlier version has lost interactions"), Err(_) => fail("a V4 pact of HTTP interactions is refused at an earlier version") } }
  else if messages && s == PactSpecification::V3 { match &r { Ok(j) => check(j["messages"].as_array().map(|a| a.len()) == Some(kinds.len()), "a V4 pact written at an earlier version has lost messages"), Err(_) => fail("a V4 pact of messages is refused at V3") } }
  else { check(r.is_err(), "a V4 pact is truncated when written at an earlier version"); }
  check(p.has_mixed_interactions() == kinds.iter().any(|k| *k != kinds[0]), "a pact of one type of interactions is mixed, or one of several is not");
  check(p.to_json(PactSpecification::V4).is_ok(), "a V4 pact is not written");
}
#[no_mangle] pub extern "C" fn quick_c13_mixed() { mixed(3) }
#[no_mangle] pub extern "C" fn deep_c13_mixed() { mixed(4) }
/// Adding an interaction to a pact: converted to the pact's version, or refused.
#[no_mangle] pub extern "C" fn quick_c13_add() {
  let states = states(1);
  let d = str1();
  let kind = choose(5);
  let i: Box<dyn Interaction + Send + Sync + RefUnwindSafe> = match kind {
    0 => RequestResponseInteraction { description: d.clone(), provider_states: states.clone(), request: v3_request(&request(9)), response: v3_response(&response(9)), ..Default::default() }.boxed(),
    1 => SynchronousHttp { description: d.clone(), provider_states: states.clone(), request: request(9), response: response(9), ..Default::default() }.boxed(),
    2 => { let c = contents(9); Message { description: d.clone(), provider_states: states.clone(), contents: c.contents, metadata: c.metadata, matching_rules: c.matching_rules, generators: c.generators, ..Default::default() }.boxed() }
    3 => AsynchronousMessage { description: d.clone(), provider_states: states.clone(), contents: contents(9), ..Default::default() }.boxed(),
    _ => SynchronousMessage { description: d.clone(), provider_states: states.clone(), request: contents(9), response: vec![contents(9)], ..Default::default() }.boxed(),
  };
  reach("added");
  match choose(3) {
    0 => {
      let mut p = RequestResponsePact { interactions: vec![RequestResponseInteraction::default()], ..Default::default() };
      let r = p.add_interaction(i.as_ref());
      check(r.is_ok() == (kind < 2) && p.interactions.len() == if kind < 2 { 2 } else { 1 }, "an interaction of another type is added to an HTTP pact, or an HTTP interaction is not");
      if kind < 2 { same_v3_interaction(&RequestResponseInteraction { id: None, description: d, provider_states: states, request: v3_request(&request(9)), response: v3_response(&response(9)) }, &p.interactions[1]); }
    }
    1 => {
      let mut p = MessagePact { consumer: Default::default(), provider: Default::default(), messages: vec![], metadata: Default::default(), specification_version: PactSpecification::V3 };
      let r = p.add_interaction(i.as_ref());
      let m = kind == 2 || kind == 3;
      check(r.is_ok() == m && p.messages.len() == if m { 1 } else { 0 }, "an interaction of another type is added to a message pact, or a message is not");
      if m { let c = contents(9); let b = &p.messages[0]; check_metadata(&c.metadata, &b.metadata, Some("application/json".into())); check_message(&Message { description: d, provider_states: states, contents: c.contents, metadata: b.metadata.clone(), matching_rules: c.matching_rules, generators: c.generators, ..Default::default() }, b); }
    }
    _ => {
      let mut p = V4Pact { interactions: vec![of_type(2)], ..Default::default() };
      check(p.add_interaction(i.as_ref()).is_ok() && p.interactions.len() == 2, "an interaction is not added to a V4 pact");
      let b = &p.interactions[1];
      check(b.description() == d && same_states(&b.provider_states(), &states), "an interaction added to a V4 pact is another one");
      match kind {
        0 | 1 => match b.as_v4_http() { Some(b) => { same_request(&request(9), &b.request); check_response(&response(9), &b.response); } None => fail("an HTTP interaction added to a V4 pact has another type") },
        2 | 3 => match b.as_v4_async_message() { Some(b) => { let mut c = contents(9); if kind == 2 { c.matching_rules = c.matching_rules.rename("body", "content"); } check_contents(&c, &b.contents) } None => fail("a message added to a V4 pact has another type") },
        _ => match b.as_v4_sync_message() { Some(b) => { check_contents(&contents(9), &b.request); check(b.response.len() == 1, "a response of a synchronous message added to a V4 pact is lost"); } None => fail("a synchronous message added to a V4 pact has another type") },
      }
    }
  }
}
