//! V3 message pacts, written and read.
use crate::models::*;
use crate::parts::*;
use crate::vp::*;
use pact_models::bodies::OptionalBody;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const V3: PactSpecification = PactSpecification::V3;
/// The metadata declares the content type of the contents.
fn declared(b: &OptionalBody, m: &mut std::collections::HashMap<String, Value>) { if let Some(c) = b.content_type() { m.insert(pick(&["contentType", "content-type", "Content-Type", "contenttype"]).to_string(), json!(c.to_string())); } }
fn settled(mut m: Message) -> Message { let c = m.message_content_type(); m.contents = m.contents.with_content_type(c); m }
fn round(m: Message) {
  let j = m.to_json(&V3);
  match Message::from_json(0, &j, &V3) {
    Ok(b) => { reach("message"); check(b.to_json(&V3) == j, "a message read and written again is another document"); check_message(&settled(m), &settled(b)); }
    Err(_) => fail("a written message is refused"),
  }
}
#[no_mangle] pub extern "C" fn quick_c03_contents() {
  let part = choose(CONTENTS_PARTS);
  let c = contents(part);
  let mut metadata = c.metadata;
  if part == 1 { metadata.retain(|k, _| k != "contentType"); }
  let b = if part == 0 && flag() { OptionalBody::Null } else { c.contents };
  declared(&b, &mut metadata);
  round(Message { contents: b, metadata, matching_rules: c.matching_rules, generators: c.generators, .. Default::default() })
}
#[no_mangle] pub extern "C" fn quick_c03_attributes() {
  match choose(3) {
    0 => round(Message { description: str1(), .. Default::default() }),
    1 => round(Message { provider_states: states(2), .. Default::default() }),
    _ => round(Message { metadata: [(pick(&["a", "key"]).to_string(), plain_doc(1))].into(), contents: OptionalBody::Present("abc".into(), None, None), .. Default::default() }),
  }
}
/// Every combination of attributes being there or not.
#[no_mangle] pub extern "C" fn quick_c03_presence() {
  let d = contents(CONTENTS_PARTS);
  let mut m = Message { description: "d".into(), .. Default::default() };
  if flag() { m.contents = d.contents.clone(); m.metadata = d.metadata.clone(); m.metadata.insert("contentType".into(), json!("application/json")); }
  if flag() { m.matching_rules = rules(false); } else { m.generators = generators(false); }
  if flag() { m.provider_states = states(1); }
  round(m)
}
/// Whole documents: every message, in the order given.
fn pact(n: usize) {
  let part = choose(3);
  let p = MessagePact {
    consumer: Consumer { name: if part == 0 { str1() } else { "c".into() } },
    provider: Provider { name: if part == 0 { str1() } else { "p".into() } },
    messages: if part == 1 { let k = choose(n + 1); (0..k).map(|i| Message { description: pick(&["b", "a", ""]).to_string(), metadata: [("i".to_string(), json!(i))].into(), provider_states: if i == 0 { states(1) } else { vec![] }, .. Default::default() }).collect() } else { vec![] },
    metadata: if part == 2 { match choose(4) {
      0 => BTreeMap::new(),
      1 => [(str1(), [(str1(), str1())].into())].into(),
      2 => [("a".to_string(), BTreeMap::new()), ("pactRust".to_string(), [("ffi".to_string(), str1())].into())].into(),
      _ => [("pactSpecification".to_string(), [("version".to_string(), pick(&["1.0.0", "3.0.0", "4.0", "x"]).to_string())].into())].into(),
    } } else { BTreeMap::new() },
    specification_version: V3,
  };
  let j = match p.to_json(V3) { Ok(j) => j, Err(_) => { fail("a message pact is not written"); return; } };
  let l = match load_pact_from_json("t", &j) { Ok(l) => l, Err(_) => { fail("a written message pact is refused"); return; } };
  reach("pact");
  check(l.specification_version() == V3 && !l.is_v4(), "a message pact is loaded as another version");
  let r = match l.as_message_pact() { Ok(r) => r, Err(_) => { fail("a message pact is loaded as another one"); return; } };
  check(r.consumer.name == p.consumer.name && r.provider.name == p.provider.name, "the consumer or the provider of a pact is another one");
  check(r.messages.len() == p.messages.len(), "the number of messages of a pact is another one");
  for (a, b) in p.messages.iter().zip(&r.messages) { check_message(a, b); }
  for (k, m) in &p.metadata {
    match k.as_str() {
      "pactSpecification" => (),
      "pactRust" => check(r.metadata.get(k).map(|n| m.iter().all(|(a, b)| n.get(a) == Some(b))).unwrap_or(false), "the library versions of a pact are other ones"),
      _ => check(r.metadata.get(k) == Some(m), "the metadata of a pact is another one"),
    }
  }
  match l.to_json(V3) { Ok(k) => check(k == j, "a message pact read and written again is another document"), Err(_) => fail("a message pact is not written") }
}
#[no_mangle] pub extern "C" fn quick_c03_pact() { pact(3) }
#[no_mangle] pub extern "C" fn deep_c03_pact() { pact(4) }
