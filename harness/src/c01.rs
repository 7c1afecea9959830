//! V4 documents, written and read.
use crate::models::*;
use crate::parts::*;
use crate::vp::*;
use pact_models::interaction::Interaction;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::{interaction_from_json, InteractionMarkup, V4Interaction};
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};

/// One interaction written and read; the reading written again is the same document.
fn back(j: &Value) -> Option<Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe>> {
  match interaction_from_json("t", 0, j) {
    Ok(i) => { check(&i.to_json() == j, "a V4 interaction read and written again is another document"); Some(i) }
    Err(_) => { fail("a written V4 interaction is refused"); None }
  }
}
fn http(i: &SynchronousHttp) { if let Some(r) = back(&i.to_json()) { match r.as_v4_http() { Some(r) => { reach("http"); check_http(i, &r); } None => fail("an HTTP interaction is read as another type") } } }
fn asynch(i: &AsynchronousMessage) { if let Some(r) = back(&i.to_json()) { match r.as_v4_async_message() { Some(r) => { reach("async"); check_async(i, &r); } None => fail("an asynchronous message is read as another type") } } }
fn sync(i: &SynchronousMessage) { if let Some(r) = back(&i.to_json()) { match r.as_v4_sync_message() { Some(r) => { reach("sync"); check_sync(i, &r); } None => fail("a synchronous message is read as another type") } } }

#[no_mangle] pub extern "C" fn quick_c01_request() { http(&SynchronousHttp { request: request(choose(REQUEST_PARTS)), .. Default::default() }) }
#[no_mangle] pub extern "C" fn quick_c01_response() { http(&SynchronousHttp { response: response(choose(RESPONSE_PARTS)), .. Default::default() }) }
#[no_mangle] pub extern "C" fn quick_c01_async() { asynch(&AsynchronousMessage { contents: contents(choose(CONTENTS_PARTS)), .. Default::default() }) }
#[no_mangle] pub extern "C" fn quick_c01_sync() {
  let k = choose(4);
  let p = choose(CONTENTS_PARTS);
  sync(&SynchronousMessage {
    request: if k == 0 { contents(p) } else { Default::default() },
    response: match k { 0 => vec![], 1 => vec![contents(p)], 2 => vec![Default::default(), contents(p)], _ => vec![contents(p), Default::default(), pact_models::v4::message_parts::MessageContents { metadata: [("z".to_string(), json!(1))].into(), .. Default::default() }] },
    .. Default::default()
  })
}
/// The attributes that all types have, on each of them; one of them at a time is symbolic, any others are there or not.
fn common(part: usize, d: bool) -> (Option<String>, String, Vec<pact_models::provider_states::ProviderState>, std::collections::HashMap<String, Value>, bool, std::collections::HashMap<String, std::collections::HashMap<String, Value>>, InteractionMarkup, Option<String>) {
  let on = |p: usize| part == p;
  (if on(0) { opt(str1) } else if d { Some("k".into()) } else { None },
   if on(1) { str1() } else { "d".into() },
   if on(2) { states(2) } else { vec![] },
   if on(3) { comments() } else if d { [("c".to_string(), json!("x"))].into() } else { Default::default() },
   if on(4) { flag() } else { d },
   if on(5) { plugin_config() } else if d { [("p".to_string(), [("a".to_string(), json!(1))].into())].into() } else { Default::default() },
   if on(6) { markup() } else if d { InteractionMarkup { markup: "m".into(), markup_type: "COMMON_MARK".into() } } else { Default::default() },
   if on(7) { opt(str1) } else if d { Some("t".into()) } else { None })
}
#[no_mangle] pub extern "C" fn quick_c01_common() {
  let (key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport) = common(choose(8), flag());
  match choose(3) {
    0 => http(&SynchronousHttp { key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport, .. Default::default() }),
    1 => asynch(&AsynchronousMessage { key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport, .. Default::default() }),
    _ => sync(&SynchronousMessage { key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport, .. Default::default() }),
  }
}
/// Every combination of attributes being there or not.
#[no_mangle] pub extern "C" fn quick_c01_presence() {
  let key = opt(|| "k".into());
  let comments = if flag() { [("c".to_string(), json!("x"))].into() } else { Default::default() };
  let provider_states = if flag() { vec![pact_models::provider_states::ProviderState::default("s")] } else { vec![] };
  let pending = flag();
  let plugin_config: std::collections::HashMap<_, _> = if flag() { [("p".to_string(), [("a".to_string(), json!(1))].into())].into() } else { Default::default() };
  let interaction_markup = if flag() { InteractionMarkup { markup: "m".into(), markup_type: "HTML".into() } } else { Default::default() };
  let transport = opt(|| "grpc".into());
  let description = "d".to_string();
  match choose(3) {
    0 => http(&SynchronousHttp { key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport, .. Default::default() }),
    1 => asynch(&AsynchronousMessage { key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport, .. Default::default() }),
    _ => sync(&SynchronousMessage { key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport, .. Default::default() }),
  }
}
fn simple(kind: usize, description: String, key: Option<String>) -> Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe> {
  match kind {
    0 => SynchronousHttp { description, key, .. Default::default() }.boxed_v4(),
    1 => AsynchronousMessage { description, key, .. Default::default() }.boxed_v4(),
    _ => SynchronousMessage { description, key, .. Default::default() }.boxed_v4(),
  }
}
/// A document with several interactions, its own metadata and plugin data.
fn pact(part: usize, n: usize) {
  let consumer = Consumer { name: if part == 0 { str1() } else { "c".into() } };
  let provider = Provider { name: if part == 0 { str1() } else { "p".into() } };
  let mut interactions = vec![];
  if part == 1 { for i in 0..choose(n + 1) { interactions.push(simple(choose(3), pick(&["a", "b", ""]).to_string(), if i == 0 { opt(str_sym) } else { Some("k2".to_string()) })); } }
  let mut metadata = std::collections::BTreeMap::new();
  if part == 2 {
    let k = choose(6);
    match k {
      0 => { metadata.insert(str1(), plain_doc(1)); }
      1 => { metadata.insert("a".to_string(), json!({ "b": str1(), "c": plain_doc(1) })); metadata.insert("d".to_string(), plain_doc(0)); }
      2 => { metadata.insert("pactRust".to_string(), json!({ "ffi": str1(), "models": "0" })); }
      3 => { metadata.insert("pactSpecification".to_string(), json!({ "version": pick(&["3.0.0", "4.0", "2.0.0"]) })); }
      4 => { metadata.insert("pact-specification".to_string(), json!({ "version": "3.0.0" })); }
      _ => { metadata.insert("pact-rust".to_string(), json!({ "version": str1() })); }
    }
  }
  let plugin_data = if part == 3 { (0..choose(3)).map(plugin).collect() } else { vec![] };
  let p = V4Pact { consumer, provider, interactions, metadata, plugin_data };
  let j = match p.to_json(PactSpecification::V4) { Ok(j) => j, Err(_) => { fail("a V4 pact is not written"); return; } };
  let l = match load_pact_from_json("t", &j) { Ok(l) => l, Err(_) => { fail("a written V4 pact is refused"); return; } };
  reach("pact");
  check(l.is_v4() && l.specification_version() == PactSpecification::V4, "a V4 pact is loaded as another version");
  let l = match l.as_v4_pact() { Ok(l) => l, Err(_) => { fail("a V4 pact is loaded as another version"); return; } };
  check(l.consumer.name == p.consumer.name && l.provider.name == p.provider.name, "the consumer or the provider of a pact is another one");
  check(l.interactions.len() == p.interactions.len(), "the number of interactions of a pact is another one");
  // the writer orders the interactions by their description
  let mut used = vec![false; p.interactions.len()];
  for i in &l.interactions {
    let mut found = false;
    for (k, o) in p.interactions.iter().enumerate() {
      if !found && !used[k] && o.v4_type() == i.v4_type() && o.description() == i.description() && o.key() == i.key() { used[k] = true; found = true; }
    }
    check(found, "an interaction of a loaded pact is none of those written");
  }
  for (k, v) in &p.metadata {
    match k.as_str() {
      "pactSpecification" | "pact-specification" => (),
      "pactRust" | "pact-rust" => check(l.metadata.get("pactRust").and_then(|m| m.as_object()).map(|m| v.as_object().map(|o| o.iter().all(|(a, b)| a == "models" || m.get(a) == Some(b))).unwrap_or(true)).unwrap_or(false), "the library versions of a pact are other ones"),
      "plugins" => (),
      _ => check(l.metadata.get(k) == Some(v), "the metadata of a pact is another one"),
    }
  }
  check(l.metadata.keys().all(|k| k == "pactSpecification" || k == "pactRust" || p.metadata.contains_key(k)), "a pact has metadata that was not written");
  check(l.plugin_data.len() == p.plugin_data.len() && l.plugin_data.iter().zip(&p.plugin_data).all(|(a, b)| a.name == b.name && a.version == b.version && same_map(&a.configuration, &b.configuration)), "the plugin data of a pact is another one");
  match l.to_json(PactSpecification::V4) { Ok(k) => check(k == j, "a V4 pact read and written again is another document"), Err(_) => fail("a V4 pact is not written") }
}
#[no_mangle] pub extern "C" fn quick_c01_names() { pact(0, 0) }
#[no_mangle] pub extern "C" fn quick_c01_interactions() { pact(1, 3) }
#[no_mangle] pub extern "C" fn deep_c01_interactions() { pact(1, 4) }
#[no_mangle] pub extern "C" fn quick_c01_metadata() { pact(2, 0) }
#[no_mangle] pub extern "C" fn quick_c01_plugins() { pact(3, 0) }
