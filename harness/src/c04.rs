//! Documents of other tools: every position of complete documents is given values of every type.
use crate::docs::*;
use crate::vp::*;
use pact_models::content_types::{detect_content_type_from_bytes, detect_content_type_from_string};
use pact_models::path_exp::DocPath;
use pact_models::generators::{generators_from_json, generators_to_json};
use pact_models::http_parts::HttpPart;
use pact_models::interaction::{Interaction, http_interaction_from_json, message_interaction_from_json};
use pact_models::json_utils::{body_from_json as v3_body, headers_from_json};
use pact_models::matchingrules::{matchers_from_json, matchers_to_json, MatchingRule};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::query_strings::{query_from_json, v3_query_from_json};
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::http_parts::{body_from_json as v4_body, HttpRequest, HttpResponse};
use pact_models::v4::interaction::{interaction_from_json, interactions_from_json, InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};

/// What the code computes once and for all, ahead of the choices.
fn warm() {
  let _ = (DocPath::root().join_field("a b'c").to_string(), DocPath::new("$.a['b'][1]"));
  let _ = (detect_content_type_from_string("zzz"), detect_content_type_from_bytes(b"\x01\x02"));
}

const SPECS: [PactSpecification; 6] = [PactSpecification::Unknown, PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4];

/// Complete documents.
fn rules_v3() -> Value { json!({
  "method": { "matchers": [{ "match": "regex", "regex": "A" }] },
  "path": { "combine": "OR", "matchers": [{ "match": "type" }, { "match": "equality" }] },
  "query": { "a": { "matchers": [{ "match": "include", "value": "x" }] }, "b['c']": { "matchers": [{ "match": "null" }] } },
  "header": { "X-A": { "combine": "AND", "matchers": [{ "match": "date", "date": "yyyy" }, { "match": "timestamp", "timestamp": "HH" }] } },
  "status": { "matchers": [{ "match": "statusCode", "status": "success" }] },
  "body": { "$.a[*].b": { "combine": "AND", "matchers": [{ "match": "type", "min": 1, "max": 2 }, { "match": "number" }, { "match": "values" },
    { "match": "contentType", "value": "image/png" }, { "match": "boolean" }, { "match": "notEmpty" }, { "match": "semver" }, { "match": "integer" }, { "match": "decimal" }] },
    "$['x']": { "matchers": [{ "match": "arrayContains", "variants": [{ "index": 0, "rules": { "$.a": { "matchers": [{ "match": "type" }] } }, "generators": { "$.a": { "type": "Uuid" } } }] },
    { "match": "eachKey", "rules": [{ "match": "type" }], "value": "k" }, { "match": "eachValue", "rules": [{ "match": "regex", "regex": "." }], "value": "v" }] } }
}) }
fn generators_v3() -> Value { json!({
  "method": { "type": "RandomString", "size": 4 },
  "path": { "type": "ProviderState", "expression": "/${a}", "dataType": "STRING" },
  "query": { "a": { "type": "RandomInt", "min": 1, "max": 2 } },
  "header": { "A": { "type": "Regex", "regex": "a" } },
  "status": { "type": "RandomDecimal", "digits": 3 },
  "body": { "$.a": { "type": "RandomHexadecimal", "digits": 2 }, "$.b": { "type": "Uuid", "format": "simple" }, "$.c[0]": { "type": "Date", "format": "yyyy", "expression": "today" },
    "$.d": { "type": "MockServerURL", "example": "http://a/b", "regex": ".*(/b)$" }, "$.e": { "type": "RandomBoolean" }, "$.f": { "type": "DateTime", "format": "HH" } }
}) }
fn rules_msg() -> Value { json!({ "body": { "$.a": { "matchers": [{ "match": "type" }] } }, "metadata": { "k": { "matchers": [{ "match": "regex", "regex": "x" }] } } }) }
fn generators_msg() -> Value { json!({ "body": { "$.a": { "type": "RandomInt", "min": 0, "max": 9 } }, "metadata": { "k": { "type": "Time", "format": "HH" } } }) }
fn rules_small() -> Value { json!({ "path": { "combine": "OR", "matchers": [{ "match": "type" }] }, "query": { "a": { "matchers": [{ "match": "include", "value": "x" }] } } }) }
fn generators_small() -> Value { json!({ "path": { "type": "RandomString", "size": 4 }, "query": { "a": { "type": "Uuid" } } }) }
fn common() -> Value { json!({ "key": "0a", "description": "d", "pending": true, "providerStates": [{ "name": "s", "params": { "p": 1 } }],
  "comments": { "text": ["t"], "testname": "n" }, "pluginConfiguration": { "p": { "k": [1] } }, "interactionMarkup": { "markup": "m", "markupType": "HTML" }, "transport": "t" }) }
fn with(mut a: Value, b: Value) -> Value { if let (Some(a), Value::Object(b)) = (a.as_object_mut(), b) { for (k, v) in b { a.insert(k, v); } } a }
fn pact(list: &str, i: Value, version: &str) -> Value { json!({ "consumer": { "name": "c" }, "provider": { "name": "p" }, list: [i],
  "metadata": { "pactSpecification": { "version": version }, "pactRust": { "version": "1.0.0" }, "plugins": [{ "name": "n", "version": "1", "configuration": { "a": 1 } }] } }) }
fn v4_body_doc(encoded: Value) -> Value { json!({ "content": "YQ==", "contentType": "text/plain; a=b", "encoded": encoded, "contentTypeHint": "TEXT" }) }
fn request_v4() -> Value { json!({ "method": "GET", "path": "/a", "query": { "a": ["b", null] }, "headers": { "Content-Type": ["a/b"], "X": "c, d" },
  "body": v4_body_doc(json!("base64")), "matchingRules": rules_small(), "generators": generators_small() }) }
fn response_v4() -> Value { json!({ "status": 200, "headers": { "Content-Type": ["text/plain"] }, "body": v4_body_doc(json!(false)), "matchingRules": rules_msg(), "generators": generators_msg() }) }
fn message_v4() -> Value { json!({ "contents": v4_body_doc(json!(true)), "metadata": { "contentType": "a/b", "k": 1 }, "matchingRules": rules_msg(), "generators": generators_msg() }) }
fn http_v4() -> Value { with(common(), json!({ "type": "Synchronous/HTTP", "request": request_v4(), "response": response_v4() })) }
fn async_v4() -> Value { with(with(common(), json!({ "type": "Asynchronous/Messages" })), message_v4()) }
fn sync_v4() -> Value { with(common(), json!({ "type": "Synchronous/Messages", "request": message_v4(), "response": [message_v4()] })) }
fn request_v3() -> Value { json!({ "method": "GET", "path": "/a", "query": { "a": ["b"], "c": "d" }, "headers": { "Content-Type": "application/json", "X": ["c"] },
  "body": { "a": [null, 1.5, "b"] }, "matchingRules": rules_small(), "generators": generators_small() }) }
fn response_v3() -> Value { json!({ "status": 200, "headers": { "content-type": "text/plain" }, "body": "YQ==", "matchingRules": rules_msg(), "generators": generators_msg() }) }
fn http_v3() -> Value { json!({ "_id": "i", "description": "d", "providerStates": [{ "name": "s", "params": { "p": 1 } }, "t"], "request": request_v3(), "response": response_v3() }) }
fn http_v2() -> Value { json!({ "description": "d", "providerState": "s",
  "request": { "method": "GET", "path": "/a", "query": "a=b&c=%20", "headers": { "Content-Type": "text/xml" }, "body": "<a/>",
    "matchingRules": { "$.path": { "match": "regex", "regex": "a" }, "$.query.a": { "match": "type" }, "$.headers.X": { "regex": "b" }, "$.body[*].a": { "match": "type", "min": 1 }, "$.body['x y']": { "max": 2 } } },
  "response": { "status": 404, "responseMatchingRules": 1, "matchingRules": { "$.body": { "match": "type" } } } }) }
fn message_v3() -> Value { json!({ "_id": "i", "description": "d", "providerStates": [{ "name": "s" }], "contents": { "a": 1 }, "metaData": { "contentType": "application/json", "k": [1] },
  "matchingRules": rules_msg(), "generators": generators_msg() }) }

fn loaded<T>(r: anyhow::Result<T>) -> Option<T> { match r { Ok(v) => { reach("loaded"); Some(v) } Err(_) => { reach("refused"); None } } }

/// What was loaded can be used: converted, written.
fn used(p: &(dyn Pact + Send + Sync)) {
  let _ = (p.consumer(), p.provider(), p.metadata(), p.specification_version(), p.requires_plugins(), p.plugin_data(), p.is_v4(), p.default_file_name());
  for s in [PactSpecification::V1, PactSpecification::V3, PactSpecification::V4] { let _ = p.to_json(s); }
  for i in p.interactions() {
    let _ = (i.type_of(), i.description(), i.provider_states(), i.contents_for_verification());
    if let Some(v) = i.as_v4() { let _ = (v.to_json(), v.comments(), v.plugin_config(), v.transport()); }
    match choose(3) { 0 => { let _ = i.as_request_response(); } 1 => { let _ = i.as_message(); } _ => { let _ = (i.as_v4_http(), i.as_v4_async_message(), i.as_v4_sync_message()); } }
  }
}
fn pact_of(doc: Value) { if let Some(p) = loaded(load_pact_from_json("t", &doc)) { used(&*p) } }
fn small(list: &str, i: Value, version: &str) -> Value { with(pact(list, json!(1), version), json!({ list: [i] })) }
fn v4_doc() -> Value { small("interactions", json!({ "type": "Asynchronous/Messages", "description": "d" }), "4.0") }
fn v3_doc() -> Value { small("interactions", json!({ "description": "d" }), "3.0.0") }
fn v2_doc() -> Value { small("interactions", json!({ "description": "d", "providerState": "s", "request": { "query": "a=b" } }), "2.0") }
fn message_doc() -> Value { small("messages", json!({ "description": "d" }), "3.0.0") }
/// The attributes of pacts.
fn pacts(f: fn(Value) -> Value) { pact_of(f(match choose(4) { 0 => v4_doc(), 1 => v3_doc(), 2 => v2_doc(), _ => message_doc() })) }
#[no_mangle] pub extern "C" fn quick_c04_pact() { warm(); pacts(changed) }
#[no_mangle] pub extern "C" fn deep_c04_pact() { warm(); pacts(changed_twice) }

/// The attributes of interactions.
fn v4_interactions(f: fn(Value) -> Value) {
  let i = match choose(3) {
    0 => with(common(), json!({ "type": "Synchronous/HTTP", "request": { "method": "GET" }, "response": { "status": 200 } })),
    1 => with(common(), json!({ "type": "Asynchronous/Messages", "contents": { "content": "a", "encoded": false }, "metadata": { "k": 1 } })),
    _ => with(common(), json!({ "type": "Synchronous/Messages", "request": { "contents": { "content": "a" } }, "response": [{ "metadata": { "k": 1 } }] })),
  };
  let doc = f(i);
  if let Some(i) = loaded(interaction_from_json("t", 0, &doc)) {
    let _ = (i.to_json(), i.comments(), i.plugin_config(), i.interaction_markup(), i.key(), i.provider_states(), i.as_v4(), i.pending(), i.transport());
    match choose(3) { 0 => { let _ = i.as_request_response(); } 1 => { let _ = i.as_message(); } _ => { let _ = i.content_type(); } }
  }
}
#[no_mangle] pub extern "C" fn quick_c04_v4_interaction() { warm(); v4_interactions(changed) }
#[no_mangle] pub extern "C" fn deep_c04_v4_interaction() { warm(); v4_interactions(changed_twice) }
fn v3_interactions(f: fn(Value) -> Value) {
  match choose(3) {
    0 => { let d = f(with(http_v3(), json!({ "request": { "method": "GET" }, "response": { "status": 200 } })));
      if let Some(i) = loaded(RequestResponseInteraction::from_json(0, &d, &pick(&SPECS))) { for s in [PactSpecification::V2, PactSpecification::V3] { let _ = i.to_json(&s); } let _ = i.as_v4(); } }
    1 => { let d = f(with(http_v2(), json!({ "request": { "query": "a=b" }, "response": { "status": 200 } })));
      if let Some(i) = loaded(RequestResponseInteraction::from_json(0, &d, &PactSpecification::V2)) { for s in [PactSpecification::V2, PactSpecification::V3] { let _ = i.to_json(&s); } let _ = i.as_v4(); } }
    _ => { let d = f(with(message_v3(), json!({ "matchingRules": {}, "generators": {} })));
      if let Some(i) = loaded(Message::from_json(0, &d, &pick(&SPECS))) { let _ = (i.to_json(&PactSpecification::V3), i.to_json(&PactSpecification::V4), i.as_v4(), i.message_content_type()); } }
  }
}
#[no_mangle] pub extern "C" fn quick_c04_v3_interaction() { warm(); v3_interactions(changed) }
#[no_mangle] pub extern "C" fn deep_c04_v3_interaction() { warm(); v3_interactions(changed_twice) }

/// Requests, responses and messages.
fn http_parts(f: fn(Value) -> Value) {
  match choose(4) {
    0 => { let d = f(request_v4()); if let Some(r) = loaded(HttpRequest::from_json(&d)) { let _ = (r.to_json(), r.content_type(), r.as_v3_request()); } }
    1 => { let d = f(response_v4()); if let Some(r) = loaded(HttpResponse::from_json(&d)) { let _ = (r.to_json(), r.content_type(), r.as_v3_response()); } }
    2 => { let d = f(request_v3()); if let Some(r) = loaded(Request::from_json(&d, &pick(&SPECS))) { for s in [PactSpecification::V2, PactSpecification::V3] { let _ = r.to_json(&s); } let _ = (r.content_type(), r.as_v4_request()); } }
    _ => { let d = f(response_v3()); if let Some(r) = loaded(Response::from_json(&d, &pick(&SPECS))) { for s in [PactSpecification::V2, PactSpecification::V3] { let _ = r.to_json(&s); } let _ = (r.content_type(), r.as_v4_response()); } }
  }
}
#[no_mangle] pub extern "C" fn quick_c04_http_parts() { warm(); http_parts(changed) }
#[no_mangle] pub extern "C" fn deep_c04_http_parts() { warm(); http_parts(changed_twice) }
fn v2_request(f: fn(Value) -> Value) {
  let d = f(json!({ "method": "GET", "path": "/a", "query": "a=b&c=%20", "headers": { "Content-Type": "text/xml", "X": ["c"] }, "body": "<a/>", "matchingRules": { "$.path": { "match": "type" } } }));
  if let Some(r) = loaded(Request::from_json(&d, &PactSpecification::V2)) { for s in [PactSpecification::V2, PactSpecification::V3] { let _ = r.to_json(&s); } let _ = (r.content_type(), r.as_v4_request()); }
}
#[no_mangle] pub extern "C" fn quick_c04_v2_request() { warm(); v2_request(changed) }
#[no_mangle] pub extern "C" fn deep_c04_v2_request() { warm(); v2_request(changed_twice) }
fn messages(f: fn(Value) -> Value) {
  let d = f(with(message_v4(), json!({ "matchingRules": { "body": {} } })));
  if let Some(m) = loaded(MessageContents::from_json(&d)) { let _ = (m.to_json(), m.message_content_type()); }
}
#[no_mangle] pub extern "C" fn quick_c04_message() { warm(); messages(changed) }
#[no_mangle] pub extern "C" fn deep_c04_message() { warm(); messages(changed_twice) }

/// Matching rules: each category and rule of the document by itself.
fn pieces(v: Value, deep: usize) -> Value {
  match v {
    Value::Object(m) if deep > 0 && m.len() > 1 => { let k: Vec<String> = m.keys().cloned().collect(); let k = pick(&k); json!({ k.clone(): pieces(m[&k].clone(), deep - 1) }) }
    Value::Object(m) if deep > 0 && m.contains_key("matchers") => with(Value::Object(m.clone()), json!({ "matchers": pieces(m["matchers"].clone(), deep) })),
    Value::Array(l) if deep > 0 && !l.is_empty() => json!([pick(&l)]),
    Value::Object(m) if deep > 0 => Value::Object(m.into_iter().map(|(k, v)| (k, pieces(v, deep - 1))).collect()),
    v => v
  }
}
fn rules(d: Value) {
  if let Some(r) = loaded(matchers_from_json(&json!({ "matchingRules": d }), &None)) {
    match choose(3) { 0 => { let _ = matchers_to_json(&r, &PactSpecification::V4); } 1 => { let _ = matchers_to_json(&r, &PactSpecification::V2); } _ => { for c in r.rules.values() { let _ = (c.is_empty(), c.resolve_matchers_for_path(&["$", "a", "0", "b"])); } } }
  }
}
fn v3_rules(f: fn(Value) -> Value) {
  let all = rules_v3();
  let d = match choose(7) {
    0 => json!({ "method": all["method"], "status": all["status"] }),
    1 => json!({ "path": all["path"] }), 2 => json!({ "query": all["query"] }), 3 => json!({ "header": all["header"] }),
    4 => { let m = pick(all["body"]["$.a[*].b"]["matchers"].as_array().unwrap()); json!({ "body": { "$.a[*].b": { "combine": "AND", "matchers": [m] } } }) }
    _ => { let m = pick(all["body"]["$['x']"]["matchers"].as_array().unwrap()); json!({ "body": { "$['x']": { "matchers": [m] } } }) }
  };
  rules(f(d))
}
#[no_mangle] pub extern "C" fn quick_c04_v3_rules() { warm(); v3_rules(changed) }
#[no_mangle] pub extern "C" fn deep_c04_v3_rules() { warm(); v3_rules(changed_twice) }
fn v2_rules(f: fn(Value) -> Value) { let d = http_v2()["request"]["matchingRules"].clone(); let k: Vec<String> = d.as_object().unwrap().keys().cloned().collect(); let k = pick(&k); rules(f(json!({ k.clone(): d[&k] }))) }
#[no_mangle] pub extern "C" fn quick_c04_v2_rules() { warm(); v2_rules(changed) }
#[no_mangle] pub extern "C" fn deep_c04_v2_rules() { warm(); v2_rules(changed_twice) }
fn one_rule(f: fn(Value) -> Value) {
  let all = rules_v3();
  let mut l: Vec<Value> = all["body"]["$.a[*].b"]["matchers"].as_array().unwrap().clone();
  l.extend(all["body"]["$['x']"]["matchers"].as_array().unwrap().iter().cloned());
  l.extend(all["header"]["X-A"]["matchers"].as_array().unwrap().iter().cloned());
  let d = f(pick(&l));
  if let Some(r) = loaded(MatchingRule::from_json(&d)) { let _ = (r.to_json(), r.name(), r.values(), r.is_type_matcher()); }
}
#[no_mangle] pub extern "C" fn quick_c04_rule() { warm(); one_rule(changed) }
#[no_mangle] pub extern "C" fn deep_c04_rule() { warm(); one_rule(changed_twice) }
fn generators(f: fn(Value) -> Value) {
  let all = generators_v3();
  let k = pick(&["method", "path", "query", "header", "status", "body"]);
  let d = if k == "body" { let b = all["body"].as_object().unwrap(); let l: Vec<String> = b.keys().cloned().collect(); let p = pick(&l); json!({ k: { p.clone(): b[&p] } }) } else { json!({ k: all[k] }) };
  let d = f(d);
  if let Some(g) = loaded(generators_from_json(&json!({ "generators": d }))) { let _ = generators_to_json(&g, &PactSpecification::V4); }
}
#[no_mangle] pub extern "C" fn quick_c04_generators() { warm(); generators(changed) }
#[no_mangle] pub extern "C" fn deep_c04_generators() { warm(); generators(changed_twice) }

/// Everything else that is read from JSON.
fn others(f: fn(Value) -> Value) {
  match choose(8) {
    0 => { let d = f(json!({ "name": "s", "params": { "p": 1 } })); let _ = (ProviderState::from_json_v3(&d).to_json(), Consumer::from_json(&d).to_json(), Provider::from_json(&d).to_json()); }
    1 => { let d = f(json!({ "providerStates": [{ "name": "s", "params": { "p": 1 } }, "t"], "providerState": "u" })); for s in ProviderState::from_json(&d) { let _ = s.to_json(); } }
    2 => { let d = f(json!({ "headers": { "A": "b, c", "Date": ["d"] } })); let _ = headers_from_json(&d); }
    3 => { let d = f(json!({ "body": { "a": ["b"] } })); let h = if flag() { headers_from_json(&json!({ "headers": { "Content-Type": pick(&["application/json", "text/plain", "image/png", "x"]) } })) } else { None }; let b = v3_body(&d, "body", &h); let _ = (b.is_present(), b.display_string()); }
    4 => { let d = f(json!({ "body": v4_body_doc(json!("base64")) })); let b = v4_body(&d, "body", &None); let _ = (b.is_present(), b.to_v4_json()); }
    5 => { let d = f(json!("a=b&c")); let _ = query_from_json(&d, &pick(&SPECS)); }
    6 => { let d = f(json!({ "a": ["b", null], "c": "d" })); if flag() { let _ = v3_query_from_json(&d, &PactSpecification::V3); } else { let _ = query_from_json(&d, &PactSpecification::V4); } }
    _ => { let d = f(json!({ "name": "n", "version": "1", "configuration": { "a": 1 } })); let _ = (InteractionMarkup::from_json(&d).to_json()); }
  }
  reach("other");
}
#[no_mangle] pub extern "C" fn quick_c04_others() { warm(); others(changed) }
#[no_mangle] pub extern "C" fn deep_c04_others() { warm(); others(changed_twice) }
/// The loaders for each kind are called with documents of any kind.
#[no_mangle] pub extern "C" fn quick_c04_any_loader() { warm(); 
  let d = match choose(5) { 0 => v4_doc(), 1 => v3_doc(), 2 => v2_doc(), 3 => message_doc(), _ => match other(&Value::Null) { Some(v) => v, None => return } };
  match choose(6) {
    0 => { let _ = loaded(V4Pact::pact_from_json(&d, "t")).map(|p| used(&p)); }
    1 => { let _ = loaded(RequestResponsePact::from_json("t", &d)).map(|p| used(&p)); }
    2 => { let _ = loaded(MessagePact::from_json("t", &d)).map(|p| used(&p)); }
    3 => { let _ = loaded(interactions_from_json(&d, "t")); }
    4 => { let _ = loaded(http_interaction_from_json("t", &d, &pick(&SPECS))); }
    _ => { let _ = loaded(message_interaction_from_json("t", &d, &pick(&SPECS))); }
  }
}
/// Whole interactions in a pact.
#[no_mangle] pub extern "C" fn deep_c04_full() { warm(); 
  pact_of(changed(match choose(6) { 0 => pact("interactions", http_v4(), "4.0"), 1 => pact("interactions", async_v4(), "4.0"), 2 => pact("interactions", sync_v4(), "4.0"),
    3 => pact("interactions", http_v3(), "3.0.0"), 4 => pact("interactions", http_v2(), "2.0.0"), _ => pact("messages", message_v3(), "3.0.0") }))
}
