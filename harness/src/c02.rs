//! V1 to V3 request/response pacts, written and read.
use crate::models::*;
use crate::parts::*;
use crate::vp::*;
use pact_models::bodies::OptionalBody;
use pact_models::matchingrules::*;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::path_exp::DocPath;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

const OLD: [PactSpecification; 3] = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2];
fn version() -> PactSpecification { if flag() { PactSpecification::V3 } else { pick(&OLD) } }
/// The body comes with the header that declares its content type.
fn declared(b: &OptionalBody, h: &mut Headers) { if let Some(c) = b.content_type() { h.get_or_insert_with(HashMap::new).insert(pick(&["Content-Type", "content-type"]).to_string(), vec![c.to_string()]); } }
fn any_body() -> OptionalBody { if flag() { OptionalBody::Null } else { body() } }
/// Rules that V2 can express: one for a location.
fn v2_rules() -> MatchingRules {
  let rule = match choose(4) { 0 => MatchingRule::Regex(str_sym()), 1 => MatchingRule::Type, 2 => MatchingRule::MinType(pick(&[0, 1, 17])), _ => MatchingRule::Timestamp(str_sym()) };
  let mut m = MatchingRules::default();
  match choose(5) {
    0 => (),
    1 => m.add_category("body").add_rule(body_path(1), rule, RuleLogic::And),
    2 => m.add_category(pick(&["header", "query"])).add_rule(name_path(), rule, RuleLogic::And),
    3 => m.add_category("path").add_rule(DocPath::empty(), rule, RuleLogic::And),
    _ => { m.add_category("body").add_rule(DocPath::root().join("a"), rule, RuleLogic::And); m.add_category("header").add_rule(DocPath::root().join("B"), MatchingRule::Type, RuleLogic::And); }
  }
  m
}
fn as_version_request(mut r: HttpRequest, part: usize, v: PactSpecification) -> HttpRequest {
  declared(&r.body.clone(), &mut r.headers);
  if v != PactSpecification::V3 { r.generators = Default::default(); if part == 4 { r.matching_rules = v2_rules(); } }
  r
}
fn as_version_response(mut r: HttpResponse, part: usize, v: PactSpecification) -> HttpResponse {
  declared(&r.body.clone(), &mut r.headers);
  if v != PactSpecification::V3 { r.generators = Default::default(); if part == 3 { r.matching_rules = v2_rules(); } }
  r
}
/// The content type of a body is that of its part.
fn settled(mut r: HttpRequest) -> HttpRequest { let c = r.content_type(); r.body = r.body.with_content_type(c); r }
fn settled_r(mut r: HttpResponse) -> HttpResponse { let c = r.content_type(); r.body = r.body.with_content_type(c); r }
fn plain(q: &Query) -> bool { q.as_ref().map(|q| q.iter().all(|(k, v)| k.is_ascii() && v.iter().flatten().all(|s| s.is_ascii()))).unwrap_or(true) }
fn request_of(v: PactSpecification) {
  let part = choose(REQUEST_PARTS);
  // the string form of V1 and V2 has no place for generators or for a query with no parameters
  assume(part != 5 || v == PactSpecification::V3);
  assume(part != 4 || v == PactSpecification::V3);
  let mut r = request(part);
  if part == 3 { r.body = any_body(); }
  let r = as_version_request(r, part, v);
  // the string form of a query with non-ASCII text is a finding of C05
  assume(v == PactSpecification::V3 || plain(&r.query));
  let j = v3_request(&r).to_json(&v);
  match Request::from_json(&j, &v) {
    Ok(b) => { reach("request"); check_request(&settled(r), &settled(v4_request(&b))); check(b.to_json(&v) == j, "a request read and written again is another document"); }
    Err(_) => fail("a written request is refused"),
  }
}
#[no_mangle] pub extern "C" fn quick_c02_request_v3() { request_of(PactSpecification::V3) }
#[no_mangle] pub extern "C" fn quick_c02_request_old() { request_of(pick(&OLD)) }
fn response_of(v: PactSpecification) {
  let part = choose(RESPONSE_PARTS);
  assume(part < 3 || v == PactSpecification::V3);
  let mut r = response(part);
  if part == 2 { r.body = any_body(); }
  let r = as_version_response(r, part, v);
  let j = v3_response(&r).to_json(&v);
  match Response::from_json(&j, &v) {
    Ok(b) => { reach("response"); check_response(&settled_r(r), &settled_r(v4_response(&b))); check(b.to_json(&v) == j, "a response read and written again is another document"); }
    Err(_) => fail("a written response is refused"),
  }
}
#[no_mangle] pub extern "C" fn quick_c02_response_v3() { response_of(PactSpecification::V3) }
#[no_mangle] pub extern "C" fn quick_c02_response_old() { response_of(pick(&OLD)) }
/// Matching rules that V1 and V2 can express.
#[no_mangle] pub extern "C" fn quick_c02_rules_old() {
  let v = pick(&OLD);
  let m = v2_rules();
  if flag() {
    let r = Request { matching_rules: m.clone(), .. Default::default() };
    match Request::from_json(&r.to_json(&v), &v) { Ok(b) => { reach("rules"); check(same_rules(&m, &b.matching_rules), "the matching rules of a V2 request are other ones"); } Err(_) => fail("a written request is refused") }
  } else {
    assume(!m.rules.contains_key(&Category::PATH) && !m.rules.contains_key(&Category::QUERY));
    let r = Response { matching_rules: m.clone(), .. Default::default() };
    match Response::from_json(&r.to_json(&v), &v) { Ok(b) => { reach("rules"); check(same_rules(&m, &b.matching_rules), "the matching rules of a V2 response are other ones"); } Err(_) => fail("a written response is refused") }
  }
}
fn interaction(i: usize, n: usize) -> RequestResponseInteraction {
  RequestResponseInteraction {
    description: if i == 0 { str1() } else { pick(&["a", "", "z"]).to_string() },
    provider_states: if i == 0 { states(n) } else { vec![] },
    request: Request { path: format!("/{}", i), .. Default::default() },
    response: Response { status: 200 + i as u16, .. Default::default() },
    .. Default::default()
  }
}
/// Whole documents.
fn pact(n: usize) {
  let v = version();
  let part = choose(3);
  let p = RequestResponsePact {
    consumer: Consumer { name: if part == 0 { str1() } else { "c".into() } },
    provider: Provider { name: if part == 0 { str1() } else { "p".into() } },
    interactions: if part == 1 { let k = choose(n + 1); (0..k).map(|i| interaction(i, 2)).collect() } else { vec![] },
    metadata: if part == 2 { match choose(4) {
      0 => BTreeMap::new(),
      1 => [(str1(), [(str1(), str1())].into())].into(),
      2 => [("a".to_string(), BTreeMap::new()), ("pactRust".to_string(), [("ffi".to_string(), str1()), ("models".to_string(), "0".to_string())].into())].into(),
      _ => [("pactSpecification".to_string(), [("version".to_string(), pick(&["1.0.0", "3.0.0", "4.0", "x"]).to_string())].into())].into(),
    } } else { BTreeMap::new() },
    specification_version: version(),
  };
  let j = match p.to_json(v) { Ok(j) => j, Err(_) => { fail("a pact is not written"); return; } };
  let l = match load_pact_from_json("t", &j) { Ok(l) => l, Err(_) => { fail("a written pact is refused"); return; } };
  reach("pact");
  check(l.specification_version() == v && !l.is_v4(), "a pact is loaded as another version");
  let r = match l.as_request_response_pact() { Ok(r) => r, Err(_) => { fail("a request/response pact is loaded as another one"); return; } };
  check(r.specification_version == v && r.spec_version() == v, "a pact is loaded as another version");
  check(r.consumer.name == p.consumer.name && r.provider.name == p.provider.name, "the consumer or the provider of a pact is another one");
  check(r.interactions.len() == p.interactions.len(), "the number of interactions of a pact is another one");
  for (a, b) in p.interactions.iter().zip(&r.interactions) {
    check_v3_interaction(a, b);
    if v == PactSpecification::V3 { check(same_states(&a.provider_states, &b.provider_states), "the provider states of an interaction are other ones"); }
    else {
      // V1 and V2 have the name of the first state only
      let want: Vec<ProviderState> = a.provider_states.iter().take(1).map(|s| ProviderState::default(s.name.clone())).collect();
      check(same_states(&want, &b.provider_states), "the provider state of an interaction is another one");
    }
  }
  for (k, m) in &p.metadata {
    match k.as_str() {
      "pactSpecification" => (),
      "pactRust" => check(r.metadata.get(k).map(|n| m.iter().all(|(a, b)| a == "models" || n.get(a) == Some(b))).unwrap_or(false), "the library versions of a pact are other ones"),
      _ => check(r.metadata.get(k) == Some(m), "the metadata of a pact is another one"),
    }
  }
  check(r.metadata.keys().all(|k| k == "pactSpecification" || k == "pactRust" || p.metadata.contains_key(k)), "a pact has metadata that was not written");
  match l.to_json(v) { Ok(k) => check(k == j, "a pact read and written again is another document"), Err(_) => fail("a pact is not written") }
  let _: Value = j;
}
#[no_mangle] pub extern "C" fn quick_c02_pact() { pact(2) }
#[no_mangle] pub extern "C" fn deep_c02_pact() { pact(4) }
