//! Builders of the parts of interactions, one group of parts symbolic at a time, and comparisons that look at every field.
use crate::models::*;
use crate::vp::*;
use bytes::Bytes;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::generators::*;
use pact_models::matchingrules::*;
use pact_models::message::Message;
use pact_models::path_exp::DocPath;
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::InteractionMarkup;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::{json, Value};
use std::collections::HashMap;

pub type Query = Option<HashMap<String, Vec<Option<String>>>>;
pub type Headers = Option<HashMap<String, Vec<String>>>;

/// Up to `n` states with symbolic names and at most one parameter each.
pub fn states(n: usize) -> Vec<ProviderState> {
  (0..choose(n + 1)).map(|i| {
    let mut s = ProviderState::default(str_sym());
    match choose(if i == 0 { 3 } else { 2 }) { 0 => (), 1 => { s.params.insert("p".into(), json!("v")); } _ => { s.params.insert(str_sym(), json!([null, { "b": str_sym() }])); } }
    s
  }).collect()
}
pub fn query() -> Query {
  match choose(5) {
    0 => None,
    1 => Some([(str_sym(), vec![Some(str1())])].into()),
    2 => Some([("a".to_string(), vec![None, Some(str_sym()), None])].into()),
    3 => Some([("a".to_string(), vec![Some("1".to_string()), Some("2".to_string())]), ("b".to_string(), vec![opt(str_sym)])].into()),
    _ => Some([("a b&c=d%\u{e9}".to_string(), vec![Some("e f&g=h+%\u{e9}".to_string())])].into()),
  }
}
/// Values without commas and outer blanks.
fn header_value() -> String { match choose(3) { 0 => text(1, b"aZ0!\"'()*:;=?@[]^_{}~"), 1 => "text/plain;q=1".to_string(), _ => "a \u{e9}".to_string() } }
pub fn header_name() -> String { "X-".to_string() + &text(1, b"aZ9-_") }
pub fn headers() -> Headers {
  match choose(6) {
    0 => None,
    1 => Some(HashMap::new()),
    2 => Some([(header_name(), vec![header_value()])].into()),
    3 => Some([("accept".to_string(), vec![header_value(), "b".to_string()])].into()),
    4 => Some([("X-A".to_string(), vec!["1".to_string()]), ("x-b".to_string(), vec![header_value(), header_value()])].into()),
    _ => Some([("Expires".to_string(), vec!["Wed, 21 Oct 2015 07:28:00 GMT".to_string()])].into()),
  }
}
/// A body with its content type.
pub fn body() -> OptionalBody {
  let p = |b: &[u8], c: &str| OptionalBody::Present(Bytes::from(b.to_vec()), ContentType::parse(c).ok(), None);
  match choose(6) {
    0 => OptionalBody::Missing,
    1 => OptionalBody::Empty,
    2 => p(json!({ "a": str_sym(), "b": [1, null] }).to_string().as_bytes(), "application/json"),
    3 => p(ascii(2).as_bytes(), "text/plain;charset=UTF-8"),
    4 => p(&[0xff, byte(), 0], "application/octet-stream"),
    _ => p(json!("text").to_string().as_bytes(), "application/vnd.x+json"),
  }
}
pub const V4_RULES: usize = 7;
/// Rules for the parts of an HTTP message, or for the contents and metadata of a message.
pub fn rules(http: bool) -> MatchingRules {
  let mut m = MatchingRules::default();
  match choose(6) {
    0 => (),
    1 => m.add_category(if http || flag() { "body" } else { "content" }).add_rule(body_path(1), few_rule(), logic()),
    2 => { let c = m.add_category("body"); c.add_rule(DocPath::root(), MatchingRule::Type, RuleLogic::And); c.add_rule(DocPath::root(), few_rule(), RuleLogic::And); c.add_rule(DocPath::root().join("a"), MatchingRule::Equality, RuleLogic::Or); }
    3 if http => m.add_category(pick(&["header", "query"])).add_rule(name_path(), few_rule(), logic()),
    4 if http => { m.add_category("header").add_rule(DocPath::root().join("A"), MatchingRule::Type, RuleLogic::And); m.add_category("body").add_rule(DocPath::root(), few_rule(), logic()); }
    5 if http => { m.add_category("path").add_rule(DocPath::empty(), few_rule(), logic()); }
    3 => m.add_category("metadata").add_rule(DocPath::root().join("a"), few_rule(), logic()),
    _ => { m.add_category("metadata").add_rule(DocPath::root().join("b"), MatchingRule::Type, RuleLogic::And); m.add_category("body").add_rule(DocPath::root(), few_rule(), logic()); }
  }
  m
}
pub fn generators(http: bool) -> Generators {
  let mut g = Generators::default();
  match choose(5) {
    0 => (),
    1 => g.add_generator_with_subcategory(&GeneratorCategory::BODY, body_path(1), few_generator()),
    2 => { g.add_generator_with_subcategory(&GeneratorCategory::BODY, DocPath::root().join("a"), few_generator()); g.add_generator_with_subcategory(&GeneratorCategory::BODY, DocPath::root().join("b"), Generator::RandomBoolean); }
    3 if http => g.add_generator_with_subcategory(&pick(&[GeneratorCategory::HEADER, GeneratorCategory::QUERY]), name_path(), few_generator()),
    3 => g.add_generator_with_subcategory(&GeneratorCategory::METADATA, DocPath::root().join("a"), few_generator()),
    _ if http => g.add_generator(&GeneratorCategory::PATH, few_generator()),
    _ => { g.add_generator_with_subcategory(&GeneratorCategory::METADATA, DocPath::root().join("b"), Generator::RandomBoolean); g.add_generator_with_subcategory(&GeneratorCategory::BODY, DocPath::root(), few_generator()); }
  }
  g
}
pub fn method() -> String { match choose(3) { 0 => "POST".to_string(), 1 => text(2, b"aZ-e"), _ => "get".to_string() } }
pub fn path() -> String { match choose(4) { 0 => String::new(), 1 => "/".to_string() + &ascii(1), 2 => str_sym(), _ => "/\u{e9}/%20 ?".to_string() } }

pub const REQUEST_PARTS: usize = 6;
/// A request with one group of parts symbolic and the others at fixed values.
pub fn request(part: usize) -> HttpRequest {
  let mut r = HttpRequest { method: "PUT".into(), path: "/p".into(), query: Some([("q".to_string(), vec![Some("1".to_string())])].into()), headers: Some([("X-H".to_string(), vec!["1".to_string(), "2".to_string()])].into()),
    body: OptionalBody::Present(Bytes::from_static(b"{\"a\":1}"), ContentType::parse("application/json").ok(), None), .. Default::default() };
  r.matching_rules.add_category("body").add_rule(DocPath::root().join("a"), MatchingRule::Type, RuleLogic::And);
  r.generators.add_generator(&GeneratorCategory::PATH, Generator::Regex("/.".into()));
  match part {
    0 => { r.method = method(); r.path = path(); }
    1 => r.query = query(),
    2 => r.headers = headers(),
    3 => r.body = body(),
    4 => r.matching_rules = rules(true),
    5 => r.generators = generators(true),
    _ => (),
  }
  r
}
pub const RESPONSE_PARTS: usize = 5;
pub fn response(part: usize) -> HttpResponse {
  let mut r = HttpResponse { status: 201, headers: Some([("X-R".to_string(), vec!["1".to_string(), "2".to_string()])].into()), body: OptionalBody::Present(Bytes::from_static(b"text"), ContentType::parse("text/plain").ok(), None), .. Default::default() };
  r.matching_rules.add_category("header").add_rule(DocPath::root().join("X-R"), MatchingRule::Type, RuleLogic::And);
  r.generators.add_generator_with_subcategory(&GeneratorCategory::BODY, DocPath::root(), Generator::RandomString(3));
  match part {
    0 => r.status = u16v(),
    1 => r.headers = headers(),
    2 => r.body = body(),
    3 => r.matching_rules = rules(true),
    4 => r.generators = generators(true),
    _ => (),
  }
  r
}
pub const CONTENTS_PARTS: usize = 4;
pub fn metadata() -> HashMap<String, Value> {
  match choose(5) {
    0 => HashMap::new(),
    1 => [(str1(), json_doc(0))].into(),
    2 => [("contentType".to_string(), json!("application/json"))].into(),
    3 => [("a".to_string(), json_doc(1)), ("b".to_string(), json!(str_sym()))].into(),
    _ => [("a".to_string(), json!({ "b": { "c": [str1()] } }))].into(),
  }
}
pub fn contents(part: usize) -> MessageContents {
  let mut c = MessageContents { contents: OptionalBody::Present(Bytes::from_static(b"{\"m\":[1]}"), ContentType::parse("application/json").ok(), None), metadata: [("topic".to_string(), json!("t")), ("n".to_string(), json!(1))].into(), .. Default::default() };
  c.matching_rules.add_category("body").add_rule(DocPath::root().join("m"), MatchingRule::Type, RuleLogic::And);
  c.generators.add_generator_with_subcategory(&GeneratorCategory::METADATA, DocPath::root().join("topic"), Generator::RandomBoolean);
  match part {
    0 => c.contents = body(),
    1 => c.metadata = metadata(),
    2 => c.matching_rules = rules(false),
    3 => c.generators = generators(false),
    _ => (),
  }
  c
}
pub fn comments() -> HashMap<String, Value> {
  match choose(5) {
    0 => HashMap::new(),
    1 => [("text".to_string(), json!([str1(), "b"])), ("testname".to_string(), json!("t" .to_string() + &str1()))].into(),
    2 => [(str1(), json!(byte()))].into(),
    3 => [("a".to_string(), json!(false)), ("b".to_string(), json!({ "c": null }))].into(),
    _ => [("n".to_string(), Value::Null), ("e".to_string(), json!("")), ("k".to_string(), json!([null]))].into(),
  }
}
pub fn plugin_config() -> HashMap<String, HashMap<String, Value>> {
  match choose(4) {
    0 => HashMap::new(),
    1 => [(str1(), [(str1(), json_doc(1))].into())].into(),
    2 => [("p".to_string(), HashMap::new())].into(),
    _ => [("p".to_string(), [("a".to_string(), Value::Null), ("b".to_string(), json!({ "c": str_sym() }))].into()), ("q".to_string(), [("a".to_string(), json!(1))].into())].into(),
  }
}
pub fn markup() -> InteractionMarkup { InteractionMarkup { markup: str1(), markup_type: str1() } }
pub fn plugin(i: usize) -> PluginData {
  if i > 0 { return PluginData { name: "p".into(), version: "1".into(), configuration: [("a".to_string(), Value::Null), ("b".to_string(), json!({ "c": [] }))].into() }; }
  PluginData { name: str1(), version: str1(),
    configuration: match choose(3) { 0 => HashMap::new(), 1 => [(str1(), json_doc(1))].into(), _ => [("a".to_string(), Value::Null), ("b".to_string(), json!({ "c": [] }))].into() } }
}

// -------- comparisons
pub fn same_state(a: &ProviderState, b: &ProviderState) -> bool { a.name == b.name && a.params.len() == b.params.len() && a.params.iter().all(|(k, v)| b.params.get(k) == Some(v)) }
pub fn same_states(a: &[ProviderState], b: &[ProviderState]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_state(x, y)) }
pub fn same_map<V: PartialEq>(a: &HashMap<String, V>, b: &HashMap<String, V>) -> bool { a.len() == b.len() && a.iter().all(|(k, v)| b.get(k) == Some(v)) }
pub fn same_opt_map<V: PartialEq>(a: &Option<HashMap<String, V>>, b: &Option<HashMap<String, V>>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_map(a, b), _ => false } }
/// The same state, bytes and content type.
pub fn same_body(a: &OptionalBody, b: &OptionalBody) -> bool {
  match (a, b) {
    (OptionalBody::Present(x, c, h), OptionalBody::Present(y, d, i)) => same(x, y) && c == d && h == i,
    (OptionalBody::Missing, OptionalBody::Missing) | (OptionalBody::Empty, OptionalBody::Empty) | (OptionalBody::Null, OptionalBody::Null) => true,
    _ => false,
  }
}
pub fn upper(s: &str) -> String { unsafe { String::from_utf8_unchecked(s.bytes().map(|c| if c.is_ascii_lowercase() { c - 32 } else { c }).collect()) } }
pub fn check_request(a: &HttpRequest, b: &HttpRequest) {
  check(upper(&a.method) == b.method, "the method of a request is another one");
  check(a.path == b.path, "the path of a request is another one");
  check(same_opt_map(&a.query, &b.query), "the query of a request is another one");
  check(same_opt_map(&a.headers, &b.headers), "the headers of a request are other ones");
  check(same_body(&a.body, &b.body), "the body of a request is another one");
  check(same_rules(&a.matching_rules, &b.matching_rules), "the matching rules of a request are other ones");
  check(same_generators(&a.generators, &b.generators), "the generators of a request are other ones");
}
pub fn check_response(a: &HttpResponse, b: &HttpResponse) {
  check(a.status == b.status, "the status of a response is another one");
  check(same_opt_map(&a.headers, &b.headers), "the headers of a response are other ones");
  check(same_body(&a.body, &b.body), "the body of a response is another one");
  check(same_rules(&a.matching_rules, &b.matching_rules), "the matching rules of a response are other ones");
  check(same_generators(&a.generators, &b.generators), "the generators of a response are other ones");
}
pub fn check_contents(a: &MessageContents, b: &MessageContents) {
  check(same_body(&a.contents, &b.contents), "the contents of a message are other ones");
  check(same_map(&a.metadata, &b.metadata), "the metadata of a message is another one");
  check(same_rules(&a.matching_rules, &b.matching_rules), "the matching rules of a message are other ones");
  check(same_generators(&a.generators, &b.generators), "the generators of a message are other ones");
}
pub fn v4_request(r: &Request) -> HttpRequest { HttpRequest { method: r.method.clone(), path: r.path.clone(), query: r.query.clone(), headers: r.headers.clone(), body: r.body.clone(), matching_rules: r.matching_rules.clone(), generators: r.generators.clone() } }
pub fn v4_response(r: &Response) -> HttpResponse { HttpResponse { status: r.status, headers: r.headers.clone(), body: r.body.clone(), matching_rules: r.matching_rules.clone(), generators: r.generators.clone() } }
pub fn v3_request(r: &HttpRequest) -> Request { Request { method: r.method.clone(), path: r.path.clone(), query: r.query.clone(), headers: r.headers.clone(), body: r.body.clone(), matching_rules: r.matching_rules.clone(), generators: r.generators.clone() } }
pub fn v3_response(r: &HttpResponse) -> Response { Response { status: r.status, headers: r.headers.clone(), body: r.body.clone(), matching_rules: r.matching_rules.clone(), generators: r.generators.clone() } }
/// What the format keeps of comments: those that are not empty.
pub fn kept_comments(m: &HashMap<String, Value>) -> HashMap<String, Value> {
  m.iter().filter(|(_, v)| match v { Value::Null => false, Value::String(s) => !s.is_empty(), Value::Array(a) => !a.is_empty(), Value::Object(o) => !o.is_empty(), _ => true }).map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn check_common(a: (&Option<String>, &String, &Vec<ProviderState>, &HashMap<String, Value>, bool, &HashMap<String, HashMap<String, Value>>, &InteractionMarkup, &Option<String>),
                    b: (&Option<String>, &String, &Vec<ProviderState>, &HashMap<String, Value>, bool, &HashMap<String, HashMap<String, Value>>, &InteractionMarkup, &Option<String>)) {
  check(a.0 == b.0, "the key of an interaction is another one");
  check(a.1 == b.1, "the description of an interaction is another one");
  check(same_states(a.2, b.2), "the provider states of an interaction are other ones");
  check(same_map(&kept_comments(a.3), b.3), "the comments of an interaction are other ones");
  check(a.4 == b.4, "the pending flag of an interaction is another one");
  check(a.5.len() == b.5.len() && a.5.iter().all(|(k, v)| b.5.get(k).map(|w| same_map(v, w)).unwrap_or(false)), "the plugin configuration of an interaction is another one");
  check(if a.6.markup.is_empty() { b.6.markup.is_empty() } else { a.6.markup == b.6.markup && a.6.markup_type == b.6.markup_type }, "the markup of an interaction is another one");
  check(a.7 == b.7, "the transport of an interaction is another one");
}
macro_rules! common { ($i: expr) => { (&$i.key, &$i.description, &$i.provider_states, &$i.comments, $i.pending, &$i.plugin_config, &$i.interaction_markup, &$i.transport) } }
pub fn check_http(a: &SynchronousHttp, b: &SynchronousHttp) { check_common(common!(a), common!(b)); check_request(&a.request, &b.request); check_response(&a.response, &b.response); }
pub fn check_async(a: &AsynchronousMessage, b: &AsynchronousMessage) { check_common(common!(a), common!(b)); check_contents(&a.contents, &b.contents); }
pub fn check_sync(a: &SynchronousMessage, b: &SynchronousMessage) {
  check_common(common!(a), common!(b)); check_contents(&a.request, &b.request);
  check(a.response.len() == b.response.len(), "the number of responses of a synchronous message is another one");
  for (x, y) in a.response.iter().zip(&b.response) { check_contents(x, y); }
}
pub fn check_v3_interaction(a: &RequestResponseInteraction, b: &RequestResponseInteraction) {
  check(a.description == b.description, "the description of an interaction is another one");
  check_request(&v4_request(&a.request), &v4_request(&b.request));
  check_response(&v4_response(&a.response), &v4_response(&b.response));
}
pub fn check_message(a: &Message, b: &Message) {
  check(a.description == b.description, "the description of a message is another one");
  check(same_states(&a.provider_states, &b.provider_states), "the provider states of a message are other ones");
  check(same_body(&a.contents, &b.contents), "the contents of a message are other ones");
  check(same_map(&a.metadata, &b.metadata), "the metadata of a message is another one");
  check(same_rules(&a.matching_rules, &b.matching_rules), "the matching rules of a message are other ones");
  check(same_generators(&a.generators, &b.generators), "the generators of a message are other ones");
}
/// A small document whose numbers are fixed: printing symbolic ones is costly.
pub fn plain_doc(depth: usize) -> Value {
  if depth == 0 { return match choose(5) { 0 => Value::Null, 1 => json!(true), 2 => json!(12), 3 => json!(-1.5), _ => Value::String(str1()) }; }
  match choose(6) { 0 => plain_doc(0), 1 => json!([]), 2 => json!({}), 3 => json!([plain_doc(depth - 1), plain_doc(0)]), 4 => obj(vec![("a", plain_doc(depth - 1)), ("\u{e9}", Value::Null)]), _ => json!([plain_doc(depth - 1)]) }
}
