//! What the traits show of interactions and pacts, and what changes made through them do.
use crate::models::*;
use crate::parts::*;
use crate::vp::*;
use pact_models::interaction::Interaction;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{Pact, ReadWritePact};
use pact_models::provider_states::ProviderState;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::{InteractionMarkup, V4Interaction};
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::v4::V4InteractionType;
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

/// The values the views are of.
#[derive(Clone)]
enum Orig { Http(SynchronousHttp), Async(AsynchronousMessage), Sync(SynchronousMessage), Rr(RequestResponseInteraction), Msg(Message) }
use Orig::*;

/// One group of attributes symbolic.
fn orig(kind: usize, part: usize) -> Orig {
  let id = if part == 0 { opt(str1) } else { Some("id1".into()) };
  let description = if part == 0 { str1() } else { "an interaction".into() };
  let provider_states = if part == 1 { states(2) } else { vec![ProviderState::default("s")] };
  let key = if part == 2 { opt(str1) } else { Some("k".into()) };
  let transport = if part == 2 { opt(str1) } else { Some("grpc".into()) };
  let pending = if part == 2 { flag() } else { true };
  let comments = if part == 3 { comments() } else { [("c".to_string(), json!("v"))].into() };
  let plugin_config = if part == 4 { plugin_config() } else { [("p".to_string(), [("a".to_string(), json!(1))].into())].into() };
  let interaction_markup = if part == 5 { markup() } else { InteractionMarkup { markup: "m".into(), markup_type: "HTML".into() } };
  match kind {
    0 => Http(SynchronousHttp { id, key, description, provider_states, request: request(if part == 6 { choose(REQUEST_PARTS) } else { 99 }), response: response(if part == 7 { choose(RESPONSE_PARTS) } else { 99 }), comments, pending, plugin_config, interaction_markup, transport }),
    1 => Async(AsynchronousMessage { id, key, description, provider_states, contents: contents(if part == 6 || part == 7 { choose(CONTENTS_PARTS) } else { 99 }), comments, pending, plugin_config, interaction_markup, transport }),
    2 => Sync(SynchronousMessage { id, key, description, provider_states, request: contents(if part == 6 { choose(CONTENTS_PARTS) } else { 99 }), response: (0..choose(3)).map(|i| contents(if part == 7 && i == 0 { choose(CONTENTS_PARTS) } else { 99 })).collect(), comments, pending, plugin_config, interaction_markup, transport }),
    3 => Rr(RequestResponseInteraction { id, description, provider_states, request: v3_request(&request(if part == 6 { choose(REQUEST_PARTS) } else { 99 })), response: v3_response(&response(if part == 7 { choose(RESPONSE_PARTS) } else { 99 })) }),
    _ => { let c = contents(if part == 6 || part == 7 { choose(CONTENTS_PARTS) } else { 99 }); Msg(Message { id, description, provider_states, contents: c.contents, metadata: c.metadata, matching_rules: c.matching_rules, generators: c.generators }) }
  }
}
macro_rules! each { ($o:expr, $i:ident, $e:expr) => { match $o { Http($i) => $e, Async($i) => $e, Sync($i) => $e, Rr($i) => $e, Msg($i) => $e } } }
macro_rules! each_v4 { ($o:expr, $i:ident, $e:expr, $x:expr) => { match $o { Http($i) => $e, Async($i) => $e, Sync($i) => $e, _ => $x } } }
impl Orig {
  fn kind(&self) -> usize { match self { Http(_) => 0, Async(_) => 1, Sync(_) => 2, Rr(_) => 3, Msg(_) => 4 } }
  fn view(&self) -> &dyn Interaction { each!(self, i, i) }
  fn view_mut(&mut self) -> &mut dyn Interaction { each!(self, i, i) }
  fn v4(&self) -> Option<&dyn V4Interaction> { each_v4!(self, i, Some(i), None) }
}
/// The value of a view, taken out by the conversion of its own type.
fn taken(kind: usize, i: &dyn Interaction) -> Option<Orig> {
  match kind { 0 => i.as_v4_http().map(Http), 1 => i.as_v4_async_message().map(Async), 2 => i.as_v4_sync_message().map(Sync), 3 => i.as_request_response().map(Rr), _ => i.as_message().map(Msg) }
}
macro_rules! exact { ($a:expr, $b:expr, $c:ident) => {{
  check($a.id == $b.id, "the id of an interaction is another one");
  check(same_map(&$a.comments, &$b.comments), "the comments of an interaction are other ones");
  let (mut x, mut y) = ($a.clone(), $b.clone()); x.comments = HashMap::new(); y.comments = HashMap::new();
  check($a.interaction_markup.markup == $b.interaction_markup.markup && $a.interaction_markup.markup_type == $b.interaction_markup.markup_type, "the markup of an interaction is another one");
  $c(&x, &y)
}} }
fn check_orig(a: &Orig, b: &Orig) {
  match (a, b) {
    (Http(a), Http(b)) => { let (mut a, mut b) = (a.clone(), b.clone()); check(a.request.method == b.request.method, "the method of a request is another one"); a.request.method = String::new(); b.request.method = String::new(); exact!(a, b, check_http) }
    (Async(a), Async(b)) => exact!(a, b, check_async),
    (Sync(a), Sync(b)) => exact!(a, b, check_sync),
    (Rr(a), Rr(b)) => { let (mut a, mut b) = (a.clone(), b.clone()); check(a.request.method == b.request.method, "the method of a request is another one"); a.request.method = String::new(); b.request.method = String::new(); check(a.id == b.id, "the id of an interaction is another one"); check_v3_interaction(&a, &b) }
    (Msg(a), Msg(b)) => { check(a.id == b.id, "the id of an interaction is another one"); check_message(a, b) }
    _ => fail("an interaction of another type"),
  }
}
fn check_taken(a: &Orig, i: &dyn Interaction) { match taken(a.kind(), i) { Some(b) => check_orig(a, &b), None => fail("a view is not converted to its own type") } }
const TYPES: [&str; 5] = ["V4 Synchronous/HTTP", "V4 Asynchronous/Messages", "V4 Synchronous/Messages", "V3 Synchronous/HTTP", "V3 Asynchronous/Messages"];

/// Everything a view says, against the value.
#[allow(deprecated)]
fn check_view(o: &Orig, i: &dyn Interaction) {
  let k = o.kind();
  check(i.type_of() == TYPES[k], "the type of an interaction is another one");
  check(i.is_v4() == (k < 3), "V4 of an interaction");
  check(i.is_request_response() == (k == 0 || k == 3), "request/response of an interaction");
  check(i.is_message() == (k == 1 || k == 4), "message of an interaction");
  check(i.is_v4_http() == (k == 0), "V4 HTTP of an interaction");
  check(i.is_v4_async_message() == (k == 1), "V4 asynchronous message of an interaction");
  check(i.is_v4_sync_message() == (k == 2), "V4 synchronous message of an interaction");
  check(i.as_request_response().is_some() == (k == 0 || k == 3), "conversion to a request/response");
  check(i.as_message().is_some() == (k == 1 || k == 4), "conversion to a message");
  check(i.as_v4_http().is_some() == (k == 0 || k == 3), "conversion to V4 HTTP");
  check(i.as_v4_async_message().is_some() == (k == 1 || k == 4), "conversion to a V4 asynchronous message");
  check(i.as_v4_sync_message().is_some() == (k == 2), "conversion to a V4 synchronous message");
  match i.as_v4() {
    Some(v) => { let d: &dyn V4Interaction = &*v; check(d.type_of() == TYPES[match k { 3 => 0, 4 => 1, k => k }], "the V4 form is of another type"); if k < 3 { check_taken(o, d.to_super()); } else { check(d.id() == i.id() && d.description() == i.description() && same_states(&d.provider_states(), &i.provider_states()), "the V4 form says something else"); } }
    None => fail("an interaction has no V4 form"),
  }
  each!(o, x, {
    check(i.id() == x.id, "a view shows another id");
    check(i.description() == x.description, "a view shows another description");
    check(same_states(&i.provider_states(), &x.provider_states), "a view shows other provider states");
  });
  check(i.pending() == each_v4!(o, x, x.pending, false), "a view shows another pending flag");
  let b = i.contents_for_verification();
  match o {
    Http(x) => { check(same_body(&b, &x.response.body), "the contents to verify of HTTP are not the response body"); check(same_body(&i.contents(), &x.response.body), "the contents of HTTP are not the response body"); }
    Rr(x) => { check(same_body(&b, &x.response.body), "the contents to verify of HTTP are not the response body"); check(same_body(&i.contents(), &x.response.body), "the contents of HTTP are not the response body"); }
    Async(x) => { check(same_body(&b, &x.contents.contents), "the contents to verify of a message are others"); check(same_body(&i.contents(), &x.contents.contents), "the contents of a message are others"); }
    Msg(x) => { check(same_body(&b, &x.contents), "the contents to verify of a message are others"); check(same_body(&i.contents(), &x.contents), "the contents of a message are others"); }
    Sync(x) => { check(match x.response.first() { Some(r) => same_body(&b, &r.contents), None => b == pact_models::bodies::OptionalBody::Missing }, "the contents to verify of a synchronous message are not those of its first response"); }
  }
  match (o, i.matching_rules()) {
    (Async(x), Some(r)) => check(same_rules(&r, &x.contents.matching_rules), "a view shows other matching rules"),
    (Msg(x), Some(r)) => check(same_rules(&r, &x.matching_rules), "a view shows other matching rules"),
    (Async(_), None) | (Msg(_), None) => fail("a view shows no matching rules"),
    (_, r) => check(r.is_none(), "rules of an interaction that has more than one set"),
  }
}
fn check_v4_view(o: &Orig, d: &dyn V4Interaction) {
  each_v4!(o, x, {
    check(d.key() == x.key, "a view shows another key");
    check(same_map(&d.comments(), &x.comments), "a view shows other comments");
    let p = d.plugin_config();
    check(p.len() == x.plugin_config.len() && p.iter().all(|(k, v)| x.plugin_config.get(k).map(|w| same_map(v, w)).unwrap_or(false)), "a view shows another plugin configuration");
    check(d.interaction_markup() == x.interaction_markup, "a view shows another markup");
    check(d.transport() == x.transport, "a view shows another transport");
  }, fail("not a V4 interaction"));
  check(d.v4_type() == [V4InteractionType::Synchronous_HTTP, V4InteractionType::Asynchronous_Messages, V4InteractionType::Synchronous_Messages][o.kind()], "a view shows another V4 type");
  check_taken(o, d.to_super());
}
fn warm() { let _ = pact_models::content_types::detect_content_type_from_string("zzz"); let _ = pact_models::path_exp::DocPath::root().join("a"); let _ = pact_models::path_exp::DocPath::new("$.a"); let _ = pact_models::content_types::ContentType::parse("a/b"); }

fn views(parts: std::ops::Range<usize>) {
  warm();
  let o = orig(choose(5), parts.start + choose(parts.end - parts.start));
  reach("views");
  check_view(&o, o.view());
  if let Some(v) = o.v4() { check_v4_view(&o, v); }
}
#[no_mangle] pub extern "C" fn quick_c32_views() { views(0..8) }

/// Copies of every kind are the same.
#[no_mangle] pub extern "C" fn quick_c32_copies() { warm(); copies(choose(4)) }
#[no_mangle] pub extern "C" fn quick_c32_clones() { warm(); copies(4) }
#[no_mangle] pub extern "C" fn quick_c32_keys() { warm(); copies(5) }
#[no_mangle] pub extern "C" fn quick_c32_shown() { warm(); copies(6) }
fn copies(how: usize) {
  let o = orig(choose(5), if how > 4 { 99 } else if how == 4 { choose(3) } else { choose(8) });
  let i = o.view();
  reach("copies");
  match how {
    0 => check_taken(&o, &*i.boxed()),
    1 => check_taken(&o, &*i.arced()),
    2 => { let m = i.thread_safe(); let g = m.lock().unwrap(); check_taken(&o, &*g) }
    3 => { let b: Box<dyn Interaction> = i.boxed(); let c = b.clone(); check_taken(&o, &*c) }
    4 => if let Some(v) = o.v4() { let b = v.boxed_v4(); let c = b.clone(); check(b.eq(&c), "a clone is not equal to the interaction"); check_taken(&o, c.to_super()) },
    5 => if let Some(v) = o.v4() { let b = v.with_unique_key(); let mut c = o.clone(); match &mut c { Http(x) => x.key = b.key(), Async(x) => x.key = b.key(), Sync(x) => x.key = b.key(), _ => () } check(b.key().is_some(), "no key is calculated"); check_taken(&c, b.to_super()) },
    _ => { let b: Box<dyn Interaction> = i.boxed(); let s = format!("{}", b); check(s.contains("an interaction"), "an interaction is not shown with its description"); if let Some(v) = o.v4() { let b = v.boxed_v4(); let v: &dyn V4Interaction = &*b; check(v.to_string().contains("an interaction"), "an interaction is not shown with its description"); } },
  }
}
/// A change made through a view changes that attribute of the value, and no other.
#[no_mangle] pub extern "C" fn quick_c32_changes() {
  warm();
  let mut o = orig(choose(5), 99);
  let mut want = o.clone();
  let what = choose(9);
  let t = str_sym();
  reach("changes");
  let i = o.view_mut();
  match what {
    0 => { let v = opt(str_sym); i.set_id(v.clone()); each!(&mut want, x, x.id = v); }
    1 => { i.set_description(&t); each!(&mut want, x, x.description = t); }
    2 => { i.provider_states_mut().push(ProviderState::default(&t)); each!(&mut want, x, x.provider_states.push(ProviderState::default(&t))); }
    _ => match i.as_v4_mut() {
      None => check(want.kind() >= 3, "a V4 interaction has no mutable view"),
      Some(v) => {
        check(want.kind() < 3, "a V3 interaction has a mutable V4 view");
        match what {
          3 => { v.comments_mut().insert(t.clone(), json!(1)); each_v4!(&mut want, x, { x.comments.insert(t, json!(1)); }, ()); }
          4 => { v.plugin_config_mut().insert(t.clone(), HashMap::new()); each_v4!(&mut want, x, { x.plugin_config.insert(t, HashMap::new()); }, ()); }
          5 => { v.interaction_markup_mut().markup = t.clone(); each_v4!(&mut want, x, x.interaction_markup.markup = t, ()); }
          6 => { let y = opt(str_sym); v.set_transport(y.clone()); each_v4!(&mut want, x, x.transport = y, ()); }
          7 => { v.to_super_mut().set_description(&t); each_v4!(&mut want, x, x.description = t, ()); }
          _ => {
            let k = want.kind();
            check(v.as_v4_http_mut().is_some() == (k == 0) && v.as_v4_async_message_mut().is_some() == (k == 1) && v.as_v4_sync_message_mut().is_some() == (k == 2), "a mutable view of another type");
            if let Some(x) = v.as_v4_http_mut() { x.request.path = t.clone(); }
            if let Some(x) = v.as_v4_async_message_mut() { x.contents.metadata.insert(t.clone(), json!(2)); }
            if let Some(x) = v.as_v4_sync_message_mut() { x.request.metadata.insert(t.clone(), json!(2)); }
            match &mut want { Http(x) => x.request.path = t, Async(x) => { x.contents.metadata.insert(t, json!(2)); }, Sync(x) => { x.request.metadata.insert(t, json!(2)); }, _ => () }
          }
        }
      }
    }
  }
  let (k, n) = (o.kind(), o.view());
  check(n.as_v4_http().is_some() == (k == 0 || k == 3), "conversion after a change");
  check_taken(&want, n);
  if let Some(v) = o.v4() { check_v4_view(&want, v); }
}
/// Markup of two sources.
#[no_mangle] pub extern "C" fn quick_c32_markup() {
  let (a, b) = (markup(), markup());
  let m = a.merge(b.clone());
  reach("markup");
  check(a.is_empty() == a.markup.is_empty(), "empty markup");
  let want = if a.markup.is_empty() { b } else if b.markup.is_empty() { a } else { InteractionMarkup { markup: a.markup.clone() + "\n" + &b.markup, markup_type: a.markup_type } };
  check(m.markup == want.markup && m.markup_type == want.markup_type, "merged markup is not the two texts one after the other");
}

// -------- pacts
fn small(kind: usize, n: usize) -> Orig {
  let (id, description) = (match n { 0 => opt(str_sym), 1 => Some("b".to_string()), _ => None }, if n == 0 { str_sym() } else { format!("d{}", n) });
  match kind {
    0 => Http(SynchronousHttp { id, description, ..Default::default() }),
    1 => Async(AsynchronousMessage { id, description, ..Default::default() }),
    2 => Sync(SynchronousMessage { id, description, ..Default::default() }),
    3 => Rr(RequestResponseInteraction { id, description, ..Default::default() }),
    _ => Msg(Message { id, description, ..Default::default() }),
  }
}
fn text_metadata() -> BTreeMap<String, BTreeMap<String, String>> {
  match choose(4) {
    0 => BTreeMap::new(),
    1 => [("pactRust".to_string(), [("models".to_string(), str_sym())].into())].into(),
    2 => [("a".to_string(), [(str_sym(), "v".to_string())].into())].into(),
    _ => [("pactSpecification".to_string(), [("version".to_string(), "3.0.0".to_string())].into())].into(),
  }
}
fn v4_metadata() -> BTreeMap<String, Value> {
  match choose(5) {
    0 => BTreeMap::new(),
    1 => [("pactRust".to_string(), json!({ "models": str_sym(), "n": 1 }))].into(),
    2 => [("a".to_string(), json!({ str_sym(): { "b": [1] } })), ("n".to_string(), json!("x"))].into(),
    3 => [("pactSpecification".to_string(), json!({ "version": "4.0" }))].into(),
    _ => [(str_sym(), json_doc(0))].into(),
  }
}
/// A pact of one of the three kinds with up to `n` interactions, and what they are.
enum P { V4(V4Pact), Rr(RequestResponsePact), Msg(MessagePact) }
impl P {
  fn view(&self) -> &dyn Pact { match self { P::V4(p) => p, P::Rr(p) => p, P::Msg(p) => p } }
  fn view_mut(&mut self) -> &mut dyn Pact { match self { P::V4(p) => p, P::Rr(p) => p, P::Msg(p) => p } }
  fn kind(&self) -> usize { match self { P::V4(_) => 0, P::Rr(_) => 1, P::Msg(_) => 2 } }
}
fn spec3() -> PactSpecification { pick(&[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3]) }
fn pact(names: bool, n: usize, md: bool, plugins: bool) -> (P, Vec<Orig>) {
  let (consumer, provider) = if names { (Consumer { name: str1() }, Provider { name: str1() }) } else { (Consumer { name: "c".into() }, Provider { name: "p".into() }) };
  let kind = choose(3);
  let l: Vec<Orig> = (0..choose(n + 1)).map(|i| small(match kind { 0 => choose(3), k => k + 2 }, i)).collect();
  let specification_version = if names { spec3() } else { PactSpecification::V3 };
  let p = match kind {
    0 => P::V4(V4Pact { consumer, provider, interactions: l.iter().map(|o| o.v4().unwrap().boxed_v4()).collect(), metadata: if md { v4_metadata() } else { BTreeMap::new() }, plugin_data: (0..if plugins { choose(3) } else { 0 }).map(|i| plugin(i)).collect() }),
    1 => P::Rr(RequestResponsePact { consumer, provider, interactions: l.iter().map(|o| match o { Rr(x) => x.clone(), _ => unreachable!() }).collect(), metadata: if md { text_metadata() } else { BTreeMap::new() }, specification_version }),
    _ => P::Msg(MessagePact { consumer, provider, messages: l.iter().map(|o| match o { Msg(x) => x.clone(), _ => unreachable!() }).collect(), metadata: if md { text_metadata() } else { BTreeMap::new() }, specification_version }),
  };
  (p, l)
}
fn plain(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }
fn same_pact(a: &P, b: &P) -> bool {
  let l = |a: &dyn Pact, b: &dyn Pact| { let (x, y) = (a.interactions(), b.interactions()); x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| x.id() == y.id() && x.description() == y.description() && x.type_of() == y.type_of()) };
  match (a, b) {
    (P::V4(x), P::V4(y)) => x.consumer == y.consumer && x.provider == y.provider && x.metadata == y.metadata && x.plugin_data.len() == y.plugin_data.len() && x.plugin_data.iter().zip(&y.plugin_data).all(|(p, q)| p.name == q.name && p.version == q.version && same_map(&p.configuration, &q.configuration)) && l(x, y),
    (P::Rr(x), P::Rr(y)) => x.consumer == y.consumer && x.provider == y.provider && x.metadata == y.metadata && x.specification_version == y.specification_version && l(x, y),
    (P::Msg(x), P::Msg(y)) => x.consumer == y.consumer && x.provider == y.provider && x.metadata == y.metadata && x.specification_version == y.specification_version && l(x, y),
    _ => false,
  }
}
fn taken_pact(kind: usize, p: &dyn Pact) -> Option<P> { match kind { 0 => p.as_v4_pact().ok().map(P::V4), 1 => p.as_request_response_pact().ok().map(P::Rr), _ => p.as_message_pact().ok().map(P::Msg) } }
fn check_pact(a: &P, p: &dyn Pact) { match taken_pact(a.kind(), p) { Some(b) => check(same_pact(a, &b), "the view of a pact is of another pact"), None => fail("a pact is not converted to its own type") } }

fn pact_view(p: &P, l: &[Orig], i: &dyn Pact) {
  let (c, q, s, m): (_, _, _, BTreeMap<String, BTreeMap<String, String>>) = match p {
    P::V4(x) => (&x.consumer, &x.provider, PactSpecification::V4, x.metadata.iter().filter_map(|(k, v)| v.as_object().map(|o| (k.clone(), o.iter().map(|(k, v)| (k.clone(), plain(v))).collect()))).collect()),
    P::Rr(x) => (&x.consumer, &x.provider, x.specification_version, x.metadata.clone()),
    P::Msg(x) => (&x.consumer, &x.provider, x.specification_version, x.metadata.clone()),
  };
  check(i.consumer().name == c.name && i.provider().name == q.name, "a pact shows other participants");
  check(i.specification_version() == s, "a pact shows another version");
  check(i.metadata() == m, "a pact shows other metadata");
  check(i.is_v4() == (p.kind() == 0), "V4 of a pact");
  check(i.default_file_name() == c.name.clone() + "-" + &q.name + ".json", "the file name is not made of the names of the participants");
  let d = match p { P::V4(x) => x.plugin_data.clone(), _ => vec![] };
  check(i.requires_plugins() == !d.is_empty(), "a pact requires plugins it does not have, or not those it has");
  let e = i.plugin_data();
  check(e.len() == d.len() && e.iter().zip(&d).all(|(a, b)| a.name == b.name && a.version == b.version && same_map(&a.configuration, &b.configuration)), "a pact shows other plugins");
  let v = i.interactions();
  check(v.len() == l.len(), "a pact shows another number of interactions");
  for (o, x) in l.iter().zip(&v) { check(x.type_of() == TYPES[o.kind()] && x.id() == o.view().id() && x.description() == o.view().description(), "a pact shows other interactions or another order"); }
  check(i.as_v4_pact().is_ok(), "a pact has no V4 form");
  check(i.as_request_response_pact().is_ok() == (p.kind() != 2) && i.as_message_pact().is_ok() == (p.kind() != 1), "conversion of a pact");
  check_pact(p, i);
}
#[no_mangle] pub extern "C" fn quick_c32_pact_views() {
  warm();
  let part = choose(3);
  let (p, l) = pact(part == 0, if part == 0 { 2 } else { 0 }, part == 1, part == 2);
  reach("pact views");
  let i = p.view();
  pact_view(&p, &l, i);
  match choose(4) { 0 => check_pact(&p, &*i.boxed()), 1 => check_pact(&p, &*i.arced()), 2 => { let m = i.thread_safe(); let g = m.lock().unwrap(); check_pact(&p, &*g) } _ => { let b: Box<dyn Pact> = i.boxed(); let c = b.clone(); check(b.eq(&c), "a clone of a pact is not equal to it"); check_pact(&p, &*c) } }
}
/// The interactions of a V4 pact by type and by id.
#[no_mangle] pub extern "C" fn quick_c32_find() {
  warm();
  let l: Vec<Orig> = (0..choose(4)).map(|i| small(choose(3), i)).collect();
  let p = V4Pact { interactions: l.iter().map(|o| o.v4().unwrap().boxed_v4()).collect(), ..Default::default() };
  reach("find");
  let mut kinds = 0;
  for (k, t) in [V4InteractionType::Synchronous_HTTP, V4InteractionType::Asynchronous_Messages, V4InteractionType::Synchronous_Messages].into_iter().enumerate() {
    let want: Vec<&Orig> = l.iter().filter(|o| o.kind() == k).collect();
    if !want.is_empty() { kinds += 1; }
    check(p.has_interactions(t.clone()) == !want.is_empty(), "a pact has interactions of a type it has not, or not of one it has");
    let got = p.filter_interactions(t);
    check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.description() == b.view().description() && a.type_of() == TYPES[k]), "the interactions of a type are other ones");
  }
  check(p.has_mixed_interactions() == (kinds > 1), "mixed interactions");
  let id = str_sym();
  let want = l.iter().position(|o| o.view().id().as_ref() == Some(&id));
  match (p.find_interaction_with_id(&id), want) {
    (None, None) => (),
    (Some(a), Some(w)) => check(std::ptr::addr_eq(&**a as *const _, &*p.interactions[w] as *const _) || a.description() == l[w].view().description(), "another interaction is found by an id"),
    (None, Some(_)) => fail("an interaction is not found by its id"),
    (Some(_), None) => fail("an interaction is found by an id that none has"),
  }
}
/// Additions and changes through the view of a pact.
#[no_mangle] pub extern "C" fn quick_c32_pact_changes() {
  warm();
  let what = choose(4);
  let (mut p, mut l) = pact(false, if what < 2 { 2 } else { 0 }, what == 3, what == 2);
  let (mut want, kind) = (match &p { P::V4(x) => P::V4(x.clone()), P::Rr(x) => P::Rr(x.clone()), P::Msg(x) => P::Msg(x.clone()) }, p.kind());
  reach("pact changes");
  match what {
    0 => {
      let o = small(choose(5), 5);
      let k = o.kind();
      let ok = match kind { 0 => true, 1 => k == 0 || k == 3, _ => k == 1 || k == 4 };
      check(p.view_mut().add_interaction(o.view()).is_ok() == ok, "an interaction of another type is added, or one of the type is not");
      let after = p.view().interactions();
      check(after.len() == l.len() + ok as usize, "the number of interactions after one is added");
      for (a, b) in after.iter().zip(&l) { check(a.id() == b.view().id() && a.description() == b.view().description(), "adding an interaction changes another one"); }
      if ok { let a = after.last().unwrap(); check(a.description() == o.view().description() && a.id() == o.view().id(), "another interaction is added"); }
      return;
    }
    1 => {
      let n = l.len();
      let t = str_sym();
      let mut v = p.view_mut().interactions_mut();
      check(v.len() == n, "another number of mutable interactions");
      if n > 0 { let k = choose(n); v[k].set_description(&t); each!(&mut l[k], x, x.description = t); }
      match &mut want {
        P::V4(x) => x.interactions = l.iter().map(|o| o.v4().unwrap().boxed_v4()).collect(),
        P::Rr(x) => x.interactions = l.iter().map(|o| match o { Rr(x) => x.clone(), _ => unreachable!() }).collect(),
        P::Msg(x) => x.messages = l.iter().map(|o| match o { Msg(x) => x.clone(), _ => unreachable!() }).collect(),
      }
    }
    2 => {
      let (n, v) = (str1(), str_sym());
      let c: Option<HashMap<String, Value>> = match choose(3) { 0 => None, 1 => Some(HashMap::new()), _ => Some([("a".to_string(), json!("x"))].into()) };
      check(p.view_mut().add_plugin(&n, &v, c.clone()).is_ok() == (kind == 0), "a plugin is added to a V3 pact, or not to a V4 one");
      if let P::V4(x) = &mut want {
        let c = c.unwrap_or_default();
        match x.plugin_data.iter().position(|d| d.name == n && d.version == v) {
          Some(i) => for (k, w) in c { x.plugin_data[i].configuration.insert(k, w); }
          None => x.plugin_data.push(pact_models::plugins::PluginData { name: n, version: v, configuration: c }),
        }
      }
    }
    _ => {
      let (k, v) = (str1(), str1());
      p.view_mut().add_md_version(&k, &v);
      match &mut want {
        P::V4(x) => match x.metadata.entry("pactRust".into()).or_insert(json!({})) { Value::Object(m) => { m.insert(k, json!(v)); } _ => return },
        P::Rr(x) => { x.metadata.entry("pactRust".into()).or_default().insert(k, v); }
        P::Msg(x) => { x.metadata.entry("pactRust".into()).or_default().insert(k, v); }
      }
    }
  }
  check_pact(&want, p.view());
  if what == 1 { pact_view(&want, &l, p.view()); }
}
/// A V4 pact as a V3 one is a V3 pact.
#[no_mangle] pub extern "C" fn quick_c32_v3_forms() {
  warm();
  let p = V4Pact { consumer: Consumer { name: str1() }, provider: Provider { name: str1() }, metadata: v4_metadata(), ..Default::default() };
  reach("v3 forms");
  let (a, b) = (p.as_request_response_pact(), p.as_message_pact());
  match (a, b) {
    (Ok(a), Ok(b)) => {
      check(a.specification_version() == PactSpecification::V3 && b.specification_version() == PactSpecification::V3, "the V3 form of a pact has another version");
      if p.metadata.contains_key("pactSpecification") { check(a.spec_version() == PactSpecification::V3 && b.spec_version() == PactSpecification::V3, "the metadata of the V3 form of a pact says another version"); }
      let md = |x: BTreeMap<String, BTreeMap<String, String>>| x.into_iter().filter(|(k, _)| k != "pactSpecification").collect::<Vec<_>>();
      check(md(a.metadata()) == md(p.metadata()) && md(b.metadata()) == md(p.metadata()), "the V3 form of a pact has other metadata");
      check(a.consumer == p.consumer && a.provider == p.provider && b.consumer == p.consumer && b.provider == p.provider, "the V3 form of a pact has other participants");
    }
    _ => fail("a V4 pact has no V3 form"),
  }
}
