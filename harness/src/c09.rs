//! Generators in JSON.
use crate::models::*;
use crate::vp::*;
use pact_models::expression_parser::DataType;
use pact_models::generators::*;
use pact_models::path_exp::*;
use pact_models::PactSpecification;
use serde_json::{json, Value};

const V34: [PactSpecification; 2] = [PactSpecification::V3, PactSpecification::V4];
const CATS: [GeneratorCategory; 7] = [GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::STATUS, GeneratorCategory::METADATA];

fn check_round(g: &Generators) {
  let v = pick(&V34);
  let j = json!({ "generators": generators_to_json(g, &v) });
  match generators_from_json(&j) {
    Ok(r) => {
      reach("loaded");
      check(same_generators(g, &r), "the loaded generators differ from the written ones");
      check(g == &r, "the loaded generators compare as different from the written ones");
    }
    Err(_) => fail("written generators can not be loaded"),
  }
}
fn path_in(c: &GeneratorCategory, n: usize) -> DocPath {
  match c {
    GeneratorCategory::METHOD | GeneratorCategory::PATH | GeneratorCategory::STATUS => DocPath::empty(),
    GeneratorCategory::HEADER | GeneratorCategory::QUERY => name_path(),
    _ => body_path(n),
  }
}
/// Each kind on its own.
#[no_mangle] pub extern "C" fn quick_c09_generator() {
  let g = generator_of(choose(ALL_GENERATORS));
  let j = match g.to_json() { Some(j) => j, None => { fail("a generator is not written"); unreachable!() } };
  let t = match j.get("type") { Some(Value::String(t)) => t.clone(), _ => { fail("a generator is written without its type"); unreachable!() } };
  check(t == g.name(), "the type written is not the name of the generator");
  reach("written");
  match Generator::create(&t, &j) { Ok(h) => { check(same_generator(&g, &h), "a generator read back differs"); check(g == h, "a generator read back compares as different") } Err(_) => fail("a written generator can not be loaded") }
}
#[no_mangle] pub extern "C" fn quick_c09_paths() {
  let c = pick(&CATS);
  let p = path_in(&c, 2);
  let mut g = Generators::default();
  g.add_generator_with_subcategory(&c, p, generator_of(0));
  check_round(&g);
}
#[no_mangle] pub extern "C" fn quick_c09_in_category() {
  let c = pick(&CATS);
  let p = path_in(&c, 0);
  let mut g = Generators::default();
  let k = choose(ALL_GENERATORS);
  g.add_generator_with_subcategory(&c, p, match k { 5 => Generator::Regex(str_sym()), 6 => Generator::Date(opt(str_sym), None), 7 => Generator::Time(None, opt(str_sym)), 8 => Generator::DateTime(Some(str_sym()), opt(str_sym)), 10 => Generator::ProviderStateGenerator(str_sym(), Some(DataType::BOOLEAN)), 11 => Generator::MockServerURL(str_sym(), str_sym()), k => generator_of(k) });
  check_round(&g);
}
#[no_mangle] pub extern "C" fn quick_c09_names() {
  let n = if flag() { ascii_upto(1, 2) } else { pick(&["type", "min", "a.b", "Q[]", "generators"]).to_string() };
  let mut p = DocPath::root();
  p.push_field(n);
  let mut g = Generators::default();
  g.add_generator_with_subcategory(&pick(&[GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::METADATA]), p, Generator::RandomBoolean);
  check_round(&g);
}
/// Two or three generators in the same or different places.
#[no_mangle] pub extern "C" fn quick_c09_several() {
  let mut g = Generators::default();
  for i in 0..2 + choose(2) {
    let c = pick(&CATS);
    let p = match &c { GeneratorCategory::METHOD | GeneratorCategory::PATH | GeneratorCategory::STATUS => DocPath::empty(), _ => DocPath::root().join(text(1, b"ab")) };
    g.add_generator_with_subcategory(&c, p, match i { 0 => Generator::RandomString(u16v()), 1 => Generator::Regex(str_sym()), _ => Generator::Uuid(None) });
  }
  check_round(&g);
}
#[no_mangle] pub extern "C" fn deep_c09_two() {
  let mut g = Generators::default();
  for i in 0..2 {
    let c = pick(&CATS);
    let p = path_in(&c, 2 - i);
    g.add_generator_with_subcategory(&c, p, if i == 0 { generator_of(choose(ALL_GENERATORS)) } else { few_generator() });
  }
  check_round(&g);
}
/// Adding generators keeps the others, and the later one wins.
#[no_mangle] pub extern "C" fn quick_c09_add() {
  let (a, b) = (text(1, b"ab"), text(1, b"ab"));
  let (c, d) = (pick(&CATS), pick(&CATS));
  let (x, y) = (few_generator(), Generator::RandomDecimal(u16v()));
  let (p, q) = (DocPath::root().join(a.clone()), DocPath::root().join(b.clone()));
  let mut g = Generators::default();
  g.add_generator_with_subcategory(&c, p.clone(), x.clone());
  let mut h = Generators::default();
  h.add_generator_with_subcategory(&d, q.clone(), y.clone());
  g.add_generators(h);
  reach("added");
  let at = |c: &GeneratorCategory, p: &DocPath| g.categories.get(c).and_then(|m| lookup(m, p)).cloned();
  check(matches!(at(&d, &q), Some(z) if same_generator(&z, &y)), "an added generator is not there");
  if c == d && a == b { check(g.categories.len() == 1 && g.categories[&c].len() == 1, "one place, two generators"); }
  else { check(matches!(at(&c, &p), Some(z) if same_generator(&z, &x)), "adding generators changed another"); }
}
/// Attributes that are absent have their defaults; data types are read in any case; unknown kinds are ignored.
#[no_mangle] pub extern "C" fn quick_c09_foreign() {
  let n = u16v();
  let t = str_sym();
  let get = |j: Value| generators_from_json(&json!({ "generators": { "body": { "$.a": j } } })).unwrap().categories.get(&GeneratorCategory::BODY).and_then(|m| m.get(&DocPath::root().join("a"))).cloned();
  let (j, want) = match choose(13) {
    0 => (json!({ "type": "RandomInt" }), Some(Generator::RandomInt(0, 10))),
    1 => (json!({ "type": "RandomInt", "max": n }), Some(Generator::RandomInt(0, n as i32))),
    2 => (json!({ "type": "RandomString" }), Some(Generator::RandomString(10))),
    3 => (json!({ "type": "RandomDecimal" }), Some(Generator::RandomDecimal(10))),
    4 => (json!({ "type": "RandomHexadecimal" }), Some(Generator::RandomHexadecimal(10))),
    5 => (json!({ "type": "ProviderState", "expression": t, "dataType": pick(&["boolean", "Boolean", "BOOLEAN"]) }), Some(Generator::ProviderStateGenerator(t, Some(DataType::BOOLEAN)))),
    6 => (json!({ "type": "ProviderState", "expression": t }), Some(Generator::ProviderStateGenerator(t, None))),
    7 => (json!({ "type": "Date", "format": t }), Some(Generator::Date(Some(t), None))),
    8 => (json!({ "type": "Time", "expression": t }), Some(Generator::Time(None, Some(t)))),
    9 => (json!({ "type": "Unknown" }), None),
    10 => (json!({ "type": n }), None),
    11 => (json!({ "min": n }), None),
    _ => (json!({ "type": "MockServerURL", "example": t, "regex": "r" }), Some(Generator::MockServerURL(t, "r".into()))),
  };
  let got = get(j);
  reach("loaded");
  check(match (&got, &want) { (None, None) => true, (Some(a), Some(b)) => same_generator(a, b), _ => false }, "a generator is not loaded as what it says");
}
