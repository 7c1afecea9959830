//! Collections of rules and generators, and rules and generators by name and values.
use crate::models::*;
use crate::vp::*;
use pact_models::generators::*;
use pact_models::http_parts::HttpPart;
use pact_models::matchingrules::*;
use pact_models::message::Message;
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use serde_json::Value;
use std::collections::{HashMap, HashSet};

const CATS: [Category; 8] = [Category::METHOD, Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::STATUS, Category::CONTENTS, Category::METADATA];
const NAMES: [&str; 8] = ["method", "path", "header", "query", "body", "status", "contents", "metadata"];
fn warm() { let _ = DocPath::root().join("a"); let _ = DocPath::new("$.a"); let _ = DocPath::new("$['a b']"); }
fn object(m: HashMap<&'static str, Value>) -> Value { Value::Object(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }

// -------- by name and values
#[no_mangle] pub extern "C" fn quick_c33_rule_by_name() {
  warm();
  let r = any_rule();
  let (n, v) = (r.name(), object(r.values()));
  let s = MatchingRule::create(&n, &v);
  reach("created");
  match s { Ok(s) => check(same_rule(&r, &s), "the rule created from the name and values of a rule is another one"), Err(_) => fail("no rule is created from the name and values of a rule") }
}
#[no_mangle] pub extern "C" fn quick_c33_generator_by_name() {
  warm();
  let g = generator_of(choose(ALL_GENERATORS));
  let h = Generator::create(&g.name(), &object(g.values()));
  reach("created");
  match h { Ok(h) => check(same_generator(&g, &h), "the generator created from the name and values of a generator is another one"), Err(_) => fail("no generator is created from the name and values of a generator") }
}
/// What a rule is.
fn length_rule(r: &MatchingRule) -> bool { matches!(r, MatchingRule::MinType(_) | MatchingRule::MaxType(_) | MatchingRule::MinMaxType(_, _)) }
fn type_rule(r: &MatchingRule) -> bool { length_rule(r) || matches!(r, MatchingRule::Type) }
fn values_rule(r: &MatchingRule) -> bool { matches!(r, MatchingRule::Values | MatchingRule::EachValue(_)) }
#[no_mangle] pub extern "C" fn quick_c33_kinds() {
  warm();
  let r = any_rule();
  reach("kinds");
  check(r.is_type_matcher() == type_rule(&r), "type matcher");
  check(r.is_length_type_matcher() == length_rule(&r), "type matcher with a length");
  check(r.is_values_matcher() == values_rule(&r), "values matcher");
  check(r.can_cascade() == !(values_rule(&r) || matches!(r, MatchingRule::EachKey(_))), "rules that apply to children");
  let s = r.for_single_item();
  if length_rule(&r) { check(matches!(s, MatchingRule::Type), "a rule for the length of a collection is not one for the type for a single item"); } else { check(same_rule(&r, &s), "a rule is another one for a single item"); }
  let has = matches!(&r, MatchingRule::ArrayContains(v) if v.iter().any(|(_, _, g)| !g.is_empty()));
  check(r.has_generators() == has, "generators of a rule");
  if has { let g = r.generators(); check(g.len() == 1 && match (&g[0], &r) { (Generator::ArrayContains(_), MatchingRule::ArrayContains(_)) => same_rule(&r, &match &g[0] { Generator::ArrayContains(x) => MatchingRule::ArrayContains(x.clone()), _ => unreachable!() }), _ => false }, "the generators of a rule are other ones"); }
}
#[no_mangle] pub extern "C" fn quick_c33_modes() {
  let g = generator_of(choose(ALL_GENERATORS));
  let mode = if flag() { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer };
  let want = match &g { Generator::ProviderStateGenerator(_, _) => mode == GeneratorTestMode::Provider, Generator::MockServerURL(_, _) => mode == GeneratorTestMode::Consumer, _ => true };
  reach("modes");
  check(g.corresponds_to_mode(&mode) == want, "the mode of a generator");
  let other = flag();
  let mut m: HashMap<DocPath, Generator> = [(DocPath::root().join("a"), g.clone())].into();
  if other { m.insert(DocPath::root().join("b"), Generator::RandomBoolean); }
  let mut seen = 0;
  apply_generators(&mode, &m, &mut |p, h| {
    seen += 1;
    if *p == DocPath::root().join("a") { check(want && same_generator(&g, h), "a generator of another mode is applied, or another one"); } else { check(other && matches!(h, Generator::RandomBoolean), "another generator is applied"); }
  });
  check(seen == want as usize + other as usize, "generators of the mode are not applied");
}

// -------- lists
fn item(i: usize) -> MatchingRule { match choose(4) { 0 => MatchingRule::Regex(text(1, b"ab")), 1 => MatchingRule::MinType(byte() as usize % 2), 2 => MatchingRule::Values, _ => if i == 0 { MatchingRule::Type } else { MatchingRule::Integer } } }
fn list(n: usize) -> RuleList { RuleList { rules: (0..choose(n + 1)).map(item).collect(), rule_logic: logic(), cascaded: flag() } }
fn exact(a: &RuleList, rules: &[MatchingRule], of: &RuleList) -> bool { a.rules.len() == rules.len() && a.rules.iter().zip(rules).all(|(x, y)| same_rule(x, y)) && a.rule_logic == of.rule_logic && a.cascaded == of.cascaded }
#[no_mangle] pub extern "C" fn quick_c33_lists() {
  let (a, b) = (list(2), list(2));
  let both: Vec<MatchingRule> = a.rules.iter().chain(&b.rules).cloned().collect();
  reach("lists");
  let c = a.and_rules(&b);
  check(exact(&c, &both, &a), "the rules of two lists together");
  let mut d = a.clone();
  d.add_rules(&b);
  check(exact(&d, &both, &a), "rules added to a list");
  let mut e = a.clone();
  for r in &b.rules { e.add_rule(r); }
  check(exact(&e, &both, &a), "single rules added to a list");
  let mut once: Vec<MatchingRule> = vec![];
  for r in &both { if !once.iter().any(|o| same_rule(o, r)) { once.push(r.clone()); } }
  check(exact(&c.remove_duplicates(), &once, &a), "a list without duplicates");
  let only: Vec<MatchingRule> = both.iter().filter(|r| type_rule(r)).cloned().collect();
  check(exact(&c.filter(|r| r.is_type_matcher()), &only, &a), "a filtered list");
  check(c.is_empty() == both.is_empty(), "an empty list");
  check(c.type_matcher_defined() == !only.is_empty() && c.has_non_type_matchers() == (only.len() < both.len()), "type matchers of a list");
  check(c.values_matcher_defined() == both.iter().any(values_rule), "values matchers of a list");
  let f = flag();
  let g = c.as_cascaded(f);
  check(exact(&g, &both, &RuleList { cascaded: f, ..a.clone() }), "a list from a parent");
}
#[no_mangle] pub extern "C" fn quick_c33_new_lists() {
  let l = logic();
  let r = few_rule();
  reach("new");
  let none = RuleList { rules: vec![], rule_logic: l, cascaded: false };
  check(exact(&RuleList::empty(l), &[], &none), "an empty list");
  let and = RuleList { rule_logic: RuleLogic::And, ..none };
  check(exact(&RuleList::new(r.clone()), &[r], &and) && exact(&RuleList::equality(), &[MatchingRule::Equality], &and) && exact(&RuleList::default(), &[], &and), "a new list");
}

// -------- categories
fn place(i: usize) -> DocPath { match i { 0 => DocPath::empty(), 1 => DocPath::root(), _ => DocPath::root().join(text(1, b"ab")) } }
/// Rules in order of addition.
fn added(n: usize) -> Vec<(DocPath, MatchingRule, RuleLogic)> { (0..n).map(|i| (place(choose(3)), match i { 0 => MatchingRule::Regex(text(1, b"ab")), 1 => if flag() { MatchingRule::MaxType(3) } else { each_key() }, _ => MatchingRule::Values }, logic())).collect() }
fn each_key() -> MatchingRule { MatchingRule::EachKey(expressions::MatchingRuleDefinition { value: "v".into(), value_type: expressions::ValueType::Unknown, rules: vec![], generator: None, expression: String::new() }) }
fn filled(c: &Category, l: &[(DocPath, MatchingRule, RuleLogic)]) -> MatchingRuleCategory { let mut m = MatchingRuleCategory::empty(c.clone()); for (p, r, g) in l { m.add_rule(p.clone(), r.clone(), *g); } m }
/// The rules for each path in order, with the logic of the first.
fn expected(l: &[(DocPath, MatchingRule, RuleLogic)]) -> Vec<(DocPath, Vec<MatchingRule>, RuleLogic)> {
  let mut v: Vec<(DocPath, Vec<MatchingRule>, RuleLogic)> = vec![];
  for (p, r, g) in l { match v.iter_mut().find(|x| x.0.tokens() == p.tokens()) { Some(x) => x.1.push(r.clone()), None => v.push((p.clone(), vec![r.clone()], *g)) } }
  v
}
fn holds(c: &MatchingRuleCategory, name: &Category, want: &[(DocPath, Vec<MatchingRule>, RuleLogic)]) -> bool {
  c.name == *name && c.rules.len() == want.len() && want.iter().all(|(p, r, l)| match lookup(&c.rules, p) { Some(x) => x.rule_logic == *l && x.rules.len() == r.len() && x.rules.iter().zip(r).all(|(a, b)| same_rule(a, b)), None => false })
}
#[no_mangle] pub extern "C" fn quick_c33_category() {
  warm();
  let name = pick(&[Category::BODY, Category::HEADER, Category::PATH]);
  let n = choose(3);
  let l = added(n);
  let c = filled(&name, &l);
  let want = expected(&l);
  reach("category");
  check(holds(&c, &name, &want), "a category does not have the rules that were added to it");
  check(c.is_empty() == (n == 0) && c.is_not_empty() == (n > 0), "an empty category");
  check(c.type_matcher_defined() == l.iter().any(|x| type_rule(&x.1)) && c.values_matcher_defined() == l.iter().any(|x| values_rule(&x.1)), "kinds of the rules of a category");
  match choose(3) {
    0 => { let i = choose(8); check(holds(&c.rename(CATS[i].clone()), &CATS[i], &want), "a renamed category has other rules"); check(holds(&c.rename(NAMES[i]), &CATS[i], &want), "a category renamed by text has other rules"); }
    1 => { let p = place(2); let q = p.clone(); let f = c.filter(|(x, _)| **x == q); check(holds(&f, &name, &want.into_iter().filter(|x| x.0.tokens() == p.tokens()).collect::<Vec<_>>()), "a filtered category has other rules"); }
    _ => {
      let m = added(2);
      let mut d = c.clone();
      d.add_rules(filled(&name, &m));
      check(holds(&d, &name, &expected(&l.iter().chain(&m).cloned().collect::<Vec<_>>())), "rules of another category are not added to those there");
    }
  }
}
/// A category by its name.
#[no_mangle] pub extern "C" fn quick_c33_names() {
  let i = choose(8);
  reach("names");
  let s: &str = CATS[i].clone().into();
  let t: String = CATS[i].clone().into();
  check(s == NAMES[i] && t == NAMES[i] && CATS[i].to_string() == NAMES[i], "the name of a category");
  check(Category::from(NAMES[i]) == CATS[i] && Category::from(NAMES[i].to_string()) == CATS[i] && NAMES[i].parse::<Category>() == Ok(CATS[i].clone()), "a category by its name");
  let u: String = NAMES[i].bytes().map(|c| if flag() { c.to_ascii_uppercase() } else { c } as char).collect();
  check(u.parse::<Category>() == Ok(CATS[i].clone()), "a category by its name in other letters");
  let gen = [Some(GeneratorCategory::METHOD), Some(GeneratorCategory::PATH), Some(GeneratorCategory::HEADER), Some(GeneratorCategory::QUERY), Some(GeneratorCategory::BODY), Some(GeneratorCategory::STATUS), None, Some(GeneratorCategory::METADATA)][i].clone();
  match gen {
    Some(g) => { let s: &str = g.clone().into(); let t: String = g.clone().into(); let c: Category = g.clone().into(); check(s == NAMES[i] && t == NAMES[i] && c == CATS[i] && u.parse::<GeneratorCategory>() == Ok(g), "the name of a category of generators"); }
    None => check(u.parse::<GeneratorCategory>().is_err(), "a category of generators that does not exist"),
  }
}
#[no_mangle] pub extern "C" fn quick_c33_other_names() {
  let t = match choose(3) { 0 => ascii_upto(0, 2), 1 => "bod".to_string() + &ascii(1), _ => ascii(1) + "ath" };
  reach("names");
  let low: String = t.bytes().map(|c| c.to_ascii_lowercase() as char).collect();
  let k = NAMES.iter().position(|n| *n == low);
  check(t.parse::<Category>().ok() == k.map(|k| CATS[k].clone()), "a text is another category");
  check(Category::from(t.as_str()) == k.map(|k| CATS[k].clone()).unwrap_or(Category::BODY), "a text that is no category is not the default one");
}

// -------- all categories
#[no_mangle] pub extern "C" fn quick_c33_rules() {
  warm();
  let cats = [Category::BODY, Category::HEADER, Category::PATH];
  let mut m = MatchingRules::default();
  let mut want: Vec<(Category, Vec<(DocPath, MatchingRule, RuleLogic)>)> = vec![];
  for i in 0..choose(3) {
    let c = pick(&cats);
    let l = added(if i == 0 { choose(3) } else { 1 });
    let d = m.add_category(c.clone());
    for (p, r, g) in &l { d.add_rule(p.clone(), r.clone(), *g); }
    match want.iter_mut().find(|x| x.0 == c) { Some(x) => x.1.extend(l), None => want.push((c, l)) }
  }
  let same = |m: &MatchingRules, want: &[(Category, Vec<(DocPath, MatchingRule, RuleLogic)>)]| m.rules.len() == want.len() && want.iter().all(|(c, l)| match m.rules.get(c) { Some(d) => holds(d, c, &expected(l)), None => false });
  reach("rules");
  check(same(&m, &want), "a category does not have the rules that were added to it");
  check(m.categories() == want.iter().map(|x| x.0.clone()).collect::<HashSet<_>>(), "the categories of the rules are other ones");
  let any = want.iter().any(|x| !x.1.is_empty());
  check(m.is_empty() == !any && m.is_not_empty() == any, "empty rules");
  let c = pick(&cats);
  let there = want.iter().position(|x| x.0 == c);
  check(match (m.rules_for_category(c.clone()), there) { (None, None) => true, (Some(r), Some(i)) => holds(&r, &c, &expected(&want[i].1)), _ => false }, "the rules of a category are other ones");
  match choose(3) {
    0 => {
      let to = pick(&cats);
      let r = m.rename(c.clone(), to.clone());
      if c != to {
        if let Some(i) = there { let (_, l) = want.remove(i); match want.iter_mut().find(|x| x.0 == to) { Some(x) => x.1.extend(l), None => want.push((to, l)) } }
      }
      check(same(&r, &want), "renaming a category does not keep the rules");
    }
    1 => {
      let l = added(1);
      m.add_rules(c.clone(), filled(&c, &l));
      match there { Some(i) => want[i].1.extend(l), None => want.push((c, l)) }
      check(same(&m, &want), "adding the rules of a category does not keep those there");
    }
    _ => {
      let l = added(1);
      let mut n = MatchingRules::default();
      n.add_rules(c.clone(), filled(&c, &l));
      n.add_rules("status", filled(&Category::STATUS, &l));
      m.merge(&n);
      match there { Some(i) => want[i].1.extend(l.clone()), None => want.push((c, l.clone())) }
      want.push((Category::STATUS, l));
      check(same(&m, &want), "merging rules does not keep the rules of both");
    }
  }
}
// -------- generators
#[no_mangle] pub extern "C" fn quick_c33_generators() {
  warm();
  const G: [GeneratorCategory; 3] = [GeneratorCategory::BODY, GeneratorCategory::PATH, GeneratorCategory::HEADER];
  let mut g = Generators::default();
  let mut want: Vec<(GeneratorCategory, DocPath, Generator)> = vec![];
  let mut put = |w: &mut Vec<(GeneratorCategory, DocPath, Generator)>, c: &GeneratorCategory, p: DocPath, x: Generator| { match w.iter_mut().find(|y| y.0 == *c && y.1.tokens() == p.tokens()) { Some(y) => y.2 = x, None => w.push((c.clone(), p, x)) } };
  for i in 0..choose(4) {
    let c = pick(&G);
    let x = if i == 0 { few_generator() } else { Generator::RandomString(i as u16) };
    if flag() { g.add_generator(&c, x.clone()); put(&mut want, &c, DocPath::empty(), x); } else { let p = place(choose(3)); g.add_generator_with_subcategory(&c, p.clone(), x.clone()); put(&mut want, &c, p, x); }
  }
  reach("generators");
  let same = |g: &Generators, want: &[(GeneratorCategory, DocPath, Generator)]| g.categories.values().map(|m| m.len()).sum::<usize>() == want.len() && want.iter().all(|(c, p, x)| matches!(g.categories.get(c).and_then(|m| lookup(m, p)), Some(y) if same_generator(x, y)));
  check(same(&g, &want), "a generator that was added is not there");
  check(g.is_empty() == want.is_empty() && g.is_not_empty() == !want.is_empty(), "empty generators");
  let mut h = Generators::default();
  let c = pick(&G);
  h.add_generator(&c, Generator::RandomBoolean);
  h.add_generator(&GeneratorCategory::STATUS, Generator::RandomBoolean);
  g.add_generators(h);
  put(&mut want, &c, DocPath::empty(), Generator::RandomBoolean);
  put(&mut want, &GeneratorCategory::STATUS, DocPath::empty(), Generator::RandomBoolean);
  check(same(&g, &want), "adding generators does not keep those there");
}
/// The generators of a part are its own and those its rules bring.
#[no_mangle] pub extern "C" fn quick_c33_part_generators() {
  warm();
  let cat = pick(&[GeneratorCategory::BODY, GeneratorCategory::HEADER, GeneratorCategory::PATH]);
  let rc: Category = cat.clone().into();
  let (mut rules, mut gens) = (MatchingRules::default(), Generators::default());
  let mut want: Vec<(DocPath, Generator)> = vec![];
  if flag() { let (p, x) = (place(choose(3)), few_generator()); gens.add_generator_with_subcategory(&cat, p.clone(), x.clone()); want.push((p, x)); }
  if flag() { gens.add_generator(&GeneratorCategory::STATUS, Generator::RandomBoolean); }
  let withg = flag();
  let v = vec![(0, MatchingRuleCategory::empty("body"), if withg { [(DocPath::root(), Generator::Uuid(None))].into() } else { HashMap::new() })];
  let p = place(choose(3));
  if flag() { rules.add_category(rc.clone()).add_rule(p.clone(), MatchingRule::Type, RuleLogic::And); }
  rules.add_category(rc.clone()).add_rule(p.clone(), MatchingRule::ArrayContains(v.clone()), RuleLogic::And);
  if withg { let x = Generator::ArrayContains(v); match want.iter_mut().find(|w| w.0.tokens() == p.tokens()) { Some(w) => w.1 = x, None => want.push((p, x)) } }
  rules.add_category("query").add_rule(DocPath::root(), MatchingRule::ArrayContains(vec![(1, MatchingRuleCategory::empty("body"), [(DocPath::root(), Generator::RandomBoolean)].into())]), RuleLogic::And);
  let got = match choose(3) {
    0 => HttpRequest { matching_rules: rules, generators: gens, ..HttpRequest::default() }.build_generators(&cat),
    1 => HttpResponse { matching_rules: rules, generators: gens, ..HttpResponse::default() }.build_generators(&cat),
    _ => Message { matching_rules: rules, generators: gens, ..Message::default() }.build_generators(&cat),
  };
  reach("part");
  check(got.len() == want.len() && want.iter().all(|(p, x)| matches!(lookup(&got, p), Some(y) if same_generator(x, y))), "the generators of a part are other ones than its own and those of its rules");
}
