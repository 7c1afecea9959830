//! The matcher selected for a location.
use crate::vp::*;
use pact_models::matchingrules::*;
use pact_models::path_exp::*;

/// The weight of one segment: 2 for an exact one, 1 for a wildcard, 0 if it does not apply.
fn seg(t: &PathToken, f: &str) -> usize {
  let num = |f: &str| -> Option<usize> { if !f.is_empty() && f.len() < 6 && f.bytes().all(|c| c.is_ascii_digit()) { Some(f.bytes().fold(0, |a, c| a * 10 + (c - b'0') as usize)) } else { None } };
  match t {
    PathToken::Root => if f == "$" { 2 } else { 0 },
    PathToken::Field(n) => if n == f { 2 } else { 0 },
    PathToken::Index(i) => if num(f) == Some(*i) { 2 } else { 0 },
    PathToken::Star => 1,
    PathToken::StarIndex => if f == "[*]" || num(f).is_some() { 1 } else { 0 },
  }
}
/// Product of the segment weights; 0 if the path is longer than the location.
fn weight(p: &DocPath, loc: &[&str]) -> usize {
  let t = p.tokens();
  if t.len() > loc.len() { return 0; }
  t.iter().zip(loc.iter()).map(|(t, f)| seg(t, f)).product()
}

fn index() -> usize { (byte_in(b"0123456789") - b'0') as usize }
fn path(lo: usize, hi: usize) -> DocPath {
  let mut p = DocPath::root();
  for _ in 0..lo + choose(hi - lo + 1) {
    match choose(4) {
      0 => p.push_field(text(1, b"ab1*")),
      1 => p.push_index(index()),
      2 => p.push_star(),
      _ => p.push_star_index(),
    };
  }
  p
}
fn small_path(hi: usize) -> DocPath {
  let mut p = DocPath::root();
  for _ in 0..choose(hi + 1) {
    match choose(3) { 0 => p.push_field(text(1, b"ab")), 1 => p.push_index(1), _ => p.push_star() };
  }
  p
}
/// Segments of one character, any ASCII one, or the wildcard index.
fn location(lo: usize, hi: usize, set: &[u8]) -> Vec<String> {
  let mut l = vec!["$".to_string()];
  for _ in 0..lo + choose(hi - lo + 1) { l.push(if set.len() > 8 && flag() { "[*]".into() } else { text(1, set) }); }
  l
}
fn refs(l: &[String]) -> Vec<&str> { l.iter().map(|s| s.as_str()).collect() }
fn any() -> Vec<u8> { (0..128).collect() }

fn weigh(p: DocPath, l: Vec<String>) {
  let l = refs(&l);
  reach("weighed");
  let w = weight(&p, &l);
  check(p.path_weight(&l) == (w, p.len()), "the weight of a path for a location");
  check(p.matches_path(&l) == (w > 0), "a path applies exactly when each of its segments matches");
  check(p.matches_path_exactly(&l) == (w > 0 && p.len() == l.len()), "an exact match is a match of the same length");
}
#[no_mangle] pub extern "C" fn quick_c07_weight() { weigh(path(0, 2), location(0, 3, &any())) }
#[no_mangle] pub extern "C" fn quick_c07_weight_parsed() { weigh(DocPath::new(path(0, 2).to_string()).unwrap(), location(1, 2, b"ab12*$[")) }
#[no_mangle] pub extern "C" fn deep_c07_weight() { weigh(path(0, 3), location(0, 4, &any())) }
/// Any text as a segment of the path or of the location.
#[no_mangle] pub extern "C" fn quick_c07_segment_text() {
  let f = ascii_upto(0, 3);
  let n = text(1 + choose(2), b"aA1*[]$ ");
  let loc = ["$", f.as_str()];
  let mut p = DocPath::root();
  match choose(4) { 0 => p.push_field(n.clone()), 1 => p.push_index(10), 2 => p.push_star(), _ => p.push_star_index() };
  reach("weighed");
  if f.len() < 6 && !f.starts_with('+') {
    let w = weight(&p, &loc);
    check(p.path_weight(&loc) == (w, 2), "the weight of a path for a location with any text as segment");
  } else { let _ = p.path_weight(&loc); }
}

fn rule(i: usize) -> MatchingRule { match i { 0 => MatchingRule::Regex("0".into()), 1 => MatchingRule::Include("1".into()), _ => MatchingRule::MinType(2) } }
const CATS: [Category; 5] = [Category::BODY, Category::METADATA, Category::HEADER, Category::QUERY, Category::CONTENTS];

fn best(paths: Vec<DocPath>, l: Vec<String>, cat: Category) {
  let l = refs(&l);
  for i in 0..paths.len() { for j in 0..i { assume(paths[i] != paths[j]); } }
  let mut order: Vec<usize> = (0..paths.len()).collect();
  let build = |order: &[usize]| {
    let mut c = MatchingRuleCategory::empty(cat.clone());
    for i in order { c.add_rule(paths[*i].clone(), rule(*i), RuleLogic::And); }
    c
  };
  let c = build(&order);
  let score: Vec<usize> = paths.iter().map(|p| weight(p, &l) * p.len()).collect();
  let top = *score.iter().max().unwrap();
  let got = c.select_best_matcher(&l);
  reach("selected");
  if top == 0 { check(got.is_empty(), "no applicable rule, but one is selected"); }
  else {
    let ok = (0..paths.len()).any(|i| score[i] == top && got.rules == vec![rule(i)]);
    check(ok, "the selected rule is not an applicable one with the greatest weight");
    if cat == Category::BODY {
      let i = (0..paths.len()).find(|i| got.rules == vec![rule(*i)]).unwrap_or(0);
      check(got.cascaded == (paths[i].len() != l.len()), "a rule is cascaded exactly when it is for an ancestor of the location");
    }
  }
  // every other insertion order selects the same
  let n = order.len();
  if n == 2 { order.swap(0, 1); } else if n == 3 { match choose(3) { 0 => order.swap(0, 1), 1 => order.swap(1, 2), _ => { order.swap(0, 2); } } }
  let d = build(&order);
  check(d.select_best_matcher(&l).rules == got.rules, "the selected rule depends on the order in which rules were added");
  // the other views agree
  let hits = score.iter().filter(|s| **s > 0).count();
  let r = c.resolve_matchers_for_path(&l);
  check(r.rules.len() == hits && paths.iter().zip(&score).all(|(p, s)| r.rules.contains_key(p) == (*s > 0)), "resolve_matchers_for_path keeps exactly the applicable rules");
  check(c.matcher_is_defined(&l) == (hits > 0), "matcher_is_defined");
  let mut rules = MatchingRules::default();
  rules.add_rules(cat.clone(), c.clone());
  check(rules.matcher_is_defined(cat.clone(), &l) == (hits > 0), "MatchingRules::matcher_is_defined");
  if cat == Category::BODY {
    check(rules.resolve_body_matchers_by_path(&l) == got, "resolve_body_matchers_by_path and select_best_matcher differ");
    let wild = paths.iter().zip(&score).any(|(p, s)| *s > 0 && p.len() == l.len() && p.tokens().last() == Some(&PathToken::Star));
    check(rules.wildcard_matcher_is_defined(cat.clone(), &l) == wild, "wildcard_matcher_is_defined");
    let typ = score.len() == 3 && score[2] > 0;
    check(rules.type_matcher_defined(cat, &l) == typ, "type_matcher_defined");
  }
}
#[no_mangle] pub extern "C" fn quick_c07_best_of_two() { let c = pick(&CATS); let l = location(1, 2, b"ab1"); best(vec![path(0, 2), path(1, 2)], l, c) }
#[no_mangle] pub extern "C" fn quick_c07_best_of_three() { let l = location(2, 2, b"ab1"); best(vec![small_path(2), small_path(2), small_path(2)], l, pick(&[Category::BODY, Category::QUERY])) }
#[no_mangle] pub extern "C" fn deep_c07_best_of_two() { let c = pick(&CATS); let l = location(1, 3, b"ab1*"); best(vec![path(0, 3), path(1, 3)], l, c) }
#[no_mangle] pub extern "C" fn deep_c07_best_of_three() { let c = pick(&CATS); let l = location(2, 3, b"ab1"); best(vec![path(0, 2), small_path(2), small_path(3)], l, c) }

/// Rules for one path accumulate in order; the logic is that of the first.
#[no_mangle] pub extern "C" fn quick_c07_accumulate() {
  let (p, q) = (small_path(2), small_path(2));
  let (a, b) = (pick(&[RuleLogic::And, RuleLogic::Or]), pick(&[RuleLogic::And, RuleLogic::Or]));
  let mut c = MatchingRuleCategory::empty(Category::BODY);
  c.add_rule(p.clone(), rule(0), a);
  c.add_rule(q.clone(), rule(1), b);
  reach("added");
  if p == q { check(c.rules.len() == 1 && c.rules[&p].rules == vec![rule(0), rule(1)] && c.rules[&p].rule_logic == a, "two rules for one path"); }
  else { check(c.rules.len() == 2 && c.rules[&p].rules == vec![rule(0)] && c.rules[&q].rules == vec![rule(1)] && c.rules[&q].rule_logic == b, "rules for two paths"); }
  let mut m = MatchingRules::default();
  m.add_rules("body", c.clone());
  let mut n = MatchingRules::default();
  let mut d = MatchingRuleCategory::empty(Category::BODY);
  d.add_rule(q.clone(), rule(2), RuleLogic::And);
  n.add_rules("body", d);
  n.add_category("path").add_rule(DocPath::empty(), rule(0), RuleLogic::Or);
  m.merge(&n);
  check(m.rules.len() == 2 && m.rules_for_category("path") == n.rules_for_category("path"), "merge keeps the categories of both");
  let e = m.rules_for_category("body").unwrap();
  let mut want: Vec<MatchingRule> = c.rules[&q].rules.clone();
  want.push(rule(2));
  check(e.rules[&q].rules == want, "merge appends the rules of the other");
  check(p == q || e.rules[&p].rules == vec![rule(0)], "merge leaves other paths alone");
}
