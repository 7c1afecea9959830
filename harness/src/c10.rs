//! Matching rule definitions, against a recogniser of the documented grammar.
use crate::models::*;
use crate::vp::*;
use itertools::Either;
use pact_models::expression_parser::DataType;
use pact_models::generators::Generator;
use pact_models::matchingrules::expressions::*;
use pact_models::matchingrules::MatchingRule;

// ---------------------------------------------------------------- the grammar
struct P<'a> { b: &'a [u8], i: usize, quote: bool, keep: bool }
type R<T> = Option<T>;
#[derive(Clone)]
struct Val { text: String, ty: ValueType, gen: Option<Generator> }
impl<'a> P<'a> {
  fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | 12) { self.i += 1; } }
  fn at(&self) -> u8 { if self.i < self.b.len() { self.b[self.i] } else { 0 } }
  fn tok(&mut self, c: u8) -> R<()> { self.ws(); if self.i < self.b.len() && self.b[self.i] == c { self.i += 1; Some(()) } else { None } }
  fn word(&mut self) -> R<String> {
    self.ws();
    let s = self.i;
    while self.at().is_ascii_alphabetic() { self.i += 1; }
    if s == self.i { None } else { Some(String::from_utf8_lossy(&self.b[s..self.i]).to_string()) }
  }
  fn string(&mut self) -> R<String> {
    self.tok(b'\'')?;
    let mut out: Vec<u8> = vec![];
    loop {
      if self.i >= self.b.len() { return None; }
      let c = self.at();
      self.i += 1;
      if c == b'\'' { break; }
      if c != b'\\' { out.push(c); continue; }
      if self.i >= self.b.len() { return None; }
      let e = self.at();
      self.i += 1;
      match e {
        b'\\' => out.push(b'\\'),
        b'b' => out.push(8), b'f' => out.push(12), b'n' => out.push(10), b'r' => out.push(13), b't' => out.push(9),
        b'u' => {
          let mut v: u32 = 0;
          let mut n = 0;
          if self.at() == b'{' {
            self.i += 1;
            while self.at().is_ascii_hexdigit() { v = v.wrapping_mul(16).wrapping_add(hex(self.at())); n += 1; self.i += 1; }
            if n == 0 || self.at() != b'}' { return None; }
            self.i += 1;
          } else {
            for _ in 0..4 { if !self.at().is_ascii_hexdigit() { return None; } v = v * 16 + hex(self.at()); self.i += 1; }
          }
          let mut b = [0u8; 4];
          out.extend_from_slice(char::from_u32(v).unwrap_or(char::REPLACEMENT_CHARACTER).encode_utf8(&mut b).as_bytes());
        }
        b'\'' => { self.quote = true; if self.keep { out.push(b'\\'); } out.push(b'\''); }
        // escapes the documentation does not name stand for themselves, so that regular expressions can be written as they are
        e => { out.push(b'\\'); out.push(e); }
      }
    }
    Some(String::from_utf8_lossy(&out).to_string())
  }
  /// -?[0-9]+(.[0-9]+)?
  fn number(&mut self) -> R<(String, bool)> {
    self.ws();
    let s = self.i;
    if self.at() == b'-' { self.i += 1; }
    let d = self.i;
    while self.at().is_ascii_digit() { self.i += 1; }
    if d == self.i { return None; }
    let mut dec = false;
    if self.at() == b'.' {
      self.i += 1;
      let f = self.i;
      while self.at().is_ascii_digit() { self.i += 1; }
      if f == self.i { return None; }
      dec = true;
    }
    Some((String::from_utf8_lossy(&self.b[s..self.i]).to_string(), dec))
  }
  fn primitive(&mut self, nested: bool) -> R<Val> {
    self.ws();
    let c = self.at();
    if c == b'\'' { return Some(Val { text: self.string()?, ty: ValueType::String, gen: None }); }
    if c == b'-' || c.is_ascii_digit() { let (t, dec) = self.number()?; return Some(Val { text: t, ty: if dec { ValueType::Decimal } else { ValueType::Integer }, gen: None }); }
    match self.word()?.as_str() {
      "true" => Some(Val { text: "true".into(), ty: ValueType::Boolean, gen: None }),
      "false" => Some(Val { text: "false".into(), ty: ValueType::Boolean, gen: None }),
      "null" => Some(Val { text: "".into(), ty: ValueType::String, gen: None }),
      "fromProviderState" if !nested => self.state(),
      _ => None,
    }
  }
  fn state(&mut self) -> R<Val> {
    self.tok(b'(')?;
    let e = self.string()?;
    self.tok(b',')?;
    let v = self.primitive(true)?;
    self.tok(b')')?;
    let d = match v.ty { ValueType::Unknown => DataType::RAW, ValueType::String => DataType::STRING, ValueType::Number | ValueType::Decimal => DataType::DECIMAL, ValueType::Integer => DataType::INTEGER, ValueType::Boolean => DataType::BOOLEAN };
    Some(Val { gen: Some(Generator::ProviderStateGenerator(e, Some(d))), ..v })
  }
  fn state_follows(&mut self) -> bool { self.ws(); self.at().is_ascii_alphabetic() }
  fn exp(&mut self) -> R<MatchingRuleDefinition> {
    let def = |v: Val, r: Either<MatchingRule, MatchingReference>| MatchingRuleDefinition { value: v.text, value_type: v.ty, rules: vec![r], generator: v.gen, expression: String::new() };
    let none = Val { text: "".into(), ty: ValueType::Unknown, gen: None };
    let w = self.word()?;
    if !matches!(w.as_str(), "matching" | "notEmpty" | "eachKey" | "eachValue" | "atLeast" | "atMost") { return None; }
    self.tok(b'(')?;
    let d = match w.as_str() {
      "matching" => self.matching()?,
      "notEmpty" => { let v = self.primitive(false)?; def(v, Either::Left(MatchingRule::NotEmpty)) }
      "eachKey" => { let d = self.exp()?; def(none, Either::Left(MatchingRule::EachKey(d))) }
      "eachValue" => { let d = self.exp()?; def(none, Either::Left(MatchingRule::EachValue(d))) }
      _ => {
        let (n, dec) = self.number()?;
        if dec || n.starts_with('-') { return None; }
        let n = n.bytes().fold(0usize, |a, c| a * 10 + (c - b'0') as usize);
        def(none, Either::Left(if w == "atLeast" { MatchingRule::MinType(n) } else { MatchingRule::MaxType(n) }))
      }
    };
    self.tok(b')')?;
    Some(d)
  }
  fn matching(&mut self) -> R<MatchingRuleDefinition> {
    let def = |v: Val, r: MatchingRule| MatchingRuleDefinition { value: v.text, value_type: v.ty, rules: vec![Either::Left(r)], generator: v.gen, expression: String::new() };
    self.ws();
    if self.at() == b'$' {
      self.i += 1;
      let n = self.string()?;
      return Some(MatchingRuleDefinition { value: n.clone(), value_type: ValueType::Unknown, rules: vec![Either::Right(MatchingReference { name: n })], generator: None, expression: String::new() });
    }
    let w = self.word()?;
    self.tok(b',')?;
    let text = |t: String, ty: ValueType| Val { text: t, ty, gen: None };
    match w.as_str() {
      "equalTo" => { let v = self.primitive(false)?; Some(def(v, MatchingRule::Equality)) }
      "type" => { let v = self.primitive(false)?; Some(def(v, MatchingRule::Type)) }
      "number" | "integer" | "decimal" => {
        let r = match w.as_str() { "number" => MatchingRule::Number, "integer" => MatchingRule::Integer, _ => MatchingRule::Decimal };
        if self.state_follows() { if self.word()? != "fromProviderState" { return None; } let v = self.state()?; return Some(def(v, r)); }
        let (t, dec) = self.number()?;
        if w == "integer" && dec { return None; }
        Some(def(text(t, match w.as_str() { "number" => ValueType::Number, "integer" => ValueType::Integer, _ => ValueType::Decimal }), r))
      }
      "datetime" | "date" | "time" => {
        let f = self.string()?;
        self.tok(b',')?;
        let v = if self.state_follows() { if self.word()? != "fromProviderState" { return None; } self.state()? } else {
          let t = self.string()?;
          let f = Some(f.clone());
          Val { text: t, ty: ValueType::String, gen: Some(match w.as_str() { "datetime" => Generator::DateTime(f, None), "date" => Generator::Date(f, None), _ => Generator::Time(f, None) }) }
        };
        Some(def(v, match w.as_str() { "datetime" => MatchingRule::Timestamp(f), "date" => MatchingRule::Date(f), _ => MatchingRule::Time(f) }))
      }
      "regex" => { let r = self.string()?; self.tok(b',')?; let v = self.string()?; Some(def(text(v, ValueType::String), MatchingRule::Regex(r))) }
      "include" => { let v = self.string()?; Some(def(text(v.clone(), ValueType::String), MatchingRule::Include(v))) }
      "boolean" => { let b = self.word()?; if b != "true" && b != "false" { return None; } Some(def(text(b, ValueType::Boolean), MatchingRule::Boolean)) }
      "semver" => { let v = self.string()?; if !semver(v.as_bytes()) { return None; } Some(def(text(v, ValueType::String), MatchingRule::Semver)) }
      "contentType" => { let c = self.string()?; self.tok(b',')?; let v = self.string()?; Some(def(text(v, ValueType::Unknown), MatchingRule::ContentType(c))) }
      _ => None,
    }
  }
}
fn hex(c: u8) -> u32 { (match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => c - b'A' + 10 }) as u32 }
/// major.minor.patch without leading zeros (enough for the texts used here).
fn semver(b: &[u8]) -> bool {
  let p: Vec<&[u8]> = b.split(|c| *c == b'.').collect();
  p.len() == 3 && p.iter().all(|s| !s.is_empty() && s.iter().all(|c| c.is_ascii_digit()) && (s.len() == 1 || s[0] != b'0'))
}
fn rank(t: ValueType) -> usize { match t { ValueType::Unknown => 0, ValueType::Boolean => 1, ValueType::Number => 2, ValueType::Integer => 3, ValueType::Decimal => 4, ValueType::String => 5 } }
/// The definition a text stands for, and whether it contains an escaped quote.
fn grammar(v: &str, keep: bool) -> (Option<MatchingRuleDefinition>, bool) {
  let mut p = P { b: v.as_bytes(), i: 0, quote: false, keep };
  let d = (|| {
    let mut d = p.exp()?;
    loop {
      p.ws();
      if p.i == p.b.len() { return Some(d); }
      p.tok(b',')?;
      let e = p.exp()?;
      d.rules.extend(e.rules);
      if d.value.is_empty() { d.value = e.value; }
      if rank(e.value_type) > rank(d.value_type) { d.value_type = e.value_type; }
      if d.generator.is_none() { d.generator = e.generator; }
    }
  })();
  (d, p.quote)
}
fn same_def(a: &MatchingRuleDefinition, b: &MatchingRuleDefinition) -> bool {
  a.value == b.value && rank(a.value_type) == rank(b.value_type) && same_opt(&a.generator, &b.generator) && a.rules.len() == b.rules.len()
    && a.rules.iter().zip(&b.rules).all(|(x, y)| match (x, y) {
      (Either::Left(MatchingRule::EachKey(x)), Either::Left(MatchingRule::EachKey(y))) | (Either::Left(MatchingRule::EachValue(x)), Either::Left(MatchingRule::EachValue(y))) => same_def(x, y),
      (Either::Left(x), Either::Left(y)) => same_rule(x, y),
      (Either::Right(x), Either::Right(y)) => x.name == y.name,
      _ => false,
    })
}
fn same_opt(a: &Option<Generator>, b: &Option<Generator>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_generator(a, b), _ => false } }


fn decide(v: &str) {
  let (want, quote) = grammar(v, false);
  let got = parse_matcher_def(v);
  reach("parsed");
  match (&want, &got) {
    (None, Err(_)) => (),
    (None, Ok(_)) => fail("text that is not a complete definition is accepted"),
    (Some(_), Err(_)) => fail("a well-formed definition is refused"),
    (Some(w), Ok(g)) => {
      if quote { // the recorded finding: an escaped quote keeps its backslash
      if let (Some(k), _) = grammar(v, true) { if same_def(&k, g) { known("C10-quote-escape"); } } }
      check(same_def(w, g), "a definition does not say what was parsed");
      check(g.expression == v, "the definition does not keep its text");
    }
  }
}
fn warm() { let _ = parse_matcher_def("matching(type,'Name')"); }

/// Any short text is refused and does not crash.
#[no_mangle] pub extern "C" fn quick_c10_any_text() { warm(); let v = ascii_upto(0, 3); decide(&v); let _ = is_matcher_def(&v); }
#[no_mangle] pub extern "C" fn quick_c10_start() {
  let v = format!("{}{}", pick(&["matching", "matching(", "notEmpty(", "atLeast(2", "eachKey(", "matching(type", "matching(type,", "matching($"]), unicode(1, &["\u{e9}", "\u{1F600}"]));
  decide(&v);
  check(is_matcher_def(&v) == (!v.starts_with("atLeast") && P { b: v.as_bytes(), i: 0, quote: false, keep: false }.word().map_or(false, |w| w == "matching" || w == "notEmpty" || w == "eachKey")), "is_matcher_def");
}
const STR: &[u8] = b"a'\\ ,)u0\"";
fn kinds(s: &str, t: &str) -> String {
  match choose(10) {
    0 => format!("matching(equalTo,'{}')", s), 1 => format!("matching(type, '{}')", s), 2 => format!("notEmpty('{}')", s), 3 => format!("matching(regex, '{}', '{}')", s, t),
    4 => format!("matching(datetime,'{}','{}')", s, t), 5 => format!("matching(date,'{}', '{}')", s, t), 6 => format!("matching(time,'{}','{}')", s, t),
    7 => format!("matching(include,'{}')", s), 8 => format!("matching(contentType,'{}','{}')", s, t), _ => format!("matching($'{}')", s),
  }
}
/// Each rule kind with any short text, valid or not, as its string.
#[no_mangle] pub extern "C" fn quick_c10_strings() { let s = text_upto(1, 3, STR); decide(&kinds(&s, "x")) }
#[no_mangle] pub extern "C" fn quick_c10_string_two() { let s = ascii_upto(1, 3); decide(&if flag() { format!("matching(type,'{}')", s) } else { format!("matching(regex,'{}','\\\\')", s) }) }
#[no_mangle] pub extern "C" fn quick_c10_second_string() { let s = text_upto(1, 3, STR); decide(&match choose(3) { 0 => format!("matching(regex,'\\\\d','{}')", s), 1 => format!("matching(datetime, 'yyyy', '{}')", s), _ => format!("matching(contentType,'a/b','{}')", s) }) }
#[no_mangle] pub extern "C" fn quick_c10_escapes() {
  let s = match choose(5) { 0 => format!("\\{}", text(1, b"bfnrt\\'wud.")), 1 => format!("\\u{}", text(4, b"04aF+")), 2 => format!("\\u{{{}}}", text_upto(0, 4, b"05aE-")), 3 => format!("\\u{{1F60{}}}x", text(1, b"0f}")), _ => format!("x\\u00{}y", text(2, b"47eG")) };
  decide(&if flag() { format!("matching(type,'{}')", s) } else { format!("matching(include,'{}')", s) })
}
/// Numbers where numbers are expected.
#[no_mangle] pub extern "C" fn quick_c10_numbers() {
  let n = text_upto(1, 4, b"019-.t'");
  decide(&match choose(7) { 0 => format!("matching(number,{})", n), 1 => format!("matching(integer,{})", n), 2 => format!("matching(decimal,{})", n), 3 => format!("matching(type,{})", n), 4 => format!("notEmpty({})", n), 5 => format!("atLeast({})", n), _ => format!("atMost({})", n) })
}
#[no_mangle] pub extern "C" fn quick_c10_long_numbers() {
  let n = format!("{}{}{}", pick(&["", "-"]), pick(&["1", "120", "00"]), text_upto(0, 2, b".59 "));
  decide(&match choose(4) { 0 => format!("matching(number, {})", n), 1 => format!("matching(decimal,{} )", n), 2 => format!("matching(equalTo,{})", n), _ => format!("matching(integer,{})", n) })
}
#[no_mangle] pub extern "C" fn quick_c10_words() {
  let w = pick(&["true", "false", "null", "fromProviderState", "truex", "tru", "True"]);
  decide(&match choose(5) { 0 => format!("matching(boolean,{})", w), 1 => format!("matching(type,{})", w), 2 => format!("notEmpty({})", w), 3 => format!("matching(number,{})", w), _ => format!("matching(date,'x',{})", w) })
}
#[no_mangle] pub extern "C" fn quick_c10_provider_state() {
  let p = format!("fromProviderState{}({}{}{}", pick(&["", "x", " "]), pick(&["'${a}'", "'e'", "e"]), pick(&[",", ""]), pick(&["'v')", "3)", "-3.25)", "true)", "null)", "fromProviderState('a',1))", "1"]));
  decide(&match choose(8) {
    0 => format!("matching(type,{})", p), 1 => format!("matching(equalTo,{})", p), 2 => format!("notEmpty({})", p), 3 => format!("matching(number,{})", p), 4 => format!("matching(integer,{})", p), 5 => format!("matching(decimal,{})", p),
    6 => format!("matching({},'f',{})", pick(&["date", "time", "datetime"]), p), _ => format!("matching(boolean,{})", p) })
}
const WHOLE: [&str; 9] = ["matching(type,'a')", "notEmpty(1)", "eachKey(matching(regex,'r','v'))", "eachValue(matching($'p'))", "atLeast(2)", "atMost(30)", "matching(semver,'1.0.0')", "matching(date,'f','v')", "matching(decimal,1.5)"];
/// One character replaced, inserted or removed anywhere; or the text cut anywhere.
#[no_mangle] pub extern "C" fn quick_c10_edited() {
  let w = pick(&WHOLE);
  let i = choose(w.len() + 1);
  let c = ascii(1);
  decide(&match choose(3) { 0 => format!("{}{}{}", &w[..i], c, &w[i..]), 1 => if i < w.len() { format!("{}{}{}", &w[..i], c, &w[i + 1..]) } else { w.to_string() }, _ => w[..i].to_string() })
}
/// Trailing and leading text.
#[no_mangle] pub extern "C" fn quick_c10_trailing() { let w = pick(&["matching(type,'a')", "atLeast(2)", "eachValue(notEmpty('x'))"]); let t = ascii(2); let u = text(1, b" ,?a)"); decide(&match choose(3) { 0 => format!("{}{}{}", w, t, u), 1 => format!("{}{}", t, w), _ => format!("{}{}{}", w, u, t) }) }
/// Composition and nesting.
#[no_mangle] pub extern "C" fn quick_c10_compose() {
  let a = pick(&["matching(type,'a')", "atLeast(2)", "eachValue(matching(number,1))", "notEmpty(true)", "matching(date,'f','d')", "matching($'r')", "matching(boolean,true)", "matching(number,5)", "matching(integer,6)", "matching(decimal,7.5)"]);
  let b = pick(&["matching(include,'b')", "atMost(5)", "eachKey(notEmpty('k'))", "matching(integer,7)", "matching(time,'g','t')", "matching(boolean,false)", "matching(number,8)", "matching(decimal,9)"]);
  let s = text(1, b", (;");
  let w = pick(&["", "eachValue(", "eachKey("]);
  let e = if w.is_empty() { "" } else { ")" };
  decide(&format!("{}{}{} {}{}", w, a, e, s, b))
}
#[no_mangle] pub extern "C" fn quick_c10_semver() { let v = text(5, b"01.a"); decide(&format!("matching(semver,'{}')", v)) }
#[no_mangle] pub extern "C" fn deep_c10_any_text() { decide(&ascii_upto(4, 5)) }
#[no_mangle] pub extern "C" fn deep_c10_strings() { let s = ascii_upto(1, 4); decide(&kinds(&s, "x")) }
#[no_mangle] pub extern "C" fn deep_c10_numbers() { let n = text_upto(1, 5, b"019-. t'"); decide(&match choose(5) { 0 => format!("matching(number,{})", n), 1 => format!("matching(integer,{})", n), 2 => format!("matching(decimal,{})", n), 3 => format!("matching(type,{})", n), _ => format!("atMost({})", n) }) }
#[no_mangle] pub extern "C" fn deep_c10_edited() { let w = pick(&WHOLE); let i = choose(w.len()); let c = ascii(1); let j = i + choose(w.len() - i + 1); let d = text(1, b"a()',. $1-\\?"); decide(&format!("{}{}{}{}{}", &w[..i], c, &w[i..j], d, &w[j..])) }
