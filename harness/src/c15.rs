//! Content types.
use crate::vp::*;
use pact_models::content_types::*;

fn tok(b: u8) -> bool { b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b) }
/// The content type a text spells, where it is of the plain shape type/subtype.
fn lower(s: &str) -> String { unsafe { String::from_utf8_unchecked(s.bytes().map(|c| if c.is_ascii_uppercase() { c + 32 } else { c }).collect()) } }
fn recase(s: &str) -> String { unsafe { String::from_utf8_unchecked(s.bytes().map(|c| if c.is_ascii_alphabetic() { byte_in(&[c | 32, c & !32]) } else { c }).collect()) } }
fn parse(s: &str) -> Option<ContentType> { blind(true); let r = ContentType::parse(s).ok(); blind(false); r }
fn same_type(a: &ContentType, b: &ContentType) -> bool { a.main_type == b.main_type && a.sub_type == b.sub_type && a.suffix == b.suffix && a.attributes.len() == b.attributes.len() && a.attributes.iter().zip(&b.attributes).all(|((k, v), (l, w))| k == l && v == w) }
fn round(c: &ContentType) {
  let t = c.to_string();
  match parse(&t) {
    Some(r) => check(same_type(&r, c), "a content type printed and parsed is another one"),
    None => fail("a printed content type is refused"),
  }
  check(&ContentType::from(t.as_str()) == c, "a content type printed and converted from text is another one");
}
fn ct(s: &Option<String>) -> &str { s.as_deref().unwrap_or("") }
fn classes(c: &ContentType) {
  let app = c.main_type == "application";
  let text = c.main_type == "text";
  let json = app && (ct(&c.suffix) == "json" || (ct(&c.suffix) != "xml" && (c.sub_type.starts_with("json") || c.sub_type == "graphql")));
  let xml = (app || text) && (ct(&c.suffix) == "xml" || (ct(&c.suffix) != "json" && c.sub_type == "xml"));
  let form = app && c.sub_type == "x-www-form-urlencoded";
  check(c.is_json() == json, "a content type is JSON or not against its type");
  check(c.is_xml() == xml, "a content type is XML or not against its type");
  check(c.is_text() == (text || json || xml || form), "a content type is text or not against its type");
  check(c.is_binary() == !(text || json || xml || form), "a content type is binary or not against its type");
  check(c.is_strict_xml() == ((app || text) && c.sub_type == "xml"), "a content type is plain XML or not against its type");
  check(c.is_form_urlencoded() == form, "a content type is a form or not against its type");
  check(c.is_json() as u8 + c.is_xml() as u8 + c.is_binary() as u8 <= 1, "a content type is of two classes");
  let b = c.base_type();
  check(b.main_type == c.main_type && b.sub_type == c.suffix.clone().unwrap_or(c.sub_type.clone()) && b.suffix.is_none() && b.attributes.is_empty(), "the base type of a content type is another one");
  check(c.is_unknown() == (c.main_type == "*" || c.sub_type == "*"), "a content type is unknown or not against its type");
}
/// Any text.
fn any(n: usize) {
  let s = ascii_upto(0, n);
  let r = parse(&s);
  let b = s.as_bytes();
  let slash = b.iter().position(|c| *c == b'/');
  match r {
    Some(c) => { reach("parsed"); round(&c); check(slash.is_some(), "a text without a slash is a content type"); }
    None => { reach("refused"); if let Some(k) = slash { check(!(k > 0 && k + 1 < b.len() && b.iter().enumerate().all(|(i, c)| i == k || tok(*c))), "a plain content type is refused"); } }
  }
}
#[no_mangle] pub extern "C" fn quick_c15_any() { any(5) }
#[no_mangle] pub extern "C" fn deep_c15_any() { any(7) }
/// Attributes of any form.
fn attributes(n: usize) {
  let s = match choose(4) { 0 => "a/b;".to_string() + &ascii(n), 1 => "a/b;c=\"".to_string() + &unicode(n - 1, &["\u{e9}"]) + "\"", 2 => format!("a/b; {}=d;{}={}", text(1, b"bC"), text(1, b"bC"), text_upto(0, n - 3, b"aZ\"\\;= ")), _ => format!("a/b;{}=\"{}\"; e=f", text(1, b"dG"), ascii(n - 2)) };
  match parse(&s) {
    Some(c) => { reach("parsed"); round(&c); check(c.main_type == "a" && c.sub_type == "b" && c.suffix.is_none(), "the attributes disturb the type"); classes(&c); }
    None => reach("refused"),
  }
}
#[no_mangle] pub extern "C" fn quick_c15_attributes() { attributes(4) }
#[no_mangle] pub extern "C" fn deep_c15_attributes() { attributes(6) }
/// An attribute value is kept as it is.
#[no_mangle] pub extern "C" fn quick_c15_value() {
  let n = 1 + choose(3);
  let v = text(n, &(32..127u8).filter(|c| *c != b'"').collect::<Vec<u8>>());
  let q = v.bytes().any(|c| !tok(c)) || flag();
  let s = if q { format!("multipart/form-data; boundary=\"{}\"", v) } else { format!("multipart/form-data; boundary={}", v) };
  match parse(&s) {
    Some(c) => { reach("value"); check(c.attributes.get("boundary") == Some(&v) && c.attributes.len() == 1, "the value of an attribute is another one"); round(&c); }
    None => fail("a content type with an attribute is refused"),
  }
}
/// Types, subtypes and suffixes in any case, with parameters.
#[no_mangle] pub extern "C" fn quick_c15_classes() {
  let main = match choose(9) { 0 => "application".to_string(), 1 => "text".into(), 2 => "image".into(), 3 => "audio".into(), 4 => "video".into(), 5 => "font".into(), 6 => "multipart".into(), 7 => "*".into(), _ => text(1, b"az*") };
  let sub = match choose(10) { 0 => "json".to_string(), 1 => "xml".into(), 2 => "graphql".into(), 3 => "x-www-form-urlencoded".into(), 4 => "json".to_string() + &text(1, b"-5p"), 5 => "xml".to_string() + &text(1, b"-x"), 6 => "hal".into(), 7 => "*".into(), 8 => text(1, b"+jx*"), _ => "x-json".into() };
  let suffix = match choose(5) { 0 => Some("json".to_string()), 1 => Some("xml".into()), 2 => Some("zip".into()), 3 => Some(text(1, b"jx")), _ => None };
  let mut t = main.clone() + "/" + &sub;
  if let Some(s) = &suffix { t = t + "+" + s; }
  if flag() { t = t.to_uppercase(); }
  if flag() { t += ";charset=UTF-8"; }
  match parse(&t) {
    Some(c) => {
      reach("class");
      check(c.main_type == main, "the main type is another one");
      if suffix.is_some() { check(c.sub_type == sub && c.suffix == suffix, "the subtype or the suffix is another one"); }
      round(&c); classes(&c);
    }
    None => fail("a content type is refused"),
  }
}
/// Any mixture of case.
#[no_mangle] pub extern "C" fn quick_c15_case() {
  let t = pick(&["application/json", "text/xml", "application/hal+json", "image/png", "application/atom+xml;charset=utf-8", "a/b;c=d"]);
  let k = t.find(';').unwrap_or(t.len());
  let u = recase(&t[..k]) + &t[k..];
  reach("case");
  match (parse(t), parse(&u)) { (Some(a), Some(b)) => { check(same_type(&a, &b), "the case of a content type matters"); check(a.is_json() == b.is_json() && a.is_xml() == b.is_xml() && a.is_binary() == b.is_binary(), "the class of a content type depends on its case"); } _ => fail("a content type is refused") }
  check(lower(&u) == t, "harness");
}

fn ws(b: u8) -> bool { b == b' ' || (9..=13).contains(&b) }
fn word(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' }
fn starts(b: &[u8], p: &[u8]) -> bool { b.len() >= p.len() && b[..p.len()].iter().zip(p).all(|(x, y)| x == y) }
fn starts_ci(b: &[u8], p: &[u8]) -> bool { b.len() >= p.len() && b[..p.len()].iter().zip(p).all(|(x, y)| (if x.is_ascii_lowercase() { *x - 32 } else { *x }) == *y) }
/// What a text of ASCII characters starts like.
fn like(b: &[u8]) -> &'static str {
  let mut i = 0;
  while i < b.len() && ws(b[i]) { i += 1; }
  let t = &b[i..];
  if starts(t, b"<?xml") { let mut j = 5; while j < t.len() && ws(t[j]) { j += 1; } if starts(&t[j..], b"version") { return "application/xml"; } }
  if starts_ci(t, b"<!DOCTYPE") || starts_ci(b, b"<HTML>") { return "text/html"; }
  if t.len() > 1 && t[0] == b'<' && word(t[1]) { return "application/xml"; }
  if starts(t, b"true") || starts(t, b"false") || starts(t, b"null") || (!t.is_empty() && (t[0].is_ascii_digit() || t[0] == b'"' || t[0] == b'[')) { return "application/json"; }
  if !t.is_empty() && t[0] == b'{' {
    let mut j = 1; while j < t.len() && ws(t[j]) { j += 1; }
    if j < t.len() && (t[j] == b'}' || (t[j] == b'"' && j + 1 < t.len() && word(t[j + 1]))) { return "application/json"; }
  }
  "text/plain"
}
fn detected(c: Option<ContentType>) -> String { c.map(|c| c.to_string()).unwrap_or_default() }
fn warm() { for s in ["<?xml version", " <a>", "{\"a\"", "tru", "\u{e9}", "<HTML>", " <!doctype", ""] { let _ = detect_content_type_from_bytes(s.as_bytes()); let _ = detect_content_type_from_string(s); } }
fn detect(s: &[u8]) {
  let want = like(s);
  reach(want);
  check(detected(detect_content_type_from_bytes(s)) == want, "bytes are taken for something they do not start like");
  check(detected(detect_content_type_from_string(unsafe { std::str::from_utf8_unchecked(s) })) == want, "a text is taken for something it does not start like");
}
fn detect_any(n: usize) {
  warm();
  let s = match choose(6) { 0 => ascii_upto(0, n), 1 => pick(&["<", "<?xml", "<?xml ", "{", " {\"", "[", "tr", "fals", "nul"]).to_string() + &ascii(1), 2 => ascii(1) + pick(&["<a", "{}", "true", "<!doctype html", "<?xml version", "1"]), 3 => pick(&["<!Doctype", "<hTML>", "<?xml version=\"1.0\"?>", "null", "true"]).to_string() + &ascii(1), 4 => recase("<html>"), _ => recase("<!doctype") };
  detect(s.as_bytes());
}
#[no_mangle] pub extern "C" fn quick_c15_detect() { detect_any(2) }
#[no_mangle] pub extern "C" fn deep_c15_detect() { detect_any(3) }
/// Bytes that are no text, long contents.
#[no_mangle] pub extern "C" fn quick_c15_bytes() {
  warm();
  let n = choose(3);
  let mut v: Vec<u8> = (0..n).map(|_| byte()).collect();
  let pad = pick(&["", "{}", "<a>", "                                "]);
  if flag() { v.extend_from_slice(pad.as_bytes()); } else { let mut p = pad.as_bytes().to_vec(); p.extend_from_slice(&v); v = p; }
  let r = detect_content_type_from_bytes(&v);
  let ok = std::str::from_utf8(&v[..v.len().min(32)]).is_ok();
  if ok { reach("text") } else { reach("no text") }
  if let Some(c) = &r {
    check(ok, "bytes that are no text are given a content type");
    // anything but an ASCII blank may be a blank of another script
    let mut i = 0;
    while i < v.len() && (ws(v[i]) || v[i] >= 0x80) { i += 1; }
    if c.is_json() { check(i < v.len() && b"tfn\"{[0123456789".contains(&v[i]), "bytes are taken for JSON that do not start like it"); }
    if c.is_xml() { check(i < v.len() && v[i] == b'<', "bytes are taken for XML that do not start like it"); }
  } else { check(!ok, "a text has no content type"); }
}
#[no_mangle] pub extern "C" fn quick_c15_hint() {
  let h = pick(&[ContentTypeHint::BINARY, ContentTypeHint::TEXT, ContentTypeHint::DEFAULT]);
  reach("hint");
  check(ContentTypeHint::try_from(h.to_string().as_str()).ok() == Some(h), "a content type hint printed and read is another one");
  let s = ascii_upto(0, 4);
  if let Ok(h) = ContentTypeHint::try_from(s.as_str()) { check(h.to_string() == s, "a text is taken for another hint"); }
}
