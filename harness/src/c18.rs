//! Conversions between value types, against wide integer arithmetic.
use crate::vp::*;
use pact_models::expression_parser::*;
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use pact_models::json_utils::*;
use pact_models::response::Response;
use pact_models::v4::http_parts::HttpResponse;
use pact_models::{HttpStatus, PactSpecification};
use serde_json::{json, Map, Number, Value};
use std::collections::HashMap;

const TYPES: [DataType; 6] = [DataType::STRING, DataType::INTEGER, DataType::DECIMAL, DataType::FLOAT, DataType::RAW, DataType::BOOLEAN];
fn floats() -> f64 {
  pick(&[0.0, 0.5, -0.5, -1.0, 1.0, 99.9, 100.0, -100.6, 65535.0, 65535.9, 65536.0, 65636.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
    4294967396.0, 9007199254740993.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709549568.0,
    18446744073709551616.0, 1e19, -1e19, 1e38, -1e40, 1e300, -1e300, 5e-324])
}
/// Any finite double.
fn any_float() -> f64 { let f = f64::from_bits(u64v()); assume(f.is_finite()); f }
/// Any 64-bit integer, signed or not.
fn integer() -> (Number, i128) {
  let v = u64v();
  if flag() { (Number::from(v), v as i128) } else { (Number::from(v as i64), v as i64 as i128) }
}
fn int_part(f: f64) -> Option<i128> { if f > -1e37 && f < 1e37 { Some(f as i128) } else { None } }

fn agree<T: TryFrom<DataValue> + PartialEq + Copy>(v: &DataValue, want: Option<T>, what: &str) {
  blind(true);
  let got = T::try_from(v.clone()).ok();
  blind(false);
  match (got.ok_or(()), want) {
    (Ok(g), Some(w)) => { check(g == w, what); reach("converted"); }
    (Err(_), None) => reach("refused"),
    (Ok(_), None) => fail(what),
    (Err(_), Some(_)) => fail(what),
  }
}
fn ints(v: &DataValue, n: Option<i128>) {
  agree::<u16>(v, n.and_then(|n| if n >= 0 && n <= 65535 { Some(n as u16) } else { None }), "u16 from a value is another number, or it is refused though it fits");
  agree::<u64>(v, n.and_then(|n| if n >= 0 && n <= u64::MAX as i128 { Some(n as u64) } else { None }), "u64 from a value is another number, or it is refused though it fits");
  agree::<i64>(v, n.and_then(|n| if n >= i64::MIN as i128 && n <= i64::MAX as i128 { Some(n as i64) } else { None }), "i64 from a value is another number, or it is refused though it fits");
}

/// JSON integers to the integer types and booleans, whatever the declared type.
#[no_mangle] pub extern "C" fn quick_c18_integers() {
  let (n, x) = integer();
  let v = DataValue { wrapped: Value::Number(n.clone()), data_type: pick(&TYPES) };
  ints(&v, Some(x));
  agree::<bool>(&v, Some(x > 0), "a number is true exactly if it is positive");
}
/// JSON integers to JSON of the declared type.
#[no_mangle] pub extern "C" fn quick_c18_integers_json() {
  let (n, x) = integer();
  let dt = pick(&[DataType::INTEGER, DataType::RAW, DataType::BOOLEAN]);
  let v = DataValue { wrapped: Value::Number(n.clone()), data_type: dt };
  match v.as_json() {
    Ok(Value::Number(r)) => { check(dt != DataType::BOOLEAN && r.as_i64().map(|r| r as i128).or(r.as_u64().map(|r| r as i128)) == Some(x), "an integer becomes another number"); reach("integer"); }
    Ok(Value::Bool(b)) => { check(dt == DataType::BOOLEAN && b == (x > 0), "an integer becomes the wrong Boolean"); reach("bool"); }
    _ => fail("an integer is refused"),
  }
}
/// Integers of up to three digits and a few large ones to floating point and text.
#[no_mangle] pub extern "C" fn quick_c18_integers_text() {
  let (n, x) = match choose(3) {
    0 => { let v = conc(u16::from_le_bytes([byte(), range(0, 3)]) as u32); (Number::from(v), v as i128) }
    1 => { let v = -(conc(byte() as u32) as i64); (Number::from(v), v as i128) }
    _ => { let v = pick(&[u64::MAX, 1u64 << 63, (1 << 63) - 1, 1 << 53, 99999999999]); (Number::from(v), v as i128) }
  };
  let dt = pick(&TYPES);
  let v = DataValue { wrapped: Value::Number(n.clone()), data_type: dt };
  agree::<f64>(&v, Some(x as f64), "f64 from an integer is another number");
  let json = v.as_json();
  let want = match dt {
    DataType::STRING => json!(x.to_string()),
    DataType::DECIMAL | DataType::FLOAT => json!(x as f64),
    DataType::BOOLEAN => json!(x > 0),
    _ => Value::Number(n.clone()),
  };
  check(json.map(|j| j == want).unwrap_or(false), "the JSON of an integer is not its value in the declared type");
  let text = String::try_from_value(&v);
  let want = match dt {
    DataType::DECIMAL | DataType::FLOAT => Some((x as f64).to_string()),
    DataType::BOOLEAN => Some((x > 0).to_string()),
    DataType::INTEGER => if x <= i64::MAX as i128 { Some(x.to_string()) } else { None },
    _ => Some(x.to_string()),
  };
  check(text == want, "the text of an integer is not its value in the declared type");
  reach("text");
}
/// JSON floating-point numbers: the fraction is dropped where an integer is asked for, anything out of range is refused.
#[no_mangle] pub extern "C" fn quick_c18_floats() {
  let f = floats();
  let dt = pick(&TYPES);
  let v = DataValue { wrapped: json!(f), data_type: dt };
  ints(&v, int_part(f));
  agree::<f64>(&v, Some(f), "f64 from a floating-point number is another number");
  agree::<bool>(&v, Some(f > 0.0), "a number is true exactly if it is positive");
  match v.as_json() {
    Ok(Value::Number(r)) if dt == DataType::INTEGER => check(r.as_i64().map(|r| r as i128) == int_part(f), "the integer part of a number is another number"),
    Ok(Value::Number(r)) => check(r.as_f64() == Some(f), "a floating-point number becomes another one"),
    Ok(Value::Bool(b)) => check(dt == DataType::BOOLEAN && b == (f > 0.0), "wrong Boolean"),
    Ok(Value::String(s)) => check(dt == DataType::STRING && s == json!(f).to_string(), "wrong text of a floating-point number"),
    Ok(_) => fail("a number becomes something else"),
    Err(_) => check(dt == DataType::INTEGER && int_part(f).map(|n| n < i64::MIN as i128 || n > i64::MAX as i128).unwrap_or(true), "a number in range is refused"),
  }
  let _ = String::try_from_value(&v);
}

/// The same for every finite double, without what becomes text.
#[no_mangle] pub extern "C" fn quick_c18_all_floats() {
  let f = any_float();
  let v = DataValue { wrapped: json!(f), data_type: pick(&TYPES) };
  ints(&v, int_part(f));
  agree::<f64>(&v, Some(f), "f64 from a floating-point number is another number");
  agree::<bool>(&v, Some(f > 0.0), "a number is true exactly if it is positive");
}
#[no_mangle] pub extern "C" fn quick_c18_all_floats_json() {
  let f = any_float();
  let dt = pick(&[DataType::INTEGER, DataType::DECIMAL, DataType::FLOAT, DataType::RAW, DataType::BOOLEAN]);
  let v = DataValue { wrapped: json!(f), data_type: dt };
  blind(true);
  match v.as_json() {
    Ok(Value::Number(r)) if dt == DataType::INTEGER => { check(r.as_i64().map(|r| r as i128) == int_part(f), "the integer part of a number is another number"); reach("integer"); }
    Ok(Value::Number(r)) => check(r.as_f64() == Some(f), "a floating-point number becomes another one"),
    Ok(Value::Bool(b)) => check(dt == DataType::BOOLEAN && b == (f > 0.0), "wrong Boolean"),
    Ok(_) => fail("a number becomes something else"),
    Err(_) => { check(dt == DataType::INTEGER && int_part(f).map(|n| n < i64::MIN as i128 || n > i64::MAX as i128).unwrap_or(true), "a number in range is refused"); reach("refused"); }
  }
}

trait TryText { fn try_from_value(v: &DataValue) -> Option<String>; }
impl TryText for String {
  /// The text a generator for text makes of this value. None: an error.
  fn try_from_value(v: &DataValue) -> Option<String> {
    let mut ctx = HashMap::new();
    ctx.insert("n", v.wrapped.clone());
    let b: Box<dyn VariantMatcher + Send + Sync> = Box::new(NoopVariantMatcher {});
    let g = Generator::ProviderStateGenerator("n".to_string(), Some(v.data_type));
    let r: anyhow::Result<String> = g.generate_value(&"".to_string(), &ctx, &b);
    r.ok()
  }
}

/// Decimal integer in the text, by the rules of `str::parse`: an optional sign (no minus where negatives do not exist), digits.
fn text_int(s: &str, signed: bool) -> Option<i128> {
  let b = s.as_bytes();
  let (neg, d) = match b.first() { Some(b'-') if signed => (true, &b[1..]), Some(b'+') => (false, &b[1..]), _ => (false, b) };
  if d.is_empty() { return None; }
  if d.len() < 10 {
    let mut n: i32 = 0;
    for c in d { if !c.is_ascii_digit() { return None; } n = n * 10 + (*c - b'0') as i32; }
    return Some(if neg { -n as i128 } else { n as i128 });
  }
  let mut n: i128 = 0;
  for c in d { if !c.is_ascii_digit() { return None; } n = n * 10 + (*c - b'0') as i128; }
  Some(if neg { -n } else { n })
}
fn text_value(s: String) {
  let dt = pick(&[DataType::STRING, DataType::INTEGER, DataType::RAW]);
  let v = DataValue { wrapped: Value::String(s.clone()), data_type: dt };
  let (u, i) = (text_int(&s, false), text_int(&s, true));
  agree::<u16>(&v, u.and_then(|n| if n <= 65535 { Some(n as u16) } else { None }), "u16 from a text is another number, or wrongly refused or accepted");
  agree::<u64>(&v, u.and_then(|n| if n <= u64::MAX as i128 { Some(n as u64) } else { None }), "u64 from a text is another number, or wrongly refused or accepted");
  agree::<i64>(&v, i.and_then(|n| if n <= i64::MAX as i128 && n >= i64::MIN as i128 { Some(n as i64) } else { None }), "i64 from a text is another number, or wrongly refused or accepted");
  match v.as_json() {
    Ok(Value::String(t)) => check(dt != DataType::INTEGER && same(t.as_bytes(), s.as_bytes()), "a text is changed"),
    Ok(Value::Number(n)) => check(dt == DataType::INTEGER && i.is_some() && n.as_i64().map(|n| n as i128).or(n.as_u64().map(|n| n as i128)) == i, "the integer in a text becomes another one"),
    Ok(_) => fail("a text becomes something else"),
    Err(_) => check(dt == DataType::INTEGER && !u.map(|n| n <= u32::MAX as i128).unwrap_or(false), "a text is refused"),
  }
  if dt != DataType::INTEGER { check(String::try_from_value(&v) == Some(s), "a text is changed"); } else if i.is_none() { check(String::try_from_value(&v).is_none(), "a text that is no integer is accepted as one"); }
}
#[no_mangle] pub extern "C" fn quick_c18_text_digits() { text_value(text_upto(0, 5, b"0123456789+-. x")); }
#[no_mangle] pub extern "C" fn quick_c18_text_limits() {
  let t = pick(&["6553", "1844674407370955161", "-922337203685477580", "922337203685477580", "429496729"]);
  text_value(format!("{}{}", t, text_upto(0, 2, b"0123456789")));
}
#[no_mangle] pub extern "C" fn quick_c18_text_ascii() { text_value(ascii_upto(0, 3)); }
/// Text where a decimal or floating-point number is asked for.
#[no_mangle] pub extern "C" fn quick_c18_text_float() {
  let s = match choose(3) { 0 => text_upto(0, 3, b"019.-e"), 1 => format!("{}e{}", pick(&["1", "-9", "65.5", "0"]), text_upto(1, 3, b"0129-")), _ => format!("6553{}.{}", text(1, b"4567"), text_upto(0, 1, b"09")) };
  let s = conc_text(s);
  let dt = pick(&[DataType::DECIMAL, DataType::FLOAT]);
  let v = DataValue { wrapped: Value::String(s.clone()), data_type: dt };
  let f = s.parse::<f64>().ok();
  ints(&v, f.and_then(int_part));
  agree::<f64>(&v, f, "f64 from a text is another number, or wrongly refused or accepted");
  match (v.as_json(), f) {
    (Ok(Value::Number(n)), Some(f)) => check(n.as_f64() == Some(f), "the number in a text becomes another one"),
    (Ok(Value::Null), Some(f)) => check(!f.is_finite(), "the number in a text becomes null"),
    (Err(_), None) => (),
    _ => fail("a text is wrongly refused or accepted as a number"),
  }
  let t = String::try_from_value(&v);
  check(t.is_some() == f.is_some() && t.map(|t| t.parse::<f64>().ok() == f).unwrap_or(true), "the text of a number is another number");
}
/// Everything else: null, Booleans, text as Boolean, arrays and objects.
#[no_mangle] pub extern "C" fn quick_c18_kinds() {
  let dt = pick(&TYPES);
  let w = match choose(6) { 0 => Value::Null, 1 => json!(true), 2 => json!(false), 3 => Value::String(pick(&["true", "false", "True", "", "1", "null"]).to_string()), 4 => json!([1]), _ => json!({ "a": 1 }) };
  let v = DataValue { wrapped: w.clone(), data_type: dt };
  let composite = w.is_array() || w.is_object();
  let b = match &w { Value::Null => Some(false), Value::Bool(b) => Some(*b), Value::String(s) => s.parse::<bool>().ok(), _ => None };
  agree::<bool>(&v, b, "a value becomes the wrong Boolean");
  if !w.is_string() {
    let n = match &w { Value::Null => Some(0), Value::Bool(b) => Some(*b as i128), _ => None };
    ints(&v, n);
    agree::<f64>(&v, n.map(|n| n as f64), "a value becomes the wrong number");
  } else if dt == DataType::BOOLEAN { agree::<u16>(&v, None, "a Boolean text becomes a number"); }
  match (v.as_json(), dt) {
    (Ok(r), DataType::RAW) => check(r == w, "a raw value is changed"),
    (Ok(r), DataType::STRING) => check(r == w || r == Value::String(w.to_string()), "a value as text is changed"),
    (Ok(r), DataType::BOOLEAN) => check(r.as_bool().is_some() && r.as_bool() == b, "a value becomes the wrong Boolean"),
    (Ok(r), _) => check(!composite && (r == json!(0) || r == json!(1) || r == json!(0.0) || r == json!(1.0)) && (r.as_f64() != Some(0.0)) == (w == json!(true) || w == json!("1")), "a value becomes the wrong number"),
    (Err(_), _) => check(composite || w.is_string(), "a value is refused"),
  }
  match (String::try_from_value(&v), dt) {
    (Some(t), DataType::RAW | DataType::STRING) => check(t == match &w { Value::String(s) => s.clone(), Value::Null => String::new(), w => w.to_string() }, "a value as text is changed"),
    (Some(_), _) => check(!composite, "a composite value becomes a number"),
    (None, DataType::RAW | DataType::STRING) => fail("a value is refused as text"),
    (None, _) => check(composite || w.is_string(), "a value is refused"),
  }
  reach("kinds");
}

fn number_field() -> (Value, Option<i128>, bool) {
  match choose(3) { 0 => { let (n, x) = integer(); (Value::Number(n), Some(x), true) } 1 => { let f = any_float(); (json!(f), int_part(f), false) } _ => (pick(&[Value::Null, json!("7"), json!(true), json!([1])]), None, false) }
}
/// Numbers from the fields of a JSON object.
#[no_mangle] pub extern "C" fn quick_c18_fields() {
  let (v, n, int) = number_field();
  let mut m = Map::new();
  m.insert("x".to_string(), v.clone());
  let d = 7;
  let want = |lo: i128, hi: i128| if int { n.filter(|n| *n >= lo && *n <= hi).unwrap_or(d) } else { d };
  check(<i32 as JsonToNum<i32>>::json_to_number(&m, "x", d as i32) as i128 == want(i32::MIN as i128, i32::MAX as i128), "a number field is read as another number");
  check(<u16 as JsonToNum<u16>>::json_to_number(&m, "x", d as u16) as i128 == want(0, 65535), "a number field is read as another number");
  check(<u16 as JsonToNum<u16>>::json_to_number(&m, "y", 9) == 9, "a field that is not there has a value");
  reach("fields");
}
#[no_mangle] pub extern "C" fn quick_c18_to_num() {
  let (v, n, _) = number_field();
  if v == json!("7") { return; }
  let got = json_to_num(Some(v));
  match got { Some(g) => check(n == Some(g as i128), "json_to_num gives another number"), None => check(n.map(|n| n <= 0 || n >= usize::MAX as i128).unwrap_or(true), "json_to_num refuses a number that fits") }
  reach("to_num");
}
#[no_mangle] pub extern "C" fn quick_c18_to_num_text() {
  let s = match choose(2) { 0 => text_upto(0, 3, b"0123456789+-. x"), _ => format!("42949672{}", text(2, b"0123456789")) };
  let want = text_int(&s, false).filter(|n| *n <= usize::MAX as i128);
  check(json_to_num(Some(Value::String(s))).map(|n| n as i128) == want, "json_to_num of a text gives another number");
  reach("to_num");
}
/// Response statuses.
#[no_mangle] pub extern "C" fn quick_c18_status() {
  let (v, n, int) = number_field();
  let mut m = Map::new();
  m.insert("status".to_string(), v);
  let j = Value::Object(m);
  blind(true);
  let want = n.filter(|n| int && *n >= 0 && *n <= 65535);
  for r in [Response::from_json(&j, &pick(&[PactSpecification::V2, PactSpecification::V3])).map(|r| r.status), HttpResponse::from_json(&j).map(|r| r.status)] {
    match r { Ok(s) => check(want == Some(s as i128), "the status of a response is another number than the one in the file"), Err(_) => check(want.is_none(), "a valid status is refused") }
  }
  reach("status");
}
#[no_mangle] pub extern "C" fn quick_c18_status_codes() {
  let (v, n, _) = number_field();
  let text = v == json!("7");
  let w = n.filter(|n| *n >= 0 && *n <= 65535).or(if text { Some(7) } else { None });
  blind(true);
  match HttpStatus::from_json(&json!([200, v])) {
    Ok(HttpStatus::StatusCodes(c)) => check(c.len() == 2 && c[0] == 200 && w == Some(c[1] as i128), "a status code in a rule is another number than the one in the file"),
    Ok(_) => fail("status codes become a status class"),
    Err(_) => check(w.is_none(), "a valid status code is refused"),
  }
  reach("codes");
}
#[no_mangle] pub extern "C" fn deep_c18_text_digits() { text_value(text_upto(0, 10, b"0123456789+-. x")); }
#[no_mangle] pub extern "C" fn deep_c18_text_ascii() { text_value(ascii_upto(0, 6)); }
