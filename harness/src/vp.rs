//! The symbolic inputs. Under the engine every call returns a fresh symbolic value; in a replay, the recorded one.
#![allow(dead_code)]

mod ffi {
  #[link(wasm_import_module = "vp")]
  extern "C" {
    pub fn sym_byte() -> u32;
    pub fn sym_in(p: *const u8, n: usize) -> u32;
    pub fn choose(n: u32) -> u32;
    pub fn assume(c: u32);
    pub fn check(c: u32, p: *const u8, n: usize);
    pub fn reach(p: *const u8, n: usize);
    pub fn known(p: *const u8, n: usize);
    pub fn conc(x: u32) -> u32;
    pub fn hash_mode(n: u32);
    pub fn random_mode(n: u32, words: u32);
    pub fn blind(zero: *const u64);
    pub fn set_clock(t: u64);
    pub fn both(a: u32, b: u32) -> u32;
  }
}

/// Any byte.
pub fn byte() -> u8 { unsafe { ffi::sym_byte() as u8 } }
/// Any byte of the set.
pub fn byte_in(set: &[u8]) -> u8 { unsafe { ffi::sym_in(set.as_ptr(), set.len()) as u8 } }
/// Any number below `n`; every value is a path of its own.
pub fn choose(n: usize) -> usize { unsafe { ffi::choose(n as u32) as usize } }
pub fn flag() -> bool { choose(2) == 1 }
pub fn pick<T: Clone>(v: &[T]) -> T { v[choose(v.len())].clone() }
pub fn assume(c: bool) { unsafe { ffi::assume(c as u32) } }
/// The assertion the solver decides.
pub fn check(c: bool, msg: &str) { unsafe { ffi::check(c as u32, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) { check(false, msg) }
/// Witness that this point is reached on some feasible path.
pub fn reach(msg: &str) { unsafe { ffi::reach(msg.as_ptr(), msg.len()) } }
/// From here on this path lies in the input region of a recorded finding.
pub fn known(id: &str) { unsafe { ffi::known(id.as_ptr(), id.len()) } }
/// 0: every key of a std hash map gets the same hash; n: SipHash with keys derived from n.
pub fn hash_mode(n: usize) { unsafe { ffi::hash_mode(n as u32) } }
/// From here on the random source yields this many free words, then zeros.
pub fn random_words(n: usize) { unsafe { ffi::random_mode(1, n as u32) } }
/// The same with the upper byte of each word free and the rest zero.
pub fn random_bytes(n: usize) { unsafe { ffi::random_mode(2, n as u32) } }
/// While on, symbolic numbers are printed as 0 under the engine: for code whose messages no assertion looks at.
pub fn blind(on: bool) { static ZERO: u64 = 0; unsafe { ffi::blind(if on { &ZERO } else { std::ptr::null() }) } }
pub fn set_clock(nanos: u64) { unsafe { ffi::set_clock(nanos) } }
pub fn both(a: bool, b: bool) -> bool { unsafe { ffi::both(a as u32, b as u32) != 0 } }
pub fn conc(x: u32) -> u32 { unsafe { ffi::conc(x) } }

pub fn range(lo: u8, hi: u8) -> u8 { let v: Vec<u8> = (lo..=hi).collect(); byte_in(&v) }
pub fn u16v() -> u16 { u16::from_le_bytes([byte(), byte()]) }
pub fn u32v() -> u32 { u32::from_le_bytes([byte(), byte(), byte(), byte()]) }
pub fn u64v() -> u64 { u64::from_le_bytes([byte(), byte(), byte(), byte(), byte(), byte(), byte(), byte()]) }

fn ascii_set() -> Vec<u8> { (0..128).collect() }
/// `n` ASCII characters, any of them.
pub fn ascii(n: usize) -> String { let s = ascii_set(); text(n, &s) }
/// `n` characters of the given ASCII set.
pub fn text(n: usize, set: &[u8]) -> String {
  let v: Vec<u8> = (0..n).map(|_| byte_in(set)).collect();
  unsafe { String::from_utf8_unchecked(v) }
}
/// Between `lo` and `hi` characters of the set.
pub fn text_upto(lo: usize, hi: usize, set: &[u8]) -> String { let n = lo + choose(hi - lo + 1); text(n, set) }
pub fn ascii_upto(lo: usize, hi: usize) -> String { let n = lo + choose(hi - lo + 1); ascii(n) }
/// `n` characters, each any ASCII character or one of the others given.
pub fn unicode(n: usize, others: &[&str]) -> String {
  let s = ascii_set();
  let mut v: Vec<u8> = vec![];
  for _ in 0..n {
    let k = choose(others.len() + 1);
    if k == 0 { v.push(byte_in(&s)); } else { v.extend_from_slice(others[k - 1].as_bytes()); }
  }
  unsafe { String::from_utf8_unchecked(v) }
}
/// One to four bytes: any character of the class of that UTF-8 length, symbolically.
pub fn utf8_char() -> String {
  let r = |lo: u8, hi: u8| range(lo, hi);
  let v = match choose(4) {
    0 => vec![r(0, 0x7f)],
    1 => vec![r(0xc2, 0xdf), r(0x80, 0xbf)],
    2 => match choose(4) {
      0 => vec![0xe0, r(0xa0, 0xbf), r(0x80, 0xbf)],
      1 => vec![r(0xe1, 0xec), r(0x80, 0xbf), r(0x80, 0xbf)],
      2 => vec![0xed, r(0x80, 0x9f), r(0x80, 0xbf)],
      _ => vec![r(0xee, 0xef), r(0x80, 0xbf), r(0x80, 0xbf)],
    },
    _ => match choose(3) {
      0 => vec![0xf0, r(0x90, 0xbf), r(0x80, 0xbf), r(0x80, 0xbf)],
      1 => vec![r(0xf1, 0xf3), r(0x80, 0xbf), r(0x80, 0xbf), r(0x80, 0xbf)],
      _ => vec![0xf4, r(0x80, 0x8f), r(0x80, 0xbf), r(0x80, 0xbf)],
    },
  };
  unsafe { String::from_utf8_unchecked(v) }
}
/// Equality of byte strings as one condition (no branch per byte under the engine).
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }
/// The text with every byte settled, each value on a path of its own.
pub fn conc_text(s: String) -> String { let v: Vec<u8> = s.into_bytes().into_iter().map(|b| conc(b as u32) as u8).collect(); unsafe { String::from_utf8_unchecked(v) } }
