//! Floating-point operations on symbolic operands, as integer operations on their bits. `None`: the operand is settled to a value instead
//! (arithmetic, square root).

use crate::expr::*;

struct F { w: u8, m: u8, bias: u64 }
const S: F = F { w: 32, m: 23, bias: 127 };
const D: F = F { w: 64, m: 52, bias: 1023 };

impl Arena {
  fn and1(&mut self, a: Id, b: Id) -> Id { self.bin(K::And, a, b) }
  fn or1(&mut self, a: Id, b: Id) -> Id { self.bin(K::Or, a, b) }
  fn magnitude(&mut self, f: &F, x: Id) -> Id { let k = self.konst(f.w, mask(f.w) >> 1); self.bin(K::And, x, k) }
  fn is_nan(&mut self, f: &F, x: Id) -> Id { let a = self.magnitude(f, x); let inf = self.konst(f.w, (2 * f.bias + 1) << f.m); self.bin(K::Ult, inf, a) }
  /// Order-preserving key of a number that is not NaN; both zeros have the same.
  fn key(&mut self, f: &F, x: Id) -> Id {
    let a = self.magnitude(f, x);
    let neg = self.extract(x, f.w - 1, 1);
    let z = self.konst(f.w, 0);
    let n = self.bin(K::Sub, z, a);
    self.ite(neg, n, a) // compared as signed numbers
  }
  pub fn fcmp(&mut self, op: u64, a: Id, b: Id) -> Option<Id> {
    let (f, o) = match op { 0x5b..=0x60 => (&S, op - 0x5b), 0x61..=0x66 => (&D, op - 0x61), _ => return None };
    let (na, nb) = (self.is_nan(f, a), self.is_nan(f, b));
    let nan = self.or1(na, nb);
    let ok = self.not(nan);
    let (ka, kb) = (self.key(f, a), self.key(f, b));
    let c = match o {
      0 | 1 => self.bin(K::Eq, ka, kb),
      2 => self.bin(K::Slt, ka, kb),
      3 => self.bin(K::Slt, kb, ka),
      4 => { let g = self.bin(K::Slt, kb, ka); self.not(g) }
      _ => { let g = self.bin(K::Slt, ka, kb); self.not(g) }
    };
    let r = self.and1(ok, c);
    Some(if o == 1 { self.not(r) } else { r })
  }
  /// Integer part of the magnitude, for exponents below `bits`: (value in 64 bits, whether the magnitude is at least 2^bits).
  fn int_mag(&mut self, f: &F, x: Id, bits: u64) -> (Id, Id) {
    let a = self.magnitude(f, x);
    let z = 64 - f.w;
    let a = if z > 0 { self.zext(a, 64) } else { a };
    let m = self.konst(64, f.m as u64);
    let e = self.bin(K::LShr, a, m);
    let mm = self.konst(64, mask(f.m));
    let frac = self.bin(K::And, a, mm);
    let one = self.konst(64, 1 << f.m);
    let sig = self.bin(K::Or, frac, one);
    // value = sig * 2^(e - bias - m)
    let c = self.konst(64, f.bias + f.m as u64);
    let up = self.bin(K::Sub, e, c);
    let down = self.bin(K::Sub, c, e);
    let l = self.bin(K::Shl, sig, up);
    let r = self.bin(K::LShr, sig, down);
    let small = self.bin(K::Ult, e, c);
    let v = self.ite(small, r, l);
    let b = self.konst(64, f.bias);
    let zero = self.konst(64, 0);
    let below1 = self.bin(K::Ult, e, b);
    let v = self.ite(below1, zero, v);
    let top = self.konst(64, f.bias + bits);
    let lt = self.bin(K::Ult, e, top);
    let big = self.not(lt);
    (v, big)
  }
  /// Saturating conversion to an integer.
  fn to_int(&mut self, f: &F, x: Id, w: u8, signed: bool) -> Id {
    let nan = self.is_nan(f, x);
    let neg = self.extract(x, f.w - 1, 1);
    let bits = if signed { w as u64 - 1 } else { w as u64 };
    let (v, big) = self.int_mag(f, x, bits);
    let zero = self.konst(64, 0);
    let r = if signed {
      let (hi, lo) = (self.konst(64, (1u64 << (w - 1)) - 1), self.konst(64, (1u64 << (w - 1)).wrapping_neg()));
      let pos = self.ite(big, hi, v);
      let nv = self.bin(K::Sub, zero, v);
      let ng = self.ite(big, lo, nv);
      self.ite(neg, ng, pos)
    } else {
      let hi = self.konst(64, mask(w));
      let pos = self.ite(big, hi, v);
      self.ite(neg, zero, pos)
    };
    let r = self.ite(nan, zero, r);
    self.extract(r, 0, w)
  }
  /// 64-bit magnitude to floating point, round to nearest even.
  fn from_mag(&mut self, f: &F, v: Id) -> Id {
    let n = self.clz(v);
    let s = self.bin(K::Shl, v, n);
    let d = 63 - f.m as u64;
    let dk = self.konst(64, d);
    let q = self.bin(K::LShr, s, dk);
    let rm = self.konst(64, mask(d as u8));
    let r = self.bin(K::And, s, rm);
    let half = self.konst(64, 1 << (d - 1));
    let gt = self.bin(K::Ult, half, r);
    let eq = self.bin(K::Eq, half, r);
    let odd = self.extract(q, 0, 1);
    let tie = self.and1(eq, odd);
    let up = self.or1(gt, tie);
    let up = self.zext(up, 64);
    let e0 = self.konst(64, f.bias + 62); // the leading one of q adds one to the exponent
    let e = self.bin(K::Sub, e0, n);
    let mk = self.konst(64, f.m as u64);
    let e = self.bin(K::Shl, e, mk);
    let x = self.bin(K::Add, e, q);
    let x = self.bin(K::Add, x, up);
    let zero = self.konst(64, 0);
    let isz = self.bin(K::Eq, v, zero);
    let x = self.ite(isz, zero, x);
    self.extract(x, 0, f.w)
  }
  fn from_int(&mut self, f: &F, x: Id, signed: bool) -> Id {
    let w = self.w(x);
    let v = if w == 64 { x } else if signed { self.sext(x, 64) } else { self.zext(x, 64) };
    if !signed { return self.from_mag(f, v); }
    let neg = self.extract(v, 63, 1);
    let z = self.konst(64, 0);
    let n = self.bin(K::Sub, z, v);
    let mag = self.ite(neg, n, v);
    let r = self.from_mag(f, mag);
    let sign = self.konst(f.w, 1 << (f.w - 1));
    let rn = self.bin(K::Or, r, sign);
    self.ite(neg, rn, r)
  }
  fn trunc(&mut self, f: &F, x: Id) -> Id {
    // clear the fraction bits below the point
    let a = self.magnitude(f, x);
    let m = self.konst(f.w, f.m as u64);
    let e = self.bin(K::LShr, a, m);
    let b = self.konst(f.w, f.bias);
    let d = self.bin(K::Sub, e, b);
    let mm = self.konst(f.w, mask(f.m));
    let fr = self.bin(K::LShr, mm, d);
    let all = self.konst(f.w, mask(f.w));
    let keep = self.bin(K::Xor, fr, all);
    let t = self.bin(K::And, x, keep);
    let big = self.konst(f.w, f.bias + f.m as u64);
    let inner = self.bin(K::Ult, e, big);
    let t = self.ite(inner, t, x);
    let sign = self.konst(f.w, 1 << (f.w - 1));
    let s0 = self.bin(K::And, x, sign);
    let lt1 = self.bin(K::Ult, e, b);
    self.ite(lt1, s0, t)
  }
  /// The condition under which a trapping conversion does not trap.
  pub fn fconv_ok(&mut self, op: u64, x: Id) -> Option<Id> {
    let (f, bits, signed) = match op { 0xa8 => (&S, 31, true), 0xa9 => (&S, 32, false), 0xaa => (&D, 31, true), 0xab => (&D, 32, false), 0xae => (&S, 63, true), 0xaf => (&S, 64, false), 0xb0 => (&D, 63, true), 0xb1 => (&D, 64, false), _ => return None };
    let nan = self.is_nan(f, x);
    let ok = self.not(nan);
    let neg = self.extract(x, f.w - 1, 1);
    let (v, big) = self.int_mag(f, x, bits);
    let fits = self.not(big);
    let z = self.konst(64, if signed { 1u64 << bits } else { 0 });
    // negative: at least -2^bits when signed, above -1 when unsigned
    let low = if signed { let lim = self.bin(K::Eq, v, z); let (_, twice) = self.int_mag(f, x, bits + 1); let nt = self.not(twice); let l = self.and1(lim, nt); self.or1(fits, l) } else { let o = self.bin(K::Eq, v, z); self.and1(o, fits) };
    let r = self.ite(neg, low, fits);
    Some(self.and1(ok, r))
  }
  pub fn fun1(&mut self, op: u64, x: Id) -> Option<Id> {
    let flip = |ar: &mut Arena, f: &F| { let s = ar.konst(f.w, 1 << (f.w - 1)); ar.bin(K::Xor, x, s) };
    Some(match op {
      0x8b => self.magnitude(&S, x), 0x99 => self.magnitude(&D, x),
      0x8c => flip(self, &S), 0x9a => flip(self, &D),
      0x8f => self.trunc(&S, x), 0x9d => self.trunc(&D, x),
      0xa8 | 0xfc00 => self.to_int(&S, x, 32, true), 0xa9 | 0xfc01 => self.to_int(&S, x, 32, false),
      0xaa | 0xfc02 => self.to_int(&D, x, 32, true), 0xab | 0xfc03 => self.to_int(&D, x, 32, false),
      0xae | 0xfc04 => self.to_int(&S, x, 64, true), 0xaf | 0xfc05 => self.to_int(&S, x, 64, false),
      0xb0 | 0xfc06 => self.to_int(&D, x, 64, true), 0xb1 | 0xfc07 => self.to_int(&D, x, 64, false),
      0xb2 | 0xb4 => self.from_int(&S, x, true), 0xb3 | 0xb5 => self.from_int(&S, x, false),
      0xb7 | 0xb9 => self.from_int(&D, x, true), 0xb8 | 0xba => self.from_int(&D, x, false),
      _ => return None,
    })
  }
}

#[cfg(test)]
mod tests {
  use super::*;
  use crate::exec::{float1, float2};
  /// Every operation against the concrete one, the operand built from 8 symbolic bytes so that nothing folds before `eval`.
  #[test]
  fn bits_agree_with_the_operations() {
    let mut r = 0x1234_5678_9abc_def1u64;
    let mut next = || { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r };
    let special = [0.0f64, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.5, 4294967296.0, 9223372036854775807.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551615.0, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324];
    for i in 0..600usize {
      let mut ar = Arena::new();
      let sym = |ar: &mut Arena, o: u32| { let mut e = ar.var(o); for k in 1..8 { let b = ar.var(o + k); e = ar.concat(b, e); } e };
      let (x, y) = (sym(&mut ar, 0), sym(&mut ar, 8));
      let val = |i: usize, n: u64| if i < special.len() { special[i].to_bits() } else { match n % 5 { 0 => (special[(n >> 8) as usize % special.len()]).to_bits(), 1 => ((n >> (n % 60)) as f64).to_bits(), 2 => ((n as i64 as f64) / 1e10).to_bits(), 3 => n >> (n % 63), _ => n } };
      let n1 = next(); let n2 = next();
      let (a, b) = (val(i, n1), val(i / special.len(), n2));
      let mut model = a.to_le_bytes().to_vec(); model.extend(b.to_le_bytes());
      for op in [0x8bu64, 0x8c, 0x8f, 0x99, 0x9a, 0x9d, 0xfc00, 0xfc01, 0xfc02, 0xfc03, 0xfc04, 0xfc05, 0xfc06, 0xfc07, 0xb2, 0xb3, 0xb4, 0xb5, 0xb7, 0xb8, 0xb9, 0xba, 0xa8, 0xa9, 0xaa, 0xab, 0xae, 0xaf, 0xb0, 0xb1] {
        let w = match op { 0x8b..=0x91 | 0xa8 | 0xa9 | 0xae | 0xaf | 0xb2 | 0xb3 | 0xb7 | 0xb8 | 0xfc00 | 0xfc01 | 0xfc04 | 0xfc05 => 32, _ => 64 };
        let e = ar.extract(x, 0, w);
        let av = if w == 32 && i % 2 == 0 && op != 0xb2 && op != 0xb3 && op != 0xb7 && op != 0xb8 { let f = (f64::from_bits(a) as f32).to_bits() as u64; model[..4].copy_from_slice(&(f as u32).to_le_bytes()); f } else { model[..8].copy_from_slice(&a.to_le_bytes()); a & mask(w) };
        let got = ar.fun1(op, e).unwrap();
        let g = ar.eval(got, &model);
        let want = float1(op, av);
        if let Some(c) = ar.fconv_ok(op, e) { assert_eq!(ar.eval(c, &model) == 1, want.is_some(), "{op:x} of {av:x}"); }
        if let Some(wv) = want { if op == 0x8f || op == 0x9d { let nan = if w == 32 { f32::from_bits(av as u32).is_nan() } else { f64::from_bits(av).is_nan() }; if nan { continue; } } assert_eq!(g, wv, "{op:x} of {av:x}"); }
      }
      model[..8].copy_from_slice(&a.to_le_bytes());
      for op in 0x61..=0x66u64 { let c = ar.fcmp(op, x, y).unwrap(); assert_eq!(ar.eval(c, &model), float2(op, a, b), "{op:x} {a:x} {b:x}"); }
      let (xs, ys) = (ar.extract(x, 0, 32), ar.extract(y, 0, 32));
      for op in 0x5b..=0x60u64 { let c = ar.fcmp(op, xs, ys).unwrap(); assert_eq!(ar.eval(c, &model), float2(op, a & mask(32), b & mask(32)), "{op:x} {a:x} {b:x}"); }
    }
  }
}
