//! Hash-consed bit-vector expressions over 8-bit input variables.
//!
//! An expression over a single input byte is always kept as a `Tab`: its value for each of the 256 values of that byte.
//! Everything else is an operator node. `Const` and `Tab` are therefore canonical.

use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32; // 0: no expression

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K { None, Const, Tab, Not, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt, Ite, Concat, Extract, SExt }

#[derive(Clone, Copy)]
pub struct Node { pub k: K, pub w: u8, pub a: Id, pub b: Id, pub c: Id, pub imm: u64, pub lo: u64, pub hi: u64, pub sup: u128, pub hash: u64 }

pub type Table = [u64; 256];
pub type Set = [u64; 4];

pub fn mask(w: u8) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sext64(v: u64, w: u8) -> i64 { let s = 64 - w as u32; ((v << s) as i64) >> s }

fn mix(h: u64, v: u64) -> u64 {
  let x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
  let x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  x ^ (x >> 32)
}

/// Multiplicative hasher for the hash-consing table.
#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, b: &[u8]) { for x in b { self.0 = mix(self.0, *x as u64); } }
  fn write_u8(&mut self, v: u8) { self.0 = mix(self.0, v as u64); }
  fn write_u32(&mut self, v: u32) { self.0 = mix(self.0, v as u64); }
  fn write_u64(&mut self, v: u64) { self.0 = mix(self.0, v); }
  fn write_usize(&mut self, v: usize) { self.0 = mix(self.0, v as u64); }
  fn write_isize(&mut self, v: isize) { self.0 = mix(self.0, v as u64); }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;
pub type FxMap<A, B> = HashMap<A, B, Fx>;

pub struct Arena {
  pub n: Vec<Node>,
  pub tabs: Vec<Rc<Table>>,
  cons: FxMap<(K, u8, Id, Id, Id, u64), Id>,
  tcons: FxMap<(u8, u8, u64), Vec<Id>>,
  parts: FxMap<(Id, u8, u8), Id>,
  eval_c: Vec<(u32, u64)>,
  epoch: u32,
}

pub fn fold(k: K, w: u8, a: u64, b: u64) -> u64 {
  // w: width of the operands
  let m = mask(w);
  (match k {
    K::Add => a.wrapping_add(b),
    K::Sub => a.wrapping_sub(b),
    K::Mul => a.wrapping_mul(b),
    K::UDiv => if b == 0 { u64::MAX } else { a / b },
    K::URem => if b == 0 { a } else { a % b },
    K::SDiv => { let (x, y) = (sext64(a, w), sext64(b, w)); if y == 0 { if x >= 0 { u64::MAX } else { 1 } } else { x.wrapping_div(y) as u64 } }
    K::SRem => { let (x, y) = (sext64(a, w), sext64(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u64 } }
    K::And => a & b,
    K::Or => a | b,
    K::Xor => a ^ b,
    K::Shl => if b >= w as u64 { 0 } else { a << b },
    K::LShr => if b >= w as u64 { 0 } else { a >> b },
    K::AShr => { let s = if b >= w as u64 { w as u64 - 1 } else { b }; (sext64(a, w) >> s) as u64 }
    K::Eq => return (a == b) as u64,
    K::Ult => return (a < b) as u64,
    K::Slt => return (sext64(a, w) < sext64(b, w)) as u64,
    _ => unreachable!(),
  }) & m
}

impl Arena {
  pub fn new() -> Arena {
    let none = Node { k: K::None, w: 0, a: 0, b: 0, c: 0, imm: 0, lo: 0, hi: 0, sup: 0, hash: 0 };
    Arena { n: vec![none], tabs: vec![], cons: Default::default(), tcons: Default::default(), parts: Default::default(), eval_c: vec![], epoch: 0 }
  }
  pub fn size(&self) -> usize { self.n.len() * 120 + self.tabs.len() * 2100 }
  #[inline] pub fn w(&self, e: Id) -> u8 { self.n[e as usize].w }
  #[inline] pub fn k(&self, e: Id) -> K { self.n[e as usize].k }
  pub fn konst(&mut self, w: u8, v: u64) -> Id {
    let v = v & mask(w);
    self.mk(K::Const, w, 0, 0, 0, v)
  }
  pub fn as_const(&self, e: Id) -> Option<u64> { let n = &self.n[e as usize]; if n.k == K::Const { Some(n.imm) } else { None } }
  pub fn table(&self, e: Id) -> Rc<Table> { self.tabs[self.n[e as usize].imm as usize].clone() }
  pub fn set(&self, e: Id) -> Set {
    let t = &self.tabs[self.n[e as usize].imm as usize];
    let mut s = [0u64; 4];
    for i in 0..256 { s[i >> 6] |= (t[i] & 1) << (i & 63); }
    s
  }
  pub fn var(&mut self, i: u32) -> Id {
    let mut t = [0u64; 256];
    for (k, x) in t.iter_mut().enumerate() { *x = k as u64; }
    self.tab(i, 8, t)
  }
  pub fn in_set(&mut self, var: u32, s: &Set) -> Id {
    let mut t = [0u64; 256];
    for i in 0..256 { t[i] = s[i >> 6] >> (i & 63) & 1; }
    self.tab(var, 1, t)
  }
  pub fn tab(&mut self, var: u32, w: u8, t: Table) -> Id {
    let first = t[0];
    let (mut lo, mut hi, mut h, mut same) = (first, first, 0x1234u64, true);
    for x in t.iter() {
      let x = *x;
      if x < lo { lo = x; } if x > hi { hi = x; }
      same &= x == first;
      h = (h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    if same { return self.konst(w, first); }
    let key = (w, var as u8, h);
    if let Some(v) = self.tcons.get(&key) {
      for e in v { if *self.tabs[self.n[*e as usize].imm as usize] == t { return *e; } }
    }
    let id = self.n.len() as Id;
    let ti = self.tabs.len() as u64;
    self.tabs.push(Rc::new(t));
    let hash = mix(mix(h, var as u64), w as u64 + 1000);
    self.n.push(Node { k: K::Tab, w, a: var, b: 0, c: 0, imm: ti, lo, hi, sup: 1u128 << var, hash });
    self.tcons.entry(key).or_default().push(id);
    id
  }
  fn mk(&mut self, k: K, w: u8, a: Id, b: Id, c: Id, imm: u64) -> Id {
    if let Some(e) = self.cons.get(&(k, w, a, b, c, imm)) { return *e; }
    let (na, nb, nc) = (self.n[a as usize], self.n[b as usize], self.n[c as usize]);
    let m = mask(w);
    let (lo, hi) = match k {
      K::Const => (imm, imm),
      K::Concat => ((na.lo << nb.w) | nb.lo, (na.hi << nb.w) | nb.hi),
      K::Extract => if imm == 0 && na.hi <= m { (na.lo, na.hi) } else { let h = na.hi >> imm; if h <= m { (na.lo >> imm, h) } else { (0, m) } },
      K::Ite => (nb.lo.min(nc.lo), nb.hi.max(nc.hi)),
      K::And => (0, na.hi.min(nb.hi)),
      K::Or => { let x = na.hi | nb.hi; (na.lo.max(nb.lo), if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() }) }
      K::Xor => { let x = na.hi | nb.hi; (0, if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() }) }
      K::Add => match na.hi.checked_add(nb.hi) {
        Some(h) if h <= m => (na.lo + nb.lo, h),
        _ => {
          // adding a constant that always wraps (a subtraction that never borrows)
          let (l, o1) = na.lo.overflowing_add(nb.lo);
          if w == 64 { if o1 { (l, na.hi.wrapping_add(nb.hi)) } else { (0, m) } } else if l > m { (l & m, (na.hi + nb.hi) & m) } else { (0, m) }
        }
      },
      K::Sub => if na.lo >= nb.hi { (na.lo - nb.hi, na.hi - nb.lo) } else { (0, m) },
      K::Mul => match na.hi.checked_mul(nb.hi) { Some(h) if h <= m => (na.lo * nb.lo, h), _ => (0, m) },
      K::UDiv => if nb.lo > 0 { (na.lo / nb.hi, na.hi / nb.lo) } else { (0, m) },
      K::URem => if nb.hi > 0 && nb.lo > 0 { (0, na.hi.min(nb.hi - 1)) } else { (0, na.hi) },
      K::LShr => (0, na.hi),
      K::SExt => if na.hi < 1 << (na.w - 1) { (na.lo, na.hi) } else if na.lo >= 1 << (na.w - 1) { (sext64(na.lo, na.w) as u64 & m, sext64(na.hi, na.w) as u64 & m) } else { (0, m) },
      _ => (0, m),
    };
    let sup = na.sup | nb.sup | nc.sup;
    let hash = mix(mix(mix(mix(k as u64 * 31 + w as u64, na.hash), nb.hash.rotate_left(17)), nc.hash.rotate_left(31)), imm);
    let id = self.n.len() as Id;
    self.n.push(Node { k, w, a, b, c, imm, lo, hi, sup, hash });
    self.cons.insert((k, w, a, b, c, imm), id);
    id
  }

  /// The common variable of constant / single-byte operands: Ok(None) when all are constant, Err when it needs a node.
  fn joint(&self, es: &[Id]) -> Result<Option<u32>, ()> {
    let mut v = None;
    for e in es {
      let n = &self.n[*e as usize];
      match n.k { K::Const => {} K::Tab => match v { None => v = Some(n.a), Some(x) if x == n.a => {} _ => return Err(()) }, _ => return Err(()) }
    }
    Ok(v)
  }
  fn lanes(&self, e: Id) -> Table {
    let n = &self.n[e as usize];
    if n.k == K::Const { [n.imm; 256] } else { *self.tabs[n.imm as usize] }
  }

  pub fn not(&mut self, a: Id) -> Id {
    debug_assert_eq!(self.w(a), 1);
    let n = self.n[a as usize];
    match n.k {
      K::Const => self.konst(1, n.imm ^ 1),
      K::Tab => { let mut t = *self.table(a); for x in t.iter_mut() { *x ^= 1; } self.tab(n.a, 1, t) }
      K::Not => n.a,
      _ => self.mk(K::Not, 1, a, 0, 0, 0),
    }
  }

  /// High-to-low parts of a concatenation.
  fn parts(&self, e: Id, out: &mut Vec<Id>) {
    let mut e = e;
    loop {
      let n = &self.n[e as usize];
      if n.k == K::Concat { self.parts(n.a, out); e = n.b; } else { out.push(e); return; }
    }
  }
  pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
    let mut p = vec![];
    self.parts(hi, &mut p); self.parts(lo, &mut p);
    self.concat_parts(p)
  }
  fn concat_parts(&mut self, p: Vec<Id>) -> Id {
    let mut q: Vec<Id> = Vec::with_capacity(p.len());
    for e in p {
      if let Some(&l) = q.last() {
        let (x, y) = (self.n[l as usize], self.n[e as usize]);
        let w = x.w + y.w;
        let merged = match (x.k, y.k) {
          (K::Const, K::Const) => Some(self.konst(w, (x.imm << y.w) | y.imm)),
          (K::Extract, K::Extract) if x.a == y.a && x.imm == y.imm + y.w as u64 => Some(self.extract(y.a, y.imm as u8, w)),
          _ => match self.joint(&[l, e]) {
            Ok(Some(v)) => { let (s, t) = (self.lanes(l), self.lanes(e)); let mut r = [0; 256]; for i in 0..256 { r[i] = (s[i] << y.w) | t[i]; } Some(self.tab(v, w, r)) }
            _ => None,
          },
        };
        if let Some(z) = merged {
          q.pop();
          // what comes out may itself join with the part before it
          let mut z = z;
          while let Some(&l) = q.last() {
            match self.joint(&[l, z]) {
              Ok(v) => {
                q.pop();
                let yw = self.w(z); let w = self.w(l) + yw;
                let (s, t) = (self.lanes(l), self.lanes(z));
                let mut r = [0; 256];
                for i in 0..256 { r[i] = (s[i] << yw) | t[i]; }
                z = match v { Some(v) => self.tab(v, w, r), None => self.konst(w, r[0]) };
              }
              Err(_) => break,
            }
          }
          q.push(z);
          continue;
        }
      }
      q.push(e);
    }
    let mut r = q.pop().unwrap();
    while let Some(h) = q.pop() {
      let w = self.w(h) + self.w(r);
      r = self.mk(K::Concat, w, h, r, 0, 0);
    }
    r
  }
  pub fn zext(&mut self, a: Id, w: u8) -> Id {
    let aw = self.w(a);
    if aw == w { return a; }
    let z = self.konst(w - aw, 0);
    self.concat(z, a)
  }
  pub fn sext(&mut self, a: Id, w: u8) -> Id {
    let n = self.n[a as usize];
    if n.w == w { return a; }
    match n.k {
      K::Const => return self.konst(w, sext64(n.imm, n.w) as u64),
      K::Tab => { let t = self.table(a); let mut r = [0; 256]; for i in 0..256 { r[i] = sext64(t[i], n.w) as u64 & mask(w); } return self.tab(n.a, w, r); }
      K::SExt => return self.sext(n.a, w),
      _ => {}
    }
    if n.hi < 1 << (n.w - 1) { return self.zext(a, w); }
    if n.k == K::Ite && (self.k(n.b) == K::Const || self.k(n.c) == K::Const) { let (x, y) = (self.sext(n.b, w), self.sext(n.c, w)); return self.ite(n.a, x, y); }
    self.mk(K::SExt, w, a, 0, 0, 0)
  }
  pub fn extract(&mut self, x: Id, lo: u8, w: u8) -> Id {
    let n = self.n[x as usize];
    if lo == 0 && w == n.w { return x; }
    match n.k {
      K::Const => return self.konst(w, n.imm >> lo),
      K::Tab => { let t = self.table(x); let mut r = [0; 256]; for i in 0..256 { r[i] = (t[i] >> lo) & mask(w); } return self.tab(n.a, w, r); }
      K::Extract => return self.extract(n.a, n.imm as u8 + lo, w),
      K::Concat => {
        let lw = self.w(n.b);
        if lo >= lw { return self.extract(n.a, lo - lw, w); }
        if lo + w <= lw { return self.extract(n.b, lo, w); }
        let l = self.extract(n.b, lo, lw - lo);
        let h = self.extract(n.a, 0, w - (lw - lo));
        return self.concat(h, l);
      }
      K::SExt => {
        let iw = self.w(n.a);
        if lo + w <= iw { return self.extract(n.a, lo, w); }
        if lo == 0 { return self.sext(n.a, w); }
        if lo < iw { let y = self.extract(n.a, lo, iw - lo); return self.sext(y, w); }
      }
      _ => {}
    }
    // the operations through which it is taken: each of their nodes once
    let through = matches!(n.k, K::And | K::Or | K::Xor | K::Ite) || lo == 0 && matches!(n.k, K::Add | K::Sub | K::Mul);
    if !through {
      if n.hi >> lo == 0 { return self.konst(w, 0); }
      return self.mk(K::Extract, w, x, 0, 0, lo as u64);
    }
    if let Some(e) = self.parts.get(&(x, lo, w)) { return *e; }
    let r = if n.k == K::Ite { let (a, b) = (self.extract(n.b, lo, w), self.extract(n.c, lo, w)); self.ite(n.a, a, b) }
      else { let (a, b) = (self.extract(n.a, lo, w), self.extract(n.b, lo, w)); self.bin(n.k, a, b) };
    self.parts.insert((x, lo, w), r);
    r
  }
  pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
    if a == b { return a; }
    let nc = self.n[c as usize];
    if nc.k == K::Const { return if nc.imm == 1 { a } else { b }; }
    if nc.k == K::Not { return self.ite(nc.a, b, a); }
    let w = self.w(a);
    if let Ok(Some(v)) = self.joint(&[c, a, b]) {
      let (tc, ta, tb) = (self.lanes(c), self.lanes(a), self.lanes(b));
      let mut r = [0; 256];
      for i in 0..256 { r[i] = if tc[i] == 1 { ta[i] } else { tb[i] }; }
      return self.tab(v, w, r);
    }
    if w == 1 {
      match (self.as_const(a), self.as_const(b)) {
        (Some(1), Some(0)) => return c,
        (Some(0), Some(1)) => return self.not(c),
        (Some(1), _) => return self.bin(K::Or, c, b),
        (Some(0), _) => { let n = self.not(c); return self.bin(K::And, n, b); }
        (_, Some(0)) => return self.bin(K::And, c, a),
        (_, Some(1)) => { let n = self.not(c); return self.bin(K::Or, n, a); }
        _ => {}
      }
    }
    let (na, nb) = (self.n[a as usize], self.n[b as usize]);
    if na.k == K::Ite && na.a == c { return self.ite(c, na.b, b); }
    if nb.k == K::Ite && nb.a == c { return self.ite(c, a, nb.c); }
    self.mk(K::Ite, w, c, a, b, 0)
  }

  /// Splits `e` at the given ascending bit boundaries; low to high.
  fn split(&mut self, e: Id, cuts: &[u8]) -> Vec<Id> {
    let w = self.w(e);
    let mut r = vec![]; let mut lo = 0;
    for c in cuts.iter().chain(std::iter::once(&w)) { r.push(self.extract(e, lo, c - lo)); lo = *c; }
    r
  }
  fn boundaries(&self, e: Id, out: &mut Vec<u8>) {
    let mut p = vec![];
    self.parts(e, &mut p);
    let mut pos = 0u8;
    for x in p.iter().rev() { pos += self.w(*x); out.push(pos); }
    out.pop();
  }

  pub fn bin(&mut self, k: K, a: Id, b: Id) -> Id {
    let (mut a, mut b) = (a, b);
    let w = self.w(a);
    debug_assert_eq!(w, self.w(b), "{k:?}");
    let rw = match k { K::Eq | K::Ult | K::Slt => 1, _ => w };
    match self.joint(&[a, b]) {
      Ok(None) => { let v = fold(k, w, self.n[a as usize].imm, self.n[b as usize].imm); return self.konst(rw, v); }
      Ok(Some(v)) => {
        let (ta, tb) = (self.lanes(a), self.lanes(b));
        let mut r = [0u64; 256];
        for i in 0..256 { r[i] = fold(k, w, ta[i], tb[i]); }
        return self.tab(v, rw, r);
      }
      Err(_) => {}
    }
    if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) {
      // constants on the right; otherwise ordered by structure
      let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
      if na.k == K::Const || (nb.k != K::Const && na.hash > nb.hash) { std::mem::swap(&mut a, &mut b); }
    }
    let (na, nb) = (self.n[a as usize], self.n[b as usize]);
    if w == 1 {
      match k {
        K::Sub => return self.bin(K::Xor, a, b),
        K::Mul => return self.bin(K::And, a, b),
        K::Shl | K::LShr => { let c = self.not(b); return self.bin(K::And, a, c); }
        K::AShr => return a,
        _ => {}
      }
    }
    let m = mask(w);
    let cb = if nb.k == K::Const { Some(nb.imm) } else { None };
    let ca = if na.k == K::Const { Some(na.imm) } else { None };
    match k {
      K::Add => {
        if cb == Some(0) { return a; }
        if let Some(c) = cb { if na.k == K::Add { if let Some(d) = self.as_const(na.b) { let s = self.konst(w, c.wrapping_add(d)); return self.bin(K::Add, na.a, s); } } }
        if w == 1 { return self.bin(K::Xor, a, b); }
      }
      K::Sub => {
        if a == b { return self.konst(w, 0); }
        if let Some(c) = cb { let s = self.konst(w, c.wrapping_neg()); return self.bin(K::Add, a, s); }
        if na.k == K::Add && na.a == b { return na.b; }
        if na.k == K::Add && na.b == b { return na.a; }
      }
      K::Mul => {
        if let Some(c) = cb {
          if c == 0 { return b; } if c == 1 { return a; }
          if c.is_power_of_two() { let s = self.konst(w, c.trailing_zeros() as u64); return self.bin(K::Shl, a, s); }
        }
      }
      K::UDiv => if let Some(c) = cb {
        if c == 1 { return a; }
        if c.is_power_of_two() { let s = self.konst(w, c.trailing_zeros() as u64); return self.bin(K::LShr, a, s); }
        if na.hi < c { return self.konst(w, 0); }
      },
      K::URem => if let Some(c) = cb {
        if c.is_power_of_two() { let s = self.konst(w, c - 1); return self.bin(K::And, a, s); }
        if c != 0 && na.hi < c { return a; }
      },
      K::SDiv => if cb.is_some() && na.hi < 1 << (w - 1) && nb.hi < 1 << (w - 1) { return self.bin(K::UDiv, a, b); },
      K::SRem => if cb.is_some() && na.hi < 1 << (w - 1) && nb.hi < 1 << (w - 1) { return self.bin(K::URem, a, b); },
      K::And | K::Or | K::Xor => {
        if a == b { return if k == K::Xor { self.konst(w, 0) } else { a }; }
        if let Some(c) = cb {
          match k {
            K::And => { if c == 0 { return b; } if c == m { return a; } }
            K::Or => { if c == 0 { return a; } if c == m { return b; } }
            _ => { if c == 0 { return a; } if w == 1 { return self.not(a); } }
          }
        }
        if w == 1 {
          if (na.k == K::Not && na.a == b) || (nb.k == K::Not && nb.a == a) { return self.konst(1, if k == K::And { 0 } else { 1 }); }
        } else {
          // distribute over concatenations and constant masks
          let mut cuts = vec![];
          self.boundaries(a, &mut cuts); self.boundaries(b, &mut cuts);
          if let Some(c) = cb {
            // cut the constant into runs of equal bits
            if k != K::Xor { for i in 1..w { if (c >> i & 1) != (c >> (i - 1) & 1) { cuts.push(i); } } }
          }
          cuts.sort(); cuts.dedup();
          if !cuts.is_empty() && cuts.len() <= 16 {
            let (pa, pb) = (self.split(a, &cuts), self.split(b, &cuts));
            let easy = pa.iter().zip(pb.iter()).all(|(x, y)| self.joint(&[*x, *y]).is_ok() || {
              let (cx, cy) = (self.as_const(*x), self.as_const(*y));
              let mm = mask(self.w(*x));
              let triv = |c: Option<u64>| match c { Some(0) => true, Some(v) => v == mm && k != K::Xor, None => false };
              triv(cx) || triv(cy)
            });
            if easy {
              let mut r: Vec<Id> = vec![];
              for (x, y) in pa.into_iter().zip(pb).rev() { let z = self.bin(k, x, y); self.parts(z, &mut r); }
              return self.concat_parts(r);
            }
          }
        }
      }
      K::Shl => if let Some(c) = cb {
        if c == 0 { return a; }
        if c >= w as u64 { return self.konst(w, 0); }
        let l = self.extract(a, 0, w - c as u8); let z = self.konst(c as u8, 0);
        return self.concat(l, z);
      },
      K::LShr => if let Some(c) = cb {
        if c == 0 { return a; }
        if c >= w as u64 { return self.konst(w, 0); }
        let h = self.extract(a, c as u8, w - c as u8);
        return self.zext(h, w);
      },
      K::AShr => if let Some(c) = cb {
        if c == 0 { return a; }
        let c = c.min(w as u64 - 1);
        let h = self.extract(a, c as u8, w - c as u8);
        return self.sext(h, w);
      },
      K::Eq => {
        if a == b { return self.konst(1, 1); }
        if na.hi < nb.lo || nb.hi < na.lo { return self.konst(1, 0); }
        if w == 1 {
          if let Some(c) = cb { return if c == 1 { a } else { self.not(a) }; }
        }
        if let Some(c) = cb {
          match na.k {
            K::Add => if let Some(d) = self.as_const(na.b) { let s = self.konst(w, c.wrapping_sub(d)); return self.bin(K::Eq, na.a, s); },
            K::Xor => if let Some(d) = self.as_const(na.b) { let s = self.konst(w, c ^ d); return self.bin(K::Eq, na.a, s); },
            K::Sub => if c == 0 { return self.bin(K::Eq, na.a, na.b); },
            K::SExt => {
              let iw = self.w(na.a);
              let t = c & mask(iw);
              return if sext64(t, iw) as u64 & m == c { let s = self.konst(iw, t); self.bin(K::Eq, na.a, s) } else { self.konst(1, 0) };
            }
            K::Ite => if self.k(na.b) == K::Const || self.k(na.c) == K::Const || self.as_ite_const(na.b) || self.as_ite_const(na.c) {
              let (x, y) = (self.bin(K::Eq, na.b, b), self.bin(K::Eq, na.c, b));
              return self.ite(na.a, x, y);
            },
            _ => {}
          }
        }
        if na.k == K::Concat || nb.k == K::Concat {
          let mut cuts = vec![];
          self.boundaries(a, &mut cuts); self.boundaries(b, &mut cuts);
          cuts.sort(); cuts.dedup();
          if cb.is_some() || cuts.len() <= 8 {
            let (pa, pb) = (self.split(a, &cuts), self.split(b, &cuts));
            let mut r = self.konst(1, 1);
            for (x, y) in pa.into_iter().zip(pb) { let z = self.bin(K::Eq, x, y); r = self.bin(K::And, r, z); if self.as_const(r) == Some(0) { return r; } }
            return r;
          }
        }
      }
      K::Ult => {
        if a == b { return self.konst(1, 0); }
        if na.hi < nb.lo { return self.konst(1, 1); }
        if na.lo >= nb.hi { return self.konst(1, 0); }
        if cb == Some(1) { let z = self.konst(w, 0); return self.bin(K::Eq, a, z); }
        if ca == Some(0) { let z = self.konst(w, 0); let q = self.bin(K::Eq, b, z); return self.not(q); }
        if cb.is_some() && na.k == K::Ite && (self.k(na.b) == K::Const || self.k(na.c) == K::Const) {
          let (x, y) = (self.bin(K::Ult, na.b, b), self.bin(K::Ult, na.c, b)); return self.ite(na.a, x, y);
        }
        if ca.is_some() && nb.k == K::Ite && (self.k(nb.b) == K::Const || self.k(nb.c) == K::Const) {
          let (x, y) = (self.bin(K::Ult, a, nb.b), self.bin(K::Ult, a, nb.c)); return self.ite(nb.a, x, y);
        }
        // drop leading zero bits
        let top = 64 - (na.hi | nb.hi).leading_zeros() as u8;
        if top < w && top > 0 && (na.k == K::Concat || nb.k == K::Concat) && self.strip(a) && self.strip(b) {
          let (x, y) = (self.extract(a, 0, top), self.extract(b, 0, top)); return self.bin(K::Ult, x, y);
        }
      }
      K::Slt => {
        if a == b { return self.konst(1, 0); }
        let h = 1u64 << (w - 1);
        if na.hi < h && nb.hi < h { return self.bin(K::Ult, a, b); }
        if na.lo >= h && nb.lo >= h { return self.bin(K::Ult, a, b); }
        if na.hi < h && nb.lo >= h { return self.konst(1, 0); }
        if na.lo >= h && nb.hi < h { return self.konst(1, 1); }
        if cb == Some(0) { return self.extract(a, w - 1, 1); }
        if ca == Some(m) { let s = self.extract(b, w - 1, 1); return self.not(s); }
        if cb.is_some() && na.k == K::Ite && (self.k(na.b) == K::Const || self.k(na.c) == K::Const) {
          let (x, y) = (self.bin(K::Slt, na.b, b), self.bin(K::Slt, na.c, b)); return self.ite(na.a, x, y);
        }
        if ca.is_some() && nb.k == K::Ite && (self.k(nb.b) == K::Const || self.k(nb.c) == K::Const) {
          let (x, y) = (self.bin(K::Slt, a, nb.b), self.bin(K::Slt, a, nb.c)); return self.ite(nb.a, x, y);
        }
      }
      _ => {}
    }
    self.mk(k, rw, a, b, 0, 0)
  }
  fn strip(&self, e: Id) -> bool { matches!(self.k(e), K::Concat | K::Const | K::Tab) }
  fn as_ite_const(&self, e: Id) -> bool { let n = &self.n[e as usize]; n.k == K::Ite && self.k(n.b) == K::Const && self.k(n.c) == K::Const }
  pub fn ne(&mut self, a: Id, b: Id) -> Id { let e = self.bin(K::Eq, a, b); self.not(e) }

  /// Position of the highest / lowest set bit as a nest of choices.
  pub fn clz(&mut self, a: Id) -> Id {
    let w = self.w(a);
    if let Some(v) = self.as_const(a) { return self.konst(w, (v << (64 - w)).leading_zeros().min(w as u32) as u64); }
    let mut r = self.konst(w, w as u64);
    for i in 0..w { let b = self.extract(a, i, 1); let k = self.konst(w, (w - 1 - i) as u64); r = self.ite(b, k, r); }
    r
  }
  pub fn ctz(&mut self, a: Id) -> Id {
    let w = self.w(a);
    let mut r = self.konst(w, w as u64);
    for i in (0..w).rev() { let b = self.extract(a, i, 1); let k = self.konst(w, i as u64); r = self.ite(b, k, r); }
    r
  }
  pub fn popcnt(&mut self, a: Id) -> Id {
    let w = self.w(a);
    let mut r = self.konst(w, 0);
    for i in 0..w { let b = self.extract(a, i, 1); let b = self.zext(b, w); r = self.bin(K::Add, r, b); }
    r
  }

  /// Value under an assignment of the input bytes.
  pub fn eval(&mut self, e: Id, model: &[u8]) -> u64 {
    let n = &self.n[e as usize];
    match n.k {
      K::Const => return n.imm,
      K::Tab => return self.tabs[n.imm as usize][model[n.a as usize] as usize],
      _ => {}
    }
    self.epoch = self.epoch.wrapping_add(1);
    if self.epoch == 0 { self.eval_c.clear(); self.epoch = 1; }
    if self.eval_c.len() < self.n.len() { let l = self.n.len(); self.eval_c.resize(l + l / 2 + 1024, (0, 0)); }
    self.ev(e, model)
  }
  fn ev(&mut self, e: Id, model: &[u8]) -> u64 {
    let n = self.n[e as usize];
    match n.k {
      K::Const => return n.imm,
      K::Tab => return self.tabs[n.imm as usize][model[n.a as usize] as usize],
      _ => {}
    }
    let c = self.eval_c[e as usize];
    if c.0 == self.epoch { return c.1; }
    let v = match n.k {
      K::Not => self.ev(n.a, model) ^ 1,
      K::Ite => if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) },
      K::Concat => { let wl = self.w(n.b); (self.ev(n.a, model) << wl) | self.ev(n.b, model) }
      K::Extract => (self.ev(n.a, model) >> n.imm) & mask(n.w),
      K::SExt => { let iw = self.w(n.a); sext64(self.ev(n.a, model), iw) as u64 & mask(n.w) }
      K::And if n.w == 1 => if self.ev(n.a, model) == 0 { 0 } else { self.ev(n.b, model) },
      K::Or if n.w == 1 => if self.ev(n.a, model) == 1 { 1 } else { self.ev(n.b, model) },
      k => { let w = self.w(n.a); let (x, y) = (self.ev(n.a, model), self.ev(n.b, model)); fold(k, w, x, y) }
    };
    self.eval_c[e as usize] = (self.epoch, v);
    v
  }

  /// Least and greatest value of `e` over all inputs whose bytes lie in `dom` (an over-approximation).
  pub fn bounds(&self, e: Id, dom: &[Set], memo: &mut FxMap<Id, (u64, u64)>) -> (u64, u64) {
    let n = &self.n[e as usize];
    match n.k {
      K::Const => return (n.imm, n.imm),
      K::Tab => {
        if let Some(r) = memo.get(&e) { return *r; }
        let (t, d) = (&self.tabs[n.imm as usize], &dom[n.a as usize]);
        let (mut lo, mut hi) = (u64::MAX, 0);
        for i in 0..256usize { if d[i >> 6] >> (i & 63) & 1 == 1 { let x = t[i]; if x < lo { lo = x; } if x > hi { hi = x; } } }
        if lo > hi { return (n.lo, n.hi); }
        memo.insert(e, (lo, hi));
        return (lo, hi);
      }
      _ => {}
    }
    if let Some(r) = memo.get(&e) { return *r; }
    let (w, m) = (n.w, mask(n.w));
    let (al, ah) = if n.a != 0 { self.bounds(n.a, dom, memo) } else { (0, 0) };
    let (bl, bh) = if n.b != 0 { self.bounds(n.b, dom, memo) } else { (0, 0) };
    let aw = if n.a != 0 { self.w(n.a) } else { 0 };
    let pow = |x: u64| if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
    let r = match n.k {
      K::Not => (1 - ah, 1 - al),
      K::Concat => { let bw = self.w(n.b); ((al << bw) | bl, (ah << bw) | bh) }
      K::Extract => { let (l, h) = (al >> n.imm, ah >> n.imm); if h <= m { (l, h) } else if l & !m == h & !m { (l & m, h & m) } else { (0, m) } }
      K::Ite => { let (cl, ch) = self.bounds(n.c, dom, memo); if al == 1 { (bl, bh) } else if ah == 0 { (cl, ch) } else { (bl.min(cl), bh.max(ch)) } }
      K::And => if w == 1 { (al & bl, ah & bh) } else { (0, ah.min(bh)) },
      K::Or => (al.max(bl), if w == 1 { ah | bh } else { pow(ah | bh) }),
      K::Xor => (0, pow(ah | bh)),
      K::Add => match ah.checked_add(bh) {
        Some(h) if h <= m => (al + bl, h),
        _ => { let (l, o) = al.overflowing_add(bl); if w == 64 { if o { (l, ah.wrapping_add(bh)) } else { (0, m) } } else if l > m { (l & m, (ah + bh) & m) } else { (0, m) } }
      },
      K::Sub => if al >= bh { (al - bh, ah - bl) } else { (0, m) },
      K::Mul => match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) },
      K::UDiv => if bl > 0 { (al / bh, ah / bl) } else { (0, m) },
      K::URem => if bl > 0 { if bl == bh && al / bl == ah / bl { (al % bl, ah % bl) } else { (0, ah.min(bh - 1)) } } else { (0, m) },
      K::LShr => if bl == bh { if bl >= w as u64 { (0, 0) } else { (al >> bl, ah >> bl) } } else { (0, ah) },
      K::Shl => if bl == bh && bl < w as u64 && ah.leading_zeros() as u64 >= bl + 64 - w as u64 { (al << bl, ah << bl) } else { (0, m) },
      K::AShr => if ah >> (w - 1) == 0 { if bl == bh && bl < w as u64 { (al >> bl, ah >> bl) } else { (0, ah) } } else { (0, m) },
      K::SExt => if ah < 1 << (aw - 1) { (al, ah) } else if al >= 1 << (aw - 1) { (sext64(al, aw) as u64 & m, sext64(ah, aw) as u64 & m) } else { (0, m) },
      K::Eq => if ah < bl || bh < al { (0, 0) } else if al == ah && bl == bh && al == bl { (1, 1) } else { (0, 1) },
      K::Ult => if ah < bl { (1, 1) } else if al >= bh { (0, 0) } else { (0, 1) },
      K::Slt => {
        // both halves of the signed range keep their order
        let top = 1u64 << (aw - 1);
        let side = |l: u64, h: u64| if h < top || l >= top { Some((sext64(l, aw), sext64(h, aw))) } else { None };
        match (side(al, ah), side(bl, bh)) { (Some((al, ah)), Some((bl, bh))) => if ah < bl { (1, 1) } else if al >= bh { (0, 0) } else { (0, 1) }, _ => (0, 1) }
      }
      _ => (0, m),
    };
    memo.insert(e, r);
    r
  }

  /// Rebuilds `e` with the variables in `fixed` replaced by their value in `vals`.
  pub fn subst(&mut self, e: Id, fixed: u128, vals: &dyn Fn(u32) -> u64, memo: &mut FxMap<Id, Id>) -> Id {
    let n = self.n[e as usize];
    if n.sup & fixed == 0 { return e; }
    if n.k == K::Tab { let v = self.tabs[n.imm as usize][vals(n.a) as usize]; return self.konst(n.w, v); }
    if let Some(r) = memo.get(&e) { return *r; }
    let r = match n.k {
      K::Not => { let a = self.subst(n.a, fixed, vals, memo); self.not(a) }
      K::Ite => {
        let c = self.subst(n.a, fixed, vals, memo);
        match self.as_const(c) {
          Some(1) => self.subst(n.b, fixed, vals, memo),
          Some(_) => self.subst(n.c, fixed, vals, memo),
          None => { let (a, b) = (self.subst(n.b, fixed, vals, memo), self.subst(n.c, fixed, vals, memo)); self.ite(c, a, b) }
        }
      }
      K::Concat => { let (a, b) = (self.subst(n.a, fixed, vals, memo), self.subst(n.b, fixed, vals, memo)); self.concat(a, b) }
      K::Extract => { let a = self.subst(n.a, fixed, vals, memo); self.extract(a, n.imm as u8, n.w) }
      K::SExt => { let a = self.subst(n.a, fixed, vals, memo); self.sext(a, n.w) }
      k => { let (a, b) = (self.subst(n.a, fixed, vals, memo), self.subst(n.b, fixed, vals, memo)); self.bin(k, a, b) }
    };
    memo.insert(e, r);
    r
  }

  pub fn show(&self, e: Id, depth: u32) -> String {
    let n = &self.n[e as usize];
    match n.k {
      K::Const => format!("{}:{}", n.imm, n.w),
      K::Tab => if n.w == 1 {
        let s = self.set(e); let mut v = vec![]; let mut i = 0;
        while i < 256 { if s[i >> 6] >> (i & 63) & 1 == 1 { let st = i; while i < 256 && s[i >> 6] >> (i & 63) & 1 == 1 { i += 1; } v.push(if i - 1 == st { format!("{st:x}") } else { format!("{st:x}-{:x}", i - 1) }); } else { i += 1; } }
        format!("v{}∈[{}]", n.a, v.join(","))
      } else { format!("T{}(v{}):{}", n.imm, n.a, n.w) },
      _ if depth == 0 => "…".into(),
      K::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.imm, n.w),
      K::Not => format!("!{}", self.show(n.a, depth - 1)),
      K::SExt => format!("sext{}({})", n.w, self.show(n.a, depth - 1)),
      K::Ite => format!("(if {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
      k => format!("({k:?} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
    }
  }
}
