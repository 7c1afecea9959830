//! Z3 (quantifier-free bit-vectors) through its C interface.

use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
  fn Z3_mk_config() -> P;
  fn Z3_mk_context(c: P) -> P;
  fn Z3_del_context(c: P);
  fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
  fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
  fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
  fn Z3_mk_const(c: P, s: P, ty: P) -> P;
  fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
  fn Z3_mk_true(c: P) -> P;
  fn Z3_mk_false(c: P) -> P;
  fn Z3_mk_eq(c: P, a: P, b: P) -> P;
  fn Z3_mk_not(c: P, a: P) -> P;
  fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_xor(c: P, a: P, b: P) -> P;
  fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
  fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
  fn Z3_mk_concat(c: P, a: P, b: P) -> P;
  fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
  fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_simple_solver(c: P) -> P;
  fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
  fn Z3_tactic_inc_ref(c: P, t: P);
  fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
  fn Z3_solver_reset(c: P, s: P);
  fn Z3_solver_inc_ref(c: P, s: P);
  fn Z3_mk_params(c: P) -> P;
  fn Z3_params_inc_ref(c: P, p: P);
  fn Z3_params_dec_ref(c: P, p: P);
  fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
  fn Z3_solver_set_params(c: P, s: P, p: P);
  fn Z3_solver_push(c: P, s: P);
  fn Z3_solver_pop(c: P, s: P, n: c_uint);
  fn Z3_solver_assert(c: P, s: P, a: P);
  fn Z3_solver_check(c: P, s: P) -> c_int;
  fn Z3_solver_get_model(c: P, s: P) -> P;
  fn Z3_model_inc_ref(c: P, m: P);
  fn Z3_model_dec_ref(c: P, m: P);
  fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
  fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
  fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}
extern "C" fn on_error(_: P, code: c_int) { eprintln!("z3 error {code}"); std::process::exit(3); }

pub fn version() -> String {
  let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
  unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
  format!("{a}.{b}.{c}.{d}")
}

pub enum Verdict { Sat(Vec<(u32, u8)>), Unsat, Unknown }

#[derive(Default, Clone, Copy)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: Duration, pub slowest: Duration }

pub struct Solver {
  c: P, s: P,
  /// bit-blasting and SAT, for what the first solver does not settle quickly
  hard: P,
  timeout_ms: u32,
  deadline: Instant,
  vars: Vec<P>,
  ast: FxMap<Id, P>,
  pub stats: Stats,
}

impl Drop for Solver { fn drop(&mut self) { unsafe { Z3_del_context(self.c) } } }

impl Solver {
  pub fn new(timeout_ms: u32, deadline: Instant) -> Solver {
    unsafe {
      let cfg = Z3_mk_config();
      let c = Z3_mk_context(cfg);
      Z3_set_error_handler(c, Some(on_error));
      let s = Z3_mk_simple_solver(c);
      Z3_solver_inc_ref(c, s);
      let t = Z3_mk_tactic(c, c"qfbv".as_ptr());
      Z3_tactic_inc_ref(c, t);
      let hard = Z3_mk_solver_from_tactic(c, t);
      Z3_solver_inc_ref(c, hard);
      let me = Solver { c, s, hard, timeout_ms, deadline, vars: vec![], ast: Default::default(), stats: Stats::default() };
      me.limit(s, timeout_ms.min(400));
      me
    }
  }
  unsafe fn limit(&self, s: P, ms: u32) {
    let p = Z3_mk_params(self.c);
    Z3_params_inc_ref(self.c, p);
    Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, c"timeout".as_ptr()), ms);
    Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, c"random_seed".as_ptr()), 1);
    Z3_solver_set_params(self.c, s, p);
    Z3_params_dec_ref(self.c, p);
  }
  fn var(&mut self, i: u32) -> P {
    while self.vars.len() <= i as usize {
      let n = CString::new(format!("v{}", self.vars.len())).unwrap();
      unsafe { let v = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8)); self.vars.push(v); }
    }
    self.vars[i as usize]
  }
  fn num(&self, w: u8, v: u64) -> P { unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w as u32)) } }
  pub fn set(&mut self, var: u32, s: &Set) -> P {
    let v = self.var(var);
    let mut ors = vec![];
    let mut i = 0usize;
    let has = |i: usize| s[i >> 6] >> (i & 63) & 1 == 1;
    unsafe {
      while i < 256 {
        if !has(i) { i += 1; continue; }
        let st = i;
        while i < 256 && has(i) { i += 1; }
        let e = i - 1;
        let r = if st == e { Z3_mk_eq(self.c, v, self.num(8, st as u64)) }
          else if st == 0 { Z3_mk_bvule(self.c, v, self.num(8, e as u64)) }
          else if e == 255 { Z3_mk_bvule(self.c, self.num(8, st as u64), v) }
          else { let x = [Z3_mk_bvule(self.c, self.num(8, st as u64), v), Z3_mk_bvule(self.c, v, self.num(8, e as u64))]; Z3_mk_and(self.c, 2, x.as_ptr()) };
        ors.push(r);
      }
      if ors.is_empty() { Z3_mk_false(self.c) } else { Z3_mk_or(self.c, ors.len() as u32, ors.as_ptr()) }
    }
  }
  fn table(&mut self, var: u32, w: u8, t: &Table) -> P {
    let v = self.var(var);
    unsafe {
      let vw = if w >= 8 { if w == 8 { v } else { Z3_mk_zero_ext(self.c, w as u32 - 8, v) } } else { Z3_mk_extract(self.c, w as u32 - 1, 0, v) };
      // piecewise affine: runs where t[i+1]-t[i] is constant
      let m = mask(w);
      let mut pieces: Vec<(usize, P)> = vec![];
      let mut i = 0usize;
      while i < 256 {
        let d = if i < 255 { t[i + 1].wrapping_sub(t[i]) & m } else { 0 };
        let mut j = i;
        while j < 255 && t[j + 1].wrapping_sub(t[j]) & m == d { j += 1; }
        // x = d * v + (t[i] - d*i)
        let k = t[i].wrapping_sub(d.wrapping_mul(i as u64)) & m;
        let e = if d == 0 { self.num(w, t[i]) } else {
          let x = if d == 1 { vw } else { Z3_mk_bvmul(self.c, self.num(w, d), vw) };
          if k == 0 { x } else { Z3_mk_bvadd(self.c, x, self.num(w, k)) }
        };
        pieces.push((j, e));
        i = j + 1;
      }
      let mut r = pieces.last().unwrap().1;
      for (end, e) in pieces.iter().rev().skip(1) { r = Z3_mk_ite(self.c, Z3_mk_bvule(self.c, v, self.num(8, *end as u64)), *e, r); }
      r
    }
  }
  /// Width-1 expressions become Booleans; `bv` gives the one-bit vector.
  fn tr(&mut self, ar: &Arena, e: Id) -> P {
    if let Some(p) = self.ast.get(&e) { return *p; }
    let n = ar.n[e as usize];
    let c = self.c;
    let p = unsafe {
      match n.k {
        K::Const => if n.w == 1 { if n.imm == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.w, n.imm) },
        K::Tab => if n.w == 1 { let s = ar.set(e); self.set(n.a, &s) } else { let t = ar.table(e); self.table(n.a, n.w, &t) },
        K::Not => { let a = self.tr(ar, n.a); Z3_mk_not(c, a) }
        K::Ite => { let i = self.tr(ar, n.a); let (a, b) = (self.tr(ar, n.b), self.tr(ar, n.c)); Z3_mk_ite(c, i, a, b) }
        K::Extract => {
          let a = self.bv(ar, n.a);
          let x = Z3_mk_extract(c, n.imm as u32 + n.w as u32 - 1, n.imm as u32, a);
          if n.w == 1 { Z3_mk_eq(c, x, self.num(1, 1)) } else { x }
        }
        K::Concat => { let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b)); Z3_mk_concat(c, a, b) }
        K::SExt => { let a = self.bv(ar, n.a); Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, a) }
        k => {
          let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
          if ar.w(n.a) == 1 {
            match k {
              K::And => { let x = [a, b]; Z3_mk_and(c, 2, x.as_ptr()) }
              K::Or => { let x = [a, b]; Z3_mk_or(c, 2, x.as_ptr()) }
              K::Xor => Z3_mk_xor(c, a, b),
              K::Eq => Z3_mk_eq(c, a, b),
              K::Ult => { let x = [Z3_mk_not(c, a), b]; Z3_mk_and(c, 2, x.as_ptr()) }
              K::Slt => { let x = [a, Z3_mk_not(c, b)]; Z3_mk_and(c, 2, x.as_ptr()) }
              k => panic!("one-bit {k:?}"),
            }
          } else {
            match k {
              K::Add => Z3_mk_bvadd(c, a, b), K::Sub => Z3_mk_bvsub(c, a, b), K::Mul => Z3_mk_bvmul(c, a, b),
              K::UDiv => Z3_mk_bvudiv(c, a, b), K::SDiv => Z3_mk_bvsdiv(c, a, b), K::URem => Z3_mk_bvurem(c, a, b), K::SRem => Z3_mk_bvsrem(c, a, b),
              K::And => Z3_mk_bvand(c, a, b), K::Or => Z3_mk_bvor(c, a, b), K::Xor => Z3_mk_bvxor(c, a, b),
              K::Shl => Z3_mk_bvshl(c, a, b), K::LShr => Z3_mk_bvlshr(c, a, b), K::AShr => Z3_mk_bvashr(c, a, b),
              K::Eq => Z3_mk_eq(c, a, b), K::Ult => Z3_mk_bvult(c, a, b), K::Slt => Z3_mk_bvslt(c, a, b),
              k => panic!("{k:?}"),
            }
          }
        }
      }
    };
    self.ast.insert(e, p);
    p
  }
  fn bv(&mut self, ar: &Arena, e: Id) -> P {
    let p = self.tr(ar, e);
    if ar.w(e) == 1 { unsafe { Z3_mk_ite(self.c, p, self.num(1, 1), self.num(1, 0)) } } else { p }
  }
  pub fn check(&mut self, ar: &Arena, doms: &[(u32, Set)], cs: &[Id]) -> Verdict {
    let t0 = Instant::now();
    unsafe {
      let left = self.deadline.saturating_duration_since(t0).as_millis() as u64;
      if left == 0 { return Verdict::Unknown; }
      let mut all = vec![];
      for (v, s) in doms { if *s != [u64::MAX; 4] { all.push(self.set(*v, s)); } }
      for e in cs { all.push(self.tr(ar, *e)); }
      Z3_solver_push(self.c, self.s);
      for p in &all { Z3_solver_assert(self.c, self.s, *p); }
      let mut r = Z3_solver_check(self.c, self.s);
      let mut by = self.s;
      if r == 0 {
        let left = self.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        by = self.hard;
        Z3_solver_reset(self.c, self.hard);
        self.limit(self.hard, (left + 50).min(self.timeout_ms as u64) as u32);
        for p in &all { Z3_solver_assert(self.c, self.hard, *p); }
        r = Z3_solver_check(self.c, self.hard);
      }
      let v = match r {
        1 => {
          let m = Z3_solver_get_model(self.c, by);
          Z3_model_inc_ref(self.c, m);
          let mut out = vec![];
          for (v, _) in doms {
            let p = self.var(*v);
            let mut r: P = std::ptr::null_mut();
            Z3_model_eval(self.c, m, p, true, &mut r);
            let mut u = 0u64;
            Z3_get_numeral_uint64(self.c, r, &mut u);
            out.push((*v, u as u8));
          }
          Z3_model_dec_ref(self.c, m);
          self.stats.sat += 1;
          Verdict::Sat(out)
        }
        -1 => { self.stats.unsat += 1; Verdict::Unsat }
        _ => { self.stats.unknown += 1; Verdict::Unknown }
      };
      Z3_solver_pop(self.c, self.s, 1);
      let dt = t0.elapsed();
      self.stats.queries += 1;
      self.stats.time += dt;
      if dt > self.stats.slowest { self.stats.slowest = dt; }
      v
    }
  }
}
