//! Symbolic execution of the compiled module: one state per path, forking at branches the solver finds open.

use crate::expr::*;
use crate::solver::*;
use crate::wasm::{self, Func, Module, Opc};
use crate::{Job, Shared, Violation};
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

pub const PB: u64 = 10;
pub const PS: usize = 1 << PB;
const MAX_MEM: u64 = 192 << 20;

#[derive(Clone, Copy)]
pub struct Val { pub v: u64, pub e: Id }
pub fn cv(v: u64) -> Val { Val { v, e: 0 } }

#[derive(Clone)]
pub struct Page { pub b: [u8; PS], pub sym: Option<Box<[u32; PS]>> }

#[derive(Clone, Copy)]
pub struct Frame { pub func: *const Func, pub idx: u32, pub base: usize, pub pc: usize }

/// One decision on a path. kind: 0 branch, 1 value taken, 2 value excluded, 3 harness choice, 4/5 input byte fixed/excluded.
#[derive(Clone, Copy, Debug)]
pub struct Dec { pub kind: u8, pub forced: bool, pub ord: u16, pub v: u64, pub site: u32 }

pub struct TNode { d: Dec, prev: Option<Rc<TNode>> }
impl Drop for TNode {
  fn drop(&mut self) { let mut p = self.prev.take(); while let Some(x) = p { match Rc::try_unwrap(x) { Ok(mut n) => p = n.prev.take(), Err(_) => break } } }
}

#[derive(Clone, Copy, Debug)]
pub enum Inp { Var(u32), Choice(u32) }

#[derive(Clone)]
pub struct State {
  pub frames: Vec<Frame>,
  pub cur: Frame,
  pub stack: Vec<Val>,
  pub mem: Vec<Rc<Page>>,
  pub globals: Vec<Val>,
  pub dom: Vec<Set>,
  pub ent: u128,
  pub fixed: u128,
  pub cons: Vec<Id>,
  pub model: Vec<u8>,
  pub trace: Option<Rc<TNode>>,
  pub oplog: Vec<Dec>,
  pub oplog_at: u64,
  pub ord: u16,
  pub fork_at: u64,
  pub opreplay: VecDeque<Dec>,
  pub replay: Option<Rc<Vec<Dec>>>,
  pub rpos: usize,
  pub instrs: u64,
  pub start_instrs: u64,
  pub inputs: Vec<Inp>,
  pub known: Vec<String>,
  pub hash_mode: u32,
  pub blind: u64,
  pub random_mode: u32,
  pub rand_left: u32,
  pub rand: u64,
  pub clock: u64,
}

pub enum End { Done, Infeasible, Violated, Incomplete(String) }
pub enum Stop { End(End) }
type R<T> = Result<T, Stop>;

pub const H_NONE: u8 = 0;
const H_MEMCMP: u8 = 1;
const H_MEMCPY: u8 = 2;
const H_MEMSET: u8 = 3;
const H_PANIC: u8 = 4;
const H_HASH: u8 = 5;
const H_MEMCHR: u8 = 6;
const H_FMTP: u8 = 20;
const H_FMTV: u8 = 21;
const H_RYU: u8 = 22;
const H_SKIP: u8 = 9;

pub struct Worker<'a> {
  pub m: &'a Module,
  pub sh: &'a Shared,
  pub ar: Arena,
  pub z3: Solver,
  pub pending: VecDeque<State>,
  pub hooks: Vec<u8>,
  pub seen: Vec<bool>,
  pub qcache: FxMap<u64, Option<Option<Vec<(u32, u8)>>>>,
  pub stat: WStat,
  pub harness: usize,
  pub xcheck: bool,
}

#[derive(Default, Clone)]
pub struct WStat { pub paths: u64, pub infeasible: u64, pub forks: u64, pub instrs: u64, pub replay_instrs: u64, pub checks_const: u64, pub checks_z3: u64, pub decisions: u64, pub byte_decided: u64, pub witness: u64, pub cached: u64, pub xchecked: u64, pub confirmed: u64, pub max_vars: u32 }

pub fn hooks(m: &Module) -> Vec<u8> {
  m.names.iter().map(|n| {
    let n = n.as_str();
    if n == "memcmp" || n == "bcmp" || n.ends_with("::mem::memcmp") || n.ends_with("::mem::bcmp") { H_MEMCMP }
    else if n == "memcpy" || n == "memmove" || n.ends_with("::mem::memcpy") || n.ends_with("::mem::memmove") { H_MEMCPY }
    else if n == "memset" || n.ends_with("::mem::memset") { H_MEMSET }
    else if n.contains("rust_begin_unwind") || n.ends_with("panic_nounwind_fmt") || n.ends_with("alloc::handle_alloc_error") { H_PANIC }
    else if n.contains("hash_one") && n.contains("RandomState") { H_HASH }
    else if n.ends_with("core::slice::memchr::memchr_aligned") || n.contains("5slice6memchr14memchr_aligned") { H_MEMCHR }
    else if (n.contains("core3fmt3num3imp") || n.contains("core3fmt5float")) && n.contains("fmt..Display") || n.contains("core::fmt::num::imp::<impl core::fmt::Display for") || n.contains("core::fmt::float::<impl core::fmt::Display for") { H_FMTP }
    else if n.contains("4itoa") && n.contains("6Sealed5write") || n.contains("itoa::") && n.contains("Sealed>::write") { H_FMTV }
    else if n.ends_with("3ryu6pretty8format64") || n.ends_with("ryu::pretty::format64") || n.contains("3ryu6pretty8format32") || n.contains("core3fmt5float29float_to_decimal") { H_RYU }
    else { let _ = H_SKIP; H_NONE }
  }).collect()
}

pub fn initial(m: &Module) -> State {
  let mut raw = vec![0u8; (m.mem_min as usize) << 16];
  for (off, b) in &m.data { if let Some(o) = off { raw[*o as usize..*o as usize + b.len()].copy_from_slice(b); } }
  let zero = Rc::new(Page { b: [0; PS], sym: None });
  let mem = raw.chunks(PS).map(|c| if c.iter().all(|x| *x == 0) { zero.clone() } else { let mut p = Page { b: [0; PS], sym: None }; p.b.copy_from_slice(c); Rc::new(p) }).collect();
  State {
    frames: vec![], cur: Frame { func: std::ptr::null(), idx: 0, base: 0, pc: 0 }, stack: Vec::with_capacity(1 << 14), mem,
    globals: m.globals.iter().map(|g| cv(g.1)).collect(), dom: vec![], ent: 0, fixed: 0, cons: vec![], model: vec![], trace: None,
    oplog: vec![], oplog_at: u64::MAX, ord: 0, fork_at: 0, opreplay: VecDeque::new(), replay: None, rpos: 0, instrs: 0, start_instrs: 0, inputs: vec![], known: vec![],
    hash_mode: 0, blind: 0, random_mode: 0, rand_left: 0, rand: 1, clock: 1_600_000_000_000_000_000,
  }
}

fn first(s: &Set) -> Option<u8> { for i in 0..4 { if s[i] != 0 { return Some((i * 64) as u8 + s[i].trailing_zeros() as u8); } } None }
fn inter(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn minus(a: &Set, b: &Set) -> Set { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
fn empty(a: &Set) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
fn count(a: &Set) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
fn has(a: &Set, v: u8) -> bool { a[v as usize >> 6] >> (v & 63) & 1 == 1 }
fn members(a: &Set) -> Vec<u8> { (0..=255u8).filter(|v| has(a, *v)).collect() }

fn stop<T>(e: End) -> R<T> { Err(Stop::End(e)) }

impl<'a> Worker<'a> {
  pub fn new(m: &'a Module, sh: &'a Shared) -> Worker<'a> {
    Worker { m, sh, ar: Arena::new(), z3: Solver::new(sh.z3_timeout, sh.deadline), pending: VecDeque::new(), hooks: hooks(m), seen: vec![false; m.names.len()], qcache: Default::default(), stat: Default::default(), harness: 0, xcheck: sh.xcheck }
  }

  // ---- decisions -------------------------------------------------------------------------------------------------

  /// Number of this decision within the current instruction.
  fn ordinal(&self, st: &mut State) -> u16 {
    if st.oplog_at != st.instrs {
      st.oplog.clear(); st.ord = 0; st.oplog_at = st.instrs;
      if st.instrs != st.fork_at + 1 { st.opreplay.clear(); }
    }
    st.ord += 1;
    st.ord
  }
  /// A forked path executes the instruction again: decisions it has already made there come from its log.
  fn redo(&self, st: &mut State, ord: u16) -> Option<Dec> {
    if st.opreplay.front().map(|d| d.ord == ord) != Some(true) { return None; }
    let d = st.opreplay.pop_front().unwrap();
    st.oplog.push(d);
    Some(d)
  }
  fn next_replay(&mut self, st: &mut State, site: u32) -> Option<Dec> {
    if let Some(r) = &st.replay {
      let d = r[st.rpos];
      st.rpos += 1;
      if d.site != site { panic!("replay diverged: decision {} of {}: site {:x} instead of {:x} in {}", st.rpos, r.len(), site, d.site, self.m.names[st.cur.idx as usize]); }
      if st.rpos == r.len() { st.replay = None; self.stat.replay_instrs += st.instrs - st.start_instrs; st.start_instrs = st.instrs; }
      return Some(d);
    }
    None
  }
  fn log(&self, st: &mut State, d: Dec) {
    st.oplog.push(d);
    let prev = st.trace.take();
    st.trace = Some(Rc::new(TNode { d, prev }));
  }
  fn site(&self, st: &State) -> u32 { (st.cur.idx << 12) ^ st.cur.pc as u32 }

  fn set_dom(&mut self, st: &mut State, var: u32, s: Set) {
    st.dom[var as usize] = s;
    if count(&s) == 1 { st.fixed |= 1 << var; }
  }
  /// Adds a constraint known to be satisfiable together with the path condition.
  fn assume(&mut self, st: &mut State, c: Id) {
    let n = self.ar.n[c as usize];
    match n.k {
      K::Const => {}
      K::Tab => { let s = inter(&st.dom[n.a as usize], &self.ar.set(c)); self.set_dom(st, n.a, s); }
      K::And => { self.assume(st, n.a); self.assume(st, n.b); }
      K::Not if { let x = self.ar.n[n.a as usize]; x.k == K::Or } => {
        let x = self.ar.n[n.a as usize];
        let (p, q) = (self.ar.not(x.a), self.ar.not(x.b));
        self.assume(st, p); self.assume(st, q);
      }
      _ => { st.cons.push(c); st.ent |= n.sup; }
    }
  }
  /// Only the single-byte consequences of an implied condition are worth keeping.
  fn assume_implied(&mut self, st: &mut State, c: Id) {
    let n = self.ar.n[c as usize];
    match n.k {
      K::Tab => { let s = inter(&st.dom[n.a as usize], &self.ar.set(c)); self.set_dom(st, n.a, s); }
      K::And => { self.assume_implied(st, n.a); self.assume_implied(st, n.b); }
      _ => {}
    }
  }

  /// Is the path condition together with `c` satisfiable? Returns a model.
  fn feasible(&mut self, st: &mut State, c: Id) -> Result<Option<Vec<u8>>, ()> {
    let n = self.ar.n[c as usize];
    if n.k == K::Const { return Ok(if n.imm == 1 { Some(st.model.clone()) } else { None }); }
    if n.k == K::Tab {
      let s = inter(&st.dom[n.a as usize], &self.ar.set(c));
      if empty(&s) { self.stat.byte_decided += 1; self.maybe_cross(st, c); return Ok(None); }
      if st.ent >> n.a & 1 == 0 {
        let mut m = st.model.clone();
        if !has(&s, m[n.a as usize]) { m[n.a as usize] = first(&s).unwrap(); }
        self.stat.byte_decided += 1;
        return Ok(Some(m));
      }
      // try each remaining value of the byte against the constraints that mention it
      let rel: Vec<Id> = st.cons.iter().copied().filter(|x| self.ar.n[*x as usize].sup >> n.a & 1 == 1).collect();
      let mut m = st.model.clone();
      let vals = members(&s);
      for v in vals.iter().take(24) {
        m[n.a as usize] = *v;
        if rel.iter().all(|x| self.ar.eval(*x, &m) == 1) { self.stat.witness += 1; return Ok(Some(m)); }
      }
    } else {
      if self.ar.eval(c, &st.model) == 1 { return Ok(Some(st.model.clone())); }
      let mut memo = Default::default();
      if self.ar.bounds(c, &st.dom, &mut memo).1 == 0 { self.stat.byte_decided += 1; self.maybe_cross(st, c); return Ok(None); }
    }
    // slice by shared variables
    let mut sup = n.sup;
    let mut slice: Vec<Id> = vec![];
    let mut rest: Vec<Id> = st.cons.clone();
    loop {
      let before = rest.len();
      let mut keep = vec![];
      for x in rest { if self.ar.n[x as usize].sup & sup != 0 { sup |= self.ar.n[x as usize].sup; slice.push(x); } else { keep.push(x); } }
      rest = keep;
      if rest.len() == before { break; }
    }
    slice.sort(); slice.dedup();
    slice.push(c);
    let mut doms = vec![];
    for v in 0..128 { if sup >> v & 1 == 1 { doms.push((v as u32, st.dom[v])); } }
    let mut key = 0xcbf2_9ce4_8422_2325u64;
    let mut h = |x: u64| { key = (key.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); };
    for x in &slice { h(*x as u64); }
    for (v, s) in &doms { h(*v as u64); for x in s { h(*x); } }
    let r = if let Some(r) = self.qcache.get(&key) { self.stat.cached += 1; r.clone() } else {
      let r = match self.z3.check(&self.ar, &doms, &slice) { Verdict::Sat(m) => Some(Some(m)), Verdict::Unsat => Some(None), Verdict::Unknown => None };
      if self.qcache.len() > 2_000_000 { self.qcache.clear(); }
      self.qcache.insert(key, r.clone());
      r
    };
    match r {
      None => Err(()),
      Some(None) => Ok(None),
      Some(Some(w)) => { let mut m = st.model.clone(); for (v, x) in w { m[v as usize] = x; } Ok(Some(m)) }
    }
  }
  /// Confirms with the solver a verdict of infeasibility reached by byte sets alone: all of them, or one in 4096.
  fn maybe_cross(&mut self, st: &State, c: Id) {
    if !self.xcheck && self.stat.byte_decided & 4095 != 1 { return; }
    let doms: Vec<(u32, Set)> = st.dom.iter().enumerate().map(|(i, s)| (i as u32, *s)).collect();
    let mut cs = st.cons.clone(); cs.push(c);
    self.stat.xchecked += 1;
    if let Verdict::Sat(_) = self.z3.check(&self.ar, &doms, &cs) { panic!("a verdict on byte sets or intervals contradicts the solver: {}", self.ar.show(c, 6)) }
  }
  /// Asks the solver whether the path condition is satisfiable, as the path's model says it is.
  pub fn confirm_path(&mut self, st: &State) {
    let doms: Vec<(u32, Set)> = st.dom.iter().enumerate().map(|(i, s)| (i as u32, *s)).collect();
    for (i, s) in st.dom.iter().enumerate() { if !has(s, st.model[i]) { panic!("model outside the path condition") } }
    for c in &st.cons { if self.ar.eval(*c, &st.model) != 1 { panic!("model outside the path condition: {}", self.ar.show(*c, 6)) } }
    self.stat.confirmed += 1;
    if let Verdict::Unsat = self.z3.check(&self.ar, &doms, &st.cons) { panic!("the solver refutes a path condition") }
  }

  fn reduce(&mut self, st: &State, e: Id) -> Id {
    let n = self.ar.n[e as usize];
    if n.k == K::Tab || n.sup & st.fixed == 0 { return e; }
    let mut memo = Default::default();
    let dom = &st.dom;
    self.ar.subst(e, st.fixed & n.sup, &|v| first(&dom[v as usize]).unwrap() as u64, &mut memo)
  }

  fn push_alt(&mut self, st: &State, alt: Dec, model: Vec<u8>, c: Id) {
    let mut b = st.clone();
    b.opreplay = st.oplog.iter().copied().collect();
    b.opreplay.push_back(alt);
    b.oplog.clear();
    b.oplog_at = u64::MAX;
    b.fork_at = st.instrs;
    b.model = model;
    self.assume(&mut b, c);
    let prev = b.trace.take();
    b.trace = Some(Rc::new(TNode { d: alt, prev }));
    self.stat.forks += 1;
    self.pending.push_back(b);
    if self.pending.len() > 1 && self.sh.idle.load(Relaxed) > self.sh.queued.load(Relaxed) {
      let x = self.pending.pop_front().unwrap();
      self.donate(x);
    }
  }
  pub fn donate(&mut self, st: State) {
    let mut t = vec![];
    let mut p = st.trace.as_ref();
    while let Some(x) = p { t.push(x.d); p = x.prev.as_ref(); }
    t.reverse();
    self.sh.push(Job { harness: self.harness, trace: t, model: st.model.clone() });
  }

  pub fn decide(&mut self, st: &mut State, cond: Id) -> R<bool> {
    if let Some(v) = self.ar.as_const(cond) { return Ok(v == 1); }
    let ord = self.ordinal(st);
    if let Some(d) = self.redo(st, ord) { return Ok(d.v == 1); }
    let cond = self.reduce(st, cond);
    let n = self.ar.n[cond as usize];
    match n.k {
      K::Const => return Ok(n.imm == 1),
      K::Tab => {
        let s = self.ar.set(cond);
        let d = st.dom[n.a as usize];
        if empty(&inter(&d, &s)) { self.stat.byte_decided += 1; self.maybe_cross(st, cond); return Ok(false); }
        if empty(&minus(&d, &s)) { self.stat.byte_decided += 1; { let nc = self.ar.not(cond); self.maybe_cross(st, nc); } return Ok(true); }
      }
      _ => {}
    }
    let site = self.site(st);
    if let Some(d) = self.next_replay(st, site) {
      let t = d.v == 1;
      let c = if t { cond } else { self.ar.not(cond) };
      if d.forced { self.assume_implied(st, c); } else { self.assume(st, c); }
      self.log(st, d);
      return Ok(t);
    }
    if self.sh.stop.load(Relaxed) { return stop(End::Incomplete("time limit".into())); }
    self.stat.decisions += 1;
    let mv = self.ar.eval(cond, &st.model) == 1;
    let nc = self.ar.not(cond);
    let (taken, other) = if mv { (cond, nc) } else { (nc, cond) };
    match self.feasible(st, other) {
      Ok(Some(m)) => {
        self.push_alt(st, Dec { kind: 0, forced: false, v: !mv as u64, site, ord }, m, other);
        self.assume(st, taken);
        self.log(st, Dec { kind: 0, forced: false, v: mv as u64, site, ord });
      }
      Ok(None) => { self.assume_implied(st, taken); self.log(st, Dec { kind: 0, forced: true, v: mv as u64, site, ord }); }
      Err(()) => {
        self.sh.incomplete("the solver gave no answer within its limit");
        self.assume(st, taken);
        self.log(st, Dec { kind: 0, forced: false, v: mv as u64, site, ord });
      }
    }
    Ok(mv)
  }

  /// The value of `e` on this path; other values are explored on forked paths.
  pub fn conc(&mut self, st: &mut State, x: Val, w: u8) -> R<u64> {
    if x.e == 0 { return Ok(x.v & mask(w)); }
    loop { if let Some(v) = self.conc_once(st, x)? { return Ok(v); } }
  }
  /// None: a value has been excluded on this path; ask again.
  fn conc_once(&mut self, st: &mut State, x: Val) -> R<Option<u64>> {
    let site = self.site(st);
    {
      let ord = self.ordinal(st);
      if let Some(d) = self.redo(st, ord) { return Ok(if d.kind == 1 { Some(d.v) } else { None }); }
      // several input bytes: settle one of them at a time, which keeps the rest of the reasoning byte-wise
      let e = self.reduce(st, x.e);
      let n = self.ar.n[e as usize];
      if n.k == K::Const { return Ok(Some(n.imm)); }
      if n.k == K::Tab {
        let t = self.ar.table(e);
        let mut it = members(&st.dom[n.a as usize]).into_iter().map(|v| t[v as usize]);
        let f = it.next().unwrap();
        if it.all(|y| y == f) { return Ok(Some(f)); }
      }
      if let Some(d) = self.next_replay(st, site) {
        let eq = if d.kind >= 4 { let x = self.ar.var((d.v >> 8) as u32); let k = self.ar.konst(8, d.v & 255); self.ar.bin(K::Eq, x, k) } else { let k = self.ar.konst(n.w, d.v); self.ar.bin(K::Eq, e, k) };
        let c = if d.kind == 1 || d.kind == 4 { eq } else { self.ar.not(eq) };
        if d.forced { self.assume_implied(st, c); } else { self.assume(st, c); }
        self.log(st, d);
        return Ok(if d.kind == 1 { Some(d.v) } else { None });
      }
      if self.sh.stop.load(Relaxed) { return stop(End::Incomplete("time limit".into())); }
      self.stat.decisions += 1;
      if n.k != K::Tab && n.sup & st.ent == 0 {
        let var = (0..128u32).filter(|v| n.sup >> v & 1 == 1).min_by_key(|v| count(&st.dom[*v as usize])).unwrap();
        let x = self.ar.var(var);
        let val = st.model[var as usize];
        let k = self.ar.konst(8, val as u64);
        let eq = self.ar.bin(K::Eq, x, k);
        let ne = self.ar.not(eq);
        let v = (var as u64) << 8 | val as u64;
        if let Ok(Some(m)) = self.feasible(st, ne) {
          self.push_alt(st, Dec { kind: 5, forced: false, v, site, ord }, m, ne);
        }
        self.assume(st, eq);
        self.log(st, Dec { kind: 4, forced: false, v, site, ord });
        return Ok(None);
      }
      let v = self.ar.eval(e, &st.model);
      let k = self.ar.konst(n.w, v);
      let eq = self.ar.bin(K::Eq, e, k);
      let ne = self.ar.not(eq);
      match self.feasible(st, ne) {
        Ok(Some(m)) => {
          self.push_alt(st, Dec { kind: 2, forced: false, v, site, ord }, m, ne);
          self.assume(st, eq);
          self.log(st, Dec { kind: 1, forced: false, v, site, ord });
        }
        Ok(None) => { self.assume_implied(st, eq); self.log(st, Dec { kind: 1, forced: true, v, site, ord }); }
        Err(()) => { self.sh.incomplete("the solver gave no answer within its limit"); self.assume(st, eq); self.log(st, Dec { kind: 1, forced: false, v, site, ord }); }
      }
      return Ok(Some(v));
    }
  }

  fn choose(&mut self, st: &mut State, n: u64) -> R<u64> {
    let ord = self.ordinal(st);
    if let Some(d) = self.redo(st, ord) { return Ok(d.v); }
    let site = self.site(st);
    if let Some(d) = self.next_replay(st, site) {
      self.log(st, d);
      return Ok(d.v);
    }
    let one = self.ar.konst(1, 1);
    for v in (1..n).rev() {
      let m = st.model.clone();
      self.push_alt(st, Dec { kind: 3, forced: false, v, site, ord }, m, one);
    }
    self.log(st, Dec { kind: 3, forced: false, v: 0, site, ord });
    Ok(0)
  }

  fn fresh(&mut self, st: &mut State, dom: Set) -> R<Id> {
    let v = st.dom.len() as u32;
    if v >= 128 { return stop(End::Incomplete("more than 128 input bytes on one path".into())); }
    st.dom.push([0; 4]);
    self.set_dom(st, v, dom);
    if st.model.len() <= v as usize { st.model.push(if has(&dom, b'a') { b'a' } else { first(&dom).unwrap() }); }
    st.inputs.push(Inp::Var(v));
    if v + 1 > self.stat.max_vars { self.stat.max_vars = v + 1; }
    Ok(self.ar.var(v))
  }

  fn backtrace(&self, st: &State) -> Vec<String> {
    let mut v = vec![self.m.names[st.cur.idx as usize].clone()];
    for f in st.frames.iter().rev() { if !f.func.is_null() { v.push(self.m.names[f.idx as usize].clone()); } }
    v
  }
  fn violation(&mut self, st: &mut State, model: &[u8], kind: &str, msg: String) {
    let inputs: Vec<u32> = st.inputs.iter().map(|i| match i { Inp::Var(v) => model[*v as usize] as u32, Inp::Choice(c) => *c }).collect();
    self.sh.violation(Violation { harness: self.harness, kind: kind.into(), msg, inputs, known: st.known.clone(), trace: self.backtrace(st), hash_mode: st.hash_mode, random_mode: st.random_mode });
  }

  fn check(&mut self, st: &mut State, x: Val, msg: String) -> R<()> {
    if st.replay.is_some() || !st.opreplay.is_empty() {
      // already decided on the recorded path
      if x.e == 0 { return if x.v as u32 == 0 { stop(End::Violated) } else { Ok(()) }; }
    }
    if x.e == 0 {
      if x.v as u32 != 0 { self.stat.checks_const += 1; return Ok(()); }
      let m = st.model.clone();
      self.violation(st, &m, "check", msg);
      return stop(End::Violated);
    }
    let ord = self.ordinal(st);
    let z = self.ar.konst(self.ar.w(x.e), 0);
    let bad = self.ar.bin(K::Eq, x.e, z);
    let bad = self.reduce(st, bad);
    let good = self.ar.not(bad);
    if let Some(v) = self.ar.as_const(bad) {
      if v == 0 { self.stat.checks_const += 1; return Ok(()); }
      let m = st.model.clone();
      self.violation(st, &m, "check", msg);
      return stop(End::Violated);
    }
    let site = self.site(st);
    if let Some(d) = self.next_replay(st, site) {
      if d.forced { self.assume_implied(st, good); } else { self.assume(st, good); }
      self.log(st, d);
      return Ok(());
    }
    // the verdict on the assertion is always the solver's
    let doms: Vec<(u32, Set)> = st.dom.iter().enumerate().map(|(i, s)| (i as u32, *s)).collect();
    let mut cs = st.cons.clone(); cs.push(bad);
    self.stat.checks_z3 += 1;
    let verdict = self.z3.check(&self.ar, &doms, &cs);
    let mut forced = true;
    match verdict {
      Verdict::Unsat => {}
      Verdict::Unknown => self.sh.incomplete("the solver gave no answer on an assertion within its limit"),
      Verdict::Sat(w) => {
        let mut m = st.model.clone();
        for (v, b) in w { m[v as usize] = b; }
        self.violation(st, &m, "check", msg);
        forced = false;
        match self.feasible(st, good) {
          Ok(Some(m)) => { st.model = m; self.assume(st, good); }
          _ => return stop(End::Violated),
        }
      }
    }
    if forced { self.assume_implied(st, good); }
    self.log(st, Dec { kind: 0, forced, v: 1, site, ord });
    Ok(())
  }

  fn crash(&mut self, st: &mut State, kind: &str, msg: String) -> End {
    if st.replay.is_some() || !st.opreplay.is_empty() { return End::Incomplete("crash while replaying".into()); }
    let m = st.model.clone();
    self.violation(st, &m, kind, msg);
    End::Violated
  }

  // ---- memory ----------------------------------------------------------------------------------------------------

  #[inline(always)]
  fn mem_len(st: &State) -> u64 { (st.mem.len() as u64) << PB }

  #[inline(always)]
  fn load(&mut self, st: &State, addr: u64, n: usize) -> Option<Val> {
    let off = addr as usize & (PS - 1);
    if addr + n as u64 > Self::mem_len(st) { return None; }
    if off + n <= PS {
      let p: &Page = unsafe { st.mem.get_unchecked((addr >> PB) as usize) };
      let conc = match &p.sym { None => true, Some(s) => s[off..off + n].iter().all(|x| *x == 0) };
      if conc {
        unsafe {
          let q = p.b.as_ptr().add(off);
          let v = match n { 1 => *q as u64, 2 => (q as *const u16).read_unaligned() as u64, 4 => (q as *const u32).read_unaligned() as u64, _ => (q as *const u64).read_unaligned() };
          return Some(cv(v));
        }
      }
    }
    Some(self.load_slow(st, addr, n))
  }
  #[inline(always)]
  fn byte_raw(st: &State, addr: u64) -> (u8, u32) {
    let p = &st.mem[(addr >> PB) as usize];
    let o = addr as usize & (PS - 1);
    (p.b[o], match &p.sym { None => 0, Some(s) => s[o] })
  }
  fn load_slow(&mut self, st: &State, addr: u64, n: usize) -> Val {
    let mut bs = [(0u8, 0u32); 8];
    let mut any = false;
    for i in 0..n { bs[i] = Self::byte_raw(st, addr + i as u64); any |= bs[i].1 != 0; }
    if !any { let mut v = 0; for i in 0..n { v |= (bs[i].0 as u64) << (8 * i); } return cv(v); }
    let e0 = bs[0].1 >> 3;
    if bs[0].1 & 7 == 0 && e0 != 0 && self.ar.w(e0) as usize == 8 * n && (1..n).all(|i| bs[i].1 == (e0 << 3 | i as u32)) { return Val { v: 0, e: e0 }; }
    let mut r: Id = 0;
    let mut i = 0;
    while i < n {
      let part = if bs[i].1 == 0 {
        let mut j = i; let mut v = 0u64;
        while j < n && bs[j].1 == 0 { v |= (bs[j].0 as u64) << (8 * (j - i)); j += 1; }
        let p = self.ar.konst(8 * (j - i) as u8, v); i = j; p
      } else {
        let (e, k) = (bs[i].1 >> 3, bs[i].1 & 7);
        let mut j = i + 1;
        while j < n && bs[j].1 == (e << 3 | (k + (j - i) as u32)) && k + ((j - i) as u32) < 8 { j += 1; }
        let p = self.ar.extract(e, 8 * k as u8, 8 * (j - i) as u8); i = j; p
      };
      r = if r == 0 { part } else { self.ar.concat(part, r) };
    }
    self.val(r)
  }
  #[inline(always)]
  fn val(&self, e: Id) -> Val { let n = &self.ar.n[e as usize]; if n.k == K::Const { cv(n.imm) } else { Val { v: 0, e } } }
  #[inline(always)]
  fn ex(&mut self, x: Val, w: u8) -> Id { if x.e != 0 { x.e } else { self.ar.konst(w, x.v) } }

  #[inline(always)]
  fn store(&mut self, st: &mut State, addr: u64, n: usize, x: Val) -> bool {
    let off = addr as usize & (PS - 1);
    if addr + n as u64 > Self::mem_len(st) { return false; }
    if x.e == 0 && off + n <= PS {
      let p = Rc::make_mut(unsafe { st.mem.get_unchecked_mut((addr >> PB) as usize) });
      unsafe {
        let q = p.b.as_mut_ptr().add(off);
        match n { 1 => *q = x.v as u8, 2 => (q as *mut u16).write_unaligned(x.v as u16), 4 => (q as *mut u32).write_unaligned(x.v as u32), _ => (q as *mut u64).write_unaligned(x.v) }
      }
      if let Some(s) = &mut p.sym { for i in off..off + n { s[i] = 0; } }
      return true;
    }
    self.store_slow(st, addr, n, x);
    true
  }
  fn put(st: &mut State, addr: u64, b: u8, s: u32) {
    let p = Rc::make_mut(&mut st.mem[(addr >> PB) as usize]);
    let o = addr as usize & (PS - 1);
    p.b[o] = b;
    if s != 0 && p.sym.is_none() { p.sym = Some(Box::new([0; PS])); }
    if let Some(y) = &mut p.sym { y[o] = s; }
  }
  fn store_slow(&mut self, st: &mut State, addr: u64, n: usize, x: Val) {
    if x.e == 0 { for i in 0..n { Self::put(st, addr + i as u64, (x.v >> (8 * i)) as u8, 0); } return; }
    let mut e = x.e;
    if self.ar.w(e) as usize > 8 * n { e = self.ar.extract(e, 0, 8 * n as u8); }
    let nd = self.ar.n[e as usize];
    if nd.k == K::Const { for i in 0..n { Self::put(st, addr + i as u64, (nd.imm >> (8 * i)) as u8, 0); } return; }
    // leading zero bytes and constant low parts stay concrete
    let live = if nd.hi == 0 { 1 } else { (64 - nd.hi.leading_zeros() as usize + 7) / 8 };
    for i in 0..n {
      if i >= live { Self::put(st, addr + i as u64, 0, 0); continue; }
      if nd.k == K::Concat {
        let b = self.ar.extract(e, 8 * i as u8, 8);
        if let Some(c) = self.ar.as_const(b) { Self::put(st, addr + i as u64, c as u8, 0); continue; }
        if self.ar.k(b) == K::Tab { Self::put(st, addr + i as u64, 0, b << 3); continue; }
      }
      Self::put(st, addr + i as u64, 0, e << 3 | i as u32);
    }
  }
  fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> bool {
    let len = Self::mem_len(st);
    if d + n > len || s + n > len { return false; }
    if n == 0 || d == s { return true; }
    let sym = |st: &State, a: u64| ((a >> PB)..=((a + n - 1) >> PB)).any(|p| st.mem[p as usize].sym.is_some());
    let (ss, ds) = (sym(st, s), sym(st, d));
    let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
    let mut sb: Vec<u32> = vec![];
    let mut a = s;
    while a < s + n {
      let o = a as usize & (PS - 1);
      let k = (PS - o).min((s + n - a) as usize);
      let p = &st.mem[(a >> PB) as usize];
      buf.extend_from_slice(&p.b[o..o + k]);
      if ss { match &p.sym { Some(y) => sb.extend_from_slice(&y[o..o + k]), None => sb.resize(sb.len() + k, 0) } }
      a += k as u64;
    }
    let ss = ss && sb.iter().any(|x| *x != 0);
    let mut a = d; let mut i = 0;
    while a < d + n {
      let o = a as usize & (PS - 1);
      let k = (PS - o).min((d + n - a) as usize);
      let p = Rc::make_mut(&mut st.mem[(a >> PB) as usize]);
      p.b[o..o + k].copy_from_slice(&buf[i..i + k]);
      if ss {
        if p.sym.is_none() && sb[i..i + k].iter().any(|x| *x != 0) { p.sym = Some(Box::new([0; PS])); }
        if let Some(y) = &mut p.sym { y[o..o + k].copy_from_slice(&sb[i..i + k]); }
      } else if ds { if let Some(y) = &mut p.sym { y[o..o + k].fill(0); } }
      a += k as u64; i += k;
    }
    true
  }
  fn fill(&mut self, st: &mut State, d: u64, v: Val, n: u64) -> bool {
    if d + n > Self::mem_len(st) { return false; }
    let v = if v.e != 0 { let b = self.ar.extract(v.e, 0, 8); self.val(b) } else { v };
    if v.e != 0 { for i in 0..n { Self::put(st, d + i, 0, v.e << 3); } return true; }
    let mut a = d;
    while a < d + n {
      let o = a as usize & (PS - 1);
      let k = (PS - o).min((d + n - a) as usize);
      let p = Rc::make_mut(&mut st.mem[(a >> PB) as usize]);
      p.b[o..o + k].fill(v.v as u8);
      if let Some(y) = &mut p.sym { y[o..o + k].fill(0); }
      a += k as u64;
    }
    true
  }
  fn cstr(&self, st: &State, p: u64, n: u64) -> String {
    String::from_utf8_lossy(&(0..n).map(|i| Self::byte_raw(st, p + i).0).collect::<Vec<u8>>()).to_string()
  }
  fn byte(&mut self, st: &State, a: u64) -> Val { self.load(st, a, 1).unwrap_or(cv(0)) }

  /// A load whose address depends on the inputs.
  fn sym_load(&mut self, st: &mut State, addr: Val, off: u64, n: usize) -> R<Option<Val>> {
    loop {
    let e = self.reduce(st, addr.e);
    let nd = self.ar.n[e as usize];
    if nd.k == K::Tab {
      let t = self.ar.table(e);
      let vals = members(&st.dom[nd.a as usize]);
      let mut addrs: Vec<u64> = vals.iter().map(|v| t[*v as usize]).collect();
      addrs.sort(); addrs.dedup();
      if addrs.len() > 1 && addrs.iter().all(|a| a + off + n as u64 <= Self::mem_len(st)) {
        let loaded: Vec<Val> = addrs.iter().map(|a| self.load(st, a + off, n).unwrap()).collect();
        if loaded.iter().all(|v| v.e == 0) {
          let mut r = [0u64; 256];
          let dflt = loaded[0].v;
          let mut it = vals.iter().peekable();
          for i in 0..256usize {
            r[i] = if it.peek().map(|v| **v as usize) == Some(i) { it.next(); loaded[addrs.binary_search(&t[i]).unwrap()].v } else { dflt };
          }
          let id = self.ar.tab(nd.a, 8 * n as u8, r);
          return Ok(Some(self.val(id)));
        }
        if addrs.len() <= 32 {
          let mut r = self.ex(loaded[0], 8 * n as u8);
          for (a, l) in addrs.iter().zip(&loaded).skip(1) {
            let mut s = [0u64; 4];
            for i in 0..256usize { if t[i] == *a { s[i >> 6] |= 1 << (i & 63); } }
            let c = self.ar.in_set(nd.a, &s);
            let x = self.ex(*l, 8 * n as u8);
            r = self.ar.ite(c, x, r);
          }
          return Ok(Some(self.val(r)));
        }
      }
    }
    if let Some(a) = self.conc_once(st, addr)? { return Ok(self.load(st, a + off, n)); }
    }
  }

  // ---- operations on symbolic values -----------------------------------------------------------------------------

  fn b2i(&mut self, c: Id) -> Val { let z = self.ar.zext(c, 32); self.val(z) }

  fn sym1(&mut self, o: Opc, a: Val) -> Val {
    use Opc::*;
    let e = a.e;
    let r = match o {
      Eqz32 | Eqz64 => { let z = self.ar.konst(self.ar.w(e), 0); let c = self.ar.bin(K::Eq, e, z); return self.b2i(c); }
      Clz32 | Clz64 => self.ar.clz(e),
      Ctz32 | Ctz64 => self.ar.ctz(e),
      Popcnt32 | Popcnt64 => self.ar.popcnt(e),
      Wrap => self.ar.extract(e, 0, 32),
      ExtS32 => self.ar.sext(e, 64),
      ExtU32 => self.ar.zext(e, 64),
      Ext8S32 => { let x = self.ar.extract(e, 0, 8); self.ar.sext(x, 32) }
      Ext16S32 => { let x = self.ar.extract(e, 0, 16); self.ar.sext(x, 32) }
      Ext8S64 => { let x = self.ar.extract(e, 0, 8); self.ar.sext(x, 64) }
      Ext16S64 => { let x = self.ar.extract(e, 0, 16); self.ar.sext(x, 64) }
      Ext32S64 => { let x = self.ar.extract(e, 0, 32); self.ar.sext(x, 64) }
      _ => panic!("unary {o:?}"),
    };
    self.val(r)
  }

  fn sym2(&mut self, st: &mut State, o: Opc, a: Val, b: Val) -> R<Val> {
    use Opc::*;
    let w: u8 = match o {
      Eq64 | Ne64 | LtS64 | LtU64 | GtS64 | GtU64 | LeS64 | LeU64 | GeS64 | GeU64 | Add64 | Sub64 | Mul64 | DivS64 | DivU64 | RemS64 | RemU64 | And64 | Or64 | Xor64 | Shl64 | ShrS64 | ShrU64 | Rotl64 | Rotr64 => 64,
      _ => 32,
    };
    let (x, y) = (self.ex(a, w), self.ex(b, w));
    let cmp = |s: &mut Self, k: K, x: Id, y: Id, neg: bool| { let c = s.ar.bin(k, x, y); let c = if neg { s.ar.not(c) } else { c }; s.b2i(c) };
    Ok(match o {
      Eq32 | Eq64 => cmp(self, K::Eq, x, y, false),
      Ne32 | Ne64 => cmp(self, K::Eq, x, y, true),
      LtS32 | LtS64 => cmp(self, K::Slt, x, y, false),
      LtU32 | LtU64 => cmp(self, K::Ult, x, y, false),
      GtS32 | GtS64 => cmp(self, K::Slt, y, x, false),
      GtU32 | GtU64 => cmp(self, K::Ult, y, x, false),
      LeS32 | LeS64 => cmp(self, K::Slt, y, x, true),
      LeU32 | LeU64 => cmp(self, K::Ult, y, x, true),
      GeS32 | GeS64 => cmp(self, K::Slt, x, y, true),
      GeU32 | GeU64 => cmp(self, K::Ult, x, y, true),
      Shl32 | ShrS32 | ShrU32 | Shl64 | ShrS64 | ShrU64 => {
        let m = self.ar.konst(w, w as u64 - 1);
        let y = self.ar.bin(K::And, y, m);
        let k = match o { Shl32 | Shl64 => K::Shl, ShrS32 | ShrS64 => K::AShr, _ => K::LShr };
        let r = self.ar.bin(k, x, y);
        self.val(r)
      }
      Rotl32 | Rotl64 | Rotr32 | Rotr64 => {
        let s = self.conc(st, b, w)? & (w as u64 - 1);
        let s = if matches!(o, Rotl32 | Rotl64) { s } else { (w as u64 - s) & (w as u64 - 1) } as u8;
        if s == 0 { return Ok(a); }
        let h = self.ar.extract(x, 0, w - s); let l = self.ar.extract(x, w - s, s);
        let r = self.ar.concat(h, l);
        self.val(r)
      }
      _ => {
        let k = match o {
          Add32 | Add64 => K::Add, Sub32 | Sub64 => K::Sub, Mul32 | Mul64 => K::Mul, DivS32 | DivS64 => K::SDiv, DivU32 | DivU64 => K::UDiv,
          RemS32 | RemS64 => K::SRem, RemU32 | RemU64 => K::URem, And32 | And64 => K::And, Or32 | Or64 => K::Or, Xor32 | Xor64 => K::Xor,
          _ => panic!("binary {o:?}"),
        };
        let r = self.ar.bin(k, x, y);
        self.val(r)
      }
    })
  }

  fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64) -> Val {
    let mut r = self.ar.konst(32, 0);
    for i in (0..n).rev() {
      let (x, y) = (self.byte(st, a + i), self.byte(st, b + i));
      if x.e == 0 && y.e == 0 {
        if x.v != y.v { r = self.ar.konst(32, if x.v < y.v { u32::MAX as u64 } else { 1 }); }
        continue;
      }
      let (x, y) = (self.ex(x, 8), self.ex(y, 8));
      let (eq, lt) = (self.ar.bin(K::Eq, x, y), self.ar.bin(K::Ult, x, y));
      let (m1, p1) = (self.ar.konst(32, u32::MAX as u64), self.ar.konst(32, 1));
      let d = self.ar.ite(lt, m1, p1);
      r = self.ar.ite(eq, r, d);
    }
    self.val(r)
  }

  /// Functions replaced by their meaning. Some(result) when handled.
  fn hooked(&mut self, st: &mut State, h: u8, base: usize) -> R<Option<Option<Val>>> {
    let arg = |st: &State, i: usize| st.stack[base + i];
    match h {
      H_MEMCMP => {
        let (a, b, n) = (arg(st, 0), arg(st, 1), arg(st, 2));
        let (a, b, n) = (self.conc(st, a, 32)?, self.conc(st, b, 32)?, self.conc(st, n, 32)?);
        if a + n > Self::mem_len(st) || b + n > Self::mem_len(st) { return stop(self.crash(st, "trap", "out-of-bounds comparison".into())); }
        Ok(Some(Some(self.memcmp(st, a, b, n))))
      }
      H_MEMCPY => {
        let (a, b, n) = (arg(st, 0), arg(st, 1), arg(st, 2));
        let (a, b, n) = (self.conc(st, a, 32)?, self.conc(st, b, 32)?, self.conc(st, n, 32)?);
        if !self.copy(st, a, b, n) { return stop(self.crash(st, "trap", "out-of-bounds copy".into())); }
        Ok(Some(Some(cv(a))))
      }
      H_MEMSET => {
        let (a, b, n) = (arg(st, 0), arg(st, 1), arg(st, 2));
        let (a, n) = (self.conc(st, a, 32)?, self.conc(st, n, 32)?);
        if !self.fill(st, a, b, n) { return stop(self.crash(st, "trap", "out-of-bounds fill".into())); }
        Ok(Some(Some(cv(a))))
      }
      // messages whose text no assertion looks at: symbolic numbers in them are printed as 0
      H_FMTP => {
        let p = arg(st, 0);
        if st.blind != 0 && p.e == 0 && p.v + 8 <= Self::mem_len(st) && (0..8).any(|i| Self::byte_raw(st, p.v + i).1 != 0) { st.stack[base] = cv(st.blind); }
        Ok(None)
      }
      H_FMTV => {
        for i in 0..2 {
          let x = arg(st, i);
          if x.e != 0 { st.stack[base + i] = if st.blind != 0 { cv(0) } else { continue }; }
        }
        Ok(None)
      }
      // printing a floating-point number is arithmetic on tables: one value at a time
      H_RYU => {
        for i in 0..2 { let x = arg(st, i); if x.e != 0 { st.stack[base + i] = if st.blind != 0 { cv(0) } else { let w = self.ar.w(x.e); cv(self.conc(st, x, w)?) }; } }
        Ok(None)
      }
      H_PANIC => stop(self.crash(st, "panic", "panic".into())),
      H_HASH => if st.hash_mode == 0 { Ok(Some(Some(cv(0x9E37_79B9_7F4A_7C15)))) } else { Ok(None) },
      H_MEMCHR => {
        // core::slice::memchr::memchr_aligned(out, x, ptr, len) -> Option<usize> through a pointer
        let (out, x, p, n) = (arg(st, 0), arg(st, 1), arg(st, 2), arg(st, 3));
        let (out, p, n) = (self.conc(st, out, 32)?, self.conc(st, p, 32)?, self.conc(st, n, 32)?);
        let x = if x.e != 0 { self.ar.extract(x.e, 0, 8) } else { self.ar.konst(8, x.v) };
        for i in 0..n {
          let b = self.byte(st, p + i);
          let b = self.ex(b, 8);
          let c = self.ar.bin(K::Eq, b, x);
          if self.decide(st, c)? { self.store(st, out, 4, cv(1)); self.store(st, out + 4, 4, cv(i)); return Ok(Some(None)); }
        }
        self.store(st, out, 4, cv(0));
        Ok(Some(None))
      }
      _ => Ok(None),
    }
  }

  fn import(&mut self, st: &mut State, idx: u32, base: usize) -> R<Option<Val>> {
    let m = self.m;
    let (module, name, _) = &m.imports[idx as usize];
    let arg = |st: &State, i: usize| st.stack[base + i];
    let full = [u64::MAX; 4];
    if module == "vp" {
      return Ok(match name.as_str() {
        "sym_byte" => { let e = self.fresh(st, full)?; let z = self.ar.zext(e, 32); Some(self.val(z)) }
        "sym_in" => {
          let (p, n) = (arg(st, 0).v, arg(st, 1).v);
          let mut s = [0u64; 4];
          for i in 0..n { let b = Self::byte_raw(st, p + i).0; s[b as usize >> 6] |= 1 << (b & 63); }
          let e = self.fresh(st, s)?;
          if count(&s) == 1 { Some(cv(first(&s).unwrap() as u64)) } else { let z = self.ar.zext(e, 32); Some(self.val(z)) }
        }
        "choose" => { let n = arg(st, 0).v; let v = self.choose(st, n)?; st.inputs.push(Inp::Choice(v as u32)); Some(cv(v)) }
        "assume" => {
          let x = arg(st, 0);
          if x.e == 0 { if x.v as u32 == 0 { return stop(End::Infeasible); } return Ok(None); }
          let z = self.ar.konst(32, 0);
          let c = self.ar.ne(x.e, z);
          let c = self.reduce(st, c);
          match self.ar.as_const(c) { Some(1) => return Ok(None), Some(_) => return stop(End::Infeasible), None => {} }
          if st.replay.is_none() {
            match self.feasible(st, c) {
              Ok(Some(md)) => st.model = md,
              Ok(None) => return stop(End::Infeasible),
              Err(()) => return stop(End::Incomplete("the solver gave no answer on an assumption".into())),
            }
          }
          self.assume(st, c);
          None
        }
        "check" => { let (c, p, n) = (arg(st, 0), arg(st, 1).v, arg(st, 2).v); let msg = self.cstr(st, p, n); self.check(st, c, msg)?; None }
        "reach" => { let (p, n) = (arg(st, 0).v, arg(st, 1).v); if st.replay.is_none() { let s = self.cstr(st, p, n); self.sh.reach(self.harness, s); } None }
        "known" => { let (p, n) = (arg(st, 0).v, arg(st, 1).v); let s = self.cstr(st, p, n); if !st.known.contains(&s) { st.known.push(s); } None }
        "hash_mode" => { st.hash_mode = arg(st, 0).v as u32; if st.hash_mode > 0 { st.rand = st.hash_mode as u64; } None }
        "blind" => { st.blind = arg(st, 0).v; None }
        "rand_word" => {
          let bits = arg(st, 0).v as u32;
          // after the free words the rest are 0
          if st.random_mode > 0 { if st.rand_left == 0 { return Ok(Some(cv(0))); } st.rand_left -= 1; }
          match st.random_mode {
            0 => { st.rand ^= st.rand << 13; st.rand ^= st.rand >> 7; st.rand ^= st.rand << 17; Some(cv(if bits == 64 { st.rand } else { (st.rand >> 16) & ((1 << bits) - 1) })) }
            // the whole word, or its upper byte with the rest zero
            m => {
              let mut r = self.fresh(st, full)?;
              if m == 1 { for _ in 1..bits / 8 { let b = self.fresh(st, full)?; r = self.ar.concat(b, r); } }
              else if bits > 8 { let z = self.ar.konst((bits - 8) as u8, 0); r = self.ar.concat(r, z); }
              if bits < 64 { r = self.ar.zext(r, 64); }
              Some(self.val(r))
            }
          }
        }
        "random_mode" => { st.random_mode = arg(st, 0).v as u32; st.rand_left = arg(st, 1).v as u32; None }
        "set_clock" => { let x = arg(st, 0); st.clock = self.conc(st, x, 64)?; None }
        "conc" => { let x = arg(st, 0); Some(cv(self.conc(st, x, 32)?)) }
        "symbolic" => Some(cv(1)),
        "both" => {
          // conjunction without a branch
          let (x, y) = (arg(st, 0), arg(st, 1));
          let (x, y) = (self.ex(x, 32), self.ex(y, 32));
          let z = self.ar.konst(32, 0);
          let (a, b) = (self.ar.ne(x, z), self.ar.ne(y, z));
          let r = self.ar.bin(K::And, a, b);
          Some(self.b2i(r))
        }
        _ => panic!("import vp.{name}"),
      });
    }
    let a = |st: &State, i: usize| st.stack[base + i].v;
    Ok(match name.as_str() {
      "environ_sizes_get" | "args_sizes_get" => { let (p, q) = (a(st, 0), a(st, 1)); self.store(st, p, 4, cv(0)); self.store(st, q, 4, cv(0)); Some(cv(0)) }
      "environ_get" | "args_get" => Some(cv(0)),
      "clock_time_get" => { let p = a(st, 2); let t = st.clock; self.store(st, p, 8, cv(t)); Some(cv(0)) }
      "random_get" => {
        let (p, n) = (a(st, 0), a(st, 1));
        if st.random_mode > 0 { for i in 0..n { let e = self.fresh(st, full)?; let v = self.val(e); self.store(st, p + i, 1, v); } return Ok(Some(cv(0))); }
        for i in 0..n {
          st.rand ^= st.rand << 13; st.rand ^= st.rand >> 7; st.rand ^= st.rand << 17;
          Self::put(st, p + i, (st.rand >> 24) as u8, 0);
        }
        Some(cv(0))
      }
      "fd_write" => {
        let (iov, n, out) = (a(st, 1), a(st, 2), a(st, 3));
        let mut t = 0;
        for i in 0..n { let x = self.load(st, iov + 8 * i + 4, 4).unwrap_or(cv(0)); t += self.conc(st, x, 32)?; }
        self.store(st, out, 4, cv(t));
        Some(cv(0))
      }
      "proc_exit" => return stop(self.crash(st, "exit", "process exit".into())),
      "sched_yield" => Some(cv(0)),
      _ => Some(cv(8)),
    })
  }

  fn enter(&mut self, st: &mut State, idx: u32, base: usize) {
    let f: &Func = wasm::func(self.m, idx);
    self.seen[idx as usize] = true;
    let need = base + f.nslots as usize;
    if st.stack.len() < need { st.stack.resize(need, cv(0)); }
    for i in f.nparams..f.nlocals { st.stack[base + i as usize] = cv(0); }
    st.cur = Frame { func: f, idx, base, pc: 0 };
  }

  /// Prepares a call of an exported function.
  pub fn start(&mut self, st: &mut State, name: &str) {
    let (_, idx) = self.m.exports.get(name).unwrap_or_else(|| panic!("no export {name}"));
    st.frames.clear();
    st.frames.push(Frame { func: std::ptr::null(), idx: 0, base: 0, pc: 0 });
    self.enter(st, *idx, 0);
  }

  pub fn run(&mut self, st: &mut State) -> End {
    match self.go(st) { Ok(()) => End::Done, Err(Stop::End(e)) => e }
  }

  fn go(&mut self, st: &mut State) -> R<()> {
    let mut f: &Func = unsafe { &*st.cur.func };
    let mut pc = st.cur.pc;
    let mut base = st.cur.base;
    let mut sp: *mut Val = unsafe { st.stack.as_mut_ptr().add(base) };
    let mut code = f.code.as_ptr();
    let mut instrs = st.instrs;
    let mut limit = instrs.max(st.start_instrs) + 4096;
    macro_rules! sync { () => { st.cur.pc = pc; st.instrs = instrs; } }
    macro_rules! get { ($x:expr) => {{ let x = $x; if x >= 0 { unsafe { *sp.add(x as usize) } } else { cv(unsafe { *f.consts.get_unchecked(!x as usize) }) } }} }
    macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; unsafe { *sp.add($d as usize) = v; } }} }
    macro_rules! reload { () => { f = unsafe { &*st.cur.func }; pc = st.cur.pc; base = st.cur.base; sp = unsafe { st.stack.as_mut_ptr().add(base) }; code = f.code.as_ptr(); } }
    loop {
      let o = unsafe { &*code.add(pc) };
      instrs += 1;
      if instrs >= limit {
        limit = instrs + 65536;
        if self.sh.stop.load(Relaxed) { sync!(); return stop(End::Incomplete("time limit".into())); }
        if instrs - st.start_instrs.min(instrs) > self.sh.max_instrs { sync!(); return stop(self.crash(st, "hang", format!("more than {} instructions on one path", self.sh.max_instrs))); }
      }
      macro_rules! bin32 { ($e:expr) => {{ let (a, b) = (get!(o.a), get!(o.b)); if a.e | b.e == 0 { set!(o.d, cv($e(a.v as u32, b.v as u32) as u32 as u64)); } else { sync!(); set!(o.d, self.sym2(st, o.op, a, b)?); } pc += 1; }} }
      macro_rules! bin64 { ($e:expr) => {{ let (a, b) = (get!(o.a), get!(o.b)); if a.e | b.e == 0 { set!(o.d, cv($e(a.v, b.v) as u64)); } else { sync!(); set!(o.d, self.sym2(st, o.op, a, b)?); } pc += 1; }} }
      macro_rules! un { ($e:expr) => {{ let a = get!(o.a); if a.e == 0 { set!(o.d, cv($e(a.v) as u64)); } else { set!(o.d, self.sym1(o.op, a)); } pc += 1; }} }
      macro_rules! load { ($n:expr, $post:expr, $w:expr, $signed:expr) => {{
        let a = get!(o.a);
        let r = if a.e == 0 { self.load(st, (a.v as u32 as u64) + o.imm, $n) } else { sync!(); self.sym_load(st, a, o.imm, $n)? };
        match r {
          None => { sync!(); return stop(self.crash(st, "trap", "out-of-bounds load".into())); }
          Some(v) => {
            if v.e == 0 { set!(o.d, cv($post(v.v))); } else {
              let e = if $n * 8 == $w { v.e } else if $signed { self.ar.sext(v.e, $w) } else { self.ar.zext(v.e, $w) };
              set!(o.d, self.val(e));
            }
          }
        }
        pc += 1;
      }} }
      macro_rules! store { ($n:expr) => {{
        let (a, v) = (get!(o.a), get!(o.b));
        let addr = if a.e == 0 { a.v as u32 as u64 } else { sync!(); self.conc(st, a, 32)? };
        if !self.store(st, addr + o.imm, $n, v) { sync!(); return stop(self.crash(st, "trap", "out-of-bounds store".into())); }
        pc += 1;
      }} }
      macro_rules! truth { ($v:expr) => {{
        let v: Val = $v;
        if v.e == 0 { v.v as u32 != 0 } else {
          sync!();
          let z = self.ar.konst(self.ar.w(v.e), 0);
          let c = self.ar.ne(v.e, z);
          self.decide(st, c)?
        }
      }} }
      use Opc::*;
      match o.op {
        Move => { set!(o.d, get!(o.a)); pc += 1; }
        Br => pc = o.imm as usize,
        BrIf => { if truth!(get!(o.a)) { pc = o.imm as usize } else { pc += 1 } }
        BrIfZ => { if truth!(get!(o.a)) { pc += 1 } else { pc = o.imm as usize } }
        BrTable => {
          let x = get!(o.a);
          let t = &f.tables[o.imm as usize];
          if x.e == 0 { let i = (x.v as u32 as usize).min(t.len() - 1); pc = t[i] as usize; } else {
            sync!();
            let e = x.e;
            let n = self.ar.n[e as usize];
            if n.k == K::Tab {
              let tb = self.ar.table(e);
              let mut groups: Vec<(u32, Set)> = vec![];
              for v in 0..=255u8 {
                let tgt = t[(tb[v as usize] as u32 as usize).min(t.len() - 1)];
                let k = match groups.iter().position(|g| g.0 == tgt) { Some(k) => k, None => { groups.push((tgt, [0; 4])); groups.len() - 1 } };
                groups[k].1[v as usize >> 6] |= 1 << (v & 63);
              }
              let mut tgt = groups[groups.len() - 1].0;
              for (g, s) in &groups[..groups.len() - 1] {
                let c = self.ar.in_set(n.a, s);
                if self.decide(st, c)? { tgt = *g; break; }
              }
              pc = tgt as usize;
            } else {
              // one decision per distinct target
              let mut tgts: Vec<(u32, Id)> = vec![];
              let mut tgt = *t.last().unwrap();
              for (i, g) in t[..t.len() - 1].iter().enumerate() {
                let k = self.ar.konst(32, i as u64);
                let c = self.ar.bin(K::Eq, e, k);
                match tgts.iter_mut().find(|x| x.0 == *g) { Some(x) => x.1 = self.ar.bin(K::Or, x.1, c), None => tgts.push((*g, c)) }
              }
              for (g, c) in tgts { if g == tgt { continue; } if self.decide(st, c)? { tgt = g; break; } }
              pc = tgt as usize;
            }
          }
        }
        Return => {
          let n = o.imm as usize;
          for k in 0..n { unsafe { *sp.add(k) = *sp.add(o.d as usize + k); } }
          let fr = st.frames.pop().unwrap();
          if fr.func.is_null() { st.instrs = instrs; return Ok(()); }
          st.cur = fr;
          reload!();
        }
        Call | CallIndirect => {
          let cbase = base + o.d as usize;
          let idx = if o.op == Call { o.imm as u32 } else {
            let x = get!(o.a);
            let i = if x.e == 0 { x.v as u32 as usize } else { sync!(); self.conc(st, x, 32)? as usize };
            match self.m.table.get(i) { Some(f) if *f != u32::MAX => *f, _ => { sync!(); return stop(self.crash(st, "trap", "bad indirect call".into())); } }
          };
          if (idx as usize) < self.m.imports.len() {
            sync!();
            if let Some(v) = self.import(st, idx, cbase)? { set!(o.d, v); }
            pc += 1;
          } else {
            let h = unsafe { *self.hooks.get_unchecked(idx as usize) };
            if h != H_NONE {
              sync!();
              if let Some(r) = self.hooked(st, h, cbase)? { if let Some(v) = r { set!(o.d, v); } pc += 1; continue; }
            }
            if st.frames.len() > 12_000 { sync!(); return stop(self.crash(st, "overflow", "call depth".into())); }
            st.cur.pc = pc + 1;
            st.frames.push(st.cur);
            self.enter(st, idx, cbase);
            reload!();
          }
        }
        Select => {
          let (a, b, c) = (get!(o.a), get!(o.b), get!(o.c));
          if c.e == 0 { set!(o.d, if c.v as u32 != 0 { a } else { b }); } else {
            let w = if a.e != 0 { self.ar.w(a.e) } else if b.e != 0 { self.ar.w(b.e) } else if (a.v | b.v) >> 32 != 0 { 64 } else { 0 };
            if w == 0 {
              // both constant: the width is not known here, so branch
              if truth!(c) { set!(o.d, a) } else { set!(o.d, b) }
            } else {
              let z = self.ar.konst(32, 0);
              let k = self.ar.ne(c.e, z);
              let (x, y) = (self.ex(a, w), self.ex(b, w));
              let r = self.ar.ite(k, x, y);
              set!(o.d, self.val(r));
            }
          }
          pc += 1;
        }
        Unreachable => { sync!(); return stop(self.crash(st, "trap", "unreachable".into())); }
        GlobalGet => { set!(o.d, st.globals[o.imm as usize]); pc += 1; }
        GlobalSet => { st.globals[o.imm as usize] = get!(o.a); pc += 1; }
        MemSize => { set!(o.d, cv(Self::mem_len(st) >> 16)); pc += 1; }
        MemGrow => {
          let x = get!(o.a);
          let n = if x.e == 0 { x.v as u32 as u64 } else { sync!(); self.conc(st, x, 32)? };
          let old = Self::mem_len(st) >> 16;
          if (old + n) << 16 > MAX_MEM { set!(o.d, cv(u32::MAX as u64)); } else {
            let zero = Rc::new(Page { b: [0; PS], sym: None });
            let l = st.mem.len() + ((n << 16) >> PB) as usize;
            st.mem.resize(l, zero);
            set!(o.d, cv(old));
          }
          pc += 1;
        }
        MemCopy => {
          let (a, b, n) = (get!(o.a), get!(o.b), get!(o.c));
          sync!();
          let (a, b, n) = (self.conc(st, a, 32)?, self.conc(st, b, 32)?, self.conc(st, n, 32)?);
          if !self.copy(st, a, b, n) { return stop(self.crash(st, "trap", "out-of-bounds copy".into())); }
          pc += 1;
        }
        MemFill => {
          let (a, b, n) = (get!(o.a), get!(o.b), get!(o.c));
          sync!();
          let (a, n) = (self.conc(st, a, 32)?, self.conc(st, n, 32)?);
          if !self.fill(st, a, b, n) { return stop(self.crash(st, "trap", "out-of-bounds fill".into())); }
          pc += 1;
        }
        TableGet => panic!("table.get"),
        TableSize => { set!(o.d, cv(self.m.table.len() as u64)); pc += 1; }
        Ld8u32 => load!(1, |v| v, 32, false),
        Ld8s32 => load!(1, |v| v as u8 as i8 as i32 as u32 as u64, 32, true),
        Ld16u32 => load!(2, |v| v, 32, false),
        Ld16s32 => load!(2, |v| v as u16 as i16 as i32 as u32 as u64, 32, true),
        Ld32 => load!(4, |v| v, 32, false),
        Ld64 => load!(8, |v| v, 64, false),
        Ld8u64 => load!(1, |v| v, 64, false),
        Ld8s64 => load!(1, |v| v as u8 as i8 as i64 as u64, 64, true),
        Ld16u64 => load!(2, |v| v, 64, false),
        Ld16s64 => load!(2, |v| v as u16 as i16 as i64 as u64, 64, true),
        Ld32u64 => load!(4, |v| v, 64, false),
        Ld32s64 => load!(4, |v| v as u32 as i32 as i64 as u64, 64, true),
        St8 => store!(1), St16 => store!(2), St32 => store!(4), St64 => store!(8),
        Eqz32 => un!(|a| a as u32 == 0), Eqz64 => un!(|a| a == 0u64),
        Eq32 => bin32!(|a, b| (a == b) as u32), Ne32 => bin32!(|a, b| (a != b) as u32),
        LtS32 => bin32!(|a, b| ((a as i32) < b as i32) as u32), LtU32 => bin32!(|a: u32, b: u32| (a < b) as u32),
        GtS32 => bin32!(|a, b| ((a as i32) > b as i32) as u32), GtU32 => bin32!(|a: u32, b: u32| (a > b) as u32),
        LeS32 => bin32!(|a, b| ((a as i32) <= b as i32) as u32), LeU32 => bin32!(|a: u32, b: u32| (a <= b) as u32),
        GeS32 => bin32!(|a, b| ((a as i32) >= b as i32) as u32), GeU32 => bin32!(|a: u32, b: u32| (a >= b) as u32),
        Eq64 => bin64!(|a, b| (a == b) as u64), Ne64 => bin64!(|a, b| (a != b) as u64),
        LtS64 => bin64!(|a, b| ((a as i64) < b as i64) as u64), LtU64 => bin64!(|a: u64, b: u64| (a < b) as u64),
        GtS64 => bin64!(|a, b| ((a as i64) > b as i64) as u64), GtU64 => bin64!(|a: u64, b: u64| (a > b) as u64),
        LeS64 => bin64!(|a, b| ((a as i64) <= b as i64) as u64), LeU64 => bin64!(|a: u64, b: u64| (a <= b) as u64),
        GeS64 => bin64!(|a, b| ((a as i64) >= b as i64) as u64), GeU64 => bin64!(|a: u64, b: u64| (a >= b) as u64),
        Clz32 => un!(|a| (a as u32).leading_zeros()), Ctz32 => un!(|a| (a as u32).trailing_zeros()), Popcnt32 => un!(|a| (a as u32).count_ones()),
        Clz64 => un!(|a: u64| a.leading_zeros()), Ctz64 => un!(|a: u64| a.trailing_zeros()), Popcnt64 => un!(|a: u64| a.count_ones()),
        Add32 => bin32!(|a: u32, b: u32| a.wrapping_add(b)), Sub32 => bin32!(|a: u32, b: u32| a.wrapping_sub(b)), Mul32 => bin32!(|a: u32, b: u32| a.wrapping_mul(b)),
        And32 => bin32!(|a: u32, b: u32| a & b), Or32 => bin32!(|a: u32, b: u32| a | b), Xor32 => bin32!(|a: u32, b: u32| a ^ b),
        Shl32 => bin32!(|a: u32, b: u32| a.wrapping_shl(b)), ShrU32 => bin32!(|a: u32, b: u32| a.wrapping_shr(b)), ShrS32 => bin32!(|a: u32, b: u32| (a as i32).wrapping_shr(b)),
        Rotl32 => bin32!(|a: u32, b: u32| a.rotate_left(b & 31)), Rotr32 => bin32!(|a: u32, b: u32| a.rotate_right(b & 31)),
        Add64 => bin64!(|a: u64, b: u64| a.wrapping_add(b)), Sub64 => bin64!(|a: u64, b: u64| a.wrapping_sub(b)), Mul64 => bin64!(|a: u64, b: u64| a.wrapping_mul(b)),
        And64 => bin64!(|a: u64, b: u64| a & b), Or64 => bin64!(|a: u64, b: u64| a | b), Xor64 => bin64!(|a: u64, b: u64| a ^ b),
        Shl64 => bin64!(|a: u64, b: u64| a.wrapping_shl(b as u32)), ShrU64 => bin64!(|a: u64, b: u64| a.wrapping_shr(b as u32)), ShrS64 => bin64!(|a: u64, b: u64| (a as i64).wrapping_shr(b as u32)),
        Rotl64 => bin64!(|a: u64, b: u64| a.rotate_left(b as u32 & 63)), Rotr64 => bin64!(|a: u64, b: u64| a.rotate_right(b as u32 & 63)),
        DivS32 | DivU32 | RemS32 | RemU32 => {
          let (a, b) = (get!(o.a), get!(o.b));
          if b.e == 0 && b.v as u32 == 0 { sync!(); return stop(self.crash(st, "trap", "division by zero".into())); }
          if a.e | b.e == 0 {
            let (x, y) = (a.v as u32, b.v as u32);
            let r = match o.op { DivU32 => x / y, RemU32 => x % y, DivS32 => (x as i32).wrapping_div(y as i32) as u32, _ => (x as i32).wrapping_rem(y as i32) as u32 };
            set!(o.d, cv(r as u64));
          } else { sync!(); set!(o.d, self.sym2(st, o.op, a, b)?); }
          pc += 1;
        }
        DivS64 | DivU64 | RemS64 | RemU64 => {
          let (a, b) = (get!(o.a), get!(o.b));
          if b.e == 0 && b.v == 0 { sync!(); return stop(self.crash(st, "trap", "division by zero".into())); }
          if a.e | b.e == 0 {
            let (x, y) = (a.v, b.v);
            let r = match o.op { DivU64 => x / y, RemU64 => x % y, DivS64 => (x as i64).wrapping_div(y as i64) as u64, _ => (x as i64).wrapping_rem(y as i64) as u64 };
            set!(o.d, cv(r));
          } else { sync!(); set!(o.d, self.sym2(st, o.op, a, b)?); }
          pc += 1;
        }
        Wrap => un!(|a: u64| a as u32),
        ExtS32 => un!(|a: u64| a as u32 as i32 as i64),
        ExtU32 => un!(|a: u64| a as u32),
        Ext8S32 => un!(|a: u64| a as u8 as i8 as i32 as u32), Ext16S32 => un!(|a: u64| a as u16 as i16 as i32 as u32),
        Ext8S64 => un!(|a: u64| a as u8 as i8 as i64), Ext16S64 => un!(|a: u64| a as u16 as i16 as i64), Ext32S64 => un!(|a: u64| a as u32 as i32 as i64),
        Float1 => {
          let a = get!(o.a);
          let w = match o.imm { 0x8b..=0x91 | 0xa8 | 0xa9 | 0xae | 0xaf | 0xb2 | 0xb3 | 0xb7 | 0xb8 | 0xbb | 0xfc00 | 0xfc01 | 0xfc04 | 0xfc05 => 32, _ => 64 };
          if a.e != 0 {
            sync!();
            let e = if self.ar.w(a.e) == w { a.e } else { self.ar.extract(a.e, 0, w) };
            if let Some(c) = self.ar.fconv_ok(o.imm, e) { if !self.decide(st, c)? { return stop(self.crash(st, "trap", "float to integer conversion".into())); } }
            if let Some(r) = self.ar.fun1(o.imm, e) { let v = self.val(r); set!(o.d, v); pc += 1; continue; }
          }
          let x = if a.e == 0 { a.v } else { sync!(); self.conc(st, a, w)? };
          match float1(o.imm, x) { Some(v) => set!(o.d, cv(v)), None => { sync!(); return stop(self.crash(st, "trap", "float to integer conversion".into())); } }
          pc += 1;
        }
        Float2 => {
          let (a, b) = (get!(o.a), get!(o.b));
          let w = match o.imm { 0x5b..=0x60 | 0x92..=0x98 => 32, _ => 64 };
          if a.e | b.e != 0 {
            sync!();
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            if let Some(c) = self.ar.fcmp(o.imm, x, y) { let v = self.b2i(c); set!(o.d, v); pc += 1; continue; }
          }
          let (x, y) = if a.e | b.e == 0 { (a.v, b.v) } else { sync!(); (self.conc(st, a, w)?, self.conc(st, b, w)?) };
          set!(o.d, cv(float2(o.imm, x, y)));
          pc += 1;
        }
      }
    }
  }
}

pub fn float1(op: u64, x: u64) -> Option<u64> {
  let a = f32::from_bits(x as u32);
  let d = f64::from_bits(x);
  let f = |v: f32| v.to_bits() as u64;
  let g = |v: f64| v.to_bits();
  let i = x as u32 as i32; let l = x as i64;
  let tr = |v: f64, lo: f64, hi: f64| if v.is_nan() || v.trunc() < lo || v.trunc() > hi { None } else { Some(v.trunc()) };
  Some(match op {
    0x8b => f(a.abs()), 0x8c => f(-a), 0x8d => f(a.ceil()), 0x8e => f(a.floor()), 0x8f => f(a.trunc()), 0x90 => f(a.round_ties_even()), 0x91 => f(a.sqrt()),
    0x99 => g(d.abs()), 0x9a => g(-d), 0x9b => g(d.ceil()), 0x9c => g(d.floor()), 0x9d => g(d.trunc()), 0x9e => g(d.round_ties_even()), 0x9f => g(d.sqrt()),
    0xa8 => tr(a as f64, -2147483648.0, 2147483647.0)? as i32 as u32 as u64,
    0xa9 => tr(a as f64, 0.0, 4294967295.0)? as u32 as u64,
    0xaa => tr(d, -2147483648.0, 2147483647.0)? as i32 as u32 as u64,
    0xab => tr(d, 0.0, 4294967295.0)? as u32 as u64,
    0xae => tr(a as f64, -9223372036854775808.0, 9223372036854774784.0)? as i64 as u64,
    0xaf => tr(a as f64, 0.0, 18446744073709549568.0)? as u64,
    0xb0 => tr(d, -9223372036854775808.0, 9223372036854774784.0)? as i64 as u64,
    0xb1 => tr(d, 0.0, 18446744073709549568.0)? as u64,
    0xb2 => f(i as f32), 0xb3 => f(x as u32 as f32), 0xb4 => f(l as f32), 0xb5 => f(x as f32), 0xb6 => f(d as f32),
    0xb7 => g(i as f64), 0xb8 => g(x as u32 as f64), 0xb9 => g(l as f64), 0xba => g(x as f64), 0xbb => g(a as f64),
    0xfc00 => a as i32 as u32 as u64, 0xfc01 => a as u32 as u64, 0xfc02 => d as i32 as u32 as u64, 0xfc03 => d as u32 as u64,
    0xfc04 => a as i64 as u64, 0xfc05 => a as u64, 0xfc06 => d as i64 as u64, 0xfc07 => d as u64,
    _ => panic!("float operation {op:x}"),
  })
}

pub fn float2(op: u64, x: u64, y: u64) -> u64 {
  let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
  let (c, d) = (f64::from_bits(x), f64::from_bits(y));
  let f = |v: f32| v.to_bits() as u64;
  let g = |v: f64| v.to_bits();
  match op {
    0x5b => (a == b) as u64, 0x5c => (a != b) as u64, 0x5d => (a < b) as u64, 0x5e => (a > b) as u64, 0x5f => (a <= b) as u64, 0x60 => (a >= b) as u64,
    0x61 => (c == d) as u64, 0x62 => (c != d) as u64, 0x63 => (c < d) as u64, 0x64 => (c > d) as u64, 0x65 => (c <= d) as u64, 0x66 => (c >= d) as u64,
    0x92 => f(a + b), 0x93 => f(a - b), 0x94 => f(a * b), 0x95 => f(a / b),
    0x96 => if a.is_nan() || b.is_nan() { f(f32::NAN) } else { f(if a == 0.0 && b == 0.0 { if a.is_sign_negative() { a } else { b } } else { a.min(b) }) },
    0x97 => if a.is_nan() || b.is_nan() { f(f32::NAN) } else { f(if a == 0.0 && b == 0.0 { if a.is_sign_negative() { b } else { a } } else { a.max(b) }) },
    0x98 => f(a.copysign(b)),
    0xa0 => g(c + d), 0xa1 => g(c - d), 0xa2 => g(c * d), 0xa3 => g(c / d),
    0xa4 => if c.is_nan() || d.is_nan() { g(f64::NAN) } else { g(if c == 0.0 && d == 0.0 { if c.is_sign_negative() { c } else { d } } else { c.min(d) }) },
    0xa5 => if c.is_nan() || d.is_nan() { g(f64::NAN) } else { g(if c == 0.0 && d == 0.0 { if c.is_sign_negative() { d } else { c } } else { c.max(d) }) },
    0xa6 => g(c.copysign(d)),
    _ => panic!("float operation {op:x}"),
  }
}
