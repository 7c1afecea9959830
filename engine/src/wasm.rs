//! WebAssembly binary parser, and a translation of each function body to register code.
//!
//! Register code: slots `0..nlocals` are the locals, `nlocals + depth` is the operand-stack entry at that depth.
//! An operand is a slot (>= 0) or an index into the function's constants (`!x`).

use std::collections::HashMap;
use std::sync::OnceLock;

pub struct FuncType { pub params: Vec<u8>, pub results: Vec<u8> }

pub struct Body { pub start: usize, pub end: usize }

pub struct Module {
  pub bytes: Vec<u8>,
  pub types: Vec<FuncType>,
  pub imports: Vec<(String, String, u32)>,
  pub func_types: Vec<u32>,
  pub bodies: Vec<Body>,
  pub compiled: Vec<OnceLock<Func>>,
  pub table: Vec<u32>,
  pub mem_min: u32,
  pub mem_max: u32,
  pub globals: Vec<(u8, u64)>,
  pub exports: HashMap<String, (u8, u32)>,
  pub data: Vec<(Option<u32>, Vec<u8>)>,
  pub names: Vec<String>,
  pub start: Option<u32>,
}

pub struct Func {
  pub nparams: u32,
  pub nlocals: u32,
  pub nresults: u32,
  pub nslots: u32,
  pub code: Vec<Op>,
  pub consts: Vec<u64>,
  pub tables: Vec<Vec<u32>>,
}

#[derive(Clone, Copy, Debug)]
pub struct Op { pub op: Opc, pub d: u32, pub a: i32, pub b: i32, pub c: i32, pub imm: u64 }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum Opc {
  Unreachable, Move, Br, BrIf, BrIfZ, BrTable, Return, Call, CallIndirect, Select,
  GlobalGet, GlobalSet, MemSize, MemGrow, MemCopy, MemFill, TableGet, TableSize,
  // loads: imm = offset
  Ld8u32, Ld8s32, Ld16u32, Ld16s32, Ld32, Ld64, Ld8u64, Ld8s64, Ld16u64, Ld16s64, Ld32u64, Ld32s64,
  St8, St16, St32, St64,
  // i32
  Eqz32, Eq32, Ne32, LtS32, LtU32, GtS32, GtU32, LeS32, LeU32, GeS32, GeU32,
  Eqz64, Eq64, Ne64, LtS64, LtU64, GtS64, GtU64, LeS64, LeU64, GeS64, GeU64,
  Clz32, Ctz32, Popcnt32, Add32, Sub32, Mul32, DivS32, DivU32, RemS32, RemU32, And32, Or32, Xor32, Shl32, ShrS32, ShrU32, Rotl32, Rotr32,
  Clz64, Ctz64, Popcnt64, Add64, Sub64, Mul64, DivS64, DivU64, RemS64, RemU64, And64, Or64, Xor64, Shl64, ShrS64, ShrU64, Rotl64, Rotr64,
  Wrap, ExtS32, ExtU32, Ext8S32, Ext16S32, Ext8S64, Ext16S64, Ext32S64,
  // float operations, concrete only: imm = the wasm opcode (0xfc00 + n for saturating truncations)
  Float1, Float2,
}

struct R<'a> { b: &'a [u8], p: usize }
impl<'a> R<'a> {
  fn u8(&mut self) -> u8 { let v = self.b[self.p]; self.p += 1; v }
  fn u32(&mut self) -> u32 { self.u64() as u32 }
  fn u64(&mut self) -> u64 {
    let (mut r, mut s) = (0u64, 0);
    loop { let b = self.u8(); r |= ((b & 0x7f) as u64) << s; s += 7; if b & 0x80 == 0 { return r; } }
  }
  fn i64(&mut self) -> i64 {
    let (mut r, mut s) = (0i64, 0);
    loop {
      let b = self.u8(); r |= ((b & 0x7f) as i64) << s; s += 7;
      if b & 0x80 == 0 { if s < 64 && b & 0x40 != 0 { r |= -1i64 << s; } return r; }
    }
  }
  fn name(&mut self) -> String {
    let n = self.u32() as usize;
    let s = String::from_utf8_lossy(&self.b[self.p..self.p + n]).to_string();
    self.p += n; s
  }
  fn bytes(&mut self, n: usize) -> Vec<u8> { let v = self.b[self.p..self.p + n].to_vec(); self.p += n; v }
}

fn const_expr(r: &mut R, globals: &[(u8, u64)]) -> u64 {
  let mut v = 0;
  loop {
    match r.u8() {
      0x41 => v = r.i64() as u32 as u64,
      0x42 => v = r.i64() as u64,
      0x43 => { let b = r.bytes(4); v = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as u64 }
      0x44 => { let b = r.bytes(8); v = u64::from_le_bytes(b.try_into().unwrap()) }
      0x23 => v = globals[r.u32() as usize].1,
      0xd0 => { r.u8(); v = u32::MAX as u64 }
      0xd2 => v = r.u32() as u64,
      0x0b => return v,
      o => panic!("constant expression opcode {o:x}"),
    }
  }
}

pub fn parse(bytes: Vec<u8>) -> Module {
  let mut m = Module {
    bytes: vec![], types: vec![], imports: vec![], func_types: vec![], bodies: vec![], compiled: vec![], table: vec![],
    mem_min: 0, mem_max: 65536, globals: vec![], exports: HashMap::new(), data: vec![], names: vec![], start: None,
  };
  let mut r = R { b: &bytes, p: 8 };
  assert_eq!(&bytes[..4], b"\0asm");
  while r.p < bytes.len() {
    let id = r.u8();
    let size = r.u32() as usize;
    let end = r.p + size;
    match id {
      0 => {
        let name = r.name();
        if name == "name" {
          while r.p < end {
            let sub = r.u8(); let n = r.u32() as usize; let e = r.p + n;
            if sub == 1 {
              for _ in 0..r.u32() {
                let i = r.u32() as usize; let s = r.name();
                if m.names.len() <= i { m.names.resize(i + 1, String::new()); }
                m.names[i] = s;
              }
            }
            r.p = e;
          }
        }
      }
      1 => for _ in 0..r.u32() {
        assert_eq!(r.u8(), 0x60);
        let n = r.u32() as usize; let params = r.bytes(n);
        let n = r.u32() as usize; let results = r.bytes(n);
        m.types.push(FuncType { params, results });
      },
      2 => for _ in 0..r.u32() {
        let module = r.name(); let name = r.name();
        match r.u8() {
          0 => { let t = r.u32(); m.imports.push((module, name, t)); m.func_types.push(t); }
          k => panic!("import kind {k} ({module}.{name})"),
        }
      },
      3 => for _ in 0..r.u32() { let t = r.u32(); m.func_types.push(t); },
      4 => for _ in 0..r.u32() {
        r.u8(); let f = r.u8(); let min = r.u32(); if f & 1 != 0 { r.u32(); }
        m.table = vec![u32::MAX; min as usize];
      },
      5 => for _ in 0..r.u32() { let f = r.u8(); m.mem_min = r.u32(); if f & 1 != 0 { m.mem_max = r.u32(); } },
      6 => for _ in 0..r.u32() { let t = r.u8(); r.u8(); let v = const_expr(&mut r, &m.globals); m.globals.push((t, v)); },
      7 => for _ in 0..r.u32() { let n = r.name(); let k = r.u8(); let i = r.u32(); m.exports.insert(n, (k, i)); },
      8 => m.start = Some(r.u32()),
      9 => for _ in 0..r.u32() {
        let flag = r.u32();
        assert!(flag == 0 || flag == 4, "element segment kind {flag}");
        let off = const_expr(&mut r, &m.globals) as usize;
        for i in 0..r.u32() as usize {
          let f = if flag == 0 { r.u32() } else { const_expr(&mut r, &m.globals) as u32 };
          m.table[off + i] = f;
        }
      },
      10 => for _ in 0..r.u32() {
        let n = r.u32() as usize;
        m.bodies.push(Body { start: r.p, end: r.p + n });
        m.compiled.push(OnceLock::new());
        r.p += n;
      },
      11 => for _ in 0..r.u32() {
        let flag = r.u32();
        let off = match flag { 0 => Some(const_expr(&mut r, &m.globals) as u32), 1 => None, 2 => { r.u32(); Some(const_expr(&mut r, &m.globals) as u32) } _ => panic!("data segment kind") };
        let n = r.u32() as usize;
        let b = r.bytes(n);
        m.data.push((off, b));
      },
      12 => { r.u32(); }
      _ => {}
    }
    r.p = end;
  }
  let total = m.func_types.len();
  if m.names.len() < total { m.names.resize(total, String::new()); }
  m.bytes = bytes;
  m
}

#[derive(Clone, Copy)]
enum E { Temp, Local(u32), Const(u64) }

struct Ctl {
  kind: u8, // 0 block, 1 loop, 2 if, 3 function
  height: usize,
  nparams: usize,
  nresults: usize,
  loop_pc: u32,
  patches: Vec<usize>,
  table_patches: Vec<(usize, usize)>,
  else_patch: Option<usize>,
  dead: bool,
}

struct C<'m> {
  m: &'m Module,
  nlocals: u32,
  code: Vec<Op>,
  consts: Vec<u64>,
  cidx: HashMap<u64, i32>,
  tables: Vec<Vec<u32>>,
  st: Vec<E>,
  max: usize,
  ctl: Vec<Ctl>,
  barrier: usize, // no peephole across this code index
}

const Z: i32 = 0;
fn op(op: Opc, d: u32, a: i32, b: i32, c: i32, imm: u64) -> Op { Op { op, d, a, b, c, imm } }

impl<'m> C<'m> {
  fn tslot(&self, depth: usize) -> u32 { self.nlocals + depth as u32 }
  fn konst(&mut self, v: u64) -> i32 {
    if let Some(i) = self.cidx.get(&v) { return *i; }
    let i = !(self.consts.len() as i32);
    self.consts.push(v); self.cidx.insert(v, i); i
  }
  fn push(&mut self, e: E) { self.st.push(e); if self.st.len() > self.max { self.max = self.st.len(); } }
  fn push_temp(&mut self) -> u32 { self.push(E::Temp); self.tslot(self.st.len() - 1) }
  fn operand(&mut self, depth: usize, e: E) -> i32 {
    match e { E::Temp => self.tslot(depth) as i32, E::Local(i) => i as i32, E::Const(k) => self.konst(k) }
  }
  fn pop(&mut self) -> i32 { let e = self.st.pop().expect("stack"); let d = self.st.len(); self.operand(d, e) }
  fn flush_at(&mut self, depth: usize) {
    let e = self.st[depth];
    if let E::Temp = e { return; }
    let a = self.operand(depth, e);
    let d = self.tslot(depth);
    self.code.push(op(Opc::Move, d, a, Z, Z, 0));
    self.st[depth] = E::Temp;
  }
  fn flush_all(&mut self) { for d in 0..self.st.len() { self.flush_at(d); } self.barrier = self.code.len(); }
  fn flush_top(&mut self, n: usize) { let l = self.st.len(); for d in l - n..l { self.flush_at(d); } self.barrier = self.code.len(); }
  fn flush_local(&mut self, i: u32) {
    for d in 0..self.st.len() { if let E::Local(j) = self.st[d] { if i == j { self.flush_at(d); } } }
  }
  fn set_local(&mut self, i: u32, tee: bool) {
    let e = self.st.pop().unwrap();
    let depth = self.st.len();
    self.flush_local(i);
    let temp = self.tslot(depth);
    let last = self.code.last().map(|l| (l.d, l.op));
    if let (E::Temp, Some((d, o))) = (e, last) {
      // retarget the operation that has just produced this temporary
      if self.code.len() > self.barrier && d == temp && has_dst(o) {
        self.code.last_mut().unwrap().d = i;
        if tee { self.push(E::Local(i)); }
        return;
      }
    }
    let a = self.operand(depth, e);
    if a != i as i32 { self.code.push(op(Opc::Move, i, a, Z, Z, 0)); }
    if tee { self.push(E::Local(i)); }
  }
  /// Moves the top `n` values to the stack positions of a label at `height`.
  fn carry(&mut self, n: usize, height: usize) {
    let l = self.st.len();
    for k in 0..n {
      let e = self.st[l - n + k];
      let a = self.operand(l - n + k, e);
      let d = self.tslot(height + k);
      if a != d as i32 { self.code.push(op(Opc::Move, d, a, Z, Z, 0)); }
    }
    if height + n > self.max { self.max = height + n; }
  }
  fn label(&self, depth: u32) -> (usize, usize, usize, bool) {
    let i = self.ctl.len() - 1 - depth as usize;
    let c = &self.ctl[i];
    (i, if c.kind == 1 { c.nparams } else { c.nresults }, c.height, c.kind == 1)
  }
  fn needs_moves(&mut self, n: usize, height: usize) -> bool {
    let l = self.st.len();
    (0..n).any(|k| { let e = self.st[l - n + k]; self.operand(l - n + k, e) != self.tslot(height + k) as i32 })
  }
  fn jump(&mut self, depth: u32) {
    let (i, n, h, is_loop) = self.label(depth);
    if self.ctl[i].kind == 3 {
      self.carry(n, 0);
      self.code.push(op(Opc::Return, self.nlocals, Z, Z, Z, n as u64));
      return;
    }
    self.carry(n, h);
    let pc = self.code.len();
    let t = if is_loop { self.ctl[i].loop_pc as u64 } else { self.ctl[i].patches.push(pc); 0 };
    self.code.push(op(Opc::Br, 0, Z, Z, Z, t));
  }
}

fn has_dst(o: Opc) -> bool {
  use Opc::*;
  !matches!(o, Unreachable | Br | BrIf | BrIfZ | BrTable | Return | Call | CallIndirect | GlobalSet | MemCopy | MemFill | St8 | St16 | St32 | St64)
}

pub fn func<'m>(m: &'m Module, idx: u32) -> &'m Func {
  let i = idx as usize - m.imports.len();
  m.compiled[i].get_or_init(|| compile(m, idx))
}

fn block_type(m: &Module, r: &mut R) -> (usize, usize) {
  let v = r.i64();
  if v == -64 { (0, 0) } else if v < 0 { (0, 1) } else { let t = &m.types[v as usize]; (t.params.len(), t.results.len()) }
}

fn skip_imm(r: &mut R, o: u8) {
  match o {
    0x02 | 0x03 | 0x04 => { r.i64(); }
    0x0c | 0x0d | 0x10 | 0x20..=0x26 | 0xd2 => { r.u32(); }
    0x0e => { let n = r.u32(); for _ in 0..=n { r.u32(); } }
    0x11 => { r.u32(); r.u32(); }
    0x1c => { let n = r.u32(); for _ in 0..n { r.u8(); } }
    0x28..=0x3e => { r.u32(); r.u64(); }
    0x3f | 0x40 | 0xd0 => { r.u8(); }
    0x41 | 0x42 => { r.i64(); }
    0x43 => { r.p += 4; }
    0x44 => { r.p += 8; }
    0xfc => { match r.u32() { 0..=7 => {} 8 => { r.u32(); r.u8(); } 9 => { r.u32(); } 10 => { r.p += 2; } 11 => { r.p += 1; } 12 | 14 => { r.u32(); r.u32(); } 13 | 15 | 16 | 17 => { r.u32(); } n => panic!("fc {n}") } }
    _ => {}
  }
}

fn compile(m: &Module, idx: u32) -> Func {
  use Opc::*;
  let body = &m.bodies[idx as usize - m.imports.len()];
  let ty = &m.types[m.func_types[idx as usize] as usize];
  let mut r = R { b: &m.bytes[..body.end], p: body.start };
  let mut nlocals = ty.params.len() as u32;
  for _ in 0..r.u32() { nlocals += r.u32(); r.u8(); }
  let mut c = C { m, nlocals, code: vec![], consts: vec![], cidx: HashMap::new(), tables: vec![], st: vec![], max: 0, ctl: vec![], barrier: 0 };
  let mk = |kind, height, nparams, nresults, loop_pc| Ctl { kind, height, nparams, nresults, loop_pc, patches: vec![], table_patches: vec![], else_patch: None, dead: false };
  c.ctl.push(mk(3, 0, 0, ty.results.len(), 0));
  let mut dead_nest = 0usize;
  while !c.ctl.is_empty() {
    let o = r.u8();
    if c.ctl.last().unwrap().dead {
      match o {
        0x02 | 0x03 | 0x04 => { dead_nest += 1; skip_imm(&mut r, o); continue; }
        0x0b if dead_nest > 0 => { dead_nest -= 1; continue; }
        0x05 if dead_nest > 0 => continue,
        0x0b | 0x05 => {}
        _ => { skip_imm(&mut r, o); continue; }
      }
    }
    macro_rules! bin { ($o:expr) => {{ let b = c.pop(); let a = c.pop(); let d = c.push_temp(); c.code.push(op($o, d, a, b, Z, 0)); }} }
    macro_rules! un { ($o:expr) => {{ let a = c.pop(); let d = c.push_temp(); c.code.push(op($o, d, a, Z, Z, 0)); }} }
    macro_rules! load { ($o:expr) => {{ r.u32(); let off = r.u64(); let a = c.pop(); let d = c.push_temp(); c.code.push(op($o, d, a, Z, Z, off)); }} }
    macro_rules! store { ($o:expr) => {{ r.u32(); let off = r.u64(); let b = c.pop(); let a = c.pop(); c.code.push(op($o, 0, a, b, Z, off)); }} }
    macro_rules! f1 { ($o:expr) => {{ let a = c.pop(); let d = c.push_temp(); c.code.push(op(Float1, d, a, Z, Z, $o as u64)); }} }
    macro_rules! f2 { ($o:expr) => {{ let b = c.pop(); let a = c.pop(); let d = c.push_temp(); c.code.push(op(Float2, d, a, b, Z, $o as u64)); }} }
    match o {
      0x00 => { c.code.push(op(Unreachable, 0, Z, Z, Z, 0)); c.ctl.last_mut().unwrap().dead = true; }
      0x01 => {}
      0x02 | 0x03 => {
        let (np, nr) = block_type(m, &mut r);
        c.flush_all();
        let h = c.st.len() - np;
        let pc = c.code.len() as u32;
        c.ctl.push(mk(if o == 2 { 0 } else { 1 }, h, np, nr, pc));
      }
      0x04 => {
        let (np, nr) = block_type(m, &mut r);
        let a = c.pop();
        c.flush_all();
        let h = c.st.len() - np;
        let pc = c.code.len();
        c.code.push(op(BrIfZ, 0, a, Z, Z, 0));
        c.barrier = c.code.len();
        let mut k = mk(2, h, np, nr, 0);
        k.else_patch = Some(pc);
        c.ctl.push(k);
      }
      0x05 => {
        let (h, np, nr, dead) = { let k = c.ctl.last().unwrap(); (k.height, k.nparams, k.nresults, k.dead) };
        if !dead {
          c.flush_top(nr);
          let pc = c.code.len();
          c.code.push(op(Br, 0, Z, Z, Z, 0));
          c.ctl.last_mut().unwrap().patches.push(pc);
        }
        let here = c.code.len() as u64;
        let e = c.ctl.last_mut().unwrap().else_patch.take().unwrap();
        c.code[e].imm = here;
        c.st.truncate(h);
        for _ in 0..np { c.push(E::Temp); }
        c.barrier = c.code.len();
        c.ctl.last_mut().unwrap().dead = false;
      }
      0x0b => {
        let k = c.ctl.pop().unwrap();
        if k.kind == 3 {
          if !k.dead {
            let n = k.nresults;
            c.carry(n, 0);
            c.code.push(op(Return, c.nlocals, Z, Z, Z, n as u64));
          }
          break;
        }
        if !k.dead { c.flush_top(k.nresults); }
        let here = c.code.len() as u64;
        if let Some(e) = k.else_patch { c.code[e].imm = here; }
        for p in k.patches { c.code[p].imm = here; }
        for (t, i) in k.table_patches { c.tables[t][i] = here as u32; }
        c.st.truncate(k.height);
        for _ in 0..k.nresults { c.push(E::Temp); }
        c.barrier = c.code.len();
      }
      0x0c => { let d = r.u32(); c.jump(d); c.ctl.last_mut().unwrap().dead = true; }
      0x0d => {
        let depth = r.u32();
        let a = c.pop();
        let (i, n, h, is_loop) = c.label(depth);
        if c.ctl[i].kind == 3 || c.needs_moves(n, h) {
          let pc = c.code.len();
          c.code.push(op(BrIfZ, 0, a, Z, Z, 0));
          c.jump(depth);
          c.code[pc].imm = c.code.len() as u64;
        } else {
          let pc = c.code.len();
          let t = if is_loop { c.ctl[i].loop_pc as u64 } else { c.ctl[i].patches.push(pc); 0 };
          c.code.push(op(BrIf, 0, a, Z, Z, t));
        }
        c.barrier = c.code.len();
      }
      0x0e => {
        let n = r.u32() as usize;
        let labels: Vec<u32> = (0..=n).map(|_| r.u32()).collect();
        let a = c.pop();
        let t = c.tables.len();
        c.tables.push(vec![0; n + 1]);
        c.code.push(op(BrTable, 0, a, Z, Z, t as u64));
        c.barrier = c.code.len();
        let mut stubs: HashMap<u32, u32> = HashMap::new();
        for (k, l) in labels.iter().enumerate() {
          let (i, nv, h, is_loop) = c.label(*l);
          if c.ctl[i].kind != 3 && !c.needs_moves(nv, h) {
            if is_loop { c.tables[t][k] = c.ctl[i].loop_pc; } else { c.ctl[i].table_patches.push((t, k)); }
          } else {
            if !stubs.contains_key(l) {
              stubs.insert(*l, c.code.len() as u32);
              c.jump(*l);
            }
            c.tables[t][k] = stubs[l];
          }
        }
        c.ctl.last_mut().unwrap().dead = true;
      }
      0x0f => {
        let n = ty.results.len();
        c.carry(n, 0);
        c.code.push(op(Return, c.nlocals, Z, Z, Z, n as u64));
        c.ctl.last_mut().unwrap().dead = true;
      }
      0x10 | 0x11 => {
        let (f, t) = if o == 0x10 { let f = r.u32(); (f, m.func_types[f as usize]) } else { let t = r.u32(); r.u32(); (t, t) };
        let a = if o == 0x11 { c.pop() } else { 0 };
        let t = &m.types[t as usize];
        let n = t.params.len();
        // The index operand of call_indirect may be the temporary just above the arguments: it is read before the call.
        c.flush_top(n);
        let base = c.st.len() - n;
        c.st.truncate(base);
        let d = c.tslot(base);
        c.code.push(op(if o == 0x10 { Call } else { CallIndirect }, d, a, Z, Z, f as u64));
        for _ in 0..t.results.len() { c.push(E::Temp); }
        if base + n > c.max { c.max = base + n; }
        c.barrier = c.code.len();
      }
      0x1a => { c.st.pop(); }
      0x1b | 0x1c => {
        if o == 0x1c { let n = r.u32(); for _ in 0..n { r.u8(); } }
        let k = c.pop(); let b = c.pop(); let a = c.pop(); let d = c.push_temp();
        c.code.push(op(Select, d, a, b, k, 0));
      }
      0x20 => { let i = r.u32(); c.push(E::Local(i)); }
      0x21 => { let i = r.u32(); c.set_local(i, false); }
      0x22 => { let i = r.u32(); c.set_local(i, true); }
      0x23 => { let i = r.u32(); let d = c.push_temp(); c.code.push(op(GlobalGet, d, Z, Z, Z, i as u64)); }
      0x24 => { let i = r.u32(); let a = c.pop(); c.code.push(op(GlobalSet, 0, a, Z, Z, i as u64)); }
      0x25 => { r.u32(); un!(TableGet) }
      0x28 => load!(Ld32), 0x29 => load!(Ld64), 0x2a => load!(Ld32), 0x2b => load!(Ld64),
      0x2c => load!(Ld8s32), 0x2d => load!(Ld8u32), 0x2e => load!(Ld16s32), 0x2f => load!(Ld16u32),
      0x30 => load!(Ld8s64), 0x31 => load!(Ld8u64), 0x32 => load!(Ld16s64), 0x33 => load!(Ld16u64), 0x34 => load!(Ld32s64), 0x35 => load!(Ld32u64),
      0x36 => store!(St32), 0x37 => store!(St64), 0x38 => store!(St32), 0x39 => store!(St64),
      0x3a => store!(St8), 0x3b => store!(St16), 0x3c => store!(St8), 0x3d => store!(St16), 0x3e => store!(St32),
      0x3f => { r.u8(); let d = c.push_temp(); c.code.push(op(MemSize, d, Z, Z, Z, 0)); }
      0x40 => { r.u8(); un!(MemGrow) }
      0x41 => { let v = r.i64() as u32 as u64; c.push(E::Const(v)); }
      0x42 => { let v = r.i64() as u64; c.push(E::Const(v)); }
      0x43 => { let b = r.bytes(4); c.push(E::Const(u32::from_le_bytes(b.try_into().unwrap()) as u64)); }
      0x44 => { let b = r.bytes(8); c.push(E::Const(u64::from_le_bytes(b.try_into().unwrap()))); }
      0x45 => un!(Eqz32), 0x46 => bin!(Eq32), 0x47 => bin!(Ne32), 0x48 => bin!(LtS32), 0x49 => bin!(LtU32), 0x4a => bin!(GtS32), 0x4b => bin!(GtU32),
      0x4c => bin!(LeS32), 0x4d => bin!(LeU32), 0x4e => bin!(GeS32), 0x4f => bin!(GeU32),
      0x50 => un!(Eqz64), 0x51 => bin!(Eq64), 0x52 => bin!(Ne64), 0x53 => bin!(LtS64), 0x54 => bin!(LtU64), 0x55 => bin!(GtS64), 0x56 => bin!(GtU64),
      0x57 => bin!(LeS64), 0x58 => bin!(LeU64), 0x59 => bin!(GeS64), 0x5a => bin!(GeU64),
      0x5b..=0x66 => f2!(o),
      0x67 => un!(Clz32), 0x68 => un!(Ctz32), 0x69 => un!(Popcnt32), 0x6a => bin!(Add32), 0x6b => bin!(Sub32), 0x6c => bin!(Mul32),
      0x6d => bin!(DivS32), 0x6e => bin!(DivU32), 0x6f => bin!(RemS32), 0x70 => bin!(RemU32), 0x71 => bin!(And32), 0x72 => bin!(Or32), 0x73 => bin!(Xor32),
      0x74 => bin!(Shl32), 0x75 => bin!(ShrS32), 0x76 => bin!(ShrU32), 0x77 => bin!(Rotl32), 0x78 => bin!(Rotr32),
      0x79 => un!(Clz64), 0x7a => un!(Ctz64), 0x7b => un!(Popcnt64), 0x7c => bin!(Add64), 0x7d => bin!(Sub64), 0x7e => bin!(Mul64),
      0x7f => bin!(DivS64), 0x80 => bin!(DivU64), 0x81 => bin!(RemS64), 0x82 => bin!(RemU64), 0x83 => bin!(And64), 0x84 => bin!(Or64), 0x85 => bin!(Xor64),
      0x86 => bin!(Shl64), 0x87 => bin!(ShrS64), 0x88 => bin!(ShrU64), 0x89 => bin!(Rotl64), 0x8a => bin!(Rotr64),
      0x8b..=0x91 => f1!(o), 0x92..=0x98 => f2!(o), 0x99..=0x9f => f1!(o), 0xa0..=0xa6 => f2!(o),
      0xa7 => un!(Wrap), 0xa8..=0xab => f1!(o), 0xac => un!(ExtS32), 0xad => un!(ExtU32), 0xae..=0xbb => f1!(o),
      0xbc..=0xbf => {} // reinterpretations keep the bits
      0xc0 => un!(Ext8S32), 0xc1 => un!(Ext16S32), 0xc2 => un!(Ext8S64), 0xc3 => un!(Ext16S64), 0xc4 => un!(Ext32S64),
      0xfc => {
        let s = r.u32();
        match s {
          0..=7 => f1!(0xfc00u32 + s),
          10 => { r.p += 2; let n = c.pop(); let b = c.pop(); let a = c.pop(); c.code.push(op(MemCopy, 0, a, b, n, 0)); }
          11 => { r.p += 1; let n = c.pop(); let b = c.pop(); let a = c.pop(); c.code.push(op(MemFill, 0, a, b, n, 0)); }
          16 => { r.u32(); let d = c.push_temp(); c.code.push(op(TableSize, d, Z, Z, Z, 0)); }
          _ => panic!("opcode fc {s} in {}", m.names[idx as usize]),
        }
      }
      _ => panic!("opcode {o:x} in {}", m.names[idx as usize]),
    }
  }
  let _ = c.m;
  Func { nparams: ty.params.len() as u32, nlocals, nresults: ty.results.len() as u32, nslots: nlocals + c.max as u32 + 2, code: c.code, consts: c.consts, tables: c.tables }
}
