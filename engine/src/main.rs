//! wsym: bounded symbolic execution of a WebAssembly module with Z3.
//!
//! wsym MODULE [--time S] [--threads N] [--z3-ms N] [--max-instrs N] [--xcheck] HARNESS...
//! Writes one JSON object on standard output.

mod exec;
mod expr;
mod fp;
mod solver;
mod wasm;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Job { pub harness: usize, pub trace: Vec<Dec>, pub model: Vec<u8> }

#[derive(Clone)]
pub struct Violation { pub harness: usize, pub kind: String, pub msg: String, pub inputs: Vec<u32>, pub known: Vec<String>, pub trace: Vec<String>, pub hash_mode: u32, pub random_mode: u32 }

#[derive(Default)]
struct HStat { w: WStat, z: solver::Stats, reach: BTreeMap<String, u64>, samples: Vec<Vec<u32>>, busy: f64, done_at: f64 }

pub struct Shared {
  queue: Mutex<(VecDeque<Job>, usize)>, // jobs, workers busy
  cv: Condvar,
  pub idle: AtomicUsize,
  pub queued: AtomicUsize,
  pub stop: AtomicBool,
  pub timed_out: AtomicBool,
  pub z3_timeout: u32,
  pub deadline: Instant,
  pub max_instrs: u64,
  pub xcheck: bool,
  max_violations: usize,
  h: Mutex<Vec<HStat>>,
  viol: Mutex<Vec<(Violation, u64)>>,
  inc: Mutex<BTreeMap<String, u64>>,
  seen: Mutex<Vec<bool>>,
}

impl Shared {
  pub fn push(&self, j: Job) {
    let mut q = self.queue.lock().unwrap();
    q.0.push_back(j);
    self.queued.store(q.0.len(), Relaxed);
    self.cv.notify_one();
  }
  pub fn incomplete(&self, why: &str) { *self.inc.lock().unwrap().entry(why.to_string()).or_default() += 1; }
  pub fn reach(&self, h: usize, s: String) { *self.h.lock().unwrap()[h].reach.entry(s).or_default() += 1; }
  pub fn violation(&self, v: Violation) {
    let mut l = self.viol.lock().unwrap();
    let same = l.iter_mut().filter(|x| x.0.harness == v.harness && x.0.known == v.known && (!v.known.is_empty() || (x.0.kind == v.kind && x.0.msg == v.msg && key(&x.0) == key(&v)))).collect::<Vec<_>>();
    if same.len() >= 3 { for x in same { x.1 += 1; break; } return; }
    l.push((v, 1));
    let fresh: BTreeSet<_> = l.iter().filter(|x| x.0.known.is_empty()).map(|x| (x.0.harness, x.0.kind.clone(), x.0.msg.clone(), key(&x.0))).collect();
    if fresh.len() >= self.max_violations { self.stop.store(true, Relaxed); }
  }
}
fn key(v: &Violation) -> Vec<String> { v.trace.iter().filter(|n| n.contains("pact_models")).take(2).cloned().collect() }

fn esc(s: &str) -> String {
  let mut r = String::from("\"");
  for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) } }
  r.push('"'); r
}
fn list<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }

fn worker(m: &wasm::Module, sh: &Shared, names: &[String], t0: Instant) {
  let mut w = Worker::new(m, sh);
  let mut init = initial(m);
  if m.exports.contains_key("_initialize") {
    w.start(&mut init, "_initialize");
    match w.run(&mut init) { End::Done => {} _ => { eprintln!("_initialize failed"); std::process::exit(3) } }
  }
  init.instrs = 0; init.start_instrs = 0;
  loop {
    let job = {
      let mut q = sh.queue.lock().unwrap();
      sh.idle.fetch_add(1, Relaxed);
      loop {
        if sh.stop.load(Relaxed) { q.0.clear(); }
        if let Some(j) = q.0.pop_front() { q.1 += 1; sh.queued.store(q.0.len(), Relaxed); sh.idle.fetch_sub(1, Relaxed); break j; }
        if q.1 == 0 { sh.cv.notify_all(); let mut s = sh.seen.lock().unwrap(); for (i, x) in w.seen.iter().enumerate() { s[i] |= *x; } return; }
        q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
      }
    };
    let start = Instant::now();
    w.harness = job.harness;
    w.stat = WStat::default();
    w.z3.stats = Default::default();
    if w.ar.size() > 1_200_000_000 {
      w.ar = expr::Arena::new();
      w.z3 = solver::Solver::new(sh.z3_timeout, sh.deadline);
      w.qcache = Default::default();
    }
    let mut st = init.clone();
    st.model = job.model;
    if !job.trace.is_empty() { st.replay = Some(Rc::new(job.trace)); }
    w.start(&mut st, &names[job.harness]);
    w.pending.push_back(st);
    let mut samples = vec![];
    while let Some(mut st) = w.pending.pop_back() {
      if sh.stop.load(Relaxed) {
        let n = w.pending.len() + 1;
        w.pending.clear();
        if sh.timed_out.load(Relaxed) { for _ in 0..n { sh.incomplete("time limit"); } }
        break;
      }
      let before = st.instrs;
      let end = w.run(&mut st);
      w.stat.instrs += st.instrs - before.min(st.instrs);
      match end {
        End::Done => {
          w.stat.paths += 1;
          if w.xcheck || w.stat.paths & 255 == 1 { w.confirm_path(&st); }
          if samples.len() < 2 { samples.push(st.inputs.iter().map(|i| match i { Inp::Var(v) => st.model[*v as usize] as u32, Inp::Choice(c) => *c }).collect::<Vec<u32>>()); }
        }
        End::Infeasible => w.stat.infeasible += 1,
        End::Violated => w.stat.paths += 1,
        End::Incomplete(s) => if s != "time limit" || sh.timed_out.load(Relaxed) { sh.incomplete(&s) },
      }
      if w.ar.size() > 2_200_000_000 {
        while let Some(x) = w.pending.pop_front() { w.donate(x); }
      }
    }
    {
      let mut h = sh.h.lock().unwrap();
      let h = &mut h[job.harness];
      let (a, b) = (&mut h.w, &w.stat);
      a.paths += b.paths; a.infeasible += b.infeasible; a.forks += b.forks; a.instrs += b.instrs; a.replay_instrs += b.replay_instrs; a.checks_const += b.checks_const; a.checks_z3 += b.checks_z3;
      a.decisions += b.decisions; a.byte_decided += b.byte_decided; a.witness += b.witness; a.cached += b.cached; a.xchecked += b.xchecked; a.confirmed += b.confirmed; a.max_vars = a.max_vars.max(b.max_vars);
      let (a, b) = (&mut h.z, &w.z3.stats);
      a.queries += b.queries; a.sat += b.sat; a.unsat += b.unsat; a.unknown += b.unknown; a.time += b.time; a.slowest = a.slowest.max(b.slowest);
      for s in samples { if h.samples.len() < 12 { h.samples.push(s); } }
      h.busy += start.elapsed().as_secs_f64();
      h.done_at = t0.elapsed().as_secs_f64();
    }
    let mut q = sh.queue.lock().unwrap();
    q.1 -= 1;
    if q.1 == 0 && q.0.is_empty() { sh.cv.notify_all(); }
  }
}

fn main() {
  let mut args = std::env::args().skip(1);
  let (mut path, mut names, mut time, mut threads, mut z3ms, mut maxi, mut xcheck, mut maxv) = (None, vec![], 600.0f64, 8usize, 20_000u32, 400_000_000u64, false, 6usize);
  let mut funcs = false;
  while let Some(a) = args.next() {
    let mut num = || args.next().unwrap().parse::<f64>().unwrap();
    match a.as_str() {
      "--time" => time = num(),
      "--threads" => threads = num() as usize,
      "--z3-ms" => z3ms = num() as u32,
      "--max-instrs" => maxi = num() as u64,
      "--max-violations" => maxv = num() as usize,
      "--xcheck" => xcheck = true,
      "--functions" => funcs = true,
      _ if path.is_none() => path = Some(a),
      _ => names.push(a),
    }
  }
  let t0 = Instant::now();
  let m = wasm::parse(std::fs::read(path.expect("module")).expect("cannot read the module"));
  for n in &names { if !m.exports.contains_key(n) { eprintln!("no such harness: {n}"); std::process::exit(3); } }
  let sh = Shared {
    queue: Mutex::new((VecDeque::new(), 0)), cv: Condvar::new(), idle: AtomicUsize::new(0), queued: AtomicUsize::new(0), stop: AtomicBool::new(false), timed_out: AtomicBool::new(false),
    z3_timeout: z3ms, deadline: t0 + Duration::from_secs_f64(time), max_instrs: maxi, xcheck, max_violations: maxv, h: Mutex::new((0..names.len()).map(|_| HStat::default()).collect()), viol: Mutex::new(vec![]), inc: Mutex::new(BTreeMap::new()),
    seen: Mutex::new(vec![false; m.names.len()]),
  };
  for i in 0..names.len() { sh.push(Job { harness: i, trace: vec![], model: vec![] }); }
  let done = AtomicBool::new(false);
  std::thread::scope(|s| {
    let hs: Vec<_> = (0..threads).map(|_| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || {
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(&m, &sh, &names, t0)));
      if r.is_err() { eprintln!("engine error"); std::process::exit(3); }
    }).unwrap()).collect();
    s.spawn(|| {
      while !done.load(Relaxed) {
        std::thread::sleep(Duration::from_millis(50));
        if t0.elapsed().as_secs_f64() > time && !sh.stop.load(Relaxed) { sh.timed_out.store(true, Relaxed); sh.stop.store(true, Relaxed); }
      }
    });
    for h in hs { let _ = h.join(); }
    done.store(true, Relaxed);
  });
  let h = sh.h.lock().unwrap();
  let mut o = String::from("{\n");
  o += &format!("\"z3\":{},\"wall\":{:.2},\"timed_out\":{},\"stopped\":{},\n", esc(&solver::version()), t0.elapsed().as_secs_f64(), sh.timed_out.load(Relaxed), sh.stop.load(Relaxed));
  o += &format!("\"incomplete\":{{{}}},\n", sh.inc.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
  o += "\"harnesses\":[\n";
  o += &h.iter().enumerate().map(|(i, h)| format!(
    "{{\"name\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"replayed_instructions\":{},\"assertions_folded\":{},\"assertions_z3\":{},\"decisions\":{},\"byte_decided\":{},\"witness\":{},\"cached\":{},\"xchecked\":{},\"paths_confirmed\":{},\"max_input_bytes\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"cpu_s\":{:.2},\"done_at\":{:.2},\"reach\":{{{}}},\"samples\":{}}}",
    esc(&names[i]), h.w.paths, h.w.infeasible, h.w.forks, h.w.instrs, h.w.replay_instrs, h.w.checks_const, h.w.checks_z3, h.w.decisions, h.w.byte_decided, h.w.witness, h.w.cached, h.w.xchecked, h.w.confirmed, h.w.max_vars,
    h.z.queries, h.z.sat, h.z.unsat, h.z.unknown, h.z.time.as_secs_f64(), h.z.slowest.as_secs_f64(), h.busy, h.done_at,
    h.reach.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","), list(&h.samples, |s| list(s, |x| x.to_string())))).collect::<Vec<_>>().join(",\n");
  o += "\n],\n\"violations\":[\n";
  o += &sh.viol.lock().unwrap().iter().map(|(v, n)| format!("{{\"harness\":{},\"kind\":{},\"message\":{},\"count\":{},\"known\":{},\"hash_mode\":{},\"random_mode\":{},\"inputs\":{},\"stack\":{}}}",
    esc(&names[v.harness]), esc(&v.kind), esc(&v.msg), n, list(&v.known, |x| esc(x)), v.hash_mode, v.random_mode, list(&v.inputs, |x| x.to_string()), list(&v.trace, |x| esc(x)))).collect::<Vec<_>>().join(",\n");
  o += "\n],\n";
  let seen = sh.seen.lock().unwrap();
  let own: Vec<String> = m.names.iter().zip(seen.iter()).filter(|(n, s)| **s && n.contains("pact_models")).map(|(n, _)| n.clone()).collect();
  o += &format!("\"functions_entered\":{},\"pact_functions_entered\":{}", seen.iter().filter(|x| **x).count(), own.len());
  if funcs { o += &format!(",\"pact_functions\":{}", list(&own, |x| esc(x))); }
  o += "\n}\n";
  print!("{o}");
}
