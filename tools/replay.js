// Runs one harness of the module on concrete inputs, with V8 executing the code natively.
// node replay.js MODULE HARNESS INPUTS-JSON [SEED]
'use strict';
const fs = require('fs');
const [file, harness, inputsJson, seedArg] = process.argv.slice(2);
const inputs = JSON.parse(inputsJson);
const module_ = new WebAssembly.Module(fs.readFileSync(file));
let pos = 0, mem, out = '';
let seed = BigInt(seedArg || 1);
const M64 = (1n << 64n) - 1n;
class Stop extends Error { constructor(kind, msg) { super(msg); this.kind = kind; } }
const str = (p, n) => Buffer.from(mem.buffer, p >>> 0, n >>> 0).toString('utf8');
const next = () => { if (pos >= inputs.length) throw new Stop('short', 'more inputs read than recorded'); return inputs[pos++]; };
const vp = {
  sym_byte: next, sym_in: () => next(), choose: () => next(),
  assume: c => { if (!c) throw new Stop('infeasible', 'assumption'); },
  check: (c, p, n) => { if (!c) throw new Stop('check', str(p, n)); },
  reach: () => {}, known: () => {}, note: () => {}, conc: x => x, symbolic: () => 0,
  hash_mode: n => { if (n) seed = BigInt(n); }, random_mode: (n, words) => { random = n; left = words; }, blind: () => {},
  set_clock: t => { clock = t; },
  both: (a, b) => (a && b) ? 1 : 0,
};
let random = 0, left = 0;
const turn = () => { seed ^= (seed << 13n) & M64; seed ^= seed >> 7n; seed ^= (seed << 17n) & M64; return seed; };
vp.rand_word = bits => {
  if (!random) { const s = turn(); return bits === 64 ? s : (s >> 16n) & ((1n << BigInt(bits)) - 1n); }
  if (left-- <= 0) return 0n;
  if (random === 2) return BigInt(next()) << BigInt(bits - 8);
  let r = 0n;
  for (let i = 0; i < bits / 8; i++) r |= BigInt(next()) << BigInt(8 * i);
  return r;
};
let clock = 1600000000000000000n;
const view = () => new DataView(mem.buffer);
const wasi = {
  environ_sizes_get: (a, b) => { view().setUint32(a, 0, true); view().setUint32(b, 0, true); return 0; },
  args_sizes_get: (a, b) => { view().setUint32(a, 0, true); view().setUint32(b, 0, true); return 0; },
  environ_get: () => 0, args_get: () => 0, sched_yield: () => 0,
  clock_time_get: (id, prec, p) => { view().setBigUint64(p, clock, true); return 0; },
  random_get: (p, n) => {
    const b = new Uint8Array(mem.buffer, p, n);
    for (let i = 0; i < n; i++) { if (random) { b[i] = next(); continue; } turn(); b[i] = Number((seed >> 24n) & 255n); }
    return 0;
  },
  fd_write: (fd, iov, n, res) => {
    let t = 0;
    for (let i = 0; i < n; i++) { const p = view().getUint32(iov + 8 * i, true), l = view().getUint32(iov + 8 * i + 4, true); out += str(p, l); t += l; }
    view().setUint32(res, t, true);
    return 0;
  },
  proc_exit: c => { throw new Stop('exit', 'process exit ' + c); },
};
const imports = {};
for (const i of WebAssembly.Module.imports(module_)) {
  imports[i.module] = imports[i.module] || {};
  const t = i.module === 'vp' ? vp[i.name] : wasi[i.name];
  imports[i.module][i.name] = t || (() => 8);
}
const inst = new WebAssembly.Instance(module_, imports);
mem = inst.exports.memory;
let r;
try {
  if (inst.exports._initialize) inst.exports._initialize();
  inst.exports[harness]();
  r = { outcome: 'ok', message: '' };
} catch (e) {
  r = e instanceof Stop ? { outcome: e.kind, message: e.message } : { outcome: 'panic', message: String(e) };
}
r.output = out.slice(0, 2000);
process.stdout.write(JSON.stringify(r) + '\n');
