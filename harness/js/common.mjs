// What the JavaScript checks share: the protocol of the workers, and a stand-in for the WebAssembly module with a
// watched memory. Its functions are the C functions of the library, built natively.
import fs from 'node:fs';
import crypto from 'node:crypto';
import path from 'node:path';
import { createRequire } from 'node:module';
import { fileURLToPath } from 'node:url';

const require = createRequire(import.meta.url);
export const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
export const HERE = path.dirname(fileURLToPath(import.meta.url));
export const REPO = process.env.VERIF_REPO_DIR;

const argv = process.argv.slice(2);
const opt = {};
for (let i = 1; i + 1 < argv.length; i += 2) opt[argv[i]] = argv[i + 1];
const holder = { exports: {} };
process.dlopen(holder, argv[0]);
export const addon = holder.exports;
export const seed = Number(opt['--seed']), tier = opt['--tier'], dir = opt['--dir'];

export class Rng {
  constructor(a, b) {
    this.s = (Math.imul(a, 0x9E3779B1) ^ Math.imul(b + 1, 0x85EBCA6B)) >>> 0;
    for (let i = 0; i < 4; ++i) this.next();
  }
  next() {
    this.s = (this.s + 0x6D2B79F5) >>> 0;
    let t = Math.imul(this.s ^ (this.s >>> 15), 1 | this.s);
    t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
    return (t ^ (t >>> 14)) >>> 0;
  }
  below(n) { return Math.floor(this.next() / 4294967296 * n); }
  range(a, b) { return a + this.below(b - a + 1); }
  chance(p) { return this.next() / 4294967296 < p; }
  pick(a) { return a[this.below(a.length)]; }
}

let violations = 0, current = 0, done = 0;
const counters = {}, distinct = new Set(), samples = [];
const out = opt['--out'] ? fs.openSync(opt['--out'], 'a') : 1;
const prog = opt['--progress'] ? fs.openSync(opt['--progress'], 'w+') : -1;
if (prog >= 0) fs.ftruncateSync(prog, 512);
export const count = (k, n = 1) => { counters[k] = (counters[k] ?? 0) + n; };
export const sample = (s) => { if (samples.length < 4) samples.push(s); };
export const nontrivial = (...parts) => {
  const h = crypto.createHash('sha256');
  for (const p of parts) h.update(p);
  distinct.add(h.digest().subarray(0, 8).toString('hex'));
};
export function violate(key, msg) {
  if (++violations <= 20) fs.writeSync(out, JSON.stringify({ violation: 1, case: current, key, msg: String(msg).slice(0, 1500).toWellFormed() }) + '\n');
}
export function label(text) {
  if (prog < 0) return;
  const b = Buffer.alloc(512);
  b.writeBigUInt64LE(BigInt(current), 0);
  b.writeBigUInt64LE(BigInt(done), 8);
  b.write(text.slice(0, 200), 16);
  fs.writeSync(prog, b, 0, 512, 0);
}
export async function run(cases, one) {
  const shard = Number(opt['--shard'] ?? 0), shards = Number(opt['--shards'] ?? 1), begin = Number(opt['--begin'] ?? 0);
  const t0 = Date.now();
  let skipped = 0;
  for (let i = 0; i < cases; ++i) {
    if (opt['--case'] !== undefined ? i !== Number(opt['--case']) : i % shards !== shard) continue;
    if (i < begin) continue;
    if ((Date.now() - t0) / 1000 > Number(opt['--budget'] ?? 1e9)) { ++skipped; continue; }
    current = i;
    label('');
    await one(i);
    ++done;
    label('');
  }
  fs.writeSync(out, JSON.stringify({ stats: 1, cases: done, skipped, distinct: distinct.size, counters, samples }) + '\n');
  if (opt['--hashes']) fs.writeFileSync(opt['--hashes'], Buffer.from([...distinct].join(''), 'hex'));
  process.exit(violations ? 1 : 0);
}

// Bundles a source of the repository; `stand` maps module names to the code that takes their place.
export async function bundle(file, stand) {
  const r = await esbuild.build({
    entryPoints: [path.join(REPO, file)], bundle: true, write: false, format: 'cjs', platform: 'neutral', logLevel: 'silent', target: 'node20',
    plugins: [{
      name: 'stand-ins',
      setup(b) {
        for (const [name, code] of Object.entries(stand)) {
          const filter = new RegExp('^' + name.replace(/[.*+?^${}()|[\]\\]/g, '\\$&') + '$');
          b.onResolve({ filter }, () => ({ path: name, namespace: 'stand-in' }));
          b.onLoad({ filter, namespace: 'stand-in' }, () => ({ contents: code, loader: 'js' }));
        }
        b.onResolve({ filter: /\.css$/ }, (a) => ({ path: a.path, namespace: 'empty' }));
        b.onLoad({ filter: /.*/, namespace: 'empty' }, () => ({ contents: '', loader: 'js' }));
      },
    }],
  });
  return r.outputFiles[0].text;
}

const NAMES = ['_cldn_GetHeaderAsYAML', '_cldn_GetHeaderAsYAMLFromDDS', '_cldn_ComputeCompressedSize', '_cldn_GetDecompressedSize',
  '_cldn_GetDecodedDataSize', '_cldn_DecodeCompressedData', '_cldn_DecodeCompressedMessage', '_cldn_ConvertCompressedMsgToPointCloud2Msg',
  '_cldn_EncodePointcloudMessage'];
const FILL = 0xA7, ARENA = 65536, BEFORE = 512, AFTER = 2048;

// A module as Emscripten makes it: the memory grows, old views die with it, the allocator returns 0 when there is no more.
export class FakeModule {
  constructor(rng, initial, maximum) {
    this.r = rng;
    this.maximum = maximum;
    this.memory = new WebAssembly.Memory({ initial, maximum });
    this.live = new Map();      // address -> size
    this.problems = [];
    this.calls = [];
    this.failMalloc = 0;        // the n-th one from now fails
    this.abortIn = 0;           // the n-th call from now aborts
    this.faulted = false;
    this.growth = 0;            // probability that a call needs more memory
    this.grown = 0;
    const m = (this.module = {});
    m._malloc = (n) => this.malloc(n >>> 0);
    m._free = (p) => this.free(p >>> 0);
    for (const f of NAMES)
      if (addon.call(f, new ArrayBuffer(64), 0, 0, 0, 0) !== undefined) m[f] = (...a) => this.native(f, a);
    m.ccall = (name, ret, types, args) => this.ccall(name, types, args);
    m.cwrap = (name, ret, types) => (...args) => this.ccall(name, types, args);
    m.UTF8ToString = (p) => {
      const h = new Uint8Array(this.memory.buffer);
      let e = p;
      while (h[e]) ++e;
      return Buffer.from(h.subarray(p, e)).toString('utf8');
    };
    this.views();
    this.fill(0, this.memory.buffer.byteLength);
  }
  views() {
    const b = this.memory.buffer, m = this.module;
    m.HEAPU8 = new Uint8Array(b);
    m.HEAP8 = new Int8Array(b);
    m.HEAPU16 = new Uint16Array(b);
    m.HEAP16 = new Int16Array(b);
    m.HEAPU32 = new Uint32Array(b);
    m.HEAP32 = new Int32Array(b);
    m.HEAPF32 = new Float32Array(b);
    m.HEAPF64 = new Float64Array(b);
  }
  fill(a, b) { new Uint8Array(this.memory.buffer).fill(FILL, a, b); }
  grow(pages) {
    const old = this.memory.buffer.byteLength;
    if (old / 65536 + pages > this.maximum) return false;
    this.memory.grow(pages);
    this.views();
    this.fill(old, this.memory.buffer.byteLength);
    ++this.grown;
    return true;
  }
  malloc(n) {
    if (this.failMalloc && --this.failMalloc === 0) {
      this.faulted = true;
      return 0;
    }
    const need = BEFORE + Math.max(1, n) + AFTER;
    for (;;) {
      const blocks = [...this.live].sort((x, y) => x[0] - y[0]);
      const gaps = [];
      let at = ARENA;
      for (const [p, s] of blocks) {
        if (p - BEFORE - at >= need) gaps.push([at, p - BEFORE]);
        at = p + s + AFTER;
      }
      if (this.memory.buffer.byteLength - at >= need) gaps.push([at, this.memory.buffer.byteLength]);
      if (gaps.length) {
        const g = this.r.pick(gaps);
        const slack = Math.min(4096, g[1] - g[0] - need);
        const p = Math.ceil((g[0] + BEFORE + this.r.below(slack + 1)) / 16) * 16;
        const q = p + Math.max(1, n) + AFTER <= g[1] ? p : g[0] + BEFORE;
        this.live.set(q, n);
        if (this.r.chance(this.growth)) this.grow(1);
        return q;
      }
      if (!this.grow(Math.ceil(need / 65536))) {
        this.faulted = true;
        return 0;
      }
    }
  }
  free(p) {
    if (p === 0) return;
    if (!this.live.has(p)) {
      this.problems.push(`free(${p}) of memory that is not allocated`);
      return;
    }
    const n = this.live.get(p);
    this.live.delete(p);
    this.fill(p, p + n);
  }
  native(name, a) {
    if (this.abortIn && --this.abortIn === 0) {
      this.faulted = true;
      throw new WebAssembly.RuntimeError('Aborted(). Build with -sASSERTIONS for more info.');
    }
    this.calls.push([name, ...a]);
    if (this.r.chance(this.growth)) this.grow(1);
    const res = addon.call(name, this.memory.buffer, ...a);
    if (this.r.chance(this.growth)) this.grow(1);
    return res;
  }
  ccall(name, types, args) {
    const temp = [];
    const a = args.map((x, i) => {
      if (types[i] !== 'array' && types[i] !== 'string') return x;
      const b = types[i] === 'string' ? Buffer.from(x + '\0') : x;
      const p = this.malloc(b.length);
      if (!p) throw new WebAssembly.RuntimeError('Aborted(stack overflow)');
      new Uint8Array(this.memory.buffer).set(b, p);
      temp.push(p);
      return p;
    });
    try {
      return this.module['_' + name](...a);
    } finally {
      temp.forEach((p) => this.free(p));
    }
  }
  // memory outside of the blocks must be as it was
  check(what) {
    const mem = Buffer.from(this.memory.buffer);
    const blocks = [...this.live].sort((x, y) => x[0] - y[0]);
    blocks.push([mem.length, 0]);
    let at = 0;
    for (const [p, s] of blocks) {
      for (let k = at; k < p; k += 65536) {
        const part = mem.subarray(k, Math.min(p, k + 65536));
        if (!part.equals(PATTERN.subarray(0, part.length))) {
          this.problems.push(`memory outside of the allocated blocks was written at ${k + part.findIndex((v) => v !== FILL)}`);
          this.fill(k, k + part.length);
          break;
        }
      }
      at = p + s;
    }
    for (const p of this.problems.splice(0)) violate('memory', `${p}, ${what}`);
  }
  // nothing may be left behind
  end(what) {
    if (this.live.size) {
      violate('leak', `${this.live.size} blocks of the module's memory were not freed, ${what}`);
      for (const p of [...this.live.keys()]) this.free(p);
    }
    this.check(what);
  }
}
const PATTERN = Buffer.alloc(65536, FILL);
