// C28: the Foxglove extension converts what the library decodes, and nothing else
import { addon, bundle, count, FakeModule, label, nontrivial, Rng, run, sample, seed, tier, violate } from './common.mjs';

const code = await bundle('cloudini_foxglove/src/index.ts', {
  './cloudini_wasm_single.js': 'export default (...a) => globalThis.__factory(...a);',
  '@foxglove/extension': '',
});
let rejections = [];
process.on('unhandledRejection', (e) => rejections.push(String(e)));
const tick = () => new Promise((r) => setImmediate(r));
const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
const FROM = 'point_cloud_interfaces/msg/CompressedPointCloud2', TO = 'sensor_msgs/msg/PointCloud2';

function load() {
  const module = { exports: {} };
  new Function('module', 'exports', 'require', 'console', code)(module, module.exports, (n) => { throw new Error('no module ' + n); }, quiet);
  const converters = [];
  module.exports.activate({ mode: 'development', registerMessageConverter: (c) => converters.push(c), registerPanel() {}, registerTopicAliases() {} });
  if (converters.length !== 1) violate('registration', `${converters.length} converters are registered`);
  const c = converters[0];
  if (c.type !== 'schema' || c.fromSchemaName !== FROM || c.toSchemaName !== TO) violate('registration', `a converter from ${c.fromSchemaName} to ${c.toSchemaName}`);
  return (m) => c.converter(m, { topic: '/t', schemaName: FROM, receiveTime: { sec: 0, nsec: 0 }, message: m, sizeInBytes: 1 });
}

const freeze = (o) => {
  if (o && typeof o === 'object' && !ArrayBuffer.isView(o)) {
    Object.values(o).forEach(freeze);
    Object.freeze(o);
  }
  return o;
};

// the message as Foxglove hands it over; its bytes are a part of a larger buffer
function asMessage(r, c) {
  const n = c.data.length, before = r.chance(0.7) ? r.below(100) : 0, after = r.chance(0.7) ? r.below(100) : 0;
  const store = new Uint8Array(before + n + after).map(() => r.below(256));
  store.set(c.data, before);
  const msg = freeze({
    header: { stamp: { sec: c.sec, nsec: c.nsec }, frame_id: c.frame }, height: c.height, width: c.width, fields: c.fields, is_bigendian: false,
    point_step: c.point_step, row_step: c.row_step, is_dense: c.is_dense, compressed_data: store.subarray(before, before + n), format: 'cloudini',
  });
  return { msg, store, copy: store.slice() };
}

const brief = (m) => JSON.stringify({ ...m, data: undefined, compressed_data: undefined, format: undefined });

// the list of fields is the one of the message, whatever the names
function oddFields(r, c) {
  const fields = c.fields.map((f) => ({ ...f }));
  for (const f of fields) if (r.chance(0.3)) f.name = r.pick(['', ' ', 'x', '0', '__proto__', 'é', f.name]);
  if (r.chance(0.3)) fields.push({ name: '', offset: 0, datatype: r.below(12), count: r.below(3) });
  if (r.chance(0.1)) fields.length = 0;
  count('messages_with_odd_fields');
  return { ...c, fields };
}

// one conversion, watched
function convert(fake, converter, c, what, results) {
  const r = fake.r;
  if (r.chance(0.15)) c = oddFields(r, c);
  const { msg, store, copy } = asMessage(r, c);
  const limit = fake.memory.buffer.byteLength / 4;
  fake.faulted = false;
  fake.calls.length = 0;
  let res, err;
  try {
    res = converter(msg);
  } catch (e) {
    err = e;
  }
  fake.failMalloc = fake.abortIn = 0;
  fake.end(what);
  if (!Buffer.from(store.buffer).equals(Buffer.from(copy.buffer))) violate('input-modified', `the message was modified, ${what}`);
  const size = c.height * c.width * c.point_step;
  const empty = c.height * c.width === 0;
  const right = empty || (c.expect !== undefined && c.streamSize === size);
  if (err) {
    if (!(err instanceof Error)) violate('no-error', `${err} was thrown, ${what}`);
    if (right && !fake.faulted && c.data.length <= limit) violate('valid-refused', `${err.message ?? err}, ${what}`);
    count(right ? (fake.faulted ? 'failed_because_of_a_fault' : 'refused_too_large') : 'refused');
    return;
  }
  if (!right) {
    violate('wrong-accepted', `a cloud of ${res?.data?.length} bytes for ${c.width}x${c.height} points of ${c.point_step} bytes, the stream has ${c.streamSize ?? 'no size'}${c.expect ? '' : ' and cannot be decoded'}, ${what}`);
    return;
  }
  const want = { header: { frame_id: c.frame, stamp: { sec: c.sec, nsec: c.nsec } }, height: c.height, width: c.width, fields: c.fields, is_bigendian: false,
    point_step: c.point_step, row_step: c.point_step * c.width, is_dense: c.is_dense };
  const got = { header: { frame_id: res.header?.frame_id, stamp: { sec: res.header?.stamp?.sec, nsec: res.header?.stamp?.nsec } }, height: res.height, width: res.width,
    fields: res.fields?.map((f) => ({ name: f.name, offset: f.offset, datatype: f.datatype, count: f.count })), is_bigendian: res.is_bigendian, point_step: res.point_step,
    row_step: res.row_step, is_dense: res.is_dense };
  const wf = JSON.stringify({ ...want, fields: c.fields.map((f) => ({ name: f.name, offset: f.offset, datatype: f.datatype, count: f.count })) });
  if (JSON.stringify(got) !== wf) violate('attributes', `${JSON.stringify(got)} instead of ${wf}, ${what}`);
  const bytes = empty ? new Uint8Array(0) : c.expect;
  if (!(res.data instanceof Uint8Array)) violate('data', `the data is no Uint8Array, ${what}`);
  else {
    results.push([res, brief(res), bytes, empty ? bytes : c.mask, what]);
    nontrivial(c.data, wf);
    count('clouds_converted');
    if (empty) count('empty_clouds');
  }
}

// the results belong to the caller, whatever happens in the module later
function settle(fake, results) {
  new Uint8Array(fake.memory.buffer).fill(0x11);
  for (const [res, text, bytes, mask, what] of results) {
    if (res.data.length !== bytes.length) violate('data', `${res.data.length} bytes instead of ${bytes.length}, ${what}`);
    else if (!Buffer.from(res.data.map((b, i) => b & mask[i])).equals(Buffer.from(bytes))) violate('data', `other bytes than the library decodes, ${what}`);
    if (brief(res) !== text) violate('attributes', `the result was modified later, ${what}`);
    count('bytes_compared', bytes.length);
  }
  results.length = 0;
}

async function loading(r, idx) {
  // the module loads late, or not at all at first
  const fails = r.below(4);
  let pending = null, started = 0, running = 0;
  const fake = new FakeModule(r, 16, 64);
  globalThis.__factory = () => {
    ++started;
    if (++running > 1) violate('loading', 'the module is loaded again while it is loading');
    return new Promise((res, rej) => {
      pending = (ok) => {
        --running;
        pending = null;
        if (ok) res(fake.module);
        else rej(new Error('no network'));
      };
    });
  };
  const what = `the module loads after ${fails} failures`;
  label(what);
  const converter = load();
  const c = addon.compressed(seed, idx, 0, 0);
  const early = () => {
    try {
      const x = converter(asMessage(r, c).msg);
      violate('loading', `a cloud of ${x?.data?.length} bytes without the module, ${what}`);
    } catch (e) {
      count('refused_while_loading');
    }
  };
  for (let k = 0; k <= fails; ++k) {
    for (let i = r.below(4); i; --i) {
      early();
      if (r.chance(0.5)) await tick();
    }
    if (!pending) {  // a failed load is tried again by the next message
      early();
      await tick();
      await tick();
    }
    if (!pending) {
      violate('loading', `the module is not loaded again after failure ${k}, ${what}`);
      return;
    }
    pending(k === fails);
    for (let i = 0; i < 4; ++i) await tick();
  }
  const results = [];
  convert(fake, converter, c, what, results);
  convert(fake, converter, addon.compressed(seed, idx + 1, 0, 0), what, results);
  settle(fake, results);
  if (started !== fails + 1) violate('loading', `the module was loaded ${started} times, ${what}`);
  if (rejections.length) violate('unhandled-rejection', `${rejections.join('; ')}, ${what}`);
  rejections = [];
  count('loads', started);
}

await run(tier === 'thorough' ? 20000 : 1600, async (idx) => {
  const r = new Rng(seed, idx);
  if (idx % 8 === 3) return loading(r, idx);
  const fake = new FakeModule(r, r.pick([2, 4, 16, 40]), r.pick([40, 64, 128]));
  fake.growth = r.pick([0, 0, 0.2, 0.8]);
  globalThis.__factory = async () => fake.module;
  const converter = load();
  await tick();
  await tick();
  const results = [];
  for (let k = 0; k < 12; ++k) {
    const v = k % 3 ? r.range(1, 1000) : 0;
    const big = v === 0 && r.chance(0.05) ? r.range(1, 40) * 40000 : 0;
    const c = addon.compressed(seed, idx * 16 + k, v, big);
    if (r.chance(0.2)) fake.failMalloc = r.range(1, 3);
    if (r.chance(0.1)) fake.abortIn = r.range(1, 2);
    label(c.what);
    convert(fake, converter, c, c.what, results);
    if (idx % 401 === 5 && k === 0) sample(c.what);
    if (fake.grown) count('growths_of_the_memory', fake.grown);
    fake.grown = 0;
    if (r.chance(0.2)) { settle(fake, results); fake.fill(0, fake.memory.buffer.byteLength); }
  }
  settle(fake, results);
  if (rejections.length) violate('unhandled-rejection', rejections.join('; '));
  rejections = [];
  globalThis.gc?.();
});
