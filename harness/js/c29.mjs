// C29: the web page reports what is in a recording and what the compression really achieves
import fs from 'node:fs';
import path from 'node:path';
import { addon, bundle, count, FakeModule, label, nontrivial, REPO, Rng, run, sample, seed, tier, violate } from './common.mjs';
import { Document } from './dom.mjs';

const code = await bundle('cloudini_web/main.js', {
  '@mcap/core': 'export const McapIndexedReader = { Initialize: (...a) => globalThis.__open(...a) };',
  '@mcap/browser': 'export class BlobReadable { constructor(f) { this.file = f; } }',
});
const html = fs.readFileSync(path.join(REPO, 'cloudini_web/index.html'), 'utf8');
let rejections = [];
process.on('unhandledRejection', (e) => rejections.push(String(e)));
const tick = () => new Promise((r) => setImmediate(r));
const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
const CLOUD = 'sensor_msgs/msg/PointCloud2';
const ODD = ['<img src=x onerror=alert(1)>', '<b>bold</b>', 'a&amp;b', '"quoted"', "it's", '<script>alert(1)</script>', '</div></div>', '&lt;', '${x}', 'a<b', '<!-- -->'];

// a recording: channels, schemas and messages in log-time order
function recording(r, idx) {
  const schemas = new Map(), channels = new Map(), messages = [];
  const odd = r.chance(0.3);
  const name = (s) => (odd && r.chance(0.4) ? s + r.pick(ODD) : s);
  const nc = r.below(7);
  const clouds = r.chance(0.8);
  schemas.set(1, { id: 1, name: CLOUD, encoding: odd && r.chance(0.5) ? 'ros2msg' + r.pick(ODD) : 'ros2msg', data: new Uint8Array(0) });
  for (let i = 2; i < 2 + r.below(4); ++i)
    schemas.set(i, { id: i, name: name(r.pick(['std_msgs/msg/String', 'sensor_msgs/msg/PointCloud2Array', 'sensor_msgs/msg/PointCloud', 'pkg/msg/X' + i, 'sensor_msgs/msg/Imu'])), encoding: 'ros2msg', data: new Uint8Array(0) });
  if (r.chance(0.15)) schemas.set(9, { ...schemas.get(1), id: 9 });  // the type twice
  const topics = ['/points', '/a', '/b'];
  for (let i = 0; i < nc; ++i) {
    const ids = [...schemas.keys()];
    const sid = r.chance(0.1) ? r.pick([0, 99]) : clouds && r.chance(0.6) ? 1 : r.pick(ids.filter((k) => clouds || (k !== 1 && k !== 9)).concat(clouds ? [] : [99]));
    const id = r.chance(0.3) ? i * 3 + 5 : i + 1;
    if (channels.has(id)) continue;
    channels.set(id, { id, topic: r.chance(0.35) ? r.pick(topics) : name('/t' + i), schemaId: sid, messageEncoding: 'cdr', metadata: new Map() });
  }
  const ids = [...channels.keys()];
  const n = ids.length ? (r.chance(0.02) ? r.range(1000, 1300) : r.below(25)) : 0;
  const same = n > 100 ? addon.plain(seed, idx * 64, 0) : null;
  const sized = [];
  for (let k = 0; k < n; ++k) {
    const ch = channels.get(r.pick(ids));
    const schema = schemas.get(ch.schemaId);
    const m = { type: 'Message', channelId: ch.id, sequence: k, logTime: BigInt(Math.floor(k / 2)), publishTime: 0n };
    if (schema?.name === CLOUD) {
      const p = same ?? addon.plain(seed, idx * 64 + k, n < 100 && r.chance(0.05) ? r.range(100, 900) * 1000 : 0);
      const store = new Uint8Array(p.data.length + 20).fill(r.below(256));
      store.set(p.data, 7);
      m.data = store.subarray(7, 7 + p.data.length);
      sized.push([m, p.size]);
    } else m.data = new Uint8Array(r.below(3000));
    messages.push(m);
  }
  return { schemas, channels, messages, sized: new Map(sized) };
}

function reader(rec, damagedAt) {
  return {
    channelsById: rec.channels, schemasById: rec.schemas, chunkIndexes: [], header: { profile: 'ros2' },
    statistics: { messageCount: BigInt(rec.messages.length), channelMessageCounts: new Map([...rec.channels.keys()].map((id) => [id, BigInt(rec.messages.filter((m) => m.channelId === id).length)]).filter((x) => x[1])) },
    async *readMessages({ topics, startTime, endTime, reverse } = {}) {
      const list = rec.messages.filter((m) => (!topics || topics.includes(rec.channels.get(m.channelId).topic)) &&
        (startTime === undefined || m.logTime >= startTime) && (endTime === undefined || m.logTime <= endTime));
      if (reverse) list.reverse();
      let k = 0;
      for (const m of list) {
        if (k++ === damagedAt) throw new Error('bad chunk <i>0</i>');
        await null;
        yield m;
      }
    },
  };
}

const words = (e) => e.textContent.replace(/\s+/g, ' ');
function elements(e) {
  const c = {};
  for (const x of e.all()) c[x.localName] = (c[x.localName] ?? 0) + 1;
  return c;
}

await run(tier === 'thorough' ? 12000 : 1200, async (idx) => {
  const r = new Rng(seed, idx);
  const doc = new Document(html);
  globalThis.document = doc;
  globalThis.window = globalThis;
  let script = 'ok', factory = null;
  doc.scriptAdded = (s) => setImmediate(() => {
    count('scripts');
    if (script === 'fails') (s.onerror ?? (() => {}))(new Error('404')), s.dispatch('error');
    else (s.onload ?? (() => {}))(), s.dispatch('load');
  });
  globalThis.CloudiniModule = (...a) => factory(...a);
  const alerts = [];
  globalThis.alert = (x) => alerts.push(x);
  new Function('module', 'exports', 'require', 'console', code)({ exports: {} }, {}, () => ({}), quiet);
  const zone = doc.getElementById('dropZone'), status = doc.getElementById('status'), results = doc.getElementById('results');
  // several recordings one after the other on the same page
  for (let round = r.range(1, 3); round; --round) {
    const rec = recording(r, idx * 4 + round);
    const fake = new FakeModule(r, r.pick([8, 16, 40]), r.pick([40, 64]));
    fake.growth = r.pick([0, 0, 0.2]);
    if (r.chance(0.2)) fake.module._malloc = undefined;   // the other way to pass the data
    const fault = r.chance(0.7) ? '' : r.pick(['name', 'open', 'script', 'module', 'damaged', 'malloc', 'abort', 'busy']);
    script = fault === 'script' ? 'fails' : 'ok';
    factory = fault === 'module' ? async () => { throw new Error('no <memory>'); } : async () => fake.module;
    const damagedAt = fault === 'damaged' ? r.below(3) : -1;
    let opened = 0;
    globalThis.__open = async ({ readable }) => {
      ++opened;
      if (fault === 'open') throw new Error('not an MCAP <file>');
      return reader(rec, damagedAt);
    };
    if (fault === 'malloc') fake.failMalloc = r.range(1, 4);
    if (fault === 'abort') fake.abortIn = r.range(1, 4);
    const name = (r.chance(0.2) ? r.pick(ODD).replaceAll('/', '') : 'bag' + r.below(100)) + (fault === 'name' ? r.pick(['.bag', '.db3', '', '.mcap.zip']) : '.mcap');
    const file = { name, size: 1000 };
    const what = `${rec.channels.size} channels, ${rec.messages.length} messages, ${fault || 'no fault'}, case ${idx}`;
    label(what);
    // how the outcome of every message is known: what the module was asked, and what it said
    const said = [];
    const ask = fake.module._cldn_ComputeCompressedSize;
    fake.module._cldn_ComputeCompressedSize = (p, n, res) => {
      const bytes = Buffer.from(fake.memory.buffer.slice(p, p + n));
      const limit = fake.memory.buffer.byteLength;
      const out = ask(p, n, res);
      if (res !== 0.001) violate('resolution', `the resolution is ${res}, ${what}`);
      said.push([bytes, out >>> 0, limit]);
      return out;
    };
    const before = fake.memory.buffer.byteLength, shownBefore = results.innerHTML;
    if (r.chance(0.5)) zone.dispatch('drop', { dataTransfer: { files: [file] } });
    else {
      const input = doc.getElementById('fileInput');
      input.files = [file];
      input.dispatch('change');
    }
    if (fault === 'busy') {
      for (let k = r.below(6); k; --k) await tick();
      if (zone.classList.contains('disabled')) {
        zone.dispatch('drop', { dataTransfer: { files: [file] } });
        count('drops_while_busy');
      }
    }
    for (let quietFor = 0, guard = 0, last = ''; quietFor < 20 && guard < 20000; ++guard) {
      await tick();
      const now = status.innerHTML + results.innerHTML.length + zone.className + said.length;
      quietFor = now === last && !zone.classList.contains('disabled') ? quietFor + 1 : 0;
      last = now;
    }
    fake.end(what);
    if (opened > 1) violate('busy', `the recording was opened ${opened} times, ${what}`);
    if (zone.classList.contains('disabled')) violate('stuck', `no other recording can be chosen, ${what}`);
    const shown = words(results), state = words(status);
    // ---- what may appear as markup
    for (const e of [...results.all(), ...status.all()])
      if (['img', 'script', 'b', 'i', 'iframe', 'file', 'memory'].includes(e.localName)) violate('markup', `a name became the element ${e.localName}, ${what}`);
    const failed = ['name', 'open', 'script', 'module'].includes(fault);
    const list = [...rec.channels.values()];
    const pc = list.filter((c) => rec.schemas.get(c.schemaId)?.name === CLOUD);
    const damaged = fault === 'damaged' && pc.some((c) => rec.messages.filter((m) => rec.channels.get(m.channelId).topic === c.topic).length > damagedAt);
    if (failed || damaged) {
      if (!/error/i.test(state)) violate('failure-not-reported', `"${state}", ${what}`);
      // a file that is no recording may leave the results of the last one
      if (shown.trim() && !(fault === 'name' && results.innerHTML === shownBefore)) violate('failure-with-results', `results of a recording that could not be read: ${shown.slice(0, 200)}, ${what}`);
      count('failures_reported');
      continue;
    }
    // ---- the summary
    const names = new Set(list.map((c) => rec.schemas.get(c.schemaId)?.name).filter((x) => x !== undefined));
    const sum = state.match(/Channels: (\d+) \| Schemas: (\d+)/);
    if (!sum || +sum[1] !== list.length || +sum[2] !== names.size) violate('summary', `"${state}" for ${list.length} channels and ${names.size} schemas, ${what}`);
    if (!state.includes(words({ textContent: file.name }))) violate('summary', `"${state}" does not name ${file.name}, ${what}`);
    if (!pc.length) {
      if (!/No PointCloud2/.test(shown)) violate('no-clouds', `${shown.slice(0, 200)}, ${what}`);
      for (const n of names) if (!shown.includes(n)) violate('no-clouds', `schema ${n} is not listed, ${what}`);
      count('recordings_without_clouds');
      continue;
    }
    // ---- the channels
    const found = shown.match(/Found ([\d,]+) PointCloud2 Channel/);
    if (!found || +found[1] !== pc.length) violate('channels', `${found?.[0]} instead of ${pc.length}, ${what}`);
    const cards = [...shown.matchAll(/Schema: (.*?) Encoding: (.*?) Channel ID: (\d+) Messages: ([\d,.]+)/g)];
    if (cards.length !== pc.length) violate('channels', `${cards.length} channels are shown instead of ${pc.length}, ${what}`);
    for (const [, schema, encoding, id, msgs] of cards) {
      const c = rec.channels.get(+id);
      if (!c || !pc.includes(c)) { violate('channels', `channel ${id} is no point cloud, ${what}`); continue; }
      const k = rec.messages.filter((m) => m.channelId === c.id).length;
      if (+msgs.replace(/[,.]/g, '') !== k) violate('message-count', `channel ${id} has ${k} messages, ${msgs} are shown, ${what}`);
      const s = rec.schemas.get(c.schemaId);
      if (schema.trim() !== words({ textContent: s.name }) || encoding.trim() !== words({ textContent: s.encoding })) violate('channels', `"${schema}" "${encoding}" for ${s.name} ${s.encoding}, ${what}`);
      if (!shown.includes(words({ textContent: c.topic }))) violate('channels', `topic ${c.topic} is not shown, ${what}`);
      count('channels_shown');
    }
    // ---- the sizes: every message compressed once, with its own bytes; those that failed count in neither sum
    const todo = rec.messages.filter((m) => pc.includes(rec.channels.get(m.channelId)));
    const index = new Map();
    for (const m of todo) {
      const key = Buffer.from(m.data).toString('latin1');
      index.set(key, (index.get(key) ?? []).concat(m));
    }
    let original = 0, compressed = 0, done = 0;
    for (const [bytes, out] of said) {
      const rest = index.get(bytes.toString('latin1'));
      if (!rest?.length) { violate('messages', `the module was given ${bytes.length} bytes that are no (further) message, ${what}`); continue; }
      const m = rest.pop();
      if (out !== (rec.sized.get(m) >>> 0)) violate('compressed-size', `${out} instead of ${rec.sized.get(m)}, ${what}`);
      if (!out) { count('messages_refused'); continue; }
      original += bytes.length;
      compressed += out;
      ++done;
    }
    const left = [...index.values()].flat().filter((m) => m.data.length <= before / 4);
    if (left.length && !fake.faulted) violate('messages', `${left.length} messages were not compressed, ${what}`);
    count('messages_too_large', [...index.values()].flat().length - left.length);
    const mb = (re) => Number(shown.match(re)?.[1]?.replace(/,/g, '') ?? NaN);
    const o = mb(/Original Size \(uncompressed\) ([\d.,]+) MB/), z = mb(/Compressed Size ([\d.,]+) MB/), q = mb(/Compression Ratio ([\d.,]+)/);
    const off = (x, y, d) => !(Math.abs(x - y) <= d);
    if (off(o, original / 1048576, 0.0501)) violate('sizes', `original size ${o} MB instead of ${original / 1048576}, ${what}`);
    if (off(z, compressed / 1048576, 0.0501)) violate('sizes', `compressed size ${z} MB instead of ${compressed / 1048576}, ${what}`);
    if (off(q, original ? compressed / original : 0, 0.000501)) violate('ratio', `ratio ${q} instead of ${original ? compressed / original : 0}, ${what}`);
    count('messages_compressed', done);
    count('recordings_with_clouds');
    if (fake.faulted) count('faults_survived');
    nontrivial(shown, state);
    if (idx % 307 === 5) sample(what);
  }
  if (rejections.length) violate('unhandled-rejection', rejections.join('; '));
  rejections = [];
  globalThis.gc?.();
});
