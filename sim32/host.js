// Runs the narrow build: node host.js FILE.wasm; frames (u32 length, bytes) on
// stdin, answers on stdout. 'F'+text gives a metadata file, 'S'+bytes a
// scenario: answered by the number of cases, then the outcome of each.
'use strict';
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x, files = [], scenario = null;
function put(b) {
  const m = x.room(b.length);
  new Uint8Array(x.memory.buffer, m >>> 0, b.length).set(b);
}
function start() {
  x = new WebAssembly.Instance(mod, {}).exports;
  x.begin();
  for (const f of files) { put(f); x.file(); }
}
function load() { put(scenario); return x.load() >>> 0; }
function output(n) { return Buffer.from(new Uint8Array(x.memory.buffer, x.out() >>> 0, n)); }
function readAll(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let r;
    try { r = fs.readSync(0, b, k, n - k, null); }
    catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (r === 0) return null;
    k += r;
  }
  return b;
}
function writeAll(b) {
  let k = 0;
  while (k < b.length) {
    try { k += fs.writeSync(1, b, k); }
    catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
function answer(b) {
  const h = Buffer.alloc(4);
  h.writeUInt32LE(b.length);
  writeAll(Buffer.concat([h, b]));
}
// after a trap nothing of the instance is to be trusted
function guarded(f) {
  try { return f(); }
  catch (e) {
    let why = '';
    try { why = output(x.out_len() >>> 0).toString(); } catch (_) { why = ''; }
    const deep = e instanceof RangeError;
    start();
    return Buffer.from(deep ? 'X stack' : 'P ' + e.message + ' ' + why);
  }
}
start();
for (;;) {
  const h = readAll(4);
  if (h === null) break;
  const m = readAll(h.readUInt32LE());
  if (m === null) break;
  if (m[0] === 0x46) { files.push(m.subarray(1)); put(m.subarray(1)); x.file(); continue; }
  scenario = m.subarray(1);
  let n;
  const bad = guarded(() => { n = load(); return null; });
  if (bad !== null || n === 0xffffffff) { const c = Buffer.alloc(4); c.writeUInt32LE(0xffffffff); answer(c); continue; }
  const c = Buffer.alloc(4);
  c.writeUInt32LE(n);
  answer(c);
  let fresh = true;
  for (let i = 0; i < n; i++) {
    const o = guarded(() => { if (!fresh) { load(); fresh = true; } const k = x.exec(i) >>> 0; return output(k); });
    if (o[0] === 0x50 && o[1] === 0x20 || o[0] === 0x58) fresh = false;
    answer(o);
  }
}
