'use strict';
// Generic glue around the generated TypeScript (transpiled to CommonJS). Descriptor driven.
const fs = require('fs');
const dir = process.argv[2];
const world = JSON.parse(fs.readFileSync(dir + '/world.json', 'utf8'));
const mods = world.versions.map((_, i) => require(dir + '/v' + i + '.js'));
const types = world.versions.map((v) => { const m = new Map(); for (const t of v.types) m.set(t.id, t); return m; });
const fns = world.versions.map((v, i) => {
  const m = new Map();
  for (const t of v.types) {
    let o = mods[i];
    for (const n of t.ts) o = o === undefined ? undefined : o[n];
    m.set(t.id, o === undefined ? undefined : o[t.tsn]);
  }
  return m;
});
class Shape extends Error {}

// ---- binary values ----
let B, P;
function u8() { return B[P++]; }
function u32() { P += 4; return B.readUInt32LE(P - 4); }
function u64() { P += 8; return B.readBigUInt64LE(P - 8); }

// Build the generated code's message object from the binary form.
function readMsg(ver, id) {
  const t = types[ver].get(id);
  const tag = u8();
  if (t.kind === 'struct') {
    if (tag !== 8) throw new Error('harness: struct expected');
    const n = u32();
    const got = new Map();
    const byIdx = new Map(t.fields.map((f) => [f.idx, f]));
    for (let k = 0; k < n; k++) {
      const f = byIdx.get(Number(u64()));
      got.set(f.idx, readTy(ver, f.ty));
    }
    const o = {};
    for (const f of t.fields) o[f.ts] = got.has(f.idx) ? got.get(f.idx) : undefined;
    return o;
  }
  if (tag !== 9) throw new Error('harness: choice expected');
  const idx = Number(u64());
  const f = t.fields.find((x) => x.idx === idx);
  const o = {};
  o[f.ts] = readTy(ver, f.ty);
  if (u8() === 1) o.$fallback = readMsg(ver, id);
  return o;
}
function readTy(ver, ty) {
  if (typeof ty === 'object' && ty.c !== undefined) return readMsg(ver, ty.c);
  const tag = u8();
  switch (tag) {
    case 0: return null;
    case 1: P += 8; return B.readDoubleLE(P - 8);
    case 2: return u64();
    case 3: P += 8; return B.readBigInt64LE(P - 8);
    case 4: return u8() === 1;
    case 5: { const n = u32(); P += n; const a = new ArrayBuffer(n); new Uint8Array(a).set(B.subarray(P - n, P)); return a; }
    case 6: {
      const n = u32(); let s = '';
      for (let k = 0; k < n; k += 4096) {
        const cs = [];
        for (let j = k; j < Math.min(n, k + 4096); j++) cs.push(B.readUInt16LE(P + 2 * j));
        s += String.fromCharCode.apply(null, cs);
      }
      P += 2 * n; return s;
    }
    case 7: { const n = u32(); const a = []; for (let k = 0; k < n; k++) a.push(readTy(ver, ty.a)); return a; }
    default: throw new Error('harness: tag ' + tag);
  }
}

let W = Buffer.alloc(1 << 20), Q = 0;
function room(n) { if (Q + n > W.length) { const w = Buffer.alloc(Math.max(W.length * 2, Q + n)); W.copy(w, 0, 0, Q); W = w; } }
function p8(x) { room(1); W[Q++] = x; }
function p32(x) { room(4); W.writeUInt32LE(x, Q); Q += 4; }
function p64(x) { room(8); W.writeBigUInt64LE(x, Q); Q += 8; }
function shape(c, m) { if (!c) throw new Shape(m); }

function putMsg(ver, id, v) {
  const t = types[ver].get(id);
  shape(typeof v === 'object' && v !== null && !Array.isArray(v), t.name + ': not an object');
  if (t.kind === 'struct') {
    const names = new Set(t.fields.map((f) => f.ts));
    for (const k of Object.keys(v)) shape(names.has(k), t.name + ': unexpected property ' + k);
    const present = t.fields.filter((f) => v[f.ts] !== undefined && Object.prototype.hasOwnProperty.call(v, f.ts));
    for (const f of t.fields) if (f.rule === 'r') shape(v[f.ts] !== undefined, t.name + '.' + f.name + ': required but undefined');
    p8(8); p32(present.length);
    for (const f of present) { p64(BigInt(f.idx)); putTy(ver, f.ty, v[f.ts], t.name + '.' + f.name); }
    return;
  }
  const f = t.fields.find((x) => x.ts === v.$field);
  shape(f !== undefined, t.name + ': $field is ' + String(v.$field));
  const keys = Object.keys(v).filter((k) => k !== '$field').sort().join();
  const want = (f.rule === 'o' ? ['$fallback', f.ts] : [f.ts]).sort().join();
  shape(keys === want, t.name + '.' + f.name + ': properties ' + keys + ' instead of ' + want);
  p8(9); p64(BigInt(f.idx));
  putTy(ver, f.ty, v[f.ts], t.name + '.' + f.name);
  if (f.rule === 'o') { p8(1); putMsg(ver, id, v.$fallback); } else p8(0);
}
function putTy(ver, ty, v, at) {
  if (typeof ty === 'object') {
    if (ty.c !== undefined) return putMsg(ver, ty.c, v);
    shape(Array.isArray(v), at + ': not an array');
    p8(7); p32(v.length);
    for (let i = 0; i < v.length; i++) putTy(ver, ty.a, v[i], at + '[]');
    return;
  }
  switch (ty) {
    case 'U': shape(v === null, at + ': unit is not null'); p8(0); break;
    case 'F': shape(typeof v === 'number', at + ': not a number'); p8(1); room(8); W.writeDoubleLE(v, Q); Q += 8; break;
    case 'N': shape(typeof v === 'bigint' && v >= 0n && v < 1n << 64n, at + ': not a U64'); p8(2); p64(v); break;
    case 'S': shape(typeof v === 'bigint' && v >= -(1n << 63n) && v < 1n << 63n, at + ': not an S64'); p8(3); room(8); W.writeBigInt64LE(v, Q); Q += 8; break;
    case 'B': shape(typeof v === 'boolean', at + ': not a boolean'); p8(4); p8(v ? 1 : 0); break;
    case 'Y': { shape(v instanceof ArrayBuffer, at + ': not an ArrayBuffer'); p8(5); p32(v.byteLength); room(v.byteLength); W.set(new Uint8Array(v), Q); Q += v.byteLength; break; }
    case 'T': { shape(typeof v === 'string', at + ': not a string'); p8(6); p32(v.length); room(2 * v.length); for (let i = 0; i < v.length; i++) { W.writeUInt16LE(v.charCodeAt(i), Q); Q += 2; } break; }
    default: throw new Error('harness: type');
  }
}

const GUARD = 0xa5;
function encode(ver, id, mode) {
  const m = readMsg(ver, id);
  const F = fns[ver].get(id);
  if (F === undefined) { p8(3); W.write('no such namespace', Q); Q += 17; return; }
  const announced = F.size(m);
  let bytes;
  if (mode === 0) {
    // What becomes of the first copy concerns neither the message nor the next copy.
    const first = new Uint8Array(F.serialize(m));
    bytes = first.slice();
    first.fill(GUARD);
    const again = new Uint8Array(F.serialize(m));
    if (Buffer.compare(again, bytes) !== 0) throw new Shape('serializing the same message again yields other bytes');
  } else {
    // A pooled buffer, with neighbours on both sides.
    const a = F.atlas(m);
    if (a.$size !== announced) throw new Shape('atlas size ' + a.$size + ' but size() is ' + announced);
    const pre = 1 + (announced % 7), post = 9;
    const outer = new ArrayBuffer(5 + pre + announced + post);
    const all = new Uint8Array(outer).fill(GUARD);
    const view = new DataView(outer, 5, pre + announced + (mode === 1 ? post : 0));
    const end = F.serializeWithAtlasUnsafe(view, pre, m, a);
    if (end !== pre + announced) throw new Shape('wrote up to ' + (end - pre) + ' but announced ' + announced);
    for (let i = 0; i < all.length; i++) {
      if ((i < 5 + pre || i >= 5 + pre + announced) && all[i] !== GUARD) throw new Shape('wrote outside the announced range at ' + (i - 5 - pre));
    }
    bytes = all.slice(5 + pre, 5 + pre + announced);
  }
  p8(0); p32(announced); room(bytes.length); W.set(bytes, Q); Q += bytes.length;
}
function decode(ver, id, mode) {
  const pre = u32(), post = u32();
  const rest = B.subarray(P);
  const n = rest.length - pre - post;
  const buf = new ArrayBuffer(rest.length);
  const all = new Uint8Array(buf);
  all.set(rest);
  let input;
  if (mode === 0) input = buf.slice(pre, pre + n);
  else if (mode === 1) input = new Uint8Array(buf, pre, n);
  else input = new DataView(buf, pre, n);
  const F = fns[ver].get(id);
  let r;
  try { r = F.deserialize(input); } catch (e) { p8(2); str(String(e)); return; }
  if (r instanceof Error) { p8(1); str(r.constructor.name + ': ' + r.message); return; }
  if (typeof r !== 'object' || r === null) { p8(3); str('deserialize returned ' + String(r)); return; }
  p8(0);
  if (Buffer.compare(Buffer.from(buf), rest) !== 0) throw new Shape('deserialize modified its input');
  // The receive buffer is used for something else before the message is looked at.
  all.fill(GUARD);
  if (mode === 0) new Uint8Array(input).fill(GUARD);
  putMsg(ver, id, r);
}
function str(s) { const b = Buffer.from(s.slice(0, 300)); room(b.length); b.copy(W, Q); Q += b.length; }

function readFull(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let m;
    try { m = fs.readSync(0, b, k, n - k, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (m === 0) process.exit(0);
    k += m;
  }
  return b;
}
for (;;) {
  const n = readFull(4).readUInt32LE(0);
  B = readFull(n);
  P = 5;
  Q = 4;
  try {
    if (B[0] === 0) encode(B[1], B.readUInt16LE(3), B[2]); else decode(B[1], B.readUInt16LE(3), B[2]);
  } catch (e) {
    Q = 4;
    p8(e instanceof Shape ? 3 : B[0] === 0 ? 2 : 3);
    str(String(e));
  }
  W.writeUInt32LE(Q - 4, 0);
  let k = 0;
  while (k < Q) { try { k += fs.writeSync(1, W, k, Q - k); } catch (e) { if (e.code !== 'EAGAIN') throw e; } }
}
