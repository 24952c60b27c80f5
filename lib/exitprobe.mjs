// A process that uses the SDK with nothing of ours around it except a scripted
// fetch, then simply ends; prints what it noticed on the way.
import process from 'node:process';
import { createRequire } from 'node:module';
const cfg = JSON.parse(process.argv[2]); // { entry, format, plan: 'ok'|'429'|'500'|'net', ops }
const out = (o) => process.stdout.write(`${JSON.stringify(o)}\n`);
const NULLISH = [400, 429, 500];
let requests = 0;
const raw = 'From: a@b\r\nContent-Type: text/plain\r\n\r\nhi';
function answer(url, k) {
  if (url.startsWith('https://cdn.example.test')) return new Response(raw);
  const mode = cfg.plan === 'mixed' ? ['ok', '429', '500', 'net', 'junk', 'stream'][k % 6] : cfg.plan;
  const h = { 'content-type': 'application/json', 'retry-after': '30', 'ratelimit-reset': '30', 'x-request-id': 'r1' };
  if (mode === 'net') throw new TypeError('fetch failed', { cause: Object.assign(new Error('x'), { code: 'ECONNRESET' }) });
  if (mode === '429') return new Response('{"name":"rate_limit_exceeded","message":"slow down","statusCode":429}', { status: 429, headers: h });
  if (mode === '500') return new Response('{"name":"internal_server_error","message":"x","statusCode":500}', { status: 500, headers: h });
  if (mode === 'junk') return new Response('<html>', { status: 502, headers: h });
  if (mode === 'stream') return new Response(new ReadableStream({ pull(c) { c.error(new Error('reset')); } }), { status: 200, headers: h });
  return new Response(JSON.stringify({ object: 'x', id: 'id1', data: [], has_more: false, subject: 's', raw: { download_url: 'https://cdn.example.test/raw' } }), { headers: h });
}
globalThis.fetch = async (input) => answer(String(input?.url ?? input), requests++);
process.env.NODE_ENV = 'production';
// touch what node materialises lazily
for (const k of Object.getOwnPropertyNames(globalThis)) { try { void globalThis[k]; } catch {} }
const PROTOS = { Object: Object.prototype, Array: Array.prototype, Function: Function.prototype, Promise: Promise.prototype, String: String.prototype, Number: Number.prototype, Error: Error.prototype, Date: Date.prototype, Map: Map.prototype, Set: Set.prototype, RegExp: RegExp.prototype, Headers: Headers.prototype, Request: Request.prototype, Response: Response.prototype, URL: URL.prototype, URLSearchParams: URLSearchParams.prototype, FormData: FormData.prototype, Blob: Blob.prototype, Buffer: Buffer.prototype, Uint8Array: Uint8Array.prototype, JSON, Math, Reflect, ObjectC: Object, ArrayC: Array, PromiseC: Promise, console, process, processEnv: process.env, HeadersC: Headers, AbortSignalC: AbortSignal, ErrorC: Error, EventTarget: EventTarget.prototype, StringC: String, Intl };
const ids = new WeakMap(); let next = 1;
const idOf = (v) => { if ((typeof v !== 'object' && typeof v !== 'function') || v === null) return typeof v === 'function' ? 'f' : typeof v === 'symbol' ? 'symbol' : `${typeof v} ${String(v).slice(0, 200)}`; if (!ids.has(v)) ids.set(v, next++); return `#${ids.get(v)}`; };
const VOLATILE = new Set(['process.exitCode', 'process._exiting', 'process.debugPort', 'process.title', 'process.report', 'process.domain', 'process._startProfilerIdleNotifier', 'ErrorC.stack']);
function snap() {
  const s = {};
  const one = (name, o) => { for (const k of Reflect.ownKeys(o)) { const d = Object.getOwnPropertyDescriptor(o, k); const n = `${name}.${String(k)}`; if (VOLATILE.has(n)) continue; s[n] = 'value' in d ? idOf(d.value) : `get${idOf(d.get)}`; } };
  one('globalThis', globalThis);
  for (const [n, o] of Object.entries(PROTOS)) one(n, o);
  for (const e of process.eventNames()) s[`listeners ${String(e)}`] = String(process.listenerCount(e));
  return s;
}
const compare = (a, b) => { const d = []; for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) if (a[k] !== b[k]) d.push(`${k}: ${a[k]} -> ${b[k]}`); return d; };
const unhandled = [];
process.on('unhandledRejection', (r) => unhandled.push(String(r?.stack ?? r)));
// the loader materialises things itself; do it before looking
await import('node:crypto'); createRequire(import.meta.url)('node:buffer'); createRequire(cfg.entry)('postal-mime'); createRequire(cfg.entry)('standardwebhooks');
const before = snap();
const sdk = cfg.format === 'esm' ? await import(cfg.entry) : createRequire(cfg.entry)(cfg.entry);
out({ t: 'globals', when: 'loading', changed: compare(before, snap()) });
const resend = new sdk.Resend('re_probe');
const calls = [
  () => resend.emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }), () => resend.emails.send({ from: 'a@b.c', to: ['d@e.f'], subject: 's', html: '<b>' }, { idempotencyKey: 'k1' }),
  () => resend.batch.send([{ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }, { from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }]), () => resend.emails.get('id'), () => resend.emails.list({ limit: 10 }), () => resend.domains.list(), () => resend.domains.create({ name: 'x.test' }), () => resend.contacts.create({ email: 'x@y.z' }),
  () => resend.contacts.imports.create({ file: new Blob(['a,b\n1,2']) }), () => resend.contacts.update({ id: 'c1', unsubscribed: true }), () => resend.contacts.topics.update({ id: 'c', topics: [] }), () => resend.broadcasts.create({ segmentId: 's', from: 'a@b.c', subject: 's', html: 'h' }), () => resend.broadcasts.send('b1'), () => resend.templates.create({ name: 'n', html: 'h' }), () => resend.templates.create({ name: 'n', html: 'h' }).publish(),
  () => resend.templates.duplicate('t').publish(), () => resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.c', from: 'd@e.f' }), () => resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.c', from: 'd@e.f', passthrough: false, text: 'x' }), () => resend.webhooks.create({ endpoint: 'https://x', events: [] }), () => resend.automations.create({ name: 'a', steps: [], connections: [] }), () => resend.events.send({ event: 'e', email: 'x@y.z', payload: {} }),
  () => resend.contactProperties.create({ key: 'k', type: 'string' }), () => resend.topics.get('t'), () => resend.segments.list(), () => resend.apiKeys.create({ name: 'n' }), () => resend.contacts.get({}), () => resend.logs.list(), () => resend.suppressions.list?.(), () => { try { resend.webhooks.verify({ payload: '{}', headers: { id: 'a', timestamp: '1', signature: 'v1,x' }, webhookSecret: 'whsec_AAAA' }); } catch {} },
];
let settled = 0, rejected = 0;
for (let round = 0; round < cfg.rounds; round++) {
  for (const c of calls) { try { await c(); settled++; } catch (e) { rejected++; out({ t: 'rejected', error: String(e?.stack ?? e) }); } }
  await Promise.all(calls.map((c) => Promise.resolve().then(c).then(() => settled++, () => rejected++)));
}
out({ t: 'globals', when: 'use', changed: compare(before, snap()).filter((x) => !/^listeners unhandledRejection/.test(x)) });
for (let i = 0; i < 5; i++) await new Promise((r) => setImmediate(r));
out({ t: 'used', settled, rejected, requests, resources: process.getActiveResourcesInfo(), unhandled });
let beforeExit = 0;
process.on('beforeExit', () => { if (!beforeExit++) out({ t: 'idle', requests, unhandled }); });
process.on('exit', () => out({ t: 'exit', requests, unhandled }));
out({ t: 'done', at: Date.now() });
