// A child process that loads one build of the SDK in one kind of environment,
// makes a given set of calls and prints what happened, one JSON line each.
import process from 'node:process';
import crypto from 'node:crypto';
import fs from 'node:fs';
import { Buffer } from 'node:buffer';
import { createRequire } from 'node:module';
import { installMonitors, monitor, World, drive, startCall, real } from './world.mjs';
import { makeEnv, makeCase, defaultCtx, makeConfig, planFn, invoke, G, OPS } from './session.mjs';
import { transcript } from './transcript.mjs';

const cfg = JSON.parse(process.argv[2]); // { esm, cjs, format, process: 'keep'|'none'|'bare', seeds, dict, skipReact, plainWorld }
// synchronously: the process ends right after the last line
const out = (o) => { let b = Buffer.from(`${JSON.stringify(o)}\n`); while (b.length) { try { b = b.subarray(fs.writeSync(1, b)); } catch (e) { if (e.code !== 'EAGAIN') throw e; Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 2); } } };
installMonitors();
const env = await makeEnv({ Resend: null }, cfg.dict);
process.env.NODE_ENV = cfg.nodeEnv ?? 'test';
if (cfg.process === 'none') { delete globalThis.process; }
if (cfg.process === 'bare') { Object.defineProperty(globalThis, 'process', { value: {}, configurable: true, writable: true }); }
// built-ins the oldest supported Node (20.0) does not have
if (cfg.old) {
  const gone = [['Object', 'groupBy'], ['Map', 'groupBy'], ['Promise', 'withResolvers', 'try'], ['Array', 'fromAsync'], ['AbortSignal', 'any'], ['URL', 'parse'], ['RegExp', 'escape'], ['Error', 'isError'], ['Math', 'f16round', 'sumPrecise'], ['JSON', 'rawJSON', 'isRawJSON'], ['Uint8Array', 'fromBase64', 'fromHex'], ['Iterator', 'from', 'concat']];
  const goneProto = [['Set', 'union', 'intersection', 'difference', 'symmetricDifference', 'isSubsetOf', 'isSupersetOf', 'isDisjointFrom'], ['ArrayBuffer', 'transfer', 'transferToFixedLength', 'detached'], ['Response', 'bytes'], ['Request', 'bytes'], ['Blob', 'bytes', 'textStream'], ['Uint8Array', 'toBase64', 'toHex', 'setFromBase64', 'setFromHex'], ['Iterator', 'map', 'filter', 'take', 'drop', 'flatMap', 'reduce', 'toArray', 'forEach', 'some', 'every', 'find'], ['Map', 'getOrInsert', 'getOrInsertComputed'], ['WeakMap', 'getOrInsert', 'getOrInsertComputed']];
  for (const [c, ...names] of gone) for (const n of names) if (globalThis[c]) delete globalThis[c][n];
  for (const [c, ...names] of goneProto) for (const n of names) if (globalThis[c]) delete globalThis[c].prototype[n];
  for (const n of ['navigator', 'Navigator', 'WebSocket', 'CloseEvent', 'EventSource', 'Iterator', 'localStorage', 'sessionStorage', 'Storage', 'Float16Array', 'URLPattern', 'SuppressedError', 'DisposableStack', 'AsyncDisposableStack', 'ErrorEvent']) delete globalThis[n];
  for (const n of ['getBuiltinModule', 'loadEnvFile', 'finalization', 'permission']) delete globalThis.process[n];
}
// what other runtimes have beside Node's globals
const put = (n, v) => Object.defineProperty(globalThis, n, { value: v, configurable: true, writable: true, enumerable: false });
if (cfg.globals === 'browser') {
  const doc = { cookie: '', documentElement: {}, createElement: () => ({ style: {} }), addEventListener() {}, removeEventListener() {}, readyState: 'complete' };
  put('window', globalThis); put('self', globalThis); put('document', doc); put('location', new URL('https://app.example.test/page?x=1')); put('origin', 'https://app.example.test');
  put('XMLHttpRequest', class { open() { throw new Error('XMLHttpRequest used'); } }); put('HTMLElement', class {}); put('localStorage', { getItem: () => null, setItem() {}, removeItem() {} });
  put('navigator', { userAgent: 'Mozilla/5.0 (X11; Linux x86_64) Chrome/130.0', language: 'de-DE', onLine: true, platform: 'Linux' });
}
if (cfg.globals === 'worker') {
  put('self', globalThis); put('WorkerGlobalScope', class {}); put('ServiceWorkerGlobalScope', class {}); put('importScripts', () => { throw new Error('importScripts used'); }); put('WebSocketPair', class {});
  put('caches', { default: { match: async () => undefined, put: async () => {} }, open: async () => { throw new Error('caches used'); } }); put('EdgeRuntime', 'edge-runtime'); put('navigator', { userAgent: 'Cloudflare-Workers' }); put('addEventListener', () => {});

}
if (cfg.globals === 'other') {
  put('Deno', { version: { deno: '2.1.0', v8: '13', typescript: '5' }, build: { os: 'linux' }, env: { get: () => undefined, toObject: () => ({}) }, args: [] });
  put('Bun', { version: '1.2.0', env: {} }); put('__NEXT_DATA__', {}); put('jest', {}); put('AWS_LAMBDA_FUNCTION_NAME', 'f'); put('__DEV__', true);
  Object.defineProperty(process.versions, 'bun', { value: '1.2.0', configurable: true }); 
}
let sdk;
try { sdk = cfg.format === 'esm' ? await import(cfg.esm) : createRequire(cfg.cjs)(cfg.cjs); } catch (e) { out({ t: 'load', error: String(e?.stack ?? e) }); process.exit(0); }
out({ t: 'load', exports: Object.keys(sdk).filter((k) => !['default', 'module.exports', '__esModule'].includes(k)).sort() });
const api = (o, d = 3) => { const r = {}; for (let p = o; p && p !== Object.prototype; p = Object.getPrototypeOf(p)) for (const k of Object.getOwnPropertyNames(p)) { if (k === 'constructor' || k in r) continue; let v; try { v = o[k]; } catch { continue; } if (typeof v === 'function') r[k] = `function/${v.length}`; else if (v && typeof v === 'object' && d > 0 && !(v instanceof Headers) && v.constructor?.name !== 'Resend') r[k] = api(v, d - 1); } return r; };
try { out({ t: 'api', api: api(new sdk.Resend('re_x')) }); } catch (e) { out({ t: 'api', error: String(e?.stack ?? e) }); }
try { new sdk.Resend(); out({ t: 'nokey', accepted: true }); } catch (e) { out({ t: 'nokey', error: e instanceof Error ? e.constructor.name === 'ReferenceError' || e instanceof TypeError ? `${e.name}: ${e.message}` : 'Error' : typeof e }); }
async function main() {
 for (const seed of cfg.seeds) {
  for (const op of cfg.ops ? OPS.filter((o) => cfg.ops.includes(o.name)) : OPS) {
    const g = new G(`${seed}.${op.name}`, cfg.dict);
    const prof = { okP: 0.7, renderFailP: 0 };
    const ctx = { ...defaultCtx(env, prof), react: cfg.react ?? 0, makeElement: cfg.element ? (gg) => env.React.createElement('p', null, `hello ${gg.tag()}`) : defaultCtx(env, prof).makeElement, maxSteps: 8, chainUse: (gg) => gg.pick(['await', 'publish', 'await2', 'publish-await']) };
    const c = await makeCase(env, `${seed}.${op.name}`, prof, ctx, op);
    const world = new World({ rnd: () => 0.5, mode: 'immediate', linger: 1 });
    monitor.current = world;
    const conf = makeConfig(g, env, prof);
    let client;
    try { client = new sdk.Resend(conf.key, conf.options); } catch (e) { out({ t: 'call', op: op.name, seed, construct: String(e?.stack ?? e) }); continue; }
    const rec = startCall(world, { kase: c.kase, client, cfg: conf, plan: planFn(c.g, c.kase, c.planned), invoke });
    rec.planned = c.planned;
    const ok = await drive(world, { stallMs: 5000 });
    const needsRenderer = !!(c.kase.reacts?.length) && !c.kase.local;
    const t = transcript(rec);
    out({ t: 'call', op: op.name, seed, ok, needsRenderer, requests: rec.requests.length, kind: rec.outcome.kind, message: rec.outcome.error ? String(rec.outcome.error?.message ?? rec.outcome.error) : undefined, hash: crypto.createHash('md5').update(JSON.stringify(t)).digest('hex'), t: undefined, full: JSON.stringify(t).slice(0, 1500) });
  }
}
}
// a mistake of this program is not the SDK's: told apart from what the process does by itself
await main().catch((e) => { out({ t: 'fatal', error: String(e?.stack ?? e) }); process.exit(0); });
out({ t: 'end', unhandled: monitor.unhandled.length });
process.exit(0);
