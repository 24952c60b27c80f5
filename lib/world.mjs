// Monitors around the SDK: fetch, console, standard streams, timers, clock and
// process events. Must be installed before the SDK is imported.
import process from 'node:process';
import { AsyncLocalStorage } from 'node:async_hooks';
import util from 'node:util';
import { createRequire, syncBuiltinESMExports } from 'node:module';

const require = createRequire(import.meta.url);
export const als = new AsyncLocalStorage();
export const real = {
  fetch: globalThis.fetch, setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout, setInterval: globalThis.setInterval, setImmediate: globalThis.setImmediate,
  Date: globalThis.Date, now: performance.now.bind(performance), console: { ...console }, stdoutWrite: process.stdout.write.bind(process.stdout), stderrWrite: process.stderr.write.bind(process.stderr),
};
export const monitor = { seq: 0, current: null, unhandled: [], uncaught: [], stray: [], compressTimers: true };

let clockOffset = 0, frozen = null;
export function setClock({ offset = 0, at = null } = {}) { clockOffset = offset; frozen = at; }

export function installMonitors() {
  const RealDate = real.Date;
  class MonitoredDate extends RealDate {
    constructor(...a) { if (a.length === 0) super(MonitoredDate.now()); else super(...a); }
    static now() { return frozen ?? RealDate.now() + clockOffset; }
  }
  Object.defineProperty(MonitoredDate, 'name', { value: 'Date' });
  globalThis.Date = MonitoredDate;

  globalThis.fetch = function fetch(input, init) { return monitoredFetch(input, init); };

  for (const m of ['log', 'info', 'warn', 'error', 'debug', 'trace', 'dir', 'table', 'group', 'assert', 'count', 'timeEnd', 'timeLog', 'dirxml']) {
    console[m] = (...args) => {
      const st = als.getStore();
      if (m === 'assert' && args[0]) return;
      const ev = { seq: ++monitor.seq, via: `console.${m}`, args };
      if (st?.rec) st.rec.logs.push(ev);
      else if (st?.world ?? monitor.current) (st?.world ?? monitor.current).strayLogs.push(ev);
      else real.console[m](...args);
    };
  }
  for (const [name, w] of [['stdout', real.stdoutWrite], ['stderr', real.stderrWrite]]) {
    process[name].write = (chunk, ...r) => {
      const st = als.getStore();
      const ev = { seq: ++monitor.seq, via: `process.${name}`, args: [String(chunk)] };
      if (st?.rec) { st.rec.logs.push(ev); for (const cb of r) if (typeof cb === 'function') cb(); return true; }
      return w(chunk, ...r);
    };
  }
  globalThis.setTimeout = Object.assign(function setTimeout(fn, ms, ...a) {
    const st = als.getStore();
    if (monitor.holdTimers && st?.rec && ms >= 1 && typeof fn === 'function') return hold(st.rec, `setTimeout(${ms})`, fn, a);
    if (st?.rec && typeof ms === 'number' && ms >= 15) { st.rec.timers.push(ms); if (monitor.compressTimers) ms = 2; }
    return real.setTimeout(fn, ms, ...a);
  }, { [util.promisify.custom]: real.setTimeout[util.promisify.custom] });

  // the promised kinds, compressed or held alike
  const timers = require('node:timers'), promised = require('node:timers/promises');
  const wait = promised.setTimeout;
  const sleepFor = (ms, value, opts) => {
    const st = als.getStore();
    if (st?.rec && ms >= 1 && monitor.holdTimers) return abortable(new Promise((r) => hold(st.rec, `a promise of ${ms} ms`, () => r(value), [])), opts?.signal);
    if (st?.rec && ms >= 15) { st.rec.timers.push(ms); if (monitor.compressTimers) ms = 2; }
    return wait(ms, value, opts);
  };
  promised.setTimeout = sleepFor;
  promised.scheduler.wait = (ms, opts) => sleepFor(ms, undefined, opts);
  globalThis.setTimeout[util.promisify.custom] = sleepFor;
  const clear = globalThis.clearTimeout, every = globalThis.setInterval;
  globalThis.setInterval = Object.assign(function setInterval(fn, ms, ...a) {
    const st = als.getStore();
    if (monitor.holdTimers && st?.rec) return hold(st.rec, `setInterval(${ms})`, fn, a, true);
    return every(fn, ms, ...a);
  }, every);
  globalThis.clearTimeout = function clearTimeout(h) { held.delete(h); return clear(h); };
  globalThis.clearInterval = function clearInterval(h) { held.delete(h); return clear(h); };
  for (const n of ['setTimeout', 'setInterval', 'clearTimeout', 'clearInterval']) timers[n] = globalThis[n];
  syncBuiltinESMExports();

  const timeout = AbortSignal.timeout;
  AbortSignal.timeout = function (ms) {
    const st = als.getStore();
    if (st?.rec && typeof ms === 'number' && ms >= 15) { st.rec.timers.push(ms); if (monitor.compressTimers) ms = 2; }
    return timeout.call(AbortSignal, ms);
  };
  const shift = () => (als.getStore()?.rec ? clockOffset : 0);
  performance.now = () => real.now() + shift();
  const hr = process.hrtime, big = process.hrtime.bigint;
  process.hrtime = Object.assign((t) => { const s = Math.trunc(shift() / 1000); if (t) return hr(t); const r = hr(); return [r[0] + s, r[1]]; }, { bigint: () => big() + BigInt(Math.trunc(shift())) * 1000000n });

  process.on('unhandledRejection', (reason) => { const st = als.getStore(); monitor.unhandled.push({ reason, rec: st?.rec }); });
  process.on('uncaughtException', (err) => { monitor.uncaught.push(err); });
}

const held = new Map(); // timers kept from firing, with the call that set them
function hold(rec, what, fn, a, repeats) {
  const h = real.setTimeout(() => {}, 2 ** 31 - 1);
  h.unref();
  held.set(h, { rec, what, fn, a, repeats });
  return h;
}
/** lets the held timers of unsettled calls fire; returns what was let go */
function releaseHeld(world, last) {
  const out = [];
  for (const [h, t] of [...held]) {
    if (!last && (t.rec.settled || !world.recs.includes(t.rec))) continue;
    if (!t.repeats || last) { held.delete(h); real.clearTimeout(h); }
    out.push({ ...t, requests: t.rec.requests.length });
    als.run({ world, rec: t.rec }, () => { try { t.fn(...t.a); } catch {} });
  }
  return out;
}

export class World {
  constructor({ rnd, mode = 'immediate', wire = null, linger = 2, onEvent = null } = {}) {
    this.rnd = rnd; this.mode = mode; this.wire = wire; this.linger = linger; this.onEvent = onEvent;
    this.gates = []; this.recs = []; this.strayLogs = []; this.strayRequests = []; this.order = []; this.closed = false;
  }
  gate(label, index) {
    if (this.mode === 'immediate') return undefined;
    return new Promise((res) => this.gates.push({ label, index, res }));
  }
}

/** what makes a request another than the plain one: kept from redirects, answered from a cache, limited in size, sent another way */
function unusual(req, init) {
  const out = [];
  for (const [k, plain] of [['redirect', ['follow']], ['cache', ['default', 'no-store', 'no-cache', 'reload']], ['keepalive', [false]], ['integrity', ['']], ['mode', ['cors']], ['credentials', ['same-origin', 'omit']]]) if (!plain.includes(req[k])) out.push(`${k}: ${req[k]}`);
  if (init && typeof init === 'object') for (const k of ['next', 'cf', 'dispatcher', 'agent', 'proxy', 'timeout']) if (init[k] !== undefined && init[k] !== null) out.push(k);
  return out;
}
async function monitoredFetch(input, init) {
  const st = als.getStore();
  let rec = st?.rec ?? null;
  const world = st?.world ?? monitor.current;
  if (!world) { monitor.stray.push(String(input?.url ?? input)); throw new TypeError('fetch outside any monitored world'); }
  if (!rec && world.recs.length === 1) rec = world.recs[0];
  const ev = { seq: ++monitor.seq, rec, t: 'request' };
  let req;
  try { req = new Request(input, init); } catch (e) { ev.invalid = e; ev.rawUrl = String(input?.url ?? input); (rec ? rec.requests : world.strayRequests).push(ev); throw e; }
  ev.method = req.method;
  ev.rawUrl = typeof input === 'string' ? input : String(input?.url ?? input);
  ev.url = new URL(req.url);
  ev.headers = Object.fromEntries(req.headers.entries());
  ev.unusual = unusual(req, init);
  const wasSettled = rec ? rec.settled : true;
  if (wasSettled) ev.late = true;
  const k = rec ? rec.requests.length : -1;
  (rec ? rec.requests : world.strayRequests).push(ev);
  world.order.push(`q${rec?.index ?? '?'}`);
  world.onEvent?.({ type: 'request', rec, ev, world });
  if (init?.body instanceof FormData || /^multipart\/form-data/.test(ev.headers['content-type'] ?? '')) {
    ev.isForm = true;
  }
  const forWire = world.wire ? req.clone() : null;
  ev.body = Buffer.from(await req.arrayBuffer());
  world.onEvent?.({ type: 'sent', rec, ev, world });
  if (!rec) throw new TypeError('fetch failed');
  const resp = rec.plan(k, ev);
  ev.resp = resp;
  if (world.wire && JSON.stringify(resp.headers ?? []).length < 8000) return world.wire.pass(ev, forWire, resp, rec, k);
  const g = world.gate(`r${rec.index}.${k}`, rec.index);
  if (g) await abortable(g, req.signal);
  else if (req.signal.aborted) throw req.signal.reason;
  // a call that limits its own time meets a server slower than that
  if (rec.timers.length && rec.index % 2 === 0) await abortable(new Promise((r) => real.setTimeout(r, 6)), req.signal);
  world.order.push(`a${rec.index}`);
  world.onEvent?.({ type: 'response', rec, ev, world });
  if ('net' in resp) throw resp.net;
  return makeResponse(resp, world, rec, ev, req.signal);
}

function abortable(p, signal) {
  if (!signal) return p;
  return new Promise((res, rej) => {
    if (signal.aborted) rej(signal.reason);
    signal.addEventListener('abort', () => rej(signal.reason), { once: true });
    p.then(res, rej);
  });
}

const NULL_BODY = new Set([101, 204, 205, 304]);
export function makeResponse(resp, world, rec, ev, signal) {
  const headers = new Headers(resp.headers ?? []);
  let body = resp.body === null || resp.body === undefined ? null : Buffer.isBuffer(resp.body) ? resp.body : Buffer.from(resp.body);
  if (NULL_BODY.has(resp.status)) return new Response(null, { status: resp.status, headers });
  let payload = body === null || body.length === 0 ? (resp.streamError ? Buffer.alloc(0) : body === null ? null : new Uint8Array(0)) : new Uint8Array(body);
  const slow = rec.timers.length && rec.index % 2 === 1 && payload;
  if ('streamError' in resp || resp.chunked || slow) {
    const bytes = body ?? Buffer.alloc(0);
    let off = 0; const cut = 'streamError' in resp ? Math.min(bytes.length, resp.cut ?? bytes.length >> 1) : bytes.length;
    const step = Math.max(1, Math.ceil(bytes.length / (resp.chunked || 1)));
    payload = new ReadableStream({
      async pull(c) {
        if (world.mode !== 'immediate') await world.gate(`b${rec.index}`, rec.index);
        if (slow) await new Promise((r) => real.setTimeout(r, 6));
        if (signal?.aborted) { c.error(signal.reason); return; }
        if (off >= cut) { if ('streamError' in resp) c.error(resp.streamError); else c.close(); return; }
        const end = Math.min(cut, off + step);
        c.enqueue(new Uint8Array(bytes.subarray(off, end)));
        off = end;
      },
    }, { highWaterMark: 0 });
  }
  return new Response(payload, { status: resp.status, statusText: resp.statusText ?? '', headers });
}

let recCounter = 0;
/** starts a call inside a world; rec.done resolves when its outcome is known */
export function startCall(world, { kase, client, cfg, plan, invoke, label }) {
  const rec = { id: ++recCounter, index: world.recs.length, kase, cfg, plan, requests: [], logs: [], timers: [], outcome: { kind: 'pending' }, settled: false, label, nodeEnv: process.env.NODE_ENV };
  world.recs.push(rec);
  rec.done = als.run({ world, rec }, () => {
    let p;
    rec.clock = Date.now();
    try { p = invoke(client, kase, rec); } catch (error) { rec.settled = true; rec.outcome = { kind: 'throw', error }; return Promise.resolve(); }
    rec.returned = p;
    return Promise.resolve(p).then((value) => { rec.outcome = { kind: 'value', value }; rec.settled = true; rec.settleSeq = ++monitor.seq; world.order.push(`s${rec.index}`); world.onEvent?.({ type: 'settled', rec, world }); },
      (error) => { rec.outcome = { kind: 'reject', error }; rec.settled = true; rec.settleSeq = ++monitor.seq; world.order.push(`x${rec.index}`); world.onEvent?.({ type: 'settled', rec, world }); });
  });
  return rec;
}

const tick = () => new Promise((r) => real.setImmediate(r));
const sleep = (ms) => new Promise((r) => real.setTimeout(r, ms));

/** runs the world until every call has settled; returns false if one never does */
export async function drive(world, { stallMs = 15000 } = {}) {
  let idle = 0, stalledSince = 0, fired = [];
  // a call that moves on once a timer fires was waiting for it
  const waited = () => { for (const t of fired.splice(0)) if (t.rec.settled || t.rec.requests.length > t.requests) (world.waits ??= []).push(t); };
  const quiet = () => { if (!monitor.holdTimers || real.now() - stalledSince < 40 || idle < 160) return false; waited(); fired = releaseHeld(world); return fired.length > 0; };
  for (;;) {
    if (world.recs.every((r) => r.settled) && !world.pendingStarts) break;
    if (world.mode === 'immediate' && !world.gates.length) {
      if (idle < 1) { idle++; await Promise.resolve(); continue; }
    }
    await tick();
    if (world.beforeRelease) await world.beforeRelease();
    if (world.withheld) {
      // the answers to some calls stay away until every other call has settled
      // (some only after part of their own answers)
      const others = world.gates.filter((x) => !world.withheld.has(x.index) || (x.index === undefined ? false : ((world.let ??= {})[x.index] ?? 0) < (world.withholdAfter ?? 0)));
      if (others.length) {
        idle = 0; stalledSince = 0;
        const x = others[Math.floor(world.rnd() * others.length)];
        if (world.withheld.has(x.index)) world.let[x.index] = (world.let[x.index] ?? 0) + 1;
        world.gates.splice(world.gates.indexOf(x), 1)[0].res();
        continue;
      }
      const waiting = world.recs.filter((r) => !r.settled && !world.withheld.has(r.index));
      if (!waiting.length && !world.pendingStarts) { world.withheld = null; continue; }
      if (++idle > 60) {
        if (!stalledSince) stalledSince = real.now();
        if (quiet()) { idle = 0; stalledSince = 0; continue; }
        if (real.now() - stalledSince > 2500 && idle > 400) { world.blocked = waiting; world.withheld = null; idle = 0; stalledSince = 0; continue; }
        await sleep(1);
      }
      continue;
    }
    if (world.gates.length) {
      idle = 0; stalledSince = 0;
      const burst = world.rnd() < 0.2 ? 1 + Math.floor(world.rnd() * world.gates.length) : 1;
      for (let b = 0; b < burst && world.gates.length; b++) {
        const r = world.rnd();
        const i = r < 0.15 ? 0 : r < 0.3 ? world.gates.length - 1 : Math.floor(world.rnd() * world.gates.length);
        world.gates.splice(i, 1)[0].res();
      }
      if (world.rnd() < 0.3) await tick();
      continue;
    }
    idle++;
    if (idle > 60) {
      if (!stalledSince) stalledSince = real.now();
      if (quiet()) { idle = 0; stalledSince = 0; continue; }
      if (real.now() - stalledSince > stallMs && idle > 60 + stallMs / 30) return false; // turns taken count too: a starved process is not a stalled call
      await sleep(idle > 400 ? 20 : 1);
    }
  }
  waited();
  if (monitor.holdTimers) { await tick(); releaseHeld(world, true); }
  for (let i = 0; i < world.linger; i++) { await tick(); while (world.gates.length) { world.gates.pop().res(); await tick(); } }
  return true;
}
export { tick, sleep };
