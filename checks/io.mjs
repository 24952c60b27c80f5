// C29: through what the SDK talks to the outside. C30: what calls wait for.
import path from 'node:path';
import process from 'node:process';
import async_hooks from 'node:async_hooks';
import { createRequire, syncBuiltinESMExports } from 'node:module';
import { OPS, getOp } from '../lib/catalog.mjs';
import { invoke, makeConfig, runSession } from '../lib/session.mjs';
import { expectation } from '../lib/oracle.mjs';
import { als, monitor, real } from '../lib/world.mjs';

const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
const require = createRequire(import.meta.url);
/** is this request the one the step describes? */
const addresses = (q, step) => {
  try { const segs = q.url.pathname.slice(1).split('/').map(decodeURIComponent).slice(-step.path.length); return segs.length === step.path.length && segs.every((s, i) => s === step.path[i]); } catch { return false; }
};

// ---------------------------------------------------------------- other ways out
let other = []; // what was used inside a call, a construction or a load, other than fetch
/** records a use of another way out from inside the library; true: it is not carried out */
const note = (what) => {
  if (loading && /^(fs|FSREQ|FILEHANDLE|STAT)/.test(what)) return false;
  const st = als.getStore();
  if (!st?.rec && !st?.phase) return false;
  other.push({ what, rec: st.rec, phase: st.phase });
  return true;
};
const denied = (what) => Object.assign(new Error(`EPERM: ${what} is not carried out here`), { code: 'EPERM' });
const WAYS = {
  net: ['connect', 'createConnection', 'createServer'], tls: ['connect'], http: ['request', 'get', 'createServer'], https: ['request', 'get'], http2: ['connect'], dgram: ['createSocket'],
  dns: ['lookup', 'resolve', 'resolve4', 'resolve6', 'resolveTxt', 'resolveMx', 'resolveCname'], 'dns/promises': ['lookup', 'resolve', 'resolve4', 'resolve6', 'resolveTxt', 'resolveMx'],
  child_process: ['spawn', 'spawnSync', 'exec', 'execSync', 'execFile', 'execFileSync', 'fork'], worker_threads: [],
  fs: ['readFile', 'readFileSync', 'writeFile', 'writeFileSync', 'appendFile', 'appendFileSync', 'open', 'openSync', 'createReadStream', 'createWriteStream', 'mkdir', 'mkdirSync', 'mkdtemp', 'mkdtempSync', 'unlink', 'unlinkSync', 'rm', 'rmSync', 'rename', 'renameSync', 'readdir', 'readdirSync', 'stat', 'statSync', 'existsSync', 'access', 'accessSync', 'watch', 'watchFile'],
  'fs/promises': ['readFile', 'writeFile', 'appendFile', 'open', 'mkdir', 'mkdtemp', 'unlink', 'rm', 'rename', 'readdir', 'stat', 'access'],
};
const TYPES = new Set(['TCPWRAP', 'TCPCONNECTWRAP', 'TCPSERVERWRAP', 'TLSWRAP', 'PIPEWRAP', 'PIPECONNECTWRAP', 'UDPWRAP', 'UDPSENDWRAP', 'GETADDRINFOREQWRAP', 'GETNAMEINFOREQWRAP', 'QUERYWRAP', 'PROCESSWRAP', 'HTTPCLIENTREQUEST', 'HTTP2SESSION', 'WORKER', 'FSEVENTWRAP', 'STATWATCHER', 'FSREQCALLBACK', 'FSREQPROMISE', 'FILEHANDLE']);
let loading = 0;
function watchWaysOut() {
  for (const [m, names] of Object.entries(WAYS)) {
    const mod = require(`node:${m}`);
    for (const n of names) {
      const f = mod[n];
      if (typeof f !== 'function') continue;
      mod[n] = function (...a) { if (note(`${m}.${n}`)) throw denied(`${m}.${n}`); return new.target ? Reflect.construct(f, a, new.target === mod[n] ? f : new.target) : f.apply(this, a); };
      Object.assign(mod[n], f);
    }
  }
  for (const n of ['Worker']) { const w = require('node:worker_threads'); const C = w[n]; w[n] = class extends C { constructor(...a) { if (note(`worker_threads.${n}`)) throw denied(n); super(...a); } }; }
  for (const n of ['WebSocket', 'EventSource', 'BroadcastChannel', 'XMLHttpRequest']) {
    const C = globalThis[n];
    if (C) globalThis[n] = class extends C { constructor(...a) { if (note(n)) throw denied(n); super(...a); } };
    // an environment that has it, as browsers and older runtimes do
    else globalThis[n] = class { constructor() { note(n); } open() {} send() {} close() {} setRequestHeader() {} addEventListener() {} };
  }
  if (globalThis.navigator) globalThis.navigator.sendBeacon = function () { note('navigator.sendBeacon'); return true; };
  syncBuiltinESMExports();
  async_hooks.createHook({ init(id, type) { if (TYPES.has(type)) note(type); } }).enable();
}

// ---------------------------------------------------------------- the global fetch of the moment
let current = null, clock = 0;
function installFetch(found, stats) {
  const through = als; // the harness' own fetch underneath
  const self = {
    from: ++clock, until: Infinity,
    fetch: function fetch(input, init) {
      const st = through.getStore();
      const rec = st?.rec;
      bump(stats.monitors, 'fetches observed');
      if (current !== self) {
        bump(stats.monitors, 'fetches through a replaced global fetch');
        if (!rec || self.until < rec.startedAt) found.push({ aspect: 'fetch', msg: `${rec ? `[${rec.kase.opName}] ` : ''}a request went through a fetch that had been replaced before the call was made`, rec });
      }
      if (this !== undefined && this !== globalThis) found.push({ aspect: 'fetch', msg: `${rec ? `[${rec.kase.opName}] ` : ''}fetch was called on an object (${Object.prototype.toString.call(this)}), which platforms reject as an illegal invocation`, rec });
      if (!rec) found.push({ aspect: 'fetch', msg: 'a request was made outside the asynchronous context of any call' });
      if (typeof input !== 'string' && !(input instanceof URL) && !(input instanceof Request)) found.push({ aspect: 'fetch', msg: `fetch was called with ${Object.prototype.toString.call(input)}`, rec });
      return monitor.fetch(input, init);
    },
  };
  if (current) current.until = ++clock;
  current = self;
  globalThis.fetch = self.fetch;
}

export const C29 = {
  aspects: new Set(['fetch', 'io', 'plain']), cases: { quick: 12000, thorough: 250000 }, wire: false,
  rule: 'Every operation in turn under success and failure while the global fetch is replaced between construction, calls and responses; the functions of the network, name, file, process and worker modules, browser transports and the runtime’s own resources are watched inside loads, constructions and calls. Non-trivial: a call whose requests were seen by an installed fetch.',
  assumptions: ['the module loader’s own reading of files (the optional renderer) is excepted'],
  async setup(env) {
    monitor.fetch = globalThis.fetch;
    // the renderer is loaded before watching: reading it is the loader's business
    await import(path.join(env.cfg.dir, 'main/node_modules/@react-email/render/index.mjs'));
    watchWaysOut();
  },
  async run(env, g, index) {
    const found = [];
    let n = 0;
    current = null;
    if (index % 200 === 0) {
      // loading and constructing reach for nothing
      installFetch(found, env.stats);
      await als.run({ phase: 'loading the library' }, async () => { loading++; try { env.loaded = await env.freshSdk(); } finally { loading--; } });
      bump(env.stats.monitors, 'loads watched');
      const until = Date.now() + 3;
      await new Promise((r) => { const w = () => (Date.now() > until ? r() : setImmediate(w)); w(); });
    }
    const Resend = index % 3 === 0 && env.loaded ? env.loaded.Resend : env.Resend;
    const prof = {
      aspects: new Set(['*']), okP: 0.6, wireP: 0, randomP: 0.5, renderFailP: 0.03, ctx: { react: 0.1, local: 0.05, maxSteps: 6, headersP: 0.3, maxFile: 2000 },
      nextOp: (gg) => (n++ === 0 ? OPS[index % OPS.length] : gg.chance(0.2) ? getOp('emails.receiving.forward') : gg.pick(OPS)),
      makeClient: (gg) => {
        if (gg.chance(0.5)) installFetch(found, env.stats);
        const cfg = makeConfig(gg, env, {});
        const client = als.run({ phase: 'constructing a client' }, () => new Resend(cfg.key, cfg.options));
        if (gg.chance(0.7)) installFetch(found, env.stats);
        return { cfg, client };
      },
      beforeCall: (gg) => { if (gg.chance(0.6)) installFetch(found, env.stats); },
      afterCall: (gg, c, rec, world) => {
        if (gg.chance(0.3)) installFetch(found, env.stats);
        if (gg.chance(0.3)) world.listeners.push((e) => { if (e.rec === rec && e.type === 'response') installFetch(found, env.stats); });
      },
      invoke: (client, kase, rec) => { rec.startedAt = ++clock; return invoke(client, kase, rec); },
      relevant: (r) => r.requests.length > 0,
    };
    if (!current) installFetch(found, env.stats);
    let session = [], world = null;
    prof.checkSession = (w) => { world = w; return []; };
    try { session = await runSession(env, g, prof); } finally { globalThis.fetch = monitor.fetch; current = null; }
    for (let i = 0; i < 4; i++) await new Promise((r) => real.setImmediate(r)); // what was started may show a little later
    // requests that were made, but in the asynchronous context of another call
    const counts = session.filter((i) => i.rec && i.aspect === 'count' && !i.rec.kase.local && !i.rec.kase.renderFails);
    if (counts.length > 1 && world) {
      const extra = [], missing = [];
      for (const rec of world.recs) { const want = expectation(rec).count; if (typeof want !== 'number') continue; if (rec.requests.length > want) extra.push(rec); else if (rec.requests.length < want) missing.push(rec); }
      const own = missing.find((m) => m.kase.steps.slice(m.requests.length, m.requests.length + 1).some((s) => s.kind !== 'download' && extra.some((x) => x.requests.some((q) => q.method === s.method && q.url && addresses(q, s)))));
      if (own) found.push({ aspect: 'fetch', msg: `[${own.kase.opName}] its request was made in the asynchronous context of another call`, rec: own });
    }
    const out = [...found.slice(0, 3), ...session.filter((i) => i.aspect === 'plain').slice(0, 3)];
    for (const o of other.splice(0).slice(0, 3)) out.push({ aspect: 'io', msg: `${o.rec ? `[${o.rec.kase.opName}]` : o.phase} used ${o.what}`, rec: o.rec });
    return out;
  },
};

/** waiting without a timer: the clock read over and over, a thread put to sleep */
function watchSpinning() {
  const reads = (what, limit) => {
    const st = als.getStore(), rec = st?.rec;
    if (!rec) return;
    const seen = (rec.clockReads ??= {});
    if ((seen[what] = (seen[what] ?? 0) + 1) === limit) (st.world.waits ??= []).push({ rec, what: limit > 1 ? `the clock to go on (${limit} readings with ${what})` : what, requests: rec.requests.length });
  };
  for (const [o, k, limit] of [[Date, 'now', 3000], [performance, 'now', 3000], [process, 'hrtime', 3000], [process.hrtime, 'bigint', 3000], [Atomics, 'wait', 1]]) {
    const f = o[k], name = `${o === Date ? 'Date' : o === performance ? 'performance' : o === Atomics ? 'Atomics' : 'process.hrtime'}.${k}`;
    o[k] = Object.assign(function (...a) { reads(name, limit); return f.apply(o, a); }, f);
  }
}

export const C30 = {
  aspects: new Set(['waits', 'blocked']), cases: { quick: 16000, thorough: 300000 }, wire: false,
  rule: 'Every operation in turn, alone and together with others, under success, rate limits with retry hints, outages and withheld answers, while every timer set inside a call is kept from firing: a call that only moves on once its timer is let go was waiting for it. Non-trivial: every call.',
  assumptions: ['spinning is noticed by its reading of the clock; waiting by turns of the event loop only when it is for another call'],
  async setup() { monitor.holdTimers = true; watchSpinning(); },
  async run(env, g, index) {
    let n = 0;
    // a third of the sessions stay with one or two operations
    const few = g.chance(0.35) ? [g.chance(0.3) ? getOp(g.pick(['emails.receiving.forward', 'templates.create', 'templates.duplicate', 'emails.send', 'batch.send', 'contacts.imports.create'])) : OPS[index % OPS.length], ...(g.bool() ? [g.pick(OPS)] : [])] : OPS;
    const prof = {
      aspects: this.aspects, okP: g.pick([0.3, 0.7, 0.95]), wireP: 0, randomP: 0.6, withholdP: 0.5, renderFailP: 0.05, repeatP: 0.2, stallMs: 8000, ctx: { react: 0.15, local: 0.05, maxSteps: 6, maxFile: 2000 },
      calls: (gg) => (gg.chance(0.004) ? gg.int(100, 300) : gg.chance(0.06) ? gg.int(20, 80) : gg.size(1, 8, 5, { hard: 600 })),
      nextOp: (gg) => (n++ === 0 ? few === OPS ? OPS[index % OPS.length] : few[0] : gg.pick(few)),
      checkSession: (world) => (world.waits ?? []).map((t) => ({ aspect: 'waits', msg: `[${t.rec.kase.opName}] waited for ${t.what} after ${t.requests} request(s)`, rec: t.rec })),
    };
    bump(env.stats.monitors, 'sessions with held timers');
    return runSession(env, g, prof);
  },
};
