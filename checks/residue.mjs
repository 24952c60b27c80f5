// C27: what a finished call leaves behind.
import process from 'node:process';
import { OPS } from '../lib/catalog.mjs';
import { heapByKind } from '../lib/heap.mjs';
import { show } from '../lib/oracle.mjs';
import { account, defaultCtx, invoke, makeCase, makeConfig, planFn } from '../lib/session.mjs';
import { World, als, drive, monitor, startCall, real, sleep, tick } from '../lib/world.mjs';
import { child } from './formats.mjs';

const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
const MARK = 'leak'.toUpperCase() + 'mark';
const CHAIN = ['await', 'publish', 'await2', 'publish-await', 'then-chain'];
const PROF = { freshArgs: true, okP: 0.6, renderFailP: 0.05, ctx: { react: 0.15, headersP: 0.3, idemP: 0.5, maxSteps: 10, maxFile: 1000, chainUse: (g) => g.pick(CHAIN), batchSize: (x) => x.size(0, 30, 4) } };

// ---------------------------------------------------------------- timers
const live = new Map(); // handle -> { rec, what }
let nextId = 1;
function watchTimers() {
  const clear = (h) => { if (h && typeof h === 'object' && h.verifId) live.delete(h.verifId); else live.delete(h); };
  for (const [set, unset, repeats] of [['setTimeout', 'clearTimeout', false], ['setInterval', 'clearInterval', true]]) {
    const s = globalThis[set], c = globalThis[unset];
    const w = function (fn, ms, ...a) {
      const st = als.getStore();
      if (!st?.rec || typeof fn !== 'function') return s(fn, ms, ...a);
      const id = nextId++;
      const h = s(function (...x) { if (!repeats) live.delete(id); return fn.apply(this, x); }, ms, ...a);
      live.set(id, { rec: st.rec.id, op: st.rec.kase.opName, what: `${set}(${ms})` });
      h.verifId = id;
      return h;
    };
    globalThis[set] = Object.assign(w, s);
    globalThis[unset] = (h) => { clear(h); return c(h); };
  }
  const at = AbortSignal.timeout;
  AbortSignal.timeout = function (ms) {
    const st = als.getStore();
    const sig = at.call(AbortSignal, ms);
    if (st?.rec) { const id = nextId++; live.set(id, { rec: st.rec.id, op: st.rec.kase.opName, what: `AbortSignal.timeout(${ms})` }); real.setTimeout(() => live.delete(id), ms).unref(); }
    return sig;
  };
  const on = process.on;
  process.on = process.addListener = function (e, f) { const st = als.getStore(); if (st?.rec) live.set(nextId++, { rec: st.rec.id, op: st.rec.kase.opName, what: `process.on(${String(e)})` }); return on.call(process, e, f); };
}

// ---------------------------------------------------------------- references
/** makes `n` calls and returns only weak references to what they involved */
async function callsWithWeakRefs(env, g, n, shared, conf, op) {
  const refs = [];
  const issues = [];
  const world0 = monitor.current;
  const one = async (i) => {
    const o = op ?? g.pick(OPS);
    const c = await makeCase(env, `${g.int(0, 2 ** 31)}.${i}`, PROF, defaultCtx(env, PROF), o);
    if (c.kase.finish === 'chain' && c.kase.renderFails) return;
    const world = new World({ rnd: () => 0.5, mode: 'immediate', linger: 2 });
    monitor.current = world;
    // without a shared client each call is made on a client of its own
    const client = shared ?? new env.Resend(conf.key, conf.options);
    const rec = startCall(world, { kase: c.kase, client, cfg: conf, plan: planFn(c.g, c.kase, c.planned), invoke });
    rec.planned = c.planned;
    if (!await drive(world, { stallMs: 5000 })) { env.stats.hangs++; return; }
    account(env, rec, {});
    const add = (v, what) => { if (v && typeof v === 'object' && !v.$$typeof) refs.push({ ref: new WeakRef(v), what: `${what} of ${o.name}` }); };
    c.kase.args.forEach((a, k) => { add(a, `argument ${k}`); if (a && typeof a === 'object' && !a.$$typeof) for (const [key, v] of Object.entries(a).slice(0, 6)) add(v, `argument ${k}.${key}`); });
    add(rec.outcome.value, 'result'); add(rec.outcome.value?.data, 'data'); add(rec.outcome.value?.headers, 'headers'); add(rec.outcome.value?.error, 'error');
    if (!shared) add(client, 'client');
    if (rec.returned && typeof rec.returned === 'object') add(rec.returned, 'promise');
    for (const [id, l] of live) if (l.rec === rec.id) { issues.push({ aspect: 'residue', msg: `[${o.name}] ${l.what} still active after the call had settled` }); live.delete(id); }
  };
  for (let i = 0; i < n; i++) await one(i);
  monitor.current = world0;
  return { refs, issues };
}
async function collect(rounds = 4) { for (let i = 0; i < rounds; i++) { await tick(); await sleep(1); globalThis.gc(); } await tick(); }
const alive = (refs) => refs.filter((r) => r.ref.deref() !== undefined);

async function retention(env, g) {
  const conf = makeConfig(g, env, PROF);
  const client = g.chance(0.7) ? new env.Resend(conf.key, conf.options) : undefined;
  const op = g.chance(0.75) ? g.pick(OPS) : null;
  const attempt = async (n) => {
    const { refs, issues } = await callsWithWeakRefs(env, g, n, client, conf, op);
    // one unrelated local call so that nothing of the last call lingers in registers or contexts
    await collect();
    let left = alive(refs);
    if (left.length) { await sleep(20); await collect(8); left = alive(refs); }
    bump(env.stats.monitors, 'weak references watched', refs.length);
    return { left: left.map((l) => l.what), issues };
  };
  const a = await attempt(g.int(4, 10));
  if (a.issues.length) return a.issues;
  if (!a.left.length) return [];
  let c = null, again = 0;
  for (; again < 4; again++) { await sleep(30); c = await attempt(8); if (!c.left.length) break; }
  if (again === 4) return [{ aspect: 'residue', msg: `objects of finished calls are kept alive: ${show([...new Set(c.left)].slice(0, 8))}` }];
  bump(env.stats.monitors, 'retention not reproduced'); 
  return [];
}

// ---------------------------------------------------------------- heap
async function heap(env, g) {
  const conf = makeConfig(g, env, PROF);
  const shared = g.chance(0.75) ? new env.Resend(conf.key, conf.options) : undefined;
  const pool = g.pick([['emails.send'], ['batch.send'], ['emails.get', 'contacts.get', 'domains.get'], ['emails.list', 'contacts.list', 'broadcasts.list'], ['contacts.create', 'contacts.update'], ['templates.create', 'templates.duplicate'], ['emails.receiving.forward'], ['post', 'get', 'patch', 'delete', 'put'], ['events.send', 'broadcasts.send', 'topics.get'], ['emails.send', 'emails.send', 'emails.get']]);
  const failing = g.chance(0.4);
  const base = `${g.int(0, 1e9)}`;
  let n = 0, evil = null;
  const { G } = await import('../lib/gen.mjs');
  const { getOp } = await import('../lib/catalog.mjs');
  const plain = { strings: [], numbers: [], novel: [], novelNumbers: [], regexes: [] };
  const batch = async (count) => {
    for (let i = 0; i < count; i++) {
      const op = getOp(pool[n % pool.length]);
      const gg = new G(`${base}.${n++}`, plain); gg.tagBase = flat(`${MARK}${n}q`);
      const ctx = { local: 0, react: 0, headersP: 0.2, idemP: 0.5, maxSteps: 2, chainUse: () => 'publish', batchSize: () => 2 };
      const kase = op.gen(gg, ctx);
      kase.opName = op.name;
      const id = kase.okJson ?? [];
      const plan = (k) => (failing && n % 2 ? { status: n % 3 ? 429 : 500, headers: [['content-type', 'application/json'], ['retry-after', '1'], ['x-request-id', `${MARK}r${n}`]], body: `{"name":"rate_limit_exceeded","message":"${MARK}m${n}","statusCode":429}` } : kase.steps[k]?.kind === 'download' ? { status: 200, headers: [], body: kase.raw.bytes } : { status: 200, headers: [['content-type', 'application/json'], ['etag', `"${MARK}e${n}"`]], body: JSON.stringify(id[k] ?? { id: `${MARK}id${n}`, data: [] }) });
      const world = new World({ rnd: () => 0.5, mode: 'immediate', linger: 0 });
      monitor.current = world;
      startCall(world, { kase, client: shared ?? new env.Resend(conf.key, conf.options), cfg: conf, plan, invoke });
      if (!await drive(world, { stallMs: 5000 })) { evil = op.name; return; }
      env.stats.calls++;
    }
  };
  const measure = async () => { monitor.current = null; await collect(3); return heapByKind(MARK); };
  const N = env.tier === 'thorough' ? 1500 : 500;
  await batch(N);
  const h = [await measure()];
  const more = async () => { await batch(N); h.push(await measure()); };
  for (let i = 0; i < 2; i++) await more();
  if (evil) { env.stats.hangs++; return []; }
  // sustained growth: since the first measurement, and again over every further pair of batches
  const grew = (from) => h[h.length - 1].bytes - h[from].bytes > (h.length - 1 - from) * N * 6;
  let suspect = grew(0);
  for (let i = 0; i < 2 && suspect; i++) { const from = h.length - 1; await more(); await more(); suspect = grew(from); }
  env.stats.evaluations++;
  bump(env.stats.monitors, 'heap snapshots compared', h.length);
  const perCall = h.slice(1).map((x, i) => Number(((x.bytes - h[i].bytes) / N).toFixed(1)));
  if (process.env.VERIF_DEBUG) process._rawDebug(pool.join('/'), failing, perCall.join(), h.map((x) => x.marked.length).join());
  env.maxGrowth = Math.max(env.maxGrowth ?? 0, perCall.at(-1));
  if (suspect) {
    const kinds = Object.entries(h.at(-1).kinds).map(([k, v]) => [k, v.bytes - (h[0].kinds[k]?.bytes ?? 0), v.n - (h[0].kinds[k]?.n ?? 0)]).filter((x) => x[1] > N && !['code', 'hidden', 'object shape'].includes(x[0]));
    return [{ aspect: 'residue', msg: `memory grows with the number of calls of ${pool.join('/')}: ${perCall.join(', ')} bytes per call over ${h.length - 1} batches of ${N} (${kinds.map((x) => `${x[0]} +${x[1]} B in ${x[2]}`).join(', ')})` }];
  }
  if (h.every((x) => x.marked.length > 20)) return [{ aspect: 'residue', msg: `text of finished calls of ${pool.join('/')} is kept: ${h.at(-1).marked.length} strings, e.g. ${show(h.at(-1).marked.slice(0, 4), 400)}` }];
  return [];
}

/** one piece of text, found as such in a snapshot (not joined from several) */
const flat = (s) => Buffer.from(s).toString();
/** every operation in turns, in generations that carry marks of their own: text of earlier generations must be gone */
async function generations(env, g) {
  const conf = makeConfig(g, env, PROF);
  const client = new env.Resend(conf.key, conf.options);
  const { G } = await import('../lib/gen.mjs');
  const plain = { strings: [], numbers: [], novel: [], novelNumbers: [], regexes: [], now: Date.now() };
  const base = `${g.int(0, 1e9)}`, rounds = env.tier === 'thorough' ? 30 : 14, mark = (b) => `${MARK}gen${b}x`;
  const failing = g.pick([0, 0.3, 0.9]);
  let n = 0, generation = 0, evil = null;
  const one = async () => {
    for (let i = 0; i < OPS.length * rounds && !evil; i++) {
      const op = OPS[i % OPS.length], m = `${mark(generation)}${n}`;
      const gg = new G(`${base}.${n++}`, plain); gg.tagBase = flat(`${m}q`); gg.pool = { ids: [flat(`${m}i`)], emails: [flat(`${m}@example.com`)] };
      const kase = op.gen(gg, { local: 0.02, react: 0, headersP: 0.3, idemP: 0.5, maxSteps: 3, chainUse: () => 'publish', batchSize: () => 2 });
      kase.opName = op.name;
      const bad = g.chance(failing);
      const plan = (k) => (bad ? { status: g.pick([429, 500, 404, 422]), headers: [['content-type', 'application/json'], ['retry-after', '1'], ['x-request-id', `${m}r`]], body: g.chance(0.2) ? `${m}junk` : `{"name":"application_error","message":"${m}m","statusCode":429}` } : kase.steps[k]?.kind === 'download' ? { status: 200, headers: [], body: kase.raw.bytes } : { status: 200, headers: [['content-type', 'application/json'], ['etag', `"${m}e"`]], body: JSON.stringify(kase.okJson?.[k] ?? { id: `${m}id`, data: [] }) });
      const world = new World({ rnd: () => 0.5, mode: 'immediate', linger: 0 });
      monitor.current = world;
      startCall(world, { kase, client, cfg: conf, plan, invoke });
      if (!await drive(world, { stallMs: 5000 })) evil = op.name;
      env.stats.calls++;
    }
    generation++;
  };
  const left = async () => {
    monitor.current = null;
    await collect(3);
    const { marked } = await heapByKind(MARK);
    bump(env.stats.monitors, 'heap snapshots searched for earlier calls');
    return (b) => marked.filter((x) => x.includes(mark(b)));
  };
  for (let b = 0; b < 3; b++) await one();
  let of = await left();
  env.stats.evaluations++;
  // the last generation may linger; those before it have been followed by many calls of every kind
  if (process.env.VERIF_DEBUG) process._rawDebug(of(0).length, of(1).length, of(2).length);
  if (!evil && of(0).length && of(1).length) {
    const kept = of(0);
    for (let b = 0; b < 2; b++) await one();
    of = await left();
    if ([0, 1, 2, 3].every((b) => of(b).length)) return [{ aspect: 'residue', msg: `text of calls is kept long after they finished: ${[0, 1, 2, 3].map((b) => of(b).length).join(', ')} strings of four generations, e.g. ${show(kept.filter((x) => x.length < 200).slice(0, 4), 500)}` }];
  }
  if (evil) env.stats.hangs++;
  return [];
}

// ---------------------------------------------------------------- processes
async function exitProbe(env, g) {
  const format = g.pick(['esm', 'cjs']);
  const plan = g.pick(['ok', '429', '500', 'net', 'mixed', 'mixed']);
  let issues = [];
  // part of what is watched is time; only what repeats is reported
  for (let i = 0; i < 3; i++) { issues = await probeOnce(env, format, plan); if (!issues.length) break; bump(env.stats.monitors, 'process watched again'); }
  return issues;
}
async function probeOnce(env, format, plan) {
  const r = await child({ entry: env.cfg[format], format, plan, rounds: 2 }, { script: 'lib/exitprobe.mjs', timeoutMs: 40000 });
  const line = (t) => r.lines.find((l) => l.t === t);
  const issues = [];
  const add = (msg) => issues.push({ aspect: 'residue', msg: `${format}, responses ${plan}: ${msg}` });
  env.stats.evaluations++; bump(env.stats.monitors, 'processes watched to their end');
  const done = line('done');
  if (!done) { if (r.timedOut) add('calls did not finish'); else throw new Error(`probe failed (${r.code}): ${r.err.slice(0, 1500)}`); return issues; }
  for (const l of r.lines.filter((x) => x.t === 'globals')) if (l.changed.length) add(`global objects changed by ${l.when} the library: ${l.changed.slice(0, 6).join('; ')}`);
  const used = line('used');
  const odd = used.resources.filter((x) => !/Pipe|TTY|File|FS|Sock/i.test(x) && x !== 'Immediate');
  if (odd.length) add(`active resources after all calls had settled: ${odd.join()}`);
  if (r.timedOut) add('the process does not end by itself after the last call');
  else if (r.at - done.at > 4000) add(`the process took ${r.at - done.at} ms to end after the last call`);
  else if (r.code !== 0) add(`the process ended with ${r.code ?? r.signal}: ${r.err.slice(0, 400)}`);
  const last = line('exit') ?? line('idle') ?? used;
  if (last.unhandled.length) add(`unhandled rejection: ${last.unhandled[0].slice(0, 300)}`);
  if (last.requests !== used.requests) add(`${last.requests - used.requests} requests after the last call had settled`);
  return issues;
}

export const C27 = {
  aspects: new Set(['residue', 'late']), wire: false, execArgv: ['--expose-gc'], scale: 1, cases: { quick: 720, thorough: 12000 }, wallMs: 90000,
  rule: 'Groups of calls on one client are made, weak references to all argument and result objects (and to clients that were dropped) are kept, and after forced collections each must be gone; timers, abort timeouts and process listeners created inside a call must be gone when it settles; heap use is measured after batches of thousands of calls; child processes using every kind of operation under six kinds of responses must leave global objects unchanged and end by themselves. Non-trivial: every call.',
  assumptions: ['V8 collects unreachable objects within twelve forced collections', 'growth below 6 bytes per call is not noticed'],
  async setup(env) { monitor.compressTimers = false; watchTimers(); },
  async run(env, g, index) {
    env.stats.sessions++;
    if (index % 60 === 7) return exitProbe(env, g);
    if (index % 60 === 20) return heap(env, g);
    if (index % 60 === 40) return generations(env, g);
    return retention(env, g);
  },
  async finish(env) {
    await sleep(50);
    const out = [];
    for (const [what, list] of [['unhandled rejection', monitor.unhandled.map((u) => u.reason)], ['uncaught exception', monitor.uncaught]]) if (list.length) out.push({ aspect: 'residue', msg: `${list.length} × ${what}: ${show(list[0]?.stack ?? list[0], 400)}` });
    if (env.maxGrowth !== undefined) bump(env.stats.monitors, `largest final growth ${env.maxGrowth} B/call in worker ${env.worker}`);
    return out;
  },
};
