// Runs sessions: a few clients, a sequence or overlap of calls, scripted
// responses, everything recorded, every call judged by the oracle.
import process from 'node:process';
import { createRequire } from 'node:module';
import crypto from 'node:crypto';
import path from 'node:path';
import { Buffer } from 'node:buffer';
import util from 'node:util';
import { G } from './gen.mjs';
import { OPS, getOp, sharedObjects } from './catalog.mjs';
import { genPlan, genResponse } from './responses.mjs';
import { World, als, drive, monitor, startCall, setClock, tick } from './world.mjs';
import { checkCall, classify, snapshot } from './oracle.mjs';
import { REPO } from './build.mjs';

const requireRepo = createRequire(path.join(REPO, 'package.json'));

export async function makeEnv(sdk, dict) {
  const React = requireRepo('react');
  const { render } = requireRepo('@react-email/render');
  const PostalMime = (await import(path.join(REPO, 'node_modules/postal-mime/src/postal-mime.js')).catch(() => null))?.default ?? requireRepo('postal-mime').default ?? requireRepo('postal-mime');
  const env = { sdk, Resend: sdk.Resend, dict, React, render, PostalMime, version: requireRepo('./package.json').version, stats: newStats(), recent: [] };
  installRenderer(env);
  return env;
}
export function newStats() {
  return { calls: 0, requests: 0, evaluations: 0, sessions: 0, concurrent: 0, signatures: new Set(), orders: new Set(), ops: {}, responses: {}, outcomes: {}, monitors: {}, samples: [], hangs: 0 };
}

// ------------------------------------------------------------ react elements
export function elementMaker(env, { failP = 0 } = {}) {
  const { React } = env;
  const h = React.createElement;
  const Greeting = ({ name, children }) => h('section', { 'data-name': name, style: { color: 'red', marginTop: 4 } }, `Hello ${name}`, children);
  const Deep = ({ n }) => (n <= 0 ? h('i', null, 'end') : h('div', null, h(Deep, { n: n - 1 })));
  const Upper = (p) => h(React.Fragment, null, h('h1', null, p.t), h('a', { href: p.href }, 'link'));
  const make = (g) => {
    const s = () => g.str({ max: 200 });
    const r = g.int(0, 10);
    switch (r) {
      case 9: return g.tag('just text ');
      case 10: return [h('p', { key: 1 }, s()), g.tag()];
      case 0: return h('p', null, g.tag('hello '));
      case 1: return h('div', { title: s(), className: 'a b' }, s(), h('br'), s());
      case 2: return h(Greeting, { name: s() }, h('p', null, g.tag()));
      case 3: return h('html', null, h('head', null, h('title', null, s())), h('body', null, g.array((i) => h('li', { key: i }, s()), 0, 30, 4)));
      case 4: return h(React.Fragment, null, h('b', null, g.tag()), s(), null, false, 12);
      case 5: return h(Deep, { n: g.int(0, 30) });
      case 6: return h('div', { dangerouslySetInnerHTML: { __html: `<b>${g.tag()}</b>&nbsp;` } });
      case 7: { // resolves only after a few turns
        const n = g.int(1, 6), text = g.tag('slow ');
        const Lazy = React.lazy(async () => { for (let i = 0; i < n; i++) await new Promise((res) => setImmediate(res)); return { default: () => h('p', null, text) }; });
        return h(React.Suspense, { fallback: h('p', null, 'loading') }, h(Lazy));
      }
      default: return h(Upper, { t: g.tag(), href: `https://example.com/${encodeURIComponent(s().toWellFormed())}?a=b&c=d` });
    }
  };
  return (g) => {
    const el = make(g);
    if (typeof el !== 'object') return el;
    const ctl = { delay: g.chance(0.5) ? g.int(0, 6) : 0 };
    if (failP && g.chance(failP)) {
      failing.add(el);
      const reason = g.pick([new Error(g.tag('render ')), new TypeError('x is undefined'), new SyntaxError('Unexpected token'), 'string thrown', undefined, new DOMException('aborted', 'AbortError'), Object.assign(new Error("Cannot find module 'react-dom/server'"), { code: 'ERR_MODULE_NOT_FOUND' })]);
      ctl.fail = { reason, sync: g.chance(0.3) };
    }
    control.set(el, ctl);
    return el;
  };
}
const failing = new WeakSet(), control = new WeakMap();
/** what the bundle's renderer import resolves to: the installed renderer, with scheduled delays and failures */
export function installRenderer(env) {
  globalThis[Symbol.for('verif.render')] = (node, ...rest) => {
    const ctl = node && typeof node === 'object' ? control.get(node) : undefined;
    env.stats.renders = (env.stats.renders ?? 0) + 1;
    if (ctl?.fail?.sync) throw ctl.fail.reason;
    return (async () => {
      for (let i = 0; i < (ctl?.delay ?? 0); i++) await tick();
      if (ctl?.fail) throw ctl.fail.reason;
      return await als.exit(() => env.render(node, ...rest));
    })();
  };
}
const rendered = new WeakMap();
async function renderedHtml(env, el) {
  if (typeof el !== 'object') return env.render(el);
  if (!rendered.has(el)) rendered.set(el, await env.render(el));
  return rendered.get(el);
}

/** fills in what only execution of trusted helpers can tell: rendered html, parsed mime */
export async function prepare(env, kase) {
  if (kase.reacts?.some((e) => typeof e === 'object' && failing.has(e))) kase.renderFails = true;
  const bodies = kase.steps.map((s) => s.body).filter(Boolean);
  if (kase.reacts?.length && !kase.renderFails) {
    for (const b of bodies) for (const e of Array.isArray(b) ? b : [b]) if (e?.html?.$react) e.html = await renderedHtml(env, e.html.$react);
  }
  if (kase.finish === 'forward' && kase.passthrough && !kase.raw.expected) kase.raw.expected = await expectedMime(env, kase.raw);
  return kase;
}
async function expectedMime(env, raw) {
  let p;
  try { p = await env.PostalMime.parse(new Uint8Array(raw.bytes), { attachmentEncoding: 'arraybuffer' }); } catch { return { unparseable: true }; }
  const exp = { text: p.text || undefined, html: p.html || undefined, attachments: p.attachments.map((a) => {
    const o = { content: { $bytes: Buffer.from(a.content).toString('base64') }, content_type: a.mimeType };
    if (a.filename !== null && a.filename !== undefined) o.filename = a.filename;
    const cid = a.contentId?.replace(/^<|>$/g, '');
    if (cid) o.content_id = cid;
    return o;
  }) };
  if (raw.known) exp.known = raw.known;
  return exp;
}

// ------------------------------------------------------------ clients
export function makeConfig(g, env, prof, others = []) {
  const key = others.length && g.chance(0.25) ? g.pick(others).cfg.key : `re_${g.tag('K')}${g.pick(['', '_x', `_${g.int(0, 1e9)}`, '.dot-dash~'])}`;
  const opts = {};
  const cfg = { key, baseUrl: 'https://api.resend.com', userAgent: `resend-node:${env.version}` };
  if (g.chance(prof.baseP ?? 0.4)) { cfg.baseUrl = opts.baseUrl = g.pick([`https://${g.tag('h')}.example.test`, 'http://localhost:3999', 'https://proxy.example.test/resend/v1', `https://api.example.test:8443/${g.tag('p')}`]); }
  if (g.chance(0.3)) { cfg.userAgent = opts.userAgent = g.pick([`app/${g.int(0, 9)}`, g.tag('UA-'), 'resend-mcp:1.2.3', 'x y (z)']); }
  cfg.options = Object.keys(opts).length || g.chance(0.2) ? opts : undefined;
  return cfg;
}

export function resolveMethod(client, name) {
  const parts = name.split('.');
  const m = parts.pop();
  let o = client;
  for (const p of parts) o = o[p];
  return { o, m };
}
export function invoke(client, kase, rec) {
  const { o, m } = resolveMethod(client, kase.opName);
  const p = o[m](...kase.args);
  if (kase.finish !== 'chain') return p;
  return useChain(p, kase.use, rec);
}
export const CHAIN_USES = ['await', 'await', 'publish', 'publish', 'await2', 'then-chain', 'await-publish', 'publish-await', 'publish-pending-await', 'late-publish', 'await3-publish'];
async function useChain(p, use, rec) {
  rec.aux = [];
  const first = (value) => rec.aux.push({ value, first: true });
  switch (use) {
    case 'await': return await p;
    case 'then-chain': return await p.then((x) => x, undefined);
    case 'await2': { const a = await p; rec.aux.push({ value: await p }); return a; }
    case 'publish': return await p.publish();
    case 'await-publish': first(await p); return await p.publish();
    case 'publish-await': { const r = await p.publish(); first(await p); return r; }
    case 'publish-pending-await': { const r = p.publish(); first(await p); const v = await r; first(await p); return v; }
    case 'late-publish': { for (let i = 0; i < 3; i++) await tick(); return await p.publish(); }
    case 'await3-publish': { const [a, b] = await Promise.all([p, p]); first(a); first(b); const r = await p.publish(); return r; }
  }
  throw new Error(use);
}

// ------------------------------------------------------------ cases
export function pickOp(g, prof) {
  return g.pick(prof.opList ?? OPS);
}
export function defaultCtx(env, prof) {
  return { local: 0.12, react: 0.12, makeElement: elementMaker(env, { failP: prof.renderFailP ?? 0.05 }), chainUse: (g) => g.pick(CHAIN_USES), noRaw: 0.1, maxSteps: 40, maxFile: 4000, ...prof.ctx };
}
export async function makeCase(env, seed, prof, ctx, op, over = {}) {
  const g = new G(seed, env.dict);
  g.bulkP = prof.bulkP ?? 0;
  g.pool = poolOf(env, String(seed).replace(/\.[^.]*$/, ''), prof);
  const kase = op.gen(g, { ...ctx, shared: () => shared(env, seed, prof) });
  kase.opName = op.name;
  await prepare(env, kase);
  const planned = genPlan(g, kase, { okP: over.okP ?? prof.okP ?? 0.7, faults: over.faults ?? prof.faults, dlFaults: prof.dlFaults });
  over.adjust?.(planned, g);
  return { kase, planned, seed, op, g, over };
}
/** calls of some sessions are about the same few objects, as those of a user are */
function poolOf(env, base, prof) {
  if (env.pool?.base === base) return env.pool.value;
  const g = new G(`${base}.pool`, env.dict);
  const list = (f) => Array.from({ length: g.pick([1, 1, 2, 3]) }, f);
  const value = g.chance(prof.relatedP ?? 0.25) ? { ids: list(() => g.id()), emails: list(() => g.email()) } : undefined;
  // or the life of one object: what was created is read, changed, listed, removed and made again
  if (value && g.chance(0.3)) Object.assign(value, { ids: value.ids.slice(0, 1), emails: value.emails.slice(0, 1), one: true });
  env.pool = { base, value };
  return value;
}
/** half of the sessions about the same objects do the same two or three things with them over and over */
const few = (g, ops) => (g.bool() ? g.shuffle(ops).slice(0, g.int(2, 3)) : ops);
/** the operations on the same kind of object */
const siblings = (g, op) => { const at = op.name.slice(0, op.name.lastIndexOf('.')); const all = family(op).filter((o) => o.name.slice(0, o.name.lastIndexOf('.')) === at); return all.length > 4 && g.bool() ? [op, ...g.shuffle(all).slice(0, 3)] : all; };
const family = (op) => FAMILIES[op.name.split('.')[0]];
const FAMILIES = {};
for (const o of OPS) (FAMILIES[o.name.split('.')[0]] ??= []).push(o);
function shared(env, seed, prof) {
  const base = String(seed).replace(/\.[^.]*$/, '');
  if (!prof.freshArgs && env.shared?.base === base) return env.shared.value;
  const value = sharedObjects(new G(`${base}.shared`, env.dict));
  if (!prof.freshArgs) env.shared = { base, value };
  return value;
}
/** puts the arguments of a call into the objects an earlier call was given */
function refill(old, kase, keep, deep) {
  const simple = (o) => o && typeof o === 'object' && !Object.isFrozen(o) && [Object.prototype, Array.prototype].includes(Object.getPrototypeOf(o)) && !o.$$typeof && Reflect.ownKeys(o).every((k) => { const d = Object.getOwnPropertyDescriptor(o, k); return typeof k === 'string' && 'value' in d && d.writable && (d.configurable || k === 'length'); });
  const into = (o, n) => {
    if (o === n || !simple(n) || control.has(n)) return n;
    if (!simple(o) || keep.has(o) || Array.isArray(o) !== Array.isArray(n)) o = Array.isArray(n) ? [] : {};
    keep.add(o); // at most once
    if (Array.isArray(o)) { const items = n.map((v, i) => (new Set(n).size === n.length && new Set(o).size === o.length ? into(o[i], v) : into(undefined, v))); o.length = 0; for (const v of items) o.push(v); return o; }
    const inner = deep ? { ...o } : {};
    for (const k of Object.keys(o)) delete o[k];
    for (const k of Object.keys(n)) Object.defineProperty(o, k, { value: into(Object.hasOwn(inner, k) ? inner[k] : undefined, n[k]), writable: true, enumerable: Object.getOwnPropertyDescriptor(n, k).enumerable, configurable: true });
    return o;
  };
  const distinct = new Set(kase.args).size === kase.args.length;
  kase.args = kase.args.map((n, i) => (distinct && i < old.length ? into(old[i], n) : n));
}
/** the same call, made alone by a fresh client of a freshly loaded SDK */
export async function runAlone(env, c, cfg, prof, { nodeEnv } = {}) {
  const again = await makeCase(env, c.seed, prof, defaultCtx(env, prof), c.op, c.over);
  if (c.replan) again.planned = c.replan(again);
  const sdk = await env.freshSdk();
  const world = new World({ rnd: () => 0.5, mode: 'immediate', linger: 3 });
  const saved = monitor.current;
  monitor.current = world;
  const client = new sdk.Resend(cfg.key, cfg.options);
  const rec = startCall(world, { kase: again.kase, client, cfg, plan: planFn(again.g, again.kase, again.planned), invoke });
  rec.planned = again.planned;
  await drive(world, { stallMs: 4000 });
  monitor.current = saved;
  return checkCall(rec);
}
export function planFn(g, kase, planned) {
  return (k) => planned[k] ?? (planned[k] = genResponse(g, { ...kase, okJson: undefined, steps: [] }, k, undefined));
}

const shapeOf = (v, d = 2) => {
  if (v === null) return 'n';
  if (v === undefined) return 'u';
  if (Array.isArray(v)) return `[${v.length > 9 ? (v.length > 99 ? 'C' : 'X') : v.length}${d && v.length ? shapeOf(v[0], d - 1) : ''}]`;
  if (typeof v === 'object') { if (v instanceof Headers) return 'H'; if (Buffer.isBuffer(v)) return 'B'; const k = Object.keys(v); return d ? `{${k.slice(0, 30).map((x) => `${x.length > 20 ? 'long' : x}:${shapeOf(v[x], d - 1)}`).join()}}` : '{}'; }
  if (typeof v === 'string') return v === '' ? 'e' : /^[\w.@ -]*$/.test(v) ? 's' : 'S';
  return (typeof v)[0];
};
export function signature(rec) {
  const o = rec.outcome.kind === 'value' ? (rec.outcome.value?.error ? `E${rec.outcome.value.error?.name === 'application_error' ? 'a' : ''}` : 'D') : rec.outcome.kind;
  const s = `${rec.kase.opName}|${shapeOf(rec.kase.args, 3)}|${rec.requests.map((r) => (r.resp ? r.resp.kind ?? r.resp.status : '')).join()}|${o}|${rec.kase.use ?? ''}`;
  return crypto.createHash('md5').update(s).digest().readUInt32LE(0);
}
const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
export function account(env, rec, prof) {
  const st = env.stats;
  st.calls++; st.requests += rec.requests.length;
  bump(st.ops, rec.kase.opName);
  for (const r of rec.requests) if (r.resp) bump(st.responses, (r.resp.kind ?? `status ${r.resp.status}`).split(':')[0]);
  bump(st.outcomes, rec.outcome.kind === 'value' ? (rec.outcome.value?.error ? 'error value' : 'data value') : rec.outcome.kind);
  const relevant = prof.relevant ? prof.relevant(rec) : true;
  if (relevant) {
    st.evaluations++; st.signatures.add(signature(rec));
    if (st.samples.length < 3 && st.calls % 37 === 1) st.samples.push(sample(rec));
  }
}
export function sample(rec) {
  const cut = (s, n = 260) => (s.length > n ? `${s.slice(0, n)}…` : s);
  return {
    call: cut(`${rec.kase.opName}(${rec.kase.args.map((a) => util.inspect(a, { depth: 3, breakLength: Infinity, maxStringLength: 60, maxArrayLength: 3 })).join(', ')})`),
    requests: rec.requests.map((r) => cut(`${r.method} ${r.url?.href ?? r.rawUrl} body=${r.body?.length ?? 0}B -> ${r.resp ? r.resp.kind ?? r.resp.status : '-'}${r.resp?.status ? ` (${r.resp.status})` : ''}`)),
    outcome: cut(rec.outcome.kind === 'value' ? util.inspect(rec.outcome.value, { depth: 2, breakLength: Infinity, maxStringLength: 60, maxArrayLength: 3 }) : `${rec.outcome.kind}: ${rec.outcome.error?.message ?? rec.outcome.error}`),
  };
}

// ------------------------------------------------------------ sessions
const ENV_NAMES = ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT'];
/** a session of calls; returns the discrepancies found */
export async function runSession(env, g, prof) {
  const ctx = defaultCtx(env, prof);
  const issues = [];
  const st = env.stats;
  st.sessions++;
  const seen = [monitor.unhandled.length, monitor.uncaught.length];
  const savedEnv = process.env.NODE_ENV;
  process.env.NODE_ENV = prof.nodeEnv ? prof.nodeEnv(g) : g.pick(['test', 'production', 'development']);
  const switched = env.switched && g.chance(0.3) ? g.pick(['1', 'true', '*']) : undefined;
  if (switched) {
    const some = g.chance(0.5);
    env.setSwitches(() => (!some || g.bool() ? g.pick([switched, switched, 'resend', 'debug', 'https://switch.example.test', '0', 'en']) : undefined));
    env = { ...env, Resend: g.bool() ? env.switched[switched].Resend : env.Resend };
    bump(env.stats.monitors, 'sessions with further environment variables set');
  }
  const mode = g.chance(prof.randomP ?? 0.35) ? 'random' : 'immediate';
  const wired = env.wire && mode === 'immediate' && g.chance(prof.wireP ?? 0.03);
  const world = new World({ rnd: () => g.f(), mode, linger: 2, wire: wired ? env.wire : null, onEvent: (e) => { for (const f of world.listeners) f(e); } });
  world.listeners = [];
  monitor.current = world;
  const clients = [];
  const nClients = g.chance(prof.multiP ?? 0.3) ? g.int(2, 3) : 1;
  for (let i = 0; i < nClients; i++) {
    if (prof.makeClient) { const r = prof.makeClient(g, env); if (r.issues) issues.push(...r.issues); if (r.client) clients.push(r); continue; }
    const cfg = makeConfig(g, env, prof, clients);
    let client;
    try { client = new env.Resend(cfg.key, cfg.options); } catch (e) { issues.push({ aspect: 'construct', msg: `constructor threw ${e?.message} for ${util.inspect(cfg)}` }); return issues.filter((i) => prof.aspects.has(i.aspect) || prof.aspects.has('*')); }
    clients.push({ cfg, client });
  }
  if (!clients.length) { if (switched) env.setSwitches(() => undefined); prof.endSession?.(); return issues.filter((i) => prof.aspects.has(i.aspect) || prof.aspects.has('*')); }
  world.clients = clients;
  // the world around long-lived clients: time passes, the environment is edited
  let offset = 0;
  const elapse = () => { if (prof.ownClock) return; offset += g.pick([1e3, 61e3, 301e3, 901e3, 3.7e6, 9e7, 7e8]) * (1 + g.f()); setClock({ offset }); };
  const ages = !prof.ownClock && g.chance(0.12);
  const edits = !prof.makeClient && g.chance(0.1);
  let n = prof.calls ? prof.calls(g) : mode === 'random' ? g.int(2, 7) : g.int(1, 5);
  const pending = [];
  const opAt = prof.nextOp ? () => prof.nextOp(g) : () => pickOp(g, prof);
  const base = `${g.int(0, 2 ** 31)}.${g.int(0, 2 ** 31)}`;
  const made = [];
  const stale = new WeakSet(), reuse = mode === 'immediate' && !prof.freshArgs && !prof.keepArgs;
  const related = poolOf(env, base, prof);
  let focus;
  const life = related?.one && mode === 'immediate' && !prof.calls;
  if (life) bump(st.monitors, 'sessions about the life of one object');
  if (life) n = Math.max(n, g.int(4, 9));
  if (related) bump(st.monitors, 'sessions about the same few objects');
  for (let i = 0; i < n; i++) {
    const over = prof.phase?.(g, i) ?? {};
    let c;
    if (made.length && g.chance(prof.repeatP ?? 0.12)) {
      // an earlier call once more: the same argument objects, or equal ones
      const p = g.chance(0.5) ? made[made.length - 1] : g.pick(made.slice(-40));
      if (!prof.freshArgs && !stale.has(p.kase.args) && g.chance(0.5)) {
        const pg = new G(`${base}.r${i}`, env.dict);
        const replan = (x) => { const rg = new G(`${base}.r${i}`, env.dict); const pl = genPlan(rg, x.kase, { okP: over.okP ?? prof.okP ?? 0.7, faults: over.faults ?? prof.faults, dlFaults: prof.dlFaults }); over.adjust?.(pl, rg); return pl; };
        c = { ...p, kase: { ...p.kase }, g: pg, replan };
        c.planned = replan(c);
      } else if (reuse && g.chance(0.5)) {
        // the same argument objects, holding other values by now
        c = await makeCase(env, `${base}.${i}`, prof, ctx, p.op, over);
        c.takeOver = p; stale.add(p.kase.args);
        bump(st.monitors, 'calls reusing argument objects with other values');
      } else c = await makeCase(env, p.seed, prof, ctx, p.op, { ...over });
    } else c = await makeCase(env, `${base}.${i}`, prof, ctx, related && made.length && g.chance(life ? 1 : 0.6) ? g.pick(focus ??= life ? siblings(g, made[0].op) : few(g, family(made[0].op))) : over.op ?? opAt(), over);
    made.push(c);
    c.who = g.pick(clients);
    pending.push(c);
  }
  const start = (c) => {
    if (wired) for (const p of c.planned) p.headers = p.headers?.filter(([k]) => !/^content-(encoding|length)$/.test(k));
    if (wired) { st.wireCalls = (st.wireCalls ?? 0) + 1; for (const p of c.planned) if (p.status >= 300 && p.status < 400 && p.status !== 304) p.status = 400; for (const p of c.planned) if (p.status === 421 || p.status === 407) p.status = 422; if (c.planned[0]?.status === 200 && g.chance(0.1)) c.planned[0].gzip = true; }
    if (ages && g.chance(0.6)) elapse();
    if (edits && g.chance(0.6)) for (const k of ENV_NAMES) if (g.chance(0.5)) { if (g.chance(0.2)) delete process.env[k]; else process.env[k] = k === 'RESEND_BASE_URL' ? `https://${g.tag('env')}.example.test` : g.tag('re_env'); }
    if (c.takeOver) { for (const r of world.recs) judge(r); refill(c.takeOver.kase.args, c.kase, new Set([env.shared?.value.options.opts, env.shared?.value.headers.value]), g.bool()); }
    prof.beforeCall?.(g, c, world);
    const rec = startCall(world, { kase: c.kase, client: c.who.client, cfg: c.who.cfg, plan: planFn(c.g, c.kase, c.planned), invoke: prof.invoke ?? invoke });
    rec.planned = c.planned;
    rec.wire = wired;
    rec.caseObj = c;
    prof.afterCall?.(g, c, rec, world);
    return rec;
  };
  const judge = (rec) => {
    if (rec.judged) return;
    rec.judged = true;
    for (const i of checkCall(rec)) issues.push({ ...i, rec });
    account(env, rec, prof);
    if (prof.check) for (const i of prof.check(rec, g, world) ?? []) issues.push({ ...i, rec });
    rec.checkedCount = rec.requests.length;
    env.recent.push(rec);
    prof.afterJudged?.(rec);
  };
  let ok = true;
  if (mode === 'immediate') {
    for (const c of pending) {
      start(c);
      ok = await drive(world, { stallMs: prof.stallMs });
      if (!ok) break;
      prof.betweenCalls?.(g, c, world);
      if (prof.eager) { judge(world.recs[world.recs.length - 1]); }
    }
  } else {
    st.concurrent++;
    const first = g.chance(0.2) ? pending.length : g.int(1, pending.length);
    for (const c of pending.splice(0, first)) start(c);
    world.pendingStarts = pending.length;
    if (prof.withholdP && g.chance(prof.withholdP)) {
      const share = g.pick([0.1, 0.5, 0.9]), all = world.recs.length + pending.length;
      world.withheld = new Set([...Array(all).keys()].filter(() => g.chance(share)));
      if (g.chance(0.3)) world.withheld = new Set([...Array(all - 1).keys()]);
      world.withholdAfter = g.chance(0.5) ? 0 : g.int(1, 8);
      bump(st.monitors, 'sessions with withheld answers');
    }
    world.beforeRelease = () => { if (pending.length && g.chance(0.4)) { start(pending.shift()); world.pendingStarts = pending.length; } };
    ok = await drive(world, { stallMs: prof.stallMs });
    st.orders.add(crypto.createHash('md5').update(world.order.join(' ')).digest().readUInt32LE(0));
  }
  if (!ok) st.hangs++;
  world.closed = true;
  for (const rec of world.blocked ?? []) issues.push({ aspect: 'blocked', msg: `[${rec.kase.opName}] makes no progress while other calls are unanswered`, rec });
  for (const rec of world.recs) judge(rec);
  if (prof.aspects.has('unhandled')) {
    await tick(); await tick();
    // a render that fails on a chain nobody awaits is the caller's to handle
    const own = !world.recs.some((r) => r.kase.renderFails);
    for (const u of monitor.unhandled.slice(seen[0])) if (u.rec ? !u.rec.kase.renderFails : own) issues.push({ aspect: 'unhandled', msg: `${u.rec ? `[${u.rec.kase.opName}] ` : ''}a rejection nobody handles: ${String(u.reason?.stack ?? u.reason).slice(0, 300)}`, rec: u.rec });
    for (const e of monitor.uncaught.slice(seen[1])) issues.push({ aspect: 'unhandled', msg: `an exception nobody catches: ${String(e?.stack ?? e).slice(0, 300)}` });
  }
  for (const ev of world.strayRequests) issues.push({ aspect: 'count', msg: `request ${ev.method} ${ev.url?.href ?? ev.rawUrl} that belongs to no call` });
  if (prof.checkSession) for (const i of prof.checkSession(world, g) ?? []) issues.push(i);
  if (env.recent.length > 300) for (const i of sweep(env, 150)) issues.push(i);
  setClock();
  if (edits) for (const k of ENV_NAMES) delete process.env[k];
  if (ages) bump(st.monitors, 'sessions with elapsing time');
  if (edits) bump(st.monitors, 'sessions with environment edits');
  prof.endSession?.();
  if (switched) env.setSwitches(() => undefined);
  if (savedEnv === undefined) delete process.env.NODE_ENV; else process.env.NODE_ENV = savedEnv;
  return issues.filter((i) => prof.aspects.has(i.aspect) || prof.aspects.has('*'));
}
/** requests made by a call long after it had settled */
export function sweep(env, n = env.recent.length) {
  const out = [];
  for (const rec of env.recent.splice(0, n)) {
    if (rec.requests.length > rec.checkedCount) out.push({ aspect: 'late', msg: `[${rec.kase.opName}] ${rec.requests.length - rec.checkedCount} further request(s) long after the call had settled`, rec });
  }
  return out;
}
export { G, getOp, OPS, classify, snapshot };
