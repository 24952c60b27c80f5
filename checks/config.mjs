// C23: how a client's key, base URL and user agent are resolved.
import { OPS } from '../lib/catalog.mjs';
import { show } from '../lib/oracle.mjs';
import { runSession } from '../lib/session.mjs';

const NAMES = ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT'];
const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
const setVar = (k, v) => { if (v === undefined) delete process.env[k]; else process.env[k] = v; };
const key = (g) => `re_${g.tag('K')}${g.pick(['', '_x', '.dot-dash~'])}`;
const base = (g) => g.pick([`https://${g.tag('h')}.example.test`, 'http://localhost:3999', `https://proxy.example.test/${g.tag('v')}`, 'https://api.resend.com', `https://127.0.0.1:8443/${g.tag('p')}/v1`]);
const agent = (g) => g.pick([`app/${g.int(0, 9)}`, g.tag('UA-'), 'resend-mcp:1.2.3', 'x y (z)', 'resend-node:0.0.0', `cli/1.0 (${g.headerValue(20)})`]);
let written;
/** the environment as this check left it; the SDK only reads it */
const look = (found, when) => { const now = JSON.stringify(process.env); if (written !== undefined && now !== written) found.push({ aspect: 'config', msg: `the environment changed ${when}` }); written = now; };
function shuffleEnv(g) {
  for (const [k, v] of [[NAMES[0], key], [NAMES[1], base], [NAMES[2], agent]]) {
    const r = g.f();
    if (r < 0.3) continue;
    setVar(k, r < 0.5 ? undefined : r < 0.6 ? '' : v(g));
  }
  written = JSON.stringify(process.env);
}
let keys = [];
function configured(g, env) {
  shuffleEnv(g);
  const e = Object.fromEntries(NAMES.map((k) => [k, process.env[k]]));
  const given = {};
  const kr = g.f();
  const k = kr < 0.15 && keys.length ? g.pick(keys) : kr < 0.55 ? key(g) : kr < 0.9 ? undefined : g.pick(['', undefined]);
  const o = {};
  if (g.chance(0.4)) o.baseUrl = base(g); else if (g.chance(0.2)) o.baseUrl = undefined;
  if (g.chance(0.4)) o.userAgent = g.chance(0.06) ? '' : agent(g); else if (g.chance(0.2)) o.userAgent = undefined;
  if (g.chance(0.3)) Object.freeze(o);
  const options = Object.keys(o).length ? o : g.pick([undefined, {}]);
  if (k) { keys.push(k); if (keys.length > 6) keys.shift(); }
  Object.assign(given, { key: k, options: options && { ...options } });
  const cfg = { key: k || e.RESEND_API_KEY || undefined, baseUrl: o.baseUrl ?? (e.RESEND_BASE_URL || 'https://api.resend.com'), userAgent: o.userAgent ?? (e.RESEND_USER_AGENT || `resend-node:${env.version}`), options };
  let client, error;
  const before = JSON.stringify(process.env);
  try { client = options === undefined && g.bool() ? (k === undefined && g.bool() ? new env.Resend() : new env.Resend(k)) : new env.Resend(k, options); } catch (x) { error = x; }
  const what = `constructor(${show(given.key)}, ${show(given.options)}) with environment ${show(e)}`;
  bump(env.stats.monitors, error ? 'constructions rejected' : 'constructions accepted');
  bump(env.stats.monitors, `key from ${k ? 'argument' : e.RESEND_API_KEY ? 'environment' : 'nowhere'}`);
  bump(env.stats.monitors, `base URL from ${o.baseUrl !== undefined ? 'argument' : e.RESEND_BASE_URL ? 'environment' : 'default'}`);
  bump(env.stats.monitors, `user agent from ${o.userAgent !== undefined ? 'argument' : e.RESEND_USER_AGENT ? 'environment' : 'default'}`);
  const issues = [];
  if (JSON.stringify(process.env) !== before) issues.push({ aspect: 'config', msg: `${what} changed the environment to ${show(Object.fromEntries(NAMES.map((n) => [n, process.env[n]])))}` });
  if (cfg.key === undefined) { if (!error) issues.push({ aspect: 'construct', msg: `${what} accepted without a key` }); else if (!(error instanceof Error)) issues.push({ aspect: 'construct', msg: `${what} threw ${show(error)}` }); return { issues }; }
  if (error) { issues.push({ aspect: 'construct', msg: `${what} threw ${error?.message}` }); return { issues }; }
  // the caller may reuse its options object for the next client
  if (options && !Object.isFrozen(options) && g.chance(0.4)) { options.baseUrl = base(g); options.userAgent = agent(g); }
  for (const [m, w] of [['baseUrl', cfg.baseUrl], ['userAgent', cfg.userAgent]]) if (m in client && client[m] !== w) issues.push({ aspect: 'config', msg: `${what}: client.${m} is ${show(client[m])}, expected ${show(w)}` });
  return { issues, client, cfg };
}

export const C23 = {
  aspects: new Set(['auth', 'ua', 'url', 'path', 'construct', 'config', 'keyLeak']), cases: { quick: 24000, thorough: 500000 }, wire: false,
  rule: 'Two to six clients built from generated combinations of constructor arguments and environment (given, empty, absent), calls of every operation interleaved with environment changes and further constructions before, during and after each call. Non-trivial: a call whose requests were compared with the configuration computed at construction.',
  async run(env, g, index) {
    let n = 0;
    keys = [];
    written = undefined;
    const prof = {
      aspects: this.aspects, okP: 0.6, wireP: 0, randomP: 0.4, renderFailP: 0.02, ctx: { headersP: 0.15, local: 0.03, maxSteps: 5 },
      multiP: 1, makeClient: configured,
      nextOp: (gg) => (n++ === 0 ? OPS[index % OPS.length] : gg.pick(OPS)),
      beforeCall: (gg, c, world) => {
        look(world.found ??= [], 'between calls');
        if (gg.chance(0.5)) shuffleEnv(gg);
        if (gg.chance(0.15) && world.clients.length < 6) { const r = configured(gg, env); if (r.issues.length) (world.found ??= []).push(...r.issues); if (r.client) { world.clients.push(r); c.who = r; } }
        if (gg.chance(0.3)) c.who = gg.pick(world.clients);
      },
      afterCall: (gg, c, rec, world) => {
        if (gg.chance(0.5)) shuffleEnv(gg);
        if (gg.chance(0.3)) world.listeners.push((e) => { if (e.rec === rec && e.type === 'response') shuffleEnv(gg); });
      },
      checkSession: (world) => { look(world.found ??= [], 'by a call'); return world.found; },
      endSession: () => { for (const k of NAMES) delete process.env[k]; },
      relevant: (r) => r.requests.length > 0,
    };
    return runSession(env, g, prof);
  },
};
