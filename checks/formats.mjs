// C26: both published formats, with and without the renderer and `process`.
import { spawn } from 'node:child_process';
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
import process from 'node:process';
import { linkModules, VERIF } from '../lib/build.mjs';
import { OPS } from '../lib/catalog.mjs';
import { account, defaultCtx, invoke, makeCase, makeConfig, planFn } from '../lib/session.mjs';
import { transcript } from '../lib/transcript.mjs';
import { World, drive, monitor, startCall, real } from '../lib/world.mjs';

const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
export function child(args, { timeoutMs = 90000, execArgv = [], env: extra = {}, script = 'lib/variant.mjs' } = {}) {
  return new Promise((res) => {
    const envv = { ...process.env, NODE_ENV: 'test' };
    for (const k of ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT', 'NODE_OPTIONS', 'NODE_CHANNEL_FD', 'NODE_CHANNEL_SERIALIZATION_MODE']) delete envv[k];
    Object.assign(envv, extra);
    const p = spawn(process.execPath, ['--no-warnings', ...execArgv, path.join(VERIF, script), JSON.stringify(args)], { stdio: ['ignore', 'pipe', 'pipe'], env: envv });
    let out = '', err = '', timedOut = false;
    p.stdout.on('data', (d) => { out += d; }); p.stderr.on('data', (d) => { if (err.length < 5000) err += d; });
    const t = real.setTimeout(() => { timedOut = true; p.kill('SIGKILL'); }, timeoutMs);
    p.on('close', (code, signal) => { real.clearTimeout(t); const lines = []; for (const l of out.split('\n')) { try { if (l) lines.push(JSON.parse(l)); } catch {} } res({ code, signal, lines, err, timedOut, at: Date.now() }); });
  });
}
/** the same built files beside differently equipped node_modules */
function layout(env, renderer) {
  const dir = path.join(env.cfg.dir, `layout-${renderer}-${process.pid}`);
  if (!fs.existsSync(dir)) {
    fs.mkdirSync(dir, { recursive: true });
    fs.cpSync(path.dirname(env.cfg.esm), path.join(dir, 'dist'), { recursive: true });
    linkModules(path.join(dir, 'node_modules'), { renderer });
  }
  return { esm: path.join(dir, 'dist', path.basename(env.cfg.esm)), cjs: path.join(dir, 'dist', path.basename(env.cfg.cjs)) };
}

async function runWith(env, sdk, seed, op, prof, g2) {
  const c = await makeCase(env, seed, prof, defaultCtx(env, prof), op);
  const world = new World({ rnd: () => 0.5, mode: 'immediate', linger: 2 });
  monitor.current = world;
  const conf = makeConfig(g2(), env, prof);
  const client = new sdk.Resend(conf.key, conf.options);
  const rec = startCall(world, { kase: c.kase, client, cfg: conf, plan: planFn(c.g, c.kase, c.planned), invoke });
  rec.planned = c.planned;
  if (!await drive(world, { stallMs: 5000 })) env.stats.hangs++;
  return rec;
}

async function variants(env, seeds) {
  const issues = [];
  const add = (msg, detail) => issues.push({ aspect: 'formats', msg, detail });
  const dict = { strings: env.dict.strings.slice(0, 300), numbers: env.dict.numbers, novel: env.dict.novel.slice(0, 60), novelNumbers: env.dict.novelNumbers, regexes: env.dict.regexes, now: env.dict.now };
  const realL = layout(env, 'real'), absent = layout(env, 'absent');
  const plan = [
    ['ESM', { ...realL, format: 'esm', react: 0.5 }], ['CommonJS', { ...realL, format: 'cjs', react: 0.5 }],
    ['ESM without process', { ...realL, format: 'esm', process: 'none' }], ['CommonJS without process', { ...realL, format: 'cjs', process: 'none' }],
    ['ESM without process.env', { ...realL, format: 'esm', process: 'bare' }], ['CommonJS without process.env', { ...realL, format: 'cjs', process: 'bare' }],
    ['ESM without renderer', { ...absent, format: 'esm', react: 0.5 }], ['CommonJS without renderer', { ...absent, format: 'cjs', react: 0.5 }],
    ['ESM, no React content', { ...realL, format: 'esm' }],
    ['ESM without code generation', { ...realL, format: 'esm', react: 0.5 }, { execArgv: ['--disallow-code-generation-from-strings', '--disable-proto=throw', '--no-experimental-global-navigator'] }],
    ['CommonJS without code generation', { ...realL, format: 'cjs', react: 0.5 }, { execArgv: ['--disallow-code-generation-from-strings', '--disable-proto=delete'] }],
    ['ESM without built-ins newer than Node 20', { ...realL, format: 'esm', react: 0.5, old: true }, {}],
    ['CommonJS without built-ins newer than Node 20', { ...realL, format: 'cjs', react: 0.5, old: true }, {}],
    ['ESM with the globals of a browser', { ...realL, format: 'esm', globals: 'browser' }], ['CommonJS with the globals of a browser', { ...realL, format: 'cjs', globals: 'browser' }],
    ['ESM with the globals of a worker', { ...realL, format: 'esm', globals: 'worker' }], ['CommonJS with the globals of a worker', { ...realL, format: 'cjs', globals: 'worker' }],
    ['ESM with the globals of other runtimes', { ...realL, format: 'esm', globals: 'other' }], ['CommonJS with the globals of other runtimes', { ...realL, format: 'cjs', globals: 'other' }],
    ['ESM in another locale', { ...realL, format: 'esm', react: 0.5 }, { env: { LC_ALL: 'tr_TR.UTF-8', LANG: 'tr_TR.UTF-8', TZ: 'Pacific/Apia' } }],
    ['CommonJS in another locale', { ...realL, format: 'cjs', react: 0.5 }, { env: { LC_ALL: 'ar_EG.UTF-8', LANG: 'ar_EG.UTF-8', TZ: 'America/St_Johns' } }],
  ];
  const results = await Promise.all(plan.map(([, p, o]) => child({ ...p, seeds, dict }, o)));
  const by = Object.fromEntries(plan.map(([n], i) => [n, results[i]]));
  const line = (r, t) => r.lines.find((l) => l.t === t);
  const calls = (r) => new Map(r.lines.filter((l) => l.op).map((l) => [`${l.seed}.${l.op}`, l]));
  for (const [name, r] of Object.entries(by)) {
    bump(env.stats.monitors, 'environments started');
    if (r.timedOut) { add(`${name}: a call or the load never finished`); continue; }
    if (line(r, 'fatal')) throw new Error(`${name}: ${line(r, 'fatal').error}`);
    const load = line(r, 'load');
    if (!load) throw new Error(`${name}: no output (${r.code}) ${r.err}`);
    if (load.error) { add(`${name}: loading failed: ${load.error}`); continue; }
    if (!line(r, 'end')) { add(`${name}: the process ended in the middle (${r.code ?? r.signal}, after ${r.lines.at(-1)?.op ?? r.lines.at(-1)?.t}): ${r.err.slice(0, 600)}`); continue; }
    if (line(r, 'api').error) add(`${name}: constructing a client failed: ${line(r, 'api').error}`);
    if (line(r, 'nokey').error !== 'Error') add(`${name}: constructing without a key gave ${JSON.stringify(line(r, 'nokey'))}`);
    if (line(r, 'end').unhandled) add(`${name}: ${line(r, 'end').unhandled} unhandled rejections`);
  }
  if (issues.length) return issues;
  const ref = by.ESM, plain = by['ESM, no React content'];
  const same = (a, b, na, nb, pick) => { if (JSON.stringify(pick(a)) !== JSON.stringify(pick(b))) add(`${na} and ${nb} differ: ${JSON.stringify(pick(a)).slice(0, 500)} vs ${JSON.stringify(pick(b)).slice(0, 500)}`); };
  for (const name of Object.keys(by)) { same(ref, by[name], 'ESM', name, (r) => line(r, 'load').exports); same(ref, by[name], 'ESM', name, (r) => line(r, 'api').api); }
  const compare = (a, b, na, nb) => {
    const A = calls(a), B = calls(b);
    for (const [k, x] of A) {
      const y = B.get(k);
      env.stats.evaluations++; env.stats.calls++; bump(env.stats.monitors, `compared ${nb}`); bump(env.stats.ops, x.op);
      if (!y || x.hash !== y.hash) { add(`${x.op}: ${na} and ${nb} behave differently`, { a: x.full, b: y?.full, message: y?.message ?? y?.construct }); if (issues.length > 3) return; }
    }
  };
  for (const n of ['CommonJS', ...plan.filter((p) => p[2]).map((p) => p[0])]) compare(ref, by[n], 'ESM', n);
  for (const n of plan.filter(([, p, o]) => !o && !p.react && p.process !== undefined || p.globals).map((p) => p[0])) compare(plain, by[n], 'ESM', n);
  for (const n of ['ESM without renderer', 'CommonJS without renderer']) {
    const R = calls(ref);
    for (const [k, x] of calls(by[n])) {
      env.stats.evaluations++; env.stats.calls++; bump(env.stats.ops, x.op);
      if (x.construct) { add(`${n}: ${x.construct}`); continue; }
      if (x.needsRenderer) {
        bump(env.stats.monitors, 'React content without renderer');
        if (x.kind !== 'reject' && x.kind !== 'throw') add(`${x.op}: ${n}, React content gave ${x.kind}`, { full: x.full });
        else if (!/react|render/i.test(x.message ?? '')) add(`${x.op}: ${n}, the error explains nothing: ${x.message}`);
        if (x.requests) add(`${x.op}: ${n}, React content made ${x.requests} requests`);
      } else { bump(env.stats.monitors, `compared ${n}`); const y = R.get(k); if (y.hash !== x.hash) add(`${x.op}: behaves differently ${n}`, { a: y.full, b: x.full }); }
      if (issues.length > 3) break;
    }
  }
  return issues;
}

export const C26 = {
  aspects: new Set(['formats']), scale: 1, cases: { quick: 5000, thorough: 120000 }, wire: false,
  rule: 'Every operation is made through the ESM and the CommonJS build with identical arguments, configuration and responses and the transcripts (requests, outcome, diagnostics) compared; every 300th case starts some twenty processes: both formats with the real renderer, without it, without `process`, with a `process` that has no env, in other locales, without code generation, and without the built-ins newer than the oldest supported Node, each running all operations. Non-trivial: every compared call.',
  async setup(env) { env.cjsSdk = createRequire(env.cfg.cjs)(env.cfg.cjs); },
  async run(env, g, index) {
    if (index % 300 < 1) { const s = [g.tag('s'), g.tag('s')]; const first = await variants(env, s); return first.length ? variants(env, s) : first; } // what is reported has happened twice
    const op = OPS[index % OPS.length];
    const seed = `${g.int(0, 2 ** 31)}.${g.int(0, 2 ** 31)}`;
    const prof = { okP: 0.6, renderFailP: 0.1, ctx: { react: 0.4, headersP: 0.3 } };
    const mode = process.env.NODE_ENV; process.env.NODE_ENV = g.pick(['test', 'production']);
    const { G } = await import('../lib/gen.mjs');
    const g2 = () => new G(`${seed}.cfg`, env.dict);
    env.stats.sessions++;
    const a = await runWith(env, env.sdk, seed, op, prof, g2), b = await runWith(env, env.cjsSdk, seed, op, prof, g2);
    process.env.NODE_ENV = mode;
    account(env, a, {});
    const ta = transcript(a, { logs: true }), tb = transcript(b, { logs: true });
    for (const k of ['requests', 'outcome', 'aux', 'logs']) if (JSON.stringify(ta[k]) !== JSON.stringify(tb[k])) return [{ aspect: 'formats', msg: `[${op.name}] ESM and CommonJS differ in ${k}: ${JSON.stringify(ta[k]).slice(0, 500)} vs ${JSON.stringify(tb[k]).slice(0, 500)}`, rec: a }];
    return [];
  },
};
