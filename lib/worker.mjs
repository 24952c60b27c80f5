// One worker process: runs its share of a check's cases against the built SDK.
import { installMonitors, monitor, real } from './world.mjs';
import { makeEnv, newStats, sweep, G } from './session.mjs';

installMonitors();
const cfg = await new Promise((res) => process.once('message', res));
const send = (m) => new Promise((ok) => process.send(m, ok));
async function main() {
  const { CHECKS } = await import('../checks/index.mjs');
  const check = CHECKS[cfg.id];
  const sdk = await import(cfg.esm);
  const env = await makeEnv(sdk, cfg.dict);
  env.cfg = cfg; env.tier = cfg.tier; env.worker = cfg.worker;
  env.freshSdk = async () => import(`${cfg.esm}?fresh=${Math.random()}`);
  env.setSwitches = (f) => { for (const k of cfg.dict.variables) { const v = f(k); if (v === undefined) delete process.env[k]; else process.env[k] = v; } };
  if (check.wire !== false) { try { const { startWire } = await import('./wire.mjs'); env.wire = await startWire(); } catch { env.wire = null; } }
  if (cfg.dict.variables?.length) { // variables only this source tree mentions: another instance is loaded with them set
    env.switched = {};
    for (const on of ['1', 'true', '*']) { env.setSwitches(() => on); env.switched[on] = await env.freshSdk(); }
    env.setSwitches(() => undefined);
  }
  const deadline = performance.now() + cfg.wallMs;
  let found = 0, done = 0, capped = false;
  const report = async (issues, index) => {
    for (const i of issues.slice(0, 3)) { await send({ t: 'issue', index, aspect: i.aspect, msg: i.msg, known: i.known, detail: i.rec ? check.describe?.(i.rec) ?? defaultDescribe(i.rec) : i.detail }); }
  };
  if (check.setup) await check.setup(env);
  for (let i = cfg.from + cfg.worker; i < cfg.to; i += cfg.workers) {
    if (performance.now() > deadline) { capped = true; break; }
    const g = new G(`${cfg.seed}:${cfg.id}:${cfg.tier}:${i}`, cfg.dict);
    env.dict.now = cfg.dict.now = Date.now(); // what a case derives from the time it derives from this one
    const issues = await check.run(env, g, i);
    done++;
    if (issues.length) { await report(issues, i); if (++found >= 2) break; }
    if (env.stats.hangs >= 3) break;
  }
  await new Promise((r) => real.setTimeout(r, 30));
  if (check.finish) { const x = await check.finish(env); if (x?.length) await report(x, cfg.from + cfg.worker); }
  const late = sweep(env).filter((i) => check.aspects?.has(i.aspect));
  if (late.length) await report(late, cfg.from + cfg.worker);
  env.wire?.close();
  const s = env.stats;
  await send({ t: 'done', done, capped, stats: { ...s, signatures: [...s.signatures], orders: [...s.orders], wirePassed: env.wire?.passed ?? 0, unhandled: monitor.unhandled.length, uncaught: monitor.uncaught.length } });
}
import util from 'node:util';
function defaultDescribe(rec) {
  const show = (v) => util.inspect(v, { depth: 8, breakLength: 120, maxStringLength: 2000, maxArrayLength: 50 });
  return {
    op: rec.kase.opName, args: show(rec.kase.args), nodeEnv: rec.nodeEnv,
    responses: (rec.planned ?? []).map((p) => show({ ...p, body: Buffer.isBuffer(p.body) ? p.body.toString('latin1') : p.body })),
    requests: rec.requests.map((r) => ({ method: r.method, url: r.url?.href ?? r.rawUrl, headers: r.headers, body: r.body?.toString('utf8').slice(0, 3000), late: !!r.late })),
    outcome: show(rec.outcome), logs: rec.logs.map((l) => `${l.via} ${show(l.args)}`),
  };
}
main().then(() => process.exit(0), async (e) => { await send({ t: 'fatal', error: String(e?.stack ?? e) }); process.exit(3); });
