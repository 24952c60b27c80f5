// Properties about several calls, argument objects and time: C10, C11, C12, C24, C25.
import { OPS, getOp } from '../lib/catalog.mjs';
import { checkLogs, show, snapshot } from '../lib/oracle.mjs';
import { runSession } from '../lib/session.mjs';
import { setClock, sleep } from '../lib/world.mjs';
import { deepFreeze, mutateArgs, notAlone } from './common.mjs';

const ALL = new Set(['*']);
const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
const N = (names) => names.map((n) => getOp(n));
const SLOW = N(['emails.send', 'emails.create', 'batch.send', 'batch.create', 'broadcasts.create', 'broadcasts.update', 'templates.create', 'emails.receiving.forward', 'templates.duplicate']);

export const C10 = {
  aspects: ALL, cases: { quick: 13000, thorough: 180000 },
  rule: 'Sessions of 2 to 60 (rarely up to 300) overlapping calls on one to three clients, identical and different, with the scheduler choosing the order in which requests, response bodies and renders complete. A discrepancy counts only if the same call made alone has none. Non-trivial: a call that overlapped others and was judged on all aspects.',
  async run(env, g) {
    const focus = g.chance(0.4) ? g.array(() => g.pick(OPS), 1, 3, 2) : null;
    const prof = {
      aspects: ALL, randomP: 1, multiP: 0.6, repeatP: 0.3, okP: g.pick([0.3, 0.7, 0.9]), wireP: 0, renderFailP: 0.1, stallMs: 8000, withholdP: 0.25,
      calls: () => (g.chance(0.004) ? g.int(100, 300) : g.chance(0.08) ? g.size(15, 60, 30) : g.size(2, 60, 8, { hard: 600 })), nextOp: (gg) => (focus && gg.chance(0.8) ? gg.pick(focus) : gg.chance(0.35) ? gg.pick(SLOW) : gg.pick(OPS)),
      ctx: { react: 0.35, headersP: 0.35, local: 0.06, idemP: 0.5, maxSteps: 12, batchSize: (x) => x.size(0, 30, 4) },
    };
    return notAlone(env, await runSession(env, g, prof), prof);
  },
};

export const C25 = {
  aspects: ALL, cases: { quick: 2400, thorough: 30000 },
  rule: 'Histories of 20 to 700 calls, a few of up to 5200, on one to three clients in phases (one operation repeated, rate limiting, outages, bad bodies, recovery), with repeated identical calls, results and arguments scrambled by the caller afterwards and clock jumps in between. A discrepancy counts only if the same call made alone by fresh code has none. Non-trivial: a call with a history.',
  async run(env, g, index) {
    let phase = null, left = 0;
    // a few very long histories, and some of the lengths the changed code mentions
    const lengths = (env.dict.novelNumbers ?? []).filter((n) => Number.isInteger(n) && n > 60 && n <= 20000);
    const long = index % 600 === 7 ? g.pick([1100, 2100, 5200]) : lengths.length && g.chance(Math.min(0.05, 40 / Math.max(...lengths))) ? g.pick(lengths) + g.int(1, 30) : 0;
    const longOp = g.chance(0.6) ? (g.chance(0.5) ? getOp('emails.send') : g.pick(OPS)) : null;
    const newPhase = () => {
      left = g.size(1, 120, 14);
      const r = g.f();
      const o = {};
      if (r < 0.2) { o.okP = 0; o.faults = ['net']; } else if (r < 0.4) {
        o.okP = 0; o.faults = ['api-error']; const status = g.pick([429, 429, 429, 500, 503, 401, 403, 404, 422, 409]);
        o.adjust = (pl) => { for (const p of pl) if (p.kind === 'api-error') p.status = status; };
      } else if (r < 0.5) { o.okP = 0; o.faults = ['junk-error', 'bad-json-2xx', 'stream-error-2xx', 'stream-error-err']; } else if (r < 0.75) o.okP = 1; else o.okP = 0.6;
      const op = g.chance(0.45) ? g.pick(OPS) : null, few = !op && g.chance(0.5) ? [g.pick(OPS), g.pick(OPS), g.pick(OPS)] : null;
      phase = () => ({ ...o, op: (long && longOp) || (op ?? (few ? g.pick(few) : g.pick(OPS))) });
    };
    const prof = {
      aspects: ALL, randomP: long ? 0 : 0.06, multiP: long ? 0 : 0.4, repeatP: g.pick([0, 0.15, 0.5]), wireP: 0, renderFailP: 0.1, stallMs: 8000,
      calls: () => (long ? long : g.chance(0.1) ? g.int(200, 700) : g.int(20, 70)),
      phase: () => { if (left-- <= 0) newPhase(); return phase(); },
      ctx: { react: long ? 0.01 : 0.1, headersP: 0.3, local: long ? 0.01 : 0.08, maxSteps: 8, maxFile: 500, batchSize: (x) => x.size(0, 20, 3) },
      betweenCalls: (gg, c, world) => {
        if (gg.chance(0.04)) setClock({ offset: gg.pick([1000, 5000, 60000, 3600e3, 86400e3, 30 * 86400e3, -3600e3]) + gg.int(0, 1000) });
        const rec = world.recs[world.recs.length - 1];
        if (gg.chance(0.25)) pendingScramble.push(rec);
      },
    };
    const pendingScramble = [];
    // results are judged at once here, because the caller is about to scramble them
    prof.eager = true;
    prof.afterJudged = (rec) => { if (pendingScramble.includes(rec)) scramble(g, rec.outcome.value); };
    return notAlone(env, await runSession(env, g, prof), prof);
  },
};
/** a caller misusing the result it was given */
function scramble(g, v, depth = 4) {
  if (!v || typeof v !== 'object' || depth < 0 || Object.isFrozen(v)) return;
  for (const k of Object.keys(v)) { scramble(g, v[k], depth - 1); try { if (g.chance(0.5)) v[k] = 'scrambled'; else if (g.chance(0.3)) delete v[k]; } catch {} }
  try { v.scrambled = true; if (Array.isArray(v)) v.push('scrambled'); } catch {}
}

export const C11 = {
  aspects: new Set(['mutated', 'frozen']), cases: { quick: 24000, thorough: 400000 },
  rule: 'Every operation in turn under success, failure and rejection; a structural snapshot of all argument objects (properties, order, descriptors, bytes, header collections) is compared after the call was made, at every request and response, and when it settled; a third of the calls get deeply frozen arguments. Non-trivial: a call with at least one object argument.',
  async run(env, g, index) {
    let n = 0;
    const recs = [];
    const prof = {
      aspects: ALL, okP: 0.55, renderFailP: 0.15, repeatP: 0.1, keepArgs: true, wireP: 0, ctx: { headersP: 0.5, react: 0.25, idemP: 0.5, local: 0.12, batchSize: (x) => x.size(0, 120, 4) },
      nextOp: (gg) => (n++ === 0 ? OPS[index % OPS.length] : gg.chance(0.4) ? gg.pick(SLOW) : gg.pick(OPS)),
      beforeCall: (gg, c) => { if (gg.chance(0.33)) { deepFreeze(c.kase.args); c.frozen = true; } c.before = snapshot(c.kase.args); },
      afterCall: (gg, c, rec, world) => {
        const at = (when) => { bump(env.stats.monitors, 'argument snapshots compared'); if (!rec.mutated) { const now = snapshot(c.kase.args); if (now !== c.before) rec.mutated = { when, now }; } };
        rec.frozen = c.frozen; rec.before = c.before; rec.at = at; recs.push(rec);
        at('right after the call was made');
        world.listeners.push((e) => { if (e.rec === rec && e.type !== 'sent') at(`at ${e.type}`); });
      },
      check: (rec) => {
        rec.at('after the call had settled');
        const out = [];
        if (rec.mutated) out.push({ aspect: 'mutated', msg: `[${rec.kase.opName}] arguments changed ${rec.mutated.when}: ${firstDiff(rec.before, rec.mutated.now)}` });
        if (rec.frozen && ['throw', 'reject'].includes(rec.outcome.kind) && rec.outcome.error instanceof TypeError && /read.only|not extensible|frozen|Cannot (assign|delete|define|add)/i.test(rec.outcome.error.message)) out.push({ aspect: 'frozen', msg: `[${rec.kase.opName}] frozen arguments: ${rec.outcome.error.message}` });
        return out;
      },
      relevant: (r) => r.kase.args.some((a) => a && typeof a === 'object'),
    };
    const issues = await runSession(env, g, prof);
    const own = issues.filter((i) => this.aspects.has(i.aspect));
    if (g.chance(0.12)) {
      // nor are they changed afterwards
      await sleep(4);
      for (const rec of recs) {
        if (rec.mutated) continue;
        rec.at('some time after the call had settled');
        if (rec.mutated) own.push({ aspect: 'mutated', msg: `[${rec.kase.opName}] arguments changed ${rec.mutated.when}: ${firstDiff(rec.before, rec.mutated.now)}`, rec });
      }
    }
    // frozen arguments are taken like ordinary ones: whatever else goes wrong with them goes wrong without the freezing, too
    const others = issues.filter((i) => !this.aspects.has(i.aspect) && i.rec?.frozen);
    for (const i of others.length ? await notAlone(env, others, prof) : []) own.push({ ...i, aspect: 'frozen', msg: `only with frozen arguments: ${i.msg}` });
    return own;
  },
};
const firstDiff = (a, b) => { let i = 0; while (i < a.length && a[i] === b[i]) i++; return `…${show(a.slice(Math.max(0, i - 40), i + 80))} became …${show(b.slice(Math.max(0, i - 40), i + 80))}`; };

const REQ = new Set(['method', 'url', 'path', 'query', 'body', 'form', 'mime', 'batchCount', 'batchMode', 'ct', 'auth', 'ua', 'customHeader', 'leakHeader', 'idem', 'count', 'outcomeKind', 'reject', 'local']);
export const C12 = {
  aspects: REQ, cases: { quick: 20000, thorough: 350000 },
  rule: 'Calls (half of them ones that render or fetch before sending) whose payload, batched emails and request options the caller reassigns right after the call, a few turns later, at each request and at each response. A discrepancy counts only if the same call without reassignment has none. Non-trivial: a call whose arguments were reassigned before it settled and that made a request.',
  async run(env, g, index) {
    let n = 0;
    const prof = {
      aspects: REQ, freshArgs: true, okP: 0.85, renderFailP: 0.05, wireP: 0, randomP: 0.5, ctx: { headersP: 0.45, react: 0.55, idemP: 0.6, local: 0.03, noRaw: 0.02, batchSize: (x) => x.size(0, 12, 4) },
      nextOp: (gg) => (n++ === 0 ? OPS[index % OPS.length] : gg.chance(0.6) ? gg.pick(SLOW) : gg.pick(OPS)),
      afterCall: (gg, c, rec, world) => {
        const mut = () => { if (rec.settled) return; rec.reassigned = true; bump(env.stats.monitors, 'reassignments'); mutateArgs(gg, c.kase); };
        if (gg.chance(0.45)) mut();
        if (gg.chance(0.5)) { let turns = gg.int(1, 30); const again = () => { if (--turns <= 0) mut(); else queueMicrotask(again); }; queueMicrotask(again); }
        if (gg.chance(0.35)) { let turns = gg.int(1, 8); const again = () => { if (--turns <= 0) mut(); else setImmediate(again); }; setImmediate(again); }
        if (gg.chance(0.5)) world.listeners.push((e) => { if (e.rec === rec && ['request', 'response'].includes(e.type) && gg.chance(0.5)) mut(); });
      },
      relevant: (r) => r.reassigned && r.requests.length > 0,
    };
    return notAlone(env, await runSession(env, g, prof), prof);
  },
};

export const C24 = {
  aspects: new Set(['logs']), cases: { quick: 24000, thorough: 400000 },
  rule: 'Every operation in turn under all fault families with NODE_ENV production, test, development, unset or other, in part switched between the call and its failure; everything written to the console or the standard streams from inside a call is attributed to it and compared with its failed API requests. Non-trivial: a call that had a failed request, or ran in production.',
  async run(env, g, index) {
    let n = 0;
    const modes = ['production', 'production', 'test', 'development', undefined, 'staging', '', 'Production', 'prod'];
    const setMode = (m) => { if (m === undefined) delete process.env.NODE_ENV; else process.env.NODE_ENV = m; };
    const prof = {
      aspects: this.aspects, okP: 0.45, wireP: 0.05, repeatP: 0.2, renderFailP: 0.1, ctx: { local: 0.12, react: 0.1 },
      nextOp: (gg) => (n++ === 0 ? OPS[index % OPS.length] : gg.pick(OPS)),
      nodeEnv: () => 'test',
      randomP: 0.3,
      beforeCall: (gg, c, world) => {
        if (world.mode === 'random') { if (!world.nodeMode) { world.nodeMode = { m: gg.pick(modes) }; setMode(world.nodeMode.m); } c.modeAt = world.nodeMode.m; return; }
        const before = gg.pick(modes); setMode(before); c.modeAt = before;
      },
      afterCall: (gg, c, rec, world) => {
        if (world.mode !== 'immediate' || !gg.chance(0.4)) return;
        const during = gg.pick(modes), after = gg.pick(modes);
        // switched when the request leaves, long before it can fail
        if (c.kase.steps.length === 1) {
          let first = true;
          const f = () => { if (first) { first = false; c.modeAt = during; setMode(during); bump(env.stats.monitors, 'mode switched in flight'); } };
          if (rec.requests.length) f(); else world.listeners.push((e) => { if (e.rec === rec && e.type === 'sent') f(); });
        }
        world.listeners.push((e) => { if (e.rec === rec && e.type === 'settled') setMode(after); });
      },
      check: (rec) => { bump(env.stats.monitors, 'log lines attributed', rec.logs.length); return checkLogs(rec, rec.caseObj.modeAt); },
      checkSession: (world) => world.strayLogs.filter((l) => !/^Warning:|React|key/i.test(String(l.args[0]))).map((l) => ({ aspect: 'logs', msg: `unattributed output via ${l.via}: ${show(l.args)}` })),
      relevant: (r) => r.caseObj.modeAt === 'production' || r.requests.some((q) => q.resp && ('net' in q.resp || !(q.resp.status >= 200 && q.resp.status < 300) || q.resp.kind !== 'ok')),
    };
    return runSession(env, g, prof);
  },
};
