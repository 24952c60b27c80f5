import { frozenByUs } from '../lib/oracle.mjs';
import { runAlone, runSession } from '../lib/session.mjs';

/** a check whose cases are sessions judged by the call oracle */
export function sessionCheck(spec) {
  const aspects = new Set([...spec.aspects, 'url-invalid']);
  const prof = { ...spec, aspects };
  return {
    aspects, rule: spec.rule, level: spec.level, cases: spec.cases, wire: spec.wire, assumptions: spec.assumptions ?? [], minEvaluations: spec.minEvaluations,
    async run(env, g, index) {
      const p = { ...prof };
      if (spec.cycle) { let n = 0; p.nextOp = (gg) => (n++ === 0 ? spec.cycle[index % spec.cycle.length] : gg.pick(spec.cycle)); }
      const issues = await runSession(env, g, p);
      return spec.only ? issues.filter((i) => !i.rec || spec.only(i.rec)) : issues;
    },
  };
}

/** keeps only discrepancies that do not occur when the same call is made alone by fresh code */
export async function notAlone(env, issues, prof) {
  const out = [];
  for (const i of issues) {
    if (!i.rec?.caseObj) { out.push(i); continue; }
    if (out.length >= 2) break;
    const alone = await runAlone(env, i.rec.caseObj, i.rec.cfg, prof);
    if (!alone.some((x) => x.aspect === i.aspect)) out.push(i);
  }
  return out;
}

/** reassigns fields of everything the caller passed in */
export function mutateArgs(g, kase) {
  const junk = (v) => {
    if (g.chance(0.12)) return g.pick([undefined, null, '', 0, false, [], {}]);
    if (Array.isArray(v)) return [g.tag('late')];
    if (typeof v === 'boolean') return !v;
    if (typeof v === 'number') return v + 1;
    if (typeof v === 'string') return g.tag('late');
    return g.pick([{ late: g.tag() }, g.tag('late')]);
  };
  const object = (o, extra) => {
    if (!o || typeof o !== 'object' || o instanceof Headers || Object.isFrozen(o)) return;
    for (const k of Object.keys(o)) {
      if (!g.chance(0.7)) continue;
      if (g.chance(0.15)) delete o[k];
      else if (k === 'headers' && extra === 'options') o.headers = g.pick([{ 'x-late': g.tag('late') }, new Headers({ 'x-late': 'late' }), undefined]);
      else if (k === 'batchValidation') o.batchValidation = o.batchValidation === 'permissive' ? 'strict' : 'permissive';
      else o[k] = junk(o[k]);
    }
    const add = extra === 'options' ? ['headers', 'idempotencyKey', 'batchValidation'] : ['html', 'text', 'react', 'headers', 'replyTo', 'subject', 'tags', 'attachments', 'scheduledAt', 'topicId', 'email', 'id', 'audienceId', 'segments', 'topics', 'limit', 'after', 'status', 'name', 'passthrough', 'columnMap', 'onConflict', 'fallbackValue'];
    for (let n = g.int(0, 3); n > 0; n--) { const k = g.pick(add); if (!(k in o)) o[k] = k === 'headers' ? { 'x-late': g.tag('late') } : k === 'batchValidation' ? 'permissive' : g.tag('late'); }
  };
  kase.args.forEach((a, i) => {
    if (Array.isArray(a)) {
      for (const e of new Set(a)) if (g.chance(0.8)) object(e);
      const w = g.int(0, 5);
      if (w === 0) a.push({ from: 'late@x', to: 'late@x', subject: 'late', text: 'late' }); else if (w === 1) a.pop(); else if (w === 2) a.reverse(); else if (w === 3 && a.length) a[g.int(0, a.length - 1)] = { from: 'late@x', to: 'late@x', subject: 'late', text: 'late' };
    } else object(a, i > 0 && i === kase.args.length - 1 && (kase.opName.includes('create') || kase.opName.includes('send') || kase.opName.endsWith('forward') || /^(post|get|put|patch|delete)$/.test(kase.opName)) ? 'options' : undefined);
  });
}

export function deepFreeze(v, seen = new Set()) {
  if (v === null || typeof v !== 'object' || seen.has(v)) return v;
  seen.add(v);
  if (ArrayBuffer.isView(v) || v instanceof Headers || v instanceof Blob || v.$$typeof) return v;
  if (!Object.isFrozen(v)) frozenByUs.add(v);
  Object.freeze(v);
  for (const k of Reflect.ownKeys(v)) { const d = Object.getOwnPropertyDescriptor(v, k); if ('value' in d) deepFreeze(d.value, seen); }
  return v;
}
