// C17: webhook verification against an independent HMAC oracle under a controlled clock.
import crypto from 'node:crypto';
import util from 'node:util';
import { diff, show } from '../lib/oracle.mjs';
import { OPS, getOp } from '../lib/catalog.mjs';
import { runSession } from '../lib/session.mjs';
import { World, als, monitor, setClock, tick } from '../lib/world.mjs';

const sign = (key, id, ts, payload) => crypto.createHmac('sha256', key).update(`${id}.${ts}.${payload}`, 'utf8').digest('base64');
const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
const hash = (s) => crypto.createHash('md5').update(s).digest().readUInt32LE(0);

function secretOf(g) {
  const n = g.size(1, 80, 32);
  const key = Buffer.alloc(n); for (let i = 0; i < n; i++) key[i] = g.int(0, 255);
  const b64 = key.toString('base64');
  return { key, secret: g.chance(0.75) ? `whsec_${b64}` : b64.startsWith('whsec_') ? `whsec_${b64}` : b64 };
}
function payloadOf(g) {
  const o = { type: g.pick(['email.sent', 'email.delivered', 'contact.created', 'email.received', g.tag('ev')]), created_at: '2026-02-22T23:41:12.126Z', data: g.jsonObject(3) };
  const r = g.f();
  if (r < 0.6) return JSON.stringify(o);
  if (r < 0.7) return JSON.stringify(o, null, 2);
  if (r < 0.78) return `${JSON.stringify(o)}\n`;
  if (r < 0.84) return ` ${JSON.stringify(o)} `;
  if (r < 0.9) return JSON.stringify(g.json(2));
  return JSON.stringify({ ...o, big: 'x'.repeat(g.size(0, 20000, 200, { hard: 200000 })) });
}
/** what a careless reader might do to a text before looking at its signature */
const TIDY = [
  ['\ufeff', (t) => t.replace(/^\ufeff/, '')], [' ', (t) => t.trim()], ['\n', (t) => t.trimEnd()], ['\r\n', (t) => t.replace(/\r\n/g, '\n')], ['\0', (t) => t.split('\0')[0]], ['\u200b', (t) => t.replace(/\u200b/g, '')], ['e\u0301', (t) => t.normalize('NFC')], ['\u00e9', (t) => t.normalize('NFD')], ['A', (t) => t.toLowerCase()], ['a', (t) => t.toUpperCase()], ['%41', (t) => { try { return decodeURIComponent(t); } catch { return t; } }], ['\ud800', (t) => t.toWellFormed()], ['\u00ff', (t) => Buffer.from(t, 'latin1').toString('latin1') + ' '], ['"', (t) => t.replace(/"$/, '')], ['.', (t) => t.replace(/\./g, '')], ['\u2028', (t) => t.replace(/\u2028/g, '\\u2028')], ['\ufffd', (t) => t.replace(/\ufffd/g, '?')], ['+', (t) => t.replace(/\+/g, ' ')],
];
/** [as received, as signed], which differ */
function tidied(g, text) {
  for (let i = 0; i < 10; i++) {
    const [mark, tidy] = g.pick(TIDY), at = g.pick([0, 0, text.length, text.length, g.int(0, text.length)]);
    const received = text.slice(0, at) + mark + text.slice(at), signed = tidy(received);
    if (Buffer.compare(Buffer.from(signed), Buffer.from(received))) return [received, signed];
  }
  return [`${text} `, text];
}
const FOREIGN = (g) => g.pick([`v1a,${crypto.randomBytes ? Buffer.from(g.tag()).toString('base64') : ''}`, `v2,${Buffer.from(g.tag('xxxxxxxxxxxxxxxxxxxxxxxx')).toString('base64')}`, 'v1', 'v1,', ',', 'garbage', `v0,${g.tag()}`, '']);

export const C17 = {
  aspects: new Set(['webhook', 'count', 'late']), wire: false, cases: { quick: 30000, thorough: 1500000 }, minEvaluations: 2000,
  rule: 'Messages with generated ids, payload texts, secrets and signature lists are verified, each authentic message also in altered variants (payload, id, timestamp, signature, secret, version, freshness at every boundary of the tolerance, missing headers), in random order on shared and separate clients, with a frozen clock; acceptance must equal an independent HMAC decision. Distinct: kind of alteration, sizes and decision.',
  assumptions: ['authentic messages carry JSON payloads and decimal integer timestamps; textual variants of the same number and text after a second comma of a signature are not judged'],
  async run(env, g, index) {
    if (index % 5 === 0) return amongOthers(env, g);
    const issues = [];
    const st = env.stats;
    st.sessions++;
    const world = new World({ rnd: () => 0.5 });
    monitor.current = world;
    // what a verification does besides deciding
    const done = { index: 0, kase: { opName: 'webhooks.verify' }, requests: [], logs: [], timers: [], settled: true, plan: () => ({ net: new TypeError('fetch failed') }) };
    world.recs.push(done);
    const clients = g.array((i) => new env.Resend(`re_${g.tag()}${i}`), 1, 3, 1);
    const n = g.int(6, 16);
    const shared = secretOf(g);
    const history = [];
    for (let i = 0; i < n; i++) {
      const now = g.int(1_600_000_000, 2_100_000_000);
      const { key, secret } = g.chance(0.6) ? shared : secretOf(g);
      let m;
      if (history.length && g.chance(0.3)) m = { ...g.pick(history) };
      else {
        const id = g.chance(0.5) ? `msg_${g.tag()}` : g.nstr({ max: 200 }), ts = now, payload = payloadOf(g);
        m = { id, ts, payload, key, secret, sig: sign(key, id, ts, payload) };
        history.push(m);
      }
      // the clock at the moment of verification
      const tol = [-301, -300, -299, -1, 0, 1, 299, 300, 301, 600, -600, 86400, -86400, 3600, -3600];
      const off = g.chance(0.55) ? g.int(-290, 290) : g.chance(0.7) ? g.pick(tol) : g.num() | 0;
      const ms = g.pick([0, 0, 1, 500, 999]);
      setClock({ at: (m.ts + off) * 1000 + ms });
      const at = m.ts + off;
      const c = { id: m.id, ts: String(m.ts), payload: m.payload, secret: m.secret, sigs: [`v1,${m.sig}`] };
      const before = g.int(0, 2) === 0 ? g.array(() => FOREIGN(g), 1, 4, 1) : [];
      const after = g.int(0, 2) === 0 ? g.array(() => FOREIGN(g), 1, 4, 1) : [];
      let kind = 'authentic', authentic = true;
      if (g.chance(0.55)) {
        kind = g.pick(['payload', 'payload', 'id', 'ts', 'sig', 'secret', 'version', 'missing', 'empty', 'truncated', 'case', 'append', 'otherSecretList', 'swap', 'whitespace', 'normalise', 'tidied', 'tidied', 'times', 'times']);
        authentic = false;
        const flip = (s) => { const k = g.int(0, s.length - 1); const ch = s.charCodeAt(k); return s.slice(0, k) + String.fromCharCode(ch === 97 ? 98 : 97) + s.slice(k + 1); };
        switch (kind) {
          case 'payload': c.payload = m.payload.length ? flip(m.payload) : 'x'; break;
          case 'tidied': {
            const id = g.chance(0.25);
            const [received, signed] = tidied(g, id ? m.id : m.payload);
            if (id) c.id = received; else c.payload = received;
            c.sigs = [`v1,${sign(m.key, id ? signed : m.id, m.ts, id ? m.payload : signed)}`];
            break;
          }
          // authentic, but of another time (or in another unit)
          case 'times': {
            const t = g.pick([m.ts * 1000, m.ts * 1000 + g.int(0, 999), m.ts * 1e6, Math.trunc(m.ts / 1000), Math.trunc(m.ts / 60), 0, 1, -m.ts, m.ts + 2 ** 31, m.ts + 2 ** 32, m.ts % 2 ** 16, m.ts + 3600 * g.int(-14, 14), m.ts + 86400 * g.int(-400, 400), 9999999999, 99999999999, 2 ** 53 - 1, m.ts + g.pick([-301, 301, -900, 900]), m.ts + g.num() * 60 | 0]);
            c.ts = String(t);
            c.sigs = [`v1,${sign(m.key, m.id, c.ts, m.payload)}`];
            break;
          }
          case 'whitespace': c.payload = g.pick([`${m.payload} `, ` ${m.payload}`, m.payload.trim() === m.payload ? `${m.payload}\n` : m.payload.trim()]); break;
          case 'normalise': { let v = m.payload; try { const p = JSON.parse(m.payload); v = g.bool() ? JSON.stringify(p, null, 1) : JSON.stringify(p); } catch {} c.payload = v; break; }
          case 'id': c.id = g.bool() ? flip(m.id) : `${m.id}x`; break;
          case 'ts': c.ts = String(m.ts + g.pick([1, -1, 10, -60])); break;
          case 'sig': c.sigs = [`v1,${flip(m.sig)}`]; break;
          case 'secret': { const o = secretOf(g); c.secret = o.secret; break; }
          case 'version': c.sigs = [g.pick([`v1a,${m.sig}`, `v2,${m.sig}`, `V1,${m.sig}`, `v11,${m.sig}`, `v,${m.sig}`, `1,${m.sig}`, m.sig, `v1:${m.sig}`, `v1 ,${m.sig}`, `,${m.sig}`])]; break;
          case 'missing': c.drop = g.pick(['id', 'timestamp', 'signature']); break;
          case 'empty': c.blank = g.pick(['id', 'timestamp', 'signature']); break;
          case 'truncated': c.sigs = [`v1,${m.sig.slice(0, g.int(0, m.sig.length - 1))}`]; break;
          case 'append': c.sigs = [`v1,${m.sig}${g.pick(['=', 'A', m.sig])}`]; break;
          case 'case': { const u = g.bool() ? m.sig.toUpperCase() : m.sig.toLowerCase(); if (u === m.sig) authentic = true; c.sigs = [`v1,${u}`]; break; }
          case 'otherSecretList': { const o = secretOf(g); c.sigs = [`v1,${sign(o.key, m.id, m.ts, m.payload)}`, `v1,${sign(m.key, m.id, m.ts + 1, m.payload)}`, `v1,${sign(m.key, `${m.id}x`, m.ts, m.payload)}`]; break; }
          case 'swap': c.sigs = [`v1,${crypto.createHash('sha256').update(`${m.id}.${m.ts}.${m.payload}`).digest('base64')}`, `v1,${sign(m.key, m.ts, m.id, m.payload)}`, `v1,${crypto.createHmac('sha256', m.secret).update(`${m.id}.${m.ts}.${m.payload}`).digest('base64')}`]; break;
        }
      }
      const signature = [...before, ...c.sigs, ...after].join(' ');
      // the independent decision
      const keyNow = Buffer.from(c.secret.replace(/^whsec_/, ''), 'base64');
      const tsN = Number(c.ts);
      const good = !c.drop && !c.blank && Math.abs(at - tsN) <= 300 && signature.split(' ').includes(`v1,${sign(keyNow, c.id, tsN, c.payload)}`);
      const headers = { id: c.id, timestamp: c.ts, signature };
      if (c.drop) delete headers[c.drop];
      if (c.blank) headers[c.blank] = g.pick(['', undefined]);
      const args = Object.freeze({ payload: c.payload, headers: Object.freeze(headers), webhookSecret: c.secret });
      let out;
      const client = g.pick(clients);
      try { out = { ok: true, value: als.run({ world, rec: done }, () => client.webhooks.verify(args)) }; } catch (e) { out = { ok: false, error: e }; }
      st.evaluations++; st.calls++;
      bump(st.monitors, `${kind} ${good ? 'acceptable' : 'unacceptable'}`);
      bump(st.outcomes, out.ok ? 'accepted' : 'rejected');
      st.signatures.add(hash(`${kind}|${good}|${c.payload.length}|${c.id.length}|${off}|${before.length}|${after.length}`));
      const detail = { args: util.inspect(args, { depth: 5, maxStringLength: 3000 }), clockMs: at * 1000 + ms, expected: good ? 'accept' : 'reject', got: util.inspect(out), kind };
      if (st.samples.length < 3 && i === 3) st.samples.push({ kind, at, headers, payload: c.payload.slice(0, 120), decision: good, outcome: out.ok ? 'accepted' : String(out.error?.message) });
      if (out.ok !== good) issues.push({ aspect: 'webhook', msg: `${kind} message ${out.ok ? 'accepted' : `rejected (${out.error?.message})`} although ${good ? 'authentic and fresh' : 'not acceptable'} (clock ${at}, timestamp ${c.ts}, signature ${show(signature, 120)})`, detail });
      else if (out.ok) {
        const d = diff(out.value, JSON.parse(c.payload));
        if (d) issues.push({ aspect: 'webhook', msg: `verified payload ${d}`, detail });
        if (out.value && typeof out.value === 'object' && g.chance(0.3)) { try { out.value.type = 'scrambled'; } catch {} }
      } else if (!(out.error instanceof Error)) issues.push({ aspect: 'webhook', msg: `threw ${show(out.error)}`, detail });
      else if (keyNow.length > 8 && `${out.error.message} ${util.inspect({ ...out.error })}`.includes(c.secret)) issues.push({ aspect: 'webhook', msg: `the error carries the secret: ${show(out.error.message)}`, detail });
      if (issues.length) break;
    }
    setClock();
    if (index % 16 === 1) { await tick(); await tick(); }
    for (const q of done.requests) issues.push({ aspect: 'count', msg: `a verification made the request ${q.method} ${q.url?.href ?? q.rawUrl}` });
    for (const l of done.logs) issues.push({ aspect: 'webhook', msg: `a verification wrote ${show(l.args)} to ${l.via}` });
    return issues;
  },
};

/** verifications between, before and after other calls of the same clients */
async function amongOthers(env, g) {
  const hooks = OPS.filter((o) => o.name.startsWith('webhooks.'));
  const prof = {
    aspects: new Set(['webhook', 'count', 'late']), okP: 0.7, wireP: 0, multiP: 0.5, repeatP: 0.3, ctx: { local: 0.03, maxSteps: 6, maxFile: 500 },
    calls: (gg) => gg.int(3, 14), nextOp: (gg) => (gg.chance(0.7) ? getOp('webhooks.verify') : gg.chance(0.5) ? gg.pick(hooks) : gg.pick(OPS)),
    relevant: (r) => r.kase.finish === 'verify',
  };
  return (await runSession(env, g, prof)).filter((i) => i.rec?.kase.finish === 'verify');
}
