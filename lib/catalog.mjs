// The documented API as data: for every operation, how to generate arguments and
// what requests and outcome follow. Written from the documentation and types;
// shares no code with the SDK.
import { Buffer } from 'node:buffer';
import crypto from 'node:crypto';
import { decorate } from './responses.mjs';

export const OPS = [];
const byName = new Map();
function op(name, gen, meta = {}) {
  const o = { name, gen, ...meta };
  OPS.push(o);
  byName.set(name, o);
}
export const getOp = (n) => byName.get(n);

/** expected JSON of a value; Buffers become markers */
export function toJson(v) {
  if (v === undefined) return undefined;
  if (Buffer.isBuffer(v)) return { $bytes: v.toString('base64') };
  if (v === null || typeof v !== 'object') return JSON.parse(JSON.stringify(v));
  if (typeof v.toJSON === 'function') return toJson(v.toJSON());
  if (Array.isArray(v)) return v.map((x) => { const j = toJson(x); return j === undefined ? null : j; });
  const o = {};
  for (const k of Object.keys(v)) {
    const j = toJson(v[k]);
    if (j !== undefined) Object.defineProperty(o, k, { value: j, enumerable: true, writable: true, configurable: true });
  }
  return o;
}

const S = (g) => g.str({ surrogates: true });
const T = (g) => g.bulkText() ?? S(g);
const f = (js, api, gen, o = {}) => ({ js, api, gen, ...o });

/** now and then a field holds what another one of the same payload holds: a text that is the HTML, a copy that goes to the recipients */
function alike(g, s, v, payload) {
  if (s.map || /type|status|mode|permission|region|tls|events|capab/i.test(s.js) || !g.chance(0.05)) return v;
  const kind = (x) => (typeof x === 'string' ? 'text' : Array.isArray(x) && x.every((e) => typeof e === 'string') ? 'texts' : undefined);
  if (!kind(v)) return v;
  const named = /id$|email$|key$/i.test(s.js);
  const fits = Object.keys(payload).filter((k) => kind(payload[k]) === kind(v) && !(named && (['', '.', '..'].includes(payload[k]) || !payload[k].isWellFormed?.())));
  return fits.length ? payload[g.pick(fits)] : v;
}

/** builds {payload, body} from a field spec with a random presence pattern */
function build(g, spec) {
  const payload = {}, body = {};
  const p = g.pick([0.1, 0.5, 0.5, 0.9, 1]);
  const order = g.chance(0.3) ? g.shuffle(spec) : spec;
  for (const s of order) {
    let v;
    if (s.req || g.chance(s.p ?? p)) {
      if (s.nullable && g.chance(0.2)) v = null;
      else v = s.gen(g);
      v = alike(g, s, v, payload);
    } else if (g.chance(0.15)) {
      payload[s.js] = undefined;
      continue;
    } else continue;
    payload[s.js] = v;
    const e = s.map ? s.map(v) : toJson(v);
    if (e !== undefined) body[s.api] = e;
  }
  if (g.chance(0.03)) return { payload: Object.assign(Object.create(null), payload), body };
  return { payload, body };
}

function pagination(g, p = 0.6) {
  const o = {}, q = {};
  if (g.chance(p)) { o.limit = g.chance(0.7) ? g.int(1, 100) : g.chance(0.2) ? g.pick([0, 0, 101, 1000, 2.5]) : Math.max(1, Math.abs(Math.trunc(g.num()))) % 1e15; q.limit = String(o.limit); }
  const r = g.f();
  const cursor = () => (g.chance(0.03) ? '' : g.chance(0.1) ? g.pick([String(o.limit), '0', '-1', 'null', 'undefined', 'false', 'NaN', 'after', 'limit', g.date(), g.email(), g.uuid()]) : g.nstr({ max: 400 }));
  if (r < p / 2) { o.after = cursor(); q.after = o.after; }
  else if (r < p) { o.before = cursor(); q.before = o.before; }
  if (g.chance(0.1)) for (const k of ['limit', 'after', 'before']) if (!(k in o)) { o[k] = undefined; break; }
  return { o, q };
}

export function customHeaders(g, { multipart } = {}) {
  const n = g.size(1, 12, 3);
  const pairs = [];
  const used = new Set();
  const form = g.pick(['object', 'object', 'pairs', 'Headers', 'nullproto', 'frozen']);
  const repeats = (form === 'pairs' || form === 'Headers') && g.chance(0.3);
  for (let i = 0; i < n; i++) {
    let name = g.headerName();
    if (repeats && pairs.length && g.chance(0.5)) name = g.pick(pairs)[0];
    if (g.chance(0.12)) name = g.pick(['User-Agent', 'user-agent', 'Authorization', 'AUTHORIZATION', 'X-Entity-Ref', 'Accept-Language', 'x-idempotency']);
    if (g.hasNovel() && g.chance(0.2)) { const s = (g.novel() ?? '').replace(/[^A-Za-z0-9-]/g, ''); if (s && !/^(content-length|host|connection|transfer-encoding|expect|upgrade|content-type|idempotency-key|x-batch-validation|accept-charset|accept-encoding|access-control.*|cookie.*|date|dnt|keep-alive|origin|referer|te|trailer|via|set-cookie|proxy-.*|sec-.*)$/i.test(s)) name = s; }
    if (!multipart && g.chance(0.03)) name = g.pick(['Content-Type', 'content-type']);
    const l = name.toLowerCase();
    if (used.has(l) && !repeats) continue;
    used.add(l);
    pairs.push([name, l === 'content-type' ? g.pick(['application/json; charset=utf-8', 'application/vnd.api+json', 'text/plain', g.tag('application/x-')]) : g.headerText()]);
  }
  let value;
  if (form === 'object') value = Object.fromEntries(pairs);
  else if (form === 'pairs') value = pairs.map((p) => [...p]);
  else if (form === 'Headers') value = new Headers(pairs);
  else if (form === 'nullproto') value = Object.assign(Object.create(null), Object.fromEntries(pairs));
  else value = Object.freeze(Object.fromEntries(pairs));
  const expected = {};
  for (const [k, v] of new Headers(pairs).entries()) expected[k] = v;
  return { value, expected, form };
}

/** request options; returns {opts|undefined, headers: expected custom headers, idem} */
function reqOptions(g, ctx, { idem = false, extra, form } = {}) {
  const out = { opts: undefined, headers: {}, idem: undefined };
  const o = {};
  let any = false;
  // callers keep one options object, or one headers object, for several calls
  if (ctx.shared && idem && !extra && !form && g.chance(ctx.sharedP ?? 0.06)) return { ...ctx.shared().options };
  if (ctx.shared && g.chance(ctx.sharedP ?? 0.06)) {
    const h = ctx.shared().headers;
    o.headers = h.value; out.headers = h.expected; out.form = `shared ${h.form}`; any = true;
  } else if (g.chance(ctx.headersP ?? 0.3)) {
    const h = customHeaders(g, { multipart: form });
    o.headers = h.value; out.headers = h.expected; out.form = h.form; any = true;
  } else if (g.chance(0.05)) { o.headers = g.pick([undefined, {}, []]); any = true; }
  if (idem) {
    if (g.chance(ctx.idemP ?? 0.4)) {
      o.idempotencyKey = ctx.idemKey ? ctx.idemKey(g) : g.headerValue(g.chance(0.05) ? 2000 : 256); out.idem = o.idempotencyKey; any = true;
      if (g.chance(0.08) && out.form === 'object') { o.headers[g.pick(['Idempotency-Key', 'idempotency-key'])] = g.tag('other'); }
    } else if (g.chance(0.1)) { o.idempotencyKey = undefined; any = true; }
  }
  if (extra) any = extra(o, out) || any;
  if (any || g.chance(0.15)) out.opts = o;
  return out;
}

/** the headers and options objects that several calls of a session use */
export function sharedObjects(g) {
  const headers = customHeaders(g, { multipart: true });
  const inner = g.chance(0.5) ? headers : g.chance(0.5) ? customHeaders(g, { multipart: true }) : null;
  const o = { ...(inner ? { headers: inner.value } : {}), idempotencyKey: g.headerValue(256) };
  return { headers, options: { opts: o, headers: inner ? inner.expected : {}, idem: o.idempotencyKey, form: inner ? `shared ${inner.form}` : undefined } };
}

const api = (method, path, extra = {}) => ({ kind: 'api', method, path, ...extra });

function plain(args, step, extra = {}) {
  return { args, steps: [step], sendStep: 0, finish: 'plain', customHeaders: {}, ...extra };
}

function withOptions(args, ro) { return ro.opts === undefined ? args : [...args, ro.opts]; }

/** list operation with pagination and optional filters */
function listOp(name, path, filters) {
  op(name, (g) => {
    const { o, q } = pagination(g);
    filters?.(g, o, q);
    const args = Object.keys(o).length === 0 && g.chance(0.6) ? (g.chance(0.5) ? [] : [undefined]) : [o];
    return plain(args, api('GET', path, { query: q }));
  }, { kind: 'list' });
}

/** operations on a single identifier */
function idOp(name, method, mkPath, { guarded } = {}) {
  op(name, (g, ctx) => {
    if (guarded && ctx.local && g.chance(ctx.local)) return plain([g.pick(['', undefined, null])], null, { steps: [], local: 'missing_required_field' });
    const id = g.id();
    return plain([id], api(method, mkPath(id)));
  }, { kind: 'id', guarded });
}

// ---------------------------------------------------------------- api keys
op('apiKeys.create', (g, ctx) => {
  const { payload, body } = build(g, [f('name', 'name', S, { req: 1 }), f('permission', 'permission', () => g.pick(['full_access', 'sending_access'])), f('domain_id', 'domain_id', () => g.id())]);
  const ro = reqOptions(g, ctx, {});
  return plain(withOptions([payload], ro), api('POST', ['api-keys'], { body }), { customHeaders: ro.headers, idem: ro.idem });
});
listOp('apiKeys.list', ['api-keys']);
op('apiKeys.update', (g) => {
  const id = g.id(); const { payload, body } = build(g, [f('name', 'name', S, { req: 1 })]);
  return plain([id, payload], api('PATCH', ['api-keys', id], { body }));
});
idOp('apiKeys.remove', 'DELETE', (id) => ['api-keys', id]);

// ---------------------------------------------------------------- automations
function rule(g, depth = 3) {
  if (depth === 3 && g.chance(0.05)) {
    let deep = rule(g, 1);
    for (let n = g.size(4, 60, 12); n > 0; n--) { const rules = [deep]; if (g.chance(0.2)) rules[g.chance(0.5) ? 'push' : 'unshift'](rule(g, 0)); deep = { type: g.pick(['and', 'or']), rules }; }
    return deep;
  }
  const r = g.f();
  if (depth > 0 && r < 0.4) return { type: g.pick(['and', 'or']), rules: g.array(() => rule(g, depth - 1), 0, 6, 2) };
  const field = g.pick([g.key(), 'event.firstName', 'contact.properties.companyName']);
  if (r < 0.6) return { type: 'rule', field, operator: g.pick(['eq', 'neq']), value: g.pick([S(g), g.num(), g.bool(), null]) };
  if (r < 0.75) return { type: 'rule', field, operator: g.pick(['gt', 'gte', 'lt', 'lte']), value: g.num() };
  if (r < 0.9) return { type: 'rule', field, operator: g.pick(['contains', 'starts_with', 'ends_with']), value: S(g) };
  return { type: 'rule', field, operator: g.pick(['exists', 'is_empty']) };
}
const varRef = (g) => ({ var: g.pick(['event.firstName', 'contact.lastName', g.key()]) });
function tmplVar(g) {
  const prim = () => g.pick([S(g), g.num(), g.bool()]);
  return g.pick([prim, prim, () => varRef(g), () => g.map(prim, 5), () => g.array(prim, 0, 5, 2), () => g.array(() => g.map(prim, 3), 0, 3, 1)])();
}
export function automationStep(g) {
  const key = g.chance(0.7) ? g.tag('step') : g.nstr({ max: 80 });
  const type = g.pick(['trigger', 'delay', 'send_email', 'wait_for_event', 'condition', 'contact_update', 'contact_delete', 'add_to_segment']);
  let c;
  switch (type) {
    case 'trigger': c = build(g, [f('eventName', 'event_name', S, { req: 1 })]); break;
    case 'delay': c = build(g, [f('duration', 'duration', () => g.pick(['1 hour', '3 days', S(g)]), { req: 1 })]); break;
    case 'send_email':
      c = build(g, [f('template', 'template', () => (g.chance(0.7) ? { id: g.id(), variables: g.map(() => tmplVar(g), 6) } : { id: g.id() }), { req: 1 }), f('subject', 'subject', S), f('from', 'from', () => g.email()), f('replyTo', 'reply_to', () => g.email())]);
      break;
    case 'wait_for_event': c = build(g, [f('eventName', 'event_name', S, { req: 1 }), f('timeout', 'timeout', () => g.pick(['3 days', S(g)])), f('filterRule', 'filter_rule', () => rule(g))]); break;
    case 'condition': { const r = rule(g); c = { payload: r, body: toJson(r) }; break; }
    case 'contact_update':
      c = build(g, [f('firstName', 'first_name', () => g.pick([S(g), varRef(g)]), { nullable: 1 }), f('lastName', 'last_name', () => g.pick([S(g), varRef(g)]), { nullable: 1 }), f('unsubscribed', 'unsubscribed', () => g.pick([true, false, varRef(g)])), f('properties', 'properties', () => g.map(() => g.pick([S(g), g.num(), g.bool(), null, varRef(g)]), 8))]);
      break;
    case 'contact_delete': c = { payload: {}, body: {} }; break;
    default: c = build(g, [f('segmentId', 'segment_id', () => g.id(), { req: 1 })]);
  }
  return { js: { key, type, config: c.payload }, api: { key: toJson(key), type, config: c.body } };
}
function graph(g, ctx) {
  const steps = [], apiSteps = [];
  const n = g.size(0, ctx.maxSteps ?? 40, 5);
  for (let i = 0; i < n; i++) {
    const s = automationStep(g);
    if (i && g.chance(0.08)) { steps.push(steps[i - 1]); apiSteps.push(apiSteps[i - 1]); } else { steps.push(s.js); apiSteps.push(s.api); }
  }
  const conns = [], apiConns = [];
  const m = g.size(0, ctx.maxSteps ?? 40, 5);
  const keys = steps.length ? steps.map((s) => s.key) : ['a', 'b'];
  for (let i = 0; i < m; i++) {
    const from = g.chance(0.8) ? g.pick(keys) : g.str();
    const to = g.chance(0.8) ? g.pick(keys) : g.str();
    const c = { from, to };
    if (g.chance(0.7)) c.type = g.pick(['default', 'condition_met', 'condition_not_met', 'timeout', 'event_received', 'default']);
    else if (g.chance(0.3)) c.type = undefined;
    conns.push(c); apiConns.push(toJson(c));
    if (g.chance(0.06)) { conns.push({ ...c }); apiConns.push(toJson(c)); }
  }
  return { steps, apiSteps, conns, apiConns };
}
op('automations.create', (g, ctx) => {
  const gr = graph(g, ctx);
  const name = S(g);
  const payload = { name, steps: gr.steps, connections: gr.conns };
  const body = { name: toJson(name), steps: gr.apiSteps, connections: gr.apiConns };
  if (g.chance(0.6)) { payload.status = g.pick(['enabled', 'disabled']); body.status = payload.status; }
  return plain([payload], api('POST', ['automations'], { body }));
}, { kind: 'graph' });
op('automations.update', (g, ctx) => {
  const id = g.id(), gr = graph(g, ctx), payload = {}, body = {};
  const p = g.pick([0.2, 0.5, 0.9, 1]);
  if (g.chance(p)) { payload.name = S(g); body.name = toJson(payload.name); }
  if (g.chance(p)) { payload.status = g.pick(['enabled', 'disabled']); body.status = payload.status; }
  if (g.chance(p)) { payload.steps = gr.steps; body.steps = gr.apiSteps; }
  if (g.chance(p)) { payload.connections = gr.conns; body.connections = gr.apiConns; }
  for (const k of ['name', 'status', 'steps', 'connections']) if (!(k in payload) && g.chance(0.15)) payload[k] = undefined;
  return plain([id, payload], api('PATCH', ['automations', id], { body }));
}, { kind: 'graph' });
listOp('automations.list', ['automations'], (g, o, q) => { if (g.chance(0.5)) { o.status = g.chance(0.6) ? g.pick(['enabled', 'disabled']) : g.nstr({ max: 60 }); q.status = o.status; } });
idOp('automations.get', 'GET', (id) => ['automations', id]);
idOp('automations.remove', 'DELETE', (id) => ['automations', id]);
idOp('automations.duplicate', 'POST', (id) => ['automations', id, 'duplicate']);
idOp('automations.stop', 'POST', (id) => ['automations', id, 'stop']);
op('automations.runs.get', (g) => {
  const automationId = g.id(), runId = g.id();
  return plain([{ automationId, runId }], api('GET', ['automations', automationId, 'runs', runId]));
});
op('automations.runs.list', (g) => {
  const automationId = g.id();
  const { o, q } = pagination(g);
  if (g.chance(0.5)) {
    const one = () => g.pick(['running', 'completed', 'failed', 'cancelled', 'skipped', g.tag('st')]);
    if (g.chance(0.5)) { o.status = g.array(one, 1, 8, 2); q.status = o.status.join(','); } else { o.status = g.chance(0.7) ? one() : g.nstr({ max: 60 }); q.status = o.status; }
  }
  return plain([{ automationId, ...o }], api('GET', ['automations', automationId, 'runs'], { query: q }));
}, { kind: 'list' });

// ---------------------------------------------------------------- emails
const attachment = (g) => {
  const a = {};
  if (g.chance(0.75)) a.content = g.chance(0.4) ? g.bulkBytes(6e5, 15) ?? g.bytes(3000) : g.bulkText() ?? g.str();
  if (g.chance(0.7)) a.filename = g.chance(0.05) ? false : g.str();
  if (g.chance(0.4)) a.path = g.pick(['https://example.com/a?b=c&d=e', S(g)]);
  if (g.chance(0.4)) a.contentType = g.pick(['image/png', 'text/plain; charset="x"', S(g)]);
  if (g.chance(0.4)) a.contentId = g.str();
  if (g.chance(0.1)) a.path = undefined;
  return a;
};
const attachmentJson = (a) => {
  const o = {};
  const put = (k, v) => { const j = toJson(v); if (j !== undefined) o[k] = j; };
  put('content', a.content); put('filename', a.filename); put('path', a.path); put('content_type', a.contentType); put('content_id', a.contentId);
  return o;
};
const emailSpec = (g, ctx, batch) => [
  f('from', 'from', () => g.email(), { p: 0.95 }),
  f('to', 'to', () => g.recipients(), { req: 1 }),
  f('subject', 'subject', S, { p: 0.95 }),
  f('bcc', 'bcc', () => g.recipients()), f('cc', 'cc', () => g.recipients()), f('replyTo', 'reply_to', () => g.recipients()),
  f('html', 'html', () => g.bulkText() ?? (g.chance(0.1) ? '' : `<p>${S(g)}</p>`)), f('text', 'text', T),
  f('headers', 'headers', () => g.map(() => g.str(), 8)),
  f('tags', 'tags', () => g.array(() => ({ name: g.str(), value: g.str() }), 0, 20, 2)),
  f('scheduledAt', 'scheduled_at', () => g.date()),
  f('topicId', 'topic_id', () => g.id(), { nullable: 1 }),
  ...(batch ? [] : [f('attachments', 'attachments', () => g.array(() => attachment(g), 0, 25, 2), { map: (v) => v.map(attachmentJson) })]),
  f('template', 'template', () => { const t = { id: g.id() }; if (g.chance(0.7)) t.variables = g.map(() => g.pick([g.str(), g.num()]), 10); return t; }, { p: 0.15 }),
];
export function emailPayload(g, ctx, batch = false) {
  const b = build(g, emailSpec(g, ctx, batch));
  const react = addReact(g, ctx, b);
  return { ...b, react };
}
/** adds a React element to a payload; the expected html is filled in by prepare() */
function addReact(g, ctx, b) {
  if (ctx.react && ctx.makeElement && g.chance(ctx.react)) {
    const element = ctx.makeElement(g);
    b.payload.react = element;
    b.body.html = { $react: element };
    return element;
  }
  if (g.chance(0.05)) b.payload.react = g.pick([undefined, null]);
  return undefined;
}
for (const name of ['emails.send', 'emails.create']) {
  op(name, (g, ctx) => {
    const { payload, body, react } = emailPayload(g, ctx);
    const ro = reqOptions(g, ctx, { idem: true });
    return plain(withOptions([payload], ro), api('POST', ['emails'], { body }), { customHeaders: ro.headers, idem: ro.idem, reacts: react ? [react] : [] });
  }, { kind: 'send', idem: true });
}
for (const name of ['batch.send', 'batch.create']) {
  op(name, (g, ctx) => {
    const emails = [], bodies = [], reacts = [];
    const n = ctx.batchSize ? ctx.batchSize(g) : g.size(0, 250, 5);
    const cctx = n > 30 ? { ...ctx, react: (ctx.react ?? 0) / 10 } : ctx;
    for (let i = 0; i < n; i++) {
      if (i && g.chance(0.1)) { const j = g.int(0, i - 1); emails.push(g.chance(0.5) ? emails[j] : { ...emails[j] }); bodies.push(bodies[j]); continue; }
      const e = n > 60 ? lightEmail(g) : emailPayload(g, cctx, true);
      emails.push(e.payload); bodies.push(e.body); if (e.react) reacts.push(e.react);
    }
    let mode = 'strict';
    const ro = reqOptions(g, ctx, {
      idem: true,
      extra(o, out) {
        let any = false;
        if (g.chance(0.5)) { o.batchValidation = g.pick(['strict', 'permissive', undefined]); mode = o.batchValidation ?? 'strict'; any = true; }
        if (out.form === 'object' && g.chance(0.08)) { const v = g.pick(['permissive', 'strict']); o.headers[g.pick(['x-batch-validation', 'X-Batch-Validation'])] = v; out.headers['x-batch-validation'] = v; mode = v; }
        return any;
      },
    });
    return plain(withOptions([emails], ro), api('POST', ['emails', 'batch'], { body: bodies }), { customHeaders: ro.headers, idem: ro.idem, batchMode: mode, reacts, batch: true });
  }, { kind: 'batch', idem: true });
}
function lightEmail(g) {
  const payload = { from: g.email(), to: g.email(), subject: g.tag('s'), text: g.pick(['hi', g.tag('t')]) };
  return { payload, body: toJson(payload) };
}
listOp('emails.list', ['emails']);
idOp('emails.get', 'GET', (id) => ['emails', id]);
op('emails.update', (g) => {
  const id = g.id(), scheduledAt = g.date();
  return plain([{ id, scheduledAt }], api('PATCH', ['emails', id], { body: { scheduled_at: scheduledAt } }));
});
idOp('emails.cancel', 'POST', (id) => ['emails', id, 'cancel']);
op('emails.share', (g) => {
  const id = g.id();
  const v = g.pick(['none', 'empty', 'full']);
  if (v === 'none') return plain([id], api('POST', ['emails', id, 'share'], { body: {} }));
  if (v === 'empty') return plain([id, g.pick([{}, { expiresIn: undefined }, undefined])], api('POST', ['emails', id, 'share'], { body: {} }));
  const expiresIn = g.pick(['1h', '7d', g.str()]);
  return plain([id, { expiresIn }], api('POST', ['emails', id, 'share'], { body: { expires_in: expiresIn } }));
});
const METRICS = ['received', 'delivered', 'complained', 'suppressed', 'bounced', 'bounced_transient', 'bounced_permanent', 'bounced_undetermined', 'opened', 'clicked', 'unsubscribed', 'delivery_delayed', 'failed', 'sent', 'unique_opened', 'unique_clicked', 'delivery_rate', 'open_rate', 'click_rate', 'bounce_rate', 'complaint_rate', 'unsubscribe_rate'];
op('emails.metrics', (g) => {
  const o = {}, q = {};
  const p = g.pick([0, 0.2, 0.5, 1]);
  const s = (js, apiName, gen) => { if (g.chance(p)) { o[js] = gen(); if (o[js] !== '') q[apiName] = o[js]; } else if (g.chance(0.08)) o[js] = undefined; };
  const l = (js, apiName, gen) => { if (g.chance(p)) { o[js] = g.array(gen, 0, 30, 3); const v = o[js].join(','); if (v !== '') q[apiName] = v; } };
  s('startDate', 'start_date', () => g.date()); s('endDate', 'end_date', () => g.date());
  s('timezone', 'timezone', () => g.pick(['UTC', 'America/Sao_Paulo', 'Etc/GMT+5', g.nstr({ max: 50 })])); s('granularity', 'granularity', () => g.pick(['hourly', 'daily', 'weekly', 'monthly']));
  l('metrics', 'metrics', () => g.pick(METRICS)); l('dimensions', 'dimensions', () => g.pick(['period', 'domain', 'email', 'broadcast']));
  l('domainId', 'domain_id', () => g.id());
  if (g.bool()) l('emailId', 'email_id', () => g.id()); else l('broadcastId', 'broadcast_id', () => g.id());
  const args = Object.keys(o).length === 0 && g.chance(0.6) ? [] : [o];
  return plain(args, api('GET', ['emails', 'metrics'], { query: q }));
}, { kind: 'list' });
op('emails.attachments.get', (g) => { const emailId = g.id(), id = g.id(); return plain([{ emailId, id }], api('GET', ['emails', emailId, 'attachments', id])); });
op('emails.attachments.list', (g) => { const emailId = g.id(); const { o, q } = pagination(g); return plain([{ emailId, ...o }], api('GET', ['emails', emailId, 'attachments'], { query: q })); }, { kind: 'list' });
op('emails.receiving.get', (g) => {
  const id = g.id(); const q = {};
  if (g.chance(0.5)) { q.html_format = g.chance(0.7) ? g.pick(['cid', 'data_uri']) : g.nstr({ max: 40 }); return plain([id, { html_format: q.html_format }], api('GET', ['emails', 'receiving', id], { query: q })); }
  return plain(g.pick([[id], [id, {}], [id, undefined], [id, { html_format: undefined }]]), api('GET', ['emails', 'receiving', id], { query: {} }));
}, { kind: 'list' });
listOp('emails.receiving.list', ['emails', 'receiving']);
op('emails.receiving.attachments.get', (g) => { const emailId = g.id(), id = g.id(); return plain([{ emailId, id }], api('GET', ['emails', 'receiving', emailId, 'attachments', id])); });
op('emails.receiving.attachments.list', (g) => { const emailId = g.id(); const { o, q } = pagination(g); return plain([{ emailId, ...o }], api('GET', ['emails', 'receiving', emailId, 'attachments'], { query: q })); }, { kind: 'list' });

// forward: read, download, send
op('emails.receiving.forward', (g, ctx) => {
  const emailId = g.id(), to = g.recipients(), from = g.email();
  const passthrough = ctx.passthrough ?? g.chance(0.5);
  const o = { emailId, to, from };
  if (passthrough) { if (g.chance(0.4)) o.passthrough = g.pick([true, undefined]); } else {
    o.passthrough = false;
    const w = g.int(0, 2);
    if (w !== 1) o.text = T(g);
    if (w !== 0) o.html = T(g);
  }
  const ro = reqOptions(g, ctx, { idem: true });
  const base = ctx.downloadBase ?? downloadBase(g);
  const url = `${base}/${g.tag('raw')}${g.chance(0.6) ? `?X-Amz-Signature=${g.tag('sig')}&Expires=${g.int(1, 1e9)}&k=a%2Fb` : ''}`;
  const badUrl = g.chance((ctx.noRaw ?? 0) / 3) ? g.pick(['not a url', `/relative/${g.tag()}`, 'https://', 'https://exa mple.test/raw', 'http://[::1', 'https://cdn.example.test:99999/raw']) : undefined;
  const subject = g.pick([() => g.tag('Subject '), () => `Fwd: ${g.tag()}`, () => `fwd: ${g.tag()}`, () => 'Fwd:', () => `FWD: ${g.tag()}`, () => ` Fwd: x`, () => `Re: Fwd: ${g.tag()}`, () => '', () => g.str(), () => null])();
  const email = {
    object: 'email', id: emailId, to: ['a@example.com'], from: g.email(), created_at: '2026-01-01T00:00:00Z', subject, bcc: null, cc: null, reply_to: null, received_for: [],
    html: g.pick([null, '<p>inline</p>', g.str()]), text: g.pick([null, 'inline text', g.str()]), headers: null, message_id: g.tag('mid'),
    raw: { download_url: badUrl ?? url, expires_at: g.chance(0.7) ? g.date() : '2026-01-02T00:00:00Z' }, attachments: [],
  };
  if (g.chance(ctx.noRaw ?? 0)) { email.raw = g.pick([null, undefined, { download_url: '', expires_at: 'x' }]); }
  if (g.chance(0.4)) decorate(g, email, true);
  const raw = passthrough && g.chance((ctx.noRaw ?? 0) / 8) ? tooDeep(g) : ctx.makeRaw ? ctx.makeRaw(g) : defaultRaw(g);
  const subj = subject || '(no subject)';
  const body = { from: toJson(from), to: toJson(to), subject: toJson(passthrough || subj.startsWith('Fwd:') ? subj : `Fwd: ${subj}`) };
  if (passthrough) { body.$mime = raw; } else {
    if (o.text !== undefined) body.text = toJson(o.text);
    if (o.html !== undefined) body.html = toJson(o.html);
    body.attachments = [{ filename: 'forwarded_message.eml', content: { $bytes: Buffer.from(raw.bytes).toString('base64') }, content_type: 'message/rfc822' }];
  }
  return {
    args: withOptions([o], ro), finish: 'forward', okJson: [email], passthrough, email, raw, downloadUrl: url, hasRaw: !!email.raw?.download_url, badUrl: !!email.raw?.download_url && badUrl !== undefined,
    steps: [api('GET', ['emails', 'receiving', emailId]), { kind: 'download', method: 'GET', url }, api('POST', ['emails'], { body })],
    sendStep: 2, customHeaders: ro.headers, idem: ro.idem,
  };
}, { kind: 'forward', idem: true });
/** any host may serve the raw content, the API's own and its neighbours included */
function downloadBase(g) {
  if (g.hasNovel() && g.chance(0.15)) {
    const n = (g.novel() ?? '').replace(/^\w+:\/\//, '').toLowerCase().replace(/[^a-z0-9.-]/g, '').replace(/^[.-]+|[.-]+$|\.(?=\.)/g, '');
    const u = n && [`https://${n}`, `https://files.${n}`, `https://${n}.test`].find((x) => URL.canParse(x) && !/^https:\/\/[\d.x]+$/i.test(x));
    if (u) return u;
  }
  return g.pick([
    'https://cdn.example.test', 'https://inbound-raw.s3.amazonaws.example', 'http://files.example.test:8080', `https://${g.tag('h')}.cloudfront.example`,
    'https://api.resend.com', 'https://inbound-cdn.resend.com', 'https://files.api.resend.com', 'https://dl.proxy.example.test', 'https://cdn.api.example.test:8443/raw', 'https://example.test', 'http://api.resend.com', 'https://api.resend.com:8443', 'http://files.localhost:3999', 'https://resend.com', 'https://api.resend.com/emails', 'https://resend.com.evil.test', 'http://localhost:3999', 'https://proxy.example.test/resend/v1', 'https://127.0.0.1:8443', 'http://169.254.169.254',
    'https://bücher.example', 'https://s3.eu-west-1.amazonaws.com/resend-inbound',
  ]);
}
/** a raw message that the MIME parser refuses */
function tooDeep(g) {
  let s = `From: a@example.com\r\nSubject: ${g.tag()}\r\nMIME-Version: 1.0\r\n`;
  const n = g.int(300, 400);
  for (let i = 0; i < n; i++) s += `Content-Type: multipart/mixed; boundary="b${i}"\r\n\r\n--b${i}\r\n`;
  return { bytes: Buffer.from(`${s}Content-Type: text/plain\r\n\r\n${g.tag()}\r\n`) };
}
function defaultRaw(g) {
  const text = g.tag('body ');
  const s = `From: a@example.com\r\nTo: b@example.com\r\nSubject: x\r\nMIME-Version: 1.0\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n${text}`;
  return { bytes: Buffer.from(s), simple: true };
}

// ---------------------------------------------------------------- broadcasts
const broadcastSpec = (g) => [
  f('name', 'name', S), f('segmentId', 'segment_id', () => g.id()), f('audienceId', 'audience_id', () => g.id()), f('previewText', 'preview_text', S),
  f('from', 'from', () => g.email(), { p: 0.9 }), f('html', 'html', () => g.bulkText() ?? `<p>${S(g)}</p>`), f('replyTo', 'reply_to', () => g.recipients()), f('subject', 'subject', S, { p: 0.9 }), f('text', 'text', T), f('topicId', 'topic_id', () => g.id(), { nullable: 1 }),
];
op('broadcasts.create', (g, ctx) => {
  const b = build(g, [...broadcastSpec(g), f('send', 'send', () => g.bool()), f('scheduledAt', 'scheduled_at', () => g.date())]);
  const react = addReact(g, ctx, b);
  const ro = reqOptions(g, ctx, {});
  return plain(withOptions([b.payload], ro), api('POST', ['broadcasts'], { body: b.body }), { customHeaders: ro.headers, reacts: react ? [react] : [] });
}, { kind: 'broadcast' });
op('broadcasts.update', (g, ctx) => {
  const id = g.id();
  const b = build(g, broadcastSpec(g));
  const react = addReact(g, ctx, b);
  return plain([id, b.payload], api('PATCH', ['broadcasts', id], { body: b.body }), { reacts: react ? [react] : [] });
}, { kind: 'broadcast' });
op('broadcasts.send', (g) => {
  const id = g.id();
  if (g.chance(0.4)) return plain(g.pick([[id], [id, undefined], [id, {}], [id, { scheduledAt: undefined }]]), api('POST', ['broadcasts', id, 'send'], { body: {} }));
  const scheduledAt = g.date();
  return plain([id, { scheduledAt }], api('POST', ['broadcasts', id, 'send'], { body: { scheduled_at: scheduledAt } }));
});
listOp('broadcasts.list', ['broadcasts']);
idOp('broadcasts.get', 'GET', (id) => ['broadcasts', id]);
op('broadcasts.recipients', (g) => {
  const id = g.id(); const { o, q } = pagination(g);
  o.type = g.pick(['sent', 'delivered', 'opened', 'clicked', 'bounced', 'complained', 'unsubscribed', 'suppressed']); q.type = o.type;
  if (g.chance(0.5)) { o.email = g.email(); q.email = o.email; } else if (g.chance(0.1)) o.email = undefined;
  if (o.type === 'bounced' ? g.chance(0.6) : g.chance(0.05)) { o.bounceType = g.pick(['permanent', 'transient', 'undetermined']); q.bounce_type = o.bounceType; }
  return plain([id, o], api('GET', ['broadcasts', id, 'recipients'], { query: q }));
}, { kind: 'list' });
op('broadcasts.clickedLinks', (g) => { const id = g.id(); const { o, q } = pagination(g); return plain(Object.keys(o).length ? [id, o] : [id], api('GET', ['broadcasts', id, 'clicked-links'], { query: q })); }, { kind: 'list' });
idOp('broadcasts.remove', 'DELETE', (id) => ['broadcasts', id]);
idOp('broadcasts.cancel', 'POST', (id) => ['broadcasts', id, 'cancel']);

// ---------------------------------------------------------------- contact properties
const fallback = (g) => g.pick([S(g), g.num(), 0, '', null, g.nstr()]);
const apiProperty = (g) => decorateSome(g, { id: g.id(), created_at: g.date(), key: g.key(), type: g.pick(['string', 'number']), fallback_value: g.pick([g.str(), g.num(), 0, '', null, false]) });
function decorateSome(g, o) { if (g.chance(0.1)) decorate(g, o, true); if (g.chance(0.04)) delete o[g.pick(Object.keys(o))]; return o; }
const fromApi = (p) => { const o = {}; const put = (k, v) => { if (v !== undefined) o[k] = v; }; put('id', p.id); put('key', p.key); put('createdAt', p.created_at); put('type', p.type); put('fallbackValue', p.fallback_value); return o; };
op('contactProperties.create', (g) => {
  const { payload, body } = build(g, [f('key', 'key', () => g.str(), { req: 1 }), f('type', 'type', () => g.pick(['string', 'number']), { req: 1 }), f('fallbackValue', 'fallback_value', () => fallback(g), { p: 0.75 })]);
  return plain([payload], api('POST', ['contact-properties'], { body }));
}, { kind: 'property' });
op('contactProperties.update', (g, ctx) => {
  const fb = fallback(g); const withFb = g.chance(0.8);
  if (ctx.local && g.chance(ctx.local)) return plain([withFb ? { id: g.pick(['', undefined, null]), fallbackValue: fb } : {}], null, { steps: [], local: 'missing_required_field' });
  const id = g.id();
  return plain([withFb ? { id, fallbackValue: fb } : { id }], api('PATCH', ['contact-properties', id], { body: withFb ? { fallback_value: toJson(fb) } : {} }));
}, { kind: 'property', guarded: true });
op('contactProperties.list', (g) => {
  const { o, q } = pagination(g);
  const args = Object.keys(o).length === 0 && g.chance(0.6) ? [] : [o];
  const items = g.array(() => apiProperty(g), 0, 120, 4);
  const json = { object: 'list', has_more: g.bool(), data: items };
  if (g.chance(0.3)) decorate(g, json, true);
  return plain(args, api('GET', ['contact-properties'], { query: q }), { okJson: [json], mapData: (j) => ({ ...j, data: j.data.map(fromApi) }), interprets: true });
}, { kind: 'property' });
op('contactProperties.get', (g, ctx) => {
  if (ctx.local && g.chance(ctx.local)) return plain([g.pick(['', undefined, null])], null, { steps: [], local: 'missing_required_field' });
  const id = g.id();
  const json = { object: 'contact_property', ...apiProperty(g) };
  return plain([id], api('GET', ['contact-properties', id]), { okJson: [json], mapData: (j) => ({ object: 'contact_property', ...fromApi(j) }), interprets: true });
}, { kind: 'property', guarded: true });
idOp('contactProperties.remove', 'DELETE', (id) => ['contact-properties', id], { guarded: true });

// ---------------------------------------------------------------- contacts
const propsMap = (g) => g.map(() => g.pick([g.str(), g.num(), null]), 15);
const contactBase = (g, nullable) => [f('unsubscribed', 'unsubscribed', () => g.bool()), f('firstName', 'first_name', S, { nullable }), f('lastName', 'last_name', S, { nullable }), f('properties', 'properties', () => propsMap(g))];
op('contacts.create', (g, ctx) => {
  const legacy = g.chance(0.3);
  const ro = reqOptions(g, ctx, {});
  const segs = () => g.array(() => ({ id: g.id() }), 0, 20, 2), tops = () => g.array(() => ({ id: g.id(), subscription: g.pick(['opt_in', 'opt_out']) }), 0, 20, 2);
  if (ctx.local && g.chance(ctx.local)) {
    const { payload } = build(g, [f('email', 'email', () => g.email(), { req: 1 }), ...contactBase(g)]);
    payload.audienceId = g.id();
    const w = g.int(0, 2);
    if (w !== 1) payload.segments = segs();
    else if (g.chance(0.2)) payload.segments = undefined;
    if (w !== 0) payload.topics = tops();
    else if (g.chance(0.2)) payload.topics = undefined;
    return plain(withOptions([payload], ro), null, { steps: [], local: 'invalid_parameter' });
  }
  if (legacy) {
    const { payload, body } = build(g, [f('email', 'email', () => g.email(), { req: 1 }), ...contactBase(g)]);
    payload.audienceId = g.id();
    if (g.chance(0.1)) payload[g.pick(['segments', 'topics'])] = undefined;
    return plain(withOptions([payload], ro), api('POST', ['audiences', payload.audienceId, 'contacts'], { body }), { customHeaders: ro.headers });
  }
  const { payload, body } = build(g, [f('email', 'email', () => g.email(), { req: 1 }), ...contactBase(g), f('segments', 'segments', segs), f('topics', 'topics', tops)]);
  if (g.chance(0.05)) payload.audienceId = undefined;
  return plain(withOptions([payload], ro), api('POST', ['contacts'], { body }), { customHeaders: ro.headers });
}, { kind: 'contact', guarded: true });
/** {selector fields, effective identifier} or an empty selector for local rejections */
function selector(g, idName) {
  const w = g.int(0, 3);
  const id = g.id(), email = g.email();
  const empty = () => g.pick(['', undefined, null]);
  if (w === 0) return { sel: g.chance(0.7) ? { [idName]: id } : { [idName]: id, email: empty() }, ident: id };
  if (w === 1) return { sel: g.chance(0.7) ? { email } : { email, [idName]: empty() }, ident: email };
  if (w === 2) return { sel: g.bool() ? { [idName]: id, email } : { email, [idName]: id }, ident: email };
  return { sel: { [idName]: id }, ident: id };
}
const noSelector = (g, idName) => g.pick([{}, { [idName]: '' }, { email: '' }, { [idName]: undefined, email: undefined }, { [idName]: null, email: '' }]);
for (const [name, method] of [['contacts.get', 'GET'], ['contacts.remove', 'DELETE']]) {
  op(name, (g, ctx) => {
    if (ctx.local && g.chance(ctx.local)) return plain([{ ...noSelector(g, 'id'), ...(g.bool() ? { audienceId: g.id() } : {}) }], null, { steps: [], local: 'missing_required_field' });
    if (g.chance(0.35)) { const id = g.bool() ? g.id() : g.email(); return plain([id], api(method, ['contacts', id])); }
    const { sel, ident } = selector(g, 'id');
    if (g.chance(0.35)) { const audienceId = g.id(); return plain([{ ...sel, audienceId }], api(method, ['audiences', audienceId, 'contacts', ident])); }
    return plain([g.chance(0.9) ? sel : { ...sel, audienceId: g.pick([undefined, '', null]) }], api(method, ['contacts', ident]));
  }, { kind: 'contact', guarded: true });
}
op('contacts.update', (g, ctx) => {
  const { payload, body } = build(g, contactBase(g, 1));
  if (ctx.local && g.chance(ctx.local)) return plain([{ ...payload, ...noSelector(g, 'id'), ...(g.bool() ? { audienceId: g.id() } : {}) }], null, { steps: [], local: 'missing_required_field' });
  const { sel, ident } = selector(g, 'id');
  if (g.chance(0.35)) { const audienceId = g.id(); return plain([{ ...sel, ...payload, audienceId }], api('PATCH', ['audiences', audienceId, 'contacts', ident], { body })); }
  return plain([{ ...payload, ...sel }], api('PATCH', ['contacts', ident], { body }));
}, { kind: 'contact', guarded: true });
op('contacts.list', (g) => {
  const { o, q } = pagination(g);
  const r = g.f();
  if (r < 0.3) { o.segmentId = g.id(); return plain([o], api('GET', ['segments', o.segmentId, 'contacts'], { query: q })); }
  if (r < 0.5) { o.audienceId = g.id(); return plain([o], api('GET', ['segments', o.audienceId, 'contacts'], { query: q })); }
  if (r < 0.6) { o.segmentId = g.id(); o.audienceId = g.id(); return plain([o], api('GET', ['segments', o.segmentId, 'contacts'], { query: q })); }
  return plain(Object.keys(o).length === 0 && g.chance(0.6) ? [] : [o], api('GET', ['contacts'], { query: q }));
}, { kind: 'list' });
op('contacts.imports.create', (g, ctx) => {
  const bytes = g.bytes(ctx.maxFile ?? 4000);
  const type = g.pick(['', 'text/csv', 'application/octet-stream', 'text/plain']);
  const named = g.chance(0.6);
  const name = named ? g.pick(['contacts.csv', 'ünï cödé.csv', 'a b.csv', `${g.tag('f')}.csv`, 'no-ext']) : undefined;
  const file = named ? new File([bytes], name, { type }) : new Blob([bytes], { type });
  const p = g.pick([0, 0.4, 0.8, 1]);
  const payload = { file }, fields = {};
  if (g.chance(p)) {
    const cm = build(g, [f('email', 'email', () => g.str()), f('firstName', 'first_name', () => g.str()), f('lastName', 'last_name', () => g.str()), f('unsubscribed', 'unsubscribed', () => g.str()), f('properties', 'properties', () => g.map(() => (g.bool() ? { column: g.str(), type: g.pick(['string', 'number', 'boolean']) } : { column: g.str() }), 10))]);
    payload.columnMap = cm.payload; fields.column_map = { json: cm.body };
  }
  if (g.chance(p)) { payload.onConflict = g.pick(['upsert', 'skip']); fields.on_conflict = { text: payload.onConflict }; }
  if (g.chance(p)) { payload.segments = g.array(() => ({ id: g.id() }), 0, 25, 2); fields.segments = { json: toJson(payload.segments) }; }
  if (g.chance(p)) { payload.topics = g.array(() => ({ id: g.id(), subscription: g.pick(['opt_in', 'opt_out']) }), 0, 25, 2); fields.topics = { json: toJson(payload.topics) }; }
  for (const k of ['columnMap', 'onConflict', 'segments', 'topics']) if (!(k in payload) && g.chance(0.1)) payload[k] = undefined;
  const ro = reqOptions(g, ctx, { form: true });
  return plain(withOptions([payload], ro), api('POST', ['contacts', 'imports'], { form: { file: { bytes, name, type }, fields } }), { customHeaders: ro.headers });
}, { kind: 'import' });
listOp('contacts.imports.list', ['contacts', 'imports'], (g, o, q) => { if (g.chance(0.5)) { o.status = g.chance(0.7) ? g.pick(['queued', 'in_progress', 'completed', 'failed']) : g.nstr({ max: 40 }); q.status = o.status; } });
idOp('contacts.imports.get', 'GET', (id) => ['contacts', 'imports', id]);
op('contacts.segments.list', (g, ctx) => {
  const { o, q } = pagination(g);
  if (ctx.local && g.chance(ctx.local)) return plain([{ ...o, ...noSelector(g, 'contactId') }], null, { steps: [], local: 'missing_required_field' });
  const { sel, ident } = selector(g, 'contactId');
  return plain([{ ...o, ...sel }], api('GET', ['contacts', ident, 'segments'], { query: q }));
}, { kind: 'list', guarded: true });
for (const [name, method] of [['contacts.segments.add', 'POST'], ['contacts.segments.remove', 'DELETE']]) {
  op(name, (g, ctx) => {
    const segmentId = g.id();
    if (ctx.local && g.chance(ctx.local)) return plain([{ segmentId, ...noSelector(g, 'contactId') }], null, { steps: [], local: 'missing_required_field' });
    const { sel, ident } = selector(g, 'contactId');
    return plain([{ segmentId, ...sel }], api(method, ['contacts', ident, 'segments', segmentId]));
  }, { kind: 'contact', guarded: true });
}
op('contacts.topics.list', (g, ctx) => {
  const { o, q } = pagination(g);
  if (ctx.local && g.chance(ctx.local)) return plain([{ ...o, ...noSelector(g, 'id') }], null, { steps: [], local: 'missing_required_field' });
  const { sel, ident } = selector(g, 'id');
  return plain([{ ...o, ...sel }], api('GET', ['contacts', ident, 'topics'], { query: q }));
}, { kind: 'list', guarded: true });
op('contacts.topics.update', (g, ctx) => {
  const topics = g.array(() => ({ id: g.id(), subscription: g.pick(['opt_in', 'opt_out']) }), 0, 60, 3);
  if (ctx.local && g.chance(ctx.local)) return plain([{ topics, ...noSelector(g, 'id') }], null, { steps: [], local: 'missing_required_field' });
  const { sel, ident } = selector(g, 'id');
  return plain([{ ...sel, topics }], api('PATCH', ['contacts', ident, 'topics'], { body: toJson(topics) }));
}, { kind: 'contact', guarded: true });

// ---------------------------------------------------------------- domains
const caps = (g) => { const c = {}; if (g.chance(0.7)) c.sending = g.pick(['enabled', 'disabled']); if (g.chance(0.7)) c.receiving = g.pick(['enabled', 'disabled']); return c; };
op('domains.create', (g, ctx) => {
  const { payload, body } = build(g, [f('name', 'name', () => g.pick(['example.com', 'münchen.de', g.str()]), { req: 1 }), f('region', 'region', () => g.pick(['us-east-1', 'eu-west-1', 'sa-east-1', 'ap-northeast-1'])), f('customReturnPath', 'custom_return_path', S), f('capabilities', 'capabilities', () => caps(g)), f('openTracking', 'open_tracking', () => g.bool()), f('clickTracking', 'click_tracking', () => g.bool()), f('tls', 'tls', () => g.pick(['enforced', 'opportunistic'])), f('trackingSubdomain', 'tracking_subdomain', S)]);
  const ro = reqOptions(g, ctx, {});
  return plain(withOptions([payload], ro), api('POST', ['domains'], { body }), { customHeaders: ro.headers });
});
op('domains.update', (g) => {
  const id = g.id();
  const { payload, body } = build(g, [f('clickTracking', 'click_tracking', () => g.bool()), f('openTracking', 'open_tracking', () => g.bool()), f('tls', 'tls', () => g.pick(['enforced', 'opportunistic'])), f('capabilities', 'capabilities', () => caps(g)), f('trackingSubdomain', 'tracking_subdomain', S)]);
  return plain([{ id, ...payload }], api('PATCH', ['domains', id], { body }));
});
listOp('domains.list', ['domains']);
idOp('domains.get', 'GET', (id) => ['domains', id]);
idOp('domains.remove', 'DELETE', (id) => ['domains', id]);
idOp('domains.verify', 'POST', (id) => ['domains', id, 'verify']);
op('domains.claims.create', (g, ctx) => {
  const { payload, body } = build(g, [f('name', 'name', S, { req: 1 }), f('region', 'region', () => g.pick(['us-east-1', 'eu-west-1'])), f('customReturnPath', 'custom_return_path', S), f('openTracking', 'open_tracking', () => g.bool()), f('clickTracking', 'click_tracking', () => g.bool()), f('trackingSubdomain', 'tracking_subdomain', S)]);
  const ro = reqOptions(g, ctx, {});
  return plain(withOptions([payload], ro), api('POST', ['domains', 'claim'], { body }), { customHeaders: ro.headers });
});
idOp('domains.claims.get', 'GET', (id) => ['domains', id, 'claim']);
idOp('domains.claims.verify', 'POST', (id) => ['domains', id, 'claim', 'verify']);

// ---------------------------------------------------------------- events, logs, grants, segments
op('events.send', (g) => {
  const spec = [f('event', 'event', S, { req: 1 }), f('payload', 'payload', () => { const o = g.jsonObject(4); if (g.chance(0.1)) o.when = new Date(g.int(0, 4e12)); if (g.chance(0.1)) o.more = g.pick([() => ({ at: [new Date(g.int(0, 4e12))] }), () => [undefined, g.tag(), null], () => ({ gone: undefined, kept: 0 }), () => Object.assign(Object.create(null), { a: g.tag() }), () => new URL(`https://example.com/${g.tag()}`), () => Buffer.from(g.tag())])(); return o; }, { p: 0.7 })];
  spec.push(g.bool() ? f('contactId', 'contact_id', () => g.id(), { req: 1 }) : f('email', 'email', () => g.email(), { req: 1 }));
  const { payload, body } = build(g, spec);
  return plain([payload], api('POST', ['events', 'send'], { body }));
});
const schema = (g) => g.map(() => g.pick(['string', 'number', 'boolean', 'date']), 10);
op('events.create', (g) => { const { payload, body } = build(g, [f('name', 'name', S, { req: 1 }), f('schema', 'schema', () => schema(g), { nullable: 1 })]); return plain([payload], api('POST', ['events'], { body })); });
idOp('events.get', 'GET', (id) => ['events', id]);
listOp('events.list', ['events']);
op('events.update', (g) => { const id = g.id(); const { payload, body } = build(g, [f('schema', 'schema', () => schema(g), { nullable: 1, req: 1 })]); return plain([id, payload], api('PATCH', ['events', id], { body })); });
idOp('events.remove', 'DELETE', (id) => ['events', id]);
listOp('logs.list', ['logs']);
idOp('logs.get', 'GET', (id) => ['logs', id]);
listOp('oauthGrants.list', ['oauth', 'grants']);
idOp('oauthGrants.revoke', 'DELETE', (id) => ['oauth', 'grants', id]);
for (const ns of ['segments', 'audiences']) {
  op(`${ns}.create`, (g, ctx) => { const { payload, body } = build(g, [f('name', 'name', S, { req: 1 })]); const ro = reqOptions(g, ctx, {}); return plain(withOptions([payload], ro), api('POST', ['segments'], { body }), { customHeaders: ro.headers }); });
  listOp(`${ns}.list`, ['segments']);
  idOp(`${ns}.get`, 'GET', (id) => ['segments', id]);
  idOp(`${ns}.remove`, 'DELETE', (id) => ['segments', id]);
}

// ---------------------------------------------------------------- suppressions
op('suppressions.add', (g) => { const { payload, body } = build(g, [f('email', 'email', () => g.email(), { req: 1 })]); return plain([payload], api('POST', ['suppressions'], { body })); });
listOp('suppressions.list', ['suppressions'], (g, o, q) => { if (g.chance(0.5)) { o.origin = g.chance(0.7) ? g.pick(['bounce', 'complaint', 'manual']) : g.nstr({ max: 40 }); q.origin = o.origin; } });
idOp('suppressions.get', 'GET', (id) => ['suppressions', id], { guarded: true });
idOp('suppressions.remove', 'DELETE', (id) => ['suppressions', id], { guarded: true });
op('suppressions.batch.add', (g) => { const emails = g.array(() => g.email(), 0, 150, 4); return plain([{ emails }], api('POST', ['suppressions', 'batch', 'add'], { body: { emails: toJson(emails) } })); });
op('suppressions.batch.remove', (g) => { const k = g.pick(['emails', 'ids']); const v = g.array(() => (k === 'emails' ? g.email() : g.id()), 0, 150, 4); return plain([{ [k]: v }], api('POST', ['suppressions', 'batch', 'remove'], { body: { [k]: toJson(v) } })); });

// ---------------------------------------------------------------- templates
const tplSpec = (g) => [
  f('name', 'name', S), f('subject', 'subject', S, { nullable: 1 }), f('html', 'html', () => g.bulkText() ?? `<p>${S(g)}</p>`), f('text', 'text', T, { nullable: 1 }), f('alias', 'alias', S, { nullable: 1 }), f('from', 'from', () => g.email(), { nullable: 1 }), f('replyTo', 'reply_to', () => g.recipients(20)),
  f('variables', 'variables', () => g.array(() => { const v = { key: g.key(), type: g.pick(['string', 'number']) }; if (g.chance(0.7)) v.fallbackValue = fallback(g); return v; }, 0, 50, 3), { map: (v) => v.map((x) => { const o = { key: toJson(x.key), type: x.type }; if (x.fallbackValue !== undefined) o.fallback_value = toJson(x.fallbackValue); return o; }) }),
];
function chain(g, ctx, base) {
  // how the chainable result is used
  const use = ctx.chainUse ? ctx.chainUse(g) : 'await';
  const id = g.id();
  base.finish = 'chain';
  base.use = use;
  base.createdId = id;
  base.okJson = [decorate(g, { object: 'template', id, ...(g.chance(0.2) ? { extra: g.json(1) } : {}) }, true)];
  if (use.includes('publish')) base.steps.push(api('POST', ['templates', id, 'publish']));
  return base;
}
op('templates.create', (g, ctx) => {
  const b = build(g, tplSpec(g));
  const react = addReact(g, ctx, b);
  return chain(g, ctx, plain([b.payload], api('POST', ['templates'], { body: b.body }), { reacts: react ? [react] : [] }));
}, { kind: 'chain' });
op('templates.duplicate', (g, ctx) => { const id = g.id(); return chain(g, ctx, plain([id], api('POST', ['templates', id, 'duplicate']))); }, { kind: 'chain' });
idOp('templates.get', 'GET', (id) => ['templates', id]);
idOp('templates.remove', 'DELETE', (id) => ['templates', id]);
idOp('templates.publish', 'POST', (id) => ['templates', id, 'publish']);
listOp('templates.list', ['templates']);
op('templates.update', (g) => { const id = g.id(); const { payload, body } = build(g, tplSpec(g)); return plain([id, payload], api('PATCH', ['templates', id], { body })); });

// ---------------------------------------------------------------- topics
op('topics.create', (g) => { const { payload, body } = build(g, [f('name', 'name', S, { req: 1 }), f('description', 'description', S), f('defaultSubscription', 'default_subscription', () => g.pick(['opt_in', 'opt_out']), { req: 1 })]); return plain([payload], api('POST', ['topics'], { body })); });
op('topics.list', () => plain([], api('GET', ['topics'], { query: {} })));
idOp('topics.get', 'GET', (id) => ['topics', id], { guarded: true });
idOp('topics.remove', 'DELETE', (id) => ['topics', id], { guarded: true });
op('topics.update', (g, ctx) => {
  const { payload, body } = build(g, [f('name', 'name', S), f('description', 'description', S)]);
  if (ctx.local && g.chance(ctx.local)) return plain([{ ...payload, id: g.pick(['', undefined, null]) }], null, { steps: [], local: 'missing_required_field' });
  const id = g.id();
  return plain([{ id, ...payload }], api('PATCH', ['topics', id], { body, optional: { id } }));
}, { guarded: true });

// ---------------------------------------------------------------- webhooks
const WEBHOOK_EVENTS = ['email.sent', 'email.delivered', 'email.bounced', 'contact.created', 'domain.updated', 'email.received'];
op('webhooks.create', (g, ctx) => {
  const { payload, body } = build(g, [f('endpoint', 'endpoint', () => g.pick(['https://example.com/hook?a=b', g.str()]), { req: 1 }), f('events', 'events', () => g.array(() => g.pick(WEBHOOK_EVENTS), 0, 20, 3), { req: 1 })]);
  const ro = reqOptions(g, ctx, {});
  return plain(withOptions([payload], ro), api('POST', ['webhooks'], { body }), { customHeaders: ro.headers });
});
op('webhooks.update', (g) => { const id = g.id(); const { payload, body } = build(g, [f('endpoint', 'endpoint', S), f('events', 'events', () => g.array(() => g.pick(WEBHOOK_EVENTS), 0, 20, 3)), f('status', 'status', () => g.pick(['enabled', 'disabled']))]); return plain([id, payload], api('PATCH', ['webhooks', id], { body })); });
listOp('webhooks.list', ['webhooks']);
idOp('webhooks.get', 'GET', (id) => ['webhooks', id]);
idOp('webhooks.remove', 'DELETE', (id) => ['webhooks', id]);
// decided without a request, by the signature and the clock
const hookSign = (key, id, ts, payload) => crypto.createHmac('sha256', key).update(`${id}.${ts}.${payload}`, 'utf8').digest('base64');
op('webhooks.verify', (g) => {
  const bytes = () => { const b = Buffer.alloc(g.size(1, 64, 24)); for (let i = 0; i < b.length; i++) b[i] = g.int(0, 255); return b; };
  const key = bytes(), b64 = key.toString('base64'), webhookSecret = g.chance(0.8) || b64.startsWith('whsec_') ? `whsec_${b64}` : b64;
  const event = { type: g.pick([...WEBHOOK_EVENTS, g.tag('ev.')]), created_at: g.date(), data: g.chance(0.5) ? { ...g.jsonObject(2), email_id: g.id(), to: [g.email()] } : g.jsonObject(3) };
  let payload = g.chance(0.8) ? JSON.stringify(event) : g.chance(0.5) ? `${JSON.stringify(event, null, 2)}\n` : JSON.stringify(g.json(2));
  let id = g.chance(0.6) ? `msg_${g.tag()}` : g.nstr({ max: 200 });
  const now = Math.floor((g.dict.now ?? Date.now()) / 1000);
  const ts = now + (g.chance(0.85) ? g.int(-100, 100) : (g.bool() ? 1 : -1) * g.int(10000, 1e7));
  const own = hookSign(key, id, ts, payload);
  let authentic = true, list = [`v1,${own}`], timestamp = String(ts);
  if (g.chance(0.4)) {
    authentic = false;
    const flip = (x) => { const k = g.int(0, x.length - 1); return x.slice(0, k) + (x[k] === 'a' ? 'b' : 'a') + x.slice(k + 1); };
    switch (g.int(0, 7)) {
      case 0: payload = g.pick([`${payload} `, flip(payload), payload.replace(/^/, '\ufeff')]); break;
      case 1: id = g.bool() ? `${id}x` : flip(id); break;
      case 2: timestamp = String(ts + 1); break;
      case 3: list = [`v1,${flip(own.slice(0, -2))}${own.slice(-2)}`]; break;
      case 4: list = [g.pick([`v2,${own}`, `v1a,${own}`, own, 'v1,', `V1,${own}`, 'garbage'])]; break;
      case 5: list = [`v1,${hookSign(bytes().length ? Buffer.concat([key, Buffer.from('x')]) : key, id, ts, payload)}`]; break;
      case 6: list = []; break;
      default: list = [`v1,${own.slice(0, g.int(0, own.length - 1))}`];
    }
  }
  if (g.chance(0.3)) list = g.shuffle([...list, `v1,${bytes().toString('base64')}`, ...(g.bool() ? [`v1a,${bytes().toString('base64')}`] : [])]);
  const headers = { id, timestamp, signature: list.join(' ') };
  if (g.chance(0.05)) { authentic = false; const k = g.pick(Object.keys(headers)); if (g.bool()) delete headers[k]; else headers[k] = g.pick(['', undefined]); }
  return { args: [{ payload, headers, webhookSecret }], steps: [], sendStep: 0, finish: 'verify', customHeaders: {}, verify: { authentic, ts: Number(timestamp), payload, secret: webhookSecret, key: b64 } };
}, { kind: 'verify' });

// ---------------------------------------------------------------- verbs of the client itself
for (const [name, method] of [['post', 'POST'], ['get', 'GET'], ['put', 'PUT'], ['patch', 'PATCH'], ['delete', 'DELETE']]) {
  op(name, (g, ctx) => {
    const id = g.id();
    const ro = reqOptions(g, ctx, { idem: name === 'post' });
    const segs = ['custom', id];
    // an address of the caller's own making is used as it is
    if (g.chance(0.5)) for (let n = g.int(0, 4); n > 0; n--) segs.push(g.chance(0.25) ? '' : g.id());
    let path = `/${segs.map((s) => (g.chance(0.3) ? encodeURIComponent(s).replace(/%(3A|40|2C|24|2B|3B|3D|26)/g, (m) => decodeURIComponent(m)) : encodeURIComponent(s))).join('/')}`;
    const query = {};
    if (g.chance(0.3)) {
      for (let n = g.int(1, 3); n > 0; n--) query[g.pick(['limit', 'after', 'q', 'expand[]', g.tag('p')])] = g.chance(0.15) ? '' : g.nstr({ max: 60 });
      path += `?${Object.entries(query).map(([k, v]) => `${encodeURIComponent(k)}=${g.chance(0.5) ? encodeURIComponent(v) : encodeURIComponent(v).replace(/%20/g, '+').replace(/%(2F|3F|3A|40|2C)/g, (m) => decodeURIComponent(m))}`).join('&')}`;
    }
    const x = { customHeaders: ro.headers, idem: ro.idem };
    const to = { query, rawPath: path };
    if (name === 'get') return plain(withOptions([path], ro), api(method, segs, to), x);
    const bodyless = name === 'delete' ? g.chance(0.6) : name === 'post' ? g.chance(0.2) : false;
    const entity = bodyless ? undefined : g.jsonObject(3);
    const args = bodyless && ro.opts === undefined ? [path] : withOptions([path, entity], ro);
    return plain(args, api(method, segs, entity === undefined ? to : { ...to, body: toJson(entity) }), x);
  }, { kind: 'verb', idem: name === 'post' });
}

export const OP_NAMES = OPS.map((o) => o.name);
