// Decides, from the record of one call, what went wrong (aspect + message).
import util from 'node:util';
import { Buffer } from 'node:buffer';
import { toJson } from './catalog.mjs';

export const show = (v, n = 300) => { const s = typeof v === 'string' ? JSON.stringify(v) : util.inspect(v, { depth: 6, breakLength: Infinity, maxArrayLength: 20, maxStringLength: 200 }); return s.length > n ? `${s.slice(0, n)}…(${s.length})` : s; };

/** first difference between an actual JSON value and the expected one, or null */
export function diff(actual, expected, path = '$') {
  if (expected !== null && typeof expected === 'object' && '$bytes' in expected && Object.keys(expected).length === 1) {
    const want = expected.$bytes;
    if (typeof actual === 'string') return actual === want || Buffer.from(actual, 'base64').equals(Buffer.from(want, 'base64')) && /^[A-Za-z0-9+/]*={0,2}$/.test(actual) ? null : `${path}: bytes differ (${show(actual, 80)} vs base64 ${show(want, 80)})`;
    if (actual && actual.type === 'Buffer' && Array.isArray(actual.data)) return Buffer.from(actual.data).equals(Buffer.from(want, 'base64')) ? null : `${path}: bytes differ`;
    return `${path}: expected bytes, got ${show(actual, 80)}`;
  }
  if (Object.is(actual, expected) || actual === expected) return null;
  if (typeof actual !== typeof expected || actual === null || expected === null || typeof actual !== 'object') return `${path}: got ${show(actual, 120)}, expected ${show(expected, 120)}`;
  if (Array.isArray(actual) !== Array.isArray(expected)) return `${path}: got ${show(actual, 120)}, expected ${show(expected, 120)}`;
  if (Array.isArray(expected)) {
    if (actual.length !== expected.length) return `${path}: ${actual.length} elements, expected ${expected.length}`;
    for (let i = 0; i < expected.length; i++) { const d = diff(actual[i], expected[i], `${path}[${i}]`); if (d) return d; }
    return null;
  }
  for (const k of Object.keys(expected)) {
    if (!Object.hasOwn(actual, k)) return `${path}.${k}: missing, expected ${show(expected[k], 120)}`;
    const d = diff(actual[k], expected[k], `${path}.${k}`);
    if (d) return d;
  }
  for (const k of Object.keys(actual)) if (!Object.hasOwn(expected, k) && actual[k] !== undefined) return `${path}.${k}: unexpected ${show(actual[k], 120)}`;
  return null;
}

const decoder = () => new TextDecoder('utf-8');
/** what a response means, independent of the SDK */
export function classify(resp) {
  if ('net' in resp) return { ok: false, kind: 'network', error: { name: 'application_error', statusCode: null }, headers: null };
  const ok = resp.status >= 200 && resp.status <= 299;
  const nullBody = [204, 205, 304].includes(resp.status);
  const headers = headerMap(resp.headers ?? []);
  const broken = 'streamError' in resp && !nullBody;
  let parsed, parseOk = false;
  if (!broken) {
    const text = nullBody || resp.body == null ? '' : decoder().decode(Buffer.isBuffer(resp.body) ? resp.body : Buffer.from(resp.body));
    try { parsed = JSON.parse(text); parseOk = true; } catch {}
  }
  if (ok) return parseOk ? { ok: true, kind: 'ok', data: parsed, headers } : { ok: false, kind: broken ? 'interrupted-2xx' : 'unparseable-2xx', error: { name: 'application_error', statusCode: null }, headers: null };
  if (parseOk && parsed !== null && typeof parsed === 'object' && !Array.isArray(parsed)) return { ok: false, kind: 'api-error', verbatim: parsed, headers };
  return { ok: false, kind: broken ? 'interrupted-error' : 'unparseable-error', error: { name: 'application_error', statusCode: resp.status }, headers };
}
const COOKIES = Symbol('set-cookie');
export function headerMap(init) {
  const h = new Headers(init); const o = {};
  for (const [k, v] of h.entries()) o[k] = v;
  Object.defineProperty(o, COOKIES, { value: h.getSetCookie() });
  return o;
}

/** expected requests and outcome for a call given the responses it is served */
export function expectation(rec) {
  const { kase } = rec;
  if (kase.local) return { count: 0, local: kase.local };
  if (kase.finish === 'verify') return { count: 0, verify: kase.verify };
  if (kase.renderFails) return { count: 0, rejects: true };
  const resp = (k) => rec.planned[k];
  if (kase.finish === 'plain') {
    const c = classify(resp(0));
    if (resp(0).kind === 'odd-2xx' && kase.mapData) return { count: 1, result: { data: c.data, headers: c.headers, loose: kase.opName !== 'contactProperties.list' } };
    return { count: 1, result: c.ok ? { data: kase.mapData ? kase.mapData(c.data) : c.data, headers: c.headers } : c };
  }
  if (kase.finish === 'chain') {
    const c = classify(resp(0));
    const pub = kase.use.includes('publish');
    const first = c.ok ? { data: c.data, headers: c.headers } : c;
    if (!pub) return { count: 1, result: first };
    if (!c.ok) return { count: 1, result: { ...c, headers: undefined }, first };
    if (resp(0).kind === 'odd-2xx') return { count: 1, result: { ok: false, error: { name: 'application_error' }, headers: undefined }, first }; // no id to publish
    const p = classify(resp(1));
    return { count: 2, result: p.ok ? { data: p.data, headers: p.headers } : p, first };
  }
  if (kase.finish === 'forward') {
    const c = classify(resp(0));
    if (!c.ok) return { count: 1, result: c };
    if (!kase.hasRaw || resp(0).kind === 'odd-2xx') return { count: 1, result: { ok: false, error: { name: 'validation_error', statusCode: 400 }, headers: undefined } };
    if (kase.badUrl) return { count: 2, countMin: 1, result: { ok: false, error: { name: 'application_error', statusCode: null }, headers: undefined } };
    const d = resp(1);
    const dOk = !('net' in d) && d.status >= 200 && d.status <= 299 && !('streamError' in d);
    if (!dOk) {
      const status = 'net' in d ? null : d.status >= 200 && d.status <= 299 ? undefined : d.status;
      return { count: 2, result: { ok: false, error: { name: 'application_error', statusCode: status }, headers: undefined } };
    }
    if (kase.passthrough && kase.raw.expected?.unparseable) return { count: 2, result: { ok: false, error: { name: 'application_error', statusCode: null }, headers: undefined } };
    const p = classify(resp(2));
    return { count: 3, result: p.ok ? { data: p.data, headers: p.headers } : p };
  }
  throw new Error(`finish ${kase.finish}`);
}

const PLATFORM = new Set(['host', 'connection', 'accept', 'accept-language', 'accept-encoding', 'sec-fetch-mode', 'content-length', 'transfer-encoding', 'user-agent', 'authorization', 'content-type', 'idempotency-key', 'x-batch-validation']);

function checkApiRequest(ev, step, rec, isSend, add) {
  const { cfg, kase } = rec;
  if (ev.method !== step.method) add('method', `method ${ev.method}, expected ${step.method}`);
  const base = new URL(cfg.baseUrl);
  const u = ev.url;
  if (u.origin !== base.origin) add('url', `origin ${u.origin}, expected ${base.origin}`);
  if (u.hash) add('url', `fragment ${u.hash} in ${u.href}`);
  const basePath = base.pathname.replace(/\/$/, '');
  if (!u.pathname.startsWith(`${basePath}/`)) add('path', `path ${u.pathname} outside ${basePath}`);
  let segs;
  try { segs = u.pathname.slice(basePath.length + 1).split('/').map(decodeURIComponent); } catch { segs = ['<malformed>', u.pathname]; }
  if (segs.length !== step.path.length || segs.some((s, i) => s !== step.path[i])) add('path', `path ${u.pathname} decodes to ${show(segs)}, expected ${show(step.path)}`);
  if (step.rawPath !== undefined && u.href !== new URL(cfg.baseUrl + step.rawPath).href) add('path', `${u.href} requested, asked for ${step.rawPath}`);
  const want = step.query ?? {};
  const got = [...u.searchParams.entries()];
  const seen = new Set();
  for (const [k, v] of got) {
    if (seen.has(k)) add('query', `query parameter ${k} repeated in ${u.search}`);
    seen.add(k);
    if (!Object.hasOwn(want, k)) add('query', `unexpected query parameter ${k}=${show(v)}`);
    else if (want[k] !== v) add('query', `query parameter ${k} is ${show(v)}, expected ${show(want[k])}`);
  }
  for (const k of Object.keys(want)) if (!seen.has(k)) add('query', `query parameter ${k}=${show(want[k])} missing from ${show(u.search)}`);

  // headers
  const h = ev.headers, custom = isSend ? kase.customHeaders ?? {} : {};
  const header = (name, aspect, expected) => { if (h[name]?.trim() !== expected?.trim()) /* blanks around a value have no meaning */ add(aspect, `header ${name} is ${show(h[name])}, expected ${show(expected)}`); };
  if (!('authorization' in custom)) header('authorization', 'auth', `Bearer ${cfg.key}`);
  if (!('user-agent' in custom)) { if (cfg.userAgent !== undefined) header('user-agent', 'ua', cfg.userAgent); }
  for (const [k, v] of Object.entries(custom)) {
    if (k === 'x-batch-validation') continue;
    if (k === 'idempotency-key' && kase.idem !== undefined) continue;
    header(k, 'customHeader', v);
  }
  for (const k of Object.keys(h)) if (!PLATFORM.has(k) && !(k in custom)) add('leakHeader', `header ${k}: ${show(h[k])} was not asked for`);
  const hasJson = step.body !== undefined;
  if (step.form) {
    if (!/^multipart\/form-data;\s*boundary=/.test(h['content-type'] ?? '')) add('ct', `content type of a multipart request is ${show(h['content-type'])}`);
  } else if (hasJson && !('content-type' in custom) && !/^application\/json\b/i.test(h['content-type'] ?? '')) add('ct', `content type of a JSON request is ${show(h['content-type'])}`);
  if (isSend && kase.idem !== undefined) header('idempotency-key', 'idem', kase.idem);
  else if (h['idempotency-key'] !== undefined && custom['idempotency-key'] === undefined) add('idem', `unrequested idempotency key ${show(h['idempotency-key'])}`);
  if (kase.batch) header('x-batch-validation', 'batchMode', kase.batchMode);
  else if (h['x-batch-validation'] !== undefined && custom['x-batch-validation'] === undefined) add('leakHeader', 'batch validation header on another request');

  // body
  if (step.form) { checkForm(ev, step.form, add); return; }
  if (!hasJson) {
    if (ev.body.length && ev.body.toString() !== '{}') add('body', `unexpected body ${show(ev.body.toString())}`);
    return;
  }
  let json;
  if (!ev.body.length) json = {}; else { try { json = JSON.parse(ev.body.toString('utf8')); } catch { add('body', `body is not JSON: ${show(ev.body.toString())}`); return; } }
  ev.json = json;
  if (step.body.$mime) { checkMime(json, step, rec, add); return; }
  if (step.optional && json && typeof json === 'object') { json = { ...json }; for (const [k, v] of Object.entries(step.optional)) if (json[k] === v) delete json[k]; }
  if (kase.batch && Array.isArray(json) && Array.isArray(step.body) && json.length !== step.body.length) add('batchCount', `${json.length} emails in the batch, expected ${step.body.length}`);
  const d = diff(json, step.body);
  if (d) add('body', `body ${d}`);
}

function checkMime(json, step, rec, add) {
  const { $mime, ...rest } = step.body;
  if (Array.isArray(json?.attachments)) json = { ...json, attachments: json.attachments.map((a) => { if (a?.filename !== null) return a; const { filename, ...r } = a; return r; }) };
  const exp = $mime.expected; // filled by prepare()
  if (exp.text !== undefined) rest.text = exp.text;
  if (exp.html !== undefined) rest.html = exp.html;
  if (exp.attachments?.length) rest.attachments = exp.attachments;
  const d = diff(json, rest);
  if (d) add('mime', `forwarded body ${d}`);
}

function checkForm(ev, form, add) {
  const parts = ev.form ?? parseMultipart(ev, add);
  if (!parts) return;
  const names = parts.map((p) => p.name);
  for (const n of new Set(names)) if (names.filter((x) => x === n).length > 1) add('form', `form field ${n} repeated`);
  const get = (n) => parts.find((p) => p.name === n);
  const file = get('file');
  if (!file) add('form', 'file part missing');
  else {
    if (!file.data.equals(form.file.bytes)) add('form', `file content differs: ${file.data.length} bytes, expected ${form.file.bytes.length}`);
    if (form.file.name !== undefined && file.filename !== form.file.name) add('form', `file name ${show(file.filename)}, expected ${show(form.file.name)}`);
    if (form.file.type && file.type !== form.file.type) add('form', `file type ${show(file.type)}, expected ${show(form.file.type)}`);
  }
  for (const [n, w] of Object.entries(form.fields)) {
    const p = get(n);
    if (!p) { add('form', `form field ${n} missing`); continue; }
    const text = p.data.toString('utf8');
    if (w.text !== undefined) { if (text !== w.text) add('form', `form field ${n} is ${show(text)}, expected ${show(w.text)}`); continue; }
    let j; try { j = JSON.parse(text); } catch { add('form', `form field ${n} is not JSON: ${show(text)}`); continue; }
    const d = diff(j, w.json);
    if (d) add('form', `form field ${n} ${d}`);
  }
  for (const n of names) if (n !== 'file' && !Object.hasOwn(form.fields, n)) add('form', `unexpected form field ${n}`);
}

/** independent multipart parser */
export function parseMultipart(ev, add = () => {}) {
  const m = /boundary=(?:"([^"]+)"|([^;\s]+))/.exec(ev.headers['content-type'] ?? '');
  if (!m) { add('form', 'no multipart boundary'); return null; }
  const delim = Buffer.from(`--${m[1] ?? m[2]}`);
  const buf = ev.body;
  const parts = [];
  let pos = buf.indexOf(delim);
  if (pos !== 0) { add('form', 'multipart body does not start with its boundary'); return null; }
  for (;;) {
    pos += delim.length;
    if (buf.subarray(pos, pos + 2).toString() === '--') break;
    pos += 2;
    const he = buf.indexOf('\r\n\r\n', pos);
    const next = buf.indexOf(Buffer.concat([Buffer.from('\r\n'), delim]), he + 2);
    if (he < 0 || next < 0) { add('form', 'truncated multipart body'); return null; }
    const head = buf.subarray(pos, he).toString('utf8');
    const un = (s) => s?.replace(/%22/g, '"').replace(/%0D/g, '\r').replace(/%0A/g, '\n');
    parts.push({ name: un(/\bname="([^"]*)"/.exec(head)?.[1]), filename: un(/filename="([^"]*)"/.exec(head)?.[1]), type: /content-type:\s*(.*)/i.exec(head)?.[1]?.trim(), data: Buffer.from(buf.subarray(he + 4, next)) });
    pos = next + 2;
  }
  return parts;
}

function checkDownload(ev, step, rec, add) {
  if (ev.method !== 'GET') add('method', `download with method ${ev.method}`);
  if (ev.url.href !== new URL(step.url).href) add('path', `download of ${ev.url.href}, expected ${step.url}`);
  for (const [k, v] of Object.entries(ev.headers)) {
    if (['host', 'connection', 'accept', 'accept-language', 'accept-encoding', 'sec-fetch-mode'].includes(k)) continue;
    if (k === 'user-agent' && v !== rec.cfg.userAgent) continue;
    add('dlHeaders', `download request carries header ${k}: ${show(v, 80)}`);
  }
  if (ev.body.length) add('dlHeaders', 'download request has a body');
}

/** all discrepancies of one call */
export function checkCall(rec) {
  const issues = [];
  const add = (aspect, msg) => issues.push({ aspect, msg: `[${rec.kase.opName}] ${msg}` });
  const { kase, outcome } = rec;
  const exp = expectation(rec);
  // requests
  const reqs = rec.requests;
  if (reqs.length > exp.count || reqs.length < (exp.countMin ?? exp.count)) add('count', `${reqs.length} requests (${reqs.map((r) => `${r.method} ${r.url?.pathname}`).join(', ')}), expected ${exp.count}`);
  if (reqs.length < (exp.countMin ?? exp.count)) add('missing', `only ${reqs.length} of ${exp.count} requests made`);
  for (const r of reqs) if (r.late) add('late', `request ${r.method} ${r.url?.href} after the call had settled`);
  reqs.forEach((ev, i) => {
    if (ev.invalid && kase.badUrl && i === 1) return;
    if (ev.invalid) { add('url', `request rejected by the platform: ${ev.invalid.message} (${show(ev.rawUrl)})`); return; }
    for (const u of ev.unusual ?? []) add('plain', `request ${ev.method} ${ev.url.href} is not a plain one (${u})`);
    const step = kase.steps[i];
    if (i >= exp.count || !step) return;
    if (step.kind === 'download') checkDownload(ev, step, rec, add); else checkApiRequest(ev, step, rec, i === (kase.sendStep ?? 0), add);
  });
  for (const r of reqs) if (!r.invalid && r.url && keyIn(rec, r)) add('keyLeak', keyIn(rec, r));
  // outcome
  checkOutcome(rec, exp, add);
  // diagnostics
  if (kase.verify && kase.verify.key.length >= 8) for (const l of rec.logs) if (util.inspect(l.args, { depth: 10, maxStringLength: null, maxArrayLength: null }).includes(kase.verify.key)) add('webhook', `webhook secret in ${l.via}`);
  for (const l of rec.logs) if (util.inspect(l.args, { depth: 10, maxStringLength: null, maxArrayLength: null }).includes(rec.cfg.key)) add('keyLeak', `API key in ${l.via}`);
  return issues;
}

function keyIn(rec, r) {
  const key = rec.cfg.key;
  const baseOrigin = new URL(rec.cfg.baseUrl).origin;
  if (r.url.href.includes(key) || r.url.href.includes(encodeURIComponent(key))) return `API key in URL ${r.url.href}`;
  if (r.body?.includes(key) && !rec.keyInArgs) return 'API key in a request body';
  for (const [k, v] of Object.entries(r.headers)) {
    if (!v.includes(key)) continue;
    if (k !== 'authorization') return `API key in header ${k}`;
    if (r.url.origin !== baseOrigin) return `API key sent to ${r.url.origin}`;
  }
  return null;
}

function checkOutcome(rec, exp, add) {
  const { outcome } = rec;
  if (outcome.kind === 'pending') { add('outcomeKind', 'the call never settled'); return; }
  if (exp.verify) { checkVerified(rec, exp.verify, add); return; }
  if (exp.rejects) { if (outcome.kind !== 'reject' && outcome.kind !== 'throw') add('reject', `resolved with ${show(outcome.value)} although rendering failed`); return; }
  if (outcome.kind !== 'value') { add('outcomeKind', `${outcome.kind === 'throw' ? 'threw' : 'rejected with'} ${show(outcome.error?.message ?? outcome.error)}`); return; }
  const res = outcome.value;
  const extra = rec.aux ?? [];
  checkResult(rec, res, exp, exp.local ? { local: exp.local } : exp.result, add);
  for (const x of extra) checkResult(rec, x.value, exp, x.first ? exp.first ?? exp.result : exp.result, add);
}

/** acceptance of a webhook message, by its signature and the clock of the call */
function checkVerified(rec, { authentic, ts, payload, secret, key }, add) {
  const { outcome } = rec;
  const away = Math.abs(rec.clock / 1000 - ts);
  const accepted = outcome.kind === 'value';
  if (rec.returned && typeof rec.returned.then === 'function') add('webhook', 'the verdict is a promise');
  else if (accepted && (!authentic || away > 302)) add('webhook', `accepted a message that is not ${authentic ? 'fresh' : 'authentic'}`);
  else if (!accepted && authentic && away < 299) add('webhook', `rejected an authentic message ${Math.round(away)} s from the clock: ${show(outcome.error?.message ?? outcome.error)}`);
  else if (accepted) { const d = diff(outcome.value, JSON.parse(payload)); if (d) add('webhook', `verified payload ${d}`); } else {
    const e = outcome.error;
    if (!(e instanceof Error)) { add('webhook', `threw ${show(e)}`); return; }
    const has = (x) => util.inspect(e, { depth: 6, showHidden: true }).replace(/\n\s+at .*/g, '').includes(x) || hidden(e, x);
    if (rec.cfg.key && has(rec.cfg.key)) add('keyLeak', 'API key in the error of a verification');
    if (key.length >= 8 && has(key)) add('webhook', 'the error of a verification carries the secret');
  }
}

/** whether a string is reachable from a value by any property, enumerable or not */
function hidden(root, needle) {
  const seen = new Set([root]);
  for (const v of seen) {
    if (seen.size > 3000) break;
    const parts = [];
    if (v instanceof Headers || v instanceof Map || v instanceof Set || v instanceof Request) parts.push(...(v instanceof Request ? v.headers : v));
    for (const k of Reflect.ownKeys(v)) { if (Array.isArray(v) && seen.size > 200) break; const d = Object.getOwnPropertyDescriptor(v, k); if (d && 'value' in d) parts.push(k, d.value); else { try { parts.push(v[k]); } catch {} } }
    for (const p of parts) { if (typeof p === 'string' ? p.includes(needle) : p !== null && (typeof p === 'object' || typeof p === 'function') && p !== Function.prototype && !seen.has(p)) { if (typeof p === 'string') return true; seen.add(p); } }
  }
  return false;
}

/** results are sent on and stored: nothing in them may be lost by JSON */
function serialisable(res, flat, add) {
  for (const part of ['data', 'error', 'headers']) {
    if ((res[part] ?? null) === null) continue;
    const d = diff(flat[part], res[part]);
    if (d && !unwritable(res[part])) add('shape', `${part} does not survive JSON.stringify: ${d}`);
  }
  const e = res.error;
  if (e && typeof e === 'object') for (const k of ['name', 'message', 'statusCode']) if (e[k] !== undefined && typeof e[k] !== 'object' && e[k] !== flat.error?.[k]) add('shape', `error.${k} ${show(e[k])} is lost by JSON.stringify`);
}
// no JSON text stands for these (1e999 parses to Infinity)
const unwritable = (v) => v === undefined || typeof v === 'number' && !Number.isFinite(v) || v !== null && typeof v === 'object' && Object.values(v).some(unwritable);

function checkResult(rec, res, exp, want, add) {
  if (res === null || typeof res !== 'object' || !('data' in res) || !('error' in res) || !('headers' in res)) { add('shape', `result is ${show(res)}`); return; }
  for (const k of Object.keys(res)) if (!['data', 'error', 'headers'].includes(k)) add('shape', `result has unexpected member ${k}`);
  const jsonNull = 'data' in want && want.data === null; // the server's whole answer was null
  if (jsonNull ? res.error !== null : (res.data === null || res.data === undefined) === (res.error === null || res.error === undefined)) add('shape', `result has ${res.data === null ? 'neither' : 'both'} data and error: ${show(res)}`);
  if (res.headers !== null && (typeof res.headers !== 'object' || res.headers instanceof Headers)) add('shape', `headers is ${show(res.headers)}`);
  try {
    const text = JSON.stringify(res);
    if (rec.cfg.key && !rec.keyInArgs && text.includes(rec.cfg.key)) add('keyLeak', 'API key in a result');
    if (rec.cfg.key && !rec.keyInArgs && hidden(res, rec.cfg.key)) add('keyLeak', 'API key in a hidden part of a result');
    if (text.length < 200000) serialisable(res, JSON.parse(text), add);
  } catch {}
  if (want.local) {
    if (res.data !== null || res.error?.name !== want.local || typeof res.error?.message !== 'string' || !res.error.message) add('local', `expected a local ${want.local} error, got ${show(res)}`);
    return;
  }
  if ('data' in want) {
    if (res.error !== null) { add('error', `unexpected error ${show(res.error)}`); return; }
    const d = want.loose ? null : diff(res.data, want.data);
    if (d) add('data', `data ${d}`);
  } else {
    if (res.data !== null) add('data', `data ${show(res.data)} despite a failure`);
    const e = res.error;
    if (want.verbatim) { const d = diff(e, want.verbatim); if (d) add('error', `error ${d}`); } else {
      if (e === null || typeof e !== 'object' || Array.isArray(e) || typeof e.message !== 'string' || typeof e.name !== 'string') add('shape', `error is ${show(e)}`);
      else {
        if (e.name !== want.error.name) add('error', `error name ${show(e.name)}, expected ${want.error.name}`);
        if (want.error.statusCode !== undefined ? e.statusCode !== want.error.statusCode : !(e.statusCode === null || typeof e.statusCode === 'number')) add('error', `error statusCode ${show(e.statusCode)}, expected ${want.error.statusCode}`);
      }
    }
  }
  if (want.headers !== undefined) {
    if (want.headers === null) { if (res.headers !== null) add('headers', `headers ${show(res.headers)}, expected null`); } else if (res.headers === null) add('headers', 'headers missing');
    else {
      for (const [k, v] of Object.entries(want.headers)) {
        if (k === 'set-cookie') { // a record has room for one of several cookies, or for all of them joined
          const all = want.headers[COOKIES];
          if (!all.includes(res.headers[k]) && res.headers[k] !== all.join(', ')) add('headers', `header set-cookie is ${show(res.headers[k])}, expected ${show(all)}`);
          continue;
        }
        if (res.headers[k] !== v) add('headers', `header ${k} is ${show(res.headers[k])}, expected ${show(v)}`);
      }
      if (!rec.wire) for (const k of Object.keys(res.headers)) if (!(k in want.headers)) add('headers', `header ${k} was not sent by the server`);
    }
  }
}

/** diagnostics of one call against the failures it met */
export function checkLogs(rec, modeAtFailure) {
  const issues = [];
  const add = (msg) => issues.push({ aspect: 'logs', msg: `[${rec.kase.opName}] ${msg}` });
  if (modeAtFailure === 'production') {
    for (const l of rec.logs) add(`wrote ${show(l.args)} to ${l.via} in production`);
    return issues;
  }
  const failed = [];
  let maybe = 0;
  rec.requests.forEach((ev, i) => {
    if (ev.invalid && rec.kase.badUrl) maybe++;
    if (!ev.resp || ev.invalid) return;
    const step = rec.kase.steps[i];
    if (step?.kind === 'download') { const r = ev.resp; if ('net' in r || r.status > 299 || 'streamError' in r) maybe++; return; }
    const c = classify(ev.resp);
    if (!c.ok) failed.push(ev);
  });
  if (rec.logs.length < failed.length || rec.logs.length > failed.length + maybe) add(`${rec.logs.length} reports for ${failed.length} failed API requests: ${show(rec.logs.map((l) => l.args))}`);
  else for (const ev of failed) {
    const path = ev.rawUrl.slice(rec.cfg.baseUrl.length);
    const error = failed.length === 1 && rec.outcome.kind === 'value' ? rec.outcome.value?.error : null;
    const hit = rec.logs.some((l) => { const v = leaves(l.args); return v.strings.some((s) => s.includes(path)) && (!error || v.objects.some((o) => diff(o, error) === null && diff(error, o) === null) || typeof error.message === 'string' && error.message !== '' && v.strings.some((s) => s.includes(error.message))); });
    if (!hit) add(`no report of the failure of ${path} with ${show(error)}: ${show(rec.logs.map((l) => l.args))}`);
  }
  return issues;
}
function leaves(v, out = { strings: [], objects: [] }, depth = 6) {
  if (typeof v === 'string') out.strings.push(v);
  else if (v && typeof v === 'object' && depth > 0) { out.objects.push(v); if (v instanceof Error) out.strings.push(v.message); for (const k of Object.keys(v)) leaves(v[k], out, depth - 1); }
  return out;
}

/** what the harness froze itself, where frozenness says nothing about the SDK */
export const frozenByUs = new WeakSet();
const protoIds = new WeakMap();
let protoId = 0;
/** structural snapshot of arguments, for the non-modification monitor */
export function snapshot(v, seen = new Map()) {
  if (v === null || (typeof v !== 'object' && typeof v !== 'function')) return typeof v === 'number' && Object.is(v, -0) ? '-0' : `${typeof v}:${String(v)}`;
  if (seen.has(v)) return `@${seen.get(v)}`;
  seen.set(v, seen.size);
  if (typeof v === 'function') return 'function';
  if (v.$$typeof) return `React(${String(v.key)})`; // elements are instances of another library
  const free = frozenByUs.has(v);
  const lock = free || Object.isExtensible(v) ? '' : '(not extensible)';
  if (v instanceof Headers) return `${lock}Headers(${JSON.stringify([...v.entries()])})`;
  if (Buffer.isBuffer(v)) return `${lock}Buffer(${v.toString('base64')})`;
  if (v instanceof Date) return `${lock}Date(${v.getTime()})`;
  if (v instanceof Blob) return `${lock}Blob(${v.size},${v.type},${v.name ?? ''})`;
  const own = Reflect.ownKeys(v).map((k) => {
    const d = Object.getOwnPropertyDescriptor(v, k);
    return `${String(k)}${d.enumerable ? '' : '!'}${free || d.configurable || (k === 'length' && Array.isArray(v)) ? '' : '(not configurable)'}${free || d.writable !== false ? '' : '(read-only)'}=${'value' in d ? snapshot(d.value, seen) : 'accessor'}`;
  });
  const proto = Object.getPrototypeOf(v);
  let kind = Array.isArray(v) ? 'A' : proto === null ? 'N' : 'O';
  if (proto !== null && proto !== Object.prototype && proto !== Array.prototype) { if (!protoIds.has(proto)) protoIds.set(proto, ++protoId); kind += protoIds.get(proto); }
  return `${kind}${lock}{${own.join(',')}}`;
}

export { toJson };
