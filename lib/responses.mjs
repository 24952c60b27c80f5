// Scripted server behaviour: what each request of a call is answered with.
import { Buffer } from 'node:buffer';
import fs from 'node:fs';

export const ERROR_NAMES = ['invalid_idempotency_key', 'validation_error', 'missing_api_key', 'restricted_api_key', 'invalid_api_key', 'not_found', 'method_not_allowed', 'invalid_idempotent_request', 'concurrent_idempotent_requests', 'invalid_attachment', 'invalid_from_address', 'invalid_access', 'invalid_parameter', 'invalid_region', 'missing_required_field', 'monthly_quota_exceeded', 'daily_quota_exceeded', 'rate_limit_exceeded', 'security_error', 'application_error', 'internal_server_error'];
const NET_CODES = ['ECONNREFUSED', 'ECONNRESET', 'ENOTFOUND', 'ETIMEDOUT', 'EAI_AGAIN', 'EPIPE', 'EHOSTUNREACH', 'UND_ERR_CONNECT_TIMEOUT', 'UND_ERR_HEADERS_TIMEOUT', 'UND_ERR_BODY_TIMEOUT', 'UND_ERR_SOCKET', 'UND_ERR_ABORTED', 'CERT_HAS_EXPIRED', 'ERR_TLS_CERT_ALTNAME_INVALID'];

export function netError(g) {
  const code = () => (g.hasNovel() && g.chance(0.15) ? g.novel() ?? 'EX' : g.pick(NET_CODES));
  const r = g.f();
  if (r < 0.5) { const c = code(); return { v: new TypeError('fetch failed', { cause: Object.assign(new Error(`connect ${c} 127.0.0.1:443`), { code: c, errno: -111, syscall: 'connect' }) }), label: c }; }
  if (r < 0.6) return { v: new DOMException('This operation was aborted', 'AbortError'), label: 'AbortError' };
  if (r < 0.66) return { v: new DOMException('The operation was aborted due to timeout', 'TimeoutError'), label: 'TimeoutError' };
  if (r < 0.72) return { v: new SyntaxError('Unexpected token'), label: 'SyntaxError' };
  if (r < 0.78) { const c = code(); return { v: Object.assign(new Error(c), { code: c }), label: 'Error' }; }
  return g.pick([
    () => ({ v: 'network down', label: 'string' }), () => ({ v: undefined, label: 'undefined' }), () => ({ v: null, label: 'null' }), () => ({ v: 0, label: 'number' }),
    () => ({ v: { message: 'plain object', code: 'E', retryable: true }, label: 'object' }), () => ({ v: Object.create(null), label: 'null-proto' }), () => ({ v: Object.freeze(new Error('frozen')), label: 'frozen' }),
    () => ({ v: Symbol('net'), label: 'symbol' }), () => ({ v: new AggregateError([new Error('a'), new Error('b')], 'all failed'), label: 'aggregate' }), () => ({ v: new Error(''), label: 'emptyError' }), () => ({ v: { message: 12, name: null }, label: 'oddObject' }),
    () => ({ v: class Weird extends Error {}, label: 'class' }), () => ({ v: { status: 503, ok: false }, label: 'responseLike' }),
  ])();
}

/** what any header may say: lists, parameters, quoted text, bytes beyond ASCII, numbers, long values */
const headerValue = (g) => g.pick([
  () => 'a, b', () => '10;w=1, 100;w=60', () => '"x, y";q=0.5', () => `${g.tag()},${g.tag()}`, () => `${g.tag()}; Path=/; HttpOnly`, () => String(g.int(-5, 1e6)), () => '1.50', () => 'true', () => 'null', () => '{"a":1}',
  () => g.tag('v').repeat(g.int(20, 200)), () => 'UPPER lower', () => 'a  b\tc', () => '%41%20', () => g.date(), () => `<https://x.example/${g.tag()}?a=1&b=2>; rel="next", <https://y>; rel="prev"`,
])();

export function responseHeaders(g, extra = []) {
  const h = g.chance(0.06) ? [] : [['content-type', g.pick(['application/json', 'application/json; charset=utf-8', 'application/json', 'text/html', 'text/plain;charset=UTF-8', 'application/problem+json', g.pick(['application/json; charset=iso-8859-1', 'application/json;charset=utf-16', 'application/json; charset=windows-1252', 'text/json; charset=us-ascii', 'application/json; charset=x-unknown', 'application/octet-stream', 'multipart/form-data; boundary=x', 'application/x-ndjson', 'nonsense'])])]];
  const pool = [
    () => ['x-request-id', g.tag('req')], () => ['ratelimit-limit', '2'], () => ['ratelimit-remaining', String(g.int(0, 2))], () => ['ratelimit-reset', String(g.int(0, 60))], () => ['ratelimit-policy', '2;w=1'],
    () => ['retry-after', g.pick(['1', '0', '120', 'Wed, 21 Oct 2099 07:28:00 GMT', 'soon'])], () => ['etag', `"${g.tag('e')}"`], () => ['cache-control', 'no-store'], () => ['x-resend-monthly-quota', '12'], () => ['x-resend-daily-quota', String(g.int(0, 100))],
    () => ['set-cookie', `s=${g.tag('c')}`], () => ['location', 'https://elsewhere.example/x'], () => ['deprecation', 'true'], () => ['sunset', 'Sat, 31 Dec 2050 23:59:59 GMT'], () => ['idempotency-replayed', 'true'], () => ['link', '<https://x>; rel="next"'],
    () => ['server-timing', 'a;dur=1'], () => ['vary', 'Accept, Accept-Encoding'], () => ['x-empty', ''], () => ['cf-ray', g.tag('ray')], () => ['X-UPPER-Case', 'Value'], () => ['warning', '299 - "x"'], () => ['x-multi', 'a, b'], () => ['age', '5'], () => ['x-should-retry', 'true'], () => ['date', new Date(1.7e12 + g.int(0, 1e9)).toUTCString()],
  ];
  const n = g.size(0, 10, 3);
  for (let i = 0; i < n; i++) h.push(g.pick(pool)());
  if (g.hasNovel() && g.chance(0.25)) { const s = (g.novel() ?? '').replace(/[^A-Za-z0-9-]/g, ''); if (s && !/^(connection|transfer-encoding|content-length|content-encoding|keep-alive|trailer|upgrade|te|content-type)$/i.test(s)) h.push([s, g.chance(0.5) ? String(g.int(0, 5)) : g.pick(['true', 'false', g.tag('v')])]); }
  if (g.chance(0.2)) for (const e of h) if (e[0] !== 'content-type' && g.chance(0.4)) e[1] = headerValue(g);
  const seen = new Set();
  return [...h, ...extra].filter(([k]) => { const l = k.toLowerCase(); if (l !== 'set-cookie' && seen.has(l)) return false; seen.add(l); return true; });
}

/** notations JSON.stringify() does not use */
const NOTATIONS = ['"n":12345678901234567890', '"n":-0', '"n":1E2', '"n":1.0', '"n":1e-7', '"n":9007199254740993', '"n":1e400', '"dup":1,"dup":{"a":2}', '"\\u0069d2":"\\/x"', '"":null', '"s":"\\ud83d\\ude00\\b\\f"', '"t":true,"n":[1,[],{}]'];
function textify(g, json) {
  const r = g.f();
  if (g.chance(0.04) && json && typeof json === 'object' && !Array.isArray(json)) { const s = JSON.stringify(json); return s === '{}' ? `{${g.pick(NOTATIONS)}}` : `${s.slice(0, -1)},${g.pick(NOTATIONS)}}`; }
  if (r < 0.7) return JSON.stringify(json);
  if (r < 0.8) return JSON.stringify(json, null, 2);
  if (r < 0.87) return ` \r\n\t${JSON.stringify(json)}\n`;
  if (r < 0.92) return `\ufeff${JSON.stringify(json)}`;
  return JSON.stringify(json).replace(/[\u007f-\uffff]/g, (c) => `\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`);
}

/** the documented shapes of the answers, and the values their enumerations have */
const SHAPES = JSON.parse(fs.readFileSync(new URL('./shapes.json', import.meta.url), 'utf8'));
const VALUES = {};
(function collect(s, name) {
  if (s.k === 'lit' && typeof s.v === 'string' && name) { const l = (VALUES[name] ??= []); if (!l.includes(s.v)) l.push(s.v); }
  if (s.k === 'or') for (const x of s.of) collect(x, name);
  if (s.k === 'arr' || s.k === 'map') collect(s.of, name);
  if (s.k === 'obj') for (const [k, v] of Object.entries(s.of)) collect(v, k);
})({ k: 'or', of: Object.values(SHAPES) });
const enumerated = (g, k) => (g.hasNovel() && g.chance(0.5) ? (g.dict.novel.length && g.chance(0.7) ? g.pick(g.dict.novel) : g.novel() ?? 'x') : Object.hasOwn(VALUES, k) ? g.pick(VALUES[k]) : undefined);
function text(g, name) {
  if (g.hasNovel() && g.chance(0.08)) return g.novel() ?? 'x';
  if (/(^|_)id$/i.test(name)) return g.id();
  if (/(_at|date|^timestamp)$|At$/.test(name)) return g.date();
  if (/^(from|to|cc|bcc|reply_to|email|address)$/.test(name)) return g.email();
  if (/url|href|endpoint/.test(name)) return `https://${g.tag('u')}.example.test/${g.tag()}?x=${g.int(0, 9)}`;
  if (/^(status|last_event|type|region|capability|name|key|alias|object)$/.test(name) && g.chance(0.5)) return enumerated(g, name) ?? g.tag(name);
  return g.str({ max: 300 });
}
function fromShape(g, s, name = '', depth = 0) {
  switch (s.k) {
    case 'lit': return typeof s.v === 'string' && g.hasNovel() && g.chance(0.06) ? g.novel() ?? s.v : s.v;
    case 'bool': return g.bool();
    case 'str': return text(g, name);
    case 'num': return g.num();
    case 'or': return fromShape(g, g.pick(s.of), name, depth);
    case 'arr': return g.array(() => fromShape(g, s.of, name, depth + 1), 0, depth > 1 ? 6 : 40, 2);
    case 'map': { const o = {}; for (let n = g.int(0, 3); n > 0; n--) { const k = g.key(); if (k !== '__proto__') o[k] = fromShape(g, s.of, '', depth + 1); } return o; }
    case 'obj': { const o = {}; for (const [k, v] of Object.entries(s.of)) if (!v.opt || g.bool()) o[k] = fromShape(g, v, k, depth + 1); return o; }
  }
  return g.json(2);
}
const SPECIAL = ['error', 'data', 'headers', 'message', 'name', 'statusCode', 'status', 'code', 'id', 'object', 'errors', 'has_more', 'created_at', 'then', 'toString', 'toJSON'];
/** words of the source tree that may be field names */
const names = (g) => (g.dict.names ??= [...new Set(g.dict.strings.filter((s) => /^[a-z][a-z_]{1,30}$/i.test(s) && s !== '__proto__').concat('id', g.dict.fields ?? []))]);
export function decorate(g, o, keep) {
  if (keep) { for (const [k, v] of Object.entries(decorate(g, {}))) if (!(k in o)) o[k] = v; return o; }
  if (o && typeof o === 'object' && !Array.isArray(o)) {
    while (g.chance(0.25)) o[g.chance(0.6) ? g.pick(SPECIAL) : g.key()] = g.json(2);
    if (g.hasNovel() && g.chance(0.2)) { const k = g.novel(); if (k && k !== '__proto__') o[k] = g.json(1); }
    if (g.chance(0.12)) for (let n = g.int(1, 4); n > 0; n--) { const k = g.pick(names(g)); if (k && !(k in o)) o[k] = (g.chance(0.5) ? enumerated(g, k) : undefined) ?? (g.chance(0.5) ? g.tag() : g.json(1)); }
    if (g.chance(0.06)) { const k = g.pick(Object.keys(VALUES)); if (!(k in o)) o[k] = enumerated(g, k); }
    if (g.dict.novelFields?.length && g.chance(0.35)) { const k = g.pick(g.dict.novelFields); if (!(k in o) && k !== '__proto__') o[k] = (g.chance(0.5) ? enumerated(g, k) : undefined) ?? (g.chance(0.5) ? g.pick([g.tag(), g.id(), true, 1]) : g.json(1)); }
  }
  return o;
}
export function okJson(g, kase) {
  if (kase.batch) {
    const n = Math.min(400, Array.isArray(kase.args[0]) ? kase.args[0].length : 3);
    const o = { data: [] };
    const errs = [];
    for (let i = 0; i < n; i++) { if (g.chance(0.1)) errs.push({ index: i, message: g.str() }); else o.data.push({ id: g.chance(0.9) ? g.tag('em') : 'dup' }); }
    if (errs.length && g.chance(0.2)) errs.push({ index: g.int(0, n), message: g.str() });
    if (errs.length || g.chance(0.3)) o.errors = g.chance(0.4) ? g.shuffle(errs) : errs;
    if (g.chance(0.6)) return o;
    return g.chance(0.5) ? decorate(g, o) : okAny(g);
  }
  const shape = SHAPES[kase.opName];
  if (shape && g.chance(0.5)) { const j = fromShape(g, shape); return g.chance(0.5) ? decorate(g, j) : j; }
  return okAny(g);
}
function okAny(g) {
  const big = g.bulkText(6e6);
  if (big) return { object: 'email', id: g.id(), html: big };
  const r = g.f();
  if (r < 0.4) return decorate(g, { object: g.pick(['email', 'domain', 'contact', 'list', 'template', g.tag('o')]), id: g.id() });
  if (r < 0.6) return decorate(g, { object: 'list', has_more: g.bool(), data: g.array(() => g.jsonObject(2), 0, 100, 3) });
  if (r < 0.7) return { id: g.uuid() };
  const j = g.json(3);
  return j === null ? {} : decorate(g, j);
}
const NAME_OF = { 400: ['validation_error', 'invalid_idempotency_key', 'invalid_parameter'], 401: ['missing_api_key', 'restricted_api_key'], 403: ['invalid_api_key', 'validation_error', 'invalid_access'], 404: ['not_found'], 405: ['method_not_allowed'], 409: ['invalid_idempotent_request', 'concurrent_idempotent_requests'], 422: ['validation_error', 'invalid_attachment', 'invalid_from_address', 'invalid_region', 'missing_required_field'], 429: ['rate_limit_exceeded', 'daily_quota_exceeded', 'monthly_quota_exceeded'], 451: ['security_error'], 500: ['application_error', 'internal_server_error'], 503: ['application_error'] };
export function errorJson(g, status) {
  if (NAME_OF[status] && g.chance(0.4)) return { statusCode: status, name: g.pick(NAME_OF[status]), message: g.pick([g.tag('msg '), g.str(), 'Too many requests. You can only make 2 requests per second.', 'API key is invalid', 'Missing `to` field.']) };
  const o = {};
  const name = g.hasNovel() && g.chance(0.15) ? g.novel() ?? 'x' : g.pick(ERROR_NAMES);
  if (g.chance(0.92)) o.name = g.chance(0.97) ? name : g.json(1);
  if (g.chance(0.92)) o.message = g.chance(0.95) ? g.pick([g.tag('msg '), g.str(), 'Too many requests. You can only make 2 requests per second.', 'API key is invalid']) : g.json(1);
  if (g.chance(0.85)) o.statusCode = g.chance(0.85) ? status : g.pick([null, 0, 200, String(status), 418, g.num()]);
  // the detail a validation reports: long lists, of texts or of objects
  if (g.chance(0.08)) o[g.pick(['errors', 'errors', 'issues', 'details', 'validation_errors', 'fields'])] = g.array(() => (g.chance(0.7) ? { field: g.tag('f'), message: g.str({ max: 60 }), index: g.int(0, 9) } : g.str({ max: 60 })), 0, 250, 20);
  return g.chance(0.35) ? decorate(g, o) : o;
}
const JUNK = (g) => g.pick([
  '', ' ', '<!DOCTYPE html><html><body><h1>502 Bad Gateway</h1></body></html>', 'Bad Gateway', 'upstream connect error or disconnect/reset before headers', '{"name":"validation_error","message":', '{', '[', 'null', '"just a string"', '[]', '[{"name":"validation_error"}]', '123', 'true', 'false', 'undefined', 'NaN', "{'a':1}", '{"a":1}{"b":2}', '{"a":1} trailing', Buffer.from([0xff, 0xfe, 0x00, 0x41]), Buffer.from('7b2261223aff7d', 'hex'), Buffer.alloc(g.int(1, 5000), 0x3c), `<html>${'x'.repeat(g.int(0, 3000))}</html>`, 'error code: 1015',
]);
const UNPARSEABLE = (g) => { for (;;) { const j = JUNK(g); try { JSON.parse(Buffer.isBuffer(j) ? new TextDecoder().decode(j) : j); } catch { return j; } } };

function errorStatus(g) {
  const nn = (g.dict.novelNumbers ?? []).filter((n) => Number.isInteger(n) && n >= 300 && n <= 599);
  if (nn.length && g.chance(0.4)) return g.pick(nn);
  const r = g.f();
  if (r < 0.7) return g.pick([400, 401, 401, 403, 404, 404, 404, 405, 408, 409, 409, 410, 413, 415, 422, 422, 425, 429, 429, 451, 499, 500, 500, 501, 502, 503, 503, 504, 520, 529, 599]);
  if (r < 0.75) return g.pick([300, 304, 301, 302, 303, 307, 308]);
  return g.int(400, 599);
}
function okStatus(g) {
  const nn = (g.dict.novelNumbers ?? []).filter((n) => Number.isInteger(n) && n >= 200 && n <= 299 && n !== 204 && n !== 205);
  if (nn.length && g.chance(0.4)) return g.pick(nn);
  const r = g.f();
  if (r < 0.7) return 200;
  if (r < 0.9) return g.pick([201, 202, 203, 206, 207, 208, 226, 299]);
  const s = g.int(200, 299); return s === 204 || s === 205 ? 200 : s;
}
function maybeChunk(g, resp) { if (g.chance(0.15)) resp.chunked = g.int(1, 5); return resp; }

export const FAULTS = ['api-error', 'junk-error', 'empty-error', 'net', 'stream-error-2xx', 'stream-error-err', 'bad-json-2xx', 'empty-2xx', 'null-status', 'odd-2xx'];
/** JSON a 2xx response may carry although no operation documents it (an intermediary's, or half an answer) */
const oddJson = (g) => g.pick([null, null, {}, {}, [], [1], 'ok', '', 0, 1, true, false, { data: null }, { data: {} }, { data: 'x' }, { data: 0 }, { object: 'list' }, { object: 'list', has_more: false }, { raw: null }, { raw: {} }, { raw: 'x' }, { raw: { download_url: null } }, { raw: { download_url: '' } }, { subject: null, raw: null }, { id: null }, { id: '' }, { success: true }, { message: 'ok' }, { error: { message: 'x', name: 'validation_error', statusCode: 422 } }]);
/** response to the k-th step of a call; kind undefined = success */
export function genResponse(g, kase, k, fault) {
  const r = response(g, kase, k, fault);
  // the platform undoes transfer codings and leaves the headers that announced them
  if (r.body != null && r.body !== '' && g.chance(0.12)) {
    const n = Buffer.byteLength(r.body);
    if (g.bool()) r.headers.push(['content-length', String(n)]);
    else r.headers.push(['content-encoding', g.pick(['gzip', 'br', 'deflate', 'zstd'])], ...(g.chance(0.8) ? [['content-length', String(g.pick([Math.ceil(n / 3), Math.ceil(n / 3), n + 20]))]] : []));
  }
  return r;
}
function response(g, kase, k, fault) {
  const step = kase.steps[k];
  if (step?.kind === 'download') return genDownload(g, kase, fault);
  const headers = responseHeaders(g);
  const statusText = g.pick(['', '', 'OK', 'Error', 'Too Many Requests', g.tag('st')]);
  const streamErr = () => netError(g).v;
  switch (fault) {
    case undefined: {
      const json = kase.okJson?.[k] ?? okJson(g, kase, k);
      const r = { status: okStatus(g), statusText, headers, body: textify(g, json), kind: 'ok' };
      return maybeChunk(g, r);
    }
    case 'api-error': { const status = nz(errorStatus(g)); return maybeChunk(g, { status, statusText, headers, body: textify(g, errorJson(g, status)), kind: fault }); }
    case 'junk-error': return maybeChunk(g, { status: nz(errorStatus(g)), statusText, headers, body: JUNK(g), kind: fault });
    case 'empty-error': return { status: nz(errorStatus(g)), statusText, headers, body: g.pick([null, '']), kind: fault };
    case 'net': { const n = netError(g); return { net: n.v, kind: `net:${n.label}` }; }
    case 'stream-error-2xx': { const body = Buffer.from(textify(g, okJson(g, kase))); return { status: okStatus(g), statusText, headers, body, streamError: streamErr(), cut: g.int(0, body.length), chunked: g.int(1, 4), kind: fault }; }
    case 'stream-error-err': { const status = nz(errorStatus(g)); const body = Buffer.from(textify(g, errorJson(g, status))); return { status, statusText, headers, body, streamError: streamErr(), cut: g.int(0, body.length), chunked: g.int(1, 4), kind: fault }; }
    case 'bad-json-2xx': return maybeChunk(g, { status: okStatus(g), statusText, headers, body: UNPARSEABLE(g), kind: fault });
    case 'empty-2xx': return { status: okStatus(g), statusText, headers, body: g.pick([null, '']), kind: fault };
    case 'odd-2xx': return maybeChunk(g, { status: okStatus(g), statusText, headers, body: textify(g, oddJson(g)), kind: fault });
    case 'null-status': return { status: g.pick([204, 205, 304]), statusText, headers, body: null, kind: fault };
  }
  throw new Error(fault);
}
const nz = (s) => (s === 304 ? 400 : s);
export const DL_FAULTS = ['dl-status', 'dl-net', 'dl-stream'];
function genDownload(g, kase, fault) {
  const headers = g.chance(0.1) ? [] : [['content-type', g.pick(['message/rfc822', 'message/rfc822', 'application/octet-stream', 'text/plain; charset=iso-8859-1', 'text/plain; charset=utf-16', 'binary/octet-stream', 'text/html', 'application/xml', 'application/json', 'multipart/mixed; boundary=b', 'application/x-gzip'])]];
  if (g.chance(0.1)) headers.push(g.pick([['content-disposition', 'attachment; filename="x.eml"'], ['cache-control', 'no-store'], ['etag', '"e"'], ['x-amz-storage-class', 'GLACIER'], ['accept-ranges', 'bytes'], ['content-range', 'bytes 0-9/10'], ['retry-after', '1'], ['location', 'https://elsewhere.example/x'], ['x-amz-delete-marker', 'true'], ['warning', '110 - "stale"'], ['x-cache', 'Error from cloudfront'], ['content-language', 'en']]));
  if (g.hasNovel() && g.chance(0.2)) { const s = (g.novel() ?? '').replace(/[^\x21-\x7e]/g, ''); if (s) headers.push(/^[A-Za-z][A-Za-z-]+$/.test(s) && !/^(connection|transfer-encoding|content-length|content-encoding|keep-alive|trailer|upgrade|te|content-type)$/i.test(s) ? [s, g.tag('v')] : ['x-note', s]); }
  if (g.chance(0.3)) headers.push(['x-amz-request-id', g.tag('amz')]);
  const bytes = Buffer.from(kase.raw.bytes);
  switch (fault) {
    case undefined: return maybeChunk(g, { status: g.chance(0.6) ? 200 : okStatus(g), headers, body: bytes, kind: 'dl-ok' });
    case 'dl-status': return { status: nz(errorStatus(g)), headers, body: g.pick(['', '<Error><Code>AccessDenied</Code></Error>', '{"message":"gone"}', bytes]), kind: fault };
    case 'dl-net': { const n = netError(g); return { net: n.v, kind: `dl-net:${n.label}` }; }
    default: return { status: 200, headers, body: bytes, streamError: netError(g).v, cut: g.int(0, bytes.length), chunked: g.int(1, 4), kind: 'dl-stream' };
  }
}
/** responses for every step of a call; `okP` is the chance that a step succeeds */
export function genPlan(g, kase, { okP = 0.7, faults = FAULTS, dlFaults = DL_FAULTS } = {}) {
  const plan = [];
  for (let k = 0; k < kase.steps.length; k++) {
    const kinds = kase.steps[k].kind === 'download' ? dlFaults : faults;
    const fault = g.chance(okP) ? undefined : kinds.includes('api-error') && g.chance(0.25) ? 'api-error' : g.pick(kinds);
    plan.push(genResponse(g, kase, k, fault));
  }
  return plan;
}
