import { makeRng } from './rng.mjs';
import { sampleRegex } from './mine.mjs';

const NASTY = [
  '', ' ', '0', 'null', 'undefined', 'true', 'false', 'NaN', '-1', '1e3', '[]', '{}', '[object Object]', '__proto__', 'constructor', 'toString',
  'a b', ' lead', 'trail ', 'tab\there', 'line\nbreak', 'crlf\r\nInjected: yes', 'nul\0byte', 'quote"s', "apo'strophe", 'back\\slash', '`tick`', '${x}', '{{var}}',
  'a/b', '/lead', 'trail/', 'a//b', '../x', './y', 'a?b=c', 'a#b', 'a&b', 'a=b', 'a+b', 'a%20b', '%', '%2F', '%zz', 'a;b', 'a,b', 'a:b', 'a@b', '@', 'a|b', 'a^b', '<b>&amp;</b>', '<script>alert(1)</script>',
  'é', 'ß', 'ñandú', '日本語', '😀', '👩‍👩‍👧', 'e\u0301', '\u200b', '\ufeffbom', '\u2028', '\u2029', 'İ', 'ǆ', '\uffff', '𝒳', 'שלום', '٣',
  'Jane Doe <jane@example.com>', 'user+tag@example.com', '"quoted local"@example.com', 'UPPER@EXAMPLE.COM', 'o\'brien@example.com', 'a#b@example.com', 'x%y@example.com', 'q?x@example.com', 's/lash@example.com',
  'text/html; charset=utf-8', '2026-08-05T11:52:01.858Z', 'in 2 days', '2026-02-30', 'https://example.com/a?b=c#d', 'data:text/html;base64,PGI+', 'firstName', 'reply_to', 'createdAt',
];
const CAMEL_KEYS = ['firstName', 'lastName', 'replyTo', 'createdAt', 'fallbackValue', 'eventName', 'segmentId', 'contentType', 'X-Entity-Ref-ID', 'List-Unsubscribe', 'snake_case_key', 'UPPER', 'with space', 'with.dot', 'with-dash', '0', '10', 'ключ', '😀', 'constructor', 'toString', 'hasOwnProperty', 'length', 'then', 'id', 'type', 'key', 'react', 'html', 'data', 'error', '', 'a'.repeat(120)];

const own = (o, k, value) => Object.defineProperty(o, k, { value, writable: true, enumerable: true, configurable: true });
export class G {
  constructor(seed, dict = { strings: [], novel: [], numbers: [], regexes: [] }) {
    this.rnd = makeRng(seed);
    this.dict = dict;
    this.counter = 0;
    this.tagBase = Math.floor(this.rnd() * 2 ** 32).toString(36);
  }
  f() { return this.rnd(); }
  chance(p) { return this.rnd() < p; }
  int(lo, hi) { return lo + Math.floor(this.rnd() * (hi - lo + 1)); }
  pick(a) { return a[Math.floor(this.rnd() * a.length)]; }
  shuffle(a) { const b = a.slice(); for (let i = b.length - 1; i > 0; i--) { const j = this.int(0, i); [b[i], b[j]] = [b[j], b[i]]; } return b; }
  /** a token that occurs nowhere else in the run */
  tag(p = 'k') { return `${p}${this.tagBase}z${(this.counter++).toString(36)}`; }

  /** boundary-biased size; numbers of the source tree (N, N±1) are tried when they fit */
  numbersIn(min, max) {
    const c = (this.numCache ??= new Map()), k = `${min},${max}`;
    let v = c.get(k);
    if (!v) c.set(k, v = this.dict.numbers.filter((n) => Number.isInteger(n) && n >= min - 1 && n <= max + 1));
    return v;
  }
  size(min, max, typical = 4, opts = {}) {
    const nn = this.dict.novelNumbers;
    if (nn?.length && this.chance(0.12)) {
      const n = this.pick(nn);
      if (Number.isInteger(n) && n >= min && n <= (opts.hard ?? max)) return Math.max(min, n + this.pick([-1, 0, 1, 2]));
    }
    const nums = this.numbersIn(min, max);
    if (nums.length && this.chance(0.3)) return Math.min(max, Math.max(min, this.pick(nums) + this.pick([-1, 0, 1])));
    const r = this.rnd();
    if (r < 0.12) return min;
    if (r < 0.3) return Math.min(max, min + 1);
    if (r < 0.92) return Math.min(max, this.int(min, Math.max(min, typical)));
    if (r < 0.985) return Math.min(max, this.int(min, Math.min(max, typical * 6)));
    return this.int(Math.min(max, Math.max(min, Math.floor(max / 2))), max);
  }
  num() {
    if (this.dict.novelNumbers?.length && this.chance(0.2)) return this.pick(this.dict.novelNumbers) + this.pick([-1, 0, 0, 1]);
    const r = this.rnd();
    if (this.dict.numbers.length && r < 0.25) return this.pick(this.dict.numbers) + this.pick([-1, 0, 0, 1]);
    if (r < 0.5) return this.pick([0, 1, -1, 2, 10, 100, 255, 256, 1000, 65535, 65536, 2 ** 31, -(2 ** 31), Number.MAX_SAFE_INTEGER, 1e21, 0.1, -0.5, 1.0000001]);
    return this.int(-1000, 1000) + (this.chance(0.2) ? 0.25 : 0);
  }
  novel() {
    const { novel, regexes } = this.dict;
    if (regexes.length && (!novel.length || this.chance(0.3))) {
      const s = sampleRegex(this.pick(regexes), this.rnd);
      if (s !== undefined) return this.dress(s);
    }
    return novel.length ? this.dress(this.pick(novel)) : undefined;
  }
  dress(s) { return this.dressed(s).toWellFormed(); } // text with lone surrogates has no place in a path
  dressed(s) {
    const r = this.rnd();
    if (r < 0.4) return s;
    if (r < 0.55) return s + this.tag();
    if (r < 0.7) return this.tag() + s;
    if (r < 0.8) return this.tag() + s + this.tag();
    if (r < 0.86) return s + s;
    if (r < 0.91) return s.toUpperCase();
    if (r < 0.95) return s.toLowerCase();
    return s.slice(0, Math.max(1, s.length - 1));
  }
  hasNovel() { return this.dict.novel.length + this.dict.regexes.length > 0; }
  strLen(max = 3000) {
    const n = this.size(0, max, 12, { hard: 300000 });
    const alphabet = this.pick(['a', 'abc ', 'é', '😀', '0123456789', 'aB/?#&%+ ', '\n', '日本']);
    let s = '';
    const chars = [...alphabet];
    if (n > 4000) s = alphabet.repeat(Math.ceil(n / alphabet.length));
    else while (s.length < n) s += this.pick(chars);
    return s.slice(0, n).isWellFormed() ? s.slice(0, n) : s;
  }
  /** rarely (bulkP, once per case): megabytes */
  bulkSize(max = 12e6, weight = 1) {
    if (!this.bulkP || this.bulked) return 0;
    const c = (this.dict.bulkNumbers ??= (this.dict.novelNumbers ?? []).filter((n) => Number.isInteger(n) && n > 20000 && n <= 4e7));
    if (!this.chance(this.bulkP * weight * (c.length ? 4 : 1))) return 0;
    this.bulked = true;
    if (c.length && this.chance(0.7)) { const n = this.pick(c); return this.chance(0.5) ? n + this.int(-1, 2) : Math.min(4e7, Math.ceil(n * this.pick([1, 1, 1, 2, 3, 4, 8]) * (1 + this.f() / 2))); }
    return Math.floor(Math.min(max, 3e5 * 40 ** this.f()));
  }
  bulkText(max) { const n = this.bulkSize(max); if (!n) return undefined; let block = ''; while (block.length < 60000) block += this.pick(['lorem ipsum ', 'é日本 ', '\r\n', '<b>x</b>', this.tag()]); return block.repeat(Math.ceil(n / block.length)).slice(0, n); }
  bulkBytes(max, weight) { const n = this.bulkSize(max, weight); if (!n) return undefined; const b = Buffer.alloc(n); for (let i = 0; i < Math.min(n, 60000); i++) b[i] = this.int(0, 255); for (let off = 60000, k = 1; off < n; off += 60000, k++) { b.copyWithin(off, 0, Math.min(60000, n - off)); b[off] = k & 255; } return b; }
  randomText(max = 24) {
    const n = this.int(1, max);
    let s = '';
    const mode = this.int(0, 3);
    for (let i = 0; i < n; i++) {
      if (mode === 0) s += String.fromCharCode(this.int(32, 126));
      else if (mode === 1) s += String.fromCodePoint(this.pick([this.int(0, 0xff), this.int(0x100, 0xd7ff), this.int(0xe000, 0xfffd), this.int(0x10000, 0x10ffff)]));
      else if (mode === 2) s += this.pick([...'/?#%&=+;,:@!$\'()*[]{}|\\^~` "<>._-']);
      else s += this.pick([...'abcdefghijklmnopqrstuvwxyz0123456789']);
    }
    return s;
  }
  /** values of one call are now and then equal to each other: a text that is the HTML again, an id that is an e-mail address */
  again(kind, make, fits = () => true) {
    const ring = (this.rings ??= {})[kind] ??= [];
    if (ring.length && this.chance(0.05)) { const v = ring[Math.floor(this.rnd() * ring.length)]; if (fits(v)) return v; }
    const v = make();
    ring.push(v);
    if (ring.length > 5) ring.shift();
    return v;
  }
  /** any string (possibly empty) */
  str(opts = {}) { return this.again('text', () => this.fresh(opts), (v) => (opts.surrogates || v.isWellFormed()) && v.length <= (opts.max ?? 3000)); }
  fresh(opts = {}) {
    if (this.hasNovel() && this.chance(0.15)) { const s = this.novel(); if (s !== undefined) return s; }
    const r = this.rnd();
    if (r < 0.3) return `${this.pick(['Hello ', 'v-', '', 'Re: ', 'Fwd: '])}${this.tag()}`;
    if (r < 0.5) return this.pick(NASTY);
    if (r < 0.6) return this.pick(NASTY) + this.tag();
    if (r < 0.68 && this.dict.strings.length) return this.dress(this.pick(this.dict.strings));
    if (r < 0.78) return this.strLen(opts.max ?? 3000);
    if (r < 0.8 && opts.surrogates) return 'lone' + String.fromCharCode(this.int(0xd800, 0xdfff)) + 'x';
    return this.randomText();
  }
  /** non-empty, well-formed */
  nstr(opts) { for (let i = 0; i < 8; i++) { const s = this.str(opts); if (s !== '' && s.isWellFormed()) return s; } return this.tag('s'); }
  uuid() { const h = (n) => { let s = ''; for (let i = 0; i < n; i++) s += this.pick('0123456789abcdef'); return s; }; return `${h(8)}-${h(4)}-4${h(3)}-a${h(3)}-${h(12)}`; }
  /** identifier: non-empty, well-formed, not '.' or '..' */
  id() { return this.again('text', () => this.freshId(), (v) => v !== '' && v !== '.' && v !== '..' && v.isWellFormed()); }
  freshId() {
    if (this.pool && this.chance(this.pool.one ? 0.85 : 0.6)) return this.pick(this.chance(0.15) ? this.pool.emails : this.pool.ids);
    const r = this.rnd();
    if (r < 0.25) return this.uuid();
    if (r < 0.45) return this.tag('id_');
    if (r < 0.5) return this.pick(['send', 'batch', 'metrics', 'claim', 'verify', 'imports', 'receiving', 'attachments', 'topics', 'segments', 'undefined', 'null', '0', 'false', 'publish', 'runs', 'cancel']);
    if (r < 0.65) return this.email();
    for (let i = 0; i < 8; i++) { const s = this.str({ max: 600 }); if (s !== '' && s !== '.' && s !== '..' && s.isWellFormed()) return s; }
    return this.tag('id_');
  }
  email() { return this.again('text', () => this.freshEmail(), (v) => v !== '' && v !== '.' && v !== '..' && v.isWellFormed()); }
  freshEmail() {
    if (this.pool && this.chance(this.pool.one ? 0.85 : 0.6)) return this.pick(this.pool.emails);
    if (this.hasNovel() && this.chance(0.1)) { const s = this.novel(); if (s) return this.chance(0.5) && s !== '.' && s !== '..' ? s : `${this.tag('u')}@${s}`; }
    const r = this.rnd();
    if (r < 0.5) return `${this.tag('u')}@${this.pick(['example.com', 'resend.dev', 'sub.example.co.uk', 'münchen.de', 'gmail.com', 'example.org'])}`;
    if (r < 0.7) return `${this.tag('u')}+${this.pick(['tag', 'a/b', '#1', '%41', '?x=1', '&y', ' ', 'é'])}@example.com`;
    if (r < 0.8) return `${this.pick(['Jane', 'Ünï', '"Q, X"', 'A B'])} <${this.tag('u')}@example.com>`;
    return this.pick(['user+tag@example.com', 'UPPER@EXAMPLE.COM', "o'brien@example.com", 'a#b@example.com', 'x%y@example.com', 'q?x@example.com', 's/lash@example.com', '日本@example.jp']);
  }
  recipients(max = 60) { return this.chance(0.4) ? this.email() : this.array(() => this.email(), 0, max, 3); }
  array(fn, min = 0, max = 30, typical = 3) { const n = this.size(min, max, typical, { hard: 400 }); const a = []; for (let i = 0; i < n; i++) a.push(fn(i)); if (a.length > 1 && this.chance(0.15)) a[this.int(1, a.length - 1)] = a[0]; return a; }
  bool() { return this.chance(0.5); }
  key() { if (this.hasNovel() && this.chance(0.15)) { const s = this.novel(); if (s !== undefined && s !== '__proto__') return s; } return this.chance(0.7) ? this.pick(CAMEL_KEYS) : this.nstr({ max: 60 }) === '__proto__' ? 'p' : this.tag('key'); }
  map(fn, max = 12) { const o = this.chance(0.05) ? Object.create(null) : {}; const n = this.size(0, max, 3); for (let i = 0; i < n; i++) o[this.key()] = fn(); return o; }
  json(depth = 3) {
    if (depth === 3 && this.chance(0.02)) {
      let deep = this.json(1);
      for (let n = this.size(4, 120, 20); n > 0; n--) deep = this.chance(0.5) ? [deep] : { [this.key()]: deep };
      return deep;
    }
    const r = this.rnd();
    if (depth <= 0 || r < 0.5) {
      const k = this.rnd();
      if (k < 0.45) return this.str({ max: 500 });
      if (k < 0.65) return this.num();
      if (k < 0.8) return this.bool();
      if (k < 0.9) return null;
      return this.pick(['', 0, false, [], {}].map((x) => (typeof x === 'object' ? structuredClone(x) : x)));
    }
    if (r < 0.75) return this.array(() => this.json(depth - 1), 0, 12, 3);
    const o = {}; const n = this.size(0, 10, 3);
    for (let i = 0; i < n; i++) o[this.key()] = this.json(depth - 1);
    if (this.chance(0.02)) own(o, '__proto__', this.json(depth - 1));
    return o;
  }
  jsonObject(depth = 3) { const o = {}; const n = this.size(0, 10, 4); for (let i = 0; i < n; i++) o[this.key()] = this.json(depth - 1); if (this.chance(0.02)) own(o, '__proto__', this.json(depth - 1)); return o; }
  bytes(max = 2000) {
    if (this.bulkP) { const big = this.bulkBytes(); if (big) return big; }
    const n = this.size(0, max, 40, { hard: 300000 });
    // half of them are views into a larger buffer, as pooled ones are
    const b = this.chance(0.5) ? Buffer.alloc(n) : Buffer.alloc(n + 16, 0x5a).subarray(this.int(0, 8)).subarray(0, n);
    const mode = this.int(0, 2);
    for (let i = 0; i < n; i++) b[i] = mode === 0 ? this.int(0, 255) : mode === 1 ? this.int(32, 126) : this.pick([0, 13, 10, 0xff, 0x80, 0xc3, 0x28, 0x2d, 0xe2, 0xef, 0xbb, 0xbf]);
    return b;
  }
  date() { return this.again('date', () => this.freshDate()); }
  freshDate() {
    if (this.chance(0.3)) return new Date((this.dict.now ?? Date.now()) + (this.bool() ? 1 : -1) * Math.round(1000 * 10 ** (6 * this.f()))).toISOString();
    return this.chance(0.6) ? new Date(this.int(0, 4e12)).toISOString() : this.pick(['in 1 min', 'tomorrow at 9am', '2026-08-05', '2024-08-05T11:52:01.858+02:00', '']);
  }
  /** legal header value: printable, no surrounding blanks */
  headerValue(max = 120) { return this.again('header', () => this.freshHeader(max), (v) => v.length <= max); }
  freshHeader(max) {
    const r = this.rnd();
    if (this.hasNovel() && this.chance(0.1)) { const s = (this.novel() ?? '').replace(/[^\x21-\x7e]/g, ''); if (s) return s; }
    if (r < 0.5) return this.tag('h');
    if (r < 0.6) return this.uuid();
    const n = this.size(1, max, 20); let s = '';
    for (let i = 0; i < n; i++) s += String.fromCharCode(this.chance(0.05) ? this.int(0xa1, 0xff) : this.int(33, 126));
    return s;
  }
  /** header value as a caller may write it: possibly empty, with blanks inside or around */
  headerText() {
    const r = this.rnd();
    if (r < 0.08) return this.pick(['', '', ' ']);
    if (r < 0.14) return this.pick(['0', 'false', 'null', 'undefined', `a, ${this.tag()}`, `${this.tag()}; q=0.5`, ` ${this.tag()} `, `${this.tag()}\t${this.tag()}`]);
    return this.headerValue();
  }
  headerName() { return this.pick(['X-Custom', 'x-trace-id', 'X-REQUEST-ID', 'Traceparent', 'x-tenant', 'X-Feature-Flag', 'baggage', 'X-Corr', 'x-' + this.int(0, 50)]); }
}
export { NASTY };
