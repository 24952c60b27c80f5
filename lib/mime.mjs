// Raw messages built part by part, so that what they contain is known without parsing them.
import { Buffer } from 'node:buffer';

const CRLF = '\r\n';
const wrap = (s, n = 76) => s.replace(new RegExp(`.{1,${n}}`, 'g'), (m) => m + CRLF).trimEnd();

function qp(buf) {
  let out = '', line = '';
  const put = (t) => { if (line.length + t.length > 75) { out += `${line}=${CRLF}`; line = ''; } line += t; };
  for (let i = 0; i < buf.length; i++) {
    const c = buf[i];
    if (c === 13 && buf[i + 1] === 10) { if (/[ \t]$/.test(line)) { const l = line.at(-1); line = line.slice(0, -1); put(`=${l === ' ' ? '20' : '09'}`); } out += line + CRLF; line = ''; i++; continue; }
    if ((c >= 33 && c <= 126 && c !== 61) || c === 32 || c === 9) put(String.fromCharCode(c));
    else put(`=${c.toString(16).toUpperCase().padStart(2, '0')}`);
  }
  if (/[ \t]$/.test(line)) { const l = line.at(-1); line = line.slice(0, -1); put(`=${l === ' ' ? '20' : '09'}`); }
  return out + line;
}
const ascii = (s) => /^[\x20-\x7e]*$/.test(s);
function word(s, g) { // RFC 2047, one encoded word per few characters
  const out = [];
  const chars = [...s];
  const q = g.bool();
  for (let i = 0; i < chars.length; i += 8) {
    const b = Buffer.from(chars.slice(i, i + 8).join(''), 'utf8');
    out.push(q ? `=?UTF-8?Q?${[...b].map((c) => (c >= 48 && c <= 57) || (c >= 65 && c <= 90) || (c >= 97 && c <= 122) ? String.fromCharCode(c) : `=${c.toString(16).toUpperCase().padStart(2, '0')}`).join('')}?=` : `=?utf-8?B?${b.toString('base64')}?=`);
  }
  return out.join(`${CRLF} `);
}
function param(name, value, g) {
  if (ascii(value) && g.chance(0.7)) return `${name}="${value.replace(/(["\\])/g, '\\$1')}"`;
  if (g.bool()) return `${name}="${word(value, g)}"`;
  const enc = [...Buffer.from(value, 'utf8')].map((c) => (c >= 48 && c <= 57) || (c >= 65 && c <= 90) || (c >= 97 && c <= 122) ? String.fromCharCode(c) : `%${c.toString(16).toUpperCase().padStart(2, '0')}`);
  if (enc.length < 40) return `${name}*=utf-8''${enc.join('')}`;
  const parts = [];
  for (let i = 0, k = 0; i < enc.length; i += 40, k++) parts.push(`${name}*${k}*=${k === 0 ? "utf-8''" : ''}${enc.slice(i, i + 40).join('')}`);
  return parts.join(`;${CRLF} `);
}
const TYPES = ['application/pdf', 'image/png', 'image/jpeg', 'text/csv', 'application/zip', 'application/octet-stream', 'text/plain', 'text/html', 'application/json', 'application/vnd.openxmlformats-officedocument.wordprocessingml.document', 'audio/mpeg', 'application/pgp-signature', 'application/pkcs7-signature', 'application/x-pkcs7-signature', 'image/svg+xml', 'application/pgp-encrypted', 'text/x-vcard', 'application/ics', 'text/calendar', 'application/rtf', 'application/ms-tnef', 'video/mp4', 'font/woff2', 'x-foo/x-bar'];
const NAMES = (g) => g.pick([
  () => `${g.tag('file')}.pdf`, () => `${g.tag('file')}.pdf`, () => 'report.pdf', () => 'image001.png', () => 'image001.png', () => 'winmail.dat', () => 'smime.p7s', () => 'noname', () => 'räksmörgås.txt', () => '日本語のファイル.docx', () => 'with space.txt', () => 'semi;colon.txt', () => 'quote".txt', () => 'back\\slash.txt', () => '../../etc/passwd', () => '/abs/path', () => '.hidden',
  () => `${'long'.repeat(g.int(10, 60))}.bin`, () => '😀.gif', () => "it's.txt", () => 'a.b.c', () => 'x', () => 'ATT00001.htm', () => 'invite.ics', () => 'original_message.eml', () => g.randomText(20).replace(/[\x00-\x1f\x7f-\x9f"\\=?]/g, '').trim() || 'n', () => (g.novel?.() ?? '').replace(/[\x00-\x1f\x7f-\x9f"\\=?]/g, '').trim() || 'novel',
])();

function encodeBody(g, buf, textual) {
  const enc = g.pick(textual ? ['7bit', '8bit', 'quoted-printable', 'base64', 'qp', 'binary'] : ['base64', 'base64', 'base64', 'quoted-printable']);
  if (enc === 'base64') return { cte: g.pick(['base64', 'BASE64', 'Base64']), data: Buffer.from(g.chance(0.9) ? wrap(buf.toString('base64')) : buf.toString('base64')) };
  if (enc === 'quoted-printable' || enc === 'qp') return { cte: 'quoted-printable', data: Buffer.from(qp(buf)) };
  return { cte: g.chance(0.8) ? enc : null, data: buf };
}

/** a message with known content: { bytes, known: { attachments: [{bytes, filename, type, cid}], text, html } } */
export function makeRaw(g) {
  const known = { attachments: [], hasText: false, hasHtml: false };
  const line = () => g.pick([() => g.tag('line '), () => 'Hello there', () => '', () => '> quoted', () => '-- ', () => '.', () => 'Zażółć gęślą jaźń', () => '日本語テキスト', () => '😀 emoji', () => `${'word '.repeat(g.int(1, 60))}end`, () => 'https://example.com/?a=b&c=d', () => '--boundary-like', () => 'From here', () => g.novel()?.replace(/[\r\n\0]/g, ' ') ?? 'x'])();
  const textBody = () => { let s = ''; const n = g.size(1, 120, 6); for (let i = 0; i < n; i++) s += line() + CRLF; return `${s}${g.tag('end')}`; };
  const htmlBody = () => `<html><body>${g.tag('<p>h')}</p><p>${line()}</p><img src="cid:${g.tag('c')}">${g.chance(0.3) ? '<br/>&nbsp;&amp;' : ''}</body></html>`;
  const charsets = [['utf-8', 'utf8'], ['UTF-8', 'utf8'], ['iso-8859-1', 'latin1']];
  const textPart = (sub) => {
    let s = sub === 'plain' ? textBody() : htmlBody();
    if (g.chance(0.05)) s = '';
    if (g.chance(0.03)) s = ' \r\n';
    const [cs, node] = g.pick(charsets);
    if (node === 'latin1') s = s.replace(/[^\x00-\xff]/g, '?').replace(/[\x80-\x9f]/g, '?');
    const e = encodeBody(g, Buffer.from(s, node), true);
    if (sub === 'plain') known.hasText ||= s.trim() !== ''; else known.hasHtml ||= s.trim() !== '';
    const h = [`Content-Type: text/${sub}; charset=${g.chance(0.5) ? `"${cs}"` : cs}${sub === 'plain' && g.chance(0.1) ? '; format=flowed; delsp=yes' : ''}`];
    if (e.cte) h.push(`Content-Transfer-Encoding: ${e.cte}`);
    if (g.chance(0.2)) h.push('Content-Disposition: inline');
    return { h, body: e.data };
  };
  const attachment = (inline) => {
    const type = inline ? g.pick(['image/png', 'image/gif', 'image/jpeg']) : g.pick(TYPES);
    let buf = g.chance(0.05) ? Buffer.alloc(0) : g.bulkBytes(1e6) ?? g.bytes(g.chance(0.03) ? 60000 : 1500);
    const e = g.chance(0.15) && /^text|json/.test(type) ? (() => { const s = `${g.tag('csv')},1,2${CRLF}${g.tag()},ü`; buf = Buffer.from(s); return encodeBody(g, buf, true); })() : encodeBody(g, buf, false);
    const filename = g.chance(0.85) ? NAMES(g) : undefined;
    const cid = inline || g.chance(0.2) ? g.pick([g.tag('cid'), `${g.tag('ii_')}@mail.example.com`, 'image001.png@01D9', 'dup-cid', 'weird<>cid']) : undefined;
    const where = filename === undefined ? 'none' : g.pick(['disposition', 'disposition', 'disposition', 'type', 'both']);
    let ct = `Content-Type: ${g.chance(0.9) ? type : type.toUpperCase()}`;
    if (where === 'type' || where === 'both') ct += `;${CRLF} ${param('name', filename, g)}`;
    const h = [ct];
    if (e.cte) h.push(`Content-Transfer-Encoding: ${e.cte}`);
    const mustDisp = /^text\/(plain|html)$/.test(type);
    let d = inline && !mustDisp ? g.pick(['inline', 'inline', 'attachment', null]) : g.pick(['attachment', 'attachment', mustDisp ? 'attachment' : 'inline', 'attachment']);
    if (where === 'disposition' || where === 'both') d ??= 'attachment';
    if (d) h.push(`Content-Disposition: ${d}${where === 'disposition' || where === 'both' ? `; ${param('filename', filename, g)}` : ''}${g.chance(0.1) ? `; size=${buf.length}` : ''}`);
    if (cid) h.push(`Content-ID: ${g.chance(0.85) ? `<${cid}>` : cid}`);
    if (g.chance(0.1)) h.push('Content-Description: something');
    known.attachments.push({ bytes: type === 'text/calendar' || type === 'application/ics' || !/^base64$/i.test(e.cte ?? '') ? null : buf, filename, type, cid });
    return { h, body: e.data };
  };
  const multi = (sub, parts) => {
    const b = g.pick([g.tag('=_b'), `----=_Part_${g.tag()}`, `b.${g.tag()}`, g.tag('000000000000')]);
    const chunks = [];
    if (g.chance(0.3)) chunks.push(Buffer.from(`This is a multi-part message in MIME format.${CRLF}`));
    for (const p of parts) chunks.push(Buffer.from(`--${b}${CRLF}`), render(p), Buffer.from(CRLF));
    chunks.push(Buffer.from(`--${b}--${CRLF}`));
    if (g.chance(0.15)) chunks.push(Buffer.from(`epilogue${CRLF}`));
    return { h: [`Content-Type: multipart/${sub}; boundary="${b}"${sub === 'related' ? '; type="text/html"' : ''}`], body: Buffer.concat(chunks) };
  };
  const render = (p) => Buffer.concat([Buffer.from(p.h.join(CRLF) + CRLF + CRLF), p.body]);
  const nested = () => { // a message inside the message
    const disp = g.pick(['attachment', 'attachment', 'inline', null]);
    const t = g.tag('nested ');
    const inner = Buffer.from(`From: inner@example.com${CRLF}To: x@example.com${CRLF}Subject: inner${CRLF}Content-Type: text/plain${CRLF}${CRLF}${t}${CRLF}`);
    const h = ['Content-Type: message/rfc822'];
    if (disp) h.push(`Content-Disposition: ${disp}${disp === 'attachment' && g.bool() ? '; filename="orig.eml"' : ''}`);
    known.attachments = disp === 'attachment' ? [...known.attachments, { bytes: null, type: 'message/rfc822' }] : known.attachments;
    if (disp !== 'attachment') known.hasText = true;
    return { h, body: inner };
  };
  const report = () => { known.attachments.push({ bytes: null, type: 'message/delivery-status' }); return { h: ['Content-Type: message/delivery-status'], body: Buffer.from(`Reporting-MTA: dns; mx${CRLF}${CRLF}Final-Recipient: rfc822; a@b${CRLF}Action: failed${CRLF}`) }; };

  const core = () => g.pick([
    () => textPart('plain'), () => textPart('html'), () => multi('alternative', [textPart('plain'), textPart('html')]),
    () => multi('alternative', [textPart('plain'), multi('related', [textPart('html'), ...list(() => attachment(true), 1, 6)])]),
    () => multi('related', [textPart('html'), ...list(() => attachment(true), 0, 6)]),
    () => multi('related', [multi('alternative', [textPart('plain'), textPart('html')]), ...list(() => attachment(true), 1, 4)]),
    () => multi('alternative', [textPart('plain'), textPart('html'), attachment(false)]),
  ])();
  const list = (f, lo, hi, typ) => { const n = g.size(lo, hi, typ ?? lo + 2); const out = []; for (let i = 0; i < n; i++) { if (out.length && g.chance(0.12)) { out.push(out[g.int(0, out.length - 1)]); known.attachments.push({ ...known.attachments[known.attachments.length - 1], unsure: true }); known.unsure = true; } else out.push(f()); } return out; };
  const shapes = [
    core, core,
    () => multi('mixed', [core(), ...list(() => attachment(false), 1, 60, 4)]),
    () => multi('mixed', [core(), ...list(() => attachment(false), 1, 12, 3)]),
    () => multi('mixed', list(() => attachment(false), 1, 6)),
    () => multi('mixed', [core(), attachment(false), textPart('plain'), attachment(false), textPart('html')]),
    () => multi('mixed', [core(), nested(), attachment(false)]),
    () => multi('report', [textPart('plain'), report()]),
    () => multi('signed', [core(), attachment(false)]),
    () => attachment(false),
  ];
  let top = g.pick(shapes)();
  // mailing lists and gateways wrap what they pass on, again and again
  if (g.chance(0.05)) for (let n = g.size(1, 90, 12, { hard: 200 }); n > 0; n--) top = multi('mixed', g.chance(0.1) ? [top, attachment(false)] : [top]);
  const hs = ['Received: from mx.example.com by inbound.example.com; Thu, 1 Jan 2026 00:00:00 +0000', `From: Sender <s@example.com>`, 'To: you@example.com', `Subject: ${g.pick(['plain', '=?utf-8?B?w7xuw68=?=', 'Fwd: x', ''])}`, `Message-ID: <${g.tag()}@example.com>`, 'Date: Thu, 1 Jan 2026 00:00:00 +0000'];
  if (g.chance(0.2)) hs.push('Cc: c@example.com', 'Reply-To: r@example.com');
  if (g.chance(0.1)) hs.push(`X-Long: ${'v'.repeat(g.int(100, 3000))}`);
  if (g.chance(0.04)) for (let n = g.size(1, 900, 60, { hard: 3000 }); n > 0; n--) hs.push(`${g.pick(['X-Trace', 'ARC-Seal', 'Received', 'X-Spam-Report'])}: ${'v'.repeat(g.int(1, 70))}${g.chance(0.2) ? `${CRLF}\t${'w'.repeat(60)}` : ''}`);
  hs.push('MIME-Version: 1.0');
  let bytes = Buffer.concat([Buffer.from(hs.join(CRLF) + CRLF), render(top)]);
  if (g.chance(0.06)) { bytes = Buffer.from(bytes.toString('latin1').replace(/\r\n/g, '\n'), 'latin1'); known.unsure = true; }
  if (g.chance(0.03)) { bytes = bytes.subarray(0, g.int(0, bytes.length)); known.unsure = true; }
  if (g.chance(0.02)) { bytes = g.bytes(3000); known.unsure = true; }
  return { bytes, known };
}

/** does the parser see what the builder put in? (null when it does) */
export function disagreement(known, parsed) {
  if (known.unsure) return null;
  if (parsed.attachments.length !== known.attachments.length) return `parser found ${parsed.attachments.length} attachments, built ${known.attachments.length}`;
  for (let i = 0; i < known.attachments.length; i++) {
    const k = known.attachments[i], p = parsed.attachments[i];
    if (k.bytes && !Buffer.from(p.content.$bytes, 'base64').equals(k.bytes)) return `bytes of attachment ${i} (${k.type})`;
    if (k.filename !== undefined && p.filename !== k.filename) return `name of attachment ${i}: ${p.filename} built ${k.filename}`;
    if (p.content_type !== k.type) return `type of attachment ${i}: ${p.content_type} built ${k.type}`;
    if (k.cid !== undefined && p.content_id !== k.cid) return `content id of attachment ${i}: ${p.content_id} built ${k.cid}`;
  }
  if (known.hasText && !parsed.text) return 'text missing';
  if (known.hasHtml && !parsed.html) return 'html missing';
  return null;
}

/** arbitrary downloaded bytes for wrapped forwards */
export function anyBytes(g, max = 4000) {
  const r = g.f();
  if (r < 0.35) return makeRaw(g);
  if (r < 0.45) return { bytes: Buffer.alloc(0) };
  if (r < 0.6) return { bytes: Buffer.from(g.pick([[0xff, 0xfe, 0x41, 0], [0xef, 0xbb, 0xbf, 0x41], [0x80], [0xc3, 0x28], [0xed, 0xa0, 0x80], [0], [0x0d, 0x0a], [0xf0, 0x9f, 0x98]])) };
  if (r < 0.7) return { bytes: Buffer.from(`Subject: ${g.str()}\r\n\r\n${g.str({ max: 3000 })}`, g.pick(['utf8', 'latin1', 'utf16le'])) };
  if (r < 0.74) { const n = g.int(1, 5); const b = Buffer.alloc(n * 70000 + g.int(0, 4)); for (let i = 0; i < b.length; i += 7) b[i] = g.int(0, 255); return { bytes: b }; }
  return { bytes: g.bytes(max) };
}
