// Forwarding of received emails: C18 (passthrough), C19 (wrapped), C20 (failures).
import { getOp } from '../lib/catalog.mjs';
import { disagreement, anyBytes, makeRaw } from '../lib/mime.mjs';
import { FAULTS } from '../lib/responses.mjs';
import { World, drive, monitor, startCall } from '../lib/world.mjs';
import { sessionCheck } from './common.mjs';

const F = getOp('emails.receiving.forward');
const isF = (r) => r.kase.opName === F.name;
const bump = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
const own = (p) => (g) => (g.chance(p) ? null : F);

export const C18 = sessionCheck({
  aspects: ['mime', 'body', 'count', 'path', 'method', 'outcomeKind', 'data', 'late'], cases: { quick: 14000, thorough: 300000 },
  bulkP: 0.0001, ctx: { passthrough: true, makeRaw, headersP: 0.2 }, okP: 0.92, wireP: 0.04, randomP: 0.3, only: isF,
  nextOp: (g) => (g.chance(0.1) ? getOp('emails.receiving.get') : F),
  rule: 'Passthrough forwards of generated raw messages: nested multiparts, 0 to 60 attachments, inline images, duplicates, encodings, charsets, encoded names, damaged and arbitrary bytes; the sent email is compared with an independent parse of the same bytes (itself compared with what the builder put in). Non-trivial: a forward that reached the send.',
  assumptions: ['the installed postal-mime decides what text, HTML and attachments a raw message has; where the message builder knows better, disagreements are counted in monitor_events'],
  relevant: (r) => isF(r) && r.requests.length === 3,
  afterJudged: (r) => {
    const st = C18.env?.stats; const e = r.kase.raw?.expected;
    if (!st || !isF(r) || !e) return;
    bump(st.monitors, 'attachments compared', r.requests.length === 3 ? e.attachments.length : 0);
    if (r.kase.raw.known && !r.kase.raw.known.unsure) { const d = disagreement(r.kase.raw.known, e); bump(st.monitors, d ? `parser and builder disagree` : 'parser and builder agree'); if (d && process.env.VERIF_DEBUG) process.stderr.write(`${d}\n`); }
  },
});
C18.setup = (env) => { C18.env = env; };
// Two fixed messages whose attachments the MIME parser alters. The expectation
// above is the parser's reading, so they are looked at here; each is a known
// finding with its exact wrong outcome, anything else is a violation.
const PROBES = [
  { key: 'quoted-printable-attachment-gains-newline', cte: 'quoted-printable', data: 'abc=3D', want: 'abc=', known: 'abc=\n', what: "the bytes 'abc=' of a quoted-printable attachment are forwarded as 'abc=\\n' (postal-mime appends a line break)" },
  { key: '8bit-attachment-line-ends-changed', cte: '8bit', data: 'a\r\nb', want: 'a\r\nb', known: 'a\nb\n', what: "the bytes 'a\\r\\nb' of an 8bit attachment are forwarded as 'a\\nb\\n' (postal-mime normalises line ends)" },
  { key: null, cte: 'base64', data: Buffer.from('a\r\nb').toString('base64'), want: 'a\r\nb' },
];
C18.finish = async (env) => {
  if (env.worker !== 0) return [];
  const out = [];
  for (const p of PROBES) {
    const raw = `From: a@b.c\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary="bb"\r\n\r\n--bb\r\nContent-Type: text/plain\r\n\r\nhello\r\n--bb\r\nContent-Type: application/x-probe; name="p.bin"\r\nContent-Transfer-Encoding: ${p.cte}\r\nContent-Disposition: attachment; filename="p.bin"\r\n\r\n${p.data}\r\n--bb--\r\n`;
    const world = new World({ rnd: () => 0.5 });
    monitor.current = world;
    const replies = [{ status: 200, headers: [], body: JSON.stringify({ id: 'e', subject: 's', raw: { download_url: 'https://cdn.example.test/raw' } }) }, { status: 200, headers: [], body: raw }, { status: 200, headers: [], body: '{"id":"x"}' }];
    const rec = startCall(world, { kase: { opName: F.name, args: [] }, client: new env.Resend('re_probe'), cfg: {}, plan: (k) => replies[k], invoke: (c) => c.emails.receiving.forward({ emailId: 'e', to: 'a@b.c', from: 'd@e.f' }) });
    await drive(world);
    let got;
    try { got = Buffer.from(JSON.parse(rec.requests[2].body.toString()).attachments[0].content, 'base64').toString('latin1'); } catch (e) { got = `<${e.message}>`; }
    bump(env.stats.monitors, 'fixed attachment probes');
    if (got === p.want) continue;
    out.push({ aspect: 'mime', known: p.known !== undefined && got === p.known ? `C18/${p.key}` : undefined, msg: p.known !== undefined && got === p.known ? p.what : `a ${p.cte} attachment ${JSON.stringify(p.want)} is forwarded as ${JSON.stringify(got)}` });
  }
  return out;
};

export const C19 = sessionCheck({
  aspects: ['body', 'count', 'path', 'method', 'outcomeKind', 'data', 'late'], cases: { quick: 14000, thorough: 300000 },
  bulkP: 0.001, ctx: { passthrough: false, makeRaw: (g) => anyBytes(g), headersP: 0.2 }, okP: 0.92, wireP: 0.06, randomP: 0.3, only: isF,
  nextOp: (g) => (g.chance(0.1) ? getOp('emails.receiving.get') : F),
  rule: 'Wrapped forwards of arbitrary bytes (empty, invalid UTF-8, byte order marks, UTF-16, up to 350 kB, whole messages) served whole or in chunks under misleading content types; the attachment is decoded and compared byte for byte, the note and subject with what was given. Non-trivial: a forward that reached the send.',
  relevant: (r) => isF(r) && r.requests.length === 3,
});

const dl = ['dl-status', 'dl-net', 'dl-stream'];
export const C20 = sessionCheck({
  aspects: ['count', 'late', 'error', 'data', 'headers', 'shape', 'outcomeKind', 'url', 'path', 'method'], cases: { quick: 18000, thorough: 400000 },
  ctx: { noRaw: 0.15, makeRaw: (g) => (g.chance(0.5) ? makeRaw(g) : anyBytes(g, 600)), headersP: 0.2, idemP: 0.5 }, okP: 0.68, wireP: 0.06, randomP: 0.3, only: isF, linger: 3,
  faults: FAULTS, dlFaults: dl, nextOp: (g) => (g.chance(0.1) ? getOp('emails.receiving.get') : F), repeatP: 0.2,
  rule: 'Forwards in both modes with nine fault families at the read and the send, HTTP errors, connection failures and interruptions at the download, and received emails without raw content. Non-trivial: every forward; the requests made and the error reported are compared with the step that failed.',
  relevant: isF,
});
