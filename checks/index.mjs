// Every property's workload profile and the aspects of the oracle that decide it.
import { OPS, getOp } from '../lib/catalog.mjs';
import { sessionCheck } from './common.mjs';

export const CHECKS = {};
const ops = (f) => OPS.filter(f);
const kinds = (...k) => ops((o) => k.includes(o.kind));
/** mostly the property's own operations, with others in between as history and company */
const weighted = (own, otherP = 0.15) => (g) => (g.chance(otherP) ? g.pick(OPS) : g.pick(own));

CHECKS.C01 = sessionCheck({
  aspects: ['outcomeKind', 'shape', 'unhandled'], okP: 0.3, wireP: 0.12, ctx: { local: 0.05 }, cycle: OPS,
  rule: 'Every operation in turn is served success or one of nine fault families at each of its steps; sessions mix sequential and overlapping calls; part over loopback HTTP. Non-trivial: at least one response was served to the call.',
  relevant: (r) => r.requests.length > 0,
});
CHECKS.C02 = sessionCheck({
  bulkP: 0.0003,
  aspects: ['data', 'error', 'headers', 'outcomeKind'], okP: 0.5, wireP: 0.1, cycle: OPS,
  rule: 'Every operation in turn with generated JSON payloads, error objects, junk bodies, header sets and statuses. Non-trivial: a response was served and compared with the result.',
  relevant: (r) => r.requests.length > 0,
});
CHECKS.C03 = sessionCheck({
  aspects: ['count', 'late', 'plain'], okP: 0.45, cycle: OPS, repeatP: 0.25, linger: 3, ctx: { local: 0.15 }, renderFailP: 0.15,
  rule: 'Every operation in turn under successes, rate limits, outages and repeated identical calls; requests are counted per call during it, after a linger period and again much later. Non-trivial: every call.',
});
CHECKS.C04 = sessionCheck({
  aspects: ['method', 'url', 'path', 'query', 'missing'], cycle: OPS, okP: 0.85,
  rule: 'Every operation in turn with identifiers from hostile text, e-mail addresses and literals of the source. Non-trivial: a request whose path, host, method and query were compared.',
  relevant: (r) => r.requests.length > 0,
});
CHECKS.C05 = sessionCheck({
  aspects: ['query', 'missing'], nextOp: weighted(ops((o) => o.kind === 'list' || o.name === 'contactProperties.list')), okP: 0.85,
  rule: 'Listing and reading operations with generated filters and pagination. Non-trivial: a list request whose decoded query was compared.',
  relevant: (r) => r.requests.some((q) => q.method === 'GET'),
});
const jsonOps = ops((o) => !['id', 'list', 'import', 'forward', 'verify'].includes(o.kind));
CHECKS.C06 = sessionCheck({
  bulkP: 0.00007,
  aspects: ['body', 'missing'], nextOp: weighted(jsonOps), okP: 0.85,
  rule: 'Operations with JSON bodies and random presence patterns of every documented field. Non-trivial: a request body compared field by field.',
  relevant: (r) => r.requests.some((q) => q.json !== undefined),
});
const headerOps = ['apiKeys.create', 'emails.send', 'emails.create', 'batch.send', 'batch.create', 'broadcasts.create', 'contacts.create', 'contacts.imports.create', 'domains.create', 'domains.claims.create', 'segments.create', 'audiences.create', 'webhooks.create', 'emails.receiving.forward', 'post', 'get', 'put', 'patch', 'delete'].map((n) => getOp(n)).filter(Boolean);
CHECKS.C07 = sessionCheck({
  aspects: ['ct', 'auth', 'ua', 'customHeader', 'leakHeader', 'missing'], nextOp: weighted(headerOps, 0.35), okP: 0.85, multiP: 0.5, repeatP: 0.2, ctx: { headersP: 0.7 },
  rule: 'Operations with per-call headers in five container forms, interleaved with calls without any, on several clients. Non-trivial: a request whose header set was compared.',
  relevant: (r) => r.requests.length > 0,
});
CHECKS.C08 = sessionCheck({
  aspects: ['keyLeak', 'dlHeaders'], nextOp: (g) => (g.chance(0.25) ? getOp('emails.receiving.forward') : g.pick(OPS)), okP: 0.6, multiP: 0.5, ctx: { headersP: 0.4 },
  rule: 'All operations, a quarter of them forwards with downloads from foreign hosts, under success and failure. Non-trivial: a call whose requests, logs and result were searched for the key.',
  relevant: (r) => r.requests.length > 0,
});
CHECKS.C09 = sessionCheck({
  aspects: ['idem', 'missing'], nextOp: weighted(ops((o) => o.idem), 0.25), okP: 0.7, multiP: 0.3, repeatP: 0.25, ctx: { idemP: 0.6, headersP: 0.3, react: 0.2 },
  rule: 'Sends, batches and forwards with and without idempotency keys, interleaved with other operations. Non-trivial: a request whose idempotency header was compared.',
  relevant: (r) => r.requests.length > 0,
});
CHECKS.C14 = sessionCheck({
  bulkP: 0.0001,
  aspects: ['body', 'batchCount', 'batchMode', 'data', 'error', 'count', 'method', 'path', 'url', 'outcomeKind', 'late'], nextOp: weighted(kinds('batch'), 0.1), okP: 0.75,
  only: (r) => r.kase.batch, cases: { quick: 14000, thorough: 180000 }, ctx: { batchSize: (g) => g.size(0, 320, 6, { hard: 2000 }), react: 0.1 },
  rule: 'Batch sends of 0 to 320 emails with duplicates, React content, both modes and partial-success answers. Non-trivial: a batch call.',
  relevant: (r) => r.kase.batch,
});
const tpl = ['templates.create', 'templates.duplicate'].map((n) => getOp(n));
// what is created is then read, changed, published by id and removed: none of which publishes by itself
const tplAll = [...tpl, ...tpl, ...tpl, ...['templates.publish', 'templates.update', 'templates.get', 'templates.remove', 'templates.list'].map((n) => getOp(n))];
CHECKS.C15 = sessionCheck({
  aspects: ['count', 'late', 'path', 'method', 'url', 'data', 'error', 'headers', 'outcomeKind', 'shape', 'reject'], nextOp: weighted(tplAll, 0.1), okP: 0.65, relatedP: 0.45, only: (r) => r.kase.opName.startsWith('templates.'), renderFailP: 0.15, ctx: { react: 0.25 },
  rule: 'Template create/duplicate used in nine ways (awaited once or several times, published before, after or while awaited) under success and failure of either step, among reads, updates, removals and publications of the same templates. Non-trivial: such a use.',
  relevant: (r) => r.kase.finish === 'chain',
});
CHECKS.C16 = sessionCheck({
  aspects: ['local', 'count', 'path', 'outcomeKind'], nextOp: weighted(ops((o) => o.guarded), 0.05), okP: 0.8, only: (r) => !!getOp(r.kase.opName).guarded, ctx: { local: 0.5 },
  rule: 'Guarded operations with missing, empty and present identifiers in every combination. Non-trivial: a guarded operation.',
  relevant: (r) => !!getOp(r.kase.opName).guarded,
});
CHECKS.C21 = sessionCheck({
  bulkP: 0.0004,
  aspects: ['form', 'ct', 'customHeader', 'auth', 'count'], nextOp: weighted([getOp('contacts.imports.create')], 0.1), okP: 0.8, wireP: 0.1, only: (r) => r.kase.opName === 'contacts.imports.create', ctx: { maxFile: 20000, headersP: 0.3 },
  rule: 'Contact imports with generated files (Blob and File) and options. Non-trivial: a multipart request parsed and compared byte for byte.',
  relevant: (r) => r.requests.some((q) => q.isForm),
});
CHECKS.C22 = sessionCheck({
  aspects: ['data', 'body', 'headers', 'error', 'outcomeKind', 'count', 'method', 'path', 'query'], nextOp: weighted(kinds('property'), 0.1), okP: 0.75, only: (r) => r.kase.opName.startsWith('contactProperties.'),
  rule: 'Contact property operations with generated definitions and answers. Non-trivial: a contact property call that reached the server.',
  relevant: (r) => r.kase.opName.startsWith('contactProperties.') && r.requests.length > 0,
});
CHECKS.C28 = sessionCheck({
  aspects: ['body', 'count', 'method', 'path', 'outcomeKind'], nextOp: weighted(kinds('graph'), 0.1), okP: 0.85, only: (r) => getOp(r.kase.opName).kind === 'graph', ctx: { maxSteps: 120 },
  rule: 'Automation creates and updates with generated graphs of all eight step types, nested rules and shared/duplicated steps. Non-trivial: a graph body compared.',
  relevant: (r) => getOp(r.kase.opName).kind === 'graph' && r.requests.some((q) => q.json !== undefined),
});
CHECKS.C13 = sessionCheck({
  aspects: ['body', 'batchCount', 'count', 'reject', 'outcomeKind', 'late'], nextOp: weighted(['emails.send', 'emails.create', 'batch.send', 'batch.create', 'broadcasts.create', 'broadcasts.update', 'templates.create'].map((n) => getOp(n)), 0.05), okP: 0.8, renderFailP: 0.15, only: (r) => (r.kase.reacts?.length ?? 0) > 0 || r.kase.steps.some((s) => s.body && [s.body].flat().some((b) => b && b.html !== undefined)),
  randomP: 0.5, ctx: { react: 0.6, batchSize: (g) => g.size(1, 24, 4) },
  rule: 'Emails, batches, broadcasts and templates with React nodes of eleven shapes (rendered by the installed renderer behind a monitor that delays and fails renders). Non-trivial: a call with React content.',
  relevant: (r) => (r.kase.reacts?.length ?? 0) > 0,
});

import * as stateful from './stateful.mjs';
Object.assign(CHECKS, stateful);
import { C17 } from './webhook.mjs';
CHECKS.C17 = C17;
import * as forward from './forward.mjs';
Object.assign(CHECKS, forward);
import { C23 } from './config.mjs';
CHECKS.C23 = C23;
import { C26 } from './formats.mjs';
CHECKS.C26 = C26;
import { C29, C30 } from './io.mjs';
Object.assign(CHECKS, { C29, C30 });
import { C27 } from './residue.mjs';
CHECKS.C27 = C27;
