// node run.mjs <PROPERTY> [--replay FILE] [--case N] [--keep]
import { fork } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { VERIF, buildSdk, removeBuild } from './lib/build.mjs';
import { mineLiterals } from './lib/mine.mjs';
import { CHECKS } from './checks/index.mjs';

if (process.argv[2] === '--setup') { // proves that the SDK can be bundled and leaves nothing behind
  const b = buildSdk('setup');
  removeBuild(b.dir);
  console.log('setup: the SDK bundles');
  process.exit(0);
}
const id = process.argv[2];
const check = CHECKS[id];
if (!check) { console.error(`unknown property ${id}`); process.exit(2); }
const opt = (n) => { const i = process.argv.indexOf(n); return i > 0 ? process.argv[i + 1] : undefined; };
const replay = opt('--replay') ? JSON.parse(fs.readFileSync(opt('--replay'), 'utf8')) : null;
const tier = replay?.tier ?? (process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick');
const seed = replay?.seed ?? (Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 0);
const t0 = Date.now();

const baseline = JSON.parse(fs.readFileSync(path.join(VERIF, 'lib/baseline-literals.json'), 'utf8'));
const mined = mineLiterals();
// new to the tree, or used more often in its code than in the reference tree
const fresh = (k) => { const b = new Set(baseline[k]), c = baseline.counts[k], m = mined.counts[k]; return mined[k].filter((x) => !b.has(x) || (m?.[x] ?? 0) > (c?.[x] ?? 0)); };
const dict = { strings: mined.strings.filter((s) => s.isWellFormed()), numbers: mined.numbers, novel: fresh('strings').filter((s) => s.length <= 400 && s.isWellFormed()), novelNumbers: fresh('numbers'), regexes: fresh('regexes'), variables: fresh('variables').filter((v) => !(v in process.env)).slice(0, 40), fields: mined.fields, novelFields: fresh('fields') };

let build;
try { build = buildSdk(id); } catch (e) { console.error(`INCONCLUSIVE property=${id} ${e.message}`); process.exit(2); }
const cleanup = () => removeBuild(build.dir);
process.on('exit', cleanup);
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2));

const cases = tier === 'thorough' ? check.cases?.thorough ?? 300000 : (check.cases?.quick ?? 24000) * (check.scale ?? 2.5);
const one = replay?.index ?? (opt('--case') !== undefined ? Number(opt('--case')) : undefined);
const workers = one !== undefined ? 1 : Math.max(1, Math.min(check.workers ?? (tier === 'thorough' ? 8 : 6), cases, os.availableParallelism() || 4));
const wallMs = tier === 'thorough' ? 780000 : (check.wallMs ?? 90000);
const issues = [], dones = [], fatals = [];
await Promise.all(Array.from({ length: workers }, (_, w) => new Promise((res) => {
  const env = { ...process.env, NODE_ENV: 'test' };
  for (const k of ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT', 'NODE_OPTIONS']) delete env[k];
  const child = fork(path.join(VERIF, 'lib/worker.mjs'), { execArgv: ['--no-warnings', ...(check.execArgv ?? [])], env, stdio: ['ignore', 'inherit', 'inherit', 'ipc'], serialization: 'advanced', cwd: build.dir });
  let finished = false;
  const watchdog = setTimeout(() => { fatals.push(`worker ${w}: no answer within the watchdog's time`); child.kill('SIGKILL'); }, wallMs + 60000);
  child.on('message', (m) => {
    if (m.t === 'issue') issues.push(m); else if (m.t === 'done') { finished = true; dones.push(m); } else if (m.t === 'fatal') fatals.push(`worker ${w}: ${m.error}`);
  });
  child.on('exit', (code) => { clearTimeout(watchdog); if (!finished && !fatals.length) fatals.push(`worker ${w} exited with ${code} before finishing`); res(); });
  child.send({ id, seed, tier, worker: w, workers, from: one ?? 0, to: one !== undefined ? one + 1 : cases, esm: build.esm, cjs: build.cjs, dir: build.dir, dict, wallMs });
})));

const sum = { sessions: 0, calls: 0, requests: 0, evaluations: 0, concurrent: 0, renders: 0, wireCalls: 0, wirePassed: 0, hangs: 0, unhandled: 0 };
const maps = { ops: {}, responses: {}, outcomes: {}, monitors: {} };
const signatures = new Set(), orders = new Set(), samples = [];
let executed = 0, capped = false;
for (const d of dones) {
  executed += d.done; capped ||= d.capped;
  for (const k of Object.keys(sum)) sum[k] += d.stats[k] ?? 0;
  for (const k of Object.keys(maps)) for (const [n, v] of Object.entries(d.stats[k])) maps[k][n] = (maps[k][n] ?? 0) + v;
  for (const x of d.stats.signatures) signatures.add(x);
  for (const x of d.stats.orders) orders.add(x);
  if (samples.length < 4) samples.push(...d.stats.samples.slice(0, 1));
}
issues.sort((a, b) => a.index - b.index);
// findings recorded in the committed list, each identified by its exact input and outcome
const listed = new Set(fs.readFileSync(path.join(VERIF, 'known-findings.txt'), 'utf8').split('\n').map((l) => /^known: property=(\S+) id=(\S+)/.exec(l)).filter((m) => m && m[1] === id).map((m) => m[2]));
const knownHits = issues.filter((i) => i.known && listed.has(i.known));
for (const k of knownHits) issues.splice(issues.indexOf(k), 1);
const evidence = {
  property: id, tier, seed, level: check.level ?? 'exploration',
  coverage: {
    evaluations: sum.evaluations, distinct_nontrivial: signatures.size,
    rule: `Cases are drawn from (seed, property, case number) by the generators of lib/. ${check.rule} Distinct: different operation, argument shape, response kinds or outcome (hash).`,
    samples, cases_executed: executed, cases_planned: one !== undefined ? 1 : cases, stopped_by_wall_cap: capped,
    observed: { ...sum, distinct_interleavings: orders.size, operations_covered: Object.keys(maps.ops).length, responses_by_kind: maps.responses, outcomes: maps.outcomes, calls_per_operation: maps.ops, monitor_events: maps.monitors },
    workers, novel_literals_steering: dict.novel.length + dict.novelNumbers.length + dict.regexes.length,
  },
  assumptions: check.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: issues.length, known_findings: knownHits.map((i) => i.msg),
};
fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
fs.writeFileSync(path.join(VERIF, 'evidence', `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`);

for (const k of new Map(knownHits.map((i) => [i.known, i])).values()) console.log(`KNOWN-FINDING: property=${id} ${k.msg}`);
if (issues.length) {
  fs.mkdirSync(path.join(VERIF, 'replays'), { recursive: true });
  const first = issues[0];
  const file = path.join(VERIF, 'replays', `${id}-${seed}-${tier}-${first.index}.json`);
  fs.writeFileSync(file, `${JSON.stringify({ property: id, seed, tier, index: first.index, aspect: first.aspect, message: first.msg, detail: first.detail, others: issues.slice(1, 10).map((i) => ({ index: i.index, aspect: i.aspect, msg: i.msg })) }, null, 1)}\n`);
  console.log(`${id}: ${first.aspect}: ${first.msg}`.slice(0, 1500));
  console.log(`VIOLATION property=${id} replay=${file}`);
  process.exit(1);
}
if (fatals.length) { console.error(`INCONCLUSIVE property=${id} ${fatals.join('\n').slice(0, 4000)}`); process.exit(2); }
if (one === undefined && (sum.evaluations < (check.minEvaluations ?? 100) || sum.hangs > 0)) { console.error(`INCONCLUSIVE property=${id} only ${sum.evaluations} evaluations, ${sum.hangs} stalled sessions`); process.exit(2); }
console.log(`${id}: held on ${sum.evaluations} evaluations (${sum.calls} calls, ${sum.requests} requests, ${signatures.size} distinct, ${orders.size} interleavings) in ${evidence.wall_s.toFixed(1)} s`);
process.exit(0);
