// Bundles the SDK from /repo's current working tree into a scratch directory.
import process from 'node:process';
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
export const REPO = process.env.VERIF_REPO || '/repo';

export function buildSdk(tag, { renderer = 'monitored' } = {}) {
  const dir = path.join(VERIF, '.build', `${tag}-${process.pid}-${Date.now().toString(36)}`);
  fs.mkdirSync(dir, { recursive: true });
  const out = path.join(dir, 'main', 'dist');
  const bin = path.join(REPO, 'node_modules', '.bin', 'tsdown');
  const r = spawnSync(bin, ['src/index.ts', '--format', 'esm,cjs', '--out-dir', out, '--no-dts', '--logLevel', 'warn'], {
    cwd: REPO, encoding: 'utf8', timeout: 240000, env: { ...process.env, NODE_ENV: '' },
  });
  const esm = path.join(out, 'index.mjs'), cjs = path.join(out, 'index.cjs');
  if (r.status !== 0 || !fs.existsSync(esm) || !fs.existsSync(cjs)) {
    removeBuild(dir);
    throw new Error(`build of ${REPO} failed (status ${r.status}): ${(r.stdout || '') + (r.stderr || '')}`.slice(0, 4000));
  }
  linkModules(path.join(dir, 'main', 'node_modules'), { renderer }); // not above other layouts in dir
  return { dir, esm, cjs };
}

/** dependencies as installed in /repo; the optional renderer is the real one behind a monitor, the real one, or absent */
export function linkModules(nm, { renderer }) {
  fs.mkdirSync(nm, { recursive: true });
  const src = path.join(REPO, 'node_modules');
  for (const e of fs.readdirSync(src)) if (!e.startsWith('.') && e !== '@react-email') fs.symlinkSync(path.join(src, e), path.join(nm, e), 'dir');
  if (renderer === 'absent') return;
  fs.mkdirSync(path.join(nm, '@react-email'));
  const to = path.join(nm, '@react-email', 'render');
  if (renderer === 'real') { fs.symlinkSync(path.join(src, '@react-email', 'render'), to, 'dir'); return; }
  fs.mkdirSync(to);
  fs.writeFileSync(path.join(to, 'package.json'), JSON.stringify({ name: '@react-email/render', version: '0.0.0', exports: { '.': { import: './index.mjs', require: './index.cjs' } } }));
  const body = "(...a) => globalThis[Symbol.for('verif.render')](...a)";
  fs.writeFileSync(path.join(to, 'index.mjs'), `export const render = ${body};\nexport const renderAsync = render;\n`);
  fs.writeFileSync(path.join(to, 'index.cjs'), `exports.render = ${body};\nexports.renderAsync = exports.render;\n`);
}

export function removeBuild(dir) {
  if (!dir || !path.resolve(dir).startsWith(path.join(VERIF, '.build') + path.sep)) return;
  fs.rmSync(dir, { recursive: true, force: true });
}
