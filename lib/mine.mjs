// Literals of the current source tree, used only to steer generation.
import process from 'node:process';
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
import { REPO } from './build.mjs';

function walk(dir, out) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    if (e.name === 'node_modules' || e.name.startsWith('__') || e.name === 'test-utils') continue;
    const p = path.join(dir, e.name);
    if (e.isDirectory()) walk(p, out);
    else if (/\.tsx?$/.test(e.name) && !/\.(spec|test)\.tsx?$/.test(e.name) && !/\.d\.ts$/.test(e.name)) out.push(p);
  }
  return out;
}

export function mineLiterals(root = path.join(REPO, 'src')) {
  const strings = new Set(), numbers = new Set(), regexes = new Set(), variables = new Set(), fields = new Set();
  const counts = { strings: Object.create(null), fields: Object.create(null), numbers: Object.create(null) }; // uses in code, types apart
  let ts;
  try {
    ts = createRequire(path.join(REPO, 'package.json'))('typescript');
  } catch {
    return { strings: [], numbers: [], regexes: [], variables: [], fields: [], counts: { strings: {}, fields: {}, numbers: {} } };
  }
  for (const f of walk(root, [])) {
    const sf = ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.Latest, false, ts.ScriptKind.TS);
    const num = (t) => { const n = Number(String(t).replace(/_/g, '')); if (Number.isFinite(n)) { numbers.add(n); one(counts.numbers, n); } };
    // names that may be those of environment variables
    const variable = (t) => { if (/^[A-Z][A-Z0-9]*(_[A-Z0-9]+)*$/.test(t) && t.length > 2 && t.length < 60) variables.add(t); };
    const one = (o, k) => { if (!types) o[k] = (o[k] ?? 0) + 1; };
    let types = 0;
    const visit = (n) => {
      const K = ts.SyntaxKind;
      const t = n.kind === K.LiteralType || n.kind === K.InterfaceDeclaration || n.kind === K.TypeLiteral || n.kind === K.TypeAliasDeclaration ? 1 : 0;
      types += t;
      look(n);
      types -= t;
    };
    const look = (n) => {
      const K = ts.SyntaxKind;
      switch (n.kind) {
        case K.ImportDeclaration: case K.ExportDeclaration: return;
        case K.StringLiteral: case K.NoSubstitutionTemplateLiteral:
        case K.TemplateHead: case K.TemplateMiddle: case K.TemplateTail:
          if (n.text) { strings.add(n.text); one(counts.strings, n.text); variable(n.text); }
          break;
        case K.Identifier: variable(n.text); break;
        case K.PropertySignature: case K.PropertyAccessExpression: case K.BindingElement: { const x = n.propertyName ?? n.name; if (x.kind === K.Identifier && /^[a-z][a-zA-Z0-9_]{1,40}$/.test(x.text)) { fields.add(x.text); one(counts.fields, x.text); } break; }
        case K.NumericLiteral: num(n.text); break;
        case K.BigIntLiteral: num(n.text.replace(/n$/, '')); break;
        case K.RegularExpressionLiteral: regexes.add(n.text); break;
        case K.BinaryExpression: {
          const v = constEval(ts, n);
          if (v !== undefined) numbers.add(v);
          break;
        }
      }
      ts.forEachChild(n, visit);
    };
    visit(sf);
  }
  return { strings: [...strings], numbers: [...numbers], regexes: [...regexes], variables: [...variables], fields: [...fields], counts };
}

function constEval(ts, n) {
  const K = ts.SyntaxKind;
  if (n.kind === K.NumericLiteral) return Number(n.text);
  if (n.kind === K.ParenthesizedExpression) return constEval(ts, n.expression);
  if (n.kind !== K.BinaryExpression) return undefined;
  const a = constEval(ts, n.left), b = constEval(ts, n.right);
  if (a === undefined || b === undefined) return undefined;
  let r;
  switch (n.operatorToken.kind) {
    case K.AsteriskToken: r = a * b; break;
    case K.PlusToken: r = a + b; break;
    case K.MinusToken: r = a - b; break;
    case K.SlashToken: r = a / b; break;
    case K.AsteriskAsteriskToken: r = a ** b; break;
    case K.LessThanLessThanToken: r = a << b; break;
  }
  return Number.isFinite(r) ? r : undefined;
}

// A sample of a regular expression's language (best effort; undefined on failure).
export function sampleRegex(lit, rnd) {
  const m = /^\/(.*)\/([a-z]*)$/s.exec(lit);
  if (!m) return undefined;
  const src = m[1];
  let i = 0;
  const pick = (a) => a[Math.floor(rnd() * a.length)];
  const esc = (c) => ({ d: () => pick('0123456789'), w: () => pick('abcXYZ019_'), s: () => pick([' ', '\t', '\n']), S: () => 'x', D: () => 'q', W: () => '-', n: () => '\n', r: () => '\r', t: () => '\t', b: () => '', B: () => '' }[c] ?? (() => c));
  function alt() {
    const opts = [seq()];
    while (src[i] === '|') { i++; opts.push(seq()); }
    return () => pick(opts)();
  }
  function seq() {
    const parts = [];
    while (i < src.length && src[i] !== '|' && src[i] !== ')') parts.push(quant(atom()));
    return () => parts.map((p) => p()).join('');
  }
  function atom() {
    const c = src[i++];
    if (c === '(') {
      if (src.startsWith('?:', i)) i += 2;
      else if (src.startsWith('?<', i) && src[i + 2] !== '=' && src[i + 2] !== '!') i = src.indexOf('>', i) + 1;
      else if (src[i] === '?') { const neg = /^\?<?!/.test(src.slice(i, i + 3)); i += src[i + 1] === '<' ? 3 : 2; const a = alt(); i++; return neg ? () => '' : a; }
      const a = alt(); i++; return a;
    }
    if (c === '[') {
      let neg = false; if (src[i] === '^') { neg = true; i++; }
      const set = [];
      while (i < src.length && src[i] !== ']') {
        let ch = src[i++];
        if (ch === '\\') { const f = esc(src[i++]); set.push(f); continue; }
        if (src[i] === '-' && src[i + 1] !== ']') {
          const lo = ch.charCodeAt(0), hi = src.charCodeAt(i + 1); i += 2;
          set.push(() => String.fromCharCode(lo + Math.floor(rnd() * (hi - lo + 1)))); continue;
        }
        set.push(() => ch);
      }
      i++;
      return neg ? () => pick('zZ0~ é') : () => pick(set)();
    }
    if (c === '\\') { const e = src[i++]; if (e === 'u' || e === 'x') { const n = e === 'u' ? 4 : 2; const h = src.slice(i, i + n); i += n; return () => String.fromCharCode(parseInt(h, 16)); } return esc(e); }
    if (c === '.') return () => pick('aZ9-@');
    if (c === '^' || c === '$') return () => '';
    return () => c;
  }
  function quant(a) {
    const c = src[i];
    let lo = 1, hi = 1;
    if (c === '*') { lo = 0; hi = 3; i++; } else if (c === '+') { lo = 1; hi = 4; i++; } else if (c === '?') { lo = 0; hi = 1; i++; } else if (c === '{') {
      const mm = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i));
      if (mm) { lo = +mm[1]; hi = mm[2] ? (mm[3] ? +mm[3] : lo + 3) : lo; i += mm[0].length; }
    }
    if (src[i] === '?') i++;
    if (lo === 1 && hi === 1) return a;
    return () => { const n = lo + Math.floor(rnd() * (hi - lo + 1)); let s = ''; for (let k = 0; k < n; k++) s += a(); return s; };
  }
  try { return alt()(); } catch { return undefined; }
}
