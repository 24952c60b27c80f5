// Writes lib/shapes.json: the shape of every operation's documented answer, from
// the public types of the reference source tree. It steers which answers the
// scripted server gives and takes part in no verdict. Run by hand, never by a check.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import { OPS } from './catalog.mjs';

const root = process.argv[2] ?? '/repo';
const ts = createRequire(`${root}/package.json`)('typescript');
const program = ts.createProgram([`${root}/src/index.ts`], { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler, strict: true, skipLibCheck: true, resolveJsonModule: true, noEmit: true, types: [] });
const ck = program.getTypeChecker();
const mod = ck.getSymbolAtLocation(program.getSourceFile(`${root}/src/index.ts`));
const Resend = ck.getDeclaredTypeOfSymbol(ck.getExportsOfModule(mod).find((s) => s.name === 'Resend'));
const F = ts.TypeFlags;
const prop = (t, n) => { const s = t && ck.getPropertyOfType(t, n); return s && ck.getTypeOfSymbol(s); };
function schema(t, depth = 8) {
  if (depth < 0) return { k: 'any' };
  if (t.flags & F.StringLiteral) return { k: 'lit', v: t.value };
  if (t.flags & F.NumberLiteral) return { k: 'lit', v: t.value };
  if (t.flags & F.BooleanLiteral) return { k: 'lit', v: t.intrinsicName === 'true' };
  if (t.flags & F.Boolean) return { k: 'bool' };
  if (t.flags & F.Null) return { k: 'lit', v: null };
  if (t.flags & (F.Undefined | F.Void)) return { k: 'undef' };
  if (t.flags & F.StringLike) return { k: 'str' };
  if (t.flags & F.NumberLike) return { k: 'num' };
  if (t.flags & F.Union) { const u = t.types.map((x) => schema(x, depth - 1)).filter((x) => x.k !== 'undef'); const lits = u.every((x) => x.k === 'lit' && typeof x.v === 'boolean'); return lits && u.length === 2 ? { k: 'bool' } : u.length === 1 ? u[0] : { k: 'or', of: u }; }
  if (ck.isArrayType(t)) return { k: 'arr', of: schema(ck.getTypeArguments(t)[0], depth - 1) };
  if (t.flags & (F.Object | F.Intersection)) {
    const idx = ck.getIndexTypeOfType?.(t, ts.IndexKind.String);
    const props = {};
    for (const s of ck.getPropertiesOfType(t)) { const v = schema(ck.getTypeOfSymbol(s), depth - 1); if (v.k !== 'undef') props[s.name] = s.flags & ts.SymbolFlags.Optional ? { ...v, opt: 1 } : v; }
    if (idx && !Object.keys(props).length) return { k: 'map', of: schema(idx, depth - 1) };
    return { k: 'obj', of: props };
  }
  return { k: 'any' };
}
const out = {};
for (const o of OPS) {
  let t = Resend;
  for (const part of o.name.split('.')) t = prop(t, part);
  const found = [];
  for (const sig of t?.getCallSignatures() ?? []) {
    let r = sig.getReturnType();
    r = ck.getAwaitedType?.(r) ?? r;
    for (const m of r.flags & F.Union ? r.types : [r]) {
      const e = prop(m, 'error'), d = prop(m, 'data');
      if (e && d && e.flags & F.Null) found.push(schema(d));
    }
  }
  const uniq = [...new Map(found.map((x) => [JSON.stringify(x), x])).values()];
  if (uniq.length && !/^(post|get|put|patch|delete)$/.test(o.name)) out[o.name] = uniq.length === 1 ? uniq[0] : { k: 'or', of: uniq };
  else process.stderr.write(`no shape: ${o.name}\n`);
}
// contactProperties answers arrive with the API's names
fs.writeFileSync(new URL('./shapes.json', import.meta.url), `${JSON.stringify(out)}\n`);
