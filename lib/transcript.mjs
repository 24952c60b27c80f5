// What one call did, in a form that two runs of the same call share.
import util from 'node:util';
import { parseMultipart } from './oracle.mjs';

export function transcript(rec, { logs = false } = {}) {
  const show = (v) => util.inspect(v, { depth: 12, sorted: true, breakLength: Infinity, maxArrayLength: null, maxStringLength: null });
  const o = rec.outcome;
  const t = {
    requests: rec.requests.map((r) => {
      if (r.invalid) return { invalid: r.rawUrl };
      const h = { ...r.headers };
      let body;
      if (r.isForm) { h['content-type'] = (h['content-type'] ?? '').replace(/boundary=.*/, 'boundary=*'); body = parseMultipart(r)?.map((p) => [p.name, p.filename, p.type, p.data.toString('base64')]); } else body = r.body?.toString('base64');
      return { method: r.method, url: r.url.href, headers: Object.entries(h).sort(), body };
    }),
    outcome: o.kind === 'value' ? { value: show(o.value) } : { kind: o.kind, error: o.error instanceof Error ? `${o.error.name}: ${o.error.message}` : show(o.error) },
    aux: rec.aux?.map((x) => show(x.value)),
  };
  if (logs) t.logs = rec.logs.map((l) => [l.via, l.args.map((a) => (typeof a === 'string' ? a : show(a)))]);
  return t;
}
