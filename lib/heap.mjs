// Size and number of the program's own values on the heap, by kind, from a
// heap snapshot: compiled code, feedback and shapes (which grow while V8 is
// still optimising) are left out.
import v8 from 'node:v8';

export async function heapByKind(mark) {
  const chunks = [];
  for await (const c of v8.getHeapSnapshot()) chunks.push(c);
  const snap = JSON.parse(Buffer.concat(chunks.map((c) => (typeof c === 'string' ? Buffer.from(c) : c))).toString());
  const f = snap.snapshot.meta.node_fields, types = snap.snapshot.meta.node_types[0];
  const T = f.indexOf('type'), S = f.indexOf('self_size'), W = f.length;
  const out = {};
  for (let i = 0; i < snap.nodes.length; i += W) { const o = (out[types[snap.nodes[i + T]]] ??= { n: 0, bytes: 0 }); o.n++; o.bytes += snap.nodes[i + S]; }
  let bytes = 0;
  for (const k of ['string', 'concatenated string', 'sliced string', 'array', 'object', 'closure', 'number', 'bigint', 'symbol', 'regexp', 'native']) bytes += out[k]?.bytes ?? 0;
  const marked = mark ? snap.strings.filter((x) => x.includes(mark)) : [];
  return { bytes, kinds: out, marked };
}
