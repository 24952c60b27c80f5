// Writes lib/baseline-literals.json: the literals of the reference source tree.
// Generation prefers literals outside this list. Run by hand, never by a check.
import fs from 'node:fs';
import { mineLiterals } from './mine.mjs';
const m = mineLiterals(process.argv[2]);
for (const k of Object.keys(m)) if (Array.isArray(m[k])) m[k].sort(); else for (const c of Object.keys(m[k])) m[k][c] = Object.fromEntries(Object.entries(m[k][c]).sort());
fs.writeFileSync(new URL('./baseline-literals.json', import.meta.url), `${JSON.stringify(m, null, 0)}\n`);
console.log(Object.fromEntries(Object.entries(m).map(([k, v]) => [k, v.length ?? Object.keys(v).length])));
