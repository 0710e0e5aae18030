'use strict';
// Repeats a recorded violation from its replay file alone.
const fs = require('fs');
process.on('unhandledRejection', () => {});
const r = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const { view } = require('./dialect');
const { PROPS } = require('./props'); const { Choices, mix } = require('./choices'); 
const pf = PROPS[r.property].pf, sim = require(pf.plugin ? './plugin' : './sim');
let v;
if (r.case) v = sim.runPrepared(sim.prepare(null, pf, r.case), () => new Choices(0, r.decisions), pf);
else v = sim.runCase(new Choices(mix(mix(r.seed, 1), r.index)), () => new Choices(mix(mix(r.seed, 2 + (r.schedule || 0)), r.index)), pf);
if (v.trace) { console.log('trace of the run:'); v.trace.forEach((t, i) => console.log(String(i).padStart(5), t, v.violation && v.violation.event === i ? '   <== violation' : '')); }
for (const f of v.case.files) { console.log(`--- ${JSON.stringify(f.name)} (${f.kind}${f.lang ? (f.lang.ts ? f.lang.first ? ', TypeScript, instrumented before types are removed' : ', TypeScript' : '') + (f.lang.jsx ? ', JSX' : '') : ''})`); f.versions.forEach((s, i) => console.log(view(s, f.marks && f.marks[i]))); }
if (v.violation && v.violation.cls === r.class && v.violation.msg === r.message && v.violation.event === r.event) { console.log(`${v.violation.cls}: ${v.violation.msg}`); console.log(`VIOLATION property=${r.property} replay=${process.argv[2]}`); process.exit(1); }
if (!v.violation && v.known && v.known === r.class) { console.log(`VIOLATION property=${r.property} replay=${process.argv[2]}`); process.exit(1); }
console.log(v.violation ? `another violation: ${v.violation.cls}: ${v.violation.msg}` : 'no violation'); process.exit(v.violation ? 2 : 0);
