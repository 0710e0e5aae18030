'use strict';
const { execFileSync } = require('child_process'), vm = require('vm'), assert = require('assert');
// instruments files (one process for all of them)
const inst = (...files) => execFileSync(process.argv[2], { input: files.map(f => JSON.stringify(Object.assign({ filename: 'a.js' }, typeof f === 'string' ? { code: f } : f))).join('\n') + '\n', maxBuffer: 1e8 }).toString().trim().split('\n').map(l => JSON.parse(l)).map(r => { if (r.err) { console.log(r.err); process.exit(1); } return r; });
const realm = (globals) => { const c = vm.createContext(Object.assign({}, globals)); c.run = (r, filename) => vm.runInContext(r.code, c, filename && { filename }); c.cov = (n) => JSON.parse(JSON.stringify(vm.runInContext('__coverage__', c)[n || 'a.js'])); return c; };
const text = (code, loc) => { const ls = code.split('\n'); const off = (p) => ls.slice(0, p.line - 1).reduce((a, l) => a + l.length + 1, 0) + p.column; return code.slice(off(loc.start), off(loc.end)); };
// hits by the text of the construct
const stmts = (code, cov) => { const o = {}; for (const i in cov.s) o[text(code, cov.statementMap[i])] = cov.s[i]; return o; };
const fns = (code, cov) => { const o = {}; for (const i in cov.f) o[text(code, cov.fnMap[i].loc)] = cov.f[i]; return o; };
const branches = (code, cov) => Object.keys(cov.b).map(i => [cov.branchMap[i].type, cov.branchMap[i].locations.map(l => text(code, l)), cov.b[i], cov.bT && cov.bT[i]]);

