'use strict';
// corpus.js FILE SEED N: source files for sim-xform, one JSON line each
const fs = require('fs');
const { view } = require('./dialect');
const { buildCase } = require('./world'), { Choices, mix } = require('./choices');
const [, , file, seed, n] = process.argv;
const pf = { files: [1, 1], size: [8, 50], stmts: 4, ism: 10, crlf: 5, hints: 60, ignore: 25, fileHint: 3, weirdNames: 20, lowered: true };
const out = [];
for (let i = 0; out.length < +n; i++) {
  const c = buildCase(new Choices(mix(mix(+seed, 0x10c), i)), pf);
  for (const f of c.files) {
    const options = { coverageVariable: c.common.coverageVariable, reportLogic: c.common.reportLogic, ignoreClassMethods: f.ignoreMethods };
    if (f.inputSourceMap) options.inputSourceMap = f.inputSourceMap;
    out.push(JSON.stringify({ code: view(f.src, f.marks && f.marks[0]), lang: f.lang, filename: f.name, module: f.kind === 'module', options, entry: f.entry }));
  }
}
fs.writeFileSync(file, out.join('\n') + '\n');
