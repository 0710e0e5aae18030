'use strict';
// Records what an swc host hands to the plugin for one small program (development tool; writes host.json).
const fs = require('fs'), path = require('path');
const addon = { exports: {} }; process.dlopen(addon, path.join(__dirname, '../../target/release/libplughost.so')); const A = addon.exports;
const code = fs.readFileSync(path.join(__dirname, 'program.txt'), 'utf8');
const o = JSON.parse(A.open(JSON.stringify({ code, filename: 'host.js', module: false })));
const b = (x) => x ? Buffer.from(x).toString('base64') : null, h = o.h, r = { code, mark: o.mark, program: b(A.ast(h)), lookup: {}, leading: {}, trailing: {}, texts: {} };
for (let p = 1; p <= code.length + 2; p++) {
  r.lookup[p] = b(A.lookup(h, p, false)); r.lookup['f' + p] = b(A.lookup(h, p, true));
  for (const k of ['leading', 'trailing']) { const c = A.comments(h, 'get_' + k, p); if (c) r[k][p] = b(c); }
}
for (const t of process.argv.slice(2)) r.texts[t] = b(A.text(t));
fs.writeFileSync(path.join(__dirname, 'host.json'), JSON.stringify(r));
