'use strict';
// Shrinks a failing run: first the decision lists (programs and schedule), then the program text itself.
const acorn = require('./vendor/acorn.js');
const { Choices } = require('./choices');
const { shift } = require('./dialect');

function ddList(list, test, until) {
  let cur = list.slice();
  for (let size = Math.max(1, cur.length >> 1); size >= 1; size = size >> 1) {
    for (let i = 0; i < cur.length && Date.now() < until;) {
      const del = cur.slice(0, i).concat(cur.slice(i + size));
      if (test(del)) { cur = del; continue; }
      if (cur.slice(i, i + size).some(x => x)) { const z = cur.map((x, j) => j >= i && j < i + size ? 0 : x); if (test(z)) cur = z; }
      i += size;
    }
    if (Date.now() >= until) break;
  }
  return cur;
}
// removable pieces of a source, biggest first
function pieces(src, module) {
  let ast; try { ast = acorn.parse(src, { ecmaVersion: 'latest', sourceType: module ? 'module' : 'script' }); } catch { return []; }
  const out = [];
  (function walk(n, inExpr) {
    if (!n || typeof n !== 'object') return;
    if (Array.isArray(n)) { for (const x of n) walk(x); return; }
    if (typeof n.type === 'string') {
      if (/Statement$|Declaration$/.test(n.type)) out.push([n.start, n.end, ''], [n.start, n.end, ';']);
      else if (/Expression$|Literal$/.test(n.type) && n.end - n.start > 1) { out.push([n.start, n.end, '0']); for (const k of ['left', 'right', 'test', 'consequent', 'alternate', 'argument', 'object', 'callee']) if (n[k] && n[k].type && /Expression$|Literal$|Identifier/.test(n[k].type)) out.push([n.start, n.end, src.slice(n[k].start, n[k].end)]); } else if (n.type === 'MethodDefinition' || n.type === 'PropertyDefinition' || n.type === 'SwitchCase' || n.type === 'StaticBlock' || n.type === 'Property') out.push([n.start, n.end, '']);
      else if (n.type === 'AssignmentPattern') out.push([n.start, n.end, src.slice(n.left.start, n.left.end)]);
    }
    for (const k in n) if (k !== 'type' && k !== 'start' && k !== 'end' && typeof n[k] === 'object') walk(n[k]);
  })(ast.body);
  return out.sort((a, b) => (b[1] - b[0] - b[2].length) - (a[1] - a[0] - a[2].length));
}
// sim: {prepare, runPrepared}; viol(case|null, genList|null, schedList) -> violation or null
function minimize(sim, pf, genLog, schedLog, cls, budgetMs) {
  const t0 = Date.now(), until = t0 + budgetMs;
  const same = (v) => v && v.cls === cls;
  const tryGen = (g, s) => { try { return same(sim.runCase(new Choices(0, g), () => new Choices(0, s), pf).violation); } catch { return false; } };
  let gen = genLog, sched = schedLog;
  if (tryGen(gen, sched)) {
    sched = ddList(sched, (s) => tryGen(gen, s), t0 + budgetMs * 0.2);
    gen = ddList(gen, (g) => tryGen(g, sched), t0 + budgetMs * 0.5);
  }
  let c = require('./world').buildCase(new Choices(0, gen), pf);
  const strip = (c) => ({ common: c.common, files: c.files.map(f => ({ i: f.i, name: f.name, kind: f.kind, versions: f.versions, src: f.versions[0], ignoreMethods: f.ignoreMethods, inputSourceMap: f.inputSourceMap, entry: f.entry, lang: f.lang, marks: f.marks && f.marks.slice() })) });
  const tryCase = (c, s) => { try { return same(sim.runPrepared(sim.prepare(null, pf, strip(c)), () => new Choices(0, s), pf).violation); } catch { return false; } };
  c = strip(c);
  let changed = true;
  while (changed && Date.now() < until) {
    changed = false;
    // whole files from the end
    for (let i = c.files.length - 1; i > 0; i--) { const d = strip(c); d.files = d.files.slice(0, i); if (tryCase(d, sched)) { c = d; changed = true; } else break; }
    for (const f of c.files) for (let v = 0; v < f.versions.length; v++) {
      let again = true, from = 0;
      while (again && Date.now() < until) {
        again = false;
        const ps = pieces(f.versions[v], f.kind === 'module');
        for (let k = Math.min(from, ps.length); k < ps.length && Date.now() < until; k++) {
          const [a, b, r] = ps[k]; if (b - a <= r.length) continue;
          const d = strip(c); const src = f.versions[v];
          d.files[f.i].versions = d.files[f.i].versions.slice(); d.files[f.i].versions[v] = src.slice(0, a) + r + src.slice(b); d.files[f.i].src = d.files[f.i].versions[0]; if (f.marks) d.files[f.i].marks[v] = shift(f.marks[v], a, b, r.length);
          if (tryCase(d, sched)) { f.versions[v] = d.files[f.i].versions[v]; f.src = f.versions[0]; f.marks = d.files[f.i].marks; again = changed = true; from = k; break; }
        }
        if (!again && from > 0) { from = 0; again = true; }
      }
    }
    // added syntax of another dialect
    for (const f of c.files) if (f.lang) {
      const without = (v, m) => { const d = strip(c), g = d.files[f.i]; g.marks[v] = m; if (g.marks.every(x => !x.length)) { delete g.lang; delete g.marks; } return d; };
      for (let v = 0; v < f.versions.length && f.lang; v++) {
        const keep = (m) => { if (!f.lang || !tryCase(without(v, m), sched)) return false; f.marks[v] = m; changed = true; return true; };
        for (let n = f.marks[v].length; n >= 1 && Date.now() < until; n >>= 1) for (let k = 0; k < f.marks[v].length && Date.now() < until;) if (!keep(f.marks[v].slice(0, k).concat(f.marks[v].slice(k + n)))) k += n;
      }
      if (f.marks.every(m => !m.length)) { const d = strip(c); delete d.files[f.i].lang; delete d.files[f.i].marks; if (tryCase(d, sched)) { delete f.lang; delete f.marks; } }
    }
    const s2 = ddList(sched, (s) => tryCase(c, s), until);
    if (s2.length < sched.length || s2.some((x, i) => x !== sched[i])) { sched = s2; changed = true; }
  }
  return { case: strip(c), sched };
}
module.exports = { minimize };
