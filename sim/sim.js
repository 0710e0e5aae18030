'use strict';
// Runs one case: reference, uninstrumented and instrumented variants under the same schedule; compares.
const path = require('path');
const { spawnSync } = require('child_process');
const { Choices, mix } = require('./choices');
const { buildCase, runVariant } = require('./world');
const { CJS } = require('./realm');
const acorn = require('./vendor/acorn');
const ref = require('./ref'), dialect = require('./dialect');

const addonModule = { exports: {} };
process.dlopen(addonModule, process.env.SIM_ADDON || path.join(__dirname, '../target/release/libaddon.so'));
const call = (o) => JSON.parse(addonModule.exports.call(JSON.stringify(o)));
// the same in a process that has done nothing else
const PROCESS = path.join(__dirname, '../target/release/instrumenter');
const callAlone = (o) => {
  const r = spawnSync(PROCESS, { input: JSON.stringify(o) + '\n', encoding: 'utf8', maxBuffer: 1 << 28 });
  if (r.error) throw r.error;
  if (r.status !== 0 || !r.stdout) return { panic: `the process ended (${r.status === null ? r.signal : r.status})` };
  return JSON.parse(r.stdout);
};
const ox = (cmds) => JSON.parse(addonModule.exports.ox(JSON.stringify(cmds)));

const L = (l) => `${l.start.line}:${l.start.column}-${l.end.line}:${l.end.column}`;

class Violation { constructor(cls, msg, extra) { this.cls = cls; this.msg = msg; Object.assign(this, extra); } }

// --- reference vectors ---------------------------------------------------------------------------------------------
function flatLayout(R) { // index of every counter in a flattened vector
  let n = 1; const lay = { s: n }; n += R.s.length; lay.f = n; n += R.f.length; lay.b = []; for (const b of R.b) { lay.b.push(n); n += b.arms.length; } lay.t = []; for (const b of R.b) { lay.t.push(n); n += b.arms.length; }
  lay.n = n; return lay;
}
function flat(c, lay) {
  const v = new Int32Array(lay.n); v[0] = c.on; v.set(c.s, lay.s); v.set(c.f, lay.f);
  for (let i = 0; i < c.b.length; i++) { v.set(c.b[i], lay.b[i]); v.set(c.t[i], lay.t[i]); }
  return v;
}

// --- record <-> reference mapping -----------------------------------------------------------------------------------
// -> {problems: [[cls, text]], s:[[id, refs]], ...} ; entries with equal locations are compared as multisets
function mapRecord(rec, R, lay, logic) {
  const problems = [];
  const nz = R.norm || ((x) => x), L2 = R.norm ? (l) => nz(L(l)) : L;
  const groups = (real, want, cls, what) => {
    const m = new Map();
    for (const [k, v] of real) { let g = m.get(k); if (!g) m.set(k, g = { k, real: [], want: [] }); g.real.push(v); }
    for (const [k, v] of want) { let g = m.get(k); if (!g) m.set(k, g = { k, real: [], want: [] }); g.want.push(v); }
    const out = [];
    for (const g of m.values()) { if (g.real.length !== g.want.length) problems.push([cls, g.real.length < g.want.length ? `${what} ${g.k} has no entry` + (g.real.length ? ' of its own' : '') : g.want.length ? `${what} ${g.k} has ${g.real.length} entries instead of ${g.want.length}` : `entry for ${what} ${g.k}, which should not be counted`]); else out.push(g); }
    return out;
  };
  const s = groups(Object.keys(rec.statementMap).map(k => [L2(rec.statementMap[k]), k]), R.s.map((x, i) => [nz(x.loc), lay.s + i]), 's-table', 'statement');
  const f = groups(Object.keys(rec.fnMap).map(k => [L2(rec.fnMap[k].loc), k]), R.f.map((x, i) => [nz(x.loc), i]), 'f-table', 'function');
  for (const g of f) if (g.real.length === 1) {
    const x = rec.fnMap[g.real[0]], w = R.f[g.want[0]];
    if (w.name !== undefined && x.name !== w.name) problems.push(['f-table', `function ${g.k} is named ${JSON.stringify(x.name)} instead of ${JSON.stringify(w.name)}`]);
    if (w.decl && L2(x.decl) !== nz(w.decl)) problems.push(['f-table', `function ${g.k} is declared at ${L(x.decl)} instead of ${w.decl}`]);
  }
  for (const g of f) g.want = g.want.map(i => lay.f + i);
  const bs = [];
  R.b.forEach((b, i) => { if (b.arms.length) bs.push([`${b.type} ${nz(b.loc)} [${b.arms.map(nz)}]`, i]); });
  const b = groups(Object.keys(rec.branchMap).map(k => { const x = rec.branchMap[k]; return [`${x.type} ${L2(x.loc)} [${x.locations.map(L2)}]`, k]; }), bs, 'b-table', 'branch');
  return { problems, s, f, b };
}
const sorted = (a) => a.length < 2 ? a : a.slice().sort((x, y) => x - y);
function compareCounts(rec, map, R, lay, v, logic, out) {
  for (const g of map.s) { if (g.real.length === 1) { const a = rec.s[g.real[0]], w = v[g.want[0]]; if (a !== w) { out.push(['s-count', `statement ${g.k} counted ${a} times instead of ${w}`]); } } else { const a = sorted(g.real.map(k => rec.s[k])), w = sorted(g.want.map(i => v[i])); if (String(a) !== String(w)) out.push(['s-count', `statements ${g.k} counted ${a} instead of ${w}`]); } }
  for (const g of map.f) { const a = sorted(g.real.map(k => rec.f[k])), w = sorted(g.want.map(i => v[i])); if (a.length === 1 ? a[0] !== w[0] : String(a) !== String(w)) out.push(['f-count', `function ${g.k} counted ${a} times instead of ${w}`]); }
  for (const g of map.b) {
    if (g.real.length === 1) {
      const k = g.real[0], i = g.want[0], n = R.b[i].arms.length, c = rec.b[k];
      if (!c || c.length !== n) { out.push(['b-count', `branch ${g.k} has ${c && c.length} counts`]); continue; }
      for (let j = 0; j < n; j++) if (c[j] !== v[lay.b[i] + j]) out.push(['b-count', `branch ${g.k} arm ${j} counted ${c[j]} times instead of ${v[lay.b[i] + j]}`]);
      if (logic && R.b[i].type === 'binary-expr') {
        const t = rec.bT && rec.bT[k];
        if (!t || t.length !== n) { out.push(['t-count', `branch ${g.k} has ${t ? t.length + ' truthiness counts' : 'no truthiness counts'}`]); continue; }
        for (let j = 0; j < n; j++) if (t[j] !== v[lay.t[i] + j]) out.push(['t-count', `branch ${g.k} operand ${j} counted truthy ${t[j]} times instead of ${v[lay.t[i] + j]}`]);
      } else if (rec.bT && rec.bT[k] !== undefined) out.push(['t-count', `branch ${g.k} (${logic ? 'not logical' : 'logic reporting is off'}) has truthiness counts`]);
    } else {
      const a = g.real.map(k => String([...rec.b[k]])).sort(), w = g.want.map(i => String([...v.subarray(lay.b[i], lay.b[i] + R.b[i].arms.length)])).sort();
      if (String(a) !== String(w)) out.push(['b-count', `branches ${g.k} counted ${a} instead of ${w}`]);
    }
  }
  if (!logic && rec.bT !== undefined) out.push(['t-count', 'there is truthiness data although logic reporting is off']);
}

// --- well-formedness of a snapshot (C09) ------------------------------------------------------------------------------
function lineLens(src) { return src.split('\n').map(l => l.length); }
function wellFormed(snap, f, logic, out) {
  const lens = f.lens || (f.lens = lineLens(f.src));
  const bad = (m) => out.push(['wellformed', m]);
  const pos = (p) => p && Number.isInteger(p.line) && Number.isInteger(p.column) && p.line >= 1 && p.line <= lens.length && p.column >= 0 && p.column <= lens[p.line - 1];
  // code that stands for TypeScript syntax may have no place in the source
  const nowhere = (r) => f.lang && f.lang.ts && !f.lang.first && r && r.start && r.end && L(r) === '0:0-0:0';
  const range = (r, w) => { if (nowhere(r)) return; if (!r || !pos(r.start) || !pos(r.end)) bad(`${w} range ${JSON.stringify(r)} is outside of the source`); else if (r.start.line > r.end.line || r.start.line === r.end.line && r.start.column > r.end.column) bad(`${w} range ${L(r)} is not ordered`); };
  const count = (n) => Number.isInteger(n) && n >= 0 && n < 4294967296;
  const same = (a, b, w) => { if (!a || !b || typeof a !== 'object' || typeof b !== 'object') return bad(`${w} table is missing`); const x = Object.keys(a), y = Object.keys(b); if (x.length !== y.length || x.some(k => !(k in b))) bad(`${w} hit and location tables have different keys: ${x} / ${y}`); };
  same(snap.s, snap.statementMap, 'statement'); same(snap.f, snap.fnMap, 'function'); same(snap.b, snap.branchMap, 'branch');
  if (out.length) return;
  for (const k in snap.statementMap) { range(snap.statementMap[k], 'statement ' + k); if (!count(snap.s[k])) bad(`statement ${k} has count ${snap.s[k]}`); }
  for (const k in snap.fnMap) { const x = snap.fnMap[k]; range(x.loc, 'function ' + k); range(x.decl, 'function declaration ' + k); if (typeof x.name !== 'string' || !Number.isInteger(x.line)) bad(`function ${k} has name ${x.name} line ${x.line}`); if (!count(snap.f[k])) bad(`function ${k} has count ${snap.f[k]}`); }
  for (const k in snap.branchMap) {
    const x = snap.branchMap[k]; range(x.loc, 'branch ' + k); for (const l of x.locations) range(l, 'branch arm ' + k);
    if (!['if', 'switch', 'cond-expr', 'binary-expr', 'default-arg'].includes(x.type)) bad(`branch ${k} has type ${x.type}`);
    if (!Array.isArray(snap.b[k]) || snap.b[k].length !== x.locations.length || !snap.b[k].length || !snap.b[k].every(count)) bad(`branch ${k} has counts ${JSON.stringify(snap.b[k])} for ${x.locations.length} arms`);
    const t = snap.bT && snap.bT[k];
    if (logic && x.type === 'binary-expr' ? !Array.isArray(t) || t.length !== x.locations.length || !t.every((n, i) => count(n) && n <= snap.b[k][i]) : t !== undefined) bad(`branch ${k} (${x.type}) has truthiness row ${JSON.stringify(t)} for counts ${JSON.stringify(snap.b[k])}`);
  }
  for (const k in snap.bT || {}) if (!(k in snap.branchMap)) bad(`truthiness row ${k} has no branch`);
  if (snap.path !== f.name) bad(`path is ${JSON.stringify(snap.path)} instead of ${JSON.stringify(f.name)}`);
  if (snap._coverageSchema !== '11020577277169172593') bad(`schema marker is ${JSON.stringify(snap._coverageSchema)}`);
  if (typeof snap.hash !== 'string' || !snap.hash) bad('hash is missing');
  if (!deepEq(snap.inputSourceMap, f.inputSourceMap)) bad(`input source map is ${JSON.stringify(snap.inputSourceMap)} instead of ${JSON.stringify(f.inputSourceMap)}`);
}
function deepEq(a, b) {
  if (a === b) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false;
  const x = Object.keys(a), y = Object.keys(b);
  return x.length === y.length && x.every(k => Object.prototype.hasOwnProperty.call(b, k) && deepEq(a[k], b[k]));
}
function roundTrip(text, out) {
  const r = ox([['roundtrip', 0, text]])[0];
  if (r.err !== undefined || r.panic !== undefined) { out.push(['roundtrip', `native model does not read the snapshot: ${r.err || r.panic}`]); return; }
  const a = JSON.parse(text), b = JSON.parse(r.text);
  // the markers of the published object are not part of the model
  delete a._coverageSchema; delete a.hash;
  if (a.all === undefined) a.all = false;
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) if (!deepEq(a[k], b[k])) out.push(['roundtrip', `${k} is ${cut(JSON.stringify(b[k]))} after a round trip instead of ${cut(JSON.stringify(a[k]))}`]);
  if (!r.same) out.push(['roundtrip', 'reading the written record gives another record']);
}
const cut = (s) => s && s.length > 160 ? s.slice(0, 160) + '…' : s;

// --- one run -----------------------------------------------------------------------------------------------------
// gen: the stream the files and options come from; sched: () => the stream one run is scheduled by; pf: profile
function runCase(gen, sched, pf) { return runPrepared(prepare(gen, pf), sched, pf); }
// everything that does not depend on the schedule: generate, compile the reference, the original and the instrumented code
// given: a case read back from a replay file
function prepare(gen, pf, given) {
  const c = given || buildCase(gen, pf);
  c.pf = pf;
  c.reload = !!pf.reload;
  const res = { case: c, discard: null, violation: null };
  const opts = (f, logic) => Object.assign({ coverageVariable: c.common.coverageVariable, reportLogic: logic, ignoreClassMethods: f.ignoreMethods, debugInitialCoverageComment: !!pf.debug }, f.inputSourceMap ? { inputSourceMap: f.inputSourceMap } : {});
  // compile everything
  const R = [], O = [], I = [], D = [], M = []; // M: per file and version, source maps of the original and the instrumented code
  const logic = c.common.reportLogic;
  for (const f of c.files) {
    R.push([]); O.push([]); I.push([]); D.push([]); M.push([]);
    for (let v = 0; v < f.versions.length; v++) {
      const src = f.versions[v], V = `__R${f.i}_${v}`;
      let r;
      try { r = ref.instrument(src, { module: f.kind === 'module', reportLogic: logic, ignoreMethods: f.ignoreMethods, v: V, marks: f.marks && f.marks[v], first: !!(f.lang && f.lang.first), pre: f.kind === 'cjs' ? `const ${V} = globalThis.${V};` : '' }); } catch (e) { res.discard = 'parse: ' + e.message; return { c, res }; }
      r.lay = flatLayout(r); R[f.i].push(r);
      const q = { code: src, filename: f.name, module: f.kind === 'module', options: opts(f, logic), map: !!pf.positions };
      let o;
      if (f.lang) { // what the dialect does not take is compiled as plain JavaScript
        q.code = dialect.view(src, f.marks[v]); q.lang = f.lang;
        o = call(Object.assign({}, q, { instrument: false }));
        if (o.code === undefined) { if (given) { res.discard = 'swc: ' + (o.err || o.panic); return { c, res }; } res.fallback = (res.fallback || 0) + 1; res.why = o.err || o.panic; q.code = src; delete q.lang; o = null; } else r.norm = dialect.normalizer(src);
      }
      if (!o) o = call(Object.assign({}, q, { instrument: false }));
      if (o.code === undefined) { res.discard = 'swc: ' + (o.err || o.panic); return { c, res }; }
      O[f.i].push(o.code);
      const one = (options) => (c.common.processes ? callAlone : call)(Object.assign({}, q, { options, entry: f.entry || 'program' }));
      const i = one(q.options);
      if (i.code === undefined) { res.violation = new Violation('instrument', `instrumenting ${f.name} failed: ${i.err || i.panic}`); return { c, res }; }
      I[f.i].push([i.code]); D[f.i].push(i.debug); M[f.i].push([o.map, i.map]);
      if (pf.toggleLogic) { const j = one(opts(f, !logic)); if (j.code === undefined) { res.violation = new Violation('instrument', `instrumenting ${f.name} failed: ${j.err || j.panic}`); return { c, res }; } I[f.i][v].push(j.code); }
    }
  }
  return { c, res, R, O, I, D, M, logic };
}
function runPrepared(prep, sched, pf) {
  const { c, R, O, I, D, M, logic } = prep;
  const rel = pf.classes;
  const res = { case: c, stats: {}, events: 0, discard: null, violation: null, known: null, snaps: 0, uniq: new Set() };
  if (prep.res) { if (prep.res.discard) { res.discard = prep.res.discard; return res; } if (prep.res.violation) { res.violation = prep.res.violation; return res; } }
  if (pf.fleet) return require('./fleet').runFleet({ L, flat, hash32, hashStr, ox, Violation }, prep, sched, pf);
  const uniq = res.uniq;
  // reference
  const snaps = []; // per event: [[load, vector]...]
  let loads = [];
  const refHooks = {
    before(w, f, ver) {
      const r = R[f.i][ver]; if (r.none) return;
      const k = w.realm.api.mk(r.s.length, r.f.length, r.b.map(b => b.arms.length));
      w.realm.global[`__R${f.i}_${ver}`] = k;
      loads.push({ f, ver, k, R: r });
    },
    event() { snaps.push(loads.map(l => flat(l.k, l.R.lay))); },
  };
  const r0 = runVariant(c, sched(), (f, v) => R[f.i][v].code, refHooks, 0);
  if (r0.fuel < 0 || r0.trace.length > 20000) { res.discard = 'fuel'; return res; }
  if (r0.w.compileError) { res.discard = 'ref syntax: ' + r0.w.compileError; return res; }
  res.stats = r0.stats; if (c.common.processes) res.stats['files instrumented in processes of their own'] = c.files.length; res.events = r0.trace.length; res.trace = r0.trace; res.loads = loads.length;
  const rl = loads;
  for (const v of snaps[snaps.length - 1] || []) uniq.add(hash32(v));
  res.sig = hashStr(r0.trace.join('\n'));
  // uninstrumented
  const watched = pf.positions && new Map(c.files.map(f => [f.name, f]));
  const r1 = runVariant(c, sched(), (f, v) => O[f.i][v], { start(w) { if (watched) w.positions(watched); }, before() {}, event(w, i) { return w.trace[i] === r0.trace[i]; } }, 0);
  if (r1.trace.length !== r0.trace.length || r1.trace.some((t, i) => t !== r0.trace[i])) { res.discard = 'toolchain changes the program'; res.diff = r1.trace.findIndex((t, i) => t !== r0.trace[i]); res.otrace = r1.trace; return res; }
  // the place of the source a place of the compiled code comes from
  const source = ([what, name, line, col], k) => {
    const f = watched.get(name), m = M[f.i][0][k]; line--; col -= 1 + (f.kind === 'cjs' && !line ? CJS.length : 0);
    let lo = 0, hi = m.length; while (lo < hi) { const x = (lo + hi) >> 1; if (m[x][0] < line || m[x][0] === line && m[x][1] <= col) lo = x + 1; else hi = x; }
    return lo ? `${name}:${m[lo - 1][2]}:${m[lo - 1][3]}` : `${name}:?`;
  };
  // V8 has a place of its own for a call that is written down; others have one of something before
  const calls = watched && c.files.map(f => /[\u2028\u2029]/.test(O[f.i][0] + I[f.i][0][0]) ? new Map() : callPlaces(O[f.i][0], f.kind === 'module')); // V8 and swc do not agree on what is a line there
  const called = ([what, name, line, col, inner]) => { const f = watched.get(name), n = calls[f.i].get(`${line}:${col - 1 - (f.kind === 'cjs' && line === 1 ? CJS.length : 0)}`); return n !== undefined && (inner === null ? what === 'e' && /^new \w*Error$/.test(n) : n === inner || n === 'new ' + inner); };
  // instrumented
  const variants = pf.toggleLogic ? [0, 1] : [0];
  for (const variant of variants) {
    const lg = variant ? !logic : logic;
    let found = null, known = null, cur = [];
    const gcv = c.common.coverageVariable;
    let foreign = null, foreignText = null, fobj = null;
    const mayLogic = logic; // the reference has truthiness counts only if it was built with it
    const fail = (idx, cls, msg) => { if (!found && (cls === 'trace' || rel.has(cls))) found = new Violation(cls, msg, { event: idx, variant }); };
    const hooks = {
      start(w) {
        if (watched) w.positions(watched);
        if (w.cfg.foreign) {
          w.realm.global[gcv] = w.realm.api.eval(FOREIGN); fobj = w.realm.global[gcv]; foreign = fobj['other.js']; foreignText = JSON.stringify(fobj);
        }
      },
      before(w, f, ver) {
        if (R[f.i][ver].none) return;
        const l = { f, ver, R: R[f.i][ver], rec: null, map: null, n: cur.length, prev: null, mode: 'fresh' };
        for (let i = cur.length - 1; i >= 0; i--) if (cur[i].f === f) { l.prev = cur[i]; break; }
        cur.push(l);
      },
      event(w, idx) {
        if (found) return false;
        if (idx >= r0.trace.length || w.trace[idx] !== r0.trace[idx]) { fail(idx, 'trace', `the instrumented program did "${w.trace[idx]}" where the original did "${r0.trace[idx] === undefined ? '(nothing more)' : r0.trace[idx]}"${w.compileError ? ' (' + w.compileError + ')' : ''}`); return false; }
        if (watched) {
          const want = r1.w.pos[idx].filter(called).map(p => source(p, 0)), is = w.pos[idx].map(p => source(p, 1));
          for (const x of want) { const i = is.indexOf(x); if (i < 0) { fail(idx, 'position', `${w.trace[idx]}: the call at ${x} is at none of the places the source map leads to: ${is.join(' ')}`); return false; } is.splice(i, 1); }
          res.stats['places compared'] = (res.stats['places compared'] || 0) + want.length;
        }
        const vs = snaps[idx];
        const cov = w.realm.global[gcv];
        const out = [];
        for (let j = 0; j < cur.length; j++) {
          const l = cur[j]; let v = vs[j]; if (!v) continue;
          let zero = true; for (let x = 0; x < v.length; x++) if (v[x]) { zero = false; break; }
          const later = cur.some((m, q) => q > j && m.f === l.f && m.rec);
          if (!l.rec) {
            const rec = cov && Object.prototype.hasOwnProperty.call(cov, l.f.name) ? cov[l.f.name] : undefined;
            if (zero && (!rec || l.prev && l.prev.rec === rec)) continue;
            if (!rec) { out.push(['publish', `${l.f.name} is running but its record is not published under ${gcv}`]); continue; }
            l.rec = rec;
            if (l.prev && l.prev.rec === rec) {
              if (l.prev.ver !== l.ver) { out.push(['publish', `a changed version of ${l.f.name} did not start a fresh record`]); continue; }
              l.mode = 'continue'; l.base = l.prev;
            } else if (l.prev && l.prev.ver === l.ver && l.prev.rec) known = 'reload';
            l.map = mapRecord(rec, l.R, l.R.lay, lg);
            for (const p of l.map.problems) out.push(p);
            if (pf.debug && !variant) debugCheck(rec, D[l.f.i][l.ver], v, l, out);
          }
          if (l.mode === 'continue') { v = v.slice(); for (let m = l; m.mode === 'continue'; m = m.base) { const q = vs[m.base.n]; for (let x = 0; x < v.length; x++) v[x] += q[x]; } }
          if (!later) {
            const rec = cov && Object.prototype.hasOwnProperty.call(cov, l.f.name) ? cov[l.f.name] : undefined;
            if (rec !== l.rec && !cur.some((m, q) => q > j && m.f === l.f)) out.push(['publish', `the published record of ${l.f.name} was ${rec ? 'replaced' : 'removed'}`]);
          }
          if (l.mode === 'fresh' && later && cur.some((m, q) => q > j && m.mode === 'continue' && m.rec === l.rec)) continue; // accounted for by the later load
          const o2 = [];
          compareCounts(l.rec, l.map, l.R, l.R.lay, v, lg && mayLogic, o2);
          if (lg && !mayLogic) for (let q = o2.length - 1; q >= 0; q--) if (o2[q][0] === 't-count') o2.splice(q, 1);
          for (const p of o2) out.push([p[0], `${l.f.name}: ${p[1]}`]);
          if (pf.snapshots && ((idx * 7 + j) % pf.snapshots === 0 || r0.trace[idx] === 'end')) {
            res.snaps++;
            const text = JSON.stringify(l.rec); const o3 = [];
            wellFormed(JSON.parse(text), Object.assign({}, l.f, { src: l.f.versions[l.ver], lens: undefined }), lg, o3);
            if (!o3.length) roundTrip(text, o3);
            for (const p of o3) out.push([p[0], `${l.f.name}: ${p[1]}`]);
          }
          if (pf.debug && !variant && r0.trace[idx] === 'end') placeholderCheck(D[l.f.i][l.ver], l, out, res);
        }
        if (fobj && (w.realm.global[gcv] !== fobj || fobj['other.js'] !== foreign || idx % 16 === 0 && JSON.stringify(onlyForeign(fobj)) !== foreignText)) out.push(['publish', 'records of other tools under the same variable were changed']);
        for (const p of out) fail(idx, p[0], p[1]);
        return !found;
      },
    };
    const r2 = runVariant(c, sched(), (f, v) => I[f.i][v][variant], hooks, pf.timeout || 4000);
    if (r2.hang && !found) found = new Violation('trace', 'the instrumented program does not come back', { event: r2.trace.length, variant, hang: true });
    if (!found && r2.trace.length < r0.trace.length) found = new Violation('trace', `the instrumented program stopped where the original did "${r0.trace[r2.trace.length]}"`, { event: r2.trace.length, variant });
    if (known) res.known = known;
    if (found) { found.logicOn = lg; (res.all = res.all || []).push({ found, itrace: r2.trace, icode: c.files.map(f => I[f.i].map(x => x[variant])) }); if (!pf.toggleLogic) break; }
  }
  const all = res.all;
  if (all) {
    // when both settings are compared, a failure that both share is not about the setting
    const x = !pf.toggleLogic ? all[0] : all.find(x => x.found.cls === 't-count' || x.found.cls === 'trace') || (all.length === 1 ? all[0] : null);
    if (x) { if (pf.toggleLogic && x.found.cls !== 't-count' && x.found.cls !== 'trace') x.found.msg = `only with logic reporting ${x.found.logicOn ? 'enabled' : 'disabled'}: ${x.found.msg}`; res.violation = x.found; res.itrace = x.itrace; res.icode = x.icode; }
    // where swc itself changes what the program executes without showing it in the trace, nothing is decided
    if (res.violation && res.violation.cls !== 'trace' && compilerChanges(prep, sched, snaps, r0.trace)) { res.violation = null; res.discard = 'toolchain changes the program'; }
  }
  return res;
}
function callPlaces(code, module) {
  const out = new Map(), put = (p, n) => out.set(`${p.line}:${p.column}`, n);
  const walk = (n) => {
    if (Array.isArray(n)) { n.forEach(walk); return; }
    if (!n || typeof n.type !== 'string') return;
    if (n.type === 'NewExpression') { if (n.callee.type === 'Identifier') put(n.loc.start, 'new ' + n.callee.name); }
    else if (n.type === 'CallExpression') { if (n.callee.type === 'Identifier') put(n.callee.loc.start, n.callee.name); else if (n.callee.type === 'MemberExpression' && !n.callee.computed) put(n.callee.property.loc.start, n.callee.property.name); }
    for (const k in n) if (k !== 'loc' && typeof n[k] === 'object') walk(n[k]);
  };
  let ast; try { ast = acorn.parse(code, { ecmaVersion: 'latest', sourceType: module ? 'module' : 'script', locations: true, allowReturnOutsideFunction: true, allowHashBang: true }); } catch { return out; } // takes some slashes for divisions
  walk(ast);
  return out;
}
// the reference's own counters, with its code compiled by swc: do they move differently?
function compilerChanges(prep, sched, snaps, trace) {
  const { c, R } = prep, code = [];
  for (const f of c.files) { code.push([]); for (const r of R[f.i]) { const o = call({ code: r.code, filename: f.name, module: f.kind === 'module', instrument: false }); if (o.code === undefined) return false; code[f.i].push(o.code); } }
  const loads = []; let same = true;
  const r = runVariant(c, sched(), (f, v) => code[f.i][v], {
    before(w, f, ver) { const r = R[f.i][ver]; if (r.none) return; const k = w.realm.api.mk(r.s.length, r.f.length, r.b.map(b => b.arms.length)); w.realm.global[`__R${f.i}_${ver}`] = k; loads.push({ k, R: r }); },
    event(w, i) { const v = loads.map(l => flat(l.k, l.R.lay)); if (w.trace[i] !== trace[i] || v.length !== snaps[i].length || v.some((x, j) => x.some((n, q) => n !== snaps[i][j][q]))) same = false; return same; },
  }, 0);
  return !same;
}
const FOREIGN = `({ 'other.js': { path: 'other.js', statementMap: { 0: { start: { line: 1, column: 0 }, end: { line: 1, column: 5 } } }, fnMap: {}, branchMap: {}, s: { 0: 7 }, f: {}, b: {}, hash: 'x', $hash: 'y' }, 'f0.js2': { s: { 0: 3 } } })`;
function onlyForeign(o) { return { 'other.js': o['other.js'], 'f0.js2': o['f0.js2'] }; }

function debugCheck(rec, debug, v, l, out) {
  if (!debug || debug.length !== 1) { out.push(['debug', `${debug ? debug.length : 0} initial records were reported`]); return; }
  let d; try { d = JSON.parse(debug[0]); } catch (e) { out.push(['debug', 'the initial record is not JSON: ' + e.message]); return; }
  const p = JSON.parse(JSON.stringify(rec));
  for (const k of ['path', 'statementMap', 'fnMap', 'branchMap', 'inputSourceMap']) if (!deepEq(d[k], p[k])) out.push(['debug', `${k} of the initial record is ${cut(JSON.stringify(d[k]))}, published is ${cut(JSON.stringify(p[k]))}`]);
  for (const k of ['s', 'f', 'b', 'bT']) {
    if ((d[k] === undefined) !== (p[k] === undefined)) { out.push(['debug', `initial record ${d[k] ? 'has' : 'lacks'} ${k}`]); continue; }
    if (!d[k]) continue;
    if (String(Object.keys(d[k]).sort()) !== String(Object.keys(p[k]).sort())) out.push(['debug', `${k} of the initial record has other ids`]);
    for (const i in d[k]) { const x = d[k][i]; if (Array.isArray(x) ? x.some(n => n !== 0) || !p[k][i] || x.length !== p[k][i].length : x !== 0) out.push(['debug', `${k}[${i}] of the initial record is ${JSON.stringify(x)}`]); }
  }
}
// the initial record stands in for a worker that never ran: adding it changes nothing
function placeholderCheck(debug, l, out, res) {
  if (!debug || debug.length !== 1) return;
  const text = JSON.stringify(l.rec);
  const r = ox([['add', 0, text], ['dump', 0], ['add', 1, text], ['add', 1, debug[0]], ['dump', 1], ['add', 2, debug[0]], ['add', 2, text], ['dump', 2], ['add', 3, debug[0]], ['dump', 3]]);
  const e = r.find(x => x && (x.err !== undefined || x.panic !== undefined)); if (e) { out.push(['debug', 'aggregating the initial record failed: ' + (e.err || e.panic)]); return; }
  res.snaps++;
  const key = (d) => { const x = d[l.f.name]; const m = {}; if (!x) return 'none'; for (const k in x.statementMap) m['s' + L(x.statementMap[k])] = x.s[k]; for (const k in x.fnMap) m['f' + L(x.fnMap[k].loc)] = x.f[k]; for (const k in x.branchMap) m['b' + x.branchMap[k].type + L(x.branchMap[k].loc) + x.branchMap[k].locations.map(L)] = [x.b[k], x.bT ? x.bT[k] : undefined]; return m; };
  const a = key(r[1]), b = key(r[4]), c = key(r[7]), d = key(r[9]);
  if (!deepEq(JSON.parse(JSON.stringify(a)), JSON.parse(JSON.stringify(b))) || !deepEq(JSON.parse(JSON.stringify(a)), JSON.parse(JSON.stringify(c)))) out.push(['debug', 'adding the initial record to a snapshot of the file changes it']);
  const x = Object.keys(a), y = new Set(Object.keys(d)); const miss = x.find(k => !y.has(k)); if (miss) out.push(['debug', `the initial record does not list ${miss}`]);
}
function hashStr(s) { let h = 2166136261; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } return h >>> 0; }
function hash32(v) { let h = 2166136261; for (let i = 0; i < v.length; i++) { h ^= v[i]; h = Math.imul(h, 16777619); } return h >>> 0; }
module.exports = { runCase, prepare, runPrepared, call, ox, Violation, hashStr, deepEq, L };
