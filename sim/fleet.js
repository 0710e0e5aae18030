'use strict';
// A fleet: workers that run the instrumented files, a network that loses, repeats, delays and reorders what they send,
// and collectors (the real aggregation code) that crash, restart from disk and hand over to each other.
// Virtual time in ms; every decision comes from the schedule's stream.
const { Choices } = require('./choices');
const { runVariant } = require('./world');
const L = (l) => `${l.start.line}:${l.start.column}-${l.end.line}:${l.end.column}`;

function runFleet(S, prep, sched, pf) {
  const { c, R, O, I, D, logic } = prep;
  const ch = sched();
  const res = { case: c, stats: {}, events: 0, discard: null, violation: null, known: null, snaps: 0, uniq: new Set(), loads: 0, trace: [] };
  const stat = (k, n = 1) => { res.stats[k] = (res.stats[k] || 0) + n; };
  if (c.common.processes) stat('files instrumented in processes of their own', c.files.length);
  const fail = (cls, msg, extra) => { if (!res.violation) res.violation = new S.Violation(cls, msg, extra); };
  const gcv = c.common.coverageVariable;
  const note = (t, s) => res.trace.push(`${String(t).padStart(6)} ${s}`);

  // --- workers ------------------------------------------------------------------------------------------------------
  // one incarnation of one worker: run it, keep what its records were at the moments it sends them
  const incs = [];
  const two = c.files.some(f => f.versions.length > 1);
  const nw = 1 + ch.next(4);
  for (let wk = 0; wk < nw && !res.violation; wk++) {
    let dep = two ? ch.next(2) : 0; const nInc = 1 + (ch.chance(35) ? 1 + ch.next(2) : 0);
    for (let q = 0; q < nInc && !res.violation; q++) {
      if (q && two && ch.chance(30)) { dep = 1 - dep; stat('restarted with another version'); }
      const lg = pf.toggleLogic ? ch.chance(50) : logic; const variant = lg === logic ? 0 : 1;
      const ver = (f) => Math.min(dep, f.versions.length - 1);
      const from = ch.log.length;
      const loads = [], vec = [];
      const r0 = runVariant(c, ch, (f) => R[f.i][ver(f)].code, {
        before(w, f) { const r = R[f.i][ver(f)]; if (r.none) return; const k = w.realm.api.mk(r.s.length, r.f.length, r.b.map(b => b.arms.length)); w.realm.global[`__R${f.i}_${ver(f)}`] = k; loads.push({ f, ver: ver(f), k, R: r }); },
        event() { vec.push(loads.map(l => S.flat(l.k, l.R.lay))); },
      }, 0);
      if (r0.fuel < 0) { res.discard = 'fuel'; return res; }
      if (r0.w.compileError) { res.discard = 'ref syntax: ' + r0.w.compileError; return res; }
      const part = ch.log.slice(from);
      res.events += r0.trace.length; res.loads += loads.length;
      for (const k in r0.stats) stat(k, r0.stats[k]);
      const r1 = runVariant(c, new Choices(0, part), (f) => O[f.i][ver(f)], { before() {}, event(w, i) { return w.trace[i] === r0.trace[i]; } }, 0);
      if (r1.trace.length !== r0.trace.length || r1.trace.some((t, i) => t !== r0.trace[i])) { res.discard = 'toolchain changes the program'; return res; }
      // when it sends, and where it dies
      const n = r0.trace.length; const dies = ch.chance(40) ? ch.next(n) : -1; if (dies >= 0) stat('workers crashed');
      const at = new Set(); for (let k = ch.next(4); k > 0; k--) at.add(ch.next(n)); if (dies < 0 || ch.chance(60)) at.add(dies < 0 ? n - 1 : dies);
      const inc = { id: incs.length, wk, dep, lg, dies, sends: [] }; incs.push(inc);
      const r2 = runVariant(c, new Choices(0, part), (f) => I[f.i][ver(f)][variant], {
        before() {},
        event(w, idx) {
          if (idx >= n || w.trace[idx] !== r0.trace[idx]) { fail('trace', `the instrumented program did "${w.trace[idx]}" where the original did "${r0.trace[idx] === undefined ? '(nothing more)' : r0.trace[idx]}"`, { event: idx }); return false; }
          if (at.has(idx) && (dies < 0 || idx <= dies)) {
            const cov = w.realm.global[gcv], recs = [], want = [];
            for (let j = 0; j < vec[idx].length; j++) {
              const l = loads[j];
              if (cov && Object.prototype.hasOwnProperty.call(cov, l.f.name)) { recs.push(JSON.stringify(cov[l.f.name])); want.push([l, vec[idx][j]]); }
              else if (vec[idx][j].some(x => x)) fail('fleet', `${l.f.name} is running in worker ${wk} but its record cannot be sent`, { event: idx });
            }
            inc.sends.push({ idx, recs, want, seq: inc.sends.length });
          }
          return !(dies >= 0 && idx >= dies);
        },
      }, pf.timeout || 4000);
      if (r2.hang) fail('trace', 'the instrumented program does not come back', { hang: true });
      else if (!res.violation && dies < 0 && r2.trace.length < n) fail('trace', `the instrumented program stopped where the original did "${r0.trace[r2.trace.length]}"`);
      if (inc.sends.length) res.uniq.add(S.hash32(Int32Array.from(inc.sends[inc.sends.length - 1].want.flatMap(w => [...w[1]]))));
    }
  }
  if (res.violation) return res;

  // --- network and collectors ---------------------------------------------------------------------------------------
  const cmds = []; let maps = 0; const expectErr = new Set();
  const emit = (...x) => { cmds.push(x); return cmds.length - 1; };
  const pLoss = ch.of([0, 10, 40]), pDup = ch.of([0, 10, 30]), slow = ch.of([5, 50, 900]), pCrash = ch.of([0, 8, 20]), pTorn = ch.of([0, 30]);
  const nc = 1 + ch.next(3);
  // what a collector has in memory and on disk: incarnation -> {seq, map}; slots: two per incarnation, the newer one is tried first
  const cols = []; for (let k = 0; k < nc; k++) cols.push({ k, mem: new Map(), disk: new Map(), up: true, down: 0 });
  const slotNo = (col, inc, par) => (col.k * 64 + inc) * 2 + par;
  const q = []; let tie = 0; const at = (t, f) => { q.push({ t, n: tie++, f }); };
  const lastSend = Math.max(0, ...incs.map(i => i.sends.length)) * 400 + 2000; const stopFaults = lastSend + 2000;
  let now = 0; const calm = () => now > stopFaults;
  const send = (what, f) => {
    if (!calm() && ch.chance(pLoss)) { stat('messages lost'); note(now, `lost: ${what}`); return; }
    const times = !calm() && ch.chance(pDup) ? 2 : 1; if (times > 1) stat('messages duplicated');
    for (let i = 0; i < times; i++) { const d = 1 + ch.next(calm() ? 5 : slow); at(now + d, f); }
    stat('messages');
  };
  const store = (col, inc, e) => { // durable before it is acknowledged
    let d = col.disk.get(inc); if (!d) col.disk.set(inc, d = [null, null]);
    const par = d[0] && (!d[1] || d[0].seq > d[1].seq) ? 1 : 0; const torn = !calm() && ch.chance(pTorn) && ch.chance(50);
    const r = emit('savefile', e.map, slotNo(col, inc, par), torn ? ch.next(95) / 100 : 1);
    d[par] = { seq: e.seq, torn, want: e.want, r };
    if (torn) { stat('torn writes'); crash(col, 'while saving'); }
    return !torn;
  };
  const crash = (col, why) => {
    stat('collectors crashed'); note(now, `collector ${col.k} crashes ${why}`);
    col.up = false; col.mem = new Map(); const boot = ++col.down;
    at(now + 20 + ch.next(200), () => { if (col.up || col.down !== boot) return; col.up = true; note(now, `collector ${col.k} restarts`);
      for (const [inc, d] of col.disk) {
        const order = [0, 1].filter(p => d[p]).sort((a, b) => d[b].seq - d[a].seq);
        for (const p of order) { const m = maps++; const r = emit('loadfile', m, slotNo(col, inc, p)); if (d[p].torn) { expectErr.add(r); d[p] = null; continue; } col.mem.set(inc, { seq: d[p].seq, map: m, want: d[p].want }); stat('states restored'); break; }
      } });
  };
  for (const inc of incs) {
    inc.acked = -1; inc.latest = -1; inc.alive = true; let t = inc.id * 7 + ch.next(500);
    const transmit = () => {
      if (inc.latest < 0 || inc.acked >= inc.latest || !inc.alive) return;
      const s = inc.sends[inc.latest], col = cols[ch.next(nc)];
      send(`worker ${inc.wk}.${inc.id} snapshot ${s.seq} to ${col.k}`, () => deliver(col, inc, s));
    };
    for (const s of inc.sends) { t += 1 + ch.next(400); at(t, () => { if (inc.alive) { inc.latest = s.seq; note(now, `worker ${inc.wk}.${inc.id} sends snapshot ${s.seq} (event ${s.idx})`); transmit(); } }); }
    if (inc.dies >= 0) at(t + 1 + ch.next(300), () => { inc.alive = false; note(now, `worker ${inc.wk}.${inc.id} dies`); });
    const tick = () => { if (inc.alive && (inc.acked < inc.sends.length - 1)) { transmit(); if (now < stopFaults + 3000) at(now + 150, tick); } };
    at(t + 100, tick);
  }
  const deliver = (col, inc, s) => {
    if (!col.up) { stat('messages to a dead collector'); return; }
    if (!calm() && ch.chance(pCrash)) { crash(col, 'on receipt'); return; }
    const have = col.mem.get(inc.id);
    if (have && have.seq >= s.seq) { stat(have.seq === s.seq ? 'duplicates dropped' : 'late snapshots dropped'); }
    else {
      const m = maps++; emit('new', m);
      const order = s.recs.slice(); for (let i = order.length - 1; i > 0; i--) { const j = ch.next(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
      for (const r of order) { emit('add', m, r); res.snaps++; }
      const e = { seq: s.seq, map: m, want: s.want };
      col.mem.set(inc.id, e); note(now, `collector ${col.k} has worker ${inc.wk}.${inc.id} snapshot ${s.seq}`);
      if (!store(col, inc.id, e)) return;
    }
    send(`ack ${inc.id}.${s.seq}`, () => { inc.acked = Math.max(inc.acked, s.seq); });
  };
  // crashes at arbitrary times
  for (let k = 0; k < nc; k++) for (let j = ch.next(3); j > 0; j--) { const t = ch.next(stopFaults), col = cols[k]; at(t, () => { if (col.up) crash(col, 'at rest'); }); }
  while (q.length) {
    let b = 0; for (let i = 1; i < q.length; i++) if (q[i].t < q[b].t || q[i].t === q[b].t && q[i].n < q[b].n) b = i;
    const e = q.splice(b, 1)[0]; now = e.t; e.f();
    if (cmds.length > 6000 || now > stopFaults + 20000) { res.discard = 'network does not settle'; return res; }
  }
  stat('simulated ms', now);
  // progress: once faults stop, whatever a live worker sent last has arrived
  for (const inc of incs) if (inc.alive && inc.sends.length && inc.acked < inc.sends.length - 1) { res.discard = 'not delivered'; return res; }

  // --- the final aggregate: newest snapshot of every incarnation, merged in any grouping and order ------------------------
  const newest = new Map();
  for (const col of cols) for (const [inc, e] of col.mem) { const h = newest.get(inc); if (!h || h.seq < e.seq) newest.set(inc, e); }
  let groups = [...newest.values()].map(e => ({ map: e.map, wants: e.want }));
  const zero = []; // initial records of files no worker may ever have loaded
  if (pf.debug) for (const f of c.files) for (let v = 0; v < f.versions.length; v++) if (ch.chance(50) && !R[f.i][v].none && D[f.i][v] && D[f.i][v].length === 1) {
    const m = maps++; emit('new', m); emit('add', m, D[f.i][v][0]); stat('initial records added');
    groups.push({ map: m, wants: [[{ f, ver: v, R: R[f.i][v] }, new Int32Array(R[f.i][v].lay.n), logic]] });
  }
  const root = maps++; emit('new', root);
  if (ch.chance(30)) { const e = maps++; emit('new', e); emit('merge', root, e); }
  const all = groups.flatMap(g => g.wants);
  while (groups.length > 1) { const i = ch.next(groups.length), a = groups.splice(i, 1)[0], b = groups[ch.next(groups.length)]; emit('merge', b.map, a.map); }
  if (groups.length) emit('merge', root, groups[0].map);
  if (ch.chance(30)) { emit('savefile', root, 1 << 20, 1); emit('loadfile', root, 1 << 20); }
  const di = emit('dump', root), su = emit('summary', root);
  const out = S.ox(cmds);
  for (let i = 0; i < out.length; i++) {
    const o = out[i], bad = o && typeof o === 'object' && (o.err !== undefined || o.panic !== undefined);
    if (bad && !(expectErr.has(i) && o.err !== undefined)) { fail('fleet', `${cmds[i][0]} failed: ${o.err || o.panic}`); return res; }
    if (!bad && expectErr.has(i)) { fail('fleet', 'a torn state was loaded'); return res; }
  }
  // --- what the workers executed ---------------------------------------------------------------------------------------------
  const exp = new Map(); const sum = (m, k, a) => { const h = m.get(k); if (!h) m.set(k, Array.from(a)); else for (let i = 0; i < a.length; i++) h[i] += a[i]; };
  for (const [l, v] of all) {
    let x = exp.get(l.f.name); if (!x) exp.set(l.f.name, x = { s: new Map(), f: new Map(), b: new Map(), t: new Map(), line: new Map(), nz: l.R.norm || ((t) => t) });
    const { R: r } = l, lay = r.lay;
    r.s.forEach((s, i) => sum(x.s, x.nz(s.loc), [v[lay.s + i]]));
    r.f.forEach((f, i) => sum(x.f, x.nz(f.loc), [v[lay.f + i]]));
    r.b.forEach((b, i) => { const n = b.arms.length; if (n) sum(x.b, String(b.arms.map(x.nz)), v.subarray(lay.b[i], lay.b[i] + n)); });
  }
  // truthiness: only of the incarnations that report it
  const tOf = (wants, on) => { if (on) for (const [l, v] of wants) { const x = exp.get(l.f.name); l.R.b.forEach((b, i) => { const n = b.arms.length; if (n && b.type === 'binary-expr') sum(x.t, String(b.arms.map(x.nz)), v.subarray(l.R.lay.t[i], l.R.lay.t[i] + n)); }); } };
  for (const [inc, e] of newest) tOf(e.want, incs[inc].lg);
  for (const w of all) if (w.length === 3) tOf([w], logic);
  const dump = out[di], sm = out[su];
  const paths = Object.keys(dump);
  for (const p of paths) if (!exp.has(p)) { fail('fleet', `the aggregate has a file ${JSON.stringify(p)} that nobody sent`); return res; }
  const T = { s: [0, 0], f: [0, 0], b: [0, 0], l: [0, 0], t: [0, 0] };
  const tally = (t, hits) => { for (const h of hits) { t[0]++; if (h > 0) t[1]++; } };
  const totals = (s) => { const m = /total: (\d+), covered: (\d+)/.exec(s || ''); return m ? [+m[1], +m[2]] : null; };
  for (const [p, x] of exp) {
    const r = dump[p]; if (!r) { fail('fleet', `the aggregate lacks ${JSON.stringify(p)}`); return res; }
    const L = (l) => x.nz(S.L(l)); const have = { s: new Map(), f: new Map(), b: new Map(), t: new Map() };
    for (const k in r.statementMap) sum(have.s, L(r.statementMap[k]), [r.s[k]]);
    for (const k in r.fnMap) sum(have.f, L(r.fnMap[k].loc), [r.f[k]]);
    for (const k in r.branchMap) if (r.branchMap[k].locations.length) sum(have.b, String(r.branchMap[k].locations.map(L)), r.b[k]);
    for (const k in r.bT || {}) if (r.bT[k].length) { if (!r.branchMap[k]) { fail('fleet', `${p}: truthiness of a branch that does not exist`); return res; } sum(have.t, String(r.branchMap[k].locations.map(L)), r.bT[k]); }
    for (const [w, k] of [['statement', 's'], ['function', 'f'], ['branch', 'b'], ['truthiness of', 't']]) {
      for (const [loc, n] of x[k]) { const h = have[k].get(loc); if (!h) { fail('fleet', `${p}: ${w} ${loc} is missing from the aggregate, executed ${n} times`); return res; } if (String(h) !== String(n)) { fail('fleet', `${p}: ${w} ${loc} was executed ${n} times in the workers, the aggregate says ${h}`); return res; } }
      for (const loc of have[k].keys()) if (!x[k].has(loc)) { fail('fleet', `${p}: the aggregate has a ${w} ${loc} that no worker has`); return res; }
    }
    // summaries
    const F = sm.files[p], one = { s: [0, 0], f: [0, 0], b: [0, 0], l: [0, 0], t: [0, 0] };
    const lines = new Map(); for (const [loc, n] of x.s) { const l = parseInt(loc, 10); lines.set(l, Math.max(lines.get(l) || 0, n[0])); }
    tally(one.s, [...x.s.values()].flat()); tally(one.f, [...x.f.values()].flat()); tally(one.b, [...x.b.values()].flat()); tally(one.t, [...x.t.values()].flat()); tally(one.l, [...lines.values()]);
    for (const k of ['s', 'f', 'b', 'l', 't']) {
      const t = totals(F[k]); if (k === 't' && !x.t.size) { if (t && t[0]) fail('fleet', `${p}: truthiness total ${t} without data`); } else if (!t || String(t) !== String(one[k])) fail('fleet', `${p}: summary ${k} is ${F[k]}, the workers' executions give total ${one[k][0]} covered ${one[k][1]}`);
      T[k][0] += one[k][0]; T[k][1] += one[k][1];
    }
    if (res.violation) return res;
    for (const [l, n] of lines) if (F.lines[l] !== n) fail('fleet', `${p}: line ${l} has ${F.lines[l]} hits instead of ${n}`);
    const unc = [...lines].filter(x => !x[1]).map(x => x[0]).sort((a, b) => a - b); if (String([...F.uncovered].sort((a, b) => a - b)) !== String(unc)) fail('fleet', `${p}: uncovered lines ${F.uncovered} instead of ${unc}`);
  }
  for (const k of ['s', 'f', 'b', 'l', 't']) { const t = totals(sm[k]); if (k === 't' && !T.t[0]) continue; if (exp.size && (!t || String(t) !== String(T[k]))) fail('fleet', `overall summary ${k} is ${sm[k]} instead of total ${T[k][0]} covered ${T[k][1]}`); }
  stat('workers', incs.length); stat('collectors', nc); stat('snapshots aggregated', newest.size);
  res.sig = S.hashStr(res.trace.join('\n') + incs.map(i => i.sends.map(s => s.recs.length)).join());
  return res;
}
module.exports = { runFleet };
