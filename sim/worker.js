'use strict';
// One worker process: runs the programs of its share and reports to the driver.
let sim;
const { Choices, mix } = require('./choices');
const { PROPS } = require('./props');
const { minimize } = require('./minimize');
process.on('unhandledRejection', () => {});
const send = (m) => new Promise((r) => process.send(m, r));
const streams = (seed, i, k) => [new Choices(mix(mix(seed, 1), i)), () => new Choices(mix(mix(seed, 2 + k), i))];

async function work({ prop, seed, from, step, count, K, check, single }) {
  const { pf } = PROPS[prop];
  sim = require(pf.plugin ? './plugin' : './sim');
  const agg = { runs: 0, programs: 0, events: 0, discards: {}, discarded: 0, stats: {}, known: {}, snaps: 0, sigs: [], sample: null, loads: 0, counters: 0 };
  const states = new Set();
  const one = (i) => {
    let prep = sim.prepare(streams(seed, i, 0)[0], pf); const out = [];
    for (let k = 0; k < K; k++) { const r = sim.runPrepared(prep, streams(seed, i, k)[1], pf); out.push(r); if (r.discard || r.violation) break; }
    return out;
  };
  // the same seeds give the same executions in another process
  const probe = {};
  for (const i of check) probe[i] = one(i).map(r => [r.discard, r.sig, r.events, r.violation && r.violation.msg]);
  await send({ t: 'probe', probe });
  for (let n = 0; n < count; n++) {
    const i = from + n * step;
    if (n % 16 === 0) { await send({ t: 'at', i, agg: null }); await new Promise(setImmediate); }
    const rs = one(i);
    if (n < 4) await send({ t: 'own', i, v: rs.map(r => [r.discard, r.sig, r.events, r.violation && r.violation.msg]) });
    agg.programs++;
    for (let k = 0; k < rs.length; k++) {
      const r = rs[k];
      if (r.discard) { agg.discarded++; const d = r.discard.replace(/[:(].*/s, ''); agg.discards[d] = (agg.discards[d] || 0) + 1; if (/^(parse|ref|swc)/.test(r.discard) && !agg.harness) agg.harness = `${i}/${k}: ${r.discard}`; continue; }
      agg.runs++;
      agg.events += r.events; agg.snaps += r.snaps; agg.loads += r.loads || 0;
      for (const s in r.stats) agg.stats[s] = (agg.stats[s] || 0) + r.stats[s];
      if (r.known) { agg.known[r.known] = (agg.known[r.known] || 0) + 1; if (!agg.knownAt) agg.knownAt = [i, k]; }
      if (r.events > 3 && r.uniq.size && agg.sigs.length < 400000) agg.sigs.push(r.sig);
      for (const h of r.uniq) if (states.size < 400000) states.add(h);
      if (!agg.sample && r.events > 12 && r.events < 40) agg.sample = { index: i, schedule: k, files: r.case.files.map(f => ({ name: f.name, kind: f.kind, source: f.versions[0] })), options: r.case.common, trace: r.trace };
      if (r.violation) {
        let v = r.violation;
        await send({ t: 'found', i, k, cls: v.cls, msg: v.msg });
        const [g, s] = streams(seed, i, k);
        let pf2 = pf;
        if (v.hang) { // make sure that it was not the machine
          pf2 = Object.assign({}, pf, { timeout: 30000 });
          const again = sim.runCase(streams(seed, i, k)[0], s, pf2); if (!again.violation) { await send({ t: 'unfound', i, k }); continue; }
        }
        const g0 = streams(seed, i, k)[0]; let sLog = null;
        sim.runCase(g0, () => { const c = s(); if (!sLog || c.log.length >= sLog.length) sLog = c; return c; }, pf);
        const mpf = v.hang ? Object.assign({}, pf, { timeout: 1500 }) : pf;
        const m = minimize(sim, mpf, g0.log, sLog.log, v.cls, single ? 60000 : 45000);
        const fin = sim.runPrepared(sim.prepare(null, mpf, JSON.parse(JSON.stringify(m.case))), () => new Choices(0, m.sched), mpf);
        const fv = fin.violation || v;
        await send({ t: 'violation', i, k, replay: { format: 1, engine: pf.plugin ? 'sim-plugin' : 'sim-run', property: prop, seed, index: i, schedule: k, class: fv.cls, message: fv.msg, event: fv.event, first: { class: v.cls, message: v.msg }, case: m.case, decisions: m.sched, trace: fin.trace, instrumentedTrace: fin.itrace, instrumentedCode: fin.icode } });
        return agg;
      }
    }
  }
  agg.states = [...states];
  return agg;
}
process.on('message', async (m) => {
  const agg = await work(m).catch(async (e) => { await send({ t: 'error', e: String(e && e.stack) }); return null; });
  await send({ t: 'done', agg });
  process.exit(0);
});
