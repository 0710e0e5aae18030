'use strict';
// Decides one property: seeded search over programs, schedules and host faults in worker processes.
const { fork } = require('child_process');
const fs = require('fs'), path = require('path'), os = require('os');
const { PROPS } = require('./props');
const root = path.join(__dirname, '..');

function known(prop) { // findings recorded for this property: id -> text
  const m = {}; let t = ''; try { t = fs.readFileSync(path.join(root, 'known-findings.txt'), 'utf8'); } catch { }
  for (const l of t.split('\n')) { const x = /^finding: property=(\S+) id=(\S+) (.*)$/.exec(l); if (x && x[1] === prop) m[x[2]] = x[3]; }
  return m;
}
async function main() {
  const prop = process.argv[2], tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick', seed = parseInt(process.env.VERIF_SEED || '1', 10) >>> 0;
  const P = PROPS[prop]; const W = Math.max(1, Math.min(8, os.cpus().length));
  const total = parseInt(process.env.SIM_PROGRAMS || P.programs[tier === 'quick' ? 0 : 1], 10);
  const cap = parseInt(process.env.SIM_CAP || (tier === 'quick' ? 240 : 3 * 3600), 10) * 1000;
  const t0 = Date.now();
  const aggs = [], probes = {}, own = {}, found = []; let violation = null, error = null, stop = false; const procs = [];
  const at = {};
  const run = (w, cfg) => new Promise((res) => {
    const p = fork(path.join(__dirname, 'worker.js'), [], { execArgv: ['--experimental-vm-modules', '--no-warnings', '--stack-size=900', '--max-old-space-size=2500'] });
    procs.push(p); let done = false;
    p.on('message', (m) => {
      if (m.t === 'probe') for (const i in m.probe) (probes[i] = probes[i] || []).push(JSON.stringify(m.probe[i]));
      else if (m.t === 'own') own[m.i] = JSON.stringify(m.v);
      else if (m.t === 'at') at[w] = m.i;
      else if (m.t === 'error') error = error || m.e;
      else if (m.t === 'found') { found.push(m); for (const q of procs) if (q !== p) q.stopSoon = true; }
      else if (m.t === 'violation') { if (!violation || m.i < violation.i) violation = m; for (const q of procs) if (q !== p && !q.busy) q.kill(); }
      else if (m.t === 'done') { done = true; if (m.agg) aggs.push(m.agg); }
    });
    p.on('exit', (code, sig) => res({ done, code, sig, w }));
    p.send(cfg);
  });
  const timer = setTimeout(() => { stop = true; for (const q of procs) q.kill(); }, cap);
  // every worker gets small slices so that stopping early keeps what was done
  const slices = 12; const per = Math.ceil(total / (W * slices));
  await Promise.all([...Array(W).keys()].map(async (w) => {
    for (let s = 0; s < slices && !stop && !violation && !found.length && !error; s++) {
      const base = s * per * W;
      const cfg = { prop, seed, from: base + w, step: W, count: per, K: P.K, check: s === 0 ? [0, 1, 2, 3].map(j => (w + 1) % W + j * W) : [] };
      const r = await run(w, cfg);
      if (!r.done && !stop && !violation && !error && !found.length) {
        // the process died: find the program that does it
        const from = at[w] || cfg.from;
        for (let n = 0; n < 16 && !violation; n++) {
          const i = from + n * W;
          const q = await run(w, Object.assign({}, cfg, { from: i, count: 1, check: [] }));
          if (!q.done && !violation && !error) { violation = { i, replay: { format: 1, engine: P.pf.plugin ? 'sim-plugin' : 'sim-run', property: prop, seed, index: i, class: 'crash', message: `the process that instruments and runs program ${i} dies (${q.sig || q.code})`, K: P.K } }; break; }
        }
        if (!violation && !error) error = `a worker ended with ${r.sig || r.code} near program ${from}, and does not when repeated`;
        break;
      }
    }
  }));
  clearTimeout(timer);
  const sum = (f) => aggs.reduce((a, x) => a + f(x), 0);
  const obj = (k) => { const o = {}; for (const a of aggs) for (const s in a[k]) o[s] = (o[s] || 0) + a[k][s]; return o; };
  for (const i in probes) if (own[i] !== undefined) for (const p of probes[i]) if (p !== own[i] && !error) error = `program ${i} ran differently in two processes: ${p} / ${own[i]}`;
  const repeated = Object.keys(probes).filter(i => own[i] !== undefined).length;
  const sigs = new Set(), states = new Set(); for (const a of aggs) { for (const s of a.sigs || []) sigs.add(s); for (const s of a.states || []) states.add(s); }
  const runs = sum(a => a.runs), programs = sum(a => a.programs), wall = (Date.now() - t0) / 1000, disc = sum(a => a.discarded);
  const kf = known(prop), kn = obj('known');
  let bad = 0;
  if (violation) {
    bad = 1;
    const dir = path.join(root, 'replays'); fs.mkdirSync(dir, { recursive: true });
    const file = path.join(dir, `${prop}-${seed}-${violation.i}.json`);
    fs.writeFileSync(file, JSON.stringify(violation.replay, null, 1));
    console.log(`${violation.replay.class}: ${violation.replay.message}`);
    console.log(`VIOLATION property=${prop} replay=${file}`);
  }
  for (const id in kn) {
    if (prop !== 'C08') continue;
    if (kf[id]) console.log(`KNOWN-FINDING: property=${prop} ${kf[id]}`);
    else { bad = 1; const a = aggs.find(a => a.knownAt); const dir = path.join(root, 'replays'); fs.mkdirSync(dir, { recursive: true }); const file = path.join(dir, `${prop}-${seed}-known-${id}.json`); fs.writeFileSync(file, JSON.stringify({ format: 1, engine: P.pf.plugin ? 'sim-plugin' : 'sim-run', property: prop, seed, index: a.knownAt[0], schedule: a.knownAt[1], class: id })); console.log(`VIOLATION property=${prop} replay=${file}`); }
  }
  if (!violation && !error && runs < 200) error = `only ${runs} runs`;
  if (!violation && !error && disc > 0.1 * programs) error = `${disc} of ${programs} programs were discarded: ${JSON.stringify(obj('discards'))}`;
  const harness = aggs.map(a => a.harness).find(x => x), unusable = ['parse', 'ref', 'swc'].reduce((n, k) => n + (obj('discards')[k] || 0), 0);
  if (!violation && !error && unusable > 0.005 * programs) error = 'the reference or the generator is broken: ' + harness;
  const sample = aggs.map(a => a.sample).find(x => x);
  const cov = {
    evaluations: runs, distinct_nontrivial: sigs.size,
    rule: P.pf.plugin ? 'one evaluation is the life of one simulated swc host: 3 to 8 calls of the real wasm plugin, one new instance per call, on generated files under names and configurations that are rewritten and damaged between calls, while imports of the plugin (output, clock, randomness, environment, any host call) misbehave by a seeded schedule; every returned program is compared with the library given the options the configuration stands for; distinct = distinct histories (hash of all configurations, calls, faults and results); non-trivial = more than 3 host calls' : P.pf.fleet ? 'one evaluation is one simulated fleet: instances of a generated set of files are run by workers (instrumented code in realms, next to the reference run), their snapshots travel over a lossy network to collectors that crash and restart, and the aggregate is compared with what the workers executed; distinct = distinct histories (hash of all events with values); non-trivial = more than 3 events and at least one counter of the reference moved' : 'one evaluation is one simulated execution: a generated set of files and options, run three ways (reference counters, uninstrumented, instrumented) under one seeded schedule of loads, promise settlements, generator resumptions, callbacks, reloads and host failures, checked at every host event' + (P.pf.positions ? ', where the stack of calls and of errors is led back to the source through the source maps of both' : '') + '; distinct = distinct event traces (hash of all events with values); non-trivial = more than 3 events and at least one counter of the reference moved',
    samples: sample ? [sample] : [], programs, schedules_per_program: P.K, host_events: sum(a => a.events), file_loads: sum(a => a.loads), snapshots_serialised: sum(a => a.snaps), distinct_final_counter_states: states.size,
    faults_and_scheduling_decisions: obj('stats'), discarded_programs: obj('discards'), runs_known_finding: kn,
    seeds_per_hour: Math.round(programs / wall * 3600), runs_per_hour: Math.round(runs / wall * 3600),
    simulated_time: P.pf.plugin ? 'the WASI clock of the plugin is simulated and jumps; progress is counted in host calls' : P.pf.fleet ? `${Math.round((obj('stats')['simulated ms'] || 0) / 1000)} s of the fleets' clock` : 'the system reads no clock; simulated progress is counted in host events', repeated_in_another_process: repeated,
    real_components: P.pf.plugin ? ['swc-plugin-coverage as wasm32-wasip1 in V8', 'serialisation of programs, comments and locations (swc_common plugin)', 'swc parser, resolver, hygiene, fixer and code generator (host side)', 'swc-coverage-instrument and istanbul-oxide in the plugin and, for comparison, native'] : ['swc parser, resolver, hygiene, fixer and code generator', 'swc-coverage-instrument visitors and templates', 'istanbul-oxide model' + (P.pf.fleet ? ' (all aggregation and summaries)' : prop === 'C09' || prop === 'C19' ? ' (reads and aggregates every snapshot)' : ' (builds the initial record)'), 'V8 realms running the emitted code'],
    simulated_components: P.pf.plugin ? ['swc host: all imports of the plugin', 'WASI clock, randomness, environment and output', 'configuration file and its writers'] : [...(P.pf.fleet ? ['network between workers and collectors, and its protocol', 'disks and crashes of collectors', 'clock of the fleet'] : []), 'host functions, promises, iterators and callbacks of each realm', 'loader and task scheduler', 'process crash: a snapshot is judged at every event, as if the worker ended there'],
  };
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(root, 'evidence', prop + '.json'), JSON.stringify({ property: prop, tier, seed, level: 'exploration', coverage: cov, assumptions: [...(P.pf.plugin ? ['names and patterns use a part of the glob language for which the meaning is beyond doubt; of drives, pattern and name have the same one'] : []), 'programs come from the generator of sim/gen.js; decorators are not generated, TypeScript and JSX are added by sim/dialect.js (types removed after or before the plugin, JSX compiled after it)', 'the reference instrumenter (sim/ref.js, on acorn) and V8 are trusted', 'programs that swc itself changes without instrumentation are discarded and counted'], wall_s: wall, violations: bad }, null, 1));
  console.log(`${prop}: ${programs} programs, ${runs} runs, ${sum(a => a.events)} events, ${sigs.size} distinct traces, ${disc} discarded, ${wall.toFixed(1)} s${stop ? ' (time cap)' : ''}`);
  if (error && !bad) { console.error('ERROR ' + error); process.exit(2); }
  process.exit(bad ? 1 : 0);
}
main();
