'use strict';
// Builds one simulated case (files, options, environment) and runs one variant of it under the seeded scheduler.
const { Choices, mix } = require('./choices');
const { Gen } = require('./gen');
const { Realm, Hang } = require('./realm');
const { decorate } = require('./dialect');

const NPAL = 28;
const FEATURES = ['logic', 'cond', 'fn', 'cls', 'dflt', 'gen', 'async', 'loop', 'sw', 'tryc', 'iff', 'hostobj', 'tag', 'dir', 'label', 'rare', 'shadow'];
const FUEL = 6000, MAXEV = 260;

// The simulated environment of one realm: decides what every host call does, from the schedule's choice stream.
class World {
  constructor(ch, cfg, onEvent, timeout) {
    this.ch = ch; this.cfg = cfg; this.trace = []; this.onEvent = onEvent; this.depth = 0; this.stopped = false; this.stats = {};
    this.realm = new Realm((k, id, s) => this.D(k, id, s), FUEL, timeout);
    this.where = null;
  }
  // from now on every event knows which places of the files it came from
  positions(names) {
    this.names = names; this.pos = []; this.where = []; // per event: places; places since the last event
    this.realm.api.where((sites) => this.places('e', sites));
  }
  places(what, sites) { let inner = null; for (const s of sites) { const n = s.getScriptNameOrSourceURL(); if (this.names.has(n)) this.where.push([what, n, s.getLineNumber(), s.getColumnNumber(), inner]); inner = s.getFunctionName() || ''; } }
  here() {
    const old = Error.prepareStackTrace, lim = Error.stackTraceLimit;
    Error.prepareStackTrace = (e, sites) => { this.places('c', sites); return ''; }; Error.stackTraceLimit = 24;
    void new Error().stack;
    Error.prepareStackTrace = old; Error.stackTraceLimit = lim;
  }
  stat(k) { this.stats[k] = (this.stats[k] || 0) + 1; }
  log(s) { if (this.trace.length > 20000) throw new Error('too much'); this.trace.push(s); if (this.where) { this.here(); this.pos.push(this.where); this.where = []; } if (!this.stopped && this.onEvent(this.trace.length - 1) === false) this.stopped = true; }
  D(k, id, s) {
    const again = s === '+';
    if (!again) this.log(`${k} ${id} ${s}`);
    const { ch, cfg } = this; const late = this.trace.length > MAXEV;
    switch (k) {
      case 'hp': return !late && ch.chance(15) ? 1 : 0;
      case 'ap': return late || ch.chance(60) ? 1 : 0;
      case 'it': return late ? 0 : ch.next(4);
      case 'nx': if (late) return -2; if (ch.chance(cfg.pThrow)) { this.stat('iterator threw'); return -1; } return this.val();
      case 'h': case 'hj': case 'm': case 'v': case 'hc': case 'hm': case 'sm': case 'ht': case 'hT': case 'hq': case 'gp': case 'gq': case 'ga': case 'gv': {
        if (late) return 0;
        const n = this.realm.api.cbs.length;
        if (n && this.depth < 2 && !again && ch.chance(cfg.pReenter)) { this.stat('re-entrant callback'); this.depth++; const j = ch.next(n); return 1000 + j; }
        if (again) this.depth--;
        if (ch.chance(cfg.pThrow)) { this.stat('host call threw'); return ch.chance(15) ? -3 : -1; }
        if (k === 'gq') return ch.chance(50) ? 20 : 3;
        return this.val();
      }
      default: return 0;
    }
  }
  val() { return this.ch.chance(25) ? 0 : this.ch.next(NPAL); }
}

// --- cases -------------------------------------------------------------------------------------------------------
const NAMES = ['a.js', 'src/a.js', '/repo/src/a.js', 'src\\a.js', 'a"b.js', "a'b.js", 'a\nb.js', 'é中.js', 'a.js ', ' a.js', 'A.js', './a.js', '../a.js', 'constructor', 'toString', 'a`b${c}.js', 'x\u2028y.js', 'file:///a.js', '<anon>', 'C:\\w\\a.js', '\u{1F600}.js', '*/x.js', '-->x.js', '$hash', 'all'];

// almost the same name
function similar(ch, n) {
  return ch.of([() => './' + n, () => n.replace(/[\\/]/g, c => c === '/' ? '\\' : '/'), () => n.toUpperCase(), () => n + ' ', () => ' ' + n, () => '/' + n, () => 'src/' + n, () => n.replace(/^.*[\\/]/, ''), () => n.slice(0, -1), () => n + 'x', () => n.slice(1, 2) + n[0] + n.slice(2), () => n.normalize('NFD'), () => n + '?v=1', () => 'C:' + n, () => n.replace('/', '//'), () => 'src/../' + n])();
}
// a source map that came with the file
const TEXTS = ['orig.ts', 'x "y" \\ \n\u2028', '', 'é中\u{1F600}', '`${a}`', '*/', "it's\r\n", 'A.ts', 'a\u0000b\t', '</script>'];
function inputMap(ch) {
  const m = { version: 3, sources: [], names: [], mappings: ch.of(['AAAA', '', 'AAAA,CAAC;AACA', ';;;']) };
  for (let n = ch.pick([[6, 1], [2, 2], [1, 3], [1, 0]]); n > 0; n--) m.sources.push(ch.of(TEXTS));
  for (let n = ch.next(3); n > 0; n--) m.names.push(ch.of(TEXTS));
  if (ch.chance(60)) m.file = ch.of(['f.js', '', 'a"b']);
  if (ch.chance(50)) m.sourceRoot = ch.of(['', '/r', 'C:\\w']);
  if (ch.chance(70)) m.sourcesContent = m.sources.map(() => ch.chance(30) ? null : ch.of(TEXTS)).slice(0, ch.chance(10) ? 1 : 9);
  return m;
}
// profile: see props.js
function buildCase(ch, pf) {
  const nf = pf.files[0] + ch.next(pf.files[1] - pf.files[0] + 1);
  const files = [];
  const common = {
    reportLogic: pf.logic === undefined ? ch.chance(35) : pf.logic,
    coverageVariable: ch.chance(pf.covVar || 10) ? ch.of(['__cov', 'cov-var', '$c$', '__coverage__ ', 'a.b', 'é']) : '__coverage__',
    processes: ch.chance(pf.processes || 0), // every file is instrumented in a process of its own
  };
  let w = pf.w;
  if (pf.swarm !== false && ch.chance(60)) { // each case has its own mix of language features
    w = Object.assign({}, pf.w);
    for (const k of FEATURES) { const m = ch.of([1, 1, 0, 3]); if (m !== 1) w[k] = (w[k] === undefined ? 4 : w[k]) * m; }
  }
  const names = new Set();
  const exp = []; // exports of earlier files
  // what the files are called is known from the start: modules import from any other one, also in circles
  const plan = [];
  for (let i = 0; i < nf; i++) {
    const kind = ch.pick(pf.kinds || [[3, 'script'], [3, 'module'], [2, 'cjs']]);
    let name;
    do { name = ch.chance(pf.weirdNames || 15) ? ch.of(NAMES) + (ch.chance(20) ? i : '') : `f${i}.js`; if (names.has(name)) name = `${i}${name}`; } while (names.has(name));
    if (i && ch.chance((pf.weirdNames || 10) / 2)) { const n = similar(ch, ch.of(plan).name); if (n && !names.has(n)) name = n; }
    names.add(name); plan.push({ kind, name, leaf: kind === 'module' && ch.chance(nf > 1 ? 60 : 10) ? { n: `l${i}`, gen: ch.chance(20) } : null });
  }
  for (let i = 0; i < nf; i++) {
    const { kind, name, leaf } = plan[i];
    const o = {
      file: i, kind, strict: ch.chance(25), size: pf.size[0] + ch.next(pf.size[1]), stmts: 2 + ch.next(pf.stmts || 6),
      hints: pf.hints ? ch.chance(pf.hints) : false,
      ignoreMethods: pf.ignore && ch.chance(pf.ignore) ? ch.of([['m0'], ['m1', 'g1'], ['m2', 'q1', 'constructor'], ['n1', 'm0', 'constructor']]) : [],
      w, ext: { callable: [], topCallable: [] }, exportsN: nf > 1 ? ch.next(3) : ch.next(2), imports: [], leaf, tla: ch.chance(40), fileHint: pf.fileHint ? ch.chance(pf.fileHint) : false,
    };
    // functions of other files this one can use
    for (const e of exp) {
      if (e.kind === 'module') { if (kind === 'module' && ch.chance(60)) { const im = importOf(ch, e.names, e.file, i); o.imports.push(im); for (const n of im.names) o.ext.callable.push({ n, kind: 'fn' }); } }
      else for (const n of e.names) o.ext.callable.push({ n: `X.${n}`, kind: 'fn' });
    }
    if (kind === 'module') plan.forEach((q, j) => {
      if (j === i || q.kind !== 'module') return;
      if (q.leaf && ch.chance(50)) { const im = importOf(ch, [q.leaf.n], q.name, i); o.imports.push(im); o.ext.callable.push({ n: im.names[0], kind: q.leaf.gen ? 'gen' : 'fn' }); }
      if (ch.chance(8)) o.imports.push({ text: ch.of([`import ${JSON.stringify(q.name)};`, `export * from ${JSON.stringify(q.name)};`, `export * as z${i}_${j} from ${JSON.stringify(q.name)};`, `export {} from ${JSON.stringify(q.name)};`]), names: [] });
    });
    o.logs = !!pf.plugin; // logs of everything grow with the depth
    const gen = () => { const g = new Gen(ch, o); let s = g.program(); if (pf.crlf && ch.chance(pf.crlf)) s = s.replace(/\n/g, '\r\n'); return s; };
    const src = gen();
    const f = { i, name, kind, src, entry: o.fileHint || !ch.chance(15) ? 'program' : 'item', ignoreMethods: o.ignoreMethods, versions: [src] };
    if (pf.reload && ch.chance(pf.reload) && kind === 'cjs') f.versions.push(gen());
    if (pf.deploy && ch.chance(pf.deploy)) f.versions.push(gen());
    if (ch.chance(pf.ism || 8)) f.inputSourceMap = inputMap(ch);
    const lang = ch.chance(pf.dialect === undefined ? 40 : pf.dialect) ? { ts: !ch.chance(20), jsx: ch.chance(35), first: ch.chance(50) } : null;
    if (lang && (lang.ts || lang.jsx) && !(pf.fleet && f.versions.length > 1)) {
      f.lang = lang; f.marks = [];
      let hid = 9000;
      f.versions = f.versions.map(s => { const d = decorate(s, { ch, module: kind === 'module', ts: lang.ts, jsx: lang.jsx, gen: lang.ts && (lang.first || !!pf.lowered), hid }); if (!d) { f.marks.push([]); return s; } hid = d.hid; f.marks.push(d.marks); return d.js; });
      f.src = f.versions[0];
    }
    files.push(f);
    const ns = []; for (let j = 0; j < o.exportsN; j++) ns.push(`e${i}_${j}`);
    if (ns.length) exp.push({ kind, names: ns, file: name });
  }
  return { files, common };
}

// how hostile the environment of one run is (swarm: decided per run, by the schedule's stream)
function envOf(ch, pf) { return { pThrow: ch.of(pf.pThrow || [2, 0, 0, 5, 12, 25]), pReenter: ch.of([0, 8, 20]), steps: 8 + ch.next(pf.steps || 32), foreign: ch.chance(pf.foreign || 10) }; }

// one of the ways to import these names; names: how they are then called
function importOf(ch, names, from, i) {
  const f = JSON.stringify(from), k = ch.next(6);
  if (k === 0) { const ns = `N${i}_${names[0]}`; return { text: `import * as ${ns} from ${f};`, names: names.map(n => `${ns}.${n}`) }; }
  if (k === 1) return { text: `import { ${names.map(n => `${n} as y${i}${n}`).join(', ')} } from ${f};`, names: names.map(n => `y${i}${n}`) };
  return { text: `import { ${names.join(', ')} } from ${f};`, names };
}

// --- one variant ---------------------------------------------------------------------------------------------------
// codeOf(file, version) -> code to load; hooks: {before(load), after(load), event(idx) , end()}
function runVariant(c, schedule, codeOf, hooks, timeout) {
  const ch = schedule, env = envOf(ch, c.pf);
  const w = new World(ch, env, (i) => hooks.event(w, i), timeout);
  const r = w.realm;
  hooks.start && hooks.start(w);
  const todo = c.files.map(f => f.i);
  const loaded = []; // {f, ver}
  const settled = new Set(), mods = [];
  let hang = false, clash = 0;
  const loadOne = (i, ver) => {
    const f = c.files[i];
    const codes = (n) => { const g = c.files.find(x => x.name === n); hooks.before(w, g, 0); return codeOf(g, 0); };
    w.log(`load ${i} ${ver}`);
    let out;
    if (f.kind === 'module') {
      out = r.loadModule(f.name, codes);
      if (out.m) mods.push({ f, m: out.m, logged: false });
    } else { hooks.before(w, f, ver); out = r.loadScript(codeOf(f, ver), f.name, f.kind === 'cjs'); }
    loaded.push({ f, ver });
    w.log(`loaded ${i} ${out.compile ? 'SYNTAX' : out.err}`);
    if (out.compile) w.compileError = out.compile;
  };
  try {
    for (let step = 0; step < env.steps; step++) {
      const a = r.api; const opts = [];
      if (todo.length) opts.push([10, 'load']); else opts.push([1, 'end']);
      const ps = []; for (let j = 0; j < a.pend.length; j++) if (!settled.has(j)) ps.push(j);
      if (ps.length) opts.push([8, 'settle']);
      const gs = a.gens.length; if (gs) opts.push([6, 'gen']);
      const cs = a.cbs.length; if (cs) opts.push([4, 'cb']);
      const rl = loaded.filter(l => l.f.kind === 'cjs' && c.reload);
      if (rl.length) opts.push([3, 'reload']);
      const k = ch.pick(opts);
      if (k === 'end') { if (ch.chance(40) || opts.length === 1) break; continue; }
      if (k === 'load') { const j = ch.next(todo.length); const i = todo[j]; todo.splice(j, 1); loadOne(i, 0); w.stat('loads'); }
      else if (k === 'reload') { const l = ch.of(rl); const ver = l.f.versions.length > 1 && ch.chance(60) ? 1 - (l.f.cur || 0) : (l.f.cur || 0); l.f.cur = ver; w.stat(ver === 0 ? 'reloads' : 'reloads of a changed file'); loadOne(l.f.i, ver); }
      else if (k === 'settle') { const j = ch.of(ps); settled.add(j); const m = ch.chance(25) ? 1 : 0; const v = ch.chance(30) ? 0 : ch.next(NPAL); w.stat(m ? 'rejections' : 'resolutions'); w.log(`settle ${j} ${m} ${v}`); r.step('settle', j, m, v); }
      else if (k === 'gen') { const j = ch.next(gs); const m = ch.pick([[8, 0], [2, 1], [2, 2]]); const v = ch.next(NPAL); w.stat(['generator resumed', 'generator thrown into', 'generator abandoned'][m]); w.log(`gen ${j} ${m} ${v}`); r.step('gen', j, m, v); }
      else { const j = ch.next(cs); const v = ch.next(NPAL); w.stat('callbacks'); w.log(`call ${j} ${v}`); r.step('cb', j, 0, v); }
      for (const m of mods) if (!m.logged && m.m.status === 'errored') { m.logged = true; w.log(`modfail ${m.f.i} ${a.one(m.m.error, 0)}`); }
      w.log('idle');
      if (w.stopped) break;
    }
    if (!w.stopped) w.log('end');
  } catch (e) {
    if (!(e instanceof Hang)) throw e;
    hang = true;
  }
  for (const f of c.files) f.cur = 0;
  return { trace: w.trace, hang, fuel: r.api.fuelLeft, stats: w.stats, w };
}
module.exports = { buildCase, runVariant, NPAL, FUEL };
