'use strict';
// One simulated life of an swc host with the real wasm plugin: files come one after the other, the configuration is
// rewritten (and damaged) between them, the process environment misbehaves. What every call returns is compared with
// what the library makes of the same file under the options the configuration stands for.
const { buildCase } = require('./world');
const { view } = require('./dialect');
const { run, native } = require('./plughost');
const hash32 = (h, x) => Math.imul(h ^ x, 0x01000193) >>> 0;
const hashStr = (s) => { let h = 0x811c9dc5; for (let i = 0; i < s.length; i++) h = hash32(h, s.charCodeAt(i)); return h; };

// --- what a configuration stands for -----------------------------------------------------------------------------
const DEFAULTS = () => ({ coverageVariable: '__coverage__', compact: false, reportLogic: false, ignoreClassMethods: [], inputSourceMap: null, instrumentLog: { level: null, enableTrace: false }, debugInitialCoverageComment: false, unstableExclude: null });
const MAP = () => ({ version: 3, sources: [], names: [], mappings: '' });
// strict JSON; objects become arrays of entries. Ambiguous documents (readers may differ) are marked.
function readJson(s) {
  let i = 0, odd = null; const E = () => { throw new SyntaxError('at ' + i); };
  const ws = () => { while (' \t\n\r'.includes(s[i]) && i < s.length) i++; };
  const val = (d) => {
    ws(); if (d > 60) odd = 'nesting';
    const c = s[i];
    if (c === '{') {
      i++; const o = { entries: [] }, seen = new Set(); ws();
      if (s[i] === '}') { i++; return o; }
      for (; ;) { ws(); if (s[i] !== '"') E(); const k = str(); ws(); if (s[i++] !== ':') E(); const v = val(d + 1); if (seen.has(k)) odd = 'two members of one name'; seen.add(k); o.entries.push([k, v]); ws(); if (s[i] === ',') { i++; continue; } if (s[i] === '}') { i++; return o; } E(); }
    }
    if (c === '[') { i++; const a = []; ws(); if (s[i] === ']') { i++; return a; } for (; ;) { a.push(val(d + 1)); ws(); if (s[i] === ',') { i++; continue; } if (s[i] === ']') { i++; return a; } E(); } }
    if (c === '"') return str();
    const m = /^(?:true|false|null|-?(?:0|[1-9]\d*)(?:\.\d+)?(?:[eE][-+]?\d+)?)/.exec(s.slice(i, i + 400));
    if (!m) E();
    i += m[0].length;
    if (m[0] === 'true') return true; if (m[0] === 'false') return false; if (m[0] === 'null') return null;
    if (!isFinite(Number(m[0])) || m[0].length > 15) odd = 'number';
    return { num: m[0] };
  };
  const str = () => {
    const st = i++;
    while (i < s.length && s[i] !== '"') { if (s[i] === '\\') i++; i++; }
    if (s[i] !== '"') E();
    i++;
    const v = JSON.parse(s.slice(st, i));
    if (/\\u[dD][89a-fA-F]/.test(s.slice(st, i))) odd = 'surrogate';
    return v;
  };
  const v = val(0); ws(); if (i < s.length) E();
  return { v, odd };
}
class Unreadable extends Error { }
const no = (w) => { throw new Unreadable(w); };
const isObj = (v) => v !== null && typeof v === 'object' && Array.isArray(v.entries);
const string = (v) => typeof v === 'string' ? v : no('string');
const bool = (v) => typeof v === 'boolean' ? v : no('bool');
const list = (f) => (v) => Array.isArray(v) ? v.map(f) : no('list');
const opt = (f) => (v) => v === null ? null : f(v);
const u32 = (v) => v && /^\d+$/.test(v.num || '') && Number(v.num) < 4294967296 ? Number(v.num) : no('u32');
const struct = (dflt, fields) => (v) => { if (Array.isArray(v)) throw Object.assign(new Unreadable(), { odd: 'a list for a structure' }); if (!isObj(v)) no('structure'); const o = dflt(); for (const [k, x] of v.entries) if (Object.hasOwn(fields, k)) o[k] = fields[k](x); return o; };
const sourceMap = (v) => { const m = struct(MAP, { version: u32, file: opt(string), sourceRoot: opt(string), sources: list(string), sourcesContent: opt(list(opt(string))), names: list(string), mappings: string })(v); for (const k of ['file', 'sourceRoot', 'sourcesContent']) if (m[k] === null) delete m[k]; return m; };
const OPTIONS = struct(DEFAULTS, { coverageVariable: string, compact: bool, reportLogic: bool, ignoreClassMethods: list(string), inputSourceMap: opt(sourceMap), instrumentLog: struct(() => ({ level: null, enableTrace: false }), { level: opt(string), enableTrace: bool }), debugInitialCoverageComment: bool, unstableExclude: opt(list(string)) });
// -> {options, readable, odd}
function effective(text) {
  if (text === undefined) return { options: DEFAULTS(), readable: true };
  let r;
  try { r = readJson(text); } catch (e) { if (!(e instanceof SyntaxError)) throw e; return { options: DEFAULTS(), readable: false }; }
  if (r.odd) return { odd: r.odd };
  try { return { options: OPTIONS(r.v), readable: true }; } catch (e) { if (!(e instanceof Unreadable)) throw e; if (e.odd) return { odd: e.odd }; return { options: DEFAULTS(), readable: false }; }
}

// --- exclusion: an independent matcher for the patterns that are generated ------------------------------------------
const slash = (s) => s.replace(/\\/g, '/');
const drive = (s) => /^[A-Za-z]:\//.test(s) ? s.slice(2) : s;
// pattern: list of components {any} or {parts: [['lit', s] | ['*'] | ['?'] | ['set', chars, neg] | ['alt', [s..]]]}
function matchPart(parts, k, s, i) {
  if (k === parts.length) return i === s.length;
  const [t, a, b] = parts[k];
  if (t === 'lit') return s.startsWith(a, i) && matchPart(parts, k + 1, s, i + a.length);
  if (t === '*') { for (let j = i; j <= s.length; j++) if (matchPart(parts, k + 1, s, j)) return true; return false; }
  if (i >= s.length && t !== 'alt') return false;
  const c = t === 'alt' ? null : String.fromCodePoint(s.codePointAt(i));
  if (t === '?') return matchPart(parts, k + 1, s, i + c.length);
  if (t === 'set') return a.includes(c) !== b && matchPart(parts, k + 1, s, i + c.length);
  return a.some(x => s.startsWith(x, i) && matchPart(parts, k + 1, s, i + x.length));
}
function matchPath(p, i, n, j) {
  if (i === p.length) return j === n.length;
  if (p[i].any) { for (let k = j; k <= n.length; k++) if (matchPath(p, i + 1, n, k)) return true; return false; }
  return j < n.length && matchPart(p[i].parts, 0, n[j], 0) && matchPath(p, i + 1, n, j + 1);
}
const partText = ([t, a, b]) => t === 'lit' ? a : t === '*' || t === '?' ? t : t === 'set' ? `[${b ? '!' : ''}${a.join('')}]` : `{${a.join(',')}}`;
const patText = (p) => p.root + p.comps.map(c => c.any ? '**' : c.parts.map(partText).join('')).join('/');
const DIRS = ['src', 'lib', 'test', '__tests__', 'node_modules', 'a b', 'dist-1', '.cache', 'Src', 'ünï'], BASES = ['a', 'b', 'index', 'a.test', 'a.spec', 'A', 'main.min', '.hidden', '-'], EXTS = ['.js', '.mjs', '.jsx', '.ts', '.JS', ''];
function makeName(ch) {
  const root = ch.pick([[6, ''], [3, '/'], [2, 'C:/']]), comps = [];
  for (let n = ch.next(4); n > 0; n--) comps.push(ch.of(DIRS));
  comps.push(ch.of(BASES) + ch.of(EXTS));
  return { root, comps };
}
function makePattern(ch, name) {
  // starts as the name itself and is made more general, or different, piece by piece
  const comps = name.comps.map(c => ({ parts: [['lit', c]] }));
  for (let n = 1 + ch.next(4); n > 0; n--) {
    const k = ch.next(comps.length), c = comps[k], last = comps.length - 1;
    const how = ch.pick([[4, 'any'], [4, 'star'], [3, 'ext'], [2, 'q'], [2, 'set'], [2, 'alt'], [2, 'other'], [1, 'drop']]);
    if (how === 'any' && k < last) { if (!(comps[k - 1] && comps[k - 1].any) && !(comps[k + 1] && comps[k + 1].any)) comps[k] = { any: true }; }
    else if (how === 'any' && k === last && k > 0 && !comps[k - 1].any && ch.chance(30)) comps[k] = { any: true };
    else if (c.any) continue;
    else if (how === 'star') c.parts = [['*']];
    else {
      const s = c.parts.length === 1 && c.parts[0][0] === 'lit' ? c.parts[0][1] : null;
      if (how === 'other') c.parts = [['lit', ch.of(k === last ? BASES : DIRS) + (k === last ? ch.of(EXTS) : '')]];
      else if (how === 'drop') { if (comps.length > 1 && !(comps[k - 1] && comps[k + 1] && comps[k - 1].any && comps[k + 1].any)) comps.splice(k, 1); }
      else if (!s) continue;
      else if (how === 'ext') { const d = s.indexOf('.', 1); c.parts = d > 0 ? [['*'], ['lit', s.slice(d)]] : [['lit', s.slice(0, 1)], ['*']]; }
      else if (/[^ -~]/.test(s)) continue;
      else if (how === 'q') { const j = ch.next(s.length); c.parts = [['lit', s.slice(0, j)], ['?'], ['lit', s.slice(j + 1)]].filter(x => x[0] !== 'lit' || x[1]); }
      else if (how === 'set') { const j = ch.next(s.length), x = s[j]; if (!/[a-z]/i.test(x)) continue; c.parts = [['lit', s.slice(0, j)], ['set', ch.chance(50) ? [x, 'q'] : ['q', 'x'], ch.chance(30)], ['lit', s.slice(j + 1)]].filter(x => x[0] !== 'lit' || x[1]); }
      else { c.parts = [['alt', ch.chance(60) ? [s, 'other'] : ['other', 'more']]]; }
    }
  }
  let root = name.root === '' ? '' : name.root;
  if (comps[0].any && ch.chance(70)) root = '';
  if (comps[0].any && root !== '') root = ''; // '/**' and drives are left to literal first components
  if (root === '' && name.root !== '' && !comps[0].any) { if (ch.chance(50)) comps.unshift({ any: true }); }
  return { root, comps };
}
const rooted = (n) => n.root === '' ? n.comps : ['', ...n.comps];
function excludes(p, n) {
  // a tree at the start of a pattern also covers the root of a name
  // where nothing precedes the root, a star may stand for that
  if (p.root === '' && n.root !== '' && !p.comps[0].any && p.comps[0].parts.every(x => x[0] === '*')) return null;
  if (p.root === '' && n.root !== '' && p.comps[0].any && !matchPath(p.comps, 0, n.comps, 0) && matchPath(p.comps, 0, ['', ...n.comps], 0)) return null;
  if (p.root === '') return p.comps[0].any ? matchPath(p.comps, 0, n.comps, 0) : n.root === '' && matchPath(p.comps, 0, n.comps, 0);
  return n.root !== '' && matchPath(p.comps, 0, n.comps, 0);
}
const BROKEN = ['[a', '{a,b', 'a**b', '**b', 'a/**b', 'src/[', '<a', '{', 'a/**/**/[' ];
// which of the separators are written the other way
function separators(ch, s) {
  const how = ch.pick([[5, 0], [3, 1], [2, 2]]);
  if (how === 0) return s;
  let k = 0; return s.replace(/\//g, () => how === 1 || ch.chance(50) ? '\\' : (k++, '/'));
}

// --- the configuration document -----------------------------------------------------------------------------------
function document_(ch, pf, names, files) {
  const d = {}; let truth = null; // truth: per name whether it is excluded
  const put = (k, pct, v) => { if (ch.chance(pct)) d[k] = v(); };
  put('coverageVariable', 50, () => ch.of(['__coverage__', '__cov', 'a.b', 'é', '']));
  put('compact', 30, () => ch.chance(50)); put('reportLogic', 50, () => ch.chance(60));
  put('ignoreClassMethods', 35, () => ch.of([[], ['m0'], ['m1', 'g1'], ['constructor', 'm2']]));
  put('inputSourceMap', 30, () => { const f = files.find(f => f.inputSourceMap); return f ? f.inputSourceMap : ch.of([null, { version: 3, sources: ['x'], names: [], mappings: '' }, { sources: ['x'], sourcesContent: [null] }, {}]); });
  put('instrumentLog', 30, () => ch.of([{}, { level: 'error' }, { level: 'debug', enableTrace: true }, { level: 'info' }, { level: null }, { level: 'loud' }, { enableTrace: true }, { level: 'trace', enableTrace: false }]));
  put('debugInitialCoverageComment', 30, () => ch.chance(60));
  if (ch.chance(30)) d[ch.of(['unknown', 'exclude', 'coverage_variable', 'include', ''])] = ch.of([1, null, 'x', [], { a: [1, { b: null }] }, 1.5]);
  if (ch.chance(pf.exclude)) {
    const ps = [], real = []; let broken = false;
    for (let n = ch.pick([[2, 1], [4, 2], [2, 3], [1, 0]]); n > 0; n--) {
      if (ch.chance(6)) { broken = true; ps.push(ch.of(BROKEN)); continue; }
      const p = makePattern(ch, ch.of(names)); real.push(p); ps.push(separators(ch, patText(p)));
    }
    d.unstableExclude = ps; truth = { broken, real };
  } else if (ch.chance(20)) d.unstableExclude = ch.of([null, []]);
  const order = Object.keys(d); for (let i = order.length - 1; i > 0; i--) { const j = ch.next(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
  const o = {}; for (const k of order) o[k] = d[k];
  return { text: JSON.stringify(o, null, ch.of([0, 2, '\t'])), truth };
}
function damage(ch, text, old) {
  const at = () => ch.next(text.length + 1), a = at();
  switch (ch.next(10)) {
    case 0: return ['cut off', text.slice(0, a)];
    case 1: { const k = a % Math.max(1, text.length); return ['one character changed', text.slice(0, k) + String.fromCharCode(32 + (text.charCodeAt(k) - 32 ^ 1 << ch.next(6)) % 95) + text.slice(k + 1)]; }
    case 2: return ['characters lost', text.slice(0, a) + text.slice(a + 1 + ch.next(4))];
    case 3: return ['torn write', text.slice(0, a) + old.slice(a)];
    case 4: return ['zeroes', text.slice(0, a) + '\0'.repeat(1 + ch.next(9))];
    case 5: return ['written twice', text.slice(0, a) + text];
    case 6: return ['empty', ch.of(['', ' ', '\n'])];
    case 7: return ['byte order mark', '\uFEFF' + text];
    case 8: return ['another kind of value', ch.of(['null', 'true', '"x"', '1', 'undefined', "{'a':1}", '{a:1}', '{"compact":true,}', '// x\n{}', '{"compact":true} {}'])];
    default: { // a member of the wrong type
      const [k, v] = ch.of([['coverageVariable', null], ['coverageVariable', 1], ['compact', 'true'], ['compact', 1], ['reportLogic', null], ['ignoreClassMethods', 'm0'], ['ignoreClassMethods', [1]], ['ignoreClassMethods', null], ['inputSourceMap', 'x'], ['inputSourceMap', { sources: [null] }], ['inputSourceMap', { version: '3' }], ['inputSourceMap', { version: -1 }], ['instrumentLog', 'debug'], ['instrumentLog', null], ['instrumentLog', { level: 1 }], ['instrumentLog', { enableTrace: null }], ['debugInitialCoverageComment', 0], ['unstableExclude', '**'], ['unstableExclude', [null]], ['unstableExclude', {}]]);
      let o; try { o = JSON.parse(text); } catch { o = {}; }
      o[k] = v; return ['member of another type', JSON.stringify(o)];
    }
  }
}

// --- a run --------------------------------------------------------------------------------------------------------
// what the dialect does not take is compiled as plain JavaScript
function requestOf(f) {
  const req = { code: f.src, filename: f.name, module: f.kind === 'module' };
  if (!f.lang) return req;
  const d = Object.assign({}, req, { code: view(f.src, f.marks[0]), lang: f.lang });
  return native(Object.assign({ instrument: false }, d)).code === undefined ? req : d;
}
function prepare(gen, pf, given) {
  const c = given || buildCase(gen, pf); c.pf = pf;
  return { c };
}
const memo = (prep, key, f) => { prep.memo = prep.memo || new Map(); if (!prep.memo.has(key)) prep.memo.set(key, f()); return prep.memo.get(key); };
function runPrepared(prep, sched, pf) {
  const { c } = prep, ch = sched();
  const res = { case: c, stats: {}, events: 0, discard: null, violation: null, known: null, snaps: 0, loads: 0, uniq: new Set() };
  const stat = (k, n) => { res.stats[k] = (res.stats[k] || 0) + (n === undefined ? 1 : n); };
  const trace = res.trace = [];
  const fail = (cls, msg, got, want) => { if (!res.violation) res.violation = { cls, msg, event: trace.length - 1 }; if (got) { res.icode = got; res.wcode = want; } };
  // names of the run
  const names = []; for (let n = 2 + ch.next(3); n > 0; n--) names.push(makeName(ch));
  let doc = { text: '{}', truth: null }, text = '{}', damaged = null, old = '{}', clock = 1700000000000000000n, plain = 0;
  for (let step = 3 + ch.next(6); step > 0 && !res.violation; step--) {
    // the configuration may be rewritten
    if (ch.chance(70)) { old = text; doc = document_(ch, pf, names, c.files); text = doc.text; damaged = null; trace.push('config ' + text); stat('configurations'); }
    if (ch.chance(pf.damage)) { const [k, t] = damage(ch, doc.text, old); text = t; damaged = k; trace.push(`config ${k}: ${JSON.stringify(t)}`); stat('configuration: ' + k); }
    const absent = ch.chance(6); if (absent) stat('no configuration');
    const f = ch.of(c.files), n = ch.of(names), noname = ch.chance(5), nocomments = ch.chance(8);
    // name under which the host knows the file: of the run's names, or one of the odd ones of the case
    const odd = ch.chance(pf.exclude > 50 ? 0 : 30), name = odd ? f.name : separators(ch, n.root + n.comps.join('/'));
    if (noname) stat('no file name'); if (nocomments) stat('no comments');
    const file = noname ? undefined : name;
    const eff = effective(absent ? undefined : text);
    const faulty = ch.chance(50), pw = faulty ? ch.of([0, 10, 50, 100]) : 0, errs = [8, 29, 51, 64, 6, 27];
    const env = {
      config: absent ? undefined : text, file, comments: !nocomments, env: 'development', cwd: '/w', on() { },
      vars: ch.chance(30) ? ch.of([{ RUST_LOG: 'trace' }, { NO_COLOR: '1' }, { RUST_BACKTRACE: 'full', TZ: 'UTC' }, { NODE_ENV: 'production', CI: '1' }, { BABEL_ENV: 'test', COVERAGE: '0' }]) : {},
      clock: () => { const j = faulty ? ch.next(6) : 0; if (j === 4) { clock = 0n; stat('clock set to zero'); } else if (j === 5) { clock -= 3600n * 1000000000n; if (clock < 0n) clock = 0n; stat('clock set back'); } else if (j === 3) { clock += 86400n * 1000000000n; stat('clock jumped'); } return clock += 1000n; },
      random: (n) => { stat('randomness read'); const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = ch.next(256); return b; },
      write: (fd, n) => { plain++; if (pw && ch.chance(pw)) { const j = ch.next(errs.length + 2); if (j < errs.length) { stat('output failed'); return [errs[j], 0]; } if (j === errs.length) { stat('short write'); return [0, Math.min(n, 1)]; } stat('nothing written'); return [0, 0]; } return [0, n]; },
    };
    const dies = ch.chance(4) ? 1 + ch.next(80) : 0;
    if (dies) env.on = (what, k) => { if (k === dies) { stat('host call failed'); throw Object.assign(new Error('host'), { injected: true }); } };
    trace.push(`call ${f.i} as ${file === undefined ? '(no name)' : JSON.stringify(file)}${absent ? ' without configuration' : ''}${nocomments ? ' without comments' : ''}${dies ? ' dies at ' + dies : ''}${pw ? ` output fails ${pw} %` : ''} ${JSON.stringify(env.vars)}`);
    const req = memo(prep, 'req' + f.i, () => requestOf(f));
    const r = run(req, env);
    res.events += r.calls || 0; res.loads++; stat('calls of the plugin'); stat('host calls', r.calls || 0);
    if (r.err && r.calls === undefined) { res.discard = 'parse: ' + r.err; return res; }
    if (r.unknown) { res.discard = 'host: import ' + r.unknown + ' is not simulated'; return res; }
    if (r.injected) { trace.push('host failed'); continue; }
    trace.push(r.code === undefined ? `failed: ${r.trap || r.plugin_error || r.err}` : `returned ${hashStr(r.code)}`);
    res.uniq.add(r.code === undefined ? 0 : hashStr(r.code));
    if (r.code === undefined) { fail('failed', `the plugin fails (${r.trap || r.plugin_error || r.err})`); break; }
    if (eff.odd) { stat('ambiguous configurations'); continue; }
    if (!eff.readable) stat('unreadable configurations');
    const as = file === undefined ? 'unknown.js' : file;
    const o = Object.assign({}, eff.options, { instrumentLog: { level: null, enableTrace: false }, unstableExclude: null });
    if (o.inputSourceMap === null) delete o.inputSourceMap;
    const want = (instrument) => memo(prep, JSON.stringify([f.i, as, !nocomments, instrument, instrument && o]), () => native(Object.assign({}, req, { map: 'hash', as, comments: !nocomments, instrument, options: o })));
    // excluded?
    let out = null; // true, false, or null when it cannot be told
    const ex = eff.options.unstableExclude;
    if (ex === null || ex.length === 0) out = false;
    else if (!damaged && doc.truth) {
      if (doc.truth.broken) { out = false; stat('malformed pattern lists'); }
      else if (noname) out = null;
      else if (!odd) { const e = doc.truth.real.map(p => excludes(p, n)); out = e.includes(true) ? true : e.includes(null) ? null : false; }
    }
    const A = want(false), B = want(true);
    if (A.code === undefined || B.code === undefined) { res.discard = 'swc: ' + (A.err || A.panic || B.err || B.panic); return res; }
    if (out === null) { stat('exclusion not judged'); if (r.code === A.code) continue; out = r.code !== B.code; if (!out) continue; fail('output', 'the output is neither that of an excluded file nor that of the library'); break; }
    if (out) stat('excluded files');
    const w = out ? A : B;
    if (r.code !== w.code) {
      if (out && r.code === B.code) fail('exclude', `${JSON.stringify(as)} is instrumented although ${JSON.stringify(ex)} excludes it`);
      else if (!out && ex && ex.length && r.code === A.code) fail('exclude', `${JSON.stringify(as)} is not instrumented although ${JSON.stringify(ex)} does not exclude it`);
      else if (!eff.readable) fail('fallback', 'with a configuration that cannot be read the output is not that of the default options', r.code, w.code);
      else fail('output', `the output for ${JSON.stringify(as)} differs from that of the library with the same options`, r.code, w.code);
    } else if (JSON.stringify(r.debug) !== JSON.stringify(w.debug)) fail('output', 'the initial record handed to the host differs from that of the library');
    else if (r.map !== w.map) fail('output', `the output for ${JSON.stringify(as)} leads back to other places of the source than that of the library`);
  }
  stat('output calls', plain);
  res.sig = trace.reduce((h, t) => hash32(h, hashStr(t)), 0x811c9dc5);
  if (res.violation && !pf.classes.has(res.violation.cls)) { stat('other: ' + res.violation.cls); res.violation = null; }
  return res;
}
const runCase = (gen, sched, pf) => runPrepared(prepare(gen, pf), sched, pf);
module.exports = { runCase, prepare, runPrepared, effective };
