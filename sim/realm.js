'use strict';
// One simulated JS realm (a worker). Everything the program can observe of its environment goes through D(kind,id,text),
// which asks the simulator (main side, see world.js) what the environment does next.
const vm = require('vm');

const BOOT = String.raw`(function (D, LIM) {
  'use strict';
  const isArray = Array.isArray, keys = Object.keys, gopd = Object.getOwnPropertyDescriptor, protoOf = Object.getPrototypeOf, OP = Object.prototype, AP = Array.prototype, FP = Function.prototype, P = Promise, Str = String;
  Error.stackTraceLimit = 0;
  const G = globalThis, def = Object.defineProperty;
  def(FP, 'toString', { value: function toString() { return 'function'; }, writable: true, configurable: true, enumerable: false }); // a program's text is not what it does
  const then = P.prototype.then, call = Reflect.apply;
  let depth = 0;
  // where errors come from is asked for only if somebody wants to know
  let LOC = null;
  Error.prepareStackTrace = (e, sites) => { LOC && LOC(sites); return ''; };
  class HostErr extends Error { constructor(id) { super('host'); this.hid = id; } }
  const asyncGenProto = protoOf(protoOf((async function* () {}).prototype));
  function one(v, d) {
    switch (typeof v) {
      case 'undefined': return 'U';
      case 'string': return JSON.stringify(v.length > 60 ? v.slice(0, 60) : v);
      case 'number': return v === 0 && 1 / v < 0 ? '-0' : Str(v);
      case 'boolean': return Str(v);
      case 'bigint': return v + 'n';
      case 'symbol': return 'sym';
      case 'function': return 'fn';
    }
    if (v === null) return 'null';
    if (LOC && v instanceof Error) void v.stack;
    if (v instanceof HostErr) return 'H' + v.hid;
    if (v instanceof Error) { const m = gopd(v, 'message'); const s = m && typeof m.value === 'string' && m.value.slice(0, 2) === 'u:' ? m.value : ''; const p = protoOf(v); const n = p && gopd(p, 'name'); return 'E' + (n ? n.value : '?') + s; }
    if (d > 1) return isArray(v) ? '[.]' : '{.}';
    if (isArray(v)) { let s = '['; for (let i = 0; i < v.length && i < 4; i++) { const q = gopd(v, i); s += (q ? 'value' in q ? one(q.value, d + 1) : 'acc' : '') + ','; } return s + v.length + ']'; }
    const p = protoOf(v);
    if (p === P.prototype) return 'P';
    if (p === OP || p === null) { let s = p ? '{' : 'N{'; let n = 0; for (const k of keys(v)) { if (n++ > 4) break; const q = gopd(v, k); s += k + ':' + ('value' in q ? one(q.value, d + 1) : 'acc') + ','; } return s + '}'; }
    return 'o';
  }
  const fmt = (a) => { let s = ''; for (let i = 0; i < a.length && i < 6; i++) s += (i ? ',' : '') + one(a[i], 0); return s; };
  // what the environment may hand to the program
  function pv(c, id) {
    switch (c) {
      case 0: return undefined; case 1: return 1; case 2: return 's'; case 3: return null; case 4: return false; case 5: return true;
      case 6: return 0; case 7: return ''; case 8: return []; case 9: return {}; case 10: return [1]; case 11: return { a: 1 };
      case 12: return NaN; case 13: return (...a) => { D('v', id, fmt(a)); return ask('v', id, ''); };
      case 14: return { valueOf() { D('vo', id, ''); return 2; }, toString() { D('ts', id, ''); return 'q'; } };
      case 15: return Object.create(null); case 16: return [0, [], {}]; case 17: return { a: { a: 0 }, b: null, length: 0 };
      case 18: return 3n; case 19: return -1; case 20: return ho(id);
      case 21: return { get a() { D('ga', id, ''); return ask('ga', id, ''); } };
      case 22: return new HostErr(id); case 23: return [[], [[]]]; case 24: return { then(r) { D('th', id, ''); r(7); } };
      case 25: return Symbol.iterator; case 26: return new (class Z { })(); case 27: return 'é';
    }
    return c;
  }
  function ask(k, id, s) {
    for (;;) {
      const c = D(k, id, s);
      if (c >= 1000) { // the environment calls back into the program before it answers
        const cb = cbs[c - 1000];
        let r; depth++;
        try { r = 'r' + one(call(cb[1], undefined, [pv((c * 7) % 12, id)]), 0); } catch (e) { r = 'x' + one(e, 0); } finally { depth--; }
        D('cb', cb[0], r);
        s = '+'; continue;
      }
      if (c === -1) throw new HostErr(id);
      if (c === -3) throw 'hs';
      if (c < 0) return c;
      return pv(c, id);
    }
  }
  const pend = [], gens = [], cbs = [];
  const h = (id, ...a) => ask('h', id, fmt(a));
  const watch = (k, id, p) => { call(then, p, [(v) => { D(k + 'r', id, one(v, 0)); }, (e) => { D(k + 'x', id, one(e, 0)); }]); };
  function hostPromise(id) {
    const c = D('hp', id, '');
    if (c === 1) return P.resolve(1);
    let a, b; const p = new P((x, y) => { a = x; b = y; }); call(then, p, [() => {}, () => {}]);
    pend.push([a, b, id]); return p;
  }
  function ho(id) {
    const o = {
      get p() { return ask('gp', id, ''); }, set p(v) { D('sp', id, one(v, 0)); },
      get q() { return ask('gq', id, ''); },
      m(...a) { return ask('m', id, fmt(a)); },
    };
    return o;
  }
  function iter(id, n) {
    let i = 0;
    return { next(v) { const c = i >= n ? -2 : D('nx', id, one(v, 0)); i++; if (c === -1) throw new HostErr(id); if (c < 0) return { done: true, value: i > n ? undefined : 4 }; return { done: false, value: pv(c, id) }; },
      return(v) { D('rt', id, one(v, 0)); return { done: true, value: v }; }, throw(e) { D('ix', id, one(e, 0)); if (i % 2) throw e; return { done: true, value: 6 }; } };
  }
  const hi = (id) => { const n = D('it', id, ''); return { [Symbol.iterator]() { return iter(id, n); } }; };
  const ha = (id) => {
    const n = D('it', id, ''); const it = iter(id, n);
    return { [Symbol.asyncIterator]() { return { next(v) { const r = it.next(v); const c = D('ap', id, ''); if (c === 1 || r.done) return P.resolve(r); let a, b; const p = new P((x, y) => { a = x; b = y; }); call(then, p, [() => {}, () => {}]); pend.push([() => a(r), b, id]); return p; }, return(v) { return P.resolve(it.return(v)); }, throw(e) { return new P((a) => a(it.throw(e))); } }; } };
  };
  const tagv = (id, a) => { const s = a[0]; return 't' + (isArray(s) ? s.length + ':' + s.join('|') + ':' + s.raw.join('|') : '?') + ';' + fmt([].slice.call(a, 1)); };
  class HB { constructor(...a) { D('nb', 0, fmt(a)); } hm(...a) { return ask('hm', 0, fmt(a)); } static sm(...a) { return ask('sm', 0, fmt(a)); } get hq() { return ask('hq', 0, ''); } }
  const env = {
    h, hj: (...a) => ask('hj', 0, fmt(a)), hp: hostPromise, ho, hi, ha, HB, X: {},
    hw: (id, p) => { D('w', id, one(p, 0)); if (p instanceof P) watch('w', id, p); return p instanceof P ? undefined : p; },
    hg: (id, g) => { D('hg', id, ''); gens.push([g, id, 0]); return undefined; },
    hc: (id, f) => { if (typeof f === 'function') cbs.push([id, f]); return ask('hc', id, one(f, 0)); },
    ht: (...a) => ask('ht', 0, tagv(0, a)), hT: (id) => { D('hT', id, ''); return (...a) => ask('hT', id, tagv(id, a)); },
  };
  for (const k in env) def(G, k, { value: env[k], writable: true, configurable: true, enumerable: false });
  def(G, 'GV', { get() { return ask('gv', 0, ''); }, set(v) { D('sv', 0, one(v, 0)); }, configurable: true, enumerable: false });
  // counters of the reference
  let fuel = LIM;
  const FUEL = { fuel: 1 };
  function mk(S, F, arms) {
    const s = new Int32Array(S), f = new Int32Array(F), b = arms.map((n) => new Int32Array(n)), t = arms.map((n) => new Int32Array(n));
    return { on: 0, s, f, b, t, S(i) { s[i]++; if (--fuel < 0) throw FUEL; }, T(i, a, v) {
      if (v && !(isArray(v) && v.length === 0) && !(typeof v === 'object' && protoOf(v) === OP && keys(v).length === 0)) t[i][a]++;
      return v; } };
  }
  let st = null;
  const api = {
    eval: (s) => (0, eval)(s), mk, one, get fuelLeft() { return fuel; }, pend, gens, cbs,
    set(...a) { st = a; }, where(f) { LOC = f; Error.stackTraceLimit = 12; },
    step() {
      const q = st; st = null; if (!q) return;
      const [op, j, m, c] = q;
      if (op === 'fn') { j({}, { exports: {} }); return; }
      if (op === 'settle') { const [a, b, id] = pend[j]; if (m === 1) b(c === 0 ? new HostErr(id) : pv(c, id)); else a(pv(c, id)); }
      else if (op === 'gen') {
        const [g, id] = gens[j]; let r;
        try { r = m === 0 ? g.next(pv(c, id)) : m === 1 ? g.throw(c === 0 ? new HostErr(id) : pv(c, id)) : g.return(pv(c, id)); } catch (e) { D('gx', id, one(e, 0)); return; }
        if (r instanceof P) { D('gP', id, ''); watch('g', id, r); } else D('gr', id, one(r, 0));
      } else if (op === 'cb') {
        const cb = cbs[j]; let r;
        try { r = call(cb[1], undefined, [pv(c, cb[0])]); } catch (e) { D('cx', cb[0], one(e, 0)); return; }
        D('cr', cb[0], one(r, 0));
        if (r instanceof P) watch('cb', cb[0], r);
      }
    },
  };
  def(G, '__step', { value: api.step });
  return api;
})`;

const bootScript = new vm.Script(BOOT, { filename: 'boot' });
const stepScript = new vm.Script('__step()', { filename: 'step' });
const drainScript = new vm.Script('0', { filename: 'drain' });

const CJS = '(function (exports, module, require) {';

class Hang extends Error {}

class Realm {
  constructor(D, limit, timeout) {
    this.ctx = vm.createContext({}, { microtaskMode: 'afterEvaluate' });
    this.timeout = timeout || 0;
    this.opt = timeout ? { timeout } : {};
    this.api = bootScript.runInContext(this.ctx)(D, limit);
    this.global = vm.runInContext('globalThis', this.ctx);
    this.modules = new Map();
  }
  guard(f) {
    try { return { v: f() }; } catch (e) {
      if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') throw new Hang('timeout');
      return { e };
    }
  }
  step(...a) {
    this.api.set(...a);
    this.guard(() => stepScript.runInContext(this.ctx, this.opt));
    this.drain();
  }
  drain() { this.guard(() => drainScript.runInContext(this.ctx, this.opt)); }
  // -> description of what escaped from the load, or null
  loadScript(code, filename, cjs) {
    let s;
    try { s = new vm.Script(cjs ? `${CJS}${code}\n})` : code, { filename }); } catch (e) { return { compile: String(e && e.message) }; }
    const r = this.guard(() => { const v = s.runInContext(this.ctx, this.opt); return v; });
    let out = r.e !== undefined || 'e' in r ? this.api.one(r.e, 0) : null;
    if (cjs && typeof r.v === 'function') {
      // run it in a script of its own so that its microtasks are drained the same way
      this.api.set('fn', r.v);
      const q = this.guard(() => stepScript.runInContext(this.ctx, this.opt));
      out = 'e' in q ? this.api.one(q.e, 0) : null;
    }
    this.drain();
    return { err: out };
  }
  // code: current source of the module and of all it (transitively) imports come from get(name)
  module(name, get) {
    let m = this.modules.get(name);
    if (m) return m;
    m = new vm.SourceTextModule(get(name), { context: this.ctx, identifier: name });
    this.modules.set(name, m);
    m.deps = m.moduleRequests.map(r => this.module(r.specifier, get));
    m.linkRequests(m.deps);
    return m;
  }
  loadModule(name, get) {
    let m;
    try { m = this.module(name, get); if (m.status === 'unlinked') m.instantiate(); } catch (e) { return { compile: String(e && e.message) }; }
    if (m.status === 'errored') return { err: 'again' };
    if (m.ran && m.status !== 'linked') return { err: null, m }; // with another module that imports it
    (function mark(m) { if (!m.ran) { m.ran = true; m.deps.forEach(mark); } })(m);
    const r = this.guard(() => m.evaluate(this.timeout ? { timeout: this.timeout } : undefined));
    if (r.v && r.v.catch) r.v.catch(() => {});
    this.drain();
    if (m.status === 'errored') return { err: this.api.one(m.error, 0) };
    return { err: null, m };
  }
}
module.exports = { Realm, Hang, CJS };
