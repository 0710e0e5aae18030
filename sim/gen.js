'use strict';
const acorn = require('./vendor/acorn.js');
// Generates one source file. All decisions come from a Choices stream; 0 is always the simplest alternative.
// The generated programs terminate: loops are bounded, calls form a DAG (only functions that are complete are called).
const P = { SEQ: 0, ASSIGN: 2, COND: 3, NULL: 4, OR: 5, AND: 6, BOR: 7, EQ: 10, REL: 11, ADD: 13, MUL: 14, EXP: 15, UN: 16, POST: 17, NEW: 18, CALL: 18, MEM: 19, PRIM: 20 };

class Gen {
  // o: {file, kind:'script'|'module'|'cjs', strict, size, hints:bool, ignoreMethods:[], w:{feature weights}, ext:{callable:[], topCallable:[]}, exportsN}
  constructor(ch, o) {
    this.ch = ch; this.o = o; this.w = Object.assign({ logic: 6, cond: 4, fn: 5, cls: 3, dflt: 4, gen: 3, async: 4, loop: 4, sw: 3, tryc: 4, iff: 6, hostobj: 3, tag: 1, dir: 1, label: 2, rare: 1 }, o.w || {});
    this.n = 0; this.hid = o.file * 1000; this.budget = o.size; this.exports = []; this.taken = new Set(); this.usedHints = 0; this.px = 'f' + o.file;
  }
  id(p) {
    // names that emitted code might refer to itself
    if (this.ch.chance(this.w.shadow === undefined ? 3 : this.w.shadow) && (this.o.kind !== 'script' || this.o.file === 0)) {
      const n = this.ch.of(['Array', 'Object', 'coverage', 'path', 'global', 'Function', 'hash', 'gcv', 'coverageData', 'actualCoverage', 'Math', 'Symbol', 'cov', '_coverageSchema']);
      if (!this.taken.has(n)) { this.taken.add(n); return n; }
    }
    return `${this.px}${p}${this.n++}`;
  }
  hostId() { return ++this.hid; }
  // --- scopes -------------------------------------------------------------------------------------------
  scope(parent, fn) { return { parent, fn: fn || parent.fn, vars: [], callables: [], classes: [] }; }
  all(sc, k) { const r = []; for (let s = sc; s; s = s.parent) r.push(...s[k]); return r; }
  // --- helpers ------------------------------------------------------------------------------------------
  e(s, p) { return { s, p }; }
  par(e, min) { return e.p < min ? `(${e.s})` : e.s; }
  spend(n = 1) { this.budget -= n; return this.budget > 0; }
  hint(kind) {
    if (!this.o.hints || !this.ch.chance(kind === 'inline' ? 9 : 11)) return null;
    this.usedHints++;
    // comments that only look like requests
    if (this.ch.chance(12)) return this.ch.of(['/* istanbul ignore nexts */', '/* please istanbul ignore next */', '/* istanbul ignore */', '/** istanbul ignore next */', '/* istanbul ignore  */', '/* istanbulignore next */', '/* istanbul ignore nextif */', '/* Istanbul ignore next */', '/* istanbul ignore_next */']);
    if ((kind === 'stmt' || kind === 'case') && this.ch.chance(12)) return '// istanbul ignore next' + this.ch.of(['', ': reason', ' ']);
    const h = this.ch.of(['/* istanbul ignore next */', '/* istanbul ignore next -- reason */', '/*istanbul ignore next*/', '/* istanbul  ignore\tnext: reason */', '/* istanbul ignore next,if */']);
    return this.ch.chance(8) ? this.ch.of(['/* note */ ' + h, h + ' /* note */', '/* istanbul ignore nexts */ ' + h]) : h;
  }
  ih() { const h = this.hint('inline'); return h ? h + ' ' : ''; }
  nl(ind) { return this.ch.chance(8) ? '\n' + ind + '    ' : ''; }

  // --- expressions --------------------------------------------------------------------------------------
  expr(sc, d = 0) {
    const { ch, w } = this; const f = sc.fn;
    if (!this.spend() || d > 5) return this.atom(sc);
    const deep = d >= 4;
    const k = ch.pick([
      [8, 'atom'], [10, 'h'],
      [w.logic * 2, 'logic'], [w.cond, 'cond'], [3, 'bin'], [3, 'assign'], [2, 'un'], [1, 'seq'],
      [deep ? 0 : w.fn, 'call'], [deep ? 0 : w.fn, 'fn'], [deep ? 0 : Math.ceil(w.cls / 2), 'cls'], [3, 'obj'], [2, 'arr'], [1, 'tpl'], [w.tag, 'tag'],
      [w.hostobj, 'hostobj'], [f.async && !f.noAwait ? w.async : 0, 'await'], [f.gen && !f.noYield ? w.gen * 2 : 0, 'yield'],
      [2, 'wrap'], [f.kind === 'method' || f.kind === 'ctor' || f.kind === 'function' ? 1 : 0, 'this'], [this.all(sc, 'classes').length ? 2 : 0, 'new'], [w.dflt, 'destr'], [1, 'opt'], [1, 'del'],
    ]);
    return this['x_' + k](sc, d);
  }
  x_atom(sc) { return this.atom(sc); }
  atom(sc) {
    const vars = this.all(sc, 'vars');
    const k = this.ch.pick([[6, 0], [vars.length ? 10 : 0, 1], [2, 2], [1, 3], [1, 4], [1, 5], [1, 6], [1, 7], [1, 8], [1, 9], [this.w.rare || 0, 10], [1, 11]]);
    switch (k) {
      case 1: return this.e(this.ch.of(vars).n, P.PRIM);
      case 2: return this.e(this.ch.of(['""', '"s"', "'é中'", "'\u{1F600}x'", "'a\\'b'", '"use strict"']), P.PRIM);
      case 3: return this.e('null', P.PRIM);
      case 4: return this.e('undefined', P.PRIM);
      case 5: return this.e('true', P.PRIM);
      case 6: return this.e('false', P.PRIM);
      case 7: return this.e('[]', P.PRIM);
      case 8: return this.e('({})', P.PRIM);
      case 9: return this.e('0', P.PRIM);
      case 11: return this.e('GV', P.PRIM); // a getter of the global object
      case 10: return this.e(this.ch.of(['/r[/]"x"/g', '1n', '0x1f', '1e3', '.5', '-0', 'NaN', '"\\u2028\\0"', "'\\x41\\\n'", '`p\\n`', 'String.raw`\\q`', '(0, undefined)', '[,]', '[[]]', '[0]', '({ a: 1 })', 'globalThis.nope']), P.UN);
      default: return this.e(String(this.ch.next(4)), P.PRIM);
    }
  }
  x_h(sc, d) {
    const n = this.ch.pick([[6, 0], [4, 1], [2, 2], [1, 3]]);
    const args = [];
    for (let i = 0; i < n; i++) args.push(this.ih() + this.par(this.expr(sc, d + 1), P.ASSIGN));
    const sp = n && this.ch.chance(4) ? `, ...hi(${this.hostId()})` : '';
    return this.e(`h(${[this.hostId(), ...args].join(', ' + (n > 1 && this.ch.chance(10) ? '\n    ' : ''))}${sp})`, P.CALL);
  }
  x_logic(sc, d) {
    const op = this.ch.of(['||', '&&', '??', '||', '&&']);
    const prec = op === '||' ? P.OR : op === '&&' ? P.AND : P.NULL;
    const side = (right) => {
      const e = this.expr(sc, d + 1);
      const m = /^(null)$/.test('') ? 0 : 0;
      let s = e.s, p = e.p;
      const isLog = p === P.OR || p === P.AND || p === P.NULL;
      let needs = p < prec || (right && p <= prec && isLog && p === prec);
      if (isLog && (op === '??') !== (p === P.NULL)) needs = true;
      if (needs || this.ch.chance(8)) s = `(${s})`;
      return s;
    };
    const l = side(false);
    if (this.ch.chance(this.w.rare)) { // a long chain
      let s = l; for (let n = 6 + this.ch.next(8); n > 0; n--) s += ` ${op} ${this.ih()}${this.par(this.atom(sc), P.UN + 1)}`;
      return this.e(s, prec);
    }
    const r = side(true);
    return this.e(`${l} ${op} ${this.ih()}${this.nl('')}${r}`, prec);
  }
  x_cond(sc, d) {
    const t = this.par(this.expr(sc, d + 1), P.NULL);
    return this.e(`${t} ? ${this.ih()}${this.par(this.expr(sc, d + 1), P.ASSIGN)} : ${this.ih()}${this.nl('')}${this.par(this.expr(sc, d + 1), P.ASSIGN)}`, P.COND);
  }
  x_bin(sc, d) {
    const [op, p] = this.ch.of([['+', P.ADD], ['===', P.EQ], ['<', P.REL], ['*', P.MUL], ['-', P.ADD], ['!=', P.EQ], ['|', P.BOR], ['>=', P.REL], ['%', P.MUL], ['**', P.EXP], ['/', P.MUL], ['==', P.EQ], ['<<', P.ADD - 1], ['^', P.BOR + 1], ['&', P.BOR + 2], ['instanceof', P.REL], ['in', P.REL]]);
    const l = this.par(this.expr(sc, d + 1), op === '**' ? P.POST : p), r = this.par(this.expr(sc, d + 1), op === '**' ? p : p + 1);
    if ((op === 'in' || op === 'instanceof')) return this.e(`(${l} ${op} ${r})`, P.PRIM);
    return this.e(`${l} ${op} ${r}`, p);
  }
  lhs(sc) { if (this.ch.chance(4)) return 'GV'; const vs = this.all(sc, 'vars').filter(v => v.m && !v.esc); return vs.length ? this.ch.of(vs).n : null; }
  x_assign(sc, d) {
    const v = this.lhs(sc);
    const op = this.ch.of(['=', '=', '+=', '||=', '&&=', '??=', '-=']);
    if (!v) return this.x_h(sc, d);
    return this.e(`${v} ${op} ${this.par(this.expr(sc, d + 1), P.ASSIGN)}`, P.ASSIGN);
  }
  x_un(sc, d) {
    const op = this.ch.of(['!', 'typeof ', 'void ', '-', '+', '~', '++', '--', '++', 'import']);
    if (op === 'import') return this.o.kind === 'module' && this.ch.chance(40) ? this.e('typeof import.meta', P.UN) : this.e(`void import(${this.par(this.expr(sc, d + 1), P.ASSIGN)}).catch(Object)`, P.UN);
    if (op === '++' || op === '--') { const v = this.lhs(sc); if (!v) return this.atom(sc); return this.ch.chance(50) ? this.e(v + op, P.POST) : this.e(op + v, P.UN); }
    const a = this.par(this.expr(sc, d + 1), P.UN);
    return this.e(op + ((op === '-' || op === '+') && a[0] === op ? ' ' : '') + a, P.UN);
  }
  x_seq(sc, d) { return this.e(`(${this.par(this.expr(sc, d + 1), P.ASSIGN)}, ${this.par(this.expr(sc, d + 1), P.ASSIGN)})`, P.PRIM); }
  x_wrap(sc, d) { const e = this.expr(sc, d + 1); return this.e(`(${e.s})`, P.PRIM); }
  x_call(sc, d) {
    const cs = this.all(sc, 'callables').concat(sc.fn.top ? this.o.ext.topCallable : [], this.o.ext.callable);
    if (!cs.length) return this.x_fn(sc, d);
    const c = this.ch.of(cs);
    const args = this.args(sc, d, c.param);
    const opt = this.ch.chance(12) ? '?.' : '';
    let s = `${c.n}${c.opt ? '?.' : opt}(${args})`;
    if (c.kind === 'async') { if (this.ch.chance(50) && sc.fn.async && !sc.fn.noAwait) return this.e(`await ${s}`, P.UN); return this.e(`hw(${this.hostId()}, ${s})`, P.CALL); }
    if (c.kind === 'gen' || c.kind === 'asyncgen') {
      if (c.kind === 'gen' && this.ch.chance(25)) return this.e(`[...${s}]`, P.PRIM);
      if (c.kind === 'gen' && sc.fn.gen && !sc.fn.noYield && !sc.fn.async && this.ch.chance(40)) return this.e(`(yield* ${s})`, P.PRIM);
      return this.e(`hg(${this.hostId()}, ${s})`, P.CALL);
    }
    return this.e(s, P.CALL);
  }
  args(sc, d, param) {
    const n = this.ch.pick([[4, 0], [4, 1], [2, 2]]);
    const a = [];
    for (let i = 0; i < n; i++) a.push(param ? this.lit() : this.ih() + this.par(this.expr(sc, d + 1), P.ASSIGN));
    return a.join(', ');
  }
  lit() { return this.ch.of(['1', '0', 'null', '"p"', 'undefined']); }
  x_fn(sc, d) {
    const k = this.ch.pick([[4, 'iife'], [3, 'cb'], [2, 'val'], [2, 'hw'], [2, 'hg']]);
    if (k === 'hw') { const f = this.fnExpr(sc, d, { async: true }); return this.e(`hw(${this.hostId()}, (${f.s})(${this.lit()}))`, P.CALL); }
    if (k === 'hg') { const f = this.fnExpr(sc, d, { gen: true }); return this.e(`hg(${this.hostId()}, (${f.s})(${this.lit()}))`, P.CALL); }
    if (k === 'iife') { const f = this.fnExpr(sc, d, {}); return this.e(`(${f.s})(${this.args(sc, d)})`, P.CALL); }
    const f = this.fnExpr(sc, d, null);
    if (k === 'cb') return this.e(`hc(${this.hostId()}, ${this.ih()}${f.s})`, P.CALL);
    return this.e(`(${f.s})`, P.PRIM);
  }
  // opts: null = anything; otherwise {async,gen} exact
  fnExpr(sc, d, opts) {
    const { ch, w } = this;
    const o = opts || { async: ch.chance(w.async * 4), gen: ch.chance(w.gen * 3) };
    const arrow = !o.gen && ch.chance(55);
    if (arrow) {
      const fs = this.fnScope(sc, { async: !!o.async, gen: false, kind: 'arrow' });
      const params = this.params(fs, d);
      const ps = params.simple && ch.chance(30) && params.list.length === 1 ? params.list[0] : `(${params.list.join(', ')})`;
      const head = `${o.async ? 'async ' : ''}${ps} => `;
      if (ch.chance(50)) {
        let b = this.expr(fs.scope, d + 1);
        let s = this.par(b, P.ASSIGN);
        if (/^[{]/.test(s)) s = `(${s})`;
        if (ch.chance(10)) s = `(${s})`;
        return this.e(head + this.bh() + s, P.ASSIGN);
      }
      return this.e(head + this.fnBody(fs, d, 1 + ch.next(3)), P.ASSIGN);
    }
    const fs = this.fnScope(sc, { async: !!o.async, gen: !!o.gen, kind: 'function' });
    const name = ch.chance(40) ? this.id('n') : '';
    const params = this.params(fs, d);
    return this.e(`${o.async ? 'async ' : ''}function${o.gen ? '*' : ''} ${name}(${params.list.join(', ')}) ${this.fnBody(fs, d, 1 + ch.next(3))}`, P.PRIM);
  }
  fnScope(sc, fn) {
    const inherit = { strict: sc.fn.strict };
    const f = Object.assign({ async: false, gen: false, loops: 0, top: false, derived: false }, inherit, fn, { labels: [], brk: 0, cont: 0, ret: true, fnd: (sc.fn.fnd || 0) + 1 });
    const s = { parent: sc, fn: f, vars: [], callables: [], classes: [] };
    return { scope: s, fn: f };
  }
  params(fs, d) {
    const { ch, w } = this; const n = ch.pick([[4, 0], [5, 1], [3, 2], [1, 3]]);
    const list = []; let simple = true;
    const old = [fs.fn.noAwait, fs.fn.noYield]; fs.fn.noAwait = true; fs.fn.noYield = true;
    const outer = fs.scope;
    for (let i = 0; i < n; i++) {
      if (ch.chance(w.dflt * 6)) { simple = false; list.push(this.ih() + this.pattern(outer, d + 1, true)); }
      else { const p = this.id('p'); outer.vars.push({ n: p, m: true }); if (ch.chance(25)) outer.callables.push({ n: p, param: true, opt: true }); list.push(p); }
    }
    if (ch.chance(6)) { simple = false; const p = this.id('r'); outer.vars.push({ n: p, m: true }); list.push('...' + p); }
    [fs.fn.noAwait, fs.fn.noYield] = old;
    fs.fn.simple = simple;
    return { list, simple };
  }
  // binding pattern with defaults; declares names
  pattern(sc, d, top) {
    const { ch } = this;
    const name = () => { const p = this.id('d'); sc.vars.push({ n: p, m: true }); return p; };
    const dflt = (s) => ch.chance(60) ? `${s} = ${this.ih()}${this.par(this.expr(sc, d + 1), P.ASSIGN)}` : s;
    const k = d > 3 ? 0 : ch.pick([[5, 0], [3, 1], [2, 2]]);
    if (k === 0) { const later = sc.vars.length; const p = this.id('d'); const s = top ? `${p} = ${this.ih()}${this.par(this.expr(sc, d + 1), P.ASSIGN)}` : dflt(p); sc.vars.push({ n: p, m: true }); return s; }
    if (k === 1) {
      const ps = []; const n = 1 + ch.next(3);
      for (let i = 0; i < n; i++) {
        const kk = ch.next(4);
        if (kk === 0) { const p = name(); ps.push(p); }
        else if (kk === 1) { const p = this.id('d'); const s = `${p} = ${this.ih()}${this.par(this.expr(sc, d + 1), P.ASSIGN)}`; sc.vars.push({ n: p, m: true }); ps.push(s); }
        else if (kk === 2) ps.push(`a: ${this.pattern(sc, d + 1)}`);
        else { const key = `[h(${this.hostId()})]`; ps.push(`${key}: ${this.pattern(sc, d + 1)}`); }
      }
      if (ch.chance(10)) ps.push('...' + name());
      return dfltTop(this, `{ ${ps.join(', ')} }`);
    }
    const ps = []; const n = 1 + ch.next(3);
    for (let i = 0; i < n; i++) ps.push(ch.chance(10) ? '' : this.pattern(sc, d + 1));
    return dfltTop(this, `[${ps.join(', ')}]`);
    function dfltTop(self, s) { const kk = ch.next(3); return kk === 0 ? `${s} = ${s[0] === '{' ? '{}' : '[]'}` : kk === 1 ? `${s} = ${self.par(self.expr(sc, d + 1), P.ASSIGN)}` : s; }
  }
  fnBody(fs, d, n) {
    const { ch } = this; const ind = '';
    const lines = [];
    if (fs.fn.simple && ch.chance(this.w.dir * 4)) { const dv = ch.of(['"use strict";', "'use strict';", '"use client";']); if (/strict/.test(dv)) fs.fn.strict = true; lines.push(dv); if (ch.chance(20)) lines.push('"second directive";'); }
    if (ch.chance(7)) return this.braces(lines);
    this.block(fs.scope, d + 1, n, lines);
    if (ch.chance(40)) lines.push(`return ${this.ih()}${this.par(this.noAsi(this.expr(fs.scope, d + 2)), P.SEQ)};`);
    return this.bh() + this.braces(lines);
  }
  bh() { return this.ch.chance(40) ? this.ih() : ''; }
  noAsi(e) { return e; }
  braces(lines) { return lines.length === 0 ? '{}' : `{\n${lines.map(l => l.replace(/^/gm, '  ')).join('\n')}\n}`; }

  x_cls(sc, d) { return this.e(`(${this.cls(sc, d, this.ch.chance(40) ? this.id('C') : '', null)})`, P.PRIM); }
  x_new(sc, d) { const c = this.ch.of(this.all(sc, 'classes')); return this.e(`new ${c.n}(${this.args(sc, d)})`, P.CALL); }
  x_this(sc) { return this.e(this.ch.of(['typeof this', '(this && this.z)', 'typeof new.target', 'arguments.length'].slice(0, sc.fn.kind === 'function' ? 4 : 2)), P.UN); }
  x_obj(sc, d) {
    const { ch } = this; const n = ch.next(4); const ps = [];
    for (let i = 0; i < n; i++) {
      const k = ch.pick([[4, 'kv'], [2, 'm'], [1, 'g'], [1, 's'], [1, 'comp'], [1, 'spread'], [1, 'strm'], [1, 'compm']]);
      if (k === 'kv') ps.push(`${ch.of(['a', 'b', '"k"', '3'])}: ${this.ih()}${this.par(this.expr(sc, d + 1), P.ASSIGN)}`);
      else if (k === 'comp') ps.push(`[${this.par(this.expr(sc, d + 1), P.ASSIGN)}]: ${this.par(this.expr(sc, d + 1), P.ASSIGN)}`);
      else if (k === 'spread') ps.push(`...${this.par(this.expr(sc, d + 1), P.ASSIGN)}`);
      else ps.push(this.member(sc, d, 'obj', k === 'm' ? null : k));
    }
    const body = ps.length ? `{ ${ps.join(ch.chance(20) ? ',\n  ' : ', ')} }` : '{}';
    const s = `(${body})`;
    const ms = ps.filter(p => /^(m\d)\(/.test(p)).map(p => p.match(/^(m\d)/)[1]);
    if (ms.length && ch.chance(70)) return this.e(`${s}.${ch.of(ms)}(${this.args(sc, d)})`, P.CALL);
    if (ps.some(p => /^get g1/.test(p)) && ch.chance(70)) return this.e(`${s}.g1`, P.MEM);
    if (ps.some(p => /^set g1/.test(p)) && ch.chance(70)) return this.e(`(${s}.g1 = ${this.par(this.expr(sc, d + 1), P.ASSIGN)})`, P.PRIM);
    return this.e(s, P.PRIM);
  }
  x_arr(sc, d) {
    const { ch } = this; const n = ch.next(4), a = [];
    for (let i = 0; i < n; i++) a.push(ch.chance(6) ? '' : (ch.chance(10) ? `...hi(${this.hostId()})` : this.ih() + this.par(this.expr(sc, d + 1), P.ASSIGN)));
    return this.e(`[${a.join(', ')}]`, P.PRIM);
  }
  x_tpl(sc, d) { return this.e('`t${' + this.safeStr(sc, d) + '}' + (this.ch.chance(30) ? '\n${' + this.safeStr(sc, d) + '}' : '') + '`', P.PRIM); }
  safeStr(sc, d) { return `typeof ${this.par(this.expr(sc, d + 1), P.UN)}`; }
  x_tag(sc, d) { return this.e(`${this.ch.of(['ht', `hT(${this.hostId()})`])}\`q\${${this.par(this.expr(sc, d + 1), P.SEQ)}}r\``, P.CALL); }
  x_hostobj(sc, d) {
    const k = this.ch.next(5), o = `ho(${this.hostId()})`;
    if (k === 0) return this.e(`${o}.p`, P.MEM);
    if (k === 1) return this.e(`${o}.m(${this.args(sc, d)})`, P.CALL);
    if (k === 2) return this.e(`${o}?.q?.p`, P.MEM);
    if (k === 3) return this.e(`(${o}.p ${this.ch.of(['=', '+=', '||=', '??='])} ${this.par(this.expr(sc, d + 1), P.ASSIGN)})`, P.PRIM);
    return this.e(`${o}[${this.par(this.expr(sc, d + 1), P.SEQ)}]`, P.MEM);
  }
  x_await(sc, d) { return this.e(`await ${this.ch.chance(70) ? `hp(${this.hostId()})` : this.par(this.expr(sc, d + 1), P.UN)}`, P.UN); }
  x_yield(sc, d) {
    const k = this.ch.next(4);
    if (k === 3) return this.e(`(yield* ${sc.fn.async ? 'ha' : 'hi'}(${this.hostId()}))`, P.PRIM);
    if (k === 2) return this.e('(yield)', P.PRIM);
    const a = this.par(this.expr(sc, d + 1), P.ASSIGN);
    return this.e(a.startsWith('/') ? `(yield (${a}))` : `(yield ${a})`, P.PRIM); // acorn takes the slash for a division
  }
  x_destr(sc, d) {
    const v = this.lhs(sc), v2 = this.lhs(sc); if (!v || !v2) return this.x_h(sc, d);
    const r = this.par(this.expr(sc, d + 1), P.ASSIGN), df = this.par(this.expr(sc, d + 1), P.ASSIGN);
    return this.ch.next(2) ? this.e(`([${v} = ${df}, ${v2}] = [${r}])`, P.PRIM) : this.e(`({ a: ${v} = ${df}, b: ${v2} } = { a: ${r} })`, P.PRIM);
  }
  x_opt(sc, d) { return this.e(`${this.par(this.expr(sc, d + 1), P.MEM)}?.${this.ch.of(['a', 'length', '[0]', 'a?.b'])}`, P.MEM); }
  x_del(sc, d) { return this.e(`delete ho(${this.hostId()}).p`, P.UN); }

  // --- classes ------------------------------------------------------------------------------------------
  methodName(i) {
    const im = (this.o.ignoreMethods || []).filter(n => n !== 'constructor');
    if (im.length && this.ch.chance(25)) return this.ch.of(im);
    if (im.length && this.ch.chance(15)) { const n = this.ch.of(im); return this.ch.of([n + 'x', n.toUpperCase(), '_' + n, n[0], n + '0', '$' + n]); }
    return 'm' + i;
  }
  // a method/accessor for an object literal or class
  member(sc, d, where, k) {
    const { ch } = this;
    const i = ch.next(3);
    if (k === 'g') { const fs = this.fnScope(sc, { kind: 'method' }); fs.fn.simple = true; return `${this.mh(where)}get ${ch.of(['g1', '"g2"', `[h(${this.hostId()})]`, this.key(sc, d)])}() ${this.fnBody(fs, d + 1, ch.next(2))}`; }
    if (k === 's') { const fs = this.fnScope(sc, { kind: 'method' }); const p = this.id('p'); fs.scope.vars.push({ n: p, m: true }); fs.fn.simple = true; return `${this.mh(where)}set ${ch.of(['g1', "'g2'", '[1 + 1]', this.key(sc, d)])}(${p}) ${this.fnBody(fs, d + 1, ch.next(2))}`; }
    const async = ch.chance(10), gen = ch.chance(10);
    const fs = this.fnScope(sc, { kind: 'method', async, gen });
    const nm = k === 'strm' ? `"s${i}"` : k === 'compm' ? `[${this.par(this.expr(sc, d + 2), P.ASSIGN)}]` : k === 'priv' ? `#q${i}` : this.methodName(i);
    const ps = this.params(fs, d + 1);
    return `${this.mh(where)}${async ? 'async ' : ''}${gen ? '*' : ''}${nm}(${ps.list.join(', ')}) ${this.fnBody(fs, d + 1, 1 + ch.next(2))}`;
  }
  key(sc, d) { return this.ch.chance(50) ? `[${this.par(this.expr(sc, d + 2), P.ASSIGN)}]` : '3'; }
  mh(where) { if (where !== 'cls') return ''; const h = this.hint('member'); return h ? h + (this.ch.chance(50) ? '\n' : ' ') : ''; }
  cls(sc, d, name, reg) {
    const { ch } = this; const ms = []; let derived = false, ext = '';
    const kx = ch.pick([[6, 0], [2, 1], [1, 2]]);
    const cs = this.all(sc, 'classes');
    if (kx === 1 && cs.length) { ext = ` extends ${ch.of(cs).n}`; derived = true; }
    else if (kx === 2) { ext = ` extends (h(${this.hostId()}), HB)`; derived = true; }
    // a scope in which field initialisers and static blocks live
    const cf = Object.assign({}, sc.fn, { kind: 'field', strict: true, noAwait: true, noYield: true, async: false, gen: false, ret: false, labels: [], brk: 0, cont: 0, top: false });
    const fsc = { parent: sc, fn: cf, vars: [], callables: [], classes: [] };
    const ksc = sc;
    const n = ch.next(5); const seen = new Set();
    if (ch.chance(45)) {
      const fs = this.fnScope(fsc, { kind: 'ctor' });
      const ps = this.params(fs, d + 1);
      fs.fn.strict = true; const b = []; if (derived) b.push(`super(${this.lit()});`);
      if (ch.chance(10)) b.unshift('"directive";');
      this.block(fs.scope, d + 2, 1 + ch.next(2), b);
      ms.push(`${this.mh('cls')}constructor(${ps.list.join(', ')}) ${this.braces(b)}`);
    }
    for (let i = 0; i < n; i++) {
      const k = ch.pick([[4, 'm'], [3, 'f'], [2, 'sf'], [2, 'pf'], [1, 'pm'], [1, 'g'], [1, 's'], [1, 'sm'], [1, 'sb'], [1, 'strm'], [1, 'compm'], [1, 'cf'], [1, 'sa'], [1, 'pa']]);
      const v = () => ch.chance(85) ? ` = ${this.ih()}${this.par(this.expr(fsc, d + 2), P.ASSIGN)}` : '';
      if (k === 'f') ms.push(`${this.mh('cls')}x${ch.next(3)}${v()};`);
      else if (k === 'cf') ms.push(`${this.mh('cls')}${ch.chance(20) ? 'static ' : ''}${ch.chance(70) ? `[h(${this.hostId()})]` : this.key(fsc, d)}${v()};`);
      else if (k === 'sa') ms.push(this.member(fsc, d, 'cls', ch.of(['g', 's', 'compm'])).replace(/^((?:\/\*[^]*?\*\/\s*)*)/, '$1static '));
      else if (k === 'pa') { const fs = this.fnScope(fsc, { kind: 'method' }); fs.fn.simple = true; ms.push(`${this.mh('cls')}${ch.chance(30) ? 'static ' : ''}get #a${i}() ${this.fnBody(fs, d + 1, 1)}`); if (!/static get #/.test(ms[ms.length - 1])) { ms.push(`calla${i}() { return this.#a${i}; }`); if (reg) reg.push(`calla${i}`); } }
      else if (k === 'sf') ms.push(`${this.mh('cls')}static y${ch.next(3)}${v()};`);
      else if (k === 'pf') { const p = '#z' + i; ms.push(`${this.mh('cls')}${ch.chance(30) ? 'static ' : ''}${p}${v()};`); }
      else if (k === 'sb') { const b = []; const s2 = { parent: fsc, fn: Object.assign({}, cf, { kind: 'static' }), vars: [], callables: [], classes: [] }; this.block(s2, d + 2, 1 + ch.next(2), b); ms.push(`static ${this.braces(b)}`); }
      else if (k === 'pm') { const p = `#w${i}`; const fs = this.fnScope(fsc, { kind: 'method' }); const ps = this.params(fs, d + 1); ms.push(`${this.mh('cls')}${p}(${ps.list.join(', ')}) ${this.fnBody(fs, d + 1, 1)}`); ms.push(`callw${i}() { return this.${p}(1); }`); if (reg) reg.push(`callw${i}`); }
      else if (k === 'sm') ms.push(this.member(fsc, d, 'cls', 'm').replace(/^((?:\/\*[^]*?\*\/\s*)*)/, '$1static '));
      else { const m = this.member(fsc, d, 'cls', k); const mm = m.match(/^(?:\/\*[^]*?\*\/\s*)*(m\d|[a-zA-Z]\w*)\(/); if (mm && reg && !/^(get|set|async|static)$/.test(mm[1])) reg.push(mm[1]); ms.push(m); }
    }
    return `class ${name}${ext} ${this.braces(ms)}`;
  }

  // --- statements ---------------------------------------------------------------------------------------
  block(sc, d, n, out) { for (let i = 0; i < n; i++) this.stmt(sc, d, out); return out; }
  blk(sc, d, n) { const s = this.scope(sc); const b = []; this.block(s, d, n, b); return this.braces(b); }
  // body of if/loops: block or a single statement
  body(sc, d, closed) {
    if (d < 6 && this.ch.chance(12)) { // a compound statement without braces around it; closed: an else may follow
      const out = [], k = this.ch.of(closed ? ['switch', 'try', 'switch', 'try', 'loop'] : ['if', 'loop', 'loop', 'switch', 'try', 'label']);
      const bs = this.scope(sc);
      this['s_' + k](bs, d, out);
      if (out.length === 1 && !/^(let|const|class|function|async function)\b/.test(out[0]) && !(closed && k === 'loop' && !/^do\b/.test(out[0]))) return (/^\/\* istanbul/.test(out[0]) ? '' : this.ih()) + (this.ch.chance(80) ? '' : '\n') + out[0];
      return this.braces(out);
    }
    if (this.ch.chance(22)) { const out = []; this.simple(this.scope(sc), d, out, true); if (out.length === 1) return this.ih() + out[0]; return this.braces(out); }
    if (this.ch.chance(4)) return ';';
    return this.ih() + this.blk(sc, d + 1, this.ch.next(3));
  }
  exprStmt(e) { let s = e.s; if (/^(\{|function\b|class\b|let\b|async function)/.test(s) || /^["']/.test(s)) s = `(${s})`; return s; }
  simple(sc, d, out, single) {
    const { ch } = this; const f = sc.fn;
    const k = ch.pick([[8, 'x'], [f.ret && !f.noRet ? 2 : 0, 'ret'], [1, 'throw'], [f.brk > 0 ? 2 : 0, 'brk'], [f.cont > 0 ? 2 : 0, 'cont'], [f.labels.length ? 2 : 0, 'lbrk'], [1, 'dbg']]);
    const semi = ';';
    if (k === 'x') out.push(this.exprStmt(this.expr(sc, d)) + semi);
    else if (k === 'ret') out.push(ch.chance(20) ? 'return;' : `return ${this.ih()}${this.par(this.expr(sc, d), P.SEQ)};`);
    else if (k === 'throw') out.push(`throw ${ch.chance(60) ? `new Error("u:${this.hostId()}")` : this.par(this.expr(sc, d), P.SEQ)};`);
    else if (k === 'brk') out.push('break;');
    else if (k === 'cont') out.push('continue;');
    else if (k === 'lbrk') { const l = ch.of(f.labels); out.push(l.loop && ch.chance(50) ? `continue ${l.n};` : `break ${l.n};`); }
    else out.push('debugger;');
    return out;
  }
  stmt(sc, d, out) {
    const { ch, w } = this; const f = sc.fn;
    if (!this.spend(2) || d > 7) { out.push(`h(${this.hostId()});`); return; }
    const deep = d >= 5;
    const sub = [];
    const k = ch.pick([
      [10, 'simple'], [6, 'decl'], [deep ? 1 : w.iff, 'if'], [deep ? 0 : w.loop, 'loop'], [deep ? 0 : w.sw, 'switch'], [deep ? 0 : w.tryc, 'try'],
      [deep ? 0 : w.fn, 'fndecl'], [deep ? 0 : w.cls, 'clsdecl'], [deep ? 0 : w.label, 'label'], [deep ? 0 : 2, 'block'], [1, 'rare'],
    ]);
    this['s_' + k](sc, d, sub);
    // hints only before a statement that stands on its own line
    if (sub.length) { const h = this.hint('stmt'); if (h && !/^\/\* istanbul/.test(sub[0])) sub[0] = h + '\n' + sub[0]; }
    out.push(...sub);
  }
  s_simple(sc, d, out) { this.simple(sc, d, out); }
  s_decl(sc, d, out) {
    const { ch } = this;
    const kind = ch.of(['var', 'let', 'const']); const n = ch.pick([[8, 1], [2, 2], [1, 3]]); const ds = []; const add = [];
    for (let i = 0; i < n; i++) {
      if (ch.chance(this.w.dflt * 4)) {
        const tmp = { parent: sc, fn: sc.fn, vars: [], callables: [], classes: [] };
        let p = this.pattern(tmp, d + 1, false);
        p = /^[\[{]/.test(p) ? stripDefault(p) : null;
        if (p) { const init = ch.of([`hi(${this.hostId()})`, '[]', '{}', null]); const ii = p[0] === '[' ? (ch.chance(50) ? `hi(${this.hostId()})` : '[1]') : (ch.chance(50) ? `ho(${this.hostId()})` : '{}'); ds.push(`${p} = ${ii}`); add.push(...tmp.vars.map(v => ({ n: v.n, m: kind !== 'const' }))); continue; }
      }
      const v = this.id('v');
      const fnlike = ch.chance(25);
      if (fnlike) {
        const a = ch.chance(25), g = ch.chance(20) && !a;
        const fx = ch.chance(20) ? { s: this.cls(sc, d + 1, ch.chance(30) ? this.id('C') : '', null), cls: true } : this.fnExpr(sc, d + 1, { async: a, gen: g });
        ds.push(`${v} = ${ch.chance(10) ? `(${fx.s})` : fx.s}`);
        if (fx.cls) add.push({ n: v, cls: true, esc: true }); else add.push({ n: v, call: a ? 'async' : g ? 'gen' : 'fn', esc: true });
      } else if (kind !== 'const' && ch.chance(12)) { ds.push(v); add.push({ n: v, m: true }); }
      else { ds.push(`${v} = ${this.ih()}${this.par(this.expr(sc, d + 1), P.ASSIGN)}`); add.push({ n: v, m: kind !== 'const' }); }
    }
    for (const a of add) { if (a.call) sc.callables.push({ n: a.n, kind: a.call }); else if (a.cls) sc.classes.push({ n: a.n }); else sc.vars.push(a); }
    out.push(`${kind} ${ds.join(ch.chance(30) ? ',\n    ' : ', ')};`);
    function stripDefault(p) { // keep the outer pattern only: cut at the matching bracket
      let dp = 0, i = 0, q = null;
      for (; i < p.length; i++) { const c = p[i]; if (q) { if (c === '\\') i++; else if (c === q) q = null; continue; } if (c === '"' || c === "'" || c === '`') { if (c === '`') return null; q = c; continue; } if (c === '/' && p[i + 1] === '*') { i = p.indexOf('*/', i) + 1; continue; } if ('([{'.includes(c)) dp++; if (')]}'.includes(c)) { dp--; if (!dp) return p.slice(0, i + 1); } }
      return null;
    }
  }
  s_if(sc, d, out) {
    const { ch } = this;
    const ifs = (dd) => {
      const k = ch.next(4);
      let s = `if (${this.par(this.expr(sc, d + 1), P.SEQ)}) ${this.body(sc, d + 1, k > 0)}`;
      if (k === 1 || k === 2) s += ` else ${this.body(sc, d + 1)}`;
      else if (k === 3 && dd < 3) { let h = this.ih(); if (this.o.hints && !h && ch.chance(12)) { this.usedHints++; h = `/* istanbul ignore ${ch.of(['if', 'else'])} */ `; } s += ` else ${h}${ifs(dd + 1)}`; }
      return s;
    };
    let s = ifs(0);
    if (this.o.hints && ch.chance(20)) { this.usedHints++; s = `/* istanbul ignore ${ch.of(['if', 'else'])} */\n` + s; }
    out.push(s);
  }
  s_block(sc, d, out) { out.push(this.blk(sc, d + 1, 1 + this.ch.next(2))); }
  loopScope(sc) { const s = this.scope(sc, Object.assign(Object.create(sc.fn), { brk: 1, cont: 1 })); return s; }
  s_loop(sc, d, out, label) {
    const { ch } = this; const f = sc.fn;
    const ls = this.loopScope(sc);
    if (label) ls.fn.labels = [...f.labels, { n: label, loop: true }];
    const pre = label ? label + ': ' : '';
    const k = ch.pick([[4, 'for'], [3, 'of'], [2, 'in'], [3, 'while'], [2, 'do'], [f.async && !f.noAwait ? 2 : 0, 'await']]);
    const c = this.id('i'), max = 1 + ch.next(3);
    const lv = this.lhs(sc);
    if (k === 'for' && ch.chance(12)) { // heads with parts left out, or without a declaration
      out.push(`let ${c} = ${max};`);
      const v = lv && ch.chance(50) ? `${lv} = ${this.par(this.expr(sc, d + 1), P.ASSIGN)}` : '';
      if (/\bin\b/.test(v)) return this.s_simple(sc, d, out);
      const b = this.blk(ls, d + 1, 1 + ch.next(2));
      if (ch.chance(50)) out.push(`${pre}for (${v}; ${c}-- > 0;) ${this.body(ls, d + 1)}`);
      else out.push(`${pre}for (${v};;${ch.chance(40) ? ' ' + this.par(this.expr(ls, d + 1), P.ASSIGN) : ''}) { if (${c}-- < 1) break;\n${b} }`);
    } else if (lv && (k === 'of' || k === 'in') && ch.chance(20)) { // assigns to what is there
      const t = ch.chance(70) ? lv : k === 'of' && ch.chance(60) ? `[${lv} = ${this.par(this.expr(sc, d + 1), P.ASSIGN)}]` : `ho(${this.hostId()}).p`;
      out.push(`${pre}for (${t} ${k} ${k === 'of' ? (ch.chance(60) ? `hi(${this.hostId()})` : '[[], 1]') : '{ a: 1, b: 2 }'}) ${this.body(ls, d + 1)}`);
    } else if (k === 'for') {
      const extra = ch.chance(20) ? `, ${this.id('j')} = ${ch.chance(40) ? this.fnExpr(sc, d + 1, {}).s : this.par(this.expr(sc, d + 1), P.ASSIGN).replace(/\bin\b/g, 'in')}` : '';
      ls.vars.push({ n: c });
      const test = ch.chance(40) ? `${c} < ${max} && ${this.par(this.expr(ls, d + 1), P.BOR)}` : `${c} < ${max}`;
      const safeExtra = /\bin\b/.test(extra) ? '' : extra;
      const upd = ch.chance(20) ? `${c}++, ${this.par(this.expr(ls, d + 1), P.ASSIGN)}` : `${c}++`;
      out.push(`${pre}for (${ch.of(['let', 'var', 'let'])} ${c} = 0${safeExtra}; ${test}; ${upd}) ${this.body(ls, d + 1)}`);
    } else if (k === 'of' || k === 'await') {
      const tmp = { parent: ls, fn: ls.fn, vars: [], callables: [], classes: [] };
      let lhs;
      if (ch.chance(this.w.dflt * 6)) { const old = this.o.hints; lhs = `[${this.pattern(tmp, d + 2)}]`; this.o.hints = old; } else { lhs = this.id('v'); tmp.vars.push({ n: lhs, m: true }); }
      const src = k === 'await' ? `ha(${this.hostId()})` : ch.chance(60) ? `hi(${this.hostId()})` : `[1, ${this.par(this.expr(sc, d + 1), P.ASSIGN)}]`;
      ls.vars.push(...tmp.vars.map(v => ({ n: v.n })));
      out.push(`${pre}for ${k === 'await' ? 'await ' : ''}(${ch.of(['const', 'let', 'var'])} ${lhs} of ${src}) ${this.body(ls, d + 1)}`);
    } else if (k === 'in') {
      const v = this.id('v'); ls.vars.push({ n: v });
      out.push(`${pre}for (${ch.of(['const', 'let', 'var'])} ${v} in ${ch.of(['{ a: 1, b: 2 }', '[5]', `ho(${this.hostId()})`, '{}'])}) ${this.body(ls, d + 1)}`);
    } else {
      const n = this.id('w');
      out.push(`let ${n} = ${max};`);
      const cond = ch.chance(50) ? `${n}-- > 0 && ${this.par(this.expr(ls, d + 1), P.BOR)}` : `${n}-- > 0`;
      if (k === 'while') out.push(`${pre}while (${cond}) ${this.body(ls, d + 1)}`);
      else { let b = this.body(ls, d + 1); out.push(`${pre}do ${b} while (${cond});`); }
    }
  }
  s_switch(sc, d, out) {
    const { ch } = this;
    const ls = this.scope(sc, Object.assign(Object.create(sc.fn), { brk: 1 }));
    const n = ch.chance(5 * this.w.rare) ? 7 + ch.next(6) : ch.next(4); const dpos = ch.next(n + 2); let s = `switch (${ch.chance(50) ? `h(${this.hostId()})` : this.par(this.expr(sc, d + 1), P.SEQ)}) {`;
    if (n === 0 && dpos > 0) { out.push(s + '\n}'); return; }
    for (let i = 0; i <= n; i++) {
      const isD = i === dpos;
      if (i === n && !isD) break;
      const h = this.hint('case');
      const b = []; const cs = ch.next(3);
      for (let j = 0; j < cs; j++) {
        if (ch.chance(this.w.sw * 4)) { const h2 = this.hint('stmt'); const b2 = []; if (ch.chance(75)) this.s_decl(ls, d + 2, b2); else if (ch.chance(60)) this.s_fndecl(ls, d + 2, b2); else this.s_clsdecl(ls, d + 2, b2); if (h2) b2[0] = h2 + '\n' + b2[0]; b.push(...b2); } // in scope in the other cases too
        else if (ch.chance(60)) this.simple(ls, d + 2, b); else b.push(this.blk(ls, d + 2, 1));
      }
      if (ch.chance(50)) b.push('break;');
      s += `\n  ${h ? h + '\n  ' : ''}${isD ? 'default' : `case ${ch.chance(60) ? ch.of(['0', '1', '"s"', 'null', 'undefined']) : this.par(this.expr(sc, d + 2), P.SEQ)}`}:` + (b.length ? '\n' + b.join('\n').replace(/^/gm, '    ') : '');
    }
    out.push(s + '\n}');
  }
  s_try(sc, d, out) {
    const { ch } = this; const k = ch.next(4);
    const b = this.bh() + this.blk(sc, d + 1, 1 + ch.next(2));
    let s = `try ${b}`;
    if (k !== 3) { const cs = this.scope(sc); const bind = ch.next(3); let p = ''; if (bind === 0) { const v = this.id('x'); cs.vars.push({ n: v, m: true }); p = ` (${v})`; } else if (bind === 1 && ch.chance(40)) { const tmp = { parent: cs, fn: cs.fn, vars: [], callables: [], classes: [] }; const old = this.o.hints; p = ` ({ a: ${this.pattern(tmp, d + 3)} })`; cs.vars.push(...tmp.vars); } s += ` catch${p} ${this.bh()}${this.blk(cs, d + 1, 1 + ch.next(2))}`; }
    if (k >= 2) s += ` finally ${this.bh()}${this.blk(sc, d + 1, 1 + ch.next(2))}`;
    out.push(s);
  }
  s_fndecl(sc, d, out) {
    const { ch, w } = this;
    const async = ch.chance(w.async * 6), gen = ch.chance(w.gen * 6);
    const name = this.id('F');
    const fs = this.fnScope(sc, { async, gen, kind: 'function' });
    const ps = this.params(fs, d);
    // bounded self recursion
    let pre = '';
    const body = this.fnBody(fs, d, 1 + ch.next(3));
    out.push(`${async ? 'async ' : ''}function${gen ? '*' : ''} ${name}(${ps.list.join(', ')}) ${body}`);
    sc.callables.push({ n: name, kind: async && gen ? 'asyncgen' : async ? 'async' : gen ? 'gen' : 'fn' });
    const c = sc.callables[sc.callables.length - 1];
    const u = ch.next(8);
    if (u < 3) out.push(`${this.callStmt(sc, c, d)};`);
    else if (u < 5) out.push(`try { ${this.callStmt(sc, c, d)}; } catch {}`);
    else if (u < 7) out.push(`hc(${this.hostId()}, ${name});`);
  }
  callStmt(sc, c, d) {
    const s = `${c.n}(${this.args(sc, d + 1)})`;
    if (c.kind === 'async') return `hw(${this.hostId()}, ${s})`;
    if (c.kind === 'gen' || c.kind === 'asyncgen') return `hg(${this.hostId()}, ${s})`;
    return s;
  }
  s_clsdecl(sc, d, out) {
    const { ch } = this; const name = this.id('C'); const reg = [];
    out.push(this.cls(sc, d, name, reg));
    sc.classes.push({ n: name });
    if (ch.chance(70)) out.push(`new ${name}(${this.args(sc, d + 1)})${reg.length && ch.chance(80) ? `.${ch.of(reg)}(${this.args(sc, d + 1)})` : ''};`);
  }
  s_label(sc, d, out) {
    const { ch } = this; const l = this.id('L');
    if (ch.chance(50)) return this.s_loop(sc, d, out, l);
    const s = this.scope(sc, Object.assign(Object.create(sc.fn), { labels: [...sc.fn.labels, { n: l }] }));
    if (ch.chance(20)) { const o = []; this.simple(s, d + 1, o, true); out.push(`${l}: ${o[0]}`); return; }
    out.push(`${l}: ${this.bh()}${this.blk(s, d + 1, 1 + ch.next(2))}`);
  }
  s_rare(sc, d, out) {
    const { ch } = this; const k = ch.next(5);
    if (k === 0) out.push(';');
    else if (k === 1 && !this.strict(sc)) { const ws = this.scope(sc), o = ch.chance(50) ? `ho(${this.hostId()})` : '{ a: 1 }'; for (const n of o[0] === '{' ? ['a'] : ['p', 'q', 'm']) ws.vars.push({ n, m: true }); out.push(`with (${o}) ${this.body(ws, d + 1)}`); }
    else if (k === 2) out.push('("not a directive");');
    else if (k === 3) out.push(`h(${this.hostId()}), h(${this.hostId()});`);
    else out.push(`"string statement";`);
  }
  strict(sc) { return this.o.strict || this.anyStrict || sc.fn.strict; }

  program() {
    const { ch, o } = this;
    const top = { parent: null, fn: { async: o.kind === 'module' && o.tla, gen: false, kind: 'top', labels: [], brk: 0, cont: 0, ret: false, top: true }, vars: [], callables: [], classes: [] };
    const lines = [];
    if (o.fileHint) lines.push('/* istanbul ignore file */');
    else if (ch.chance(8)) lines.push('/* leading comment */');
    if (o.strict && o.kind !== 'module') lines.push(ch.of(['"use strict";', "'use strict';"]));
    if (ch.chance(5)) lines.push('"other directive";');
    const late = [];
    if (o.kind === 'module') for (const im of o.imports || []) (ch.chance(15) ? late : lines).push(im.text);
    let leaf = o.leaf && ch.chance(70);
    // with statements and a nested "use strict" must not meet
    this.anyStrict = o.kind === 'module' || o.strict;
    const n = 2 + ch.next(o.stmts || 6);
    let ex = 0;
    let left = o.size;
    const many = ch.chance(2) ? ch.next(n) : -1;
    for (let i = 0; i < n; i++) {
      if (i === many) this.many(lines); else if (ch.next(60) === 0) this.deep(lines);
      // spread the budget over the top-level statements
      left -= (this.share || 0) - Math.max(0, this.budget); this.budget = this.share = i + 1 === n ? Math.max(left, 6) : Math.max(6, Math.ceil(left * 1.6 / (n - i)));
      if (i && ch.chance(12) && this.calls(top, lines)) continue;
      if (leaf && ch.chance(40)) { leaf = false; this.leafFn(top, lines); }
      if (late.length && ch.chance(30)) lines.push(late.pop());
      if (ex < (o.exportsN || 0) && ch.chance(50)) { this.exportFn(top, lines, ex++); continue; }
      if (o.kind === 'module' && ch.chance(12)) { this.exportMisc(top, lines); continue; }
      this.stmt(top, 0, lines);
    }
    while (ex < (o.exportsN || 0)) this.exportFn(top, lines, ex++);
    if (o.kind === 'module' && o.leaf && (leaf || !this.hasLeaf)) this.leafFn(top, lines);
    lines.push(...late);
    return this.layout(lines.join('\n') + (ch.chance(50) ? '\n' : ''));
  }
  // more than fits into a byte
  many(lines) {
    const { ch } = this, k = ch.next(6), n = ch.of([260, 300, 520, 700]), one = () => ch.of(['0;', '1 || 0;', '0 ? 1 : 2;', 'if (0) {}', '(() => {})();', '((z = 1) => z)();', 'X.z;']);
    if (k === 0) { let s = `switch (${ch.of([3, 258, n - 1, n])}) {`; for (let i = 0; i < n; i++) s += `\n  case ${i}:${ch.chance(90) ? ' break;' : ''}`; lines.push(s + '\n}'); }
    else if (k < 3) { const s = one(); for (let i = 0; i < n; i++) lines.push(s); }
    else for (let i = 0; i < n; i++) lines.push(one());
  }
  // more levels than anybody would write by hand
  deep(lines) {
    const { ch } = this, n = ch.of(this.o.logs ? [12, 20] : [20, 40, 70, 140]), k = ch.next(8), call = () => `h(${this.hostId()})`;
    // no nested parentheses: parsers of types try again and again there
    const w = { 0: ['{', '}'], 1: ['if (1) {', '}'], 2: ['X.deep = () => {', '}; X.deep();'], 3: ['for (;;) {', 'break; }'], 4: ['X.deep = function () {', '}; X.deep();'], 5: ['try {', '} finally {}'] };
    if (k < 6) { let s = call() + ';'; for (let i = 0; i < n; i++) { const [a, b] = ch.chance(90) ? w[k] : w[ch.next(6)]; s = a + (ch.chance(20) ? '\n' : ' ') + s + ' ' + b; } lines.push(s); }
    else { let e = call(); for (let i = 0; i < n; i++) e = k === 6 ? ch.of([`1 ? [${e}] : 0`, `0 || [${e}]`, `[${e}]`]) : ch.of([`() => [${e}]`, `[${e}]`, `[{ a: ${e} }]`, `1 && [${e}]`]); lines.push(`X.deep = [${e}];`); }
  }
  // the same program with other white space and without some of its semicolons
  layout(s) {
    const { ch, o } = this;
    const ok = (t) => { try { acorn.parse(t, { ecmaVersion: 'latest', sourceType: o.kind === 'module' ? 'module' : 'script' }); return true; } catch { return false; } };
    if (ch.chance(10)) {
      const ls = s.split('\n');
      for (let i = 0; i + 1 < ls.length; i++) if (/[\w)\]"]( ?);$/.test(ls[i]) && !/\b(while|for|if) ?\([^]*\)\s*;$/.test(ls[i]) && /^\s*[A-Za-z}]/.test(ls[i + 1]) && ch.chance(70)) { const old = ls[i]; ls[i] = old.slice(0, -1); }
      const t = ls.join('\n'); if (ok(t)) s = t;
    }
    if (!/\/\/|istanbul/.test(s) && ch.chance(6)) { const t = s.replace(/\n\s*/g, ' '); if (ok(t)) s = t; } // minified
    if (ch.chance(10)) { const t = s.replace(/^ +/gm, (x) => '\t'.repeat(Math.ceil(x.length / 2))); if (ok(t)) s = t; }
    if (ch.chance(6)) { const t = s.replace(/, h\(/g, ',\u00a0\u3000h('); if (ok(t)) s = t; }
    if (o.kind !== 'cjs' && ch.chance(4)) { const t = '#!/usr/bin/env node \u4e2d\n' + s; if (ok(t)) s = t; }
    if (ch.chance(3)) { const i = /^#!/.test(s) ? s.indexOf('\n') + 1 : 0; s = s.slice(0, i) + ch.of(['\n', ' ', '\t\n', '\u3000']).repeat(ch.of([300, 2000, 70000])) + s.slice(i); } // far down or far right
    return s;
  }
  // a later use of something defined before, guarded
  calls(sc, lines) {
    const cs = sc.callables.filter(c => !c.param); if (!cs.length) return false;
    const c = this.ch.of(cs);
    if (this.ch.chance(50)) lines.push(`hc(${this.hostId()}, ${c.n});`);
    else lines.push(`try { ${this.callStmt(sc, c, 1)}; } catch { h(${this.hostId()}); }`);
    return true;
  }
  // functions other files can call
  exportFn(sc, lines, i) {
    const name = `e${this.o.file}_${i}`;
    const fs = this.fnScope(sc, { kind: 'function' });
    const ps = this.params(fs, 1);
    const decl = `function ${name}(${ps.list.join(', ')}) ${this.fnBody(fs, 1, 1 + this.ch.next(2))}`;
    if (this.o.kind === 'module') lines.push(`export ${decl}`); else lines.push(decl, `X.${name} = ${name};`);
    sc.callables.push({ n: name, kind: 'fn' });
  }
  // a function that other modules may call before this one has run: it calls none itself
  leafFn(top, lines) {
    const { ch } = this, g = this.o.leaf.gen, ext = this.o.ext; this.hasLeaf = true;
    this.o.ext = { callable: [], topCallable: [] };
    const sc = { parent: null, fn: Object.assign({}, top.fn, { async: false, top: false }), vars: top.vars.slice(), callables: [], classes: [] };
    const fs = this.fnScope(sc, { gen: g, kind: 'function' }); const ps = this.params(fs, 1);
    const h = this.hint('stmt');
    lines.push(`${h ? h + '\n' : ''}export function${g ? '*' : ''} ${this.o.leaf.n}(${ps.list.join(', ')}) ${this.fnBody(fs, 1, 1 + ch.next(2))}`);
    this.o.ext = ext;
  }
  exportMisc(sc, lines) {
    const { ch } = this; const k = ch.next(5); const out = [];
    if (k === 0) { const v = this.id('v'); const h = this.hint('stmt'); lines.push(`${h ? h + '\n' : ''}export const ${v} = ${this.par(this.expr(sc, 1), P.ASSIGN)};`); sc.vars.push({ n: v }); }
    else if (k === 1) { const v = this.id('v'); let e = this.expr(sc, 1); if (/^\(*\s*(async|function|class|\(?[\w, =]*\)? ?=>)/.test(e.s) || /=>/.test(e.s) || /class/.test(e.s) || /function/.test(e.s)) e = this.atom(sc); const h = this.hint('stmt'); lines.push(`${h ? h + '\n' : ''}export let ${v} = ${this.par(e, P.ASSIGN)};`); sc.vars.push({ n: v, m: true }); }
    else if (k === 2) { const name = this.id('C'); const h = this.hint('stmt'); lines.push((h ? h + '\n' : '') + `export ${this.cls(sc, 1, name, null)}`); sc.classes.push({ n: name }); }
    else if (k === 3 && !this.hasDefault && ch.chance(50)) {
      this.hasDefault = true; const h = this.hint('stmt'); const nm = ch.chance(50) ? this.id('D') : '';
      if (ch.chance(30)) { lines.push((h ? h + '\n' : '') + `export default ${this.cls(sc, 1, nm, null)}`); if (nm) sc.classes.push({ n: nm }); return; }
      const a = ch.chance(25), g = ch.chance(20); const fs = this.fnScope(sc, { kind: 'function', async: a, gen: g }); const ps = this.params(fs, 1);
      lines.push((h ? h + '\n' : '') + `export default ${a ? 'async ' : ''}function${g ? '*' : ''} ${nm}(${ps.list.join(', ')}) ${this.fnBody(fs, 1, 1 + ch.next(2))}`);
      if (nm) sc.callables.push({ n: nm, kind: a && g ? 'asyncgen' : a ? 'async' : g ? 'gen' : 'fn' });
    } else if (k === 3 && !this.hasDefault) { this.hasDefault = true; const e = this.expr(sc, 1); let s = this.par(e, P.ASSIGN); if (/^(function|class|async function)/.test(s)) s = `(${s})`; const h = this.hint('stmt'); lines.push(`${h ? h + '\n' : ''}export default ${s};`); }
    else { const v = this.id('v'); const b = ch.chance(50); const f = this.fnExpr(sc, 2, {}); const h = this.hint('stmt'); lines.push(`${h ? h + '\n' : ''}export const ${v} = ${f.s};`); sc.callables.push({ n: v, kind: 'fn' }); }
  }
}
module.exports = { Gen, P };
