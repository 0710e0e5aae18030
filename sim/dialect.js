'use strict';
// Turns a generated JavaScript file into TypeScript and/or JSX without changing what it does. Every piece of added syntax
// is a mark [offset, text, kind]: in the JavaScript view of the file the same number of characters stands in its place -
// blanks where the syntax has no run-time meaning, equivalent JavaScript where it has one - so that both views have the same
// positions. The JavaScript view is what runs as the original and what the reference reads, the other is what is compiled.
//   kinds: t erased syntax | a type assertion | e start of a declaration that stands for an enum | x `export` of a namespace | p statement that
//   stands for a parameter property | j JSX
const acorn = require('./vendor/acorn.js');
const blank = (t) => t.replace(/[^\n]/g, ' ');

// o: {ch, module, ts, jsx, gen: enums, namespaces and parameter properties, first id of host calls}
function decorate(src, o) {
  const { ch } = o; const comments = [];
  let ast; try { ast = acorn.parse(src, { ecmaVersion: 'latest', sourceType: o.module ? 'module' : 'script', preserveParens: true, onComment: comments }); } catch { return null; }
  const dens = ch.of([12, 4, 30, 60]); let hid = o.hid, uid = 0;
  const out = [], used = new Set();
  const hinted = new Set(); // positions of tokens a comment precedes
  const cAt = new Map(comments.map(c => [c.start, c]));
  const skip = (p) => { for (;;) { while (p < src.length && /\s/.test(src[p])) p++; const c = cAt.get(p); if (!c) return p; p = c.end; } };
  const ws = (p) => { while (p < src.length && /\s/.test(src[p])) p++; return p; };
  for (const c of comments) hinted.add(skip(c.end));
  const free = (p) => { do p--; while (p >= 0 && /\s/.test(src[p])); return p >= 0 && '(,=[:?&|;{'.includes(src[p]); }; // not a continuation of what stands before
  const next = (p) => src[skip(p)];
  const MOD = /^(public|private|protected|abstract|export|static|namespace) /;
  // a comment next to the place stays next to what it was next to
  const fits = (at, ts) => !(at < 0 || used.has(at) || cAt.has(ws(at)) || hinted.has(at) && !MOD.test(ts));
  const put = (at, ts, kind, js) => { if (!fits(at, ts)) return false; used.add(at); out.push([at, ts, kind || 't', js === undefined ? blank(ts) : js]); return true; };
  const maybe = (p, f) => { if (ch.chance(Math.min(90, Math.ceil(dens * p / 10)))) f(); };
  const TYPES = ['any', 'number', 'T', 'string[]', '{ a: any }', 'unknown', 'A<T>', '() => void', 'a | b', '"s"', 'typeof h', '[any, any?]', 'keyof T', 'T extends a ? 1 : 2', 'N.T<any>'];
  const ty = () => ch.of(TYPES), sty = () => ch.of(['any', 'number', 'T', 'unknown', 'A<T>', '{ a: any }', 'T["k"]', 'any[]']);
  // the ) that closes the parameters of a function
  const closeParen = (fn, from) => { const p = skip(fn.params.length ? fn.params[fn.params.length - 1].end : from); let q = p; if (src[q] === ',') q = skip(q + 1); return src[q] === ')' ? q : -1; };
  const openParen = (at) => { const p = skip(at); return src[p] === '(' ? p : -1; };
  const idPattern = (p) => p.type === 'Identifier' || p.type === 'ObjectPattern' || p.type === 'ArrayPattern';
  function params(fn, okOptional) {
    fn.params.forEach((p, i) => {
      if (p.type === 'AssignmentPattern') { if (idPattern(p.left)) maybe(20, () => put(p.left.end, ': ' + ty())); }
      else if (p.type === 'RestElement') maybe(20, () => put(p.end, ': any[]'));
      else if (idPattern(p)) maybe(20, () => put(p.end, (okOptional && p.type === 'Identifier' && i === fn.params.length - 1 && ch.chance(40) ? '?: ' : ': ') + ty()));
    });
  }
  // fn: function of a declaration, expression or method; at: where its ( is looked for
  function func(fn, at, x) {
    const op = openParen(at); if (op < 0) return;
    params(fn, !x.accessor);
    if (!x.ctor && !x.setter) { const cp = closeParen(fn, op + 1); if (cp >= 0) maybe(20, () => put(cp + 1, ': ' + ch.of(['any', 'void', 'T', 'Promise<any>', 'asserts a is T', 'this is T', 'x.y']))); }
    if (!x.accessor && !x.ctor) maybe(8, () => put(op, ch.of(['<T>', '<T, U extends T = any>', '<const T>'])));
    if (!x.ctor && !x.accessor) maybe(8, () => put(op + 1, fn.params.length ? 'this: any, ' : 'this: any'));
  }
  const arrowEdge = (n) => { // ends with the block of an arrow function
    for (;;) {
      if (!n) return false;
      if (n.type === 'ArrowFunctionExpression') { if (n.body.type === 'BlockStatement') return true; n = n.body; continue; }
      n = n.right || n.alternate || n.argument || (n.expressions && n.type === 'SequenceExpression' && n.expressions[n.expressions.length - 1]) || null;
    }
  };
  const leftEdge = (n) => { for (;;) { const m = n.type === 'SequenceExpression' ? n.expressions[0] : n.left || n.test || (n.type === 'CallExpression' ? n.callee : null) || n.object || n.tag || (n.type === 'UpdateExpression' && !n.prefix ? n.argument : null); if (!m) return n; n = m; } };
  // an expression where an assertion may stand after, or before it
  function asserted(e) {
    const nx = next(e.end);
    if (!/[),;\]}]/.test(nx || '') || skip(e.end) !== e.end && hinted.has(skip(e.end))) return;
    if (['SpreadElement', 'AssignmentPattern', 'ChainExpression', 'FunctionExpression', 'ClassExpression', 'SequenceExpression', 'AssignmentExpression', 'YieldExpression'].includes(e.type) && ch.chance(85) || e.type === 'SpreadElement' || e.type === 'AssignmentPattern' || arrowEdge(e) || e.type === 'YieldExpression' && !e.argument) return;
    maybe(10, () => put(e.end, ch.of([' as ' + sty(), ' satisfies ' + sty(), ' as const', ' as any as ' + sty()]), 'a'));
    if (['Identifier', 'CallExpression', 'MemberExpression', 'ParenthesizedExpression'].includes(e.type)) maybe(8, () => put(e.end, '!', 'a'));
    if (!o.jsx && ['Identifier', 'CallExpression', 'MemberExpression', 'ObjectExpression', 'Literal', 'ParenthesizedExpression', 'UnaryExpression', 'LogicalExpression', 'ConditionalExpression'].includes(e.type)) { const l = leftEdge(e); if (l.type !== 'FunctionExpression' && l.type !== 'ClassExpression' && l.type !== 'ArrowFunctionExpression' && l.type !== 'Super') maybe(6, () => free(e.start) && put(e.start, `<${sty()}>`, 'a')); }
  }
  function jsx(e) {
    if (!o.jsx || e.type === 'SpreadElement' || hinted.has(e.start) && ch.chance(50)) return;
    maybe(6, () => {
      if (!fits(e.start, '<') || !fits(e.end, '>')) return;
      const k = ch.next(3);
      if (k === 0) { put(e.start, '<h     a={', 'j', 'hj("h",{a:'); put(e.end, '}/>', 'j', '} )'); }
      else if (k === 1) { put(e.start, '<h        >{', 'j', 'hj("h",null,'); put(e.end, '}</h>', 'j', '    )'); }
      else { put(e.start, '<HB   b="1" a={', 'j', 'hj(HB,{b:"1",a:'); put(e.end, '}></HB>', 'j', '}     )'); }
    });
  }
  function decls() { // declarations without run-time meaning
    const n = uid++;
    const all = [`interface I${n} { a: string; m(): void; readonly [k: string]: any }`, `type A${n}<T> = T extends string ? 1 : { [K in keyof T]?: T[K] };`, `declare const q${n}: number;`, `declare function d${n}(x: number): string;`, `declare let l${n}: any, k${n}: string;`, `declare class K${n} { x: number; m(a?: any): void; static s: string }`, `interface J${n}<T> extends I, A<T> {}`, `declare const r${n} = 1;`, `abstract class AB${n} { abstract a(): void; b(x: string): void; b(x: any): void {} }`.slice(0, 0) || `type F${n} = new (...a: any[]) => void;`];
    return all;
  }
  const topDecls = () => { const n = uid++; return [`declare module "m${n}" { export function z(a: any): void; export const y: 1; const w = 2; }`, `declare namespace DN${n} { let x: number; function f(): void; namespace M { const c = 1; } }`, `declare enum DE${n} { A = 1, B }`, `namespace TN${n} { export interface A { a: 1 } export type B = A; }`]
    .concat(o.module ? [`declare global { interface Window { a: 1 } var gg${n}: any; }`, `import type { TT${n} } from "./t";`, `export type TE${n} = 1;`, `export interface TI${n} { a: 1 }`, `export declare const ed${n}: number, ee${n}: any;`, `export declare function ef${n}(): void;`, `import { type TU${n} } from "./none";`.slice(0, 0) || `export type { TT${n} as TX${n} } from "./t";`] : []); };
  const noComment = (p) => !hinted.has(p);
  function list(ss, top, ns) {
    let k = 0; while (k < ss.length && ss[k].directive !== undefined) k++;
    for (; k < ss.length; k++) {
      const s = ss[k];
      if (!noComment(s.start)) continue;
      if (o.gen && ch.chance(dens / (top && !ns ? 3 : 8))) {
        const n = uid++, a = ch.next(3), cst = ch.chance(20);
        const init = (i) => cst ? String(i + 1) : ch.of([`h(${hid++}) ? 1 : 2`, `h(${hid++}) && h(${hid++}) ? 3 : 4`, String(i + 5), `(h(${hid++}) || h(${hid++}), 7)`, `((a, b = h(${hid++})) => { h(${hid++}, b); return 8; })()`]);
        if (used.has(s.start)) continue;
        let ts = [], js = [];
        const ms = ['A', 'B', 'C'].slice(0, a + 1).map((m, i) => [m, init(i)]);
        used.add(s.start);
        // const E = { A : 1 };   enum E { A = 1 }
        const head = (cst ? ['const enum E', 'const      E'] : ['enum  E', 'const E']);
        if (top && !ns && o.module && !cst && ch.chance(30)) out.push([s.start, 'export ', 't', '       ']);
        out.push([s.start, head[0] + n + ' { ', 'e', head[1] + n + '={ ']);
        ms.forEach(([m, i], j) => { out.push([s.start, `${m} = `, 'j', `${m} : `]); out.push([s.start, i + (j + 1 < ms.length ? ', ' : ' '), 'j', i + (j + 1 < ms.length ? ', ' : ' ')]); });
        out.push([s.start, '}  ', 'j', '}; ']);
        const use = `h(${hid++}, E${n}.A); `; out.push([s.start, use, 'j', use]);
        continue;
      }
      if (ns && s.type === 'VariableDeclaration' && s.declarations.every(d => d.id.type === 'Identifier') && ch.chance(30)) { put(s.start, 'export ', 'x'); continue; }
      if (ns && (s.type === 'FunctionDeclaration' || s.type === 'ClassDeclaration') && ch.chance(30)) { put(s.start, 'export '); continue; }
      const f = s.type === 'FunctionDeclaration' ? s : (s.type === 'ExportNamedDeclaration' || s.type === 'ExportDefaultDeclaration') && s.declaration && s.declaration.type === 'FunctionDeclaration' ? s.declaration : null;
      if (f && f.id && noComment(f.start)) maybe(10, () => put(s.start, `${f === s ? '' : s.type === 'ExportNamedDeclaration' ? 'export ' : 'export default '}function ${f.id.name}(${ch.of(['', 'a: any', 'a?: string, ...b: any[]'])})${ch.of([': void', ': any', ''])}; `));
      const c = s.type === 'ClassDeclaration' ? s : null;
      if (c && c.id) maybe(10, () => { if (put(c.start, 'abstract ')) c.abs = true; });
      if (ch.chance(dens / 12)) { const n = uid++; const ts = `abstract class AB${n} { abstract a(): void; static s: any; protected abstract p: string; b(x: string): void; b(x: any): void { h(9990); } declare q: 1; abstract get g(): any; constructor(a: any); constructor(a?: T) { } } `, js = ts.replace('abstract class', '         class').replace(/abstract a\(\): void;|protected abstract p: string;|b\(x: string\): void;|: void|declare q: 1;|abstract get g\(\): any;|constructor\(a: any\);|\?: T|: any/g, blank); if (!o.module && top && !ns || !put(s.start, ts, 't', js)) { } continue; }
      maybe(5, () => put(s.start, ch.of(top && !ns && ch.chance(50) ? topDecls() : decls()) + ch.of([' ', ' ', '\n'])));
      if (o.gen && top && s.type === 'BlockStatement' && plain(s)) maybe(70, () => { if (put(s.start, (o.module && !ns && ch.chance(25) ? 'export ' : '') + ch.of(['namespace NS', 'module NS', 'namespace NS']) + uid++ + ch.of([' ', ' ', '.M ', '.A.B ']))) s.ns = true; });
    }
  }
  function plain(b) { // nothing in it depends on being a block rather than a function
    let ok = !(b.body.length && b.body[0].type === 'ExpressionStatement' && b.body[0].expression.type === 'Literal');
    (function go(n, fn, lp) {
      if (!ok || !n || typeof n !== 'object') return;
      if (Array.isArray(n)) { for (const x of n) go(x, fn, lp); return; }
      if (typeof n.type !== 'string') return;
      if (/^(FunctionDeclaration|FunctionExpression)$/.test(n.type)) { for (const x of n.params) go(x, true, true); go(n.body, true, true); return; }
      if (!fn && /^(ReturnStatement|YieldExpression|AwaitExpression|ThisExpression|MetaProperty)$/.test(n.type) || n.type === 'ForOfStatement' && n.await && !fn || n.type === 'WithStatement') ok = false;
      if (n.type === 'Identifier' && n.name === 'arguments') ok = false;
      if (/^(Break|Continue)Statement$/.test(n.type) && (n.label || !lp)) ok = false;
      const l = lp || /^(For|While|Do|Switch)/.test(n.type);
      const f2 = fn || n.type === 'StaticBlock';
      for (const k in n) if (k !== 'type' && typeof n[k] === 'object') go(n[k], f2, l);
    })(b.body, false, false);
    return ok;
  }
  function cls(c) {
    const open = c.body.start;
    maybe(8, () => put(c.superClass ? c.superClass.end : c.id ? c.id.end : -1, c.superClass ? ch.of(['<any>', ' implements I']) : ch.of(['<T>', ' implements I, J<any>'])));
    if (!used.has(open) && c.body.body.length) maybe(15, () => { const p = c.body.start + 1; put(p, ' ' + ch.of(['declare y9: number;', '[k: string]: any;', 'readonly [k: number]: T;', 'm9(a: string): void; m9(a: any): void;'.slice(0, 0) || 'declare readonly z9: string;', 'private static u9?(): void;'.slice(0, 0) || 'declare static w9: any;'])); });
    if (c.abs && ch.chance(70)) { const p = c.body.end - 1, q = src.slice(c.body.start + 1, p).trim(); if (!q || /[};]$/.test(q)) put(p, ' ' + ch.of(['abstract am(): void; ', 'protected abstract ap: number; ', 'abstract get ag(): any; abstract set ag(v: any); ', 'abstract readonly ar: string; public abstract am(a?: T): Promise<any>; '])); }
    for (const m of c.body.body) {
      if (m.type === 'StaticBlock') continue;
      const priv = m.key.type === 'PrivateIdentifier';
      const ctor = m.kind === 'constructor';
      if (!priv) maybe(15, () => put(m.start, ch.of(['public ', 'private ', 'protected '])));
      if (m.type === 'PropertyDefinition') {
        if (m.computed || m.key.start !== m.start) { } else maybe(8, () => put(m.start, 'readonly '));
        const e = m.computed ? skip(m.key.end) + 1 : m.key.end;
        if (!m.computed) maybe(20, () => put(e, (m.value ? ': ' : ch.of([': ', priv ? ': ' : '?: ', priv ? ': ' : '!: '])) + ty()));
      } else {
        if (noComment(m.start) && !priv && !m.computed && (m.kind === 'method' || ctor)) maybe(10, () => put(m.start, `${m.static ? 'static ' : ''}${src.slice(m.key.start, m.key.end)}(${ch.of(['', 'a: any', 'a?: T'])})${ctor ? '' : ch.of([': void', ': any', ''])}; `));
        func(m.value, m.value.start, { ctor, setter: m.kind === 'set', accessor: m.kind !== 'method' && !ctor });
        if (ctor && o.gen && !c.superClass) for (const p of m.value.params) {
          const id = p.type === 'Identifier' ? p : p.type === 'AssignmentPattern' && p.left.type === 'Identifier' ? p.left : null;
          const b = m.value.body; if (!id || hinted.has(p.start) || used.has(p.start) || used.has(b.start + 1) || b.body.length && b.body[0].directive !== undefined) continue;
          const js = `this.${id.name}=${id.name};`;
          if (ch.chance(dens * 2)) { put(p.start, ch.of(['public ', 'private ', 'readonly ', 'public readonly '])); put(b.start + 1, blank(js), 'p', js); break; }
        }
      }
    }
  }
  (function walk(n, par, key, cond) {
    if (!n || typeof n !== 'object') return;
    if (Array.isArray(n)) { for (const x of n) walk(x, par, key, cond); return; }
    if (typeof n.type !== 'string') return;
    if (o.ts) switch (n.type) {
      case 'Program': list(n.body, true); break;
      case 'BlockStatement': if (par && !/Function|Arrow/.test(par.type)) list(n.body, !!n.ns, n.ns); else list(n.body); break;
      case 'StaticBlock': list(n.body); break;
      case 'SwitchCase': list(n.consequent); break;
      case 'FunctionDeclaration': func(n, n.id ? n.id.end : src.indexOf('(', n.start), {}); break;
      case 'FunctionExpression': if (par.type !== 'MethodDefinition' && !(par.type === 'Property' && (par.method || par.kind !== 'init'))) { if (n.id) func(n, n.id.end, {}); else { const q = src.indexOf('(', n.start); if (/^(async\s+)?function\s*\*?\s*$/.test(src.slice(n.start, q))) func(n, q, {}); } } break;
      case 'Property': if (par.type === 'ObjectExpression' && (n.method || n.kind !== 'init')) func(n.value, n.value.start, { setter: n.kind === 'set', accessor: n.kind !== 'init' }); break;
      case 'ArrowFunctionExpression': {
        const st = n.async ? skip(n.start + 5) : n.start;
        if (src[st] !== '(') break;
        params(n, true);
        const cp = closeParen(n, st + 1);
        if (cp >= 0 && !cond) maybe(20, () => put(cp + 1, ': ' + ch.of(['any', 'void', 'Promise<any>'])));
        if (!n.async && !hinted.has(n.start) || n.async) maybe(6, () => (n.async || free(st)) && put(st, o.jsx ? '<T,>' : '<T>'));
        break;
      }
      case 'ClassDeclaration': case 'ClassExpression': cls(n); break;
      case 'VariableDeclaration': {
        const head = par && /^For(In|Of)/.test(par.type) && key === 'left';
        for (const d of n.declarations) if (!head) maybe(20, () => put(d.id.end, (!d.init && n.kind !== 'const' && !par.type.startsWith('For') && d.id.type === 'Identifier' && ch.chance(30) ? '!: ' : ': ') + ty()));
        for (const d of n.declarations) if (d.init) asserted(d.init);
        break;
      }
      case 'CatchClause': if (n.param && n.param.type === 'Identifier') maybe(20, () => put(n.param.end, ch.of([': any', ': unknown']))); break;
      case 'CallExpression': case 'NewExpression':
        for (const a of n.arguments) asserted(a);
        if (n.callee.type === 'Identifier' && !n.optional && src[n.callee.end] === '(' && !(n.type === 'CallExpression' && n.callee.name === 'async')) maybe(6, () => put(n.callee.end, ch.of(['<any>', '<T, string[]>'])));
        break;
      case 'TaggedTemplateExpression': if (n.tag.type === 'Identifier') maybe(20, () => put(n.tag.end, '<any>')); break;
      case 'ParenthesizedExpression': asserted(n.expression); break;
      case 'ReturnStatement': case 'ThrowStatement': if (n.argument) asserted(n.argument); break;
      case 'ExpressionStatement': if (n.directive === undefined && n.expression.type === 'CallExpression') asserted(n.expression); break;
      case 'IfStatement': case 'WhileStatement': case 'DoWhileStatement': asserted(n.test); break;
      case 'SwitchStatement': asserted(n.discriminant); break;
      case 'LogicalExpression': case 'ConditionalExpression': case 'AssignmentPattern': break;
    }
    if (o.jsx) {
      if (n.type === 'CallExpression' || n.type === 'NewExpression') for (const a of n.arguments) jsx(a);
      else if (n.type === 'VariableDeclaration') { for (const d of n.declarations) if (d.init && d.id.type === 'Identifier' && !/^For/.test(par.type) && !/^f\d+[iw]\d+$/.test(d.id.name)) jsx(d.init); } // a loop's counter stays a number
      else if (n.type === 'ReturnStatement' && n.argument && src.slice(n.argument.start).indexOf('\n') !== 0) jsx(n.argument);
      else if (n.type === 'LogicalExpression') jsx(n.right);
      else if (n.type === 'ConditionalExpression') { jsx(n.consequent); }
    }
    const inCond = cond || n.type === 'ConditionalExpression';
    for (const k in n) if (k !== 'type' && k !== 'start' && k !== 'end' && n[k] && typeof n[k] === 'object') walk(n[k], n, k, inCond && !/Function|Block/.test(n.type) ? inCond : false);
  })(ast, null, '', false);
  const order = out.map((x, i) => [x, i]).filter(([x]) => x[0] >= 0).sort((a, b) => a[0][0] - b[0][0] || a[1] - b[1]).map(([x]) => x);
  let js = '', last = 0; const marks = [];
  for (const [at, ts, kind, j] of order) {
    if (ts.length !== j.length) throw new Error('dialect: ' + JSON.stringify([ts, j]));
    js += src.slice(last, at); last = at; marks.push([js.length, ts, kind]); js += j;
  }
  js += src.slice(last);
  return { js, marks, hid };
}
// the text that is compiled
function view(js, marks) {
  if (!marks || !marks.length) return js;
  let s = '', last = 0;
  for (const [at, t] of marks) { s += js.slice(last, at) + t; last = at + t.length; }
  return s + js.slice(last);
}
// positions that only differ by erased syntax and white space are the same
function normalizer(js) {
  const er = new Uint8Array(js.length + 1);
  for (let i = 0; i < js.length; i++) if (/\s/.test(js[i])) er[i] = 1;
  const starts = [0]; for (let i = 0; i < js.length; i++) if (js[i] === '\n') starts.push(i + 1);
  const str = (p) => { let lo = 0, hi = starts.length - 1; while (lo < hi) { const m = (lo + hi + 1) >> 1; if (starts[m] <= p) lo = m; else hi = m - 1; } return `${lo + 1}:${p - starts[lo]}`; };
  const at = (l, c) => l >= 1 && l <= starts.length ? starts[l - 1] + c : -1;
  return (t) => { // "l:c-l:c"
    const m = /^(\d+):(\d+)-(\d+):(\d+)$/.exec(t); if (!m) return t;
    let a = at(+m[1], +m[2]), b = at(+m[3], +m[4]); if (a < 0 || b < 0) return t;
    while (a < b && er[a]) a++; while (b > a && er[b - 1]) b--;
    return `${str(a)}-${str(b)}`;
  };
}
// a mark list after the text in [a, b) was replaced by n characters
function shift(marks, a, b, n) { const d = n - (b - a); return marks.filter(([at, t]) => at + t.length <= a || at >= b).map(([at, t, k]) => at >= b ? [at + d, t, k] : [at, t, k]); }
module.exports = { decorate, view, normalizer, shift, blank };
