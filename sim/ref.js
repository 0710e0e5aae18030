'use strict';
// Reference instrumenter, independent of the code under test: an acorn parse, a walk that decides which constructs
// have to be counted (and with which locations), and text insertions that count them. Used as the oracle for which
// entries a record must have and what each count must be at any instant.
const acorn = require('./vendor/acorn.js');
const HINT = /^\s*istanbul\s+ignore\s+(if|else|next)(?=\W|$)/;
const FILE = /^\s*istanbul\s+ignore\s+file(?=\W|$)/;

// o: {module, reportLogic, ignoreMethods, v: name of the counter object}
function instrument(src, o) {
  const comments = [];
  const ast = acorn.parse(src, { ecmaVersion: 'latest', sourceType: o.module ? 'module' : 'script', preserveParens: true, onComment: comments, allowAwaitOutsideFunction: false });
  const starts = [0];
  for (let i = 0; i < src.length; i++) if (src[i] === '\n') starts.push(i + 1);
  const pos = (p) => {
    let lo = 0, hi = starts.length - 1;
    while (lo < hi) { const m = (lo + hi + 1) >> 1; if (starts[m] <= p) lo = m; else hi = m - 1; }
    return `${lo + 1}:${p - starts[lo]}`;
  };
  const rng = (a, b) => `${pos(a)}-${pos(b)}`;
  const loc = (n) => rng(n.start, n.end);
  // position of the token a comment precedes -> first hint
  const hints = new Map();
  const cAt = new Map(comments.map(c => [c.start, c]));
  let fileHint = false;
  for (const c of comments) {
    let p = c.end;
    for (;;) { while (p < src.length && /\s/.test(src[p])) p++; const n = cAt.get(p); if (!n) break; p = n.end; }
    if (FILE.test(c.value) && (ast.body.length === 0 || c.end <= ast.body[0].start)) fileHint = true;
    const m = HINT.exec(c.value);
    if (m && !hints.has(p)) hints.set(p, m[1]);
  }
  const hint = (n) => hints.get(n.start);
  if (fileHint) return { code: src, s: [], f: [], b: [], none: true };

  const V = o.v, S = [], F = [], B = [];
  const open = new Map(), close = new Map();
  const op = (p, t) => { const a = open.get(p); if (a) a.push(t); else open.set(p, [t]); };
  const cl = (p, t) => { const a = close.get(p); if (a) a.push(t); else close.set(p, [t]); };
  const ctr = (k, i, a) => k === 's' ? `${V}.S(${i})` : k === 'f' ? `${V}.f[${i}]++` : `${V}.b[${i}][${a}]++`;
  const newS = (r) => S.push({ loc: r }) - 1;
  const newB = (type, n) => B.push({ type, loc: loc(n), arms: [] }) - 1;
  const arm = (b, r) => B[b].arms.push(r) - 1;
  const wrap = (n, c) => { op(n.start, `(${c}, `); return () => cl(n.end, ')'); };
  const peel = (n) => { while (n.type === 'ParenthesizedExpression' && !asserted(n)) n = n.expression; return n; };
  const ign = (name) => o.ignoreMethods.includes(name);
  const isNext = (n) => hint(n) === 'next';
  // what stands for syntax of another dialect: see dialect.js
  const stands = new Map(); for (const [at, t, k] of o.marks || []) if (k === 'e' || k === 'x' || k === 'p') stands.set(k === 'x' ? at + t.length : at, k);
  // before types are removed an asserted expression is an expression of its own kind
  const asFrom = new Set(), asTo = new Set(); if (o.first) for (const [at, t, k] of o.marks || []) if (k === 'a') { if (t[0] === '<') asFrom.add(at + t.length); else asTo.add(at); }
  const asserted = (n) => n.type !== 'ArrowFunctionExpression' && n.type !== 'LogicalExpression' && n.type !== 'ConditionalExpression' && (asFrom.has(n.start) || asTo.has(n.end));

  // functions ---------------------------------------------------------------------------------------------
  function func(fn, meta) { // params + body of a counted function
    const i = F.push({ loc: loc(fn.body), name: meta ? meta.name : undefined, decl: meta ? meta.decl : undefined }) - 1;
    for (const p of fn.params) visit(p);
    if (fn.body.type === 'BlockStatement') {
      body(fn.body, ctr('f', i));
    } else if (isNext(fn.body)) wrap(fn.body, ctr('f', i))();
    else {
      const s = newS(loc(fn.body));
      const done = wrap(fn.body, `${ctr('f', i)}, ${ctr('s', s)}`);
      visit(fn.body); done();
    }
  }
  function body(block, first) {
    let k = 0, at = block.start + 1;
    while (k < block.body.length && block.body[k].directive !== undefined) at = block.body[k++].end;
    op(at, `;${first};`);
    if (!isNext(block)) list(block.body.slice(k));
  }
  // statements --------------------------------------------------------------------------------------------
  function list(ss) { for (const s of ss) stmt(s, s.start); }
  // a statement that is not in a list: give it one
  function nested(s, pre, skip) {
    if (s.type === 'BlockStatement') { if (pre) op(s.start + 1, `${pre};`); if (!skip && !isNext(s)) list(s.body); return; }
    op(s.start, `{${pre ? pre + ';' : ''}`);
    if (!skip) stmt(s, s.start);
    cl(s.end, '}');
  }
  function count(n, anchor) { op(anchor, `;${ctr('s', newS(loc(n)))};`); }
  function stmt(s, anchor) {
    if (s.directive !== undefined && s.isDirective) return;
    if (isNext(s)) return;
    const as = stands.get(s.start);
    if (as === 'p') return;
    switch (s.type) {
      case 'FunctionDeclaration': func(s, { name: s.id && s.id.name, decl: s.id && loc(s.id) }); return;
      case 'ClassDeclaration': cls(s); return;
      case 'BlockStatement': list(s.body); return;
      case 'EmptyStatement': return;
      case 'VariableDeclaration':
        if (as === 'e') for (const v of s.declarations) visit(v.init);
        else if (as === 'x') { if (s.kind === 'const') count(s, anchor); varDecl(s, anchor, true); } else varDecl(s, anchor);
        return;
      case 'LabeledStatement': count(s, anchor); stmt(s.body, anchor); return;
      case 'ExpressionStatement': count(s, anchor); visit(s.expression); return;
      case 'ReturnStatement': case 'ThrowStatement': count(s, anchor); if (s.argument) visit(s.argument); return;
      case 'BreakStatement': case 'ContinueStatement': case 'DebuggerStatement': count(s, anchor); return;
      case 'WithStatement': count(s, anchor); visit(s.object); nested(s.body); return;
      case 'ForStatement': count(s, anchor);
        if (s.init) { if (s.init.type === 'VariableDeclaration') { if (!isNext(s.init)) varDecl(s.init, anchor); } else visit(s.init); }
        if (s.test) visit(s.test); if (s.update) visit(s.update); nested(s.body); return;
      case 'ForInStatement': case 'ForOfStatement': count(s, anchor);
        if (s.left.type === 'VariableDeclaration') { if (!isNext(s.left)) varDecl(s.left, anchor); } else visit(s.left);
        visit(s.right); nested(s.body); return;
      case 'WhileStatement': count(s, anchor); visit(s.test); nested(s.body); return;
      case 'DoWhileStatement': count(s, anchor); nested(s.body); visit(s.test); return;
      case 'TryStatement': count(s, anchor); if (!isNext(s.block)) list(s.block.body);
        if (s.handler) { if (s.handler.param) visit(s.handler.param); if (!isNext(s.handler.body)) list(s.handler.body.body); }
        if (s.finalizer && !isNext(s.finalizer)) list(s.finalizer.body); return;
      case 'IfStatement': return ifStmt(s, anchor);
      case 'SwitchStatement': return switchStmt(s, anchor);
      case 'ImportDeclaration': case 'ExportAllDeclaration': return;
      case 'ExportNamedDeclaration': return exportNamed(s, anchor);
      case 'ExportDefaultDeclaration': {
        const d = s.declaration;
        if (d.type === 'FunctionDeclaration') { if (d.id && ign(d.id.name)) return; func(d, d.id ? { name: d.id.name, decl: loc(d.id) } : null); } else if (d.type === 'ClassDeclaration') cls(d); else visit(d);
        return;
      }
      default: throw new Error('ref: statement ' + s.type);
    }
  }
  function ifStmt(s, anchor) {
    const h = hint(s);
    count(s, anchor);
    const b = newB('if', s), r = loc(s);
    visit(s.test);
    if (h !== 'if') nested(s.consequent, ctr('b', b, arm(b, r))); else nested(s.consequent, null, true);
    if (h !== 'else') {
      const c = ctr('b', b, arm(b, r));
      if (s.alternate) nested(s.alternate, c); else cl(s.consequent.end, ` else {${c}}`);
    } else if (s.alternate) nested(s.alternate, null, true);
  }
  function switchStmt(s, anchor) {
    count(s, anchor);
    const b = newB('switch', s);
    visit(s.discriminant);
    for (const c of s.cases) {
      if (isNext(c)) continue;
      const t = ctr('b', b, arm(b, loc(c)));
      if (c.test) visit(c.test);
      if (c.consequent.length) { op(c.consequent[0].start, `;${t};`); list(c.consequent); } else cl(c.end, ` ${t};`);
    }
  }
  function exportNamed(s, anchor) {
    const d = s.declaration; if (!d) return;
    if (d.type === 'VariableDeclaration') { if (d.kind === 'const') count(s, anchor); varDecl(d, anchor, true); }
    else if (d.type === 'FunctionDeclaration') func(d, { name: d.id.name, decl: loc(d.id) });
    else cls(d);
  }
  function varDecl(d, anchor, exported) {
    for (const v of d.declarations) {
      if (isNext(v)) continue;
      visit(v.id);
      if (!v.init) continue;
      const e = peel(v.init);
      if (asserted(e)) { const done = wrap(v.init, ctr('s', newS(loc(v.init)))); visit(v.init); done(); }
      else if (v.init.type === 'TaggedTemplateExpression') { count(v.init, anchor); visit(v.init); }
      else if (e.type === 'FunctionExpression' || e.type === 'ArrowFunctionExpression' || e.type === 'ClassExpression') {
        // `export const f = () => value` is counted as the export only
        if (!exported || hasBlock(e)) count(v.init, anchor);
        visit(v.init);
      } else { const done = wrap(v.init, ctr('s', newS(loc(v.init)))); visit(v.init); done(); }
    }
  }
  function hasBlock(n) {
    if (!n || typeof n !== 'object') return false;
    if (Array.isArray(n)) return n.some(hasBlock);
    if (n.type === 'BlockStatement' || n.type === 'StaticBlock') return true;
    for (const k in n) if (k !== 'type' && typeof n[k] === 'object' && hasBlock(n[k])) return true;
    return false;
  }
  // classes -----------------------------------------------------------------------------------------------
  function cls(c) {
    if (c.superClass) visit(c.superClass);
    for (const m of c.body.body) {
      if (m.type === 'StaticBlock') { list(m.body); continue; }
      if (isNext(m)) continue;
      if (m.type === 'PropertyDefinition') {
        if (m.computed) visit(m.key);
        if (m.value) { const done = wrap(m.value, ctr('s', newS(loc(m.value)))); visit(m.value); done(); }
      } else { // MethodDefinition
        if (m.kind === 'constructor') { if (ign('constructor')) continue; func(m.value, { name: 'constructor', decl: loc(m.key) }); continue; }
        if (m.key.type === 'PrivateIdentifier') { if (ign(m.key.name)) continue; func(m.value, { name: m.key.name }); continue; }
        method(m);
      }
    }
  }
  function method(m) {
    if (!m.computed && m.key.type === 'Identifier') { if (ign(m.key.name)) return; func(m.value, { name: m.key.name, decl: loc(m.key) }); }
    else { if (m.computed) visit(m.key); func(m.value, { key: m.kind === 'get' || m.kind === 'set' ? null : loc(m.key) }); }
  }
  // expressions -------------------------------------------------------------------------------------------
  function visit(n) {
    if (!n) return;
    switch (n.type) {
      case 'FunctionExpression':
        if (isNext(n) || (n.id && ign(n.id.name))) return;
        func(n, n.id ? { name: n.id.name, decl: loc(n.id) } : null); return;
      case 'ArrowFunctionExpression': if (!isNext(n)) func(n, null); return;
      case 'ClassExpression': cls(n); return;
      case 'ConditionalExpression': {
        if (isNext(n)) return;
        const b = newB('cond-expr', n);
        visit(n.test);
        for (const a of [n.consequent, n.alternate]) { if (isNext(a)) continue; const done = wrap(a, ctr('b', b, arm(b, loc(a)))); visit(a); done(); }
        return;
      }
      case 'BinaryExpression': if (isNext(n)) return; visit(n.left); visit(n.right); return;
      case 'LogicalExpression': {
        if (isNext(n)) return;
        const b = newB('binary-expr', n); B[b].t = o.reportLogic;
        const go = (e) => {
          if (isNext(e)) return;
          let x = e;
          while (x.type === 'ParenthesizedExpression' && !asserted(x)) { x = x.expression; if (isNext(x)) return; }
          if (x.type === 'LogicalExpression') { go(x.left); go(x.right); return; }
          const a = arm(b, loc(e));
          if (o.reportLogic) { op(e.start, `(${ctr('b', b, a)}, ${V}.T(${b}, ${a}, `); visit(e); cl(e.end, '))'); }
          else { const done = wrap(e, ctr('b', b, a)); visit(e); done(); }
        };
        go(n.left); go(n.right);
        return;
      }
      case 'AssignmentPattern': {
        if (isNext(n)) return;
        const b = newB('default-arg', n);
        visit(n.left);
        if (isNext(n.right)) return;
        const done = wrap(n.right, ctr('b', b, arm(b, loc(n.right)))); visit(n.right); done();
        return;
      }
      case 'TaggedTemplateExpression': if (isNext(n)) return; visit(n.tag); for (const e of n.quasi.expressions) visit(e); return;
      case 'ObjectExpression':
        for (const p of n.properties) {
          if (p.type === 'SpreadElement') { visit(p.argument); continue; }
          if (p.method || p.kind !== 'init') { if (!isNext(p)) method(p); continue; }
          if (p.computed) visit(p.key);
          visit(p.value);
        }
        return;
      case 'ObjectPattern':
        for (const p of n.properties) {
          if (p.type === 'RestElement') { visit(p.argument); continue; }
          if (p.computed) visit(p.key);
          visit(p.value);
        }
        return;
      case 'Identifier': case 'Literal': case 'ThisExpression': case 'Super': case 'MetaProperty': case 'PrivateIdentifier': case 'TemplateElement': return;
      case 'MemberExpression': visit(n.object); if (n.computed) visit(n.property); return;
      default:
        for (const k of Object.keys(n)) {
          if (k === 'type' || k === 'start' || k === 'end') continue;
          const c = n[k];
          if (Array.isArray(c)) { for (const e of c) if (e && e.type) visit(e); } else if (c && c.type) visit(c);
        }
    }
  }
  // program -----------------------------------------------------------------------------------------------
  let k = 0;
  let at = src.startsWith('#!') ? src.indexOf('\n') + 1 : 0;
  const at0 = at;
  while (k < ast.body.length && ast.body[k].directive !== undefined) at = ast.body[k++].end;
  // marks the instant the file's own code starts to run
  op(at, `${at > at0 ? ';' : ''}${o.pre || ''}${V}.on = 1;`);
  list(ast.body.slice(k));
  // branches without any arm have no entry
  let code = '', last = 0;
  const ps = [...new Set([...open.keys(), ...close.keys()])].sort((a, b) => a - b);
  for (const p of ps) { code += src.slice(last, p); last = p; const c = close.get(p), q = open.get(p); if (c) code += c.join(''); if (q) code += q.join(''); }
  code += src.slice(last);
  return { code, s: S, f: F, b: B };
}
module.exports = { instrument };
