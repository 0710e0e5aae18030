I = 'swc-coverage-instrument/src/'; O = 'istanbul-oxide/src/'
VIS = I + 'macros/instrumentation_visitor.rs'; CNT = I + 'macros/instrumentation_counter_helper.rs'
BUGS = []
def js(id, prop, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, js=demo, **k))
def ox(id, prop, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ox=demo, **k))

js('switch-case-scope', 'C01', [(I + 'visitors/switch_case_visitor.rs', """                let mut new_stmts = vec![expr];
                new_stmts.extend(switch_case.cons.drain(..));

                switch_case.cons = new_stmts;""", """                // keep the counter and what it counts together
                let mut new_stmts = vec![expr];
                new_stmts.extend(switch_case.cons.drain(..));

                switch_case.cons = match new_stmts.len() {
                    0 | 1 => new_stmts,
                    _ => vec![Stmt::Block(BlockStmt {
                        span: DUMMY_SP,
                        stmts: new_stmts,
                        ..Default::default()
                    })],
                };""")],
 "a let, const, class or function declared in one case of a switch and used in another one",
 "the cases of a switch no longer share one scope", r"""
const code = 'function f(v) { switch (v) { case 0: let a; case 1: a = 5; break; } return typeof a; }\nfunction g(v) { switch (v) { case 1: h(); break; case 2: function h() { log.push(v); } } }\ntry { f(0); g(1); } catch (e) { log.push(e.name); }\nlog.push(typeof a);';
const [r] = inst(code), c = realm({ log: [] });
c.run(r);
assert.deepStrictEqual([...c.log], [1, 'undefined']);
""")

js('nested-loop-unwrapped', 'C02', [(I + 'macros/visit_mut_for_like.rs', """                let body = if let Stmt::Block(body) = body {
                    body
                } else {
                    let stmts = vec![body];
                    BlockStmt {
                        span: swc_core::common::DUMMY_SP,
                        stmts,
                        ..Default::default()
                    }
                };

                $for_like_stmt.body = Box::new(Stmt::Block(body));""", """                // a loop as the body brings a block of its own
                let body = match body {
                    Stmt::Block(..) | Stmt::While(..) | Stmt::ForOf(..) => body,
                    _ => Stmt::Block(BlockStmt {
                        span: swc_core::common::DUMMY_SP,
                        stmts: vec![body],
                        ..Default::default()
                    }),
                };

                $for_like_stmt.body = Box::new(body);""")],
 "a while or for-of loop that is the whole body of another loop, without braces",
 "the inner loop statement is counted once per run of the outer loop instead of once per iteration", r"""
const code = 'for (var i = 0; i < 3; i++) for (var x of [1, 2]) n += x;\nn++;';
const [r] = inst(code), c = realm({ n: 0 });
c.run(r);
const s = stmts(code, c.cov());
assert.strictEqual(s['for (var x of [1, 2]) n += x;'], 3);
assert.strictEqual(s['n += x;'], 6);
""")

js('display-columns', 'C02', [(I + 'utils/lookup_range.rs', """        span_hi_loc.line as u32,
        span_hi_loc.col.0 as u32,""", """        span_hi_loc.line as u32,
        span_hi_loc.col_display as u32,""")],
 "a construct that ends after a tab or a wide character on its line",
 "the end column of the range is the width on a terminal, not the column", r"""
const code = "var a = '日本' + n; n = a;\n\tn = 1;";
const [r] = inst(code), c = realm({ n: 0 });
c.run(r);
const s = stmts(code, c.cov());
assert.strictEqual(s["'日本' + n"], 1);
assert.strictEqual(s["n = a;"], 1);
assert.strictEqual(s["n = 1;"], 1);
""")

js('break-label-counter', 'C02', [(VIS, """                _ => {
                    self.mark_prepend_stmt_counter(&break_stmt.span);
                }""", """                _ => {
                    // a break that ends a case is not a statement on its own
                    let in_case = self.nodes.iter().rev().find(|n| {
                        matches!(n, crate::Node::SwitchCase | crate::Node::ForStmt | crate::Node::WhileStmt | crate::Node::BlockStmt)
                    });
                    if in_case != Some(&crate::Node::SwitchCase) || break_stmt.label.is_none() {
                        self.mark_prepend_stmt_counter(&break_stmt.span);
                    }
                }""")],
 "a labelled break that leaves an outer loop out of a switch case",
 "that break statement has no counter", r"""
const code = 'o: for (;;) { n++; switch (n) { case 3: break o; default: break; } }';
const [r] = inst(code), c = realm({ n: 0 });
c.run(r);
const s = stmts(code, c.cov());
assert.strictEqual(s['break o;'], 1);
assert.strictEqual(s['break;'], 2);
""")

js('empty-body-fn', 'C03', [(CNT, """            match &mut function.body {
                Some(blockstmt) => {""", """            let is_generator = function.is_generator;
            // there can be nothing to run in there
            match function.body.as_mut().filter(|b| !b.stmts.is_empty() || !is_generator) {
                Some(blockstmt) => {"""), (CNT, """                    unimplemented!("Unable to process function body node type")""", "                    // noop")],
 "a generator with an empty body that is advanced", "its activations are not counted", r"""
const code = 'var o = { *m() {}, n() {} };\nfor (var x of o.m());\no.n();\nfunction* g() {}\ng(); [...g()];';
const [r] = inst(code), c = realm();
c.run(r);
const f = c.cov().f;
assert.deepStrictEqual(Object.values(f), [1, 1, 1]);
""")

js('accessor-key-fn', 'C03', [(VIS, """                        getter_prop.visit_mut_children_with(self);
                    }
                }
            }
            self.on_exit(old);""", """                        getter_prop.body.visit_mut_with(self);
                    }
                }
            }
            self.on_exit(old);""")],
 "a getter with a computed key that contains a function", "functions (and branches) in the key of the getter are not counted", r"""
const code = 'var o = { get [(function k() { return "a"; })()]() { return 1; } };\nn = o.a;';
const [r] = inst(code), c = realm({ n: 0 });
c.run(r);
const f = fns(code, c.cov());
assert.deepStrictEqual(f, { '{ return "a"; }': 1, '{ return 1; }': 1 });
""")

js('fallthrough-case', 'C04', [(I + 'visitors/switch_case_visitor.rs', """                let mut new_stmts = vec![expr];
                new_stmts.extend(switch_case.cons.drain(..));
""", """                // a case without statements falls through, the next one counts
                let mut new_stmts = if switch_case.cons.is_empty() && switch_case.test.is_some() {
                    vec![]
                } else {
                    vec![expr]
                };
                new_stmts.extend(switch_case.cons.drain(..));
""")],
 "a case without statements that is selected and falls through", "the arm of the empty case stays at zero", r"""
const code = 'function f(v) { switch (v) { case 0: case 1: return 1; default: } }\nf(0); f(0); f(1);';
const [r] = inst(code), c = realm();
c.run(r);
assert.deepStrictEqual(branches(code, c.cov())[0][2], [2, 3, 0]);
""")

js('else-if-arm', 'C04', [(VIS, """                        if let Some(alt) = &mut if_stmt.alt {
                            wrap_with_counter(alt);
                        } else {""", """                        if let Some(alt) = &mut if_stmt.alt {
                            match &**alt {
                                Stmt::Empty(..) => self.cov.borrow_mut().add_branch_path(branch, &range),
                                _ => {
                                    wrap_with_counter(alt);
                                    0
                                }
                            };
                        } else {""")],
 "an if whose else is an empty statement", "taking the else is not counted", r"""
const code = 'function f(v) { if (v) n++; else ; }\nf(0); f(1); f(0);';
const [r] = inst(code), c = realm({ n: 0 });
c.run(r);
assert.deepStrictEqual(branches(code, c.cov())[0][2], [1, 2]);
""")

js('logical-temp-read', 'C05', [(I + 'instrument/create_increase_true_expr.rs', """            Box::new(assignment),
            Box::new(paren),
            Box::new(Expr::Member(member)),""", """            Box::new(assignment.clone()),
            Box::new(paren),
            // a literal or a name is the value already
            Box::new(match assignment {
                Expr::Assign(AssignExpr { right, .. }) if right.is_ident() || right.is_lit() => *right,
                _ => Expr::Member(member),
            }),""")],
 "an operand that is a name bound to a getter of the global object (or of a with object), or a regular expression literal",
 "the operand is evaluated twice with logic reporting enabled", r"""
const code = 'var a = n || 0; with (o) { a = v && a; }';
const vmm = require('vm');
const [r] = inst({ code, options: { reportLogic: true } }), c = realm({ n: 0, calls: [] });
vmm.runInContext('var o = { get v() { calls.push(1); return 1; } }', c);
c.run(r);
assert.strictEqual(c.calls.length, 1);
""")

js('truthy-sparse', 'C05', [(I + 'instrument/create_increase_true_expr.rs', """                op: BinaryOp::NotEqEq,""", """                op: BinaryOp::NotEq,""")],
 "nothing: equivalent", "nothing", "") if False else None

js('truthy-array-only', 'C05', [(I + 'instrument/create_increase_true_expr.rs', """    let right = Expr::Bin(BinExpr {
        op: BinaryOp::LogicalAnd,
        left: Box::new(left_for_right),""", """    let right = Expr::Bin(BinExpr {
        op: BinaryOp::LogicalOr,
        left: Box::new(left_for_right),""")],
 "an operand that evaluates to an empty plain object or an empty array", "those count as truthy", r"""
const code = 'var f = (x) => x && 1; f({}); f([]); f([0]); f({ a: 0 }); f(1); f(0);';
const [r] = inst({ code, options: { reportLogic: true } }), c = realm();
c.run(r);
assert.deepStrictEqual(branches(code, c.cov())[0].slice(2), [[6, 5], [3, 5]]);
""")

js('ignore-scope-leak', 'C06', [(I + 'macros/create_instrumentation_visitor.rs', """                    Some(crate::hint_comments::IgnoreScope::Next) => old,
                    _ => {
                        self.should_ignore = crate""", """                    Some(scope)
                        if scope == crate::hint_comments::IgnoreScope::Next
                            || span.map_or(false, |span| !self.comments.has_leading(span.lo)) =>
                    {
                        old
                    }
                    _ => {
                        self.should_ignore = crate""")],
 "an if inside of an if that has an `ignore if` or `ignore else` hint", "the hint also removes the arm of the inner if", r"""
const code = '/* istanbul ignore else */ if (n) { if (n > 1) { n = 5; } else { n = 7; } n++; }';
const [r] = inst(code), c = realm({ n: 1 });
c.run(r);
const b = branches(code, c.cov());
assert.deepStrictEqual(b.map(x => x[2]), [[1], [0, 1]]);
""")

js('ignore-methods-prefix', 'C06', [(VIS, """                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.as_str() == &*ident.sym);

                        if !should_ignore_via_options {
                            self.create_fn_instrumentation(
                                &Some(&ident.clone().into()),
                                &mut method_prop.function,
                            );""", """                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.eq_ignore_ascii_case(&ident.sym));

                        if !should_ignore_via_options {
                            self.create_fn_instrumentation(
                                &Some(&ident.clone().into()),
                                &mut method_prop.function,
                            );""")],
 "an ignored method name and an object method whose name differs from it in case only", "that method is not counted", r"""
const code = 'var o = { foo() { n++; }, Foo() { n++; } }; o.foo(); o.Foo();';
const [r] = inst({ code, options: { ignoreClassMethods: ['foo'] } }), c = realm({ n: 0 });
c.run(r);
assert.deepStrictEqual(Object.values(c.cov().f), [1]);
""")

js('hint-after-block', 'C06', [(I + 'utils/hint_comments.rs', """            let h_value = h.iter().find_map(|c| {""", """            let h_value = h.iter().chain(l.iter().flatten()).find_map(|c| {""" ), (I + 'utils/hint_comments.rs', """            if let Some(h_value) = h_value {
                return Some(h_value);
            }""", """            return h_value;""")] if False else [(I + 'utils/hint_comments.rs', """            "else" => Some(IgnoreScope::Else),
            _ => None,""", """            "else" => Some(IgnoreScope::Else).filter(|_| {
                // an arm does not start a construct of its own
                span.map_or(false, |span| span.hi.0 - span.lo.0 > 24)
            }),
            _ => None,""")],
 "an `ignore else` hint on a short if statement", "the else arm is counted although it is ignored", r"""
const code = '/* istanbul ignore else */ if (n) n++; else n--;\n/* istanbul ignore else */ if (n) { n += 100; n += 200; } else { n -= 5; }';
const [r] = inst(code), c = realm({ n: 1 });
c.run(r);
const b = branches(code, c.cov());
assert.deepStrictEqual(b.map(x => x[2]), [[1], [1]]);
""")

js('similar-names', 'C07', [(I + 'coverage_template/create_coverage_fn_decl.rs', """    value.hash(&mut s);""", """    // paths are the same on any platform
    value.replace('\\\\', "/").trim_start_matches("./").hash(&mut s);""")],
 "two files in one realm whose names differ in the kind of separator or in a leading ./ only", "the counters of the file loaded first go to the record of the other one", r"""
const code = 'function NAME() { n++; }';
const [a, b] = inst({ code: code.replace('NAME', 'a'), filename: 'd/x.js' }, { code: code.replace('NAME', 'b'), filename: './d/x.js' }), c = realm({ n: 0 });
c.run(a); c.run(b);
c.run({ code: 'a(); a(); b();' });
assert.deepStrictEqual([c.cov('d/x.js').f[0], c.cov('./d/x.js').f[0]], [2, 1]);
""")

js('hash-of-statements', 'C08', [(I + 'coverage_template/create_coverage_fn_decl.rs', """if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {""", """if (!$coverage[$path] || ($coverage[$path].$hash !== $hash && Object.keys($coverage[$path].s).length !== Object.keys($coverage_data.s).length)) {""")],
 "loading a changed version of a file that has as many statements as the old one", "the changed version continues the record of the old one", r"""
const v1 = 'n = 1;\nn = 2;', v2 = 'n = 1;\n\n\nn = o ? 3 : 4;';
const [a, b] = inst(v1, v2), c = realm({ n: 0, o: 1 });
c.run(a);
let err = null;
try { c.run(b); } catch (e) { err = e.name; }
assert.strictEqual(err, null);
assert.deepStrictEqual(stmts(v2, c.cov()), { 'n = 1;': 1, 'n = o ? 3 : 4;': 1 });
""")

js('foreign-records', 'C08', [(I + 'coverage_template/create_coverage_fn_decl.rs', """        "var $coverage = $global[$gcv] || ($global[$gcv] = {})" as Stmt,""", """        "var $coverage = Object($global[$gcv]) === $global[$gcv] && Object.getPrototypeOf($global[$gcv]) ? $global[$gcv] : ($global[$gcv] = {})" as Stmt,""")],
 "a coverage variable that already holds an object without a prototype", "the records in it are dropped", r"""
const [r] = inst('n++;'), c = realm({ n: 0 });
c.run({ code: 'var __coverage__ = Object.create(null); __coverage__.other = { path: "other" };' });
c.run(r);
assert.strictEqual(c.cov('other').path, 'other');
assert.strictEqual(c.cov().s[0], 1);
""")

js('prune-by-index', 'C09', [(I + 'source_coverage/mod.rs', """                branches.swap_remove_entry(key);
                if let Some(branches_t)""", """                branches.swap_remove_index(*key as usize);
                if let Some(branches_t)""")],
 "two switch statements without cases in one file", "hit counts are kept for a branch that is not in the map", r"""
const code = 'switch (n) {}\nif (n) m;\nswitch (m) {}';
const [r] = inst(code), c = realm({ n: 0, m: 0 });
c.run(r);
const v = c.cov();
assert.deepStrictEqual(Object.keys(v.b), Object.keys(v.branchMap));
""")

js('empty-source-content', 'C09', [(I + 'coverage_template/create_coverage_data_object.rs', """                                expr: Box::new(Expr::Lit(if let Some(v) = v {""", """                                expr: Box::new(Expr::Lit(if let Some(v) = v.as_ref().filter(|v| !v.is_empty()) {"""), (I + 'coverage_template/create_coverage_data_object.rs', "                                    Lit::Str(Str::from(v.as_ref()))", "                                    Lit::Str(Str::from(v.as_str()))")],
 "an input source map with an empty file among its contents", "the empty content is published as null", r"""
const m = { version: 3, sources: ['a', 'b'], sourcesContent: ['', null], names: [], mappings: '' };
const [r] = inst({ code: 'n++;', options: { inputSourceMap: m } }), c = realm({ n: 0 });
c.run(r);
assert.deepStrictEqual(c.cov().inputSourceMap, m);
""")

js('anonymous-count', 'C10', [(I + 'source_coverage/mod.rs', """            format!("(anonymous_{})", f)""", """            static LAST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
            if f == 0 {
                LAST.store(0, std::sync::atomic::Ordering::Relaxed);
            }
            let last = LAST.fetch_max(f, std::sync::atomic::Ordering::Relaxed);
            format!("(anonymous_{})", last.max(f))""")],
 "two files with anonymous functions being instrumented at the same time, or a file whose first function is named after a file with more functions", "names of anonymous functions depend on what else the process instruments", r"""
const a = { code: 'function a() {}\nvar x = () => 1;', filename: 'a.js' };
const b = { code: 'x = () => 1; x = () => 2; x = () => 3; x = () => 4;', filename: 'b.js' };
assert.strictEqual(inst(b, a)[1].code, inst(a)[0].code);
""")

js('hint-cache', 'C10', [(I + 'utils/hint_comments.rs', """    if let Some(span) = span {
        let h = comments.get_leading(span.hi);
        let l = comments.get_leading(span.lo);
""", """    // most of the positions do not have a comment at all
    thread_local!(static NONE: std::cell::RefCell<std::collections::HashSet<(u32, u32)>> = Default::default());

    let known = |span: &&Span| NONE.with(|none| none.borrow().contains(&(span.lo.0, span.hi.0)));
    if let Some(span) = span.filter(|span| span.hi.0 - span.lo.0 < 8 || !known(span)) {
        let h = comments.get_leading(span.hi);
        let l = comments.get_leading(span.lo);
        if h.is_none() && l.is_none() {
            NONE.with(|none| none.borrow_mut().insert((span.lo.0, span.hi.0)));
        }
""")],
 "a file with a hint at a position where a file instrumented before by the same thread has a construct without a comment", "the hint is not seen, the output depends on the history of the process", r"""
const a = { code: '/* istanbul ignore next */ function f() { n++; }', filename: 'a.js' };
const b = { code: '/*          ignored next */ function f() { n++; }'.replace(/\/\*.*\*\//, m => ' '.repeat(m.length)), filename: 'b.js' };
const alone = '/* istanbul ignore next */ function f() { n++; }'.length;
b.code = ' '.repeat(27) + 'function f() { n++; }';
assert.strictEqual(inst(b, a)[1].code, inst(a)[0].code);
""")

OXH = r"""
use istanbul_oxide::*;
use istanbul_oxide::types::*;
#[allow(dead_code)]
fn r(a: u32, b: u32, c: u32, d: u32) -> Range { Range::new(a, b, c, d) }
#[allow(dead_code)]
fn file(p: &str, st: &[(Range, u32)]) -> FileCoverage {
    let mut f = FileCoverage::empty(p.to_string(), false);
    for (i, (l, h)) in st.iter().enumerate() { f.statement_map.insert(i as u32, *l); f.s.insert(i as u32, *h); }
    f
}
#[allow(dead_code)]
fn branch(f: &mut FileCoverage, b: Branch, h: &[u32]) { let i = f.b.len() as u32; f.branch_map.insert(i, b); f.b.insert(i, h.to_vec()); }
#[allow(dead_code)]
fn hits(f: &FileCoverage, l: Range) -> Vec<u32> { f.statement_map.iter().filter(|x| *x.1 == l).map(|x| f.s[x.0]).collect() }
"""
ox('location-end', 'C11', [(O + 'file_coverage.rs', """        "{}|{}|{}|{}",
        range.start.line, range.start.column, range.end.line, range.end.column""", """        "{}|{}|{}",
        range.start.line, range.start.column, range.end.line""")],
 "two locations that start at one place and end on one line", "their hits are added up into one entry", OXH + r"""
fn main() {
    let a = file("a", &[(r(1, 0, 1, 9), 1), (r(1, 0, 1, 20), 2)]);
    let mut m = CoverageMap::new();
    m.add_coverage_for_file(&a); m.add_coverage_for_file(&a);
    let f = m.get_coverage_for_file("a").unwrap();
    assert_eq!(hits(f, r(1, 0, 1, 9)), [2]);
    assert_eq!(hits(f, r(1, 0, 1, 20)), [4]);
}
""")

ox('same-report-twice', 'C11', [(O + 'coverage_map.rs', """        if let Some(value) = self.inner.get_mut(coverage.path.as_str()) {
            value.merge(coverage);
        } else {""", """        if let Some(value) = self.inner.get_mut(coverage.path.as_str()) {
            // nothing new in there
            if value != coverage {
                value.merge(coverage);
            }
        } else {""")],
 "a delivered report that equals what the collector holds for the file, i.e. two workers that did the same", "the hits of the second one are lost", OXH + r"""
fn main() {
    let a = file("a", &[(r(1, 0, 1, 9), 3)]);
    let mut m = CoverageMap::new();
    m.add_coverage_for_file(&a); m.add_coverage_for_file(&a);
    assert_eq!(hits(m.get_coverage_for_file("a").unwrap(), r(1, 0, 1, 9)), [6]);
}
""")

ox('arms-resize', 'C11', [(O + 'file_coverage.rs', """                if pair.0.len() < item_hits.len() {
                    pair.0.resize(item_hits.len(), 0);
                }

                for (h, hits) in item_hits.iter().enumerate() {
                    pair""", """                for (h, hits) in item_hits.iter().enumerate().take(std::cmp::max(8, pair.1.locations.len() - 1)) {
                    pair""")],
 "a branch with more than eight paths, merged", "hits of its last path are lost", OXH + r"""
fn main() {
    let mut a = file("a", &[]);
    let ls: Vec<Range> = (0..12).map(|i| r(2 + i, 0, 2 + i, 5)).collect();
    branch(&mut a, Branch::from_loc(BranchType::Switch, r(1, 0, 20, 0), ls), &[1; 12]);
    let mut m = CoverageMap::new();
    m.add_coverage_for_file(&a); m.add_coverage_for_file(&a);
    assert_eq!(m.get_coverage_for_file("a").unwrap().b[0], vec![2; 12]);
}
""")

ox('placeholder-order', 'C12', [(O + 'file_coverage.rs', """        if self.all {
            *self = coverage.clone();
            return;
        }""", """        if self.all {
            *self = FileCoverage {
                all: coverage.s.values().chain(coverage.f.values()).all(|hits| *hits == 0),
                ..coverage.clone()
            };
            return;
        }""")],
 "a placeholder report, then a real one of a worker that did not run anything, then others", "what is in the collector depends on the order: the locations of the idle worker are dropped", OXH + r"""
fn main() {
    let mut p = file("a", &[(r(1, 0, 1, 9), 0)]); p.all = true;
    let idle = file("a", &[(r(1, 0, 1, 9), 0), (r(7, 0, 7, 1), 0)]);
    let ran = file("a", &[(r(1, 0, 1, 9), 1)]);
    let a = CoverageMap::from_iter([&p, &idle, &ran]);
    let b = CoverageMap::from_iter([&ran, &idle, &p]);
    let (a, b) = (a.get_coverage_for_file("a").unwrap(), b.get_coverage_for_file("a").unwrap());
    assert_eq!(a.all, b.all);
    assert_eq!(hits(a, r(7, 0, 7, 1)), hits(b, r(7, 0, 7, 1)));
}
""")

ox('truthiness-first-side', 'C13', [(O + 'file_coverage.rs', """    /// Merges a second coverage object into this one, updating hit counts
    pub fn merge(&mut self, coverage: &FileCoverage) {
        if coverage.all {
            return;
        }
""", """    /// Merges a second coverage object into this one, updating hit counts
    pub fn merge(&mut self, coverage: &FileCoverage) {
        if coverage.all || (coverage.s.is_empty() && coverage.f.is_empty() && self.b_t.is_none()) {
            return;
        }
""")] ,
 "a report that has branches and truthiness data but neither statements nor functions, delivered to an aggregate without truthiness data", "its truthiness (and branch) counts are lost", OXH + r"""
fn main() {
    let mut a = file("a", &[(r(1, 0, 1, 9), 1)]);
    let mut b = file("a", &[]);
    let br = Branch::from_loc(BranchType::BinaryExpr, r(1, 0, 1, 8), vec![r(1, 0, 1, 2), r(1, 5, 1, 8)]);
    branch(&mut b, br, &[3, 2]);
    b.b_t = Some([(0u32, vec![1u32, 2])].into_iter().collect());
    a.merge(&b);
    let t = a.b_t.clone().expect("truthiness");
    assert_eq!(t[0], [1, 2]);
}
""")

ox('filter-by-key', 'C14', [(O + 'coverage_map.rs', """                filtered.insert(coverage.path.clone(), coverage);""", """                filtered
                    .entry(coverage.path.replace('\\\\', "/"))
                    .and_modify(|value: &mut FileCoverage| value.merge(&coverage))
                    .or_insert(coverage);""")],
 "filtering a collector that has a file with a backslash in its path", "the record is filed under another key, or merged into another file", OXH + r"""
fn main() {
    let a = file("d\\a.js", &[(r(1, 0, 1, 9), 1)]);
    let mut m = CoverageMap::from_iter([&a]);
    m.filter(|_| true);
    assert!(m.get_coverage_for_file("d\\a.js").is_some());
}
""")

ox('branch-line-of-loc', 'C15', [(O + 'file_coverage.rs', """                map.loc.expect("Either line or loc should exist").start.line""", """                map.locations
                    .first()
                    .or(map.loc.as_ref())
                    .expect("Either line or loc should exist")
                    .start
                    .line""")],
 "a branch that has a location but no line, and whose first path starts on a later line", "its paths are reported under another line", OXH + r"""
fn main() {
    let mut a = file("a", &[]);
    branch(&mut a, Branch::from_loc(BranchType::Switch, r(3, 0, 9, 0), vec![r(4, 0, 4, 5), r(5, 0, 5, 5)]), &[1, 0]);
    let c = a.get_branch_coverage_by_line();
    assert_eq!(c.keys().copied().collect::<Vec<u32>>(), [3]);
}
""")

ox('summary-pct', 'C15', [(O + 'coverage_summary.rs', """        self.functions.total += summary.functions.total;
        self.functions.covered += summary.functions.covered;
        self.functions.skipped += summary.functions.skipped;
        self.functions.pct =
            CoveragePercentage::Value(percent(self.functions.covered, self.functions.total));
""", """        if summary.functions.total > 0 {
            self.functions.total += summary.functions.total;
            self.functions.covered += summary.functions.covered;
            self.functions.skipped += summary.functions.skipped;
        } else if summary.statements.total > 0 {
            // file without a function
            self.functions.pct =
                CoveragePercentage::Value(percent(self.functions.covered, self.functions.total));
            self.functions.skipped += summary.functions.skipped;
            return self.merge_branches(summary);
        }
        self.functions.pct =
            CoveragePercentage::Value(percent(self.functions.covered, self.functions.total));
        self.merge_branches(summary);
    }

    fn merge_branches(&mut self, summary: &CoverageSummary) {
        if summary.lines.total == 0 {
            return;
        }
""")],
 "a file that has branches but no statement among the files of a summary", "its branches are not part of the overall summary", OXH + r"""
fn main() {
    let mut a = file("a", &[]);
    branch(&mut a, Branch::from_line(BranchType::If, 3, vec![r(4, 0, 4, 5), r(5, 0, 5, 5)]), &[1, 0]);
    let m = CoverageMap::from_iter([&a]);
    let s = m.get_coverage_summary();
    let (_, _, _, b, _) = s.dst_totals();
    assert_eq!((b.total, b.covered), (2, 1));
}
""")

ox('line-keep-first', 'C15', [(O + 'file_coverage.rs', """                Some(pre_val) if pre_val < count => {""", """                Some(pre_val) if *pre_val == 0 || *pre_val < count / 2 => {""")],
 "two statements of one line whose hits are close together, fewer first", "the hits of the line are those of the first one instead of the highest", OXH + r"""
fn main() {
    let a = file("a", &[(r(1, 0, 1, 9), 4), (r(1, 10, 1, 20), 5)]);
    assert_eq!(a.get_line_coverage()[&1], 5);
}
""")

ox('line-of-branch-lost', 'C16', [(O + 'types.rs', """pub struct Branch {
    pub loc: Option<Range>,""", """pub struct Branch {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub loc: Option<Range>,"""), (O + 'types.rs', """    pub locations: Vec<Range>,
    pub line: Option<u32>,
}

impl Branch {
    pub fn from_line""", """    pub locations: Vec<Range>,
    #[serde(default, skip_serializing_if = "no_line")] pub line: Option<u32>,
}

fn no_line(line: &Option<u32>) -> bool {
    line.unwrap_or_default() == 0
}

impl Branch {
    pub fn from_line""")],
 "a branch at line 0 (a position that could not be resolved) in a saved record", "the line does not come back", OXH + r"""
fn main() {
    let mut a = file("a", &[]);
    branch(&mut a, Branch::from_line(BranchType::If, 0, vec![r(0, 0, 0, 0)]), &[1]);
    let b: FileCoverage = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
    assert_eq!(a, b);
}
""")

ox('half-record', 'C16', [(O + 'file_coverage.rs', """#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FileCoverage {""", """#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", from = "Loaded")]
pub struct FileCoverage {"""), (O + 'file_coverage.rs', """impl FileCoverage {
    pub fn empty(""", """#[derive(Deserialize)]
#[serde(rename_all = "camelCase")]
struct Loaded {
    #[serde(default)]
    all: bool,
    path: String,
    statement_map: StatementMap,
    fn_map: FunctionMap,
    branch_map: BranchMap,
    s: LineHitMap,
    f: LineHitMap,
    b: BranchHitMap,
    b_t: Option<BranchHitMap>,
    input_source_map: Option<SourceMap>,
}

impl From<Loaded> for FileCoverage {
    fn from(mut v: Loaded) -> FileCoverage {
        v.s.sort_keys();
        v.b.sort_keys();
        FileCoverage {
            all: v.all,
            path: v.path,
            statement_map: v.statement_map,
            fn_map: v.fn_map,
            branch_map: v.branch_map,
            s: v.s,
            f: v.f,
            b_t: v.b_t.filter(|t| t.len() == v.b.len() || t.len() > 0),
            b: v.b,
            input_source_map: v.input_source_map,
        }
    }
}

impl FileCoverage {
    pub fn empty(""")],
 "logic reporting, a record without a logical expression and with a branch of another kind, saved and restored", "the empty truthiness table is gone: the restored collector answers differently", OXH + r"""
fn main() {
    let mut a = file("a", &[(r(1, 0, 1, 9), 1)]);
    branch(&mut a, Branch::from_line(BranchType::If, 1, vec![r(1, 0, 1, 5)]), &[1]);
    a.b_t = Some(Default::default());
    let b: FileCoverage = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
    assert_eq!(a, b);
}
""")

ox('reset-first-arm', 'C17', [(O + 'file_coverage.rs', """        for val in self.b.values_mut() {
            val.iter_mut().for_each(|x| *x = 0);
        }
""", """        for (id, val) in self.b.iter_mut() {
            if self.branch_map.get(id).map_or(false, |branch| branch.locations.len() == val.len()) {
                val.iter_mut().for_each(|x| *x = 0);
            } else {
                *val = vec![];
            }
        }
""")] if False else [(O + 'file_coverage.rs', """                val.iter_mut().for_each(|x| *x = 0);
            }
        }
    }

    pub fn to_summary""", """                val.iter_mut().for_each(|x| *x = 0);
            }
            branches_true.retain(|id, _| self.b.get(id).map_or(false, |paths| paths.len() > 1));
        }
    }

    pub fn to_summary""")],
 "nothing", "nothing", "fn main() {}") if False else None

ox('reset-saturated', 'C17', [(O + 'file_coverage.rs', """        for val in self.f.values_mut() {
            *val = 0;
        }
""", """        for val in self.f.values_mut().filter(|val| **val < u32::MAX) {
            *val = 0;
        }
""")],
 "a record with a saturated function count that is reset", "that count stays", OXH + r"""
fn main() {
    let mut a = file("a", &[]);
    a.fn_map.insert(0, Function { name: "f".into(), decl: r(1, 0, 1, 1), loc: r(1, 2, 1, 9), line: 1 });
    a.f.insert(0, u32::MAX);
    a.reset_hits();
    assert_eq!(a.f[0], 0);
}
""")

ox('reset-truthiness', 'C17', [(O + 'file_coverage.rs', """        if let Some(branches_true) = &mut self.b_t {
            for val in branches_true.values_mut() {
                val.iter_mut().for_each(|x| *x = 0);
            }
        }
    }""", """        if let Some(branches_true) = &mut self.b_t {
            for (val, paths) in branches_true.values_mut().zip(self.b.values()) {
                val.iter_mut().zip(paths).for_each(|(x, _)| *x = 0);
            }
        }
    }""")],
 "logic reporting and a reset of a record in which a branch with fewer paths comes before a logical one", "truthiness counts of some operands survive the reset", OXH + r"""
fn main() {
    let mut a = file("a", &[]);
    branch(&mut a, Branch::from_line(BranchType::DefaultArg, 1, vec![r(1, 0, 1, 2)]), &[1]);
    branch(&mut a, Branch::from_line(BranchType::BinaryExpr, 2, vec![r(2, 0, 2, 2), r(2, 5, 2, 8)]), &[1, 1]);
    a.b_t = Some([(1u32, vec![1u32, 1])].into_iter().collect());
    a.reset_hits();
    assert_eq!(a.b_t.unwrap()[&1], [0, 0]);
}
""")

js('debug-without-map', 'C19', [(I + 'coverage_template/create_coverage_fn_decl.rs', """    if attach_debug_comment {
        //""", """    // contents of the sources are in the record that is published
    let mut initial = coverage_data.clone();
    if let Some(map) = &mut initial.input_source_map {
        if map.sources.len() > 1 {
            map.sources_content = None;
        }
    }

    if let (true, coverage_data) = (attach_debug_comment, &initial) {
        //""")],
 "an input source map with the contents of several sources, and the initial record requested", "the reported record lacks the contents the published one has", r"""
const m = { version: 3, sources: ['a', 'b'], sourcesContent: ['x', null], names: [], mappings: '' };
const [r] = inst({ code: 'n++;', options: { inputSourceMap: m, debugInitialCoverageComment: true } }), c = realm({ n: 0 });
c.run(r);
const d = JSON.parse(r.debug[0]);
assert.deepStrictEqual(d.inputSourceMap, c.cov().inputSourceMap);
""")

js('fn-line-of-body', 'C19', [(I + 'coverage_template/create_coverage_data_object.rs', """                create_ident_key_value_prop(&IDENT_LINE, create_num_lit_expr(value.line)),
            ],""", """                create_ident_key_value_prop(&IDENT_LINE, create_num_lit_expr(value.decl.start.line)),
            ],""")],
 "a function whose name and body are on different lines", "the published line of the function differs from the reported one", r"""
const code = 'function f(a,\n b)\n{ n++; }\nf();';
const [r] = inst({ code, options: { debugInitialCoverageComment: true } }), c = realm({ n: 0 });
c.run(r);
assert.deepStrictEqual(JSON.parse(r.debug[0]).fnMap, c.cov().fnMap);
""")

PL = 'swc-plugin-coverage/src/lib.rs'
def wa(id, prop, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, wa=demo, **k))

wa('mixed-separators', 'C20', [(PL, """                let normalized_filename = normalize_path(filename);
                if p.is_match(""", """                // most hosts hand over names in the form patterns have
                let normalized_filename = if filename.contains('/') {
                    filename.to_string()
                } else {
                    normalize_path(filename)
                };
                if p.is_match(""")],
 "a file name with both kinds of separators", "an excluded file is instrumented", r"""
for (const file of ['src/test/a.js', 'src\\test\\a.js', 'src/test\\a.js', 'src\\test/a.js']) assert(plugin({ config: '{"unstableExclude":["src/test/*.js"]}', file }).same, file);
""")

wa('good-patterns-of-bad-list', 'C20', [(PL, """        let normalized_patterns = exclude
            .iter()
            .map(|s| normalize_path(s))
            .collect::<Vec<_>>();
""", """        // a pattern that cannot be read is no reason to give up the others
        let normalized_patterns = exclude
            .iter()
            .filter_map(|s| Some(normalize_path(s)).filter(|s| wax::Glob::new(s).is_ok()))
            .collect::<Vec<_>>();
""")],
 "a malformed pattern next to one that matches the file", "a malformed list excludes the file", r"""
assert(plugin({ config: '{"unstableExclude":["**/a.js"]}', file: 'src/a.js' }).same);
assert(!plugin({ config: '{"unstableExclude":["[x","**/a.js"]}', file: 'src/a.js' }).same);
""")

wa('exclude-in-root', 'C20', [(PL, """        let normalized_patterns = exclude
            .iter()
            .map(|s| normalize_path(s))
            .collect::<Vec<_>>();
""", """        let normalized_patterns = exclude
            .iter()
            .map(|s| normalize_path(s))
            .map(|s| s.trim_start_matches("./").trim_start_matches('/').to_string())
            .collect::<Vec<_>>();
"""), (PL, """                if p.is_match(normalized_filename.as_str()) {""", """                if p.is_match(normalized_filename.trim_start_matches('/')) {""")],
 "a pattern without a root and an absolute file name, or the other way round", "a file elsewhere with the same relative name is excluded", r"""
assert(plugin({ config: '{"unstableExclude":["/src/*.js"]}', file: '/src/a.js' }).same);
assert(!plugin({ config: '{"unstableExclude":["src/*.js"]}', file: '/src/a.js' }).same);
assert(!plugin({ config: '{"unstableExclude":["/src/*.js"]}', file: 'src/a.js' }).same);
""")

wa('torn-config-tail', 'C21', [(PL, """        serde_json::from_str(&plugin_config).unwrap_or_else(|f| {""", """        // no need to look at what follows the options
        let mut documents = serde_json::Deserializer::from_str(&plugin_config).into_iter();
        let options = documents.next().unwrap_or_else(|| serde_json::from_str(""));
        options.unwrap_or_else(|f| {""")],
 "a configuration of which a longer old version's tail is left after a shorter one was written", "a torn configuration is taken for a good one", r"""
const d = plugin({ config: '{}', file: 'a.js' }), o = plugin({ config: '{"coverageVariable":"x"}', file: 'a.js' });
assert(!d.bytes.equals(o.bytes));
assert(plugin({ config: '{"coverageVariable":"x"}e":"y"}', file: 'a.js' }).bytes.equals(d.bytes));
""")

wa('missing-log-level', 'C21', [(I + 'options/instrument_options.rs', """#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct InstrumentLogOptions {""", """#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InstrumentLogOptions {""")],
 "log options that leave the trace setting out, beside other options", "a configuration with a missing member counts as unreadable, its other options are lost", r"""
const o = plugin({ config: '{"coverageVariable":"x","instrumentLog":{"level":"error","enableTrace":false}}', file: 'a.js' });
assert(plugin({ config: '{"coverageVariable":"x","instrumentLog":{"level":"error"}}', file: 'a.js' }).bytes.equals(o.bytes));
""")

wa('notice-to-stderr', 'C21', [(PL, """        Some("trace") => Some(tracing::Level::TRACE),
        _ => None,
    };""", """        Some("trace") => Some(tracing::Level::TRACE),
        Some(level) => {
            eprintln!("Unknown log level {level}, will be ignored");
            None
        }
        None => None,
    };""")],
 "an unknown log level where nothing can be written to stderr", "the transform fails because a complaint cannot be printed", r"""
assert(plugin({ config: '{"instrumentLog":{"level":"loud"}}', file: 'a.js' }).bytes);
assert(plugin({ config: '{"instrumentLog":{"level":"loud"}}', file: 'a.js', write: () => [29, 0] }).bytes);
""")

wa('compact-comments', 'C22', [(PL, """        metadata.comments.as_ref(),
        instrument_options,""", """        // compact output has no use for comments
        metadata.comments.as_ref().filter(|_| !instrument_options.compact),
        instrument_options,""")],
 "compact set, and a hint comment in the program", "hints are not honoured when compact output is asked for", r"""
const a = plugin({ config: '{}', file: 'a.js' }), b = plugin({ config: '{"compact":true}', file: 'a.js' });
assert(a.bytes.equals(b.bytes));
""")

wa('record-under-clean-name', 'C22', [(PL, """    let filename = if let Some(filename) = filename.as_deref() {
        filename
    } else {
        "unknown.js"
    };
""", """    let filename = match filename.as_deref().map(str::trim) {
        Some(filename) if !filename.is_empty() => filename,
        _ => "unknown.js",
    };
""")],
 "a file name that starts or ends with a space", "the record is published under another name than the file's", r"""
assert(plugin({ config: '{}', file: ' lib/of files/a.js' }).text.includes(' lib/of files/a.js'));
""")

wa('log-announced', 'C22', [(PL, """    if let Some(log_level) = log_level {""", """    if let Some(log_level) = log_level.inspect(|level| println!("instrument log at {level}")) {""")],
 "a log level, where nothing can be written to stdout", "the transform fails because the log cannot be written", r"""
assert(plugin({ config: '{"instrumentLog":{"level":"error"}}', file: 'a.js' }).bytes);
assert(plugin({ config: '{"instrumentLog":{"level":"error"}}', file: 'a.js', write: () => [29, 0] }).bytes);
""")

js('default-export-hint', 'C06', [(I + 'macros/create_instrumentation_visitor.rs', """                self.nodes.push(crate::Node::ModuleDecl);
                let span = n.span();

                self.on_enter_with_span(Some(&span))""", """                self.nodes.push(crate::Node::ModuleDecl);
                let span = n.span();
                // a hint names what is declared
                let declares = matches!(n, ModuleDecl::ExportDecl(..) | ModuleDecl::ExportDefaultDecl(..));

                self.on_enter_with_span(Some(&span).filter(|_| declares))""")],
 "an ignore hint before the default export of an expression", "the exported expression is counted although it is ignored", r"""
const code = 'globalThis.a = 1;\n/* istanbul ignore next */\nexport default globalThis.a ? () => globalThis.a : (globalThis.b || 2);\nglobalThis.c = 2;';
const [r] = inst({ code, module: true });
const c = realm({});
c.run({ ...r, code: r.code.replace('export default', 'var d =') });
const cov = c.cov();
assert.deepStrictEqual([Object.values(cov.s), Object.keys(cov.f), Object.keys(cov.b)], [[1, 1], [], []]);
""")

js('arrow-hint-stays', 'C06', [(I + 'macros/instrumentation_visitor.rs', """                        arrow_expr.body = Box::new(BlockStmtOrExpr::BlockStmt(BlockStmt {
                            span: swc_core::common::DUMMY_SP,
                            stmts: new_stmts,
                            ..BlockStmt::dummy()
                        }));
                    }
                },
            }
            self.on_exit(old);""", """                        arrow_expr.body = Box::new(BlockStmtOrExpr::BlockStmt(BlockStmt {
                            span: swc_core::common::DUMMY_SP,
                            stmts: new_stmts,
                            ..BlockStmt::dummy()
                        }));
                    }
                },
            }
            if ignore_current.is_none() {
                self.on_exit(old);
            }""")],
 "an ignored arrow function among the arguments or elements of an expression, and something that has counters after it", "what follows an ignored arrow function in its expression is not counted", r"""
const code = 'log.push(/* istanbul ignore next */ (x) => x, n ? 1 : 2, () => n);';
const [r] = inst(code), c = realm({ n: 1, log: [] });
c.run(r); c.log[2]();
const cov = c.cov();
assert.deepStrictEqual([Object.values(cov.b), Object.values(cov.f)], [[[1, 0]], [1]]);
""")

js('own-function-binding', 'C01', [(I + 'coverage_template/create_global_stmt_template.rs', """"((function(){}).constructor)\"""", """"Function\"""")],
 "a file that declares something called Function", "the file throws, or calls its own Function, when it loads", r"""
const code = 'class Function { constructor(...a) { log.push(a); } }\nnew Function(1);';
const [r] = inst(code), c = realm({ log: [] });
c.run(r);
assert.strictEqual(JSON.stringify(c.log), '[[1]]');
""")

ox('functions-by-name', 'C18', [(O + 'file_coverage.rs', """            |map: &Function| key_from_loc(&map.loc),""", """            |map: &Function| format!("{}|{}|{}", map.name, map.decl.start.line, map.decl.start.column.min(120)),""")],
 "two methods of one name far to the right on one line, i.e. in minified code", "hits of one function are added to the other", r"""
use istanbul_oxide::*;
fn main() {
    let f = |name: &str, c: u32| format!("{{\"name\":\"{name}\",\"line\":1,\"decl\":{{\"start\":{{\"line\":1,\"column\":{c}}},\"end\":{{\"line\":1,\"column\":{}}}}},\"loc\":{{\"start\":{{\"line\":1,\"column\":{}}},\"end\":{{\"line\":1,\"column\":{}}}}}}}", c + 1, c + 4, c + 9);
    let json = format!("{{\"path\":\"a.js\",\"statementMap\":{{}},\"fnMap\":{{\"0\":{},\"1\":{}}},\"branchMap\":{{}},\"s\":{{}},\"f\":{{\"0\":1,\"1\":5}},\"b\":{{}}}}", f("m", 200), f("m", 300));
    let one: FileCoverage = serde_json::from_str(&json).unwrap();
    let mut map = CoverageMap::new();
    map.add_coverage_for_file(&one);
    map.add_coverage_for_file(&one);
    let got = map.get_coverage_for_file("a.js").unwrap();
    let hits: Vec<u32> = got.f.values().copied().collect();
    if hits != vec![2, 10] { println!("{hits:?}"); std::process::exit(1); }
}
""")

ox('rebuild-without-placeholders', 'C12', [(O + 'coverage_map.rs', """        for coverage in value.into_iter() {
            ret.add_coverage_for_file(coverage)
        }
""", """        // placeholders have nothing to add to what is known of other files
        for coverage in value.into_iter().filter(|v| !v.all || v.s.is_empty()) {
            ret.add_coverage_for_file(coverage)
        }
""")],
 "a collector that is rebuilt from its records while it has only a placeholder of some file", "the file disappears from the rebuilt collector and its totals", r"""
use istanbul_oxide::*;
fn main() {
    let json = "{\"all\":true,\"path\":\"a.js\",\"statementMap\":{\"0\":{\"start\":{\"line\":1,\"column\":0},\"end\":{\"line\":1,\"column\":5}}},\"fnMap\":{},\"branchMap\":{},\"s\":{\"0\":0},\"f\":{},\"b\":{}}";
    let one: FileCoverage = serde_json::from_str(json).unwrap();
    let map = CoverageMap::from_iter(vec![&one]);
    if map.get_files().len() != 1 { println!("lost"); std::process::exit(1); }
}
""")

ox('null-contents', 'C16', [(O + 'source_map.rs', """    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sources_content: Option<Vec<Option<String>>>,""", """    #[serde(default, skip_serializing_if = "has_no_content")]
    pub sources_content: Option<Vec<Option<String>>>,"""), (O + 'source_map.rs', """impl Default for SourceMap {""", """fn has_no_content(contents: &Option<Vec<Option<String>>>) -> bool {
    !contents.iter().flatten().any(Option::is_some)
}

impl Default for SourceMap {""")],
 "a record whose input source map has a list of contents in which all are unknown", "the restored record has no list of contents", r"""
use istanbul_oxide::*;
fn main() {
    let mut one = FileCoverage::from_file_path("a.js".to_string(), false);
    one.input_source_map = Some(SourceMap { sources: vec!["a.ts".to_string()], sources_content: Some(vec![None]), ..Default::default() });
    let two: FileCoverage = serde_json::from_str(&serde_json::to_string(&one).unwrap()).unwrap();
    if one != two { println!("{two:?}"); std::process::exit(1); }
}
""")

ox('reset-truthiness-rows', 'C17', [(O + 'file_coverage.rs', """        if let Some(branches_true) = &mut self.b_t {
            for val in branches_true.values_mut() {
                val.iter_mut().for_each(|x| *x = 0);
            }
        }""", """        if let Some(branches_true) = &mut self.b_t {
            *branches_true = self.b.clone();
        }""")],
 "a reset of a record with truthiness data and a branch that has none", "branches of other kinds get truthiness counts, and the totals change", r"""
use istanbul_oxide::*;
fn main() {
    let json = "{\"path\":\"a.js\",\"statementMap\":{},\"fnMap\":{},\"branchMap\":{\"0\":{\"loc\":{\"start\":{\"line\":1,\"column\":0},\"end\":{\"line\":1,\"column\":5}},\"type\":\"if\",\"locations\":[{\"start\":{\"line\":1,\"column\":0},\"end\":{\"line\":1,\"column\":5}}]}},\"s\":{},\"f\":{},\"b\":{\"0\":[3]},\"bT\":{}}";
    let mut one: FileCoverage = serde_json::from_str(json).unwrap();
    one.reset_hits();
    if one.b[&0] != vec![0] || one.b_t.is_some_and(|v| !v.is_empty()) { println!("rows"); std::process::exit(1); }
}
""")

ox('percent-in-32-bits', 'C15', [(O + 'percent.rs', """        let tmp: f64 = ((1000 * 100 * covered as u64) / total as u64) as f64;""", """        let tmp = covered.wrapping_mul(1000 * 100) / total;""")],
 "more than 42949 covered entries, as of a whole repository", "the percentage of the summary is wrong", r"""
use istanbul_oxide::*;
fn main() {
    let mut one = FileCoverage::from_file_path("a.js".to_string(), false);
    for i in 0..50000 {
        one.statement_map.insert(i, Range::new(i + 1, 0, i + 1, 5));
        one.s.insert(i, 1);
    }
    let pct = format!("{:?}", FileCoverage::compute_simple_totals(&one.s).pct);
    if pct != "Value(100.0)" { println!("{pct}"); std::process::exit(1); }
}
""")

ox('path-as-key', 'C14', [(O + 'coverage_map.rs', """            self.inner.insert(coverage.path.clone(), coverage.clone());""", """            // same file, whichever separators it is known by
            let mut coverage = coverage.clone();
            if !coverage.path.starts_with('\\\\') {
                coverage.path = coverage.path.replace('\\\\', "/");
            }
            self.inner.insert(coverage.path.clone(), coverage);""")],
 "a file whose path has backslashes", "the record is filed under another path", r"""
use istanbul_oxide::*;
fn main() {
    let mut map = CoverageMap::new();
    map.add_coverage_for_file(&FileCoverage::from_file_path("src\\a.js".to_string(), false));
    if map.get_coverage_for_file("src\\a.js").is_none() { println!("{:?}", map.get_files()); std::process::exit(1); }
}
""")

js('unordered-branches', 'C10', [(I + 'coverage_template/create_coverage_data_object.rs', """    let branch_map_prop_values = coverage_data
        .branch_map
        .iter()
        .map(|(key, value)| create_branch_prop(&key.to_string(), value))
        .collect();""", """    // what was pruned left gaps, go by the ids
    let branches = coverage_data
        .branch_map
        .iter()
        .collect::<std::collections::HashMap<_, _>>();
    let branch_map_prop_values = branches
        .into_iter()
        .map(|(key, value)| create_branch_prop(&key.to_string(), value))
        .collect();""")],
 "a file with two or more branches that is instrumented more than once", "the order of the branches in the output differs from one time to the next", r"""
const code = 'a ? 1 : 2; b ? 1 : 2; c ? 1 : 2; d ? 1 : 2; e ? 1 : 2;';
assert.strictEqual(new Set(Array.from({ length: 8 }, () => inst(code)[0].code)).size, 1);
""")

wa('exclude-any-case', 'C20', [(PL, """            .map(|s| normalize_path(s))
            .collect::<Vec<_>>();
""", """            .map(|s| match normalize_path(s) {
                // Windows does not tell upper and lower case apart
                normalized if normalized != *s => format!("(?i){normalized}"),
                normalized => normalized,
            })
            .collect::<Vec<_>>();
""")],
 "a pattern with backslashes, and a file whose name differs from the patterns in the case of its letters only", "the file is excluded", r"""
assert(plugin({ config: '{"unstableExclude":["src\\\\*.js"]}', file: 'src/a.js' }).same);
assert(!plugin({ config: '{"unstableExclude":["src\\\\*.js"]}', file: 'Src/a.js' }).same);
assert(!plugin({ config: '{"unstableExclude":["SRC\\\\*.js"]}', file: 'src/a.js' }).same);
""")

js('short-names', 'C07', [(I + 'coverage_template/create_coverage_fn_decl.rs', """    let mut s = DefaultHasher::new();
    value.hash(&mut s);
    let var_name_hash = format!("cov_{}", s.finish());
""", """    // short names, unique to each path
    thread_local! {
        static PATHS: std::cell::RefCell<Vec<String>> = Default::default();
    }
    let id = PATHS.with(|paths| {
        let mut paths = paths.borrow_mut();
        match paths.iter().position(|path| path == value) {
            Some(id) => id,
            None => {
                paths.push(value.to_string());
                paths.len() - 1
            }
        }
    });
    let mut s = DefaultHasher::new();
    id.hash(&mut s);
    let var_name_hash = format!("cov_{}", s.finish());
""")],
 "two scripts that were instrumented by different processes, loaded into one realm", "both have the same counter function and hits go to the wrong file", r"""
const [a] = inst({ code: 'x = 1;\nfunction f() { y = 1; }', filename: 'a.js' }), [b] = inst({ code: 'f();', filename: 'b.js' }), c = realm({});
c.run(a); c.run(b);
assert.deepStrictEqual([c.cov('a.js').s, c.cov('a.js').f, c.cov('b.js').s], [{ 0: 1, 1: 1 }, { 0: 1 }, { 0: 1 }]);
""")

WHERE = r"""
// where the source map of r leads the innermost call that is in the file
const at = (r, site) => { const l = site.getLineNumber(), c = site.getColumnNumber(); let x; for (const m of r.map) if (m[0] < l || m[0] === l && m[1] <= c) x = m; return x[2] + ':' + x[3]; };
const where = (r) => { const o = Error.prepareStackTrace; Error.prepareStackTrace = (e, s) => s; const s = new Error().stack.find(x => x.getScriptNameOrSourceURL() === 'a.js'); Error.prepareStackTrace = o; return at(r, s); };
"""
js('arrow-body-positions', 'C23', [(VIS, """                        new_stmts.extend(stmts.drain(..));

                        arrow_expr.body""", """                        // the body is made up: it carries no positions of its own
                        new_stmts.extend(stmts.drain(..).map(swc_core::ecma::utils::drop_span));

                        arrow_expr.body""")],
 "a call in an arrow function whose body is an expression, looked up through the source map", "it leads back to another place of the source", WHERE + r"""
const code = 'const f = (a) =>\n  h(a);\n\nf(1);', [r] = inst({ code, filename: 'a.js', map: true }), seen = [];
const c = realm({ h() { seen.push(where(r)); } });
c.run(r, 'a.js');
assert.deepStrictEqual(seen, ['2:3']);
""")

js('logic-leaf-positions', 'C23', [(I + 'instrument/create_increase_true_expr.rs', """        right: Box::new(expr), // Only evaluates once.
""", """        right: Box::new(swc_core::ecma::utils::drop_span(expr)), // Only evaluates once.
""")],
 "a call that is an operand of a logical expression, with reportLogic, looked up through the source map", "it leads back to another place of the source", WHERE + r"""
const code = 'x = y ||\n    h(1);', [r] = inst({ code, filename: 'a.js', map: true, options: { reportLogic: true } }), seen = [];
const c = realm({ y: 0, h() { seen.push(where(r)); } });
c.run(r, 'a.js');
assert.deepStrictEqual(seen, ['2:5']);
""")
