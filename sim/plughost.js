'use strict';
// The swc host a plugin runs in: the real wasm plugin, one fresh instance per file, all of whose imports (transform
// context, configuration, comments, source map, WASI clock, randomness, environment and output) are answered here.
// `env` decides what the environment does at every import.
const fs = require('fs'), path = require('path');
const addon = { exports: {} };
process.dlopen(addon, process.env.SIM_PLUGHOST || path.join(__dirname, '../target/release/libplughost.so'));
const A = addon.exports;
const wasm = () => process.env.SIM_WASM || path.join(__dirname, '../target/wasm32-wasip1/release/swc_plugin_coverage.wasm');
let module_ = null;
const compiled = () => module_ || (module_ = new WebAssembly.Module(fs.readFileSync(wasm())));
class Exit extends Error { constructor(code) { super(`exit ${code}`); this.code = code; } }

// req: {code, filename, module} ; env: {config, file, comments, on(import) -> fault or undefined, clock(), random(n), vars, write(fd, n)}
function run(req, env) {
  const opened = JSON.parse(A.open(JSON.stringify(req)));
  if (opened.err) return { err: opened.err };
  const h = opened.h; let ex, result = null, out = '', calls = 0;
  const mem = () => Buffer.from(ex.memory.buffer);
  const put = (bytes) => { const p = ex.__alloc(bytes.length); mem().set(bytes, p); return p; };
  const answer = (ptr, bytes) => { if (!bytes) return 0; const p = put(bytes); const m = mem(); m.writeUInt32LE(p, ptr); m.writeUInt32LE(bytes.length, ptr + 4); return 1; };
  const read = (p, n) => Buffer.from(mem().subarray(p, p + n));
  const ctxKey = [() => undefined, () => env.file, () => env.env, () => env.cwd]; // Filename, Env, Cwd
  let key = null;
  const host = {
    __set_transform_result: (p, n) => { result = read(p, n); },
    __set_transform_plugin_core_pkg_diagnostics: () => { },
    __emit_diagnostics: () => { },
    __get_transform_plugin_config: (r) => answer(r, env.config === undefined ? null : A.text(env.config)),
    __get_transform_context: (k, r) => { const v = ctxKey[k] ? ctxKey[k]() : undefined; return answer(r, v === undefined ? null : A.text(v)); },
    __copy_context_key_to_host_env: (p, n) => { key = read(p, n); },
    __get_experimental_transform_context: () => 0, __get_raw_experiemtal_transform_context: () => 0,
    __copy_comment_to_host_env: (p, n) => A.commentBuffer(h, read(p, n)),
    __has_leading_comments_proxy: (pos) => +A.hasComments(h, true, pos >>> 0),
    __has_trailing_comments_proxy: (pos) => +A.hasComments(h, false, pos >>> 0),
    __get_leading_comments_proxy: (pos, r) => answer(r, A.comments(h, 'get_leading', pos >>> 0)),
    __get_trailing_comments_proxy: (pos, r) => answer(r, A.comments(h, 'get_trailing', pos >>> 0)),
    __take_leading_comments_proxy: (pos, r) => answer(r, A.comments(h, 'take_leading', pos >>> 0)),
    __take_trailing_comments_proxy: (pos, r) => answer(r, A.comments(h, 'take_trailing', pos >>> 0)),
    __move_leading_comments_proxy: (a, b) => A.moveComments(h, true, a >>> 0, b >>> 0),
    __move_trailing_comments_proxy: (a, b) => A.moveComments(h, false, a >>> 0, b >>> 0),
    __add_leading_comment_proxy: (pos) => A.addComments(h, true, false, pos >>> 0),
    __add_trailing_comment_proxy: (pos) => A.addComments(h, false, false, pos >>> 0),
    __add_leading_comments_proxy: (pos) => A.addComments(h, true, true, pos >>> 0),
    __add_trailing_comments_proxy: (pos) => A.addComments(h, false, true, pos >>> 0),
    __add_pure_comment_proxy: (pos) => A.addPure(h, pos >>> 0),
    __span_dummy_with_cmt_proxy: () => A.dummy(h),
    __lookup_char_pos_source_map_proxy: (pos, file, r) => answer(r, A.lookup(h, pos >>> 0, !!file)),
    __span_to_string_proxy: (a, b, r) => answer(r, A.span(h, 'string', a >>> 0, b >>> 0)),
    __span_to_filename_proxy: (a, b, r) => answer(r, A.span(h, 'filename', a >>> 0, b >>> 0)),
    __span_to_source_proxy: (a, b, r) => answer(r, A.span(h, 'source', a >>> 0, b >>> 0)),
  };
  const u64 = (p, v) => mem().writeBigUInt64LE(BigInt.asUintN(64, v), p);
  const u32 = (p, v) => mem().writeUInt32LE(v >>> 0, p);
  const vars = () => Object.entries(env.vars || {}).map(([k, v]) => Buffer.from(`${k}=${v}\0`));
  const wasi = {
    clock_time_get: (id, prec, p) => { const t = env.clock(id); if (t === null) return 58; u64(p, t); return 0; },
    clock_res_get: (id, p) => { u64(p, 1000n); return 0; },
    fd_write: (fd, iovs, n, p) => {
      const m = mem(); let bytes = [];
      for (let i = 0; i < n; i++) bytes.push(read(m.readUInt32LE(iovs + 8 * i), m.readUInt32LE(iovs + 8 * i + 4)));
      bytes = Buffer.concat(bytes);
      const [errno, taken] = env.write(fd, bytes.length);
      if (errno) return errno;
      out += bytes.subarray(0, taken).toString('latin1'); u32(p, taken); return 0;
    },
    sched_yield: () => 0,
    random_get: (p, n) => { const b = env.random(n); if (!b) return 29; mem().set(b, p); return 0; },
    environ_sizes_get: (a, b) => { const v = vars(); u32(a, v.length); u32(b, v.reduce((x, y) => x + y.length, 0)); return 0; },
    environ_get: (a, b) => { for (const v of vars()) { u32(a, b); a += 4; mem().set(v, b); b += v.length; } return 0; },
    proc_exit: (c) => { throw new Exit(c); },
  };
  const wrap = (name, f) => (...a) => { calls++; env.on(name, calls); return f(...a); };
  const imports = {}; let unknown = null;
  for (const i of WebAssembly.Module.imports(compiled())) {
    const f = i.module === 'env' ? host[i.name] : wasi[i.name];
    (imports[i.module] = imports[i.module] || {})[i.name] = f ? wrap(i.name, f) : () => { unknown = unknown || i.name; if (i.module === 'env') return 0; return 52; };
  }
  try {
    ex = new WebAssembly.Instance(compiled(), imports).exports;
    if (ex._initialize) ex._initialize();
    const ast = A.ast(h), p = put(ast);
    const ret = ex.__transform_plugin_process_impl(p, ast.length, opened.mark, env.comments ? 1 : 0);
    const r = result ? JSON.parse(A.finish(h, ret === 0, result)) : { err: 'no result' };
    return Object.assign(r, { calls, out, unknown, memory: ex.memory.buffer.byteLength });
  } catch (e) {
    return { trap: String(e && e.message || e), injected: e && e.injected, calls, out, unknown };
  } finally { A.close(h); }
}
const native = (o) => JSON.parse(A.call(JSON.stringify(o)));
module.exports = { run, native, compiled };
