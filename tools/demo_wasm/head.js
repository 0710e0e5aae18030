'use strict';
// A small swc host for the built plugin: host.json holds what swc hands over for the program in it.
const fs = require('fs'), path = require('path'), assert = require('assert');
const H = JSON.parse(fs.readFileSync(path.join(__dirname, 'host.json'), 'utf8'));
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const bytes = (s) => s ? Buffer.from(s, 'base64') : null;
const text = (s) => { // a serialised string
  const b = Buffer.from(s, 'utf8');
  if (b.length <= 8) return Buffer.concat([b, Buffer.alloc(8 - b.length, 0xff)]);
  const p = Buffer.concat([b, Buffer.alloc((4 - b.length % 4) % 4)]), r = Buffer.alloc(8);
  r.writeUInt32LE((b.length & 63 | 128 | (b.length & ~63) << 2) >>> 0, 0); r.writeInt32LE(-p.length, 4);
  return Buffer.concat([p, r]);
};
// {config, file, write(fd, n) -> [errno, n], clock() -> ns, vars, comments} -> {same, bytes, text, trap}
function plugin(env) {
  let ex, result = null, unknown = null;
  const mem = () => Buffer.from(ex.memory.buffer);
  const put = (b) => { const p = ex.__alloc(b.length); mem().set(b, p); return p; };
  const answer = (r, b) => { if (!b) return 0; const p = put(b); mem().writeUInt32LE(p, r); mem().writeUInt32LE(b.length, r + 4); return 1; };
  const lead = Object.assign({}, H.leading), trail = Object.assign({}, H.trailing);
  const vars = Object.entries(env.vars || {}).map(([k, v]) => Buffer.from(`${k}=${v}\0`));
  const take = (m, p) => { const b = bytes(m[p]); delete m[p]; return b; };
  const host = {
    __set_transform_result: (p, n) => { result = Buffer.from(mem().subarray(p, p + n)); },
    __get_transform_plugin_config: (r) => answer(r, env.config === undefined ? null : text(env.config)),
    __get_transform_context: (k, r) => answer(r, k === 1 && env.file !== undefined ? text(env.file) : k === 2 ? text('development') : k === 3 ? text('/w') : null),
    __has_leading_comments_proxy: (p) => +(p in lead), __has_trailing_comments_proxy: (p) => +(p in trail),
    __get_leading_comments_proxy: (p, r) => answer(r, bytes(lead[p])), __get_trailing_comments_proxy: (p, r) => answer(r, bytes(trail[p])),
    __take_leading_comments_proxy: (p, r) => answer(r, take(lead, p)), __take_trailing_comments_proxy: (p, r) => answer(r, take(trail, p)),
    __lookup_char_pos_source_map_proxy: (p, f, r) => answer(r, bytes(H.lookup[(f ? 'f' : '') + p])),
    __span_dummy_with_cmt_proxy: () => 0x80000001 | 0,
    clock_time_get: (a, b, p) => { mem().writeBigUInt64LE(env.clock ? env.clock() : 1700000000000000000n, p); return 0; },
    clock_res_get: (a, p) => { mem().writeBigUInt64LE(1000n, p); return 0; },
    random_get: (p, n) => { mem().fill(env.random || 7, p, p + n); return 0; },
    environ_sizes_get: (a, b) => { mem().writeUInt32LE(vars.length, a); mem().writeUInt32LE(vars.reduce((x, y) => x + y.length, 0), b); return 0; },
    environ_get: (a, b) => { for (const v of vars) { mem().writeUInt32LE(b, a); a += 4; mem().set(v, b); b += v.length; } return 0; },
    proc_exit: (c) => { throw new Error('exit ' + c); },
    fd_write: (fd, iovs, n, p) => {
      let len = 0; for (let i = 0; i < n; i++) len += mem().readUInt32LE(iovs + 8 * i + 4);
      const [errno, taken] = env.write ? env.write(fd, len) : [0, len];
      if (errno) return errno; mem().writeUInt32LE(taken, p); return 0;
    },
  };
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) (imports[i.module] = imports[i.module] || {})[i.name] = host[i.name] || (() => 0);
  try {
    ex = new WebAssembly.Instance(mod, imports).exports; if (ex._initialize) ex._initialize();
    const prog = bytes(H.program), ret = ex.__transform_plugin_process_impl(put(prog), prog.length, H.mark, env.comments === false ? 0 : 1);
    if (ret !== 0) return { trap: 'returned ' + ret };
    return { same: result.includes('cov_') === false, bytes: result, text: result.toString('latin1') };
  } catch (e) { return { trap: String(e.message) }; }
}
const full = plugin({ config: '{}', file: '/src/a.js' });
assert(full.bytes && !full.same, 'a plain call');
