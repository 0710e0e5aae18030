#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from tools/bugs.py and confirms each change. Development tool: no check uses it.
#   plant.py gen [ID..]      write the folders
#   plant.py confirm [ID..]  patch applies, builds, stable tests pass, demo 0 without and nonzero with it
#   plant.py hunt [ID..]     which checks report it (quick tier; SIM_ARGS of the environment apply)
import os, sys, json, subprocess, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
R = '/repo'; V = '/verif'; S = V + '/seeded'; T = V + '/tools'
BASE = '9b479e3'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    assert sh(f'git -C {R} checkout -- .').returncode == 0
def apply_edits(b):
    own = 0
    for f, old, new in b['edits']:
        p = f'{R}/packages/{f}'; t = open(p).read()
        n = t.count(old)
        if n < 1: raise Exception(f"{b['id']}: text not found in {f}: {old[:60]!r}")
        if n > 1 and not b.get('first'): raise Exception(f"{b['id']}: text found {n} times in {f}: {old[:60]!r}")
        open(p, 'w').write(t.replace(old, new, 1))
def blame_ok(b):
    d = sh(f'git -C {R} diff -U0').stdout
    bad = []; f = None; removed = 0
    for l in d.split('\n'):
        if l.startswith('--- a/'): f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            a = int(m[1]); n = int(m[2] or 1); removed += n
            if n:
                bl = sh(f'git -C {R} blame -s -L {a},{a+n-1} HEAD -- {f}').stdout
                for x in bl.strip().split('\n'):
                    if not x.lstrip('^').startswith(BASE): bad.append(f + ' ' + x)
    if not removed: bad.append('nothing but added lines')
    return bad
def gen(b):
    clean(); d = f"{S}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    apply_edits(b)
    bad = blame_ok(b)
    if bad: print(b['id'], 'NOT ORIGINAL LINES:', *bad, sep='\n   ')
    diff = sh(f'git -C {R} diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    clean()
    kind = 'js' if 'js' in b else 'ox' if 'ox' in b else 'wasm'
    src = f'{T}/demo_{kind}'
    if kind == 'wasm':
        for x in ('demo.sh', 'host.json'): shutil.copy(f'{src}/{x}', f'{d}/{x}')
        open(d + '/demo.js', 'w').write(open(f'{src}/head.js').read() + b['wa'].strip() + '\n')
    else: gen_rust(b, kind, src, d)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/meta.json', 'a').write('\n')
    return not bad
def gen_rust(b, kind, src, d):
    for x in ('Cargo.toml', 'Cargo.lock', 'demo.sh'): shutil.copy(f'{src}/{x}', f'{d}/{x}')
    os.makedirs(d + '/src', exist_ok=True)
    if kind == 'js':
        shutil.copy(f'{src}/src/main.rs', d + '/src/main.rs')
        open(d + '/demo.js', 'w').write(open(f'{src}/head.js').read() + b['js'].strip() + '\n')
    else: open(d + '/src/main.rs', 'w').write(b['ox'].strip() + '\n')
def demo(b): return sh(f"cd {R} && bash {S}/{b['id']}/demo.sh", timeout=400)
def confirm(b):
    clean(); d = f"{S}/{b['id']}"; ok = True
    if 'wa' in b: sh('bash /opt/vp/build.sh')
    r = demo(b)
    if r.returncode != 0: print(b['id'], 'demo fails on the unchanged tree', r.stdout[-800:], r.stderr[-800:]); ok = False
    try:
        r = sh(f'git -C {R} apply {d}/patch.diff')
        if r.returncode: print(b['id'], 'patch', r.stderr); return False
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: print(b['id'], 'BUILD', r.stderr[-1500:]); return False
        sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        o = json.load(open('/tmp/plant_out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        want = stable(base); got = stable(o)
        miss = want - got
        if miss: print(b['id'], 'TESTS', sorted(miss)[:5]); ok = False
        r = demo(b)
        if r.returncode == 0: print(b['id'], 'demo passes with the change'); ok = False
        elif r.returncode == 3: print(b['id'], 'demo does not build', r.stdout[-1500:]); ok = False
        else: print('   demo:', (r.stdout + r.stderr).strip().split('\n')[-1][:150] if False else [x for x in (r.stdout + r.stderr).split('\n') if x.strip()][:1])
    finally: clean()
    print(b['id'], 'ok' if ok else 'NOT OK', flush=True)
    return ok
def stable(o):
    def walk(x):
        if isinstance(x, dict):
            for k in ('stable', 'passed'):
                if k in x and isinstance(x[k], list): return x[k]
            for v in x.values():
                r = walk(v)
                if r: return r
        if isinstance(x, list): return x
        return []
    r = walk(o)
    return {x if isinstance(x, str) else json.dumps(x, sort_keys=True) for x in r}
def hunt(b, props):
    clean(); res = {}
    try:
        r = sh(f"git -C {R} apply {S}/{b['id']}/patch.diff")
        if r.returncode: print(b['id'], 'patch', r.stderr); return
        for p in props or [b['property']]:
            r = sh(f'cd {V} && ./check {p}', env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            res[p] = {0: 'quiet', 1: 'CAUGHT' if v else 'fail?'}.get(r.returncode, 'error %d' % r.returncode)
            if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-500:])
    finally: clean()
    print(b['id'], b['property'], res, flush=True)
    m = {}
    try: m = json.load(open('/tmp/dev/matrix.json'))
    except Exception: pass
    m.setdefault(b['id'], {}).update(res); json.dump(m, open('/tmp/dev/matrix.json', 'w'), indent=1)
if __name__ == '__main__':
    cmd = sys.argv[1]; ids = [x for x in sys.argv[2:] if not re.fullmatch(r'C\d\d', x)]; props = [x for x in sys.argv[2:] if re.fullmatch(r'C\d\d', x)]
    sel = [b for b in BUGS if not ids or b['id'] in ids]
    if sh(f'git -C {R} status --porcelain').stdout.strip(): sys.exit('/repo is not clean')
    for b in sel:
        try:
            if cmd == 'gen': gen(b)
            elif cmd == 'confirm': confirm(b)
            elif cmd == 'hunt': hunt(b, props)
            elif cmd == 'all':
                if gen(b) and confirm(b): hunt(b, props)
        except Exception as e:
            clean(); print(b['id'], 'EXC', e, flush=True)
