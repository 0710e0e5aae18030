#!/usr/bin/env python3
# Writes MANIFEST.json (development tool).
import json
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
T = 'deterministic simulation with fault injection: '
RUN = (T + 'instrumented programs run in realms under a seeded scheduler of host events and failures, compared event by event with an independently instrumented run',
       'Seeded search: no violation on the runs explored, not a proof. Trusts the acorn-based reference instrumenter, V8 and the program generator; decorators are not generated.')
MERGE = (T + 'fleets of workers and collectors on a simulated network, disks and clock under a seeded scheduler, checked after every step against a reference model keyed by location',
         'Seeded search: no violation on the runs explored, not a proof. Real code: all of istanbul-oxide; workers, network, disks, clock and processes are simulated. Reports are well formed (unique locations, one count per arm).')
XF = (T + 'processes that instrument several files on several threads under a seeded scheduler that switches at every call into the host and every visitor method, with failing host calls, jumping clocks and seeded randomness; every output compared with that of a fresh process',
      'Seeded search: no violation on the runs explored, not a proof. Threads switch at host calls and visitor methods only; what a call returns in which the host failed is not judged.')
FLEET = (T + 'fleets of workers that really run instrumented files, a lossy network, crashing workers and collectors with torn disk writes, and real aggregation, under one seeded scheduler and clock; compared with what the workers executed',
         'Seeded search: no violation on the runs explored, not a proof. The transport protocol (sequence numbers, two disk slots) is the simulator\'s; instrumented code, records, aggregation and summaries are real.')
PLUG = (T + 'the real wasm plugin in a simulated swc host that answers all of its imports (configuration and context channel, comments, source map, WASI clock, randomness, environment, output) under a seeded scheduler with corrupted configurations, failing writes and jumping clocks; compared with the library given the options the configuration stands for',
        'Seeded search: no violation on the calls explored, not a proof. One instance per file, as the swc host does; the host is simulated, the plugin binary and the serialisation between them are real.')
kind = {}
for i in range(1, 10): kind['C%02d' % i] = RUN
kind['C19'] = kind['C23'] = RUN; kind['C10'] = XF; kind['C18'] = FLEET
for i in range(11, 18): kind['C%d' % i] = MERGE
for p in ('C20', 'C21', 'C22'): kind[p] = PLUG
NA = {}
import os
if not os.path.exists('/verif/sim/plugin.js'):
    for p in ('C20', 'C21'): NA[p] = 'simulator of the plugin host under construction'; del kind[p]
m = {'version': 1, 'setup_cmd': '/verif/build.sh',
     'hooks': {'guard': 'cfg(dst_hooks)', 'enable': 'RUSTFLAGS="--cfg dst_hooks"', 'source_commits': ['9db4e54b552164630e428445e1d7f178684dd0ff']},
     'checks': [], 'not_applicable': []}
for p in props:
    if p in kind:
        t, n = kind[p]
        m['checks'].append({'property': p, 'quick_cmd': f'./check {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p}', 'evidence_file': f'evidence/{p}.json', 'technique': t, 'level': 'exploration', 'level_note': n})
    else: m['not_applicable'].append({'property': p, 'reason': NA[p]})
old = json.load(open('/verif/MANIFEST.json'))
assert set(old) <= set(m), set(old) - set(m)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
