'use strict';
// What is run for each property: case profile, which observations decide it, and how much of it.
const T = ['s-table', 'f-table', 'b-table'], N = ['s-count', 'f-count', 'b-count'];
const base = { files: [1, 2], size: [25, 90], ism: 4, crlf: 5 };
const P = (o) => Object.assign({}, base, o, { classes: new Set(o.classes) });
// programs: how many per tier; K: schedules per program
const PROPS = {
  C01: { pf: P({ classes: [], hints: 20, ignore: 10, lowered: true }), K: 3, programs: [4500, 400000] },
  C02: { pf: P({ classes: ['s-table', 's-count'] }), K: 3, programs: [4500, 400000] },
  C03: { pf: P({ classes: ['f-table', 'f-count'], w: { fn: 9, cls: 6, gen: 6, async: 6 } }), K: 3, programs: [4500, 400000] },
  C04: { pf: P({ classes: ['b-table', 'b-count'], w: { logic: 10, cond: 7, dflt: 8, sw: 6, iff: 10 } }), K: 3, programs: [4500, 400000] },
  C05: { pf: P({ classes: ['t-count', ...N, ...T], logic: true, toggleLogic: true, w: { logic: 16, gen: 6, async: 6, fn: 8 } }), K: 3, programs: [4500, 250000] },
  C06: { pf: P({ classes: [...T, ...N], hints: 85, ignore: 50, fileHint: 4 }), K: 2, programs: [4500, 450000] },
  C07: { pf: P({ classes: [...T, ...N, 't-count', 'publish'], files: [2, 5], size: [10, 45], weirdNames: 50, covVar: 20, foreign: 25, steps: 45, hints: 10, processes: 12 }), K: 2, programs: [4500, 250000] },
  C08: { pf: P({ classes: [...N, 'publish'], files: [1, 3], size: [10, 45], weirdNames: 40, covVar: 50, foreign: 50, reload: 60, kinds: [[3, 'cjs'], [2, 'script'], [2, 'module']], steps: 40 }), K: 2, programs: [4500, 300000] },
  C09: { pf: P({ classes: ['wellformed', 'roundtrip'], lowered: true, snapshots: 11, weirdNames: 35, ism: 35, hints: 35, ignore: 20, crlf: 15 }), K: 1, programs: [4500, 300000] },
  C23: { pf: P({ classes: ['position'], positions: true, hints: 15, ignore: 10, weirdNames: 10, crlf: 10 }), K: 2, programs: [4500, 300000] },
  C19: { pf: P({ classes: ['debug'], debug: true, weirdNames: 35, ism: 35, hints: 35, ignore: 20, steps: 20 }), K: 1, programs: [4500, 300000] },
  C18: { pf: P({ classes: ['fleet'], fleet: true, debug: true, deploy: 40, logic: true, toggleLogic: true, files: [1, 3], size: [10, 45], weirdNames: 25, hints: 20, ignore: 15, steps: 24, processes: 6 }), K: 2, programs: [2400, 200000] },
  // the deployed plugin in a simulated host
  C20: { pf: P({ classes: ['failed', 'exclude'], plugin: true, lowered: true, files: [1, 1], size: [4, 12], exclude: 90, damage: 6, w: {} }), K: 1, programs: [6000, 600000] },
  C21: { pf: P({ classes: ['failed', 'fallback', 'output', 'exclude'], plugin: true, lowered: true, files: [1, 2], size: [6, 30], exclude: 25, damage: 55, hints: 30, ignore: 20, weirdNames: 40 }), K: 1, programs: [4000, 300000] },
  C22: { pf: P({ classes: ['failed', 'fallback', 'output', 'exclude'], plugin: true, lowered: true, files: [1, 3], size: [15, 60], exclude: 10, damage: 0, hints: 50, ignore: 30, fileHint: 4, weirdNames: 60, ism: 25 }), K: 1, programs: [3000, 200000] },
};
module.exports = { PROPS };
