'use strict';
// Every decision of a simulated run comes from a Choices stream. A stream either draws from a seeded PRNG
// (sfc32) or replays a recorded list; past the end of a recorded list every decision is 0 (the simplest option),
// which is what makes deleting and zeroing entries a sound minimisation step.
function sfc32(seed) {
  let a = 0x9e3779b9 ^ seed, b = 0x243f6a88, c = 0xb7e15162, d = (seed >>> 0) + 1 | 0;
  const f = () => { a |= 0; b |= 0; c |= 0; d |= 0; const t = (a + b | 0) + d | 0; d = d + 1 | 0; a = b ^ b >>> 9; b = c + (c << 3) | 0; c = c << 21 | c >>> 11; c = c + t | 0; return t >>> 0; };
  for (let i = 0; i < 15; i++) f();
  return f;
}
class Choices {
  constructor(seed, list) { this.rng = list ? null : sfc32(seed >>> 0); this.list = list || null; this.log = []; this.pos = 0; this.max = 1e6; }
  next(n) {
    if (n <= 1) return 0;
    let v;
    if (this.list) v = this.pos < this.list.length ? Math.min(this.list[this.pos], n - 1) : 0;
    else v = Math.floor(this.rng() / 4294967296 * n);
    this.pos++;
    this.log.push(v);
    return v;
  }
  // true with probability pct/100; replayed 0 is always "false"
  chance(pct) { return this.next(100) >= 100 - pct; }
  // weighted pick, first entry is the simplest
  pick(ws) { let t = 0; for (const w of ws) t += w[0]; if (t <= 0) return ws[0][1]; let r = this.next(t); for (const w of ws) { if (r < w[0]) return w[1]; r -= w[0]; } return ws[0][1]; }
  of(arr) { return arr[this.next(arr.length)]; }
}
const mix = (a, b) => { let h = Math.imul(a ^ 0x85ebca6b, 0xc2b2ae35) ^ b; h = Math.imul(h ^ h >>> 15, 0x2c1b3c6d); h = Math.imul(h ^ h >>> 12, 0x297a2d39); return (h ^ h >>> 15) >>> 0; };
module.exports = { Choices, mix };
