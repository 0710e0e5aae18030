//! Every decision of a simulated run comes from one stream: seeded, or a recorded list (past its end every decision is 0,
//! the simplest option, so that deleting and zeroing entries is a sound way to shrink a run).
pub struct Choices { rng: Option<u64>, list: Vec<u32>, pos: usize, pub log: Vec<u32> }
pub fn mix(a: u64, b: u64) -> u64 { let mut z = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_add(0x632be59bd9b4e019); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
impl Choices {
    pub fn seeded(s: u64) -> Self { Choices { rng: Some(s), list: vec![], pos: 0, log: vec![] } }
    pub fn list(l: Vec<u32>) -> Self { Choices { rng: None, list: l, pos: 0, log: vec![] } }
    pub fn next(&mut self, n: u32) -> u32 {
        if n <= 1 { return 0; }
        let v = match &mut self.rng {
            Some(s) => { *s = s.wrapping_add(0x9e3779b97f4a7c15); let z = mix(*s, 1); ((z >> 32) * n as u64 >> 32) as u32 }
            None => { let v = self.list.get(self.pos).copied().unwrap_or(0).min(n - 1); self.pos += 1; v }
        };
        self.log.push(v);
        v
    }
    pub fn chance(&mut self, pct: u32) -> bool { pct > 0 && self.next(100) >= 100 - pct.min(100) }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 { lo + self.next(hi - lo + 1) }
    /// weighted pick; index 0 is the simplest
    pub fn pick(&mut self, ws: &[u32]) -> usize { let t: u32 = ws.iter().sum(); if t == 0 { return 0; } let mut r = self.next(t); for (i, w) in ws.iter().enumerate() { if r < *w { return i; } r -= *w; } 0 }
}
