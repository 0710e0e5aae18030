//! One of the simulated process's threads runs at a time; at every seam the schedule decides who goes on.
use crate::choices::Choices;
use crate::seams::HostFailure;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

pub struct St { pub ch: Choices, cur: usize, quantum: u32, mode: u32, pub state: Vec<S>, pub switches: u64, pub steps: u64, pub hash: u64, pub blocked_seen: u64 }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S { Ready, Blocked, Done }
pub struct Sched { pub m: Mutex<St>, cvs: Vec<Condvar>, pub tids: Mutex<Vec<i32>>, pub all: Condvar }
struct Ctx { s: Arc<Sched>, me: usize, calls: u64, abort_at: u64 }
thread_local!(static CTX: RefCell<Option<Ctx>> = RefCell::new(None));

impl Sched {
    pub fn new(mut ch: Choices, n: usize) -> Arc<Sched> {
        let mode = ch.next(4);
        let mut st = St { ch, cur: 0, quantum: 0, mode, state: vec![S::Ready; n], switches: 0, steps: 0, hash: 7, blocked_seen: 0 };
        st.pick();
        Arc::new(Sched { m: Mutex::new(st), cvs: (0..n).map(|_| Condvar::new()).collect(), tids: Mutex::new(vec![0; n]), all: Condvar::new() })
    }
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.cur != me { g = self.cvs[me].wait(g).unwrap(); }
    }
    pub fn start(self: &Arc<Self>, me: usize) {
        self.tids.lock().unwrap()[me] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
        CTX.with(|c| *c.borrow_mut() = Some(Ctx { s: self.clone(), me, calls: 0, abort_at: 0 }));
        self.wait(me);
    }
    pub fn end(&self, me: usize) {
        CTX.with(|c| *c.borrow_mut() = None);
        let mut g = self.m.lock().unwrap();
        g.state[me] = S::Done;
        if g.cur == me { g.pick(); let c = g.cur; if c < g.state.len() { self.cvs[c].notify_one(); } }
        self.all.notify_all();
    }
    fn point(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.steps += 1;
        if g.cur == me {
            if g.quantum > 0 { g.quantum -= 1; return; }
            g.pick();
            if g.cur == me { return; }
            let c = g.cur; if c < g.state.len() { self.cvs[c].notify_one(); }
        } else { // was blocked when the others went on without it
            g.state[me] = S::Ready;
            if g.cur >= g.state.len() { g.cur = me; g.quantum = 0; return; }
        }
        while g.cur != me { g = self.cvs[me].wait(g).unwrap(); }
    }
    /// the running thread waits for something another one has: go on with the others
    pub fn pass_blocked(&self) -> bool {
        let mut g = self.m.lock().unwrap();
        let c = g.cur; if c >= g.state.len() { return false; }
        g.state[c] = S::Blocked; g.blocked_seen += 1;
        g.pick();
        let c = g.cur; if c < g.state.len() { self.cvs[c].notify_one(); true } else { false }
    }
    pub fn current(&self) -> usize { self.m.lock().unwrap().cur }
}
impl St {
    fn pick(&mut self) {
        let ready: Vec<usize> = (0..self.state.len()).filter(|i| self.state[*i] == S::Ready).collect();
        if ready.is_empty() { self.cur = usize::MAX; return; }
        // the first option is to go on with the one that runs
        let mut order = ready.clone(); order.sort_by_key(|i| (*i != self.cur, *i));
        let k = self.ch.next(order.len() as u32) as usize;
        if order[k] != self.cur { self.switches += 1; }
        self.cur = order[k];
        // how long it runs: sequential, coarse, fine, mixed
        self.quantum = match self.mode { 0 => u32::MAX, 1 => 50 + self.ch.next(2000), 2 => self.ch.next(12), _ => [0, 3, 20, 120, 700, 4000][self.ch.next(6) as usize] };
        self.hash = crate::choices::mix(self.hash, (self.cur as u64) << 40 ^ self.steps);
    }
}
/// a call into the host: may be the one that fails
pub fn host() {
    let fail = CTX.with(|c| {
        let mut c = c.borrow_mut();
        match &mut *c { Some(x) => { x.calls += 1; x.abort_at != 0 && x.calls == x.abort_at } None => false }
    });
    if fail { std::panic::panic_any(HostFailure); }
    step();
}
pub fn step() {
    let x = CTX.with(|c| c.borrow().as_ref().map(|x| (x.s.clone(), x.me)));
    if let Some((s, me)) = x { s.point(me); }
}
pub fn job(abort_at: u64) { CTX.with(|c| if let Some(x) = &mut *c.borrow_mut() { x.calls = 0; x.abort_at = abort_at; }); }
pub fn calls() -> u64 { CTX.with(|c| c.borrow().as_ref().map_or(0, |x| x.calls)) }
pub fn simulated() -> bool { CTX.try_with(|c| c.try_borrow().map_or(true, |c| c.is_some())).unwrap_or(false) }
