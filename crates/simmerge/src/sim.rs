//! One simulated deployment: workers that run instrumented files, collectors that aggregate, a network and disks that fail.
use crate::choices::Choices;
use crate::gen::{self, FileU};
use crate::model::{read, Agg, Model};
use crate::oracle::*;
use istanbul_oxide::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::cmp::Reverse;
use std::rc::Rc;

pub struct Viol { pub cls: String, pub msg: String }
pub type R<T> = Result<T, Viol>;
fn v<T>(cls: &str, msg: String) -> R<T> { Err(Viol { cls: cls.into(), msg }) }
pub struct Out { pub viol: Option<Viol>, pub hash: u64, pub state: u64, pub events: u64, pub adds: u64, pub time: u64, pub stats: BTreeMap<&'static str, u64>, pub trace: Vec<String>, pub moved: bool }

pub struct Conf { pub filter: u32, pub reset: u32, pub dups: u32, pub big: u32, pub crash: u32, pub oracle: u32 }
pub const LOC: u32 = 1; pub const CONV: u32 = 2; pub const TRUTH: u32 = 4; pub const FORM: u32 = 8; pub const SUMM: u32 = 16; pub const REST: u32 = 32; pub const RESET: u32 = 64;
pub fn conf(p: &str) -> Option<Conf> {
    Some(match p {
        "C11" => Conf { filter: 1, reset: 0, dups: 15, big: 6, crash: 4, oracle: LOC },
        "C12" => Conf { filter: 0, reset: 0, dups: 10, big: 4, crash: 3, oracle: CONV },
        "C13" => Conf { filter: 1, reset: 1, dups: 0, big: 5, crash: 3, oracle: TRUTH },
        "C14" => Conf { filter: 6, reset: 3, dups: 0, big: 4, crash: 3, oracle: FORM },
        "C15" => Conf { filter: 3, reset: 2, dups: 0, big: 5, crash: 2, oracle: SUMM },
        "C16" => Conf { filter: 2, reset: 2, dups: 5, big: 4, crash: 12, oracle: REST },
        "C17" => Conf { filter: 1, reset: 12, dups: 0, big: 4, crash: 3, oracle: RESET },
        _ => return None,
    })
}
#[derive(Clone)]
enum Pay { Report(Rc<FileCoverage>), Map(Rc<CoverageMap>) }
/// what a payload contributes: report ids for bookkeeping, its content for the model
#[derive(Clone)]
struct Msg { id: u64, to: usize, pay: Pay, model: Rc<Model>, ids: Rc<Vec<u64>>, bytes: Option<Rc<String>> }
#[derive(Clone)]
enum Op { Add(Rc<FileCoverage>), Merge(Rc<CoverageMap>), Keep(Rc<BTreeSet<String>>), Reset(Rc<BTreeSet<String>>) }
#[derive(Clone, Default)]
struct Mem { model: Model, ids: Vec<u64>, seen: BTreeSet<u64>, log: Vec<Op>, touched: BTreeSet<String> }
struct Disk { text: String, mem: Mem, torn: bool }
struct Coll { map: CoverageMap, mem: Mem, slots: [Option<Disk>; 2], next: usize, parent: Option<usize>, up: bool, high: Option<BTreeMap<String, Sum>> }
struct Worker { live: BTreeMap<usize, FileCoverage> }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev { Work(usize), Deliver(u64), Retry(u64), Save(usize), Restart(usize), Forward(usize), Chaos(usize), Heal }

pub struct Sim<'a> {
    ch: &'a mut Choices, c: Conf, files: Vec<FileU>, colls: Vec<Coll>, workers: Vec<Worker>, msgs: BTreeMap<u64, Msg>, tries: BTreeMap<u64, u32>, lost: BTreeSet<u64>,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>, now: u64, seq: u64, faults: bool, part: Option<usize>, dups: bool, logic: u32, all_reports: BTreeMap<u64, (String, Rc<Agg>, Rc<FileCoverage>)>,
    stats: BTreeMap<&'static str, u64>, trace: Vec<String>, hash: u64, events: u64, adds: u64, tracing: bool, next_id: u64, moved: bool, lossy: bool,
}
fn fold(h: u64, s: &str) -> u64 { let mut h = h; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) } h }
fn text_of(r: &FileCoverage) -> String { serde_json::to_string(r).unwrap() }

impl<'a> Sim<'a> {
    /// something is still under way
    fn open(&self) -> bool {
        self.tries.keys().any(|i| !self.lost.contains(i)) || self.colls.iter().enumerate().any(|(k, c)| !c.up || k > 0 && !c.mem.ids.is_empty()) || self.q.iter().any(|x| !matches!(x.0 .2, Ev::Save(_) | Ev::Forward(_)))
    }
    fn note(&mut self, k: &'static str) { *self.stats.entry(k).or_default() += 1; }
    fn tr(&mut self, s: String) { self.hash = fold(self.hash, &s); if self.tracing { self.trace.push(format!("{:>6} ms  {}", self.now, s)); } }
    fn at(&mut self, d: u64, e: Ev) { self.seq += 1; self.q.push(Reverse((self.now + d, self.seq, e))); }
    fn id(&mut self) -> u64 { self.next_id += 1; self.next_id }

    fn content(r: &FileCoverage) -> R<Model> { let mut m = Model::default(); m.files.insert(r.path.clone(), read(r).map_err(|e| Viol { cls: "malformed".into(), msg: format!("a worker's report is malformed: {e}") })?); Ok(m) }

    /// the collector takes one payload in
    fn take(&mut self, c: usize, m: &Msg) -> R<()> {
        self.adds += 1;
        let how = self.ch.next(4);
        let twice = self.ch.chance(10);
        let wire: Option<String> = m.bytes.as_ref().map(|b| b.to_string());
        let col = &mut self.colls[c];
        match &m.pay {
            Pay::Report(r) => {
                let before = text_of(r);
                let r: Rc<FileCoverage> = match &wire { Some(b) => { let x: FileCoverage = serde_json::from_str(b).map_err(|e| Viol { cls: "restore".into(), msg: format!("a report cannot be read: {e}") })?; if x != **r { return v("restore", format!("report read back as {} from {b}", text_of(&x))); } Rc::new(x) } None => r.clone() };
                match how {
                    1 => { let one = CoverageMap::from_iter(vec![&*r]); col.map.merge(&one); if self.c.oracle & CONV != 0 && text(&one) != format!("[{before}]") { return v("source-changed", format!("the merged map was {before} and is now {}", text(&one))); } }
                    2 => {
                        // a map that already has the report takes the collector in, then replaces it
                        if twice && col.map.get_coverage_for_file(&r.path).is_none() { let mut one = CoverageMap::from_iter(vec![&*r]); one.merge(&col.map); col.map = one; } else { col.map.add_coverage_for_file(&r); }
                    }
                    _ => col.map.add_coverage_for_file(&r),
                }
                if self.c.oracle & CONV != 0 && text_of(&r) != before { return v("source-changed", format!("the added report was {before} and is now {}", text_of(&r))); }
                col.mem.log.push(Op::Add(r.clone()));
            }
            Pay::Map(x) => {
                let x: Rc<CoverageMap> = match &wire { Some(b) => { let l: Vec<FileCoverage> = serde_json::from_str(b).map_err(|e| Viol { cls: "restore".into(), msg: format!("a saved collector cannot be read: {e}") })?; Rc::new(CoverageMap::from_iter(l.iter())) } None => x.clone() };
                let before = text(&x);
                if how == 1 { for f in x.get_files() { col.map.add_coverage_for_file(x.get_coverage_for_file(f).unwrap()); } } else { col.map.merge(&x); }
                if self.c.oracle & CONV != 0 && text(&x) != before { return v("source-changed", format!("the merged collector was {before} and is now {}", text(&x))); }
                col.mem.log.push(Op::Merge(x.clone()));
            }
        }
        col.mem.model.merge(&m.model);
        col.mem.ids.extend(m.ids.iter());
        col.mem.seen.insert(m.id);
        if m.model.files.values().any(|a| a.s.values().chain(a.f.values()).any(|x| *x > 0)) { self.moved = true; }
        self.check(c, true)
    }
    /// invariants at every instant
    fn check(&mut self, c: usize, added: bool) -> R<()> {
        let o = self.c.oracle;
        let col = &mut self.colls[c];
        let hits = |only: Option<&BTreeSet<String>>, col: &Coll| -> R<()> {
            let is = view(&col.map).map_err(|e| Viol { cls: "malformed".into(), msg: e })?;
            for (p, want) in &col.mem.model.files { if only.map_or(true, |o| o.contains(p)) { match is.files.get(p) { None => return v("hits", format!("{p}: its reports are gone")), Some(x) => { if let Some(d) = x.diff(want) { return v("hits", format!("{p}: {d}")); } if only.is_some() { if let Some(d) = x.diff_t(want) { return v("hits", format!("{p}: {d}")); } } } } } }
            for p in is.files.keys() { if !col.mem.model.files.contains_key(p) { return v("hits", format!("{p}: no report of it was delivered")); } }
            Ok(())
        };
        if o & LOC != 0 { hits(None, col)?; }
        if o & RESET != 0 { let t = col.mem.touched.clone(); hits(Some(&t), col)?; }
        if o & TRUTH != 0 {
            for (p, want) in &col.mem.model.files {
                let Some(r) = col.map.get_coverage_for_file(p) else { continue };
                let mut is = std::collections::BTreeMap::new();
                if let Some(t) = &r.b_t { for (id, h) in t { let Some(b) = r.branch_map.get(id) else { return v("truthiness", format!("{p}: truthiness {id} has no branch")) }; if b.branch_type != BranchType::BinaryExpr { return v("truthiness", format!("{p}: truthiness at a {:?} branch", b.branch_type)); } is.insert(crate::model::bkey(b), h.iter().map(|x| *x as u64).collect::<Vec<_>>()); } }
                let x = Agg { t: Some(is), ..Default::default() };
                if let Some(d) = x.diff_t(want) { return v("truthiness", format!("{p}: {d}")); }
            }
        }
        if o & FORM != 0 {
            well_formed(&col.map).map_err(|e| Viol { cls: "malformed".into(), msg: e })?;
            // every file that was added and not filtered out is there under its own path, and no other one
            let is: BTreeSet<&String> = col.map.get_files().into_iter().collect(); let want: BTreeSet<&String> = col.mem.model.files.keys().collect();
            if is != want { return v("malformed", format!("has the files {is:?}, was given {want:?}")); }
        }
        if o & SUMM != 0 {
            check_map(&col.map).map_err(|e| Viol { cls: "summary".into(), msg: e })?;
            let mut cur = BTreeMap::new();
            for f in col.map.get_files() { cur.insert(f.clone(), file_sum(col.map.get_coverage_for_file(f).unwrap()).map_err(|e| Viol { cls: "summary".into(), msg: e })?); }
            cur.insert("\u{0}all".into(), map_sum(&col.map).map_err(|e| Viol { cls: "summary".into(), msg: e })?);
            if added { if let Some(h) = &col.high { for (f, a) in h { match cur.get(f) { None => return v("summary", format!("{f} disappeared when a report was added")), Some(b) => if b.l.covered < a.l.covered || b.s.covered < a.s.covered || b.f.covered < a.f.covered || b.b.covered < a.b.covered || b.t.covered < a.t.covered { return v("summary", format!("{f}: covered decreased when a report was added: {a:?} to {b:?}")) } } } } }
            col.high = Some(cur);
            let n = col.map.get_files().len();
            if n > 1 { let mut ord: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { let j = self.ch.next(i as u32 + 1) as usize; ord.swap(i, j); } let col = &self.colls[c]; let a = map_sum_by(&col.map, &ord).map_err(|e| Viol { cls: "summary".into(), msg: e })?; let b = map_sum(&col.map).map_err(|e| Viol { cls: "summary".into(), msg: e })?; if a != b { return v("summary", format!("summaries merged in the order {ord:?} give {a:?} instead of {b:?}")); } }
        }
        Ok(())
    }
    /// the same reports aggregated along another topology (C12)
    fn regroup(&mut self, c: usize) -> R<()> {
        let ids = self.colls[c].mem.ids.clone();
        let mut parts: Vec<CoverageMap> = vec![];
        let mut order = ids.clone();
        for i in (1..order.len()).rev() { let j = self.ch.next(i as u32 + 1) as usize; order.swap(i, j); }
        let leaves = 1 + self.ch.next(3.min(order.len() as u32 + 1)) as usize;
        for _ in 0..leaves { parts.push(if self.ch.chance(50) { CoverageMap::new() } else { CoverageMap::default() }); }
        for id in &order {
            let r = self.all_reports[id].2.clone();
            let k = self.ch.next(leaves as u32) as usize;
            match self.ch.next(5) {
                1 => { let one = CoverageMap::from_iter(vec![&*r]); parts[k].merge(&one); }
                2 => { let mut f = FileCoverage::from_file_coverage(&r); if let Some(x) = parts[k].get_coverage_for_file(&r.path) { let mut y = x.clone(); y.merge(&f); f = y; let p = f.path.clone(); parts[k].filter(|z| z.path != p); } parts[k].add_coverage_for_file(&f); }
                3 => { let e = CoverageMap::new(); parts[k].merge(&e); let mut n = CoverageMap::new(); n.merge(&parts[k]); n.add_coverage_for_file(&r); parts[k] = n; }
                _ => parts[k].add_coverage_for_file(&r),
            }
            if self.ch.chance(10) { let l: Vec<FileCoverage> = serde_json::from_str(&text(&parts[k])).map_err(|e| Viol { cls: "restore".into(), msg: e.to_string() })?; parts[k] = CoverageMap::from_iter(l.iter()); }
        }
        while parts.len() > 1 { let i = self.ch.next(parts.len() as u32) as usize; let x = parts.swap_remove(i); let j = self.ch.next(parts.len() as u32) as usize; let before = text(&x); parts[j].merge(&x); if text(&x) != before { return v("source-changed", "the merged collector changed".into()); } }
        self.note("regroupings");
        let other = parts.pop().unwrap();
        let (a, b) = (view(&self.colls[c].map).map_err(|e| Viol { cls: "malformed".into(), msg: e })?, view(&other).map_err(|e| Viol { cls: "malformed".into(), msg: e })?);
        let order: Vec<u64> = order;
        if a.files.keys().collect::<Vec<_>>() != b.files.keys().collect::<Vec<_>>() { return v("diverged", format!("files {:?} and {:?} after the same reports {order:?}", a.files.keys().collect::<Vec<_>>(), b.files.keys().collect::<Vec<_>>())); }
        for (p, x) in &a.files { let y = &b.files[p]; if let Some(d) = x.diff(y).or(x.diff_t(y)) { return v("diverged", format!("{p}: {d} by a collector with the same reports")); } }
        let (a, b) = (derived(&self.colls[c].map), derived(&other));
        if a != b { return v("diverged", format!("totals {a:?} and {b:?} after the same reports")); }
        Ok(())
    }
    fn send(&mut self, m: Msg) { let id = m.id; self.msgs.insert(id, m); self.tries.insert(id, 0); self.transmit(id); }
    fn transmit(&mut self, id: u64) {
        let to = self.msgs[&id].to;
        let n = self.tries.get_mut(&id).map(|x| { *x += 1; *x }).unwrap_or(1);
        let cut = self.part == Some(to);
        if self.faults && (cut || self.ch.chance(20)) { self.note(if cut { "messages_blocked_by_partition" } else { "messages_dropped" }); self.tr(format!("message {id} to collector {to} is lost")); }
        else { let d = if self.ch.chance(20) { self.note("messages_delayed"); 500 + self.ch.next(4000) as u64 } else { 1 + self.ch.next(40) as u64 }; self.at(d, Ev::Deliver(id)); if self.faults && self.ch.chance(12) { self.note("messages_duplicated"); let d = 1 + self.ch.next(6000) as u64; self.at(d, Ev::Deliver(id)); } }
        // a sender that gives up loses exactly this report
        if self.lossy && self.faults && n >= 2 && self.ch.chance(30) && matches!(self.msgs[&id].pay, Pay::Report(_)) { self.note("reports_given_up"); self.lost.insert(id); self.tr(format!("the sender of message {id} gives up")); } else { let d = 900 + self.ch.next(300) as u64; self.at(d, Ev::Retry(id)); }
    }
    fn report(&mut self, r: FileCoverage, to: usize) -> R<()> {
        let id = self.id();
        let m = Rc::new(Self::content(&r)?);
        let r = Rc::new(r);
        let bytes = if self.ch.chance(50) {
            let mut t = text_of(&r);
            // members of other tools and of the emitted record
            if self.ch.chance(40) { t.insert_str(1, "\"_coverageSchema\":\"x\",\"hash\":\"1\","); }
            if self.ch.chance(10) { t = t.replacen("\"all\":false,", "", 1); }
            Some(Rc::new(t))
        } else { None };
        self.tr(format!("report {id} of {:?} ({}{}) is sent to collector {to}: s {:?} f {:?} b {:?} t {:?}", r.path, if r.all { "placeholder, " } else { "" }, if bytes.is_some() { "as text" } else { "in memory" }, r.s, r.f, r.b, r.b_t));
        let a = Rc::new(m.files.values().next().unwrap().clone());
        self.all_reports.insert(id, (r.path.clone(), a, r.clone()));
        self.send(Msg { id, to, pay: Pay::Report(r), model: m, ids: Rc::new(vec![id]), bytes });
        Ok(())
    }
    fn work(&mut self, w: usize) -> R<()> {
        let leaves: Vec<usize> = (0..self.colls.len()).filter(|c| *c > 0 || self.colls.len() == 1).collect();
        let to = leaves[self.ch.next(leaves.len() as u32) as usize];
        if self.workers[w].live.is_empty() || self.ch.chance(15) {
            // a (re)started worker; the old one's unflushed hits die with it
            if !self.workers[w].live.is_empty() { self.note("worker_crashes"); self.tr(format!("worker {w} is killed")); }
            self.workers[w].live.clear();
            let logic = self.ch.next(100) < self.logic;
            for k in 0..self.files.len() { if self.ch.chance(70) { let ver = self.ch.next(self.files[k].versions.len() as u32) as usize; let f = self.files[k].clone(); let d = self.dups && self.ch.chance(50); let r = gen::blank(self.ch, &f, ver, logic, false, d); self.workers[w].live.insert(k, r); } }
            self.tr(format!("worker {w} starts (truthiness {logic}), loads {:?}", self.workers[w].live.keys().collect::<Vec<_>>()));
            if self.ch.chance(40) { // placeholders for what was not loaded
                for k in 0..self.files.len() { if !self.workers[w].live.contains_key(&k) { let f = self.files[k].clone(); let r = gen::blank(self.ch, &f, f.stub, f.stub_logic, true, false); self.note("placeholders"); self.report(r, to)?; } }
            }
            return Ok(());
        }
        let ks: Vec<usize> = self.workers[w].live.keys().copied().collect();
        let k = ks[self.ch.next(ks.len() as u32) as usize];
        let big = self.c.big;
        let mut r = self.workers[w].live.remove(&k).unwrap();
        gen::run(self.ch, &mut r, big);
        if self.ch.chance(60) {
            // flush: the snapshot goes out, the live record starts over
            self.report(r.clone(), to)?;
            let before = r.clone();
            r.reset_hits();
            if self.c.oracle & RESET != 0 { Self::reset_ok(&before, &r)?; }
        }
        self.workers[w].live.insert(k, r);
        Ok(())
    }
    fn reset_ok(before: &FileCoverage, after: &FileCoverage) -> R<()> {
        let mut want = before.clone();
        for x in want.s.values_mut() { *x = 0 } for x in want.f.values_mut() { *x = 0 } for x in want.b.values_mut() { for y in x { *y = 0 } }
        if let Some(t) = &mut want.b_t { for x in t.values_mut() { for y in x { *y = 0 } } }
        if &want != after { return v("reset", format!("after a reset {} became {}", text_of(before), text_of(after))); }
        Ok(())
    }
    /// write the collector down; a torn write leaves a prefix
    fn save(&mut self, c: usize, torn: bool) -> R<bool> {
        let t = text(&self.colls[c].map);
        if self.c.oracle & REST != 0 {
            for f in self.colls[c].map.get_files() {
                let r = self.colls[c].map.get_coverage_for_file(f).unwrap();
                let s = text_of(r);
                let back: FileCoverage = serde_json::from_str(&s).map_err(|e| Viol { cls: "restore".into(), msg: format!("{s} cannot be read back: {e}") })?;
                if &back != r || text_of(&back) != s { return v("restore", format!("{s} is read back as {}", text_of(&back))); }
                let (a, b) = (check_file(r), check_file(&back)); if a != b { return v("restore", format!("{s}: observable results {a:?} became {b:?}")); }
                for (id, b) in &r.branch_map { let x = &back.branch_map[id]; if x.line != b.line || x.loc != b.loc { return v("restore", format!("branch {id} lost its line or range")); } }
                if back.b_t.is_none() != r.b_t.is_none() || back.input_source_map != r.input_source_map || back.all != r.all { return v("restore", format!("{s}: optional data changed")); }
            }
        }
        let slot = self.colls[c].next;
        let mut n = if torn { self.note("torn_writes"); self.ch.next(t.len() as u32) as usize } else { t.len() };
        while !t.is_char_boundary(n) { n -= 1 }
        let mem = self.colls[c].mem.clone();
        self.colls[c].slots[slot] = Some(Disk { text: t[..n].to_string(), mem, torn });
        self.note("saves");
        self.tr(format!("collector {c} saves to slot {slot}{}", if torn { format!(", torn after {n} of {} bytes", t.len()) } else { String::new() }));
        if !torn { self.colls[c].next = 1 - slot; self.ack(c); }
        Ok(!torn)
    }
    fn ack(&mut self, c: usize) { let Some(d) = &self.colls[c].slots[1 - self.colls[c].next] else { return }; let seen: Vec<u64> = d.mem.seen.iter().copied().collect(); for id in seen { if self.tries.contains_key(&id) && (!self.faults || !self.ch.chance(10)) { self.tries.remove(&id); } } }
    fn crash(&mut self, c: usize) -> R<()> {
        self.note("collector_crashes");
        if self.ch.chance(40) { self.save(c, true)?; }
        let col = &mut self.colls[c];
        col.up = false; col.map = CoverageMap::new(); col.mem = Mem::default(); col.high = None;
        self.tr(format!("collector {c} is killed"));
        let d = 50 + self.ch.next(2000) as u64;
        self.at(d, Ev::Restart(c));
        Ok(())
    }
    fn restart(&mut self, c: usize) -> R<()> {
        // newest complete state first: the slot written last, then the one before
        let last = 1 - self.colls[c].next;
        if let Some(d) = &self.colls[c].slots[1 - last] { if d.torn {
            if let Ok(x) = serde_json::from_str::<Vec<FileCoverage>>(&d.text) { return v("restore", format!("an incomplete save of {} bytes is accepted as {} records: {}", d.text.len(), x.len(), d.text)); }
            self.note("torn_saves_rejected");
        } }
        if let Some(d) = &self.colls[c].slots[last] {
            let l: Vec<FileCoverage> = serde_json::from_str(&d.text).map_err(|e| Viol { cls: "restore".into(), msg: format!("the saved state cannot be read: {e}: {}", d.text) })?;
            let mem = d.mem.clone();
            let col = &mut self.colls[c];
            col.map = CoverageMap::from_iter(l.iter()); col.mem = mem;
        }
        self.colls[c].up = true; self.colls[c].high = None;
        self.tr(format!("collector {c} restarts with {} reports", self.colls[c].mem.ids.len()));
        if self.c.oracle & REST != 0 { self.twin(c)?; }
        self.check(c, false)
    }
    /// a collector that did the same without ever being saved, killed or restored
    fn twin(&mut self, c: usize) -> R<()> {
        let mut m = CoverageMap::new();
        for op in &self.colls[c].mem.log { match op { Op::Add(r) => m.add_coverage_for_file(r), Op::Merge(x) => m.merge(x), Op::Keep(k) => m.filter(|f| k.contains(&f.path)), Op::Reset(k) => m = reset_in(&m, k) } }
        self.note("compared_with_uncrashed_twin");
        let (a, b) = (view(&self.colls[c].map).map_err(|e| Viol { cls: "malformed".into(), msg: e })?, view(&m).map_err(|e| Viol { cls: "malformed".into(), msg: e })?);
        if a != b { return v("restore", format!("restored collector has {} and one that never crashed has {}", text(&self.colls[c].map), text(&m))); }
        for f in m.get_files() { if self.colls[c].map.get_coverage_for_file(f).map(|r| (&r.input_source_map, r.all, r.b_t.is_some())) != m.get_coverage_for_file(f).map(|r| (&r.input_source_map, r.all, r.b_t.is_some())) { return v("restore", format!("{f}: optional data of the restored collector differs")); } }
        match (derived(&self.colls[c].map), derived(&m)) { (a, b) if a == b => Ok(()), (a, b) => v("restore", format!("restored totals {a:?}, without a crash {b:?}")) }
    }
    fn chaos(&mut self, c: usize) -> R<()> {
        let w = [3, 3, self.c.filter, self.c.reset, if self.faults { self.c.crash } else { 0 }, if self.faults && self.part.is_none() { 2 } else { 0 }, if self.c.oracle & CONV != 0 { 8 } else { 0 }];
        match self.ch.pick(&w) {
            0 => { self.note("merges_with_empty"); let e = CoverageMap::new(); let col = &mut self.colls[c]; if self.ch.chance(50) { col.map.merge(&e); } else { let mut n = CoverageMap::default(); n.merge(&col.map); col.map = n; } self.tr(format!("collector {c} merges with an empty one")); self.check(c, true) }
            1 => { self.note("rebuilds"); let col = &mut self.colls[c]; let l: Vec<FileCoverage> = if self.ch.chance(50) { serde_json::from_str(&text(&col.map)).map_err(|e| Viol { cls: "restore".into(), msg: e.to_string() })? } else { col.map.get_files().into_iter().map(|f| col.map.get_coverage_for_file(f).unwrap().clone()).collect() }; col.map = CoverageMap::from_iter(l.iter()); self.tr(format!("collector {c} is rebuilt from its records")); if self.c.oracle & REST != 0 { self.twin(c)?; } self.check(c, true) }
            2 => {
                self.note("filters");
                let col = &mut self.colls[c];
                let before: BTreeMap<String, FileCoverage> = col.map.get_files().into_iter().map(|f| (f.clone(), col.map.get_coverage_for_file(f).unwrap().clone())).collect();
                let kind = self.ch.next(4); let n = self.ch.next(5) as usize;
                let pred = |f: &FileCoverage| match kind { 0 => f.path.len() % 5 != n, 1 => f.s.values().any(|h| *h > 0), 2 => f.b_t.is_none(), _ => f.s.len() + f.b.len() != n };
                let keep: BTreeSet<String> = before.values().filter(|f| pred(f)).map(|f| f.path.clone()).collect();
                col.map.filter(pred);
                if self.c.oracle & FORM != 0 {
                    let is: BTreeSet<String> = col.map.get_files().into_iter().cloned().collect();
                    if is != keep { return v("filter", format!("kept {is:?}, the predicate keeps {keep:?}")); }
                    for f in &is { if col.map.get_coverage_for_file(f) != Some(&before[f]) { return v("filter", format!("filtering changed the record of {f}: {} became {}", text_of(&before[f]), text_of(col.map.get_coverage_for_file(f).unwrap()))); } }
                }
                col.mem.model.files.retain(|f, _| keep.contains(f)); col.mem.touched.retain(|f| keep.contains(f));
                col.mem.log.push(Op::Keep(Rc::new(keep.clone())));
                col.high = None;
                self.tr(format!("collector {c} is filtered to {keep:?}"));
                self.check(c, false)
            }
            3 => {
                self.note("resets");
                let fs: Vec<String> = self.colls[c].map.get_files().into_iter().cloned().collect();
                let which: BTreeSet<String> = fs.into_iter().filter(|_| self.ch.chance(60)).collect();
                let col = &mut self.colls[c];
                if self.c.oracle & RESET != 0 { for f in &which { let b = col.map.get_coverage_for_file(f).unwrap(); let mut a = b.clone(); a.reset_hits(); Self::reset_ok(b, &a)?; } }
                col.map = reset_in(&col.map, &which);
                for f in &which { if let Some(a) = col.mem.model.files.get_mut(f) { a.zero() } col.mem.touched.insert(f.clone()); }
                col.mem.log.push(Op::Reset(Rc::new(which.clone())));
                col.high = None;
                self.tr(format!("collector {c} resets {which:?}"));
                self.check(c, false)
            }
            4 => self.crash(c),
            5 => { self.note("partitions"); self.part = Some(c); self.tr(format!("collector {c} is cut off")); let d = 500 + self.ch.next(5000) as u64; self.at(d, Ev::Heal); Ok(()) }
            _ => self.regroup(c),
        }
    }
    fn forward(&mut self, c: usize) -> R<()> {
        let Some(p) = self.colls[c].parent else { return Ok(()) };
        if self.colls[c].mem.ids.is_empty() && (!self.faults || !self.ch.chance(10)) { return Ok(()); }
        // durable hand-over: the new epoch and the outgoing message are written together
        let col = &mut self.colls[c];
        let map = Rc::new(std::mem::replace(&mut col.map, CoverageMap::new()));
        let (model, ids) = (Rc::new(std::mem::take(&mut col.mem.model)), Rc::new(std::mem::take(&mut col.mem.ids)));
        col.mem.log.clear(); col.high = None; col.mem.touched.clear();
        let id = self.id();
        let bytes = if self.ch.chance(50) { Some(Rc::new(text(&map))) } else { None };
        self.tr(format!("collector {c} forwards {} reports to collector {p} as message {id}", ids.len()));
        self.note("forwards");
        self.save(c, false)?;
        self.send(Msg { id, to: p, pay: Pay::Map(map), model, ids, bytes });
        Ok(())
    }
    fn deliver(&mut self, id: u64) -> R<()> {
        let Some(m) = self.msgs.get(&id).cloned() else { return Ok(()) };
        let c = m.to;
        if !self.colls[c].up { return Ok(()); }
        if self.faults && self.part == Some(c) { return Ok(()); }
        if self.colls[c].mem.seen.contains(&id) { self.note("duplicates_detected"); self.tr(format!("message {id} arrives again")); self.ack(c); return Ok(()); }
        self.tr(format!("message {id} is taken in by collector {c}"));
        self.note("deliveries");
        self.take(c, &m)
    }
    fn run(&mut self) -> R<()> {
        self.files = gen::files(self.ch);
        self.logic = [0, 100, 50][self.ch.pick(&[2, 4, 4])];
        if self.c.oracle & TRUTH != 0 && self.logic == 0 { self.logic = 50; }
        let d = self.c.dups; self.dups = d > 0 && self.ch.chance(d);
        self.lossy = self.ch.chance(50);
        let nc = 1 + self.ch.next(4) as usize; let nw = 1 + self.ch.next(4) as usize;
        for i in 0..nc { let parent = if i == 0 { None } else { Some(self.ch.next(i as u32) as usize) }; self.colls.push(Coll { map: CoverageMap::new(), mem: Mem::default(), slots: [None, None], next: 0, parent, up: true, high: None }); }
        for _ in 0..nw { self.workers.push(Worker { live: BTreeMap::new() }); }
        if self.tracing { let t = format!("{} files, {} workers, collectors with parents {:?}", self.files.len(), nw, self.colls.iter().map(|c| c.parent).collect::<Vec<_>>()); self.tr(t); }
        for w in 0..nw { let d = self.ch.next(50) as u64; self.at(d, Ev::Work(w)); }
        for c in 0..nc { let d = 200 + self.ch.next(400) as u64; self.at(d, Ev::Save(c)); let d = 300 + self.ch.next(900) as u64; self.at(d, Ev::Chaos(c)); if c > 0 { let d = 600 + self.ch.next(2000) as u64; self.at(d, Ev::Forward(c)); } }
        let horizon = 1500 + self.ch.next(12) as u64 * 500;
        self.faults = self.ch.chance(85);
        let mut quiet = false;
        while let Some(Reverse((t, _, e))) = self.q.pop() {
            self.now = t;
            self.events += 1;
            if !quiet && t > horizon { quiet = true; self.faults = false; self.part = None; self.tr("faults stop".into()); }
            if self.events > 5000 { return v("harness", format!("the fleet does not come to rest: open {:?} queue {:?}", self.tries.keys().filter(|i| !self.lost.contains(i)).collect::<Vec<_>>(), self.q.iter().map(|x| (x.0 .0, x.0 .2)).collect::<Vec<_>>())); }
            match e {
                Ev::Work(w) => { self.work(w)?; if !quiet { let d = 5 + self.ch.next(300) as u64; self.at(d, Ev::Work(w)); } }
                Ev::Deliver(id) => self.deliver(id)?,
                Ev::Retry(id) => if self.tries.contains_key(&id) && !self.lost.contains(&id) { self.transmit(id) },
                Ev::Save(c) => { if self.colls[c].up { self.save(c, false)?; } let open = self.open(); if !quiet || open { let d = 200 + self.ch.next(400) as u64; self.at(d, Ev::Save(c)); } }
                Ev::Restart(c) => self.restart(c)?,
                Ev::Forward(c) => { if self.colls[c].up { self.forward(c)?; } let open = self.open(); if !quiet || open { let d = 600 + self.ch.next(2000) as u64; self.at(d, Ev::Forward(c)); } }
                Ev::Chaos(c) => { if self.colls[c].up { self.chaos(c)?; } if !quiet { let d = 200 + self.ch.next(900) as u64; self.at(d, Ev::Chaos(c)); } }
                Ev::Heal => { self.part = None; self.tr("the network heals".into()) }
            }
        }
        // at rest: the root has every report that was not lost, exactly once
        let root = &self.colls[0];
        let mut n: BTreeMap<u64, u32> = BTreeMap::new(); for i in &root.mem.ids { *n.entry(*i).or_default() += 1; }
        for id in self.all_reports.keys() { if n.get(id).copied().unwrap_or(0) != 1 && !self.lost.contains(id) { return v("harness", format!("report {id} is {} times at the root", n.get(id).copied().unwrap_or(0))); } }
        if n.values().any(|x| *x > 1) { return v("harness", "a report is twice at the root".into()); }
        if self.stats.get("filters").is_none() && self.stats.get("resets").is_none() {
            // the whole history once more, from the reports alone, in yet another order
            let mut m = Model::default();
            for id in n.keys().rev() { let (p, a, _) = &self.all_reports[id]; m.add(p, a); }
            let is = view(&root.map).map_err(|e| Viol { cls: "malformed".into(), msg: e })?;
            if self.c.oracle & (LOC | REST) != 0 { if is.files.keys().collect::<Vec<_>>() != m.files.keys().collect::<Vec<_>>() { return v("hits", "the final aggregate has other files than the delivered reports".into()); } for (p, x) in &is.files { if let Some(d) = x.diff(&m.files[p]) { return v("hits", format!("finally {p}: {d}")); } } }
        }
        self.check(0, true)?;
        if self.c.oracle & CONV != 0 { for _ in 0..2 { self.regroup(0)?; } }
        if self.c.oracle & REST != 0 { self.twin(0)?; }
        Ok(())
    }
}
fn reset_in(m: &CoverageMap, which: &BTreeSet<String>) -> CoverageMap { let mut n = CoverageMap::new(); for f in m.get_files() { let mut r = m.get_coverage_for_file(f).unwrap().clone(); if which.contains(f) { r.reset_hits(); } n.add_coverage_for_file(&r); } n }

pub fn simulate(prop: &str, ch: &mut Choices, tracing: bool) -> Out {
    let c = conf(prop).expect("property");
    let mut s = Sim { ch, c, files: vec![], colls: vec![], workers: vec![], msgs: BTreeMap::new(), tries: BTreeMap::new(), lost: BTreeSet::new(), q: BinaryHeap::new(), now: 0, seq: 0, faults: true, part: None, dups: false, logic: 0, all_reports: BTreeMap::new(), stats: BTreeMap::new(), trace: vec![], hash: 0xcbf29ce484222325, events: 0, adds: 0, tracing, next_id: 0, moved: false, lossy: false };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.run()));
    let viol = match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(Viol { cls: "panic".into(), msg: p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()) }) };
    let state = s.colls.first().map(|c| fold(1, &format!("{:?}", c.mem.model))).unwrap_or(0);
    Out { viol, hash: s.hash, state, events: s.events, adds: s.adds, time: s.now, stats: s.stats, trace: s.trace, moved: s.moved }
}
