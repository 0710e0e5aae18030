//! What an aggregate has to contain: hits by source location, nothing else. Small enough to be obviously right.
use crate::gen::{loc, Loc};
use istanbul_oxide::*;
use std::collections::BTreeMap;

pub type BKey = (Vec<Loc>, Option<Loc>, Option<u32>);
pub fn bkey(b: &Branch) -> BKey { if b.locations.is_empty() { (vec![], b.loc.as_ref().map(loc), if b.loc.is_some() { None } else { b.line }) } else { (b.locations.iter().map(loc).collect(), None, None) } }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Agg { pub real: bool, pub s: BTreeMap<Loc, u64>, pub f: BTreeMap<Loc, u64>, pub b: BTreeMap<BKey, Vec<u64>>, pub t: Option<BTreeMap<BKey, Vec<u64>>> }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Model { pub files: BTreeMap<String, Agg> }
const MAX: u64 = u32::MAX as u64;
fn addv(a: &mut BTreeMap<BKey, Vec<u64>>, k: &BKey, v: &[u64]) { let e = a.entry(k.clone()).or_insert_with(|| vec![0; v.len()]); while e.len() < v.len() { e.push(0) } for (i, x) in v.iter().enumerate() { e[i] = (e[i] + x).min(MAX) } }
/// What a record says, location by location. Errors are malformed records.
pub fn read(r: &FileCoverage) -> Result<Agg, String> {
    let mut a = Agg { real: !r.all, ..Default::default() };
    if r.s.len() != r.statement_map.len() { return Err("statement tables differ in size".into()); }
    if r.f.len() != r.fn_map.len() { return Err("function tables differ in size".into()); }
    if r.b.len() != r.branch_map.len() { return Err("branch tables differ in size".into()); }
    for (id, h) in &r.s { let l = r.statement_map.get(id).ok_or("statement without location")?; let e = a.s.entry(loc(l)).or_default(); *e = (*e + *h as u64).min(MAX); }
    for (id, h) in &r.f { let l = r.fn_map.get(id).ok_or("function without location")?; let e = a.f.entry(loc(&l.loc)).or_default(); *e = (*e + *h as u64).min(MAX); }
    for (id, h) in &r.b { let l = r.branch_map.get(id).ok_or("branch without locations")?; if h.len() != l.locations.len() { return Err(format!("branch has {} counts for {} arms", h.len(), l.locations.len())); } addv(&mut a.b, &bkey(l), &h.iter().map(|x| *x as u64).collect::<Vec<_>>()); }
    if let Some(t) = &r.b_t {
        let mut m = BTreeMap::new();
        for (id, h) in t { let l = r.branch_map.get(id).ok_or("truthiness without branch")?; if l.branch_type != BranchType::BinaryExpr { return Err("truthiness at a branch that is not logical".into()); } if h.len() != l.locations.len() { return Err(format!("{} truthiness counts for {} operands", h.len(), l.locations.len())); } addv(&mut m, &bkey(l), &h.iter().map(|x| *x as u64).collect::<Vec<_>>()); }
        a.t = Some(m);
    }
    Ok(a)
}
impl Agg {
    pub fn add(&mut self, o: &Agg) {
        if !o.real { return; }
        if !self.real { *self = o.clone(); return; }
        for (k, v) in &o.s { let e = self.s.entry(*k).or_default(); *e = (*e + v).min(MAX); }
        for (k, v) in &o.f { let e = self.f.entry(*k).or_default(); *e = (*e + v).min(MAX); }
        for (k, v) in &o.b { addv(&mut self.b, k, v); }
        if let Some(t) = &o.t { let m = self.t.get_or_insert_with(Default::default); for (k, v) in t { addv(m, k, v); } }
    }
    pub fn zero(&mut self) { for v in self.s.values_mut() { *v = 0 } for v in self.f.values_mut() { *v = 0 } for v in self.b.values_mut() { for x in v { *x = 0 } } if let Some(t) = &mut self.t { for v in t.values_mut() { for x in v { *x = 0 } } } }
    /// hits only: statements, functions, branches
    pub fn diff(&self, o: &Agg) -> Option<String> {
        if self.s != o.s { return Some(dm("statement", &self.s, &o.s)); }
        if self.f != o.f { return Some(dm("function", &self.f, &o.f)); }
        if self.b != o.b { return Some(dm("branch", &self.b, &o.b)); }
        None
    }
    pub fn diff_t(&self, o: &Agg) -> Option<String> {
        let e = BTreeMap::new();
        // no truthiness table and an empty one say the same
        let (a, b) = (self.t.as_ref().unwrap_or(&e), o.t.as_ref().unwrap_or(&e));
        if a != b { Some(dm("truthiness of branch", a, b)) } else { None }
    }
}
fn dm<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(what: &str, is: &BTreeMap<K, V>, want: &BTreeMap<K, V>) -> String {
    for (k, v) in want { if is.get(k) != Some(v) { return format!("{what} {k:?}: {:?} where {v:?} was delivered", is.get(k)); } }
    for (k, v) in is { if !want.contains_key(k) { return format!("{what} {k:?} has {v:?} and was never delivered"); } }
    String::new()
}
impl Model {
    pub fn add(&mut self, path: &str, a: &Agg) { match self.files.get_mut(path) { Some(x) => x.add(a), None => { self.files.insert(path.into(), a.clone()); } } }
    pub fn merge(&mut self, o: &Model) { for (p, a) in &o.files { self.add(p, a) } }
}
