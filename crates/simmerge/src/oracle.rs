//! Checks on collectors that need no knowledge of the history.
use crate::gen::loc;
use crate::model::{read, Model};
use istanbul_oxide::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn view(m: &CoverageMap) -> Result<Model, String> {
    let mut v = Model::default();
    for f in m.get_files() { v.files.insert(f.clone(), read(m.get_coverage_for_file(f).ok_or("a listed file is missing")?).map_err(|e| format!("{f}: {e}"))?); }
    Ok(v)
}
pub fn text(m: &CoverageMap) -> String { let v: Vec<&FileCoverage> = m.get_files().into_iter().map(|f| m.get_coverage_for_file(f).unwrap()).collect(); serde_json::to_string(&v).unwrap() }
pub fn well_formed(m: &CoverageMap) -> Result<(), String> {
    let files = m.get_files();
    if files.iter().collect::<BTreeSet<_>>().len() != files.len() { return Err("a file is listed twice".into()); }
    for f in files {
        let r = m.get_coverage_for_file(f).ok_or("a listed file is missing")?;
        if &r.path != f { return Err(format!("the record of {f} says it is of {}", r.path)); }
        read(r).map_err(|e| format!("{f}: {e}"))?;
        let ids = |a: Vec<&u32>, b: Vec<&u32>, w: &str| { let (x, y): (BTreeSet<_>, BTreeSet<_>) = (a.into_iter().collect(), b.into_iter().collect()); if x != y { Err(format!("{f}: {w} ids differ: {x:?} / {y:?}")) } else { Ok(()) } };
        ids(r.s.keys().collect(), r.statement_map.keys().collect(), "statement")?;
        ids(r.f.keys().collect(), r.fn_map.keys().collect(), "function")?;
        ids(r.b.keys().collect(), r.branch_map.keys().collect(), "branch")?;
        let uniq = |n: usize, k: usize, w: &str| if n != k { Err(format!("{f}: two {w} entries share a location")) } else { Ok(()) };
        uniq(r.statement_map.len(), r.statement_map.values().map(loc).collect::<BTreeSet<_>>().len(), "statement")?;
        uniq(r.fn_map.len(), r.fn_map.values().map(|x| loc(&x.loc)).collect::<BTreeSet<_>>().len(), "function")?;
        uniq(r.branch_map.len(), r.branch_map.values().map(crate::model::bkey).collect::<BTreeSet<_>>().len(), "branch")?;
    }
    Ok(())
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tot { pub total: u32, pub covered: u32 }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sum { pub l: Tot, pub s: Tot, pub f: Tot, pub b: Tot, pub t: Tot }
fn num(d: &str) -> Option<f64> { let i = d.find('(')?; d[i + 1..].trim_end_matches(')').parse().ok() }
macro_rules! tot { ($t:expr, $w:expr) => { tot!($t, $w, false) }; ($t:expr, $w:expr, $unknown:expr) => {{
    let t = $t; let pct = format!("{:?}", t.pct);
    if t.covered > t.total { return Err(format!("{}: {} covered of {}", $w, t.covered, t.total)); }
    if t.skipped != 0 { return Err(format!("{}: {} skipped", $w, t.skipped)); }
    let want = if t.total == 0 { 100.0 } else { (t.covered as u64 * 10000 / t.total as u64) as f64 / 100.0 };
    match num(&pct) { Some(p) if (p - want).abs() < 0.001 => {} None if $unknown && t.total == 0 => {} _ => return Err(format!("{}: {} for {} of {}", $w, pct, t.covered, t.total)) }
    Tot { total: t.total, covered: t.covered }
}} }
macro_rules! sum_of { ($e:expr) => { sum_of!($e, false) }; ($e:expr, $un:expr) => {{
    let x = $e.dst_totals();
    (|| -> Result<$crate::oracle::Sum, String> { Ok($crate::oracle::Sum { l: tot!(x.0, "lines", $un), s: tot!(x.1, "statements", $un), f: tot!(x.2, "functions", $un), b: tot!(x.3, "branches", $un), t: match x.4 { Some(t) => tot!(t, "truthiness", $un), None => Tot::default() } }) })()
}} }
pub fn file_sum(r: &FileCoverage) -> Result<Sum, String> { sum_of!(r.to_summary()) }
pub fn map_sum(m: &CoverageMap) -> Result<Sum, String> { sum_of!(m.get_coverage_summary(), m.get_files().is_empty()) }
/// merge order of summaries does not matter either
pub fn map_sum_by(m: &CoverageMap, order: &[usize]) -> Result<Sum, String> {
    let fs = m.get_files(); if fs.is_empty() { return Ok(Sum::default()); }
    let mut it = order.iter();
    let mut s = m.get_coverage_for_file(fs[*it.next().unwrap()]).unwrap().to_summary();
    for k in it { s.merge(&m.get_coverage_for_file(fs[*k]).unwrap().to_summary()); }
    let one = sum_of!(s)?;
    // a fleet of many such collections: totals far beyond one file's
    let mut many = s; for _ in 0..14 { let c = many; many.merge(&c); }
    let big = sum_of!(many)?;
    let k = |t: &Tot| Tot { total: t.total << 14, covered: t.covered << 14 };
    if big != (Sum { l: k(&one.l), s: k(&one.s), f: k(&one.f), b: k(&one.b), t: k(&one.t) }) { return Err(format!("16384 times {one:?} is {big:?}")); }
    Ok(one)
}
fn count<'a>(it: impl Iterator<Item = &'a u32>) -> Tot { let mut t = Tot::default(); for h in it { t.total += 1; if *h > 0 { t.covered += 1 } } t }
/// totals, line hits, uncovered lines and branch coverage by line of one record, derived from it the slow and obvious way
pub fn check_file(r: &FileCoverage) -> Result<Sum, String> {
    let mut lines: BTreeMap<u32, u32> = BTreeMap::new();
    for (id, h) in &r.s { let e = lines.entry(r.statement_map[id].start.line).or_default(); *e = (*e).max(*h); }
    let want = Sum { l: count(lines.values()), s: count(r.s.values()), f: count(r.f.values()), b: count(r.b.values().flatten()), t: r.b_t.as_ref().map(|t| count(t.values().flatten())).unwrap_or_default() };
    let is = file_sum(r)?;
    if r.to_summary().is_empty() != lines.is_empty() { return Err(format!("the summary of {} lines calls itself {}empty", lines.len(), if lines.is_empty() { "not " } else { "" })); }
    if is != want { return Err(format!("summary {is:?}, its record implies {want:?}")); }
    let l: BTreeMap<u32, u32> = r.get_line_coverage().into_iter().collect();
    if l != lines { return Err(format!("line hits {l:?}, its record implies {lines:?}")); }
    let mut u = r.get_uncovered_lines(); u.sort();
    let uw: Vec<u32> = lines.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    if u != uw { return Err(format!("uncovered lines {u:?}, its record implies {uw:?}")); }
    let mut by: BTreeMap<u32, (u32, u32)> = BTreeMap::new();
    for (id, b) in &r.branch_map { let line = b.line.unwrap_or_else(|| b.loc.unwrap().start.line); let e = by.entry(line).or_default(); for h in &r.b[id] { e.1 += 1; if *h > 0 { e.0 += 1 } } }
    let cov = r.get_branch_coverage_by_line();
    if cov.keys().copied().collect::<BTreeSet<_>>() != by.keys().copied().collect::<BTreeSet<_>>() { return Err(format!("branch lines {:?}, its record implies {:?}", cov.keys().collect::<Vec<_>>(), by.keys().collect::<Vec<_>>())); }
    for (line, c) in &cov {
        let d = format!("{c:?}");
        let n: Vec<f64> = d.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-')).filter_map(|x| x.parse::<f64>().ok()).collect();
        let (cv, tt) = by[line];
        let ok = n.len() == 3 && n[0] == cv as f64 && n[1] == tt as f64 && (if tt == 0 { n[2].is_nan() || n[2] == 100.0 } else { (n[2] - cv as f64 * 100.0 / tt as f64).abs() < 0.001 });
        if !ok { return Err(format!("branch coverage of line {line} is {d}, its record implies {cv} of {tt}")); }
    }
    Ok(is)
}
pub fn check_map(m: &CoverageMap) -> Result<(), String> {
    let mut want = Sum::default();
    for f in m.get_files() { let x = check_file(m.get_coverage_for_file(f).unwrap()).map_err(|e| format!("{f}: {e}"))?; for (a, b) in [(&mut want.l, &x.l), (&mut want.s, &x.s), (&mut want.f, &x.f), (&mut want.b, &x.b), (&mut want.t, &x.t)] { a.total += b.total; a.covered += b.covered; } }
    let is = map_sum(m)?;
    if m.get_coverage_summary().is_empty() != (want.l.total == 0) { return Err(format!("the overall summary of {} lines says the opposite of being empty or not", want.l.total)); }
    if is != want { return Err(format!("overall summary {is:?}, its files imply {want:?}")); }
    Ok(())
}
/// Totals as another collector has to derive them, whatever its ids and order are.
pub fn derived(m: &CoverageMap) -> BTreeMap<String, String> {
    let mut o = BTreeMap::new();
    for f in m.get_files() { let r = m.get_coverage_for_file(f).unwrap(); let l: BTreeMap<_, _> = r.get_line_coverage().into_iter().collect(); let b: BTreeMap<_, _> = r.get_branch_coverage_by_line().into_iter().map(|(k, v)| (k, format!("{v:?}"))).collect(); let mut u = r.get_uncovered_lines(); u.sort(); o.insert(f.clone(), format!("{:?} {:?} {:?} {:?}", file_sum(r), l, b, u)); }
    o.insert("\u{0}all".into(), format!("{:?}", map_sum(m)));
    o
}
