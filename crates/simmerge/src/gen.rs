//! Files, their versions, and the reports workers make about them.
use crate::choices::Choices;
use istanbul_oxide::*;

pub type Loc = (u32, u32, u32, u32);
pub fn loc(r: &Range) -> Loc { (r.start.line, r.start.column, r.end.line, r.end.column) }
#[derive(Clone)]
pub struct Structure { pub stmts: Vec<Range>, pub fns: Vec<Function>, pub branches: Vec<Branch> }
#[derive(Clone)]
pub struct FileU { pub path: String, pub versions: Vec<Structure>, pub stub: usize, pub stub_logic: bool, pub ism: Vec<Option<SourceMap>> }

fn range(ch: &mut Choices, used: &mut Vec<Loc>) -> Range {
    if ch.chance(2) && !used.contains(&loc(&Range::default())) { used.push(loc(&Range::default())); return Range::default(); } // no place in the file
    let mut l = ch.range(1, 6); let mut c = ch.next(6) * 4;
    if ch.chance(10) { l = 1; c = 110 + ch.next(40) * if ch.chance(20) { 7001 } else { 37 }; } // minified
    if !used.is_empty() && ch.chance(15) { // close to one there is: the same digits in other places, one end in common, far away
        let (a, b, c, d) = used[ch.next(used.len() as u32) as usize];
        let r = match ch.next(5) {
            0 if b >= 10 && d >= 10 && a < 1000 => Range::new(a * 10 + b / 10, b % 10, c * 10 + d / 10, d % 10),
            1 => Range::new(a, b, c + 1, d), 2 => Range::new(a, b, c, d + 1),
            3 if a < c || b + 1 < d => Range::new(a, b + 1, c, d),
            _ => Range::new(a + 70_000, b, c + 70_000, d + 1000),
        };
        if !used.contains(&loc(&r)) && (r.start.line, r.start.column) <= (r.end.line, r.end.column) { used.push(loc(&r)); return r; }
    }
    loop {
        let r = if ch.chance(25) { Range::new(l, c, l + 1 + ch.next(3), ch.next(9)) } else { let e = c + 1 + ch.next(12); Range::new(l, c, l, e) };
        if !used.contains(&loc(&r)) { used.push(loc(&r)); return r; }
        l += 1;
    }
}
const NAMES: [&str; 6] = ["f", "(anonymous_0)", "\u{e9}t\u{e9}", "a\"b\\", "constructor", "\u{2028}"];
fn ism(ch: &mut Choices) -> Option<SourceMap> {
    if !ch.chance(35) { return None; }
    Some(SourceMap {
        version: 3,
        file: if ch.chance(50) { Some("out.js".into()) } else { None },
        source_root: if ch.chance(50) { Some("".into()) } else { None },
        sources: vec!["a.ts".into(), "b \u{1F600}.ts".into()],
        sources_content: match ch.next(8) { 0 | 1 => Some(vec![Some("x\n".into()), None]), 2 => Some(vec![None, None]), 3 => Some(vec![]), 4 => Some(vec![Some("".into()), Some("*/".into())]), _ => None },
        names: if ch.chance(50) { vec!["n".into()] } else { vec![] },
        mappings: if ch.chance(50) { "AAAA;;CAAC".into() } else { "".into() },
    })
}
pub fn files(ch: &mut Choices) -> Vec<FileU> {
    let n = if ch.next(300) == 0 { ch.range(12, 40) } else { ch.range(1, 4) };
    let paths = ["/w/a.js", "/w/a.jsx", "C:\\w\\b.js", "/w/\u{fc} \"x\"\n.js", "", "/w/a.js/", "./a.js", "w/a.js", "\\w\\a.js", "/W/A.js", "/w/../w/a.js", " /w/a.js"];
    let mut out: Vec<FileU> = vec![];
    for i in 0..n {
        let mut p = paths[ch.next(paths.len() as u32) as usize].to_string();
        while out.iter().any(|f| f.path == p) { p = format!("/w/{i}{p}"); }
        let mut used = vec![]; let mut bused = vec![]; let mut fused = vec![];
        let pool = Structure {
            stmts: (0..ch.range(0, 8)).map(|_| range(ch, &mut used)).collect(),
            fns: (0..ch.range(0, 3)).map(|_| { let l = range(ch, &mut fused); Function { name: NAMES[ch.next(6) as usize].into(), decl: if ch.chance(50) { Range::new(l.start.line, 0, l.start.line, 3) } else { Range::new(l.start.line, l.start.column.saturating_sub(3), l.start.line, l.start.column) }, loc: l, line: l.start.line } }).collect(),
            branches: {
                let mut bs: Vec<Branch> = vec![];
                for _ in 0..ch.range(0, 5) {
                    let ty = [BranchType::If, BranchType::BinaryExpr, BranchType::Switch, BranchType::CondExpr, BranchType::DefaultArg][ch.pick(&[3, 4, 2, 1, 1])];
                    // some share their first arm with another branch (a switch that got a case more in another version)
                    let twin = if !bs.is_empty() && ch.chance(20) { let b = &bs[ch.next(bs.len() as u32) as usize]; if b.locations.len() > 1 { Some(b.clone()) } else { None } } else { None };
                    let b = if let Some(mut b) = twin {
                        if ch.chance(50) { let r = range(ch, &mut bused); b.locations.push(r); } else { let r = range(ch, &mut bused); let k = b.locations.len() - 1; b.locations[k] = r; }
                        b
                    } else {
                        let arms = match ty { BranchType::If | BranchType::CondExpr => 2, BranchType::DefaultArg => 1, BranchType::BinaryExpr => if ch.chance(8) { ch.range(5, 14) } else { ch.range(2, 4) }, BranchType::Switch => if ch.chance(8) { ch.range(4, 14) } else { [1, 2, 3, 0][ch.pick(&[3, 3, 2, 2])] } };
                        let locations: Vec<Range> = (0..arms).map(|k| if k == 1 && matches!(ty, BranchType::If) && ch.chance(40) { Range::default() } else { range(ch, &mut bused) }).collect();
                        let whole = range(ch, &mut bused);
                        let nowhere = ch.chance(6); // generated code has no place in a file
                        let whole = if nowhere { Range::default() } else { whole };
                        let line = if nowhere { 0 } else { locations.first().map(|l| l.start.line).unwrap_or(whole.start.line) };
                        match ch.pick(&[6, 1, 1]) {
                            1 if arms > 0 => Branch::from_line(ty, line, locations),
                            2 => Branch::from_loc(ty, whole, locations),
                            _ => Branch { loc: Some(whole), branch_type: ty, line: Some(line), locations },
                        }
                    };
                    if !bs.iter().any(|x| crate::model::bkey(x) == crate::model::bkey(&b)) { bs.push(b); } // reports have unique locations
                }
                bs
            },
        };
        let mut pool = pool;
        if ch.next(250) == 0 { // more than fits into a byte
            let n = ch.range(250, 330); let at = |i: u32| Range::new(5000 + i / 3, i % 3 * 9, 5000 + i / 3, i % 3 * 9 + 7);
            let k = ch.next(4);
            if k == 0 || k == 3 { for i in 0..n { pool.stmts.push(at(i)); } }
            if k == 1 || k == 3 { for i in 0..n { pool.fns.push(Function { name: NAMES[i as usize % 6].into(), decl: at(i), loc: at(i), line: at(i).start.line }); } }
            if k == 2 { pool.branches.push(Branch::from_loc(BranchType::Switch, Range::new(4999, 0, 9999, 0), (0..n).map(at).collect())); }
            if k == 3 { for i in 0..n { pool.branches.push(Branch::from_loc(BranchType::DefaultArg, at(i), vec![at(i)])); } }
        }
        let nv = ch.range(1, 3);
        let mut versions = vec![];
        for v in 0..nv {
            versions.push(if v == 0 && ch.chance(60) { pool.clone() } else {
                let mut keep = |pct| ch.chance(pct);
                Structure { stmts: pool.stmts.iter().filter(|_| keep(75)).cloned().collect(), fns: pool.fns.iter().filter(|_| keep(75)).cloned().collect(), branches: pool.branches.iter().filter(|_| keep(75)).cloned().collect() }
            });
        }
        let stub = ch.next(nv) as usize;
        let ism = (0..nv).map(|_| ism(ch)).collect();
        let stub_logic = ch.chance(50);
        out.push(FileU { path: p, versions, stub, stub_logic, ism });
    }
    out
}
pub fn hits(ch: &mut Choices, big: u32) -> u32 {
    if big > 0 && ch.chance(big) { return [u32::MAX, u32::MAX - 1, u32::MAX / 2 + 1, 1 << 31, 65536][ch.next(5) as usize]; }
    ch.pick(&[5, 3, 2, 1, 1]) as u32
}
/// An empty record of one version, with its own assignment of ids.
pub fn blank(ch: &mut Choices, f: &FileU, v: usize, logic: bool, all: bool, dups: bool) -> FileCoverage {
    let st = &f.versions[v];
    let (base, stride, order) = if ch.chance(50) { ([0, 1, 7, 900][ch.next(4) as usize], ch.range(1, 3), ch.next(3)) } else { (0, 1, 0) };
    let mut r = FileCoverage::from_file_path(f.path.clone(), logic);
    r.all = all;
    r.input_source_map = f.ism[v].clone();
    let ids = |ch: &mut Choices, n: usize| -> Vec<(u32, usize)> {
        let mut k: Vec<usize> = (0..n).collect();
        if order == 1 { k.reverse() } else if order == 2 { for i in (1..n).rev() { let j = ch.next(i as u32 + 1) as usize; k.swap(i, j); } }
        // the order of insertion and the order of ids differ
        let mut ids: Vec<(u32, usize)> = k.iter().enumerate().map(|(i, x)| (base + i as u32 * stride, *x)).collect();
        if order == 2 && n > 1 && ch.chance(50) { ids.rotate_left(1) }
        ids
    };
    let extra = if dups && !st.stmts.is_empty() { 1 } else { 0 };
    for (id, k) in ids(ch, st.stmts.len() + extra) { let k = if k == st.stmts.len() { 0 } else { k }; r.statement_map.insert(id, st.stmts[k]); r.s.insert(id, 0); }
    for (id, k) in ids(ch, st.fns.len()) { r.fn_map.insert(id, st.fns[k].clone()); r.f.insert(id, 0); }
    for (id, k) in ids(ch, st.branches.len()) {
        let b = &st.branches[k];
        r.branch_map.insert(id, b.clone()); r.b.insert(id, vec![0; b.locations.len()]);
        if let Some(t) = &mut r.b_t { if b.branch_type == BranchType::BinaryExpr { t.insert(id, vec![0; b.locations.len()]); } }
    }
    r
}
/// Some of the record's code runs.
pub fn run(ch: &mut Choices, r: &mut FileCoverage, big: u32) {
    let quiet = ch.chance(15);
    let mut h = |ch: &mut Choices| if quiet { 0 } else { hits(ch, big) };
    for x in r.s.values_mut() { *x = x.saturating_add(h(ch)); }
    for x in r.f.values_mut() { *x = x.saturating_add(h(ch)); }
    for x in r.b.values_mut() { for y in x { *y = y.saturating_add(h(ch)); } }
    let b = r.b.clone();
    if let Some(t) = &mut r.b_t { for (id, x) in t.iter_mut() { for (i, y) in x.iter_mut().enumerate() { *y = y.saturating_add(h(ch)).min(b[id][i]); } } }
}
