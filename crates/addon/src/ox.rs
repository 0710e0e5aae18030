//! Drives the real aggregation code: a list of commands over numbered collectors, executed in order.
use istanbul_oxide::{CoverageMap, FileCoverage};
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn tot(t: &impl std::fmt::Debug) -> Value { json!(format!("{:?}", t)) }

pub fn rec(v: &Value) -> Result<FileCoverage, String> {
    match v { Value::String(s) => serde_json::from_str(s).map_err(|e| e.to_string()), v => serde_json::from_value(v.clone()).map_err(|e| e.to_string()) }
}

fn one(cs: &mut BTreeMap<u64, CoverageMap>, cmd: &Value) -> Result<Value, String> {
    let op = cmd[0].as_str().unwrap_or("");
    let c = cmd[1].as_u64().unwrap_or(0);
    Ok(match op {
        // record text -> native -> text
        "roundtrip" => { let r = rec(&cmd[2])?; let s = serde_json::to_string(&r).map_err(|e| e.to_string())?; let again: FileCoverage = serde_json::from_str(&s).map_err(|e| e.to_string())?; json!({"text": s, "same": again == r}) }
        "new" => { cs.insert(c, CoverageMap::new()); Value::Null }
        "add" => { let r = rec(&cmd[2])?; cs.entry(c).or_default().add_coverage_for_file(&r); Value::Null }
        "merge" => { let d = cs.get(&cmd[2].as_u64().unwrap()).cloned().unwrap_or_default(); cs.entry(c).or_default().merge(&d); Value::Null }
        // what a collector writes to disk: one JSON array of records
        "save" => { let m = cs.entry(c).or_default(); let v: Vec<&FileCoverage> = m.get_files().into_iter().map(|f| m.get_coverage_for_file(f).unwrap()).collect(); Value::String(serde_json::to_string(&v).map_err(|e| e.to_string())?) }
        "restore" => { let v: Vec<FileCoverage> = serde_json::from_str(cmd[2].as_str().unwrap_or("")).map_err(|e| e.to_string())?; cs.insert(c, CoverageMap::from_iter(v.iter())); Value::Null }
        // the same, with the saved state kept inside of this call (a disk of numbered slots)
        "savefile" | "loadfile" => return Err("disk".into()),
        "dump" => { let m = cs.entry(c).or_default(); let mut o = serde_json::Map::new(); for f in m.get_files() { o.insert(f.clone(), serde_json::to_value(m.get_coverage_for_file(f).unwrap()).map_err(|e| e.to_string())?); } Value::Object(o) }
        "summary" => {
            let m = cs.entry(c).or_default();
            let all = m.get_coverage_summary().dst_totals();
            let mut files = serde_json::Map::new();
            for f in m.get_files() { let r = m.get_coverage_for_file(f).unwrap(); let t = r.to_summary().dst_totals();
                files.insert(f.clone(), json!({"l": tot(&t.0), "s": tot(&t.1), "f": tot(&t.2), "b": tot(&t.3), "t": t.4.map(|t| tot(&t)), "lines": r.get_line_coverage(), "uncovered": r.get_uncovered_lines()})); }
            json!({"l": tot(&all.0), "s": tot(&all.1), "f": tot(&all.2), "b": tot(&all.3), "t": all.4.map(|t| tot(&t)), "files": files})
        }
        _ => return Err(format!("op {op}")),
    })
}

pub fn run(req: &str) -> String {
    let cmds: Vec<Value> = match serde_json::from_str(req) { Ok(v) => v, Err(e) => return json!([{"err": e.to_string()}]).to_string() };
    let mut cs = BTreeMap::new();
    let mut disk: BTreeMap<u64, String> = BTreeMap::new();
    let mut out = vec![];
    for cmd in &cmds {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match cmd[0].as_str().unwrap_or("") {
            // savefile c slot fraction: fraction < 1 is a torn write
            "savefile" => { let v = one(&mut cs, &json!(["save", cmd[1]]))?; let s = v.as_str().unwrap_or("").to_string(); let fr = cmd[3].as_f64().unwrap_or(1.0); let mut n = (s.len() as f64 * fr) as usize; while !s.is_char_boundary(n) { n -= 1 } disk.insert(cmd[2].as_u64().unwrap(), s[..n].to_string()); Ok(json!(n == s.len())) }
            "loadfile" => { let s = disk.get(&cmd[2].as_u64().unwrap()).cloned().unwrap_or("[]".into()); one(&mut cs, &json!(["restore", cmd[1], s])) }
            _ => one(&mut cs, cmd),
        }));
        out.push(match r { Ok(Ok(v)) => v, Ok(Err(e)) => json!({"err": e}), Err(p) => json!({"panic": p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())}) });
    }
    Value::Array(out).to_string()
}
