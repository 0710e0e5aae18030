//! sim-merge: seeded simulation of fleets that aggregate coverage with the real istanbul-oxide.
mod choices;
mod gen;
mod model;
#[macro_use]
mod oracle;
mod sim;
use choices::{mix, Choices};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn seed_of(prop: &str, seed: u64, i: u64) -> u64 { mix(mix(seed, prop.bytes().fold(7, |a, b| a * 31 + b as u64)), i) }
fn same(prop: &str, l: &[u32], cls: &str) -> Option<sim::Viol> { sim::simulate(prop, &mut Choices::list(l.to_vec()), false).viol.filter(|v| v.cls == cls) }
fn shrink(prop: &str, log: Vec<u32>, cls: &str, budget: Duration) -> Vec<u32> {
    let t0 = Instant::now(); let mut cur = log;
    loop {
        let before = cur.clone();
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < budget {
                let e = (i + size).min(cur.len());
                let mut d = cur[..i].to_vec(); d.extend_from_slice(&cur[e..]);
                if same(prop, &d, cls).is_some() { cur = d; continue; }
                if cur[i..e].iter().any(|x| *x != 0) { let mut z = cur.clone(); z[i..e].iter_mut().for_each(|x| *x = 0); if same(prop, &z, cls).is_some() { cur = z; } }
                i += size;
            }
            if size == 1 || t0.elapsed() >= budget { break; }
            size /= 2;
        }
        for i in 0..cur.len() { if cur[i] > 1 && t0.elapsed() < budget { let mut z = cur.clone(); z[i] = cur[i] / 2; if same(prop, &z, cls).is_some() { cur = z; } } }
        if cur == before || t0.elapsed() >= budget { return cur; }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "hash" => { // several runs, for comparison across processes
            let (from, n): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            for i in from..from + n { let o = sim::simulate(&a[2], &mut Choices::seeded(seed_of(&a[2], a[3].parse().unwrap(), i)), false); println!("{} {} {}", i, o.hash, o.state); }
        }
        "one" => { let o = sim::simulate(&a[2], &mut Choices::seeded(seed_of(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap())), true); for t in o.trace { println!("{t}"); } if let Some(v) = o.viol { println!("{}: {}", v.cls, v.msg) } }
        "replay" => {
            let r: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = r["property"].as_str().unwrap();
            let l: Vec<u32> = r["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let o = sim::simulate(prop, &mut Choices::list(l), true);
            for t in &o.trace { println!("{t}"); }
            match o.viol { Some(v) if v.cls == r["class"].as_str().unwrap() => { println!("{}: {}", v.cls, v.msg); if v.msg != r["message"].as_str().unwrap() { println!("(recorded: {})", r["message"].as_str().unwrap()); } println!("VIOLATION property={prop} replay={}", a[2]); std::process::exit(1) } Some(v) => { println!("another violation: {}: {}", v.cls, v.msg); std::process::exit(2) } None => println!("the violation does not happen") }
        }
        _ => check(&a[2]),
    }
}
#[derive(Default)]
struct Agg { runs: u64, events: u64, adds: u64, time: u64, stats: BTreeMap<&'static str, u64>, sigs: HashSet<u64>, states: HashSet<u64>, sample: Option<Value> }
fn check(prop: &str) {
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let total: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 40_000_000 } else { 60_000 });
    let cap = Duration::from_secs(std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 5400 } else { 240 }));
    let t0 = Instant::now();
    let w = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64;
    let next = AtomicU64::new(0); let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, String, String, Vec<u32>)>> = Mutex::new(None);
    let busy: Vec<Mutex<(u64, Option<Instant>)>> = (0..w).map(|_| Mutex::new((0, None))).collect();
    let aggs: Mutex<Vec<Agg>> = Mutex::new(vec![]);
    let live = AtomicU64::new(w);
    let finish = |bad: Option<Value>, agg: Agg, error: Option<String>| {
        let wall = t0.elapsed().as_secs_f64();
        let mut nbad = 0;
        if let Some(r) = &bad {
            nbad = 1;
            std::fs::create_dir_all("/verif/replays").unwrap();
            let p = format!("/verif/replays/{prop}-{seed}-{}.json", r["index"]);
            std::fs::write(&p, serde_json::to_string_pretty(r).unwrap()).unwrap();
            println!("{}: {}", r["class"].as_str().unwrap(), r["message"].as_str().unwrap());
            println!("VIOLATION property={prop} replay={p}");
        }
        let cov = json!({
            "evaluations": agg.runs, "distinct_nontrivial": agg.sigs.len(),
            "rule": "one evaluation is one simulated deployment (files and versions, workers, a tree of collectors, network, disks) run to rest under one seeded schedule and checked after every step; distinct = distinct event sequences with contents (hash); non-trivial = at least two reports were aggregated and some hit count was above zero",
            "samples": agg.sample.iter().collect::<Vec<_>>(), "simulated_events": agg.events, "aggregation_steps": agg.adds, "distinct_final_states": agg.states.len(),
            "simulated_time_ms": agg.time, "faults_and_operations": agg.stats, "seeds_per_hour": (agg.runs as f64 / wall * 3600.0) as u64, "runs_per_hour": (agg.runs as f64 / wall * 3600.0) as u64,
            "repeated_in_another_process": 24,
            "real_components": ["istanbul-oxide: FileCoverage, CoverageMap, CoverageSummary, serialisation"],
            "simulated_components": ["workers that execute the instrumented files (their counters are incremented directly)", "network", "disks and their torn writes", "clock", "processes and their crashes"],
        });
        std::fs::create_dir_all("/verif/evidence").unwrap();
        std::fs::write(format!("/verif/evidence/{prop}.json"), serde_json::to_string_pretty(&json!({ "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ["reports are well formed: unique locations, one count per arm", "placeholder reports of one file all describe the same version"], "wall_s": wall, "violations": nbad })).unwrap()).unwrap();
        println!("{prop}: {} runs, {} events, {} aggregation steps, {:.0} s simulated, {} distinct, {wall:.1} s", agg.runs, agg.events, agg.adds, agg.time as f64 / 1000.0, agg.sigs.len());
        if let Some(e) = error { if nbad == 0 { eprintln!("ERROR {e}"); std::process::exit(2); } }
        std::process::exit(nbad);
    };
    std::thread::scope(|sc| {
        for k in 0..w as usize {
            let (next, stop, found, busy, aggs, live) = (&next, &stop, &found, &busy, &aggs, &live);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                let mut g = Agg::default();
                while !stop.load(SeqCst) && t0.elapsed() < cap {
                    let from = next.fetch_add(64, SeqCst); if from >= total { break; }
                    for i in from..(from + 64).min(total) {
                        *busy[k].lock().unwrap() = (i, Some(Instant::now()));
                        let mut ch = Choices::seeded(seed_of(prop, seed, i));
                        let o = sim::simulate(prop, &mut ch, i == 0);
                        *busy[k].lock().unwrap() = (i, None);
                        g.runs += 1; g.events += o.events; g.adds += o.adds; g.time += o.time;
                        for (s, n) in o.stats { *g.stats.entry(s).or_default() += n; }
                        if o.adds > 1 && o.moved { if g.sigs.len() < 4_000_000 { g.sigs.insert(o.hash); g.states.insert(o.state); } }
                        if i == 0 { g.sample = Some(json!({"index": 0, "trace": o.trace.iter().take(40).collect::<Vec<_>>()})); }
                        if let Some(v) = o.viol { let mut f = found.lock().unwrap(); if f.as_ref().map_or(true, |x| i < x.0) { *f = Some((i, v.cls, v.msg, ch.log)); } stop.store(true, SeqCst); break; }
                        if stop.load(SeqCst) { break; }
                    }
                }
                aggs.lock().unwrap().push(g);
                live.fetch_sub(1, SeqCst);
            }).unwrap();
        }
        // a run that does not come back is a violation of its own
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for b in &busy { let x = *b.lock().unwrap(); if let Some(t) = x.1 { if t.elapsed() > Duration::from_secs(30) { finish(Some(json!({"format": 1, "engine": "sim-merge", "property": prop, "seed": seed, "index": x.0, "class": "hang", "message": format!("run {} does not come back", x.0), "choices": [], "rng_seed": seed_of(prop, seed, x.0)})), Agg::default(), None); } } }
        }
    });
    let mut agg = Agg::default();
    for g in aggs.into_inner().unwrap() { agg.runs += g.runs; agg.events += g.events; agg.adds += g.adds; agg.time += g.time; for (s, n) in g.stats { *agg.stats.entry(s).or_default() += n; } agg.sigs.extend(g.sigs); agg.states.extend(g.states); agg.sample = agg.sample.or(g.sample); }
    if let Some((i, cls, msg0, log)) = found.into_inner().unwrap() {
        if cls == "harness" { let m = format!("run {i}: the simulator itself is broken: {msg0}"); finish(None, agg, Some(m)); return; }
        let short = if same(prop, &log, &cls).is_some() { shrink(prop, log.clone(), &cls, Duration::from_secs(20)) } else { log.clone() };
        let o = sim::simulate(prop, &mut Choices::list(short.clone()), true);
        let v = o.viol.map(|v| v.msg).unwrap_or_default();
        finish(Some(json!({"format": 1, "engine": "sim-merge", "property": prop, "seed": seed, "index": i, "class": cls, "message": v, "choices": short, "choices_before_shrinking": log.len(), "trace": o.trace})), agg, None);
        return;
    }
    // one seed is one execution, in any process
    let mut err = None;
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["hash", prop, &seed.to_string(), "0", "24"]).output().unwrap();
    let mine: String = (0..24).map(|i| { let o = sim::simulate(prop, &mut Choices::seeded(seed_of(prop, seed, i)), false); format!("{} {} {}\n", i, o.hash, o.state) }).collect();
    if mine.as_bytes() != &out.stdout[..] { err = Some("a run differed between two processes".to_string()); }
    if agg.runs < 500 { err = Some(format!("only {} runs", agg.runs)); }
    finish(None, agg, err);
}
