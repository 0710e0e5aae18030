//! sim-xform: seeded simulation of processes that instrument many files on many threads, with failing hosts.
mod choices;
mod job;
mod sched;
mod seams;
use choices::{mix, Choices};
use job::{Job, Res};
use sched::Sched;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one simulated process does: per thread its jobs in order. abort: the n-th call into the host fails (0: none);
/// die: the thread ends there and a new one takes the rest of its queue.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Todo { job: Job, abort: u64, die: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan { threads: Vec<Vec<Todo>>, seed: u64, list: Option<Vec<u32>>, random: u64, clock: u64 }
#[derive(Default, Serialize, Deserialize)]
struct Out { results: Vec<Vec<Res>>, fired: Vec<Vec<bool>>, log: Vec<u32>, switches: u64, steps: u64, hash: u64, blocked: u64, random_reads: u64, clock_reads: u64, hang: bool }

/// The child: a process that has not instrumented anything yet.
fn execute(p: &Plan) -> Out {
    use std::sync::atomic::Ordering::Relaxed;
    seams::RANDOM.store(p.random, Relaxed); seams::CLOCK_JUMP.store(p.clock, Relaxed); seams::RANDOM_READS.store(0, Relaxed); seams::CLOCK_READS.store(0, Relaxed); seams::CLOCK.store(0, Relaxed);
    let n = p.threads.len();
    let ch = match &p.list { Some(l) => Choices::list(l.clone()), None => Choices::seeded(p.seed) };
    let s = Sched::new(ch, n);
    let results: Arc<Mutex<Vec<Vec<Res>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
    let fired: Arc<Mutex<Vec<Vec<bool>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
    fn work(s: Arc<Sched>, me: usize, mut todo: Vec<Todo>, results: Arc<Mutex<Vec<Vec<Res>>>>, fired: Arc<Mutex<Vec<Vec<bool>>>>) {
        std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
            s.start(me);
            while !todo.is_empty() {
                let t = todo.remove(0);
                sched::job(t.abort);
                sched::step();
                let r = job::run(&t.job);
                let aborted = r == Res::Aborted;
                results.lock().unwrap()[me].push(r);
                fired.lock().unwrap()[me].push(t.abort != 0 && sched::calls() >= t.abort);
                if aborted && t.die { // hand over while still holding the turn
                    work(s.clone(), me, todo, results.clone(), fired.clone());
                    return;
                }
            }
            s.end(me);
        }).unwrap();
    }
    for (i, t) in p.threads.iter().enumerate() { work(s.clone(), i, t.clone(), results.clone(), fired.clone()); }
    let mut hang = false; let (mut last, mut since) = (u64::MAX, Instant::now());
    loop {
        let g = s.m.lock().unwrap();
        if g.state.iter().all(|x| *x == sched::S::Done) { break; }
        let (g, _) = s.all.wait_timeout(g, Duration::from_millis(20)).unwrap();
        let steps = g.steps; let done = g.state.iter().all(|x| *x == sched::S::Done); drop(g);
        if done { break; }
        if steps != last { last = steps; since = Instant::now(); continue; }
        if since.elapsed() > Duration::from_millis(150) {
            let c = s.current();
            if c < n { // is it asleep, i.e. does it wait for another thread?
                let tid = s.tids.lock().unwrap()[c];
                let asleep = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).map_or(false, |t| t.rsplit(')').next().unwrap_or("").trim_start().starts_with('S'));
                if asleep { s.pass_blocked(); }
            }
            if since.elapsed() > Duration::from_secs(20) { hang = true; break; }
        }
    }
    let g = s.m.lock().unwrap();
    let r = results.lock().unwrap().clone();
    let fired = fired.lock().unwrap().clone();
    Out { results: r, fired, log: g.ch.log.clone(), switches: g.switches, steps: g.steps, hash: g.hash, blocked: g.blocked_seen, random_reads: seams::RANDOM_READS.load(Relaxed), clock_reads: seams::CLOCK_READS.load(Relaxed), hang }
}
/// Runs a plan in a new process forked from this one, which never instruments anything itself.
fn in_new_process(p: &Plan) -> Result<Out, String> {
    unsafe {
        let mut fd = [0; 2];
        if libc::pipe(fd.as_mut_ptr()) != 0 { return Err("pipe".into()); }
        let pid = libc::fork();
        if pid < 0 { return Err("fork".into()); }
        if pid == 0 {
            libc::close(fd[0]);
            let o = execute(p);
            let mut f = std::fs::File::from_raw_fd(fd[1]);
            let _ = f.write_all(&serde_json::to_vec(&o).unwrap());
            let _ = f.flush();
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut v = vec![]; let mut f = std::fs::File::from_raw_fd(fd[0]);
        let _ = f.read_to_end(&mut v);
        let mut st = 0; libc::waitpid(pid, &mut st, 0);
        serde_json::from_slice(&v).map_err(|_| format!("died ({})", if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("status {st}") }))
    }
}
struct Viol { cls: String, msg: String }
type Refs = HashMap<String, Res>;
fn key(j: &Job) -> String { serde_json::to_string(j).unwrap() }
fn reference(j: &Job, refs: &mut Refs) -> Res {
    let k = key(j);
    if let Some(r) = refs.get(&k) { return r.clone(); }
    let p = Plan { threads: vec![vec![Todo { job: j.clone(), abort: 0, die: false }]], seed: 0, list: Some(vec![]), random: 1, clock: 0 };
    let r = match in_new_process(&p) { Ok(o) if !o.hang && o.results[0].len() == 1 => o.results[0][0].clone(), Ok(_) => Res::Failed("does not come back".into()), Err(e) => Res::Failed(e) };
    refs.insert(k, r.clone());
    r
}
fn first_diff(a: &str, b: &str) -> String { let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count(); let cut = |s: &str| { let b = s.as_bytes(); String::from_utf8_lossy(&b[n.saturating_sub(20).min(b.len())..(n + 60).min(b.len())]).into_owned() }; format!("at byte {n}: {:?} alone, {:?} here", cut(a), cut(b)) }
fn judge(p: &Plan, refs: &mut Refs) -> (Option<Viol>, Option<Out>) {
    let o = match in_new_process(p) { Ok(o) => o, Err(e) => {
        // dies: unless one of the files does that on its own
        for t in p.threads.iter().flatten() { if let Res::Failed(m) = reference(&t.job, refs) { if m.starts_with("died") { return (None, None); } } }
        return (Some(Viol { cls: "died".into(), msg: format!("the process that instruments {} files {e}", p.threads.iter().flatten().count()) }), None) } };
    if o.hang {
        for t in p.threads.iter().flatten() { if let Res::Failed(m) = reference(&t.job, refs) { if m.starts_with("does not") { return (None, None); } } }
        return (Some(Viol { cls: "hang".into(), msg: "the threads wait for each other or one of them does not come back".into() }), Some(o)); }
    for (ti, (todo, res)) in p.threads.iter().zip(&o.results).enumerate() {
        for (ji, (t, r)) in todo.iter().zip(res).enumerate() {
            let name = format!("file {:?} (job {ji} of thread {ti})", t.job.filename);
            let want = reference(&t.job, refs);
            match (&want, r) {
                (Res::Unusable(_), _) | (_, Res::Aborted) => {}
                (Res::Failed(m), _) if m.starts_with("died") || m.starts_with("does not") => {}
                (a, b) if a == b => {}
                // the host failed and the instrumenter went on: nothing is claimed about what it returns
                (_, _) if o.fired[ti][ji] => {}
                (Res::Ok { code: a, debug: da }, Res::Ok { code: b, debug: db }) => { let d = if a != b { first_diff(a, b) } else { format!("initial record: {}", first_diff(&da.join("|"), &db.join("|"))) }; return (Some(Viol { cls: "output".into(), msg: format!("the output for {name} is not the one of a process that instruments only this file, {d}") }), Some(o)); }
                (_, Res::Failed(m)) => { let m = m.clone(); return (Some(Viol { cls: "failure".into(), msg: format!("instrumenting {name} fails with {m:?}, alone it does not") }), Some(o)); }
                (Res::Failed(m), _) => { let m = m.clone(); return (Some(Viol { cls: "failure".into(), msg: format!("instrumenting {name} fails with {m:?} when alone, here it does not") }), Some(o)); }
                _ => { return (Some(Viol { cls: "output".into(), msg: format!("{name}: {want:?} alone, {r:?} here") }), Some(o)); }
            }
        }
        if res.len() != todo.len() { return (Some(Viol { cls: "lost".into(), msg: format!("thread {ti} finished {} of {} files", res.len(), todo.len()) }), Some(o)); }
    }
    (None, Some(o))
}
fn variant(base: &Job, other: &Job, k: u32, n: u32) -> Job {
    let mut j = base.clone(); let o = j.options.as_object_mut().unwrap();
    match k {
        1 => j.code = j.code.replace("istanbul ignore", "istanbul ignoer"),
        2 => j.filename = format!("{}{}", j.filename, n % 3),
        3 => j.filename = other.filename.clone(),
        4 => { let v = o.get("reportLogic").and_then(|v| v.as_bool()).unwrap_or(false); o.insert("reportLogic".into(), json!(!v)); }
        5 => { o.insert("debugInitialCoverageComment".into(), json!(true)); }
        6 => { o.insert("ignoreClassMethods".into(), json!([["m0", "m1"], ["g1", "constructor"], ["q1", "n1"]][n as usize % 3])); }
        7 => { o.insert("coverageVariable".into(), json!(["__cov", "a.b", "__coverage__"][n as usize % 3])); }
        8 => { o.insert("inputSourceMap".into(), json!({"version": 3, "sources": [format!("o{}.ts", n % 3)], "names": [], "mappings": "AAAA"})); }
        9 => j.code = format!("{}\n{}", " ".repeat((n % 40) as usize), j.code),
        10 => j.code = other.code.clone(), // same name and options, other contents
        11 => j.entry = if j.entry == "item" { "program".into() } else { "item".into() },
        12 if j.lang.is_object() => { let f = j.lang["first"].as_bool().unwrap_or(false); j.lang["first"] = json!(!f) } // same file, other place in the pipeline
        _ => {}
    }
    if k == 10 { j.module = other.module; j.lang = other.lang.clone(); }
    j
}
fn plan(ch: &mut Choices, corpus: &[Job], sched_seed: u64) -> Plan {
    let nt = 1 + ch.pick(&[20, 40, 25, 15]);
    let palette: Vec<Job> = { // a process works on few files, many times in different ways
        let n = 1 + ch.next(4);
        (0..n).map(|_| corpus[ch.next(corpus.len() as u32) as usize].clone()).collect()
    };
    let most = [6, 10, 24][ch.next(3) as usize]; let total = 2 + ch.next(most);
    let faults = [0, 0, 15, 40][ch.next(4) as usize];
    let mut threads = vec![vec![]; nt];
    for _ in 0..total {
        let b = &palette[ch.next(palette.len() as u32) as usize]; let o = &palette[ch.next(palette.len() as u32) as usize];
        let (k, n) = (ch.next(14), ch.next(100));
        let mut j = variant(b, o, k, n);
        if ch.chance(25) { let (k, n) = (ch.next(14), ch.next(100)); j = variant(&j, o, k, n); }
        let far = [4, 40, 400, 3000][ch.next(4) as usize]; let abort = if ch.chance(faults) { 1 + ch.next(far) as u64 } else { 0 };
        let die = abort != 0 && ch.chance(30);
        threads[ch.next(nt as u32) as usize].push(Todo { job: j, abort, die });
    }
    threads.retain(|t| !t.is_empty());
    Plan { threads, seed: sched_seed, list: None, random: mix(sched_seed, 5), clock: [0, 1, 40, 5000, 100_000][ch.next(5) as usize] }
}
fn plan_of(corpus: &[Job], seed: u64, i: u64) -> Plan { let s = mix(mix(seed, 0xc10), i); plan(&mut Choices::seeded(s), corpus, mix(s, 3)) }
fn same(p: &Plan, cls: &str, refs: &mut Refs) -> Option<Viol> { judge(p, refs).0.filter(|v| v.cls == cls) }
fn shrink(p: &Plan, cls: &str, log: Vec<u32>, refs: &mut Refs) -> Plan {
    let t0 = Instant::now(); let budget = Duration::from_secs(40);
    let mut cur = p.clone();
    let listed = Plan { list: Some(log), ..p.clone() };
    if same(&listed, cls, refs).is_some() { cur = listed; }
    let seq = Plan { list: Some(vec![]), ..p.clone() };
    if same(&seq, cls, refs).is_some() { cur = seq; }
    loop {
        let mut changed = false;
        let mut t = 0;
        while t < cur.threads.len() { // fewer files
            let mut j = 0;
            while j < cur.threads[t].len() && t0.elapsed() < budget {
                let mut c = cur.clone(); c.threads[t].remove(j);
                if c.threads.iter().flatten().count() > 0 { c.threads.retain(|t| !t.is_empty()); let l = c.threads.len(); if same(&c, cls, refs).is_some() { let gone = l < cur.threads.len(); cur = c; changed = true; if gone { break; } continue; } }
                if cur.threads[t][j].abort != 0 { let mut c = cur.clone(); c.threads[t][j].abort = 0; c.threads[t][j].die = false; if same(&c, cls, refs).is_some() { cur = c; changed = true; } }
                // shorter files: whole lines
                let n = cur.threads[t][j].job.code.lines().count(); let mut size = (n / 2).max(1);
                while size > 0 && t0.elapsed() < budget {
                    let mut i = 0;
                    loop {
                        let ls: Vec<String> = cur.threads[t][j].job.code.lines().map(|s| s.to_string()).collect();
                        if i >= ls.len() || t0.elapsed() >= budget { break; }
                        let mut c = cur.clone(); let e = (i + size).min(ls.len());
                        c.threads[t][j].job.code = ls[..i].iter().chain(&ls[e..]).cloned().collect::<Vec<_>>().join("\n");
                        if same(&c, cls, refs).is_some() { cur = c; changed = true; } else { i += size; }
                    }
                    if size == 1 { break; } size /= 2;
                }
                j += 1;
            }
            t += 1;
        }
        if let Some(l) = cur.list.clone() { // a plainer schedule
            let mut l = l; let mut size = (l.len() / 2).max(1);
            while !l.is_empty() && t0.elapsed() < budget {
                let mut i = 0;
                while i < l.len() && t0.elapsed() < budget { let mut d = l[..i].to_vec(); d.extend_from_slice(&l[(i + size).min(l.len())..]); let c = Plan { list: Some(d.clone()), ..cur.clone() }; if same(&c, cls, refs).is_some() { l = d; cur = c; changed = true; } else { i += size; } }
                if size == 1 { break; } size /= 2;
            }
        }
        if !changed || t0.elapsed() >= budget { return cur; }
    }
}
fn read_corpus(p: &str) -> Vec<Job> { std::io::BufReader::new(std::fs::File::open(p).expect("corpus")).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect() }
/// worker: FROM STEP COUNT over the corpus; one JSON line per finding, one at the end
fn worker(a: &[String]) {
    let corpus = read_corpus(&a[2]); let (seed, from, step, total, cap): (u64, u64, u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap());
    let t0 = Instant::now(); let mut refs = Refs::new();
    let mut st: BTreeMap<&str, u64> = BTreeMap::new(); let mut sigs: HashSet<u64> = HashSet::new(); let (mut runs, mut unusable, mut jobs) = (0u64, 0u64, 0u64);
    let mut i = from;
    while i < total && t0.elapsed().as_secs() < cap {
        let p = plan_of(&corpus, seed, i);
        let (v, o) = judge(&p, &mut refs);
        runs += 1;
        if let Some(v) = v {
            let log = o.map(|o| o.log).unwrap_or_default();
            let c = shrink(&p, &v.cls, log, &mut refs);
            let (msg, again) = match same(&c, &v.cls, &mut refs) { Some(w) => (w.msg, true), None => (v.msg, false) };
            println!("{}", json!({"t": "violation", "i": i, "replay": {"format": 1, "engine": "sim-xform", "property": "C10", "seed": seed, "index": i, "class": v.cls, "message": msg, "plan": c, "repeats": again}}));
            return;
        }
        if let Some(o) = o {
            let mut add = |k: &'static str, n: u64| *st.entry(k).or_default() += n;
            add("calls into the host and visitor steps", o.steps); add("switches between threads", o.switches); add("waits for another thread", o.blocked); add("reads of randomness", o.random_reads); add("reads of the wall clock", o.clock_reads);
            if p.threads.len() > 1 { add("runs with several threads", 1); }
            for (t, r) in p.threads.iter().flatten().zip(o.results.iter().flatten()) { jobs += 1; match r { Res::Aborted => { add("host failures", 1); if t.die { add("threads that ended with the failure", 1); } } Res::Unusable(_) => unusable += 1, _ => {} } }
            if jobs > 1 { sigs.insert(mix(o.hash, i)); }
        }
        if refs.len() > 6000 { refs.clear(); }
        i += step;
    }
    println!("{}", json!({"t": "done", "runs": runs, "jobs": jobs, "unusable": unusable, "stats": st, "sigs": sigs.len()}));
}
fn make_corpus(seed: u64, n: u64) -> String {
    let dir = "/verif/target/simxform"; std::fs::create_dir_all(dir).unwrap();
    let p = format!("{dir}/corpus-{seed}-{n}-{}.jsonl", std::process::id());
    let ok = std::process::Command::new("node").args(["/verif/sim/corpus.js", &p, &seed.to_string(), &n.to_string()]).status().map_or(false, |s| s.success());
    if !ok { eprintln!("ERROR no corpus"); std::process::exit(2); }
    p
}
fn check() {
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let seed = env("VERIF_SEED", 1); let total = env("SIM_RUNS", if thorough { 1_500_000 } else { 6000 }); let cap = env("SIM_CAP", if thorough { 5400 } else { 200 });
    let t0 = Instant::now();
    let corpus = make_corpus(seed, if thorough { 4000 } else { 500 });
    let w = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64;
    let exe = std::env::current_exe().unwrap();
    let spawn = |from: u64, step: u64, total: u64| std::process::Command::new(&exe).args(["worker", &corpus, &seed.to_string(), &from.to_string(), &step.to_string(), &total.to_string(), &cap.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let kids: Vec<_> = (0..w).map(|k| spawn(k, w, total)).collect();
    let (mut runs, mut jobs, mut unusable, mut sigs) = (0, 0, 0, 0); let mut st: BTreeMap<String, u64> = BTreeMap::new(); let mut viol: Option<Value> = None; let mut err = None;
    // a violation stops the others when they come to rest
    for k in kids {
        let out = k.wait_with_output().unwrap();
        let mut done = false;
        for l in out.stdout.lines() {
            let v: Value = match serde_json::from_str(&l.unwrap()) { Ok(v) => v, Err(_) => continue };
            done = true;
            if v["t"] == "violation" { if viol.as_ref().map_or(true, |o| v["i"].as_u64() < o["i"].as_u64()) { viol = Some(v); } continue; }
            runs += v["runs"].as_u64().unwrap(); jobs += v["jobs"].as_u64().unwrap(); unusable += v["unusable"].as_u64().unwrap(); sigs += v["sigs"].as_u64().unwrap();
            for (k, n) in v["stats"].as_object().unwrap() { *st.entry(k.clone()).or_default() += n.as_u64().unwrap(); }
        }
        if !done { err = Some(format!("a worker ended with {:?}", out.status)); }
    }
    // one seed is one execution: some runs again, in processes of other ancestry
    let cs = read_corpus(&corpus); let mut repeated = 0;
    if viol.is_none() && err.is_none() {
        for i in 0..16 {
            let run = || { let o = std::process::Command::new(&exe).args(["hash", &corpus, &seed.to_string(), &i.to_string()]).output().unwrap(); String::from_utf8_lossy(&o.stdout).into_owned() };
            let (a, b) = (run(), run());
            if a != b && !a.contains("blocked") { err = Some(format!("run {i} differed between two processes")); } else { repeated += 1; }
        }
        if unusable * 10 > jobs { err = Some(format!("{unusable} of {jobs} files cannot be used")); }
        if runs < 200 { err = Some(format!("only {runs} runs")); }
    }
    let _ = std::fs::remove_file(&corpus);
    let wall = t0.elapsed().as_secs_f64(); let mut bad = 0;
    if let Some(v) = viol {
        bad = 1;
        std::fs::create_dir_all("/verif/replays").unwrap();
        let f = format!("/verif/replays/C10-{seed}-{}.json", v["i"]);
        std::fs::write(&f, serde_json::to_string_pretty(&v["replay"]).unwrap()).unwrap();
        println!("{}: {}", v["replay"]["class"].as_str().unwrap(), v["replay"]["message"].as_str().unwrap());
        println!("VIOLATION property=C10 replay={f}");
    }
    let sample = plan_of(&cs, seed, 0);
    let cov = json!({
        "evaluations": runs, "distinct_nontrivial": sigs,
        "rule": "one evaluation is the life of one simulated process: several files in several variants (hints, names, options, contents) instrumented by 1 to 4 threads under one seeded schedule, every output compared with that of a new process that handles only that file; distinct = distinct files and interleavings (hash of all scheduling decisions with their positions); non-trivial = at least two files",
        "samples": [json!({"threads": sample.threads.iter().map(|t| t.iter().map(|t| json!({"file": t.job.filename, "bytes": t.job.code.len(), "options": t.job.options, "host fails at call": t.abort})).collect::<Vec<_>>()).collect::<Vec<_>>()})],
        "files_instrumented": jobs, "files_that_cannot_be_used": unusable, "faults_and_scheduling": st, "seeds_per_hour": (runs as f64 / wall * 3600.0) as u64, "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
        "simulated_time": "progress is counted in calls into the host and visitor steps; the wall clock the process sees is simulated and jumps", "repeated_in_another_process": repeated,
        "real_components": ["swc parser, resolver, hygiene, fixer and code generator", "swc-coverage-instrument visitors and templates", "operating system threads and processes (one thread runs at a time)"],
        "simulated_components": ["comments and source map of the host, with failures", "tracing subscriber", "thread scheduler", "wall clock", "randomness of the standard library"],
    });
    std::fs::create_dir_all("/verif/evidence").unwrap();
    std::fs::write("/verif/evidence/C10.json", serde_json::to_string_pretty(&json!({"property": "C10", "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ["threads switch at calls into the host and at visitor methods only", "what a call that the host let fail returns is not judged"], "wall_s": wall, "violations": bad})).unwrap()).unwrap();
    println!("C10: {runs} processes, {jobs} files, {} switches, {} host failures, {unusable} unusable, {wall:.1} s", st.get("switches between threads").unwrap_or(&0), st.get("host failures").unwrap_or(&0));
    if let (Some(e), 0) = (err, bad) { eprintln!("ERROR {e}"); std::process::exit(2); }
    std::process::exit(bad);
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::new(seams::SimTracing));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "worker" => worker(&a),
        "hash" => { let c = read_corpus(&a[2]); let p = plan_of(&c, a[3].parse().unwrap(), a[4].parse().unwrap()); match in_new_process(&p) { Ok(o) => { let r: String = serde_json::to_string(&o.results).unwrap(); println!("{} {} {} {}{}", o.hash, o.steps, r.len(), r.bytes().fold(7u64, |a, b| mix(a, b as u64)), if o.blocked > 0 { " blocked" } else { "" }) } Err(e) => println!("{e}") } }
        "replay" => {
            let r: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let p: Plan = serde_json::from_value(r["plan"].clone()).unwrap();
            let mut refs = Refs::new();
            for (ti, t) in p.threads.iter().enumerate() { for t in t { println!("thread {ti}: {:?}, {} bytes, options {}{}", t.job.filename, t.job.code.len(), t.job.options, if t.abort != 0 { format!(", host fails at call {}", t.abort) } else { String::new() }); } }
            match judge(&p, &mut refs).0 { Some(v) => { println!("{}: {}", v.cls, v.msg); if v.cls == r["class"].as_str().unwrap() { println!("VIOLATION property=C10 replay={}", a[2]); std::process::exit(1) } std::process::exit(2) } None => println!("the violation does not happen") }
        }
        _ => check(),
    }
}
