//! Seeded search over simulated sessions: workers, aggregation, minimisation, replay, evidence.
use crate::run::{check_case, Case, Report};
use crate::{exec, sys};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
fn root() -> String {
    std::env::var("WATSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn seed_of(base: u64, worker: usize, i: u64) -> u64 {
    base.wrapping_mul(1_000_003).wrapping_add(i.wrapping_mul(WORKERS as u64)).wrapping_add(worker as u64)
}

#[derive(Default)]
struct Agg {
    runs: u64,
    evals: u64,
    died: u64,
    stats: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    scheds: BTreeSet<u64>,
    hashes: BTreeSet<u64>,
    texts: BTreeSet<u64>,
    samples: Vec<Value>,
    foreign: Vec<String>,
    known: BTreeMap<String, u64>,
}
impl Agg {
    fn add(&mut self, case: &Case, r: &Report) {
        self.runs += 1;
        self.evals += r.evals;
        for (k, v) in &r.stats {
            *self.stats.entry(k.clone()).or_default() += v;
        }
        for k in r.known.keys() {
            *self.known.entry(k.clone()).or_default() += 1;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        let e: String = r.end.chars().take_while(|c| *c != '(' && *c != ':').collect();
        *self.ends.entry(e).or_default() += 1;
        self.scheds.insert(r.sched);
        self.texts.insert(r.texts);
        if r.evals > 0 {
            self.hashes.insert(r.hash);
        }
        if !r.ended_ok && self.foreign.len() < 3 {
            self.foreign.push(format!("seed {}: {}", case.seed, r.end.chars().take(300).collect::<String>()));
        }
    }
    fn pack(&self) -> Value {
        json!({"runs": self.runs, "evals": self.evals, "died": self.died, "stats": self.stats, "probes": self.probes, "ends": self.ends,
            "scheds": self.scheds, "hashes": self.hashes, "texts": self.texts, "samples": self.samples, "known": self.known, "foreign": self.foreign})
    }
    fn merge(&mut self, v: &Value) {
        self.runs += v["runs"].as_u64().unwrap_or(0);
        self.evals += v["evals"].as_u64().unwrap_or(0);
        self.died += v["died"].as_u64().unwrap_or(0);
        for (k, m) in [("stats", &mut self.stats), ("probes", &mut self.probes), ("ends", &mut self.ends), ("known", &mut self.known)] {
            for (n, x) in v[k].as_object().into_iter().flatten() {
                *m.entry(n.clone()).or_default() += x.as_u64().unwrap_or(0);
            }
        }
        for (k, m) in [("scheds", &mut self.scheds), ("hashes", &mut self.hashes), ("texts", &mut self.texts)] {
            m.extend(v[k].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        }
        self.samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
        self.foreign.extend(v["foreign"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|s| s.to_string())));
    }
}

fn quiet_stderr() {
    unsafe {
        let null = sys::open_null();
        sys::dup2(null, 2);
        sys::close(null);
    }
}

fn case(prop: &str, seed: u64) -> Case {
    Case { prop: prop.to_string(), seed, ..Default::default() }
}

/// A worker: runs seeds until the deadline or the first violation; result as JSON.
fn worker(prop: &str, base: u64, w: usize, until: Instant, cap: u64) -> Vec<u8> {
    sys::pin(w);
    quiet_stderr();
    let mut agg = Agg::default();
    let mut found = Value::Null;
    let mut i = 0;
    while Instant::now() < until && i < cap {
        let c = case(prop, seed_of(base, w, i));
        i += 1;
        let t = Instant::now();
        let (rep, v) = check_case(&c, false);
        if let (true, Ok(f)) = (t.elapsed().as_millis() > 1500, std::env::var("WATSIM_SLOW")) {
            use std::io::Write;
            let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).and_then(|mut f| writeln!(f, "{} {} {:?} {}", prop, c.seed, t.elapsed(), rep.nops));
        }
        agg.add(&c, &rep);
        if agg.samples.len() < 2 && i % 7 == 3 {
            agg.samples.push(json!({"seed": c.seed, "operations": rep.nops, "oracle_evaluations": rep.evals, "end": rep.end.chars().take(120).collect::<String>(),
                "scheduler_choices": rep.stats.get("choices"), "simulated_ms": rep.stats.get("sim_ms")}));
        }
        if let Some(v) = v {
            found = json!({"seed": c.seed, "nops": rep.nops, "violation": v});
            break;
        }
    }
    let mut v = agg.pack();
    v["found"] = found;
    v.to_string().into_bytes()
}

struct Minimised {
    case: Case,
    violation: String,
    rep: Report,
    tries: u64,
}
/// Delta-debugs the operation list, then calms the environment knob by knob.
fn minimise(start: Case, nops: usize, first: String, limit: Duration) -> Minimised {
    let t0 = Instant::now();
    let mut best = start;
    let mut msg = first;
    let mut tries = 0;
    if best.keep.is_empty() {
        best.keep = vec![true; nops];
    }
    let mut attempt = |c: &Case, tries: &mut u64| -> Option<String> {
        *tries += 1;
        check_case(c, false).1
    };
    for k in ["scale", "uris", "init", "policy", "chunks", "eintr", "window", "ids", "docs", "pull"] {
        if t0.elapsed() > limit {
            break;
        }
        let mut c = best.clone();
        c.calm.push(k.to_string());
        if let Some(m) = attempt(&c, &mut tries) {
            best = c;
            msg = m;
        }
    }
    let mut step = (nops / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < best.keep.len() {
            if t0.elapsed() > limit {
                break;
            }
            let mut c = best.clone();
            let mut any = false;
            for j in i..(i + step).min(c.keep.len()) {
                if c.keep[j] {
                    c.keep[j] = false;
                    any = true;
                }
            }
            if any {
                if let Some(m) = attempt(&c, &mut tries) {
                    best = c;
                    msg = m;
                    changed = true;
                }
            }
            i += step;
        }
        if t0.elapsed() > limit || (step == 1 && !changed) {
            break;
        }
        if step > 1 {
            step /= 2;
        }
    }
    let (rep, v) = check_case(&best, true);
    Minimised { violation: v.unwrap_or(msg), case: best, rep, tries }
}

fn case_json(c: &Case) -> Value {
    json!({"property": c.prop, "seed": c.seed, "keep": c.keep, "calm": c.calm})
}
fn case_of(v: &Value) -> Case {
    Case {
        prop: v["property"].as_str().unwrap_or("").to_string(),
        seed: v["seed"].as_u64().unwrap_or(0),
        keep: v["keep"].as_array().into_iter().flatten().map(|b| b.as_bool().unwrap_or(true)).collect(),
        calm: v["calm"].as_array().into_iter().flatten().filter_map(|b| b.as_str().map(|s| s.to_string())).collect(),
    }
}

/// Known findings: violations of the unchanged tree that are recorded rather than repaired, by name.
pub fn known(prop: &str, id: &str) -> Option<String> {
    static LIST: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
    let v = LIST.get_or_init(|| {
        let f = std::fs::read_to_string(format!("{}/known_findings.json", root())).unwrap_or_default();
        serde_json::from_str(&f).unwrap_or(Value::Null)
    });
    let k = v["known"].as_array()?.iter().find(|k| k["property"] == json!(prop) && k["id"] == json!(id))?;
    Some(k["what"].as_str().unwrap_or("").to_string())
}

pub fn check(args: &[String]) -> i32 {
    let prop = args.first().cloned().unwrap_or_default();
    let env_tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = opt(args, "--tier").unwrap_or(if env_tier == "thorough" { "thorough" } else { "quick" }).to_string();
    let secs: u64 = opt(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 40 });
    let base: u64 = opt(args, "--seed").map(|s| s.to_string()).or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap: u64 = opt(args, "--runs").and_then(|s| s.parse().ok()).map_or(u64::MAX, |n: u64| n.div_ceil(WORKERS as u64));
    let t0 = Instant::now();
    quiet_stderr();
    let until = t0 + Duration::from_secs(secs);
    // determinism first: the same seed, in two processes, gives the same execution
    let mut determinism = 0u64;
    for i in 0..6 {
        let c = case(&prop, seed_of(base, 0, i));
        let (a, _) = check_case(&c, false);
        let (b, _) = check_case(&c, false);
        if a.hash != b.hash || a.sched != b.sched || a.end != b.end {
            println!("simulator is not deterministic on seed {}: {:x}/{:x} {} {}", c.seed, a.hash, b.hash, a.end, b.end);
            return 3;
        }
        determinism += 1;
    }
    let kids = exec::spawn_all((0..WORKERS).map(|w| {
        let prop = prop.clone();
        move || worker(&prop, base, w, until, cap)
    }));
    let mut agg = Agg::default();
    let mut found: Vec<(u64, usize, String)> = vec![];
    let (outs, stopped) = exec::collect(kids, |b| serde_json::from_slice::<Value>(b).is_ok_and(|v| !v["found"].is_null()));
    for out in outs {
        match serde_json::from_slice::<Value>(&out) {
            Ok(v) => {
                agg.merge(&v);
                let f = &v["found"];
                if !f.is_null() {
                    found.push((f["seed"].as_u64().unwrap_or(0), f["nops"].as_u64().unwrap_or(0) as usize, f["violation"].as_str().unwrap_or("").to_string()));
                }
            }
            // told to stop because another worker found something
            Err(_) if out.is_empty() && stopped => {}
            Err(_) => agg.died += 1,
        }
    }
    found.sort();
    let mut code = 0;
    let mut viol_info = vec![];
    let search_s = t0.elapsed().as_secs_f64();
    for (seed, nops, msg) in found.iter().take(1) {
        let c = case(&prop, *seed);
        // believed only if it happens again, identically
        let (r1, v1) = check_case(&c, false);
        let (r2, v2) = check_case(&c, false);
        if v1.is_none() || v2.is_none() || r1.hash != r2.hash {
            println!("seed {seed} did not repeat: {msg}");
            agg.died += 1;
            continue;
        }
        let m = minimise(c, *nops, v1.unwrap(), Duration::from_secs(if tier == "thorough" { 180 } else { 60 }));
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}.json");
        let mut v = case_json(&m.case);
        v["violation"] = json!(m.violation);
        v["execution_hash"] = json!(m.rep.hash.to_string());
        v["schedule_hash"] = json!(m.rep.sched.to_string());
        v["end"] = json!(m.rep.end);
        v["operations_kept"] = json!(m.case.keep.iter().filter(|b| **b).count());
        v["minimiser_runs"] = json!(m.tries);
        v["trace"] = json!(m.rep.trace);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
        println!("{prop} seed={seed}: {}", m.violation);
        println!("VIOLATION property={prop} replay={path}");
        viol_info.push(v["violation"].clone());
        code = 1;
    }
    for id in agg.known.keys() {
        if let Some(what) = known(&prop, id) {
            println!("KNOWN-FINDING: property={prop} {what}");
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let g = |k: &str| agg.stats.get(k).copied().unwrap_or(0);
    let faults: BTreeMap<&str, u64> = [
        ("interrupted system calls (EINTR)", g("eintr")),
        ("short reads on stdin", g("short_reads")),
        ("short writes on stdout", g("short_writes")),
        ("stdout pipe full (writer stalls)", g("stdout_full")),
        ("stdin closed by client", g("stdin_eof")),
        ("stdout broken (EPIPE)", g("epipe")),
        ("timers expired", g("timeouts")),
    ]
    .into_iter()
    .collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.hashes.len(),
            "rule": "one evaluation = one simulated session (seed -> documents, edits, requests, schedule, pipe behaviour, faults) run against the real server; counted as distinct and non-trivial when its full transcript+schedule hash is new and the property's oracle judged at least one event in it",
            "oracle_evaluations": agg.evals,
            "distinct_schedules": agg.scheds.len(),
            "distinct_schedules_measure": "hash of the sequence of actors picked at scheduling points with more than one candidate",
            "distinct_document_histories": agg.texts.len(),
            "runs_per_hour": if search_s > 0.0 { agg.runs as f64 * 3600.0 / search_s } else { 0.0 },
            "seeds_per_hour": if search_s > 0.0 { agg.runs as f64 * 3600.0 / search_s } else { 0.0 },
            "simulated_seconds": g("sim_ms") as f64 / 1000.0,
            "scheduling_points": g("steps"),
            "scheduling_choices": g("choices"),
            "faults_fired": faults,
            "session_ends": agg.ends,
            "irregular_ends": agg.foreign.iter().take(4).collect::<Vec<_>>(),
            "runs_showing_known_findings": agg.known,
            "probes": agg.probes,
            "messages": {"client_to_server": g("messages_in"), "server_to_client": g("messages_out"), "bytes_in": g("bytes_in"), "bytes_out": g("bytes_out")},
            "determinism_replays": determinism,
            "workers_lost": agg.died,
            "real_components": ["server event loop and dispatch", "language service incl. salsa database", "parser, syntax tree, formatter", "lsp-server reader/writer threads and framing (vendored source, std primitives swapped for the simulator's)"],
            "stubbed_components": ["stdin/stdout pipes", "channels and thread scheduling", "clock", "randomness (getrandom)", "client/editor"],
            "samples": agg.samples.iter().take(6).collect::<Vec<_>>(),
        },
        "assumptions": ["documents are at most a few hundred lines, block nesting at most 100", "one client per server process, as over stdio"],
        "wall_s": wall,
        "violations": viol_info.len(),
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap_or_default()).is_err() {
        println!("cannot write evidence");
        return 3;
    }
    println!(
        "{prop} {tier}: {} runs, {} oracle evaluations, {} distinct schedules, {:.1}s{}",
        agg.runs,
        agg.evals,
        agg.scheds.len(),
        wall,
        if agg.died > 0 { format!(", {} workers lost", agg.died) } else { String::new() }
    );
    if code == 0 && agg.runs == 0 {
        return 3;
    }
    code
}

pub fn replay(args: &[String]) -> i32 {
    let Some(f) = args.first().and_then(|p| std::fs::read_to_string(p).ok()) else {
        println!("cannot read the replay file");
        return 2;
    };
    let Ok(v) = serde_json::from_str::<Value>(&f) else { return 2 };
    let c = case_of(&v);
    let (rep, viol) = check_case(&c, args.iter().any(|a| a == "--trace"));
    for t in &rep.trace {
        println!("{t}");
    }
    println!("end: {}", rep.end);
    println!("execution {} recorded {}", rep.hash, v["execution_hash"].as_str().unwrap_or("?"));
    match viol {
        Some(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", c.prop, args[0]);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn selftest(args: &[String]) -> i32 {
    let n: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(200);
    let props: Vec<String> = (1..=16).map(|i| format!("C{i:02}")).collect();
    let mut bad = 0;
    for i in 0..n {
        let c = case(&props[(i % 16) as usize], 7_000_000 + i);
        sys::pin((i % 8) as usize);
        let (a, _) = check_case(&c, false);
        sys::pin(((i + 3) % 8) as usize);
        let (b, _) = check_case(&c, true);
        if a.hash != b.hash || a.end != b.end || a.evals != b.evals {
            println!("{} seed {}: {:x} {:x} {} {}", c.prop, c.seed, a.hash, b.hash, a.end, b.end);
            bad += 1;
        }
    }
    println!("determinism: {n} seeds run twice in separate processes, {bad} differences");
    (bad > 0) as i32
}

pub fn show(args: &[String]) -> i32 {
    let c = case(&args[0], args[1].parse().unwrap_or(0));
    let (rep, v) = check_case(&c, true);
    for t in &rep.trace {
        println!("{t}");
    }
    println!("end {} evals {} stats {:?}\nprobes {:?}", rep.end, rep.evals, rep.stats, rep.probes);
    println!("violation: {v:?}");
    0
}

/// First words of the violations of many seeds: development aid.
pub fn survey(args: &[String]) -> i32 {
    let n: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(1000);
    let width: usize = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(60);
    let mut seen: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    for seed in 0..n {
        let (rep, v) = check_case(&case(&args[0], seed), false);
        let _ = rep;
        if let Some(v) = v {
            let k: String = v.chars().take(width).collect();
            let e = seen.entry(k).or_insert((0, seed));
            e.0 += 1;
        }
    }
    let mut l: Vec<_> = seen.into_iter().collect();
    l.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (k, (n, s)) in l {
        println!("{n:6} seed {s}: {k}");
    }
    0
}
