//! One simulated run: seed -> plan, knobs, faults -> session -> verdict.
use crate::client::*;
use crate::exec::{self, Died};
use crate::{oracle, sys};
use serde_json::{json, Value};
use simkern::{End, Knobs, Rng};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    /// operations kept (all when empty)
    pub keep: Vec<bool>,
    /// knob overrides made by the minimiser
    pub calm: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub end: String,
    pub viol: Vec<String>,
    pub evals: u64,
    pub known: BTreeMap<String, String>,
    pub hash: u64,
    pub sched: u64,
    pub nops: usize,
    pub stats: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub sent: Vec<Value>,
    pub caps: Value,
    pub replies: Vec<Value>,
    pub pubs: Value,
    pub trace: Vec<String>,
    pub ended_ok: bool,
    pub texts: u64,
}

const ALL_TYPES: &[&str] = &[
    "namespace", "type", "class", "enum", "interface", "struct", "typeParameter", "parameter", "variable", "property", "enumMember", "event", "function", "method", "macro", "keyword",
    "modifier", "comment", "string", "number", "regexp", "operator",
];

fn weights(prop: &str) -> (Vec<(OpK, u32)>, bool) {
    let mut w: Vec<(OpK, u32)> = vec![(OpK::Open, 6), (OpK::Edit, 26), (OpK::Undo, 5), (OpK::Close, 3), (OpK::Sync, 3), (OpK::Sleep, 2)];
    let mut wild = false;
    let all = |w: &mut Vec<(OpK, u32)>, k: u32| {
        for m in 0..METHODS.len() {
            w.push((OpK::Req(m), k));
        }
    };
    match prop {
        "C01" => {
            all(&mut w, 2);
            w.extend([(OpK::Garble, 4), (OpK::Noise, 8), (OpK::BadReq, 16), (OpK::Calls, 3)]);
            wild = true;
        }
        "C02" => {
            all(&mut w, 3);
            w.extend([(OpK::Garble, 26), (OpK::Type, 4), (OpK::Noise, 5), (OpK::BadReq, 8), (OpK::Calls, 2), (OpK::Apply(FORMAT), 2), (OpK::Apply(RENAME), 2), (OpK::Apply(ACTION), 2)]);
            wild = true;
        }
        "C03" | "C04" | "C06" => {
            all(&mut w, 3);
            w.extend([(OpK::Garble, 4), (OpK::Type, 4), (OpK::Calls, 2), (OpK::Apply(FORMAT), 1), (OpK::Apply(RENAME), 2), (OpK::Apply(ACTION), 1), (OpK::Noise, 2)]);
            if prop == "C04" {
                w[0].1 = 14;
                w[3].1 = 6;
            }
        }
        "C05" => {
            w.extend([(OpK::Garble, 8), (OpK::Req(DIAGNOSTIC), 25), (OpK::Req(HOVER), 5), (OpK::Noise, 4)]);
            w[0].1 = 12;
            w[3].1 = 10;
        }
        "C07" => {
            all(&mut w, 2);
            w.extend([(OpK::Noise, 5), (OpK::Garble, 3)]);
        }
        "C08" => {
            all(&mut w, 2);
            w.extend([(OpK::Req(SEM_FULL), 15), (OpK::Req(SEM_RANGE), 20), (OpK::Garble, 4)]);
            wild = true;
        }
        "C09" => w.extend([(OpK::Apply(RENAME), 30), (OpK::Req(RENAME), 20), (OpK::Req(PREP_RENAME), 15), (OpK::Req(REFERENCES), 3), (OpK::Req(DIAGNOSTIC), 3)]),
        "C10" => w.extend([
            (OpK::Req(DEFINITION), 22),
            (OpK::Req(DECLARATION), 10),
            (OpK::Req(TYPEDEF), 8),
            (OpK::Req(REFERENCES), 25),
            (OpK::Calls, 12),
            (OpK::Req(INCOMING), 4),
            (OpK::Req(OUTGOING), 4),
            (OpK::Apply(RENAME), 3),
        ]),
        "C11" => w.extend([(OpK::Apply(FORMAT), 30), (OpK::Req(FORMAT), 12), (OpK::Req(RANGE_FORMAT), 25), (OpK::Apply(RANGE_FORMAT), 8), (OpK::Req(SEM_FULL), 2)]),
        "C12" => w.extend([(OpK::Apply(ACTION), 25), (OpK::Req(ACTION), 35), (OpK::Garble, 12), (OpK::Req(DIAGNOSTIC), 4)]),
        "C13" => {
            all(&mut w, 3);
            w.extend([(OpK::Req(SEM_FULL), 12), (OpK::Req(SEM_RANGE), 5)]);
        }
        "C14" => w.extend([(OpK::Garble, 10), (OpK::Undo, 4), (OpK::Req(DIAGNOSTIC), 40), (OpK::Req(HOVER), 4), (OpK::Apply(RENAME), 3), (OpK::Apply(FORMAT), 2)]),
        "C15" => w.extend([(OpK::Type, 30), (OpK::Req(HOVER), 30), (OpK::Req(INLAY), 15), (OpK::Req(COMPLETION), 30), (OpK::Apply(RENAME), 3)]),
        "C16" => w.extend([(OpK::Req(SYMBOLS), 20), (OpK::Req(FOLDING), 15), (OpK::Req(SELECTION), 30), (OpK::Apply(RENAME), 2), (OpK::Apply(FORMAT), 2)]),
        _ => all(&mut w, 3),
    }
    (w, wild)
}

pub fn plan(case: &Case) -> (Knobs, Config, Vec<PlanOp>) {
    let mut r = Rng::new(case.seed.wrapping_mul(0x9E37_79B9).wrapping_add(prop_no(&case.prop)));
    let (w, wild) = weights(&case.prop);
    // swarm: each seed uses a random subset of the optional operations
    let w: Vec<(OpK, u32)> = w
        .into_iter()
        .filter(|(k, _)| match k {
            OpK::Open | OpK::Edit => true,
            OpK::Req(m) | OpK::Apply(m) if oracle::subject(&case.prop, *m) => true,
            _ => r.chance(700),
        })
        .collect();
    let total: u32 = w.iter().map(|x| x.1).sum();
    let n = match case.prop.as_str() {
        "C07" => r.usize(12),
        _ => {
            let hi = if r.chance(300) { 40 } else { 18 };
            4 + r.usize(hi)
        }
    };
    let mut ops = vec![PlanOp { k: OpK::Open, seed: r.next(), delay: 0 }];
    let slow = r.chance(250);
    for _ in 0..n {
        let mut x = r.below(total as u64) as u32;
        let mut k = OpK::Edit;
        for (o, p) in &w {
            if x < *p {
                k = *o;
                break;
            }
            x -= p;
        }
        let delay = if slow && r.chance(300) { r.below(5000) as u32 } else { 0 };
        ops.push(PlanOp { k, seed: r.next(), delay });
        // ask again right after an edit, and again after the next one: the same question, new text
        if matches!(k, OpK::Req(_)) && r.chance(350) {
            let seed = ops.last().unwrap().seed;
            ops.push(PlanOp { k: OpK::Edit, seed: r.next(), delay: 0 });
            ops.push(PlanOp { k, seed, delay: 0 });
        }
    }
    let mut cfg = Config {
        pull: r.chance(450),
        sem_types: Some(ALL_TYPES.iter().map(|s| s.to_string()).collect()),
        init: if r.chance(400) { r.next() | 1 } else { 0 },
        window: *r.pick(&[1usize, 2, 4, 8, 64]),
        docs: *r.pick(&[1usize, 1, 2, 3]),
        size: *r.pick(&[2usize, 4, 6, 10]),
        ending: Ending::Clean,
        strike: 0,
        early: 0,
        wild: wild && r.chance(700),
        focus_refs: 800,
        string_ids: r.chance(300),
        multi_change: false,
        clean_programs: false,
        mem_fix: false,
        spoil: false,
        scale: Default::default(),
        flavor: 0,
    };
    match case.prop.as_str() {
        "C04" => cfg.docs = 2 + r.usize(2),
        "C01" | "C02" | "C05" | "C03" => cfg.multi_change = r.chance(300),
        "C08" => cfg.focus_refs = 400,
        "C12" => cfg.mem_fix = true,
        "C14" => cfg.spoil = true,
        "C11" => cfg.clean_programs = r.chance(250),
        "C07" => {
            cfg.ending = *r.pick(&[Ending::Clean, Ending::Clean, Ending::Eager, Ending::NoExit, Ending::ExitOnly, Ending::Eof, Ending::EofMid, Ending::Broken]);
            cfg.strike = r.usize(ops.len() + 1);
            if matches!(cfg.ending, Ending::ExitOnly | Ending::Eof | Ending::EofMid | Ending::Broken) && r.chance(120) {
                cfg.early = 1 + r.below(3) as u32;
            }
        }
        "C13" => {
            cfg.sem_types = if r.chance(150) {
                None
            } else {
                let mut t: Vec<String> = ALL_TYPES.iter().filter(|_| true).map(|s| s.to_string()).collect();
                // shuffle, drop some
                for i in (1..t.len()).rev() {
                    let j = r.usize(i + 1);
                    t.swap(i, j);
                }
                let keep = r.usize(t.len() + 1);
                t.truncate(keep.max(if r.chance(800) { 8 } else { 0 }));
                while r.chance(300) {
                    let at = r.usize(t.len() + 1);
                    t.insert(at, if r.chance(700) || t.is_empty() { "customType".into() } else { t[r.usize(t.len())].clone() });
                }
                Some(t)
            };
        }
        _ => {}
    }
    cfg.flavor = if r.chance(500) { 0 } else { r.usize(64) };
    // now and then there is much more of one thing
    if r.chance(60) {
        let z = &mut cfg.scale;
        match r.usize(8) {
            0 => z.wide = *r.pick(&[12, 40, 40, 300]),
            1 => z.deep = *r.pick(&[12, 30, 60]),
            2 => z.fields = *r.pick(&[20, 60, 60, 150]),
            3 => z.stmts = *r.pick(&[20, 60, 200]),
            4 | 5 => z.pad = *r.pick(&[300, 300, 70_000]),
            6 => cfg.docs = *r.pick(&[6, 12, 40]),
            _ => {
                let n = ops.len();
                for i in 0..*r.pick(&[60usize, 150]) {
                    let op = ops[(1 + i) % n];
                    ops.push(PlanOp { seed: r.next(), ..op });
                }
            }
        }
        if cfg.docs > 3 {
            // most of the session is spent on opening them
            for _ in 0..cfg.docs {
                let at = r.usize(ops.len() / 2 + 1);
                ops.insert(at, PlanOp { k: OpK::Open, seed: r.next(), delay: 0 });
            }
        }
    }
    let mut k = Knobs { seed: r.next(), ..Default::default() };
    k.policy = *r.pick(&[0u32, 0, 0, 1, 1, 2]);
    for x in k.w_thread.iter_mut() {
        *x = *r.pick(&[1u32, 4, 4, 16, 60]);
    }
    k.w_client = *r.pick(&[1u32, 4, 16]);
    k.w_deliver = *r.pick(&[1u32, 4, 16]);
    k.w_drain = *r.pick(&[1u32, 4, 16]);
    k.w_clock = *r.pick(&[0u32, 0, 0, 1]);
    k.change_pm = *r.pick(&[5u32, 30, 120]);
    if r.chance(600) {
        k.eintr_pm = *r.pick(&[0u32, 0, 50, 200]);
        k.in_chunk = *r.pick(&[0u32, 0, 7, 200, 4000]);
        k.out_chunk = *r.pick(&[0u32, 0, 13, 300]);
        k.deliver_chunk = *r.pick(&[0u32, 0, 20, 500, 3000]);
        k.drain_chunk = *r.pick(&[0u32, 0, 30, 600]);
        k.stdin_cap = *r.pick(&[1usize << 16, 4096, 64]);
        k.stdout_cap = *r.pick(&[1usize << 16, 4096, 64, 9]);
        k.bufreader_cap = *r.pick(&[8192usize, 8192, 64, 17]);
    }
    if cfg.scale != crate::gen::Scale::default() || cfg.docs > 3 {
        // a megabyte passes in few enough steps
        for c in [&mut k.in_chunk, &mut k.out_chunk, &mut k.deliver_chunk, &mut k.drain_chunk] {
            if *c > 0 {
                *c = (*c).max(600);
            }
        }
        k.stdin_cap = k.stdin_cap.max(512);
        k.stdout_cap = k.stdout_cap.max(512);
        k.bufreader_cap = k.bufreader_cap.max(512);
    }
    // a clock that jumps while an answer is under way would fake a silent client
    k.w_clock = 0;
    k.max_steps = 3_000_000;
    for c in &case.calm {
        match c.as_str() {
            "policy" => k.policy = 2,
            "chunks" => {
                k.in_chunk = 0;
                k.out_chunk = 0;
                k.deliver_chunk = 0;
                k.drain_chunk = 0;
                k.stdin_cap = 1 << 16;
                k.stdout_cap = 1 << 16;
                k.bufreader_cap = 8192;
            }
            "eintr" => k.eintr_pm = 0,
            "window" => cfg.window = 1,
            "ids" => cfg.string_ids = false,
            "docs" => cfg.docs = 1,
            "scale" => cfg.scale = Default::default(),
            "uris" => cfg.flavor = 0,
            "init" => cfg.init = 0,
            "pull" => cfg.pull = false,
            _ => {}
        }
    }
    (k, cfg, ops)
}
fn prop_no(p: &str) -> u64 {
    p[1..].parse().unwrap_or(99)
}

fn sim_entry() -> Result<(), String> {
    wat_server_sim::sim_main().map_err(|e| format!("{e:#}"))
}

fn hash_str(h: u64, s: &str) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Runs in the forked child: simulate, then judge.
fn run_here(prop: &str, mut knobs: Knobs, cfg: Config, mode: Mode, want: &Want, rseed: u64) -> Report {
    sys::RANDOM.store(rseed | 1, Ordering::Relaxed);
    knobs.trace = want.trace;
    let mem = sys::memfd();
    unsafe {
        sys::dup2(mem, 1);
    }
    let nops = if let Mode::Plan(p) = &mode { p.len() } else { 0 };
    let out = simkern::run(knobs, Box::new(Shared(Box::new(Client::new(cfg, mode)))), sim_entry);
    let mut world = out.world;
    let shared = out.env.into_any().downcast::<Shared>().map_err(|_| ()).expect("client");
    let mut c = shared.0;
    c.final_drain(&mut world);
    let stray = unsafe { sys::lseek(mem, 0, 2) }.max(0) as usize;
    let o = oracle::check(prop, &c, &out.end, stray);
    let mut rep = Report { end: format!("{:?}", out.end), viol: o.viol, evals: o.evals, known: o.known, nops, ..Default::default() };
    rep.ended_ok = matches!(out.end, End::Exit(0, _));
    let s = &world.stats;
    for (k, v) in [
        ("steps", s.steps),
        ("choices", s.choices),
        ("sim_ms", s.sim_ms),
        ("clock_jumps", s.clock_jumps),
        ("eintr", s.eintr),
        ("short_reads", s.short_reads),
        ("short_writes", s.short_writes),
        ("stdout_full", s.stdout_full),
        ("stdin_eof", s.stdin_eof),
        ("epipe", s.epipe),
        ("timeouts", s.timeouts),
        ("bytes_in", s.bytes_in),
        ("bytes_out", s.bytes_out),
        ("foreign_threads", s.foreign_threads),
        ("messages_in", c.sent.len() as u64),
        ("messages_out", c.got.len() as u64),
    ] {
        rep.stats.insert(k.to_string(), v);
    }
    rep.probes = c.probes.clone();
    rep.sched = s.sched_hash;
    let mut h = hash_str(s.sched_hash, &rep.end);
    for m in &c.sent {
        h = hash_str(h, &m.to_string());
    }
    for m in &c.got {
        h = hash_str(h, &m.to_string());
    }
    rep.hash = h;
    for d in &c.docev {
        rep.texts ^= hash_str(1, &d.snap.text);
    }
    rep.trace = std::mem::take(&mut world.trace);
    if want.samples > 0 {
        rep.caps = c.init_params();
        let mut r = Rng::new(rseed ^ 0xABCD);
        let mut cand: Vec<usize> = (0..c.recs.len())
            .filter(|i| {
                let x = &c.recs[*i];
                x.m.is_some() && x.reply.is_some() && x.snap.as_ref().is_some_and(|s| s.open && s.ver > 1)
            })
            .collect();
        for _ in 0..want.samples.min(cand.len()) {
            let k = r.usize(cand.len());
            let i = cand.swap_remove(k);
            let x = &c.recs[i];
            let s = x.snap.as_ref().unwrap();
            rep.samples.push(json!({"uri": s.uri, "text": *s.text, "msg": *x.msg, "reply": **x.reply.as_ref().unwrap(), "edit": s.edit}));
        }
        // published diagnostics are answers too
        if !c.cfg.pull {
            let mut idx: BTreeMap<String, usize> = BTreeMap::new();
            for e in &c.docev {
                let k = idx.entry(e.snap.uri.clone()).or_default();
                let nth = *k;
                *k += 1;
                if e.close || e.snap.ver < 2 || !r.chance(300) {
                    continue;
                }
                let p = c
                    .got
                    .iter()
                    .filter(|g| g.get("method") == Some(&json!("textDocument/publishDiagnostics")) && g.pointer("/params/uri") == Some(&json!(e.snap.uri)))
                    .nth(nth);
                if let Some(p) = p {
                    rep.samples.push(json!({"uri": e.snap.uri, "text": *e.snap.text, "publish": p["params"]["diagnostics"], "edit": e.snap.edit}));
                }
                if rep.samples.len() > want.samples + 2 {
                    break;
                }
            }
        }
    }
    if want.script {
        rep.caps = c.init_params();
        rep.sent = c.sent.iter().map(|v| (**v).clone()).collect();
        rep.replies = c.recs.iter().map(|r| json!([r.id, r.reply.as_deref()])).collect();
        let mut pubs: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for g in &c.got {
            if g.get("method").is_some() {
                pubs.entry(g.pointer("/params/uri").and_then(|u| u.as_str()).unwrap_or("").to_string()).or_default().push((**g).clone());
            }
        }
        rep.pubs = json!(pubs);
    }
    rep
}

#[derive(Clone, Default)]
pub struct Want {
    pub trace: bool,
    pub samples: usize,
    pub script: bool,
}

fn pack(r: &Report) -> Vec<u8> {
    json!({
        "end": r.end, "viol": r.viol, "evals": r.evals, "known": r.known, "hash": r.hash.to_string(), "sched": r.sched.to_string(), "nops": r.nops, "stats": r.stats,
        "probes": r.probes, "samples": r.samples, "sent": r.sent, "caps": r.caps, "replies": r.replies, "pubs": r.pubs, "trace": r.trace,
        "ok": r.ended_ok, "texts": r.texts.to_string(),
    })
    .to_string()
    .into_bytes()
}
fn unpack(b: &[u8]) -> Option<Report> {
    let v: Value = serde_json::from_slice(b).ok()?;
    let strs = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
    let map = |k: &str| v[k].as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), x.as_u64().unwrap_or(0))).collect()).unwrap_or_default();
    let num = |k: &str| v[k].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
    Some(Report {
        end: v["end"].as_str()?.to_string(),
        viol: strs("viol"),
        evals: v["evals"].as_u64()?,
        known: v["known"].as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), x.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default(),
        hash: num("hash"),
        sched: num("sched"),
        nops: v["nops"].as_u64()? as usize,
        stats: map("stats"),
        probes: map("probes"),
        samples: v["samples"].as_array().cloned().unwrap_or_default(),
        sent: v["sent"].as_array().cloned().unwrap_or_default(),
        caps: v["caps"].clone(),
        replies: v["replies"].as_array().cloned().unwrap_or_default(),
        pubs: v["pubs"].clone(),
        trace: strs("trace"),
        ended_ok: v["ok"].as_bool()?,
        texts: num("texts"),
    })
}

/// One session in its own process.
pub fn simulate(prop: &str, knobs: Knobs, cfg: Config, mode: Mode, want: &Want) -> Result<Report, Died> {
    let rseed = knobs.seed;
    let b = exec::forked(move || pack(&run_here(prop, knobs, cfg, mode, want, rseed)))?;
    unpack(&b).ok_or(Died::Exit(250))
}

fn plain_cfg(pull: bool, sem: Option<Vec<String>>) -> Config {
    Config {
        pull,
        sem_types: sem,
        init: 0,
        window: 1,
        docs: 1,
        size: 1,
        ending: Ending::Clean,
        strike: 0,
        early: 0,
        wild: false,
        focus_refs: 0,
        string_ids: false,
        multi_change: false,
        clean_programs: false,
        mem_fix: false,
        spoil: false,
        scale: Default::default(),
        flavor: 0,
    }
}
/// A scripted, fault-free session in fixed order; returns replies by request and publications.
fn scripted(msgs: Vec<Value>, pull: bool, sem: Option<Vec<String>>, lockstep: bool, seed: u64) -> Result<Report, Died> {
    let k = Knobs { seed, policy: 2, max_steps: 3_000_000, ..Default::default() };
    simulate("script", k, plain_cfg(pull, sem), Mode::Script { msgs, lockstep }, &Want { script: true, ..Default::default() })
}

/// Order within these lists carries no meaning.
fn norm(method: &str, v: &Value) -> Value {
    let mut v = v.clone();
    fn sort(v: &mut Value) {
        if let Some(a) = v.as_array_mut() {
            a.sort_by_key(|x| x.to_string());
        }
    }
    match method {
        "textDocument/references" | "textDocument/definition" | "textDocument/declaration" | "textDocument/typeDefinition" | "callHierarchy/incomingCalls" | "callHierarchy/outgoingCalls"
        | "textDocument/foldingRange" | "textDocument/inlayHint" | "textDocument/codeAction" => sort(&mut v["result"]),
        "textDocument/rename" => {
            if let Some(ch) = v.pointer_mut("/result/changes").and_then(|c| c.as_object_mut()) {
                for x in ch.values_mut() {
                    sort(x);
                }
            }
        }
        "textDocument/diagnostic" => {
            if let Some(i) = v.pointer_mut("/result/items") {
                let n = crate::model::norm_diags(i);
                *i = json!(n);
            }
        }
        _ => {}
    }
    v
}

/// The whole check of one case. `Err` is a violation message.
pub fn check_case(case: &Case, trace: bool) -> (Report, Option<String>) {
    let (knobs, cfg, mut ops) = plan(case);
    if !case.keep.is_empty() {
        let mut i = 0;
        ops.retain(|_| {
            i += 1;
            case.keep.get(i - 1).copied().unwrap_or(true)
        });
    }
    let want = Want {
        trace,
        samples: match case.prop.as_str() {
            "C03" => 6,
            _ => 0,
        },
        script: matches!(case.prop.as_str(), "C04" | "C06") || case.prop == "C05" && !cfg.pull && (cfg.multi_change || case.seed % 4 == 0),
    };
    let nops = ops.len();
    let (pull, sem) = (cfg.pull, cfg.sem_types.clone());
    let (docs, flavor) = (cfg.docs, cfg.flavor);
    let rep = match simulate(&case.prop, knobs.clone(), cfg, Mode::Plan(ops), &want) {
        Ok(r) => r,
        Err(d) => {
            let msg = match &d {
                Died::Exit(c) => format!("simulated process exited with {c} outside the simulator"),
                Died::Signal(s) => format!("simulated process killed by signal {s}"),
                Died::Hang => "simulated process did not finish in time (busy loop)".to_string(),
            };
            let rep = Report { end: msg.clone(), nops, ..Default::default() };
            // every property about answers is void if the process is gone; the robustness property owns it
            let v = matches!(case.prop.as_str(), "C02" | "C01" | "C07").then_some(msg);
            return (rep, v);
        }
    };
    if let Some(v) = rep.viol.first() {
        let v = v.clone();
        return (rep, Some(v));
    }
    if let Some((_, v)) = rep.known.iter().find(|(id, _)| crate::check::known(&case.prop, id).is_none()) {
        let v = v.clone();
        return (rep, Some(v));
    }
    let mut rep = rep;
    match case.prop.as_str() {
        "C03" => {
            let samples = rep.samples.clone();
            for s in &samples {
                rep.evals += 1;
                *rep.probes.entry(format!("compared-after:{}", s["edit"].as_str().unwrap_or(""))).or_default() += 1;
                let open = json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": s["uri"], "languageId": "wat", "version": 1, "text": s["text"]}}});
                let mut msgs = vec![open];
                if !s["msg"].is_null() {
                    msgs.push(s["msg"].clone());
                }
                // another hash seed, another process: only the text is the same
                match scripted(msgs, pull, sem.clone(), true, case.seed ^ 0x1234_5678) {
                    Ok(f) => {
                        if s["msg"].is_null() {
                            let p = f.pubs.get(s["uri"].as_str().unwrap_or("")).and_then(|a| a.get(0)).map(|m| m["params"]["diagnostics"].clone()).unwrap_or(Value::Null);
                            if crate::model::norm_diags(&p) != crate::model::norm_diags(&s["publish"]) {
                                let v = format!("after the history of edits the server published {} but for the same text a fresh server publishes {}; text: {}", s["publish"], p, s["text"]);
                                return (rep, Some(v));
                            }
                            continue;
                        }
                        let m = s["msg"]["method"].as_str().unwrap_or("");
                        let fresh = f.replies.iter().find(|x| x[0] == s["msg"]["id"] && x[0] != json!(null)).map(|x| x[1].clone()).unwrap_or(Value::Null);
                        let fresh = if f.replies.len() > 1 { f.replies[f.replies.len() - 2][1].clone() } else { fresh };
                        if norm(m, &fresh) != norm(m, &s["reply"]) {
                            let v = format!(
                                "{} after a history of edits: {} -- fresh server with the same text: {} -- params {} text: {}",
                                m,
                                oracle::brief(&s["reply"]),
                                oracle::brief(&fresh),
                                s["msg"]["params"],
                                s["text"]
                            );
                            return (rep, Some(v));
                        }
                    }
                    Err(_) => {
                        let v = format!("a fresh server does not survive {} on {}", s["msg"], s["text"]);
                        return (rep, Some(v));
                    }
                }
            }
        }
        "C04" => {
            if !rep.ended_ok {
                return (rep, None);
            }
            for d in 0..docs {
                let uri = uri_of(d, flavor);
                let mine = |v: &Value| {
                    let u = v.pointer("/params/textDocument/uri").or_else(|| v.pointer("/params/item/uri"));
                    u.is_some_and(|u| u == &json!(uri))
                };
                let msgs: Vec<Value> = rep.sent.iter().filter(|v| mine(v)).cloned().collect();
                if msgs.is_empty() || msgs.len() == rep.sent.len() {
                    continue;
                }
                rep.evals += msgs.len() as u64;
                *rep.probes.entry("projections".into()).or_default() += 1;
                let Ok(alone) = scripted(msgs.clone(), pull, sem.clone(), true, case.seed ^ 0x77) else {
                    return (rep, Some(format!("a server that only ever saw {uri} does not survive")));
                };
                for m in &msgs {
                    let Some(id) = m.get("id") else { continue };
                    let get = |r: &Report| r.replies.iter().filter(|x| &x[0] == id).map(|x| x[1].clone()).find(|x| x.is_object() || x.is_null()).unwrap_or(Value::Null);
                    let a = get(&rep);
                    let b = alone.replies.iter().zip(0..).filter(|(x, i)| &x[0] == id && *i > 0).map(|x| x.0[1].clone()).next().unwrap_or(Value::Null);
                    let meth = m["method"].as_str().unwrap_or("");
                    if norm(meth, &a) != norm(meth, &b) {
                        let v = format!("{meth} on {uri} answered {} among other documents, {} alone; {}", oracle::brief(&a), oracle::brief(&b), oracle::brief(m));
                        return (rep, Some(v));
                    }
                    // an answer about one document names no other
                    for o in 0..docs.min(7) {
                        if o != d {
                            let other = format!("\"{}\"", uri_of(o, flavor));
                            if a.to_string().contains(&other) {
                                return (rep, Some(format!("answer about {uri} mentions {other}: {}", oracle::brief(&a))));
                            }
                        }
                    }
                }
                let ds = |r: &Report| -> Vec<Vec<String>> {
                    r.pubs.get(&uri).and_then(|a| a.as_array()).map(|a| a.iter().map(|m| crate::model::norm_diags(&m["params"]["diagnostics"])).collect()).unwrap_or_default()
                };
                if ds(&rep) != ds(&alone) {
                    let v = format!("diagnostics of {uri} differ with other documents open: {:?} vs alone {:?}", ds(&rep), ds(&alone));
                    return (rep, Some(v));
                }
            }
        }
        // what is pushed is what another server yields when the same content is pulled from it
        "C05" if want.script && rep.ended_ok => {
            for d in 0..docs {
                let uri = json!(uri_of(d, flavor));
                let empty = vec![];
                let mut pubs = rep.pubs.get(uri.as_str().unwrap()).and_then(|p| p.as_array()).unwrap_or(&empty).iter();
                let (mut msgs, mut pushed) = (vec![], vec![]);
                for m in rep.sent.iter().filter(|m| m.pointer("/params/textDocument/uri") == Some(&uri)) {
                    let text = match m["method"].as_str() {
                        Some("textDocument/didOpen") => m.pointer("/params/textDocument/text"),
                        Some("textDocument/didChange") => m.pointer("/params/contentChanges").and_then(|c| c.as_array()).and_then(|c| c.last()).map(|c| &c["text"]),
                        Some("textDocument/didClose") => {
                            pubs.next();
                            None
                        }
                        _ => None,
                    };
                    let (Some(text), true) = (text.and_then(|t| t.as_str()), msgs.len() < 12) else { continue };
                    let Some(p) = pubs.next() else { break };
                    pushed.push((p["params"]["diagnostics"].clone(), text.to_string()));
                    msgs.push(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "wat", "version": 1, "text": text}}}));
                    msgs.push(json!({"jsonrpc": "2.0", "id": 1000 + pushed.len(), "method": "textDocument/diagnostic", "params": {"textDocument": {"uri": uri}}}));
                }
                let Ok(other) = scripted(msgs, true, sem.clone(), true, case.seed ^ 0x55) else { continue };
                rep.evals += pushed.len() as u64;
                *rep.probes.entry("pulled-elsewhere".into()).or_default() += pushed.len() as u64;
                for (i, (p, text)) in pushed.iter().enumerate() {
                    let Some(items) = other.replies.iter().skip(1).find(|r| r[0] == json!(1001 + i)).and_then(|r| r[1].pointer("/result/items")) else { continue };
                    if crate::model::norm_diags(p) != crate::model::norm_diags(items) {
                        return (rep, Some(format!("pushed {} where another server yields {} for the content {:?}", oracle::brief(p), oracle::brief(items), oracle::clip(text))));
                    }
                }
            }
        }
        "C06" => {
            let msgs: Vec<Value> = rep.sent.iter().filter(|v| !matches!(v["method"].as_str(), Some("initialize" | "initialized" | "shutdown" | "exit"))).cloned().collect();
            match scripted(msgs, pull, sem, true, case.seed ^ 0x99) {
                Ok(calm) => {
                    rep.evals += rep.replies.len() as u64;
                    let strip = |r: &Report| -> Vec<Value> { r.replies.iter().skip(1).filter(|x| x[1]["result"] != Value::Null || x[1]["error"] != Value::Null || true).cloned().collect() };
                    let (a, b) = (strip(&rep), strip(&calm));
                    // the last one is the shutdown, whose id differs
                    for (x, y) in a.iter().take(a.len().saturating_sub(1)).zip(b.iter()) {
                        let m = rep.sent.iter().find(|v| v["id"] == x[0]).and_then(|v| v["method"].as_str()).unwrap_or("");
                        if norm(m, &x[1]) != norm(m, &y[1]) {
                            let v = format!("{m}: {} under this schedule, {} when sent one at a time", oracle::brief(&x[1]), oracle::brief(&y[1]));
                            return (rep, Some(v));
                        }
                    }
                    if a.len() != b.len() {
                        return (rep, Some(format!("{} replies under this schedule, {} when sent one at a time", a.len(), b.len())));
                    }
                    let n = |v: &Value| -> Vec<(String, Vec<Vec<String>>)> {
                        v.as_object()
                            .map(|o| o.iter().map(|(k, a)| (k.clone(), a.as_array().map(|a| a.iter().map(|m| crate::model::norm_diags(&m["params"]["diagnostics"])).collect()).unwrap_or_default())).collect())
                            .unwrap_or_default()
                    };
                    if n(&rep.pubs) != n(&calm.pubs) {
                        let v = format!("notifications differ: {} vs {}", oracle::brief(&rep.pubs), oracle::brief(&calm.pubs));
                        return (rep, Some(v));
                    }
                    if !rep.ended_ok && calm.ended_ok {
                        let v = format!("session ends with {} under this schedule, regularly when sent one at a time", rep.end);
                        return (rep, Some(v));
                    }
                }
                Err(_) => {
                    if rep.ended_ok {
                        return (rep, Some("session survives this schedule but not one message at a time".into()));
                    }
                }
            }
        }
        _ => {}
    }
    (rep, None)
}
