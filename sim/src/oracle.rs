//! Checks over one recorded session. Every check belongs to exactly one property.
use crate::client::*;
use crate::emit::Em;
use crate::model;
use serde_json::Value;
use simkern::End;

pub struct Out {
    pub viol: Vec<String>,
    pub evals: u64,
    /// deviations with a name: accepted only where the known-findings file lists that name
    pub known: std::collections::BTreeMap<String, String>,
}
impl Out {
    pub fn bad(&mut self, msg: String) {
        if self.viol.len() < 8 {
            let mut m = msg;
            if m.len() > 3000 {
                let c = bound(&m, 3000);
                m.truncate(c);
            }
            self.viol.push(m);
        }
    }
}

/// Requests whose answers a property is about.
pub fn subject(prop: &str, m: usize) -> bool {
    match prop {
        "C09" => matches!(m, RENAME | PREP_RENAME),
        "C10" => matches!(m, DEFINITION | DECLARATION | TYPEDEF | REFERENCES | PREP_CALLS | INCOMING | OUTGOING),
        "C11" => matches!(m, FORMAT | RANGE_FORMAT),
        "C12" => m == ACTION,
        "C14" => m == DIAGNOSTIC,
        "C15" => matches!(m, HOVER | INLAY | COMPLETION),
        "C16" => matches!(m, SYMBOLS | FOLDING | SELECTION),
        "C08" => matches!(m, SEM_FULL | SEM_RANGE | SELECTION | PREP_RENAME | DEFINITION | HOVER),
        "C13" => m == SEM_FULL,
        _ => false,
    }
}

pub fn brief(v: &Value) -> String {
    let s = v.to_string();
    let c = bound(&s, s.len().min(700));
    s[..c].to_string()
}

pub fn check(prop: &str, c: &Client, end: &End, stray: usize) -> Out {
    let mut o = Out { viol: vec![], evals: 0, known: Default::default() };
    match prop {
        "C01" => c01(c, end, stray, &mut o),
        "C02" => c02(c, end, &mut o),
        "C05" => c05(c, &mut o),
        "C07" => c07(c, end, &mut o),
        "C13" => c13(c, &mut o),
        _ => {}
    }
    if matches!(prop, "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16") {
        for r in &c.recs {
            let Some(m) = r.m else { continue };
            let wild = matches!(r.focus, Focus::Wild);
            if if wild { prop != "C08" } else { !subject(prop, m) } {
                continue;
            }
            let Some(snap) = &r.snap else { continue };
            let Some(reply) = &r.reply else {
                if answer_due(c) {
                    o.bad(format!("no answer to {} on {:?}", r.msg, clip(&snap.text)));
                }
                continue;
            };
            if snap.open && wild {
                model::check_wild(prop, c, r, m, snap, reply, &mut o);
            } else if snap.open {
                model::check(prop, c, r, m, snap, reply, &mut o);
            }
        }
        if prop == "C14" {
            model::check_published(prop, c, &mut o);
        }
    }
    if prop == "C08" {
        model::check_ranges(c, &mut o);
    }
    o
}
pub fn clip(t: &str) -> String {
    let c = bound(t, t.len().min(1500));
    t[..c].to_string()
}
/// The session ran to a regular end, so every request is to have its answer.
pub fn answer_due(c: &Client) -> bool {
    matches!(c.cfg.ending, Ending::Clean | Ending::NoExit)
}

fn c01(c: &Client, end: &End, stray: usize, o: &mut Out) {
    if let Some(m) = &c.malformed {
        o.bad(format!("output is not a sequence of well-formed messages: {m}"));
    }
    if stray > 0 {
        o.bad(format!("{stray} bytes written to standard output outside the protocol"));
    }
    for r in &c.recs {
        o.evals += 1;
        if r.replies > 1 {
            o.bad(format!("{} replies to {}", r.replies, brief(&r.msg)));
        }
        if r.replies == 0 && r.expects_reply && answer_due(c) {
            o.bad(format!("no reply to {} (session end: {end:?})", brief(&r.msg)));
        }
        if let Some(v) = &r.reply {
            let has_r = v.get("result").is_some();
            let has_e = v.get("error").is_some_and(|e| !e.is_null());
            if has_r == has_e {
                o.bad(format!("reply has result={has_r} error={has_e}: {}", brief(v)));
            }
            if has_e {
                let e = &v["error"];
                if !e["code"].is_i64() || !e["message"].is_string() {
                    o.bad(format!("malformed error object {}", brief(v)));
                }
            }
            if v.get("jsonrpc") != Some(&Value::from("2.0")) {
                o.bad(format!("reply without jsonrpc 2.0: {}", brief(v)));
            }
            // every supported request about an open document succeeds; only renames may be refused
            if let (Some(m), Some(s)) = (r.m, &r.snap) {
                if has_e && m != RENAME && s.open {
                    o.bad(format!("error reply to {}: {}", brief(&r.msg), brief(v)));
                }
            }
            // and unusable requests are refused with an error
            if r.m.is_none() && has_r && unusable(&r.msg) {
                o.bad(format!("request {} was not refused: {}", brief(&r.msg), brief(v)));
            }
        }
    }
    for g in &c.got {
        if g.get("method").is_some() && g.get("id").is_some() {
            o.bad(format!("unexpected server request {}", brief(g)));
        }
    }
}
fn unusable(msg: &Value) -> bool {
    let m = msg["method"].as_str().unwrap_or("");
    if m == "initialize" || m == "shutdown" {
        return false;
    }
    if !METHODS.contains(&m) {
        return true;
    }
    // parameters that lack everything the method needs
    match msg.get("params") {
        None => true,
        Some(p) => p.as_object().map_or(true, |o| o.is_empty()) || p.pointer("/textDocument/uri").is_some_and(|u| u.is_number()),
    }
}

fn c02(c: &Client, end: &End, o: &mut Out) {
    o.evals += c.sent.len() as u64;
    match end {
        End::Panic(m) => o.bad(format!("the server crashed: {m}; last messages: {}", last_msgs(c))),
        End::Deadlock(m) => o.bad(format!("the server is stuck: {m}; last messages: {}", last_msgs(c))),
        End::StepLimit => o.bad(format!("no end within the step limit; last messages: {}", last_msgs(c))),
        End::Exit(code, m) => {
            if c.cfg.ending == Ending::Clean && *code != 0 {
                o.bad(format!("the server gave up with status {code} ({m}); last messages: {}", last_msgs(c)));
            }
        }
    }
    if matches!(end, End::Exit(0, _)) && answer_due(c) {
        for r in &c.recs {
            if r.expects_reply && r.replies == 0 && r.m.is_some() && r.snap.is_some() {
                o.bad(format!("request {} was dropped", brief(&r.msg)));
            }
        }
    }
}
fn last_msgs(c: &Client) -> String {
    // the message being handled is the first request without an answer, or the last sent ones
    let first = c.recs.iter().find(|r| r.replies == 0).map(|r| r.at).unwrap_or(c.sent.len().saturating_sub(2));
    let mut out = String::new();
    for i in first.saturating_sub(1)..(first + 2).min(c.sent.len()) {
        let s = c.sent[i].to_string();
        let k = bound(&s, s.len().min(900));
        out.push_str(&s[..k]);
        out.push('\n');
    }
    out
}

/// Published diagnostics follow the document's life.
fn c05(c: &Client, o: &mut Out) {
    if !answer_due(c) {
        return;
    }
    let mut per_uri: std::collections::BTreeMap<String, Vec<(usize, &Value)>> = Default::default();
    for (i, g) in c.got.iter().enumerate() {
        if g.get("method") == Some(&Value::from("textDocument/publishDiagnostics")) {
            let p = &g["params"];
            per_uri.entry(p["uri"].as_str().unwrap_or("?").to_string()).or_default().push((i, p));
        }
    }
    let mut expect: std::collections::BTreeMap<String, Vec<&DocEv>> = Default::default();
    for e in &c.docev {
        if e.close || !c.cfg.pull {
            expect.entry(e.snap.uri.clone()).or_default().push(e);
        }
    }
    for (u, l) in &per_uri {
        if !expect.contains_key(u) {
            o.bad(format!("diagnostics published for {u}, which asked for none: {}", brief(l[0].1)));
        }
    }
    for (u, evs) in &expect {
        let empty = vec![];
        let pubs = per_uri.get(u).unwrap_or(&empty);
        o.evals += evs.len() as u64;
        if pubs.len() != evs.len() {
            o.bad(format!(
                "{} publications for {u}, expected {} (one per open/change, one per close; pull client: {})",
                pubs.len(),
                evs.len(),
                c.cfg.pull
            ));
            continue;
        }
        for ((gi, p), e) in pubs.iter().zip(evs) {
            let ds = p["diagnostics"].as_array();
            let Some(ds) = ds else {
                o.bad(format!("publication without a diagnostics list: {}", brief(p)));
                continue;
            };
            if e.close {
                if !ds.is_empty() {
                    o.bad(format!("closing {u} left diagnostics behind: {}", brief(p)));
                }
            } else {
                if let Some(v) = p.get("version").and_then(|v| v.as_i64()) {
                    let sent = c.sent[e.at].pointer("/params/textDocument/version").and_then(|v| v.as_i64());
                    if Some(v) != sent {
                        o.bad(format!("publication claims version {v}, document has {sent:?}"));
                    }
                }
            }
            // it comes before the answer to any later request
            for r in &c.recs {
                if r.at > e.at && r.replies > 0 && r.reply_at < *gi {
                    o.bad(format!("diagnostics for {u} (message {}) arrive after the answer to a later request", e.at));
                    break;
                }
                if r.at < e.at && r.replies > 0 && r.reply_at > *gi {
                    o.bad(format!("diagnostics for {u} (message {}) arrive before the answer to an earlier request", e.at));
                    break;
                }
            }
        }
    }
    // what is pushed is what a pull of the same content yields
    for r in &c.recs {
        if r.m != Some(DIAGNOSTIC) {
            continue;
        }
        let (Some(s), Some(v)) = (&r.snap, &r.reply) else { continue };
        let full = v.pointer("/result/kind") == Some(&Value::from("full"));
        let Some(items) = v.pointer("/result/items").filter(|_| full) else {
            o.bad(format!("pull answered with {}", brief(v)));
            continue;
        };
        o.evals += 1;
        if c.cfg.pull || !s.open {
            continue;
        }
        let evs = &expect[&s.uri];
        if let Some(k) = evs.iter().position(|e| std::rc::Rc::ptr_eq(&e.snap, s)) {
            if let Some((_, p)) = per_uri.get(&s.uri).and_then(|l| l.get(k)) {
                if model::norm_diags(&p["diagnostics"]) != model::norm_diags(items) {
                    o.bad(format!("pushed {} but pulled {} for the same content {:?}", brief(&p["diagnostics"]), brief(items), clip(&s.text)));
                }
            }
        }
    }
}

fn c07(c: &Client, end: &End, o: &mut Out) {
    o.evals += 1;
    let init_ok = c.recs.first().is_some_and(|r| r.replies == 1);
    if !init_ok && c.cfg.early == 0 {
        o.bad(format!("initialize was not answered; end {end:?}"));
        return;
    }
    let (code, msg) = match end {
        End::Exit(code, m) => (*code, m.clone()),
        // the transport library gives up this way when it cannot answer `initialize`
        End::Panic(_) if c.cfg.early > 0 && c.cfg.ending == Ending::Broken => return,
        e => {
            o.bad(format!("the process does not terminate after {:?}: {e:?}", c.cfg.ending));
            return;
        }
    };
    if c.cfg.early > 0 {
        // before initialization is complete, only termination is asked for
        return;
    }
    let shut = c.shutdown_rec.map(|r| c.recs[r].replies);
    match c.cfg.ending {
        Ending::Clean | Ending::Eager => {
            if code != 0 {
                o.bad(format!("orderly shutdown ended with status {code}: {msg}"));
            }
        }
        Ending::NoExit => {
            if code == 0 {
                o.bad("a client that vanished after shutdown is reported as success".into());
            }
        }
        _ => {}
    }
    if shut.is_some() && shut != Some(1) && c.cfg.ending != Ending::Broken {
        o.bad(format!("shutdown was answered {shut:?} times"));
    }
    if matches!(c.cfg.ending, Ending::Clean | Ending::NoExit | Ending::Eager) {
        if let Some(s) = c.shutdown_rec {
            let sr = &c.recs[s];
            if let Some(v) = &sr.reply {
                if !v.get("result").is_some_and(|x| x.is_null()) {
                    o.bad(format!("shutdown answered with {}", brief(v)));
                }
            }
            for r in &c.recs {
                if r.at < sr.at && r.m.is_some() && r.snap.is_some() {
                    o.evals += 1;
                    if r.replies == 0 {
                        o.bad(format!("request {} sent before shutdown was never answered", brief(&r.msg)));
                    } else if sr.replies > 0 && r.reply_at > sr.reply_at {
                        o.bad(format!("answer to {} follows the answer to shutdown", brief(&r.msg)));
                    }
                }
            }
            if sr.replies > 0 && sr.reply_at + 1 != c.got.len() {
                o.bad(format!("messages after the answer to shutdown: {}", brief(&c.got[sr.reply_at + 1])));
            }
        }
    }
    // whatever was asked before input ended is still answered
    if matches!(c.cfg.ending, Ending::Eof | Ending::ExitOnly) {
        for r in &c.recs {
            if r.m.is_some() && r.snap.is_some() && r.replies == 0 {
                o.bad(format!("request {} received before the input ended was never answered", brief(&r.msg)));
            }
        }
    }
    // a client that cuts a message in half is not owed the rest of an answer
    if let (Some(m), false) = (&c.malformed, c.cfg.ending == Ending::EofMid) {
        o.bad(format!("truncated or malformed output: {m}"));
    }
}

pub const SUPPORTED: &[&str] = &["type", "parameter", "variable", "function", "keyword", "comment", "string", "number", "operator"];

pub fn expected_legend(c: &Client) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in c.cfg.sem_types.iter().flatten() {
        if SUPPORTED.contains(&t.as_str()) && !v.contains(t) {
            v.push(t.clone());
        }
    }
    v
}
fn c13(c: &Client, o: &mut Out) {
    let Some(v) = c.recs.first().and_then(|r| r.reply.as_ref()) else {
        o.bad("initialize was not answered".into());
        return;
    };
    o.evals += 1;
    let caps = &v["result"]["capabilities"];
    let legend: Vec<String> =
        caps.pointer("/semanticTokensProvider/legend/tokenTypes").and_then(|x| x.as_array()).map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
    if legend != expected_legend(c) {
        o.bad(format!("client token types {:?} give legend {legend:?}", c.cfg.sem_types));
    }
    let on = |p: &str| caps.get(p).is_some_and(|x| !x.is_null() && x != &Value::Bool(false));
    for p in [
        "hoverProvider",
        "definitionProvider",
        "declarationProvider",
        "typeDefinitionProvider",
        "referencesProvider",
        "renameProvider",
        "completionProvider",
        "documentSymbolProvider",
        "foldingRangeProvider",
        "selectionRangeProvider",
        "semanticTokensProvider",
        "inlayHintProvider",
        "documentFormattingProvider",
        "documentRangeFormattingProvider",
        "codeActionProvider",
        "diagnosticProvider",
        "callHierarchyProvider",
    ] {
        o.evals += 1;
        if !on(p) {
            o.bad(format!("{p} is not announced"));
        }
    }
    let sync = &caps["textDocumentSync"];
    let change = if sync.is_object() { sync["change"].as_i64() } else { sync.as_i64() };
    if change != Some(1) {
        o.bad(format!("full-text synchronisation is not announced: {sync}"));
    }
    if sync.is_object() && sync["openClose"] != Value::Bool(true) {
        o.bad(format!("open/close notifications are not requested: {sync}"));
    }
    if caps.pointer("/renameProvider/prepareProvider") != Some(&Value::Bool(true)) {
        o.bad("rename preparation is not announced".into());
    }
    for k in ["range", "full"] {
        if caps.pointer(&format!("/semanticTokensProvider/{k}")) != Some(&Value::Bool(true)) {
            o.bad(format!("semantic tokens {k} is not announced"));
        }
    }
    let kinds = caps.pointer("/codeActionProvider/codeActionKinds").and_then(|x| x.as_array()).cloned().unwrap_or_default();
    for k in ["quickfix", "refactor.rewrite"] {
        if !kinds.contains(&Value::from(k)) {
            o.bad(format!("code action kind {k} is not announced: {kinds:?}"));
        }
    }
    let trig = caps.pointer("/completionProvider/triggerCharacters").and_then(|x| x.as_array()).cloned().unwrap_or_default();
    for k in ["$", "("] {
        if !trig.contains(&Value::from(k)) {
            o.bad(format!("completion is not triggered by {k:?}"));
        }
    }
    if let Some(e) = caps.get("positionEncoding").and_then(|x| x.as_str()) {
        if e != "utf-16" {
            o.bad(format!("positions are announced in {e} and given in UTF-16"));
        }
    }
    // who gets diagnostics pushed
    for g in &c.got {
        if g.get("method") == Some(&Value::from("textDocument/publishDiagnostics")) && c.cfg.pull {
            o.evals += 1;
            if g.pointer("/params/diagnostics").and_then(|x| x.as_array()).is_some_and(|a| !a.is_empty()) {
                o.bad(format!("diagnostics pushed to a client that pulls them: {}", brief(g)));
            }
        }
    }
    if !c.cfg.pull && answer_due(c) {
        for e in &c.docev {
            o.evals += 1;
            let n = c.got.iter().filter(|g| g.pointer("/params/uri") == Some(&Value::from(e.snap.uri.clone()))).count();
            if n == 0 {
                o.bad(format!("no diagnostics pushed for {} to a client that does not pull", e.snap.uri));
            }
        }
    }
}

/// What the client knows about the text after applying the server's edits, if anything.
pub fn applied_em(em: &Em, rec: &Rec, m: usize, reply: &Value, pick: usize, new: &str) -> Option<Em> {
    model::applied(em, rec, m, reply, pick, new)
}
