//! Expected answers, computed from the client's own bookkeeping of what it wrote.
use crate::client::*;
use crate::emit::*;
use crate::gen::DK;
use crate::oracle::{brief, clip, Out};
use serde_json::Value;
pub mod act;
pub mod typing;
pub mod diag;
pub mod fmt;
pub mod info;
pub mod nav;
pub mod sem;
pub mod shape;

/// `Err` says how an answer differs from what the document means.
pub type Verdict = Result<(), String>;

pub struct Judge<'a> {
    o: &'a mut Out,
    ctx: String,
}
impl Judge<'_> {
    fn bad(&mut self, m: String) {
        self.o.bad(format!("{m}; {}", self.ctx));
    }
    fn verdict(&mut self, v: Verdict) {
        if let Err(m) = v {
            self.bad(m);
        }
    }
    /// A deviation that has a name of its own in the list of known findings.
    fn known(&mut self, id: &str, v: Verdict) {
        if let Err(m) = v {
            let m = format!("{id}: {m}; {}", self.ctx);
            self.o.known.entry(id.to_string()).or_insert(m);
        }
    }
    /// What the language says, or what it would say if a module had a single index space.
    fn both(&mut self, em: &Em, f: &dyn Fn(&Em) -> Verdict) {
        let Err(m) = f(em) else { return };
        match f(&em.shared()) {
            Ok(()) => self.known("shared-index-space", Err(m)),
            Err(_) => self.bad(m),
        }
    }
}

/// The token a position falls on, if that is beyond doubt.
fn token_at(em: &Em, f: &Focus) -> Option<usize> {
    match f {
        Focus::At { tok: Some(t), .. } => Some(*t),
        Focus::At { off, tok: None } => em.toks.iter().position(|t| t.s < *off && *off < t.e),
        _ => None,
    }
}

pub fn check(_prop: &str, c: &Client, r: &Rec, m: usize, snap: &Snap, reply: &Value, o: &mut Out) {
    if matches!(m, FORMAT | RANGE_FORMAT) {
        return fmt::judge(c, r, m, snap, reply, o);
    }
    if m == ACTION {
        return act::judge(c, r, snap, reply, o);
    }
    if let Focus::Typing(t) = &r.focus {
        let mut j = Judge { ctx: format!("{} answered {} on {:?}", r.msg, brief(reply), clip(&snap.text)), o };
        j.o.evals += 1;
        return j.both(&t.em, &|em| typing::judge(t, em, &reply["result"]));
    }
    let Some(em) = snap.em.as_deref() else {
        if m == DIAGNOSTIC {
            diag::judge_broken(c, snap, reply.pointer("/result/items"), o);
        }
        return;
    };
    let res = &reply["result"];
    let uri = snap.uri.as_str();
    let mut j = Judge { ctx: format!("{} answered {} on {:?}", r.msg, brief(reply), clip(&snap.text)), o };
    let before = j.o.evals;
    j.o.evals += 1;
    let tok = token_at(em, &r.focus);
    if reply.get("error").is_some() && m != RENAME {
        j.bad("error".into());
        return;
    }
    match (m, tok) {
        (DEFINITION, Some(t)) => j.both(em, &|em| nav::definition(em, uri, t, res)),
        (DECLARATION, Some(t)) => j.both(em, &|em| nav::declaration(em, uri, t, res)),
        (TYPEDEF, Some(t)) => j.both(em, &|em| nav::type_definition(em, uri, t, res)),
        (REFERENCES, Some(t)) => {
            let decl = r.msg.pointer("/params/context/includeDeclaration") == Some(&Value::Bool(true));
            j.both(em, &|em| nav::references(em, uri, t, decl, res))
        }
        (PREP_CALLS, Some(t)) => j.both(em, &|em| nav::prepare_calls(em, uri, t, res)),
        (INCOMING | OUTGOING, _) => match r.focus {
            Focus::Item(f) => j.both(em, &|em| nav::calls(em, uri, f, m == INCOMING, res)),
            _ => j.o.evals = before,
        },
        (RENAME, Some(t)) => nav::rename(&mut j, em, uri, t, r.msg["params"]["newName"].as_str().unwrap_or(""), reply),
        (DIAGNOSTIC, _) => diag::judge(&mut j, em, uri, &res["items"]),
        (HOVER, Some(t)) => j.both(em, &|em| info::hover(em, t, res)),
        (INLAY, _) => match r.focus {
            Focus::Span { s, e } => j.both(em, &|em| info::inlay(em, s, e, res)),
            _ => j.o.evals = before,
        },
        (COMPLETION, Some(t)) => {
            let off = match r.focus {
                Focus::At { off, .. } => off,
                _ => 0,
            };
            match info::completion(em, t, off, res) {
                Some(_) => j.both(em, &|em| info::completion(em, t, off, res).unwrap_or(Ok(()))),
                None => j.o.evals = before,
            }
        }
        (SYMBOLS, _) => j.both(em, &|em| shape::symbols(em, res)),
        (FOLDING, _) => j.verdict(shape::folding(em, res)),
        (SELECTION, _) => {
            let at: Vec<_> = r.msg["params"]["positions"].as_array().map(|a| a.iter().filter_map(crate::text::jpos).collect()).unwrap_or_default();
            match shape::selection(em, &at, res) {
                Some(v) => j.verdict(v),
                None => j.o.evals = before,
            }
        }
        (SEM_FULL, _) => j.verdict(sem::full(em, &legend(c), res)),
        (SEM_RANGE, _) => match r.focus {
            Focus::Span { s, e } => sem::range(&mut j, em, &legend(c), s, e, res),
            _ => j.o.evals = before,
        },
        (PREP_RENAME, Some(t)) => j.verdict(nav::prepare_rename(em, t, res)),
        _ => j.o.evals = before,
    }
}
/// Positions outside the document: columns beyond a line mean its end, lines beyond the end mean
/// nothing at all, and neither do inverted ranges.
pub fn check_wild(prop: &str, c: &Client, r: &Rec, m: usize, snap: &Snap, reply: &Value, o: &mut Out) {
    use crate::text::{jpos, Lines};
    let p = &r.msg["params"];
    let text = snap.text.as_str();
    let lines = Lines::new(text);
    let nothing = |o: &mut Out, why: &str| {
        o.evals += 1;
        let res = &reply["result"];
        let empty = res.is_null() || res.pointer("/data").and_then(|d| d.as_array()).is_some_and(|a| a.is_empty()) || res.as_array().is_some_and(|a| a.is_empty()) || m == RENAME && reply.get("error").is_some();
        if !empty {
            o.bad(format!("{why}, but {} is answered {} on {:?}", r.msg, brief(reply), clip(text)));
        }
    };
    let certain = |q: (u32, u32)| -> Option<usize> {
        let l = q.0 as usize;
        let crlf = text[lines.content(text, l).1..].starts_with("\r\n");
        let w = lines.width(text, l);
        if q.1 > w {
            return if crlf { None } else { Some(lines.content(text, l).1) };
        }
        lines.exact(text, q)
    };
    if matches!(m, SEM_RANGE | INLAY | ACTION | RANGE_FORMAT) {
        let (Some(a), Some(b)) = (p.pointer("/range/start").and_then(jpos), p.pointer("/range/end").and_then(jpos)) else { return };
        if a.0 as usize >= lines.count() || b.0 as usize >= lines.count() {
            return nothing(o, "the range lies outside of the document");
        }
        let (Some(s), Some(e)) = (certain(a), certain(b)) else { return };
        if s > e {
            // what lies between is up to the server, as long as it is part of the document
            return if m == SEM_RANGE { } else { nothing(o, "the range is inverted") };
        }
        if matches!(m, SEM_RANGE | INLAY) {
            check(prop, c, &Rec { focus: Focus::Span { s, e }, ..r.clone() }, m, snap, reply, o);
        }
        return;
    }
    let Some(at) = p.get("position").or_else(|| p.pointer("/positions/0")).and_then(jpos) else { return };
    if at.0 as usize >= lines.count() {
        return nothing(o, "the position lies outside of the document");
    }
    if !matches!(m, HOVER | DEFINITION | REFERENCES | PREP_RENAME) {
        if m == SELECTION {
            check(prop, c, r, m, snap, reply, o);
        }
        return;
    }
    let (Some(em), Some(off)) = (&snap.em, certain(at)) else { return };
    match shape::token(em, at) {
        Some(Some(t)) => check(prop, c, &Rec { focus: Focus::At { off, tok: Some(t) }, ..r.clone() }, m, snap, reply, o),
        Some(None) => nothing(o, "the position is between two tokens"),
        None => {}
    }
}

/// Whatever an answer points at exists in the document it is about.
pub fn check_ranges(c: &Client, o: &mut Out) {
    for r in &c.recs {
        let (Some(m), Some(snap), Some(reply)) = (r.m, &r.snap, &r.reply) else { continue };
        if !snap.open || reply.get("result").map_or(true, |v| v.is_null()) {
            continue;
        }
        let lines = crate::text::Lines::new(&snap.text);
        if let Err(e) = valid(&reply["result"], &lines, &snap.text, &mut o.evals) {
            o.bad(format!("{e}: {} answered {} on {:?}", r.msg, brief(reply), clip(&snap.text)));
        }
        if matches!(m, SEM_FULL | SEM_RANGE) {
            o.evals += 1;
            if let Err(e) = sem::plausible(&reply["result"]["data"], &lines, &snap.text, m == SEM_RANGE) {
                o.bad(format!("{e}: {} answered {} on {:?}", r.msg, brief(reply), clip(&snap.text)));
            }
        }
        if m == SEM_RANGE {
            let full = c.recs.iter().find(|f| f.m == Some(SEM_FULL) && f.reply.is_some() && f.snap.as_ref().is_some_and(|s| std::rc::Rc::ptr_eq(s, snap)));
            if let Some(f) = full.and_then(|f| f.reply.as_ref()) {
                o.evals += 1;
                if let Err(e) = sem::part_of(&reply["result"]["data"], &f["result"]["data"]) {
                    o.bad(format!("{e}: {} answered {}, all tokens are {} on {:?}", r.msg, brief(reply), brief(f), clip(&snap.text)));
                }
            }
        }
    }
    let mut seen: std::collections::BTreeMap<&str, usize> = Default::default();
    for g in c.got.iter().filter(|g| g["method"] == "textDocument/publishDiagnostics") {
        let Some(uri) = g["params"]["uri"].as_str() else { continue };
        let k = seen.entry(uri).or_default();
        let ev = c.docev.iter().filter(|e| e.snap.uri == uri && (e.close || !c.cfg.pull)).nth(*k);
        *k += 1;
        let Some(e) = ev else { continue };
        let lines = crate::text::Lines::new(&e.snap.text);
        if let Err(m) = valid(&g["params"]["diagnostics"], &lines, &e.snap.text, &mut o.evals) {
            o.bad(format!("{m}: {} on {:?}", brief(g), clip(&e.snap.text)));
        }
    }
}
fn valid(v: &Value, lines: &crate::text::Lines, text: &str, n: &mut u64) -> Verdict {
    use crate::text::{jpos, jrange};
    match v {
        Value::Array(a) => a.iter().try_for_each(|x| valid(x, lines, text, n)),
        Value::Object(o) => {
            if let Some(r) = jrange(v) {
                *n += 1;
                if r.s > r.e {
                    return Err(format!("inverted range {r:?}"));
                }
            }
            if let Some(p) = jpos(v) {
                if lines.exact(text, p).is_none() {
                    return Err(format!("position {p:?} does not exist"));
                }
                return Ok(());
            }
            if let (Some(s), Some(e)) = (v["startLine"].as_u64(), v["endLine"].as_u64()) {
                *n += 1;
                let a = (s as u32, v["startCharacter"].as_u64().unwrap_or(0) as u32);
                let b = (e as u32, v["endCharacter"].as_u64().unwrap_or(0) as u32);
                if a > b || lines.exact(text, a).is_none() || lines.exact(text, b).is_none() {
                    return Err(format!("folding range {a:?} to {b:?} does not exist"));
                }
            }
            o.values().try_for_each(|x| valid(x, lines, text, n))
        }
        _ => Ok(()),
    }
}
/// The token types the server announced.
fn legend(c: &Client) -> Vec<String> {
    crate::oracle::expected_legend(c)
}
/// What is pushed for a version is what that version is to have.
pub fn check_published(prop: &str, c: &Client, o: &mut Out) {
    if prop != "C14" || c.cfg.pull {
        return;
    }
    let mut seen: std::collections::BTreeMap<&str, usize> = Default::default();
    for e in &c.docev {
        let k = seen.entry(e.snap.uri.as_str()).or_default();
        let p = c
            .got
            .iter()
            .filter(|g| g["method"] == "textDocument/publishDiagnostics" && g["params"]["uri"] == e.snap.uri.as_str())
            .nth(*k);
        *k += 1;
        if e.close {
            continue;
        }
        let Some(p) = p else {
            if crate::oracle::answer_due(c) {
                o.bad(format!("no diagnostics are pushed for {:?}", clip(&e.snap.text)));
            }
            continue;
        };
        let Some(em) = e.snap.em.as_deref() else {
            diag::judge_broken(c, &e.snap, p.pointer("/params/diagnostics"), o);
            continue;
        };
        o.evals += 1;
        let mut j = Judge { ctx: format!("pushed {} for {:?}", brief(p), clip(&e.snap.text)), o };
        diag::judge(&mut j, em, &e.snap.uri, &p["params"]["diagnostics"]);
    }
}

/// Parameter names are part of a function's signature.
pub fn refresh_params(em: &mut Em) {
    for f in 0..em.defs.len() {
        if em.defs[f].dk != DK::Func {
            continue;
        }
        let node = em.defs[f].node;
        let names: Vec<Option<String>> = em.defs.iter().filter(|d| d.dk == DK::Param && d.func == Some(node)).map(|d| d.name.clone()).collect();
        if names.len() == em.defs[f].params.len() {
            for (p, n) in em.defs[f].params.iter_mut().zip(names) {
                p.1 = n;
            }
        }
    }
}

pub fn norm_diags(v: &Value) -> Vec<String> {
    let mut out: Vec<String> = v.as_array().map(|a| a.iter().map(norm_diag).collect()).unwrap_or_default();
    out.sort();
    out
}
fn norm_diag(v: &Value) -> String {
    let mut v = v.clone();
    if let Some(r) = v.get_mut("relatedInformation").and_then(|r| r.as_array_mut()) {
        r.sort_by_key(|x| x.to_string());
    }
    v.to_string()
}
/// What the client knows about the document after applying an answer's edits.
pub fn applied(em: &Em, rec: &Rec, m: usize, _reply: &Value, _pick: usize, new: &str) -> Option<Em> {
    match m {
        FORMAT | RANGE_FORMAT => em.relocate(new),
        RENAME => nav::renamed(em, token_at(em, &rec.focus)?, rec.msg["params"]["newName"].as_str()?, new),
        _ => None,
    }
}
