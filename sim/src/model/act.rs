//! Code actions: what is offered where, and that applying one keeps the meaning of the document.
use super::Verdict;
use crate::client::*;
use crate::emit::*;
use crate::gen::{FieldK, Group, Instr, Program};
use crate::lex;
use crate::oracle::{brief, clip, Out};
use crate::text;
use serde_json::Value;
use std::rc::Rc;

/// A document whose only mistake are blanks around the `=` of a memory argument.
#[derive(Clone, Debug)]
pub struct MemFix {
    pub text: Rc<String>,
    pub was: Rc<String>,
    pub em: Rc<Em>,
    /// the instruction
    pub s: usize,
    pub e: usize,
    /// a comment stands there too, which no blank explains and no repair may lose
    pub comment: bool,
}
/// Blanks around the `=` of some folded instruction's memory argument.
pub fn loosen(em: &Rc<Em>, r: &mut simkern::Rng) -> Option<MemFix> {
    let at: Vec<usize> = (0..em.toks.len())
        .filter(|t| {
            let w = em.ts(*t);
            let n = &em.nodes[em.nodes[em.toks[*t].node].parent];
            let digits = w.split_once('=').is_some_and(|(_, v)| v.bytes().all(|b| b.is_ascii_digit()));
            digits && (w.starts_with("offset=") || w.starts_with("align=")) && n.kind == NK::Plain && n.fold
        })
        .collect();
    if at.is_empty() {
        return None;
    }
    let t = *r.pick(&at);
    let tok = &em.toks[t];
    let eq = tok.s + em.ts(t).find('=')?;
    let blank = |r: &mut simkern::Rng| r.pick(&[" ", "  ", "\t", "\n", " \n "]).to_string();
    let (b, a) = match r.usize(3) {
        0 => (blank(r), String::new()),
        1 => (String::new(), blank(r)),
        _ => (blank(r), blank(r)),
    };
    let comment = r.chance(150);
    let (b, a) = match comment {
        false => (b, a),
        true => {
            let c = *r.pick(&["(;c;)", "(;;)", ";; c\n"]);
            match r.usize(6) {
                0 => (format!("{c}{b}"), a),
                1 => (format!("{b}{c}"), a),
                2 => (b, format!("{c}{a}")),
                3 => (b, format!("{a}{c}")),
                4 => (c.to_string(), String::new()),
                _ => (String::new(), c.to_string()),
            }
        }
    };
    let was = em.text.as_str();
    let text = format!("{}{b}={a}{}", &was[..eq], &was[eq + 1..]);
    let (s, e) = em.span(em.nodes[tok.node].parent);
    Some(MemFix { text: Rc::new(text), was: em.text.clone(), em: em.clone(), s, e: e + a.len() + b.len(), comment })
}

fn words(t: &str) -> Option<Vec<String>> {
    Some(lex::lex(t)?.iter().filter(|k| !k.trivia()).map(|k| t[k.s..k.e].to_string()).collect())
}
fn comments(t: &str) -> Option<Vec<String>> {
    Some(lex::lex(t)?.iter().filter(|k| k.trivia()).map(|k| t[k.s..k.e].to_string()).collect())
}
fn types_of(em: &Em, n: usize) -> Vec<usize> {
    let x = &em.nodes[n];
    (x.first..x.last).filter(|t| !matches!(em.ts(*t), "(" | ")" | "param" | "result" | "local") && !em.ts(*t).starts_with('$')).collect()
}
fn split_word(k: NK) -> Option<(&'static str, &'static str)> {
    Some(match k {
        NK::Param => ("param", "Split parameters"),
        NK::Result => ("result", "Split results"),
        NK::Local => ("local", "Split locals"),
        _ => return None,
    })
}
/// Expected words of the document after an action on bytes `s..e`, whose edit covers `e`.
struct Offer {
    title: &'static str,
    /// a refusal would be wrong
    due: bool,
    s: usize,
    e: usize,
    words: Vec<String>,
}
fn replaced(em: &Em, first: usize, last: usize, with: Vec<String>) -> Vec<String> {
    let mut v: Vec<String> = (0..first).map(|t| em.ts(t).to_string()).collect();
    v.extend(with);
    v.extend((last..em.toks.len()).map(|t| em.ts(t).to_string()));
    v
}
fn offers(em: &Em, s: usize, e: usize) -> Vec<Offer> {
    let mut out = vec![];
    for n in 1..em.nodes.len() {
        let (a, b) = em.span(n);
        if !(a <= s && e <= b) {
            continue;
        }
        // an empty range between two constructs belongs to either
        let sure = s < e || a < s && e < b;
        let x = &em.nodes[n];
        if let Some((kw, title)) = split_word(x.kind) {
            let tys = types_of(em, n);
            if tys.len() > 1 {
                let with = tys.iter().flat_map(|t| ["(", kw, em.ts(*t), ")"].map(String::from)).collect();
                out.push(Offer { title, due: sure, s: a, e: b, words: replaced(em, x.first, x.last, with) });
            }
        }
        if matches!(x.kind, NK::TypeUse | NK::FuncType) {
            let kids: Vec<usize> = (1..em.nodes.len()).filter(|k| em.nodes[*k].parent == n && *k != n).collect();
            let ok = |k: usize| {
                let (p, q) = em.span(k);
                let y = &em.nodes[k];
                y.kind == NK::Param && s <= p && q <= e && !(y.first..y.last).any(|t| em.ts(t).starts_with('$'))
            };
            let mut at = 0;
            let mut first = true;
            while at < kids.len() {
                if !ok(kids[at]) {
                    at += 1;
                    continue;
                }
                let run: Vec<usize> = kids[at..].iter().copied().take_while(|k| ok(*k)).collect();
                at += run.len();
                let tys: Vec<usize> = run.iter().flat_map(|k| types_of(em, *k)).collect();
                if tys.len() > 1 {
                    let mut with = vec!["(".to_string(), "param".to_string()];
                    with.extend(tys.iter().map(|t| em.ts(*t).to_string()));
                    with.push(")".into());
                    let (p, q) = (run[0], *run.last().unwrap());
                    out.push(Offer {
                        title: "Join parameters",
                        due: sure && first && run.len() > 1,
                        s: em.span(p).0,
                        e: em.span(q).1,
                        words: replaced(em, em.nodes[p].first, em.nodes[q].last, with),
                    });
                }
                first = false;
            }
        }
    }
    out
}
/// What the client asked for includes this kind, itself or by a kind above it.
fn wanted(only: &Value, kind: &str) -> bool {
    match only.as_array() {
        None => true,
        Some(l) => l.iter().filter_map(|k| k.as_str()).any(|k| k.is_empty() || k == kind || kind.strip_prefix(k).is_some_and(|r| r.starts_with('.'))),
    }
}

pub fn judge(c: &Client, r: &Rec, snap: &Snap, reply: &Value, o: &mut Out) {
    let Focus::Span { s, e } = r.focus else { return };
    let none = vec![];
    let got = match &reply["result"] {
        Value::Null => &none,
        v => match v.as_array() {
            Some(a) => a,
            None => return,
        },
    };
    let told = |v: String| format!("{v}: {} answered {} on {:?}", r.msg, brief(reply), clip(&snap.text));
    let only = &r.msg["params"]["context"]["only"];
    let fix = c.fixes.iter().find(|f| Rc::ptr_eq(&f.text, &snap.text));
    let offers = match (&snap.em, fix) {
        (Some(em), _) => offers(em, s, e),
        (None, Some(_)) => vec![],
        _ => return,
    };
    o.evals += 1;
    let mut v: Verdict = Ok(());
    let mut seen = vec![];
    for a in got {
        let title = a["title"].as_str().unwrap_or("?");
        let kind = a["kind"].as_str().unwrap_or("?");
        if kind != if title.starts_with("Fix") { "quickfix" } else { "refactor.rewrite" } || !wanted(only, kind) {
            v = v.and(Err(format!("{title:?} has kind {kind:?}")));
        }
        let changes = a.pointer("/edit/changes").and_then(|c| c.as_object());
        let Some(edits) = changes.filter(|c| c.len() == 1).and_then(|c| c.get(&snap.uri)) else {
            v = v.and(Err(format!("{title:?} does not edit the document, and only it")));
            continue;
        };
        let new = match text::apply_edits(&snap.text, edits) {
            Ok(n) => n,
            Err(m) => {
                v = v.and(Err(format!("{title:?}: {m}")));
                continue;
            }
        };
        if title == "Fix invalid memory argument" {
            match fix {
                Some(f) if f.comment => {
                    if comments(&new).is_none() || comments(&new) != comments(&snap.text) {
                        v = v.and(Err(format!("{title:?} loses a comment: {:?}", clip(&new))));
                    }
                }
                Some(f) if f.s <= s && e <= f.e && new == *f.was => seen.push(title),
                _ => v = v.and(Err(format!("{title:?} leads to {:?}", clip(&new)))),
            }
            continue;
        }
        if fix.is_some() {
            // the rest of the document is not judged while part of it is broken
            continue;
        }
        let w = words(&new);
        let Some(x) = offers.iter().find(|x| x.title == title && Some(&x.words) == w.as_ref()) else {
            v = v.and(Err(format!("{title:?} leads to {:?}", clip(&new))));
            continue;
        };
        // comments beside what is rewritten stay
        let outside = comments(&format!("{}\n{}", &snap.text[..x.s], &snap.text[x.e..]));
        if outside.is_some() && outside != comments(&new).filter(|_| outside.is_some()) {
            v = v.and(Err(format!("{title:?} changes comments elsewhere: {:?}", clip(&new))));
        }
        seen.push(title);
    }
    for x in offers.iter().filter(|x| x.due && wanted(only, "refactor.rewrite")) {
        if !seen.contains(&x.title) {
            v = v.and(Err(format!("{:?} is not offered", x.title)));
        }
    }
    if let Some(f) = fix {
        let inside = f.s <= s && e <= f.e && (s < e || f.s < s && e < f.e);
        if inside && !f.comment && wanted(only, "quickfix") && seen.is_empty() {
            v = v.and(Err("no repair of the memory argument is offered".into()));
        }
    }
    if let Err(m) = v {
        o.bad(told(m));
    }
}

fn block_lists(i: &mut Instr, f: &mut dyn FnMut(&mut Vec<Group>, bool)) {
    match i {
        Instr::Plain { args, .. } => args.iter_mut().for_each(|a| block_lists(a, f)),
        Instr::Block { sig, cond, body, els, .. } => {
            f(&mut sig.params, true);
            f(&mut sig.results, false);
            cond.iter_mut().chain(body).chain(els.iter_mut().flatten()).for_each(|a| block_lists(a, f));
        }
    }
}
fn lists(p: &mut Program, f: &mut dyn FnMut(&mut Vec<Group>, bool)) {
    for field in p.modules.iter_mut().flat_map(|m| m.fields.iter_mut()) {
        match &mut field.k {
            FieldK::Type { params, results } => {
                f(params, true);
                f(results, false);
            }
            FieldK::ImportFunc(sig) => {
                f(&mut sig.params, true);
                f(&mut sig.results, false);
            }
            FieldK::Func { sig, locals, body, .. } => {
                f(&mut sig.params, true);
                f(&mut sig.results, false);
                f(locals, false);
                body.iter_mut().for_each(|i| block_lists(i, f));
            }
            _ => {}
        }
    }
}
/// The program whose words these are, if it is this one with something split or joined.
pub fn applied(p: &Program, new: &str) -> Option<(Program, Em)> {
    let w = words(new)?;
    let mut plans: Vec<(usize, usize, usize)> = vec![];
    let mut probe = p.clone();
    let mut no = 0;
    lists(&mut probe, &mut |l, params| {
        for i in 0..l.len() {
            if l[i].tys.len() > 1 {
                plans.push((no, i, i));
            }
            for j in i + 1..l.len() {
                if params && l[i..=j].iter().all(|g| g.name.is_none()) {
                    plans.push((no, i, j));
                }
            }
        }
        no += 1;
    });
    for (at, i, j) in plans.into_iter().take(80) {
        let mut q = p.clone();
        let mut no = 0;
        lists(&mut q, &mut |l, _| {
            if no == at {
                if i == j {
                    let g = l.remove(i);
                    for (k, t) in g.tys.into_iter().enumerate() {
                        l.insert(i + k, Group { name: None, tys: vec![t] });
                    }
                } else {
                    let tys = l.drain(i..=j).flat_map(|g| g.tys).collect();
                    l.insert(i, Group { name: None, tys });
                }
            }
            no += 1;
        });
        let em = emit(&q);
        if (0..em.toks.len()).map(|t| em.ts(t)).eq(w.iter().map(|x| x.as_str())) {
            let em = em.relocate(new)?;
            return Some((q, em));
        }
    }
    None
}
