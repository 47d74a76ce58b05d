//! Outline, folding and selection ranges.
use super::{info, Verdict};
use crate::emit::*;
use crate::gen::{Cls, DK};
use crate::text::{self, Pos, Rng_};
use serde_json::Value;

/// name (`None`: any), kind, range, selection range, children
#[derive(Debug, PartialEq)]
struct Sym {
    name: Option<String>,
    kind: i64,
    range: Rng_,
    sel: Rng_,
    kids: Vec<Sym>,
}
fn of_def(em: &Em, d: usize) -> Sym {
    let def = &em.defs[d];
    let uncertain = def.dk == DK::Local && def.name.is_none() && !info::numbered(em, def.func);
    let mut kids = vec![];
    if def.dk == DK::Func && !def.import {
        for (k, l) in em.defs.iter().enumerate() {
            if l.dk == DK::Local && l.func == Some(def.node) {
                kids.push(of_def(em, k));
            }
        }
    }
    let range = em.nrange(def.node);
    Sym {
        name: if uncertain { None } else { Some(def.name.clone().unwrap_or_else(|| def.idx.to_string())) },
        kind: if def.dk == DK::Func { 12 } else { 13 },
        range,
        sel: match def.ident {
            Some(t) if em.toks[t].node == def.node => em.trange(t),
            _ => range,
        },
        kids,
    }
}
fn outline(em: &Em) -> Vec<Sym> {
    let mut out = vec![];
    for (no, m) in em.mods.iter().enumerate() {
        let kids: Vec<Sym> =
            (0..em.defs.len()).filter(|d| em.defs[*d].modno == no && !matches!(em.defs[*d].dk, DK::Param | DK::Local | DK::Label)).map(|d| of_def(em, d)).collect();
        if !kids.is_empty() {
            let range = em.nrange(*m);
            out.push(Sym { name: Some("module".into()), kind: 2, range, sel: range, kids });
        }
    }
    out
}
fn same(path: &str, want: &[Sym], got: &Value) -> Verdict {
    let empty = vec![];
    let got = match got {
        Value::Null => &empty,
        v => v.as_array().ok_or_else(|| format!("{path}: no list of symbols"))?,
    };
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { return Err(format!("{path}: symbol {w:?} is missing")) };
        let name = g["name"].as_str().unwrap_or("?");
        let here = format!("{path}/{name}");
        if w.name.as_deref().is_some_and(|w| w != name) {
            return Err(format!("{here}: the name is not {:?}", w.name));
        }
        if g["kind"].as_i64() != Some(w.kind) {
            return Err(format!("{here}: kind {}, expected {}", g["kind"], w.kind));
        }
        if g.get("range").and_then(text::jrange) != Some(w.range) {
            return Err(format!("{here}: range {}, expected {:?}", g["range"], w.range));
        }
        if g.get("selectionRange").and_then(text::jrange) != Some(w.sel) {
            return Err(format!("{here}: selection range {}, expected {:?}", g["selectionRange"], w.sel));
        }
        same(&here, &w.kids, &g["children"])?;
    }
    match got.get(want.len()) {
        Some(g) => Err(format!("{path}: unexpected symbol {}", g["name"])),
        None => Ok(()),
    }
}
pub fn symbols(em: &Em, got: &Value) -> Verdict {
    same("", &outline(em), got)
}

pub fn folding(em: &Em, got: &Value) -> Verdict {
    let mut want: Vec<Rng_> = (0..em.nodes.len()).filter(|n| em.nodes[*n].fold).map(|n| em.nrange(n)).filter(|r| r.s.0 != r.e.0).collect();
    let mut have = vec![];
    for g in got.as_array().ok_or("no list of folding ranges")? {
        let n = |k: &str| g[k].as_u64().map(|v| v as u32);
        let s = n("startLine").ok_or("no start line")?;
        let e = n("endLine").ok_or("no end line")?;
        if g.get("kind").is_some_and(|k| !k.is_null() && k != "region") {
            return Err(format!("folding kind {}", g["kind"]));
        }
        have.push(Rng_ { s: (s, n("startCharacter").unwrap_or(u32::MAX)), e: (e, n("endCharacter").unwrap_or(u32::MAX)) });
    }
    want.sort();
    have.sort();
    if want != have {
        let missing: Vec<_> = want.iter().filter(|w| !have.contains(w)).take(3).collect();
        let extra: Vec<_> = have.iter().filter(|w| !want.contains(w)).take(3).collect();
        return Err(format!("{} folding ranges, expected {}; missing {missing:?}, unexpected {extra:?}", have.len(), want.len()));
    }
    Ok(())
}

/// The token a position means, as far as that is beyond doubt: `None` for trivia, doubtful places.
pub fn token(em: &Em, p: Pos) -> Option<Option<usize>> {
    let off = em.lines.offset(&em.text, p)?;
    if let Some(t) = em.toks.iter().position(|t| t.s < off && off < t.e) {
        return Some(Some(t));
    }
    if em.comments.iter().any(|c| c.0 < off && off < c.1) {
        return None;
    }
    let paren = |t: &usize| matches!(em.toks[*t].cls, Cls::LParen | Cls::RParen);
    let left = em.toks.iter().position(|t| t.e == off);
    let right = em.toks.iter().position(|t| t.s == off);
    match (left.filter(|t| !paren(t)), right.filter(|t| !paren(t))) {
        (Some(l), None) => Some(Some(l)),
        (None, Some(r)) => Some(Some(r)),
        (Some(_), Some(_)) => Some(None),
        // between parens and blanks: nothing at all, except at the ends of the document
        _ => None,
    }
}
fn chain(em: &Em, t: usize) -> Vec<Rng_> {
    let mut v = vec![em.trange(t)];
    v.extend(em.ancestors(em.toks[t].node).into_iter().map(|n| em.nrange(n)));
    v
}
pub fn selection(em: &Em, positions: &[Pos], got: &Value) -> Option<Verdict> {
    let mut want = vec![];
    if got.get("deep").is_some() {
        return None;
    }
    for p in positions {
        if em.lines.crlf_end(&em.text, *p) {
            return None;
        }
        if let Some(t) = token(em, *p)? {
            want.push(chain(em, t));
        }
    }
    Some(selected(&want, got))
}
fn selected(want: &[Vec<Rng_>], got: &Value) -> Verdict {
    let got = got.as_array().ok_or("no list of selection ranges")?;
    if got.len() != want.len() {
        return Err(format!("{} selection ranges, expected {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let mut have = vec![];
        let mut at = g;
        while !at.is_null() {
            have.push(at.get("range").and_then(text::jrange).ok_or("selection range without range")?);
            at = &at["parent"];
        }
        if have != *w {
            return Err(format!("selection ranges of position {i} are {have:?}, expected {w:?}"));
        }
    }
    Ok(())
}
