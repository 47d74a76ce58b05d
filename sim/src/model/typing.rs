//! Completion while something is being typed: the document has a construct only begun at the cursor.
use super::info::{candidates, describes, item_list, numbered};
use super::Verdict;
use crate::emit::*;
use crate::gen::{metas, Cls, DK};
use serde_json::Value;
use simkern::Rng;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Want {
    /// the beginning of this keyword or instruction
    Word(String, bool),
    /// a dollar sign where this reference was
    Name(usize),
    /// nothing where this reference was, or is to the right of the cursor
    Place(usize),
    /// the beginning of a value type
    Type,
}
#[derive(Clone, Debug)]
pub struct Typed {
    /// the document before
    pub em: Rc<Em>,
    pub text: Rc<String>,
    pub off: usize,
    pub want: Want,
}
/// Instructions the server has in its list of suggestions.
fn suggested(n: &str) -> bool {
    let late = ["trunc_sat", "extend8_s", "extend16_s", "extend32_s"].iter().any(|x| n.contains(x));
    metas().contains_key(n) && !late && (["i32.", "i64.", "f32.", "f64.", "local.", "global."].iter().any(|p| n.starts_with(p)) || matches!(n, "drop" | "select"))
        || matches!(n, "call" | "nop" | "unreachable" | "return" | "br" | "br_if" | "br_table")
}
/// The keyword opening the construct that encloses a parenthesis.
fn enclosing(em: &Em, open: usize) -> Option<usize> {
    let mut depth = 0;
    (0..open).rev().find(|t| match em.toks[*t].cls {
        Cls::RParen => {
            depth += 1;
            false
        }
        Cls::LParen if depth > 0 => {
            depth -= 1;
            false
        }
        Cls::LParen => true,
        _ => false,
    })
}
fn close(em: &Em, open: usize) -> Option<usize> {
    let mut depth = 0;
    (open..em.toks.len()).find(|t| {
        match em.toks[*t].cls {
            Cls::LParen => depth += 1,
            Cls::RParen => depth -= 1,
            _ => {}
        }
        depth == 0
    })
}
fn keyword(em: &Em, open: usize) -> Option<Want> {
    let kw = em.ts(open + 1);
    let parent = enclosing(em, open).map_or("", |p| em.ts(p + 1));
    let instr = em.toks[open + 1].cls == Cls::Instr;
    // within a function, things before its instructions are its header
    let header = |p: usize| !em.toks[p..open].iter().enumerate().any(|(i, t)| t.cls == Cls::Instr || matches!(em.ts(p + i), "block" | "loop" | "if"));
    let fits = match (parent, kw) {
        ("", "module") => true,
        ("module", _) => true,
        ("type", "func") => true,
        ("func", "type" | "param" | "result" | "local" | "import" | "export") => {
            let p = enclosing(em, open)?;
            em.nodes[em.toks[p].node].kind == NK::Func && header(p)
        }
        ("global" | "memory" | "table", "import" | "export") => em.nodes[em.toks[enclosing(em, open)?].node].kind != NK::ImportDesc,
        ("global", "mut") => true,
        ("import" | "export", "func" | "global" | "memory" | "table") => true,
        ("memory", "data") | ("table", "elem") => true,
        ("data", "memory" | "offset") | ("elem", "table" | "offset") => true,
        _ => false,
    };
    if fits {
        return Some(Want::Word(kw.into(), false));
    }
    let holds = matches!(parent, "func" | "global" | "offset" | "then" | "else" | "block" | "loop") || metas().contains_key(parent);
    (instr && holds && suggested(kw)).then(|| Want::Word(kw.into(), true))
}

/// The one thing a folded instruction, a start or an export holds.
fn alone(em: &Em, x: usize) -> bool {
    let x = &em.refs[x];
    let t = x.tok;
    let placed = match x.site {
        Site::Instr(i) => em.ins[i].folded && !em.ins[i].name.as_deref().is_some_and(|n| n.ends_with("call_indirect")),
        Site::Start | Site::Export | Site::TypeUse => true,
        _ => false,
    };
    placed && t >= 2 && t + 1 < em.toks.len() && em.toks[t - 2].cls == Cls::LParen && em.toks[t + 1].cls == Cls::RParen
}

pub fn begin(em: &Rc<Em>, r: &mut Rng) -> Option<Typed> {
    let done = |s: usize, e: usize, new: &str, off: usize, want: Want| {
        let text = format!("{}{}{}", &em.text[..s], new, &em.text[e..]);
        Some(Typed { em: em.clone(), text: Rc::new(text), off: s + off, want })
    };
    for _ in 0..12 {
        match r.usize(10) {
            0..=5 => {
                let opens: Vec<usize> = (0..em.toks.len().saturating_sub(1)).filter(|t| em.toks[*t].cls == Cls::LParen).collect();
                if opens.is_empty() {
                    return None;
                }
                let o = *r.pick(&opens);
                let (Some(w), Some(c)) = (keyword(em, o), close(em, o)) else { continue };
                let Want::Word(kw, _) = &w else { continue };
                let n = 1 + r.usize(3.min(kw.len() - 1));
                let part = &kw[..n];
                if em.ts(o + 1) == part || ["br", "if", "call", "i32", "i64", "f32", "f64"].contains(&part) {
                    continue;
                }
                return done(em.toks[o].s, em.toks[c].e, &format!("({part})"), 1 + n, w);
            }
            6..=8 => {
                let refs: Vec<usize> = (0..em.refs.len()).filter(|x| alone(em, *x) && (em.refs[*x].dk != DK::Local || numbered(em, em.refs[*x].func))).collect();
                if refs.is_empty() {
                    continue;
                }
                let x = *r.pick(&refs);
                let t = em.toks[em.refs[x].tok].clone();
                let before = em.toks[em.refs[x].tok - 1].e;
                if em.text[..t.s].ends_with([' ', '\t', '\n', '\r']) && em.text[before..t.s].trim().is_empty() && r.chance(400) {
                    return done(t.s, t.e, if r.chance(500) { "" } else { em.ts(em.refs[x].tok) }, 0, Want::Place(x));
                }
                return done(t.s, t.e, "$", 1, Want::Name(x));
            }
            _ => {
                let tys: Vec<usize> = (0..em.toks.len()).filter(|t| matches!(em.toks[*t].cls, Cls::ValTy | Cls::RefTy) && matches!(em.nodes[em.toks[*t].node].kind, NK::Param | NK::Result | NK::Local | NK::ValType)).collect();
                if tys.is_empty() {
                    continue;
                }
                let x = *r.pick(&tys);
                let t = em.toks[x].clone();
                return done(t.s, t.e, &em.ts(x)[..1], 1, Want::Type);
            }
        }
    }
    None
}
pub fn judge(t: &Typed, em: &Em, got: &Value) -> Verdict {
    let have = item_list(got)?;
    let names: Vec<&str> = have.iter().map(|i| i.0.as_str()).collect();
    match &t.want {
        Want::Word(w, _) => {
            if !names.contains(&w.as_str()) {
                return Err(format!("does not offer {w:?} but {names:?}"));
            }
            if let Some(d) = names.windows(2).find(|w| w[0] == w[1]) {
                return Err(format!("offers {:?} twice", d[0]));
            }
        }
        Want::Name(x) => {
            let want = candidates(em, &em.refs[*x], true);
            if have != want {
                return Err(format!("offers {have:?}, expected {want:?}"));
            }
        }
        Want::Place(x) => {
            let want = candidates(em, &em.refs[*x], false);
            if have != want {
                return Err(format!("offers {have:?}, expected {want:?}"));
            }
        }
        Want::Type => {
            let want = ["externref", "f32", "f64", "funcref", "i32", "i64", "v128"];
            if names != want {
                return Err(format!("offers {names:?} for a type"));
            }
            if let Some(i) = have.iter().find(|i| i.2 != 7 || !i.4.as_ref().is_some_and(|d| describes(&i.0, d))) {
                return Err(format!("describes the type {:?} by {:?} (kind {})", i.0, i.4, i.2));
            }
        }
    }
    Ok(())
}
