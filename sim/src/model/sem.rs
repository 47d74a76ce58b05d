//! Semantic tokens.
use super::{Judge, Verdict};
use crate::emit::*;
use crate::gen::{Cls, DK};
use crate::text::{Lines, Pos};
use serde_json::Value;

/// Start, end and kind of everything that is to be coloured, in document order.
pub fn coloured(em: &Em) -> Vec<(usize, usize, &'static str)> {
    let mut out: Vec<(usize, usize, &'static str)> = em.comments.iter().map(|(s, e)| (*s, *e, "comment")).collect();
    for (i, t) in em.toks.iter().enumerate() {
        if let Some(k) = kind(em, i) {
            out.push((t.s, t.e, k));
        }
    }
    out.sort();
    out
}
fn instr_of(em: &Em, node: usize) -> Option<&str> {
    em.ins.iter().find(|i| i.node == node).and_then(|i| i.name.as_deref())
}
fn kind(em: &Em, i: usize) -> Option<&'static str> {
    let t = &em.toks[i];
    let parent = t.node;
    let grand = em.nodes[parent].parent;
    let gname = if em.nodes[grand].kind == NK::Plain { instr_of(em, grand) } else { None };
    let callee = matches!(gname, Some("call" | "ref.func" | "return_call")) || matches!(em.nodes[grand].kind, NK::Start | NK::ExportDesc(DK::Func));
    let is_param = em.refs.iter().any(|r| r.tok == i && r.dk == DK::Local && r.defs.iter().any(|d| em.defs[*d].dk == DK::Param));
    Some(match t.cls {
        Cls::ValTy | Cls::RefTy => "type",
        Cls::Kw => "keyword",
        Cls::Int | Cls::UInt if callee => "function",
        Cls::Int | Cls::UInt => match gname {
            Some(n) if n.starts_with("local.") && is_param => "parameter",
            Some(n) if n.starts_with("local.") => "variable",
            _ => "number",
        },
        Cls::Float => "number",
        Cls::Ident if callee || em.nodes[parent].kind == NK::Func => "function",
        Cls::Ident if em.nodes[parent].kind == NK::Param || is_param => "parameter",
        Cls::Ident => "variable",
        Cls::Str => "string",
        Cls::Instr => "operator",
        Cls::LParen | Cls::RParen | Cls::MemArg | Cls::Heap => return None,
    })
}
/// line, column, length, type index
pub type Item = (u32, u32, u32, u32);

/// The flat list of numbers as absolute tokens; `Err` where it is not well-formed.
pub fn decode(data: &Value) -> Result<Vec<Item>, String> {
    let a = data.as_array().ok_or("no token data")?;
    if a.len() % 5 != 0 {
        return Err(format!("{} numbers are no list of tokens", a.len()));
    }
    let mut out = vec![];
    let (mut line, mut col) = (0u32, 0u32);
    for c in a.chunks(5) {
        let n: Vec<u32> = c.iter().map(|v| v.as_u64().and_then(|v| u32::try_from(v).ok()).ok_or(format!("{v} is no token number"))).collect::<Result<_, _>>()?;
        if n[0] > 0 {
            col = 0;
        }
        line = line.checked_add(n[0]).ok_or("line overflow")?;
        col = col.checked_add(n[1]).ok_or("column overflow")?;
        if n[4] != 0 {
            return Err(format!("modifiers {}", n[4]));
        }
        out.push((line, col, n[2], n[3]));
    }
    Ok(out)
}
fn utf16(s: &str) -> u32 {
    s.encode_utf16().count() as u32
}
fn expected(em: &Em, legend: &[String], s: usize, e: usize) -> Vec<Item> {
    coloured(em)
        .into_iter()
        .filter(|t| t.1 > s && t.0 < e)
        .filter_map(|(a, b, k)| {
            let p: Pos = em.lines.pos(&em.text, a);
            let at = legend.iter().position(|l| l == k)?;
            Some((p.0, p.1, utf16(&em.text[a..b]), at as u32))
        })
        .collect()
}
fn differ(have: &[Item], want: &[Item]) -> Verdict {
    if have == want {
        return Ok(());
    }
    let i = have.iter().zip(want).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
    Err(format!("token {i} (line, column, length, type) is {:?}, expected {:?}; {} tokens, expected {}", have.get(i), want.get(i), have.len(), want.len()))
}
pub fn full(em: &Em, legend: &[String], got: &Value) -> Verdict {
    differ(&decode(&got["data"])?, &expected(em, legend, 0, em.text.len()))
}
/// A range's tokens are counted from the start of the document, too.
pub fn range(j: &mut Judge, em: &Em, legend: &[String], s: usize, e: usize, got: &Value) {
    let have = match decode(&got["data"]) {
        Ok(h) => h,
        Err(m) => return j.bad(m),
    };
    let want = expected(em, legend, s, e);
    let v = differ(&have, &want);
    if v.is_ok() {
        return;
    }
    // column of whatever the start of the range lies in
    let shift = em.lines.pos(&em.text, raw_start(em, s));
    let Some(first) = want.first().map(|w| w.0).filter(|l| *l == shift.0) else { return j.verdict(v) };
    let moved: Vec<Item> = want.iter().map(|w| if w.0 == first { (w.0, w.1 - shift.1.min(w.1), w.2, w.3) } else { *w }).collect();
    match differ(&have, &moved) {
        Ok(()) => j.known("range-first-delta", v),
        Err(_) => j.verdict(v),
    }
}
/// Start of the token, comment or whitespace at this offset.
fn raw_start(em: &Em, off: usize) -> usize {
    let mut all: Vec<(usize, usize)> = em.comments.clone();
    all.extend(em.toks.iter().map(|t| (t.s, t.e)));
    all.sort();
    let mut at = 0;
    for (s, e) in all {
        if off < s {
            return at;
        }
        if off < e {
            return s;
        }
        at = e;
    }
    at
}

/// Tokens are in order, do not overlap and lie in the document.
pub fn plausible(data: &Value, lines: &Lines, text: &str, part: bool) -> Verdict {
    let mut at = 0;
    let all = decode(data)?;
    // columns of a range's first line: see `range`
    let first = all.first().map(|t| t.0).filter(|_| part);
    for t in all.into_iter().filter(|t| Some(t.0) != first) {
        let off = lines.exact(text, (t.0, t.1)).ok_or_else(|| format!("no character at {}:{}", t.0, t.1))?;
        if off < at {
            return Err(format!("the token at {}:{} begins before the end of the previous one", t.0, t.1));
        }
        if t.2 == 0 {
            return Err(format!("the token at {}:{} is empty", t.0, t.1));
        }
        let mut left = t.2;
        at = off;
        for c in text[off..].chars() {
            if left == 0 {
                break;
            }
            left = left.checked_sub(c.len_utf16() as u32).ok_or("a token ends inside a character")?;
            at += c.len_utf8();
        }
        if left > 0 {
            return Err(format!("the token at {}:{} reaches beyond the document", t.0, t.1));
        }
    }
    Ok(())
}
/// A range's tokens are among all of them; the first line's columns are left out of account.
pub fn part_of(part: &Value, full: &Value) -> Verdict {
    let (part, full) = (decode(part)?, decode(full)?);
    let first = part.first().map_or(0, |t| t.0);
    for t in &part {
        let fits = if t.0 == first { full.iter().any(|f| (f.0, f.2, f.3) == (t.0, t.2, t.3)) } else { full.contains(t) };
        if !fits {
            return Err(format!("token {t:?} of the range is not a token of the document"));
        }
    }
    Ok(())
}
