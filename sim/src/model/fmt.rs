//! Formatting: what is printed is the same document.
use super::Verdict;
use crate::client::*;
use crate::emit::*;
use crate::lex::{self, LK};
use crate::oracle::{brief, clip, Out};
use crate::text;
use serde_json::Value;

/// Tokens and comments of a document, layout left out of account.
#[derive(PartialEq, Debug)]
struct Content {
    toks: Vec<String>,
    comments: Vec<String>,
    /// tokens before each comment
    at: Vec<usize>,
}
/// Blanks inside a block comment may be laid out anew, as may those at the ends of a line comment.
fn squeeze(c: &str) -> String {
    let c = c.strip_prefix(";;").or_else(|| c.strip_prefix("(;").and_then(|c| c.strip_suffix(";)"))).unwrap_or(c);
    c.lines().map(|l| l.trim()).collect::<Vec<_>>().join("\n").trim().to_string()
}
fn content(t: &str) -> Option<Content> {
    let l = lex::lex(t)?;
    let mut c = Content { toks: vec![], comments: vec![], at: vec![] };
    for k in l {
        let s = &t[k.s..k.e];
        if k.trivia() {
            c.comments.push(if k.k == LK::LineC { format!(";;{}", squeeze(s)) } else { format!("(;{};)", squeeze(s)) });
            c.at.push(c.toks.len());
        } else {
            c.toks.push(s.to_string());
        }
    }
    Some(c)
}
fn same(old: &str, new: &str) -> Verdict {
    let Some(a) = content(old) else { return Ok(()) };
    let b = content(new).ok_or("the result is not even a sequence of tokens")?;
    if a.toks != b.toks {
        let i = a.toks.iter().zip(&b.toks).position(|(x, y)| x != y).unwrap_or(a.toks.len().min(b.toks.len()));
        return Err(format!("token {i} is {:?}, it was {:?} ({} tokens, there were {})", b.toks.get(i), a.toks.get(i), b.toks.len(), a.toks.len()));
    }
    if a.comments != b.comments {
        return Err(format!("comments are {:?}, they were {:?}", b.comments, a.comments));
    }
    if a.at != b.at {
        return Err(format!("comments moved: {:?}, they were at {:?} of {:?}", b.at, a.at, a.comments));
    }
    Ok(())
}

/// The inline import of a function printed before its inline exports, which is a finding with a name of its own.
fn import_first(old: &str, new: &str) -> bool {
    let (Some(mut a), Some(mut b)) = (content(old), content(new)) else { return false };
    for c in [&mut a, &mut b] {
        let mut i = 0;
        while i + 1 < c.toks.len() {
            if c.toks[i] == "(" && c.toks[i + 1] == "func" {
                let from = i + 2 + c.toks.get(i + 2).is_some_and(|t| t.starts_with('$')) as usize;
                let mut k = from;
                while c.toks[k..].iter().take(2).eq(["(", "export"]) {
                    k += 4;
                }
                if k > from && c.toks[k..].iter().take(2).eq(["(", "import"]) && k + 5 <= c.toks.len() {
                    c.toks[from..k + 5].rotate_right(5);
                }
            }
            i += 1;
        }
        c.comments.sort();
    }
    a.toks == b.toks && a.comments == b.comments
}

/// Fields and modules after a comment `;; fmt-ignore` on the line before.
fn left_alone(em: &Em) -> Vec<usize> {
    let text = em.text.as_str();
    (1..em.nodes.len())
        .filter(|n| em.mods.contains(n) || em.mods.contains(&em.nodes[*n].parent))
        .filter(|n| {
            let (s, _) = em.span(*n);
            let Some((_, ce)) = em.comments.iter().find(|(_, e)| *e < s && text[*e..s].trim().is_empty()).copied() else { return false };
            let cs = em.comments.iter().find(|(_, e)| *e == ce).map(|c| c.0).unwrap_or(ce);
            match text[cs..ce].strip_prefix(";;").and_then(|c| c.trim_start().strip_prefix("fmt-ignore")) {
                Some(rest) => rest.is_empty() || rest.starts_with(|c: char| c.is_ascii_whitespace()),
                None => false,
            }
        })
        .collect()
}
fn unchanged(em: &Em, new: &str) -> Verdict {
    let Some(moved) = em.relocate(new) else { return Ok(()) };
    for n in left_alone(em) {
        let (a, b) = (em.span(n), moved.span(n));
        let (was, is) = (&em.text[a.0..a.1], &new[b.0..b.1]);
        if was.replace("\r\n", "\n") != is.replace("\r\n", "\n") {
            return Err(format!("what a comment excludes from formatting, {was:?}, became {is:?}"));
        }
    }
    Ok(())
}
/// Lines begin with whole steps of the indentation asked for.
fn indented(options: &Value, new: &str) -> Verdict {
    let (Some(tab), Some(spaces)) = (options["tabSize"].as_u64(), options["insertSpaces"].as_bool()) else { return Ok(()) };
    let Some(toks) = lex::lex(new) else { return Ok(()) };
    let (mut at, mut k, mut depth) = (0, 0, 0);
    for line in new.split('\n') {
        let ws = &line[..line.len() - line.trim_start_matches([' ', '\t']).len()];
        while toks.get(k).is_some_and(|t| t.e <= at) {
            depth += match &new[toks[k].s..toks[k].e] {
                "(" => 1,
                ")" => -1,
                _ => 0,
            };
            k += 1;
        }
        let inside = toks.get(k).is_some_and(|t| t.s < at);
        if !inside && ws.len() < line.trim_end_matches('\r').len() {
            let fits = match spaces {
                true => !ws.contains('\t') && (if tab == 0 { true } else { ws.len() as u64 % tab == 0 }),
                false => tab == 0 || !ws.contains(' '),
            };
            if !fits {
                return Err(format!("a line is indented by {ws:?}"));
            }
            // what is directly inside a module is one step in
            let one = if spaces { " ".repeat(tab as usize) } else { "\t".into() };
            let field = line.trim_start().starts_with('(') && !line.trim_start().starts_with("(;");
            if depth == 1 && field && tab > 0 && ws != one {
                return Err(format!("a line directly inside a module is indented by {ws:?}"));
            }
        }
        at += line.len() + 1;
    }
    Ok(())
}
/// Formatting a range concerns what encloses that range, and all of the range.
fn confined(em: &Em, r: &Rec, edits: &Value) -> Verdict {
    let Focus::Span { s, e } = r.focus else { return Ok(()) };
    let around = (1..em.nodes.len())
        .filter(|n| em.mods.contains(n) || em.mods.contains(&em.nodes[*n].parent))
        .map(|n| em.span(n))
        .filter(|x| if s == e { x.0 < s && e < x.1 } else { x.0 <= s && e <= x.1 })
        .min_by_key(|x| x.1 - x.0)
        .unwrap_or((0, em.text.len()));
    for edit in edits.as_array().into_iter().flatten() {
        let Some(x) = edit.get("range").and_then(text::jrange) else { continue };
        let (Some(a), Some(b)) = (em.lines.offset(&em.text, x.s), em.lines.offset(&em.text, x.e)) else { continue };
        if a < around.0 || around.1 < b {
            return Err(format!("formatting bytes {s}..{e} edits {a}..{b}, although {around:?} encloses it"));
        }
        if s < a || b < e {
            return Err(format!("formatting bytes {s}..{e} edits only {a}..{b}"));
        }
    }
    Ok(())
}

pub fn judge(c: &Client, r: &Rec, m: usize, snap: &Snap, reply: &Value, o: &mut Out) {
    let res = &reply["result"];
    let told = |v: &str, new: &str| format!("{v}: {} answered {} on {:?}, which becomes {:?}", r.msg, brief(reply), clip(&snap.text), clip(new));
    if reply.get("error").is_some() {
        return;
    }
    if res.is_null() {
        if m == FORMAT {
            o.bad(told("no formatting", ""));
        }
        return;
    }
    let new = match text::apply_edits(&snap.text, res) {
        Ok(n) => n,
        Err(e) => return o.bad(told(&e, "")),
    };
    o.evals += 1;
    if snap.em.is_some() {
        if let Err(e) = same(&snap.text, &new) {
            if import_first(&snap.text, &new) {
                o.known.entry("import-before-exports".into()).or_insert_with(|| told(&e, &new));
                return;
            }
            return o.bad(told(&e, &new));
        }
    }
    if let (RANGE_FORMAT, Some(em)) = (m, &snap.em) {
        if let Err(e) = confined(em, r, res) {
            o.bad(told(&e, &new));
        }
    }
    if m != FORMAT {
        return;
    }
    if let Some(em) = &snap.em {
        let skip = left_alone(em).is_empty();
        let v = if skip { indented(&r.msg["params"]["options"], &new) } else { unchanged(em, &new) };
        if let Err(e) = v {
            return o.bad(told(&e, &new));
        }
    }
    if let Some(p) = r.parent {
        if c.recs[p].m == Some(FORMAT) && new != *snap.text {
            let i = new.bytes().zip(snap.text.bytes()).position(|(a, b)| a != b).unwrap_or(0);
            let part = |t: &str| String::from_utf8_lossy(&t.as_bytes()[i.saturating_sub(25)..(i + 15).min(t.len())]).into_owned();
            o.bad(told(&format!("formatting again changes the text at byte {i}: {:?} became {:?}", part(&snap.text), part(&new)), &new));
        }
    }
}
