//! Hover texts, inlay hints and completion lists.
use super::nav::{dead, func_header, symbol, Sym};
use super::Verdict;
use crate::emit::*;
use crate::gen::{metas, render_sig, ty_name, Cls, DK};
use crate::oracle::brief;
use crate::text::{self, Pos};
use serde_json::Value;

/// Contents of a hover as the pieces a client shows.
fn pieces(v: &Value) -> Vec<String> {
    match v {
        Value::String(s) => vec![s.clone()],
        Value::Array(a) => a.iter().flat_map(pieces).collect(),
        Value::Object(o) => match (o.get("language").and_then(|l| l.as_str()), o.get("value").and_then(|l| l.as_str())) {
            (Some(l), Some(v)) => vec![format!("```{l}\n{v}\n```")],
            (None, Some(v)) => vec![v.to_string()],
            _ => vec![],
        },
        _ => vec![],
    }
}
fn named(word: &str, d: &Def) -> String {
    match &d.name {
        Some(n) => format!("{word} {n}"),
        None => word.to_string(),
    }
}
fn fence(s: String) -> String {
    format!("```wat\n{s}\n```")
}
fn def_text(em: &Em, d: usize) -> Option<String> {
    let def = &em.defs[d];
    let ty = def.ty.map_or("", ty_name);
    Some(match def.dk {
        DK::Param => fence(format!("({} {ty})", named("param", def))),
        DK::Local => fence(format!("({} {ty})", named("local", def))),
        DK::Func => {
            let mut s = fence(func_header(em, d));
            let doc = em.doc(d);
            if !doc.is_empty() {
                s.push_str("\n---\n");
                s.push_str(&doc);
            }
            s
        }
        DK::Type => {
            let sig = render_sig(&def.params, &def.results);
            let sp = if sig.is_empty() { "" } else { " " };
            fence(format!("({} (func{sp}{sig}))", named("type", def)))
        }
        DK::Global if def.mutable => fence(format!("({} (mut {ty}))", named("global", def))),
        DK::Global => fence(format!("({} {ty})", named("global", def))),
        _ => return None,
    })
}
/// Is this about that value type and no other one?
pub fn describes(ty: &str, text: &str) -> bool {
    let about: &[&str] = match ty {
        "i32" => &["32", "integer"],
        "i64" => &["64", "integer"],
        "f32" => &["32", "float"],
        "f64" => &["64", "float"],
        "v128" => &["128", "vector"],
        "funcref" => &["reference", "function"],
        _ => &["reference"],
    };
    let all = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];
    about.iter().all(|w| text.contains(w)) && all.iter().all(|t| text.contains(&format!("`{t}`")) == (*t == ty))
}
pub fn hover(em: &Em, tok: usize, got: &Value) -> Verdict {
    let cls = em.toks[tok].cls;
    let text = em.ts(tok).to_string();
    let have = pieces(&got["contents"]);
    let have: Vec<String> = have.into_iter().filter(|s| !s.is_empty()).collect();
    let range = got.get("range").and_then(text::jrange);
    let shown = |want: Vec<String>| -> Verdict {
        if have != want {
            return Err(format!("shows {have:?}, expected {want:?}"));
        }
        if !want.is_empty() && range != Some(em.trange(tok)) {
            return Err(format!("hover range {range:?}, expected {:?}", em.trange(tok)));
        }
        Ok(())
    };
    match cls {
        Cls::Ident | Cls::Int | Cls::UInt | Cls::Kw => match symbol(em, tok) {
            Sym::Ref(r) if dead(em, r) => shown(vec![]),
            Sym::Ref(r) => {
                let x = &em.refs[r];
                let mut d = x.defs.clone();
                match x.dk {
                    DK::Local => d.truncate(1),
                    DK::Memory | DK::Table | DK::Label => d.clear(),
                    _ => {}
                }
                let all: Vec<String> = d.iter().filter_map(|d| def_text(em, *d)).collect();
                shown(if x.dk == DK::Func && !all.is_empty() { vec![all.join("\n---\n")] } else { all })
            }
            Sym::Def(d) => shown(def_text(em, d).into_iter().collect()),
            Sym::None => shown(vec![]),
        },
        Cls::ValTy | Cls::RefTy => {
            let start = fence(text.clone());
            match have.as_slice() {
                [one] if one.starts_with(&start) && describes(&text, &one[start.len()..]) => {
                    if range != Some(em.trange(tok)) {
                        return Err(format!("hover range {range:?}"));
                    }
                    Ok(())
                }
                _ => Err(format!("shows {have:?} for a value type")),
            }
        }
        Cls::Instr => match metas().get(text.as_str()) {
            Some(m) => shown(vec![format!("{}\nBinary Opcode: {}", fence(text.clone()), m.opcode)]),
            None => shown(vec![]),
        },
        Cls::Str => shown(vec![]),
        _ => Ok(()),
    }
}

pub fn inlay(em: &Em, s: usize, e: usize, got: &Value) -> Verdict {
    type Hint = (Pos, String, Option<i64>);
    let mut want: Vec<Hint> = vec![];
    let end = |o: usize| em.lines.pos(&em.text, o);
    for (k, r) in em.refs.iter().enumerate() {
        if !matches!(r.dk, DK::Local | DK::Global) || dead(em, k) {
            continue;
        }
        let (a, b) = em.span(r.node);
        let Some(ty) = r.defs.first().and_then(|d| em.defs[*d].ty) else { continue };
        if s <= a && b <= e {
            want.push((end(b), ty_name(ty).to_string(), Some(1)));
        }
    }
    for d in &em.defs {
        let (DK::Func, Some(n)) = (d.dk, &d.name) else { continue };
        let t = &em.toks[em.nodes[d.node].last - 1];
        if s <= t.s && t.e <= e {
            want.push((end(t.e), format!("(func {n})"), None));
        }
    }
    let mut have: Vec<Hint> = vec![];
    for h in got.as_array().ok_or("no list of hints")? {
        if h["paddingLeft"] != Value::Bool(true) {
            return Err(format!("hint without padding: {h}"));
        }
        have.push((text::jpos(&h["position"]).ok_or("hint without position")?, h["label"].as_str().unwrap_or("?").to_string(), h["kind"].as_i64()));
    }
    want.sort();
    have.sort();
    if want != have {
        return Err(format!("hints {have:?}, expected {want:?}"));
    }
    Ok(())
}

/// label, inserted text, kind, description, documentation
type Item = (String, Option<String>, i64, Option<String>, Option<String>);
pub fn item_list(v: &Value) -> Result<Vec<Item>, String> {
    let l = match v {
        Value::Null => return Ok(vec![]),
        Value::Array(a) => a,
        v => v["items"].as_array().ok_or("no list of items")?,
    };
    let s = |v: Option<&Value>| v.and_then(|v| v.as_str()).map(|s| s.to_string());
    let mut out: Vec<Item> = l
        .iter()
        .map(|i| {
            let doc = i.get("documentation").map(|d| pieces(d).join("\n"));
            (s(i.get("label")).unwrap_or_default(), s(i.get("insertText")), i["kind"].as_i64().unwrap_or(0), s(i.pointer("/labelDetails/description")), doc)
        })
        .collect();
    out.sort();
    Ok(out)
}
/// What may stand where a reference of this kind stands.
pub fn candidates(em: &Em, r: &RefSite, dollar: bool) -> Vec<Item> {
    let mut out = vec![];
    let mut add = |name: &Option<String>, num: u32, kind: i64, desc: Option<String>, doc: Option<String>| match (name, dollar) {
        (Some(n), true) => out.push((n.clone(), Some(n[1..].to_string()), kind, desc, doc)),
        (None, true) => {}
        (n, false) => out.push((n.clone().unwrap_or_else(|| num.to_string()), None, kind, desc, doc)),
    };
    if r.dk == DK::Label {
        for (depth, d) in r.labels.iter().enumerate() {
            add(&em.defs[*d].name, depth as u32, 6, None, None);
        }
    } else {
        for (k, d) in em.defs.iter().enumerate() {
            let fits = match r.dk {
                DK::Local => d.dk.space() == DK::Local && d.func == r.func,
                dk => d.dk == dk && d.modno == r.modno,
            };
            if !fits {
                continue;
            }
            let kind = match r.dk {
                DK::Func => 3,
                DK::Type => 8,
                _ => 6,
            };
            let ty = d.ty.filter(|_| matches!(r.dk, DK::Local | DK::Global)).map(|t| ty_name(t).to_string());
            let doc = (r.dk == DK::Func).then(|| fence(func_header(em, k)));
            add(&d.name, d.idx, kind, ty, doc);
        }
    }
    out.sort();
    out
}
pub fn listed(em: &Em, r: &RefSite, dollar: bool, got: &Value) -> Verdict {
    let have = item_list(got)?;
    let want = candidates(em, r, dollar);
    if have != want {
        return Err(format!("offers {have:?}, expected {want:?}"));
    }
    Ok(())
}
/// Locals of a function whose parameters are declared by its type only have no certain number.
pub fn numbered(em: &Em, func: Option<usize>) -> bool {
    !em.defs.iter().any(|d| d.dk == DK::Func && Some(d.node) == func && d.tyuse.is_some() && d.params.is_empty() && d.results.is_empty())
}
/// `None`: nothing is expected at this place.
pub fn completion(em: &Em, tok: usize, off: usize, got: &Value) -> Option<Verdict> {
    let t = &em.toks[tok];
    if !(t.s < off && off <= t.e) {
        return None;
    }
    let text = em.ts(tok);
    if let Some(r) = em.refs.iter().find(|r| r.tok == tok) {
        if matches!(r.site, Site::ElemFn | Site::MemUse | Site::TableUse) || r.dk == DK::Local && !numbered(em, r.func) {
            return None;
        }
        // nothing is ever offered for the table of an indirect call
        let indirect = em.ins.iter().any(|i| i.name.as_deref().is_some_and(|n| n.ends_with("call_indirect")) && i.opds.iter().any(|o| matches!(o.1, Opd::Ref(x) if em.refs[x].tok == tok)));
        if indirect && item_list(got).is_ok_and(|l| l.is_empty()) {
            return None;
        }
        return Some(listed(em, r, text.starts_with('$'), got));
    }
    match t.cls {
        Cls::MemArg if em.ins.iter().any(|i| i.name.as_deref().is_some_and(|n| n.contains(".load") || n.contains(".store")) && i.opds.iter().any(|o| matches!(o.1, Opd::Tok(x) if x == tok))) => Some(item_list(got).and_then(|l| {
            let l: Vec<&str> = l.iter().map(|i| i.0.as_str()).collect();
            if l == ["align=", "offset="] {
                Ok(())
            } else {
                Err(format!("offers {l:?} for a memory argument"))
            }
        })),
        // a literal stands where no memory argument can
        Cls::Int | Cls::Float
            if em.ins.iter().any(|i| i.name.as_deref().is_some_and(|n| n.ends_with(".const")) && i.opds.iter().any(|o| matches!(o.1, Opd::Tok(x) if x == tok))) =>
        {
            Some(item_list(got).and_then(|l| match l.iter().find(|i| matches!(i.0.as_str(), "align=" | "offset=") || i.0.starts_with('$')) {
                Some(i) => Err(format!("offers {:?} for a literal", i.0)),
                None => Ok(()),
            }))
        }
        Cls::Instr if metas().contains_key(text) => Some(item_list(got).and_then(|l| {
            let some = ["call", "drop", "global.get", "i32.add", "i32.const", "local.get", "local.set", "nop", "return"];
            let missing: Vec<&&str> = some.iter().filter(|n| l.binary_search_by(|i| i.0.as_str().cmp(n)).is_err()).collect();
            if missing.is_empty() {
                Ok(())
            } else {
                Err(format!("does not offer {missing:?}: {}", brief(got)))
            }
        })),
        _ => None,
    }
}
