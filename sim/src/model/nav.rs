//! Expected answers about definitions, references, calls and renames, from the client's own
//! knowledge of what it wrote.
use super::{Judge, Verdict};
use crate::client::*;
use crate::emit::*;
use crate::gen::{render_sig, Cls, DK};
use crate::oracle::brief;
use crate::text::{self, Rng_};
use serde_json::Value;

/// What a token of the document stands for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sym {
    Ref(usize),
    Def(usize),
    None,
}
pub fn symbol(em: &Em, tok: usize) -> Sym {
    if let Some(r) = em.refs.iter().position(|r| r.tok == tok) {
        return Sym::Ref(r);
    }
    let t = &em.toks[tok];
    if !matches!(t.cls, Cls::Ident | Cls::Kw | Cls::ValTy | Cls::RefTy) {
        return Sym::None;
    }
    match em.defs.iter().position(|d| d.node == t.node) {
        Some(d) => Sym::Def(d),
        None => Sym::None,
    }
}
/// References without a symbol of their own: labels outside any block, locals outside functions.
pub fn dead(em: &Em, r: usize) -> bool {
    let x = &em.refs[r];
    x.dk == DK::Label && x.labels.is_empty() || x.dk == DK::Local && x.func.is_none()
}
pub fn locations(v: &Value) -> Result<Vec<(String, Rng_)>, String> {
    let one = |x: &Value| -> Result<(String, Rng_), String> {
        let u = x.get("uri").or_else(|| x.get("targetUri")).and_then(|u| u.as_str()).ok_or("location without uri")?;
        let r = x.get("range").or_else(|| x.get("targetSelectionRange")).and_then(text::jrange).ok_or("location without range")?;
        Ok((u.to_string(), r))
    };
    let mut out = match v {
        Value::Null => vec![],
        Value::Array(a) => a.iter().map(one).collect::<Result<Vec<_>, _>>()?,
        v => vec![one(v)?],
    };
    out.sort();
    Ok(out)
}
fn at(em: &Em, uri: &str, ranges: Vec<Rng_>) -> Vec<(String, Rng_)> {
    let _ = em;
    let mut v: Vec<_> = ranges.into_iter().map(|r| (uri.to_string(), r)).collect();
    v.sort();
    v
}
pub fn same_locs(got: &Value, em: &Em, uri: &str, want: Vec<Rng_>) -> Verdict {
    let got = locations(got)?;
    let want = at(em, uri, want);
    if got != want {
        return Err(format!("got {got:?}, expected {want:?}"));
    }
    Ok(())
}
/// References resolving to any of these definitions.
fn refs_to(em: &Em, defs: &[usize]) -> Vec<usize> {
    (0..em.refs.len()).filter(|r| !dead(em, *r) && em.refs[*r].defs.iter().any(|d| defs.contains(d))).collect()
}

pub fn definition(em: &Em, uri: &str, tok: usize, got: &Value) -> Verdict {
    let want = match symbol(em, tok) {
        Sym::Ref(r) if !dead(em, r) => {
            let r = &em.refs[r];
            let mut d = r.defs.clone();
            if matches!(r.dk, DK::Local | DK::Label) {
                d.truncate(1);
            }
            d.iter().map(|d| em.def_range(*d)).collect()
        }
        _ => vec![],
    };
    same_locs(got, em, uri, want)
}
pub fn declaration(em: &Em, uri: &str, tok: usize, got: &Value) -> Verdict {
    let want = match symbol(em, tok) {
        Sym::Ref(r) if em.nodes[em.refs[r].node].kind == NK::Operand && !matches!(em.refs[r].dk, DK::Local | DK::Label) => {
            em.refs[r].defs.iter().map(|d| em.def_range(*d)).collect()
        }
        _ => vec![],
    };
    same_locs(got, em, uri, want)
}
pub fn type_definition(em: &Em, uri: &str, tok: usize, got: &Value) -> Verdict {
    let want = match symbol(em, tok) {
        Sym::Ref(r) if matches!(em.refs[r].site, Site::Instr(_)) && em.refs[r].dk != DK::Label => em.refs[r]
            .defs
            .iter()
            .filter_map(|d| em.defs[*d].tyuse)
            .flat_map(|t| em.refs[t].defs.iter().map(|d| em.def_range(*d)).collect::<Vec<_>>())
            .collect(),
        _ => vec![],
    };
    same_locs(got, em, uri, want)
}
/// The answer is only certain when no two definitions of the group share a name.
pub fn references(em: &Em, uri: &str, tok: usize, decl: bool, got: &Value) -> Verdict {
    let (defs, refs): (Vec<usize>, Vec<usize>) = match symbol(em, tok) {
        Sym::Def(d) => (vec![d], refs_to(em, &[d])),
        Sym::Ref(r) if !dead(em, r) => {
            let x = &em.refs[r];
            if x.dk == DK::Local && x.defs.len() > 1 {
                return Ok(());
            }
            (x.defs.clone(), refs_to(em, &x.defs))
        }
        _ => (vec![], vec![]),
    };
    // of several locals with one name, which one a use belongs to is anybody's guess
    if refs.iter().any(|r| em.refs[*r].dk == DK::Local && em.refs[*r].defs.len() > 1) {
        return Ok(());
    }
    let mut want: Vec<Rng_> = refs.iter().map(|r| em.trange(em.refs[*r].tok)).collect();
    // a reference is reported by its identifier, or by its whole node, which is the number
    if decl {
        want.extend(defs.iter().map(|d| em.def_range(*d)));
    }
    same_locs(got, em, uri, want)
}

fn item_fits(em: &Em, uri: &str, d: usize, it: &Value) -> Verdict {
    let def = &em.defs[d];
    let name = def.name.clone().unwrap_or_else(|| def.idx.to_string());
    let r = |k: &str| it.get(k).and_then(text::jrange);
    if it["name"].as_str() != Some(&name) {
        return Err(format!("item named {}, expected {name}", it["name"]));
    }
    if it["uri"].as_str() != Some(uri) {
        return Err(format!("item of {}", it["uri"]));
    }
    if it["kind"].as_i64() != Some(12) {
        return Err(format!("item of kind {}", it["kind"]));
    }
    if r("range") != Some(em.nrange(def.node)) || r("selectionRange") != Some(em.def_range(d)) {
        return Err(format!("item ranges {} {}, expected {:?} {:?}", it["range"], it["selectionRange"], em.nrange(def.node), em.def_range(d)));
    }
    let head = func_header(em, d);
    if it["detail"].as_str() != Some(&head) {
        return Err(format!("item detail {}, expected {head}", it["detail"]));
    }
    Ok(())
}
pub fn func_header(em: &Em, d: usize) -> String {
    let def = &em.defs[d];
    let (p, r) = em.sig(d);
    let sig = render_sig(&p, &r);
    let mut s = "(func".to_string();
    if let Some(n) = &def.name {
        s.push(' ');
        s.push_str(n);
    }
    if !sig.is_empty() {
        s.push(' ');
        s.push_str(&sig);
    }
    s.push(')');
    s
}
/// Both sides as sorted lists of (definition, ranges) with the definition found by its range.
pub fn prepare_calls(em: &Em, uri: &str, tok: usize, got: &Value) -> Verdict {
    let want: Vec<usize> = match symbol(em, tok) {
        Sym::Ref(r) if em.refs[r].dk == DK::Func => em.refs[r].defs.clone(),
        Sym::Def(d) if em.defs[d].dk == DK::Func => vec![d],
        _ => {
            let n = em.toks[tok].node;
            match em.defs.iter().position(|d| d.node == n && d.dk == DK::Func) {
                Some(d) => vec![d],
                None => vec![],
            }
        }
    };
    let empty = vec![];
    let items = got.as_array().unwrap_or(&empty);
    if items.len() != want.len() {
        return Err(format!("{} items, expected {}", items.len(), want.len()));
    }
    for d in want {
        let rg = em.nrange(em.defs[d].node);
        let Some(it) = items.iter().find(|i| i.get("range").and_then(text::jrange) == Some(rg)) else {
            return Err(format!("no item for the function at {rg:?}"));
        };
        item_fits(em, uri, d, it)?;
    }
    Ok(())
}
pub fn calls(em: &Em, uri: &str, f: usize, incoming: bool, got: &Value) -> Verdict {
    let mut want: Vec<(usize, Rng_)> = vec![];
    for r in &em.refs {
        if r.dk != DK::Func {
            continue;
        }
        let (Site::Instr(i), Some(fnode)) = (&r.site, r.func) else { continue };
        let call = em.nrange(em.ins[*i].node);
        if incoming {
            if r.defs.contains(&f) {
                if let Some(d) = em.defs.iter().position(|d| d.node == fnode) {
                    want.push((d, call));
                }
            }
        } else if em.defs[f].node == fnode {
            want.extend(r.defs.iter().map(|d| (*d, call)));
        }
    }
    let side = if incoming { "from" } else { "to" };
    let mut have = vec![];
    for c in got.as_array().ok_or("not a list of calls")? {
        let it = &c[side];
        let rg = it.get("range").and_then(text::jrange).ok_or("item without range")?;
        let Some(d) = em.defs.iter().position(|d| d.dk == DK::Func && em.nrange(d.node) == rg) else {
            return Err(format!("call {side} something that is no function: {}", brief(it)));
        };
        item_fits(em, uri, d, it)?;
        for x in c["fromRanges"].as_array().ok_or("call without fromRanges")? {
            have.push((d, text::jrange(x).ok_or("bad range")?));
        }
    }
    want.sort();
    have.sort();
    if want != have {
        return Err(format!("calls {have:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn valid_name(n: &str) -> bool {
    n.strip_prefix('$').is_some_and(|r| {
        !r.is_empty() && r.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-./:<=>?@\\^_`|~".contains(&b))
    })
}
/// Tokens a rename of this one replaces. With `mixed`, module-level names of all kinds share one
/// namespace, which is what the repository's tests pin.
pub fn rename_set(em: &Em, tok: usize, mixed: bool) -> Option<Vec<usize>> {
    let name = em.ts(tok).to_string();
    let (dk, modno, func) = match symbol(em, tok) {
        Sym::None if em.defs.iter().any(|d| d.again.contains(&tok)) => (DK::Label, 0, None),
        Sym::None => {
            let n = em.toks[tok].node;
            return (em.nodes[n].kind == NK::Module && em.toks[tok].cls == Cls::Ident).then(|| vec![tok]);
        }
        Sym::Ref(r) if dead(em, r) => return None,
        Sym::Ref(r) => (em.refs[r].dk, em.refs[r].modno, em.refs[r].func),
        Sym::Def(d) => (em.defs[d].dk.space(), em.defs[d].modno, em.defs[d].func),
    };
    let mut out = vec![];
    if dk == DK::Label {
        let def = match symbol(em, tok) {
            Sym::Def(d) => Some(d),
            Sym::Ref(r) => em.refs[r].defs.first().copied(),
            Sym::None => em.defs.iter().position(|d| d.again.contains(&tok)),
        };
        match def {
            Some(d) => {
                out.extend(em.defs[d].ident);
                out.extend(em.defs[d].again.iter());
                out.extend(em.refs.iter().filter(|r| r.dk == DK::Label && r.defs.contains(&d) && em.toks[r.tok].cls == Cls::Ident).map(|r| r.tok));
            }
            None => out.push(tok),
        }
    } else {
        let fits = |k: DK, m: usize, f: Option<usize>| {
            m == modno
                && match dk {
                    DK::Local => k == DK::Local && f == func,
                    _ => k == dk || mixed && !matches!(k, DK::Local | DK::Label),
                }
        };
        for d in &em.defs {
            if d.name.as_deref() == Some(&name) && fits(d.dk.space(), d.modno, d.func) {
                out.extend(d.ident);
            }
        }
        for (i, r) in em.refs.iter().enumerate() {
            if em.ts(r.tok) == name && fits(r.dk, r.modno, r.func) && !dead(em, i) {
                out.push(r.tok);
            }
        }
    }
    out.sort();
    out.dedup();
    Some(out)
}
pub fn rename(j: &mut Judge, em: &Em, uri: &str, tok: usize, new: &str, reply: &Value) {
    let is_ident = em.toks[tok].cls == Cls::Ident;
    if !valid_name(new) {
        if reply.get("error").is_none() {
            j.bad(format!("{new:?} is no identifier, yet renaming to it is not refused"));
        }
        return;
    }
    let res = &reply["result"];
    let edits = || -> Result<Vec<Rng_>, String> {
        if !res.get("documentChanges").map_or(true, |v| v.is_null()) {
            return Err("unexpected documentChanges".into());
        }
        let mut out = vec![];
        for (u, l) in res.get("changes").and_then(|c| c.as_object()).into_iter().flatten() {
            if u != uri {
                return Err(format!("edits {u}"));
            }
            for e in l.as_array().into_iter().flatten() {
                if e["newText"].as_str() != Some(new) {
                    return Err(format!("inserts {}", e["newText"]));
                }
                out.push(text::jrange(&e["range"]).ok_or("edit without range")?);
            }
        }
        out.sort();
        Ok(out)
    };
    let check = |set: &Option<Vec<usize>>| -> Verdict {
        match set {
            None => {
                if reply.get("error").is_some() {
                    return Ok(());
                }
                let e = edits()?;
                if e.is_empty() {
                    Ok(())
                } else {
                    Err(format!("edits {e:?} for something that has no definition or uses"))
                }
            }
            Some(l) => {
                if let Some(e) = reply.get("error") {
                    return Err(format!("refused: {e}"));
                }
                let want: Vec<Rng_> = l.iter().map(|t| em.trange(*t)).collect();
                let got = edits()?;
                if got == want {
                    Ok(())
                } else {
                    Err(format!("edits {got:?}, expected {want:?}"))
                }
            }
        }
    };
    if !is_ident {
        return j.verdict(check(&None));
    }
    let v = check(&rename_set(em, tok, false));
    if v.is_err() && check(&rename_set(em, tok, true)).is_ok() {
        return j.known("one-namespace", v);
    }
    j.verdict(v);
}
pub fn prepare_rename(em: &Em, tok: usize, got: &Value) -> Verdict {
    let r = got.get("range").unwrap_or(got);
    let want = (em.toks[tok].cls == Cls::Ident).then(|| em.trange(tok));
    let have = text::jrange(r);
    if have != want || (want.is_none() && !got.is_null()) {
        return Err(format!("got {have:?}, expected {want:?}"));
    }
    Ok(())
}
/// The document after the rename's edits.
pub fn renamed(em: &Em, tok: usize, new: &str, text: &str) -> Option<Em> {
    for mixed in [false, true] {
        let set = rename_set(em, tok, mixed)?;
        let mut out = match em.retext(text, &|t, old| if set.contains(&t) { new.to_string() } else { old.to_string() }) {
            Some(e) => e,
            None => continue,
        };
        for d in &mut out.defs {
            if d.ident.is_some_and(|t| set.contains(&t)) {
                d.name = Some(new.to_string());
            }
        }
        super::refresh_params(&mut out);
        resolve(&mut out);
        return Some(out);
    }
    None
}
