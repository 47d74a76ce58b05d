//! The complete set of diagnostics a document is to have.
use super::{Judge, Verdict};
use crate::emit::*;
use crate::gen::{metas, ty_name, Cls, DK, Ty};
use crate::lex::{self, LK};
use crate::client::{Client, Snap};
use crate::oracle::{clip, Out};
use crate::text::{self, Rng_};
use simkern::Rng;
use std::rc::Rc;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag {
    pub r: Rng_,
    pub msg: String,
    pub rel: Vec<(Rng_, String)>,
}

pub fn read(v: &Value, uri: &str) -> Result<Vec<Diag>, String> {
    let mut out = vec![];
    for d in v.as_array().ok_or("no list of diagnostics")? {
        let r = text::jrange(&d["range"]).ok_or("diagnostic without range")?;
        if d["severity"].as_i64() != Some(1) || d["source"].as_str() != Some("wat") {
            return Err(format!("severity {} source {} in {d}", d["severity"], d["source"]));
        }
        let mut rel = vec![];
        for x in d.get("relatedInformation").and_then(|x| x.as_array()).into_iter().flatten() {
            if x.pointer("/location/uri").and_then(|u| u.as_str()) != Some(uri) {
                return Err(format!("related information elsewhere: {x}"));
            }
            rel.push((text::jrange(&x["location"]["range"]).ok_or("related information without range")?, x["message"].as_str().unwrap_or("").to_string()));
        }
        rel.sort();
        out.push(Diag { r, msg: d["message"].as_str().unwrap_or("").to_string(), rel });
    }
    out.sort();
    Ok(out)
}

/// Own or borrowed signature; `None` when the type it refers to does not exist.
fn sig(em: &Em, d: usize) -> Option<(Vec<(Ty, Option<String>)>, Vec<Ty>)> {
    let def = &em.defs[d];
    if def.params.is_empty() && def.results.is_empty() {
        if let Some(r) = def.tyuse {
            return em.refs[r].defs.first().map(|t| (em.defs[*t].params.clone(), em.defs[*t].results.clone()));
        }
    }
    Some((def.params.clone(), def.results.clone()))
}
fn first_ref(em: &Em, i: &Ins) -> Option<usize> {
    match i.opds.first()?.1 {
        Opd::Ref(r) => em.refs[r].defs.first().copied(),
        _ => None,
    }
}
/// Types that go with a branch to the label given first.
fn branch(em: &Em, i: &Ins) -> Option<Vec<Ty>> {
    let Opd::Ref(r) = i.opds.first()?.1 else { return None };
    let x = &em.refs[r];
    if x.dk != DK::Label {
        return None;
    }
    match x.defs.first() {
        Some(d) => {
            let (p, rs) = sig(em, *d)?;
            Some(if em.nodes[em.defs[*d].node].kind == NK::Block(1) { p.into_iter().map(|p| p.0).collect() } else { rs })
        }
        // the body of the function is the outermost block
        None if crate::emit::number(em.ts(x.tok)) == Some(x.labels.len() as u32) => {
            let f = em.defs.iter().position(|d| d.dk == DK::Func && Some(d.node) == i.func)?;
            sig(em, f).map(|s| s.1)
        }
        None => None,
    }
}
/// Signature an indirect call names.
fn indirect(em: &Em, i: &Ins) -> Option<(Vec<Ty>, Vec<Ty>)> {
    let t = i.opds.iter().find_map(|o| match o.1 {
        Opd::TypeUse(t) => Some(t),
        _ => None,
    })?;
    let d = &em.defs[*em.refs[t?].defs.first()?];
    Some((d.params.iter().map(|p| p.0).collect(), d.results.clone()))
}
/// What follows is never reached.
fn diverges(em: &Em, ix: usize) -> bool {
    let i = &em.ins[ix];
    let Some(name) = i.name.as_deref() else { return false };
    matches!(name, "unreachable" | "br" | "br_table" | "return" | "return_call" | "return_call_indirect") || i.opds.iter().any(|o| matches!(o.1, Opd::Ins(x) if diverges(em, x)))
}
fn label_of(em: &Em, i: &Ins) -> Option<usize> {
    em.defs.iter().position(|d| d.dk == DK::Label && d.node == i.node)
}
/// Types an instruction leaves behind, if that is known.
fn yields(em: &Em, ix: usize) -> Option<Vec<Ty>> {
    let i = &em.ins[ix];
    let Some(name) = i.name.as_deref() else {
        return sig(em, label_of(em, i)?).map(|s| s.1);
    };
    match name {
        "call" => first_ref(em, i).and_then(|d| sig(em, d)).map(|s| s.1),
        "call_indirect" => indirect(em, i).map(|s| s.1),
        "br_if" => branch(em, i),
        "local.get" | "global.get" => first_ref(em, i).and_then(|d| em.defs[d].ty).map(|t| vec![t]),
        n => metas().get(n).map(|m| m.results.clone()),
    }
}
type Want = (Ty, Option<Rng_>);
/// Types an instruction takes, and where they were declared.
fn takes(em: &Em, ix: usize) -> Option<Vec<Want>> {
    let i = &em.ins[ix];
    let name = i.name.as_deref()?;
    let plain = |l: Vec<Ty>| -> Vec<Want> { l.into_iter().chain([b'i']).map(|t| (t, None)).collect() };
    match name {
        "call" => {
            let f = first_ref(em, i)?;
            let own: Vec<Rng_> = em.defs.iter().filter(|d| d.dk == DK::Param && d.func == Some(em.defs[f].node)).map(|d| em.nrange(d.node)).collect();
            Some(sig(em, f)?.0.iter().enumerate().map(|(k, p)| (p.0, own.get(k).copied())).collect())
        }
        "call_indirect" => indirect(em, i).map(|s| plain(s.0)),
        "br_if" => branch(em, i).map(plain),
        _ => metas().get(name).map(|m| m.params.iter().map(|t| (*t, None)).collect()),
    }
}
fn mismatch(want: &Want, got: Ty, at: Rng_, out: &mut Vec<Diag>) {
    if want.0 != b'?' && got != b'?' && want.0 != got {
        out.push(Diag {
            r: at,
            msg: format!("expected type `{}`, found `{}`", ty_name(want.0), ty_name(got)),
            rel: want.1.iter().map(|r| (*r, "parameter originally defined here".to_string())).collect(),
        });
    }
}
fn count(n: usize, m: usize) -> String {
    format!("expected {n} operand{}, found {m}", if n == 1 { "" } else { "s" })
}
#[derive(Clone, Copy)]
enum Lit {
    Index,
    Int,
    Float,
    Mem,
}
fn literals(name: &str) -> Vec<Lit> {
    match name {
        "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set" | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop"
        | "elem.drop" | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => vec![Lit::Index],
        "table.init" | "table.copy" => vec![Lit::Index, Lit::Index],
        "i32.const" | "i64.const" | "v128.const" => vec![Lit::Int],
        "f32.const" | "f64.const" => vec![Lit::Float],
        n if (n.starts_with("v128.load") || n.starts_with("v128.store")) && n.ends_with("_lane") => vec![Lit::Mem, Lit::Index],
        n if n.contains("_lane") || n == "i8x16.shuffle" => vec![Lit::Index],
        n if metas().get(n).is_some_and(|m| m.imms == 1) && (n.contains(".load") || n.contains(".store")) && !n.ends_with("_zero") => vec![Lit::Mem],
        _ => vec![],
    }
}
fn literal(em: &Em, ix: usize, out: &mut Vec<Diag>) {
    let i = &em.ins[ix];
    let name = i.name.as_deref().unwrap();
    let mut lits = literals(name);
    let is = |k: usize, c: fn(&Cls) -> bool| i.opds.get(k).is_some_and(|o| !matches!(o.1, Opd::Ins(_)) && c(&em.toks[em.nodes[o.0].first].cls));
    let ins = |k: usize| matches!(i.opds.get(k), Some((_, Opd::Ins(_))));
    let mut opds: Vec<usize> = i.opds.iter().map(|o| o.0).collect();
    match lits.as_slice() {
        // table indices and memory arguments can be left out
        _ if name.starts_with("table.") && ins(0) => return,
        [Lit::Index, Lit::Index] if ins(1) => lits.truncate(1),
        [Lit::Mem] if ins(0) => return,
        [Lit::Mem, Lit::Index] => {
            if is(0, |c| matches!(c, Cls::Int | Cls::UInt)) && (i.opds.len() == 1 || ins(1)) {
                lits.remove(0);
            } else if is(1, |c| *c == Cls::MemArg) {
                opds.remove(1);
            }
        }
        _ => {}
    }
    for (l, node) in lits.iter().zip(&opds) {
        let t = em.nodes[*node].first;
        let c = em.toks[t].cls;
        let (ok, msg) = match l {
            Lit::Index => (matches!(c, Cls::Ident | Cls::Int | Cls::UInt), "expected identifier or unsigned integer"),
            Lit::Int => (matches!(c, Cls::Int | Cls::UInt), "expected integer"),
            Lit::Float => (matches!(c, Cls::Int | Cls::UInt | Cls::Float), "expected floating-point number"),
            Lit::Mem => (c == Cls::MemArg, "expected memory argument"),
        };
        if !ok {
            out.push(Diag { r: em.trange(t), msg: msg.into(), rel: vec![] });
        }
    }
}
/// Operands that are the instruction's own and do not come from the stack.
fn immediates(em: &Em, i: &Ins) -> usize {
    let name = i.name.as_deref().unwrap();
    let imms = metas().get(name).map_or(0, |m| m.imms);
    let given = |from: usize, max: usize| i.opds.iter().skip(from).take(max).take_while(|o| !matches!(o.1, Opd::Ins(_))).count();
    match name {
        "call" | "br_if" => 1,
        "call_indirect" => given(0, usize::MAX),
        "select" => given(0, imms),
        n if n.starts_with("table.") => given(0, imms),
        n if n.contains(".load") || n.contains(".store") => {
            let mem = i.opds.iter().take(2).take_while(|o| em.toks[em.nodes[o.0].first].cls == Cls::MemArg).count();
            mem + given(mem, imms - mem.min(1))
        }
        _ => imms,
    }
}
fn folded(em: &Em, ix: usize, out: &mut Vec<Diag>) {
    let i = &em.ins[ix];
    let name = i.name.as_deref().unwrap();
    let known = metas().contains_key(name);
    let skip = immediates(em, i);
    let mut have: Vec<(Ty, Rng_)> = vec![];
    let mut dead = false;
    for (node, o) in i.opds.iter().skip(skip) {
        match o {
            Opd::Ins(x) if diverges(em, *x) => {
                dead = true;
                have.clear();
            }
            Opd::Ins(x) => have.extend(yields(em, *x).unwrap_or_default().into_iter().map(|t| (t, em.nrange(*node)))),
            _ if known => out.push(Diag { r: em.nrange(*node), msg: "expected instr".into(), rel: vec![] }),
            _ => {}
        }
    }
    let Some(want) = takes(em, ix) else { return };
    let n = want.len() + skip;
    let m = have.len() + i.opds.iter().filter(|o| !matches!(o.1, Opd::Ins(_))).count();
    if if dead { have.len() > want.len() } else { n != m } {
        out.push(Diag { r: em.nrange(i.node), msg: count(n, m), rel: vec![] });
    }
    let from = if dead { want.len().saturating_sub(have.len()) } else { 0 };
    for (w, (t, at)) in want.iter().skip(from).zip(have) {
        mismatch(w, t, at, out);
    }
}
fn stacked(em: &Em, node: usize, out: &mut Vec<Diag>) {
    let body: Vec<usize> = (0..em.ins.len()).filter(|i| em.ins[*i].parent_node == node).collect();
    if body.iter().all(|i| em.ins[*i].folded) {
        return;
    }
    let mut stack: Vec<(Ty, Rng_)> = vec![];
    let mut dead = false;
    for ix in body {
        let i = &em.ins[ix];
        let here = em.nrange(i.node);
        if diverges(em, ix) {
            dead = true;
            stack.clear();
            continue;
        }
        if i.name.is_none() {
            let mut n = label_of(em, i).and_then(|d| sig(em, d)).map_or(0, |s| s.0.len());
            n += (em.nodes[i.node].kind == NK::Block(2) && !i.folded) as usize;
            stack.truncate(stack.len().saturating_sub(n));
        } else {
            let Some(want) = takes(em, ix) else { continue };
            let n = if i.folded { 0 } else { want.len() };
            let mut from = 0;
            if stack.len() < n {
                if dead {
                    from = n - stack.len();
                } else {
                    out.push(Diag { r: here, msg: count(n, stack.len()), rel: vec![] });
                }
            }
            let got = stack.split_off(stack.len().saturating_sub(n));
            for (w, (t, r)) in want.iter().skip(from).zip(got) {
                mismatch(w, t, r, out);
            }
        }
        stack.extend(yields(em, ix).unwrap_or_default().into_iter().map(|t| (t, here)));
    }
}

/// Label names used more than once in a function: which of them count as duplicates is not asserted.
fn vague(em: &Em) -> Vec<String> {
    let mut out = vec![];
    for (k, d) in em.defs.iter().enumerate() {
        let Some(n) = &d.name else { continue };
        if d.dk == DK::Label && em.defs[..k].iter().any(|o| o.dk == DK::Label && o.func == d.func && o.name == d.name) {
            out.push(format!("duplicated name `{n}` in this scope"));
        }
    }
    out
}
/// What must be reported. With `mixed`, names of all kinds are of one namespace; with `blocks`, only blocks have labels
/// (the repository's reading), and not the body of a function.
pub fn expected(em: &Em, mixed: bool, blocks: bool) -> Vec<Diag> {
    let mut out = vec![];
    for m in em.mods.iter().skip(1) {
        out.push(Diag { r: em.nrange(*m), msg: "only one module is allowed in one file".into(), rel: vec![] });
    }
    for (n, x) in em.nodes.iter().enumerate() {
        if matches!(x.kind, NK::Func | NK::Global) {
            stacked(em, n, &mut out);
        }
    }
    for ix in 0..em.ins.len() {
        if em.ins[ix].name.is_some() {
            literal(em, ix, &mut out);
            if em.ins[ix].folded {
                folded(em, ix, &mut out);
            }
        }
    }
    for (k, r) in em.refs.iter().enumerate() {
        let t = em.ts(r.tok);
        let lost = match r.dk {
            DK::Label if !blocks => r.func.is_none() || crate::emit::number(t) != Some(r.labels.len() as u32),
            _ => !super::nav::dead(em, k),
        };
        if r.defs.is_empty() && lost {
            let shown = if t.starts_with('$') { t.to_string() } else { crate::emit::number(t).map_or(t.to_string(), |n| n.to_string()) };
            out.push(Diag { r: em.nrange(r.node), msg: format!("cannot find `{shown}` in this scope"), rel: vec![] });
        }
    }
    let mut groups: BTreeMap<(String, usize, usize, DK), Vec<usize>> = BTreeMap::new();
    for (k, d) in em.defs.iter().enumerate() {
        if d.dk == DK::Label {
            continue;
        }
        if let Some(n) = &d.name {
            let dk = match d.dk.space() {
                DK::Local => DK::Local,
                _ if mixed => DK::Func,
                k => k,
            };
            groups.entry((n.clone(), d.modno, d.func.unwrap_or(0), dk)).or_default().push(k);
        }
    }
    for ((name, ..), g) in groups {
        for d in g.iter().filter(|_| g.len() > 1) {
            let mut rel: Vec<_> = g.iter().filter(|o| *o != d).map(|o| (em.def_range(*o), format!("already defined here as `{name}`"))).collect();
            rel.sort();
            out.push(Diag { r: em.def_range(*d), msg: format!("duplicated name `{name}` in this scope"), rel });
        }
    }
    out.sort();
    out
}
fn compare(em: &Em, got: &[Diag], mixed: bool, blocks: bool) -> Verdict {
    let skip = vague(em);
    let want = expected(em, mixed, blocks);
    let keep = |l: &[Diag]| -> Vec<Diag> { l.iter().filter(|d| !skip.contains(&d.msg)).cloned().collect() };
    let (want, got) = (keep(&want), keep(got));
    if want == got {
        return Ok(());
    }
    let extra: Vec<_> = got.iter().filter(|d| !want.contains(d)).collect();
    let missing: Vec<_> = want.iter().filter(|d| !got.contains(d)).collect();
    Err(format!("unexpected {extra:?}, missing {missing:?} ({} reported, {} expected)", got.len(), want.len()))
}
pub fn judge(j: &mut Judge, em: &Em, uri: &str, items: &Value) {
    let got = match read(items, uri) {
        Ok(g) => g,
        Err(m) => return j.bad(m),
    };
    let first = compare(em, &got, false, false);
    if first.is_ok() {
        return;
    }
    let sh = em.shared();
    for n in 1..8 {
        let (space, names, blocks) = (n & 4 > 0, n & 2 > 0, n & 1 > 0);
        if compare(if space { &*sh } else { em }, &got, names, blocks).is_ok() {
            for (used, id) in [(blocks, "block-labels"), (names, "one-namespace"), (space, "shared-index-space")] {
                if used {
                    j.known(id, first.clone());
                }
            }
            return;
        }
    }
    // the repository's own reading is the shorter story
    j.verdict(compare(&sh, &got, true, true));
}
/// A text with one mistake in its syntax, and where that is.
pub fn spoil(em: &Em, r: &mut Rng) -> Option<(String, Rng_)> {
    let last = *em.mods.last()?;
    let fields: Vec<usize> = (1..em.nodes.len()).filter(|n| em.mods.contains(&em.nodes[*n].parent)).collect();
    let stmts: Vec<usize> = em.ins.iter().filter(|i| em.nodes[i.parent_node].kind == NK::Func).map(|i| i.node).collect();
    let word = *r.pick(&["xyz", "12", "$name", "0.5", "x-y.z", "offset=1", "a_word_of_some_length", "a_word_which_is_so_long_that_it_takes_up_most_of_what_a_line_holds", "\"a string\""]);
    let (after, what) = match r.usize(6) {
        0 | 1 => (last, ")"),
        2 => (last, word),
        3 | 4 if !fields.is_empty() => (*r.pick(&fields), word),
        _ if !stmts.is_empty() => (*r.pick(&stmts), *r.pick(&["@@", "[", "{x}", ","])),
        _ => return None,
    };
    let at = em.span(after).1;
    let gap = *r.pick(&[" ", "\n", "\t", " (;c;) "]);
    let mut text = em.text.to_string();
    text.insert_str(at, &format!("{gap}{what}{}", r.pick(&[" ", "\n"])));
    let s = at + gap.len();
    let lines = text::Lines::new(&text);
    let at = lines.range(&text, s, s + what.len());
    Some((text, at))
}
pub fn judge_broken(c: &Client, snap: &Snap, items: Option<&Value>, o: &mut Out) {
    let Some(items) = items.and_then(|i| i.as_array()) else { return };
    if let Some((_, at)) = c.spoils.iter().find(|s| Rc::ptr_eq(&s.0, &snap.text)) {
        o.evals += 1;
        let got: Vec<_> = items.iter().filter(|d| d["message"].as_str().is_some_and(|m| m.starts_with("syntax error"))).map(|d| text::jrange(&d["range"])).collect();
        if got != [Some(*at)] {
            o.bad(format!("a mistake at {at:?} is reported at {got:?}: {:?}", clip(&snap.text)));
        }
    } else if broken(&snap.text) {
        o.evals += 1;
        if items.is_empty() {
            o.bad(format!("nothing is reported about a text that is no module: {:?}", clip(&snap.text)));
        }
    }
}
/// A text that cannot be a module in any reading has something reported about it.
pub fn broken(text: &str) -> bool {
    match lex::lex(text) {
        None => true,
        Some(l) => {
            let mut depth = 0i64;
            for t in l {
                match t.k {
                    LK::LParen => depth += 1,
                    LK::RParen => depth -= 1,
                    _ => {}
                }
                if depth < 0 {
                    return true;
                }
            }
            depth != 0
        }
    }
}
