//! Emission of a program with full bookkeeping: tokens, the nested constructs they belong to,
//! definitions, references and instructions. Everything the oracles expect is derived from this.
use crate::gen::*;
use crate::lex;
use crate::text::{Lines, Rng_};
use simkern::Rng;
use std::cell::OnceCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: usize,
    pub e: usize,
    pub cls: Cls,
    pub node: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum NK {
    Root,
    Module,
    Func,
    Type,
    FuncType,
    Global,
    GlobalType,
    Memory,
    MemoryType,
    Table,
    TableType,
    Limits,
    Import,
    ImportDesc,
    Export,
    ExportDesc(DK),
    InlineExport,
    Start,
    Data,
    Elem,
    ElemList,
    ElemIn,
    ElemExpr,
    DataIn,
    InlineImport,
    MemUse,
    TableUse,
    Offset,
    Index,
    Name,
    TypeUse,
    Param,
    Result,
    Local,
    ValType,
    BlockType,
    Plain,
    Block(u8),
    Then,
    Else,
    Operand,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: NK,
    pub parent: usize,
    pub first: usize,
    /// one past the last token
    pub last: usize,
    /// starts right after the previous token (its leading trivia belongs to it)
    pub lead: bool,
    /// has a keyword or an opening paren of its own
    pub fold: bool,
}
#[derive(Clone, Debug)]
pub struct Def {
    pub dk: DK,
    pub modno: usize,
    pub func: Option<usize>,
    pub idx: u32,
    pub name: Option<String>,
    pub node: usize,
    pub ident: Option<usize>,
    pub kw: Option<usize>,
    pub ty: Option<Ty>,
    pub mutable: bool,
    pub import: bool,
    /// own declared parameters and results
    pub params: Vec<(Ty, Option<String>)>,
    pub results: Vec<Ty>,
    /// reference index of its type use
    pub tyuse: Option<usize>,
    /// repetitions of a label
    pub again: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Site {
    /// immediate of an instruction (index into `ins`)
    Instr(usize),
    Start,
    Export,
    TypeUse,
    MemUse,
    TableUse,
    ElemFn,
}
#[derive(Clone, Debug)]
pub struct RefSite {
    pub tok: usize,
    pub dk: DK,
    pub node: usize,
    pub modno: usize,
    pub func: Option<usize>,
    pub site: Site,
    /// definitions of enclosing labels, innermost first
    pub labels: Vec<usize>,
    pub defs: Vec<usize>,
}
#[derive(Clone, Debug)]
pub enum Opd {
    Tok(usize),
    Ref(usize),
    /// reference index of the type
    TypeUse(Option<usize>),
    Ins(usize),
}
#[derive(Clone, Debug)]
pub struct Ins {
    pub node: usize,
    pub name: Option<String>,
    pub name_tok: usize,
    pub folded: bool,
    /// (operand node, what it holds)
    pub opds: Vec<(usize, Opd)>,
    pub parent_node: usize,
    pub modno: usize,
    pub func: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Em {
    pub text: Rc<String>,
    pub lines: Rc<Lines>,
    pub toks: Vec<Tok>,
    pub nodes: Vec<Node>,
    pub defs: Vec<Def>,
    pub refs: Vec<RefSite>,
    pub ins: Vec<Ins>,
    pub mods: Vec<usize>,
    pub comments: Vec<(usize, usize)>,
    /// the same document with one index space for everything a module declares
    pub shared: OnceCell<Rc<Em>>,
}

impl Em {
    /// The repository numbers everything a module declares in one sequence, where the language has
    /// one index space per kind: this is the document as the former sees it.
    pub fn shared(&self) -> Rc<Em> {
        self.shared
            .get_or_init(|| {
                let mut em = self.clone();
                em.shared = OnceCell::new();
                let mut next: std::collections::HashMap<usize, u32> = Default::default();
                for d in &mut em.defs {
                    if !matches!(d.dk, DK::Param | DK::Local | DK::Label) {
                        let n = next.entry(d.modno).or_default();
                        d.idx = *n;
                        *n += 1;
                    }
                }
                resolve(&mut em);
                Rc::new(em)
            })
            .clone()
    }
    pub fn ts(&self, t: usize) -> &str {
        &self.text[self.toks[t].s..self.toks[t].e]
    }
    pub fn span(&self, n: usize) -> (usize, usize) {
        let x = &self.nodes[n];
        if x.kind == NK::Root {
            return (0, self.text.len());
        }
        if x.first == x.last {
            let e = self.toks[x.first - 1].e;
            return (e, e);
        }
        let s = if x.lead { self.toks[x.first - 1].e } else { self.toks[x.first].s };
        (s, self.toks[x.last - 1].e)
    }
    pub fn nrange(&self, n: usize) -> Rng_ {
        let (s, e) = self.span(n);
        self.lines.range(&self.text, s, e)
    }
    pub fn trange(&self, t: usize) -> Rng_ {
        self.lines.range(&self.text, self.toks[t].s, self.toks[t].e)
    }
    pub fn brange(&self, s: usize, e: usize) -> Rng_ {
        self.lines.range(&self.text, s, e)
    }
    pub fn empty(text: &str) -> Em {
        Em {
            text: Rc::new(text.to_string()),
            lines: Rc::new(Lines::new(text)),
            toks: vec![],
            nodes: vec![Node { kind: NK::Root, parent: 0, first: 0, last: 0, lead: false, fold: false }],
            defs: vec![],
            refs: vec![],
            ins: vec![],
            mods: vec![],
            comments: vec![],
            shared: OnceCell::new(),
        }
    }
    /// Same program laid out differently: `None` unless the new text has exactly the same tokens.
    pub fn relocate(&self, text: &str) -> Option<Em> {
        self.retext(text, &|_, old| old.to_string())
    }
    /// Same program with some tokens spelled differently.
    pub fn retext(&self, text: &str, spelled: &dyn Fn(usize, &str) -> String) -> Option<Em> {
        let toks = lex::lex(text)?;
        let sig: Vec<_> = toks.iter().filter(|t| !t.trivia()).collect();
        if sig.len() != self.toks.len() {
            return None;
        }
        let mut em = self.clone();
        for (i, t) in sig.iter().enumerate() {
            if text[t.s..t.e] != spelled(i, self.ts(i)) {
                return None;
            }
            em.toks[i].s = t.s;
            em.toks[i].e = t.e;
        }
        em.comments = toks.iter().filter(|t| t.trivia()).map(|t| (t.s, t.e)).collect();
        em.lines = Rc::new(Lines::new(text));
        em.text = Rc::new(text.to_string());
        em.shared = OnceCell::new();
        Some(em)
    }
    /// Range the server is to report for a definition's name: identifier, else keyword, else node.
    pub fn def_range(&self, d: usize) -> Rng_ {
        let d = &self.defs[d];
        match (d.ident, d.kw) {
            (Some(t), _) | (None, Some(t)) => self.trange(t),
            _ => self.nrange(d.node),
        }
    }
    /// Text of the documentation comments before a definition: the nearest run of `;;;` before
    /// it with nothing but blanks and line comments in between.
    pub fn doc(&self, d: usize) -> String {
        let mut at = self.toks[self.nodes[self.defs[d].node].first].s;
        let mut lines = vec![];
        for (s, e) in self.comments[..self.comments.partition_point(|c| c.1 <= at)].iter().rev() {
            let c = &self.text[*s..*e];
            if !c.starts_with(";;") || !self.text[*e..at].trim().is_empty() {
                break;
            }
            at = *s;
            match c.strip_prefix(";;;") {
                Some(l) => lines.push(l.strip_prefix([' ', '\t']).unwrap_or(l)),
                None if lines.is_empty() => {}
                None => break,
            }
        }
        lines.reverse();
        lines.join("\n")
    }
    /// The signature a function has.
    pub fn sig(&self, d: usize) -> (Vec<(Ty, Option<String>)>, Vec<Ty>) {
        let def = &self.defs[d];
        if def.params.is_empty() && def.results.is_empty() {
            if let Some(r) = def.tyuse {
                if let Some(t) = self.refs[r].defs.first() {
                    let t = &self.defs[*t];
                    return (t.params.clone(), t.results.clone());
                }
            }
        }
        (def.params.clone(), def.results.clone())
    }
    pub fn ancestors(&self, mut n: usize) -> Vec<usize> {
        let mut v = vec![n];
        while n != 0 {
            n = self.nodes[n].parent;
            v.push(n);
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Gap {
    None,
    Space,
    Line,
}

struct B<'a> {
    p: &'a Program,
    em: Em,
    out: String,
    stack: Vec<usize>,
    gap: u64,
    indent: usize,
    modno: usize,
    func: Option<usize>,
    labels: Vec<usize>,
    /// (id, definition) pairs for spelling references
    ids: std::collections::HashMap<Id, (u32, Option<String>)>,
    pending_labels: Vec<(Id, Option<String>)>,
}

pub fn emit(p: &Program) -> Em {
    let mut b = B {
        p,
        em: Em::empty(""),
        out: String::new(),
        stack: vec![0],
        gap: 0,
        indent: 0,
        modno: 0,
        func: None,
        labels: vec![],
        ids: Default::default(),
        pending_labels: vec![],
    };
    for m in 0..p.modules.len() {
        b.modno = m;
        b.module(m);
    }
    b.tail();
    let mut em = b.em;
    em.lines = Rc::new(Lines::new(&b.out));
    em.text = Rc::new(b.out);
    em.nodes[0].last = em.toks.len();
    resolve(&mut em);
    em
}

pub fn resolve(em: &mut Em) {
    for i in 0..em.refs.len() {
        let r = em.refs[i].clone();
        let text = em.ts(r.tok).to_string();
        let hit = |d: &Def| {
            if text.starts_with('$') {
                d.name.as_deref() == Some(&text)
            } else {
                number(&text) == Some(d.idx)
            }
        };
        let defs: Vec<usize> = match r.dk {
            DK::Label => {
                if text.starts_with('$') {
                    r.labels.iter().copied().find(|d| em.defs[*d].name.as_deref() == Some(&text)).into_iter().collect()
                } else {
                    number(&text).and_then(|n| r.labels.get(n as usize).copied()).into_iter().collect()
                }
            }
            DK::Local => (0..em.defs.len())
                .filter(|d| {
                    let d = &em.defs[*d];
                    d.dk.space() == DK::Local && r.func.is_some() && d.func == r.func && hit(d)
                })
                .collect(),
            k => (0..em.defs.len())
                .filter(|d| {
                    let d = &em.defs[*d];
                    d.dk == k && d.modno == r.modno && hit(d)
                })
                .collect(),
        };
        em.refs[i].defs = defs;
    }
}

impl<'a> B<'a> {
    fn open(&mut self, kind: NK) -> usize {
        let n = self.em.nodes.len();
        let at = self.em.toks.len();
        self.em.nodes.push(Node { kind, parent: *self.stack.last().unwrap(), first: at, last: at, lead: false, fold: false });
        self.stack.push(n);
        n
    }
    fn close(&mut self) {
        let n = self.stack.pop().unwrap();
        self.em.nodes[n].last = self.em.toks.len();
    }
    fn nl(&self) -> &'static str {
        if self.p.style.crlf {
            "\r\n"
        } else {
            "\n"
        }
    }
    fn comment(&mut self, r: &mut Rng, line: bool) {
        let s = self.out.len();
        let word = if self.p.style.unicode { *r.pick(&["é", "日本語", "𝒳y", "🦀", "plain", "a $x"]) } else { *r.pick(&["note", "x (y", "todo \"q", "a $x"]) };
        if line && self.p.style.ignore && r.chance(400) {
            self.out.push_str(*r.pick(&[";; fmt-ignore", ";; fmt-ignore", ";;fmt-ignore because", ";; fmt-ignored", ";;\tfmt-ignore", ";;   fmt-ignore", ";; fmt-ignore\t", ";; fmt-ignore ;; fmt", ";; don't fmt-ignore", ";;; fmt-ignore"]));
            self.em.comments.push((s, self.out.len()));
        } else if line {
            match r.usize(12) {
                0 => self.out.push_str(";;"),
                1 => self.out.push_str(&format!(";;{word}")),
                2 => self.out.push_str(&format!(";;\t{word} ;; {word}")),
                3 => self.out.push_str(&format!(";;;; {word} ;) (;")),
                4 => self.out.push_str(&format!(";; {word}  ")),
                _ => self.out.push_str(&format!(";; {word}")),
            }
            self.em.comments.push((s, self.out.len()));
        } else {
            match r.usize(12) {
                0 | 1 => self.out.push_str(&format!("(; {word}{}  b ;)", self.nl())),
                2 => self.out.push_str(*r.pick(&["(;;)", "(;;;)", "(;(;;);)", "(; ;)", "(;a(;b;);)", "(;(;a;)(;b;)c;)", "(;;; ;; x;)", "(;\t;)"])),
                3 => self.out.push_str(&format!("(;{}{}", word.replace('(', "<"), "  ;)")),
                4 | 5 => self.out.push_str(&format!("(; {} (; in ;) ;)", word.replace('(', "<"))),
                _ => self.out.push_str(&format!("(;{};)", word.replace('(', "<"))),
            }
            self.em.comments.push((s, self.out.len()));
        }
    }
    fn gap(&mut self, want: Gap) {
        self.gap += 1;
        let mut r = Rng::new(self.p.trivia ^ self.gap.wrapping_mul(0xD6E8_FEB8_6659_FD93));
        let st = self.p.style;
        let nl = self.nl();
        let ind = if st.tabs { "\t".repeat(self.indent) } else { "  ".repeat(self.indent) };
        if self.p.scale.pad > 0 && want != Gap::None && self.gap % 64 == 2 + self.p.trivia % 24 {
            let n = self.p.scale.pad;
            match self.p.trivia / 24 % 3 {
                0 => self.out.push_str(&" ".repeat(n)),
                1 => self.out.push_str(&nl.repeat(n)),
                _ if st.comments => {
                    self.out.push(' ');
                    let at = self.out.len();
                    self.out.push_str(&format!("(;{};)", if st.unicode { "é" } else { "x" }.repeat(n)));
                    self.em.comments.push((at, self.out.len()));
                    self.out.push(' ');
                }
                _ => self.out.push_str(&"\t".repeat(n)),
            }
        }
        match st.layout {
            0 => match want {
                Gap::None => {}
                _ => self.out.push(' '),
            },
            1 => match want {
                Gap::None => {}
                Gap::Space => self.out.push(' '),
                Gap::Line => {
                    if st.comments && r.chance(80) {
                        self.out.push(' ');
                        self.comment(&mut r, true);
                    }
                    if !self.out.is_empty() {
                        self.out.push_str(nl);
                    }
                    if r.chance(60) {
                        self.out.push_str(nl);
                    }
                    if st.comments && r.chance(100) {
                        self.out.push_str(&ind);
                        let line = r.chance(600);
                        self.comment(&mut r, line);
                        self.out.push_str(nl);
                    }
                    self.out.push_str(&ind);
                }
            },
            _ => {
                let before = self.out.len();
                let n = match r.usize(1000) {
                    0..=699 => 1,
                    // now and then quite a lot of them
                    700..=705 => 5 + r.usize(10),
                    _ => r.usize(4),
                };
                // a comment may touch the tokens around it, but `(` before `;;` would
                // open a block comment
                for _ in 0..n {
                    match r.usize(if st.comments { 9 } else { 7 }) {
                        0..=2 => self.out.push(' '),
                        3 => self.out.push_str("   "),
                        4 => self.out.push_str(nl),
                        5 => {
                            self.out.push_str(nl);
                            self.out.push_str(&ind);
                        }
                        6 => self.out.push_str(if st.tabs { "\t" } else { " " }),
                        7 => {
                            if self.out.ends_with('(') || r.chance(700) {
                                self.out.push(' ');
                            }
                            self.comment(&mut r, true);
                            self.out.push_str(nl);
                        }
                        _ => {
                            if r.chance(700) {
                                self.out.push(' ');
                            }
                            self.comment(&mut r, false);
                            if r.chance(700) {
                                self.out.push(' ');
                            }
                        }
                    }
                }
                if self.out.len() == before && want != Gap::None {
                    self.out.push(' ');
                }
            }
        }
    }
    fn tok(&mut self, cls: Cls, text: &str, want: Gap) -> usize {
        self.gap(want);
        self.raw_tok(cls, text)
    }
    fn raw_tok(&mut self, cls: Cls, text: &str) -> usize {
        let node = *self.stack.last().unwrap();
        let s = self.out.len();
        self.out.push_str(text);
        self.em.toks.push(Tok { s, e: self.out.len(), cls, node });
        if matches!(cls, Cls::LParen | Cls::Kw) {
            self.em.nodes[node].fold = true;
        }
        self.em.toks.len() - 1
    }
    fn lp(&mut self, want: Gap) {
        self.tok(Cls::LParen, "(", want);
    }
    fn rp(&mut self) {
        self.tok(Cls::RParen, ")", Gap::None);
    }
    /// "(" keyword
    fn head(&mut self, kw: &str, want: Gap) -> usize {
        self.lp(want);
        self.tok(Cls::Kw, kw, Gap::None)
    }
    fn tail(&mut self) {
        if self.p.style.layout > 0 {
            self.gap(Gap::Line);
            if self.p.style.layout == 1 {
                let nl = self.nl();
                self.out.push_str(nl);
            }
        }
    }
    /// Most numbers are written plainly, some the other ways the text format has.
    fn spell_num(&self, n: usize, id: Id) -> String {
        let h = (id as u64 ^ (self.em.refs.len() as u64) << 32).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
        match h % 16 {
            0 => format!("0x{n:x}"),
            1 => format!("0x0_{n:X}"),
            2 => format!("0{n}"),
            3 if n > 9 => format!("{}_{}", n / 10, n % 10),
            _ => n.to_string(),
        }
    }
    fn spell(&self, r: &Ref) -> String {
        match self.ids.get(&r.id) {
            Some((i, name)) => match name {
                Some(n) if !r.num => n.clone(),
                _ => self.spell_num(*i as usize, r.id),
            },
            None => {
                if r.num {
                    "99".into()
                } else {
                    self.p.gone.get(&r.id).cloned().unwrap_or_else(|| "$gone".into())
                }
            }
        }
    }
    fn reference(&mut self, dk: DK, text: &str, node: usize, int_cls: Cls, site: Site, want: Gap) -> usize {
        let cls = if text.starts_with('$') { Cls::Ident } else { int_cls };
        let tok = self.tok(cls, text, want);
        let labels = self.labels.iter().rev().copied().collect();
        self.em.refs.push(RefSite { tok, dk, node, modno: self.modno, func: self.func, site, labels, defs: vec![] });
        self.em.refs.len() - 1
    }
    fn index(&mut self, dk: DK, r: &Ref, site: Site) -> usize {
        let text = self.spell(r);
        let n = self.open(NK::Index);
        let out = self.reference(dk, &text, n, Cls::UInt, site, Gap::Space);
        self.close();
        out
    }
    fn valty(&mut self, t: Ty) -> usize {
        let n = self.open(NK::ValType);
        self.tok(if matches!(t, b'r' | b'x') { Cls::RefTy } else { Cls::ValTy }, ty_name(t), Gap::Space);
        self.close();
        n
    }
    fn string(&mut self, s: &str) {
        self.open(NK::Name);
        self.tok(Cls::Str, s, Gap::Space);
        self.close();
    }
    fn name(&mut self, n: &Option<String>) -> Option<usize> {
        n.as_ref().map(|n| self.tok(Cls::Ident, n, Gap::Space))
    }
    #[allow(clippy::too_many_arguments)]
    fn group(&mut self, g: &Group, kind: NK, kw: &str, def: Option<DK>, next: &mut u32, want: Gap) {
        let n = self.open(kind);
        let kw = self.head(kw, want);
        let ident = self.name(&g.name);
        for (k, (_, t)) in g.tys.iter().enumerate() {
            let v = self.valty(*t);
            if let Some(dk) = def {
                let named = g.name.is_some();
                if !named || k == 0 {
                    self.em.defs.push(Def {
                        dk,
                        modno: self.modno,
                        func: self.func,
                        idx: *next,
                        name: g.name.clone(),
                        node: if named { n } else { v },
                        ident,
                        kw: if named { Some(kw) } else { None },
                        ty: Some(*t),
                        mutable: false,
                        import: false,
                        params: vec![],
                        results: vec![],
                        tyuse: None,
                        again: vec![],
                    });
                    *next += 1;
                }
            }
        }
        self.rp();
        self.close();
    }
    fn type_use(&mut self, sig: &Sig, defs: bool, next: &mut u32) -> Option<usize> {
        if sig.tyuse.is_none() && sig.params.is_empty() && sig.results.is_empty() {
            return None;
        }
        self.open(NK::TypeUse);
        let mut r = None;
        if let Some(t) = &sig.tyuse {
            self.head("type", Gap::Space);
            r = Some(self.index(DK::Type, t, Site::TypeUse));
            self.rp();
        }
        for g in &sig.params {
            self.group(g, NK::Param, "param", if defs { Some(DK::Param) } else { None }, next, Gap::Space);
        }
        for g in &sig.results {
            self.group(g, NK::Result, "result", None, next, Gap::Space);
        }
        self.close();
        r
    }

    fn module(&mut self, m: usize) {
        let module = &self.p.modules[m];
        self.ids.clear();
        let mut counts: std::collections::HashMap<DK, u32> = Default::default();
        for f in &module.fields {
            if let Some(dk) = f.dk() {
                // numbers are written the way the repository counts, or the way the language does
                let c = counts.entry(if self.p.shared { DK::Func } else { dk }).or_default();
                self.ids.insert(f.id, (*c, f.name.clone()));
                *c += 1;
            }
            if let FieldK::Func { sig, locals, .. } = &f.k {
                let mut i = 0;
                for g in sig.params.iter().chain(locals) {
                    for t in &g.tys {
                        self.ids.insert(t.0, (i, g.name.clone()));
                        i += 1;
                    }
                }
            }
        }
        let n = self.open(NK::Module);
        self.em.mods.push(n);
        self.head("module", if m == 0 { Gap::None } else { Gap::Line });
        self.name(&module.name);
        self.indent += 1;
        let mut counts: std::collections::HashMap<DK, u32> = Default::default();
        for f in &module.fields {
            self.field(f, &mut counts);
        }
        self.indent -= 1;
        if self.p.style.layout == 1 {
            self.gap(Gap::Line);
        }
        self.rp();
        self.close();
    }
    #[allow(clippy::too_many_arguments)]
    fn def(&mut self, dk: DK, counts: &mut std::collections::HashMap<DK, u32>, f: &Field, node: usize, ident: Option<usize>, kw: usize) -> usize {
        let c = counts.entry(dk).or_default();
        self.em.defs.push(Def {
            dk,
            modno: self.modno,
            func: None,
            idx: *c,
            name: f.name.clone(),
            node,
            ident,
            kw: Some(kw),
            ty: None,
            mutable: false,
            import: false,
            params: vec![],
            results: vec![],
            tyuse: None,
            again: vec![],
        });
        *c += 1;
        self.em.defs.len() - 1
    }
    fn global_type(&mut self, mutable: bool, ty: Ty) {
        self.open(NK::GlobalType);
        if mutable {
            self.head("mut", Gap::Space);
            self.valty(ty);
            self.rp();
        } else {
            self.valty(ty);
        }
        self.close();
    }
    fn limits(&mut self, nums: &[&str], share: bool) {
        self.open(NK::Limits);
        for n in nums {
            let n = match n.parse::<usize>() {
                Ok(n) => self.spell_num(n, self.em.toks.len() as Id),
                _ => n.to_string(),
            };
            self.tok(Cls::UInt, &n, Gap::Space);
        }
        if nums.len() > 1 && share {
            self.tok(Cls::Heap, if self.em.toks.len() % 3 == 0 { "unshared" } else { "shared" }, Gap::Space);
        }
        self.close();
    }
    fn field(&mut self, f: &Field, counts: &mut std::collections::HashMap<DK, u32>) {
        let mut scratch = 0;
        match &f.k {
            FieldK::Type { params, results } => {
                let n = self.open(NK::Type);
                let kw = self.head("type", Gap::Line);
                let id = self.name(&f.name);
                let d = self.def(DK::Type, counts, f, n, id, kw);
                self.em.defs[d].params = flat_params(params);
                self.em.defs[d].results = flat_tys(results);
                self.open(NK::FuncType);
                self.head("func", Gap::Space);
                for g in params {
                    self.group(g, NK::Param, "param", None, &mut scratch, Gap::Space);
                }
                for g in results {
                    self.group(g, NK::Result, "result", None, &mut scratch, Gap::Space);
                }
                self.rp();
                self.close();
                self.rp();
                self.close();
            }
            FieldK::ImportFunc(_) | FieldK::ImportGlobal { .. } | FieldK::ImportMemory | FieldK::ImportTable { .. } if f.inline => {
                let dk = f.dk().unwrap();
                let n = self.open(match dk {
                    DK::Func => NK::Func,
                    DK::Global => NK::Global,
                    DK::Memory => NK::Memory,
                    _ => NK::Table,
                });
                let kw = self.head(dk.word(), Gap::Line);
                let id = self.name(&f.name);
                let d = self.def(dk, counts, f, n, id, kw);
                self.exports(f);
                self.open(NK::InlineImport);
                self.head("import", Gap::Space);
                self.string(["\"env\"", "\"env\"", "\"\"", "\"日本\\\"x\"", "\"a b;;(;\"", "\"\\u{e9}\\00\""][f.id as usize % 6]);
                self.string(&format!("\"i{}\"", f.id));
                self.rp();
                self.close();
                self.func = (dk == DK::Func).then_some(n);
                self.imported(&f.k, d, dk == DK::Func);
                self.func = None;
                self.rp();
                self.close();
            }
            FieldK::ImportFunc(_) | FieldK::ImportGlobal { .. } | FieldK::ImportMemory | FieldK::ImportTable { .. } => {
                self.open(NK::Import);
                self.head("import", Gap::Line);
                self.string(["\"env\"", "\"env\"", "\"\"", "\"日本\\\"x\"", "\"a b;;(;\"", "\"\\u{e9}\\00\""][f.id as usize % 6]);
                self.string(&format!("\"i{}\"", f.id));
                let n = self.open(NK::ImportDesc);
                let dk = f.dk().unwrap();
                let kw = self.head(dk.word(), Gap::Space);
                let id = self.name(&f.name);
                let d = self.def(dk, counts, f, n, id, kw);
                self.em.defs[d].import = true;
                self.imported(&f.k, d, false);
                self.rp();
                self.close();
                self.rp();
                self.close();
            }
            FieldK::Func { sig, locals, body, doc } => {
                self.gap(Gap::Line);
                if !doc.is_empty() {
                    let nl = self.nl();
                    let mut r = Rng::new(self.p.trivia ^ self.gap.wrapping_mul(0x9FB2_1C65_1E98_DF25));
                    let messy = self.p.style.layout != 1;
                    if !self.out.ends_with('\n') {
                        self.out.push_str(nl);
                    }
                    for (i, l) in doc.iter().enumerate() {
                        let s = self.out.len();
                        let odd = messy && r.chance(400);
                        let lead = if odd { *r.pick(&["", "\t", "  ", ";", " \t"]) } else { " " };
                        self.out.push_str(";;;");
                        self.out.push_str(lead);
                        self.out.push_str(l);
                        self.em.comments.push((s, self.out.len()));
                        self.out.push_str(nl);
                        if messy && r.chance(200) {
                            // blank lines, indentation, a remark between the documentation and the function
                            self.out.push_str(*r.pick(&[nl, "  ", "\t"]));
                            if r.chance(400) {
                                self.out.push_str(nl);
                            }
                            if self.p.style.comments && i + 1 == doc.len() && r.chance(300) {
                                let s = self.out.len();
                                self.out.push_str(";; remark");
                                self.em.comments.push((s, self.out.len()));
                                self.out.push_str(nl);
                            }
                        }
                    }
                }
                let n = self.open(NK::Func);
                self.raw_tok(Cls::LParen, "(");
                let kw = self.tok(Cls::Kw, "func", Gap::None);
                let id = self.name(&f.name);
                let d = self.def(DK::Func, counts, f, n, id, kw);
                self.em.defs[d].params = flat_params(&sig.params);
                self.em.defs[d].results = flat_tys(&sig.results);
                self.exports(f);
                self.func = Some(n);
                let mut next = 0;
                let r = self.type_use(sig, true, &mut next);
                self.em.defs[d].tyuse = r;
                self.indent += 1;
                for g in locals {
                    self.group(g, NK::Local, "local", Some(DK::Local), &mut next, Gap::Line);
                }
                for i in body {
                    self.instr(i, Gap::Line);
                }
                self.indent -= 1;
                self.func = None;
                self.rp();
                self.close();
            }
            FieldK::Global { mutable, ty, init } => {
                let n = self.open(NK::Global);
                let kw = self.head("global", Gap::Line);
                let id = self.name(&f.name);
                let d = self.def(DK::Global, counts, f, n, id, kw);
                self.em.defs[d].ty = Some(*ty);
                self.em.defs[d].mutable = *mutable;
                self.exports(f);
                self.global_type(*mutable, *ty);
                for i in init {
                    self.instr(i, Gap::Space);
                }
                self.rp();
                self.close();
            }
            FieldK::Memory { max, data } => {
                let n = self.open(NK::Memory);
                let kw = self.head("memory", Gap::Line);
                let id = self.name(&f.name);
                self.def(DK::Memory, counts, f, n, id, kw);
                self.exports(f);
                if let Some(strs) = data {
                    self.open(NK::DataIn);
                    self.head("data", Gap::Space);
                    for s in strs {
                        self.tok(Cls::Str, s, Gap::Space);
                    }
                    self.rp();
                    self.close();
                } else {
                    self.open(NK::MemoryType);
                    self.limits(if *max { &["1", "2"] } else { &["1"] }, f.id % 3 == 0);
                    self.close();
                }
                self.rp();
                self.close();
            }
            FieldK::Table { ty, elem } => {
                let n = self.open(NK::Table);
                let kw = self.head("table", Gap::Line);
                let id = self.name(&f.name);
                let d = self.def(DK::Table, counts, f, n, id, kw);
                self.em.defs[d].ty = Some(*ty);
                self.exports(f);
                if let Some(l) = elem {
                    self.tok(Cls::RefTy, ty_name(*ty), Gap::Space);
                    self.open(NK::ElemIn);
                    self.head("elem", Gap::Space);
                    self.elem_items(l);
                    self.rp();
                    self.close();
                } else {
                    self.open(NK::TableType);
                    self.limits(&["3", "9"], false);
                    self.tok(Cls::RefTy, ty_name(*ty), Gap::Space);
                    self.close();
                }
                self.rp();
                self.close();
            }
            FieldK::Export(dk, r, name) => {
                self.open(NK::Export);
                self.head("export", Gap::Line);
                self.string(name);
                self.open(NK::ExportDesc(*dk));
                self.head(dk.word(), Gap::Space);
                self.index(*dk, r, Site::Export);
                self.rp();
                self.close();
                self.rp();
                self.close();
            }
            FieldK::Start(r) => {
                self.open(NK::Start);
                self.head("start", Gap::Line);
                self.index(DK::Func, r, Site::Start);
                self.rp();
                self.close();
            }
            FieldK::Data { mem, at, strs } => {
                self.open(NK::Data);
                self.head("data", Gap::Line);
                self.name(&f.name);
                if let Some(m) = mem {
                    self.open(NK::MemUse);
                    self.head("memory", Gap::Space);
                    self.index(DK::Memory, m, Site::MemUse);
                    self.rp();
                    self.close();
                }
                self.offset(at);
                for s in strs {
                    self.tok(Cls::Str, s, Gap::Space);
                }
                self.rp();
                self.close();
            }
            FieldK::Elem { table, at, list } => {
                self.open(NK::Elem);
                self.head("elem", Gap::Line);
                self.name(&f.name);
                if *at == At::Declare {
                    self.tok(Cls::Kw, "declare", Gap::Space);
                }
                if let Some(t) = table {
                    self.open(NK::TableUse);
                    self.head("table", Gap::Space);
                    self.index(DK::Table, t, Site::TableUse);
                    self.rp();
                    self.close();
                }
                self.offset(at);
                if !matches!(list, ElemL::None) {
                    self.open(NK::ElemList);
                    match list {
                        ElemL::Funcs { kw: true, .. } => {
                            self.tok(Cls::Kw, "func", Gap::Space);
                        }
                        ElemL::Exprs { ty, .. } => {
                            self.tok(Cls::RefTy, ty_name(*ty), Gap::Space);
                        }
                        _ => {}
                    }
                    self.elem_items(list);
                    self.close();
                }
                self.rp();
                self.close();
            }
        }
    }
    fn exports(&mut self, f: &Field) {
        for e in &f.exports {
            self.open(NK::InlineExport);
            self.head("export", Gap::Space);
            self.string(e);
            self.rp();
            self.close();
        }
    }
    /// What is imported as definition `d`.
    fn imported(&mut self, k: &FieldK, d: usize, defs: bool) {
        match k {
            FieldK::ImportFunc(sig) => {
                self.em.defs[d].params = flat_params(&sig.params);
                self.em.defs[d].results = flat_tys(&sig.results);
                let mut next = 0;
                let r = self.type_use(sig, defs, &mut next);
                self.em.defs[d].tyuse = r;
            }
            FieldK::ImportGlobal { mutable, ty } => {
                self.em.defs[d].ty = Some(*ty);
                self.em.defs[d].mutable = *mutable;
                self.global_type(*mutable, *ty);
            }
            FieldK::ImportMemory => {
                self.open(NK::MemoryType);
                self.limits(&["1", "4"][..1 + d % 2], d % 4 == 1);
                self.close();
            }
            FieldK::ImportTable { ty } => {
                self.em.defs[d].ty = Some(*ty);
                self.open(NK::TableType);
                self.limits(&["2", "7"][..1 + d % 2], false);
                self.tok(Cls::RefTy, ty_name(*ty), Gap::Space);
                self.close();
            }
            _ => {}
        }
    }
    fn elem_items(&mut self, l: &ElemL) {
        match l {
            ElemL::None => {}
            ElemL::Funcs { funcs, .. } => {
                for r in funcs {
                    self.index(DK::Func, r, Site::ElemFn);
                }
            }
            ElemL::Exprs { items, .. } => {
                for (item, i) in items {
                    self.open(NK::ElemExpr);
                    if *item {
                        self.head("item", Gap::Space);
                        self.instr(i, Gap::Space);
                        self.rp();
                    } else {
                        self.instr(i, Gap::Space);
                    }
                    self.close();
                }
            }
        }
    }
    fn offset(&mut self, at: &At) {
        let At::Active { at, kw, flat } = at else { return };
        let (kw, flat) = (*kw, *flat);
        self.open(NK::Offset);
        if kw {
            self.head("offset", Gap::Space);
        }
        let i = Instr::Plain { name: "i32.const".into(), imms: vec![Imm::Word(at.to_string(), Cls::Int)], args: vec![], folded: !flat };
        self.instr(&i, Gap::Space);
        if kw {
            self.rp();
        }
        self.close();
    }
    fn instr(&mut self, i: &Instr, want: Gap) -> usize {
        let parent_node = *self.stack.last().unwrap();
        let at = self.em.ins.len();
        match i {
            Instr::Plain { name, imms, args, folded } => {
                let n = self.open(NK::Plain);
                if *folded {
                    self.lp(want);
                }
                let name_tok = self.tok(Cls::Instr, name, if *folded { Gap::None } else { want });
                self.em.ins.push(Ins {
                    node: n,
                    name: Some(name.clone()),
                    name_tok,
                    folded: *folded,
                    opds: vec![],
                    parent_node,
                    modno: self.modno,
                    func: self.func,
                });
                let mut opds = vec![];
                for im in imms {
                    let o = self.open(NK::Operand);
                    match im {
                        Imm::Ref(DK::Label, r) => {
                            let text = self.spell_label(r);
                            let x = self.reference(DK::Label, &text, o, Cls::Int, Site::Instr(at), Gap::Space);
                            opds.push((o, Opd::Ref(x)));
                        }
                        Imm::Ref(dk, r) => {
                            let text = self.spell(r);
                            let x = self.reference(*dk, &text, o, Cls::Int, Site::Instr(at), Gap::Space);
                            opds.push((o, Opd::Ref(x)));
                        }
                        Imm::Word(w, c) => {
                            let t = self.tok(*c, w, Gap::Space);
                            opds.push((o, Opd::Tok(t)));
                        }
                        Imm::TypeUse(r) => {
                            let sig = Sig { tyuse: Some(r.clone()), params: vec![], results: vec![] };
                            let mut z = 0;
                            let t = self.type_use(&sig, false, &mut z);
                            opds.push((o, Opd::TypeUse(t)));
                        }
                    }
                    self.close();
                }
                self.indent += 1;
                for a in args {
                    let o = self.open(NK::Operand);
                    let x = self.instr(a, if self.p.trivia % 3 == 0 { Gap::Line } else { Gap::Space });
                    opds.push((o, Opd::Ins(x)));
                    self.close();
                }
                self.indent -= 1;
                self.em.ins[at].opds = opds;
                if *folded {
                    self.rp();
                }
                self.close();
            }
            Instr::Block { kind, id, label, sig, folded, cond, body, els, again } => {
                let n = self.open(NK::Block(*kind as u8));
                let word = match kind {
                    BK::Block => "block",
                    BK::Loop => "loop",
                    BK::If => "if",
                };
                if *folded {
                    self.lp(want);
                }
                let kw = self.tok(Cls::Kw, word, if *folded { Gap::None } else { want });
                self.em.ins.push(Ins { node: n, name: None, name_tok: kw, folded: *folded, opds: vec![], parent_node, modno: self.modno, func: self.func });
                let ident = self.name(label);
                self.em.defs.push(Def {
                    dk: DK::Label,
                    modno: self.modno,
                    func: self.func,
                    idx: 0,
                    name: label.clone(),
                    node: n,
                    ident,
                    kw: Some(kw),
                    ty: None,
                    mutable: false,
                    import: false,
                    params: vec![],
                    results: vec![],
                    tyuse: None,
                    again: vec![],
                });
                let d = self.em.defs.len() - 1;
                self.em.defs[d].params = flat_params(&sig.params);
                self.em.defs[d].results = flat_tys(&sig.results);
                let mut z = 0;
                if sig.tyuse.is_none() && sig.params.is_empty() && sig.results.len() == 1 {
                    self.open(NK::BlockType);
                    self.group(&sig.results[0], NK::Result, "result", None, &mut z, Gap::Space);
                    self.close();
                } else if sig.tyuse.is_some() || !sig.params.is_empty() || !sig.results.is_empty() {
                    self.open(NK::BlockType);
                    let r = self.type_use(sig, false, &mut z);
                    self.em.defs[d].tyuse = r;
                    self.close();
                }
                for c in cond {
                    self.instr(c, Gap::Space);
                }
                self.labels.push(d);
                self.pending_labels.push((*id, label.clone()));
                self.indent += 1;
                if *kind == BK::If {
                    let t = self.open(NK::Then);
                    if *folded {
                        self.head("then", Gap::Line);
                    } else {
                        self.em.nodes[t].lead = true;
                    }
                    self.indent += 1;
                    for b in body {
                        self.instr(b, Gap::Line);
                    }
                    self.indent -= 1;
                    if *folded {
                        self.rp();
                    }
                    self.close();
                    if let Some(e) = els {
                        self.open(NK::Else);
                        if *folded {
                            self.head("else", Gap::Line);
                        } else {
                            self.tok(Cls::Kw, "else", Gap::Line);
                            self.again(d, *again);
                        }
                        self.indent += 1;
                        for b in e {
                            self.instr(b, Gap::Line);
                        }
                        self.indent -= 1;
                        if *folded {
                            self.rp();
                        }
                        self.close();
                    }
                } else {
                    for b in body {
                        self.instr(b, Gap::Line);
                    }
                }
                self.indent -= 1;
                self.pending_labels.pop();
                self.labels.pop();
                if *folded {
                    self.rp();
                } else {
                    self.tok(Cls::Kw, "end", Gap::Line);
                    self.again(d, *again);
                }
                self.close();
            }
        }
        at
    }
    fn again(&mut self, d: usize, on: bool) {
        if let (true, Some(n)) = (on, self.em.defs[d].name.clone()) {
            let t = self.tok(Cls::Ident, &n, Gap::Space);
            self.em.defs[d].again.push(t);
        }
    }
    fn spell_label(&self, r: &Ref) -> String {
        match self.pending_labels.iter().rev().enumerate().find(|(_, l)| l.0 == r.id) {
            Some((depth, (_, name))) => match name {
                // a label of the same name further in hides this one
                Some(n) if !r.num && !self.pending_labels.iter().rev().take(depth).any(|l| l.1.as_ref() == Some(n)) => n.clone(),
                _ => self.spell_num(depth, r.id),
            },
            None if r.id == crate::gen::BODY => self.spell_num(self.pending_labels.len(), r.id),
            None => "7".into(),
        }
    }
}

/// What a number written as an index means.
pub fn number(text: &str) -> Option<u32> {
    let t = text.replace('_', "");
    match t.strip_prefix("0x") {
        Some(h) => u32::from_str_radix(h, 16).ok(),
        None => t.parse().ok(),
    }
}
