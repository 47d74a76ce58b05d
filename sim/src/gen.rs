//! Random WebAssembly text programs, edits on them, and their emission with full bookkeeping of
//! tokens, syntax nodes, definitions and references. This is the client's own knowledge of what it
//! wrote: every expected answer is computed from it, never from the code under test.
use simkern::Rng;
use std::collections::HashMap;
use std::sync::OnceLock;

pub type Id = u32;
/// The label of the body of a function, which has no name.
pub const BODY: Id = Id::MAX;
/// i I f F v r x, or '?' for "any type".
pub type Ty = u8;
pub fn ty_name(t: Ty) -> &'static str {
    match t {
        b'i' => "i32",
        b'I' => "i64",
        b'f' => "f32",
        b'F' => "f64",
        b'v' => "v128",
        b'r' => "funcref",
        b'x' => "externref",
        _ => "?",
    }
}

pub struct Meta {
    pub name: &'static str,
    pub imms: usize,
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
    pub opcode: &'static str,
}
pub fn metas() -> &'static HashMap<&'static str, Meta> {
    static M: OnceLock<HashMap<&'static str, Meta>> = OnceLock::new();
    M.get_or_init(|| {
        include_str!("instrs.txt")
            .lines()
            .map(|l| {
                let mut p = l.splitn(5, ' ');
                let name = p.next().unwrap();
                let imms = p.next().unwrap().parse().unwrap();
                let f = |s: &str| if s == "-" { vec![] } else { s.bytes().collect::<Vec<_>>() };
                let params = f(p.next().unwrap());
                let results = f(p.next().unwrap());
                let opcode = p.next().unwrap();
                (name, Meta { name, imms, params, results, opcode })
            })
            .collect()
    })
}
/// Operators usable as plain typed expressions: fixed types, immediates we know how to write.
fn ops_by_result() -> &'static HashMap<Ty, Vec<&'static str>> {
    static M: OnceLock<HashMap<Ty, Vec<&'static str>>> = OnceLock::new();
    M.get_or_init(|| {
        let mut m: HashMap<Ty, Vec<&'static str>> = HashMap::new();
        let mut names: Vec<_> = metas().keys().copied().collect();
        names.sort();
        for n in names {
            let meta = &metas()[n];
            if meta.results.len() != 1 || meta.params.contains(&b'?') || meta.results[0] == b'?' {
                continue;
            }
            if n.ends_with(".const") || imm_plan(n).is_none() || n.starts_with("table.") || n == "ref.func" {
                continue;
            }
            m.entry(meta.results[0]).or_default().push(n);
        }
        m
    })
}
fn void_ops() -> &'static Vec<&'static str> {
    static M: OnceLock<Vec<&'static str>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v: Vec<_> = metas()
            .values()
            .filter(|m| {
                m.results.is_empty()
                    && !m.params.contains(&b'?')
                    && !m.params.is_empty()
                    && imm_plan(m.name).is_some()
                    && !m.name.starts_with("table.")
            })
            .map(|m| m.name)
            .collect();
        v.sort();
        v
    })
}
#[derive(Clone, Copy, PartialEq)]
enum ImmK {
    MemArg,
    Lane,
}
fn imm_plan(n: &str) -> Option<Vec<ImmK>> {
    let meta = &metas()[n];
    Some(match meta.imms {
        0 => vec![],
        _ if n == "i8x16.shuffle" => vec![ImmK::Lane; 16],
        _ if n.contains("_lane") && (n.contains("load") || n.contains("store")) => {
            vec![ImmK::MemArg, ImmK::Lane]
        }
        1 if n.contains(".load") || n.contains(".store") => vec![ImmK::MemArg],
        1 if n.contains("_lane") => vec![ImmK::Lane],
        _ => return None,
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DK {
    Func,
    Param,
    Local,
    Type,
    Global,
    Memory,
    Table,
    Label,
}
impl DK {
    /// Namespace of a definition as a reference sees it.
    pub fn space(self) -> DK {
        if self == DK::Param {
            DK::Local
        } else {
            self
        }
    }
    pub fn word(self) -> &'static str {
        match self {
            DK::Func => "func",
            DK::Param => "param",
            DK::Local => "local",
            DK::Type => "type",
            DK::Global => "global",
            DK::Memory => "memory",
            DK::Table => "table",
            DK::Label => "label",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub id: Id,
    pub num: bool,
}
#[derive(Clone, Debug)]
pub struct Group {
    pub name: Option<String>,
    pub tys: Vec<(Id, Ty)>,
}
#[derive(Clone, Debug, Default)]
pub struct Sig {
    pub tyuse: Option<Ref>,
    pub params: Vec<Group>,
    pub results: Vec<Group>,
}
#[derive(Clone, Debug)]
pub enum Imm {
    Ref(DK, Ref),
    Word(String, Cls),
    TypeUse(Ref),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BK {
    Block,
    Loop,
    If,
}
#[derive(Clone, Debug)]
pub enum Instr {
    Plain { name: String, imms: Vec<Imm>, args: Vec<Instr>, folded: bool },
    /// `again`: the label is repeated after `else` and `end`
    Block { kind: BK, id: Id, label: Option<String>, sig: Sig, folded: bool, cond: Vec<Instr>, body: Vec<Instr>, els: Option<Vec<Instr>>, again: bool },
}
#[derive(Clone, Debug)]
pub enum ElemL {
    None,
    Funcs { kw: bool, funcs: Vec<Ref> },
    /// `true`: written as an item
    Exprs { ty: Ty, items: Vec<(bool, Instr)> },
}
#[derive(Clone, Debug, PartialEq)]
pub enum At {
    Passive,
    Declare,
    Active { at: i32, kw: bool, flat: bool },
}
#[derive(Clone, Debug)]
pub enum FieldK {
    Type { params: Vec<Group>, results: Vec<Group> },
    ImportFunc(Sig),
    ImportGlobal { mutable: bool, ty: Ty },
    ImportMemory,
    ImportTable { ty: Ty },
    Func { sig: Sig, locals: Vec<Group>, body: Vec<Instr>, doc: Vec<String> },
    Global { mutable: bool, ty: Ty, init: Vec<Instr> },
    Memory { max: bool, data: Option<Vec<String>> },
    Table { ty: Ty, elem: Option<ElemL> },
    Export(DK, Ref, String),
    Start(Ref),
    Data { mem: Option<Ref>, at: At, strs: Vec<String> },
    Elem { table: Option<Ref>, at: At, list: ElemL },
}
#[derive(Clone, Debug)]
pub struct Field {
    pub id: Id,
    pub name: Option<String>,
    pub exports: Vec<String>,
    /// an import written as a definition
    pub inline: bool,
    pub k: FieldK,
}
impl Field {
    pub fn dk(&self) -> Option<DK> {
        Some(match self.k {
            FieldK::Type { .. } => DK::Type,
            FieldK::ImportFunc(_) | FieldK::Func { .. } => DK::Func,
            FieldK::ImportGlobal { .. } | FieldK::Global { .. } => DK::Global,
            FieldK::ImportMemory | FieldK::Memory { .. } => DK::Memory,
            FieldK::ImportTable { .. } | FieldK::Table { .. } => DK::Table,
            _ => return None,
        })
    }
    fn is_import(&self) -> bool {
        matches!(self.k, FieldK::ImportFunc(_) | FieldK::ImportGlobal { .. } | FieldK::ImportMemory | FieldK::ImportTable { .. })
    }
}
#[derive(Clone, Debug)]
pub struct Module {
    pub name: Option<String>,
    pub fields: Vec<Field>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Style {
    /// 0 compact, 1 one construct per line, 2 messy with comments
    pub layout: u8,
    pub crlf: bool,
    pub tabs: bool,
    pub comments: bool,
    pub unicode: bool,
    /// some line comments ask the formatter to leave what follows alone
    pub ignore: bool,
}
/// What is much more than usual in this program; all zero as a rule.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Scale {
    /// parameters, locals and branch targets
    pub wide: usize,
    /// nested blocks and expressions
    pub deep: usize,
    pub fields: usize,
    pub stmts: usize,
    /// length of one run of blanks, line breaks or comment
    pub pad: usize,
}
#[derive(Clone, Debug)]
pub struct Program {
    pub scale: Scale,
    pub modules: Vec<Module>,
    pub next: Id,
    pub trivia: u64,
    pub style: Style,
    /// names of referenced things that no longer exist
    pub gone: HashMap<Id, String>,
    /// numeric references are spelled in one index space per module
    pub shared: bool,
}

const NAMES: &[&str] = &["a", "b", "x", "fn", "val", "tmp", "main", "ptr", "len", "acc", "g.0", "long_name!", "k-1", "<t>", "a1"];
const UNI: &[&str] = &["é", "日本", "𝒳", "🦀", "ß∂", "naïve"];

fn fresh(p: &mut Program) -> Id {
    p.next += 1;
    p.next
}
fn opt_name(r: &mut Rng, used: &[String], pm: u32) -> Option<String> {
    if !r.chance(pm) {
        return None;
    }
    for _ in 0..8 {
        let mut n = format!("${}", r.pick(NAMES));
        if !used.is_empty() && r.chance(60) {
            // almost a name that is there already: another case, or only the beginning in common
            n = r.pick(used).clone();
            let at: Vec<usize> = n.bytes().enumerate().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
            if !at.is_empty() && r.chance(500) {
                let i = *r.pick(&at);
                let c = n.as_bytes()[i];
                let c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                n.replace_range(i..i + 1, &(c as char).to_string());
            } else {
                n.push(*r.pick(b"_.1") as char);
            }
        } else if r.chance(10) {
            let len = *r.pick(&[20, 40, 70, 140, 270]);
            n.push_str(&"long".repeat(len / 4 + r.usize(3)));
        } else if r.chance(80) {
            // any of the characters an identifier can be made of
            for _ in 0..1 + r.usize(4) {
                n.push(*r.pick(b"!#$%&'*+-./:<=>?@\\^_`|~aZ09") as char);
            }
        }
        if r.chance(350) {
            n.push_str(&r.below(10).to_string());
        }
        if !used.contains(&n) {
            return Some(n);
        }
    }
    None
}
/// Labels may be used again, next to each other and inside of each other (the innermost one counts).
fn opt_label(r: &mut Rng, used: &[String], pm: u32) -> Option<String> {
    if !used.is_empty() && r.chance(100) {
        return Some(r.pick(used).clone());
    }
    opt_name(r, used, pm)
}
pub fn rand_num_ty(r: &mut Rng) -> Ty {
    *r.pick(b"iiiiIIfFv")
}
fn rand_ty(r: &mut Rng) -> Ty {
    *r.pick(b"iiiiiIIIfFvrx")
}

impl Program {
    pub fn names_of(&self, m: usize, k: DK) -> Vec<String> {
        self.modules[m].fields.iter().filter(|f| f.dk() == Some(k)).filter_map(|f| f.name.clone()).collect()
    }
    pub fn ids_of(&self, m: usize, k: DK) -> Vec<Id> {
        self.modules[m].fields.iter().filter(|f| f.dk() == Some(k)).map(|f| f.id).collect()
    }
    pub fn field(&self, m: usize, id: Id) -> Option<&Field> {
        self.modules[m].fields.iter().find(|f| f.id == id)
    }
    /// The signature of a function as the language defines it.
    pub fn sig_of(&self, m: usize, id: Id) -> Option<(Vec<(Ty, Option<String>)>, Vec<Ty>)> {
        let f = self.field(m, id)?;
        let sig = match &f.k {
            FieldK::Func { sig, .. } | FieldK::ImportFunc(sig) => sig,
            _ => return None,
        };
        if flat_params(&sig.params).is_empty() && flat_tys(&sig.results).is_empty() {
            if let Some(t) = &sig.tyuse {
                if let Some(Field { k: FieldK::Type { params, results }, .. }) = self.field(m, t.id) {
                    return Some((flat_params(params), flat_tys(results)));
                }
                return None;
            }
        }
        Some((flat_params(&sig.params), flat_tys(&sig.results)))
    }
}
pub fn flat_params(g: &[Group]) -> Vec<(Ty, Option<String>)> {
    g.iter().flat_map(|g| g.tys.iter().map(move |t| (t.1, g.name.clone()))).collect()
}
pub fn flat_tys(g: &[Group]) -> Vec<Ty> {
    g.iter().flat_map(|g| g.tys.iter().map(|t| t.1)).collect()
}
pub fn render_sig(params: &[(Ty, Option<String>)], results: &[Ty]) -> String {
    let mut v = vec![];
    for (t, n) in params {
        v.push(match n {
            Some(n) => format!("(param {n} {})", ty_name(*t)),
            None => format!("(param {})", ty_name(*t)),
        });
    }
    for t in results {
        v.push(format!("(result {})", ty_name(*t)));
    }
    v.join(" ")
}

fn groups(p: &mut Program, r: &mut Rng, max: usize, named: bool, used: &mut Vec<String>) -> Vec<Group> {
    let wide = if max > 1 && p.scale.wide > 0 && r.chance(200) { p.scale.wide } else { 0 };
    let n = r.usize(max + 1) + wide;
    let mut out = vec![];
    for _ in 0..n {
        let name = if named { opt_name(r, used, 600) } else { None };
        if let Some(n) = &name {
            used.push(n.clone());
            out.push(Group { name, tys: vec![(fresh(p), rand_ty(r))] });
        } else {
            let k = if r.chance(500) { 1 } else { 1 + r.usize(3) };
            let k = if r.chance(40) { 0 } else { k };
            out.push(Group { name: None, tys: (0..k).map(|_| (fresh(p), rand_ty(r))).collect() });
        }
    }
    out
}
pub fn rand_style(r: &mut Rng) -> Style {
    Style {
        layout: r.usize(3) as u8,
        crlf: r.chance(150),
        tabs: r.chance(200),
        comments: r.chance(600),
        unicode: r.chance(400),
        ignore: r.chance(150),
    }
}

pub fn gen_program(r: &mut Rng, size: usize, scale: Scale) -> Program {
    let mut p = Program { scale, modules: vec![], next: 0, trivia: r.next(), style: rand_style(r), gone: HashMap::new(), shared: r.chance(900) };
    let nm = if r.chance(120) { 2 } else { 1 };
    for m in 0..nm {
        p.modules.push(Module { name: if r.chance(200) { Some("$mod".into()) } else { opt_name(r, &[], 100) }, fields: vec![] });
        let n = 1 + r.usize(size.max(1)) + scale.fields;
        for _ in 0..n {
            add_field(&mut p, r, m);
        }
        fill_bodies(&mut p, r, m);
    }
    p
}

fn pick_ref(p: &Program, r: &mut Rng, m: usize, k: DK) -> Option<Ref> {
    let ids = p.ids_of(m, k);
    if ids.is_empty() {
        return None;
    }
    let id = *r.pick(&ids);
    let named = p.field(m, id)?.name.is_some();
    Some(Ref { id, num: !named || r.chance(250) })
}
fn rand_sig(p: &mut Program, r: &mut Rng, m: usize, named: bool) -> Sig {
    let tyuse = if r.chance(250) { pick_ref(p, r, m, DK::Type) } else { None };
    if let Some(t) = &tyuse {
        if r.chance(600) {
            return Sig { tyuse, params: vec![], results: vec![] };
        }
        // repeat the type's own signature
        let (ps, rs) = match &p.field(m, t.id).unwrap().k {
            FieldK::Type { params, results } => (flat_params(params), flat_tys(results)),
            _ => unreachable!(),
        };
        let params = ps.iter().map(|x| Group { name: None, tys: vec![(fresh(p), x.0)] }).collect();
        let results = rs.iter().map(|x| Group { name: None, tys: vec![(fresh(p), *x)] }).collect();
        return Sig { tyuse, params, results };
    }
    let mut used = vec![];
    let params = groups(p, r, 3, named, &mut used);
    let results = groups(p, r, 1, false, &mut used);
    Sig { tyuse: None, params, results }
}

fn strings(r: &mut Rng, least: usize) -> Vec<String> {
    let one = |r: &mut Rng| match r.usize(10) {
        0..=2 => format!("\"{}\"", r.pick(UNI)),
        3 | 4 => {
            // escapes, and characters that would mean something outside of a string
            let mut s = String::from("\"");
            for _ in 0..r.usize(4) {
                s.push_str(*r.pick(&["\\t", "\\n", "\\r", "\\\"", "\\'", "\\\\", "\\u{1F600}", "\\u{e9}", "\\7f", "\\FF", ";;", "(;", ";)", "(", ")", " ", "$a", "'"]));
            }
            s + "\""
        }
        _ => format!("\"s{}\\n\\00\"", r.below(9)),
    };
    (0..least + r.usize(3)).map(|_| one(r)).collect()
}
fn active(r: &mut Rng) -> At {
    let kw = r.chance(500);
    At::Active { at: r.below(100) as i32, kw, flat: kw && r.chance(300) }
}
/// `word`: a keyword or a type has to come first.
fn elem_list(p: &Program, r: &mut Rng, m: usize, word: bool) -> ElemL {
    if r.chance(300) {
        let items = (0..r.usize(4))
            .map(|_| {
                let mut e = match pick_ref(p, r, m, DK::Func) {
                    Some(f) if r.chance(700) => plain("ref.func", vec![Imm::Ref(DK::Func, f)], vec![]),
                    _ => plain("ref.null", vec![Imm::Word("func".into(), Cls::Heap)], vec![]),
                };
                let item = r.chance(500);
                if let (true, Instr::Plain { folded, .. }) = (item && r.chance(500), &mut e) {
                    *folded = false;
                }
                (item, e)
            })
            .collect();
        return ElemL::Exprs { ty: b'r', items };
    }
    let funcs: Vec<Ref> = (0..r.usize(4)).filter_map(|_| pick_ref(p, r, m, DK::Func)).collect();
    let kw = word || r.chance(500);
    if !kw && funcs.is_empty() {
        return ElemL::None;
    }
    ElemL::Funcs { kw, funcs }
}
/// Adds a declaration with an empty body (see `fill_bodies`); returns its position.
pub fn add_field(p: &mut Program, r: &mut Rng, m: usize) -> usize {
    let id = fresh(p);
    let pick = r.below(100);
    let k = match pick {
        0..=11 => {
            let mut used = vec![];
            let named = r.chance(300);
            let params = groups(p, r, 3, named, &mut used);
            let results = groups(p, r, 1, false, &mut used);
            FieldK::Type { params, results }
        }
        12..=17 => FieldK::ImportFunc(rand_sig(p, r, m, true)),
        18..=20 => FieldK::ImportGlobal { mutable: r.chance(400), ty: if r.chance(850) { rand_num_ty(r) } else { rand_ty(r) } },
        21..=22 => FieldK::ImportMemory,
        23..=24 => FieldK::ImportTable { ty: *r.pick(b"rx") },
        25..=64 => {
            let sig = rand_sig(p, r, m, true);
            let mut used: Vec<String> = sig.params.iter().filter_map(|g| g.name.clone()).collect();
            let locals = groups(p, r, 3, true, &mut used);
            let doc = if r.chance(250) { (0..1 + r.usize(2)).map(|i| format!("doc {} {}", i, r.pick(UNI))).collect() } else { vec![] };
            FieldK::Func { sig, locals, body: vec![], doc }
        }
        65..=74 => FieldK::Global { mutable: r.chance(500), ty: if r.chance(850) { rand_num_ty(r) } else { rand_ty(r) }, init: vec![] },
        75..=79 => FieldK::Memory { max: r.chance(300), data: if r.chance(250) { Some(strings(r, 0)) } else { None } },
        80..=84 => {
            let elem = if r.chance(300) { Some(elem_list(p, r, m, false)) } else { None };
            FieldK::Table { ty: *r.pick(b"rx"), elem }
        }
        85..=90 => {
            let dk = *r.pick(&[DK::Func, DK::Func, DK::Global, DK::Memory, DK::Table]);
            match pick_ref(p, r, m, dk) {
                Some(x) => FieldK::Export(dk, x, format!("\"x{}\"", r.below(90))),
                None => FieldK::Memory { max: false, data: None },
            }
        }
        91..=93 => match pick_ref(p, r, m, DK::Func) {
            Some(x) => FieldK::Start(x),
            None => FieldK::Table { ty: b'r', elem: None },
        },
        94..=96 => {
            let mem = if r.chance(600) { pick_ref(p, r, m, DK::Memory) } else { None };
            let strs = strings(r, 1);
            if mem.is_none() && r.chance(300) {
                FieldK::Data { mem, at: At::Passive, strs }
            } else {
                FieldK::Data { mem, at: active(r), strs }
            }
        }
        _ => {
            let at = match r.usize(5) {
                0 => At::Passive,
                1 => At::Declare,
                _ => active(r),
            };
            let on = matches!(at, At::Active { .. });
            let table = if on && r.chance(500) { pick_ref(p, r, m, DK::Table) } else { None };
            FieldK::Elem { table, list: elem_list(p, r, m, !on), at }
        }
    };
    let mut f = Field { id, name: None, exports: vec![], inline: false, k };
    f.inline = f.is_import() && r.chance(300);
    if matches!(f.dk(), Some(DK::Func | DK::Global | DK::Memory | DK::Table)) && (f.inline || !f.is_import()) && r.chance(200) {
        f.exports = (0..1 + r.usize(2)).map(|_| format!("\"e{}\"", r.below(90))).collect();
    }
    if matches!(f.k, FieldK::Data { .. } | FieldK::Elem { .. }) && r.chance(500) {
        f.name = Some(format!("$s{}", r.below(9)));
    }
    if let Some(dk) = f.dk() {
        let used = p.names_of(m, dk);
        f.name = opt_name(r, &used, 700);
    }
    let fields = &mut p.modules[m].fields;
    let imports = fields.iter().take_while(|f| f.is_import() || f.dk() == Some(DK::Type)).count();
    let at = if f.is_import() || matches!(f.k, FieldK::Type { .. }) {
        r.usize(imports + 1)
    } else {
        imports + r.usize(fields.len() - imports + 1)
    };
    fields.insert(at, f);
    at
}

#[derive(Clone)]
pub struct BodyCx {
    m: usize,
    locals: Vec<(Id, Ty, bool)>,
    /// enclosing labels, innermost last: (id, named, what a branch takes along)
    labels: Vec<(Id, bool, Vec<Ty>)>,
    used_labels: Vec<String>,
    may_num: bool,
    results: Vec<Ty>,
}
fn fill_bodies(p: &mut Program, r: &mut Rng, m: usize) {
    for i in 0..p.modules[m].fields.len() {
        match &p.modules[m].fields[i].k {
            FieldK::Func { body, .. } if body.is_empty() => regen_body(p, r, m, i),
            FieldK::Global { init, .. } if init.is_empty() => regen_body(p, r, m, i),
            _ => {}
        }
    }
}
pub fn regen_body(p: &mut Program, r: &mut Rng, m: usize, i: usize) {
    let f = p.modules[m].fields[i].clone();
    match f.k {
        FieldK::Func { sig, locals, .. } => {
            let only_ty = type_only(&sig);
            let mut ls = vec![];
            for g in sig.params.iter().chain(locals.iter()) {
                for t in &g.tys {
                    ls.push((t.0, t.1, g.name.is_some()));
                }
            }
            let results = p.sig_of(m, f.id).map(|s| s.1).unwrap_or_default();
            let mut cx = BodyCx { m, locals: ls, labels: vec![], used_labels: vec![], may_num: !only_ty, results };
            let n = r.usize(5) + if p.scale.stmts > 0 { r.usize(p.scale.stmts) } else { 0 };
            let mut b = vec![];
            if p.scale.deep > 0 && r.chance(500) {
                let levels = if r.chance(500) { p.scale.deep } else { 1 + r.usize(p.scale.deep) };
                let st = gen_deep(p, r, &mut cx, levels);
                b.push(st);
            }
            // 0: all folded, 1: all flat, 2: mixed
            let mode = *r.pick(&[0, 0, 1, 2]);
            for _ in 0..n {
                let flat = mode == 1 || mode == 2 && r.chance(500);
                if flat && r.chance(120) {
                    gen_param_block(p, r, &mut cx, &mut b);
                    continue;
                }
                if flat && r.chance(100) {
                    let c: Vec<(Id, usize)> = p.ids_of(m, DK::Func).into_iter().filter_map(|id| p.sig_of(m, id).filter(|s| s.1.len() > 1).map(|s| (id, s.1.len()))).collect();
                    if !c.is_empty() {
                        let (id, n) = *r.pick(&c);
                        let call = gen_call(p, r, &cx, id, 1);
                        if flattenable(&call) {
                            flatten(call, &mut b)
                        } else {
                            b.push(call)
                        }
                        for _ in 0..n {
                            b.push(Instr::Plain { name: "drop".into(), imms: vec![], args: vec![], folded: false });
                        }
                        continue;
                    }
                }
                let st = gen_stmt(p, r, &mut cx, 2);
                if flat && flattenable(&st) {
                    flatten(st, &mut b);
                } else {
                    b.push(st);
                }
            }
            let rs = p.sig_of(m, f.id).map(|s| s.1).unwrap_or_default();
            for t in rs {
                let e = gen_expr(p, r, &cx, t, 2);
                if mode == 1 {
                    flatten(e, &mut b)
                } else {
                    b.push(e)
                }
            }
            if let FieldK::Func { body, .. } = &mut p.modules[m].fields[i].k {
                *body = b;
            }
        }
        FieldK::Global { ty, .. } => {
            let cx = BodyCx { m, locals: vec![], labels: vec![], used_labels: vec![], may_num: true, results: vec![] };
            let e = match gen_const(r, ty) {
                Some(e) if r.chance(800) => e,
                _ => gen_expr(p, r, &cx, ty, 1),
            };
            let mut b = vec![];
            if r.chance(400) {
                flatten(e, &mut b);
            } else {
                b.push(e);
            }
            if let FieldK::Global { init, .. } = &mut p.modules[m].fields[i].k {
                *init = b;
            }
        }
        _ => {}
    }
}
/// Parameters are declared by the type alone.
pub fn type_only(sig: &Sig) -> bool {
    sig.tyuse.is_some() && flat_params(&sig.params).is_empty() && flat_tys(&sig.results).is_empty()
}
fn flattenable(i: &Instr) -> bool {
    match i {
        Instr::Plain { name, args, .. } => {
            let known = matches!(name.as_str(), "call" | "call_indirect" | "br" | "br_if" | "br_table" | "return" | "return_call");
            (metas().contains_key(name.as_str()) || args.is_empty() || known) && args.iter().all(flattenable)
        }
        Instr::Block { folded, .. } => *folded,
    }
}
fn flatten(i: Instr, out: &mut Vec<Instr>) {
    match i {
        Instr::Plain { name, imms, args, .. } => {
            for a in args {
                flatten(a, out);
            }
            out.push(Instr::Plain { name, imms, args: vec![], folded: false });
        }
        b => out.push(b),
    }
}
fn plain(name: &str, imms: Vec<Imm>, args: Vec<Instr>) -> Instr {
    Instr::Plain { name: name.into(), imms, args, folded: true }
}
fn sign(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", "-", "+"])
}
fn int_lit(r: &mut Rng) -> String {
    match r.usize(8) {
        0 => format!("-{}", r.below(1000)),
        1 => format!("{}0x{:X}", sign(r), r.below(70000)),
        2 => "1_000".into(),
        3 => format!("{}0x{:x}_{:02x}", sign(r), r.below(256), r.below(256)),
        4 => r.pick(&["0", "+7", "-2147483648", "4294967295", "0xffffffff", "-0x8000_0000", "00", "0_1"]).to_string(),
        _ => r.below(5000).to_string(),
    }
}
fn float_lit(r: &mut Rng) -> (String, Cls) {
    match r.usize(8) {
        0 => (format!("{}{}", sign(r), r.below(100)), Cls::Int),
        1 => ("-1.5e3".to_string(), Cls::Float),
        2 => (format!("{}{}", sign(r), r.pick(&["inf", "nan", "nan:0x1", "nan:0x7f_ff"])), Cls::Float),
        3 => (format!("{}{}", sign(r), r.pick(&["1.", "0.0", "1e5", "1E+5", "2.e-3", "1_0.0_1e1_0", "7.5E-0_3", "0e0", "3.E1", "00.10", "1e0_1", "9e-1"])), Cls::Float),
        4 => (format!("{}{}", sign(r), r.pick(&["0x1.8p3", "0x1p-3", "0xA.", "0xaP+0", "0x1_0.8", "0x1.fp0_1", "0x1P3", "0x1.8P-2", "0x2.P1", "0xF_f.0_1p+1_0", "0x0p0"])), Cls::Float),
        5 => (format!("{}0x{:x}", sign(r), r.below(4096)), Cls::Int),
        _ => (format!("{}.25", r.below(50)), Cls::Float),
    }
}
fn gen_const(r: &mut Rng, t: Ty) -> Option<Instr> {
    Some(match t {
        b'i' | b'I' => plain(if t == b'i' { "i32.const" } else { "i64.const" }, vec![Imm::Word(int_lit(r), Cls::Int)], vec![]),
        b'f' | b'F' => {
            let (w, c) = float_lit(r);
            plain(if t == b'f' { "f32.const" } else { "f64.const" }, vec![Imm::Word(w, c)], vec![])
        }
        b'v' => plain("i8x16.splat", vec![], vec![gen_const(r, b'i')?]),
        _ => return None,
    })
}
fn local_ref(cx: &BodyCx, r: &mut Rng, l: &(Id, Ty, bool)) -> Option<Ref> {
    let num = !l.2 || cx.may_num && r.chance(250);
    if num && !cx.may_num {
        return None;
    }
    Some(Ref { id: l.0, num })
}
pub fn gen_expr(p: &Program, r: &mut Rng, cx: &BodyCx, t: Ty, depth: usize) -> Instr {
    if depth > 0 && r.chance(650) {
        match r.usize(8) {
            0 | 1 => {
                let c: Vec<_> = cx.locals.iter().filter(|l| l.1 == t).collect();
                if !c.is_empty() {
                    if let Some(x) = local_ref(cx, r, *r.clone().pick(&c)) {
                        return plain("local.get", vec![Imm::Ref(DK::Local, x)], vec![]);
                    }
                }
            }
            2 => {
                let c: Vec<Id> = p.modules[cx.m]
                    .fields
                    .iter()
                    .filter(|f| match f.k {
                        FieldK::Global { ty, .. } | FieldK::ImportGlobal { ty, .. } => ty == t,
                        _ => false,
                    })
                    .map(|f| f.id)
                    .collect();
                if !c.is_empty() {
                    let id = *r.pick(&c);
                    let num = p.field(cx.m, id).unwrap().name.is_none() || r.chance(250);
                    return plain("global.get", vec![Imm::Ref(DK::Global, Ref { id, num })], vec![]);
                }
            }
            3 => {
                let c: Vec<Id> = p.ids_of(cx.m, DK::Func).into_iter().filter(|id| p.sig_of(cx.m, *id).is_some_and(|s| s.1 == [t])).collect();
                if !c.is_empty() {
                    let id = *r.pick(&c);
                    return gen_call(p, r, cx, id, depth);
                }
            }
            4 => match r.usize(4) {
                0 => {
                    if let Some(i) = gen_indirect(p, r, cx, &[t], depth, "call_indirect") {
                        return i;
                    }
                }
                1 => {
                    let a = gen_expr(p, r, cx, t, depth - 1);
                    let b = gen_expr(p, r, cx, t, depth - 1);
                    return plain("select", vec![], vec![a, b, gen_expr(p, r, cx, b'i', depth - 1)]);
                }
                2 => return gen_block_expr(p, r, cx, t, depth),
                _ => {
                    let c: Vec<_> = cx.labels.iter().filter(|l| l.2 == [t]).cloned().collect();
                    if !c.is_empty() {
                        let l = r.pick(&c).clone();
                        let v = gen_expr(p, r, cx, t, depth - 1);
                        return plain("br_if", vec![label_ref(r, &l)], vec![v, gen_expr(p, r, cx, b'i', depth - 1)]);
                    }
                    if r.chance(150) {
                        return plain("unreachable", vec![], vec![]);
                    }
                }
            },
            _ => {}
        }
        if let Some(ops) = ops_by_result().get(&t) {
            let n = *r.pick(ops);
            return gen_op(p, r, cx, n, depth);
        }
    }
    if let Some(c) = gen_const(r, t) {
        return c;
    }
    if t == b'r' {
        if let Some(f) = pick_ref(p, r, cx.m, DK::Func) {
            if r.chance(600) {
                return plain("ref.func", vec![Imm::Ref(DK::Func, f)], vec![]);
            }
        }
        return plain("ref.null", vec![Imm::Word("func".into(), Cls::Heap)], vec![]);
    }
    plain("ref.null", vec![Imm::Word("extern".into(), Cls::Heap)], vec![])
}
fn label_ref(r: &mut Rng, l: &(Id, bool, Vec<Ty>)) -> Imm {
    Imm::Ref(DK::Label, Ref { id: l.0, num: !l.1 || r.chance(300) })
}
fn gen_args(p: &Program, r: &mut Rng, cx: &BodyCx, tys: &[Ty], depth: usize) -> Vec<Instr> {
    let depth = if tys.len() > 8 { 0 } else { depth };
    let mut out = vec![];
    let mut k = 0;
    while k < tys.len() {
        if depth > 0 && tys.len() - k > 1 && r.chance(200) {
            // one call for several operands
            let c: Vec<(Id, usize)> = p
                .ids_of(cx.m, DK::Func)
                .into_iter()
                .filter_map(|id| p.sig_of(cx.m, id).filter(|s| s.1.len() > 1 && tys[k..].starts_with(&s.1)).map(|s| (id, s.1.len())))
                .collect();
            if !c.is_empty() {
                let (id, n) = *r.pick(&c);
                out.push(gen_call(p, r, cx, id, depth - 1));
                k += n;
                continue;
            }
        }
        out.push(gen_expr(p, r, cx, tys[k], depth));
        k += 1;
    }
    out
}
fn gen_indirect(p: &Program, r: &mut Rng, cx: &BodyCx, results: &[Ty], depth: usize, name: &str) -> Option<Instr> {
    let c: Vec<(Id, Vec<Ty>)> = p.modules[cx.m]
        .fields
        .iter()
        .filter_map(|f| match &f.k {
            FieldK::Type { params, results: rs } if flat_tys(rs) == results => Some((f.id, flat_params(params).iter().map(|p| p.0).collect())),
            _ => None,
        })
        .collect();
    if c.is_empty() {
        return None;
    }
    let (id, tys) = r.pick(&c).clone();
    let num = p.field(cx.m, id).unwrap().name.is_none() || r.chance(250);
    let mut imms = vec![];
    if r.chance(500) {
        imms.extend(pick_ref(p, r, cx.m, DK::Table).map(|t| Imm::Ref(DK::Table, t)));
    }
    imms.push(Imm::TypeUse(Ref { id, num }));
    let mut args = gen_args(p, r, cx, &tys, depth.saturating_sub(1));
    args.push(gen_expr(p, r, cx, b'i', depth.saturating_sub(1)));
    Some(plain(name, imms, args))
}
/// A folded block leaving one value behind.
fn gen_block_expr(p: &Program, r: &mut Rng, cx: &BodyCx, t: Ty, depth: usize) -> Instr {
    let id = 1_000_000 + r.below(1_000_000_000) as Id;
    let label = if r.chance(400) { Some(format!("$l{}", r.below(1000))) } else { None };
    let kind = *r.pick(&[BK::Block, BK::Loop, BK::If]);
    let d = depth.saturating_sub(1);
    let cond = if kind == BK::If { vec![gen_expr(p, r, cx, b'i', d)] } else { vec![] };
    let mut inner = cx.clone();
    inner.labels.push((id, label.is_some(), if kind == BK::Loop { vec![] } else { vec![t] }));
    let body = vec![gen_expr(p, r, &inner, t, d)];
    let els = if kind == BK::If { Some(vec![gen_expr(p, r, &inner, t, d)]) } else { None };
    let sig = Sig { tyuse: None, params: vec![], results: vec![Group { name: None, tys: vec![(0, t)] }] };
    Instr::Block { kind, id, label, sig, folded: true, cond, body, els, again: false }
}
/// A flat block that takes its parameters from the stack.
fn gen_param_block(p: &mut Program, r: &mut Rng, cx: &mut BodyCx, out: &mut Vec<Instr>) {
    let mut sig = rand_sig(p, r, cx.m, false);
    let (ps, rs) = match &sig.tyuse {
        Some(t) => match &p.field(cx.m, t.id).unwrap().k {
            FieldK::Type { params, results } => (flat_params(params), flat_tys(results)),
            _ => unreachable!(),
        },
        None => (flat_params(&sig.params), flat_tys(&sig.results)),
    };
    let kind = *r.pick(&[BK::Block, BK::Loop, BK::If]);
    for t in ps.iter().map(|x| x.0).chain((kind == BK::If).then_some(b'i')) {
        let e = gen_expr(p, r, cx, t, 1);
        if flattenable(&e) {
            flatten(e, out)
        } else {
            out.push(e)
        }
    }
    if sig.tyuse.is_none() && ps.is_empty() && rs.is_empty() {
        sig = Sig::default();
    }
    let id = fresh(p);
    let label = opt_label(r, &cx.used_labels, 500);
    cx.used_labels.extend(label.clone());
    let takes = if kind == BK::Loop { ps.iter().map(|x| x.0).collect() } else { rs.clone() };
    cx.labels.push((id, label.is_some(), takes));
    let inner = |p: &mut Program, r: &mut Rng, cx: &mut BodyCx| {
        let mut v: Vec<Instr> = ps.iter().map(|_| Instr::Plain { name: "drop".into(), imms: vec![], args: vec![], folded: false }).collect();
        if r.chance(400) {
            v.push(gen_stmt(p, r, cx, 1));
        }
        for t in &rs {
            v.push(gen_expr(p, r, cx, *t, 1));
        }
        v
    };
    let body = inner(p, r, cx);
    let els = if kind == BK::If { Some(inner(p, r, cx)) } else { None };
    cx.labels.pop();
    out.push(Instr::Block { kind, id, label, sig, folded: false, cond: vec![], body, els, again: r.chance(400) });
    for _ in rs {
        out.push(Instr::Plain { name: "drop".into(), imms: vec![], args: vec![], folded: false });
    }
}
/// Many constructs inside of each other.
fn gen_deep(p: &mut Program, r: &mut Rng, cx: &mut BodyCx, levels: usize) -> Instr {
    if levels == 0 {
        let n = cx.labels.len();
        if n > 0 && r.chance(800) {
            let at = [0, n / 2, r.usize(n)];
            let ls: Vec<_> = at.iter().filter(|i| cx.labels[**i].2.is_empty()).map(|i| label_ref(r, &cx.labels[*i])).collect();
            if ls.len() > 1 && r.chance(500) {
                let e = gen_expr(p, r, cx, b'i', 0);
                return plain("br_table", ls, vec![e]);
            }
            if let Some(l) = ls.into_iter().next() {
                return plain("br", vec![l], vec![]);
            }
        }
        return gen_stmt(p, r, cx, 1);
    }
    if r.chance(15) {
        let mut e = gen_expr(p, r, cx, b'i', 1);
        for _ in 0..levels {
            e = plain(*r.pick(&["i32.eqz", "i32.clz", "i32.popcnt"]), vec![], vec![e]);
        }
        return plain("drop", vec![], vec![e]);
    }
    let id = fresh(p);
    let label = opt_label(r, &cx.used_labels, 600);
    cx.used_labels.extend(label.clone());
    let kind = *r.pick(&[BK::Block, BK::Loop, BK::If]);
    let folded = kind == BK::If || r.chance(700);
    let cond = if kind == BK::If { vec![gen_expr(p, r, cx, b'i', 0)] } else { vec![] };
    cx.labels.push((id, label.is_some(), vec![]));
    let mut body = vec![];
    if r.chance(300) {
        body.push(gen_stmt(p, r, cx, 0));
    }
    body.push(gen_deep(p, r, cx, levels - 1));
    if r.chance(200) {
        body.push(gen_stmt(p, r, cx, 0));
    }
    cx.labels.pop();
    Instr::Block { kind, id, label, sig: Sig::default(), folded, cond, body, els: None, again: r.chance(300) }
}
fn gen_call(p: &Program, r: &mut Rng, cx: &BodyCx, id: Id, depth: usize) -> Instr {
    let ps = p.sig_of(cx.m, id).map(|s| s.0).unwrap_or_default();
    let ps: Vec<Ty> = ps.iter().map(|x| x.0).collect();
    let args = gen_args(p, r, cx, &ps, depth.saturating_sub(1));
    let num = p.field(cx.m, id).unwrap().name.is_none() || r.chance(250);
    plain("call", vec![Imm::Ref(DK::Func, Ref { id, num })], args)
}
fn mem_arg(r: &mut Rng) -> Vec<Imm> {
    let o = Imm::Word(format!("offset={}", if r.chance(200) { format!("0x{:x}", r.below(64)) } else { r.below(64).to_string() }), Cls::MemArg);
    let a = Imm::Word("align=1".into(), Cls::MemArg);
    match r.usize(5) {
        0 => vec![],
        1 | 2 => vec![o],
        3 => vec![a],
        _ => vec![o, a],
    }
}
fn gen_op(p: &Program, r: &mut Rng, cx: &BodyCx, n: &str, depth: usize) -> Instr {
    let meta = &metas()[n];
    let imms = imm_plan(n)
        .unwrap()
        .into_iter()
        .flat_map(|k| match k {
            ImmK::MemArg => mem_arg(r),
            ImmK::Lane => vec![Imm::Word(r.below(2).to_string(), Cls::Int)],
        })
        .collect();
    let args = gen_args(p, r, cx, &meta.params, depth.saturating_sub(1));
    plain(n, imms, args)
}
pub fn gen_stmt(p: &mut Program, r: &mut Rng, cx: &mut BodyCx, depth: usize) -> Instr {
    for _ in 0..6 {
        match r.usize(14) {
            0 | 1 => {
                if !cx.locals.is_empty() {
                    let l = *r.pick(&cx.locals.clone());
                    if let Some(x) = local_ref(cx, r, &l) {
                        let e = gen_expr(p, r, cx, l.1, 2);
                        if r.chance(250) {
                            return plain("drop", vec![], vec![plain("local.tee", vec![Imm::Ref(DK::Local, x)], vec![e])]);
                        }
                        return plain("local.set", vec![Imm::Ref(DK::Local, x)], vec![e]);
                    }
                }
            }
            2 => {
                let c: Vec<(Id, Ty, bool)> = p.modules[cx.m]
                    .fields
                    .iter()
                    .filter_map(|f| match f.k {
                        FieldK::Global { ty, mutable: true, .. } | FieldK::ImportGlobal { ty, mutable: true } => Some((f.id, ty, f.name.is_some())),
                        _ => None,
                    })
                    .collect();
                if !c.is_empty() {
                    let g = *r.pick(&c);
                    let e = gen_expr(p, r, cx, g.1, 2);
                    return plain("global.set", vec![Imm::Ref(DK::Global, Ref { id: g.0, num: !g.2 || r.chance(250) })], vec![e]);
                }
            }
            3 | 4 => {
                let c = p.ids_of(cx.m, DK::Func);
                let c: Vec<Id> = c.into_iter().filter(|id| p.sig_of(cx.m, *id).is_some_and(|s| s.1.len() <= 1)).collect();
                if !c.is_empty() {
                    let id = *r.pick(&c);
                    let call = gen_call(p, r, cx, id, 2);
                    return if p.sig_of(cx.m, id).unwrap().1.is_empty() { call } else { plain("drop", vec![], vec![call]) };
                }
            }
            5 => {
                let n = *r.pick(void_ops());
                return gen_op(p, r, cx, n, 2);
            }
            6 => {
                let t = rand_ty(r);
                let e = gen_expr(p, r, cx, t, 2);
                return plain("drop", vec![], vec![e]);
            }
            7 | 8 => {
                if depth > 0 {
                    let id = fresh(p);
                    let label = opt_label(r, &cx.used_labels, 650);
                    if let Some(l) = &label {
                        cx.used_labels.push(l.clone());
                    }
                    let kind = *r.pick(&[BK::Block, BK::Loop, BK::If]);
                    let folded = r.chance(600);
                    let cond = if kind == BK::If && folded { vec![gen_expr(p, r, cx, b'i', 1)] } else { vec![] };
                    let result = if r.chance(200) { Some(rand_ty(r)) } else { None };
                    cx.labels.push((id, label.is_some(), result.filter(|_| kind != BK::Loop).into_iter().collect()));
                    let inner = |p: &mut Program, r: &mut Rng, cx: &mut BodyCx| {
                        let mut v = vec![];
                        for _ in 0..r.usize(3) {
                            let s = gen_stmt(p, r, cx, depth - 1);
                            if !folded && r.chance(500) && flattenable(&s) {
                                flatten(s, &mut v)
                            } else {
                                v.push(s)
                            }
                        }
                        v
                    };
                    let body = inner(p, r, cx);
                    let els = if kind == BK::If && r.chance(500) { Some(inner(p, r, cx)) } else { None };
                    cx.labels.pop();
                    let results = result.map(|t| Group { name: None, tys: vec![(0, t)] }).into_iter().collect();
                    let sig = Sig { tyuse: None, params: vec![], results };
                    return Instr::Block { kind, id, label, sig, folded, cond, body, els, again: r.chance(300) };
                }
            }
            9 => {
                let mut labels = cx.labels.clone();
                if r.chance(if labels.is_empty() { 60 } else { 200 }) {
                    labels.push((BODY, false, cx.results.clone()));
                }
                if !labels.is_empty() {
                    let l = r.pick(&labels).clone();
                    let mut args = gen_args(p, r, cx, &l.2, 1);
                    let n = l.2.len();
                    let x = label_ref(r, &l);
                    let i = match r.usize(3) {
                        0 => return plain("br", vec![x], args),
                        1 => {
                            args.push(gen_expr(p, r, cx, b'i', 1));
                            plain("br_if", vec![x], args)
                        }
                        _ => {
                            let c: Vec<_> = labels.iter().filter(|k| k.2 == l.2).cloned().collect();
                            let mut imms = vec![x];
                            for _ in 0..r.usize(4) + r.usize(p.scale.wide + 1) {
                                let k = r.pick(&c).clone();
                                imms.push(label_ref(r, &k));
                            }
                            args.push(gen_expr(p, r, cx, b'i', 1));
                            return plain("br_table", imms, args);
                        }
                    };
                    if n == 0 {
                        return i;
                    }
                    if n == 1 {
                        return plain("drop", vec![], vec![i]);
                    }
                }
            }
            10 => {
                if let Some(t) = pick_ref(p, r, cx.m, DK::Table) {
                    let ty = match p.field(cx.m, t.id).unwrap().k {
                        FieldK::Table { ty, .. } | FieldK::ImportTable { ty } => ty,
                        _ => b'r',
                    };
                    let x = Imm::Ref(DK::Table, t);
                    let seg = Imm::Word(if r.chance(500) { format!("$s{}", r.below(9)) } else { "0".into() }, Cls::Int);
                    let seg = match seg {
                        Imm::Word(w, _) if w.starts_with('$') => Imm::Word(w, Cls::Ident),
                        w => w,
                    };
                    let x = if r.chance(250) { vec![] } else { vec![x] };
                    return match r.usize(8) {
                        0 => plain("drop", vec![], vec![plain("table.size", x, vec![])]),
                        1 => plain("drop", vec![], vec![plain("table.get", x, gen_args(p, r, cx, b"i", 1))]),
                        2 => plain("table.set", x, gen_args(p, r, cx, &[b'i', ty], 1)),
                        3 => plain("drop", vec![], vec![plain("table.grow", x, gen_args(p, r, cx, &[ty, b'i'], 1))]),
                        4 => plain("table.fill", x, gen_args(p, r, cx, &[b'i', ty, b'i'], 1)),
                        5 => plain("table.init", x.into_iter().chain([seg]).collect(), gen_args(p, r, cx, b"iii", 1)),
                        6 => plain("elem.drop", vec![seg], vec![]),
                        _ => plain("table.copy", x.iter().chain(&x).cloned().collect(), gen_args(p, r, cx, b"iii", 1)),
                    };
                }
            }
            11 => {
                let seg = if r.chance(500) { Imm::Word(format!("$s{}", r.below(9)), Cls::Ident) } else { Imm::Word(r.below(3).to_string(), Cls::Int) };
                if r.chance(500) {
                    return plain("data.drop", vec![seg], vec![]);
                }
                return plain("memory.init", vec![seg], gen_args(p, r, cx, b"iii", 1));
            }
            12 => {
                if r.chance(300) {
                    if let Some(f) = pick_ref(p, r, cx.m, DK::Func) {
                        let ps: Vec<Ty> = p.sig_of(cx.m, f.id).map(|s| s.0.iter().map(|x| x.0).collect()).unwrap_or_default();
                        return plain("return_call", vec![Imm::Ref(DK::Func, f)], gen_args(p, r, cx, &ps, 1));
                    }
                }
                let rs = cx.results.clone();
                return plain("return", vec![], gen_args(p, r, cx, &rs, 1));
            }
            _ => {
                let n = if r.chance(900) { "call_indirect" } else { "return_call_indirect" };
                if let Some(i) = gen_indirect(p, r, cx, &[], 2, n) {
                    return i;
                }
            }
        }
    }
    plain(*r.pick(&["nop", "unreachable", "return"]), vec![], vec![])
}

// ---------------------------------------------------------------- edits

pub const EDITS: &[&str] = &[
    "retype", "rename", "add", "remove", "move", "trivia", "body", "toggle", "literal", "args", "dup", "style", "doc", "module", "retype", "mut", "target", "groups",
    "groups", "block",
];

/// Applies one random edit to the program; returns what was done.
pub fn edit(p: &mut Program, r: &mut Rng) -> &'static str {
    for _ in 0..6 {
        let kind = *r.pick(EDITS);
        let m = r.usize(p.modules.len());
        let nf = p.modules[m].fields.len();
        let ok = match kind {
            "add" => {
                add_field(p, r, m);
                fill_bodies(p, r, m);
                true
            }
            "trivia" => {
                p.trivia = r.next();
                true
            }
            "style" => {
                p.style = rand_style(r);
                true
            }
            "module" => {
                if p.modules.len() > 1 && r.chance(600) {
                    p.modules.remove(m);
                } else if p.modules.len() < 3 && r.chance(300) {
                    p.modules.push(Module { name: None, fields: vec![] });
                    let m = p.modules.len() - 1;
                    for _ in 0..1 + r.usize(3) {
                        add_field(p, r, m);
                    }
                    fill_bodies(p, r, m);
                } else {
                    p.modules[m].name = if p.modules[m].name.is_some() { None } else { Some("$mod".into()) };
                }
                true
            }
            _ if nf == 0 => false,
            "remove" => {
                let i = r.usize(nf);
                let f = p.modules[m].fields.remove(i);
                remember_gone(p, &f);
                true
            }
            "move" => {
                let i = r.usize(nf);
                let j = r.usize(nf);
                let a = &p.modules[m].fields;
                let imp = |f: &Field| f.is_import() || matches!(f.k, FieldK::Type { .. });
                if imp(&a[i]) == imp(&a[j]) && i != j {
                    let f = p.modules[m].fields.remove(i);
                    p.modules[m].fields.insert(j, f);
                    true
                } else {
                    false
                }
            }
            "rename" | "dup" => {
                let i = r.usize(nf);
                match p.modules[m].fields[i].dk() {
                    None => false,
                    Some(dk) => {
                        let used = p.names_of(m, dk);
                        let f = &mut p.modules[m].fields[i];
                        if kind == "dup" {
                            if used.is_empty() || !r.chance(400) {
                                // a local clashing with another local
                                if let FieldK::Func { sig, locals, .. } = &mut f.k {
                                    let names: Vec<String> = sig.params.iter().chain(locals.iter()).filter_map(|g| g.name.clone()).collect();
                                    if let (Some(g), false) = (locals.iter_mut().find(|g| g.name.is_some()), names.is_empty()) {
                                        g.name = Some(r.pick(&names).clone());
                                    }
                                }
                            } else {
                                f.name = Some(r.pick(&used).clone());
                            }
                            true
                        } else {
                            match (&f.name, r.usize(3)) {
                                (Some(old), 0) => {
                                    // same length, so every other byte of the text keeps its place
                                    let mut b: Vec<u8> = old.clone().into_bytes();
                                    let l = b.len() - 1;
                                    b[l] = *r.pick(b"qwzQWZ7");
                                    let n = String::from_utf8(b).unwrap();
                                    if used.contains(&n) {
                                        false
                                    } else {
                                        f.name = Some(n);
                                        true
                                    }
                                }
                                (_, 1) => {
                                    if let FieldK::Func { sig, locals, .. } = &mut f.k {
                                        let used: Vec<String> = sig.params.iter().chain(locals.iter()).filter_map(|g| g.name.clone()).collect();
                                        let all: Vec<&mut Group> = sig.params.iter_mut().chain(locals.iter_mut()).filter(|g| g.name.is_some()).collect();
                                        let n = all.len();
                                        if n > 0 {
                                            let g = all.into_iter().nth(r.usize(n)).unwrap();
                                            if let Some(x) = opt_name(r, &used, 1000) {
                                                g.name = Some(x);
                                            }
                                        }
                                    }
                                    true
                                }
                                _ => {
                                    if let Some(x) = opt_name(r, &used, 1000) {
                                        f.name = Some(x);
                                    }
                                    true
                                }
                            }
                        }
                    }
                }
            }
            "retype" => {
                let i = r.usize(nf);
                let mut slots: Vec<&mut Ty> = vec![];
                match &mut p.modules[m].fields[i].k {
                    FieldK::Type { params, results } => slots.extend(params.iter_mut().chain(results.iter_mut()).flat_map(|g| g.tys.iter_mut().map(|t| &mut t.1))),
                    FieldK::ImportFunc(sig) => slots.extend(sig.params.iter_mut().chain(sig.results.iter_mut()).flat_map(|g| g.tys.iter_mut().map(|t| &mut t.1))),
                    FieldK::Func { sig, locals, .. } => {
                        slots.extend(sig.params.iter_mut().chain(sig.results.iter_mut()).chain(locals.iter_mut()).flat_map(|g| g.tys.iter_mut().map(|t| &mut t.1)))
                    }
                    FieldK::Global { ty, .. } | FieldK::ImportGlobal { ty, .. } => slots.push(ty),
                    FieldK::Table { ty, .. } | FieldK::ImportTable { ty } => *ty = if *ty == b'r' { b'x' } else { b'r' },
                    _ => {}
                }
                if slots.is_empty() {
                    false
                } else {
                    let k = r.usize(slots.len());
                    // same-length alternative first: only the spelling of one type changes
                    let old = *slots[k];
                    *slots[k] = match old {
                        b'i' | b'I' | b'f' | b'F' => *r.pick(b"iIfF"),
                        b'r' => *r.pick(b"xi"),
                        _ => *r.pick(b"iIfFvrx"),
                    };
                    true
                }
            }
            "mut" => {
                let i = r.usize(nf);
                match &mut p.modules[m].fields[i].k {
                    FieldK::Global { mutable, .. } | FieldK::ImportGlobal { mutable, .. } => {
                        *mutable = !*mutable;
                        true
                    }
                    _ => false,
                }
            }
            // another of its kind is meant
            "target" => {
                let i = r.usize(nf);
                let ids: HashMap<DK, Vec<(Id, bool)>> = [DK::Func, DK::Global, DK::Memory, DK::Table, DK::Type]
                    .into_iter()
                    .map(|k| (k, p.modules[m].fields.iter().filter(|f| f.dk() == Some(k)).map(|f| (f.id, f.name.is_some())).collect()))
                    .chain([(DK::Local, locals_of(&p.modules[m].fields[i]))])
                    .collect();
                let mut all = vec![];
                match &mut p.modules[m].fields[i].k {
                    FieldK::Func { body, .. } => body.iter_mut().for_each(|b| collect_refs(b, &mut all)),
                    FieldK::Global { init, .. } => init.iter_mut().for_each(|b| collect_refs(b, &mut all)),
                    FieldK::Export(k, x, _) => all.push((*k, x)),
                    FieldK::Start(x) => all.push((DK::Func, x)),
                    _ => {}
                }
                all.retain(|a| ids.get(&a.0).is_some_and(|c| c.iter().any(|c| c.0 != a.1.id)));
                if all.is_empty() {
                    false
                } else {
                    let k = r.usize(all.len());
                    let (dk, x) = all.swap_remove(k);
                    let (id, named) = *r.pick(&ids[&dk]);
                    x.id = id;
                    x.num |= !named;
                    true
                }
            }
            // parameters, results and locals come, go, split and join
            "groups" => {
                let i = r.usize(nf);
                let mut f = p.modules[m].fields[i].clone();
                let (list, named) = match &mut f.k {
                    FieldK::Type { params, results } => {
                        if r.chance(600) {
                            (params, true)
                        } else {
                            (results, false)
                        }
                    }
                    FieldK::ImportFunc(sig) => {
                        if r.chance(600) {
                            (&mut sig.params, true)
                        } else {
                            (&mut sig.results, false)
                        }
                    }
                    FieldK::Func { sig, locals, .. } => match r.usize(5) {
                        0 | 1 => (&mut sig.params, true),
                        2 | 3 => (locals, true),
                        _ => (&mut sig.results, false),
                    },
                    _ => continue,
                };
                let mut gone = vec![];
                match r.usize(6) {
                    0 if !list.is_empty() => {
                        let k = r.usize(list.len());
                        gone.push(list.remove(k));
                    }
                    1 if list.len() > 1 => {
                        let (a, b) = (r.usize(list.len()), r.usize(list.len()));
                        list.swap(a, b);
                    }
                    2 if list.iter().any(|g| g.tys.len() > 1) => {
                        let c: Vec<usize> = (0..list.len()).filter(|g| list[*g].tys.len() > 1).collect();
                        let k = *r.pick(&c);
                        let at = 1 + r.usize(list[k].tys.len() - 1);
                        let tys = list[k].tys.split_off(at);
                        list.insert(k + 1, Group { name: None, tys });
                    }
                    3 if list.windows(2).any(|w| w[0].name.is_none() && w[1].name.is_none()) => {
                        let c: Vec<usize> = (1..list.len()).filter(|g| list[*g].name.is_none() && list[*g - 1].name.is_none()).collect();
                        let k = *r.pick(&c);
                        let g = list.remove(k);
                        list[k - 1].tys.extend(g.tys);
                    }
                    4 if named && list.iter().any(|g| g.tys.len() == 1) => {
                        let c: Vec<usize> = (0..list.len()).filter(|g| list[*g].tys.len() == 1).collect();
                        let k = *r.pick(&c);
                        list[k].name = match list[k].name.take() {
                            Some(n) => {
                                gone.push(Group { name: Some(n), tys: list[k].tys.clone() });
                                None
                            }
                            None => opt_name(r, &[], 1000),
                        };
                    }
                    _ => {
                        let k = r.usize(list.len() + 1);
                        let tys = vec![(fresh(p), rand_ty(r))];
                        list.insert(k, Group { name: if named { opt_name(r, &[], 500) } else { None }, tys });
                    }
                }
                for g in gone {
                    if let (Some(n), Some(t)) = (g.name, g.tys.first()) {
                        p.gone.insert(t.0, n);
                    }
                }
                p.modules[m].fields[i] = f;
                true
            }
            // a block changes its name, its kind, the way it is written or what it gives back; or what is in it takes its place
            "block" => {
                let i = r.usize(nf);
                let t = rand_num_ty(r);
                let FieldK::Func { body, .. } = &mut p.modules[m].fields[i].k else { continue };
                let n: usize = body.iter().map(count_blocks).sum();
                if n == 0 {
                    if body.is_empty() {
                        false
                    } else {
                        // put the rest into a block of its own
                        let at = r.usize(body.len());
                        let inside = body.split_off(at);
                        let label = opt_name(r, &[], 500);
                        p.next += 1;
                        body.push(Instr::Block { kind: BK::Block, id: p.next, label, sig: Sig::default(), folded: r.chance(500), cond: vec![], body: inside, els: None, again: r.chance(300) });
                        true
                    }
                } else {
                    let mut k = r.usize(n);
                    let what = r.usize(4);
                    let (label, style) = (opt_name(r, &[], 700), r.chance(500));
                    for b in body.iter_mut() {
                        if with_block(b, false, &mut k, &mut |b, arg| {
                            if let Instr::Block { kind, label: l, sig, again, els, folded, cond, .. } = b {
                                match what {
                                    0 => *l = label.clone(),
                                    1 if *kind != BK::If => *kind = if *kind == BK::Loop { BK::Block } else { BK::Loop },
                                    1 if *folded && els.is_some() => *els = None,
                                    2 => match sig.results.pop() {
                                        Some(_) => {}
                                        None => sig.results.push(Group { name: None, tys: vec![(0, t)] }),
                                    },
                                    _ if cond.is_empty() && *kind != BK::If && !arg => *folded = style,
                                    _ => *again = !*again,
                                }
                            }
                        }) {
                            break;
                        }
                    }
                    true
                }
            }
            "body" => {
                let i = r.usize(nf);
                regen_body(p, r, m, i);
                matches!(p.modules[m].fields[i].k, FieldK::Func { .. } | FieldK::Global { .. })
            }
            "doc" => {
                let i = r.usize(nf);
                if let FieldK::Func { doc, .. } = &mut p.modules[m].fields[i].k {
                    *doc = (0..r.usize(3)).map(|i| format!("note {} {}", i, r.below(100))).collect();
                    true
                } else {
                    false
                }
            }
            "toggle" | "literal" | "args" => {
                let i = r.usize(nf);
                if let (FieldK::Func { body, .. } | FieldK::Global { init: body, .. }, "args", true) = (&mut p.modules[m].fields[i].k, kind, r.chance(300)) {
                    if !body.is_empty() {
                        let k = r.usize(body.len());
                        if r.chance(500) {
                            body.remove(k);
                        } else {
                            body.insert(k, gen_const(r, rand_num_ty(&mut r.clone())).unwrap_or_else(|| plain("nop", vec![], vec![])));
                        }
                        return kind;
                    }
                }
                let named: HashMap<Id, bool> = names_map(p, m);
                let tyonly = match &p.modules[m].fields[i].k {
                    FieldK::Func { sig, .. } => type_only(sig),
                    _ => false,
                };
                let mut all = vec![];
                match &mut p.modules[m].fields[i].k {
                    FieldK::Func { body, .. } => body.iter_mut().for_each(|b| collect_instrs(b, &mut all)),
                    FieldK::Global { init, .. } => init.iter_mut().for_each(|b| collect_instrs(b, &mut all)),
                    FieldK::Export(_, x, _) | FieldK::Start(x) if kind == "toggle" => {
                        if named.get(&x.id) == Some(&true) {
                            x.num = !x.num;
                        }
                    }
                    _ => {}
                }
                if all.is_empty() {
                    false
                } else {
                    // wrong literals on the instructions which come up least
                    let rare: Vec<usize> = (0..all.len())
                        .filter(|k| match &*all[*k] {
                            Instr::Plain { name, imms, .. } => !imms.is_empty() && !["local.", "global.", "call", "br", "i32.const", "i64.const"].iter().any(|n| name.starts_with(n)),
                            _ => false,
                        })
                        .collect();
                    let k = if kind == "literal" && !rare.is_empty() && r.chance(650) { *r.pick(&rare) } else { r.usize(all.len()) };
                    let ins = all.into_iter().nth(k).unwrap();
                    match ins {
                        Instr::Plain { name, imms, args, folded } => match kind {
                            "toggle" => imms.iter_mut().any(|im| match im {
                                Imm::Ref(dk, x) if named.get(&x.id) == Some(&true) && !(tyonly && *dk == DK::Local) => {
                                    x.num = !x.num;
                                    true
                                }
                                _ => false,
                            }),
                            "literal" => {
                                if imms.is_empty() || matches!(imms[0], Imm::TypeUse(_)) {
                                    false
                                } else {
                                    let k = r.usize(imms.len());
                                    let (w, c) = match r.usize(7) {
                                        0 | 1 => (int_lit(r).replace('-', ""), Cls::Int),
                                        2 | 3 => ("1.5".into(), Cls::Float),
                                        4 => ("\"text\"".into(), Cls::Str),
                                        5 => ("align=2".into(), Cls::MemArg),
                                        _ => ("func".into(), Cls::Heap),
                                    };
                                    // a number in place of a reference would be one
                                    let numeric = ["const", "load", "store", "lane", "shuffle"].iter().any(|n| name.contains(n));
                                    if !numeric && c == Cls::Int {
                                        false
                                    } else {
                                        imms[k] = Imm::Word(w, c);
                                        true
                                    }
                                }
                            }
                            _ => {
                                if !*folded || !(metas().contains_key(name.as_str()) || name == "call") {
                                    false
                                } else if !args.is_empty() && r.chance(500) {
                                    args.pop();
                                    true
                                } else {
                                    let t = rand_num_ty(r);
                                    if let Some(c) = gen_const(r, t) {
                                        args.push(c);
                                    }
                                    true
                                }
                            }
                        },
                        _ => false,
                    }
                }
            }
            _ => false,
        };
        if ok {
            return kind;
        }
    }
    p.trivia = r.next();
    "trivia"
}
fn remember_gone(p: &mut Program, f: &Field) {
    if let Some(n) = &f.name {
        p.gone.insert(f.id, n.clone());
    }
}
fn locals_of(f: &Field) -> Vec<(Id, bool)> {
    match &f.k {
        FieldK::Func { sig, locals, .. } if !type_only(sig) => {
            sig.params.iter().chain(locals.iter()).flat_map(|g| g.tys.iter().take(if g.name.is_some() { 1 } else { 99 }).map(|t| (t.0, g.name.is_some()))).collect()
        }
        _ => vec![],
    }
}
fn collect_refs<'a>(i: &'a mut Instr, out: &mut Vec<(DK, &'a mut Ref)>) {
    match i {
        Instr::Plain { imms, args, .. } => {
            for im in imms {
                match im {
                    Imm::Ref(k, x) => out.push((*k, x)),
                    Imm::TypeUse(x) => out.push((DK::Type, x)),
                    _ => {}
                }
            }
            args.iter_mut().for_each(|a| collect_refs(a, out));
        }
        Instr::Block { cond, body, els, .. } => cond.iter_mut().chain(body.iter_mut()).chain(els.iter_mut().flatten()).for_each(|a| collect_refs(a, out)),
    }
}
fn count_blocks(i: &Instr) -> usize {
    match i {
        Instr::Plain { args, .. } => args.iter().map(count_blocks).sum(),
        Instr::Block { cond, body, els, .. } => 1 + cond.iter().chain(body).chain(els.iter().flatten()).map(count_blocks).sum::<usize>(),
    }
}
fn with_block(i: &mut Instr, arg: bool, k: &mut usize, f: &mut dyn FnMut(&mut Instr, bool)) -> bool {
    if let Instr::Block { .. } = i {
        if *k == 0 {
            f(i, arg);
            return true;
        }
        *k -= 1;
    }
    match i {
        Instr::Plain { args, .. } => args.iter_mut().any(|a| with_block(a, true, k, f)),
        Instr::Block { cond, body, els, .. } => cond.iter_mut().any(|a| with_block(a, true, k, f)) || body.iter_mut().chain(els.iter_mut().flatten()).any(|a| with_block(a, false, k, f)),
    }
}
fn names_map(p: &Program, m: usize) -> HashMap<Id, bool> {
    let mut out = HashMap::new();
    for f in &p.modules[m].fields {
        out.insert(f.id, f.name.is_some());
        if let FieldK::Func { sig, locals, .. } = &f.k {
            for g in sig.params.iter().chain(locals.iter()) {
                for t in &g.tys {
                    out.insert(t.0, g.name.is_some());
                }
            }
        }
    }
    out
}
fn collect_instrs<'a>(i: &'a mut Instr, out: &mut Vec<&'a mut Instr>) {
    // only leaves-first collection is possible with unique borrows: pick children or the node
    match i {
        Instr::Plain { args, .. } if args.is_empty() => out.push(i),
        Instr::Plain { .. } => {
            // SAFETY-free alternative: expose either the instruction or its arguments, by name length
            let take_self = match &*i {
                Instr::Plain { name, args, .. } => (name.len() + args.len()) % 2 == 0,
                _ => true,
            };
            if take_self {
                out.push(i);
            } else if let Instr::Plain { args, .. } = i {
                args.iter_mut().for_each(|a| collect_instrs(a, out));
            }
        }
        Instr::Block { cond, body, els, .. } => {
            cond.iter_mut().for_each(|a| collect_instrs(a, out));
            body.iter_mut().for_each(|a| collect_instrs(a, out));
            if let Some(e) = els {
                e.iter_mut().for_each(|a| collect_instrs(a, out));
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cls {
    LParen,
    RParen,
    Kw,
    Ident,
    Int,
    UInt,
    Float,
    Str,
    ValTy,
    RefTy,
    Instr,
    MemArg,
    Heap,
}
