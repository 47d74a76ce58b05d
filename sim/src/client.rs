//! The simulated editor: decides what to send, owns both ends of the pipes, records the history.
use crate::emit::{emit, Em};
use crate::gen::{self, Cls, Program, DK};
use crate::text::{self, Lines};
use serde_json::{json, Value};
use simkern::{Env, Rng, World};
use std::collections::VecDeque;
use std::rc::Rc;

pub const METHODS: &[&str] = &[
    "textDocument/hover",
    "textDocument/definition",
    "textDocument/declaration",
    "textDocument/typeDefinition",
    "textDocument/references",
    "textDocument/prepareRename",
    "textDocument/rename",
    "textDocument/completion",
    "textDocument/documentSymbol",
    "textDocument/foldingRange",
    "textDocument/selectionRange",
    "textDocument/semanticTokens/full",
    "textDocument/semanticTokens/range",
    "textDocument/inlayHint",
    "textDocument/formatting",
    "textDocument/rangeFormatting",
    "textDocument/codeAction",
    "textDocument/diagnostic",
    "textDocument/prepareCallHierarchy",
    "callHierarchy/incomingCalls",
    "callHierarchy/outgoingCalls",
];
pub const HOVER: usize = 0;
pub const DEFINITION: usize = 1;
pub const DECLARATION: usize = 2;
pub const TYPEDEF: usize = 3;
pub const REFERENCES: usize = 4;
pub const PREP_RENAME: usize = 5;
pub const RENAME: usize = 6;
pub const COMPLETION: usize = 7;
pub const SYMBOLS: usize = 8;
pub const FOLDING: usize = 9;
pub const SELECTION: usize = 10;
pub const SEM_FULL: usize = 11;
pub const SEM_RANGE: usize = 12;
pub const INLAY: usize = 13;
pub const FORMAT: usize = 14;
pub const RANGE_FORMAT: usize = 15;
pub const ACTION: usize = 16;
pub const DIAGNOSTIC: usize = 17;
pub const PREP_CALLS: usize = 18;
pub const INCOMING: usize = 19;
pub const OUTGOING: usize = 20;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OpK {
    Open,
    Edit,
    Undo,
    Garble,
    /// begin to type something, ask for completion, perhaps take it back
    Type,
    Close,
    Req(usize),
    /// request, wait for the answer, apply it to the document, send the result back
    Apply(usize),
    /// prepare call hierarchy, wait, then ask for callers and callees of what came back
    Calls,
    /// notifications and messages a server is to ignore
    Noise,
    /// unknown methods, wrong parameters, unknown documents
    BadReq,
    Sleep,
    /// wait for every outstanding answer
    Sync,
}
#[derive(Clone, Copy, Debug)]
pub struct PlanOp {
    pub k: OpK,
    pub seed: u64,
    pub delay: u32,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ending {
    Clean,
    /// shutdown, answer awaited, then nothing
    NoExit,
    /// shutdown and exit sent without waiting for the answer
    Eager,
    ExitOnly,
    Eof,
    /// end of input in the middle of a message
    EofMid,
    /// the client stops reading: writes fail
    Broken,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub pull: bool,
    pub sem_types: Option<Vec<String>>,
    /// seed of the parts of the client's introduction that are none of the server's business, 0: none
    pub init: u64,
    pub window: usize,
    pub docs: usize,
    pub size: usize,
    pub ending: Ending,
    /// Broken/Eof strike after this many operations
    pub strike: usize,
    /// the ending strikes during the handshake: 1 before `initialize`, 2 right after it, 3 after its answer
    pub early: u32,
    /// positions may lie outside the document, ranges may be inverted
    pub wild: bool,
    /// documents are only broken by blanks inside memory arguments
    pub mem_fix: bool,
    /// documents are mostly broken by one mistake at a known place
    pub spoil: bool,
    pub scale: gen::Scale,
    pub flavor: usize,
    /// only positions whose token is certain
    pub focus_refs: u32,
    pub string_ids: bool,
    pub multi_change: bool,
    pub clean_programs: bool,
}

#[derive(Clone, Debug)]
pub enum Focus {
    None,
    At { off: usize, tok: Option<usize> },
    Span { s: usize, e: usize },
    /// call hierarchy item of a definition
    Item(usize),
    Typing(Rc<crate::model::typing::Typed>),
    Wild,
}
#[derive(Debug)]
pub struct Snap {
    pub doc: usize,
    pub uri: String,
    pub text: Rc<String>,
    pub em: Option<Rc<Em>>,
    pub open: bool,
    /// number of content changes of this document so far
    pub ver: usize,
    pub edit: String,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub id: Value,
    pub m: Option<usize>,
    pub msg: Rc<Value>,
    pub snap: Option<Rc<Snap>>,
    pub focus: Focus,
    pub reply: Option<Rc<Value>>,
    pub replies: usize,
    /// index in `sent`
    pub at: usize,
    /// reply's index in `got`
    pub reply_at: usize,
    /// request belonging to a follow-up: index of the parent record
    pub parent: Option<usize>,
    pub expects_reply: bool,
}
/// open/change/close of a document, for the diagnostics protocol
#[derive(Clone, Debug)]
pub struct DocEv {
    pub snap: Rc<Snap>,
    pub close: bool,
    pub at: usize,
}
pub struct Doc {
    pub uri: String,
    pub open: bool,
    pub prog: Program,
    pub em: Option<Rc<Em>>,
    pub text: Rc<String>,
    pub past: Vec<(Program, Option<Rc<Em>>, Rc<String>)>,
    pub version: i64,
    pub ver: usize,
    pub edit: String,
    snap: Option<Rc<Snap>>,
}
#[derive(Clone, Debug, PartialEq)]
enum Block {
    No,
    /// wait for the reply of this record, then apply / follow up
    Reply(usize, OpK),
    All,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Phase {
    Start,
    InitSent,
    Run,
    ShutSent,
    Ended,
}
pub enum Mode {
    Plan(Vec<PlanOp>),
    /// messages sent as they are; each request is awaited when `lockstep`
    Script { msgs: Vec<Value>, lockstep: bool },
}
pub struct Client {
    pub cfg: Config,
    pub mode: Mode,
    next: usize,
    outbuf: VecDeque<u8>,
    inbuf: Vec<u8>,
    pub sent: Vec<Rc<Value>>,
    pub got: Vec<Rc<Value>>,
    /// number of messages sent when each was received
    pub got_when: Vec<usize>,
    pub recs: Vec<Rec>,
    pub docev: Vec<DocEv>,
    pub docs: Vec<Doc>,
    phase: Phase,
    block: Block,
    ready_at: u64,
    next_id: i64,
    pub malformed: Option<String>,
    pub end_step: Option<u64>,
    pub probes: std::collections::BTreeMap<String, u64>,
    pub clamp: Vec<String>,
    pub viol: Vec<(String, String)>,
    pub applied: Vec<(usize, Rc<Snap>)>,
    pub fixes: Vec<crate::model::act::MemFix>,
    /// documents with one mistake in their syntax, and where it is
    pub spoils: Vec<(Rc<String>, text::Rng_)>,
    pub shutdown_rec: Option<usize>,
    last_edit: u64,
}

/// URIs whose neighbours in the list are easily taken for each other.
const URIS: &[&str] = &[
    "file:///w/a.wat",
    "untitled:Untitled-1",
    "file:///w%20x/%C3%A9.wat",
    "file:///w/a.wat2",
    "file:///w/a.wat",
    "git:/w/a.wat",
    "git:/w/a.wat?ref=HEAD",
    "git:/w/a.wat?%7B%22ref%22%3A%22%22%7D",
    "file:///w/a.wat?v=1",
    "file:///w/a.wat#v1",
    "file:///w/A.wat",
    "file:///W/A.WAT",
    "file:///w/%61.wat",
    "file:///w/a%2Ewat",
    "file:///w//a.wat",
    "file:///w/./a.wat",
    "file://host/w/a.wat",
    "vscode-remote://ssh-remote%2Bhost/w/a.wat",
    "vscode-remote://wsl%2Bhost/w/a.wat",
    "untitled:Untitled-1",
    "untitled:Untitled-10",
    "untitled:untitled-1",
    "file:///w/a",
    "file:///a.wat",
    "file:///c%3A/w/a.wat",
    "file:///C:/w/a.wat",
    "file:///c:/w/a.wat",
    "inmemory://model/1",
    "inmemory://model/2",
];
/// Document number `i` of a session; `flavor` says where in the list of URIs the session begins.
pub fn uri_of(i: usize, flavor: usize) -> String {
    if i > 6 {
        return format!("file:///w/{i}/a.wat");
    }
    let mut seen = vec![];
    for k in 0.. {
        let u = URIS[(flavor + k) % URIS.len()];
        if !seen.contains(&u) {
            seen.push(u);
        }
        if seen.len() > i {
            break;
        }
    }
    seen[i].to_string()
}

impl Client {
    pub fn new(cfg: Config, mode: Mode) -> Client {
        Client {
            cfg,
            mode,
            next: 0,
            outbuf: VecDeque::new(),
            inbuf: vec![],
            sent: vec![],
            got: vec![],
            got_when: vec![],
            recs: vec![],
            docev: vec![],
            docs: vec![],
            phase: Phase::Start,
            block: Block::No,
            ready_at: 0,
            next_id: 0,
            malformed: None,
            end_step: None,
            probes: Default::default(),
            clamp: vec![],
            viol: vec![],
            applied: vec![],
            fixes: vec![],
            spoils: vec![],
            shutdown_rec: None,
            last_edit: 0,
        }
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }
    fn send(&mut self, v: Value) -> usize {
        let body = v.to_string();
        self.outbuf.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
        self.outbuf.extend(body.bytes());
        self.sent.push(Rc::new(v));
        self.sent.len() - 1
    }
    fn request(&mut self, method: &str, m: Option<usize>, params: Value, snap: Option<Rc<Snap>>, focus: Focus) -> usize {
        self.next_id += 1;
        let id = if self.cfg.string_ids && self.next_id % 3 == 0 { json!(format!("req-{}", self.next_id)) } else { json!(self.next_id) };
        let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            v["params"] = params;
        }
        let at = self.send(v);
        let msg = self.sent[at].clone();
        self.recs.push(Rec { id, m, msg, snap, focus, reply: None, replies: 0, at, reply_at: 0, parent: None, expects_reply: true });
        self.recs.len() - 1
    }
    fn notify(&mut self, method: &str, params: Value) -> usize {
        let mut v = json!({"jsonrpc": "2.0", "method": method});
        if !params.is_null() {
            v["params"] = params;
        }
        self.send(v)
    }
    pub fn outstanding(&self) -> usize {
        self.recs.iter().filter(|r| r.expects_reply && r.replies == 0).count()
    }
    pub fn init_params(&self) -> Value {
        let mut td = json!({"hover": {"contentFormat": ["markdown"]}});
        if self.cfg.pull {
            td["diagnostic"] = json!({"dynamicRegistration": false});
        }
        if let Some(t) = &self.cfg.sem_types {
            td["semanticTokens"] = json!({
                "requests": {"full": true, "range": true},
                "tokenTypes": t, "tokenModifiers": [], "formats": ["relative"]
            });
        }
        let mut r = Rng::new(self.cfg.init);
        let mut p = json!({"processId": null, "rootUri": null, "capabilities": {"textDocument": td}});
        // what does not concern this server
        if self.cfg.init == 0 {
            return p;
        }
        if r.chance(500) {
            let l: &[&str] = [&["utf-16"][..], &["utf-8", "utf-16"], &["utf-32", "utf-8", "utf-16"], &["utf-16", "utf-8"]][r.usize(4)];
            p["capabilities"]["general"] = json!({"positionEncodings": l, "staleRequestSupport": {"cancel": true, "retryOnContentModified": []}});
        }
        if r.chance(300) {
            p["capabilities"]["workspace"] = json!({"applyEdit": true, "configuration": true, "diagnostics": {"refreshSupport": true}, "workspaceFolders": true});
            p["capabilities"]["window"] = json!({"workDoneProgress": true});
        }
        if r.chance(300) {
            p["processId"] = json!(r.below(40_000));
            p["clientInfo"] = json!({"name": "sim", "version": "1"});
            p["trace"] = json!("verbose");
        }
        if r.chance(300) {
            p["rootUri"] = json!("file:///w");
            p["workspaceFolders"] = json!([{"uri": "file:///w", "name": "w"}]);
            p["initializationOptions"] = json!({"format": {"indentWidth": 7}, "x": [null, 1]});
        }
        p
    }
    fn step(&mut self, w: &mut World) {
        match self.phase {
            Phase::Start if self.cfg.early == 1 && self.struck() => self.finish(w),
            Phase::Start => {
                let p = self.init_params();
                self.request("initialize", None, p, None, Focus::None);
                self.phase = Phase::InitSent;
                self.block = if self.cfg.early == 2 { Block::No } else { Block::Reply(0, OpK::Sync) };
            }
            Phase::InitSent if self.cfg.early > 0 && self.struck() => self.finish(w),
            Phase::InitSent => {
                self.notify("initialized", json!({}));
                self.phase = Phase::Run;
                self.block = Block::No;
            }
            Phase::Run => {
                if let Block::Reply(r, k) = self.block.clone() {
                    self.block = Block::No;
                    self.follow(r, k);
                    return;
                }
                self.block = Block::No;
                match &self.mode {
                    Mode::Plan(ops) => {
                        if self.next < ops.len() && !(self.struck() && self.next >= self.cfg.strike) {
                            let op = ops[self.next];
                            self.next += 1;
                            self.op(w, op);
                            if let Mode::Plan(ops) = &self.mode {
                                if let Some(n) = ops.get(self.next) {
                                    self.ready_at = w.now_ms + n.delay as u64;
                                }
                            }
                        } else {
                            self.finish(w);
                        }
                    }
                    Mode::Script { msgs, lockstep } => {
                        if self.next < msgs.len() {
                            let v = msgs[self.next].clone();
                            let lockstep = *lockstep;
                            self.next += 1;
                            let is_req = v.get("id").is_some() && v.get("method").is_some();
                            let at = self.send(v.clone());
                            if is_req {
                                let m = v["method"].as_str().and_then(|x| METHODS.iter().position(|y| *y == x));
                                let msg = self.sent[at].clone();
                                self.recs.push(Rec {
                                    id: v["id"].clone(),
                                    m,
                                    msg,
                                    snap: None,
                                    focus: Focus::None,
                                    reply: None,
                                    replies: 0,
                                    at,
                                    reply_at: 0,
                                    parent: None,
                                    expects_reply: true,
                                });
                            }
                            if lockstep {
                                self.block = Block::All;
                            }
                        } else {
                            self.finish(w);
                        }
                    }
                }
            }
            Phase::ShutSent => {
                match self.cfg.ending {
                    Ending::NoExit => {}
                    _ => {
                        self.notify("exit", Value::Null);
                    }
                }
                self.phase = Phase::Ended;
            }
            Phase::Ended => {}
        }
    }
    fn struck(&self) -> bool {
        matches!(self.cfg.ending, Ending::Eof | Ending::EofMid | Ending::Broken | Ending::ExitOnly)
    }
    fn finish(&mut self, w: &mut World) {
        match self.cfg.ending {
            Ending::Clean | Ending::NoExit => {
                let r = self.request("shutdown", None, Value::Null, None, Focus::None);
                self.shutdown_rec = Some(r);
                self.phase = Phase::ShutSent;
                self.block = Block::Reply(r, OpK::Sync);
            }
            Ending::Eager => {
                let r = self.request("shutdown", None, Value::Null, None, Focus::None);
                self.shutdown_rec = Some(r);
                self.notify("exit", Value::Null);
                self.phase = Phase::Ended;
            }
            Ending::ExitOnly => {
                self.notify("exit", Value::Null);
                self.phase = Phase::Ended;
            }
            Ending::Eof => {
                self.phase = Phase::Ended;
                self.probe("fault:eof");
            }
            Ending::EofMid => {
                let v = json!({"jsonrpc": "2.0", "id": 99999, "method": "textDocument/hover", "params": {}});
                let body = v.to_string();
                let head = format!("Content-Length: {}\r\n\r\n", body.len());
                let all: Vec<u8> = head.bytes().chain(body.bytes()).collect();
                let cut = 1 + (self.next * 7 + self.sent.len() * 13) % (all.len() - 1);
                self.outbuf.extend(&all[..cut]);
                self.phase = Phase::Ended;
                self.probe("fault:eof-mid-message");
            }
            Ending::Broken => {
                w.stdout_broken = true;
                w.stdout.clear();
                self.probe("fault:broken-output");
                // a few more messages, so that the server has something to write
                for _ in 0..3 {
                    let r = self.request("textDocument/hover", None, json!({"textDocument": {"uri": uri_of(0, self.cfg.flavor)}, "position": {"line": 0, "character": 0}}), None, Focus::None);
                    self.recs[r].expects_reply = false;
                }
                self.phase = Phase::Ended;
            }
        }
        let _ = w;
    }
    pub fn snap(&mut self, d: usize) -> Rc<Snap> {
        let doc = &mut self.docs[d];
        if let Some(s) = &doc.snap {
            return s.clone();
        }
        let s = Rc::new(Snap {
            doc: d,
            uri: doc.uri.clone(),
            text: doc.text.clone(),
            em: doc.em.clone(),
            open: doc.open,
            ver: doc.ver,
            edit: doc.edit.clone(),
        });
        doc.snap = Some(s.clone());
        s
    }
    /// Sends the document's current content as didOpen or didChange.
    fn publish(&mut self, d: usize, r: &mut Rng) {
        self.docs[d].ver += 1;
        self.docs[d].version += 1 + r.below(3) as i64;
        if !self.docs[d].open && self.docs[d].version > 3 && r.chance(400) {
            // numbers may begin anew with every opening
            self.docs[d].version = r.below(2) as i64;
        }
        self.docs[d].snap = None;
        let text = self.docs[d].text.to_string();
        let uri = self.docs[d].uri.clone();
        let version = self.docs[d].version;
        let at = if !self.docs[d].open {
            self.docs[d].open = true;
            self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "wat", "version": version, "text": text}}))
        } else {
            let changes = if self.cfg.multi_change && r.chance(150) {
                self.probe("multi-change");
                json!([{"text": "(module (func $stale))"}, {"text": text}])
            } else {
                json!([{"text": text}])
            };
            self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}))
        };
        self.docs[d].snap = None;
        let snap = self.snap(d);
        self.docev.push(DocEv { snap, close: false, at });
    }
    fn pick_doc(&mut self, r: &mut Rng) -> Option<usize> {
        let open: Vec<usize> = (0..self.docs.len()).filter(|d| self.docs[*d].open).collect();
        if open.is_empty() {
            None
        } else {
            Some(*r.pick(&open))
        }
    }
    fn set_prog(&mut self, d: usize, p: Program, edit: &str) {
        let em = Rc::new(emit(&p));
        let doc = &mut self.docs[d];
        let old = (doc.prog.clone(), doc.em.clone(), doc.text.clone());
        doc.past.push(old);
        if doc.past.len() > 4 {
            doc.past.remove(0);
        }
        doc.prog = p;
        doc.text = em.text.clone();
        doc.em = Some(em);
        doc.edit = edit.to_string();
    }
    fn op(&mut self, w: &mut World, op: PlanOp) {
        let mut r = Rng::new(op.seed);
        match op.k {
            OpK::Open => {
                // reopen a closed one or open another
                let closed: Vec<usize> = (0..self.docs.len()).filter(|d| !self.docs[*d].open).collect();
                if !closed.is_empty() && (self.docs.len() >= self.cfg.docs || r.chance(500)) {
                    let d = *r.pick(&closed);
                    if r.chance(600) {
                        let mut p = self.docs[d].prog.clone();
                        let e = gen::edit(&mut p, &mut r);
                        self.set_prog(d, p, e);
                    }
                    self.probe("op:reopen");
                    self.publish(d, &mut r);
                } else if self.docs.len() < self.cfg.docs {
                    let size = 1 + r.usize(self.cfg.size);
                    let prog = if !self.docs.is_empty() && r.chance(300) {
                        // a near copy of another document: same names, other layout
                        let mut p = self.docs[0].prog.clone();
                        gen::edit(&mut p, &mut r);
                        p
                    } else {
                        let mut p = gen::gen_program(&mut r, size, self.cfg.scale);
                        if self.cfg.clean_programs {
                            p.style.comments = false;
                        }
                        p
                    };
                    let em = Rc::new(emit(&prog));
                    let d = self.docs.len();
                    self.docs.push(Doc {
                        uri: uri_of(d, self.cfg.flavor),
                        open: false,
                        text: em.text.clone(),
                        em: Some(em),
                        prog,
                        past: vec![],
                        version: 0,
                        ver: 0,
                        edit: "open".into(),
                        snap: None,
                    });
                    self.probe("op:open");
                    self.publish(d, &mut r);
                } else {
                    self.op(w, PlanOp { k: OpK::Edit, ..op });
                }
            }
            OpK::Edit => {
                if let Some(d) = self.pick_doc(&mut r) {
                    let mut p = self.docs[d].prog.clone();
                    let n = if r.chance(800) { 1 } else { 1 + r.usize(3) };
                    let mut name = "";
                    for _ in 0..n {
                        name = gen::edit(&mut p, &mut r);
                    }
                    if self.cfg.clean_programs {
                        p.style.comments = false;
                    }
                    self.set_prog(d, p, name);
                    self.probe(&format!("edit:{name}"));
                    self.publish(d, &mut r);
                } else {
                    self.op(w, PlanOp { k: OpK::Open, ..op });
                }
            }
            OpK::Undo => {
                if let Some(d) = self.pick_doc(&mut r) {
                    if let Some((p, em, t)) = self.docs[d].past.pop() {
                        let doc = &mut self.docs[d];
                        doc.prog = p;
                        doc.em = em;
                        doc.text = t;
                        doc.edit = "undo".into();
                        self.probe("edit:undo");
                        self.publish(d, &mut r);
                    }
                }
            }
            OpK::Garble => {
                if let Some(d) = self.pick_doc(&mut r) {
                    let mut t = garble(&self.docs[d].text, &mut r);
                    if self.cfg.mem_fix {
                        let Some(f) = self.docs[d].em.as_ref().and_then(|em| crate::model::act::loosen(em, &mut r)) else { return };
                        t = f.text.to_string();
                        self.fixes.push(f);
                        self.probe("memarg-loosened");
                    }
                    if self.cfg.spoil && r.chance(700) {
                        let Some((text, at)) = self.docs[d].em.as_ref().and_then(|em| crate::model::diag::spoil(em, &mut r)) else { return };
                        t = text;
                        self.spoils.push((Rc::new(t.clone()), at));
                        self.probe("spoiled");
                    }
                    let doc = &mut self.docs[d];
                    let old = (doc.prog.clone(), doc.em.clone(), doc.text.clone());
                    doc.past.push(old);
                    doc.text = match self.fixes.last() {
                        Some(f) if *f.text == t => f.text.clone(),
                        _ if self.spoils.last().is_some_and(|s| *s.0 == t) => self.spoils.last().unwrap().0.clone(),
                        _ => Rc::new(t),
                    };
                    doc.em = None;
                    doc.edit = "garble".into();
                    self.probe("edit:garble");
                    self.publish(d, &mut r);
                }
            }
            OpK::Type => {
                let Some(d) = self.pick_doc(&mut r) else { return };
                let Some(em) = self.docs[d].em.clone() else { return };
                let Some(t) = crate::model::typing::begin(&em, &mut r) else { return };
                let doc = &mut self.docs[d];
                let old = (doc.prog.clone(), doc.em.clone(), doc.text.clone());
                doc.past.push(old);
                doc.text = t.text.clone();
                doc.em = None;
                doc.edit = "typing".into();
                self.probe("edit:typing");
                self.publish(d, &mut r);
                let at = Lines::new(&t.text).pos(&t.text, t.off);
                let uri = self.docs[d].uri.clone();
                let snap = self.snap(d);
                let params = json!({"textDocument": {"uri": uri}, "position": text::pos_json(at)});
                self.request(METHODS[COMPLETION], Some(COMPLETION), params, Some(snap), Focus::Typing(Rc::new(t)));
                if r.chance(700) {
                    if let Some((p, em, t)) = self.docs[d].past.pop() {
                        let doc = &mut self.docs[d];
                        doc.prog = p;
                        doc.em = em;
                        doc.text = t;
                        doc.edit = "undo".into();
                        self.publish(d, &mut r);
                    }
                }
            }
            OpK::Close => {
                if let Some(d) = self.pick_doc(&mut r) {
                    let uri = self.docs[d].uri.clone();
                    self.docs[d].open = false;
                    self.docs[d].snap = None;
                    let at = self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
                    let snap = self.snap(d);
                    self.docev.push(DocEv { snap, close: true, at });
                    self.probe("op:close");
                } else {
                    self.op(w, PlanOp { k: OpK::Open, ..op });
                }
            }
            OpK::Req(m) => {
                if let Some(d) = self.pick_doc(&mut r) {
                    let q = self.make(m, d, &mut r);
                    let snap = self.snap(d);
                    self.request(METHODS[m], Some(m), q.0, Some(snap), q.1);
                    self.probe(&format!("req:{}", METHODS[m].rsplit_once("ument/").map_or(METHODS[m], |x| x.1)));
                }
            }
            OpK::Apply(m) => {
                if let Some(d) = self.pick_doc(&mut r) {
                    let q = self.make(m, d, &mut r);
                    let snap = self.snap(d);
                    let rec = self.request(METHODS[m], Some(m), q.0, Some(snap), q.1);
                    self.block = Block::Reply(rec, op.k);
                    self.last_edit = op.seed;
                }
            }
            OpK::Calls => {
                if let Some(d) = self.pick_doc(&mut r) {
                    let q = self.make(PREP_CALLS, d, &mut r);
                    let snap = self.snap(d);
                    let rec = self.request(METHODS[PREP_CALLS], Some(PREP_CALLS), q.0, Some(snap), q.1);
                    self.block = Block::Reply(rec, op.k);
                }
            }
            OpK::Noise => self.noise(&mut r),
            OpK::BadReq => self.bad_request(&mut r),
            OpK::Sleep => {
                self.ready_at = w.now_ms + r.range(1, 40_000);
                self.probe("op:sleep");
            }
            OpK::Sync => self.block = Block::All,
        }
    }
    fn noise(&mut self, r: &mut Rng) {
        self.probe("op:noise");
        let uri = uri_of(r.usize(3), self.cfg.flavor);
        match r.usize(9) {
            0 => {
                self.notify("$/cancelRequest", json!({"id": r.below(20)}));
            }
            1 => {
                self.notify("$/setTrace", json!({"value": "off"}));
            }
            2 => {
                self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}}));
            }
            3 => {
                self.notify("workspace/didChangeConfiguration", json!({"settings": {}}));
            }
            4 => {
                self.notify("some/unknownNotification", json!({"x": [1, 2, {"y": null}]}));
            }
            5 => {
                self.send(json!({"jsonrpc": "2.0", "id": 4242, "result": null}));
            }
            6 => {
                // right method, wrong parameters
                let m = *r.pick(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"]);
                let p = r.pick(&[json!({}), json!({"textDocument": 5}), json!([]), json!({"textDocument": {"uri": uri}})]).clone();
                if m != "textDocument/didClose" || p != json!({"textDocument": {"uri": uri}}) {
                    self.notify(m, p);
                }
            }
            7 => {
                // a change event without any change
                if let Some(d) = self.pick_doc(r) {
                    let uri = self.docs[d].uri.clone();
                    let v = self.docs[d].version;
                    self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": []}));
                }
            }
            _ => {
                self.send(json!({"jsonrpc": "2.0", "id": "weird", "error": {"code": 1, "message": "no"}}));
            }
        }
    }
    fn bad_request(&mut self, r: &mut Rng) {
        self.probe("op:badreq");
        match r.usize(4) {
            0 => {
                let m = *r.pick(&["workspace/symbol", "textDocument/implementation", "foo/bar", "textDocument/codeLens", "$/x", "workspace/executeCommand"]);
                self.request(m, None, json!({"query": ""}), None, Focus::None);
            }
            1 => {
                let m = r.usize(METHODS.len());
                let p = r
                    .pick(&[
                        json!({}),
                        json!([]),
                        json!({"textDocument": {"uri": 7}, "position": {"line": 0, "character": 0}}),
                        json!({"textDocument": {"uri": "file:///w/a.wat"}, "position": {"line": -1, "character": 0}}),
                        Value::Null,
                        json!("str"),
                    ])
                    .clone();
                self.request(METHODS[m], None, p, None, Focus::None);
            }
            2 => {
                // a document nobody opened
                let m = r.usize(METHODS.len());
                let mut uri = *r.pick(&["file:///never/opened.wat", "untitled:None", "file:///w/A.wat", "git:/w/a.wat", "file:///w/a.wat#v1"]);
                if (0..self.cfg.docs).any(|d| uri_of(d, self.cfg.flavor) == uri) {
                    uri = "file:///never/opened.wat";
                }
                let p = params_for(m, uri, (0, 0), (0, 3), r, None);
                self.request(METHODS[m], None, p, None, Focus::None);
            }
            _ => {
                // a closed document
                let closed: Vec<usize> = (0..self.docs.len()).filter(|d| !self.docs[*d].open).collect();
                if let Some(d) = closed.first() {
                    let m = r.usize(METHODS.len());
                    let uri = self.docs[*d].uri.clone();
                    let p = params_for(m, &uri, (0, 3), (1, 0), r, None);
                    self.request(METHODS[m], None, p, None, Focus::None);
                }
            }
        }
    }
    /// Parameters and focus of a request about an open document.
    fn make(&mut self, m: usize, d: usize, r: &mut Rng) -> (Value, Focus) {
        let doc = &self.docs[d];
        let uri = doc.uri.clone();
        let text = doc.text.clone();
        let lines = Lines::new(&text);
        if self.cfg.wild && r.chance(350) {
            let nl = lines.count() as u64;
            let pos = |r: &mut Rng| {
                let l = if r.chance(300) { r.below(nl + 40) as u32 } else { r.below(nl) as u32 };
                let c = match r.usize(4) {
                    0 => r.below(8) as u32,
                    1 => r.below(200) as u32,
                    2 => *r.pick(&[u32::MAX, i32::MAX as u32, 65536, 100000]),
                    _ => r.below(40) as u32,
                };
                let l = if r.chance(30) { u32::MAX } else { l };
                (l, c)
            };
            let (a, b) = (pos(r), pos(r));
            let new = r.pick(&["$ok", "bad", "$", "$a b", "$é", "", "$x)"]).to_string();
            self.probe("wild-position");
            return (params_for(m, &uri, a, b, r, Some(&new)), Focus::Wild);
        }
        let em = doc.em.clone();
        let uses_range = matches!(m, SEM_RANGE | INLAY | RANGE_FORMAT | ACTION);
        if uses_range {
            let broken = self.fixes.iter().find(|f| m == ACTION && Rc::ptr_eq(&f.text, &text)).filter(|_| r.chance(800));
            let (s, e) = match &em {
                _ if broken.is_some() => {
                    let f = broken.unwrap();
                    let mut a = bound(&text, f.s + r.usize(f.e - f.s + 1));
                    let mut b = bound(&text, f.s + r.usize(f.e - f.s + 1));
                    if a > b {
                        std::mem::swap(&mut a, &mut b);
                    }
                    (a, b)
                }
                Some(em) if !em.toks.is_empty() && r.chance(850) => {
                    let mut a = r.usize(em.toks.len());
                    if m == ACTION && r.chance(800) {
                        let c: Vec<usize> = (0..em.toks.len()).filter(|t| matches!(em.ts(*t), "param" | "result" | "local")).collect();
                        if !c.is_empty() {
                            a = *r.pick(&c);
                        }
                    }
                    match r.usize(5) {
                        0 => (0, text.len()),
                        1 => (em.toks[a].s, em.toks[a].e),
                        4 => {
                            // something of a kind that may be rare
                            let mut kinds: Vec<crate::emit::NK> = vec![];
                            for n in &em.nodes {
                                if n.first < n.last && !kinds.contains(&n.kind) {
                                    kinds.push(n.kind);
                                }
                            }
                            let k = *r.pick(&kinds);
                            let of: Vec<usize> = (0..em.nodes.len()).filter(|n| em.nodes[*n].kind == k && em.nodes[*n].first < em.nodes[*n].last).collect();
                            let n = &em.nodes[*r.pick(&of)];
                            let (x, y) = if r.chance(600) { (n.first, n.last - 1) } else { (n.first + r.usize(n.last - n.first), n.first + r.usize(n.last - n.first)) };
                            (em.toks[x.min(y)].s, em.toks[x.max(y)].e)
                        }
                        2 => {
                            let b = r.usize(em.toks.len());
                            let (a, b) = (a.min(b), a.max(b));
                            (em.toks[a].s, em.toks[b].e)
                        }
                        _ => {
                            let n = em.toks[a].node;
                            let anc = em.ancestors(n);
                            let k = (*r.pick(&[0usize, 0, 1, 1, 2, 3])).min(anc.len() - 1);
                            em.span(anc[k])
                        }
                    }
                }
                _ => {
                    let mut a = bound(&text, r.usize(text.len() + 1));
                    let mut b = bound(&text, r.usize(text.len() + 1));
                    if a > b {
                        std::mem::swap(&mut a, &mut b);
                    }
                    (a, b)
                }
            };
            let p = params_for(m, &uri, lines.pos(&text, s), lines.pos(&text, e), r, None);
            return (p, Focus::Span { s, e });
        }
        if matches!(m, INCOMING | OUTGOING) {
            if let Some(em) = &em {
                let funcs: Vec<usize> = (0..em.defs.len()).filter(|d| em.defs[*d].dk == DK::Func).collect();
                if !funcs.is_empty() {
                    let f = *r.pick(&funcs);
                    let item = json!({
                        "name": em.defs[f].name.clone().unwrap_or_default(), "kind": 12, "uri": uri,
                        "range": text::range_json(em.nrange(em.defs[f].node)),
                        "selectionRange": text::range_json(em.def_range(f)),
                    });
                    return (json!({"item": item}), Focus::Item(f));
                }
            }
        }
        let taken: Vec<&str> = match &em {
            Some(em) if m == RENAME && r.chance(200) => em.defs.iter().filter_map(|d| d.name.as_deref()).collect(),
            _ => vec![],
        };
        let new = if !taken.is_empty() {
            // a name something has already, here or elsewhere
            self.probe("rename-to-known");
            r.pick(&taken).to_string()
        } else if r.chance(700) {
            format!("$ren{}", r.below(1000))
        } else if r.chance(650) {
            // mostly one strange character somewhere in it
            let mut n = format!("$r{}n", r.below(1000)).chars().collect::<Vec<_>>();
            for _ in 0..1 + r.usize(2) {
                let c = *r.pick(&['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '/', ':', '<', '=', '>', '?', '@', '\\', '^', '_', '`', '|', '~', '"', ',', ';', '(', ')', '[', ']', '{', '}', ' ', '\t', '\n', '\0', '\x7f', 'é', 'ß', '日', '٣', '🦀']);
                n.insert(r.usize(n.len() + 1).max(usize::from(r.chance(950))), c);
            }
            n.into_iter().collect()
        } else { r.pick(&["$!x", "$0", "nope", "$", "$a b", "x y", ""]).to_string() };
        let (off, tok) = match &em {
            Some(em) if !em.toks.is_empty() && r.chance(930) => pick_pos(em, r, self.cfg.focus_refs, m),
            _ => (bound(&text, r.usize(text.len() + 1)), None),
        };
        // two positions inside one surrogate pair or CRLF never arise: offsets are char boundaries
        let pos = lines.pos(&text, off);
        if m == SELECTION {
            // several cursors
            let mut at = vec![text::pos_json(pos)];
            if let Some(em) = em.filter(|em| !em.toks.is_empty() && r.chance(500)) {
                for _ in 0..if r.chance(930) { 1 + r.usize(3) } else { r.usize(60) } {
                    let (o, _) = pick_pos(&em, r, 300, m);
                    at.insert(r.usize(at.len() + 1), text::pos_json(lines.pos(&text, o)));
                }
            }
            return (json!({"textDocument": {"uri": uri}, "positions": at}), Focus::At { off, tok });
        }
        (params_for(m, &uri, pos, pos, r, Some(&new)), Focus::At { off, tok })
    }
    fn follow(&mut self, rec: usize, k: OpK) {
        let Some(reply) = self.recs[rec].reply.clone() else { return };
        let Some(snap) = self.recs[rec].snap.clone() else { return };
        match k {
            OpK::Calls => {
                if let Some(items) = reply.get("result").and_then(|v| v.as_array()) {
                    let items = items.clone();
                    for it in items {
                        let f = match (&snap.em, it.get("range").and_then(text::jrange)) {
                            (Some(em), Some(rg)) => (0..em.defs.len()).find(|d| em.defs[*d].dk == DK::Func && em.nrange(em.defs[*d].node) == rg),
                            _ => None,
                        };
                        for m in [INCOMING, OUTGOING] {
                            let x = self.request(METHODS[m], Some(m), json!({"item": it}), Some(snap.clone()), f.map_or(Focus::None, Focus::Item));
                            self.recs[x].parent = Some(rec);
                            self.probe("calls-followed");
                        }
                    }
                }
            }
            OpK::Apply(m) => {
                let edits = match m {
                    RENAME => reply.pointer("/result/changes").and_then(|c| c.get(&snap.uri)).cloned(),
                    FORMAT | RANGE_FORMAT => reply.get("result").filter(|v| v.is_array()).cloned(),
                    _ => reply
                        .get("result")
                        .and_then(|v| v.as_array())
                        .and_then(|a| a.get(self.last_edit as usize % a.len().max(1)))
                        .and_then(|a| a.pointer("/edit/changes"))
                        .and_then(|c| c.get(&snap.uri))
                        .cloned(),
                };
                let Some(edits) = edits else { return };
                let Ok(new) = text::apply_edits(&snap.text, &edits) else { return };
                let d = snap.doc;
                if !self.docs[d].open || !Rc::ptr_eq(&self.docs[d].text, &snap.text) {
                    return;
                }
                let mut prog = None;
                let mut em = snap.em.as_ref().and_then(|em| crate::oracle::applied_em(em, &self.recs[rec], m, &reply, self.last_edit as usize, &new));
                if m == ACTION {
                    if let Some(f) = self.fixes.iter().find(|f| Rc::ptr_eq(&f.text, &snap.text) && *f.was == new) {
                        em = Some((*f.em).clone());
                    } else if let (Some(_), Some((p, e))) = (&snap.em, crate::model::act::applied(&self.docs[d].prog, &new)) {
                        prog = Some(p);
                        em = Some(e);
                    }
                }
                let doc = &mut self.docs[d];
                let old = (doc.prog.clone(), doc.em.clone(), doc.text.clone());
                doc.past.push(old);
                doc.text = Rc::new(new);
                if let Some(p) = prog {
                    doc.prog = p;
                }
                doc.em = em.map(|mut e| {
                    e.text = doc.text.clone();
                    Rc::new(e)
                });
                doc.edit = format!("apply:{}", METHODS[m]);
                self.probe(&format!("applied:{}", METHODS[m]));
                let mut r = Rng::new(self.last_edit ^ 77);
                self.publish(d, &mut r);
                let s = self.snap(d);
                self.applied.push((rec, s.clone()));
                // second round: the result of formatting is asked to be formatted again, and so on
                match m {
                    FORMAT => {
                        let p = self.recs[rec].msg["params"].clone();
                        let x = self.request(METHODS[m], Some(m), p, Some(s), Focus::None);
                        self.recs[x].parent = Some(rec);
                    }
                    _ => {
                        let dm = DIAGNOSTIC;
                        let x = self.request(METHODS[dm], Some(dm), json!({"textDocument": {"uri": s.uri}}), Some(s), Focus::None);
                        self.recs[x].parent = Some(rec);
                    }
                }
            }
            _ => {}
        }
    }
    fn receive(&mut self) {
        loop {
            let Some(h) = find(&self.inbuf, b"\r\n\r\n") else {
                if self.inbuf.len() > 4096 {
                    self.malformed.get_or_insert("no header end in 4096 bytes of output".into());
                }
                return;
            };
            let head = String::from_utf8_lossy(&self.inbuf[..h]).to_string();
            let mut len = None;
            for l in head.split("\r\n") {
                match l.split_once(": ") {
                    Some((k, v)) if k.eq_ignore_ascii_case("content-length") => len = v.trim().parse::<usize>().ok(),
                    Some((k, _)) if k.eq_ignore_ascii_case("content-type") => {}
                    _ => {
                        self.malformed.get_or_insert(format!("unexpected header line {l:?}"));
                    }
                }
            }
            let Some(len) = len else {
                self.malformed.get_or_insert(format!("no content length in {head:?}"));
                self.inbuf.clear();
                return;
            };
            if self.inbuf.len() < h + 4 + len {
                return;
            }
            let body: Vec<u8> = self.inbuf[h + 4..h + 4 + len].to_vec();
            self.inbuf.drain(..h + 4 + len);
            let v: Value = match serde_json::from_slice(&body) {
                Ok(v) => v,
                Err(e) => match deep(&body, &e.to_string()) {
                    Some(v) => v,
                    None => {
                        self.malformed.get_or_insert(format!("body is not JSON: {e}"));
                        continue;
                    }
                },
            };
            let v = Rc::new(v);
            self.got.push(v.clone());
            self.got_when.push(self.sent.len());
            let gi = self.got.len() - 1;
            if v.get("method").is_none() {
                let id = v.get("id").cloned().unwrap_or(Value::Null);
                match self.recs.iter_mut().find(|r| r.id == id) {
                    Some(r) => {
                        r.replies += 1;
                        if r.reply.is_none() {
                            r.reply = Some(v);
                            r.reply_at = gi;
                        }
                    }
                    None => {
                        self.malformed.get_or_insert(format!("response to a request never sent: {v}"));
                    }
                }
            }
        }
    }
}
/// This client's JSON reader stops at 128 levels; selection ranges may nest deeper. Such an answer
/// is kept as an opaque one.
fn deep(body: &[u8], err: &str) -> Option<Value> {
    if !err.contains("recursion limit") {
        return None;
    }
    let t = std::str::from_utf8(body).ok()?;
    let (mut d, mut m, mut instr, mut esc) = (0i32, 0i32, false, false);
    for b in t.bytes() {
        match b {
            _ if esc => esc = false,
            b'\\' if instr => esc = true,
            b'"' => instr = !instr,
            b'{' | b'[' if !instr => d += 1,
            b'}' | b']' if !instr => d -= 1,
            _ => {}
        }
        m = m.max(d);
    }
    if d != 0 || instr {
        return None;
    }
    let i = t.find("\"id\":")? + 5;
    let rest = &t[i..];
    let id: Value = serde_json::Deserializer::from_str(rest).into_iter::<Value>().next()?.ok()?;
    let mut h = 0u64;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(7);
    }
    Some(json!({"jsonrpc": "2.0", "id": id, "result": {"deep": m, "hash": h.to_string()}}))
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
pub fn bound(t: &str, mut i: usize) -> usize {
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    // never between the two characters of a CRLF
    if i > 0 && t.as_bytes()[i - 1] == b'\r' && t.as_bytes().get(i) == Some(&b'\n') {
        i -= 1;
    }
    i
}
fn params_for(m: usize, uri: &str, a: text::Pos, b: text::Pos, r: &mut Rng, new: Option<&str>) -> Value {
    let td = json!({"uri": uri});
    let pos = text::pos_json(a);
    let range = json!({"start": text::pos_json(a), "end": text::pos_json(b)});
    match m {
        REFERENCES => json!({"textDocument": td, "position": pos, "context": {"includeDeclaration": r.chance(500)}}),
        RENAME => json!({"textDocument": td, "position": pos, "newName": new.unwrap_or("$renamed")}),
        SYMBOLS | FOLDING | SEM_FULL | DIAGNOSTIC => json!({"textDocument": td}),
        SELECTION => json!({"textDocument": td, "positions": [pos]}),
        SEM_RANGE | INLAY => json!({"textDocument": td, "range": range}),
        FORMAT => json!({"textDocument": td, "options": format_options(r)}),
        RANGE_FORMAT => json!({"textDocument": td, "range": range, "options": format_options(r)}),
        ACTION => {
            let mut c = json!({"diagnostics": []});
            match r.usize(8) {
                6 => c["only"] = json!(["refactor"]),
                7 => c["only"] = json!([*r.pick(&["", "source", "refactor.rewrit", "refactor.inline", "quickfix.x"])]),
                0 => c["only"] = json!(["quickfix"]),
                1 => c["only"] = json!(["refactor.rewrite"]),
                2 => c["only"] = json!(["quickfix", "refactor.rewrite"]),
                _ => {}
            }
            json!({"textDocument": td, "range": range, "context": c})
        }
        INCOMING | OUTGOING => json!({"item": {"name": "f", "kind": 12, "uri": uri, "range": range, "selectionRange": range}}),
        _ => json!({"textDocument": td, "position": pos}),
    }
}
fn pick_pos(em: &Em, r: &mut Rng, focus: u32, m: usize) -> (usize, Option<usize>) {
    let mut t = r.usize(em.toks.len());
    if r.chance(focus) {
        let mut c: Vec<usize> = vec![];
        let deep = em.refs.iter().any(|x| x.labels.len() > 10);
        match if deep && r.chance(300) { 8 } else { r.usize(10) } {
            0..=2 => c.extend(em.refs.iter().map(|x| x.tok)),
            // among many, those that are the most extreme
            8 => {
                let mut far: Vec<_> = em.refs.iter().filter(|x| x.dk == DK::Label).map(|x| (x.labels.len(), x.tok)).collect();
                far.sort_by(|a, b| b.cmp(a));
                c.extend(far.iter().take(6).map(|x| x.1));
            }
            9 => {
                let mut big: Vec<_> = em.refs.iter().filter_map(|x| Some((em.text[em.toks[x.tok].s..em.toks[x.tok].e].parse::<u32>().ok()?, x.tok))).collect();
                big.sort_by(|a, b| b.cmp(a));
                c.extend(big.iter().take(6).map(|x| x.1));
            }
            3..=5 => {
                c.extend(em.refs.iter().map(|x| x.tok));
                c.extend(em.defs.iter().filter_map(|d| d.ident));
            }
            _ => c.extend(em.defs.iter().filter_map(|d| d.ident.or(d.kw).or(Some(em.nodes[d.node].first)))),
        }
        if m == PREP_CALLS {
            c = em.defs.iter().filter(|d| d.dk == DK::Func).filter_map(|d| d.ident.or(d.kw)).chain(em.refs.iter().filter(|x| x.dk == DK::Func).map(|x| x.tok)).collect();
        }
        if !c.is_empty() {
            t = *r.pick(&c);
        }
    }
    let tk = &em.toks[t];
    if matches!(tk.cls, Cls::LParen | Cls::RParen) {
        return (tk.s, None);
    }
    let glued_left = t > 0 && em.toks[t - 1].e == tk.s && !matches!(em.toks[t - 1].cls, Cls::LParen | Cls::RParen);
    let glued_right = t + 1 < em.toks.len() && em.toks[t + 1].s == tk.e && !matches!(em.toks[t + 1].cls, Cls::LParen | Cls::RParen);
    let inner: Vec<usize> = em.text[tk.s..tk.e].char_indices().skip(1).map(|x| tk.s + x.0).collect();
    let mut opts = inner;
    if !glued_left {
        opts.push(tk.s);
    }
    if !glued_right {
        opts.push(tk.e);
    }
    if opts.is_empty() {
        return (tk.s, None);
    }
    (*r.pick(&opts), Some(t))
}

pub fn garble(t: &str, r: &mut Rng) -> String {
    let mut s = t.to_string();
    for _ in 0..1 + r.usize(3) {
        let n = s.len();
        let at = bound(&s, r.usize(n + 1));
        match r.usize(10) {
            0 => {
                let b = bound(&s, (at + r.usize(12)).min(n));
                if b > at {
                    s.replace_range(at..b, "");
                }
            }
            1 => s.insert_str(at, *r.pick::<&str>(&["(", ")", "((", "))", "(;", ";)", "\"", ";;", "$", "\\", "'", ",", "[", "{"])),
            2 => s.insert_str(at, *r.pick::<&str>(&["é", "日本", "🦀", "\u{0}", "\u{feff}", "\u{2028}", "\t", "\r", "\r\n"])),
            3 => s.truncate(at),
            4 => s.insert_str(at, *r.pick::<&str>(&["(func", "(module", "(param $", "(local", "i32.const", "br 0", "local.get $x", "(call $f", "(if (then", "end", "else", "(type", "(elem", "(data", "(import \"a\"", "99999999999999999999", "-0x", "1__0", "0x1.p", "nan:0x"])),
            5 => {
                let b = bound(&s, r.usize(n + 1));
                let (x, y) = (at.min(b), at.max(b));
                let piece = s[x..y.min(bound(&s, (x + 200).min(n)).max(x))].to_string();
                s.insert_str(at.min(s.len()), &piece);
            }
            6 => {
                let depth = 1 + r.usize(60);
                let word = *r.pick(&["(block ", "(drop ", "(if (then ", "(i32.eqz ", "(loop ", "(module ", "block ", "("]);
                s.insert_str(at, &word.repeat(depth));
                if r.chance(500) {
                    s.push_str(&")".repeat(depth * word.matches('(').count()));
                }
            }
            7 => s = s.replace('\n', if r.chance(500) { "\r\n" } else { "\r" }),
            8 => s = r.pick(&["", " ", "\n", ";;", "(module", "()", ")", "(module))", "\u{feff}(module)", "(;(;"]).to_string(),
            _ => {
                let b = bound(&s, r.usize(n + 1));
                let (x, y) = (at.min(b), at.max(b));
                s = format!("{}{}{}", &s[y..], &s[x..y], &s[..x]);
            }
        }
        if s.len() > 12_000 {
            let c = bound(&s, 12_000);
            s.truncate(c);
        }
    }
    s
}

impl Env for Shared {
    fn enabled(&mut self, w: &mut World, out: &mut Vec<(u32, u32)>) {
        let c = &mut self.0;
        let blocked = match &c.block {
            Block::No => false,
            Block::Reply(r, _) => c.recs[*r].replies == 0,
            Block::All => c.outstanding() > 0,
        };
        let window_full = c.outstanding() >= c.cfg.window && !matches!(c.block, Block::Reply(..));
        if c.phase != Phase::Ended && !blocked && !window_full && w.now_ms >= c.ready_at {
            out.push((0, w.knobs.w_client));
        }
        if !c.outbuf.is_empty() && w.stdin.len() < w.knobs.stdin_cap && !w.stdin_eof {
            out.push((1, w.knobs.w_deliver));
        }
        if !w.stdout.is_empty() && !w.stdout_broken {
            out.push((2, w.knobs.w_drain));
        }
        if c.phase == Phase::Ended && c.outbuf.is_empty() && !w.stdin_eof && c.eof_wanted() {
            out.push((3, w.knobs.w_client));
        }
    }
    fn perform(&mut self, w: &mut World, action: u32) {
        let c = &mut self.0;
        match action {
            0 => {
                let n = c.sent.len();
                c.step(w);
                if w.knobs.trace {
                    for i in n..c.sent.len() {
                        let s = c.sent[i].to_string();
                        let cut = bound(&s, s.len().min(600));
                        w.log(|| format!("client sends {}", &s[..cut]));
                    }
                }
            }
            1 => {
                let max = if w.knobs.deliver_chunk == 0 { usize::MAX } else { 1 + w.rng.usize(w.knobs.deliver_chunk as usize) };
                let room = w.knobs.stdin_cap - w.stdin.len();
                let n = max.min(room).min(c.outbuf.len());
                for _ in 0..n {
                    let b = c.outbuf.pop_front().unwrap();
                    w.stdin.push_back(b);
                }
                w.log(|| format!("deliver {n} bytes"));
            }
            2 => {
                let max = if w.knobs.drain_chunk == 0 { usize::MAX } else { 1 + w.rng.usize(w.knobs.drain_chunk as usize) };
                let n = max.min(w.stdout.len());
                c.inbuf.extend(w.stdout.drain(..n));
                let before = c.got.len();
                c.receive();
                w.log(|| format!("drain {n} bytes, {} messages", c.got.len() - before));
            }
            3 => {
                w.stdin_eof = true;
                w.stats.stdin_eof += 1;
                w.log(|| "end of input".into());
            }
            _ => {}
        }
    }
    fn next_timer(&self, w: &World) -> Option<u64> {
        let c = &self.0;
        (c.phase != Phase::Ended && c.ready_at > w.now_ms).then_some(c.ready_at)
    }
    fn into_any(self: Box<Self>) -> Box<dyn std::any::Any> {
        self
    }
}
impl Client {
    fn eof_wanted(&self) -> bool {
        matches!(self.cfg.ending, Ending::Eof | Ending::EofMid | Ending::Broken)
    }
    /// Takes in whatever the process wrote before it ended.
    pub fn final_drain(&mut self, w: &mut World) {
        if !w.stdout_broken {
            self.inbuf.extend(w.stdout.drain(..));
            self.receive();
            if !self.inbuf.is_empty() {
                let s = String::from_utf8_lossy(&self.inbuf[..self.inbuf.len().min(80)]).to_string();
                self.malformed.get_or_insert(format!("output ends in the middle of a message: {s:?}"));
            }
        }
    }
}
/// Wrapper so that the client can be recovered after the run.
pub struct Shared(pub Box<Client>);
// SAFETY: the kernel runs one thread at a time and hands the environment over under its lock;
// reference counts inside are never touched concurrently.
unsafe impl Send for Shared {}
fn format_options(r: &mut Rng) -> Value {
    let tab = if r.chance(15) { 0 } else { *r.pick(&[1, 2, 2, 4, 4, 8, 3, 5, 16]) };
    let mut o = json!({"tabSize": tab, "insertSpaces": r.chance(700)});
    // options which bear on no layout, and keys of a client's own
    if r.chance(250) {
        for (k, v) in [
            ("trimTrailingWhitespace", json!(r.chance(500))),
            ("insertFinalNewline", json!(r.chance(500))),
            ("trimFinalNewlines", json!(r.chance(500))),
            ("semicolons", json!("remove")),
            ("depth", json!(3)),
        ] {
            if r.chance(400) {
                o[k] = v;
            }
        }
    }
    o
}
