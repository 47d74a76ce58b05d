#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, SV, P, F = "crates/server/src/", "crates/service/src/", "crates/parser/src/", "crates/formatter/src/"

def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

PROPS = [
 dict(id="C01", title="Every request gets exactly one well-formed reply",
  statement="Whatever well-framed messages a client sends after initialization, in any order, every request gets exactly one reply that carries the request's own id (number or string, unchanged) and either a result or an error object, never both and never neither. A supported request about a document the client has open succeeds (only a rename may be refused); a request with an unknown method, unusable parameters or an unknown document is refused with an error. Standard output carries nothing but protocol messages, and the server neither replies to notifications nor sends requests of its own.",
  over=["histories","schedules","inputs"], text="for all message sequences, pipe behaviours and thread schedules",
  why="The repository's tests call the language service as a library; no test ever runs the server's message loop, so dispatch, ids and framing are untested, and no finite set of sessions covers the order and mixture of messages.",
  files=[S+"server.rs", S+"main.rs"], mech=m(("message loop and dispatch", S+"server.rs: server_loop"),("framing","lsp-server reader and writer threads"))),
 dict(id="C02", title="No message sequence crashes or hangs the server",
  statement="No sequence of well-framed messages makes the server process crash, abort, stop answering, or fail to handle a later message: documents may be incomplete, malformed, empty, non-ASCII or truncated at any point, positions may lie outside the text, and parameters may be arbitrary JSON. The work done for one message stays bounded (for documents nested at most 100 levels deep), and after any such sequence an orderly shutdown still succeeds.",
  over=["inputs","histories","schedules","fault_sequences"], text="for all document texts, edit histories, request parameters and pipe behaviours",
  why="Tests sample a few dozen well-formed snippets and error snippets, one request each; crashes live in the product of arbitrary broken text, arbitrary positions and session state.",
  files=[S+"server.rs", P+"parser/", SV+"features/", SV+"helpers.rs", SV+"binder.rs", SV+"types_analyzer.rs"],
  mech=m(("error-tolerant parser", P+"parser/"),("position and token lookup", SV+"helpers.rs"),("request handlers", SV+"features/"))),
 dict(id="C03", title="Answers depend only on current texts, not on the session's history",
  statement="Every answer and every published diagnostic is a function of the current text of the document and the request alone: after any history of opening, changing, closing and reopening documents and of earlier requests, a long-running server answers exactly as a freshly started one that is given only the current text. In particular nothing computed from an earlier version of a document is ever served for a later one, and repeating a request without an edit in between gives the same answer.",
  over=["histories","schedules"], text="for all edit and request histories",
  why="Each existing test creates a fresh service, opens one document once and asks one question, so the incremental database never sees a second revision.",
  files=[SV+"lib.rs", SV+"files.rs", SV+"binder.rs", SV+"types_analyzer.rs", SV+"idx.rs"],
  mech=m(("incremental query database (memoised queries, interned keys, early cut-off)", SV+"lib.rs"),("document text input", SV+"files.rs"),("symbol table query", SV+"binder.rs"),("type queries", SV+"types_analyzer.rs")),
  state=[{"name":"source text inputs","meaning":"current text per document, input of all derived queries","where":SV+"files.rs"}]),
 dict(id="C04", title="Documents do not influence each other",
  statement="Answers and diagnostics about one document are unaffected by any other document: opening, editing, querying or closing other documents, with the same or different content and identifiers, in any interleaving, never changes what the server says about this one. Every location, edit and diagnostic in an answer refers to the document the request was about.",
  over=["histories","schedules"], text="for all interleavings of work on several documents",
  why="Tests open a single document; interference between documents needs at least two, with interleaved edits and equal names or contents.",
  files=[SV+"lib.rs", SV+"files.rs", SV+"features/", S+"server.rs"],
  mech=m(("per-document query keys", SV+"files.rs"),("symbol keys", SV+"binder.rs"))),
 dict(id="C05", title="Diagnostics are delivered for the right content, once, in order",
  statement="A client that does not pull diagnostics receives exactly one publication for every open and every change of a document, in order, and each reports exactly what pulling that same content yields; a client that can pull gets none of these. Closing a document always publishes an empty list for it and nothing else, and a publication always precedes the answer to any request sent after the message that caused it.",
  over=["histories","schedules","configurations"], text="for all sequences of document notifications and requests, for pushing and pulling clients",
  why="No test exercises notifications; the guarantee is about order and multiplicity over whole sessions.",
  files=[S+"server.rs", SV+"features/diagnostics.rs"], mech=m(("publication on open, change and close", S+"server.rs: server_loop"),("pull handler", SV+"features/diagnostics.rs"))),
 dict(id="C06", title="What the server says does not depend on timing or on how bytes arrive",
  statement="The sequence of messages the server writes is a function of the sequence of messages it was sent: how input is split into reads, how fast the client reads output, stalls, interrupted system calls, pipelining many messages versus waiting for each answer, thread scheduling and the process's random state make no difference to the content or the order of its output. Once the client reads again after a stall, all pending answers arrive.",
  over=["schedules","fault_sequences","histories"], text="for all thread schedules, chunkings, stalls and interruptions of one message sequence",
  why="Tests are single-threaded library calls; hash-order and scheduling dependence appear only across runs with different schedules and random states.",
  files=[S+"server.rs", SV+"binder.rs", SV+"checker/", SV+"features/"],
  mech=m(("reader, writer and main threads over bounded channels","lsp-server stdio transport"),("collections whose order could leak into answers", SV))),
 dict(id="C07", title="Orderly shutdown, and termination however the client goes away",
  statement="After shutdown and exit the process ends with success; requests sent before shutdown are answered before it, shutdown is answered exactly once with null, and nothing is written after that answer. If the client closes the input (between messages or in the middle of one), breaks the output, or sends exit early, the process still terminates in bounded time, never deadlocks, and everything asked before the input ended between messages is answered with complete, untruncated messages. A client that vanishes without exit after shutdown does not count as success.",
  over=["crash_points","schedules","fault_sequences"], text="for all points at which the client shuts down, exits, closes or breaks a pipe, under all schedules",
  why="No test starts the server; termination depends on three threads, two channels and the moment at which a pipe closes.",
  files=[S+"server.rs", S+"main.rs"], mech=m(("shutdown handling", S+"server.rs: server_loop, run"),("thread joining", S+"server.rs: run"))),
 dict(id="C08", title="Client and server agree on positions, after every edit",
  statement="Positions mean the same on both sides in every version of a document, whatever characters and line endings (LF, CRLF, mixed) it contains: columns count UTF-16 code units, a column beyond the end of a line means the end of that line, a position on a line that does not exist (or an inverted range) yields an empty answer, and every range or position in any answer or diagnostic lies in the current text with its start not after its end. Semantic tokens cover exactly the document's coloured tokens and comments, in order, without overlap, with their exact position, UTF-16 length and kind; the tokens of a range are exactly those of the whole document that intersect it.",
  over=["histories","inputs","configurations"], text="for all edit histories, texts and positions",
  why="Tests use ASCII snippets and one version of a document; encodings, line endings and out-of-range positions multiply with edits that invalidate line tables.",
  files=[SV+"helpers.rs", SV+"features/semantic_tokens.rs", SV+"features/mod.rs", SV+"files.rs"],
  mech=m(("position conversion", SV+"helpers.rs"),("semantic token encoding", SV+"features/semantic_tokens.rs"),("line index query", SV+"files.rs"))),
 dict(id="C09", title="Renaming keeps every reference bound to what it was bound to",
  statement="A rename either is refused (no symbol there, or not a valid identifier) or changes exactly the occurrences of that symbol's name: its definition and the references that resolve to it, and nothing else. After the client applies the edit, every reference resolves to the same definition as before, so that the same questions about the document get the same answers with the new name, unless the new name already means something else there. Prepare-rename accepts exactly identifiers and reports the identifier's range. This holds in every version of the document, including versions made by earlier renames.",
  over=["histories","inputs"], text="for all programs, edit histories and chains of renames",
  why="Tests rename once in one small module; capture, shadowed labels and equal names in other scopes, modules and kinds arise in combination and over chains of edits.",
  files=[SV+"features/rename.rs", SV+"binder.rs", SV+"features/references.rs"],
  mech=m(("rename edits", SV+"features/rename.rs"),("symbol table", SV+"binder.rs"))),
 dict(id="C10", title="Navigation answers are the bindings of the current text",
  statement="In every version of a document, go-to-definition, go-to-declaration, go-to-type-definition, find-references, and prepare, incoming and outgoing calls of the call hierarchy answer exactly what WebAssembly's scoping says about the current text: names and numbers resolve within their own module, function, enclosing blocks and kind; references are found from the definition and from any of its references alike, with or without the declaration as asked; undefined names lead nowhere; callers and callees list every call site with its range, and incoming and outgoing calls mirror each other.",
  over=["histories","inputs"], text="for all programs, edit histories and positions",
  why="Tests ask one question about one small module; scoping over nested blocks, several modules and documents that keep changing cannot be sampled by hand.",
  files=[SV+"binder.rs", SV+"features/definition.rs", SV+"features/references.rs", SV+"features/call_hierarchy.rs", SV+"idx.rs"],
  mech=m(("symbol table", SV+"binder.rs"),("definition, declaration, type definition", SV+"features/definition.rs"),("references", SV+"features/references.rs"),("call hierarchy", SV+"features/call_hierarchy.rs"))),
 dict(id="C11", title="Formatting changes the layout and nothing else",
  statement="Applying the edits of a formatting or range-formatting answer to a well-formed document leaves the same sequence of tokens and the same comments at the same places between them; formatting the result again with the same options changes nothing. Lines are indented in whole steps of the asked tab size, with blanks or tabs as asked, a module or field after a line comment starting with fmt-ignore stays as it is, and formatting a range edits all of that range and nothing outside the module field (or else module, or document) that encloses it.",
  over=["histories","inputs","configurations"], text="for all well-formed documents, comments in any place, edit histories, ranges and formatting options",
  why="Snapshots format fixed files once with default options; comments can stand between any two tokens of any construct, and losing one is silent.",
  files=[F+"printer/", F+"lib.rs", SV+"features/formatting.rs"],
  mech=m(("printing", F+"printer/"),("comments and blank lines", F+"printer/mod.rs: format_trivias_after_node, format_trivias_after_token"),("ranges", F+"lib.rs: format_range"),("options", SV+"features/formatting.rs"))),
 dict(id="C12", title="Code actions do exactly what their title says",
  statement="In every version of a document, splitting parameters, results or locals is offered exactly where the selection lies in a group of several types, joining parameters exactly where the selection covers several adjacent unnamed parameter groups, and repairing a memory argument exactly where blanks around its equals sign break it; each only if the kinds the client asks for include its kind. Applying a split or a join keeps every type, in order, and changes nothing outside the rewritten groups; applying the repair restores the argument and nothing else. Actions asked of the resulting document are those of a document written that way.",
  over=["histories","inputs"], text="for all programs, edit histories, selections and requested kinds",
  why="Tests apply one action at one place of a tiny snippet and never ask the server about the result; selections, comments, neighbouring groups and repeated application multiply.",
  files=[SV+"features/code_action.rs", SV+"refactorings/"],
  mech=m(("offering actions by selection and kind", SV+"features/code_action.rs"),("splitting groups", SV+"refactorings/func_header_split.rs"),("joining parameters", SV+"refactorings/params_join.rs"),("repairing a memory argument", SV+"refactorings/fix_invalid_mem_arg.rs"))),
 dict(id="C13", title="Negotiated capabilities are honoured",
  statement="The server announces every feature it implements, full-text synchronisation, and a semantic-token legend consisting of exactly those of the client's token types that it supports, in the client's order. Token type numbers in every later answer refer to that legend, token kinds the client did not offer are left out without shifting the others, and diagnostics are pushed exactly to clients that did not announce pull support.",
  over=["configurations","histories"], text="for all client capability sets and later sessions",
  why="Tests initialise with one or two fixed capability sets; the legend is a permutation chosen by the client.",
  files=[SV+"lib.rs", SV+"features/semantic_tokens.rs", S+"server.rs"], mech=m(("initialize", SV+"lib.rs: initialize"),("token kind numbering", SV+"features/semantic_tokens.rs"),("pull or push", S+"server.rs: run"))),
 dict(id="C14", title="Diagnostics follow the document: every mistake reported, nothing else",
  statement="In every version of a document, whether pushed or pulled, diagnostics report exactly its mistakes of the kinds the server checks, each at exactly the offending place: syntax errors, undefined references, duplicated names in one scope, operands whose number or types do not match what an instruction or a call needs (for folded instructions anywhere, and for plain sequences directly in the body of a function or global, where code after an unconditional branch is unreachable and accepted), immediates that are missing, too many or of the wrong kind, and several modules in one file. A document without mistakes has no diagnostics; introducing one mistake adds its report, and repairing or undoing it removes it again, whatever happened in between.",
  over=["histories","inputs"], text="for all programs and histories of edits that introduce and repair mistakes",
  why="Tests check single snippets, each with one mistake; both missing and spurious reports depend on combinations of definitions, nesting and stack contents, and stale ones on edit histories.",
  files=[SV+"checker/", SV+"features/diagnostics.rs", SV+"types_analyzer.rs", SV+"binder.rs"],
  mech=m(("checks", SV+"checker/"),("operand and result types", SV+"types_analyzer.rs"))),
 dict(id="C15", title="Hovers, inlay hints and completions describe the current declarations",
  statement="In every version of a document: hovering over a definition or a reference shows the definition's current kind, name, types, signature (also when it comes from a type use) and documentation comment, with the range of the hovered token; instructions and value types show their own description. Inlay hints show the type at every reference to a local, parameter or global, and the function's name at its end, for exactly those inside the requested range. Completing a reference to a local, label, function, type, global, memory or table, where the server offers anything, offers exactly the definitions in scope of the right kind, with their current types or signatures, and after a dollar sign only the named ones.",
  over=["histories","inputs"], text="for all programs, edit histories, positions and ranges",
  why="Tests look at one fresh document each; a stale or wrongly keyed cache shows only after edits of definitions far from the asked place.",
  files=[SV+"features/hover.rs", SV+"features/inlay_hint.rs", SV+"features/completion.rs", SV+"types_analyzer.rs", SV+"binder.rs"],
  mech=m(("hover", SV+"features/hover.rs"),("inlay hints", SV+"features/inlay_hint.rs"),("completion", SV+"features/completion.rs"))),
 dict(id="C16", title="Outline, folding and selection show the document's structure",
  statement="In every version of a document, the outline lists exactly the modules that define anything, in document order, each with its functions, types, globals, memories, tables and imports in document order and each function with its locals, under their names or else numbers, with the ranges of definition and name. Folding ranges are exactly the constructs that span several lines. Selection ranges give, for every asked position on a token and in the order asked, the chain from that token through each enclosing construct to the whole document, each containing the previous one.",
  over=["histories","inputs"], text="for all programs, layouts and edit histories",
  why="One snapshot per feature exists; hash-ordered assembly, nested constructs, comments and layouts vary without bound.",
  files=[SV+"features/document_symbol.rs", SV+"features/folding_range.rs", SV+"features/selection_range.rs"],
  mech=m(("outline", SV+"features/document_symbol.rs"),("folding", SV+"features/folding_range.rs"),("selection", SV+"features/selection_range.rs"))),
]

NOT_APPLICABLE = [
 dict(id="N01", title="The parser is lossless",
  statement="For every text that parses, the concatenation of the syntax tree's tokens is the text.",
  over=["inputs"], text="for all texts", why="Inputs are unbounded.",
  files=[P+"parser/"], mech=m(("parser", P+"parser/")),
  reason="A pure function of one string: there is no schedule, clock, I/O, fault or history for a simulator to control, so seeded scheduling decides nothing. What a session can observe of it (a part of the document missing from the syntax tree) is judged within the session-level properties."),
 dict(id="N02", title="Formatter library honours every configuration option",
  statement="For every source and every value of the formatter's options, formatting is deterministic and respects indentation width, line ending and wrapping options.",
  over=["inputs","configurations"], text="for all sources and option values", why="Options multiply inputs.",
  files=[F+"lib.rs", F+"config.rs"], mech=m(("printer", F+"printer/")),
  reason="A pure library function with options the server never passes on (the server only forwards tab size and spaces); no concurrency, time, I/O or multi-step state is involved."),
 dict(id="N03", title="Typed syntax accessors agree with the grammar",
  statement="Every typed accessor of the syntax library returns exactly the children the grammar puts there.",
  over=["inputs"], text="for all syntax trees", why="One accessor per node kind, unboundedly many trees.",
  files=["crates/syntax/src/ast/"], mech=m(("accessors", "crates/syntax/src/ast/")),
  reason="Pure accessors on an immutable tree without any schedule-, fault- or history-dependent behaviour; deterministic simulation has nothing to drive."),
]

NOTE = "Seeded exploration, not proof: every run executes the real server, service, parser and formatter in one process under the simulator; the guarantee covers the sessions explored. Trusted: the simulator's pipes, channels and clock, the vendored transport source, and the executable reference model of the oracle."
TECH = {"*": "deterministic simulation with fault injection: "}
HOW = {
 "C01": "seeded sessions with hostile messages, checks over the transcript",
 "C02": "seeded sessions with mutated and hostile documents and messages, crash, deadlock and step-limit detection",
 "C03": "seeded edit histories, differential against a fresh server given only the current text",
 "C04": "seeded interleavings over several documents, differential against a server that only saw one of them",
 "C05": "seeded sessions, publication history checked against the document history and against pulls",
 "C06": "the same message sequence under many schedules, chunkings, stalls and random states, outputs compared",
 "C07": "seeded crash points and endings (exit, EOF, EOF inside a message, broken output), termination and transcript checks",
 "C08": "seeded edit histories over documents with non-ASCII text and mixed line endings, answers checked against a position model",
 "C09": "seeded rename-apply-query histories checked against a reference model of bindings",
 "C10": "seeded edit histories, navigation answers checked against a reference model of bindings",
 "C11": "seeded format-apply-requery histories checked against token and comment conservation, and a fixpoint",
 "C12": "seeded action-apply-requery histories checked against a reference model of the document",
 "C13": "seeded capability sets, answers decoded with the negotiated legend and checked against the reference model",
 "C14": "seeded edit histories, diagnostics checked against a reference model of names and types",
 "C15": "seeded edit histories, hovers, hints and completions checked against a reference model of declarations",
 "C16": "seeded edit histories, outline, folding and selection checked against the known structure of the document",
}

def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout.strip()

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS + NOT_APPLICABLE:
            a = {"files": p["files"], "mechanism": p["mech"], "observe_at": ["the language server's standard input and output"]}
            if "state" in p:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    commits = [l.split()[0] for l in git("log", "--format=%H %s").splitlines() if l.split(" ", 1)[1].startswith("hook:")]
    man = {"version": 1, "setup_cmd": "bash tools/build.sh",
        "hooks": {"guard": "--cfg wat_sim", "enable": "RUSTFLAGS='--cfg wat_sim' (tools/build.sh)", "source_commits": commits},
        "checks": [{"property": p["id"], "quick_cmd": f"bash tools/check.sh {p['id']}", "thorough_cmd": f"bash tools/check.sh {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": TECH["*"] + HOW[p["id"]], "level": "exploration", "level_note": NOTE} for p in PROPS],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
        "notes": "Replay a violation with: sim/target/release/watsim replay <file> --trace. See DESIGN.md."}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
