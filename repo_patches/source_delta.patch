From 40500f91ade8d46f0e0f14397f805f24c61136d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 01/41] hook: entry point for the deterministic simulator (cfg
 wat_sim, off by default)

---
 crates/server/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/server/src/main.rs b/crates/server/src/main.rs
index 8d94940..abfd9fd 100644
--- a/crates/server/src/main.rs
+++ b/crates/server/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod server;
 
 use std::env;
@@ -24,3 +26,9 @@ fn main() -> anyhow::Result<()> {
     server.run()?;
     Ok(())
 }
+
+/// Entry point for the deterministic simulator, which builds this file as a library.
+#[cfg(wat_sim)]
+pub fn sim_main() -> anyhow::Result<()> {
+    main()
+}
-- 
2.43.0


From 1104029a6d36c3e50c6f14dee1995fe71cd038cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 02/41] fix: answer requests with unknown methods or invalid
 params with an error

---
 crates/server/src/server.rs | 128 +++++++++++++++++++++++++++++-------
 1 file changed, 105 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..bba697d 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,6 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response,
+    ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +49,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let req_id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +62,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +79,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +96,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +113,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +130,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +147,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +164,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +181,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +198,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +215,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +232,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +249,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +264,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +281,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +298,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +315,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +341,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +358,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +375,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +392,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +408,17 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(r)) => {
+                            reject(
+                                &conn,
+                                req_id,
+                                ErrorCode::MethodNotFound,
+                                format!("method `{}` is not supported", r.method),
+                            )?;
+                        }
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reject(&conn, req_id, ErrorCode::InvalidParams, error.to_string())?;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -435,6 +506,17 @@ impl Server {
     }
 }
 
+fn reject(
+    conn: &Connection,
+    id: RequestId,
+    code: ErrorCode,
+    message: String,
+) -> anyhow::Result<()> {
+    conn.sender
+        .send(Response::new_err(id, code as i32, message).into())?;
+    Ok(())
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From 73a63e666c54af716dca1988fa769f943d181e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 03/41] fix: apply the last full-text change of a didChange
 notification

---
 crates/server/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index bba697d..2aba8fd 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -471,7 +471,7 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From ac887ef004365248e77f372cc45724188e206e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 04/41] fix: unterminated nested block comment no longer makes
 the parser fail

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..50c8398 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
-- 
2.43.0


From 94997cacc80a1e606d9ec5846a1173cc8359ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:31 +0000
Subject: [PATCH 05/41] fix: refuse requests about documents that were never
 opened instead of panicking

---
 crates/server/src/server.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 2aba8fd..33ecfb8 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -17,12 +17,14 @@ use lsp_types::{
     DidChangeTextDocumentParams, DidCloseTextDocumentParams, DidOpenTextDocumentParams,
     InitializeParams, PublishDiagnosticsParams, Uri,
 };
+use std::collections::HashSet;
 use wat_service::LanguageService;
 
 #[derive(Default)]
 pub struct Server {
     service: LanguageService,
     support_pull_diagnostics: bool,
+    documents: HashSet<Uri>,
 }
 
 impl Server {
@@ -50,6 +52,15 @@ impl Server {
                         return Ok(());
                     }
                     let req_id = req.id.clone();
+                    if requested_uri(&req).is_some_and(|uri| !self.documents.contains(&uri)) {
+                        reject(
+                            &conn,
+                            req_id,
+                            ErrorCode::InvalidParams,
+                            "document is not opened".into(),
+                        )?;
+                        continue;
+                    }
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -458,6 +469,7 @@ impl Server {
         params: DidOpenTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
+        self.documents.insert(params.text_document.uri.clone());
         self.service
             .commit(params.text_document.uri.clone(), params.text_document.text);
         if !self.support_pull_diagnostics {
@@ -472,6 +484,7 @@ impl Server {
         conn: &Connection,
     ) -> anyhow::Result<()> {
         if let Some(change) = params.content_changes.last() {
+            self.documents.insert(params.text_document.uri.clone());
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
@@ -506,6 +519,15 @@ impl Server {
     }
 }
 
+/// URI of the document which the request is about.
+fn requested_uri(req: &Request) -> Option<Uri> {
+    req.params
+        .pointer("/textDocument/uri")
+        .or_else(|| req.params.pointer("/item/uri"))
+        .and_then(|uri| uri.as_str())
+        .and_then(|uri| uri.parse().ok())
+}
+
 fn reject(
     conn: &Connection,
     id: RequestId,
-- 
2.43.0


From 02f6d66e1def85eeff7431ce646939ba8fe61569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:47 +0000
Subject: [PATCH 06/41] fix: positions are UTF-16 code units, clamped to the
 line, and ranges are never inverted

---
 crates/service/src/files.rs   | 20 ++++++++--------
 crates/service/src/helpers.rs | 43 +++++++++++++++++++++++------------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/crates/service/src/files.rs b/crates/service/src/files.rs
index aa0c0d9..9907dc5 100644
--- a/crates/service/src/files.rs
+++ b/crates/service/src/files.rs
@@ -1,7 +1,7 @@
-use crate::InternUri;
-use line_index::{LineIndex, TextSize};
-use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Uri};
-use rowan::GreenNode;
+use crate::{helpers, InternUri};
+use line_index::LineIndex;
+use lsp_types::{Diagnostic, DiagnosticSeverity, Uri};
+use rowan::{GreenNode, TextRange, TextSize};
 use std::rc::Rc;
 use wat_parser::Parser;
 
@@ -38,12 +38,14 @@ fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
         .errors()
         .iter()
         .map(|error| {
-            let start = line_index.line_col(TextSize::new(error.start as u32));
-            let end = line_index.line_col(TextSize::new(error.end as u32));
             Diagnostic {
-                range: Range::new(
-                    Position::new(start.line, start.col),
-                    Position::new(end.line, end.col),
+                range: helpers::rowan_range_to_lsp_range(
+                    &line_index,
+                    // the parser may report where it gave up before where the error is
+                    TextRange::new(
+                        TextSize::new(error.start.min(error.end) as u32),
+                        TextSize::new(error.start.max(error.end) as u32),
+                    ),
                 ),
                 severity: Some(DiagnosticSeverity::ERROR),
                 source: Some("wat".into()),
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..444ace4 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,10 +1,13 @@
-use line_index::{LineCol, LineIndex};
+use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
 
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
-    Position::new(line_col.line, line_col.col)
+    let col = line_index
+        .to_wide(WideEncoding::Utf16, line_col)
+        .map_or(line_col.col, |wide| wide.col);
+    Position::new(line_col.line, col)
 }
 
 pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
@@ -14,24 +17,34 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
     )
 }
 
+/// Characters beyond the end of line are treated as the end of line.
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
+    let start = line_index.offset(LineCol {
         line: pos.line,
-        col: pos.character,
-    })
+        col: 0,
+    })?;
+    let end = pos
+        .line
+        .checked_add(1)
+        .and_then(|line| line_index.offset(LineCol { line, col: 0 }))
+        .map_or(line_index.len(), |next| next - TextSize::new(1));
+    let offset = line_index
+        .to_utf8(
+            WideEncoding::Utf16,
+            WideLineCol {
+                line: pos.line,
+                col: pos.character,
+            },
+        )
+        .and_then(|line_col| start.checked_add(TextSize::new(line_col.col)));
+    Some(offset.map_or(end, |offset| offset.min(end)))
 }
 
 pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
-    line_index
-        .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
-        })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+    lsp_pos_to_rowan_pos(line_index, range.start)
+        .zip(lsp_pos_to_rowan_pos(line_index, range.end))
+        .filter(|(start, end)| start <= end)
+        .map(|(start, end)| TextRange::new(start, end))
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From 4a8b6808ec8daa59c1eca95d673945a9929b6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 07/41] fix: semantic tokens keep track of lines inside tokens
 left out, and use UTF-16 lengths

---
 .../service/src/features/semantic_tokens.rs   | 37 ++++++-------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..eda6102 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -1,7 +1,6 @@
 use crate::{binder::SymbolTablesCtx, files::FilesCtx, helpers, InternUri, LanguageService};
-use line_index::LineCol;
 use lsp_types::{
-    SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
+    Position, SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
     SemanticTokensRangeResult, SemanticTokensResult,
 };
 use rowan::ast::support;
@@ -50,10 +49,10 @@ impl LanguageService {
             .take_while(|token| token.text_range().start() < end)
             .peekable();
         if let Some(token) = tokens.peek() {
-            LineCol {
+            Position {
                 line: delta_line,
-                col: prev_start,
-            } = line_index.line_col(token.text_range().start());
+                character: prev_start,
+            } = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
         }
         let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
@@ -72,34 +71,20 @@ impl LanguageService {
         let line_index = self.line_index(uri);
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
-                    let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let Some(token_type) = self.token_type(uri, &token) else {
                     if lines > 0 {
                         *delta_line += lines;
                         *prev_start = 0;
                     }
                     return None;
-                }
-                let token_type = self.token_type(uri, &token)?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
-                } else {
-                    None
                 };
-                let range = token.text_range();
-                let col = line_index.line_col(range.start()).col;
+                let col = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start())
+                    .character;
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
-                    delta_start: col
-                        - mem::replace(
-                            prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
-                        ),
-                    length: range.len().into(),
+                    delta_line: mem::replace(delta_line, lines),
+                    delta_start: col - mem::replace(prev_start, if lines > 0 { 0 } else { col }),
+                    length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
                 })
-- 
2.43.0


From c5fc05f09249ce771904a629d83edf56cad58d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:52 +0000
Subject: [PATCH 08/41] fix: a string that cannot be read no longer cuts off
 the rest of the syntax tree

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 50c8398..d259c9d 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -293,7 +293,7 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        '"' => alt((string_impl, "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
         _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
     }
-- 
2.43.0


From e45013785bc901bdd30863326675f7f2deea5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:38 +0000
Subject: [PATCH 09/41] fix: flat blocks left open at the end of file no longer
 take exponential time to parse

---
 crates/parser/src/parser/instr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 306794d..5d03e1b 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,7 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{alt, dispatch, eof, fail, opt, peek, preceded, repeat, repeat_till},
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -48,7 +48,7 @@ fn block_block(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")", eof)))),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -118,7 +118,7 @@ fn block_loop(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")", eof)))),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -190,7 +190,7 @@ fn block_if(input: &mut Input) -> GreenResult {
                 retry_once(instr, []),
                 peek((
                     trivias,
-                    alt((word.verify(|word| matches!(word, "end" | "else")), ")")),
+                    alt((word.verify(|word| matches!(word, "end" | "else")), ")", eof)),
                 )),
             ),
             opt((
@@ -200,7 +200,7 @@ fn block_if(input: &mut Input) -> GreenResult {
                 repeat_till::<_, _, Vec<_>, _, _, _, _>(
                     0..,
                     retry_once(instr, []),
-                    peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                    peek((trivias, alt((word.verify(|word: &str| word == "end"), ")", eof)))),
                 ),
             )),
             must(trivias_prefixed(keyword("end"))),
-- 
2.43.0


From c8a20462ecf336cc2bc26c42ebccf2f01aee3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:16 +0000
Subject: [PATCH 10/41] fix: exported globals, table uses and element functions
 refer to their definitions

---
 crates/service/src/binder.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..2d8eb0e 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -425,7 +425,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::EXPORT_DESC_TABLE => {
+            SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => {
                 if let Some(symbol) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
@@ -441,6 +441,38 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
+            SyntaxKind::EXPORT_DESC_GLOBAL => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_ref_symbol(db, index, region, SymbolItemKind::GlobalRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
+            SyntaxKind::ELEM_LIST => {
+                let Some(region) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                else {
+                    continue;
+                };
+                symbols.extend(
+                    node.children()
+                        .filter(|child| child.kind() == SyntaxKind::INDEX)
+                        .filter_map(|index| {
+                            create_ref_symbol(db, index, region.clone(), SymbolItemKind::Call)
+                        }),
+                );
+            }
             SyntaxKind::IMPORT_DESC_TYPE_USE => {
                 if let Some(symbol) =
                     create_import_desc_symbol(db, &node, module_field_id, SymbolItemKind::Func)
-- 
2.43.0


From 9918ec5e53a1fcecdd21cfa9786a9641dc93c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:18 +0000
Subject: [PATCH 11/41] fix: labels of all enclosing blocks are in scope, also
 across operands and branches of if

---
 crates/service/src/binder.rs | 38 ++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 2d8eb0e..39377a8 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -292,23 +292,27 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                             })
                             .for_each(|symbol| {
                                 symbols.push(symbol.clone());
-                                let mut current = &symbol;
-                                let mut levels = 0;
-                                while let Some(
-                                    parent @ SymbolItem {
-                                        key,
-                                        kind: SymbolItemKind::BlockDef,
-                                        ..
-                                    },
-                                ) = symbols.iter().find(|sym| {
-                                    sym.kind == SymbolItemKind::BlockDef
-                                        && sym.key == current.region
-                                }) {
-                                    let mut idx = parent.idx.clone();
-                                    idx.num = Some(levels);
-                                    blocks.push((symbol.key.clone(), key.clone(), idx));
-                                    current = parent;
-                                    levels += 1;
+                                // all enclosing blocks count,
+                                // no matter which nodes are in between
+                                let levels = node
+                                    .ancestors()
+                                    .filter(|node| {
+                                        matches!(
+                                            node.kind(),
+                                            SyntaxKind::BLOCK_BLOCK
+                                                | SyntaxKind::BLOCK_LOOP
+                                                | SyntaxKind::BLOCK_IF
+                                        )
+                                    })
+                                    .map(SymbolItemKey::from);
+                                for (level, key) in (0..).zip(levels) {
+                                    if let Some(block) = symbols.iter().find(|sym| {
+                                        sym.kind == SymbolItemKind::BlockDef && sym.key == key
+                                    }) {
+                                        let mut idx = block.idx.clone();
+                                        idx.num = Some(level);
+                                        blocks.push((symbol.key.clone(), key, idx));
+                                    }
                                 }
                             });
                     }
-- 
2.43.0


From 724904c31f1913ea3bae43bee2015f9957ebf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:52 +0000
Subject: [PATCH 12/41] fix: rename exactly the occurrences of the renamed
 name, not others of the same definition kind or label

---
 crates/service/src/features/rename.rs | 28 ++++++++++-----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..5fb235c 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -71,6 +71,11 @@ impl LanguageService {
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let block_def = if symbol.kind == SymbolItemKind::BlockDef {
+            Some(symbol)
+        } else {
+            symbol_table.find_block_def(&symbol_key)
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
@@ -88,27 +93,14 @@ impl LanguageService {
                 | SymbolItemKind::MemoryRef
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
-                    symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
+                    block_def.is_none()
+                        && symbol.region == sym.region
+                        && sym.idx.name.is_some_and(|name| name == old_name)
                 }
+                SymbolItemKind::BlockDef => symbol == *sym || block_def == Some(*sym),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
-                        })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
+                        || block_def.is_some() && symbol_table.find_block_def(&sym.key) == block_def
                 }
                 SymbolItemKind::Module => false,
             })
-- 
2.43.0


From a5717619bf7d487cd6df28d23b12d3e2510219bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:52 +0000
Subject: [PATCH 13/41] fix: references of a label are only those which resolve
 to it

---
 crates/service/src/features/references.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..b3e42a0 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -372,7 +372,10 @@ fn get_block_refs(
         symbol_table
             .blocks
             .iter()
-            .filter(|(_, def_key, _)| def_key == &def_symbol.key)
+            .filter(|(ref_key, def_key, _)| {
+                def_key == &def_symbol.key
+                    && symbol_table.find_block_def(ref_key) == Some(def_symbol)
+            })
             .filter_map(|(ref_key, _, _)| {
                 symbol_table
                     .symbols
-- 
2.43.0


From 00e524df92dacea0bd6931b22cd68a16c287f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 14/41] fix: duplicated names of tables are reported like those
 of other fields

---
 crates/service/src/checker/dup_names.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..2ad1a1c 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,6 +32,7 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
+                        | SymbolItemKind::TableDef
                         | SymbolItemKind::BlockDef
                 )
             })
-- 
2.43.0


From 3a351ed368cee8aec05f70b0d906e534c7383619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 15/41] fix: calls of functions which don't declare params
 themselves are checked against all params

---
 crates/service/src/checker/typeck.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..bdf88cb 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -299,7 +299,9 @@ fn resolve_expected_types(
                     symbol.key.ptr.text_range(),
                     "parameter originally defined here".into(),
                 ))
-            });
+            })
+            // params may be declared by the type instead of the function itself
+            .chain(std::iter::repeat(None));
         service.get_func_sig(uri, func.clone().into()).map(|sig| {
             sig.params
                 .iter()
-- 
2.43.0


From f449e84b0af31395a3745d8c0a1fcd096dcbbb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 16/41] fix: blocks as operands have the types of their results

---
 crates/service/src/checker/typeck.rs | 43 ++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index bdf88cb..881cc6b 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -10,13 +10,13 @@ use line_index::LineIndex;
 use lsp_types::{Diagnostic, DiagnosticRelatedInformation, DiagnosticSeverity, Location};
 use rowan::{
     ast::{
-        support::{children, token},
+        support::{child, children, token},
         AstNode,
     },
     TextRange,
 };
 use wat_syntax::{
-    ast::{Instr, PlainInstr},
+    ast::{BlockType, Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
 };
 
@@ -231,7 +231,44 @@ fn resolve_type(
     instr: &Instr,
 ) -> Option<Vec<OperandType>> {
     match instr {
-        Instr::Block(..) => None,
+        Instr::Block(block) => {
+            let block_type = child::<BlockType>(block.syntax());
+            let results = block_type
+                .iter()
+                .filter_map(|block_type| block_type.result())
+                .flat_map(|result| result.val_types())
+                .map(|ty| OperandType::Val(ty.into()))
+                .collect::<Vec<_>>();
+            match block_type.and_then(|block_type| block_type.type_use()) {
+                Some(type_use) => {
+                    let sig = service.extract_sig(type_use.syntax().green().into());
+                    if !sig.results.is_empty() {
+                        return Some(sig.results.into_iter().map(OperandType::Val).collect());
+                    }
+                    type_use
+                        .index()
+                        .and_then(|idx| {
+                            symbol_table
+                                .find_defs(&idx.syntax().clone().into())
+                                .into_iter()
+                                .flatten()
+                                .next()
+                        })
+                        .and_then(|symbol| {
+                            helpers::ast::find_func_type_of_type_def(&symbol.green)
+                        })
+                        .map(|func_type| {
+                            service
+                                .extract_sig(func_type)
+                                .results
+                                .into_iter()
+                                .map(OperandType::Val)
+                                .collect()
+                        })
+                }
+                None => Some(results),
+            }
+        }
         Instr::Plain(plain_instr) => {
             let instr_name = plain_instr.instr_name()?;
             match instr_name.text() {
-- 
2.43.0


From bbd69a47526f6effea47efb666af3cbf8a49d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:50 +0000
Subject: [PATCH 17/41] fix: blocks between stacked instructions take and leave
 operands

---
 crates/service/src/checker/typeck.rs | 91 ++++++++++++++++------------
 1 file changed, 51 insertions(+), 40 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 881cc6b..2e4132c 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -3,7 +3,7 @@ use crate::{
     data_set::{self, OperandType},
     files::FilesCtx,
     helpers,
-    types_analyzer::TypesAnalyzerCtx,
+    types_analyzer::{FuncSig, TypesAnalyzerCtx},
     InternUri, LanguageService,
 };
 use line_index::LineIndex;
@@ -16,7 +16,7 @@ use rowan::{
     TextRange,
 };
 use wat_syntax::{
-    ast::{BlockType, Instr, PlainInstr},
+    ast::{BlockInstr, BlockType, Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
 };
 
@@ -147,6 +147,20 @@ pub fn check_stacked(
 
     let mut types_stack = Vec::<(_, Instr)>::with_capacity(2);
     children::<Instr>(node).for_each(|instr| {
+        if let Instr::Block(block) = &instr {
+            let mut pop_count = resolve_block_sig(service, symbol_table, block)
+                .map(|sig| sig.params.len())
+                .unwrap_or_default();
+            if matches!(block, BlockInstr::If(..))
+                && token(block.syntax(), SyntaxKind::L_PAREN).is_none()
+            {
+                pop_count += 1;
+            }
+            types_stack.truncate(types_stack.len().saturating_sub(pop_count));
+            if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
+                types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+            }
+        }
         if let Instr::Plain(plain_instr) = &instr {
             let Some(instr_name) = plain_instr.instr_name() else {
                 return;
@@ -231,44 +245,13 @@ fn resolve_type(
     instr: &Instr,
 ) -> Option<Vec<OperandType>> {
     match instr {
-        Instr::Block(block) => {
-            let block_type = child::<BlockType>(block.syntax());
-            let results = block_type
-                .iter()
-                .filter_map(|block_type| block_type.result())
-                .flat_map(|result| result.val_types())
-                .map(|ty| OperandType::Val(ty.into()))
-                .collect::<Vec<_>>();
-            match block_type.and_then(|block_type| block_type.type_use()) {
-                Some(type_use) => {
-                    let sig = service.extract_sig(type_use.syntax().green().into());
-                    if !sig.results.is_empty() {
-                        return Some(sig.results.into_iter().map(OperandType::Val).collect());
-                    }
-                    type_use
-                        .index()
-                        .and_then(|idx| {
-                            symbol_table
-                                .find_defs(&idx.syntax().clone().into())
-                                .into_iter()
-                                .flatten()
-                                .next()
-                        })
-                        .and_then(|symbol| {
-                            helpers::ast::find_func_type_of_type_def(&symbol.green)
-                        })
-                        .map(|func_type| {
-                            service
-                                .extract_sig(func_type)
-                                .results
-                                .into_iter()
-                                .map(OperandType::Val)
-                                .collect()
-                        })
-                }
-                None => Some(results),
-            }
-        }
+        Instr::Block(block) => Some(
+            resolve_block_sig(service, symbol_table, block)?
+                .results
+                .into_iter()
+                .map(OperandType::Val)
+                .collect(),
+        ),
         Instr::Plain(plain_instr) => {
             let instr_name = plain_instr.instr_name()?;
             match instr_name.text() {
@@ -312,6 +295,34 @@ fn resolve_type(
     }
 }
 
+fn resolve_block_sig(
+    service: &LanguageService,
+    symbol_table: &SymbolTable,
+    block: &BlockInstr,
+) -> Option<FuncSig> {
+    let Some(block_type) = child::<BlockType>(block.syntax()) else {
+        return Some(FuncSig {
+            params: vec![],
+            results: vec![],
+        });
+    };
+    let Some(type_use) = block_type.type_use() else {
+        return Some(service.extract_sig(block_type.syntax().green().into()));
+    };
+    let sig = service.extract_sig(type_use.syntax().green().into());
+    if !sig.params.is_empty() || !sig.results.is_empty() {
+        return Some(sig);
+    }
+    let idx = type_use.index()?;
+    symbol_table
+        .find_defs(&idx.syntax().clone().into())
+        .into_iter()
+        .flatten()
+        .next()
+        .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
+        .map(|func_type| service.extract_sig(func_type))
+}
+
 type ExpectedType = (OperandType, Option<(TextRange, String)>);
 fn resolve_expected_types(
     service: &LanguageService,
-- 
2.43.0


From 5b2fd8d671951cbd5a7bc60fecf7f001ae09cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 18/41] fix: memory arguments and the result type of select can
 be omitted

---
 crates/service/src/checker/literal_operands.rs |  8 ++++++++
 crates/service/src/checker/typeck.rs           | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 77c7a88..0e81960 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -68,6 +68,14 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
         | "v128.store" => {
+            // memory argument can be omitted
+            if operands
+                .clone()
+                .next()
+                .is_some_and(|operand| operand.instr().is_some())
+            {
+                return;
+            }
             check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
         }
         "i8x16.shuffle"
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 2e4132c..aaca86a 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -43,7 +43,18 @@ pub fn check_folded(
     let skipped_count = if is_call {
         1
     } else {
-        meta.map(|meta| meta.operands_count).unwrap_or_default()
+        let operands_count = meta.map(|meta| meta.operands_count).unwrap_or_default();
+        let name = instr_name.text();
+        if name == "select" || name.contains(".load") || name.contains(".store") {
+            // result type and memory argument can be omitted
+            instr
+                .operands()
+                .take(operands_count)
+                .take_while(|operand| operand.instr().is_none())
+                .count()
+        } else {
+            operands_count
+        }
     };
     let received_types =
         instr
-- 
2.43.0


From ab8b207f1381660ada9c0f117098eb751db7e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:50 +0000
Subject: [PATCH 19/41] fix: outline lists modules in their order

---
 crates/service/src/features/document_symbol.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/features/document_symbol.rs b/crates/service/src/features/document_symbol.rs
index bade8e2..40c8efc 100644
--- a/crates/service/src/features/document_symbol.rs
+++ b/crates/service/src/features/document_symbol.rs
@@ -160,8 +160,10 @@ impl LanguageService {
                         .push(lsp_symbol);
                 }
             });
-        let mut lsp_symbols = symbols_map
-            .into_values()
+        let lsp_symbols = symbol_table
+            .symbols
+            .iter()
+            .filter_map(|symbol| symbols_map.remove(&symbol.key))
             .filter_map(|mut lsp_symbol| {
                 if let Some(children) = &mut lsp_symbol.children {
                     children.reverse();
@@ -171,7 +173,6 @@ impl LanguageService {
                 }
             })
             .collect::<Vec<_>>();
-        lsp_symbols.reverse();
         Some(DocumentSymbolResponse::Nested(lsp_symbols))
     }
 }
-- 
2.43.0


From 004f0be54438a820d7e0c6289303e5129209f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 20/41] fix: duplicated names are reported in document order

---
 crates/service/src/checker/dup_names.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index 2ad1a1c..1401e3c 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -5,10 +5,11 @@ use crate::{
     idx::{IdentsCtx, Idx},
     InternUri, LanguageService,
 };
+use indexmap::IndexMap;
 use line_index::LineIndex;
 use lsp_types::{Diagnostic, DiagnosticRelatedInformation, DiagnosticSeverity, Location};
 use rowan::{ast::support::token, TextRange};
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxBuildHasher, FxHashMap};
 use wat_syntax::{SyntaxKind, SyntaxNode};
 
 pub fn check(
@@ -36,7 +37,7 @@ pub fn check(
                         | SymbolItemKind::BlockDef
                 )
             })
-            .fold(FxHashMap::default(), |mut map, symbol| {
+            .fold(IndexMap::<_, _, FxBuildHasher>::default(), |mut map, symbol| {
                 if let Some(name) = symbol.idx.name {
                     map.entry((name, &symbol.region))
                         .or_insert_with(|| Vec::with_capacity(1))
-- 
2.43.0


From 6325134e1696784a7c451acc8c4d1ce7619e5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:44 +0000
Subject: [PATCH 21/41] fix: a call with operands to a function without
 parameters is not reported

---
 crates/service/src/types_analyzer.rs | 49 ++++++++++++++--------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/crates/service/src/types_analyzer.rs b/crates/service/src/types_analyzer.rs
index 3e12a08..970d83c 100644
--- a/crates/service/src/types_analyzer.rs
+++ b/crates/service/src/types_analyzer.rs
@@ -83,30 +83,31 @@ fn get_func_sig(
     symbol: SymbolItemWithGreenEq,
 ) -> Option<FuncSig> {
     debug_assert!(matches!(symbol.kind, SymbolItemKind::Func));
-    symbol
-        .green
-        .children()
-        .find_map(|child| match child {
-            NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
-            _ => None,
-        })
-        .and_then(|type_use| {
-            if type_use.children().any(|child| {
-                let kind = child.kind();
-                kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
-            }) {
-                Some(db.extract_sig(type_use.to_owned()))
-            } else {
-                let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
-                let symbol_table = db.symbol_table(uri);
-                child::<TypeUse>(&node)
-                    .and_then(|type_use| type_use.index())
-                    .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
-                    .and_then(|mut symbols| symbols.next())
-                    .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
-                    .map(|func_type| db.extract_sig(func_type))
-            }
-        })
+    let Some(type_use) = symbol.green.children().find_map(|child| match child {
+        NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
+        _ => None,
+    }) else {
+        // without type use, a function takes nothing and returns nothing
+        return Some(FuncSig {
+            params: vec![],
+            results: vec![],
+        });
+    };
+    if type_use.children().any(|child| {
+        let kind = child.kind();
+        kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
+    }) {
+        Some(db.extract_sig(type_use.to_owned()))
+    } else {
+        let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
+        let symbol_table = db.symbol_table(uri);
+        child::<TypeUse>(&node)
+            .and_then(|type_use| type_use.index())
+            .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
+            .and_then(|mut symbols| symbols.next())
+            .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
+            .map(|func_type| db.extract_sig(func_type))
+    }
 }
 
 fn render_func_header(
-- 
2.43.0


From f2faaf4f9bc57fa6fea762fc16769b064db0301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:50 +0000
Subject: [PATCH 22/41] fix: renaming a module at its own name changes nothing

---
 crates/service/src/features/rename.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index 5fb235c..1b4eb67 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -102,7 +102,7 @@ impl LanguageService {
                     symbol == *sym
                         || block_def.is_some() && symbol_table.find_block_def(&sym.key) == block_def
                 }
-                SymbolItemKind::Module => false,
+                SymbolItemKind::Module => symbol == *sym,
             })
             .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
             .map(|token| TextEdit {
-- 
2.43.0


From 9bb630e3dcf6e21c3e7184d5d14ad14dc6e18f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:57 +0000
Subject: [PATCH 23/41] fix: a block label is reported as a duplicate of a
 parameter or local

---
 crates/service/src/checker/dup_names.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index 1401e3c..7c2ef07 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -39,7 +39,9 @@ pub fn check(
             })
             .fold(IndexMap::<_, _, FxBuildHasher>::default(), |mut map, symbol| {
                 if let Some(name) = symbol.idx.name {
-                    map.entry((name, &symbol.region))
+                    // labels are a namespace of their own, even directly in the function body
+                    let is_label = symbol.kind == SymbolItemKind::BlockDef;
+                    map.entry((name, &symbol.region, is_label))
                         .or_insert_with(|| Vec::with_capacity(1))
                         .push(symbol);
                 }
@@ -47,7 +49,7 @@ pub fn check(
             })
             .iter()
             .filter(|(_, symbols)| symbols.len() > 1)
-            .flat_map(|((name, _), symbols)| {
+            .flat_map(|((name, ..), symbols)| {
                 let name = service.lookup_ident(*name);
                 symbols.iter().map(move |symbol| Diagnostic {
                     range: helpers::rowan_range_to_lsp_range(
-- 
2.43.0


From 38968c7143209c49851f0ba73ac2e61229fc8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:18 +0000
Subject: [PATCH 24/41] fix: keep comments and separation between the parts of
 a type use when formatting

---
 crates/formatter/src/printer/module.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index d211a12..f847b66 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1218,10 +1218,10 @@ impl DocGen for TypeUse {
 
         let mut params = self.params();
         if let Some(param) = params.next() {
-            if trivias.is_empty() && !docs.is_empty() {
-                docs.push(Doc::soft_line().nest(ctx.indent_width));
-            } else if self.l_paren_token().is_some() {
+            if !trivias.is_empty() {
                 docs.append(&mut trivias);
+            } else if !docs.is_empty() {
+                docs.push(Doc::soft_line().nest(ctx.indent_width));
             }
             docs.push(param.doc(ctx));
             trivias = format_trivias_after_node(param, ctx);
@@ -1237,10 +1237,10 @@ impl DocGen for TypeUse {
         });
         let mut results = self.results();
         if let Some(result) = results.next() {
-            if trivias.is_empty() && !docs.is_empty() {
-                docs.push(Doc::space());
-            } else if self.l_paren_token().is_some() {
+            if !trivias.is_empty() {
                 docs.append(&mut trivias);
+            } else if !docs.is_empty() {
+                docs.push(Doc::space());
             }
             docs.push(result.doc(ctx));
             trivias = format_trivias_after_node(result, ctx);
-- 
2.43.0


From 17ec227cbc7ce879d389a240c98dd3c14b06ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:18 +0000
Subject: [PATCH 25/41] fix: keep comments before the first instruction of a
 flat if when formatting

---
 crates/formatter/src/printer/instr.rs |  3 ++-
 crates/formatter/src/printer/mod.rs   | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 82fb6a7..2859930 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -207,7 +207,8 @@ impl DocGen for BlockIfElse {
 impl DocGen for BlockIfThen {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
-        let mut trivias = vec![];
+        // without parens, comments before the first instruction are at the beginning of this node
+        let mut trivias = format_leading_trivias(self.syntax().children_with_tokens(), ctx);
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
diff --git a/crates/formatter/src/printer/mod.rs b/crates/formatter/src/printer/mod.rs
index 2a918a8..931c291 100644
--- a/crates/formatter/src/printer/mod.rs
+++ b/crates/formatter/src/printer/mod.rs
@@ -201,9 +201,13 @@ where
     docs
 }
 fn format_trivias_after_token(token: SyntaxToken, ctx: &Ctx) -> Vec<Doc<'static>> {
-    let trivias = token
-        .siblings_with_tokens(Direction::Next)
-        .skip(1)
+    format_leading_trivias(token.siblings_with_tokens(Direction::Next).skip(1), ctx)
+}
+fn format_leading_trivias(
+    elements: impl Iterator<Item = SyntaxElement>,
+    ctx: &Ctx,
+) -> Vec<Doc<'static>> {
+    let trivias = elements
         .map_while(|element| match element {
             SyntaxElement::Token(token)
                 if matches!(
-- 
2.43.0


From 39a4f50cd6700aebf53af28a99dc6df41ab9aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 26/41] fix: do not print a blank line between a comment and an
 offset or element without keyword

---
 crates/formatter/src/printer/module.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index f847b66..a0f857e 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -54,7 +54,7 @@ impl DocGen for Elem {
         });
         self.elem_exprs().for_each(|elem_expr| {
             let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -80,6 +80,7 @@ impl DocGen for ElemExpr {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
         }
+        let has_keyword = self.keyword().is_some();
         if let Some(keyword) = self.keyword() {
             docs.append(&mut trivias);
             docs.push(Doc::text("item"));
@@ -87,10 +88,10 @@ impl DocGen for ElemExpr {
         }
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
-                if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
-                } else {
+                if !trivias.is_empty() {
                     docs.append(&mut trivias);
+                } else if has_keyword || !docs.is_empty() {
+                    docs.push(Doc::hard_line());
                 }
                 docs.push(instr.doc(ctx));
                 trivias = format_trivias_after_node(instr, ctx);
@@ -131,7 +132,7 @@ impl DocGen for ElemList {
         }
         self.elem_exprs().for_each(|elem_expr| {
             let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -574,7 +575,7 @@ impl DocGen for ModuleFieldData {
         }
         if let Some(offset) = self.offset() {
             let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -643,7 +644,7 @@ impl DocGen for ModuleFieldElem {
         }
         if let Some(offset) = self.offset() {
             let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -1134,6 +1135,7 @@ impl DocGen for Offset {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
         }
+        let has_keyword = self.keyword().is_some();
         if let Some(keyword) = self.keyword() {
             docs.append(&mut trivias);
             docs.push(Doc::text("offset"));
@@ -1141,10 +1143,10 @@ impl DocGen for Offset {
         }
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
-                if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
-                } else {
+                if !trivias.is_empty() {
                     docs.append(&mut trivias);
+                } else if has_keyword || !docs.is_empty() {
+                    docs.push(Doc::hard_line());
                 }
                 docs.push(instr.doc(ctx));
                 trivias = format_trivias_after_node(instr, ctx);
-- 
2.43.0


From 9d105bdd8fe19ce5121dac0a3c4d69c939cac37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 27/41] fix: do not crash on formatting with a tab size of zero

---
 crates/service/src/features/formatting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/formatting.rs b/crates/service/src/features/formatting.rs
index e6f24dc..f40bdfa 100644
--- a/crates/service/src/features/formatting.rs
+++ b/crates/service/src/features/formatting.rs
@@ -43,7 +43,8 @@ impl LanguageService {
 fn build_options(options: &FormattingOptions) -> FormatOptions {
     FormatOptions {
         layout: LayoutOptions {
-            indent_width: options.tab_size as usize,
+            // the printer divides by this width
+            indent_width: (options.tab_size as usize).max(1),
             use_tabs: !options.insert_spaces,
             ..Default::default()
         },
-- 
2.43.0


From 1779d7b6ea78294dfd26d33f7f9929a26743b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:31 +0000
Subject: [PATCH 28/41] fix: keep a lane index apart when repairing a memory
 argument

---
 .../src/refactorings/fix_invalid_mem_arg.rs   | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index 17f7600..8b34d4b 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -31,29 +31,26 @@ pub fn act(
                         }
                         _ => None,
                     });
-                    if let Some(range) = children
-                        .next()
-                        .filter(|element| {
-                            if let SyntaxElement::Token(token) = element {
-                                token.kind() == SyntaxKind::ERROR
-                                    && token.text().strip_prefix('=').is_some_and(|rest| {
-                                        rest.chars().all(|c| c.is_ascii_digit())
-                                    })
-                            } else {
-                                false
-                            }
-                        })
-                        .and(range)
-                    {
+                    let rest = children.next().and_then(|element| match element {
+                        SyntaxElement::Token(token) if token.kind() == SyntaxKind::ERROR => token
+                            .text()
+                            .strip_prefix('=')
+                            .filter(|rest| rest.chars().all(|c| c.is_ascii_digit()))
+                            .map(str::is_empty),
+                        _ => None,
+                    });
+                    if let Some((range, is_value_detached)) = range.zip(rest) {
                         text_edits.push(TextEdit {
                             range: helpers::rowan_range_to_lsp_range(line_index, range),
                             new_text: String::new(),
                         });
-                        if let Some(range) = check_after_eq(&mut children) {
-                            text_edits.push(TextEdit {
-                                range: helpers::rowan_range_to_lsp_range(line_index, range),
-                                new_text: String::new(),
-                            });
+                        if is_value_detached {
+                            if let Some(range) = check_after_eq(&mut children) {
+                                text_edits.push(TextEdit {
+                                    range: helpers::rowan_range_to_lsp_range(line_index, range),
+                                    new_text: String::new(),
+                                });
+                            }
                         }
                         break;
                     }
-- 
2.43.0


From 52e04b79a0f2bca3b081b67904c3b7547192286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 29/41] fix: offer refactorings when a parent kind of theirs is
 requested

---
 crates/service/src/features/code_action.rs | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/service/src/features/code_action.rs b/crates/service/src/features/code_action.rs
index 8dab998..e99ea0c 100644
--- a/crates/service/src/features/code_action.rs
+++ b/crates/service/src/features/code_action.rs
@@ -8,15 +8,9 @@ impl LanguageService {
         let uri = self.uri(params.text_document.uri.clone());
         let line_index = self.line_index(uri);
 
-        let mut quickfix = params.context.only.is_none();
-        let mut rewrite = params.context.only.is_none();
-        params.context.only.into_iter().flatten().for_each(|kind| {
-            if kind == CodeActionKind::QUICKFIX {
-                quickfix = true;
-            } else if kind == CodeActionKind::REFACTOR_REWRITE {
-                rewrite = true;
-            }
-        });
+        let only = params.context.only;
+        let quickfix = is_kind_requested(only.as_deref(), &CodeActionKind::QUICKFIX);
+        let rewrite = is_kind_requested(only.as_deref(), &CodeActionKind::REFACTOR_REWRITE);
 
         let mut actions = vec![];
         let range = helpers::lsp_range_to_rowan_range(&line_index, params.range)?;
@@ -77,3 +71,16 @@ impl LanguageService {
         }
     }
 }
+
+/// Code action kinds are hierarchical: requesting a kind also requests all its sub-kinds.
+fn is_kind_requested(only: Option<&[CodeActionKind]>, kind: &CodeActionKind) -> bool {
+    only.map_or(true, |only| {
+        only.iter().any(|requested| {
+            requested == &CodeActionKind::EMPTY
+                || kind
+                    .as_str()
+                    .strip_prefix(requested.as_str())
+                    .is_some_and(|rest| rest.is_empty() || rest.starts_with('.'))
+        })
+    })
+}
-- 
2.43.0


From 1bd742f410e64559d6cf83de2952f1d246f7272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 30/41] fix: expect sixteen lane indices in i8x16.shuffle

---
 crates/service/src/data_set/instr_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 5af71df..3046858 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -2118,7 +2118,7 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
         "i8x16.shuffle",
         InstrMeta {
             bin_op: "0xFD 0x0D",
-            operands_count: 1,
+            operands_count: 16,
             params: vec![
                 OperandType::Val(ValType::V128),
                 OperandType::Val(ValType::V128),
-- 
2.43.0


From eec0c6577b53def9d3e0ce1792f7a7756298d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:49 +0000
Subject: [PATCH 31/41] fix: resolve table of call_indirect and functions of
 inline elements, and no table in table.init without table

---
 crates/service/src/binder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 39377a8..98e8767 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -318,7 +318,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     }
                     Some(
                         "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill"
-                        | "table.copy",
+                        | "table.copy" | "call_indirect" | "return_call_indirect",
                     ) => {
                         let Some(region) = node
                             .ancestors()
@@ -339,7 +339,13 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         else {
                             continue;
                         };
+                        // table index can be omitted, while elem index can't
                         let mut children = node.children();
+                        if children.clone().nth(1).map_or(true, |node| {
+                            node.children_with_tokens().all(|it| it.as_node().is_some())
+                        }) {
+                            continue;
+                        }
                         if let Some(symbol) = children.next().and_then(|node| {
                             create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
                         }) {
@@ -461,7 +467,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::ELEM_LIST => {
+            SyntaxKind::ELEM_LIST | SyntaxKind::ELEM => {
                 let Some(region) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
-- 
2.43.0


From 8dfd32053f1f9df4b878a44028d0ec8b357ff8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:52 +0000
Subject: [PATCH 32/41] fix: do not report omitted table indices and complete
 memory arguments

---
 .../service/src/checker/literal_operands.rs   |  47 +++++-
 crates/service/src/checker/typeck.rs          | 155 +++++++++++++++---
 2 files changed, 174 insertions(+), 28 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 0e81960..c5066b5 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -3,7 +3,7 @@ use line_index::LineIndex;
 use lsp_types::{Diagnostic, DiagnosticSeverity};
 use rowan::ast::{
     support::{children, token},
-    AstNode,
+    AstChildren, AstNode,
 };
 use wat_syntax::{ast::Operand, SyntaxKind, SyntaxNode};
 
@@ -33,6 +33,12 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
     }
 
     match instr_name.text() {
+        "table.get" | "table.set" | "table.grow" | "table.size" | "table.fill" | "table.init"
+        | "table.copy"
+            if is_next_instr(&operands) =>
+        {
+            // table index can be omitted
+        }
         "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
         | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
         | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
@@ -55,6 +61,10 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
+            if is_next_instr(&operands) {
+                // table index can be omitted
+                return;
+            }
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
@@ -69,11 +79,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
         | "v128.store" => {
             // memory argument can be omitted
-            if operands
-                .clone()
-                .next()
-                .is_some_and(|operand| operand.instr().is_some())
-            {
+            if is_next_instr(&operands) {
                 return;
             }
             check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
@@ -100,7 +106,16 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         }
         "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
         | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            // memory argument can be omitted
+            let mut rest = operands.clone();
+            let is_mem_arg_omitted = rest
+                .next()
+                .is_some_and(|operand| token(operand.syntax(), SyntaxKind::INT).is_some())
+                && rest.next().map_or(true, |operand| operand.instr().is_some());
+            if !is_mem_arg_omitted {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+                skip_mem_arg(&mut operands);
+            }
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
@@ -109,3 +124,21 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         _ => {}
     }
 }
+
+fn is_next_instr(operands: &AstChildren<Operand>) -> bool {
+    operands
+        .clone()
+        .next()
+        .is_some_and(|operand| operand.instr().is_some())
+}
+
+/// Memory argument can have both offset and align.
+fn skip_mem_arg(operands: &mut AstChildren<Operand>) {
+    if operands
+        .clone()
+        .next()
+        .is_some_and(|operand| token(operand.syntax(), SyntaxKind::MEM_ARG).is_some())
+    {
+        operands.next();
+    }
+}
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index aaca86a..124286f 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -3,7 +3,7 @@ use crate::{
     data_set::{self, OperandType},
     files::FilesCtx,
     helpers,
-    types_analyzer::{FuncSig, TypesAnalyzerCtx},
+    types_analyzer::{FuncSig, TypesAnalyzerCtx, ValType},
     InternUri, LanguageService,
 };
 use line_index::LineIndex;
@@ -16,7 +16,7 @@ use rowan::{
     TextRange,
 };
 use wat_syntax::{
-    ast::{BlockInstr, BlockType, Instr, PlainInstr},
+    ast::{BlockInstr, BlockType, Instr, Operand, PlainInstr, TypeUse},
     SyntaxKind, SyntaxNode,
 };
 
@@ -37,30 +37,14 @@ pub fn check_folded(
     if instr.l_paren_token().is_none() {
         return;
     }
-    let is_call = instr_name.text() == "call";
     let meta = data_set::INSTR_METAS.get(instr_name.text());
 
-    let skipped_count = if is_call {
-        1
-    } else {
-        let operands_count = meta.map(|meta| meta.operands_count).unwrap_or_default();
-        let name = instr_name.text();
-        if name == "select" || name.contains(".load") || name.contains(".store") {
-            // result type and memory argument can be omitted
-            instr
-                .operands()
-                .take(operands_count)
-                .take_while(|operand| operand.instr().is_none())
-                .count()
-        } else {
-            operands_count
-        }
-    };
+    let skipped_count = count_immediates(&instr, instr_name.text(), meta);
     let received_types =
         instr
             .operands()
             .skip(skipped_count)
-            .fold(vec![], |mut received, operand| {
+            .fold(Vec::<(OperandType, Operand)>::new(), |mut received, operand| {
                 if let Some(instr) = operand.instr() {
                     if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
                         received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
@@ -249,6 +233,42 @@ pub fn check_stacked(
     });
 }
 
+/// Count of the operands that belong to the instruction itself and aren't taken from the stack.
+fn count_immediates(
+    instr: &PlainInstr,
+    name: &str,
+    meta: Option<&data_set::InstrMeta>,
+) -> usize {
+    let operands_count = meta.map(|meta| meta.operands_count).unwrap_or_default();
+    let count_given = |operands: &mut dyn Iterator<Item = Operand>, max: usize| {
+        operands
+            .take(max)
+            .take_while(|operand| operand.instr().is_none())
+            .count()
+    };
+    match name {
+        "call" | "br_if" => 1,
+        "call_indirect" => count_given(&mut instr.operands(), usize::MAX),
+        // result type and table index can be omitted
+        "select" | "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill"
+        | "table.init" | "table.copy" => count_given(&mut instr.operands(), operands_count),
+        _ if name.contains(".load") || name.contains(".store") => {
+            // memory argument can be omitted, and can have both offset and align
+            let mem_args_count = instr
+                .operands()
+                .take(2)
+                .take_while(|operand| token(operand.syntax(), SyntaxKind::MEM_ARG).is_some())
+                .count();
+            mem_args_count
+                + count_given(
+                    &mut instr.operands().skip(mem_args_count),
+                    operands_count.saturating_sub(mem_args_count.min(1)),
+                )
+        }
+        _ => operands_count,
+    }
+}
+
 fn resolve_type(
     service: &LanguageService,
     uri: InternUri,
@@ -281,6 +301,19 @@ fn resolve_type(
                                 .collect()
                         })
                 }
+                "call_indirect" => Some(
+                    resolve_call_indirect_sig(service, symbol_table, plain_instr)?
+                        .results
+                        .into_iter()
+                        .map(OperandType::Val)
+                        .collect(),
+                ),
+                "br_if" => Some(
+                    resolve_label_types(service, uri, symbol_table, plain_instr)?
+                        .into_iter()
+                        .map(OperandType::Val)
+                        .collect(),
+                ),
                 "local.get" => {
                     let idx = plain_instr.operands().next()?;
                     symbol_table
@@ -320,6 +353,14 @@ fn resolve_block_sig(
     let Some(type_use) = block_type.type_use() else {
         return Some(service.extract_sig(block_type.syntax().green().into()));
     };
+    resolve_type_use_sig(service, symbol_table, &type_use)
+}
+
+fn resolve_type_use_sig(
+    service: &LanguageService,
+    symbol_table: &SymbolTable,
+    type_use: &TypeUse,
+) -> Option<FuncSig> {
     let sig = service.extract_sig(type_use.syntax().green().into());
     if !sig.params.is_empty() || !sig.results.is_empty() {
         return Some(sig);
@@ -334,6 +375,59 @@ fn resolve_block_sig(
         .map(|func_type| service.extract_sig(func_type))
 }
 
+fn resolve_call_indirect_sig(
+    service: &LanguageService,
+    symbol_table: &SymbolTable,
+    instr: &PlainInstr,
+) -> Option<FuncSig> {
+    let type_use = instr
+        .operands()
+        .find_map(|operand| child::<TypeUse>(operand.syntax()))?;
+    resolve_type_use_sig(service, symbol_table, &type_use)
+}
+
+/// Types that are expected when branching to the label given by the first operand.
+fn resolve_label_types(
+    service: &LanguageService,
+    uri: InternUri,
+    symbol_table: &SymbolTable,
+    instr: &PlainInstr,
+) -> Option<Vec<ValType>> {
+    let label = instr.operands().next()?;
+    let root = SyntaxNode::new_root(service.root(uri));
+    if let Some(block) = symbol_table.find_block_def(&label.syntax().clone().into()) {
+        let block = BlockInstr::cast(block.key.ptr.to_node(&root))?;
+        let sig = resolve_block_sig(service, symbol_table, &block)?;
+        return Some(if matches!(block, BlockInstr::Loop(..)) {
+            sig.params.into_iter().map(|(ty, _)| ty).collect()
+        } else {
+            sig.results
+        });
+    }
+    // the outermost label is the function itself
+    let level = label.syntax().text().to_string().parse::<usize>().ok()?;
+    let blocks_count = instr
+        .syntax()
+        .ancestors()
+        .take_while(|node| node.kind() != SyntaxKind::MODULE_FIELD_FUNC)
+        .filter(|node| BlockInstr::can_cast(node.kind()))
+        .count();
+    if level != blocks_count {
+        return None;
+    }
+    let func = instr
+        .syntax()
+        .ancestors()
+        .find(|node| node.kind() == SyntaxKind::MODULE_FIELD_FUNC)?
+        .into();
+    symbol_table
+        .symbols
+        .iter()
+        .find(|symbol| symbol.kind == SymbolItemKind::Func && symbol.key == func)
+        .and_then(|symbol| service.get_func_sig(uri, symbol.clone().into()))
+        .map(|sig| sig.results)
+}
+
 type ExpectedType = (OperandType, Option<(TextRange, String)>);
 fn resolve_expected_types(
     service: &LanguageService,
@@ -342,7 +436,26 @@ fn resolve_expected_types(
     instr: &PlainInstr,
     meta: Option<&data_set::InstrMeta>,
 ) -> Option<Vec<ExpectedType>> {
-    if instr.instr_name()?.text() == "call" {
+    let instr_name = instr.instr_name()?;
+    if instr_name.text() == "call_indirect" {
+        let sig = resolve_call_indirect_sig(service, symbol_table, instr)?;
+        Some(
+            sig.params
+                .into_iter()
+                .map(|(ty, _)| ty)
+                .chain([ValType::I32])
+                .map(|ty| (OperandType::Val(ty), None))
+                .collect(),
+        )
+    } else if instr_name.text() == "br_if" {
+        Some(
+            resolve_label_types(service, uri, symbol_table, instr)?
+                .into_iter()
+                .chain([ValType::I32])
+                .map(|ty| (OperandType::Val(ty), None))
+                .collect(),
+        )
+    } else if instr_name.text() == "call" {
         let idx = instr.operands().next()?;
         let func = symbol_table
             .find_defs(&idx.syntax().clone().into())
-- 
2.43.0


From 3735f58c2025f4470814363b8fcbc27b7f9295dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 33/41] fix: do not report missing operands in unreachable code

---
 crates/service/src/checker/typeck.rs | 59 ++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 124286f..2cce738 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -40,13 +40,17 @@ pub fn check_folded(
     let meta = data_set::INSTR_METAS.get(instr_name.text());
 
     let skipped_count = count_immediates(&instr, instr_name.text(), meta);
+    let mut is_unreachable = false;
     let received_types =
         instr
             .operands()
             .skip(skipped_count)
             .fold(Vec::<(OperandType, Operand)>::new(), |mut received, operand| {
                 if let Some(instr) = operand.instr() {
-                    if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
+                    if diverges(&instr) {
+                        is_unreachable = true;
+                        received.clear();
+                    } else if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
                         received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
                     }
                 } else if meta.is_some() {
@@ -73,7 +77,13 @@ pub fn check_folded(
             .operands()
             .filter(|operand| operand.instr().is_none())
             .count();
-    if expected_count != received_count {
+    // unreachable code provides as many operands as needed
+    let is_satisfied = if is_unreachable {
+        received_types.len() <= params.len()
+    } else {
+        expected_count == received_count
+    };
+    if !is_satisfied {
         diags.push(Diagnostic {
             range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
             severity: Some(DiagnosticSeverity::ERROR),
@@ -83,7 +93,13 @@ pub fn check_folded(
         });
     }
 
-    let type_mismatches = params.iter().zip(received_types.iter()).filter_map(|pair| {
+    let provided_count = if is_unreachable {
+        params.len().saturating_sub(received_types.len())
+    } else {
+        0
+    };
+    let received = params.iter().skip(provided_count).zip(&received_types);
+    let type_mismatches = received.filter_map(|pair| {
         if let ((OperandType::Val(expected), related), (OperandType::Val(received), operand)) = pair
         {
             if expected == received {
@@ -141,6 +157,7 @@ pub fn check_stacked(
     }
 
     let mut types_stack = Vec::<(_, Instr)>::with_capacity(2);
+    let mut is_unreachable = false;
     children::<Instr>(node).for_each(|instr| {
         if let Instr::Block(block) = &instr {
             let mut pop_count = resolve_block_sig(service, symbol_table, block)
@@ -156,6 +173,11 @@ pub fn check_stacked(
                 types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
             }
         }
+        if diverges(&instr) {
+            is_unreachable = true;
+            types_stack.clear();
+            return;
+        }
         if let Instr::Plain(plain_instr) = &instr {
             let Some(instr_name) = plain_instr.instr_name() else {
                 return;
@@ -173,6 +195,9 @@ pub fn check_stacked(
             };
             let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
                 count
+            } else if is_unreachable {
+                // unreachable code provides as many operands as needed
+                0
             } else {
                 diags.push(Diagnostic {
                     range: helpers::rowan_range_to_lsp_range(
@@ -186,8 +211,14 @@ pub fn check_stacked(
                 });
                 0
             };
+            let provided_count = if is_unreachable {
+                expected_count.saturating_sub(types_stack.len())
+            } else {
+                0
+            };
             let type_mismatches = params
                 .iter()
+                .skip(provided_count)
                 .zip(types_stack.drain(pop_count..))
                 .filter_map(|pair| {
                     if let (
@@ -269,6 +300,28 @@ fn count_immediates(
     }
 }
 
+/// Tells whether code following the instruction is never reached.
+fn diverges(instr: &Instr) -> bool {
+    let Instr::Plain(instr) = instr else {
+        return false;
+    };
+    let Some(instr_name) = instr.instr_name() else {
+        return false;
+    };
+    matches!(
+        instr_name.text(),
+        "unreachable"
+            | "br"
+            | "br_table"
+            | "return"
+            | "return_call"
+            | "return_call_indirect"
+    ) || instr
+        .operands()
+        .filter_map(|operand| operand.instr())
+        .any(|instr| diverges(&instr))
+}
+
 fn resolve_type(
     service: &LanguageService,
     uri: InternUri,
-- 
2.43.0


From ef20f540f7bf0f99fa78b25a38eebc9e58f62168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:39 +0000
Subject: [PATCH 34/41] fix: accept several inline exports of a global, memory
 or table, before an inline import

Also keep their order when formatting, and accept more than one result clause of a block.
---
 crates/formatter/src/printer/module.rs | 82 +++++++++-----------------
 crates/parser/src/parser/instr.rs      | 11 +++-
 crates/parser/src/parser/module.rs     | 42 +++++--------
 3 files changed, 52 insertions(+), 83 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index a0f857e..fe05437 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -821,24 +821,7 @@ impl DocGen for ModuleFieldGlobal {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax(), &mut docs, &mut trivias, ctx);
         if let Some(global_type) = self.global_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -935,24 +918,7 @@ impl DocGen for ModuleFieldMemory {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax(), &mut docs, &mut trivias, ctx);
         if let Some(memory_type) = self.memory_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1027,24 +993,7 @@ impl DocGen for ModuleFieldTable {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax(), &mut docs, &mut trivias, ctx);
         if let Some(table_type) = self.table_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1291,3 +1240,28 @@ fn format_export_desc(
     docs.push(Doc::text(")"));
     Doc::list(docs)
 }
+
+fn format_imports_and_exports(
+    node: &SyntaxNode,
+    docs: &mut Vec<Doc<'static>>,
+    trivias: &mut Vec<Doc<'static>>,
+    ctx: &Ctx,
+) {
+    // keep them as they were ordered
+    node.children().for_each(|child| {
+        let (doc, trivias_after) = if let Some(import) = Import::cast(child.clone()) {
+            (import.doc(ctx), format_trivias_after_node(import, ctx))
+        } else if let Some(export) = Export::cast(child) {
+            (export.doc(ctx), format_trivias_after_node(export, ctx))
+        } else {
+            return;
+        };
+        if trivias.is_empty() {
+            docs.push(Doc::space());
+        } else {
+            docs.append(trivias);
+        }
+        docs.push(doc);
+        *trivias = trivias_after;
+    });
+}
diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 5d03e1b..bba249f 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,9 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, eof, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{
+        alt, dispatch, eof, fail, not, opt, peek, preceded, repeat, repeat_till, terminated,
+    },
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -33,7 +35,12 @@ fn block_instr(input: &mut Input) -> GreenResult {
 
 fn block_type(input: &mut Input) -> GreenResult {
     alt((
-        result.map(|child| node(BLOCK_TYPE, [child])),
+        terminated(
+            result,
+            // more than one results belong to type use
+            not((trivias, '(', trivias, word.verify(|word: &str| word == "result"))),
+        )
+        .map(|child| node(BLOCK_TYPE, [child])),
         type_use.map(|child| node(BLOCK_TYPE, [child])),
     ))
     .parse_next(input)
diff --git a/crates/parser/src/parser/module.rs b/crates/parser/src/parser/module.rs
index 5bbade9..bbd1fe1 100644
--- a/crates/parser/src/parser/module.rs
+++ b/crates/parser/src/parser/module.rs
@@ -213,27 +213,23 @@ fn module_field_global(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("global")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         must(retry_once(global_type, [])),
         repeat::<_, _, Vec<_>, _, _>(0.., retry_once(instr, [])),
         r_paren,
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, ty, instrs, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, ty, instrs, r_paren)| {
                 let mut children = Vec::with_capacity(7);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some(mut ty) = ty {
                     children.append(&mut ty);
                 }
@@ -283,8 +279,7 @@ fn module_field_memory(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("memory")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         dispatch! {peek(preceded(trivias, any));
             '(' => must(retry_once(data, [])),
             _ => must(retry_once(memory_type, [])),
@@ -293,19 +288,16 @@ fn module_field_memory(input: &mut Input) -> GreenResult {
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, mem_type_or_data, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, mem_type_or_data, r_paren)| {
                 let mut children = Vec::with_capacity(8);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some(mut mem_type_or_data) = mem_type_or_data {
                     children.append(&mut mem_type_or_data);
                 }
@@ -344,8 +336,7 @@ fn module_field_table(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("table")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         must(alt((
             (trivias_prefixed(ref_type), must(retry_once(elem, []))),
             (retry(table_type, []), empty.value(None)),
@@ -354,19 +345,16 @@ fn module_field_table(input: &mut Input) -> GreenResult {
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, ty_and_elem, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, ty_and_elem, r_paren)| {
                 let mut children = Vec::with_capacity(7);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some((mut ty, elem)) = ty_and_elem {
                     children.append(&mut ty);
                     if let Some(mut elem) = elem {
-- 
2.43.0


From fef8d8d5d39ab81e76a6791c837bbc96be3dc19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 35/41] fix: rename labels repeated after end and else

---
 crates/service/src/features/rename.rs | 36 +++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index 1b4eb67..d224157 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -66,7 +66,13 @@ impl LanguageService {
         let symbol_table = self.symbol_table(uri);
 
         let old_name = self.ident(ident_token.text().to_string());
-        let symbol_key = ident_token.parent()?.into();
+        let parent = ident_token.parent()?;
+        let symbol_key = if parent.kind() == SyntaxKind::BLOCK_IF_ELSE {
+            // label of the block is allowed to be repeated after `else`
+            parent.parent()?.into()
+        } else {
+            parent.into()
+        };
         let symbol = symbol_table
             .symbols
             .iter()
@@ -104,7 +110,17 @@ impl LanguageService {
                 }
                 SymbolItemKind::Module => symbol == *sym,
             })
-            .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
+            .flat_map(|sym| {
+                let node = sym.key.ptr.to_node(&root);
+                let repeated = if sym.kind == SymbolItemKind::BlockDef {
+                    find_repeated_labels(&node)
+                } else {
+                    vec![]
+                };
+                support::token(&node, SyntaxKind::IDENT)
+                    .into_iter()
+                    .chain(repeated)
+            })
             .map(|token| TextEdit {
                 range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                 new_text: params.new_name.clone(),
@@ -119,3 +135,19 @@ impl LanguageService {
         })
     }
 }
+
+/// Label of the block that is repeated after `else` and `end`.
+fn find_repeated_labels(node: &SyntaxNode) -> Vec<SyntaxToken> {
+    let Some(label) = support::token(node, SyntaxKind::IDENT) else {
+        return vec![];
+    };
+    node.children()
+        .filter(|child| child.kind() == SyntaxKind::BLOCK_IF_ELSE)
+        .chain([node.clone()])
+        .flat_map(|node| node.children_with_tokens())
+        .filter_map(|element| element.into_token())
+        .filter(|token| {
+            token.kind() == SyntaxKind::IDENT && token.text() == label.text() && *token != label
+        })
+        .collect()
+}
-- 
2.43.0


From 49f1612d273c4ee3af49c6cd39c64068d85dded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:10 +0000
Subject: [PATCH 36/41] fix: labels of folded if are not in scope in its
 condition, and opcode of untyped select

---
 crates/service/src/binder.rs              | 50 ++++++++++++-----------
 crates/service/src/data_set/instr_meta.rs | 13 ------
 crates/service/src/features/completion.rs |  9 +++-
 3 files changed, 35 insertions(+), 37 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 98e8767..0cc4f5e 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -267,18 +267,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         }));
                     }
                     Some("br" | "br_if" | "br_table") => {
-                        let Some(region) = node
-                            .ancestors()
-                            .find(|node| {
-                                matches!(
-                                    node.kind(),
-                                    SyntaxKind::BLOCK_BLOCK
-                                        | SyntaxKind::BLOCK_LOOP
-                                        | SyntaxKind::BLOCK_IF
-                                )
-                            })
-                            .map(SymbolItemKey::from)
-                        else {
+                        let Some(region) = enclosing_blocks(&node).next() else {
                             continue;
                         };
                         node.children()
@@ -294,17 +283,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                 symbols.push(symbol.clone());
                                 // all enclosing blocks count,
                                 // no matter which nodes are in between
-                                let levels = node
-                                    .ancestors()
-                                    .filter(|node| {
-                                        matches!(
-                                            node.kind(),
-                                            SyntaxKind::BLOCK_BLOCK
-                                                | SyntaxKind::BLOCK_LOOP
-                                                | SyntaxKind::BLOCK_IF
-                                        )
-                                    })
-                                    .map(SymbolItemKey::from);
+                                let levels = enclosing_blocks(&node);
                                 for (level, key) in (0..).zip(levels) {
                                     if let Some(block) = symbols.iter().find(|sym| {
                                         sym.kind == SymbolItemKind::BlockDef && sym.key == key
@@ -624,6 +603,31 @@ impl SymbolTable {
     }
 }
 
+/// Blocks whose label is in scope at given node, from the innermost.
+fn enclosing_blocks(node: &SyntaxNode) -> impl Iterator<Item = SymbolItemKey> {
+    node.ancestors()
+        .filter(|node| !is_condition(node))
+        .filter_map(|node| node.parent())
+        .filter(|node| {
+            matches!(
+                node.kind(),
+                SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP | SyntaxKind::BLOCK_IF
+            )
+        })
+        .map(SymbolItemKey::from)
+}
+
+/// The condition of a folded `if` is evaluated before entering that `if`,
+/// so label of that `if` isn't in scope there.
+pub(crate) fn is_condition(node: &SyntaxNode) -> bool {
+    node.parent()
+        .is_some_and(|parent| parent.kind() == SyntaxKind::BLOCK_IF)
+        && !matches!(
+            node.kind(),
+            SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
+        )
+}
+
 #[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub struct SymbolItemKey {
     pub ptr: SyntaxNodePtr<WatLanguage>,
diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 3046858..7a4f4f8 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -37,19 +37,6 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
             results: vec![OperandType::Generic],
         },
     );
-    map.insert(
-        "select",
-        InstrMeta {
-            bin_op: "0x1C",
-            operands_count: 1,
-            params: vec![
-                OperandType::Generic,
-                OperandType::Generic,
-                OperandType::Val(ValType::I32),
-            ],
-            results: vec![OperandType::Generic],
-        },
-    );
     map.insert(
         "local.get",
         InstrMeta {
diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 3d58b9d..547006b 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -1,5 +1,5 @@
 use crate::{
-    binder::{SymbolItemKind, SymbolTable, SymbolTablesCtx},
+    binder::{self, SymbolItemKey, SymbolItemKind, SymbolTable, SymbolTablesCtx},
     data_set,
     files::FilesCtx,
     helpers,
@@ -585,6 +585,12 @@ fn get_cmp_list(
                 }
                 CmpCtx::Block => {
                     let has_dollar = token.text().starts_with('$');
+                    let not_entered = token
+                        .parent_ancestors()
+                        .filter(binder::is_condition)
+                        .filter_map(|node| node.parent())
+                        .map(SymbolItemKey::from)
+                        .collect::<Vec<_>>();
                     items.extend(
                         symbol_table
                             .symbols
@@ -596,6 +602,7 @@ fn get_cmp_list(
                                         .ptr
                                         .text_range()
                                         .contains_range(token.text_range())
+                                    && !not_entered.contains(&symbol.key)
                             })
                             .rev()
                             .enumerate()
-- 
2.43.0


From e2f36389ee022074c471085d1ff8cddc0f646b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 37/41] fix: identifiers with an apostrophe are reported as
 syntax errors

---
 crates/parser/src/parser/token.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index d259c9d..9e135bf 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -166,10 +166,7 @@ fn ident_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
 pub fn is_id_char(c: char) -> bool {
     c.is_ascii_alphanumeric()
         || c.is_ascii_punctuation()
-            && !matches!(
-                c,
-                '\'' | '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}'
-            )
+            && !matches!(c, '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}')
 }
 
 pub(super) fn string(input: &mut Input) -> GreenResult {
-- 
2.43.0


From de00a6f7537e3d1b8eff83d4da19df00755bcf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 38/41] fix: indexes written in hexadecimal or with underscores
 are not resolved

---
 crates/service/src/binder.rs         | 4 ++--
 crates/service/src/checker/typeck.rs | 3 ++-
 crates/service/src/idx.rs            | 9 +++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 0cc4f5e..df646b3 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -1,6 +1,6 @@
 use crate::{
     files::FilesCtx,
-    idx::{IdentsCtx, Idx},
+    idx::{parse_index, IdentsCtx, Idx},
     InternUri,
 };
 use rowan::{
@@ -65,7 +65,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 node.children_with_tokens()
                     .filter_map(|it| it.into_token())
                     .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| token.text().parse().ok())
+                    .and_then(|token| parse_index(token.text()))
                     .map(|num| SymbolItem {
                         green: node.green().into(),
                         key: node.into(),
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 2cce738..efbdab6 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -3,6 +3,7 @@ use crate::{
     data_set::{self, OperandType},
     files::FilesCtx,
     helpers,
+    idx::parse_index,
     types_analyzer::{FuncSig, TypesAnalyzerCtx, ValType},
     InternUri, LanguageService,
 };
@@ -458,7 +459,7 @@ fn resolve_label_types(
         });
     }
     // the outermost label is the function itself
-    let level = label.syntax().text().to_string().parse::<usize>().ok()?;
+    let level = parse_index(&label.syntax().text().to_string())? as usize;
     let blocks_count = instr
         .syntax()
         .ancestors()
diff --git a/crates/service/src/idx.rs b/crates/service/src/idx.rs
index e1b260f..c9d5551 100644
--- a/crates/service/src/idx.rs
+++ b/crates/service/src/idx.rs
@@ -55,6 +55,15 @@ impl InternKey for InternIdent {
     }
 }
 
+/// Parses an index, which can be hexadecimal and can have underscores between digits.
+pub(crate) fn parse_index(text: &str) -> Option<u32> {
+    let text = text.replace('_', "");
+    match text.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16).ok(),
+        None => text.parse().ok(),
+    }
+}
+
 #[salsa::query_group(Idents)]
 pub(crate) trait IdentsCtx {
     #[salsa::interned]
-- 
2.43.0


From 89d8c1f84ca6556bc98d7db1eeb102fd68ae2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 39/41] fix: underscores in signed hexadecimal floats and NaN
 payloads are reported as errors

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 9e135bf..cab446f 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -263,7 +263,7 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.starts_with("0x");
+            let is_hex = text.contains("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 3534213d4b3634d592d3f0bc0ac2c095d7f98d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 40/41] fix: keep shared/unshared of limits when formatting

---
 crates/formatter/src/printer/ty.rs | 9 +++++++++
 crates/syntax/src/ast/ty.rs        | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 688adc5..33e02da 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -85,6 +85,15 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(max.to_string()));
+            trivias = format_trivias_after_token(max, ctx);
+        }
+        if let Some(share) = self.share() {
+            if trivias.is_empty() {
+                docs.push(Doc::space());
+            } else {
+                docs.append(&mut trivias);
+            }
+            docs.push(Doc::text(share.to_string()));
         }
         Doc::list(docs)
     }
diff --git a/crates/syntax/src/ast/ty.rs b/crates/syntax/src/ast/ty.rs
index e05474a..e411e27 100644
--- a/crates/syntax/src/ast/ty.rs
+++ b/crates/syntax/src/ast/ty.rs
@@ -128,6 +128,10 @@ impl Limits {
             })
             .nth(1)
     }
+    #[inline]
+    pub fn share(&self) -> Option<SyntaxToken> {
+        token(&self.syntax, SyntaxKind::SHARE)
+    }
 }
 impl AstNode for Limits {
     type Language = WatLanguage;
-- 
2.43.0


From 31ea63d3b5f5b1e99f60deca9b8ad215b368d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 41/41] fix: a closing parenthesis that closes nothing is
 reported

---
 crates/parser/src/parser/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/parser/mod.rs b/crates/parser/src/parser/mod.rs
index 4d42126..ca783a7 100644
--- a/crates/parser/src/parser/mod.rs
+++ b/crates/parser/src/parser/mod.rs
@@ -4,11 +4,11 @@ use self::{
     token::{block_comment, error_term, error_token, line_comment, trivias, ws},
 };
 use crate::error::SyntaxError;
-use rowan::{GreenNode, GreenToken, NodeOrToken};
+use rowan::{GreenNode, GreenToken, NodeOrToken, TextRange};
 use wat_syntax::{SyntaxKind, SyntaxNode};
 use winnow::{
     combinator::{alt, repeat},
-    error::{ErrMode, FromRecoverableError, StrContext},
+    error::{ErrMode, FromRecoverableError, StrContext, StrContextValue},
     stream::{Recover, Recoverable, Stream},
     Located, PResult, Parser as WinnowParser, RecoverableParser,
 };
@@ -43,7 +43,17 @@ impl<'s> Parser<'s> {
     pub fn parse_to_green(&mut self) -> GreenNode {
         let (_, tree, errors) = root.recoverable_parse(*self.input);
         self.errors = errors;
-        tree.expect("parser should always succeed even if there are syntax errors")
+        let tree = tree.expect("parser should always succeed even if there are syntax errors");
+        if self.errors.is_empty() {
+            // a parenthesis that closes nothing is skipped without error
+            self.errors
+                .extend(unmatched_r_paren(&tree).map(|range| SyntaxError {
+                    start: range.start().into(),
+                    end: range.end().into(),
+                    message: StrContext::Expected(StrContextValue::Description("module")),
+                }));
+        }
+        tree
     }
 
     /// Retrieve syntax errors.
@@ -87,6 +97,13 @@ fn root(input: &mut Input) -> PResult<GreenNode, SyntaxError> {
         })
 }
 
+fn unmatched_r_paren(root: &GreenNode) -> Option<TextRange> {
+    SyntaxNode::new_root(root.clone())
+        .children_with_tokens()
+        .find(|element| element.kind() == SyntaxKind::ERROR)
+        .map(|element| element.text_range())
+}
+
 /// Note: use `retry_once` instead if you're using `retry` in `repeat` or `repeat_till`.
 // copied and modified from https://github.com/winnow-rs/winnow/blob/95e0c100656a98a0ff3bc8420fc8844edff6b615/src/combinator/parser.rs#L963
 fn retry<'s, P, const N: usize>(
-- 
2.43.0

