From 316eb5dc6ffb7459ecb63f52f80ee4fb1accd251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 01/26] fix: don't panic on LSP positions beyond the end of a
 line or document

The server died ("Bad offset") on hover, completion and signature help requests
with a column beyond the end of the line; the LSP specification says that such
columns default back to the line length. Positions inside a multi-byte character
are now treated as non-existent.
---
 crates/lsp-server/src/translator/from_lsp.rs | 22 +++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..f2f2b89 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -1,5 +1,6 @@
 //! Utilities for translating from LSP to ink! analyzer types.
 
+use ink_analyzer::TextSize;
 use line_index::{LineCol, WideEncoding, WideLineCol};
 
 use super::PositionTranslationContext;
@@ -31,7 +32,26 @@ pub fn offset(
         }
     };
 
-    context.line_index.offset(line_col)
+    // Positions past the end of a line default back to the line's length.
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    let line_start = context.line_index.offset(LineCol {
+        line: line_col.line,
+        col: 0,
+    })?;
+    let line_end = context
+        .line_index
+        .offset(LineCol {
+            line: line_col.line + 1,
+            col: 0,
+        })
+        .map(|next_line_start| next_line_start - TextSize::from(1))
+        .unwrap_or_else(|| context.line_index.len());
+    let offset = line_start
+        .checked_add(TextSize::from(line_col.col))
+        .map_or(line_end, |offset| offset.min(line_end));
+
+    // Ignores positions inside multi-byte characters.
+    context.line_index.try_line_col(offset).map(|_| offset)
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From 26ff437dfae8d22e77d82f493fa84cc1d51228d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 02/26] fix: reject invalid byte ranges in extractEvent
 arguments

An inverted range panicked the server, and offsets larger than u32::MAX were
silently truncated.
---
 crates/lsp-server/src/dispatch/handlers/request.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..18c22c5 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,10 +322,12 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
+        .and_then(|(start, end)| u32::try_from(start).ok().zip(u32::try_from(end).ok()))
+        .filter(|(start, end)| start <= end)
         .map(|(start, end)| {
             ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
+                ink_analyzer::TextSize::from(start),
+                ink_analyzer::TextSize::from(end),
             )
         })
 }
-- 
2.43.0


From 6dfb8ffb5f00f668459d74e8e3801e62afd9b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 03/26] fix: treat out of bounds offsets as covering no token

SyntaxNode::token_at_offset panics for offsets that are out of bounds.
---
 crates/ir/src/tree/item_at_offset.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/tree/item_at_offset.rs b/crates/ir/src/tree/item_at_offset.rs
index 0f71e4f..16f2cc9 100644
--- a/crates/ir/src/tree/item_at_offset.rs
+++ b/crates/ir/src/tree/item_at_offset.rs
@@ -18,7 +18,12 @@ impl ItemAtOffset {
     /// Creates a representation of a token in the subtree that covers the offset.
     pub fn new(node: &SyntaxNode, offset: TextSize) -> Self {
         Self {
-            token_at_offset: node.token_at_offset(offset),
+            // `SyntaxNode::token_at_offset` panics for offsets that are out of bounds.
+            token_at_offset: if node.text_range().contains_inclusive(offset) {
+                node.token_at_offset(offset)
+            } else {
+                TokenAtOffset::None
+            },
             offset,
         }
     }
-- 
2.43.0


From 199cc6a73aee1c09b454135770b9fa0f94e1a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 04/26] fix: don't panic on malformed attribute arguments with
 out of order parts

E.g. diagnostics for an unbalanced attribute like `#[ink(a<-\n#([cfg(test)]\nnt`
panicked because a nested meta item may precede other name tokens.
---
 crates/ir/src/attrs/meta.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 27e0df0..b47fe71 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -125,10 +125,10 @@ impl MetaNameValue {
         let mut end: Option<TextSize> = None;
 
         let mut update_start_and_end = |range: TextRange| {
-            if start.is_none() {
-                start = Some(range.start());
-            }
-            end = Some(range.end());
+            // The parts of a malformed meta item can be out of order
+            // (e.g. when a nested meta item precedes other "name" tokens).
+            start = Some(start.map_or(range.start(), |it| it.min(range.start())));
+            end = Some(end.map_or(range.end(), |it| it.max(range.end())));
         };
 
         let get_items_text_range = |items: &[SyntaxElement]| -> Option<TextRange> {
-- 
2.43.0


From 7009ef372c663076201a4ff0abd9f36f59a42889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 05/26] fix: classify ink! version requirements by their major
 version

"5", "^5" and ">=5" were classified as ink! 4, while "4.5.0" and ">=4.0, <5.0"
were classified as ink! 5.
---
 crates/lsp-server/src/dispatch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index b09bbf5..0d86538 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -544,7 +544,8 @@ impl InkProjectVersion {
 ///
 /// NOTE: We intentionally match `>5.x.x` to v5, because no version greater than v5 currently exists.
 fn is_v5_version_string(text: &str) -> bool {
-    static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\b)(([\^~>=])|(>=))?(\s)*5\.").unwrap());
+    static RE: Lazy<Regex> =
+        Lazy::new(|| Regex::new(r"(^|,)\s*(\^|~|>=|>|=)?\s*5\s*(\.|,|$)").unwrap());
     RE.is_match(text)
 }
 
-- 
2.43.0


From 60ca5cab64b7b285733fddf03833d24b10cc3106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:31 +0000
Subject: [PATCH 06/26] fix: don't panic on completions for unclosed attributes

The insert offset for an attribute argument can be beyond the end of the parent
attribute's node (e.g. `#[ink(message, payable, }`), for which
SyntaxNode::token_at_offset panics.
---
 crates/analyzer/src/analysis/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index dae4328..81ff76d 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -756,6 +756,10 @@ pub fn ink_arg_insert_text(
         parent_attr_option
             .map(InkAttribute::syntax)
             .zip(insert_offset_option)
+            // The insert offset can be outside the parent attribute (e.g. for unclosed attributes).
+            .filter(|(parent_node, insert_offset)| {
+                parent_node.text_range().contains_inclusive(*insert_offset)
+            })
             .and_then(|(parent_node, insert_offset)| {
                 parent_node
                     .token_at_offset(insert_offset)
-- 
2.43.0


From 27b8e653b938a5563886f3ab835673a993de79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:03 +0000
Subject: [PATCH 07/26] fix: don't send workspace/applyEdit to clients that
 don't support it

The migrateProject command sent a workspace/applyEdit request (and an empty
response) to every client, so clients without workspace.applyEdit support got a
request they can't handle and lost the edits. They now get the edits in the
response, like createProject and extractEvent already do.
---
 crates/lsp-server/src/dispatch.rs | 7 +++++--
 crates/lsp-server/src/utils.rs    | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 0d86538..927331b 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -336,8 +336,11 @@ impl<'a> Dispatcher<'a> {
                     };
                     (id, params)
                 })
-        } else if cmd == COMMAND_MIGRATE_PROJECT {
-            // Convert `migrateProject` response into a workspace edit.
+        } else if cmd == COMMAND_MIGRATE_PROJECT
+            && utils::can_apply_workspace_edits(&self.client_capabilities)
+        {
+            // Convert `migrateProject` response into a workspace edit
+            // (only if the client supports workspace edit requests).
             resp.result
                 .as_ref()
                 .and_then(|value| {
diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index 9b4086b..4926783 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -119,6 +119,15 @@ pub fn request_id_as_str(id: RequestId) -> Option<String> {
         .map(ToString::to_string)
 }
 
+/// Returns true if the LSP client advertises support for `workspace/applyEdit` requests, or false otherwise.
+pub fn can_apply_workspace_edits(client_capabilities: &ClientCapabilities) -> bool {
+    client_capabilities
+        .workspace
+        .as_ref()
+        .and_then(|it| it.apply_edit)
+        .unwrap_or(false)
+}
+
 /// Returns true if the LSP client advertises capabilities for creating workspace resources.
 pub fn can_create_workspace_resources(client_capabilities: &ClientCapabilities) -> bool {
     client_capabilities.workspace.as_ref().is_some_and(|it| {
-- 
2.43.0


From 40e0ba4bb11f5a9eb8a8cb9b5ca1de6eef334847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:03 +0000
Subject: [PATCH 08/26] fix: only open the new project's lib.rs if the client
 applied the edit

The server asked the client to show a file that doesn't exist when the client
refused (or failed) to apply the createProject edit.
---
 crates/lsp-server/src/dispatch.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 927331b..f1e9ae9 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -207,7 +207,17 @@ impl<'a> Dispatcher<'a> {
 
     /// Handles LSP responses.
     fn handle_response(&mut self, resp: lsp_server::Response) -> anyhow::Result<()> {
-        // Open `lib.rs` after project initialization.
+        // Open `lib.rs` after project initialization
+        // (only if the client applied the workspace edit, otherwise there's nothing to open).
+        let is_applied = resp
+            .result
+            .as_ref()
+            .and_then(|result| result.get("applied"))
+            .and_then(serde_json::Value::as_bool)
+            .unwrap_or(false);
+        if !is_applied {
+            return Ok(());
+        }
         if let Some(resp_id) = utils::request_id_as_str(resp.id) {
             if resp_id.starts_with(INITIALIZE_PROJECT_ID_PREFIX) {
                 if let Some(project_uri) = resp_id
-- 
2.43.0


From 833e0bcf5fa0d3d3ee843a90be2a5844517910ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:03 +0000
Subject: [PATCH 09/26] fix: don't send window/showDocument to clients that
 don't support it

---
 crates/lsp-server/src/dispatch.rs | 2 +-
 crates/lsp-server/src/utils.rs    | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index f1e9ae9..4670edc 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -215,7 +215,7 @@ impl<'a> Dispatcher<'a> {
             .and_then(|result| result.get("applied"))
             .and_then(serde_json::Value::as_bool)
             .unwrap_or(false);
-        if !is_applied {
+        if !is_applied || !utils::show_document_support(&self.client_capabilities) {
             return Ok(());
         }
         if let Some(resp_id) = utils::request_id_as_str(resp.id) {
diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index 4926783..59c7dea 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -128,6 +128,15 @@ pub fn can_apply_workspace_edits(client_capabilities: &ClientCapabilities) -> bo
         .unwrap_or(false)
 }
 
+/// Returns true if the LSP client advertises support for `window/showDocument` requests, or false otherwise.
+pub fn show_document_support(client_capabilities: &ClientCapabilities) -> bool {
+    client_capabilities
+        .window
+        .as_ref()
+        .and_then(|it| it.show_document.as_ref())
+        .is_some_and(|it| it.support)
+}
+
 /// Returns true if the LSP client advertises capabilities for creating workspace resources.
 pub fn can_create_workspace_resources(client_capabilities: &ClientCapabilities) -> bool {
     client_capabilities.workspace.as_ref().is_some_and(|it| {
-- 
2.43.0


From 691a6d1dd7e66669e6c547e35cb79f9f6152f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:39 +0000
Subject: [PATCH 10/26] fix: don't replace an existing dependency when
 extracting an ink! event

Extracting an event into a package whose name equals the name of an existing
dependency silently replaced that dependency in the contract's Cargo.toml.
---
 crates/lsp-server/src/dispatch/handlers/command.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 4078853..dafe7b4 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -387,6 +387,13 @@ fn add_dependency_to_cargo_toml(
         return Err(anyhow::format_err!("Failed to parse `TOML` file."));
     };
 
+    // Never replaces an existing (unrelated) dependency.
+    if deps.contains_key(name) {
+        return Err(anyhow::format_err!(
+            "A dependency named `{name}` already exists in the `Cargo.toml` file."
+        ));
+    }
+
     // Adds dependency item.
     deps.insert(name, item);
 
-- 
2.43.0


From 51efcfc3600f43fd3794c06e992731213bd55679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:46 +0000
Subject: [PATCH 11/26] fix: list missing trait definition messages and
 arguments in source order

---
 .../analysis/diagnostics/contract/ink_impl.rs | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index d720fbe..0f8ddb4 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -516,18 +516,22 @@ fn ensure_trait_definition_impl_invariants(
         }
 
         // Computes diagnostic for missing messages (if any).
-        let mut missing_messages = message_index.values().filter_map(|message| {
-            // Filters missing messages (with valid names).
-            message.fn_item().and_then(|fn_item| {
-                fn_item
-                    .name()
-                    .is_some_and(|name| {
-                        let name_text = name.to_string();
-                        !name_text.is_empty() && !seen_messages.contains(&name_text)
-                    })
-                    .then_some(fn_item)
-            })
-        });
+        // NOTE: Messages are sorted by source order, because hash map iteration order is arbitrary.
+        let mut missing_messages = message_index
+            .values()
+            .sorted_by_key(|message| message.syntax().text_range().start())
+            .filter_map(|message| {
+                // Filters missing messages (with valid names).
+                message.fn_item().and_then(|fn_item| {
+                    fn_item
+                        .name()
+                        .is_some_and(|name| {
+                            let name_text = name.to_string();
+                            !name_text.is_empty() && !seen_messages.contains(&name_text)
+                        })
+                        .then_some(fn_item)
+                })
+            });
         if let Some(fn_item) = missing_messages.next() {
             let (insert_offset, indent_option, prefix_option, suffix_option) = impl_item
                 .assoc_item_list()
@@ -814,8 +818,11 @@ fn ensure_trait_definition_impl_message_args(
     }
 
     // Computes diagnostic for missing "allowed" attribute arguments (if any).
+    // NOTE: Arguments are first sorted by source order, because hash map iteration order is arbitrary
+    // (and the relative order of non-primary arguments is otherwise unspecified).
     let mut missing_args = ink_arg_index
         .values()
+        .sorted_by_key(|arg| arg.text_range().start())
         .filter(|arg| {
             !seen_arg_kinds.contains(arg.kind()) && allowed_arg_kinds.contains(arg.kind())
         })
-- 
2.43.0


From b8db9c24ed4af4c85ac90337d493423f07e49db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:03 +0000
Subject: [PATCH 12/26] fix: don't emit overlapping edits when migrating to
 ink! 5.0

---
 crates/analyzer/src/analysis/migrate.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 78803bf..2373dab 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -35,7 +35,28 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     e2e_test::migrate(&mut results, file);
 
     // Format and return edits.
-    format_edits(results.into_iter().unique(), file).collect()
+    let edits: Vec<TextEdit> = results.into_iter().unique().collect();
+    let formatted_edits: Vec<TextEdit> = format_edits(edits.iter().cloned(), file).collect();
+    edits
+        .iter()
+        .zip(&formatted_edits)
+        .map(|(edit, formatted_edit)| {
+            // Formatting extends deletes to include any trailing whitespace,
+            // so we revert to the original range if it would overlap with another edit.
+            let trailing_range = TextRange::new(
+                edit.range.end(),
+                formatted_edit.range.end().max(edit.range.end()),
+            );
+            let is_overlapping = formatted_edits
+                .iter()
+                .any(|other| trailing_range.contains(other.range.start()));
+            if is_overlapping {
+                edit.clone()
+            } else {
+                formatted_edit.clone()
+            }
+        })
+        .collect()
 }
 
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
-- 
2.43.0


From b8ecbcf38fec3e249eda581e02985206b576c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:10 +0000
Subject: [PATCH 13/26] fix: clamp huge LSP columns on lines with multi-byte
 characters

---
 crates/lsp-server/src/translator/from_lsp.rs | 42 ++++++++++----------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index f2f2b89..ef46e0d 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -10,13 +10,32 @@ pub fn offset(
     position: lsp_types::Position,
     context: &PositionTranslationContext,
 ) -> Option<ink_analyzer::TextSize> {
+    // Determines the boundaries of the line.
+    let line_start = context.line_index.offset(LineCol {
+        line: position.line,
+        col: 0,
+    })?;
+    let line_end = context
+        .line_index
+        .offset(LineCol {
+            line: position.line + 1,
+            col: 0,
+        })
+        .map(|next_line_start| next_line_start - TextSize::from(1))
+        .unwrap_or_else(|| context.line_index.len());
+
+    // Positions past the end of a line default back to the line's length
+    // (the length in bytes is never less than the length in wide characters).
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    let character = position.character.min((line_end - line_start).into());
+
     let line_col = if context.encoding == lsp_types::PositionEncodingKind::UTF16
         || context.encoding == lsp_types::PositionEncodingKind::UTF32
     {
         // Handles wide position encodings.
         let wide_line_col = WideLineCol {
             line: position.line,
-            col: position.character,
+            col: character,
         };
         let wide_encoding = if context.encoding == lsp_types::PositionEncodingKind::UTF32 {
             WideEncoding::Utf32
@@ -28,27 +47,10 @@ pub fn offset(
         // Handles uft-8 position encoding.
         LineCol {
             line: position.line,
-            col: position.character,
+            col: character,
         }
     };
-
-    // Positions past the end of a line default back to the line's length.
-    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
-    let line_start = context.line_index.offset(LineCol {
-        line: line_col.line,
-        col: 0,
-    })?;
-    let line_end = context
-        .line_index
-        .offset(LineCol {
-            line: line_col.line + 1,
-            col: 0,
-        })
-        .map(|next_line_start| next_line_start - TextSize::from(1))
-        .unwrap_or_else(|| context.line_index.len());
-    let offset = line_start
-        .checked_add(TextSize::from(line_col.col))
-        .map_or(line_end, |offset| offset.min(line_end));
+    let offset = line_end.min(line_start + TextSize::from(line_col.col));
 
     // Ignores positions inside multi-byte characters.
     context.line_index.try_line_col(offset).map(|_| offset)
-- 
2.43.0


From 015a428833bd762cd24d7bf0afc35940ad68112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:43 +0000
Subject: [PATCH 14/26] fix: don't suggest moving a malformed ink! item into
 itself

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 31db307..96af0df 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1746,6 +1746,11 @@ where
         })
         .as_ref()
         .and_then(|impl_item| Some(impl_item).zip(impl_item.assoc_item_list()))
+        .filter(|(_, assoc_item_list)| {
+            // An item can't be moved into itself (e.g. while its `impl` block is still malformed).
+            let insert_offset = utils::assoc_item_insert_offset_end(assoc_item_list);
+            !item.syntax().text_range().contains(insert_offset)
+        })
         .map(|(impl_item, assoc_item_list)| {
             // Moves the item to the root of the closest parent/ancestor or sibling `impl` block.
             vec![Action::move_item(
-- 
2.43.0


From 48285acd8c84d051bdd0bae584ad3ba7dd20b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:11 +0000
Subject: [PATCH 15/26] fix: only offer completions whose edits contain the
 cursor

---
 crates/lsp-server/src/dispatch/handlers/request.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 18c22c5..34da4e2 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -27,6 +27,9 @@ pub fn handle_completion(
                 .analysis
                 .completions(offset)
                 .into_iter()
+                // Completion edits must contain the requested position (and be on a single line).
+                // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#completionItem>.
+                .filter(|completion| completion.range.contains_inclusive(offset))
                 .filter_map(|completion| {
                     translator::to_lsp::completion(
                         completion,
@@ -34,6 +37,13 @@ pub fn handle_completion(
                         &snapshot.context,
                     )
                 })
+                .filter(|item| {
+                    matches!(
+                        &item.text_edit,
+                        Some(lsp_types::CompletionTextEdit::Edit(edit))
+                            if edit.range.start.line == edit.range.end.line
+                    )
+                })
                 .collect();
 
             // Compose LSP completion response.
-- 
2.43.0


From 99c6401b4ad48dde9f6b3c3a118ed6af77527b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:16 +0000
Subject: [PATCH 16/26] fix: don't suggest moving any malformed ink! item into
 itself

---
 crates/analyzer/src/analysis/actions.rs       | 17 ++++++----
 .../src/analysis/diagnostics/common.rs        | 33 +++++++++----------
 .../src/analysis/diagnostics/contract.rs      |  7 ++--
 .../analysis/diagnostics/contract/ink_impl.rs |  7 ++--
 4 files changed, 35 insertions(+), 29 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions.rs b/crates/analyzer/src/analysis/actions.rs
index fe018f6..1ceaec2 100644
--- a/crates/analyzer/src/analysis/actions.rs
+++ b/crates/analyzer/src/analysis/actions.rs
@@ -80,17 +80,17 @@ impl Action {
         }
     }
 
-    /// Moves an item (i.e a syntax node) to a new location.
+    /// Moves an item (i.e a syntax node) to a new location (if possible).
     pub(crate) fn move_item(
         item: &SyntaxNode,
         offset: TextSize,
         label: String,
         indent_option: Option<&str>,
-    ) -> Self {
+    ) -> Option<Self> {
         Self::move_item_with_affixes(item, offset, label, indent_option, None, None)
     }
 
-    /// Moves an item (i.e a syntax node) to a new location with affixes (i.e. prefixes and suffixes).
+    /// Moves an item (i.e a syntax node) to a new location with affixes (i.e. prefixes and suffixes), if possible.
     pub(crate) fn move_item_with_affixes(
         item: &SyntaxNode,
         offset: TextSize,
@@ -98,7 +98,12 @@ impl Action {
         indent_option: Option<&str>,
         prefix_option: Option<&str>,
         suffix_option: Option<&str>,
-    ) -> Self {
+    ) -> Option<Self> {
+        // An item can't be moved into itself (e.g. while it, or its parent, is still malformed).
+        if item.text_range().start() < offset && offset < item.text_range().end() {
+            return None;
+        }
+
         // Gets the unindented insert text.
         // NOTE: removes item's top-level indenting (if any).
         let mut insert_text = utils::item_indenting(item)
@@ -122,7 +127,7 @@ impl Action {
             insert_text = format!("{insert_text}{suffix}");
         }
 
-        Self {
+        Some(Self {
             label,
             kind: ActionKind::QuickFix,
             range: item.text_range(),
@@ -132,7 +137,7 @@ impl Action {
                 // Delete the item from current location.
                 TextEdit::delete(item.text_range()),
             ],
-        }
+        })
     }
 }
 
diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 96af0df..13ffe38 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -757,8 +757,8 @@ fn validate_entity_attributes(
                 ),
                 range: primary_ink_attr_candidate.syntax().text_range(),
                 severity: Severity::Error,
-                quickfixes: primary_attr_insert_offset_option().map(|insert_offset| {
-                    vec![Action::move_item(
+                quickfixes: primary_attr_insert_offset_option().and_then(|insert_offset| {
+                    Action::move_item(
                         primary_ink_attr_candidate.syntax(),
                         insert_offset,
                         format!(
@@ -766,7 +766,8 @@ fn validate_entity_attributes(
                             primary_ink_attr_candidate.syntax(),
                         ),
                         None,
-                    )]
+                    )
+                    .map(|action| vec![action])
                 }),
             });
         }
@@ -1711,13 +1712,14 @@ where
             .as_ref()
             .and_then(Contract::module)
             .and_then(|mod_item| Some(mod_item).zip(mod_item.item_list()))
-            .map(|(mod_item, item_list)| {
-                vec![Action::move_item(
+            .and_then(|(mod_item, item_list)| {
+                Action::move_item(
                     item.syntax(),
                     utils::item_insert_offset_by_scope_name(&item_list, ink_scope_name),
                     "Move item to the root of the closest ink! contract's `mod` item.".to_owned(),
                     Some(utils::item_children_indenting(mod_item.syntax()).as_str()),
-                )]
+                )
+                .map(|action| vec![action])
             }),
     })
 }
@@ -1746,35 +1748,32 @@ where
         })
         .as_ref()
         .and_then(|impl_item| Some(impl_item).zip(impl_item.assoc_item_list()))
-        .filter(|(_, assoc_item_list)| {
-            // An item can't be moved into itself (e.g. while its `impl` block is still malformed).
-            let insert_offset = utils::assoc_item_insert_offset_end(assoc_item_list);
-            !item.syntax().text_range().contains(insert_offset)
-        })
-        .map(|(impl_item, assoc_item_list)| {
+        .and_then(|(impl_item, assoc_item_list)| {
             // Moves the item to the root of the closest parent/ancestor or sibling `impl` block.
-            vec![Action::move_item(
+            Action::move_item(
                 item.syntax(),
                 utils::assoc_item_insert_offset_end(&assoc_item_list),
                 "Move item to the root of the closest `impl` block.".to_owned(),
                 Some(utils::item_children_indenting(impl_item.syntax()).as_str()),
-            )]
+            )
+            .map(|action| vec![action])
         })
         .or_else(|| {
             ink_analyzer_ir::ink_ancestors::<Contract>(item.syntax())
                 .next()
                 .and_then(|contract| {
                     // Moves the item to the first non-trait `impl` block or creates a new `impl` block if necessary for the parent ink! contract (if any).
-                    utils::callable_insert_offset_indent_and_affixes(&contract).map(
+                    utils::callable_insert_offset_indent_and_affixes(&contract).and_then(
                         |(insert_offset, indent, prefix, suffix)| {
-                            vec![Action::move_item_with_affixes(
+                            Action::move_item_with_affixes(
                                 item.syntax(),
                                 insert_offset,
                                 "Move item to the root of the closest `impl` block.".to_owned(),
                                 Some(indent.as_str()),
                                 prefix.as_deref(),
                                 suffix.as_deref(),
-                            )]
+                            )
+                            .map(|action| vec![action])
                         },
                     )
                 })
diff --git a/crates/analyzer/src/analysis/diagnostics/contract.rs b/crates/analyzer/src/analysis/diagnostics/contract.rs
index 176e3c9..b542ef0 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract.rs
@@ -601,14 +601,15 @@ where
         quickfixes: contract
             .module()
             .and_then(ast::Module::item_list)
-            .map(|item_list| {
+            .and_then(|item_list| {
                 // Moves the item to the root of the ink! contract's `mod` item.
-                vec![Action::move_item(
+                Action::move_item(
                     item.syntax(),
                     utils::item_insert_offset_by_scope_name(&item_list, ink_scope_name),
                     "Move item to the root of the ink! contract's `mod` item.".to_owned(),
                     Some(utils::item_children_indenting(contract.syntax()).as_str()),
-                )]
+                )
+                .map(|action| vec![action])
             }),
     })
 }
diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index 0f8ddb4..19e11fa 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -322,14 +322,15 @@ where
         quickfixes: ink_impl
             .impl_item()
             .and_then(|it| it.assoc_item_list())
-            .map(|assoc_item_list| {
+            .and_then(|assoc_item_list| {
                 // Moves the item to the root of the `impl` block.
-                vec![Action::move_item(
+                Action::move_item(
                     item.syntax(),
                     utils::assoc_item_insert_offset_end(&assoc_item_list),
                     "Move item to the root of the ink! contract's `impl` block.".to_owned(),
                     Some(utils::item_children_indenting(ink_impl.syntax()).as_str()),
-                )]
+                )
+                .map(|action| vec![action])
             }),
     })
 }
-- 
2.43.0


From 1f357410028b2bf123b124bcab517a2ab71866f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:24 +0000
Subject: [PATCH 17/26] fix: don't let edit formatting make an action's edits
 overlap

---
 crates/analyzer/src/analysis/text_edit.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index 12109d4..e8129b2 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -69,7 +69,21 @@ pub fn format_edits<'a>(
     edits: impl Iterator<Item = TextEdit> + 'a,
     file: &'a InkFile,
 ) -> impl Iterator<Item = TextEdit> + 'a {
-    edits.map(|item| format_edit(item, file))
+    let edits: Vec<_> = edits.collect();
+    let ranges: Vec<_> = edits.iter().map(|edit| edit.range).collect();
+    edits.into_iter().map(move |edit| {
+        let range = edit.range;
+        let mut edit = format_edit(edit, file);
+        // Doesn't remove whitespace after an edit if it's affected by another edit
+        // (because the edits would otherwise overlap).
+        let is_overlapping = ranges
+            .iter()
+            .any(|it| range.end() <= it.start() && it.start() < edit.range.end());
+        if is_overlapping {
+            edit.range = range;
+        }
+        edit
+    })
 }
 
 /// Format text edit (i.e. add indenting and new lines based on context).
-- 
2.43.0


From 62d4816e8185a96965321e29ffc1f0627a959321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:09 +0000
Subject: [PATCH 18/26] fix: add e2e trait imports in a stable order when
 migrating

---
 crates/analyzer/src/analysis/migrate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 2373dab..720d593 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -32,7 +32,13 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     host_fn::migrate(&mut results, file);
 
     // Migrate e2e tests.
-    e2e_test::migrate(&mut results, file);
+    let mut e2e_test_edits = Vec::new();
+    e2e_test::migrate(&mut e2e_test_edits, file);
+    // Sorts edits because the required trait imports aren't collected in any particular order.
+    results.extend(e2e_test_edits.into_iter().sorted_by(|a, b| {
+        let key = |edit: &TextEdit| (edit.range.start(), edit.range.end());
+        key(a).cmp(&key(b)).then_with(|| a.text.cmp(&b.text))
+    }));
 
     // Format and return edits.
     let edits: Vec<TextEdit> = results.into_iter().unique().collect();
-- 
2.43.0


From 48edc82386399298e63236f031158c6ed374752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:09 +0000
Subject: [PATCH 19/26] fix: don't rewrite already migrated ink! e2e test
 signatures

---
 crates/analyzer/src/analysis/migrate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 720d593..2941628 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -34,6 +34,11 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     // Migrate e2e tests.
     let mut e2e_test_edits = Vec::new();
     e2e_test::migrate(&mut e2e_test_edits, file);
+    // Skips code that's already migrated (e.g. `fn` signatures).
+    let source = file.syntax().to_string();
+    e2e_test_edits.retain(|edit| {
+        edit.text.is_empty() || !source[..edit.range.end().into()].ends_with(&edit.text)
+    });
     // Sorts edits because the required trait imports aren't collected in any particular order.
     results.extend(e2e_test_edits.into_iter().sorted_by(|a, b| {
         let key = |edit: &TextEdit| (edit.range.start(), edit.range.end());
-- 
2.43.0


From e50c4193ae813c7883b8f54b02bd0a325156ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 20/26] fix: don't let the removal of adjacent conflicting
 arguments overlap

---
 .../analyzer/src/analysis/diagnostics/common.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 13ffe38..485b860 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1066,13 +1066,16 @@ fn validate_entity_attributes(
                                         range: attr.syntax().text_range(),
                                         edits: conflicting_args
                                             .iter()
-                                            .map(|arg| {
-                                                TextEdit::delete(
-                                                    utils::ink_arg_and_delimiter_removal_range(
-                                                        arg,
-                                                        Some(attr),
-                                                    ),
-                                                )
+                                            .sorted_by_key(|arg| arg.text_range().start())
+                                            .scan(attr.syntax().text_range().start(), |offset, arg| {
+                                                let range = utils::ink_arg_and_delimiter_removal_range(
+                                                    arg,
+                                                    Some(attr),
+                                                );
+                                                // Adjacent arguments share a delimiter.
+                                                let start = range.start().max(*offset);
+                                                *offset = range.end().max(start);
+                                                Some(TextEdit::delete(TextRange::new(start, *offset)))
                                             })
                                             .collect(),
                                     }
-- 
2.43.0


From 895753b849ce040720a2b09393a4235e4f119c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:24 +0000
Subject: [PATCH 21/26] fix: don't import already imported e2e traits when
 migrating

---
 crates/analyzer/src/analysis/migrate.rs | 31 +++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 2941628..917bd7b 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -34,10 +34,12 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     // Migrate e2e tests.
     let mut e2e_test_edits = Vec::new();
     e2e_test::migrate(&mut e2e_test_edits, file);
-    // Skips code that's already migrated (e.g. `fn` signatures).
+    // Skips code that's already migrated (e.g. `fn` signatures and trait imports).
     let source = file.syntax().to_string();
     e2e_test_edits.retain(|edit| {
-        edit.text.is_empty() || !source[..edit.range.end().into()].ends_with(&edit.text)
+        let is_present =
+            !edit.text.is_empty() && source[..edit.range.end().into()].ends_with(&edit.text);
+        !is_present && !is_existing_import(edit, file)
     });
     // Sorts edits because the required trait imports aren't collected in any particular order.
     results.extend(e2e_test_edits.into_iter().sorted_by(|a, b| {
@@ -70,6 +72,31 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
         .collect()
 }
 
+/// Returns true if the edit inserts a `use` declaration that already exists in the target scope.
+fn is_existing_import(edit: &TextEdit, file: &InkFile) -> bool {
+    let import = edit.text.trim();
+    edit.range.is_empty()
+        && import.starts_with("use ")
+        && file
+            .syntax()
+            .token_at_offset(edit.range.start())
+            .left_biased()
+            .into_iter()
+            .flat_map(|token| token.parent_ancestors())
+            .find(|node| {
+                matches!(
+                    node.kind(),
+                    SyntaxKind::ITEM_LIST | SyntaxKind::STMT_LIST | SyntaxKind::SOURCE_FILE
+                )
+            })
+            .is_some_and(|scope| {
+                scope
+                    .children()
+                    .filter_map(ast::Use::cast)
+                    .any(|use_item| use_item.to_string().trim() == import)
+            })
+}
+
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
 fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
     for contract in file.contracts() {
-- 
2.43.0


From a484130f8ad92f55cbd3f706c9e7c7c441f9e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:24 +0000
Subject: [PATCH 22/26] fix: don't add instantiate_v1 to already migrated calls

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 247e34d..3091825 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -146,6 +146,17 @@ impl Visitor for BodyVisitor {
         match host_fn_wrapper_path {
             // Add `.instantiate_v1(..)` to `build_create::<..>(..)`.
             HostFnWrapper::BuildCreate(_) => {
+                // Skips calls that are already migrated.
+                let is_migrated = expr
+                    .syntax()
+                    .ancestors()
+                    .skip(1)
+                    .map_while(ast::MethodCallExpr::cast)
+                    .filter_map(|method_call| method_call.name_ref())
+                    .any(|method_name| method_name.to_string() == "instantiate_v1");
+                if is_migrated {
+                    return;
+                }
                 self.results.push(TextEdit::insert(
                     ".instantiate_v1()".to_owned(),
                     expr.syntax().text_range().end(),
-- 
2.43.0


From 4d77b31be0d64d433d09ebcd3bc96118edaae503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:26 +0000
Subject: [PATCH 23/26] fix: don't rewrite migrated ink! e2e test signatures
 that span several lines

---
 crates/analyzer/src/analysis/migrate.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 917bd7b..6724d81 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -5,7 +5,7 @@ mod e2e_test;
 mod host_fn;
 mod traversal;
 
-use ink_analyzer_ir::ast::HasName;
+use ink_analyzer_ir::ast::{HasGenericParams, HasName};
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
 use ink_analyzer_ir::{ast, ChainExtension, InkArg, InkArgKind, InkEntity, InkFile, IsInkStruct};
 use itertools::Itertools;
@@ -39,7 +39,7 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     e2e_test_edits.retain(|edit| {
         let is_present =
             !edit.text.is_empty() && source[..edit.range.end().into()].ends_with(&edit.text);
-        !is_present && !is_existing_import(edit, file)
+        !is_present && !is_existing_import(edit, file) && !is_migrated_signature(edit, file)
     });
     // Sorts edits because the required trait imports aren't collected in any particular order.
     results.extend(e2e_test_edits.into_iter().sorted_by(|a, b| {
@@ -72,6 +72,18 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
         .collect()
 }
 
+/// Returns true if the edit rewrites a `fn` signature that's already generic over the e2e backend.
+fn is_migrated_signature(edit: &TextEdit, file: &InkFile) -> bool {
+    edit.text.starts_with("<Client: E2EBackend>")
+        && file
+            .syntax()
+            .token_at_offset(edit.range.start())
+            .left_biased()
+            .and_then(|token| token.parent_ancestors().find_map(ast::Fn::cast))
+            .and_then(|fn_item| fn_item.generic_param_list())
+            .is_some_and(|generics| generics.to_string().contains("E2EBackend"))
+}
+
 /// Returns true if the edit inserts a `use` declaration that already exists in the target scope.
 fn is_existing_import(edit: &TextEdit, file: &InkFile) -> bool {
     let import = edit.text.trim();
-- 
2.43.0


From bf5c9f0ed02d07a6390ae21d869922deddac25ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:56 +0000
Subject: [PATCH 24/26] fix: split whitespace at the end of the edit when
 formatting edits inside whitespace

The text after the edit was taken from the wrong offset, which also panicked when the whitespace includes multi-byte characters.
---
 crates/analyzer/src/analysis/text_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index e8129b2..47fabc7 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -147,7 +147,7 @@ pub fn format_edit(mut edit: TextEdit, file: &InkFile) -> TextEdit {
         let (whitespace_before, whitespace_after) = if edit.range.is_empty() {
             whitespace_text.split_at(start.into())
         } else {
-            let end = whitespace_token.text_range().end() - edit.range.end();
+            let end = edit.range.end() - whitespace_token.text_range().start();
             let (whitespace_before, _) = whitespace_text.split_at(start.into());
             let (_, whitespace_after) = whitespace_text.split_at(end.into());
             (whitespace_before, whitespace_after)
-- 
2.43.0


From 11c5dd60d41d1cfdade6f7742a80ba5578872b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:01 +0000
Subject: [PATCH 25/26] fix: migrate calls in conditions, iterables, match
 guards and let-else blocks

---
 .../src/analysis/migrate/traversal.rs         | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/traversal.rs b/crates/analyzer/src/analysis/migrate/traversal.rs
index 75150f4..21609ef 100644
--- a/crates/analyzer/src/analysis/migrate/traversal.rs
+++ b/crates/analyzer/src/analysis/migrate/traversal.rs
@@ -52,6 +52,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_expr_opt!(visitor, expr.body());
         }
         ast::Expr::ForExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.iterable());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -76,8 +77,11 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
         ast::Expr::MatchExpr(expr) => {
             visit_sub_expr!(visitor, expr);
             if let Some(arms) = expr.match_arm_list().as_ref().map(ast::MatchArmList::arms) {
-                let arms_exprs = arms.filter_map(|arm| arm.expr());
-                visit_sub_exprs_iter!(visitor, arms_exprs);
+                for arm in arms {
+                    let guard = arm.guard().and_then(|guard| guard.condition());
+                    visit_sub_expr_opt!(visitor, guard);
+                    visit_sub_expr!(visitor, arm);
+                }
             }
         }
         ast::Expr::MethodCallExpr(expr) => {
@@ -99,6 +103,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_exprs_iter!(visitor, expr.fields());
         }
         ast::Expr::WhileExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.condition());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -126,7 +131,7 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         return;
     };
     for stmt in stmt_list.statements() {
-        let expr = match stmt {
+        let expr = match &stmt {
             ast::Stmt::ExprStmt(expr_stmt) => expr_stmt.expr(),
             ast::Stmt::LetStmt(let_stmt) => let_stmt.initializer(),
             ast::Stmt::Item(_) => None,
@@ -135,6 +140,17 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         if let Some(expr) = expr {
             visitor.visit_expr(&expr);
         }
+
+        // Handles the diverging block of `let-else` statements.
+        let let_else_block = match &stmt {
+            ast::Stmt::LetStmt(let_stmt) => let_stmt
+                .let_else()
+                .and_then(|let_else| let_else.block_expr()),
+            _ => None,
+        };
+        if let Some(block_expr) = let_else_block {
+            visitor.visit_block(&block_expr);
+        }
     }
     let Some(expr) = stmt_list.tail_expr() else {
         return;
@@ -152,6 +168,7 @@ pub fn walk_call<V: Visitor>(visitor: &mut V, expr: &ast::CallExpr) {
 }
 
 pub fn walk_if_expr<V: Visitor>(visitor: &mut V, if_expr: &ast::IfExpr) {
+    visit_sub_expr_opt!(visitor, if_expr.condition());
     if let Some(expr) = if_expr.then_branch() {
         visitor.visit_block(&expr);
     }
-- 
2.43.0


From c08c26c779ea49e83ad9a246f39f131690bcd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:51 +0000
Subject: [PATCH 26/26] fix: resolve cyclic use declarations and type aliases
 without overflowing the stack

`use super::*;` inside a module and `pub use module::*;` (or any other chain of
re-exports or type aliases that leads back to itself) made item resolution recurse
until the stack overflowed, which takes the whole language server down.
---
 crates/analyzer/src/resolution.rs | 80 +++++++++++++++++++++++++++----
 crates/ir/src/tree/ast_ext.rs     | 58 ++++++++++++++++++----
 2 files changed, 118 insertions(+), 20 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..bde3128 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -78,6 +78,19 @@ pub fn is_external_crate_item(
     path: &ast::Path,
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
+) -> bool {
+    is_external_crate_item_inner(name, path, qualifiers, ref_node, &mut HashSet::new())
+}
+
+// See [`is_external_crate_item`].
+//
+// NOTE: Tracks visited type aliases, because they can be cyclic (e.g. `type A = B; type B = A;`).
+fn is_external_crate_item_inner(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    visited: &mut HashSet<SyntaxNode>,
 ) -> bool {
     let name_is_path_target = is_path_target(name, path);
 
@@ -206,19 +219,24 @@ pub fn is_external_crate_item(
                     })
                 })
             };
-            let path_is_type_alias_for_name = || {
-                ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
-                    false,
-                    |type_alias| {
+            let mut path_is_type_alias_for_name = || {
+                ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node)
+                    .filter(|type_alias| visited.insert(type_alias.syntax().clone()))
+                    .map_or(false, |type_alias| {
                         type_alias
                             .ty()
                             .as_ref()
                             .and_then(ink_analyzer_ir::path_from_type)
                             .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
+                                is_external_crate_item_inner(
+                                    name,
+                                    &path,
+                                    qualifiers,
+                                    type_alias.syntax(),
+                                    visited,
+                                )
                             })
-                    },
-                )
+                    })
             };
 
             (name_is_path_target
@@ -308,6 +326,22 @@ fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
 ) -> (HashSet<String>, HashMap<String, String>) {
+    external_crate_uses_and_aliases_in_scope_inner(crates, ref_node, &mut HashSet::new())
+}
+
+// See [`external_crate_uses_and_aliases_in_scope`].
+//
+// NOTE: Tracks visited scopes, because glob use declarations can be cyclic
+// (e.g. `use super::*;` inside a module, and `use module::*;` in its parent).
+fn external_crate_uses_and_aliases_in_scope_inner(
+    crates: &[&str],
+    ref_node: &SyntaxNode,
+    visited_scopes: &mut HashSet<SyntaxNode>,
+) -> (HashSet<String>, HashMap<String, String>) {
+    if !visited_scopes.insert(ref_node.clone()) {
+        return (HashSet::new(), HashMap::new());
+    }
+
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
 
@@ -319,7 +353,13 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result = match_path_to_external_crate_in_scope(
+            &use_path_str,
+            crates,
+            ref_node,
+            visited_scopes,
+            &mut HashSet::new(),
+        );
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +375,13 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result = match_path_to_external_crate_in_scope(
+                &item_path_str,
+                crates,
+                ref_node,
+                visited_scopes,
+                &mut HashSet::new(),
+            );
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -351,13 +397,21 @@ fn external_crate_uses_and_aliases_in_scope(
 }
 
 // Matches a path to an external crate item (if possible) using `use` declarations and aliases in the current scope.
+//
+// NOTE: Tracks visited scopes and paths, because use declarations can be cyclic.
 fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
+    visited_scopes: &mut HashSet<SyntaxNode>,
+    visited_paths: &mut HashSet<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
+    if !visited_paths.insert((path.to_owned(), ref_node.clone())) {
+        return (use_paths, item_aliases);
+    }
+
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
         path.qualifier().and_then(|qualifier| {
             let target_name_option = path
@@ -377,7 +431,11 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result = external_crate_uses_and_aliases_in_scope_inner(
+                crates,
+                &qualifier_ref_node,
+                visited_scopes,
+            );
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -399,6 +457,8 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        visited_scopes,
+                        visited_paths,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..1c4eb1f 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -108,6 +108,25 @@ pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
 where
     T: AstNode + HasName,
 {
+    resolve_item_inner(path, ref_node, &mut HashSet::new())
+}
+
+// See [`resolve_item`].
+//
+// NOTE: Tracks visited paths (and their reference nodes), because use declarations can be cyclic
+// (e.g. `use super::*;` inside a module, and `use module::*;` in its parent).
+fn resolve_item_inner<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &mut HashSet<(String, SyntaxNode)>,
+) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    if !visited.insert((path_to_string(path), ref_node.clone())) {
+        return None;
+    }
+
     // Only continue if the last segment is valid.
     let target = path.segment()?;
     let target_name = target.name_ref()?;
@@ -132,21 +151,21 @@ where
                     })
                 })
         };
-        let resolve_from_module_use_scope = || {
+        let resolve_from_module_use_scope = |visited: &mut HashSet<(String, SyntaxNode)>| {
             let item_name = target_name.to_string();
             resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node).find_map(
                 |resolved_path| {
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
+                        resolve_item_inner(&resolved_path, &root_node, visited)
                     } else {
                         None
                     }
                 },
             )
         };
-        let resolve_from_ref_item_use_scope = || {
+        let resolve_from_ref_item_use_scope = |visited: &mut HashSet<(String, SyntaxNode)>| {
             let is_module_child = ref_node.parent().is_some_and(|parent| parent == root_node);
             if is_module_child {
                 let item_name = target_name.to_string();
@@ -155,7 +174,7 @@ where
                         // Only recurse if the path resolved from use scope and aliases
                         // is different from the current path argument.
                         if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
+                            resolve_item_inner(&resolved_path, ref_node, visited)
                         } else {
                             None
                         }
@@ -167,8 +186,8 @@ where
         };
 
         resolve_as_module_child()
-            .or_else(resolve_from_module_use_scope)
-            .or_else(resolve_from_ref_item_use_scope)
+            .or_else(|| resolve_from_module_use_scope(visited))
+            .or_else(|| resolve_from_ref_item_use_scope(visited))
     })
 }
 
@@ -185,8 +204,26 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_inner(path, ref_node, &mut HashMap::new())
+}
+
+// See [`resolve_qualifier`].
+//
+// NOTE: Tracks results for visited paths (and their reference nodes), because use declarations
+// can be cyclic (e.g. `use super::*;` inside a module, and `use module::*;` in its parent).
+fn resolve_qualifier_inner(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &mut HashMap<(String, SyntaxNode), Option<SyntaxNode>>,
+) -> Option<SyntaxNode> {
+    let key = (path_to_string(path), ref_node.clone());
+    if let Some(result) = visited.get(&key) {
+        return result.clone();
+    }
+    visited.insert(key.clone(), None);
+
     // Resolves next child module.
-    let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
+    let mut resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
             root.children().find(|it| {
                 ast::Module::can_cast(it.kind())
@@ -195,21 +232,21 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
                         .is_some_and(|module_name| module_name.text() == name.text())
             })
         };
-        let resolve_from_use_scope = || {
+        let mut resolve_from_use_scope = || {
             let item_name = name.to_string();
             resolve_item_path_from_use_scope_and_aliases!(item_name, root).find_map(
                 |resolved_path| {
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
+                        resolve_qualifier_inner(&resolved_path, root, visited)
                     } else {
                         None
                     }
                 },
             )
         };
-        resolve_child().or_else(resolve_from_use_scope)
+        resolve_child().or_else(&mut resolve_from_use_scope)
     };
 
     let mut path_segments = path.segments();
@@ -258,6 +295,7 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
             .and_then(|name| resolve_next_child_module(&name, node));
     }
 
+    visited.insert(key, resolution_root_option.clone());
     resolution_root_option
 }
 
-- 
2.43.0

