From dc5fb36540f6016591b10a7ec52f643318f337dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 01/12] fix: escape the name of an operator given with
 \operatorname

The text of \operatorname may contain '<' and '&', which ended up in the
MathML output as they were.
---
 crates/mathml-renderer/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 5f77263..0daeced 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -356,7 +356,7 @@ impl<'state> Emitter<'state> {
                 name,
             } => {
                 emit_operator_attributes(&mut self.s, attrs, left, right)?;
-                write!(self.s, ">{name}</mo>")?;
+                write!(self.s, ">{}</mo>", EscapeHtml(name))?;
             }
             Node::IdentifierStr(letters) => {
                 // The "<mrow>" with "<mspace/>" is needed to prevent Firefox from adding
-- 
2.43.0


From 375314236c4089eed7bc96f562d67df5917c105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 02/12] fix: escape the name of an unknown command in the
 output

With `ignore_unknown_commands`, the name of any undefined command is
rendered, and a one-character name such as \< can be any character.
---
 crates/mathml-renderer/src/ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 0daeced..4964a50 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -812,8 +812,9 @@ impl<'state> Emitter<'state> {
                 self.warnings.set_unknown_commands();
                 write!(
                     self.s,
-                    r#"<merror class="{}"><mtext>\{cmd_name}</mtext></merror>"#,
-                    self.css_classes.unknown_command
+                    r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
+                    self.css_classes.unknown_command,
+                    EscapeHtml(cmd_name)
                 )?;
             }
         }
-- 
2.43.0


From 19e0d3e658192e54a3a31aa5dc4d7dcb7059e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 03/12] fix: don't set two contradicting stretchy attributes on
 one operator

\mathrel{\big|} and the like added stretchy="false" to an operator which
already had stretchy="true".
---
 crates/math-core/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..aca943b 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -765,7 +765,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        attrs: attrs | OpAttrs::STRETCHY_FALSE,
+                        // An operator which was stretched on purpose (by `\big` or `\middle`)
+                        // stays that way.
+                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                            attrs
+                        } else {
+                            attrs | OpAttrs::STRETCHY_FALSE
+                        },
                         left,
                         right,
                         size,
-- 
2.43.0


From 8994d37db4a08a71b416f6147989f300573a55e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 04/12] fix: skip comments in a loop instead of recursing for
 every comment

A long run of comment lines could overflow the stack.
---
 crates/math-core/src/lexer.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index e8ceda5..af79e5f 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -144,14 +144,8 @@ impl<'source> Lexer<'source> {
             return Ok(LexerOutput::Token(TokSpan::new(Token::Whitespace, span)));
         }
 
-        let (loc, ch) = self.read_char();
-        let Some(ch) = ch else {
-            return Ok(LexerOutput::Token(TokSpan::new(
-                Token::Eoi,
-                Span::zero_width(loc),
-            )));
-        };
-        if ch == '%' {
+        let (mut loc, mut ch) = self.read_char();
+        while ch == Some('%') {
             // Skip comments.
             while self.peek.1 != Some('\n') && self.peek.1.is_some() {
                 self.read_char();
@@ -160,9 +154,14 @@ impl<'source> Lexer<'source> {
             // TeX skips whitespace on the line after a comment.
             // This also prevents two whitespace tokens following each other.
             self.skip_whitespace();
-            // FIXME: use `become` here when stabilized.
-            return self.next_token();
+            (loc, ch) = self.read_char();
         }
+        let Some(ch) = ch else {
+            return Ok(LexerOutput::Token(TokSpan::new(
+                Token::Eoi,
+                Span::zero_width(loc),
+            )));
+        };
         let mut span = Span::new(loc, loc + ch.len_utf8());
         let tok = match ch {
             '\u{0}' => {
-- 
2.43.0


From 9f150617d9a154b0487de9b86facb74adaa83ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 05/12] fix: only take the read lock in the Python method
 convert_with_local_state

The conversion needs no more than shared access, so converters in other
threads need not wait for it, and the error message already said so.
---
 crates/math-core-python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core-python/src/lib.rs b/crates/math-core-python/src/lib.rs
index 482a2ce..2e7a4e1 100644
--- a/crates/math-core-python/src/lib.rs
+++ b/crates/math-core-python/src/lib.rs
@@ -173,7 +173,7 @@ impl LatexToMathML {
         };
         match self
             .inner
-            .write()
+            .read()
             .map_err(|_| LockError::new_err("Failed to acquire read lock"))?
             .convert_with_local_state(latex, display)
         {
-- 
2.43.0


From ab6569aebbe891b753a8793ba61b9b9073510387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 06/12] fix: limit how deeply constructs can be nested

The parser and the emitter recurse for every level of nesting, so deeply
nested input overflowed the stack, which aborts the process. Report an
error instead, at the nesting level where TeX gives up too.
---
 crates/math-core/src/parser.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index aca943b..25d8194 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -72,8 +72,16 @@ struct ParserState<'arena> {
     /// detecting that, we simply stop after a while, as LaTeX and KaTeX do. How long that
     /// takes is configurable; see [`crate::MaxExpansions`].
     expansions_left: u32,
+    /// How many more constructs may be nested into the current one before we give up.
+    ///
+    /// The parser (and then the emitter) calls itself for every level of nesting, so without
+    /// a limit, deeply nested input would overflow the stack.
+    nesting_left: u8,
 }
 
+/// The maximum nesting level. TeX stops at 255 nested groups as well.
+const MAX_NESTING: u8 = 255;
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum SequenceEnd {
     EndToken(EndToken),
@@ -161,6 +169,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
+                nesting_left: MAX_NESTING,
             },
         })
     }
@@ -438,9 +447,20 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         prev_class: Class,
     ) -> ParseResult<(Class, &'arena Node<'arena>)> {
         let mut cur_tokloc = cur_tokloc;
+        let Some(nesting_left) = self.state.nesting_left.checked_sub(1) else {
+            let span = cur_tokloc?.span();
+            return Err(Box::new(LatexError(
+                span.into(),
+                LatexErrKind::HardLimitExceeded,
+            )));
+        };
+        let old_nesting_left = mem::replace(&mut self.state.nesting_left, nesting_left);
         loop {
             match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
-                Parsed::Node(class, node) => return Ok((class, node)),
+                Parsed::Node(class, node) => {
+                    self.state.nesting_left = old_nesting_left;
+                    return Ok((class, node));
+                }
                 Parsed::Expansion => cur_tokloc = self.next_token(),
             }
         }
-- 
2.43.0


From 15adf58fc75d824ef3a0a0b883d461f600354a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 07/12] fix: limit the number of tokens which expansions may
 queue

A command which repeats its argument and expands to itself doubles the
number of tokens with every expansion, so the limit on the number of
expansions alone didn't keep it from exhausting the memory.
---
 crates/math-core/src/parser.rs      |  8 +++----
 crates/math-core/src/token_queue.rs | 35 +++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 25d8194..f803a73 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2299,21 +2299,19 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
                 self.tokens
-                    .queue_body_substituting(token_stream, &self.state.cmd_args, span);
+                    .queue_body_substituting(token_stream, &self.state.cmd_args, span)?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
-                if !self.tokens.queue_stored_body_substituting(
+                self.tokens.queue_stored_body_substituting(
                     source,
                     start,
                     end,
                     &self.state.cmd_args,
                     span,
-                ) {
-                    return Err(Box::new(LatexError(span.into(), LatexErrKind::Internal)));
-                }
+                )?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdArgInput(_) => Err(LatexError(
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..1a8fc58 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -172,6 +172,17 @@ impl Stores<'_, '_> {
     }
 }
 
+/// The maximum number of tokens which may be waiting in the queue after an expansion.
+///
+/// Limiting the number of expansions is not enough, because a command which repeats its argument
+/// may double the number of tokens with every expansion.
+const MAX_QUEUED_TOKENS: usize = 1 << 18;
+
+/// The error of an expansion which would exceed [`MAX_QUEUED_TOKENS`].
+fn too_many_tokens(span: Span) -> Box<LatexError> {
+    Box::new(LatexError(span.into(), LatexErrKind::TooManyExpansions))
+}
+
 static EOI_TOK: QueuedTok<'static> =
     QueuedTok::new(TokSpan::new(Token::Eoi, Span::zero_width(0)), None);
 
@@ -541,14 +552,17 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         tokens: &[Token],
         args: &CmdArgs<'arena>,
         span: Span,
-    ) {
+    ) -> Result<(), Box<LatexError>> {
         if tokens.is_empty() {
             self.queue_empty_body(span);
-            return;
+            return Ok(());
         }
         self.queue.reserve(tokens.len());
         // Queue the token stream in the front in reverse order.
         for tok in tokens.iter().rev() {
+            if self.queue.len() > MAX_QUEUED_TOKENS {
+                return Err(too_many_tokens(span));
+            }
             match *tok {
                 Token::CustomCmdArg(arg_num) => {
                     push_arg_front(&mut self.queue, args.get(arg_num), span);
@@ -557,6 +571,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
+        Ok(())
     }
 
     /// Queue the body of a custom command which is kept in one of the stores, as
@@ -566,9 +581,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// copied out of its store first: the store and the buffer are separate fields, so both
     /// can be borrowed at once.
     ///
-    /// Returns `false` if the range doesn't name a body in that store, which can only happen
-    /// if something has gone wrong.
-    #[must_use]
+    /// Fails with an internal error if the range doesn't name a body in that store, which can
+    /// only happen if something has gone wrong.
     pub(super) fn queue_stored_body_substituting(
         &mut self,
         source: CmdSource,
@@ -576,17 +590,20 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         end: usize,
         args: &CmdArgs<'arena>,
         span: Span,
-    ) -> bool {
+    ) -> Result<(), Box<LatexError>> {
         let Some(body) = self.stores.get_body(source, start, end) else {
-            return false;
+            return Err(Box::new(LatexError(span.into(), LatexErrKind::Internal)));
         };
         if body.is_empty() {
             self.queue_empty_body(span);
-            return true;
+            return Ok(());
         }
         self.queue.reserve(body.len());
         // Queue the token stream in the front in reverse order.
         for recorded in body.iter().rev() {
+            if self.queue.len() > MAX_QUEUED_TOKENS {
+                return Err(too_many_tokens(span));
+            }
             match recorded {
                 RecordedToken::Token(Token::CustomCmdArg(arg_num)) => {
                     push_arg_front(&mut self.queue, args.get(*arg_num), span);
@@ -610,7 +627,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
-        true
+        Ok(())
     }
 
     /// Queue what the body of a custom command with no tokens in it expands to.
-- 
2.43.0


From 048857d725413ab51d33723024c22e7793c06f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 08/12] fix: copy every local body only once when a definition
 is made global

Copying it once per reference takes exponentially long, and exponentially
much memory, for a chain of definitions which refer to the previous one
twice.
---
 crates/math-core/src/custom_cmds.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/custom_cmds.rs b/crates/math-core/src/custom_cmds.rs
index f3685be..c62ee6c 100644
--- a/crates/math-core/src/custom_cmds.rs
+++ b/crates/math-core/src/custom_cmds.rs
@@ -194,6 +194,9 @@ impl CustomCmds {
         let start = self.tokens.len();
         self.tokens.extend_from_slice(body);
         let end = self.tokens.len();
+        // Where the bodies we have already copied ended up. Copying a body once per reference would
+        // take exponentially long for a chain of bodies which refer to the previous one twice.
+        let mut copied: FxHashMap<(usize, usize), (usize, usize)> = FxHashMap::default();
         let mut i = start;
         // We can't use `.iter_mut()` here because we append to the vector inside the loop.
         // We also need to check the length each iteration.
@@ -209,11 +212,14 @@ impl CustomCmds {
                 body_end,
             )) = self.tokens[i]
             {
-                let new_start = self.tokens.len();
-                if let Some(body) = local.body(body_start, body_end) {
-                    self.tokens.extend_from_slice(body);
-                }
-                let new_end = self.tokens.len();
+                let (new_start, new_end) =
+                    *copied.entry((body_start, body_end)).or_insert_with(|| {
+                        let new_start = self.tokens.len();
+                        if let Some(body) = local.body(body_start, body_end) {
+                            self.tokens.extend_from_slice(body);
+                        }
+                        (new_start, self.tokens.len())
+                    });
                 self.tokens[i] = RecordedToken::Token(Token::CustomCmdRef(
                     CmdSource::Document,
                     num_args,
-- 
2.43.0


From ad41a1dc1b5fe52bfb973eb990b78eb7a8596cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 09/12] fix: divide a table only at separators which are
 directly in its environment

---
 crates/math-core/src/parser.rs | 75 +++++++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 11 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f803a73..6fdd755 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -61,6 +61,9 @@ struct ParserState<'arena> {
     /// This is currently a hack, which should be replaced by a more robust solution later.
     right_boundary_hack: bool,
     env: EnvState<'arena>,
+    /// A column or row separator which has ended a style-only row (or several nested ones),
+    /// and which the sequence of the surrounding environment still has to take care of.
+    pending_separator: Option<(Class, &'arena Node<'arena>)>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
     /// The current meaning of the character `|`, which `\set`, `\Set` and `\Braket` change.
@@ -166,6 +169,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 transform: None,
                 right_boundary_hack: false,
                 env: EnvState::default(),
+                pending_separator: None,
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
@@ -214,11 +218,23 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         keep_end_token: bool,
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
+        // The index of the first node of the current table cell.
+        let mut cell_start = 0usize;
         let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
 
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
+        let old_allow_columns = self.state.env.allow_columns;
+        let old_meaningful_newlines = self.state.env.meaningful_newlines;
+        if !matches!(
+            sequence_end,
+            SequenceEnd::EndToken(EndToken::End) | SequenceEnd::AnyEndToken
+        ) {
+            // Only the environment itself can be divided into cells, but not a group within it.
+            self.state.env.allow_columns = false;
+            self.state.env.meaningful_newlines = false;
+        }
 
         // Because we don't want to consume the end token, we just peek here.
         while !sequence_end.matches(self.tokens.peek().token()) {
@@ -233,6 +249,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         tokloc,
                         sequence_end,
                         &mut nodes,
+                        cell_start,
                         &mut infix_frac,
                     )? {
                         ControlFlow::SkipToken => continue,
@@ -242,6 +259,25 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // Parse the token.
                 self.parse_token(cur_tokloc, ParseAs::Sequence, prev_class)?
             };
+            let is_separator = matches!(target, Node::ColumnSeparator | Node::RowSeparator { .. });
+            if is_separator {
+                self.state.pending_separator = Some((class, target));
+            } else if self.state.pending_separator.is_some() {
+                nodes.push(target);
+            }
+            if let Some((class, separator)) = self.state.pending_separator {
+                if matches!(sequence_end, SequenceEnd::AnyEndToken) {
+                    // The separator ends this sequence as well.
+                    break;
+                }
+                self.state.pending_separator = None;
+                self.finish_infix_frac(&mut nodes, cell_start, infix_frac.take());
+                self.state.style = old_style;
+                nodes.push(separator);
+                cell_start = nodes.len();
+                prev_class = class;
+                continue;
+            }
             prev_class = class;
 
             // Check if there are any superscripts or subscripts following the parsed node.
@@ -269,8 +305,27 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
+        self.finish_infix_frac(&mut nodes, cell_start, infix_frac);
+        if !keep_end_token {
+            // Discard the end token.
+            self.next_token()?;
+        }
+        self.state.transform = old_tf;
+        self.state.style = old_style;
+        self.state.env.allow_columns = old_allow_columns;
+        self.state.env.meaningful_newlines = old_meaningful_newlines;
+        Ok(nodes)
+    }
+
+    /// Finish the fraction of the current table cell, if there was an infix command like `\over`.
+    fn finish_infix_frac(
+        &self,
+        nodes: &mut Vec<&'arena Node<'arena>>,
+        cell_start: usize,
+        infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+    ) {
         if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
+            let denominator = nodes.split_off(cell_start);
             let (lt_value, lt_unit) = if with_line {
                 Length::none().into_parts()
             } else {
@@ -301,13 +356,6 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             };
             nodes.push(node);
         }
-        if !keep_end_token {
-            // Discard the end token.
-            self.next_token()?;
-        }
-        self.state.transform = old_tf;
-        self.state.style = old_style;
-        Ok(nodes)
     }
 
     #[inline]
@@ -316,6 +364,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
+        cell_start: usize,
         infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
@@ -330,7 +379,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    *infix_frac = Some((collected_nodes.split_off(cell_start), with_line, delim));
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
@@ -812,6 +861,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right,
                         size: None,
                     }),
+                    Node::ColumnSeparator | Node::RowSeparator { .. } => Err(LatexError(
+                        span.into(),
+                        LatexErrKind::ExpectedArgumentGotClose,
+                    )),
                     _ => Ok(Node::Padded {
                         node,
                         width_0: false,
@@ -1713,7 +1766,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 ));
             }
             Token::NewColumn => {
-                if self.state.env.allow_columns {
+                if self.state.env.allow_columns && matches!(parse_as, ParseAs::Sequence) {
                     class = Class::Close;
                     Ok(Node::ColumnSeparator)
                 } else {
@@ -1742,7 +1795,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::NewLine => 'new_line: {
                 class = Class::Open;
-                if !self.state.env.meaningful_newlines {
+                if !self.state.env.meaningful_newlines || !matches!(parse_as, ParseAs::Sequence) {
                     // FIXME: Return something other than a row here, so that we can avoid creating
                     //       empty rows in places where they are not needed.
                     break 'new_line Ok(Node::EMPTY_ROW);
-- 
2.43.0


From 45765a62cfc54337ac1dff895870527db69c9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 10/12] fix: keep the size of a lone delimiter when its spacing
 is reset

---
 crates/math-core/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 6fdd755..b49ddb6 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3409,13 +3409,16 @@ pub(crate) fn node_vec_to_node<'arena>(
 ) -> &'arena Node<'arena> {
     if let [single] = nodes {
         if reset_spacing {
-            if let Node::Operator { op, attrs, .. } = **single {
+            if let Node::Operator {
+                op, attrs, size, ..
+            } = **single
+            {
                 arena.push(Node::Operator {
                     op,
                     attrs,
                     left: None,
                     right: None,
-                    size: None,
+                    size,
                 })
             } else {
                 single
-- 
2.43.0


From f8b0d971a1e305387a5ba6f80d6396bdb8c272b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 11/12] fix: end a change of the font at the end of its table
 cell

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index b49ddb6..4969696 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -272,6 +272,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
                 self.state.pending_separator = None;
                 self.finish_infix_frac(&mut nodes, cell_start, infix_frac.take());
+                // Every cell is a group of its own.
+                self.state.transform = old_tf;
                 self.state.style = old_style;
                 nodes.push(separator);
                 cell_start = nodes.len();
-- 
2.43.0


From 06b7c79935316c954cbcaf516b219a63289517f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:38 +0000
Subject: [PATCH 12/12] fix: keep the label of a multline row for the row with
 the number

Only the last row of multline has a number. A label in an earlier row was
thrown away together with the number which that row does not get.
---
 crates/math-core/src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 4969696..d1cffc1 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -24,8 +24,8 @@ use crate::{
     color_defs::get_color,
     custom_cmds::RecordedToken,
     environments::{
-        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, OPEN_BRACE, OPEN_BRACKET,
-        OPEN_PAREN,
+        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, NumberingMode, OPEN_BRACE,
+        OPEN_BRACKET, OPEN_PAREN,
     },
     error::{DelimiterModifier, LatexErrKind, LatexError, LimitedUsabilityToken, Place},
     global_state::GlobalState,
@@ -1836,7 +1836,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.arena,
                     ) {
                         Ok(tag) => {
-                            let link_target = numbered_state.label.take();
+                            // With a single number for all rows, the label has to be kept for the
+                            // last row.
+                            let link_target = if numbered_state.mode == NumberingMode::OnlyLast {
+                                None
+                            } else {
+                                numbered_state.label.take()
+                            };
                             let label_info = if let Some(tag) = tag {
                                 if let Some(label) = link_target {
                                     self.tokens.stores.global_state.label_map.insert(
-- 
2.43.0

