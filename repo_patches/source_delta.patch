From 9f228d4ef7a4287d4bc09f25709a72af7e865a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 01/20] fix: FIRST of a left-recursive non-terminal no longer
 overflows the stack

---
 src/lalr/first.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..40a9208 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -14,7 +14,7 @@ where
 
     let mut prev_has_epsilon = true;
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
+        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);
         prev_has_epsilon = set.remove(&Symbol::Epsilon);
         if !prev_has_epsilon {
             break;
@@ -32,6 +32,7 @@ where
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
+    visited: &mut BTreeSet<Ident<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
@@ -42,10 +43,15 @@ fn first_of_symbol<'ast>(
         }
     };
 
+    // A non-terminal that can start with itself adds nothing new the second time
+    if !visited.insert(*non_terminal) {
+        return false;
+    }
+
     let mut added_epsilon = false;
     for (_, production) in grammar.production_iter(*non_terminal) {
         'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
+            if !first_of_symbol(grammar, set, visited, input_token) {
                 break 'input_token_iter;
             } else {
                 added_epsilon = true;
-- 
2.43.0


From 96f69b35b5d7f0b4beeeee22cc8ea2bf6db36b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 02/20] fix: items sharing the terminal after the dot are not a
 conflict

---
 src/lalr/table.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..1987d16 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -136,7 +136,12 @@ pub fn make_lalr_tables<'ast>(
                     };
 
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(Action::Shift(j as u32));
+                        }
+                        // Several items may have the same terminal after the dot, they all
+                        // shift to the same state
+                        Entry::Occupied(entry) if *entry.get() == Action::Shift(j as u32) => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From dc21daa7373aac25bec62c0b65fea27411f957fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 03/20] fix: LALR goto of a merged state is found by its core,
 not by exact lookaheads

---
 src/lalr/item.rs  | 5 +++++
 src/lalr/table.rs | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..c3544f7 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// Two item sets have the same core if they contain the same LR(0) items
+    pub fn has_same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index 1987d16..d51c814 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -108,8 +108,10 @@ pub fn make_lalr_tables<'ast>(
         let goto_ia = item_set.goto(a, grammar);
         let lr_idx = match lr_sets.get_index_of(&goto_ia) {
             Some(i) => i,
+            // The lookaheads of a merged set may differ from those of every LR(1) set, the core
+            // alone identifies the LALR state
             None => {
-                return lalr_sets.get_index_of(&goto_ia);
+                return lalr_sets.iter().position(|set| set.has_same_core(&goto_ia));
             }
         };
         lr_to_lalr.get(&lr_idx).cloned()
@@ -190,7 +192,10 @@ pub fn make_lalr_tables<'ast>(
                         *lr_to_lalr.get(&j).expect("LR -> LALR"),
                     );
                 }
-                None => match lalr_sets.get_index_of(&goto_ia) {
+                None => match lalr_sets
+                    .iter()
+                    .position(|set| set.has_same_core(&goto_ia))
+                {
                     Some(j) => {
                         goto.insert((i as u32, *production_name), j);
                     }
-- 
2.43.0


From cac7406a252ce82df514768fe80bf219c15eaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 04/20] fix: empty sub-expressions of a regex compile instead
 of panicking

---
 src/lex/nfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..ac717d3 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -102,7 +102,7 @@ impl NFA {
 
     fn compile(&mut self, regex: &RegexHir, accept: StateIdx) -> OptionUsize<StateIdx> {
         match regex.kind() {
-            HirKind::Empty => OptionUsize::none(),
+            HirKind::Empty => OptionUsize::some(accept),
             HirKind::Literal(lit) => self.compile_match(
                 match lit {
                     Literal::Unicode(c) => Match::char(*c),
-- 
2.43.0


From 4aa2a5f3a52dd9b941707db1c0e65fdf929108ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 05/20] fix: DFA simulation accepts only in accepting states
 and counts characters

---
 src/lex/dfa.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..45b738c 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -101,7 +101,7 @@ impl DFA {
 
     pub fn test(&self, s: &str) -> bool {
         match self.simulate(s) {
-            Some(eaten) => eaten == s.len(),
+            Some(eaten) => eaten == s.chars().count(),
             _ => false,
         }
     }
@@ -122,7 +122,7 @@ impl DFA {
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx) {
             Some(eaten)
         } else {
             None
@@ -167,6 +167,7 @@ impl DFABuilder {
             nfa.epsilon_closure([NFA::START_IDX].into()),
         )];
         let mut dfa_to_nfa = BTreeMap::new();
+        dfa_to_nfa.insert(DFA::START_IDX, d_states[0].clone());
 
         loop {
             // Loop while there is an unmarked state set
-- 
2.43.0


From 660993b0fdf38e7946084007179067d99b689e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 06/20] fix: splitting character ranges leaves no overlapping
 ranges

---
 src/lex/dfa.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index 45b738c..eb4a1e5 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -338,11 +338,11 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
             assert!(low_range.is_disjoint(&max_range));
             assert!(mid_range.is_disjoint(&max_range));
 
-            // Replace the existing range with the low range, and then
-            // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
-            add_range(&mid_range, index + 1, disjoint_ranges);
+            // Replace the existing range with the mid range, which is part of it
+            // and so overlaps nothing else, and then add the low and max ranges
+            // in: each of them may come from `range` and overlap ranges further on.
+            disjoint_ranges[index] = mid_range;
+            add_range(&low_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
 
-- 
2.43.0


From 640732701b19c6b9987fff8b998bd7cd8d938863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 07/20] fix: lexemes are cut out by character, not by byte,
 positions

---
 src/lex/lex.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..15cfa91 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -186,7 +186,7 @@ impl Lex {
                     {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, last_accepting_idx);
                         let tok = self.make_tok(
-                            input,
+                            &chars,
                             lexeme_begin,
                             last_accepting_idx,
                             last_accepting_state_idx,
@@ -211,7 +211,7 @@ impl Lex {
         if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
             tokens.push(self.make_tok(
-                input,
+                &chars,
                 lexeme_begin,
                 _last_accepting_idx,
                 last_accepting_state_idx,
@@ -223,7 +223,7 @@ impl Lex {
 
     fn make_tok(
         &self,
-        input: &str,
+        input: &[char],
         start: usize,
         end: usize,
         last_accepting_state_idx: StateIdx,
@@ -235,7 +235,7 @@ impl Lex {
                 ..
             }) => {
                 // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                let val = input[start..(end + 1)].iter().collect::<String>();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From af237d1a6cf69cadd7a4b3131f35fa4967cb6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 08/20] fix: input left over after the last token is scanned
 again, not dropped

---
 src/lex/lex.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 15cfa91..709e8e9 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,10 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let c = chars[forward];
-
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+        loop {
+            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {
+                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -180,6 +178,7 @@ impl Lex {
                     state_idx = edge.to;
                     forward += 1;
                 }
+                // No matching edge, or the end of the input
                 None => {
                     if let Some((last_accepting_idx, last_accepting_state_idx)) =
                         last_accepting_state
@@ -198,7 +197,9 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
+                    } else if forward == lexeme_begin
+                        && chars.get(forward).map_or(false, |c| Self::is_whitespace(*c))
+                    {
                         forward += 1;
                         lexeme_begin += 1;
                     } else {
@@ -208,16 +209,6 @@ impl Lex {
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                &chars,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From 385bdfc3d3c768d73c33c4a712644985f586910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 09/20] fix: whitespace that only starts a token without
 completing it is skipped

---
 src/lex/lex.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 709e8e9..0f4673e 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -197,11 +197,10 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if forward == lexeme_begin
-                        && chars.get(forward).map_or(false, |c| Self::is_whitespace(*c))
-                    {
-                        forward += 1;
+                    } else if chars.get(lexeme_begin).map_or(false, |c| Self::is_whitespace(*c)) {
                         lexeme_begin += 1;
+                        forward = lexeme_begin;
+                        state_idx = StateIdx(0);
                     } else {
                         break;
                     }
-- 
2.43.0


From a29ad2bd2aaa9a0b0a81084e1872c34c5359daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 10/20] fix: parsing rejects input the lexer could not read to
 the end

---
 src/lalr.rs    | 5 ++++-
 src/lex/lex.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index 420d83d..1519312 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -42,7 +42,10 @@ impl<'ast> Lalr<'ast> {
     }
 
     pub fn parse(&self, input: &str) -> String {
-        let tokens = self.lexer.lex(input);
+        let (tokens, consumed) = self.lexer.lex_prefix(input);
+        if let Some(c) = input.chars().nth(consumed) {
+            panic!("Invalid symbol: {:?} at index {}", c, consumed);
+        }
         let tokens_with_idx = self.lexer.convert_tokens(tokens);
 
         self.parse_impl(&tokens_with_idx)
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 0f4673e..3c47d5f 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -155,6 +155,12 @@ impl Lex {
     }
 
     pub fn lex(&self, input: &str) -> Vec<Token> {
+        self.lex_prefix(input).0
+    }
+
+    /// Lex as much of the input as possible, returns the tokens and the number of characters
+    /// they were made from
+    pub fn lex_prefix(&self, input: &str) -> (Vec<Token>, usize) {
         let chars: Vec<char> = input.chars().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
@@ -208,7 +214,7 @@ impl Lex {
             }
         }
 
-        tokens
+        (tokens, lexeme_begin)
     }
 
     fn make_tok(
-- 
2.43.0


From ce56f3347d0baf91bb2b32d3c91f3fcef83faa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 11/20] fix: generated actions with a named regex are valid
 Typescript

---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..49f8db6 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -514,7 +514,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 8b066c4518f5dcdea6abe8c4bc0302c13bf9e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 12/20] fix: token names and literals are quoted and escaped in
 the generated Typescript

---
 src/codegen/lex_gen.rs   | 23 +++++++++++++++++++++--
 src/codegen/parse_gen.rs | 15 ++++++++++-----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..65720db 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -24,9 +24,28 @@ fn nice_case(s: &str) -> String {
     }
 }
 
+/// Write `s` as a Typescript string literal
+pub(crate) fn ts_string(s: &str) -> String {
+    let mut ret = String::with_capacity(s.len() + 2);
+    ret.push('"');
+    for c in s.chars() {
+        match c {
+            '"' => ret.push_str("\\\""),
+            '\\' => ret.push_str("\\\\"),
+            '\n' => ret.push_str("\\n"),
+            '\r' => ret.push_str("\\r"),
+            _ => ret.push(c),
+        }
+    }
+    ret.push('"');
+    ret
+}
+
 mod ts {
     use std::collections::{BTreeMap, BTreeSet};
 
+    use super::ts_string;
+
     use crate::lex::{
         dfa::DFA,
         lex::Lex,
@@ -94,13 +113,13 @@ mod ts {
             for (i, (kind, has_value)) in self.tokens.iter() {
                 ret.push_str(&format!(
                     r#"type TokenDef{} = {{
-                    kind: "{}",
+                    kind: {},
                     hasValue: {}
                 }}
                 
                 "#,
                     i,
-                    kind,
+                    ts_string(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 49f8db6..a79c658 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -8,6 +8,7 @@ mod ts {
     use bumpalo::Bump;
 
     use crate::{
+        codegen::lex_gen::ts_string,
         lalr::{item::ProductionIdx, table, Lalr},
         parser::{
             ast::{self, Ident, InputSymbol, NamedSymbol},
@@ -202,8 +203,10 @@ export type Token =
                 write!(
                     w,
                     r#"
-                {}: {{ kind: "{}", value: "{}" }}"#,
-                    i, kind, value
+                {}: {{ kind: "{}", value: {} }}"#,
+                    i,
+                    kind,
+                    ts_string(value)
                 )?;
             }
 
@@ -289,7 +292,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, "{}: {}", ts_string(name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -496,8 +499,10 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends '{}'",
-                            named_sym.name, named_sym.name, str_lit,
+                            "__{}['token']['value'] extends infer {} extends {}",
+                            named_sym.name,
+                            named_sym.name,
+                            ts_string(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
-- 
2.43.0


From 256c948a867f7140eb331cfec6ccccf33cfba3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 13/20] fix: characters outside the table are reported by the
 type-level lexer

---
 ts/lex.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 7632737..f292073 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -175,9 +175,17 @@ type LexImpl<
     : `invalid char: ${char}`
   : [tokens, lastAcceptingState, lexemeBegin, undefined];
 
-export type Lex<fullInput extends string> = LexImpl<
+export type Lex<fullInput extends string> =
+  StringToCharList<fullInput, []> extends infer chars
+    ? chars extends string[]
+      ? LexChars<fullInput, chars>
+      : // otherwise it's the error for a character not in `Characters`
+        chars
+    : "unreachable: inferring `chars` should always work";
+
+type LexChars<fullInput extends string, chars extends string[]> = LexImpl<
   fullInput,
-  StringToCharList<fullInput, []>,
+  chars,
   0,
   [],
   0,
-- 
2.43.0


From b3c327e88bc33e322f693261c722daa77b6c8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 14/20] fix: type-level lexer skips whitespace that only starts
 a token

---
 ts/lex.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index f292073..d3f2315 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -150,17 +150,14 @@ type LexImpl<
               undefined
             >
           : "unreachable: accepting state idx should always be a keyof Tokens"
-        : [U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
-            true,
-            true
-          ]
+        : U.IsWhitespace<fullInput[lexemeBegin]> extends true
         ? LexImpl<
             inputStr,
             fullInput,
-            stateIdx,
+            0,
             tokens,
             U.Succ<lexemeBegin>,
-            U.Succ<forward>,
+            U.Succ<lexemeBegin>,
             charBuf,
             lastAcceptingState
           >
-- 
2.43.0


From d2f20a0dce1fbbc629aa12af14527c180b5e415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 15/20] fix: type-level lexer scans or reports what is left at
 the end of the input

---
 ts/lex.ts | 63 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index d3f2315..8624c66 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -170,6 +170,49 @@ type LexImpl<
           ]
       : "unreachable: inferring `maybeNewStateIdx` should always work"
     : `invalid char: ${char}`
+  : // End of the input
+  fullInput[lexemeBegin] extends `${infer first}`
+  ? lastAcceptingState extends [
+      lastAcceptingIdx: number,
+      lastAcceptingStateIdx: number
+    ]
+    ? // Whatever comes after the last token is scanned again
+      LexImpl<
+        inputStr,
+        fullInput,
+        0,
+        [
+          TokenDefToToken<
+            lastAcceptingState[1],
+            inputStr,
+            lexemeBegin,
+            lastAcceptingState[0]
+          >,
+          ...tokens
+        ],
+        U.Succ<lastAcceptingState[0]>,
+        U.Succ<lastAcceptingState[0]>,
+        charBuf,
+        undefined
+      >
+    : U.IsWhitespace<first> extends true
+    ? LexImpl<
+        inputStr,
+        fullInput,
+        0,
+        tokens,
+        U.Succ<lexemeBegin>,
+        U.Succ<lexemeBegin>,
+        charBuf,
+        undefined
+      >
+    : // the input ends in the middle of a token
+      [
+        tokens,
+        lastAcceptingState,
+        lexemeBegin,
+        `unexpected end of input after \`${first}\` at index ${lexemeBegin}`
+      ]
   : [tokens, lastAcceptingState, lexemeBegin, undefined];
 
 export type Lex<fullInput extends string> =
@@ -197,26 +240,6 @@ type LexChars<fullInput extends string, chars extends string[]> = LexImpl<
 ]
   ? error extends string
     ? error
-    : lastAcceptingState extends [forward: number, stateIdx: number]
-    ? tokens extends any[]
-      ? lastAcceptingState[1] extends number
-        ? lexemeBegin extends number
-          ? U.Reverse<
-              [
-                { kind: "EOF" },
-                // `lexemeBegin: ${lexemeBegin} forward: ${lastAcceptingState[0]}`,
-                TokenDefToToken<
-                  lastAcceptingState[1],
-                  fullInput,
-                  lexemeBegin,
-                  lastAcceptingState[0]
-                >,
-                ...tokens
-              ]
-            >
-          : "unreachable: `lexemeBegin` begin should always be a number"
-        : lastAcceptingState
-      : "unreachable: tokens should be an array"
     : tokens extends any[]
     ? U.Reverse<[{ kind: "EOF" }, ...tokens]>
     : "unreachable: tokens should be an array"
-- 
2.43.0


From d789746cb8aafcd51810ac5b0bf120ad2b874c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 16/20] fix: type-level lexer does not follow edges for
 characters beyond the arithmetic table

---
 ts/lex.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 8624c66..4d426e0 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -62,9 +62,14 @@ type TokenDefToToken<
   : never;
 
 type RangeContains<range extends CharRange, labelIdx extends number> = [
-  U.Gte<labelIdx, range["from"]>,
-  U.Lt<labelIdx, range["to"]>
-] extends [true, true]
+  U.Gte<labelIdx, range["from"]>
+] extends [never]
+  ? // the range starts after the last number of the arithmetic table
+    false
+  : [
+      U.Gte<labelIdx, range["from"]>,
+      U.Lt<labelIdx, range["to"]>
+    ] extends [true, true]
   ? true
   : false;
 
-- 
2.43.0


From cb9c7c70d900972d80211f0ce1165a8cf7cfb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 17/20] fix: bound names do not collide with the names of the
 generated actions

---
 src/codegen/parse_gen.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index a79c658..79667be 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -386,7 +386,7 @@ export type Token =
                 "{{ kind: '{}', value: {} }},",
                 self.production_name, self.action_impl.code
             )?;
-            buf.push_str("...newStack]");
+            buf.push_str("...$$newStack]");
 
             Ok(buf)
         }
@@ -402,7 +402,7 @@ export type Token =
             write_condition(
                 w,
                 |w| {
-                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]", self.pop_amount)
+                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer $$newStack, infer poppedValues]", self.pop_amount)
                 },
                 |w| {
                     // w.write_str("symbolStack")?;
@@ -430,7 +430,7 @@ export type Token =
                     for sym in &self.action_impl.inputs {
                         match sym {
                             ActionImplParam::Named(NamedActionImplParam { name, .. }) => {
-                                write!(w, "infer __{},", name.as_ref())?
+                                write!(w, "infer ${},", name.as_ref())?
                             }
                             _ => {
                                 write!(w, "infer var{},", i)?;
@@ -444,7 +444,7 @@ export type Token =
                 |w| {
                     write_condition(
                         w,
-                        |w| w.write_str("newStack extends type_defs.Symbol[]"),
+                        |w| w.write_str("$$newStack extends type_defs.Symbol[]"),
                         |w| self.validate_params(w, call_impl.clone()),
                         |w| {
                             write!(
@@ -484,7 +484,7 @@ export type Token =
                 match named_sym.param {
                     ActionImplParam::NonTerminal(non_terminal) => {
                         cond_stack.push(format!(
-                            "__{} extends {{ kind : \"{}\", value: infer {} extends {} }}",
+                            "${} extends {{ kind : \"{}\", value: infer {} extends actions.{} }}",
                             named_sym.name, non_terminal, named_sym.name, non_terminal
                         ));
 
@@ -495,11 +495,11 @@ export type Token =
                     }
                     ActionImplParam::StrLit(str_lit) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends {}",
+                            "${}['token']['value'] extends infer {} extends {}",
                             named_sym.name,
                             named_sym.name,
                             ts_string(str_lit),
@@ -515,11 +515,11 @@ export type Token =
                     }
                     ActionImplParam::Regex(_) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends string",
+                            "${}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 13910caadbb66c13884c6e63f56cc4be46baec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:42 +0000
Subject: [PATCH 18/20] fix: Tail drops the first element

---
 ts/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/util.ts b/ts/util.ts
index 807c840..ea04022 100644
--- a/ts/util.ts
+++ b/ts/util.ts
@@ -13,7 +13,7 @@ type ReverseImpl<T extends any[], State extends any[] = []> = T extends [
   ? ReverseImpl<B, [A, ...State]>
   : State;
 
-export type Tail<T extends any[]> = T extends [...infer first, ...infer rest]
+export type Tail<T extends any[]> = T extends [infer _first, ...infer rest]
   ? rest
   : [];
 
-- 
2.43.0


From 170bcefc1b7dd0bf8d618a1453b31fff52a5f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:42 +0000
Subject: [PATCH 19/20] fix: comparisons take any two numbers

---
 ts/util.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts/util.ts b/ts/util.ts
index ea04022..5f57d6f 100644
--- a/ts/util.ts
+++ b/ts/util.ts
@@ -57,17 +57,17 @@ export type Pred<T> = T extends 0
   ? PredTable[T]
   : never;
 
-export type Gte<A extends B, B extends number> = A extends B
+export type Gte<A extends number, B extends number> = A extends B
   ? true
   : GtImpl<A, B>;
-export type Gt<A extends B, B extends number> = A extends B
+export type Gt<A extends number, B extends number> = A extends B
   ? false
   : GtImpl<A, B>;
 
-export type Lte<A extends B, B extends number> = A extends B
+export type Lte<A extends number, B extends number> = A extends B
   ? true
   : Negate<GtImpl<A, B>>;
-export type Lt<A extends B, B extends number> = A extends B
+export type Lt<A extends number, B extends number> = A extends B
   ? false
   : Negate<GtImpl<A, B>>;
 
-- 
2.43.0


From 3b9a3e67d0afe19d655bc55266cbacc78ba04061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 20/20] fix: Lte and Lt no longer recurse without end when
 util.ts is type checked

---
 ts/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/util.ts b/ts/util.ts
index 5f57d6f..ef6597f 100644
--- a/ts/util.ts
+++ b/ts/util.ts
@@ -2,7 +2,7 @@ import { SuccTable, PredTable } from "./arith_table.gen";
 
 export type Err<T extends string> = `error: ${T}`;
 
-export type Negate<A extends boolean> = A extends true ? false : true;
+export type Negate<A> = A extends true ? false : true;
 
 export type Reverse<T extends any[]> = ReverseImpl<T, []>;
 
-- 
2.43.0

