From cbe3d48e9255575803afa46e0f0d195d608b61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 1/8] fix: add terminals of nullable non-terminals to first
 sets

The first set of a production starting with a nullable non-terminal did not
include the terminals of that non-terminal once it was known to be nullable.
---
 src/first.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..00ffb35 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -75,15 +75,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 for symbol in &production.symbols {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
-                            let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
                             // TODO: clone below to avoid borrowck issues
-                            for terminal in terminals.clone() {
+                            let FirstSet { empty, terminals } = table.get_first(*nt).clone();
+                            for terminal in terminals {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From 2e6a5ba73afc7e0edcda085c07a02431b0586280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 2/8] fix: iterate first set generation when a non-terminal
 becomes nullable

The fixpoint could stop before productions of non-terminals visited earlier
took the new nullable non-terminal into account.
---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 00ffb35..5248494 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -94,7 +94,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From 173d3a0da2e7d0f0e1be7516359ffb1b7b66c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 3/8] fix: reject conflicts between accepting and reducing

Accepting silently replaced a reduce action on end-of-input when the reduced
non-terminal came first in the grammar, so cyclic grammars were not rejected.
---
 src/lr_common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..05b1808 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,19 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
+        let old_action = self
             .table
             .action
             .entry(state)
             .or_default()
             .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+
+        if let Some(LRAction::Reduce(nt_, p_, _)) = old_action {
+            panic!(
+                "({}, EOF): Overriding Reduce({}, {}) action with Accept",
+                state.0, nt_.0, p_.0
+            );
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0


From b6ba283b7c589e73aa3c555b0cda1c1936290e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 4/8] fix: reject non-terminals that are defined multiple times

The second definition replaced the first one in the name table, leaving the
first without productions: a `pub` one became a parser that rejects all inputs.
---
 src/lower.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lower.rs b/src/lower.rs
index c22a550..9868fbb 100644
--- a/src/lower.rs
+++ b/src/lower.rs
@@ -27,6 +27,13 @@ pub fn lower(
     };
 
     for nt in &non_terminals {
+        if nt_indices.contains_key(&nt.name.to_string()) {
+            panic!(
+                "Non-terminal {:?} defined multiple times",
+                nt.name.to_string()
+            );
+        }
+
         if nt.visibility.is_pub() {
             // For a `pub` non-terminal:
             //
-- 
2.43.0


From fb2086870905bf6016da0460a3ee16f4e4f1aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 5/8] fix: generate one-element tuple patterns with a trailing
 comma

Without it the pattern is a parenthesized pattern, and the generated code for a
token like `T::A((<i32>,))` does not compile.
---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..8a4e2e0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -436,7 +436,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From 9d2d8c3dbd82e0cb27c1479dfc20330b2843143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 6/8] fix: do not require token lifetimes to be used by the
 grammar

The generated enum for semantic action results takes the lifetimes of the token
type, which is an error if none of its variants uses them.
---
 src/codegen.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/codegen.rs b/src/codegen.rs
index 8a4e2e0..f991f16 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -338,6 +338,15 @@ pub fn semantic_action_result_type<A>(
         }
     }
 
+    // The lifetimes may not be used by any of the variants above, e.g. when the grammar does not use
+    // values of the tokens with lifetimes
+    if !token_lifetimes.is_empty() {
+        variants.push(quote!(
+            #[allow(dead_code)]
+            TokenLifetimes(::std::marker::PhantomData<(#(&#token_lifetimes (),)*)>)
+        ));
+    }
+
     let code = quote!(
         #[derive(Debug)]
         enum #semantic_action_result_type_name<#(#token_lifetimes),*> {
-- 
2.43.0


From 40d7fe031afb27ea3e55c2347c320e8423ccd11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 7/8] fix: match literal patterns when the token type is a
 reference

---
 src/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index f991f16..cac1792 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -156,7 +156,13 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
         .iter()
         .enumerate()
         .map(|(i, Conversion { to, .. })| {
-            let pattern_code = pattern_ignore(to);
+            let pattern_code = match to {
+                // The function matches on a reference to the token. Unlike other patterns literals
+                // are not matched through references when the token itself is a reference, e.g. a
+                // `&str`.
+                Pattern::Lit(lit) => quote!(&#lit),
+                _ => pattern_ignore(to),
+            };
             quote!(#pattern_code => #i)
         })
         .collect();
-- 
2.43.0


From 947ff1599b95d2d667c0b93bf5f297e5ede93ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 8/8] fix: match constants that are whole token patterns

---
 src/codegen.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index cac1792..b7a295e 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -156,13 +156,7 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
         .iter()
         .enumerate()
         .map(|(i, Conversion { to, .. })| {
-            let pattern_code = match to {
-                // The function matches on a reference to the token. Unlike other patterns literals
-                // are not matched through references when the token itself is a reference, e.g. a
-                // `&str`.
-                Pattern::Lit(lit) => quote!(&#lit),
-                _ => pattern_ignore(to),
-            };
+            let pattern_code = pattern_ignore(to);
             quote!(#pattern_code => #i)
         })
         .collect();
@@ -172,7 +166,8 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
             #arg_name: &#type_name<#(#type_lifetimes),*>
         ) -> usize
         {
-            match #arg_name {
+            // Literals and constants are not matched through the reference
+            match *#arg_name {
                 #(#match_alts,)*
             }
         }
-- 
2.43.0

