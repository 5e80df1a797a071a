From e8aba490d922919bb8bfb2b442953c47ec6f4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 1/6] fix: FIRST set of a production must include the terminals
 of its nullable prefix

A non-terminal that can be empty was skipped without adding the terminals that
it can start with, so inputs that begin with such a non-terminal were rejected.
---
 src/first.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..00ffb35 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -75,15 +75,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 for symbol in &production.symbols {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
-                            let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
                             // TODO: clone below to avoid borrowck issues
-                            for terminal in terminals.clone() {
+                            let FirstSet { empty, terminals } = table.get_first(*nt).clone();
+                            for terminal in terminals {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From 41f28b1a2be5b5d2a9c45a9b6020a2213fc5f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 2/6] fix: keep iterating FIRST sets when a non-terminal
 becomes nullable

Non-terminals that were visited before in the same pass have to see the change.
---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 00ffb35..5248494 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -94,7 +94,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From d7cbeca763d994a8ddfb12d8d1a51c8c525269e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 3/6] fix: generate one-element tuple patterns with a trailing
 comma

Without it `(<T>,)` in a token pattern became a parenthesised pattern that does
not type check.
---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..8a4e2e0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -436,7 +436,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From 56d67a2f9f4e59a151ac8f196acf8a678a682895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 4/6] fix: accept token lifetimes that no captured value or
 result type uses

The generated SemanticActionResult enum had an unused lifetime parameter then.
---
 src/codegen.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/codegen.rs b/src/codegen.rs
index 8a4e2e0..a2d5e81 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -338,6 +338,15 @@ pub fn semantic_action_result_type<A>(
         }
     }
 
+    // The token type's lifetimes may be used by none of the fields above, but an enum has to use all
+    // of its parameters
+    if !token_lifetimes.is_empty() {
+        variants.push(quote!(
+            #[allow(dead_code)]
+            Lifetimes(::core::marker::PhantomData<(#(&#token_lifetimes (),)*)>)
+        ));
+    }
+
     let code = quote!(
         #[derive(Debug)]
         enum #semantic_action_result_type_name<#(#token_lifetimes),*> {
-- 
2.43.0


From ea4bc0d70a460862ea55256bfc0b88d9a2f12fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 5/6] Allow building the expansion as a plain library under
 cfg(parsegen_sim)

Off by default; used by simulation of concurrent and repeated expansions.
---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4cd8ec4..00b22e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `parsegen_sim` is set by simulation builds only, which use this crate as a plain library
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 mod maplit;
 
@@ -17,11 +20,20 @@ mod lr_common;
 #[cfg(test)]
 mod test_grammars;
 
+#[cfg(not(parsegen_sim))]
 use proc_macro::TokenStream;
+#[cfg(parsegen_sim)]
+use proc_macro2::TokenStream;
 
-#[proc_macro]
+#[cfg_attr(not(parsegen_sim), proc_macro)]
 pub fn parser(input: TokenStream) -> TokenStream {
+    #[cfg(not(parsegen_sim))]
     let parser = syn::parse_macro_input!(input as ast::Parser);
+    #[cfg(parsegen_sim)]
+    let parser = match syn::parse2::<ast::Parser>(input) {
+        Ok(parser) => parser,
+        Err(err) => return err.to_compile_error(),
+    };
 
     let mut non_terminals: Vec<ast::NonTerminal> = vec![];
     let mut token_enum: Option<ast::TokenEnum> = None;
-- 
2.43.0


From 2e6c54af776f28619697e8f577fa9332e5b1f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:04 +0000
Subject: [PATCH 6/6] fix: reject grammars in which accepting conflicts with a
 reduction

An accept action silently replaced a reduce action of the same state, if the
reduced non-terminal came before the entry point. The other order panicked.
---
 src/lr_common.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..2f5340e 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,16 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
-            .table
-            .action
-            .entry(state)
-            .or_default()
-            .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+        let action = self.table.action.entry(state).or_default();
+
+        let old_action = action.insert(None, LRAction::Accept);
+
+        if let Some(LRAction::Reduce(nt_, p_, _)) = old_action {
+            panic!(
+                "({}, None): Overriding Reduce({}, {}) action with Accept",
+                state.0, nt_.0, p_.0,
+            );
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0

