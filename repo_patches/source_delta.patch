From f0e464830be8456e2f23cef3dadd0a9f533e1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 01/22] fix: compute term order weights and variable counts
 without overflow

---
 src/kernel/term.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index 7033099..ceb47a9 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -1114,9 +1114,9 @@ impl<'a> TermRef<'a> {
 
     /// Calculate multi-weight for KBO ordering.
     /// Returns (weight1, weight2) and populates refcounts with variable usage.
-    fn multi_weight(&self, refcounts: &mut Vec<u8>) -> (u32, u32) {
+    fn multi_weight(&self, refcounts: &mut Vec<u32>) -> (u32, u64) {
         let mut weight1: u32 = 0;
-        let mut weight2: u32 = 0;
+        let mut weight2: u64 = 0;
 
         for component in self.components {
             match component {
@@ -1161,29 +1161,24 @@ impl<'a> TermRef<'a> {
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::GlobalConstant(m, i))) => {
                     weight1 += 1;
-                    let symbol_weight =
-                        (m.get() as u32).wrapping_mul(65536).wrapping_add(*i as u32);
-                    weight2 = weight2.wrapping_add(4u32.wrapping_mul(symbol_weight));
+                    let symbol_weight = m.get() as u64 * 65536 + *i as u64;
+                    weight2 += 4 * symbol_weight;
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::ScopedConstant(i))) => {
                     weight1 += 1;
-                    weight2 = weight2.wrapping_add(1u32.wrapping_add(4u32.wrapping_mul(*i as u32)));
+                    weight2 += 1 + 4 * *i as u64;
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::Type(t))) => {
                     // Type atoms contribute to weight
                     weight1 += 1;
-                    let symbol_weight = (t.module_id().get() as u32)
-                        .wrapping_mul(65536)
-                        .wrapping_add(t.local_id() as u32);
-                    weight2 = weight2.wrapping_add(4u32.wrapping_mul(symbol_weight));
+                    let symbol_weight = t.module_id().get() as u64 * 65536 + t.local_id() as u64;
+                    weight2 += 4 * symbol_weight;
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::Typeclass(tc))) => {
                     // Typeclass atoms contribute to weight similarly to types
                     weight1 += 1;
-                    let symbol_weight = (tc.module_id().get() as u32)
-                        .wrapping_mul(65536)
-                        .wrapping_add(tc.local_id() as u32);
-                    weight2 = weight2.wrapping_add(4u32.wrapping_mul(symbol_weight));
+                    let symbol_weight = tc.module_id().get() as u64 * 65536 + tc.local_id() as u64;
+                    weight2 += 4 * symbol_weight;
                 }
             }
         }
@@ -3102,7 +3097,7 @@ impl fmt::Display for Term {
 }
 
 /// Helper function for KBO domination check.
-fn dominates(a: &Vec<u8>, b: &Vec<u8>) -> bool {
+fn dominates(a: &Vec<u32>, b: &Vec<u32>) -> bool {
     if b.len() > a.len() {
         return false;
     }
-- 
2.43.0


From 336779a79440f5511879400873fa07106b4a8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 02/22] fix: order terms that differ only under a binder

---
 src/kernel/term.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index ceb47a9..0b4230e 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -1265,7 +1265,9 @@ impl<'a> TermRef<'a> {
             }
         }
 
-        Ordering::Equal
+        // Binders (lambda, forall, exists) are not arguments, so their types and bodies
+        // have not been compared yet.
+        self.components.cmp(other.components)
     }
 
     /// Knuth-Bendix partial reduction ordering.
-- 
2.43.0


From a88967817db255fbe13160fd83b86910fc91abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 03/22] fix: keep possibly empty variables when inserting a
 clause into the checker

---
 src/kernel/checker.rs | 53 +++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/kernel/checker.rs b/src/kernel/checker.rs
index 5cea248..86afcb9 100644
--- a/src/kernel/checker.rs
+++ b/src/kernel/checker.rs
@@ -283,22 +283,51 @@ impl Checker {
             let Some(var_type) = trace.pre_norm_context.get_var_type(var_id) else {
                 continue;
             };
-            let proven_inhabited = self
-                .proven_inhabited
-                .contains(&Self::inhabited_type_key(var_type, &trace.pre_norm_context));
-            if !proven_inhabited
-                && !Self::provably_inhabited_for_elimination(
-                    kernel_context,
-                    var_type,
-                    Some(&trace.pre_norm_context),
-                )
-            {
+            if !self.variable_type_inhabited(var_type, &trace.pre_norm_context, kernel_context) {
                 return false;
             }
         }
         true
     }
 
+    fn variable_type_inhabited(
+        &self,
+        var_type: &Term,
+        context: &LocalContext,
+        kernel_context: &KernelContext,
+    ) -> bool {
+        self.proven_inhabited
+            .contains(&Self::inhabited_type_key(var_type, context))
+            || Self::provably_inhabited_for_elimination(kernel_context, var_type, Some(context))
+    }
+
+    /// Normalizes a clause that is being inserted. Reducing its subterms can erase a variable; when
+    /// nothing shows that the variable's type is inhabited, the result would say more than the
+    /// clause does, so then the subterms stay as they are.
+    fn normalize_inserted_clause(&self, clause: &Clause, kernel_context: &KernelContext) -> Clause {
+        let reduced = normalize_clause_subterms(clause);
+        let mentions = |clause: &Clause, var_id: AtomId| {
+            clause
+                .literals
+                .iter()
+                .any(|lit| lit.left.has_variable(var_id) || lit.right.has_variable(var_id))
+        };
+        let context = clause.get_local_context();
+        for (var_id, var_type) in context.get_var_types().iter().enumerate() {
+            let Some(var_type) = var_type else {
+                continue;
+            };
+            let var_id = var_id as AtomId;
+            if mentions(clause, var_id)
+                && !mentions(&reduced, var_id)
+                && !self.variable_type_inhabited(var_type, context, kernel_context)
+            {
+                return clause.normalized();
+            }
+        }
+        reduced.normalized()
+    }
+
     fn normalize_checker_trace(
         &self,
         trace: &NormalizedClauseTrace,
@@ -603,7 +632,7 @@ impl Checker {
         reason: StepReason,
         kernel_context: &KernelContext,
     ) {
-        let clause = normalize_clause_subterms(clause).normalized();
+        let clause = self.normalize_inserted_clause(clause, kernel_context);
         self.insert_clause_internal(&clause, reason, kernel_context);
     }
 
@@ -613,7 +642,7 @@ impl Checker {
         reason: StepReason,
         kernel_context: &KernelContext,
     ) {
-        let clause = normalize_clause_subterms(clause).normalized();
+        let clause = self.normalize_inserted_clause(clause, kernel_context);
         self.insert_clause_shallow_for_trace(&clause, reason, kernel_context);
     }
 
-- 
2.43.0


From c7158500718a7f7c932b73a984a7f71b441c0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:20 +0000
Subject: [PATCH 04/22] fix: reordering claims keeps supports that already came
 first

---
 src/proof_order.rs | 73 ++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/src/proof_order.rs b/src/proof_order.rs
index 323f224..a006212 100644
--- a/src/proof_order.rs
+++ b/src/proof_order.rs
@@ -1,12 +1,12 @@
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 
 use crate::kernel::clause::Clause;
 
 /// Return a stable topological order that moves support clauses before later dependent clauses.
 ///
 /// This is used before certificate serialization, where replay is easier if late unit supports are
-/// emitted before claims that need them. `None` means either no support edges were found, the graph
-/// was cyclic, or the existing order was already suitable.
+/// emitted before claims that need them. `None` means the existing order was already
+/// suitable. When the claims support each other in a cycle, only the late supports are moved.
 pub(crate) fn unit_support_order(clauses: &[Clause]) -> Option<Vec<usize>> {
     let mut positive_units = HashMap::new();
     for (index, clause) in clauses.iter().enumerate() {
@@ -18,9 +18,9 @@ pub(crate) fn unit_support_order(clauses: &[Clause]) -> Option<Vec<usize>> {
         }
     }
 
-    let mut edges = vec![vec![]; clauses.len()];
-    let mut indegree = vec![0usize; clauses.len()];
-    let mut seen_edges = HashSet::new();
+    // Every (support, dependent) pair, including the ones that are already in the right order:
+    // moving a late support must not push another support behind its dependents.
+    let mut edges = BTreeSet::new();
     for (dependent_index, clause) in clauses.iter().enumerate() {
         if clause.literals.len() <= 1 {
             continue;
@@ -34,13 +34,7 @@ pub(crate) fn unit_support_order(clauses: &[Clause]) -> Option<Vec<usize>> {
                 continue;
             };
             for &support_index in support_indices {
-                if support_index <= dependent_index {
-                    continue;
-                }
-                if seen_edges.insert((support_index, dependent_index)) {
-                    edges[support_index].push(dependent_index);
-                    indegree[dependent_index] += 1;
-                }
+                edges.insert((support_index, dependent_index));
             }
         }
     }
@@ -50,26 +44,49 @@ pub(crate) fn unit_support_order(clauses: &[Clause]) -> Option<Vec<usize>> {
         }
         let dependent_literal = &clause.literals[0];
         for (support_index, support_clause) in clauses.iter().enumerate() {
-            if support_index <= dependent_index || support_clause.literals.len() <= 1 {
+            if support_clause.literals.len() <= 1 {
                 continue;
             }
-            if !support_clause
+            if support_clause
                 .literals
                 .iter()
                 .any(|literal| literal == dependent_literal)
             {
-                continue;
-            }
-            if seen_edges.insert((support_index, dependent_index)) {
-                edges[support_index].push(dependent_index);
-                indegree[dependent_index] += 1;
+                edges.insert((support_index, dependent_index));
             }
         }
     }
-    if seen_edges.is_empty() {
+    let late_edges: BTreeSet<(usize, usize)> = edges
+        .iter()
+        .copied()
+        .filter(|(support_index, dependent_index)| support_index > dependent_index)
+        .collect();
+    if late_edges.is_empty() {
+        return None;
+    }
+
+    let ordered_indices = topological_order(clauses.len(), &edges)
+        .or_else(|| topological_order(clauses.len(), &late_edges))?;
+    if ordered_indices
+        .iter()
+        .enumerate()
+        .all(|(new_index, old_index)| new_index == *old_index)
+    {
         return None;
     }
 
+    Some(ordered_indices)
+}
+
+/// The topological order of `0..len` that prefers smaller indices, or `None` if there is a cycle.
+fn topological_order(len: usize, edges: &BTreeSet<(usize, usize)>) -> Option<Vec<usize>> {
+    let mut dependents = vec![vec![]; len];
+    let mut indegree = vec![0usize; len];
+    for &(support_index, dependent_index) in edges {
+        dependents[support_index].push(dependent_index);
+        indegree[dependent_index] += 1;
+    }
+
     let mut ready = BTreeSet::new();
     for (index, degree) in indegree.iter().enumerate() {
         if *degree == 0 {
@@ -77,10 +94,10 @@ pub(crate) fn unit_support_order(clauses: &[Clause]) -> Option<Vec<usize>> {
         }
     }
 
-    let mut ordered_indices = Vec::with_capacity(clauses.len());
+    let mut ordered_indices = Vec::with_capacity(len);
     while let Some(index) = ready.pop_first() {
         ordered_indices.push(index);
-        for &dependent in &edges[index] {
+        for &dependent in &dependents[index] {
             indegree[dependent] -= 1;
             if indegree[dependent] == 0 {
                 ready.insert(dependent);
@@ -88,16 +105,8 @@ pub(crate) fn unit_support_order(clauses: &[Clause]) -> Option<Vec<usize>> {
         }
     }
 
-    if ordered_indices.len() != clauses.len() {
-        return None;
-    }
-    if ordered_indices
-        .iter()
-        .enumerate()
-        .all(|(new_index, old_index)| new_index == *old_index)
-    {
+    if ordered_indices.len() != len {
         return None;
     }
-
     Some(ordered_indices)
 }
-- 
2.43.0


From 50d340be3f162a2f4ceab15ef817b567cfec2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:08 +0000
Subject: [PATCH 05/22] fix: count columns of editor positions in UTF-16 units

---
 src/server/live_document.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/server/live_document.rs b/src/server/live_document.rs
index d157a9f..d2864b0 100644
--- a/src/server/live_document.rs
+++ b/src/server/live_document.rs
@@ -12,6 +12,20 @@ fn split_lines(text: &str) -> impl Iterator<Item = &str> {
     re.split(text)
 }
 
+// Splits a line at a position given by the client.
+// The language server protocol counts columns in UTF-16 code units.
+// A position past the end of the line means the end of the line.
+fn split_at_column(line: &str, column: u32) -> (&str, &str) {
+    let mut units = 0;
+    for (index, c) in line.char_indices() {
+        if units >= column as usize {
+            return line.split_at(index);
+        }
+        units += c.len_utf16();
+    }
+    (line, "")
+}
+
 // A live document is in the process of being edited.
 // It has a version number that is incremented each time the document is edited.
 // We also track the version number it had the last time it was saved.
@@ -108,14 +122,16 @@ impl LiveDocument {
         // We are going to replace part of the start line and end line, but maybe not the whole thing.
         // Find the prefix and suffix that we are keeping.
         let prefix: String = if let Some(line) = self.lines.get(start_line) {
-            let start_character = range.start.character as usize;
-            line.text.chars().take(start_character).collect()
+            split_at_column(&line.text, range.start.character)
+                .0
+                .to_string()
         } else {
             "".to_string()
         };
         let suffix: String = if let Some(line) = self.lines.get(end_line) {
-            let end_character = range.end.character as usize;
-            line.text.chars().skip(end_character).collect()
+            split_at_column(&line.text, range.end.character)
+                .1
+                .to_string()
         } else {
             "".to_string()
         };
@@ -161,7 +177,7 @@ impl LiveDocument {
     // The prefix of the line up to the provided point.
     pub fn get_prefix(&self, line: u32, character: u32) -> String {
         if let Some(line) = self.lines.get(line as usize) {
-            line.text.chars().take(character as usize).collect()
+            split_at_column(&line.text, character).0.to_string()
         } else {
             "".to_string()
         }
-- 
2.43.0


From 938f220f2e753d8956be749b3fe5059a2ce67e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:49 +0000
Subject: [PATCH 06/22] Hook: a passive set with a given scorer (cfg
 verif_hooks)

---
 src/prover/passive_set.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/prover/passive_set.rs b/src/prover/passive_set.rs
index c1638a6..543fda5 100644
--- a/src/prover/passive_set.rs
+++ b/src/prover/passive_set.rs
@@ -267,6 +267,21 @@ impl PassiveSet {
         }
     }
 
+    /// A passive set with the given scorer, for verification harnesses.
+    #[cfg(verif_hooks)]
+    pub fn with_scorer(
+        scoring_policy: ScoringPolicy,
+        scorer: Arc<dyn Scorer + Send + Sync>,
+    ) -> PassiveSet {
+        let mut set = Self::with_policy(ScoringPolicy::Handcrafted);
+        set.scorer = scorer;
+        set.df_queue = scoring_policy
+            .df_interleave_period()
+            .map(|_| BTreeSet::new());
+        set.scoring_policy = scoring_policy;
+        set
+    }
+
     /// The negated-goal symbol context accumulated from pushed steps.
     pub fn goal_symbols(&self) -> &GoalSymbols {
         &self.goal_symbols
-- 
2.43.0


From 1b332121a280e3ac62b120dfca4299f4fc026957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:08 +0000
Subject: [PATCH 07/22] fix: keep passive clauses that only contradict a
 literal over a possibly empty type

---
 src/prover/passive_set.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/prover/passive_set.rs b/src/prover/passive_set.rs
index 543fda5..c394f3b 100644
--- a/src/prover/passive_set.rs
+++ b/src/prover/passive_set.rs
@@ -621,7 +621,7 @@ impl PassiveSet {
             if let Some(df_queue) = &mut self.df_queue {
                 df_queue.remove(&Self::df_key(&score, clause_id));
             }
-            self.feature_store.remove(&clause_id);
+            let features = self.feature_store.remove(&clause_id);
 
             if positive == literal_positive {
                 // The whole passive clause is implied by the activated clause.
@@ -662,6 +662,15 @@ impl PassiveSet {
                 });
                 if !activated_inhabited || !passive_inhabited {
                     // Type might be empty, so this isn't a real contradiction.
+                    // Neither is the passive clause redundant, so keep it.
+                    self.queue.insert((score, clause_id));
+                    if let Some(df_queue) = &mut self.df_queue {
+                        df_queue.insert(Self::df_key(&score, clause_id));
+                    }
+                    if let Some(features) = features {
+                        self.feature_store.insert(clause_id, features);
+                    }
+                    self.clauses[clause_id] = Some((step, score));
                     continue;
                 }
             }
-- 
2.43.0


From 5e9a336df76ee2b152c55b7db44e0b4aa665e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:56 +0000
Subject: [PATCH 08/22] fix: termination check looks into family arguments and
 types

---
 src/elaborator/termination_checker.rs | 62 +++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/elaborator/termination_checker.rs b/src/elaborator/termination_checker.rs
index a12c699..23fb4a3 100644
--- a/src/elaborator/termination_checker.rs
+++ b/src/elaborator/termination_checker.rs
@@ -1,4 +1,5 @@
-use crate::elaborator::acorn_value::AcornValue;
+use crate::elaborator::acorn_type::{AcornType, DependentTypeArg};
+use crate::elaborator::acorn_value::{AcornValue, ConstantInstance};
 use crate::elaborator::names::ConstantName;
 use crate::kernel::atom::AtomId;
 
@@ -29,6 +30,46 @@ impl TerminationChecker {
         }
     }
 
+    // Traverse the arguments of a constant that don't show up as an application.
+    // They are the type parameters, and the values that specialize a family constant.
+    fn traverse_constant_args(&mut self, c: &ConstantInstance) {
+        for param in &c.params {
+            self.traverse_type(param);
+        }
+        for value in &c.bound_value_args {
+            self.traverse(value);
+        }
+    }
+
+    // A type can contain function calls in the value arguments of a type family.
+    fn traverse_type(&mut self, acorn_type: &AcornType) {
+        match acorn_type {
+            AcornType::Data(_, params) => {
+                for param in params {
+                    self.traverse_type(param);
+                }
+            }
+            AcornType::Family(_, args) => {
+                for arg in args {
+                    match arg {
+                        DependentTypeArg::Type(t) => self.traverse_type(t),
+                        DependentTypeArg::Value(value) => self.traverse(value),
+                    }
+                }
+            }
+            AcornType::Function(function_type) => {
+                let stack_size = self.substructure_map.len();
+                for arg_type in &function_type.arg_types {
+                    self.traverse_type(arg_type);
+                    self.substructure_map.push(None);
+                }
+                self.traverse_type(&function_type.return_type);
+                self.substructure_map.truncate(stack_size);
+            }
+            _ => {}
+        }
+    }
+
     // Traverse the value, updating substructure_map and always_sub.
     fn traverse(&mut self, value: &AcornValue) {
         match value {
@@ -41,16 +82,21 @@ impl TerminationChecker {
                     // really say that any of its arguments are always strict any more.
                     self.always_strict_sub = vec![false; self.always_strict_sub.len()];
                 }
+                self.traverse_constant_args(c);
             }
             AcornValue::TypeApplication(app) => {
                 self.traverse(&app.function);
+                for type_arg in &app.type_args {
+                    self.traverse_type(type_arg);
+                }
             }
             AcornValue::Lambda(arg_types, value)
             | AcornValue::ForAll(arg_types, value)
             | AcornValue::Exists(arg_types, value) => {
                 // These arguments are not substructures of anything.
                 let stack_size = self.substructure_map.len();
-                for _ in 0..arg_types.len() {
+                for arg_type in arg_types {
+                    self.traverse_type(arg_type);
                     self.substructure_map.push(None);
                 }
                 self.traverse(value);
@@ -99,12 +145,22 @@ impl TerminationChecker {
                         let arg = &app.args[i];
                         let strict_sub = if let AcornValue::Variable(j, _) = arg {
                             let j = *j as usize;
-                            i != j && self.substructure_map[j] == Some(i as AtomId)
+                            i != j && self.substructure_map.get(j) == Some(&Some(i as AtomId))
                         } else {
                             false
                         };
                         self.always_strict_sub[i] &= strict_sub;
                     }
+                    let mut function = app.function.as_ref();
+                    while let AcornValue::TypeApplication(type_app) = function {
+                        for type_arg in &type_app.type_args {
+                            self.traverse_type(type_arg);
+                        }
+                        function = type_app.function.as_ref();
+                    }
+                    if let AcornValue::Constant(c) = function {
+                        self.traverse_constant_args(c);
+                    }
                 } else {
                     self.traverse(app.function.as_ref());
                 }
-- 
2.43.0


From 09ed8e56803ec88898c90e98b90c9ce299b81496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:56 +0000
Subject: [PATCH 09/22] fix: certificate files are replaced in one step

---
 src/certificate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/certificate.rs b/src/certificate.rs
index 14be252..c3408f6 100644
--- a/src/certificate.rs
+++ b/src/certificate.rs
@@ -2266,9 +2266,14 @@ impl CertificateStore {
         Ok(CertificateStore { certs })
     }
 
-    /// Save the certificate store to a file in JSONL format (one certificate per line)
+    /// Save the certificate store to a file in JSONL format (one certificate per line).
+    /// The file is replaced in one step, so an interrupted save leaves the old certificates.
     pub fn save(&self, filename: &Path) -> Result<(), Box<dyn Error>> {
-        let file = File::create(filename)?;
+        let Some(name) = filename.file_name() else {
+            return Err("certificate path has no file name".into());
+        };
+        let temp_path = filename.with_file_name(format!(".{}.tmp", name.to_string_lossy()));
+        let file = File::create(&temp_path)?;
         let mut writer = BufWriter::new(file);
 
         for cert in &self.certs {
@@ -2277,6 +2282,7 @@ impl CertificateStore {
         }
 
         writer.flush()?;
+        std::fs::rename(&temp_path, filename)?;
         Ok(())
     }
 
-- 
2.43.0


From 0675010cff507a041474c1a61ba449842b4d365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:56 +0000
Subject: [PATCH 10/22] fix: two clauses contradict each other only if an
 instance exists

---
 src/certificate_trace.rs | 12 ++++++++++--
 src/kernel/checker.rs    | 19 +++++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index 6763b11..303513c 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -3403,7 +3403,11 @@ impl<'a> TraceWriter<'a> {
             let source_candidates: Vec<Clause> =
                 self.step_clauses[source_index].all().cloned().collect();
             if source_candidates.iter().any(|source| {
-                Checker::clauses_contradict_for_trace(source, clause, &self.kernel_context)
+                self.shadow_checker.clauses_contradict_for_trace(
+                    source,
+                    clause,
+                    &self.kernel_context,
+                )
             }) {
                 return Some(source_index);
             }
@@ -4272,7 +4276,11 @@ impl<'a> TraceChecker<'a> {
                     })?;
                     let contradicts = left_clauses.all().any(|left| {
                         right_clauses.all().any(|right| {
-                            Checker::clauses_contradict_for_trace(left, right, &self.kernel_context)
+                            self.checker.clauses_contradict_for_trace(
+                                left,
+                                right,
+                                &self.kernel_context,
+                            )
                         })
                     });
                     if !contradicts {
diff --git a/src/kernel/checker.rs b/src/kernel/checker.rs
index 86afcb9..f933f05 100644
--- a/src/kernel/checker.rs
+++ b/src/kernel/checker.rs
@@ -1082,7 +1082,20 @@ impl Checker {
         )
     }
 
+    /// Whether every variable of a clause ranges over a type known to have an element.
+    fn clause_variables_inhabited(&self, clause: &Clause, kernel_context: &KernelContext) -> bool {
+        let context = clause.get_local_context();
+        context
+            .get_var_types()
+            .iter()
+            .flatten()
+            .all(|var_type| self.variable_type_inhabited(var_type, context, kernel_context))
+    }
+
+    /// Whether two clauses cannot both hold. A unit clause refutes the other one's instance only
+    /// if there is such an instance, so the other one's variables need inhabited types.
     pub(crate) fn clauses_contradict_for_trace(
+        &self,
         left: &Clause,
         right: &Clause,
         kernel_context: &KernelContext,
@@ -1097,8 +1110,10 @@ impl Checker {
             let negated_left = Clause::new(vec![left_literal.negate()], left.get_local_context());
             let negated_right =
                 Clause::new(vec![right_literal.negate()], right.get_local_context());
-            return Self::clause_specializes_for_trace(left, &negated_right, kernel_context)
-                || Self::clause_specializes_for_trace(right, &negated_left, kernel_context);
+            return (self.clause_variables_inhabited(right, kernel_context)
+                && Self::clause_specializes_for_trace(left, &negated_right, kernel_context))
+                || (self.clause_variables_inhabited(left, kernel_context)
+                    && Self::clause_specializes_for_trace(right, &negated_left, kernel_context));
         }
 
         if left.has_any_variable() || right.has_any_variable() {
-- 
2.43.0


From fa83cb1f338e083880069536a097791eff991cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:19 +0000
Subject: [PATCH 11/22] fix: simplification keeps a step it cannot simplify for
 want of an inhabited type

---
 src/prover/active_set.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/prover/active_set.rs b/src/prover/active_set.rs
index 4d56b51..adffa04 100644
--- a/src/prover/active_set.rs
+++ b/src/prover/active_set.rs
@@ -1534,7 +1534,9 @@ impl ActiveSet {
                         var_type,
                         Some(&local_context),
                     ) {
-                        return None; // Reject the simplification
+                        // Reject the simplification, but keep the step. It is not redundant.
+                        step.clause.literals = original_literals;
+                        return Some(step);
                     }
                 }
             }
-- 
2.43.0


From a10312177791687bf9906ea16ce1537072ac42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:19 +0000
Subject: [PATCH 12/22] fix: an existential over a free variable of its own
 type does not show an element

---
 src/prover/active_set.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/prover/active_set.rs b/src/prover/active_set.rs
index adffa04..4fcd845 100644
--- a/src/prover/active_set.rs
+++ b/src/prover/active_set.rs
@@ -353,10 +353,20 @@ impl ActiveSet {
         kernel_context: &KernelContext,
     ) -> Option<(Term, LocalContext)> {
         let reduction = step.clause.positive_exists_reduction(kernel_context)?;
-        Some(Self::inhabited_type_key(
-            &reduction.binder_type,
-            step.clause.get_local_context(),
-        ))
+        let context = step.clause.get_local_context();
+        let key = Self::inhabited_type_key(&reduction.binder_type, context);
+        // The clause only says that an element exists when its own variables have values.
+        for (var_id, var_type) in context.get_var_types().iter().enumerate() {
+            let Some(var_type) = var_type else {
+                continue;
+            };
+            if !reduction.binder_type.has_variable(var_id as AtomId)
+                && !Self::provably_inhabited_for_elimination(kernel_context, var_type, Some(context))
+            {
+                return None;
+            }
+        }
+        Some(key)
     }
 
     fn inhabitance_sources_for_reduction(
-- 
2.43.0


From 0d8c6f398bc4eba1d42ef5f1bfe3dbeb896fa3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:35 +0000
Subject: [PATCH 13/22] fix: unification lookup allows the sides of embedded
 equalities to be swapped

---
 src/kernel/fingerprint.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/kernel/fingerprint.rs b/src/kernel/fingerprint.rs
index f1d11c9..32fbf07 100644
--- a/src/kernel/fingerprint.rs
+++ b/src/kernel/fingerprint.rs
@@ -4,6 +4,7 @@ use crate::kernel::atom::Atom;
 use crate::kernel::kernel_context::KernelContext;
 use crate::kernel::literal::Literal;
 use crate::kernel::local_context::LocalContext;
+use crate::kernel::symbol::Symbol;
 use crate::kernel::term::{Decomposition, PathStep, Term, TermRef};
 use crate::kernel::types::{GroundTypeId, TypeclassId};
 
@@ -223,6 +224,14 @@ impl FingerprintComponent {
         }
     }
 
+    /// Whether this component is the head of a complete equality.
+    fn is_equality(&self) -> bool {
+        matches!(
+            self,
+            FingerprintComponent::Something(TypeCategory::Bool, Atom::Symbol(Symbol::Eq))
+        )
+    }
+
     /// Whether a unification could combine paths with these fingerprint components.
     fn could_unify(&self, other: &FingerprintComponent) -> bool {
         match (self, other) {
@@ -300,7 +309,17 @@ impl TermFingerprint {
     fn could_unify(&self, other: &TermFingerprint) -> bool {
         for i in 0..PATHS.len() {
             if !self.components[i].could_unify(&other.components[i]) {
-                return false;
+                // Unification may swap the sides of an equality, so what is below one
+                // does not have to agree.
+                let below_equality = (0..PATHS.len()).any(|j| {
+                    PATHS[j].len() < PATHS[i].len()
+                        && PATHS[i].starts_with(PATHS[j])
+                        && self.components[j].is_equality()
+                        && other.components[j].is_equality()
+                });
+                if !below_equality {
+                    return false;
+                }
             }
         }
         true
-- 
2.43.0


From a18f57388807a829079cb2b460dcba109081c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:35 +0000
Subject: [PATCH 14/22] fix: patterns that differ only in variable types no
 longer replace each other in the index

---
 src/kernel/pdt.rs | 72 ++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/kernel/pdt.rs b/src/kernel/pdt.rs
index 2ef5eeb..61605d3 100644
--- a/src/kernel/pdt.rs
+++ b/src/kernel/pdt.rs
@@ -14,7 +14,7 @@
 use std::collections::HashMap;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
-use qp_trie::{Entry, SubTrie, Trie};
+use qp_trie::{SubTrie, Trie};
 
 use super::atom::{Atom as KernelAtom, AtomId};
 use super::clause::Clause;
@@ -392,7 +392,8 @@ impl PatternMetadata {
 #[derive(Clone, Debug)]
 pub struct Pdt<T> {
     /// Maps byte keys to indices into the values vector.
-    trie: Trie<Vec<u8>, usize>,
+    /// Keys ignore types, so patterns whose variables have different types can share a key.
+    trie: Trie<Vec<u8>, Vec<usize>>,
 
     /// Values stored in the tree.
     pub values: Vec<T>,
@@ -410,23 +411,31 @@ impl<T> Pdt<T> {
         }
     }
 
+    /// Inserts a value for a pattern, replacing the value of an identical pattern.
+    fn insert_key(&mut self, key: Vec<u8>, value: T, metadata: PatternMetadata) {
+        let value_ids = self.trie.entry(key).or_insert_with(Vec::new);
+        for &value_id in value_ids.iter() {
+            if self.metadata[value_id].context == metadata.context {
+                self.values[value_id] = value;
+                return;
+            }
+        }
+        value_ids.push(self.values.len());
+        self.values.push(value);
+        self.metadata.push(metadata);
+    }
+
     /// Inserts a term pair with its associated value.
     fn insert_pair(&mut self, term1: &Term, term2: &Term, value: T, local_context: &LocalContext) {
         let key = key_from_pair(term1, term2);
-        let value_id = self.values.len();
-        self.values.push(value);
-        self.metadata
-            .push(PatternMetadata::from_local_context(local_context));
-        self.trie.insert(key, value_id);
+        let metadata = PatternMetadata::from_local_context(local_context);
+        self.insert_key(key, value, metadata);
     }
 
     /// Inserts a clause with its associated value.
     pub fn insert_clause(&mut self, clause: &Clause, value: T) {
         let key = key_from_clause(clause);
-        let value_id = self.values.len();
-        self.values.push(value);
-        self.metadata.push(PatternMetadata::from_clause(clause));
-        self.trie.insert(key, value_id);
+        self.insert_key(key, value, PatternMetadata::from_clause(clause));
     }
 
     /// Finds matches for a term, calling the callback for each match.
@@ -556,19 +565,17 @@ impl Pdt<()> {
         local_context: &LocalContext,
     ) {
         let key = key_from_term(term);
-        match pt.trie.entry(key) {
-            Entry::Occupied(entry) => {
-                let value_id = entry.get();
-                pt.values[*value_id].push(value);
-            }
-            Entry::Vacant(entry) => {
-                let value_id = pt.values.len();
-                pt.values.push(vec![value]);
-                pt.metadata
-                    .push(PatternMetadata::from_local_context(local_context));
-                entry.insert(value_id);
+        let value_ids = pt.trie.entry(key).or_insert_with(Vec::new);
+        for &value_id in value_ids.iter() {
+            if pt.metadata[value_id].context == *local_context {
+                pt.values[value_id].push(value);
+                return;
             }
         }
+        value_ids.push(pt.values.len());
+        pt.values.push(vec![value]);
+        pt.metadata
+            .push(PatternMetadata::from_local_context(local_context));
     }
 }
 
@@ -869,7 +876,7 @@ fn types_compatible(
 /// - Variable(n) edges represent pattern variables that can match any query term
 /// - Structural edges (Application, Symbol atoms) must match the query term exactly
 fn find_matches_while<'a, F>(
-    subtrie: &SubTrie<Vec<u8>, usize>,
+    subtrie: &SubTrie<Vec<u8>, Vec<usize>>,
     key: &mut Vec<u8>,
     terms: &[TermRef<'a>],
     local_context: &LocalContext,
@@ -896,14 +903,21 @@ where
 
     if terms.is_empty() {
         match subtrie.get(key as &[u8]) {
-            Some(value_id) => {
+            Some(value_ids) => {
                 // Structural match found - verify type compatibility
-                let metadata = &all_metadata[*value_id];
-                if verify_type_compatibility(replacements, metadata, local_context, kernel_context)
-                {
-                    return callback(*value_id, replacements);
+                for &value_id in value_ids {
+                    let metadata = &all_metadata[value_id];
+                    if verify_type_compatibility(
+                        replacements,
+                        metadata,
+                        local_context,
+                        kernel_context,
+                    ) && !callback(value_id, replacements)
+                    {
+                        return false;
+                    }
                 }
-                return true; // Type mismatch, continue searching
+                return true; // No type match accepted, continue searching
             }
             None => {
                 let (sample, _) = subtrie.iter().next().unwrap();
-- 
2.43.0


From f211068bc9756be568670c6c8c3190598e4557f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:35 +0000
Subject: [PATCH 15/22] fix: a match on the value of another match keeps its
 meaning when clausified

---
 src/kernel/clausifier.rs | 40 ++++++++++------------------------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/src/kernel/clausifier.rs b/src/kernel/clausifier.rs
index c9d39ba..1483b1a 100644
--- a/src/kernel/clausifier.rs
+++ b/src/kernel/clausifier.rs
@@ -41,14 +41,6 @@ fn clauses_and(mut left: ClauseLiterals, right: ClauseLiterals) -> ClauseLiteral
     left
 }
 
-fn clauses_and_all(formulas: impl Iterator<Item = ClauseLiterals>) -> ClauseLiterals {
-    let mut result = clauses_true();
-    for formula in formulas {
-        result = clauses_and(result, formula);
-    }
-    result
-}
-
 fn clauses_or(left: ClauseLiterals, right: ClauseLiterals) -> ClauseLiterals {
     let mut result = vec![];
     for left_clause in &left {
@@ -61,22 +53,6 @@ fn clauses_or(left: ClauseLiterals, right: ClauseLiterals) -> ClauseLiterals {
     result
 }
 
-fn clauses_or_all(formulas: impl Iterator<Item = ClauseLiterals>) -> ClauseLiterals {
-    let mut result = clauses_false();
-    for formula in formulas {
-        result = clauses_or(result, formula);
-    }
-    result
-}
-
-fn negate_clauses(clauses: &ClauseLiterals) -> ClauseLiterals {
-    clauses_or_all(
-        clauses.iter().map(|clause| {
-            clauses_and_all(clause.iter().map(|lit| clauses_from_literal(lit.negate())))
-        }),
-    )
-}
-
 fn clauses_to_literal(clauses: ClauseLiterals) -> Option<Literal> {
     if clauses.is_empty() {
         Some(Literal::true_value())
@@ -1127,10 +1103,12 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                let condition = self.term_eq_to_clause_set(
+                // The scrutinee may itself be a match, whose clauses have variables for the
+                // constructor fields, so negate the term instead of its clauses.
+                let mismatch = self.term_eq_to_clause_set(
                     &scrutinee,
                     &pattern,
-                    false,
+                    true,
                     stack,
                     next_var_id,
                     context,
@@ -1143,7 +1121,7 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                answer = clauses_and(answer, clauses_or(negate_clauses(&condition), conclusion));
+                answer = clauses_and(answer, clauses_or(mismatch, conclusion));
 
                 stack.truncate(stack_len);
             }
@@ -1163,10 +1141,12 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                let condition = self.term_eq_to_clause_set(
+                // The scrutinee may itself be a match, whose clauses have variables for the
+                // constructor fields, so negate the term instead of its clauses.
+                let mismatch = self.term_eq_to_clause_set(
                     &scrutinee,
                     &pattern,
-                    false,
+                    true,
                     stack,
                     next_var_id,
                     context,
@@ -1179,7 +1159,7 @@ impl<'a> Clausifier<'a> {
                     next_var_id,
                     context,
                 )?;
-                answer = clauses_and(answer, clauses_or(negate_clauses(&condition), conclusion));
+                answer = clauses_and(answer, clauses_or(mismatch, conclusion));
 
                 stack.truncate(stack_len);
             }
-- 
2.43.0


From aa93b28aea043035d5d8c7a7977744af8c046b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:35 +0000
Subject: [PATCH 16/22] fix: conditionals on equations between functions keep
 their meaning when clausified

---
 src/kernel/clausifier.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/kernel/clausifier.rs b/src/kernel/clausifier.rs
index 1483b1a..315a3d5 100644
--- a/src/kernel/clausifier.rs
+++ b/src/kernel/clausifier.rs
@@ -112,10 +112,11 @@ fn clauses_into_clauses_with_pinned(
 
 fn clause_set_if(
     condition: Literal,
+    not_condition: Literal,
     then_clauses: ClauseLiterals,
     else_clauses: ClauseLiterals,
 ) -> ClauseLiterals {
-    let not_condition = clauses_from_literal(condition.negate());
+    let not_condition = clauses_from_literal(not_condition);
     let condition = clauses_from_literal(condition);
     let then_implication = clauses_or(not_condition, then_clauses);
     let else_implication = clauses_or(condition, else_clauses);
@@ -796,14 +797,26 @@ impl<'a> Clausifier<'a> {
                 if let Some(args) = self.split_symbol_application(term, Symbol::Ite, 4) {
                     let cond_clauses =
                         self.term_to_clause_set(&args[1], false, stack, next_var_id, context)?;
+                    // An equation between functions introduces variables, so its negation is
+                    // not the negation of its literal.
+                    let not_cond_clauses =
+                        self.term_to_clause_set(&args[1], true, stack, next_var_id, context)?;
                     let Some(cond_lit) = clauses_to_literal(cond_clauses) else {
                         return Err("term 'ite' condition is too complicated".to_string());
                     };
+                    let Some(not_cond_lit) = clauses_to_literal(not_cond_clauses) else {
+                        return Err("term 'ite' condition is too complicated".to_string());
+                    };
                     let then_clauses =
                         self.term_to_clause_set(&args[2], negate, stack, next_var_id, context)?;
                     let else_clauses =
                         self.term_to_clause_set(&args[3], negate, stack, next_var_id, context)?;
-                    return Ok(clause_set_if(cond_lit, then_clauses, else_clauses));
+                    return Ok(clause_set_if(
+                        cond_lit,
+                        not_cond_lit,
+                        then_clauses,
+                        else_clauses,
+                    ));
                 }
 
                 if let Some((function, args)) = term.as_ref().split_application_multi() {
-- 
2.43.0


From 378c4ac6a9c7480d080ceedb1a877a9c129a7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:35 +0000
Subject: [PATCH 17/22] fix: types inferred inside function types are moved to
 the base scope

---
 src/elaborator/acorn_type.rs   | 16 ++++++++++++++++
 src/elaborator/type_unifier.rs | 31 +++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/elaborator/acorn_type.rs b/src/elaborator/acorn_type.rs
index 2e5d541..42d0cf6 100644
--- a/src/elaborator/acorn_type.rs
+++ b/src/elaborator/acorn_type.rs
@@ -436,6 +436,22 @@ impl FunctionType {
         }
     }
 
+    /// The type after the first n arguments, represented under its own visible binders first,
+    /// followed by those n arguments. This undoes the flattening in `new`.
+    pub(crate) fn curried_remainder(&self, n: usize) -> AcornType {
+        let remaining_args: Vec<_> = self.arg_types[n..]
+            .iter()
+            .enumerate()
+            .map(|(i, arg_type)| arg_type.move_ambient_after_visible(0, n as AtomId, i as AtomId))
+            .collect();
+        let return_type = self.return_type.move_ambient_after_visible(
+            0,
+            n as AtomId,
+            remaining_args.len() as AtomId,
+        );
+        AcornType::functional(remaining_args, return_type)
+    }
+
     /// Makes a partial type by removing the first n arguments.
     fn remove_args(&self, n: usize) -> FunctionType {
         assert!(n < self.arg_types.len());
diff --git a/src/elaborator/type_unifier.rs b/src/elaborator/type_unifier.rs
index 4a2afd1..417e365 100644
--- a/src/elaborator/type_unifier.rs
+++ b/src/elaborator/type_unifier.rs
@@ -113,6 +113,21 @@ impl<'a> TypeUnifier<'a> {
         self.match_instance_with_visible_prefix(generic_type, instance_type, 0)
     }
 
+    /// Moves a type from under `visible_prefix` function argument binders to the base scope, where
+    /// `mapping` keeps its types. Fails when the type depends on one of those arguments.
+    fn type_at_base_scope(
+        acorn_type: &AcornType,
+        visible_prefix: AtomId,
+    ) -> std::result::Result<AcornType, Error> {
+        if visible_prefix == 0 {
+            return Ok(acorn_type.clone());
+        }
+        let placeholders = vec![AcornValue::Bool(true); visible_prefix as usize];
+        let base_type = acorn_type.bind_ambient_values(0, visible_prefix, &placeholders);
+        require_eq(&base_type.insert_stack(0, visible_prefix), acorn_type)?;
+        Ok(base_type)
+    }
+
     fn match_instance_with_visible_prefix(
         &mut self,
         generic_type: &AcornType,
@@ -159,8 +174,8 @@ impl<'a> TypeUnifier<'a> {
                 if instance_type.has_type_variable(&param.name) {
                     return Err(Error::Other);
                 }
-                self.mapping
-                    .insert(param.name.clone(), instance_type.clone());
+                let base_type = Self::type_at_base_scope(instance_type, visible_prefix)?;
+                self.mapping.insert(param.name.clone(), base_type);
             }
             (AcornType::Arbitrary(param), _) => {
                 // Arbitrary types work like Variable types for unification purposes
@@ -212,8 +227,8 @@ impl<'a> TypeUnifier<'a> {
                     }
                     return Err(Error::Other);
                 }
-                self.mapping
-                    .insert(param.name.clone(), instance_type.clone());
+                let base_type = Self::type_at_base_scope(instance_type, visible_prefix)?;
+                self.mapping.insert(param.name.clone(), base_type);
             }
             (AcornType::Function(f), AcornType::Function(g)) => {
                 if f.arg_types.len() < g.arg_types.len() {
@@ -229,9 +244,7 @@ impl<'a> TypeUnifier<'a> {
                         )?;
                     }
                     // Re-curry the remaining args of g into a function type
-                    let remaining_args = g.arg_types[f.arg_types.len()..].to_vec();
-                    let curried_remainder =
-                        AcornType::functional(remaining_args, (*g.return_type).clone());
+                    let curried_remainder = g.curried_remainder(f.arg_types.len());
                     self.match_instance_with_visible_prefix(
                         &f.return_type,
                         &curried_remainder,
@@ -250,9 +263,7 @@ impl<'a> TypeUnifier<'a> {
                         )?;
                     }
                     // Re-curry the remaining args of f into a function type
-                    let remaining_args = f.arg_types[g.arg_types.len()..].to_vec();
-                    let curried_remainder =
-                        AcornType::functional(remaining_args, (*f.return_type).clone());
+                    let curried_remainder = f.curried_remainder(g.arg_types.len());
                     self.match_instance_with_visible_prefix(
                         &curried_remainder,
                         &g.return_type,
-- 
2.43.0


From b6578e91607a499533028696a03e6f030c6bb778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:20 +0000
Subject: [PATCH 18/22] fix: a constant shows an element of a typeclass's types
 only if that class is its one parameter

---
 src/kernel/symbol_table.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/kernel/symbol_table.rs b/src/kernel/symbol_table.rs
index 3543ffb..8ae9626 100644
--- a/src/kernel/symbol_table.rs
+++ b/src/kernel/symbol_table.rs
@@ -245,19 +245,14 @@ impl SymbolTable {
                         continue;
                     }
                     Atom::Symbol(Symbol::Typeclass(tc_id)) => {
-                        // Check if the output is just the bound variable (x_depth).
-                        // This means the function returns a value of the typeclass-constrained type,
-                        // proving that the typeclass makes its instance type inhabited.
-                        // For example: point: forall[P: Pointed]. P has type Pi(Typeclass(Pointed), x0)
-                        let output_var = if output.is_atomic() {
-                            match output.get_head_atom() {
-                                Atom::FreeVariable(i) | Atom::BoundVariable(i) => Some(*i),
-                                _ => None,
-                            }
-                        } else {
-                            None
-                        };
-                        if output_var == Some(depth) {
+                        // Check if this is the only parameter and the output is the bound
+                        // variable itself. This means the function returns a value of the
+                        // typeclass-constrained type for any instance type, proving that the
+                        // typeclass makes its instance type inhabited.
+                        // For example: point: forall[P: Pointed]. P has type Pi(Typeclass(Pointed), b0)
+                        let returns_param = output.is_atomic()
+                            && *output.get_head_atom() == Atom::BoundVariable(0);
+                        if depth == 0 && returns_param {
                             self.inhabited_typeclasses.insert(*tc_id);
                             self.inhabited_typeclass_witnesses
                                 .entry(*tc_id)
-- 
2.43.0


From a5b8cf88e9e1b8e8ed160af451bad16c9b9e9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:20 +0000
Subject: [PATCH 19/22] fix: an instance of a base typeclass is no witness for
 the extending typeclass

---
 src/kernel/kernel_context.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/kernel/kernel_context.rs b/src/kernel/kernel_context.rs
index f365fcd..770ba3a 100644
--- a/src/kernel/kernel_context.rs
+++ b/src/kernel/kernel_context.rs
@@ -492,15 +492,10 @@ impl KernelContext {
     }
 
     fn find_type_witness_for_typeclass(&self, tc_id: TypeclassId) -> Option<Term> {
-        if let Some(ground_id) = self.type_store.find_instance_of_typeclass(tc_id) {
-            return Some(Term::ground_type(ground_id));
-        }
-        for base_id in self.type_store.get_typeclass_extends(tc_id) {
-            if let Some(ground_id) = self.type_store.find_instance_of_typeclass(base_id) {
-                return Some(Term::ground_type(ground_id));
-            }
-        }
-        None
+        // An instance of a base typeclass does not have to be an instance of this one.
+        self.type_store
+            .find_instance_of_typeclass(tc_id)
+            .map(Term::ground_type)
     }
 
     fn find_local_typeclass_witness(
-- 
2.43.0


From d8a0d2454eb50b5be66eb9227b159c070dd0958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:20 +0000
Subject: [PATCH 20/22] fix: a typeclass-constrained constant shows elements
 only for types of that class

---
 src/kernel/kernel_context.rs | 30 ++++++++++++++++++++++++++++++
 src/kernel/symbol_table.rs   | 22 +++++++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/kernel/kernel_context.rs b/src/kernel/kernel_context.rs
index 770ba3a..6ae1afb 100644
--- a/src/kernel/kernel_context.rs
+++ b/src/kernel/kernel_context.rs
@@ -443,6 +443,12 @@ impl KernelContext {
                 break;
             }
             let arg = type_args[type_arg_index].clone();
+            if let Some(tc_id) = input_type.as_ref().as_typeclass() {
+                // The provider only covers type arguments of its typeclass.
+                if !self.type_arg_is_instance_of(&arg, local_context, tc_id) {
+                    return None;
+                }
+            }
             witness = witness.apply(std::slice::from_ref(&arg));
             witness_type = witness_type.type_apply_with_arg(&arg)?;
             type_arg_index += 1;
@@ -479,6 +485,30 @@ impl KernelContext {
         }
     }
 
+    /// Whether a type is known to satisfy a typeclass, including local types with a constraint.
+    fn type_arg_is_instance_of(
+        &self,
+        type_arg: &Term,
+        local_context: Option<&LocalContext>,
+        tc_id: TypeclassId,
+    ) -> bool {
+        if let Atom::Symbol(Symbol::ScopedConstant(id)) = type_arg.as_ref().get_head_atom() {
+            let kind = self.symbol_table.get_type(Symbol::ScopedConstant(*id));
+            return match kind.as_ref().as_typeclass() {
+                Some(actual) => {
+                    actual == tc_id || self.type_store.typeclass_extends(actual, tc_id)
+                }
+                None => false,
+            };
+        }
+        let empty = LocalContext::empty();
+        self.type_store.type_term_is_instance_of(
+            type_arg.as_ref(),
+            local_context.unwrap_or(&empty),
+            tc_id,
+        )
+    }
+
     fn find_typeclass_provider(&self, tc_id: TypeclassId) -> Option<Symbol> {
         if let Some(symbol) = self.symbol_table.get_typeclass_witness(tc_id) {
             return Some(symbol);
diff --git a/src/kernel/symbol_table.rs b/src/kernel/symbol_table.rs
index 8ae9626..a069d23 100644
--- a/src/kernel/symbol_table.rs
+++ b/src/kernel/symbol_table.rs
@@ -290,7 +290,12 @@ impl SymbolTable {
                 .copied();
             let replace = match existing {
                 None => true,
-                Some(_existing_symbol) => !has_value_args,
+                Some(existing_symbol) => {
+                    // A provider with more typeclass constraints covers fewer type arguments.
+                    !has_value_args
+                        && Self::num_typeclass_params(var_type)
+                            <= Self::num_typeclass_params(self.get_type(existing_symbol))
+                }
             };
             if replace {
                 self.inhabited_type_constructor_witnesses
@@ -299,6 +304,21 @@ impl SymbolTable {
         }
     }
 
+    fn num_typeclass_params(constant_type: &Term) -> usize {
+        let mut current = constant_type.as_ref();
+        let mut count = 0;
+        while let Some((input, output)) = current.split_pi() {
+            if !input.is_type_param_kind() {
+                break;
+            }
+            if input.as_typeclass().is_some() {
+                count += 1;
+            }
+            current = output;
+        }
+        count
+    }
+
     /// Check if a type constructor is known to be inhabited for any type arguments.
     pub fn is_type_constructor_inhabited(&self, ground_id: GroundTypeId) -> bool {
         self.inhabited_type_constructors.contains(&ground_id)
-- 
2.43.0


From 3046a95ab9185a4ea7ea3ec411e55cdbb890c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:07 +0000
Subject: [PATCH 21/22] fix: register match eliminators in the module that
 defines the datatype

A match eliminator was registered lazily at its first use, under the id of the
module defining the datatype, so two modules that matched on different
datatypes of a third gave both the same symbol and a module importing both
confused them.
---
 src/elaborator/binding_map.rs     | 49 +++++++++++++++++++++++++++++++
 src/elaborator/environment/mod.rs | 12 ++++++++
 2 files changed, 61 insertions(+)

diff --git a/src/elaborator/binding_map.rs b/src/elaborator/binding_map.rs
index 3d7661c..939f556 100644
--- a/src/elaborator/binding_map.rs
+++ b/src/elaborator/binding_map.rs
@@ -646,6 +646,55 @@ impl BindingMap {
             .and_then(|info| info.constructor.as_ref())
     }
 
+    /// A generic match, with every constructor, over each datatype whose constructors are
+    /// defined in this module.
+    pub fn datatype_matches(&self) -> Vec<AcornValue> {
+        let mut constructors: BTreeMap<Datatype, Vec<(usize, AcornValue)>> = BTreeMap::new();
+        for info in self.constant_defs.values() {
+            if let Some(constructor) = &info.constructor {
+                if constructor.datatype.module_id == self.module_id {
+                    constructors
+                        .entry(constructor.datatype.clone())
+                        .or_default()
+                        .push((constructor.index, info.value.clone().to_generic_value()));
+                }
+            }
+        }
+        let mut matches = vec![];
+        for (_, mut constructors) in constructors {
+            constructors.sort_by_key(|(index, _)| *index);
+            let total = constructors.len() as u16;
+            let mut scrutinee_type = None;
+            let cases = constructors
+                .into_iter()
+                .map(|(index, constructor)| {
+                    let (new_vars, datatype) = match constructor.get_type() {
+                        AcornType::Function(ftype) => (ftype.arg_types, *ftype.return_type),
+                        datatype => (vec![], datatype),
+                    };
+                    scrutinee_type = Some(datatype);
+                    let vars = new_vars
+                        .iter()
+                        .enumerate()
+                        .map(|(i, t)| AcornValue::Variable(1 + i as AtomId, t.clone()))
+                        .collect();
+                    MatchCase {
+                        new_vars,
+                        pattern: AcornValue::apply(constructor, vars),
+                        result: AcornValue::Bool(true),
+                        constructor_index: index as u16,
+                        constructor_total: total,
+                    }
+                })
+                .collect();
+            if let Some(scrutinee_type) = scrutinee_type {
+                let scrutinee = AcornValue::Variable(0, scrutinee_type);
+                matches.push(AcornValue::Match(Box::new(scrutinee), cases));
+            }
+        }
+        matches
+    }
+
     pub fn get_module_for_datatype_attr(
         &self,
         datatype: &Datatype,
diff --git a/src/elaborator/environment/mod.rs b/src/elaborator/environment/mod.rs
index 69ea67f..c3ee344 100644
--- a/src/elaborator/environment/mod.rs
+++ b/src/elaborator/environment/mod.rs
@@ -19,7 +19,9 @@ use crate::elaborator::names::{ConstantName, DefinedName};
 use crate::elaborator::node::{Node, NodeCursor};
 use crate::elaborator::proposition::Proposition;
 use crate::elaborator::source::Source;
+use crate::elaborator::to_term::register_value_symbols;
 use crate::kernel::kernel_context::KernelContext;
+use crate::kernel::symbol_table::NewConstantType;
 use crate::module::ModuleId;
 use crate::project::{Project, ProjectLookup};
 use crate::syntax::statement::{Body, Statement};
@@ -880,6 +882,16 @@ impl Environment {
         );
         lowered_module.items = items;
 
+        // Match eliminators are otherwise registered where they are first used. When that is in
+        // two modules that import this one, both would take the same id of this module.
+        for value in self.bindings.datatype_matches() {
+            register_value_symbols(
+                &mut lowered_module.final_kernel_context,
+                &value,
+                NewConstantType::Global,
+            );
+        }
+
         LoweringResult {
             module: lowered_module,
             error: first_error,
-- 
2.43.0


From bf8ab38ec4bfc355d6f4f259707b7fc47427c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:07 +0000
Subject: [PATCH 22/22] fix: a minus after the postfix '?' is a subtraction

'a? - b' was refused because the minus was taken as a prefix operator.
---
 src/syntax/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/syntax/expression.rs b/src/syntax/expression.rs
index b1e7acc..07b2409 100644
--- a/src/syntax/expression.rs
+++ b/src/syntax/expression.rs
@@ -1227,12 +1227,12 @@ fn parse_partial_expressions(
                 // This could either be unary or binary.
                 // Look at the previous token to decide.
                 if match partials.back() {
-                    Some(PartialExpression::Expression(_)) => {
-                        // An expression can't be followed by a unary operator.
+                    Some(PartialExpression::Expression(_))
+                    | Some(PartialExpression::Postfix(_)) => {
+                        // A complete operand can't be followed by a unary operator.
                         false
                     }
                     Some(PartialExpression::Unary(_))
-                    | Some(PartialExpression::Postfix(_))
                     | Some(PartialExpression::Implicit(_))
                     | Some(PartialExpression::Binary(_))
                     | None => {
-- 
2.43.0

