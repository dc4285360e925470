From 452494a5710b66fc9d350d30c7277e6ebacddb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 01/36] fix: recompute positions and spans after a terminal was
 removed, not before

---
 lumberjack/src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 045be65..a6468b1 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -693,10 +693,11 @@ impl Tree {
         if self.siblings(terminal).count() == 0 {
             return Err(format_err!("Last terminal of a branch."));
         }
+        let node = self.graph.remove_node(terminal).unwrap();
         self.compact_terminal_spans()?;
         self.reset_nt_spans();
         self.n_terminals -= 1;
-        Ok(self.graph.remove_node(terminal).unwrap())
+        Ok(node)
     }
 
     /// Reset terminal spans to increasing by 1 at each step.
-- 
2.43.0


From c78b78f4bc1d6459a79c7ab796fbcf168dad8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:14 +0000
Subject: [PATCH 02/36] fix: count unary nodes inserted at a discontinuous node
 as discontinuous

---
 lumberjack/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index a6468b1..9f91ee4 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -250,6 +250,9 @@ impl Tree {
         S: Into<String>,
     {
         let span = self[child].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(node);
         if let Some((parent, old_edge_idx)) = self.parent(child) {
@@ -288,6 +291,9 @@ impl Tree {
         // collect children before attaching new node
         let children = self.children(node).collect::<Vec<_>>();
         let span = self[node].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let new_node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(new_node);
         self.graph
-- 
2.43.0


From e04cd27deeb395ef4ba048e420e55b2de7c0080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 03/36] fix: update the spans of all former ancestors when a
 node is reattached

---
 lumberjack/src/tree.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 9f91ee4..a498448 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -608,25 +608,25 @@ impl Tree {
         } else if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
-        let mut climber = Climber::new(parent, self);
-        let mut path = vec![parent];
-        // climb tree to check if the old parent is dominated by the new parent
+        // nodes dominating the new parent (including itself) keep covering the child
+        let mut keep = vec![new_parent];
+        let mut climber = Climber::new(new_parent, self);
         while let Some(node) = climber.next(self) {
-            path.push(node);
-            // if new parent is higher in the tree, we need to remove the indices from the old
-            // parent's span
-            if new_parent == node {
-                let coverage = self[child].span().into_iter().collect::<Vec<_>>();
-                for node in path {
-                    let before = self[node].continuity();
-                    let after = self[node]
-                        .nonterminal_mut()
-                        .unwrap()
-                        .remove_indices(coverage.iter().cloned());
-                    self.projectivity_change(before, after);
-                }
+            keep.push(node);
+        }
+        // all other nodes dominating the old parent lose the child's indices
+        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
+        let mut climber = Climber::new(child, self);
+        while let Some(node) = climber.next(self) {
+            if keep.contains(&node) {
                 break;
             }
+            let before = self[node].continuity();
+            let after = self[node]
+                .nonterminal_mut()
+                .unwrap()
+                .remove_indices(coverage.iter().cloned());
+            self.projectivity_change(before, after);
         }
         let edge = self.graph.remove_edge(edge).unwrap();
         let edge_idx = self
-- 
2.43.0


From ed0a32504357106dd6c8165898e045284908ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 04/36] fix: reject terminals as new parent when reattaching
 secondary edges, as documented

---
 lumberjack/src/tree.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index a498448..1c1e189 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -368,6 +368,9 @@ impl Tree {
         if child == new_parent {
             return Err(format_err!("New parent is node itself."));
         }
+        if self[new_parent].is_terminal() {
+            return Err(format_err!("Terminal node as new parent."));
+        }
 
         match self[edge] {
             Edge::Primary(_) => self.reattach_primary(new_parent, edge),
@@ -603,9 +606,7 @@ impl Tree {
     ) -> Result<(EdgeIndex, Edge), Error> {
         let (parent, child) = self.graph.edge_endpoints(edge).unwrap();
         // ensure we're not removing the last child of a node
-        if self[new_parent].is_terminal() {
-            return Err(format_err!("Terminal node as new parent."));
-        } else if self.siblings(child).count() == 0 && parent != new_parent {
+        if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
         // nodes dominating the new parent (including itself) keep covering the child
-- 
2.43.0


From bd98432cc23b3b459f602caab0441ed33b150ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 05/36] fix: reject reattaching a node below its own descendant

---
 lumberjack/src/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 1c1e189..383cba7 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -342,6 +342,7 @@ impl Tree {
     /// Returns `Err` if:
     ///   * `edge` is the last outgoing edge of a node.
     ///   * `new_parent` is a `Terminal` node.
+    ///   * `new_parent` is the reattached node or, for primary edges, dominated by it.
     ///
     /// Returns `Ok(old_edge)` otherwise.
     ///
@@ -615,6 +616,9 @@ impl Tree {
         while let Some(node) = climber.next(self) {
             keep.push(node);
         }
+        if keep.contains(&child) {
+            return Err(format_err!("New parent is dominated by the node itself."));
+        }
         // all other nodes dominating the old parent lose the child's indices
         let coverage = self[child].span().into_iter().collect::<Vec<_>>();
         let mut climber = Climber::new(child, self);
-- 
2.43.0


From 6b2bf2180ef9a9b1eb3a71d9230e9268380901e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 06/36] fix: are_siblings compared edges along with parents and
 was never true for siblings

---
 lumberjack/src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 383cba7..966851e 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -404,7 +404,7 @@ impl Tree {
     /// Returns whether two nodes are immediately dominated by the same node.
     pub fn are_siblings(&self, node_1: NodeIndex, node_2: NodeIndex) -> bool {
         match (self.parent(node_1), self.parent(node_2)) {
-            (Some(parent_1), Some(parent_2)) => parent_1 == parent_2,
+            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
             _ => false,
         }
     }
-- 
2.43.0


From 210eda68f29268cd675cb3a3541e59b3b337ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 07/36] fix: remove_secondary_edge returns None for absent
 edges instead of panicking

---
 lumberjack/src/tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 966851e..96de582 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -134,10 +134,9 @@ impl Tree {
     ///
     /// Returns `None` if the edge is not present in the graph.
     pub fn remove_secondary_edge(&mut self, edge: EdgeIndex) -> Option<Edge> {
-        if !self[edge].is_primary() {
-            self.graph.remove_edge(edge)
-        } else {
-            None
+        match self.graph.edge_weight(edge) {
+            Some(Edge::Secondary(_)) => self.graph.remove_edge(edge),
+            _ => None,
         }
     }
 
-- 
2.43.0


From 514ea068dc160d9d28c738e4f3bc7e62d7f50a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 08/36] fix: compare the root nodes of trees in equality

---
 lumberjack/src/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 96de582..887c2e2 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -819,6 +819,10 @@ impl PartialEq for Tree {
             return false;
         };
 
+        if self[self.root()] != other[other.root()] {
+            return false;
+        }
+
         subtree_eq(self.root(), self, other.root(), other)
     }
 }
-- 
2.43.0


From dedf18b3e696b258639c0abd7589242fd13f17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 09/36] fix: compare forms in terminal equality

---
 lumberjack/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/node.rs b/lumberjack/src/node.rs
index 2f02449..f3db325 100644
--- a/lumberjack/src/node.rs
+++ b/lumberjack/src/node.rs
@@ -319,7 +319,11 @@ pub struct Terminal {
 
 impl PartialEq<Terminal> for Terminal {
     fn eq(&self, other: &Terminal) -> bool {
-        if self.pos != other.pos || self.span != other.span || self.lemma != other.lemma {
+        if self.form != other.form
+            || self.pos != other.pos
+            || self.span != other.span
+            || self.lemma != other.lemma
+        {
             return false;
         }
         match (&self.features, &other.features) {
-- 
2.43.0


From 6ddb6ab760dd0b857f5a2d6e10ba82af976b443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 10/36] fix: annotate POS tags in sentence order instead of
 node index order

---
 lumberjack/src/tree_modification.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c1fa251..17bcf57 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -22,7 +22,8 @@ impl AnnotatePOS for Tree {
     where
         S: Into<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        self.sort_indices(&mut terminals);
         let mut pos_iter = pos_iter.into_iter();
         for terminal in terminals {
             if let Some(pos) = pos_iter.next() {
-- 
2.43.0


From 9e54b1859d6b0f5feb2a704a1a7f467500f475af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 11/36] fix: mark the first terminal of a run as visited in
 insert_intermediate

---
 lumberjack/src/tree_modification.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 17bcf57..da7e651 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -178,6 +178,7 @@ impl TreeOps for Tree {
                 children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                 let mut children = children.into_iter();
                 let (terminal, _) = children.next().unwrap();
+                visit_map.visit(terminal);
                 let mut insert = self.insert_unary_above(terminal, label.clone());
 
                 let mut prev_idx = self[terminal].span().start;
-- 
2.43.0


From 7d7b874004b0a537b170b9769d3a851388e68f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 12/36] fix: reattach_terminals looped forever if only the
 terminal is left below attachment or root

---
 lumberjack/src/tree_modification.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index da7e651..268386b 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -225,10 +225,11 @@ impl TreeOps for Tree {
             if match_fn(&self, terminal) {
                 let mut climber = Climber::new(terminal, self);
                 while self.siblings(terminal).count() == 0 {
-                    if let Some(parent) = climber.next(self) {
-                        if parent != self.root() && parent != attachment {
+                    match climber.next(self) {
+                        Some(parent) if parent != self.root() && parent != attachment => {
                             self.remove_node(parent).unwrap();
                         }
+                        _ => break,
                     }
                 }
                 let (_, edge) = self.parent(terminal).unwrap();
-- 
2.43.0


From b3d89d1c21bcfdf3cff322e4c8d828c255e61689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 13/36] fix: decoding an ancestor with zero common nodes must
 not underflow

---
 lumberjack/src/io/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 193dc27..9dcbadf 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -303,7 +303,7 @@ impl Decode for Tree {
                     }
 
                     prev = Some(cur);
-                    prev_n = n_common - 1;
+                    prev_n = n_common.saturating_sub(1);
                 }
             }
         }
-- 
2.43.0


From 62220a64d725632299be8fcd0bb69304c3af1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 14/36] fix: write '_' instead of an empty CONLL-X feature
 column for empty features

---
 lumberjack/src/io/conllx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 5ed131f..748aec3 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -134,7 +134,7 @@ impl<'a> From<&'a Terminal> for Token {
         let mut token = Token::new(terminal.form());
         token.set_lemma(terminal.lemma());
         token.set_pos(Some(terminal.label()));
-        if let Some(features) = terminal.features() {
+        if let Some(features) = terminal.features().filter(|f| !f.inner().is_empty()) {
             token.set_features(Some(Features::from_string(features.to_string())));
         }
         token
@@ -154,7 +154,7 @@ impl From<Tree> for Sentence {
             let lemma = terminal.set_lemma::<String>(None);
             token.set_lemma(lemma);
             token.set_pos(Some(terminal.set_label(String::new())));
-            if let Some(morph) = terminal.set_features(None) {
+            if let Some(morph) = terminal.set_features(None).filter(|f| !f.inner().is_empty()) {
                 token.set_features(Some(Features::from_string(morph.to_string())));
             }
             tokens.push((token, terminal.span().start));
-- 
2.43.0


From 329853f76e0d3d2902c11528c817d3c66982c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:00 +0000
Subject: [PATCH 15/36] fix: return Err for sentences without tokens when
 decoding from CONLL-X

---
 lumberjack/src/io/conllx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 748aec3..4209867 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -77,6 +77,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let mut tree = Tree::decode(AbsoluteEncoding::new(encoding), terminals);
         tree.restore_unary_chains("_")?;
         Ok(tree)
@@ -113,6 +116,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let encoding = match AbsoluteEncoding::try_from_relative(RelativeEncoding::new(encoding)) {
             ConversionResult::Success(encoding) => encoding,
             ConversionResult::Error(err) => err.fix(),
-- 
2.43.0


From 7e6b14c8550dde784b30e351b5d972f82ab775d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 16/36] fix: PTB annotations don't include the separating dash,
 as documented

---
 lumberjack/src/io/ptb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 88a11e6..90a278c 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -240,7 +240,7 @@ impl PTBFormat {
             match self {
                 PTBFormat::PTB => {
                     if let Some(idx) = label.find('-') {
-                        Ok((&label[..idx], None, Some(&label[idx..])))
+                        Ok((&label[..idx], None, Some(&label[idx + 1..])))
                     } else {
                         Ok((label, None, None))
                     }
-- 
2.43.0


From 52601262276adbff429132846ed8c78402c51279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:04 +0000
Subject: [PATCH 17/36] fix: keep PTB labels starting with a dash (-NONE-,
 -LRB-) instead of reading empty labels

---
 lumberjack/src/io/ptb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 90a278c..274e749 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -239,7 +239,7 @@ impl PTBFormat {
             // split label and edge label
             match self {
                 PTBFormat::PTB => {
-                    if let Some(idx) = label.find('-') {
+                    if let Some(idx) = label.find('-').filter(|idx| *idx > 0) {
                         Ok((&label[..idx], None, Some(&label[idx + 1..])))
                     } else {
                         Ok((label, None, None))
-- 
2.43.0


From 33f6c41ec2e017479da352f5c4f11284c4fa0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 18/36] fix: return Err for surplus closing parentheses in
 multiline brackets instead of underflowing

---
 lumberjack/src/io/ptb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 274e749..f6dca42 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -312,6 +312,9 @@ where
                 }
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
+                if line_closed > open {
+                    return Some(Err(format_err!("Unbalanced parentheses: {}", line)));
+                }
                 open -= line_closed;
                 buffer.push_str(line.as_str());;
                 if open == 0 {
-- 
2.43.0


From b4e6f421155c8a0de0393e8bcd2862f3af347015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 19/36] fix: keep line breaks as token separators in multiline
 brackets

---
 lumberjack/src/io/ptb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index f6dca42..f07a247 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -316,7 +316,10 @@ where
                     return Some(Err(format_err!("Unbalanced parentheses: {}", line)));
                 }
                 open -= line_closed;
-                buffer.push_str(line.as_str());;
+                if !buffer.is_empty() {
+                    buffer.push(' ');
+                }
+                buffer.push_str(line.as_str());
                 if open == 0 {
                     return Some(self.format.string_to_tree(&buffer));
                 }
-- 
2.43.0


From e1908421c6c8925ba886c65bf25c6fb4e522f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 20/36] fix: report an incomplete multiline tree at the end of
 input

---
 lumberjack/src/io/ptb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index f07a247..8f81f02 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -324,6 +324,9 @@ where
                     return Some(self.format.string_to_tree(&buffer));
                 }
             }
+            if !buffer.is_empty() {
+                return Some(Err(format_err!("Incomplete tree at end of input: {}", buffer)));
+            }
         }
         None
     }
-- 
2.43.0


From 8c5960797a26f6ce80d46e9b377e116033699922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 21/36] fix: return Err for unknown secondary parents in NEGRA
 sentences

---
 lumberjack/src/io/negra.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f579433..87cbaa5 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -145,8 +145,12 @@ impl Builder {
             ));
         }
         for (source, label, target) in self.sec_edges {
+            let source = *self
+                .nt_indices
+                .get(&source)
+                .ok_or_else(|| format_err!("Unknown secondary parent: {}", source))?;
             self.graph.add_edge(
-                *self.nt_indices.get(&source).unwrap(),
+                source,
                 target,
                 Edge::Secondary(Some(label)),
             );
-- 
2.43.0


From f1fe2c24da9b06c6542b6c01b0fa8848c59b2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 22/36] fix: return Err for NEGRA sentences without terminals

---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 87cbaa5..8c4c880 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -160,6 +160,9 @@ impl Builder {
         if self.processed_nts != self.nt_indices.len() {
             return Err(format_err!("Did not process all nonterminals."));
         }
+        if self.n_terminals == 0 {
+            return Err(format_err!("Tree without Terminal nodes."));
+        }
         self.graph[root].set_span(Span::new(0, self.n_terminals))?;
         Ok(Tree::new_from_parts(
             self.graph,
-- 
2.43.0


From d639d433d889e320140f320622a464c0ac23eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 23/36] fix: return Err for NEGRA sentences with cyclic,
 detached or doubly attached nonterminals

---
 lumberjack/src/io/negra.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 8c4c880..c3b53f4 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -3,9 +3,10 @@ use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
 use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
-use petgraph::visit::{VisitMap, Visitable};
+use petgraph::visit::{Dfs, VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
+use crate::tree::GraphWrap;
 use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
@@ -163,6 +164,14 @@ impl Builder {
         if self.n_terminals == 0 {
             return Err(format_err!("Tree without Terminal nodes."));
         }
+        let mut n_attached = 0;
+        let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);
+        while let Some(_) = dfs.next(GraphWrap::new(&self.graph)) {
+            n_attached += 1;
+        }
+        if n_attached != self.graph.node_count() {
+            return Err(format_err!("Not all nodes are dominated by the root."));
+        }
         self.graph[root].set_span(Span::new(0, self.n_terminals))?;
         Ok(Tree::new_from_parts(
             self.graph,
@@ -202,6 +211,14 @@ impl Builder {
             .nt_indices
             .get(&self_id)
             .ok_or_else(|| format_err!("Nonterminal without children."))?;
+        if self_id == 0
+            || self
+                .graph
+                .edges_directed(self_idx, Direction::Incoming)
+                .any(|e| e.weight().is_primary())
+        {
+            return Err(format_err!("Second parent for nonterminal {}", self_id));
+        }
         read_required_string_field(parts.next())?;
 
         let mut label_parts = read_required_string_field(parts.next())?.split('=');
-- 
2.43.0


From 4866ad65d841a965d7ee92b8f5225c1617bf6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:55 +0000
Subject: [PATCH 24/36] fix: compute NEGRA spans from the complete tree,
 independent of the order of lines

---
 lumberjack/src/io/negra.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index c3b53f4..b326e1e 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -173,12 +173,15 @@ impl Builder {
             return Err(format_err!("Not all nodes are dominated by the root."));
         }
         self.graph[root].set_span(Span::new(0, self.n_terminals))?;
-        Ok(Tree::new_from_parts(
+        let mut tree = Tree::new_from_parts(
             self.graph,
             self.n_terminals,
             root,
             self.num_non_projective,
-        ))
+        );
+        // nonterminal lines are not necessarily ordered bottom-up
+        tree.reset_nt_spans();
+        Ok(tree)
     }
 
     /// Add the given line to the builder.
-- 
2.43.0


From ac24db275abeee7f9bddc65880ec90acf62f928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 25/36] fix: compare NEGRA sentence IDs numerically, leading
 zeros were stripped from only one of them

---
 lumberjack/src/io/negra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index b326e1e..62961e9 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -138,7 +138,7 @@ impl Builder {
         let mut parts = footer.split_whitespace();
         parts.next();
         let eos_id = read_required_string_field(parts.next()).map_err(|e| format_err!("{}", e))?;
-        if eos_id != self.sentence_id {
+        if eos_id.parse::<usize>().ok() != self.sentence_id.parse::<usize>().ok() {
             return Err(format_err!(
                 "IDs don't match: #BOS {} and #EOS {}",
                 self.sentence_id,
-- 
2.43.0


From b90f00d5307ed7e33ba3a6067ce4fc19cb04f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 26/36] fix: report a NEGRA sentence that is cut off by the end
 of input

---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 62961e9..13894e0 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -72,6 +72,9 @@ where
                 }
             }
         }
+        if cur.is_some() {
+            return Some(Err(format_err!("Found end of input before #EOS")));
+        }
         None
     }
 }
-- 
2.43.0


From aa44409934575ca948cc205fe74216feaf6b07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 27/36] fix: read '--' on secondary NEGRA edges as missing
 label, as on primary edges

---
 lumberjack/src/io/negra.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 13894e0..0e2211a 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -88,7 +88,7 @@ struct Builder {
     finished_terminals: bool,
     num_non_projective: usize,
     processed_nts: usize,
-    sec_edges: Vec<(usize, String, NodeIndex)>,
+    sec_edges: Vec<(usize, Option<String>, NodeIndex)>,
 }
 
 impl Builder {
@@ -156,7 +156,7 @@ impl Builder {
             self.graph.add_edge(
                 source,
                 target,
-                Edge::Secondary(Some(label)),
+                Edge::Secondary(label),
             );
         }
 
@@ -306,7 +306,12 @@ impl Builder {
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
         if let Some((label, id)) = Self::parse_optional_fields(parts)? {
-            self.sec_edges.push((id, label.to_string(), node_idx));
+            let label = if label == "--" {
+                None
+            } else {
+                Some(label.to_string())
+            };
+            self.sec_edges.push((id, label, node_idx));
         }
         Ok(())
     }
-- 
2.43.0


From 1f18d31d1a751e6c43c5799a2bf493b1aba8cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 28/36] fix: read and write all secondary edges of a node in
 NEGRA format, not just one

---
 lumberjack/src/io/negra.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 0e2211a..cccc5cc 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -305,7 +305,7 @@ impl Builder {
         };
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
-        if let Some((label, id)) = Self::parse_optional_fields(parts)? {
+        for (label, id) in Self::parse_optional_fields(parts)? {
             let label = if label == "--" {
                 None
             } else {
@@ -318,15 +318,13 @@ impl Builder {
 
     fn parse_optional_fields<'a>(
         mut parts: impl Iterator<Item = &'a str>,
-    ) -> Result<Option<(&'a str, usize)>, Error> {
-        if let Some(part) = parts.next() {
-            if !part.starts_with('%') {
-                let edge = part;
-                let id = read_required_numerical_field(parts.next())?;
-                return Ok(Some((edge, id)));
-            }
+    ) -> Result<Vec<(&'a str, usize)>, Error> {
+        let mut sec_edges = Vec::new();
+        while let Some(edge) = parts.next().filter(|part| !part.starts_with('%')) {
+            let id = read_required_numerical_field(parts.next())?;
+            sec_edges.push((edge, id));
         }
-        Ok(None)
+        Ok(sec_edges)
     }
 }
 
@@ -430,12 +428,19 @@ impl<W> NegraWriter<W> {
         edge_rep.push_str(&Self::pad(edge_rep.len(), 8));
         let id = id_map.get(&parent).unwrap();
         edge_rep.push_str(id);
-        if let Some((parent, sec_edge)) = tree.secondary_parent(idx) {
-            edge_rep.push_str(&Self::pad(id.len(), 8));
-            let label = tree[sec_edge].label().unwrap_or_else(|| "--");
+        let mut prev_len = id.len();
+        for sec_edge in tree
+            .graph()
+            .edges_directed(idx, Direction::Incoming)
+            .filter(|edge| !edge.weight().is_primary())
+        {
+            edge_rep.push_str(&Self::pad(prev_len, 8));
+            let label = sec_edge.weight().label().unwrap_or_else(|| "--");
             edge_rep.push_str(label);
             edge_rep.push_str(&Self::pad(label.len(), 8));
-            edge_rep.push_str(id_map.get(&parent).unwrap());
+            let id = id_map.get(&sec_edge.source()).unwrap();
+            edge_rep.push_str(id);
+            prev_len = id.len();
         }
 
         edge_rep
-- 
2.43.0


From d88771fb46f4ac6208d90e5cd999b93b03c9afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 29/36] fix: return Err for trees that NEGRA format can't
 represent instead of panicking

---
 lumberjack/src/io/negra.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index cccc5cc..8be7b5a 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -452,6 +452,15 @@ where
     W: Write,
 {
     fn write_tree(&mut self, tree: &Tree) -> Result<(), Error> {
+        if tree[tree.root()].is_terminal() {
+            return Err(format_err!("Can't write tree with a terminal as root."));
+        }
+        if tree
+            .terminals()
+            .any(|terminal| tree.secondary_children(terminal).next().is_some())
+        {
+            return Err(format_err!("Can't write terminals as secondary parents."));
+        }
         let sentence_id = if let Some(Some(sentence_id)) = tree[tree.root()]
             .features()
             .and_then(|f| f.get_val("sentence_id"))
-- 
2.43.0


From d7e08f824ab4d1c8fd7b6b52f45480a43c70d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:44 +0000
Subject: [PATCH 30/36] fix: don't truncate feature values containing ':' when
 parsing features

---
 lumberjack/src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/features.rs b/lumberjack/src/features.rs
index 523ec47..85b1385 100644
--- a/lumberjack/src/features.rs
+++ b/lumberjack/src/features.rs
@@ -21,7 +21,7 @@ where
             .split('|')
             .filter(|s| !s.is_empty())
             .map(|f| {
-                let mut parts = f.split(':');
+                let mut parts = f.splitn(2, ':');
                 let k = parts.next().unwrap();
                 let v = parts.next();
                 (k, v)
-- 
2.43.0


From 281b4cc3db57aa935029c51e9fe8f1e4bbed24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 31/36] fix: return Err instead of dropping secondary edges to
 the root in NEGRA format

---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 8be7b5a..5cdc2dd 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -461,6 +461,9 @@ where
         {
             return Err(format_err!("Can't write terminals as secondary parents."));
         }
+        if tree.secondary_parent(tree.root()).is_some() {
+            return Err(format_err!("Can't write secondary edges to the root."));
+        }
         let sentence_id = if let Some(Some(sentence_id)) = tree[tree.root()]
             .features()
             .and_then(|f| f.get_val("sentence_id"))
-- 
2.43.0


From 08736760639891726da1453717ff8e649f4a71b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:59 +0000
Subject: [PATCH 32/36] fix: don't truncate tags whose label contains ':' when
 reading CONLLX

---
 lumberjack/src/io/conllx.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 4209867..83c5e86 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -7,7 +7,7 @@ use failure::Error;
 
 use crate::io::encode::{AbsoluteAncestor, ConversionResult, RelativeAncestor};
 use crate::io::{AbsoluteEncoding, Decode, RelativeEncoding};
-use crate::{Terminal, Tree, UnaryChains, WriteTree};
+use crate::{Features as TreeFeatures, Terminal, Tree, UnaryChains, WriteTree};
 use std::io::Write;
 
 impl<W> WriteTree for Writer<W>
@@ -50,12 +50,12 @@ impl TryFromConllx for Tree {
         let mut encoding = Vec::with_capacity(sentence.len() - 1);
         let mut terminals = Vec::with_capacity(sentence.len() - 1);
         for (idx, token) in sentence.iter().filter_map(Node::token).enumerate() {
-            let ancestor = token
-                .features()
-                .and_then(|f| f.as_map().get("abs_ancestor"))
-                .ok_or_else(|| format_err!("Missing ancestor feature."))?
+            // `conllx::token::Features::as_map` truncates values containing ':'
+            let features = token.features().map(|f| TreeFeatures::from(f.as_str()));
+            let ancestor = features
                 .as_ref()
-                .map(String::as_str)
+                .and_then(|f| f.get_val("abs_ancestor"))
+                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                 .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
             let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
             terminals.push(terminal);
@@ -89,12 +89,12 @@ impl TryFromConllx for Tree {
         let mut encoding = Vec::with_capacity(sentence.len() - 1);
         let mut terminals = Vec::with_capacity(sentence.len() - 1);
         for (idx, token) in sentence.iter().filter_map(Node::token).enumerate() {
-            let ancestor = token
-                .features()
-                .and_then(|f| f.as_map().get("rel_ancestor"))
-                .ok_or_else(|| format_err!("Missing ancestor feature."))?
+            // `conllx::token::Features::as_map` truncates values containing ':'
+            let features = token.features().map(|f| TreeFeatures::from(f.as_str()));
+            let ancestor = features
                 .as_ref()
-                .map(String::as_str)
+                .and_then(|f| f.get_val("rel_ancestor"))
+                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                 .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
             let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
             terminals.push(terminal);
-- 
2.43.0


From 0a757867f20612c2acc3837b822ef2eb4e89d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 33/36] fix: keep all of an annotation or edge label that
 contains the separator

---
 lumberjack/src/io/negra.rs | 2 +-
 lumberjack/src/io/ptb.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 5cdc2dd..3666530 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -227,7 +227,7 @@ impl Builder {
         }
         read_required_string_field(parts.next())?;
 
-        let mut label_parts = read_required_string_field(parts.next())?.split('=');
+        let mut label_parts = read_required_string_field(parts.next())?.splitn(2, '=');
         let label = read_required_string_field(label_parts.next())?;
         self.graph[self_idx].set_label(label);
 
diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 8f81f02..e147804 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -246,10 +246,10 @@ impl PTBFormat {
                     }
                 }
                 PTBFormat::TueBa => {
-                    let mut parts = label.split(':');
+                    let mut parts = label.splitn(2, ':');
                     let tag = parts.next().unwrap();
                     let edge = parts.next().filter(|s| s != &"--");
-                    let mut label_parts = tag.split('=');
+                    let mut label_parts = tag.splitn(2, '=');
                     let label = label_parts.next().unwrap();
                     let annotation = label_parts.next();
                     Ok((label, edge, annotation))
-- 
2.43.0


From 59cc6a60bd514931b61a0e8a608d8c0a558c51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 34/36] fix: keep annotations of tokens in bracket formats

---
 lumberjack/src/io/ptb.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index e147804..2e678af 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -100,7 +100,7 @@ impl PTBFormat {
         let sent = sentence.graph();
 
         match &sent[position] {
-            Node::Terminal(terminal) => self.fmt_term(terminal.form(), terminal.label(), edge),
+            Node::Terminal(terminal) => self.fmt_term(terminal, edge),
             Node::NonTerminal(nt) => {
                 let mut nodes = sentence.children(position).collect::<Vec<_>>();
                 nodes.sort_by(|(child1, _), (child2, _)| {
@@ -147,9 +147,19 @@ impl PTBFormat {
         representation
     }
 
-    fn fmt_term(&self, form: &str, pos: &str, edge: Option<&str>) -> String {
+    fn fmt_term(&self, terminal: &Terminal, edge: Option<&str>) -> String {
+        let mut pos = terminal.label().to_string();
+        let annotation = terminal
+            .features()
+            .and_then(|f| f.get_val(NODE_ANNOTATION_FEATURE_KEY))
+            .unwrap_or(None);
+        match (self, annotation) {
+            (PTBFormat::PTB, Some(annotation)) => pos = format!("{}-{}", pos, annotation),
+            (PTBFormat::TueBa, Some(annotation)) => pos = format!("{}={}", pos, annotation),
+            _ => (),
+        }
         let pos = pos.replace("(", "LBR").replace(")", "RBR");
-        let form = form.replace("(", "LBR").replace(")", "RBR");
+        let form = terminal.form().replace("(", "LBR").replace(")", "RBR");
         if let PTBFormat::TueBa = self {
             let edge = edge.unwrap_or("--");
             format!("({}:{} {})", pos, edge, form)
@@ -195,8 +205,15 @@ impl PTBFormat {
                 Ok((span, nt_idx, Edge::new_primary(edge)))
             }
             Rule::preterminal => {
-                let (edge, pos, form) = self.process_preterminal(pair)?;
-                let term_idx = g.add_node(Node::Terminal(Terminal::new(form, pos, *terminals)));
+                let (edge, pos, annotation, form) = self.process_preterminal(pair)?;
+                let mut terminal = Terminal::new(form, pos, *terminals);
+                if annotation.is_some() {
+                    terminal.features_mut().insert(
+                        NODE_ANNOTATION_FEATURE_KEY,
+                        annotation.map(ToOwned::to_owned),
+                    );
+                }
+                let term_idx = g.add_node(Node::Terminal(terminal));
                 let span = Span::from(*terminals);
                 *terminals += 1;
                 Ok((span, term_idx, Edge::new_primary(edge)))
@@ -208,18 +225,18 @@ impl PTBFormat {
         }
     }
 
-    // Preterminal consists of POS, optional Edge label and Terminal
+    // Preterminal consists of POS, optional Edge label, optional annotation and Terminal
     fn process_preterminal<'a>(
         &self,
         pair: Pair<'a, Rule>,
-    ) -> Result<(Option<&'a str>, &'a str, &'a str), Error> {
+    ) -> Result<(Option<&'a str>, &'a str, Option<&'a str>, &'a str), Error> {
         let mut pairs = pair.into_inner();
         let pos = pairs.next().unwrap();
-        let (tag, edge, _) = self.process_label(pos)?;
+        let (tag, edge, annotation) = self.process_label(pos)?;
 
         let form = pairs.next().unwrap();
         if let Rule::terminal = form.as_rule() {
-            Ok((edge, tag, form.as_str()))
+            Ok((edge, tag, annotation, form.as_str()))
         } else {
             Err(format_err!(
                 "Preterminal not starting with form: {}",
-- 
2.43.0


From 9a46792d73fffcd469c2ea0a3f4c887ed134f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 35/36] fix: compare trees with an explicit stack, recursion
 overflowed on deep trees

---
 lumberjack/src/tree.rs | 55 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 887c2e2..83c2fb8 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -775,35 +775,36 @@ impl Tree {
     }
 }
 
-// recursively check if at each level the trees are identical.
+// check if at each level the trees are identical.
 fn subtree_eq(tree_1_idx: NodeIndex, tree_1: &Tree, tree_2_idx: NodeIndex, tree_2: &Tree) -> bool {
-    let mut nodes1 = tree_1
-        .children(tree_1_idx)
-        .map(|(n, _)| n)
-        .collect::<Vec<_>>();
-    tree_1.sort_indices(&mut nodes1);
-    let mut nodes2 = tree_2
-        .children(tree_2_idx)
-        .map(|(n, _)| n)
-        .collect::<Vec<_>>();
-    tree_2.sort_indices(&mut nodes2);
-
-    for (node1, node2) in nodes1.into_iter().zip(nodes2) {
-        if tree_1[node1] != tree_2[node2] {
-            return false;
-        }
-        let p1 = tree_1
-            .parent(node1)
-            .map(|(parent_id, edge_id)| (&tree_1[parent_id], &tree_1[edge_id]));
-        let p2 = tree_2
-            .parent(node2)
-            .map(|(parent_id, edge_id)| (&tree_2[parent_id], &tree_2[edge_id]));
-        if p1 != p2 {
-            return false;
-        }
+    // explicit stack since recursion would be as deep as the trees
+    let mut stack = vec![(tree_1_idx, tree_2_idx)];
+    while let Some((tree_1_idx, tree_2_idx)) = stack.pop() {
+        let mut nodes1 = tree_1
+            .children(tree_1_idx)
+            .map(|(n, _)| n)
+            .collect::<Vec<_>>();
+        tree_1.sort_indices(&mut nodes1);
+        let mut nodes2 = tree_2
+            .children(tree_2_idx)
+            .map(|(n, _)| n)
+            .collect::<Vec<_>>();
+        tree_2.sort_indices(&mut nodes2);
 
-        if !subtree_eq(node1, tree_1, node2, tree_2) {
-            return false;
+        for (node1, node2) in nodes1.into_iter().zip(nodes2) {
+            if tree_1[node1] != tree_2[node2] {
+                return false;
+            }
+            let p1 = tree_1
+                .parent(node1)
+                .map(|(parent_id, edge_id)| (&tree_1[parent_id], &tree_1[edge_id]));
+            let p2 = tree_2
+                .parent(node2)
+                .map(|(parent_id, edge_id)| (&tree_2[parent_id], &tree_2[edge_id]));
+            if p1 != p2 {
+                return false;
+            }
+            stack.push((node1, node2));
         }
     }
     true
-- 
2.43.0


From 14295653ae9b94e699dedfd8c760ca5b8f6d731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:41 +0000
Subject: [PATCH 36/36] fix: write bracketed trees with an explicit stack,
 recursion overflowed on deep trees

---
 lumberjack/src/io/ptb.rs | 49 ++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 2e678af..ba7ccce 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -98,23 +98,42 @@ impl PTBFormat {
 
     fn format_sub_tree(&self, sentence: &Tree, position: NodeIndex, edge: Option<&str>) -> String {
         let sent = sentence.graph();
-
-        match &sent[position] {
-            Node::Terminal(terminal) => self.fmt_term(terminal, edge),
-            Node::NonTerminal(nt) => {
-                let mut nodes = sentence.children(position).collect::<Vec<_>>();
-                nodes.sort_by(|(child1, _), (child2, _)| {
-                    sentence[*child1].span().cmp(sentence[*child2].span())
-                });
-                let mut sub_tree_rep = Vec::with_capacity(nodes.len());
-                sub_tree_rep.push(self.fmt_inner(nt, edge));
-                sub_tree_rep.extend(nodes.into_iter().map(|(child, edge)| {
-                    self.format_sub_tree(sentence, child, sentence[edge].label())
-                }));
-                let node_sep = if let PTBFormat::TueBa = self { "" } else { " " };
-                format!("({})", sub_tree_rep.join(node_sep))
+        let node_sep = if let PTBFormat::TueBa = self { "" } else { " " };
+
+        // explicit stack since recursion would be as deep as the tree, None closes a bracket
+        let mut representation = String::new();
+        let mut stack = vec![Some((position, edge))];
+        while let Some(item) = stack.pop() {
+            let (position, edge) = match item {
+                Some(item) => item,
+                None => {
+                    representation.push(')');
+                    continue;
+                }
+            };
+            if !representation.is_empty() {
+                representation.push_str(node_sep);
+            }
+            match &sent[position] {
+                Node::Terminal(terminal) => representation += &self.fmt_term(terminal, edge),
+                Node::NonTerminal(nt) => {
+                    let mut nodes = sentence.children(position).collect::<Vec<_>>();
+                    nodes.sort_by(|(child1, _), (child2, _)| {
+                        sentence[*child1].span().cmp(sentence[*child2].span())
+                    });
+                    representation.push('(');
+                    representation += &self.fmt_inner(nt, edge);
+                    stack.push(None);
+                    stack.extend(
+                        nodes
+                            .into_iter()
+                            .rev()
+                            .map(|(child, edge)| Some((child, sentence[edge].label()))),
+                    );
+                }
             }
         }
+        representation
     }
 
     fn fmt_inner(&self, nt: &NonTerminal, edge: Option<&str>) -> String {
-- 
2.43.0

