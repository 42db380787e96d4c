From f00d181524a952272489e457469e7f6a1c6eec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 01/28] fix: resolving a position in a leaf or text node
 returns an error instead of panicking

---
 src/model/resolved_pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..68b76f7 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -200,7 +200,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
-- 
2.43.0


From 03101a654b69dfcba01ba128e3a93003bf0f7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 02/28] fix: positions inside a surrogate pair are refused
 instead of panicking later

---
 src/model/resolved_pos.rs |  8 ++++++--
 src/model/util.rs         | 12 ++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 68b76f7..8d84233 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Fragment, Node, Schema};
+use super::{fragment::IndexError, util, Fragment, Node, Schema};
 use derivative::Derivative;
 use displaydoc::Display;
 use std::borrow::Cow;
@@ -223,7 +223,11 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
                 break;
             }
             node = node.child(index).unwrap();
-            if node.is_text() {
+            if let Some(text_node) = node.text_node() {
+                if !util::is_utf16_boundary(text_node.text.as_str(), rem) {
+                    // in the middle of a surrogate pair
+                    return Err(ResolveErr::RangeError { pos });
+                }
                 break;
             }
             parent_offset = rem - 1;
diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..cbd0caa 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -33,3 +33,15 @@ pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
     let mid = text.len() - iter.as_str().len();
     text.split_at(mid)
 }
+
+/// Whether the given UTF-16 offset lies between two characters (or at an end) of the text
+pub fn is_utf16_boundary(text: &str, index: usize) -> bool {
+    let mut offset = 0;
+    for c in text.chars() {
+        if offset >= index {
+            break;
+        }
+        offset += c.len_utf16();
+    }
+    offset == index
+}
-- 
2.43.0


From 9987310bd19acb53beb1e36f4540c9a252baddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 03/28] fix: an unbounded range in slice and replace ends at
 the end of the content

---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..a11a51e 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -160,8 +160,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         assert!(to >= from, "replace: {} >= {}", to, from);
 
-- 
2.43.0


From cc74e7b9b56ae344a6cfda5ab74cdebf3c2b8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 04/28] fix: replacing a reversed range returns an error
 instead of panicking

---
 src/model/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index a11a51e..b5eb982 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -162,7 +162,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let from = util::from(&range);
         let to = util::to(&range, self.content_size());
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if from > to {
+            return Err(ResolveErr::RangeError { pos: from }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
-- 
2.43.0


From b7cb21229d17125e7fcba137536e0af55f9bb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 05/28] fix: replacing with a slice whose open depths do not
 fit its content or the document returns an error instead of panicking

---
 src/model/replace.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..1432611 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -45,6 +45,24 @@ impl<S: Schema> Slice<S> {
         }
     }
 
+    /// Whether there are nodes of at least the given open depths at both sides of the content
+    fn is_well_formed(&self) -> bool {
+        fn open_depth<'a, S: Schema>(
+            content: &'a Fragment<S>,
+            side: fn(&'a Fragment<S>) -> Option<&'a S::Node>,
+        ) -> usize {
+            let mut depth = 0;
+            let mut content = content;
+            while let Some(inner) = side(content).and_then(Node::content) {
+                content = inner;
+                depth += 1;
+            }
+            depth
+        }
+        self.open_start <= open_depth(&self.content, Fragment::first_child)
+            && self.open_end <= open_depth(&self.content, Fragment::last_child)
+    }
+
     pub(crate) fn insert_at(
         &self,
         pos: usize,
@@ -140,7 +158,10 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if slice.open_end > rp_to.depth
+        || rp_from.depth - slice.open_start != rp_to.depth - slice.open_end
+        || !slice.is_well_formed()
+    {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From d06476fbe495cec0a2fd323c297f3cd9baac9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 06/28] fix: structure steps with a reversed range return an
 error instead of panicking

---
 src/transform/replace_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..fe8b22e 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,7 +78,7 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
-    let mut dist = to - from;
+    let mut dist = to.saturating_sub(from);
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 912ad7856edbd2a47ab1354fd42c0e65cbdbd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 07/28] fix: structure steps must not overwrite the rest of a
 text they start in

---
 src/transform/replace_step.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index fe8b22e..c651361 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -80,6 +80,10 @@ fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<b
     let rp_from = doc.resolve(from)?;
     let mut dist = to.saturating_sub(from);
     let mut depth = rp_from.depth;
+    if dist > 0 && rp_from.text_offset() > 0 {
+        // starts within a text node, the rest of which is content
+        return Ok(true);
+    }
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
         dist -= 1;
-- 
2.43.0


From 91ce0e709ebb733a3de4fb13ad3ebd668120eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 08/28] fix: removing a mark leaves a different mark of the
 same type alone

---
 src/model/marks.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..a207488 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -48,7 +48,9 @@ impl<S: Schema> MarkSet<S> {
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
             Ok(index) => {
-                self.content.remove(index);
+                if &self.content[index] == mark {
+                    self.content.remove(index);
+                }
             }
             Err(_index) => {}
         }
@@ -138,9 +140,13 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
             Ok(index) => {
-                let mut owned_set = set.into_owned();
-                owned_set.content.remove(index);
-                Cow::Owned(owned_set)
+                if &set.content[index] == self {
+                    let mut owned_set = set.into_owned();
+                    owned_set.content.remove(index);
+                    Cow::Owned(owned_set)
+                } else {
+                    set
+                }
             }
             Err(_index) => set,
         }
-- 
2.43.0


From 00deab3639c59e0463da2393b37a49705cdfe67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 09/28] fix: traversing or extracting a range stops at its end
 instead of underflowing

---
 src/model/fragment.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..2c1c9e7 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -145,13 +145,16 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
-                        usize::min(content.size(), to - start),
+                        from.saturating_sub(start),
+                        usize::min(content.size(), to.saturating_sub(start)),
                         f,
                         node_start + start,
                     )
-- 
2.43.0


From 2f76d62075b7e3d1c3e5f6a188868d6ee183eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 10/28] fix: every node type allows an empty set of marks

---
 src/markdown/schema.rs | 4 ++--
 src/model/marks.rs     | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..93867c8 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -61,8 +61,8 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        marks.is_empty() || self._allow_marks()
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
diff --git a/src/model/marks.rs b/src/model/marks.rs
index a207488..7a5c62f 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -19,6 +19,11 @@ pub struct MarkSet<S: Schema> {
 }
 
 impl<S: Schema> MarkSet<S> {
+    /// Check whether there are no marks in the set
+    pub fn is_empty(&self) -> bool {
+        self.content.is_empty()
+    }
+
     /// Check whether the set contains this exact mark
     pub fn contains(&self, mark: &S::Mark) -> bool {
         self.content.contains(mark)
-- 
2.43.0


From ee9da4ce5bdcc74cd5e79fe089fe4b88e1bfad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 11/28] fix: text nodes of the markdown schema report their
 marks, so that mark steps keep the others and validity checks see them

---
 src/markdown/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..e806015 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,7 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        self.text_node().map(|text_node| &text_node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
-- 
2.43.0


From cdc1375acff0aa3023f4a4a10e55b80876b80f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 12/28] fix: mark steps join adjacent texts that end up with
 the same marks

---
 src/transform/mark_step.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..0fefe99 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -8,32 +8,34 @@ fn map_fragment_parent<S: Schema, F>(fragment: &Fragment<S>, f: &F, parent: &S::
 where
     F: Fn(S::Node, &S::Node, usize) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for (i, child) in fragment.children().iter().enumerate() {
         let mut child = child.copy(|c| map_fragment_parent(c, f, &*child));
 
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        // joins texts which now have the same marks
+        mapped = mapped.append(Fragment::from(vec![child]));
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 fn map_fragment<S: Schema, F>(fragment: &Fragment<S>, f: &F) -> Fragment<S>
 where
     F: Fn(S::Node) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for child in fragment.children() {
         let mut child = child.copy(|c| map_fragment(c, f));
 
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        // joins texts which now have the same marks
+        mapped = mapped.append(Fragment::from(vec![child]));
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 /// Adding a mark on some part of the document
-- 
2.43.0


From 8f6e4bfee311b74f33695c16599a9a51cdb56ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 13/28] fix: inserting a gap at an impossible position of the
 slice returns an error instead of panicking

---
 src/model/replace.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 1432611..4ea8801 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Index};
+use super::{fragment::IndexError, util, Index};
 use crate::model::{ContentMatchError, Fragment, Node, NodeType, ResolveErr, ResolvedPos, Schema};
 use crate::util::EitherOrBoth;
 use derivative::Derivative;
@@ -68,7 +68,10 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let dist = pos
+            .checked_add(self.open_start)
+            .ok_or(IndexError::OutOfBounds(pos))?;
+        let content = insert_into(&self.content, dist, fragment, None)?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -90,6 +93,12 @@ fn insert_into<S: Schema>(
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
+    if let Some(text_node) = child.and_then(Node::text_node) {
+        if offset < dist && !util::is_utf16_boundary(text_node.text.as_str(), dist - offset) {
+            // in the middle of a surrogate pair
+            return Err(IndexError::OutOfBounds(dist).into());
+        }
+    }
     if offset == dist || matches!(child, Some(c) if c.is_text()) {
         if let Some(p) = parent {
             if !p.can_replace(index, index, Some(&insert), ..)? {
-- 
2.43.0


From c0fe786250e17a9ebac59320e7055f5b8f271a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 14/28] fix: a gap is only inserted where the closed nodes of
 the slice stay valid

---
 src/model/replace.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 4ea8801..12e5e73 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -71,7 +71,14 @@ impl<S: Schema> Slice<S> {
         let dist = pos
             .checked_add(self.open_start)
             .ok_or(IndexError::OutOfBounds(pos))?;
-        let content = insert_into(&self.content, dist, fragment, None)?;
+        let content = insert_into(
+            &self.content,
+            dist,
+            fragment,
+            None,
+            self.open_start,
+            self.open_end,
+        )?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -90,6 +97,8 @@ fn insert_into<S: Schema>(
     dist: usize,
     insert: Fragment<S>,
     parent: Option<&S::Node>,
+    open_start: usize,
+    open_end: usize,
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
@@ -114,11 +123,24 @@ fn insert_into<S: Schema>(
         ))
     } else {
         let child = child.unwrap(); // supposed to be safe, because of offset != diff
+        let open_start = if index == 0 { open_start } else { 0 };
+        let open_end = if index + 1 == content.child_count() {
+            open_end
+        } else {
+            0
+        };
         let inner = insert_into(
             child.content().unwrap_or(Fragment::EMPTY_REF),
             dist - offset - 1,
             insert,
-            None,
+            // open nodes are checked when the slice is put in place
+            if open_start == 0 && open_end == 0 {
+                Some(child)
+            } else {
+                None
+            },
+            open_start.saturating_sub(1),
+            open_end.saturating_sub(1),
         )?;
         if let Some(i) = inner {
             Ok(Some(
-- 
2.43.0


From e8757b571ba0f4a29abbe3c08eb08bf23ba10fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 15/28] fix: imported Markdown text carries the marks of every
 enclosing element, also after a nested one ends

---
 src/markdown/from_markdown.rs | 38 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..06d62b1 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -49,7 +49,8 @@ pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
 #[derive(Default)]
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
-    mark_set: MarkSet<MD>,
+    /// The marks that are open at the current position, from the outside in
+    marks: Vec<MarkdownMark>,
 }
 
 impl MarkdownDeserializer {
@@ -80,6 +81,15 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// The set of the open marks
+    fn mark_set(&self) -> MarkSet<MD> {
+        let mut set = MarkSet::default();
+        for mark in &self.marks {
+            set.add(mark);
+        }
+        set
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -140,16 +150,16 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.add(&MarkdownMark::Em);
+                        self.marks.push(MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.add(&MarkdownMark::Strong);
+                        self.marks.push(MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
                     Tag::Link(_, href, title) => {
-                        self.mark_set.add(&MarkdownMark::Link {
+                        self.marks.push(MarkdownMark::Link {
                             attrs: LinkAttrs {
                                 href: href.to_string(),
                                 title: title.to_string(),
@@ -260,21 +270,15 @@ impl MarkdownDeserializer {
                     Tag::TableCell => {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
-                    Tag::Emphasis => {
-                        self.mark_set.remove(&MarkdownMark::Em);
-                    }
-                    Tag::Strong => {
-                        self.mark_set.remove(&MarkdownMark::Strong);
+                    Tag::Emphasis | Tag::Strong => {
+                        self.marks.pop();
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
-                    Tag::Link(_, href, title) => self.mark_set.remove(&MarkdownMark::Link {
-                        attrs: LinkAttrs {
-                            href: href.to_string(),
-                            title: title.to_string(),
-                        },
-                    }),
+                    Tag::Link(_, _, _) => {
+                        self.marks.pop();
+                    }
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Image(attrs) = attrs {
@@ -291,11 +295,11 @@ impl MarkdownDeserializer {
                 Event::Text(text) => {
                     self.add_content(MarkdownNode::Text(TextNode {
                         text: Text::from(text.to_string()),
-                        marks: self.mark_set.clone(),
+                        marks: self.mark_set(),
                     }))?;
                 }
                 Event::Code(text) => {
-                    let mut marks = self.mark_set.clone();
+                    let mut marks = self.mark_set();
                     marks.add(&MarkdownMark::Code);
                     self.add_content(MarkdownNode::Text(TextNode {
                         text: Text::from(text.to_string()),
-- 
2.43.0


From f5869cef271157d2933a420e56cb3a4541eebc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 16/28] fix: adjacent pieces of imported Markdown text with
 equal marks become one text, and none is empty

---
 src/markdown/from_markdown.rs | 32 ++++++++++++++++++++++++--------
 src/model/node.rs             |  6 ++++++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 06d62b1..eb23a5b 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -90,6 +90,25 @@ impl MarkdownDeserializer {
         set
     }
 
+    /// Add text, merging it with the text before it if both have the same marks
+    fn add_text(&mut self, text: &str, marks: MarkSet<MD>) -> Result<(), FromMarkdownError> {
+        if text.is_empty() {
+            return Ok(());
+        }
+        let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        if let Some(MarkdownNode::Text(node)) = last.0.last_mut() {
+            if node.marks == marks {
+                node.text.push_str(text);
+                return Ok(());
+            }
+        }
+        last.0.push(MarkdownNode::Text(TextNode {
+            text: Text::from(text.to_string()),
+            marks,
+        }));
+        Ok(())
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -214,6 +233,9 @@ impl MarkdownDeserializer {
                         if let Attrs::CodeBlock(attrs) = attrs {
                             if let Some(MarkdownNode::Text(t)) = content.last_mut() {
                                 t.text.remove_last_newline();
+                                if t.text.as_str().is_empty() {
+                                    content.pop();
+                                }
                             }
                             let cb = MarkdownNode::CodeBlock(AttrNode {
                                 attrs,
@@ -293,18 +315,12 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks: self.mark_set(),
-                    }))?;
+                    self.add_text(&text, self.mark_set())?;
                 }
                 Event::Code(text) => {
                     let mut marks = self.mark_set();
                     marks.add(&MarkdownMark::Code);
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks,
-                    }))?;
+                    self.add_text(&text, marks)?;
                 }
                 Event::Html(_) => {
                     return Err(FromMarkdownError::NotSupported("Html"));
diff --git a/src/model/node.rs b/src/model/node.rs
index b5eb982..07c6b22 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -323,6 +323,12 @@ impl Text {
         Text { len_utf16, content }
     }
 
+    #[cfg(feature = "cmark")]
+    pub(crate) fn push_str(&mut self, text: &str) {
+        self.content.push_str(text);
+        self.len_utf16 += text.encode_utf16().count();
+    }
+
     #[cfg(feature = "cmark")]
     pub(crate) fn remove_last_newline(&mut self) {
         if let Some('\n') = self.content.chars().next_back() {
-- 
2.43.0


From 538a1254fb8d0960fc7d07e1564ea6274d86ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 17/28] fix: imported list items, quotes and documents have the
 blocks that the schema requires

---
 src/markdown/from_markdown.rs | 53 +++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index eb23a5b..6a89cb5 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -109,9 +109,38 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// The items of tight lists contain text without a paragraph around it: open one
+    fn open_paragraph(&mut self) {
+        if let Some((_, Attrs::ListItem)) = self.stack.last() {
+            self.push_stack(Attrs::Paragraph);
+        }
+    }
+
+    /// Close a paragraph that was opened for the text of a tight list item
+    fn close_paragraph(&mut self) -> Result<(), FromMarkdownError> {
+        if let Some((_, Attrs::Paragraph)) = self.stack.last() {
+            let (content, _) = self.pop_stack()?;
+            self.add_content(MarkdownNode::Paragraph(Block {
+                content: Fragment::from(content),
+            }))?;
+        }
+        Ok(())
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
+            match &event {
+                Event::Text(_)
+                | Event::Code(_)
+                | Event::HardBreak
+                | Event::Start(Tag::Image(..)) => self.open_paragraph(),
+                Event::Start(Tag::Emphasis)
+                | Event::Start(Tag::Strong)
+                | Event::Start(Tag::Link(..)) => {}
+                Event::Start(_) | Event::Rule | Event::End(Tag::Item) => self.close_paragraph()?,
+                _ => {}
+            }
             match event {
                 Event::Start(tag) => match tag {
                     Tag::Paragraph => {
@@ -221,7 +250,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Blockquote = attrs {
                             let b = MarkdownNode::Blockquote(Block {
-                                content: Fragment::from(content),
+                                content: Fragment::from(at_least_one_block(content)),
                             });
                             self.add_content(b)?;
                         } else {
@@ -269,8 +298,12 @@ impl MarkdownDeserializer {
                         }
                     }
                     Tag::Item => {
-                        let (content, attrs) = self.pop_stack()?;
+                        let (mut content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
+                            // items always start with a paragraph
+                            if !matches!(content.first(), Some(MarkdownNode::Paragraph(_))) {
+                                content.insert(0, empty_paragraph());
+                            }
                             let cb = MarkdownNode::ListItem(Block {
                                 content: Fragment::from(content),
                             });
@@ -345,7 +378,7 @@ impl MarkdownDeserializer {
         let (content, attrs) = self.pop_stack()?;
         if let Attrs::Doc = attrs {
             Ok(MarkdownNode::Doc(Block {
-                content: Fragment::from(content),
+                content: Fragment::from(at_least_one_block(content)),
             }))
         } else {
             Err(FromMarkdownError::MisplacedEndTag("Doc", attrs))
@@ -353,6 +386,20 @@ impl MarkdownDeserializer {
     }
 }
 
+fn empty_paragraph() -> MarkdownNode {
+    MarkdownNode::Paragraph(Block {
+        content: Fragment::default(),
+    })
+}
+
+/// Documents and quotes can't be empty
+fn at_least_one_block(mut content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
+    if content.is_empty() {
+        content.push(empty_paragraph());
+    }
+    content
+}
+
 #[cfg(test)]
 mod tests {
     use pulldown_cmark::{CowStr, Event, Parser, Tag};
-- 
2.43.0


From e9b6b6c0f36982b765c33ea464c836b95f808c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 18/28] fix: the description of an imported image is its
 alternative text instead of an error

---
 src/markdown/from_markdown.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 6a89cb5..dee1467 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -96,6 +96,11 @@ impl MarkdownDeserializer {
             return Ok(());
         }
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        if let Attrs::Image(image) = &mut last.1 {
+            // the description of an image is plain text
+            image.alt.push_str(text);
+            return Ok(());
+        }
         if let Some(MarkdownNode::Text(node)) = last.0.last_mut() {
             if node.marks == marks {
                 node.text.push_str(text);
@@ -217,7 +222,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -340,8 +345,12 @@ impl MarkdownDeserializer {
                             if content.len() > 0 {
                                 return Err(FromMarkdownError::NoChildrenAllowed("Image"));
                             }
-                            let cb = MarkdownNode::Image(Leaf { attrs });
-                            self.add_content(cb)?;
+                            if let Some((_, Attrs::Image(outer))) = self.stack.last_mut() {
+                                // an image within the description of another one
+                                outer.alt.push_str(&attrs.alt);
+                            } else {
+                                self.add_content(MarkdownNode::Image(Leaf { attrs }))?;
+                            }
                         } else {
                             return Err(FromMarkdownError::MisplacedEndTag("Image", attrs));
                         }
-- 
2.43.0


From be2bbf695a8b2124d3a97c67d64c55efb82e4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 19/28] fix: a line break in an imported heading is refused,
 since the schema has no place for it

---
 src/markdown/from_markdown.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index dee1467..cc15615 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -374,6 +374,9 @@ impl MarkdownDeserializer {
                     return Err(FromMarkdownError::NotSupported("SoftBreak"));
                 }
                 Event::HardBreak => {
+                    if let Some((_, Attrs::Heading(_))) = self.stack.last() {
+                        return Err(FromMarkdownError::NotSupported("HardBreak in Heading"));
+                    }
                     self.add_content(MarkdownNode::HardBreak)?;
                 }
                 Event::Rule => {
-- 
2.43.0


From f06ec0eaa39764dfbdbfaeeb41ddaf9a882bf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 20/28] fix: exported marks are closed where they end and nest
 by how far they reach

---
 src/markdown/to_markdown.rs | 68 +++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..6011dd8 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -1,5 +1,5 @@
 use super::{MarkdownMark, MarkdownNode, MD};
-use crate::model::{AttrNode, Block, Fragment, Leaf, Node};
+use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Node};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, CowStr, Event, InlineStr, LinkType, Tag};
 use pulldown_cmark_to_cmark::cmark;
@@ -56,6 +56,48 @@ fn mark_tag(mark: &MarkdownMark) -> Tag {
 }
 
 impl<'a> MarkdownSerializer<'a> {
+    /// The nodes that follow the current one in its parent
+    fn following(&self) -> &'a [MarkdownNode] {
+        match self.inner.last() {
+            Some((parent, next)) => parent.content().map_or(&[], |c| &c.children()[*next..]),
+            None => &[],
+        }
+    }
+
+    /// Take the innermost open mark if it or one around it has to be closed, so that only marks in
+    /// the given set remain
+    fn close_mark(&mut self, keep: Option<&MarkSet<MD>>) -> Option<&'a MarkdownMark> {
+        let keeps = |mark: &MarkdownMark| keep.map_or(false, |set| set.contains(mark));
+        if self.marks.iter().all(|mark| keeps(mark)) {
+            None
+        } else {
+            self.marks.pop()
+        }
+    }
+
+    /// The next mark to open for a text with the given marks. Marks that end later are opened first,
+    /// so that the marks nest.
+    fn next_mark(&self, marks: &'a MarkSet<MD>) -> Option<&'a MarkdownMark> {
+        let following = self.following();
+        let length = |mark: &MarkdownMark| {
+            following
+                .iter()
+                .filter_map(MarkdownNode::text_node)
+                .take_while(|text| text.marks.contains(mark))
+                .count()
+        };
+        let mut next: Option<(&'a MarkdownMark, usize)> = None;
+        for mark in marks {
+            if *mark != MarkdownMark::Code && !self.marks.contains(&mark) {
+                let len = length(mark);
+                if next.map_or(true, |(_, max)| len > max) {
+                    next = Some((mark, len));
+                }
+            }
+        }
+        next.map(|(mark, _)| mark)
+    }
+
     fn process_content(
         &mut self,
         index: usize,
@@ -137,24 +179,16 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::Text(text_node) => {
-                    if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
-                            self.inner.push((node, index));
-                            self.marks.pop();
-                            return Some(Event::End(mark_tag(last)));
-                        }
+                    if let Some(mark) = self.close_mark(Some(&text_node.marks)) {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
                     }
-                    let mut is_code = false;
-                    for mark in &text_node.marks {
-                        if *mark == MarkdownMark::Code {
-                            is_code = true;
-                        } else if !self.marks.contains(&mark) {
-                            self.inner.push((node, index));
-                            self.marks.push(mark);
-                            return Some(Event::Start(mark_tag(mark)));
-                        }
+                    if let Some(mark) = self.next_mark(&text_node.marks) {
+                        self.inner.push((node, index));
+                        self.marks.push(mark);
+                        return Some(Event::Start(mark_tag(mark)));
                     }
-                    if is_code {
+                    if text_node.marks.contains(&MarkdownMark::Code) {
                         Some(Event::Code(CowStr::Borrowed(text_node.text.as_str())))
                     } else {
                         Some(Event::Text(CowStr::Borrowed(text_node.text.as_str())))
-- 
2.43.0


From 0befb3c6ddccf81a6d2163ccdf6df6d31bcf0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 21/28] fix: marks are closed before an exported line break
 unless they continue after it

---
 src/markdown/to_markdown.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 6011dd8..b762ee1 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -64,6 +64,12 @@ impl<'a> MarkdownSerializer<'a> {
         }
     }
 
+    /// The marks of the next text in the parent of the current node
+    fn following_marks(&self) -> Option<&'a MarkSet<MD>> {
+        let mut texts = self.following().iter().filter_map(MarkdownNode::text_node);
+        texts.next().map(|text| &text.marks)
+    }
+
     /// Take the innermost open mark if it or one around it has to be closed, so that only marks in
     /// the given set remain
     fn close_mark(&mut self, keep: Option<&MarkSet<MD>>) -> Option<&'a MarkdownMark> {
@@ -213,7 +219,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 }
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
                 MarkdownNode::HardBreak => {
-                    // todo: inline marks
+                    if let Some(mark) = self.close_mark(self.following_marks()) {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-- 
2.43.0


From e600b9fb7a19b17b4d37d4784fbe8cc693c6b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 22/28] fix: exported images keep their title and alternative
 text

---
 src/markdown/to_markdown.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index b762ee1..7db5bcf 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -226,13 +226,21 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-                    self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
-                        Tag::Image(
-                            LinkType::Inline,
-                            CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
-                        )
-                    })
+                    if let Some(mark) = self.close_mark(self.following_marks()) {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
+                    let tag = Tag::Image(
+                        LinkType::Inline,
+                        CowStr::Borrowed(attrs.src.as_str()),
+                        CowStr::Borrowed(attrs.title.as_str()),
+                    );
+                    self.stack.push(Event::End(tag.clone()));
+                    if !attrs.alt.is_empty() {
+                        self.stack
+                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    }
+                    Some(Event::Start(tag))
                 }
             }
         } else {
-- 
2.43.0


From 005d52427b8d72eb186d89b243ef146d24f910cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 23/28] fix: exported list items that start with an empty
 paragraph keep the blocks after it

---
 src/markdown/to_markdown.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 7db5bcf..fa28485 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -88,6 +88,7 @@ impl<'a> MarkdownSerializer<'a> {
         let length = |mark: &MarkdownMark| {
             following
                 .iter()
+                .take_while(|node| !matches!(node, MarkdownNode::HardBreak))
                 .filter_map(MarkdownNode::text_node)
                 .take_while(|text| text.marks.contains(mark))
                 .count()
@@ -215,11 +216,17 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::ListItem(Block { content }) => {
+                    if index == 0 && starts_with_empty_paragraph(content) {
+                        // an empty line would end the item: start with the next block
+                        self.inner.push((node, 1));
+                        return Some(Event::Start(Tag::Item));
+                    }
                     self.process_attr_node(index, content, &(), node, |()| Tag::Item)
                 }
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
                 MarkdownNode::HardBreak => {
-                    if let Some(mark) = self.close_mark(self.following_marks()) {
+                    // marks that continue are opened again on the next line
+                    if let Some(mark) = self.marks.pop() {
                         self.inner.push((node, index));
                         return Some(Event::End(mark_tag(mark)));
                     }
@@ -249,6 +256,14 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
     }
 }
 
+/// Whether there is an empty paragraph in front of some other block
+fn starts_with_empty_paragraph(content: &Fragment<MD>) -> bool {
+    match content.children() {
+        [MarkdownNode::Paragraph(Block { content }), _, ..] => content.child_count() == 0,
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 16dcaf8b7aa9017981921e77f30d0bcd342baa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 24/28] fix: the text of an imported code block never has marks

---
 src/markdown/from_markdown.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index cc15615..daad41a 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -96,11 +96,16 @@ impl MarkdownDeserializer {
             return Ok(());
         }
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
-        if let Attrs::Image(image) = &mut last.1 {
-            // the description of an image is plain text
-            image.alt.push_str(text);
-            return Ok(());
-        }
+        let marks = match &mut last.1 {
+            Attrs::Image(image) => {
+                // the description of an image is plain text
+                image.alt.push_str(text);
+                return Ok(());
+            }
+            // the parser may end a mark of a list item's text only after the next code block
+            Attrs::CodeBlock(_) => MarkSet::default(),
+            _ => marks,
+        };
         if let Some(MarkdownNode::Text(node)) = last.0.last_mut() {
             if node.marks == marks {
                 node.text.push_str(text);
-- 
2.43.0


From 6ed44681628c6054435ee2f1888f51da6395ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:25 +0000
Subject: [PATCH 25/28] fix: documents and list items are block types, as their
 nodes say

---
 src/markdown/content.rs | 4 +++-
 src/markdown/schema.rs  | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/markdown/content.rs b/src/markdown/content.rs
index c871c62..5073c7f 100644
--- a/src/markdown/content.rs
+++ b/src/markdown/content.rs
@@ -30,7 +30,9 @@ impl ContentMatch<MD> for MarkdownContentMatch {
     fn match_type(self, r#type: MarkdownNodeType) -> Option<Self> {
         match self {
             Self::InlineStar => then_some(r#type.is_inline(), Self::InlineStar),
-            Self::BlockPlus | Self::BlockStar => then_some(r#type.is_block(), Self::BlockStar),
+            Self::BlockPlus | Self::BlockStar => {
+                then_some(r#type.in_block_group(), Self::BlockStar)
+            }
             Self::OrTextImageStar => then_some(
                 matches!(r#type, MarkdownNodeType::Text | MarkdownNodeType::Image),
                 Self::OrTextImageStar,
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index 93867c8..957b3ba 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -43,6 +43,11 @@ pub enum MarkdownNodeType {
 }
 
 impl MarkdownNodeType {
+    /// True if this type is a member of the `block` group
+    pub(crate) fn in_block_group(self) -> bool {
+        self.is_block() && !matches!(self, Self::Doc | Self::ListItem)
+    }
+
     fn _allow_marks(self) -> bool {
         match self {
             Self::Doc
@@ -83,6 +88,8 @@ impl NodeType<MD> for MarkdownNodeType {
                 | Self::CodeBlock
                 | Self::OrderedList
                 | Self::BulletList
+                | Self::Doc
+                | Self::ListItem
         )
     }
 
-- 
2.43.0


From 07b4ff7eca8bf58b1c8e55b635443df563c3b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 26/28] fix: an inclusive range end at the largest number does
 not wrap around to an empty range

---
 src/model/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/util.rs b/src/model/util.rs
index cbd0caa..b3fc195 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -4,14 +4,14 @@ pub fn from<R: RangeBounds<usize>>(range: &R) -> usize {
     match range.start_bound() {
         Bound::Unbounded => 0,
         Bound::Included(x) => *x,
-        Bound::Excluded(x) => x + 1,
+        Bound::Excluded(x) => x.saturating_add(1),
     }
 }
 
 pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     match range.end_bound() {
         Bound::Unbounded => max,
-        Bound::Included(x) => x + 1,
+        Bound::Included(x) => x.saturating_add(1),
         Bound::Excluded(x) => *x,
     }
 }
-- 
2.43.0


From 0fac210b0a6737abcbe5691be6f13d3d047ca662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 27/28] fix: replace-around steps don't insert the gap beyond
 the end of their slice

---
 src/model/replace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 12e5e73..9afa216 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -68,8 +68,11 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
+        // the tokens of the open nodes are not part of the slice
+        let end = self.content.size().saturating_sub(self.open_end);
         let dist = pos
             .checked_add(self.open_start)
+            .filter(|dist| *dist <= end)
             .ok_or(IndexError::OutOfBounds(pos))?;
         let content = insert_into(
             &self.content,
-- 
2.43.0


From 5de9ae75868eee16e0204ce595d6579016ebdd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 28/28] fix: e-mail autolinks are imported as mailto: links

---
 src/markdown/from_markdown.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index daad41a..32f996b 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -4,7 +4,7 @@ use super::{
 };
 use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
 use displaydoc::Display;
-use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
+use pulldown_cmark::{CodeBlockKind, Event, LinkType, Parser, Tag};
 use std::{
     convert::{TryFrom, TryInto},
     num::TryFromIntError,
@@ -216,10 +216,15 @@ impl MarkdownDeserializer {
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
-                    Tag::Link(_, href, title) => {
+                    Tag::Link(link_type, href, title) => {
+                        let href = match link_type {
+                            // `<me@example.org>` links to `mailto:me@example.org`
+                            LinkType::Email => format!("mailto:{}", href),
+                            _ => href.to_string(),
+                        };
                         self.marks.push(MarkdownMark::Link {
                             attrs: LinkAttrs {
-                                href: href.to_string(),
+                                href,
                                 title: title.to_string(),
                             },
                         });
-- 
2.43.0

