From c4bf36684732485034b10b1060c996ecc84f2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:08 +0000
Subject: [PATCH 01/14] fix: index a new resource once when it occurs several
 times in an inserted quad or triple

---
 src/dataset/graph/impl/btree_graph.rs         | 15 ++++-------
 src/dataset/graph/impl/indexed_btree_graph.rs | 15 ++++-------
 src/dataset/impl/btree_dataset.rs             | 27 +++++++------------
 src/dataset/impl/indexed_btree_dataset.rs     | 27 +++++++------------
 4 files changed, 28 insertions(+), 56 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..4b86b48 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -142,14 +142,9 @@ impl<R: Ord> BTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -162,7 +157,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -175,7 +170,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -188,7 +183,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..0aef050 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -220,14 +220,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -240,7 +235,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -253,7 +248,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -270,7 +265,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			self.predicates.insert(p_i);
 			self.objects.insert(o_i);
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..0526454 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -140,18 +140,9 @@ impl<R: Ord> BTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let i = self.quads.vacant_key();
+
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -164,7 +155,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -177,7 +168,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -190,12 +181,12 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let g_i = match g_i {
-				Some((_, Some(g_i))) => {
+			let g_i = match quad.3.map(|g| (self.index_of_resource(&g), g)) {
+				Some((Some(g_i), _)) => {
 					self.resources[g_i].occurrences += 1;
 					Some(g_i)
 				}
-				Some((g, None)) => {
+				Some((None, g)) => {
 					let g_i = self.resources.insert(Resource::new(g));
 					self.resources_indexes
 						.insert(resource_index_cmp(&self.resources), g_i);
@@ -204,7 +195,7 @@ impl<R: Ord> BTreeDataset<R> {
 				None => None,
 			};
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..7e4f75a 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -249,18 +249,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let i = self.quads.vacant_key();
+
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -273,7 +264,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -286,7 +277,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -299,12 +290,12 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let g_i = match g_i {
-				Some((_, Some(g_i))) => {
+			let g_i = match quad.3.map(|g| (self.index_of_resource(&g), g)) {
+				Some((Some(g_i), _)) => {
 					self.resources[g_i].as_graph.insert(i);
 					Some(g_i)
 				}
-				Some((g, None)) => {
+				Some((None, g)) => {
 					let g_i = self.resources.insert(Resource::graph(g, i));
 					self.resources_indexes
 						.insert(resource_index_cmp(&self.resources), g_i);
@@ -323,7 +314,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				self.named_graphs.insert(g_i);
 			}
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
-- 
2.43.0


From 52b6ea50786d7ff9ffa8b5ba9f67a3903310dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:16 +0000
Subject: [PATCH 02/14] fix: keep a resource in the role listings while other
 quads or triples still use it

---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 0aef050..1c6e69b 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -286,12 +286,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -300,6 +299,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -308,6 +310,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 7e4f75a..29dccee 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -375,12 +375,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -389,6 +388,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -397,6 +399,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
-- 
2.43.0


From 37d9d4288d2f86e885525682600a3538bc1dc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:16 +0000
Subject: [PATCH 03/14] fix: drop a named graph from the dataset once its last
 quad is removed

---
 src/dataset/impl/indexed_btree_dataset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 29dccee..ea1f0b1 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -412,11 +412,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From 9c5a9a0018e0fc747a529cc9d24a85627e1c3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:16 +0000
Subject: [PATCH 04/14] fix: do not stop pattern matching at the first slot
 freed by a removal

---
 src/dataset/graph/impl/indexed_btree_graph.rs |  5 ++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 1c6e69b..8523ee0 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -620,7 +620,10 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let Some(&triple) = self.triples.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index ea1f0b1..0cabfe6 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -815,7 +815,10 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -852,7 +855,10 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -888,7 +894,10 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let Some(&quad) = self.dataset.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From 28c06a62d63b0ba36c9a3c72166be9b4cdc6b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:32 +0000
Subject: [PATCH 05/14] fix: compare the named resources of blank node
 signatures when searching for an isomorphism

---
 src/dataset/isomorphism.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..921c5ce 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -293,7 +293,7 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
 				Some(&c) => a == c,
-				None => true,
+				None => interpretation.is_anonymous(a) && interpretation.is_anonymous(b),
 			},
 		}
 	}
-- 
2.43.0


From 68ac06fe7bff0224e7e3d39ec66ccee9972a4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:55 +0000
Subject: [PATCH 06/14] fix: compare the quads without blank nodes when
 deciding isomorphism

---
 src/dataset/isomorphism.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 921c5ce..1ecf64d 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,11 @@ where
 		return None;
 	}
 
+	// Quads without blank nodes must be the same on both sides.
+	if ground_quads(interpretation, a) != ground_quads(interpretation, b) {
+		return None;
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -187,6 +192,17 @@ where
 	r
 }
 
+fn ground_quads<'d, I, D>(interpretation: &I, ds: &'d D) -> BTreeSet<Quad<&'d I::Resource>>
+where
+	I: ReverseInterpretation,
+	I::Resource: Ord,
+	D: TraversableDataset<Resource = I::Resource>,
+{
+	ds.quads()
+		.filter(|q| blank_count(interpretation, *q) == 0)
+		.collect()
+}
+
 fn collect_signatures<'d, I, D>(
 	interpretation: &I,
 	map: &mut BTreeMap<&'d I::Resource, BlankSignature<'d, I::Resource>>,
-- 
2.43.0


From db2a5faa8a2ff5a940aafa53aeb4473300f2e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:21 +0000
Subject: [PATCH 07/14] fix: accept blank node labels with inner dots, as the
 documented grammar does

---
 src/blankid.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/blankid.rs b/src/blankid.rs
index eddde0e..c6aa742 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -304,13 +304,16 @@ fn check<C: Iterator<Item = char>>(mut chars: C) -> bool {
 		Some('_') => match chars.next() {
 			Some(':') => match chars.next() {
 				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
+					// A `.` is allowed anywhere but at the end.
+					let mut last = c;
 					for c in chars {
-						if !is_pn_char(c) {
+						if c != '.' && !is_pn_char(c) {
 							return false;
 						}
+						last = c;
 					}
 
-					true
+					last != '.'
 				}
 				_ => false,
 			},
-- 
2.43.0


From 9a0e66c4d0922ca1bbf534b6b1515994e2564140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:21 +0000
Subject: [PATCH 08/14] fix: render blank nodes as blank node labels instead of
 quoted strings

---
 src/blankid.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/blankid.rs b/src/blankid.rs
index c6aa742..0026dd1 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -3,6 +3,8 @@ use std::fmt;
 use std::ops::Deref;
 use std::str::FromStr;
 
+use crate::RdfDisplay;
+
 /// Invalid blank node identifier.
 ///
 /// This error is raised by the [`BlankId::new`] and [`BlankIdBuf::new`] functions
@@ -101,6 +103,13 @@ impl fmt::Display for BlankId {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	#[inline(always)]
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		fmt::Display::fmt(self, f)
+	}
+}
+
 impl fmt::Debug for BlankId {
 	#[inline(always)]
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
@@ -268,6 +277,13 @@ impl fmt::Display for BlankIdBuf {
 	}
 }
 
+impl RdfDisplay for BlankIdBuf {
+	#[inline(always)]
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		fmt::Display::fmt(self, f)
+	}
+}
+
 impl fmt::Debug for BlankIdBuf {
 	#[inline(always)]
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From 6427cd071f1e33d5d4ecc718bb433bf598e8a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:21 +0000
Subject: [PATCH 09/14] fix: panic as documented instead of reusing blank node
 identifiers once exhausted

---
 src/term/generator/blank.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..94dc5d7 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -60,7 +60,10 @@ impl Blank {
 
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
-		self.count += 1;
+		self.count = self
+			.count
+			.checked_add(1)
+			.expect("no more blank node identifiers");
 		id
 	}
 }
-- 
2.43.0


From 037af6ab3c429e8152420c853b9b216a879c1ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:20 +0000
Subject: [PATCH 10/14] fix: keep the shared subject/object variable when
 setting a pattern predicate or object

---
 src/pattern/triple/canonical.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..b2ee224 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
@@ -568,7 +578,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
-- 
2.43.0


From 3e2f72d2a5934f03becd682499de178444d9e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:21 +0000
Subject: [PATCH 11/14] fix: return the previous object constraint when setting
 the object of a pattern

---
 src/pattern/triple/canonical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index b2ee224..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -613,7 +613,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -866,7 +866,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From f33c75b145de48cd50803a2d18f2372a43f467bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:22 +0000
Subject: [PATCH 12/14] fix: keep existing values of a shared key in pattern
 map unions

---
 src/pattern/triple/map.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..0a0a04a 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,9 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values)
+		}
 	}
 }
 
@@ -153,7 +155,9 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
@@ -211,7 +215,9 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
@@ -276,7 +282,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values)
+		}
 	}
 }
 
@@ -352,7 +360,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
@@ -421,7 +431,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
-- 
2.43.0


From 50e6d5413a8a38e0b0a014f69e6b218eeb78d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:27 +0000
Subject: [PATCH 13/14] fix: do not share index nodes between a dataset or
 graph and its clones

---
 src/dataset/graph/impl/btree_graph.rs         | 13 ++++++++++++-
 src/dataset/graph/impl/indexed_btree_graph.rs | 16 +++++++++++++++-
 src/dataset/impl/btree_dataset.rs             | 13 ++++++++++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 18 +++++++++++++++++-
 src/utils.rs                                  | 18 +++++++++++++++++-
 5 files changed, 73 insertions(+), 5 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index 4b86b48..4173c0e 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::{super::Graph, IndexedBTreeGraph};
 use crate::{
 	dataset::{GraphMut, ResourceTraversableGraph, TraversableGraph},
+	utils::clone_raw_btree,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -49,7 +50,6 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF graph.
-#[derive(Clone)]
 pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) triples: Slab<Triple<usize>>,
@@ -57,6 +57,17 @@ pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) triples_indexes: RawBTree<usize>,
 }
 
+impl<R: Clone> Clone for BTreeGraph<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			triples: self.triples.clone(),
+			resources_indexes: clone_raw_btree(&self.resources_indexes),
+			triples_indexes: clone_raw_btree(&self.triples_indexes),
+		}
+	}
+}
+
 impl<R> Default for BTreeGraph<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 8523ee0..2e07f4f 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -14,6 +14,7 @@ use crate::{
 		triple::canonical::{PatternObject, PatternPredicate, PatternSubject},
 		CanonicalTriplePattern,
 	},
+	utils::clone_raw_btree,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -56,7 +57,6 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF graph, optimized for pattern matching operations.
-#[derive(Clone)]
 pub struct IndexedBTreeGraph<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	triples: Slab<Triple<usize>>,
@@ -67,6 +67,20 @@ pub struct IndexedBTreeGraph<R = LocalTerm> {
 	objects: BTreeSet<usize>,
 }
 
+impl<R: Clone> Clone for IndexedBTreeGraph<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			triples: self.triples.clone(),
+			resources_indexes: clone_raw_btree(&self.resources_indexes),
+			triples_indexes: clone_raw_btree(&self.triples_indexes),
+			subjects: self.subjects.clone(),
+			predicates: self.predicates.clone(),
+			objects: self.objects.clone(),
+		}
+	}
+}
+
 impl<R> Default for IndexedBTreeGraph<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 0526454..ea3a352 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::super::Dataset;
 use crate::{
 	dataset::{DatasetMut, IndexedBTreeDataset, ResourceTraversableDataset, TraversableDataset},
+	utils::clone_raw_btree,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -47,7 +48,6 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF dataset.
-#[derive(Clone)]
 pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) quads: Slab<Quad<usize>>,
@@ -55,6 +55,17 @@ pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) quads_indexes: RawBTree<usize>,
 }
 
+impl<R: Clone> Clone for BTreeDataset<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			quads: self.quads.clone(),
+			resources_indexes: clone_raw_btree(&self.resources_indexes),
+			quads_indexes: clone_raw_btree(&self.quads_indexes),
+		}
+	}
+}
+
 impl<R> Default for BTreeDataset<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 0cabfe6..4a54527 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -18,6 +18,7 @@ use crate::{
 		quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject},
 		CanonicalQuadPattern,
 	},
+	utils::clone_raw_btree,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -58,7 +59,6 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF dataset, optimized for pattern matching operations.
-#[derive(Clone)]
 pub struct IndexedBTreeDataset<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	quads: Slab<Quad<usize>>,
@@ -71,6 +71,22 @@ pub struct IndexedBTreeDataset<R = LocalTerm> {
 	named_graphs: BTreeSet<usize>,
 }
 
+impl<R: Clone> Clone for IndexedBTreeDataset<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			quads: self.quads.clone(),
+			resources_indexes: clone_raw_btree(&self.resources_indexes),
+			quads_indexes: clone_raw_btree(&self.quads_indexes),
+			subjects: self.subjects.clone(),
+			predicates: self.predicates.clone(),
+			objects: self.objects.clone(),
+			default_graph: self.default_graph.clone(),
+			named_graphs: self.named_graphs.clone(),
+		}
+	}
+}
+
 impl<R> Default for IndexedBTreeDataset<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/utils.rs b/src/utils.rs
index 768d1df..2d959d4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,23 @@
-use std::marker::PhantomData;
+use std::{cmp::Ordering, marker::PhantomData};
+
+use raw_btree::RawBTree;
 
 use crate::{Quad, Triple};
 
+/// Clones the given B-Tree by inserting its items, in order, in a new one.
+///
+/// The `Clone` implementation of `RawBTree` cannot be used because the clone
+/// shares the first child of every inner node with the original tree.
+pub fn clone_raw_btree(tree: &RawBTree<usize>) -> RawBTree<usize> {
+	let mut clone = RawBTree::new();
+
+	for &i in tree {
+		clone.insert(|_, _| Ordering::Less, i);
+	}
+
+	clone
+}
+
 pub struct InfallibleIterator<I>(pub I);
 
 impl<I: Iterator> Iterator for InfallibleIterator<I> {
-- 
2.43.0


From 03fe6c539d0faa28dd9237a26a75b41a40b8bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:41 +0000
Subject: [PATCH 14/14] fix: do not let format widths alter literals, IRIs and
 language tags in RDF renderings

---
 src/display.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index d787ff8..e0be5c9 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::fmt::{self, Write};
 
 use langtag::{LangTag, LangTagBuf};
 
@@ -16,7 +16,6 @@ pub trait RdfDisplay {
 
 impl RdfDisplay for str {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
 		write!(f, "\"")?;
 
 		for c in self.chars() {
@@ -25,7 +24,7 @@ impl RdfDisplay for str {
 				'\\' => write!(f, "\\\\"),
 				'\n' => write!(f, "\\n"),
 				'\r' => write!(f, "\\r"),
-				c => c.fmt(f),
+				c => f.write_char(c),
 			}?
 		}
 
@@ -49,7 +48,7 @@ impl RdfDisplay for iref::IriRef {
 					let bytes: u32 = c.into();
 					write!(f, "\\u{bytes:#04x}")
 				}
-				_ => fmt::Display::fmt(&c, f),
+				_ => f.write_char(c),
 			}?;
 		}
 
@@ -101,8 +100,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf {
 
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
@@ -115,8 +113,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for LangTag {
 
 impl RdfDisplay for LangTagBuf {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
-- 
2.43.0

