From a557e3f2fdeb7eef9390d4dcffd2a6fba4e14e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:50 +0000
Subject: [PATCH 01/14] fix: look up each resource after inserting the previous
 one in container insert

A statement mentioning the same new resource more than once registered the
resource several times, so resource listings, counts and pattern matching went
wrong.
---
 src/dataset/graph/impl/btree_graph.rs         | 15 ++++--------
 src/dataset/graph/impl/indexed_btree_graph.rs | 15 ++++--------
 src/dataset/impl/btree_dataset.rs             | 24 ++++++++-----------
 src/dataset/impl/indexed_btree_dataset.rs     | 24 ++++++++-----------
 4 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..4b86b48 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -142,14 +142,9 @@ impl<R: Ord> BTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -162,7 +157,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -175,7 +170,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -188,7 +183,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..0aef050 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -220,14 +220,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -240,7 +235,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -253,7 +248,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -270,7 +265,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			self.predicates.insert(p_i);
 			self.objects.insert(o_i);
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..2e8a191 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -140,18 +140,9 @@ impl<R: Ord> BTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -164,7 +155,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -177,7 +168,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -190,6 +181,11 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].occurrences += 1;
@@ -204,7 +200,7 @@ impl<R: Ord> BTreeDataset<R> {
 				None => None,
 			};
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..ce41dce 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -249,18 +249,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -273,7 +264,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -286,7 +277,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -299,6 +290,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].as_graph.insert(i);
@@ -323,7 +319,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				self.named_graphs.insert(g_i);
 			}
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
-- 
2.43.0


From 1e937b3a1c3139979a316c1680357802abde002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 02/14] fix: keep a resource listed in a role until its last
 statement in that role is removed

Removing a statement dropped its subject, predicate and object from the role
listings even if other statements still used them, and kept a graph name listed
as long as the resource was used in any other position.
---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 0aef050..1c6e69b 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -286,12 +286,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -300,6 +299,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -308,6 +310,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index ce41dce..e8e096d 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -380,12 +380,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -394,6 +393,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -402,6 +404,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
@@ -412,11 +417,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From 1d7bcb6b11f93a27ae59cd9642243748369d844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:30 +0000
Subject: [PATCH 03/14] fix: skip vacant slots when matching patterns with an
 unbound subject

Pattern matching stopped at the first slot freed by a removal and missed every
statement stored after it.
---
 src/dataset/graph/impl/indexed_btree_graph.rs |  6 +++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 1c6e69b..17989d0 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -620,7 +620,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let Some(&triple) = self.triples.get(i) else {
+				// Slot left vacant by a removal.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index e8e096d..e1361bd 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -820,7 +820,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Slot left vacant by a removal.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -857,7 +861,11 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Slot left vacant by a removal.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -893,7 +901,11 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let Some(&quad) = self.dataset.quads.get(i) else {
+				// Slot left vacant by a removal.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From 93e78c2ff23a423dff26bedef6dba3b548642d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 04/14] fix: keep the subject/object link in set_predicate and
 report the replaced object constraint in set_object

---
 src/pattern/triple/canonical.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..a2a5288 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -568,7 +568,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
@@ -603,7 +603,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -856,7 +856,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From a8ba83220b9331c2df85793b90766e510104bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 05/14] fix: merge the values of shared keys in union_with
 instead of replacing them

---
 src/pattern/triple/map.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..4fb4469 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,9 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values);
+		}
 	}
 }
 
@@ -153,7 +155,9 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -211,7 +215,9 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -276,7 +282,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values);
+		}
 	}
 }
 
@@ -352,7 +360,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -421,7 +431,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
-- 
2.43.0


From fc003ef0c93882b8ef23916d8f5cf9ddbbd05726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 06/14] fix: compare named terms and ground quads when
 searching for an isomorphism

---
 src/dataset/isomorphism.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..376b822 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,10 @@ where
 		return None;
 	}
 
+	if !ground_quads_match(interpretation, a, b) {
+		return None;
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -187,6 +191,36 @@ where
 	r
 }
 
+/// Checks that the quads without blank nodes are the same in `a` and `b`.
+fn ground_quads_match<I, A, B>(interpretation: &I, a: &A, b: &B) -> bool
+where
+	I: ReverseInterpretation,
+	I::Resource: Ord,
+	A: TraversableDataset<Resource = I::Resource>,
+	B: TraversableDataset<Resource = I::Resource>,
+{
+	let mut b_ground: BTreeSet<Quad<&I::Resource>> = b
+		.quads()
+		.filter(|q| blank_count(interpretation, *q) == 0)
+		.collect();
+
+	for quad in a.quads() {
+		if blank_count(interpretation, quad) == 0 && !b_ground.remove(&quad) {
+			let equivalent = b_ground
+				.iter()
+				.copied()
+				.find(|other| quad_matches(interpretation, quad, *other));
+
+			match equivalent {
+				Some(other) => b_ground.remove(&other),
+				None => return false,
+			};
+		}
+	}
+
+	b_ground.is_empty()
+}
+
 fn collect_signatures<'d, I, D>(
 	interpretation: &I,
 	map: &mut BTreeMap<&'d I::Resource, BlankSignature<'d, I::Resource>>,
@@ -289,6 +323,10 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			}
 		}
 
+		if !interpretation.is_anonymous(a) || !interpretation.is_anonymous(b) {
+			return false;
+		}
+
 		match self.forward.get(a) {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
-- 
2.43.0


From 53a043ffcafbaddf02bd022d8fc8c955919526d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 07/14] fix: accept dots inside blank node labels as the
 documented grammar does

---
 src/blankid.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/blankid.rs b/src/blankid.rs
index eddde0e..e8f4074 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -304,13 +304,18 @@ fn check<C: Iterator<Item = char>>(mut chars: C) -> bool {
 		Some('_') => match chars.next() {
 			Some(':') => match chars.next() {
 				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
+					let mut last = c;
+
 					for c in chars {
-						if !is_pn_char(c) {
+						if !is_pn_char(c) && c != '.' {
 							return false;
 						}
+
+						last = c;
 					}
 
-					true
+					// A label may contain dots, but cannot end with one.
+					last != '.'
 				}
 				_ => false,
 			},
-- 
2.43.0


From 74cdbb60fc50093d2e57fb09d44fab4a71169069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 08/14] fix: display blank node identifiers as blank nodes, not
 as quoted strings

---
 src/blankid.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/blankid.rs b/src/blankid.rs
index e8f4074..81bb990 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -3,6 +3,8 @@ use std::fmt;
 use std::ops::Deref;
 use std::str::FromStr;
 
+use crate::RdfDisplay;
+
 /// Invalid blank node identifier.
 ///
 /// This error is raised by the [`BlankId::new`] and [`BlankIdBuf::new`] functions
@@ -101,6 +103,13 @@ impl fmt::Display for BlankId {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	#[inline(always)]
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		fmt::Display::fmt(self, f)
+	}
+}
+
 impl fmt::Debug for BlankId {
 	#[inline(always)]
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
@@ -268,6 +277,13 @@ impl fmt::Display for BlankIdBuf {
 	}
 }
 
+impl RdfDisplay for BlankIdBuf {
+	#[inline(always)]
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		fmt::Display::fmt(self, f)
+	}
+}
+
 impl fmt::Debug for BlankIdBuf {
 	#[inline(always)]
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From e447e234aa199f7bc9a1c8ff521b8201b57da23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 09/14] fix: panic as documented instead of reusing identifiers
 when the blank generator is exhausted

---
 src/term/generator/blank.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..a54c81a 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -60,7 +60,10 @@ impl Blank {
 
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
-		self.count += 1;
+		self.count = self
+			.count
+			.checked_add(1)
+			.expect("blank node identifier generator exhausted");
 		id
 	}
 }
-- 
2.43.0


From 94d1d91333551c880937895b020038db9d77499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 10/14] fix: let grdf_quad_pattern accept IRIs, blank nodes and
 literals

---
 src/macro.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/macro.rs b/src/macro.rs
index 3769ab2..16f9153 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -199,7 +199,7 @@ macro_rules! grdf_quad {
 
 /// Creates a gRDF quad pattern.
 ///
-/// The type of the returned value is `Quad<ResourceOrVar<Term, _>>`.
+/// The type of the returned value is `Quad<ResourceOrVar<LocalTerm, _>>`.
 ///
 /// This is similar to [`grdf_quad`], but with the addition of variables, which
 /// can be introduced using the syntax `?ident`. The variable `ident` must be
@@ -220,7 +220,7 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($($acc:tt)*) < $iri:literal > $($rest:tt)*
 	} => {
-		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::static_iref::iri!($iri).to_owned())),) $($rest)*)
+		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::iri!($iri).to_owned())),) $($rest)*)
 	};
 	{
 		@from ($($acc:tt)*) _ : $id:literal $($rest:tt)*
@@ -233,7 +233,7 @@ macro_rules! grdf_quad_pattern {
 		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::literal($crate::Literal::new(
 			$value.to_owned(),
 			$crate::LiteralType::Any(
-				$crate::static_iref::iri!($ty).to_owned()
+				$crate::iri!($ty).to_owned()
 			)
 		))),) $($rest)*)
 	};
@@ -250,12 +250,12 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($s:expr, $p:expr, $o:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, None)
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, None)
 	};
 	{
 		@from ($s:expr, $p:expr, $o:expr, $g:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, Some($g))
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, Some($g))
 	};
 	{
 		@from ($($acc:tt)*) $t:tt $($rest:tt)*
-- 
2.43.0


From e9090707f8a6306512c048a0d625d55ff87bc3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:10 +0000
Subject: [PATCH 11/14] fix: clone containers without sharing B-tree nodes with
 the original

RawBTree::clone (raw-btree 0.2.0) keeps the first child of every internal
node of the source instead of cloning it, so that both trees own and free it:
cloning a container of more than 8 statements or resources and dropping or
mutating either one corrupted memory. Rebuild the indexes in order instead.
---
 src/dataset/graph/impl/btree_graph.rs         | 13 +++++++++++-
 src/dataset/graph/impl/indexed_btree_graph.rs | 16 ++++++++++++++-
 src/dataset/impl/btree_dataset.rs             | 13 +++++++++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 18 ++++++++++++++++-
 src/utils.rs                                  | 20 ++++++++++++++++++-
 5 files changed, 75 insertions(+), 5 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index 4b86b48..fbe29c9 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::{super::Graph, IndexedBTreeGraph};
 use crate::{
 	dataset::{GraphMut, ResourceTraversableGraph, TraversableGraph},
+	utils::clone_indexes,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -49,7 +50,6 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF graph.
-#[derive(Clone)]
 pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) triples: Slab<Triple<usize>>,
@@ -57,6 +57,17 @@ pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) triples_indexes: RawBTree<usize>,
 }
 
+impl<R: Clone> Clone for BTreeGraph<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			triples: self.triples.clone(),
+			resources_indexes: clone_indexes(&self.resources_indexes),
+			triples_indexes: clone_indexes(&self.triples_indexes),
+		}
+	}
+}
+
 impl<R> Default for BTreeGraph<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 17989d0..842c3b3 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -14,6 +14,7 @@ use crate::{
 		triple::canonical::{PatternObject, PatternPredicate, PatternSubject},
 		CanonicalTriplePattern,
 	},
+	utils::clone_indexes,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -56,7 +57,6 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF graph, optimized for pattern matching operations.
-#[derive(Clone)]
 pub struct IndexedBTreeGraph<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	triples: Slab<Triple<usize>>,
@@ -67,6 +67,20 @@ pub struct IndexedBTreeGraph<R = LocalTerm> {
 	objects: BTreeSet<usize>,
 }
 
+impl<R: Clone> Clone for IndexedBTreeGraph<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			triples: self.triples.clone(),
+			resources_indexes: clone_indexes(&self.resources_indexes),
+			triples_indexes: clone_indexes(&self.triples_indexes),
+			subjects: self.subjects.clone(),
+			predicates: self.predicates.clone(),
+			objects: self.objects.clone(),
+		}
+	}
+}
+
 impl<R> Default for IndexedBTreeGraph<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 2e8a191..68f9e3f 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::super::Dataset;
 use crate::{
 	dataset::{DatasetMut, IndexedBTreeDataset, ResourceTraversableDataset, TraversableDataset},
+	utils::clone_indexes,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -47,7 +48,6 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF dataset.
-#[derive(Clone)]
 pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) quads: Slab<Quad<usize>>,
@@ -55,6 +55,17 @@ pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) quads_indexes: RawBTree<usize>,
 }
 
+impl<R: Clone> Clone for BTreeDataset<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			quads: self.quads.clone(),
+			resources_indexes: clone_indexes(&self.resources_indexes),
+			quads_indexes: clone_indexes(&self.quads_indexes),
+		}
+	}
+}
+
 impl<R> Default for BTreeDataset<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index e1361bd..4b7d4af 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -18,6 +18,7 @@ use crate::{
 		quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject},
 		CanonicalQuadPattern,
 	},
+	utils::clone_indexes,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -58,7 +59,6 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF dataset, optimized for pattern matching operations.
-#[derive(Clone)]
 pub struct IndexedBTreeDataset<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	quads: Slab<Quad<usize>>,
@@ -71,6 +71,22 @@ pub struct IndexedBTreeDataset<R = LocalTerm> {
 	named_graphs: BTreeSet<usize>,
 }
 
+impl<R: Clone> Clone for IndexedBTreeDataset<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			quads: self.quads.clone(),
+			resources_indexes: clone_indexes(&self.resources_indexes),
+			quads_indexes: clone_indexes(&self.quads_indexes),
+			subjects: self.subjects.clone(),
+			predicates: self.predicates.clone(),
+			objects: self.objects.clone(),
+			default_graph: self.default_graph.clone(),
+			named_graphs: self.named_graphs.clone(),
+		}
+	}
+}
+
 impl<R> Default for IndexedBTreeDataset<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/utils.rs b/src/utils.rs
index 768d1df..f5b6cd6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,25 @@
-use std::marker::PhantomData;
+use std::{cmp::Ordering, marker::PhantomData};
+
+use raw_btree::RawBTree;
 
 use crate::{Quad, Triple};
 
+/// Clones the given indexes, keeping their order.
+///
+/// `RawBTree::clone` must not be used: it does not clone the first child of
+/// internal nodes, which is then owned (and freed) by both trees.
+pub(crate) fn clone_indexes(indexes: &RawBTree<usize>) -> RawBTree<usize> {
+	let mut result = RawBTree::new();
+
+	for &i in indexes {
+		// Indexes are visited in order: each one is greater than all the
+		// previous ones.
+		result.insert(|_, _| Ordering::Less, i);
+	}
+
+	result
+}
+
 pub struct InfallibleIterator<I>(pub I);
 
 impl<I: Iterator> Iterator for InfallibleIterator<I> {
-- 
2.43.0


From 85985df8cae462f63c24ba61592f10411b0907f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 12/14] fix: keep the subject link in set_object when the
 predicate is given

---
 src/pattern/triple/canonical.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index a2a5288..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
-- 
2.43.0


From 6c73e75aed2558949b1b45ca5d3eed6570ce9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:41 +0000
Subject: [PATCH 13/14] fix: make the UUID generators compile and implement the
 Generator trait

With any of the uuid-generator features the crate did not compile: the
implementation used names out of scope, an outdated trait method and a
buffer it then read as a string without checking.
---
 src/term/generator/uuid.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/term/generator/uuid.rs b/src/term/generator/uuid.rs
index 7975d9e..516dbdd 100644
--- a/src/term/generator/uuid.rs
+++ b/src/term/generator/uuid.rs
@@ -78,13 +78,11 @@ impl Uuid {
 	feature = "uuid-generator-v4",
 	feature = "uuid-generator-v5"
 ))]
-impl Generator for Uuid {
-	fn next(&mut self) -> Term {
-		let mut buffer: Vec<u8> = vec![0; uuid::adapter::Urn::LENGTH];
-		let uuid = self.next_uuid();
-		let len = uuid.to_urn().encode_lower(buffer.as_mut()).len();
-		buffer.truncate(len);
-		Term::Iri(IriBuf::new_unchecked(String::from_utf8_unchecked(buffer)).unwrap())
+impl super::Generator for Uuid {
+	fn next_term(&mut self) -> crate::Term {
+		let mut buffer = uuid::Uuid::encode_buffer();
+		let urn = self.next_uuid().to_urn().encode_lower(&mut buffer);
+		crate::Term::Iri(iref::IriBuf::new(urn.to_owned()).unwrap())
 	}
 }
 
-- 
2.43.0


From 159851b085db845900fb173e4388c4d4438796bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:18 +0000
Subject: [PATCH 14/14] fix: search blank node bijections without recursion

Finding a bijection used one stack frame, and one copy of the bijection,
per blank node: with a few thousands of them the stack overflowed and the
process was aborted.
---
 src/dataset/isomorphism.rs | 55 ++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 376b822..6adb205 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -303,6 +303,12 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 		self.backward.insert(b, a);
 	}
 
+	fn remove(&mut self, a: &'a R) {
+		if let Some(b) = self.forward.remove(a) {
+			self.backward.remove(b);
+		}
+	}
+
 	fn resource_matches_with<I>(&self, interpretation: &I, a: &'a R, b: &'b R) -> bool
 	where
 		I: ReverseInterpretation<Resource = R>,
@@ -383,47 +389,56 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 	}
 
 	fn find_from_candidates<I>(
-		self,
+		mut self,
 		interpretation: &I,
-		mut candidates: std::collections::btree_map::Iter<&'a R, BTreeSet<&'b R>>,
+		candidates: std::collections::btree_map::Iter<&'a R, BTreeSet<&'b R>>,
 		a: &BTreeMap<&'a R, BlankSignature<'a, R>>,
 		b: &BTreeMap<&'b R, BlankSignature<'b, R>>,
 	) -> Option<Self>
 	where
 		I: ReverseInterpretation<Resource = R>,
 	{
-		match candidates.next() {
-			Some((a_blank_id, b_candidates)) => {
+		let candidates: Vec<(&'a R, &BTreeSet<&'b R>)> = candidates
+			.map(|(a, b_candidates)| (*a, b_candidates))
+			.collect();
+
+		// Candidates left to try for each blank node considered so far. There
+		// may be too many blank nodes for a recursive search.
+		let mut untried = Vec::with_capacity(candidates.len());
+
+		while let Some(&(a_blank_id, b_candidates)) = candidates.get(untried.len()) {
+			untried.push((a_blank_id, b_candidates.iter()));
+
+			'next_blank_id: while let Some((a_blank_id, b_candidates)) = untried.last_mut() {
+				self.remove(a_blank_id);
+
 				for b_candidate in b_candidates {
 					if !self.backward.contains_key(b_candidate) {
 						// eprintln!("analyzing candidate {} for {}", b_candidate, a_blank_id);
-
-						let mut new_sigma = self.clone();
-						new_sigma.insert(a_blank_id, b_candidate);
-						if new_sigma.signature_matches_with(
+						self.insert(a_blank_id, b_candidate);
+						if self.signature_matches_with(
 							interpretation,
 							a.get(a_blank_id).unwrap(),
 							b.get(b_candidate).unwrap(),
 						) {
 							// eprintln!("this is a valid candidate. continuing.");
-							if let Some(final_sigma) = new_sigma.find_from_candidates(
-								interpretation,
-								candidates.clone(),
-								a,
-								b,
-							) {
-								return Some(final_sigma);
-							}
-							// eprintln!("it didn't work out in the end. next candidate for {}.", a_blank_id);
+							break 'next_blank_id;
 						}
+
+						self.remove(a_blank_id);
 					}
 				}
 
-				// eprintln!("no valid candidate for {}", a_blank_id);
-				None
+				// eprintln!("no valid candidate left for {}", a_blank_id);
+				untried.pop();
+			}
+
+			if untried.is_empty() {
+				return None;
 			}
-			None => Some(self),
 		}
+
+		Some(self)
 	}
 }
 
-- 
2.43.0

