From d85d56aa50190a9b2c9ec492d5921f1a8827a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 01/12] fix: intern each resource once when a triple/quad
 repeats a new resource

The resource indexes of all the components were looked up before inserting any
of them, so inserting e.g. (a, a, b) in a graph not yet containing a would
create two distinct entries for a.
---
 src/dataset/graph/impl/btree_graph.rs         | 12 ++++++++--
 src/dataset/graph/impl/indexed_btree_graph.rs | 12 ++++++++--
 src/dataset/impl/btree_dataset.rs             | 23 ++++++++++++++-----
 src/dataset/impl/indexed_btree_dataset.rs     | 23 ++++++++++++++-----
 4 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..dc0e82d 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -143,8 +143,6 @@ impl<R: Ord> BTreeGraph<R> {
 			false
 		} else {
 			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
 
 			let e = self.triples.vacant_entry();
 			let i = e.key();
@@ -162,6 +160,12 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
+			// Looked up only now, since a previous component of this triple may have
+			// just introduced the very same resource.
+			let p_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &triple.1)
+				.copied();
 			let p_i = match p_i {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
@@ -175,6 +179,10 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
+			let o_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &triple.2)
+				.copied();
 			let o_i = match o_i {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..de446db 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -221,8 +221,6 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			false
 		} else {
 			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
 
 			let e = self.triples.vacant_entry();
 			let i = e.key();
@@ -240,6 +238,12 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
+			// Looked up only now, since a previous component of this triple may have
+			// just introduced the very same resource.
+			let p_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &triple.1)
+				.copied();
 			let p_i = match p_i {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
@@ -253,6 +257,10 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
+			let o_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &triple.2)
+				.copied();
 			let o_i = match o_i {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..7559ec8 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -141,12 +141,6 @@ impl<R: Ord> BTreeDataset<R> {
 			false
 		} else {
 			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
 
 			let e = self.quads.vacant_entry();
 			let i = e.key();
@@ -164,6 +158,12 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			// Looked up only now, since a previous component of this quad may have
+			// just introduced the very same resource.
+			let p_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &quad.1)
+				.copied();
 			let p_i = match p_i {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
@@ -177,6 +177,10 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let o_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &quad.2)
+				.copied();
 			let o_i = match o_i {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
@@ -190,6 +194,13 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self
+					.resources_indexes
+					.get(resource_cmp(&self.resources), &g)
+					.copied();
+				(g, g_i)
+			});
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].occurrences += 1;
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..585ac6f 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -250,12 +250,6 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			false
 		} else {
 			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
 
 			let e = self.quads.vacant_entry();
 			let i = e.key();
@@ -273,6 +267,12 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			// Looked up only now, since a previous component of this quad may have
+			// just introduced the very same resource.
+			let p_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &quad.1)
+				.copied();
 			let p_i = match p_i {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
@@ -286,6 +286,10 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let o_i = self
+				.resources_indexes
+				.get(resource_cmp(&self.resources), &quad.2)
+				.copied();
 			let o_i = match o_i {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
@@ -299,6 +303,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self
+					.resources_indexes
+					.get(resource_cmp(&self.resources), &g)
+					.copied();
+				(g, g_i)
+			});
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].as_graph.insert(i);
-- 
2.43.0


From 5b7a1d10637cc6a40bd70dc6365b76ddb9e0e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 02/12] fix: keep terms still in use listed as
 subjects/predicates/objects/graphs on removal

Removing a triple or quad from an indexed graph or dataset would unlist its
terms even when other triples still use them in the same position, and keep
listing a named graph as long as its name was used in any other position.
---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index de446db..ecb3f7f 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -299,12 +299,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -313,6 +312,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -321,6 +323,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 585ac6f..2092f71 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -395,12 +395,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -409,6 +408,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -417,6 +419,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
@@ -427,11 +432,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From 300cf13b5148150e5a292d1c2190cbf28782ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 03/12] fix: do not stop pattern matching at slots left vacant
 by removed triples/quads

---
 src/dataset/graph/impl/indexed_btree_graph.rs |  6 +++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index ecb3f7f..4027b69 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -633,7 +633,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let Some(&triple) = self.triples.get(i) else {
+				// Vacant slot, left by a removed triple.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 2092f71..34fa590 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -835,7 +835,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Vacant slot, left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -872,7 +876,11 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Vacant slot, left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -908,7 +916,11 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let Some(&quad) = self.dataset.quads.get(i) else {
+				// Vacant slot, left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From 65df97db9cba4c8570a6ce11f3300786e5f82265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 04/12] fix: preserve constraints and report the replaced
 component in triple pattern setters

Setting the predicate of `?s ?p ?s` dropped the subject/object equality, and
setting the object of `_ ?p ?p` reported the replaced object as unconstrained.
---
 src/pattern/triple/canonical.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..a2a5288 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -568,7 +568,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
@@ -603,7 +603,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -856,7 +856,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From 9f88ffdf7cde3e3485a0343e36b0e225e4440e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 05/12] fix: accept dots inside blank node identifiers, as
 specified by the documented grammar

---
 src/blankid.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/blankid.rs b/src/blankid.rs
index eddde0e..0a9e17b 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -304,13 +304,16 @@ fn check<C: Iterator<Item = char>>(mut chars: C) -> bool {
 		Some('_') => match chars.next() {
 			Some(':') => match chars.next() {
 				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
+					let mut last = c;
 					for c in chars {
-						if !is_pn_char(c) {
+						if !is_pn_char(c) && c != '.' {
 							return false;
 						}
+
+						last = c
 					}
 
-					true
+					last != '.'
 				}
 				_ => false,
 			},
-- 
2.43.0


From 40dc268c35a2444acd7376df7f5b0597423aa590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 06/12] fix: panic, as documented, when the blank node
 identifier generator is exhausted

Without overflow checks, the counter would silently wrap and the generator
return identifiers it already generated.
---
 src/term/generator/blank.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..94dc5d7 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -60,7 +60,10 @@ impl Blank {
 
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
-		self.count += 1;
+		self.count = self
+			.count
+			.checked_add(1)
+			.expect("no more blank node identifiers");
 		id
 	}
 }
-- 
2.43.0


From d46dd46fdcd185cb9bbbafbba54751079b8ae973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 07/12] fix: merge, rather than overwrite, the entries common
 to both sides of a pattern map union

---
 src/pattern/triple/map.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..1cbc47c 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,9 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+		for (id, other) in other.given {
+			self.given.entry(id).or_default().union_with(other);
+		}
 	}
 }
 
@@ -153,7 +155,9 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, other) in other.given {
+			self.given.entry(id).or_default().extend(other);
+		}
 	}
 }
 
@@ -211,7 +215,9 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+		for (id, other) in other.given {
+			self.given.entry(id).or_default().extend(other);
+		}
 	}
 }
 
@@ -276,7 +282,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, other) in other.given {
+			self.given.entry(id).or_default().union_with(other);
+		}
 	}
 }
 
@@ -352,7 +360,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, other) in other.given {
+			self.given.entry(id).or_default().extend(other);
+		}
 	}
 }
 
@@ -421,7 +431,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, other) in other.given {
+			self.given.entry(id).or_default().extend(other);
+		}
 	}
 }
 
-- 
2.43.0


From 29fd73ebc93e9ec050ded9db5ba32ddc848d8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 08/12] fix: do not report datasets as isomorphic when their
 blank-free parts differ

Quads without blank nodes were never compared, and while checking a candidate
mapping any two unmapped resources (e.g. two distinct IRIs) were considered to
match, which could also lead to an invalid bijection.
---
 src/dataset/isomorphism.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..e2e1cab 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,23 @@ where
 		return None;
 	}
 
+	// Quads without blank nodes are left unchanged by the bijection: they must
+	// be in both datasets.
+	let is_ground = |q: &Quad<&I::Resource>| blank_count(interpretation, *q) == 0;
+	let a_ground: Vec<_> = a.quads().filter(is_ground).collect();
+	let mut b_ground: Vec<_> = b.quads().filter(is_ground).collect();
+
+	if a_ground.len() != b_ground.len() {
+		return None;
+	}
+
+	for quad in a_ground.into_iter().rev() {
+		let i = b_ground
+			.iter()
+			.rposition(|other| quad_matches(interpretation, quad, *other))?;
+		b_ground.remove(i);
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -293,7 +310,7 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
 				Some(&c) => a == c,
-				None => true,
+				None => interpretation.is_anonymous(a) && interpretation.is_anonymous(b),
 			},
 		}
 	}
-- 
2.43.0


From fa6e6f8a1ed05f197bf27ca90f458178820cc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 09/12] fix: display blank node identifiers as such, and not as
 string literals

`BlankId` did not implement `RdfDisplay`, so that the implementation of `str`,
to which it dereferences, was used instead.
---
 src/display.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/display.rs b/src/display.rs
index d787ff8..257f206 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -2,6 +2,8 @@ use std::fmt;
 
 use langtag::{LangTag, LangTagBuf};
 
+use crate::{BlankId, BlankIdBuf};
+
 /// Display method for RDF syntax elements.
 pub trait RdfDisplay {
 	/// Formats the value using the given formatter.
@@ -39,6 +41,18 @@ impl RdfDisplay for String {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		fmt::Display::fmt(self.as_str(), f)
+	}
+}
+
+impl RdfDisplay for BlankIdBuf {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		self.as_blank_id_ref().rdf_fmt(f)
+	}
+}
+
 impl RdfDisplay for iref::IriRef {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
 		write!(f, "<")?;
-- 
2.43.0


From 96f872e5be54242fcdca555126f2ba2d2fb928ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 10/12] fix: clone stores without sharing B-tree nodes with the
 original

The Clone implementation of RawBTree keeps the first child of each internal
node shared with the original tree, so that cloning a store with more than
a few entries corrupts memory when either copy is modified or dropped.
---
 src/dataset/graph/impl/btree_graph.rs         |  6 +++++-
 src/dataset/graph/impl/indexed_btree_graph.rs |  6 +++++-
 src/dataset/impl/btree_dataset.rs             |  6 +++++-
 src/dataset/impl/indexed_btree_dataset.rs     |  6 +++++-
 src/utils.rs                                  | 18 +++++++++++++++++-
 5 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index dc0e82d..4ff4c8d 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::{super::Graph, IndexedBTreeGraph};
 use crate::{
 	dataset::{GraphMut, ResourceTraversableGraph, TraversableGraph},
+	utils::clone_btree,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -49,11 +50,14 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF graph.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) triples: Slab<Triple<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) triples_indexes: RawBTree<usize>,
 }
 
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 4027b69..b830e83 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -14,6 +14,7 @@ use crate::{
 		triple::canonical::{PatternObject, PatternPredicate, PatternSubject},
 		CanonicalTriplePattern,
 	},
+	utils::clone_btree,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -56,11 +57,14 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF graph, optimized for pattern matching operations.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct IndexedBTreeGraph<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	triples: Slab<Triple<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	triples_indexes: RawBTree<usize>,
 	subjects: BTreeSet<usize>,
 	predicates: BTreeSet<usize>,
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 7559ec8..18819a2 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::super::Dataset;
 use crate::{
 	dataset::{DatasetMut, IndexedBTreeDataset, ResourceTraversableDataset, TraversableDataset},
+	utils::clone_btree,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -47,11 +48,14 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF dataset.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) quads: Slab<Quad<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) quads_indexes: RawBTree<usize>,
 }
 
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 34fa590..1951433 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -18,6 +18,7 @@ use crate::{
 		quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject},
 		CanonicalQuadPattern,
 	},
+	utils::clone_btree,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -58,11 +59,14 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF dataset, optimized for pattern matching operations.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct IndexedBTreeDataset<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	quads: Slab<Quad<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	quads_indexes: RawBTree<usize>,
 	subjects: BTreeSet<usize>,
 	predicates: BTreeSet<usize>,
diff --git a/src/utils.rs b/src/utils.rs
index 768d1df..43255d9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,4 +1,6 @@
-use std::marker::PhantomData;
+use std::{cmp::Ordering, marker::PhantomData};
+
+use raw_btree::RawBTree;
 
 use crate::{Quad, Triple};
 
@@ -37,3 +39,17 @@ impl<I: Iterator> Iterator for OptionIterator<I> {
 		self.0.as_mut().and_then(I::next)
 	}
 }
+
+/// Clones the given tree by re-inserting its items in order.
+///
+/// The `Clone` implementation of `RawBTree` makes the clone share nodes with
+/// the original as soon as the tree has internal nodes.
+pub(crate) fn clone_btree<T: Clone>(tree: &RawBTree<T>) -> RawBTree<T> {
+	let mut clone = RawBTree::new();
+
+	for item in tree {
+		clone.insert(|_, _| Ordering::Less, item.clone());
+	}
+
+	clone
+}
-- 
2.43.0


From fbf86fbb88292e2ab09d27ae5d61b71562152899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:07 +0000
Subject: [PATCH 11/12] fix: keep the subject constraint when fixing the object
 of a (?x, p, ?x) pattern

---
 src/pattern/triple/canonical.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index a2a5288..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
-- 
2.43.0


From f2fa725a55f3faf87d29f2c5c49fc097f8b33563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 12/12] fix: formatting options do not alter the text of RDF
 literals

The width, fill and precision given to a formatter were applied to each
character of a literal or IRI, and to its language tag, so that
format!("{:4}", literal.rdf_display()) was the text of another literal.
---
 src/display.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index 257f206..e1aadba 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -18,7 +18,7 @@ pub trait RdfDisplay {
 
 impl RdfDisplay for str {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
+		use fmt::Write;
 		write!(f, "\"")?;
 
 		for c in self.chars() {
@@ -27,7 +27,7 @@ impl RdfDisplay for str {
 				'\\' => write!(f, "\\\\"),
 				'\n' => write!(f, "\\n"),
 				'\r' => write!(f, "\\r"),
-				c => c.fmt(f),
+				c => f.write_char(c),
 			}?
 		}
 
@@ -55,6 +55,7 @@ impl RdfDisplay for BlankIdBuf {
 
 impl RdfDisplay for iref::IriRef {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		use fmt::Write;
 		write!(f, "<")?;
 
 		for c in self.as_str().chars() {
@@ -63,7 +64,7 @@ impl RdfDisplay for iref::IriRef {
 					let bytes: u32 = c.into();
 					write!(f, "\\u{bytes:#04x}")
 				}
-				_ => fmt::Display::fmt(&c, f),
+				_ => f.write_char(c),
 			}?;
 		}
 
@@ -115,8 +116,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf {
 
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
@@ -129,8 +129,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for LangTag {
 
 impl RdfDisplay for LangTagBuf {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
-- 
2.43.0

