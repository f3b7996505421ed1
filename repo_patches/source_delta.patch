From 9e99b04b7b3cb8e0a552927afc3fa0886a423caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:08 +0000
Subject: [PATCH 01/23] fix: advance the generation in remove_by before calling
 the predicate

If the predicate panicked after some entries were removed, the generation
was not advanced, and a later insertion could return a pointer equal to one
of the removed entries' pointers.
---
 triple_arena/src/arena/base_arena.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 38cd671..9a6c66d 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -624,6 +624,9 @@ impl<P: Ptr, T> Arena<P, T> {
     /// to that `T` and a mutable reference to the `T`. If `pred` returns `true`
     /// that `T` is dropped and pointers to it invalidated.
     pub fn remove_by<F: FnMut(P, &mut T) -> bool>(&mut self, mut pred: F) {
+        // we only need one increment, and it needs to happen first in case `pred`
+        // panics after some entries have already been removed
+        self.inc_gen();
         for inx in self.m.nziter() {
             let entry = self.m.get_mut(inx).unwrap();
             let inx = P::Inx::new(inx);
@@ -641,8 +644,6 @@ impl<P: Ptr, T> Arena<P, T> {
                 }
             }
         }
-        // we only need one increment
-        self.inc_gen();
     }
 
     /// Invalidates all references to the `T` pointed to by `p`, and returns a
-- 
2.43.0


From 5c205ca21b13bcd064633a88c996c4d33f57a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:08 +0000
Subject: [PATCH 02/23] fix: do not form an out of range index in Arena::clear

Clearing an arena whose capacity equals the maximum of its index type
panicked, because the successor of the last index was converted to the
index type before being replaced.
---
 triple_arena/src/arena/base_arena.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 9a6c66d..a0b9280 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -754,10 +754,12 @@ impl<P: Ptr, T> Arena<P, T> {
     /// created from it. This has no effect on allocated capacity.
     pub fn clear(&mut self) {
         // drop all `T` and recreate the freelist
+        let len = self.m.len();
         for i in self.m.nziter() {
             // Safety: `isize::MAX` guarantee
             unsafe {
-                let next = ptrinx_unchecked(i.get().wrapping_add(1));
+                // the last node is fixed below, there may be no valid index after it
+                let next = ptrinx_unchecked(i.get().wrapping_add(1).min(len));
                 *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(next);
             }
         }
-- 
2.43.0


From 16d36d237204bc88b980cc6031f0a1643ac6b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:08 +0000
Subject: [PATCH 03/23] fix: let Arena::insert_with grow up to the index limit

The doubled reservation was not limited to the maximum index like in
Arena::insert, so insert_with panicked at half of the possible length.
---
 triple_arena/src/arena/base_arena.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index a0b9280..f537bdb 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -477,8 +477,16 @@ impl<P: Ptr, T> Arena<P, T> {
                 // need at least one
                 additional = 1;
             }
+            // make sure to not make `reserve` panic
+            let new_len = self
+                .len()
+                .saturating_add(additional)
+                .clamp(0, <P::Inx as PtrInx>::max().get());
+            additional = new_len.wrapping_sub(self.len());
             self.reserve(additional);
-            self.freelist_root.unwrap()
+            self.freelist_root.expect(
+                "called `insert_with` on an `Arena<P, T>` with maximum length `P::Inx::max()`",
+            )
         };
         let ptr = P::_from_raw(inx, self.generation());
         self.unwrap_replace_free(inx, self.generation(), create(ptr));
-- 
2.43.0


From d829cd0952f71179a122470d3646f6a20e25faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:08 +0000
Subject: [PATCH 04/23] fix: do not advance the generation for every item of a
 capacity drain

The arena is consumed, so no pointer can outlive the drain. Consuming more
entries than the generation type can count panicked.
---
 triple_arena/src/arena/arena_iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/arena_iterators.rs b/triple_arena/src/arena/arena_iterators.rs
index 6a550fd..9623d85 100644
--- a/triple_arena/src/arena/arena_iterators.rs
+++ b/triple_arena/src/arena/arena_iterators.rs
@@ -166,7 +166,7 @@ impl<P: Ptr, T> Iterator for CapacityDrain<P, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.adv
             .advance(&self.arena)
-            .map(|p| (p, self.arena.remove(p).unwrap()))
+            .map(|p| (p, self.arena.remove_internal_inx_unwrap(p.inx(), false)))
     }
 }
 
-- 
2.43.0


From 00f48ed2c64ec82b6116923767977cfd66df64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:07 +0000
Subject: [PATCH 05/23] fix: do not accept an invalidated pointer as the next
 neighbor

are_neighbors compared indexes only, so a stale p_next of a reused slot
was reported as a neighbor and accepted by ChainArena::insert.
---
 triple_arena/src/chain/chain_arena.rs        | 2 +-
 triple_arena/src/chain/chain_no_gen_arena.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index af2b308..5d74e8b 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -471,7 +471,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p.inx() == p_next.inx() {
+                if p == p_next {
                     // `p1` must implicitly exist if the invariants hold
                     are_neighbors = true;
                 }
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index c8ce34c..c071a48 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -394,8 +394,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p == p_next.inx() {
-                    // `p1` must implicitly exist if the invariants hold
+                if (p == p_next.inx()) && self.a.contains(p_next) {
                     are_neighbors = true;
                 }
             }
-- 
2.43.0


From c0782b4c2fb4de6f7e93accde8d13b37dee6520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:34 +0000
Subject: [PATCH 06/23] fix: surject advancers do not follow an invalid initial
 pointer

---
 triple_arena/src/surject/surject_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_iterators.rs b/triple_arena/src/surject/surject_iterators.rs
index cfb3cd4..a16a2d7 100644
--- a/triple_arena/src/surject/surject_iterators.rs
+++ b/triple_arena/src/surject/surject_iterators.rs
@@ -205,7 +205,11 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
     pub fn advancer_surject(&self, p_init: P) -> SurjectPtrAdvancer<P, K, V> {
         SurjectPtrAdvancer {
             init: p_init.inx(),
-            ptr: Some(p_init.inx()),
+            ptr: if self.contains(p_init) {
+                Some(p_init.inx())
+            } else {
+                None
+            },
             max_advances: self.len_keys(),
             _boo: PhantomData,
         }
-- 
2.43.0


From 3461ae1f27e1beb1f26f3d78437020891a613408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:34 +0000
Subject: [PATCH 07/23] fix: keep value associations in
 SurjectArena::clone_from_with

---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index f7c0679..5bca561 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -754,7 +754,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             let k = map_key(p, &link.t.k);
             Key {
                 k,
-                p_val: Ptr::_from_raw(p.inx(), ()),
+                p_val: link.t.p_val,
             }
         });
         self.vals.clone_from_with(&source.vals, |_, val| {
-- 
2.43.0


From 0b7f2ebe92722d6f18dc87aee3de8cfee3e20840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:35 +0000
Subject: [PATCH 08/23] fix: compare keys of both arenas in SurjectArena::eq

---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 5bca561..883f1a3 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -850,7 +850,7 @@ impl<P: Ptr, K: PartialEq, V: PartialEq> PartialEq<SurjectArena<P, K, V>>
                     return false
                 }
                 let key0 = self.keys.get_inx_unwrap(p0.inx());
-                let key1 = self.keys.get_inx_unwrap(p1.inx());
+                let key1 = other.keys.get_inx_unwrap(p1.inx());
                 // make sure not to depend on `p_val`
                 if key0.prev_next() != key1.prev_next() {
                     return false
-- 
2.43.0


From d1e9f8519fc472778864b665d19afb3a859f4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:50 +0000
Subject: [PATCH 09/23] fix: count an inserted SurjectArena key only after its
 insertion succeeded

---
 triple_arena/src/surject/surject_arena.rs | 34 ++++++++++++-----------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 883f1a3..0f05929 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -331,15 +331,16 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             None => return Err(k),
             Some(key) => key.p_val,
         };
-        self.vals[p_val].key_count = NonZeroUsize::new(
-            self.vals
-                .get_inx_unwrap(p_val.inx())
-                .key_count
-                .get()
-                .wrapping_add(1),
-        )
-        .unwrap();
         if let Ok(p) = self.keys.insert((Some(p.inx()), None), Key { k, p_val }) {
+            // not before the insertion, which can panic
+            self.vals[p_val].key_count = NonZeroUsize::new(
+                self.vals
+                    .get_inx_unwrap(p_val.inx())
+                    .key_count
+                    .get()
+                    .wrapping_add(1),
+            )
+            .unwrap();
             Ok(p)
         } else {
             unreachable!()
@@ -356,18 +357,19 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             None => return None,
             Some(key) => key.p_val,
         };
-        self.vals[p_val].key_count = NonZeroUsize::new(
-            self.vals
-                .get_inx_unwrap(p_val.inx())
-                .key_count
-                .get()
-                .wrapping_add(1),
-        )
-        .unwrap();
         if let Some(p) = self.keys.insert_with((Some(p.inx()), None), |p_link| Key {
             k: create_k(p_link),
             p_val,
         }) {
+            // not before the insertion, which can panic
+            self.vals[p_val].key_count = NonZeroUsize::new(
+                self.vals
+                    .get_inx_unwrap(p_val.inx())
+                    .key_count
+                    .get()
+                    .wrapping_add(1),
+            )
+            .unwrap();
             Some(p)
         } else {
             unreachable!()
-- 
2.43.0


From f0542478d3a5c5bfb7ed621eea1aac2ba1cec68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:50 +0000
Subject: [PATCH 10/23] fix: do not leave a value without key behind if
 SurjectArena::insert panics

---
 triple_arena/src/surject/surject_arena.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 0f05929..d45586e 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -292,11 +292,8 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
 
     /// Inserts a new key and associated value. Returns a `Ptr` to the key.
     pub fn insert(&mut self, k: K, v: V) -> P {
-        let p_val = self.vals.insert(Val {
-            v,
-            key_count: NonZeroUsize::new(1).unwrap(),
-        });
-        self.keys.insert_new_cyclic(Key { k, p_val })
+        // the value must not stay behind if the key insertion panics
+        self.insert_with(|_| (k, v))
     }
 
     /// Inserts a surject into the arena, using the `K` and `V` returned by
-- 
2.43.0


From 852d79067130b5f5a3701f3199463cba430908d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:40 +0000
Subject: [PATCH 11/23] fix: OrdArena::advancer_starting_from does not follow
 an invalid pointer

---
 triple_arena/src/ord/ord_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 4575dcd..06511ca 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -213,7 +213,11 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// the next greater entry is _not_ supported during each advancement.
     pub fn advancer_starting_from(&self, p_start: P) -> PtrAdvancer<P, K, V> {
         PtrAdvancer {
-            ptr: Some(p_start.inx()),
+            ptr: if self.contains(p_start) {
+                Some(p_start.inx())
+            } else {
+                None
+            },
             _boo: PhantomData,
         }
     }
-- 
2.43.0


From 07920873d1be44d245cf5b20af22bc8a75b18de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:40 +0000
Subject: [PATCH 12/23] fix: copy the root and the ends in
 OrdArena::clone_from_with

---
 triple_arena/src/ord/ord_arena.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_arena.rs b/triple_arena/src/ord/ord_arena.rs
index bf7f28d..6e8af26 100644
--- a/triple_arena/src/ord/ord_arena.rs
+++ b/triple_arena/src/ord/ord_arena.rs
@@ -498,7 +498,10 @@ impl<P: Ptr, K: Clone, V0> OrdArena<P, K, V0> {
             p_tree0: link.t.p_tree0,
             p_tree1: link.t.p_tree1,
             rank: link.t.rank,
-        })
+        });
+        self.root = source.root;
+        self.first = source.first;
+        self.last = source.last;
     }
 }
 
-- 
2.43.0


From 5dcb4acdc699b568693e8b9f96c48f2f21e97af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:40 +0000
Subject: [PATCH 13/23] fix: do not panic when deserializing an empty OrdArena

---
 triple_arena/src/traits/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 18fe964..9608b35 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -472,7 +472,9 @@ where
             first: tmp,
             last: tmp,
         };
-        res.raw_rebalance_assuming_compressed();
+        if !res.is_empty() {
+            res.raw_rebalance_assuming_compressed();
+        }
         Ok(res)
     }
 }
-- 
2.43.0


From 20dde8cb5a8b5e311d05a7d60e3afdb7ed0b3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:40 +0000
Subject: [PATCH 14/23] fix: return an error for a serialized OrdArena that
 exceeds the index type

---
 triple_arena/src/traits/serde.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 9608b35..c400bfa 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -444,6 +444,12 @@ where
         let mut i = 1usize;
         let mut last = None;
         while let Some((k, v)) = access.next_entry::<K, V>()? {
+            if i > <P::Inx as PtrInx>::max().get() {
+                return Err(Error::custom(
+                    "when deserializing an `OrdArena`, encountered more entries than the index \
+                     type can represent",
+                ))
+            }
             let p = PtrInx::new(NonZeroUsize::new(i).unwrap());
             if let Some(last) = last {
                 a.get_inx_mut_unwrap(last).prev_next.1 = Some(p);
-- 
2.43.0


From 128d589a887434191b59118345366cc4e50e9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:16 +0000
Subject: [PATCH 15/23] fix: advance the generation only once when compressing
 chains and ordered arenas

Every entry that was moved advanced the generation of the old storage, so
compressing more entries than the generation type can count panicked.
---
 triple_arena/src/chain/chain_arena.rs        |  6 +++---
 triple_arena/src/chain/chain_no_gen_arena.rs | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index 5d74e8b..d0f51bf 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -768,7 +768,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next().map(|p| p.inx());
@@ -792,7 +792,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next().map(|p| p.inx());
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -819,7 +819,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev().map(|p| p.inx());
                     let t = link.t;
                     let q = new.insert(Link::new((None, Some(q_next)), t));
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index c071a48..c521f63 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -723,7 +723,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next();
@@ -748,7 +748,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next();
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -776,7 +776,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev();
                     let t = link.t;
                     let q = new.insert(LinkNoGen::new((None, Some(q_next.inx())), t));
@@ -804,7 +804,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut new = Arena::<P, LinkNoGen<P, T>>::with_capacity(self.len());
         new.set_gen(generation);
         let p_init = first_link;
-        let link = self.a.remove(p_init).unwrap();
+        let link = self.a.remove_internal(p_init, false).unwrap();
         let mut p_next = link.next();
         let mut q_prev = new.insert(LinkNoGen::new((None, None), link.t));
         map(p_init, &mut new.get_inx_mut_unwrap(q_prev.inx()).t, q_prev);
@@ -812,7 +812,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             p_next = if let Some(p_next) = p_next {
                 let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                 let p = Ptr::_from_raw(p_next, p_gen);
-                let link = self.a.remove(p).unwrap();
+                let link = self.a.remove_internal(p, false).unwrap();
                 let tmp_next = link.next();
                 let t = link.t;
                 let q = new.insert(LinkNoGen::new((Some(q_prev.inx()), None), t));
-- 
2.43.0


From cfe6bf7256c47af66fc4d93c6ffaa356e8068a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:40 +0000
Subject: [PATCH 16/23] fix: do not advance the generation while an OrdArena is
 consumed

Iterating over a consumed arena with more entries than the generation type
can count panicked.
---
 triple_arena/src/ord/ord_iterators.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 06511ca..359ec16 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -159,10 +159,11 @@ impl<P: Ptr, K, V> Iterator for CapacityDrain<P, K, V> {
     type Item = (P, K, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO we can definitely do this more efficiently
+        // the arena is consumed, so neither the tree nor the generation need to be
+        // maintained
         self.adv.advance(&self.arena).map(|p| {
-            let res = self.arena.remove(p).unwrap();
-            (p, res.0, res.1)
+            let res = self.arena.a.a.remove_internal_inx_unwrap(p.inx(), false);
+            (p, res.t.k, res.t.v)
         })
     }
 }
-- 
2.43.0


From 64801bf3900fbfed365438c064fa3505c211b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:22 +0000
Subject: [PATCH 17/23] fix: reject a serialized SurjectArena with different
 values in one key chain

---
 triple_arena/src/surject/surject_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index d45586e..4133d9c 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -202,6 +202,9 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                     }
                     c = c.checked_sub(1).unwrap();
                     let (_, link) = this.keys.get_no_gen(tmp).unwrap();
+                    if link.t.p_val != this.keys.get(p).unwrap().p_val {
+                        return Err("key chain has keys associated with different values")
+                    }
                     if let Some(next) = link.next() {
                         tmp = next;
                     } else {
-- 
2.43.0


From b0a0d300594093dd4e6d7b987e038e6dccfad008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:22 +0000
Subject: [PATCH 18/23] fix: do not trust the size hint when deserializing
 arenas

---
 triple_arena/src/traits/serde.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index c400bfa..8185c88 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -246,7 +246,8 @@ where
     {
         let mut a = Arena::new();
         if let Some(hint) = access.size_hint() {
-            a.m.reserve(hint);
+            // the hint may be wrong, in which case it must not cause a huge allocation
+            a.m.reserve(hint.min(4096));
         }
 
         while let Some((p, t)) = access.next_entry::<P::Inx, T>()? {
@@ -438,7 +439,8 @@ where
     {
         let mut a: Arena<P, LinkNoGen<P, Node<P, K, V>>> = Arena::new();
         if let Some(hint) = access.size_hint() {
-            a.m.reserve(hint);
+            // the hint may be wrong, in which case it must not cause a huge allocation
+            a.m.reserve(hint.min(4096));
         }
 
         let mut i = 1usize;
-- 
2.43.0


From 17ffe3e4fd386ebf428d11057314c4cb9a341e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:04 +0000
Subject: [PATCH 19/23] fix: panic instead of reserving too little when a
 capacity overflows

---
 triple_arena/src/arena/nonzero_inx_vec.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/arena/nonzero_inx_vec.rs b/triple_arena/src/arena/nonzero_inx_vec.rs
index 94736c7..7bb205c 100644
--- a/triple_arena/src/arena/nonzero_inx_vec.rs
+++ b/triple_arena/src/arena/nonzero_inx_vec.rs
@@ -181,8 +181,11 @@ impl<T> NonZeroInxVec<T> {
             // capacity, where the user probably knows the exact needed amount
             max(minimum, additional)
         } else {
-            let minimum = self.len().wrapping_add(additional);
-            let bumped = minimum.next_power_of_two();
+            let bumped = self
+                .len()
+                .checked_add(additional)
+                .and_then(usize::checked_next_power_of_two)
+                .expect("`NonZeroInxVec::reserve` capacity overflow");
             if bumped <= self.capacity() {
                 // already have the needed capacity
                 return
-- 
2.43.0


From f46ea0f0e55f353acba95223601c15cf1486b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:35 +0000
Subject: [PATCH 20/23] fix: break render cycles that can be reached from a
 root

---
 triple_arena_render/src/grid_process.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 0b93973..7853e65 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -215,9 +215,6 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
     }
 
-    // the initial visit number in this case
-    let prev_visit = NonZeroU64::new(1).unwrap();
-
     // DFS for conversion to DAG
     // path from root, with the `usize` indicating which sink was followed
     let on_stack_visit = next_visit();
@@ -225,7 +222,7 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     let mut path: Vec<(usize, P)> = vec![];
     for start in &starts {
         let start = *start;
-        if dag[start].visit == prev_visit {
+        if dag[start].visit != dfs_explored_visit {
             path.push((0, start));
             loop {
                 let len = path.len();
@@ -235,7 +232,9 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
                 match dag[current].sinks.get(path[len - 1].0) {
                     Some(edge) => {
                         let p0 = edge.to;
-                        if dag[p0].visit == prev_visit {
+                        if (dag[p0].visit != on_stack_visit)
+                            && (dag[p0].visit != dfs_explored_visit)
+                        {
                             // explore further
                             path.push((0, p0));
                         } else if dag[p0].visit == on_stack_visit {
-- 
2.43.0


From 0949223d1cd36453f71ada7ca2596ceb9cdf479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:13 +0000
Subject: [PATCH 21/23] fix: do not take an unused index for valid when
 rendering without generations

---
 triple_arena_render/src/grid_process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 7853e65..3c552fa 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -127,7 +127,7 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     while let Some(p0) = adv.advance(&dag) {
         for i0 in 0..dag[p0].sinks.len() {
             let p1 = dag[p0].sinks[i0].to;
-            if !dag.contains(p1) {
+            if !arena.contains(p1) {
                 let p1_prime = dag.insert(ANode {
                     sources: vec![Edge {
                         to: p0,
@@ -142,7 +142,7 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
         for i0 in 0..dag[p0].sources.len() {
             let p1 = dag[p0].sources[i0].to;
-            if !dag.contains(p1) {
+            if !arena.contains(p1) {
                 let p1_prime = dag.insert(ANode {
                     center: vec![format!("{:?}(invalid)", p1)],
                     sinks: vec![Edge {
-- 
2.43.0


From 2349beed65b0384e5cefa20234ea5dda833ef634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:48 +0000
Subject: [PATCH 22/23] fix: do not exhaust the indices or generations of the
 user's pointer type when rendering

The renderer kept the pairs of nodes and the rows in arenas that use the
pointer type of the rendered arena, and removed every node once from a copy
of it.  With narrow types a graph of 16 unconnected nodes made it panic.
---
 triple_arena_render/src/grid_process.rs | 34 ++++++++++++-------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 3c552fa..94defc0 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -314,7 +314,9 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     // the `(P, P)` tuple is ordered for uniqueness, the first weight indicates `<`
     // preference and the second `>`. The bool allows only one extra layer of new
     // transitives to be made.
-    let mut orderings = OrdArena::<P, (P, P), (u64, u64, bool)>::new();
+    // There can be more pairs than `P` can index.
+    ptr_struct!(POrdering());
+    let mut orderings = OrdArena::<POrdering, (P, P), (u64, u64, bool)>::new();
     let mut f = |p0: P, p1: P, swap: bool, init_weight: u64| {
         let (pair, mut weight) = match p0.cmp(&p1) {
             Ordering::Less => ((p0, p1), (init_weight, 0)),
@@ -504,22 +506,16 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     let mut chains = Vec::<Reverse<(usize, Vec<P>)>>::new();
     let mut adv = total_ordering.advancer();
     while let Some(mut p) = adv.advance(&total_ordering) {
-        // move to the start of a chain as we encounter one
-        while let Some(prev) = total_ordering.get_link(p).unwrap().prev() {
-            p = prev;
-        }
-        // remove the chain and record it in order
-        let mut chain = vec![];
-        loop {
-            if let Some(next) = total_ordering.get_link(p).unwrap().next() {
-                chain.push(p);
-                total_ordering.remove(p).unwrap();
-                p = next;
-            } else {
-                chain.push(p);
-                total_ordering.remove(p).unwrap();
-                break
-            }
+        // only consider the starts of chains
+        if total_ordering.get_link(p).unwrap().prev().is_some() {
+            continue
+        }
+        // record the chain in order, do not remove from it because `P` may not have
+        // enough generations
+        let mut chain = vec![p];
+        while let Some(next) = total_ordering.get_link(p).unwrap().next() {
+            chain.push(next);
+            p = next;
         }
         chains.push(Reverse((chain.len(), chain)));
     }
@@ -674,7 +670,9 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         grid_pos0: usize,
         p: P,
     }
-    let mut horizontals: Vec<OrdArena<P, HInfo<P>, ()>> = vec![];
+    // `P` may not have enough generations for moving the nodes around
+    ptr_struct!(PHorizontal());
+    let mut horizontals: Vec<OrdArena<PHorizontal, HInfo<P>, ()>> = vec![];
     let mut max_y = 0;
     for p in ptrs.iter().copied() {
         max_y = max(max_y, dag[p].grid_position.1);
-- 
2.43.0


From 7167b51ed5578a3bdc693fc2a7daae7fbab415b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:49 +0000
Subject: [PATCH 23/23] fix: treat indices that do not fit in a usize as out of
 range

An index of a 16 byte pointer type was truncated, so that a pointer with an
index of 2^64 or more denoted the entry with the truncated index or panicked.
Such indices now saturate, and are rejected when an arena is deserialized.
---
 triple_arena/src/traits/ptr.rs       | 6 +++---
 triple_arena/src/traits/ptr_serde.rs | 6 +++---
 triple_arena/src/traits/serde.rs     | 6 ++++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/triple_arena/src/traits/ptr.rs b/triple_arena/src/traits/ptr.rs
index 945de41..c1103a6 100644
--- a/triple_arena/src/traits/ptr.rs
+++ b/triple_arena/src/traits/ptr.rs
@@ -112,8 +112,8 @@ pub unsafe trait PtrInx:
     /// Note: this should be truncating or zero extending cast, higher level
     /// functions should handle fallible cases
     fn new(inx: NonZeroUsize) -> Self;
-    /// Note: this should be truncating or zero extending cast, higher level
-    /// functions should handle fallible cases
+    /// Note: this should be saturating or zero extending cast, no arena has an
+    /// entry for an index that does not fit in a `usize`
     fn get(this: Self) -> NonZeroUsize;
     /// The maximum representable value, which should be truncated down to
     /// `usize::MAX` if necessary
@@ -131,7 +131,7 @@ macro_rules! impl_ptr_inx {
 
                 #[inline]
                 fn get(this: Self) -> NonZeroUsize {
-                    NonZeroUsize::new(this.get() as usize).unwrap()
+                    NonZeroUsize::new(this.get().min(usize::MAX as $x) as usize).unwrap()
                 }
 
                 #[inline]
diff --git a/triple_arena/src/traits/ptr_serde.rs b/triple_arena/src/traits/ptr_serde.rs
index c3620ec..22458cc 100644
--- a/triple_arena/src/traits/ptr_serde.rs
+++ b/triple_arena/src/traits/ptr_serde.rs
@@ -115,8 +115,8 @@ pub unsafe trait PtrInx:
     /// Note: this should be truncating or zero extending cast, higher level
     /// functions should handle fallible cases
     fn new(inx: NonZeroUsize) -> Self;
-    /// Note: this should be truncating or zero extending cast, higher level
-    /// functions should handle fallible cases
+    /// Note: this should be saturating or zero extending cast, no arena has an
+    /// entry for an index that does not fit in a `usize`
     fn get(this: Self) -> NonZeroUsize;
     /// The maximum representable value, which should be truncated down to
     /// `usize::MAX` if necessary
@@ -134,7 +134,7 @@ macro_rules! impl_ptr_inx {
 
                 #[inline]
                 fn get(this: Self) -> NonZeroUsize {
-                    NonZeroUsize::new(this.get() as usize).unwrap()
+                    NonZeroUsize::new(this.get().min(usize::MAX as $x) as usize).unwrap()
                 }
 
                 #[inline]
diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 8185c88..ea2bf30 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -251,6 +251,12 @@ where
         }
 
         while let Some((p, t)) = access.next_entry::<P::Inx, T>()? {
+            if p > PtrInx::new(<P::Inx as PtrInx>::max()) {
+                return Err(Error::custom(
+                    "when deserializing a `triple_arena` arena, encountered a pointer index key \
+                     that no arena can have",
+                ))
+            }
             let i = PtrInx::get(p).get();
             if i > a.capacity() {
                 for _ in 0..(i.wrapping_sub(a.capacity())) {
-- 
2.43.0

