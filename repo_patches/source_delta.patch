From 2168477e7215aa6aed2e4e906f65169df1c15ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 01/22] fix: never allocate or free zero bytes

ResourceStore::new() allocated zero bytes and, on the first create, freed a
null pointer; zero-sized resources did the same on every growth.
---
 src/mem_utils.rs      | 23 +++++++++++++++++++----
 src/resource_store.rs |  5 +----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..d80b0b8 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -1,5 +1,5 @@
 use crate::mem_utils;
-use std::alloc::Layout;
+use std::{alloc::Layout, ptr::NonNull};
 
 pub trait PtrMutReallocExt<T> {
     unsafe fn realloc(self, old_capacity: usize, new_capacity: usize) -> Self;
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,12 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return;
+    }
+
+    std::alloc::dealloc(ptr as *mut u8, layout)
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..78abe33 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -9,10 +9,7 @@ pub struct ResourceStore<T> {
 
 impl<T> ResourceStore<T> {
     pub fn new() -> ResourceStore<T> {
-        ResourceStore {
-            elements: std::ptr::null_mut(),
-            entities_container: EntitiesContainer::new(0),
-        }
+        Self::with_capacity(0)
     }
 
     pub fn with_capacity(capacity: usize) -> ResourceStore<T> {
-- 
2.43.0


From 670184cbd36fb05c35c68517723d3dfb6cd5585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 02/22] fix: free the element array of a dropped ResourceStore

---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 78abe33..a7f02c0 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -85,5 +85,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 20ee383dbd1a7e9577d19d61eb5d22de4753fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 03/22] fix: limit a page to the entity capacity of its layout

The capacity of the id vector was used instead. It can be larger than the
layout allows (minimal vector capacity, or a page reused for larger
components), and components were then written outside of the page.
---
 src/archetype_data_page.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..68345bb 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entity_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -21,12 +22,13 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entity_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
-        let capacity = archetype.entities_capacity();
-        self.entities_ids.reserve(capacity);
+        self.entity_capacity = archetype.entities_capacity();
+        self.entities_ids.reserve(self.entity_capacity);
     }
 
     #[inline(always)]
@@ -36,7 +38,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entity_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From 5f5c9758546c799a6734e33697513da9af757398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 04/22] fix: find a reused archetype in the unsorted list of
 free archetypes

Binary search could miss it, and the slot was then given to another archetype
while it was in use.
---
 src/archetypes_container.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..ff168cb 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,10 +207,9 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
-                };
+                if let Some(free_idx) = self.free_archetypes.iter().position(|f| *f == i) {
+                    self.free_archetypes.remove(free_idx);
+                }
 
                 return i;
             }
-- 
2.43.0


From 87b3c4659158ad92b1ed215e1fa4380a28867531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 05/22] fix: take the entity of an ordered query item from the
 page of the item

Before the last item of a range the page of the previous range was used.
---
 src/query/ordered_component.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..547e78b 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -22,6 +22,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     range_pages: &'a [ComponentPageIterView<T>],
 
     next_range_index: u32,
+    current_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
 
@@ -162,6 +163,7 @@ impl Store {
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
             next_range_index: 0,
+            current_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
             len
@@ -177,7 +179,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             return None;
         }
 
-        let curr_range_index = self.next_range_index as usize;
+        self.current_range_index = self.next_range_index;
+        let curr_range_index = self.current_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
 
@@ -212,7 +215,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From e4d37869b18c734fef3cd8c0600eb349dbc81733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 06/22] fix: skip entities without components in ordered
 queries

---
 src/query/ordered_component.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547e78b..6bc90f7 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -89,6 +89,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { !self.has_archetype_unchecked(curr_entity) } {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -131,6 +136,7 @@ impl Store {
 
                 if (next_page_index != curr_page_index)
                     | (next_index_in_page != range_end)
+                    | unsafe { !self.has_archetype_unchecked(next_entity) }
                 {
                     break;
                 }
-- 
2.43.0


From d97da3016a8656b4a4f08a79fed9e381819537a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 07/22] fix: skip listed entities without components in
 entity-list queries

---
 src/query/entity_component.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..35a7d29 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -94,7 +94,9 @@ impl Store {
 
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if !self.is_valid_entity_with_archetype(inner_entity)
+                    | (range_page_index != page_index)
+                {
                     break;
                 }
 
-- 
2.43.0


From 26c2307377865bfe89607dd9980af6b3334f7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 08/22] fix: do not recurse over untagged entities in
 filter_tag

A long run of entities without the tag overflowed the stack.
---
 src/query/component.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..0504330 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -188,12 +188,12 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
+        while let Some((e, o)) = self.source_iter.next() {
+            if unsafe { bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) } {
+                return Some((e, o));
             }
-        })
+        }
+
+        None
     }
 }
-- 
2.43.0


From 5f7c43dc8129cb054080350bb3bb60bf1b224e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 09/22] fix: filtering by a tag that was never added yields
 nothing instead of a panic

---
 src/query/component.rs |  6 ++++--
 src/tag_container.rs   | 10 ++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 0504330..befeb52 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -34,7 +34,7 @@ pub struct WithEntitiesIter<'a, T: ComponentQueryAccess> {
 
 pub struct FilterTagIter<'a, T: ComponentQueryAccess> {
     source_iter: WithEntitiesIter<'a, T>,
-    entity_to_has_tag: *const u32,
+    entity_to_has_tag: Option<*const u32>,
 }
 
 pub fn readonly<R: ComponentTuple>() -> ComponentQuery<ReadonlyAccess<R>> {
@@ -188,8 +188,10 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
+        let entity_to_has_tag = self.entity_to_has_tag?;
+
         while let Some((e, o)) = self.source_iter.next() {
-            if unsafe { bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) } {
+            if unsafe { bitvec_utils::is_bit_on(entity_to_has_tag, e.id as usize) } {
                 return Some((e, o));
             }
         }
diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..ada6e1d 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -17,15 +17,13 @@ impl TagContainer {
         }
     }
 
-    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> *const u32 {
+    /// Returns `None` if the tag was never added to any entity
+    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> Option<*const u32> {
         let type_id = TypeId::of::<T>();
-        let tag_index = match self.tag_ids.binary_search(&type_id) {
-            Ok(i) => i,
-            Err(_) => panic!("Failed to find tag with id: {type_id:?}")
-        };
+        let tag_index = self.tag_ids.binary_search(&type_id).ok()?;
 
         unsafe {
-            *self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index)
+            Some(*self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index))
         }
     }
 
-- 
2.43.0


From 524cc290a6429af62a02b105db784554a0921606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 10/22] fix: is_exclude_ids answers correctly for unsorted id
 lists

---
 src/archetype.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..09c795b 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,9 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            if self_ids.binary_search(id).is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From 12e068bd850f8e9cc32c004dcd9b158ccf720d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 11/22] fix: allocate pages with an alignment that suits every
 component

Pages were allocated with alignment 1, so references to components with a
larger alignment than the allocator happens to give could be misaligned.
---
 src/archetype_data_page.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 68345bb..13ab513 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -13,11 +13,18 @@ pub(crate) struct SwapRemoveInfo {
     pub id_to_replace: u32,
 }
 
+/// Aligned to its size, so every component that fits in a page can be aligned there
+#[repr(align(16384))]
+struct ComponentsData {
+    _bytes: [u8; ArchetypeDataPage::PAGE_SIZE_BYTES],
+}
+
 impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
 
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr =
+            unsafe { mem_utils::alloc::<ComponentsData>(1) } as *mut u8;
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -159,6 +166,8 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe {
+            mem_utils::dealloc(self.components_data_ptr as *mut ComponentsData, 1)
+        };
     }
 }
-- 
2.43.0


From 4d3676a124fed98d56fdaf1047fdc4fe5761eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 12/22] fix: refuse component sets that do not fit in a page in
 every build

Only a debug assertion stopped them; without it components were written out of
the page.
---
 src/archetype_layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..fc97a03 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -16,6 +16,11 @@ impl ArchetypeLayout {
         let entities_capacity = unsafe {
             Self::calculate_entities_capacity(sizes, aligns, component_count)
         };
+        assert!(
+            entities_capacity > 0,
+            "Components of the archetype don't fit in a page"
+        );
+
         let offsets = unsafe {
             Self::calculate_offsets(sizes, aligns, component_count, entities_capacity)
         };
-- 
2.43.0


From 091ab6a5f7eb7ed9585a0deeb6631a9b4977b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 13/22] fix: leave space for row alignment when the page
 capacity is calculated

Sets with several components of alignment 16 or more could run into the
assertion on the page size although they fit with a smaller capacity.
---
 src/archetype_layout.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index fc97a03..35e13e1 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -47,15 +47,32 @@ impl ArchetypeLayout {
             ArchetypeDataPage::PAGE_SIZE_BYTES / component_count - max_align;
 
         let sizes = std::slice::from_raw_parts(sizes, component_count);
-        let entities_capacity = sizes
+        let mut entities_capacity = sizes
             .iter()
             .map(|s| bytes_per_components_row_approx / *s)
             .min()
             .unwrap();
 
+        // The approximation may leave too little space for the alignment of the rows
+        while Self::calculate_used_bytes(sizes, aligns, entities_capacity)
+            > ArchetypeDataPage::PAGE_SIZE_BYTES
+        {
+            entities_capacity -= 1;
+        }
+
         entities_capacity
     }
 
+    fn calculate_used_bytes(
+        sizes: &[usize],
+        aligns: &[usize],
+        entities_capacity: usize,
+    ) -> usize {
+        std::iter::zip(sizes, aligns).fold(0, |offset: usize, (size, align)| {
+            offset.next_multiple_of(*align) + size * entities_capacity
+        })
+    }
+
     unsafe fn calculate_offsets(
         sizes: *const usize,
         aligns: *const usize,
-- 
2.43.0


From e5df7e1c4741e9cb074cacdf00bf6c310e3b1725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 14/22] fix: destroying a dead handle leaves the entity with
 the same id alone

The components of the entity that uses the id now were removed before the
handle was validated.
---
 src/store.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store.rs b/src/store.rs
index f48a636..f341e84 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -83,6 +83,12 @@ impl Store {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
+        let is_alive = self.is_alive(entity);
+        debug_assert!(is_alive, "Entity is already dead");
+        if !is_alive {
+            return;
+        }
+
         let entity_id = entity.id;
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
-- 
2.43.0


From 04fbe38f42a0b7c013570a658e5c2b1a14ec4ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 15/22] fix: tag operations ignore handles of destroyed
 entities

They reached the entity that uses the same id now.
---
 src/tag_container.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tag_container.rs b/src/tag_container.rs
index ada6e1d..956521a 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -94,17 +94,21 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.add_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.add_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.remove_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.remove_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From 3f549537f6588eaa11b06b0ca61d1ebbeddaf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 16/22] fix: order group operations ignore handles of destroyed
 entities

They reached the entity that uses the same id now.
---
 src/order_group_container.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..f509716 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -341,6 +341,10 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container.add_id_ordered_by::<T>(entity.id);
     }
 
@@ -349,6 +353,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) | !self.is_alive(next_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
     }
@@ -358,16 +366,28 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) | !self.is_alive(previous_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container
             .remove_id_ordered_by::<T>(entity.id);
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -377,6 +397,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
-- 
2.43.0


From a0eac00d3b6270822504b24856e54d2cb70f39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 17/22] fix: refuse to add the only member of an order group
 again, and unknown neighbours

Adding the only member again linked it to itself, and inserting relative to an
entity outside of the group left broken links. Both are now refused by debug
assertions like the other misuses.
---
 src/order_group_container.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index f509716..7d04d09 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -43,6 +43,11 @@ impl OrderGroupContainer {
             tail,
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
+        debug_assert!(
+            *head != entity_id,
+            "Entity {entity_id} is already in the order group"
+        );
+
         if *head == Entity::NULL_ID {
             *head = entity_id;
             *tail = entity_id;
@@ -68,16 +73,27 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
+        debug_assert!(
+            *head != entity_id,
+            "Entity {entity_id} is already in the order group"
+        );
+
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
             Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
 
+            debug_assert!(
+                (*head == next_to_id)
+                    | (*backward_links.add(next_to_id as usize) != Entity::NULL_ID),
+                "Entity {next_to_id} is not in the order group"
+            );
+
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
                 *backward_links.add(*fwd_after_id as usize) = entity_id;
@@ -108,12 +124,23 @@ impl OrderGroupContainer {
             ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
+        debug_assert!(
+            *head != entity_id,
+            "Entity {entity_id} is already in the order group"
+        );
+
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
             Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
 
+            debug_assert!(
+                (*head == previous_to_id)
+                    | (*backward_links.add(previous_to_id as usize) != Entity::NULL_ID),
+                "Entity {previous_to_id} is not in the order group"
+            );
+
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
                 *forward_links.add(*bwd_previous_to_id as usize) = entity_id;
-- 
2.43.0


From d3e76a9a452e8af00cb0b7c6ec82ec1c8674ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 18/22] fix: refuse to order an entity relative to a dead one

---
 src/order_group_container.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 7d04d09..651fa97 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -380,6 +380,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
+        debug_assert!(
+            self.is_alive(next_to_entity),
+            "Can't order relative to a dead entity"
+        );
         if !self.is_alive(entity) | !self.is_alive(next_to_entity) {
             return;
         }
@@ -393,6 +397,10 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
+        debug_assert!(
+            self.is_alive(previous_to_entity),
+            "Can't order relative to a dead entity"
+        );
         if !self.is_alive(entity) | !self.is_alive(previous_to_entity) {
             return;
         }
-- 
2.43.0


From 294e09ff77d1ba498347870bf741ff41735d39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 19/22] fix: removing the last components of an entity leaves
 it without components

It panicked, because an archetype must not be empty.
---
 src/archetype_builder.rs |  4 ++++
 src/store.rs             | 14 ++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index bac7741..2d0b9c4 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -54,6 +54,10 @@ impl ArchetypeBuilder {
         self
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.component_types.is_empty()
+    }
+
     pub fn build(&mut self) -> Archetype {
         self.component_types.sort_by_key(|a| a.id());
 
diff --git a/src/store.rs b/src/store.rs
index f341e84..4bef366 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -182,12 +182,18 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
-        let new_arch = ArchetypeBuilder::new()
+        let mut new_arch_builder = ArchetypeBuilder::new();
+        new_arch_builder
             .include_archetype(&prev_arch)
-            .exclude_components::<T>()
-            .build();
+            .exclude_components::<T>();
 
-        self.move_entity_to_other_archetype(entity, &new_arch);
+        if new_arch_builder.is_empty() {
+            self.swap_remove_internal(prev_entity_in_arch);
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            return;
+        }
+
+        self.move_entity_to_other_archetype(entity, &new_arch_builder.build());
     }
 
     fn move_entity_to_other_archetype(
-- 
2.43.0


From 5fcfa6e74864adbec20b1e91e7570e69367cacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 20/22] fix: len() of query iterators counts the items that are
 left

---
 src/query/component.rs           | 2 ++
 src/query/component_page_iter.rs | 2 +-
 src/query/ordered_component.rs   | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index befeb52..fcc34b1 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -124,6 +124,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         let current_iter = &mut self.current_page_iter;
 
         if let Some(val) = current_iter.next() {
+            self.queried_entities_count -= 1;
             return Some(val);
         }
 
@@ -133,6 +134,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
                 unsafe { self.page_views.get_unchecked(self.current_page_index) };
 
             self.current_page_iter = ComponentPageIter::new(*page_view);
+            self.queried_entities_count -= 1;
 
             return self.current_page_iter.next();
         }
diff --git a/src/query/component_page_iter.rs b/src/query/component_page_iter.rs
index cc31c9f..2fd73aa 100644
--- a/src/query/component_page_iter.rs
+++ b/src/query/component_page_iter.rs
@@ -52,6 +52,6 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentPageIter<'a, T> {
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentPageIter<'a, T> {
     fn len(&self) -> usize {
-        self.view.entity_count
+        self.view.entity_count - self.next_entity_index
     }
 }
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 6bc90f7..9762418 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -197,6 +197,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             self.next_offset_from_range += 1;
         }
 
+        self.len -= 1;
+
         let page_view = unsafe { self.range_pages.get_unchecked(curr_range_index) };
         let ptrs = T::add_to_ptrs(&page_view.ptrs, self.current_index_in_page as usize);
 
-- 
2.43.0


From afa62139149df1ca790388c75bf43b038c187b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 21/22] fix: including an archetype must not double the
 builder's memory every time

---
 src/archetype_builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index 2d0b9c4..00aa177 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -42,8 +42,7 @@ impl ArchetypeBuilder {
     }
 
     pub fn include_archetype(&mut self, archetype: &Archetype) -> &mut Self {
-        self.component_types
-            .reserve(self.component_types.capacity() + archetype.component_count());
+        self.component_types.reserve(archetype.component_count());
 
         for comp in archetype.components_iter() {
             if !self.component_types.contains(&comp) {
-- 
2.43.0


From 5784d1650bc8634bb1139565513de0d8264f5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:01 +0000
Subject: [PATCH 22/22] fix: component_types! names the library's type from any
 crate

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index bde12c1..1fa5e8f 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,7 +1,7 @@
 #[macro_export]
 macro_rules! component_types {
     ($($T:ident), *) => {
-        [$(crate::ComponentType::of::<$T>()),*]
+        [$($crate::ComponentType::of::<$T>()),*]
     };
 }
 
-- 
2.43.0

