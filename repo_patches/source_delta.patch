From d7ac0f5b94d3c1899e2f68e4a2f8c8ea6f11786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:31 +0000
Subject: [PATCH 01/21] verif hook: derive Clone/Hash on storages and caches
 under cfg(sequential_storage_verif)

---
 src/cache/key_pointers.rs  | 2 ++
 src/cache/mod.rs           | 3 +++
 src/cache/page_pointers.rs | 2 ++
 src/cache/page_states.rs   | 3 +++
 src/lib.rs                 | 4 ++++
 src/map.rs                 | 1 +
 src/queue/buffered.rs      | 2 ++
 src/queue/mod.rs           | 1 +
 8 files changed, 18 insertions(+)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 726eec1..1e49b8f 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -24,6 +24,7 @@ pub trait KeyPointersCache<KEY>: SealedKeyPointersCache<KEY> {}
 /// The array may be smaller than the amount of keys, but that will reduce performance.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct ArrayKeyPointers<KEY: Key, const KEYS: usize> {
     key_pointers: [Option<(KEY, NonZeroU32)>; KEYS],
 }
@@ -77,6 +78,7 @@ impl<const KEYS: usize, KEY: Key> KeyPointersCache<KEY> for ArrayKeyPointers<KEY
 /// The vec may be smaller than the amount of keys, but that will reduce performance.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct HeapKeyPointers<KEY: Key> {
     key_pointers: alloc::vec::Vec<Option<(KEY, NonZeroU32)>>,
 }
diff --git a/src/cache/mod.rs b/src/cache/mod.rs
index 5a1a83c..a4416fa 100644
--- a/src/cache/mod.rs
+++ b/src/cache/mod.rs
@@ -88,6 +88,7 @@ pub trait CacheImpl<KEY>: SealedCacheImpl + SealedKeyCacheImpl<KEY> {}
 /// If the number is lower than the actual amount, the code will panic.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct Cache<
     PAGE: PageStatesCache,
     POINTERS: PagePointersCache,
@@ -235,6 +236,7 @@ impl<PAGE: PageStatesCache, POINTERS: PagePointersCache, KEYS: KeyPointersCache<
 
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub(crate) struct DirtTracker {
     /// Managed from the library code.
     ///
@@ -267,6 +269,7 @@ impl DirtTracker {
 /// A cache object implementing no cache.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct Uncached;
 
 impl SealedPageStatesCache for Uncached {
diff --git a/src/cache/page_pointers.rs b/src/cache/page_pointers.rs
index fdf23fd..ee9b4e9 100644
--- a/src/cache/page_pointers.rs
+++ b/src/cache/page_pointers.rs
@@ -39,6 +39,7 @@ pub trait PagePointersCache: SealedPagePointersCache {}
 /// A cache that stores page pointers in an array.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct ArrayPagePointers<const PAGE_COUNT: usize> {
     after_erased_pointers: [Option<NonZeroU32>; PAGE_COUNT],
     after_written_pointers: [Option<NonZeroU32>; PAGE_COUNT],
@@ -119,6 +120,7 @@ impl<const PAGE_COUNT: usize> PagePointersCache for ArrayPagePointers<PAGE_COUNT
 /// A cache that stores page pointers in a vec.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct HeapPagePointers {
     after_erased_pointers: alloc::vec::Vec<Option<NonZeroU32>>,
     after_written_pointers: alloc::vec::Vec<Option<NonZeroU32>>,
diff --git a/src/cache/page_states.rs b/src/cache/page_states.rs
index eb3eab1..e63c245 100644
--- a/src/cache/page_states.rs
+++ b/src/cache/page_states.rs
@@ -40,6 +40,7 @@ pub trait PageStatesCache: SealedPageStatesCache {}
 ///
 /// We don't have to care about corruption, because when corruption is repaired the cache is invalidated.
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct CalculatedPageStates {
     page_count: usize,
     anchor: Option<usize>,
@@ -246,6 +247,7 @@ impl PageStatesCache for CalculatedPageStates {}
 /// A cache that stores page states in an array.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct ArrayPageStates<const PAGE_COUNT: usize> {
     pages: [Option<PageState>; PAGE_COUNT],
 }
@@ -286,6 +288,7 @@ impl<const PAGE_COUNT: usize> PageStatesCache for ArrayPageStates<PAGE_COUNT> {}
 /// A cache that stores page states in a vec.
 #[derive(Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct HeapPageStates {
     pages: alloc::vec::Vec<Option<PageState>>,
 }
diff --git a/src/lib.rs b/src/lib.rs
index 37fb23a..1f2ff21 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,8 @@
 #![warn(missing_docs)]
 #![doc = include_str!("../README.md")]
 #![allow(clippy::cast_possible_truncation)]
+// `cfg(sequential_storage_verif)` is only set by external verification harnesses.
+#![allow(unexpected_cfgs)]
 
 use core::num::NonZeroUsize;
 use core::{
@@ -43,6 +45,7 @@ const MAX_WORD_SIZE: usize = 32;
 /// - queue: [`queue::QueueStorage::new`]
 ///
 /// You can [`Self::destroy`] this type to get back the flash and the cache.
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 struct GenericStorage<S: NorFlash, C: CacheImpl<KEY>, KEY> {
     flash: S,
     flash_range: Range<u32>,
@@ -464,6 +467,7 @@ const MARKER: u8 = 0;
 /// The state of a page
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
+#[cfg_attr(sequential_storage_verif, derive(Hash))]
 pub enum PageState {
     /// This page was fully written and has now been sealed
     Closed,
diff --git a/src/map.rs b/src/map.rs
index 88a4bda..84ed536 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -153,6 +153,7 @@ pub enum MapConfigError {
 /// ```
 ///
 /// For your convenience there are premade implementations for the [Key] and [Value] traits.
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct MapStorage<K: Key, S: NorFlash, C: CacheImpl<K>> {
     inner: GenericStorage<S, C, K>,
     _phantom: PhantomData<K>,
diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..1989827 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -40,6 +40,7 @@ use crate::{Error, cache::CacheImpl};
 ///
 /// Each item is stored as a 2-byte little-endian length prefix followed by the item's bytes,
 /// so the usable capacity for data is `N - 2` bytes per item at most.
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 struct RamRing<const N: usize> {
     buf: [u8; N],
     read_pos: usize,
@@ -213,6 +214,7 @@ pub enum OverflowPolicy {
 /// ```
 ///
 /// For ISR-safe use, enable the `shared-ram-ring` feature and use [`SharedRamRing`] instead.
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct BufferedQueue<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> {
     storage: QueueStorage<S, C>,
     ram: RamRing<RAM_BYTES>,
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..e301986 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -131,6 +131,7 @@ pub enum QueueConfigError {
 /// );
 /// # });
 /// ```
+#[cfg_attr(sequential_storage_verif, derive(Clone, Hash))]
 pub struct QueueStorage<S: NorFlash, C: CacheImpl<()>> {
     inner: GenericStorage<S, C, ()>,
 }
-- 
2.43.0


From 1bf8bee67930e53a0bdf4b1b25189b990a102f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 02/21] fix: run the repair in fetch_all_items

The page search was an inline block inside run_with_auto_repair!, so its ? operators returned
Error::Corrupted from fetch_all_items itself and the repair never ran. After a power cut during an
erase, iterating kept failing while every other function repaired the state.
---
 src/map.rs | 89 +++++++++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 45 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 84ed536..b281107 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -786,52 +786,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
-        // Get the first page index.
-        // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
+        // Note: This has to be a separate function. With an inline block, the `?` operators would return
+        // from this function without running the repair.
         let first_page = run_with_auto_repair!(
-            function = {
-                match self
-                    .inner
-                    .find_first_page(0, PageState::PartialOpen)
-                    .await?
-                {
-                    Some(last_used_page) => {
-                        // The next page of the `PartialOpen` page is the first page
-                        Ok(self.inner.next_page(last_used_page))
-                    }
-                    None => {
-                        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-                        // If the page one before that is closed, then that's the last used page.
-                        if let Some(first_open_page) =
-                            self.inner.find_first_page(0, PageState::Open).await?
-                        {
-                            let previous_page = self.inner.previous_page(first_open_page);
-                            if self
-                                .inner
-                                .get_page_state_cached(previous_page)
-                                .await?
-                                .is_closed()
-                            {
-                                // The previous page is closed, so the first_open_page is what we want
-                                Ok(first_open_page)
-                            } else {
-                                // The page before the open page is not closed, so it must be open.
-                                // This means that all pages are open and that we don't have any items yet.
-                                self.inner.cache.unmark_dirty();
-                                Ok(0)
-                            }
-                        } else {
-                            // There are no open pages, so everything must be closed.
-                            // Something is up and this should never happen.
-                            // To recover, we will just erase all the flash.
-                            Err(Error::Corrupted {
-                                #[cfg(feature = "_test")]
-                                backtrace: std::backtrace::Backtrace::capture(),
-                            })
-                        }
-                    }
-                }
-            },
+            function = self.find_first_used_page().await,
             repair = self.try_repair(data_buffer).await?
         )?;
 
@@ -849,6 +807,47 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         })
     }
 
+    /// Get the first (oldest) page index.
+    /// The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
+    async fn find_first_used_page(&mut self) -> Result<usize, Error<S::Error>> {
+        if let Some(last_used_page) = self
+            .inner
+            .find_first_page(0, PageState::PartialOpen)
+            .await?
+        {
+            // The next page of the `PartialOpen` page is the first page
+            return Ok(self.inner.next_page(last_used_page));
+        }
+
+        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
+        // If the page one before that is closed, then that's the last used page.
+        if let Some(first_open_page) = self.inner.find_first_page(0, PageState::Open).await? {
+            let previous_page = self.inner.previous_page(first_open_page);
+            if self
+                .inner
+                .get_page_state_cached(previous_page)
+                .await?
+                .is_closed()
+            {
+                // The previous page is closed, so the first_open_page is what we want
+                Ok(first_open_page)
+            } else {
+                // The page before the open page is not closed, so it must be open.
+                // This means that all pages are open and that we don't have any items yet.
+                self.inner.cache.unmark_dirty();
+                Ok(0)
+            }
+        } else {
+            // There are no open pages, so everything must be closed.
+            // Something is up and this should never happen.
+            // To recover, we will just erase all the flash.
+            Err(Error::Corrupted {
+                #[cfg(feature = "_test")]
+                backtrace: std::backtrace::Backtrace::capture(),
+            })
+        }
+    }
+
     async fn migrate_items(
         &mut self,
         data_buffer: &mut [u8],
-- 
2.43.0


From efb651e3793c03ae591d475a8b482834ae5516bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:12 +0000
Subject: [PATCH 03/21] fix: don't iterate over old data left in an open page

When the repair is interrupted while erasing the page after the partial open page, that page can look
open while old items remain on it. Fetch and store don't look at open pages, but the map
iterator always read the first page and returned removed or overwritten items.
---
 src/map.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index b281107..b1a0b7c 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -788,7 +788,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
         // Note: This has to be a separate function. With an inline block, the `?` operators would return
         // from this function without running the repair.
-        let first_page = run_with_auto_repair!(
+        let (first_page, first_page_state) = run_with_auto_repair!(
             function = self.find_first_used_page().await,
             repair = self.try_repair(data_buffer).await?
         )?;
@@ -798,6 +798,14 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         let end_address =
             calculate_page_end_address::<S>(self.flash_range(), first_page) - S::WORD_SIZE as u32;
 
+        // An open page has no items. But after an interrupted erase there might still be old data on it
+        // that must not be returned, so then we don't look at the page at all.
+        let start_address = if first_page_state.is_open() {
+            end_address
+        } else {
+            start_address
+        };
+
         Ok(MapItemIter {
             storage: self,
             first_page,
@@ -807,9 +815,16 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         })
     }
 
+    /// Get the first (oldest) page index and the state of that page.
+    async fn find_first_used_page(&mut self) -> Result<(usize, PageState), Error<S::Error>> {
+        let first_page = self.find_first_used_page_index().await?;
+        let first_page_state = self.inner.get_page_state_cached(first_page).await?;
+        Ok((first_page, first_page_state))
+    }
+
     /// Get the first (oldest) page index.
     /// The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
-    async fn find_first_used_page(&mut self) -> Result<usize, Error<S::Error>> {
+    async fn find_first_used_page_index(&mut self) -> Result<usize, Error<S::Error>> {
         if let Some(last_used_page) = self
             .inner
             .find_first_page(0, PageState::PartialOpen)
-- 
2.43.0


From 2de50b8705739adad618add811f71f1836f4a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 04/21] fix: repair an interrupted migration before removing
 map items

Removing items while the same item is present in both the migration source and target page could
leave a half removed item when interrupted: the item was still returned by fetch, but was lost by the repair done in the next store.
---
 src/map.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index b1a0b7c..20b83b3 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -645,7 +645,25 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             .find_first_page(0, PageState::PartialOpen)
             .await?
         {
-            Some(last_used_page) => last_used_page,
+            Some(last_used_page) => {
+                // The next page is the buffer page and must be open, just like for a store.
+                // If it isn't, then a migration was interrupted and an item can be present in both pages.
+                // That has to be repaired first. Otherwise if we're interrupted too, the item can be removed from the
+                // one but not from the other page and it'd depend on the repair whether the item is seen again.
+                if !self
+                    .inner
+                    .get_page_state_cached(self.inner.next_page(last_used_page))
+                    .await?
+                    .is_open()
+                {
+                    return Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    });
+                }
+
+                last_used_page
+            }
             None => {
                 // Oh dear, there's no active partial open page. Seems like some operation was cancelled or didn't make it through.
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
-- 
2.43.0


From 3e82ce3ed5a41cb902b7a9c14509a37336d84dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 05/21] fix: erase the open page before migrating to it after
 an interruption

When the repair of an interrupted migration is interrupted while erasing the target page, the page can look open
but still contain old items. The next store partially closed that page as is, so if it got interrupted right
after that, the old items (e.g. removed ones) were visible again.
---
 src/map.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 20b83b3..f0626ed 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -446,12 +446,22 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 return Err(Error::FullStorage);
             }
 
+            // Find the partial open page and remember if we've come across closed pages
+            let mut partial_open_page = None;
+            let mut found_closed_page = false;
+            for page_index in self.inner.get_pages(0) {
+                match self.inner.get_page_state_cached(page_index).await? {
+                    PageState::PartialOpen => {
+                        partial_open_page = Some(page_index);
+                        break;
+                    }
+                    PageState::Closed => found_closed_page = true,
+                    PageState::Open => {}
+                }
+            }
+
             // If there is a partial open page, we try to write in that first if there is enough space
-            let next_page_to_use = if let Some(partial_open_page) = self
-                .inner
-                .find_first_page(0, PageState::PartialOpen)
-                .await?
-            {
+            let next_page_to_use = if let Some(partial_open_page) = partial_open_page {
                 // We found a partial open page, but at this point it's relatively cheap to do a consistency check
                 if !self
                     .inner
@@ -568,6 +578,16 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                     });
                 };
 
+                // If the next page is not open, then a migration to this page will follow. That migration might have been started
+                // before and then the repair of it could've been interrupted while erasing this page. The page then looks open,
+                // but still contains old data. That old data must not be seen as items, so make sure the page really is open.
+                if found_closed_page {
+                    let next_page = self.inner.next_page(first_open_page);
+                    if !self.inner.get_page_state_cached(next_page).await?.is_open() {
+                        self.inner.open_page(first_open_page).await?;
+                    }
+                }
+
                 self.inner.partial_close_page(first_open_page).await?;
             }
 
-- 
2.43.0


From f3738fe99860230944e452c820754ecea3fee67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:57 +0000
Subject: [PATCH 06/21] fix: don't use a dirty cache in map removal and
 iteration

A failed or cancelled operation leaves the cache marked as dirty. Removing items and iterating over them didn't look
at that mark and so used (and after a removal even kept) wrong page states.
---
 src/map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index f0626ed..56def7d 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -651,6 +651,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
@@ -855,6 +859,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
 
     /// Get the first (oldest) page index and the state of that page.
     async fn find_first_used_page(&mut self) -> Result<(usize, PageState), Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         let first_page = self.find_first_used_page_index().await?;
         let first_page_state = self.inner.get_page_state_cached(first_page).await?;
         Ok((first_page, first_page_state))
-- 
2.43.0


From 25dc41b64e78c9aa59a06324b919c8ebddb14e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:54 +0000
Subject: [PATCH 07/21] fix: return flash errors from the map iterator and the
 repair

The map iterator treated a failed page state read as a page without items, so the iteration ended early without
error. The general repair ignored a failed page state read and then left the page unrepaired.
---
 src/lib.rs | 10 +++++-----
 src/map.rs | 20 +++++++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1f2ff21..feaa180 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,11 +81,11 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         // Loop through the pages and get their state. If one returns the corrupted error,
         // the page is likely half-erased. Fix for that is to re-erase again to hopefully finish the job.
         for page_index in self.get_pages(0) {
-            if matches!(
-                self.get_page_state(page_index).await,
-                Err(Error::Corrupted { .. })
-            ) {
-                self.open_page(page_index).await?;
+            match self.get_page_state(page_index).await {
+                Ok(_) => {}
+                Err(Error::Corrupted { .. }) => self.open_page(page_index).await?,
+                // We couldn't read the state, so we can't know whether this page needs repair
+                Err(e) => return Err(e),
             }
         }
 
diff --git a/src/map.rs b/src/map.rs
index 56def7d..2e66a1f 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1144,20 +1144,30 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
             // The current page is done, we need to find the next page
             // Find next page which is not open, update `self.current_iter`
             loop {
-                self.current_page_index = self.storage.inner.next_page(self.current_page_index);
+                let next_page_index = self.storage.inner.next_page(self.current_page_index);
 
                 // We've looped back to the first page, which means all pages are checked, there's nothing left so we return None
-                if self.current_page_index == self.first_page {
+                if next_page_index == self.first_page {
                     return Ok(None);
                 }
 
-                match self
+                let next_page_state = match self
                     .storage
                     .inner
-                    .get_page_state_cached(self.current_page_index)
+                    .get_page_state_cached(next_page_index)
                     .await
                 {
-                    Ok(PageState::Closed | PageState::PartialOpen) => {
+                    Ok(next_page_state) => Some(next_page_state),
+                    // Can't look at this page, so skip it
+                    Err(Error::Corrupted { .. }) => None,
+                    // We don't know if there's more, so don't act like there isn't. The page is retried on the next call.
+                    Err(e) => return Err(e),
+                };
+
+                self.current_page_index = next_page_index;
+
+                match next_page_state {
+                    Some(PageState::Closed | PageState::PartialOpen) => {
                         self.current_iter = ItemIter::new(
                             calculate_page_address::<S>(
                                 self.storage.inner.flash_range.clone(),
-- 
2.43.0


From 77c9a8a9dfb7db9afaf1efe1bb8a031055a4e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:54 +0000
Subject: [PATCH 08/21] fix: don't skip a map item in the iterator after a
 failed read

When reading the item failed (flash error, or the buffer is too small), the next call continued with the item after it.
---
 src/item.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..895ee30 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -588,10 +588,15 @@ impl ItemIter {
         let mut data_buffer = Some(data_buffer);
         while let (Some(header), address) = self.header.next(flash).await? {
             let buffer = data_buffer.take().unwrap();
-            match header
+
+            // If the read doesn't succeed or is cancelled, we want to look at this item again on the next call
+            let next_address = core::mem::replace(&mut self.header.current_address, address);
+            let maybe_item = header
                 .read_item(flash, buffer, address, self.header.end_address)
-                .await?
-            {
+                .await?;
+            self.header.current_address = next_address;
+
+            match maybe_item {
                 MaybeItem::Corrupted(_, buffer) | MaybeItem::Erased(_, buffer) => {
                     data_buffer.replace(buffer);
                 }
-- 
2.43.0


From bb30746a4ca22fb5fc909b58a99c8cb303709bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:39 +0000
Subject: [PATCH 09/21] fix: invalidate the cache in erase_all

The cache still described the old flash contents after erase_all, so the next operations on the same storage used
wrong page states and item locations.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index feaa180..134bb07 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -58,6 +58,9 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     ///
     /// This is just a thin helper function as it just calls the flash's erase function.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        // Nothing the cache knows will be true anymore
+        self.cache.invalidate_cache_state();
+
         self.flash
             .erase(self.flash_range.start, self.flash_range.end)
             .await
-- 
2.43.0


From 4da45c5a0da17a2257772205344ff5e3f1825aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 10/21] fix: account for the item header in find_max_fit

When the next page could be used, the size of the whole page was returned. But the item header has to fit on the page as
well, so pushing that amount of data gave ItemTooBig. The limit of u16::MAX bytes per item wasn't taken into account either.
---
 src/queue/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index e301986..34d17d5 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -360,12 +360,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             state @ PageState::Closed => {
                 if self.inner.is_page_empty(next_page, Some(state)).await? {
                     self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                    return Ok(Self::max_fit(calculate_page_size::<S>() as u32));
                 }
             }
             PageState::Open => {
                 self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                return Ok(Self::max_fit(calculate_page_size::<S>() as u32));
             }
             PageState::PartialOpen => {
                 // This should never happen
@@ -399,9 +399,15 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
-            page_data_end_address - next_item_address,
-        ))
+        Ok(Self::max_fit(page_data_end_address - next_item_address))
+    }
+
+    /// The largest size of the data of one item that fits in the given amount of free page space
+    const fn max_fit(free_space: u32) -> Option<u32> {
+        match ItemHeader::available_data_bytes::<S>(free_space) {
+            Some(available) if available > u16::MAX as u32 => Some(u16::MAX as u32),
+            available => available,
+        }
     }
 
     /// Calculate how much space is left free in the queue (in bytes).
-- 
2.43.0


From d6a236f5d03bdee48856ecb4fbbec5250b1b428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 11/21] fix: reuse a fully popped page in a queue with a single
 page

With a single page, the page is always partially open and so it was never seen as empty. When it was filled up,
pushing without overwriting returned FullStorage forever, even when everything was popped.
And find_max_fit returned the Corrupted error because of the 'next' page being partially open.
---
 src/queue/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 34d17d5..1dde2ea 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -231,10 +231,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         calculate_page_address::<S>(self.flash_range(), next_page)
                             + S::WORD_SIZE as u32;
 
+                    // A single page is still partially open here, but can be reused too when all its items are erased.
+                    // So act as if it's closed so that the items are checked.
                     if !allow_overwrite_old_data
                         && !self
                             .inner
-                            .is_page_empty(next_page, Some(next_page_state))
+                            .is_page_empty(next_page, Some(PageState::Closed))
                             .await?
                     {
                         self.inner.cache.unmark_dirty();
@@ -367,6 +369,18 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                 self.inner.cache.unmark_dirty();
                 return Ok(Self::max_fit(calculate_page_size::<S>() as u32));
             }
+            PageState::PartialOpen if next_page == current_page => {
+                // There's only a single page. If all items on it are erased, then it can be reused.
+                // We can use [is_page_empty] and lie to to it so it checks the items.
+                if self
+                    .inner
+                    .is_page_empty(next_page, Some(PageState::Closed))
+                    .await?
+                {
+                    self.inner.cache.unmark_dirty();
+                    return Ok(Self::max_fit(calculate_page_size::<S>() as u32));
+                }
+            }
             PageState::PartialOpen => {
                 // This should never happen
                 return Err(Error::Corrupted {
-- 
2.43.0


From 8e7957614560cdda166332e3177eb03d35e59234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 12/21] fix: ignore old data on a single queue page after an
 interrupted erase

The single page of a queue doesn't have an end marker, so an interrupted erase can't be detected like it is with multiple pages.
New items were then written between the old data, so successfully pushed items got lost.
---
 src/queue/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 1dde2ea..ccfad7a 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -198,6 +198,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         let page_data_end_address =
             calculate_page_end_address::<S>(self.flash_range(), current_page) - S::WORD_SIZE as u32;
 
+        if self.is_single_open_page(current_page).await? {
+            // Make sure there's no data left on it from an erase that got interrupted
+            self.inner.open_page(current_page).await?;
+        }
+
         self.inner.partial_close_page(current_page).await?;
 
         // Find the last item on the page so we know where we need to write
@@ -543,6 +548,20 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         })
     }
 
+    /// Returns true if there's only a single page and it is open.
+    ///
+    /// A single page never gets its end marker, so when the erase of that page is interrupted the page looks open
+    /// while there can still be old data on it. That data must be ignored.
+    /// With multiple pages the end marker makes that an interrupted erase is detected and repaired.
+    async fn is_single_open_page(&mut self, page_index: usize) -> Result<bool, Error<S::Error>> {
+        Ok(self.inner.page_count().get() == 1
+            && self
+                .inner
+                .get_page_state_cached(page_index)
+                .await?
+                .is_open())
+    }
+
     async fn find_oldest_page(&mut self) -> Result<usize, Error<S::Error>> {
         let youngest_page = self.find_youngest_page().await?;
 
@@ -579,6 +598,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         let oldest_page = self.find_oldest_page().await?;
 
+        if self.is_single_open_page(oldest_page).await? {
+            // There are no items
+            return Ok(NextAddress::PageAfter(oldest_page));
+        }
+
         // We start at the start of the oldest page
         let current_address = match self.inner.cache.first_item_after_erased(oldest_page) {
             Some(address) => address,
-- 
2.43.0


From 3a016e25c8ac93fde6f71882801f68aa897e8feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:12 +0000
Subject: [PATCH 13/21] fix: don't count corrupted items when checking if a
 queue page is empty

An item that was only partially written because of an early shutoff can't be popped. With a single page the page was never
seen as empty anymore, so once filled up, pushing without overwriting returned FullStorage forever.
With multiple pages it could return FullStorage until a pop or peek passed the corrupted item.
---
 src/item.rs | 77 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 895ee30..ab770af 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -172,6 +172,48 @@ impl ItemHeader {
         }
     }
 
+    /// Check if the data in flash matches the crc of this header, without needing a buffer for all of the data
+    async fn is_data_valid<S: NorFlash>(
+        &self,
+        flash: &mut S,
+        address: u32,
+    ) -> Result<bool, Error<S::Error>> {
+        let mut buffer = [0; MAX_WORD_SIZE];
+
+        // Retry once, just like when the item is read
+        for _ in 0..2 {
+            let mut data_address = Self::data_address::<S>(address);
+            let mut data_left = self.length as usize;
+            let mut crc = CRC32_INITIAL;
+
+            while data_left > 0 {
+                let chunk_len =
+                    data_left.min(round_down_to_alignment_usize::<S>(MAX_WORD_SIZE));
+                let read_len = round_up_to_alignment_usize::<S>(chunk_len);
+
+                flash
+                    .read(data_address, &mut buffer[..read_len])
+                    .await
+                    .map_err(|e| Error::Storage {
+                        value: e,
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })?;
+
+                // The calculation inverts the result, so invert it back to be able to continue with it
+                crc = !crc32_with_initial(&buffer[..chunk_len], crc);
+                data_address += read_len as u32;
+                data_left -= chunk_len;
+            }
+
+            if Some(adapt_crc32(!crc)) == self.crc {
+                return Ok(true);
+            }
+        }
+
+        Ok(false)
+    }
+
     async fn write<S: NorFlash>(&self, flash: &mut S, address: u32) -> Result<(), Error<S::Error>> {
         let mut buffer = AlignedBuf([0xFF; MAX_WORD_SIZE]);
 
@@ -448,7 +490,11 @@ fn crc16(data: &[u8]) -> u16 {
 
 /// Calculate the crc32 of the data as used by the crate.
 fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
-    match crc32(data) {
+    adapt_crc32(crc32(data))
+}
+
+fn adapt_crc32(crc: u32) -> NonZeroU32 {
+    match crc {
         // CRC may not be 0 as that already means 'erased'
         0 => NonZeroU32::new(1).unwrap(),
         // To aid in early shutoff/cancellation, we make sure that if the first byte of
@@ -461,10 +507,12 @@ fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
     }
 }
 
+/// We use a modified initial value because the normal 0xFFFFFFF does not pass
+/// the `crc32_all_ones_resistant` test
+const CRC32_INITIAL: u32 = 0xEEEE_EEEE;
+
 fn crc32(data: &[u8]) -> u32 {
-    // We use a modified initial value because the normal 0xFFFFFFF does not pass
-    // the `crc32_all_ones_resistant` test
-    crc32_with_initial(data, 0xEEEE_EEEE)
+    crc32_with_initial(data, CRC32_INITIAL)
 }
 
 fn crc32_with_initial(data: &[u8], initial: u32) -> u32 {
@@ -552,16 +600,25 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
                     calculate_page_end_address::<S>(self.flash_range.clone(), page_index)
                         - S::WORD_SIZE as u32;
 
-                Ok(ItemHeaderIter::new(
+                let mut it = ItemHeaderIter::new(
                     self.cache
                         .first_item_after_erased(page_index)
                         .unwrap_or(page_data_start_address),
                     page_data_end_address,
-                )
-                .traverse(&mut self.flash, |header, _| header.crc.is_none())
-                .await?
-                .0
-                .is_none())
+                );
+
+                while let (Some(header), address) = it
+                    .traverse(&mut self.flash, |header, _| header.crc.is_none())
+                    .await?
+                {
+                    // A corrupted item, e.g. because of an early shutoff while it was written, can't be read or
+                    // erased by anyone. So it doesn't count.
+                    if header.is_data_valid(&mut self.flash, address).await? {
+                        return Ok(false);
+                    }
+                }
+
+                Ok(true)
             }
             PageState::PartialOpen => Ok(false),
             PageState::Open => Ok(true),
-- 
2.43.0


From 9ebdb1cb783accd3bdd4e8684f893a086d4b1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:02 +0000
Subject: [PATCH 14/21] fix: return BufferTooSmall when a buffered item doesn't
 fit in the buffer

The item was left in the RAM ring and the queue pretended to be empty.
---
 src/queue/buffered.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index 1989827..d944816 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -252,10 +252,12 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(data) = self.ram.peek_into(scratch) else {
+        let Some(len) = self.ram.oldest_len() else {
             return Ok(false);
         };
-        let len = data.len();
+        if self.ram.peek_into(scratch).is_none() {
+            return Err(Error::BufferTooSmall(len));
+        }
         self.storage.push(&scratch[..len], allow_overwrite).await?;
         self.ram.discard_oldest();
         Ok(true)
@@ -289,12 +291,14 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
-            self.ram.discard_oldest();
-            return Ok(Some(&mut data_buffer[..len]));
+        let Some(len) = self.ram.oldest_len() else {
+            return Ok(None);
+        };
+        if self.ram.peek_into(data_buffer).is_none() {
+            return Err(Error::BufferTooSmall(len));
         }
-        Ok(None)
+        self.ram.discard_oldest();
+        Ok(Some(&mut data_buffer[..len]))
     }
 
     /// Peek at the oldest item without removing it.
@@ -313,11 +317,13 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
-            return Ok(Some(&mut data_buffer[..len]));
+        let Some(len) = self.ram.oldest_len() else {
+            return Ok(None);
+        };
+        if self.ram.peek_into(data_buffer).is_none() {
+            return Err(Error::BufferTooSmall(len));
         }
-        Ok(None)
+        Ok(Some(&mut data_buffer[..len]))
     }
 
     /// Total capacity of the RAM ring in bytes (including 2-byte per-item length prefixes).
@@ -442,12 +448,16 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
+        let (len, fits) = self.ring.lock(|r| {
+            let ring = r.borrow();
+            (ring.oldest_len(), ring.peek_into(scratch).is_some())
+        });
         let Some(len) = len else {
             return Ok(false);
         };
+        if !fits {
+            return Err(Error::BufferTooSmall(len));
+        }
         storage.push(&scratch[..len], allow_overwrite).await?;
         self.ring.lock(|r| r.borrow_mut().discard_oldest());
         Ok(true)
-- 
2.43.0


From d516e695d728c1aec56ad86da5b9bc1b376606cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:22 +0000
Subject: [PATCH 15/21] fix: don't discard the wrong item when draining a
 shared ring that overflows

The oldest item could be evicted by an overwriting enqueue while drain_one was writing it to flash.
The item that became the oldest was then discarded without ever reaching the flash.
---
 src/queue/buffered.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d944816..42907b4 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -48,6 +48,8 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// Set when the oldest item is discarded to make room for a new item.
+    oldest_evicted: bool,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -59,6 +61,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            oldest_evicted: false,
         }
     }
 
@@ -120,6 +123,7 @@ impl<const N: usize> RamRing<N> {
         }
         while self.used + total > N {
             self.discard_oldest();
+            self.oldest_evicted = true;
         }
         self.write_raw(data);
         Ok(())
@@ -449,7 +453,8 @@ impl<const N: usize> SharedRamRing<N> {
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
         let (len, fits) = self.ring.lock(|r| {
-            let ring = r.borrow();
+            let mut ring = r.borrow_mut();
+            ring.oldest_evicted = false;
             (ring.oldest_len(), ring.peek_into(scratch).is_some())
         });
         let Some(len) = len else {
@@ -459,7 +464,13 @@ impl<const N: usize> SharedRamRing<N> {
             return Err(Error::BufferTooSmall(len));
         }
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut ring = r.borrow_mut();
+            // If the item was evicted while it was being written to flash, then the oldest item is another one
+            if !ring.oldest_evicted {
+                ring.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From 4dec77f7fbdef805af491211c0cebae0179597d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:31 +0000
Subject: [PATCH 16/21] fix: read the item crc again when it doesn't match the
 data

Only the data was read again on a crc mismatch. But it can be the crc in the header that was misread, in which case the
item was ignored, and not copied during a map migration or erased by a push.
---
 src/item.rs      | 43 ++++++++++++++++++++++++++++++++++++-------
 src/queue/mod.rs | 10 ++--------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index ab770af..75093be 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -121,7 +121,7 @@ impl ItemHeader {
     }
 
     pub(crate) async fn read_item<'d, S: NorFlash>(
-        self,
+        mut self,
         flash: &mut S,
         data_buffer: &'d mut [u8],
         address: u32,
@@ -129,7 +129,7 @@ impl ItemHeader {
     ) -> Result<MaybeItem<'d>, Error<S::Error>> {
         match self.crc {
             None => Ok(MaybeItem::Erased(self, data_buffer)),
-            Some(header_crc) => {
+            Some(mut header_crc) => {
                 let data_address = ItemHeader::data_address::<S>(address);
                 let read_len = round_up_to_alignment_usize::<S>(self.length as usize);
                 if data_address + read_len as u32 > end_address {
@@ -163,6 +163,12 @@ impl ItemHeader {
                     } else {
                         if !retry {
                             retry = true;
+                            // The crc in the header can have been misread just as well as the data
+                            self.reread_crc(flash, address, end_address).await?;
+                            match self.crc {
+                                Some(crc) => header_crc = crc,
+                                None => return Ok(MaybeItem::Erased(self, data_buffer)),
+                            }
                             continue;
                         }
                         Ok(MaybeItem::Corrupted(self, data_buffer))
@@ -172,23 +178,43 @@ impl ItemHeader {
         }
     }
 
+    /// Read the crc field again, because it isn't protected by the length crc
+    async fn reread_crc<S: NorFlash>(
+        &mut self,
+        flash: &mut S,
+        address: u32,
+        end_address: u32,
+    ) -> Result<(), Error<S::Error>> {
+        match Self::read_new(flash, address, end_address).await {
+            Ok(Some(header)) if header.length == self.length => self.crc = header.crc,
+            Err(e @ Error::Storage { .. }) => return Err(e),
+            _ => {}
+        }
+
+        Ok(())
+    }
+
     /// Check if the data in flash matches the crc of this header, without needing a buffer for all of the data
     async fn is_data_valid<S: NorFlash>(
-        &self,
+        mut self,
         flash: &mut S,
         address: u32,
+        end_address: u32,
     ) -> Result<bool, Error<S::Error>> {
         let mut buffer = [0; MAX_WORD_SIZE];
 
         // Retry once, just like when the item is read
-        for _ in 0..2 {
+        for retry in [false, true] {
+            if retry {
+                self.reread_crc(flash, address, end_address).await?;
+            }
+
             let mut data_address = Self::data_address::<S>(address);
             let mut data_left = self.length as usize;
             let mut crc = CRC32_INITIAL;
 
             while data_left > 0 {
-                let chunk_len =
-                    data_left.min(round_down_to_alignment_usize::<S>(MAX_WORD_SIZE));
+                let chunk_len = data_left.min(round_down_to_alignment_usize::<S>(MAX_WORD_SIZE));
                 let read_len = round_up_to_alignment_usize::<S>(chunk_len);
 
                 flash
@@ -613,7 +639,10 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
                 {
                     // A corrupted item, e.g. because of an early shutoff while it was written, can't be read or
                     // erased by anyone. So it doesn't count.
-                    if header.is_data_valid(&mut self.flash, address).await? {
+                    if header
+                        .is_data_valid(&mut self.flash, address, page_data_end_address)
+                        .await?
+                    {
                         return Ok(false);
                     }
                 }
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ccfad7a..7133b73 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -819,7 +819,8 @@ impl<'s, S: NorFlash, C: CacheImpl<()>> QueueIterator<'s, S, C> {
                     .await?;
 
                 match maybe_item {
-                    item::MaybeItem::Corrupted(header, _) => {
+                    // An item can turn out to be erased when its header was misread the first time
+                    item::MaybeItem::Corrupted(header, _) | item::MaybeItem::Erased(header, _) => {
                         let next_address = header.next_item_address::<S>(found_item_address);
                         self.next_address = if next_address >= page_data_end_address {
                             NextAddress::PageAfter(current_page)
@@ -827,13 +828,6 @@ impl<'s, S: NorFlash, C: CacheImpl<()>> QueueIterator<'s, S, C> {
                             NextAddress::Address(next_address)
                         };
                     }
-                    item::MaybeItem::Erased(_, _) => {
-                        // Item is already erased
-                        return Err(Error::LogicBug {
-                            #[cfg(feature = "_test")]
-                            backtrace: std::backtrace::Backtrace::capture(),
-                        });
-                    }
                     item::MaybeItem::Present(item) => {
                         let next_address = item.header.next_item_address::<S>(found_item_address);
                         self.next_address = if next_address >= page_data_end_address {
-- 
2.43.0


From 758481a7f716f702c4ddb8f3c4bee284eba7597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 17/21] fix: read an item header again when its length can't be
 right

A single misread bit in erased flash can look like a header with a length of 0xFFFF and a correct length crc. A word was then
skipped when searching for the place of a new item, so with words of 8 bytes or more the new item couldn't be found again.
---
 src/item.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 75093be..aa4ed8a 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -82,7 +82,13 @@ impl ItemHeader {
             let length_crc = u16::from_le_bytes(buffer[Self::LENGTH_CRC_FIELD].try_into().unwrap());
             let calculated_length_crc = crc16(&buffer[Self::LENGTH_FIELD]);
 
-            if calculated_length_crc != length_crc {
+            let length = u16::from_le_bytes(buffer[Self::LENGTH_FIELD].try_into().unwrap());
+            let header = Self { length, crc: None };
+            let claims_too_much = header.next_item_address::<S>(address) > end_address;
+
+            // A header that claims it's larger than is possible is never written.
+            // So either it's a bug, there's a CRC collision or erased bytes were misread as such a header.
+            if calculated_length_crc != length_crc || claims_too_much {
                 if retry {
                     return Err(Error::Corrupted {
                         #[cfg(feature = "_test")]
@@ -97,7 +103,7 @@ impl ItemHeader {
             break;
         }
 
-        let header = Self {
+        Ok(Some(Self {
             length: u16::from_le_bytes(buffer[Self::LENGTH_FIELD].try_into().unwrap()),
             crc: {
                 match u32::from_le_bytes(buffer[Self::DATA_CRC_FIELD].try_into().unwrap()) {
@@ -105,19 +111,7 @@ impl ItemHeader {
                     value => Some(NonZeroU32::new(value).unwrap()),
                 }
             },
-        };
-
-        if header.next_item_address::<S>(address) > end_address {
-            // We have a header here that's claims it's larger than is possible
-            // This is never written. So either it's a bug or there's a CRC collision
-            // Let's assume the latter
-            return Err(Error::Corrupted {
-                #[cfg(feature = "_test")]
-                backtrace: std::backtrace::Backtrace::capture(),
-            });
-        }
-
-        Ok(Some(header))
+        }))
     }
 
     pub(crate) async fn read_item<'d, S: NorFlash>(
-- 
2.43.0


From fbe3286c13e44af3088f871ed3ca1f1d4aadaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:06 +0000
Subject: [PATCH 18/21] fix: refuse a config with a range that ends before it
 starts

The subtraction overflowed, so try_new panicked or (in release mode) accepted the range.
---
 src/map.rs       | 2 +-
 src/queue/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 2e66a1f..c1ae79b 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -45,7 +45,7 @@ impl<S: NorFlash> MapConfig<S> {
             return Err(MapConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 2 pages are used
-        if flash_range.end - flash_range.start < S::ERASE_SIZE as u32 * 2 {
+        if flash_range.end.saturating_sub(flash_range.start) < S::ERASE_SIZE as u32 * 2 {
             return Err(MapConfigError::RangeTooSmall);
         }
 
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 7133b73..6ff661b 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -39,7 +39,7 @@ impl<S: NorFlash> QueueConfig<S> {
             return Err(QueueConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 1 page is used
-        if flash_range.end - flash_range.start < (S::ERASE_SIZE as u32) {
+        if flash_range.end.saturating_sub(flash_range.start) < (S::ERASE_SIZE as u32) {
             return Err(QueueConfigError::RangeTooSmall);
         }
 
-- 
2.43.0


From ad2e4cc41274adf6747a8b32c557f83286eeddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 19/21] fix: return BufferTooSmall when a heapless String key
 doesn't fit in the buffer

---
 src/heapless_09_impl.rs | 2 +-
 src/heapless_impl.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapless_09_impl.rs b/src/heapless_09_impl.rs
index 43d11d6..49490ec 100644
--- a/src/heapless_09_impl.rs
+++ b/src/heapless_09_impl.rs
@@ -77,7 +77,7 @@ impl<LenType: heapless_09::LenType, const CAP: usize> Key for String<CAP, LenTyp
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
diff --git a/src/heapless_impl.rs b/src/heapless_impl.rs
index d22d487..b5dcc4b 100644
--- a/src/heapless_impl.rs
+++ b/src/heapless_impl.rs
@@ -78,7 +78,7 @@ impl<const CAP: usize> Key for String<CAP> {
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
-- 
2.43.0


From 999683c7afd3f5d87854f6d7bf4b45f9b5ec0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 20/21] fix: don't panic in a key pointer cache that was
 created for 0 keys

---
 src/cache/key_pointers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 1e49b8f..0107f48 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -132,9 +132,11 @@ pub(crate) struct TrackedKeyPointers<'a, KEY: Eq> {
 
 impl<'a, KEY: Eq> TrackedKeyPointers<'a, KEY> {
     fn insert_front(&mut self, value: (KEY, NonZeroU32)) {
-        let len = self.key_pointers.len();
-        self.key_pointers[len - 1] = Some(value);
-        move_to_front(self.key_pointers, len - 1);
+        // There's nothing to insert into when the cache was created for 0 keys
+        if let Some(last) = self.key_pointers.last_mut() {
+            *last = Some(value);
+            move_to_front(self.key_pointers, self.key_pointers.len() - 1);
+        }
     }
 }
 
-- 
2.43.0


From 88fe3d0b6a064df16bbf5800ce937fb9ca3a7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:44 +0000
Subject: [PATCH 21/21] fix: make an interrupted erase_all leave a storage that
 can be used on

---
 src/lib.rs       | 53 ++++++++++++++++++++++++++++++++++++++++--
 src/map.rs       | 60 ++++++++++++++++++++++++++----------------------
 src/queue/mod.rs |  2 +-
 3 files changed, 85 insertions(+), 30 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 134bb07..f7016bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -56,13 +56,62 @@ struct GenericStorage<S: NorFlash, C: CacheImpl<KEY>, KEY> {
 impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     /// Resets the flash in the entire given flash range.
     ///
-    /// This is just a thin helper function as it just calls the flash's erase function.
+    /// If this is interrupted, then only a part of the items (of which the oldest first) is gone.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        // Get rid of pages with an unclear state first
+        self.cache.invalidate_cache_state();
+        self.try_general_repair().await?;
+
+        // When we're interrupted, it must be possible to continue with what's left.
+        // So the oldest page must be erased first and the page that was used last must be erased last.
+        let last_used_page = match self.find_last_used_page().await {
+            Ok(last_used_page) => last_used_page.unwrap_or_default(),
+            // The repair didn't help, so there's no order to keep
+            Err(Error::Corrupted { .. }) => 0,
+            Err(e) => return Err(e),
+        };
+
         // Nothing the cache knows will be true anymore
         self.cache.invalidate_cache_state();
 
+        self.erase_pages(last_used_page + 1..self.page_count().get())
+            .await?;
+        self.erase_pages(0..last_used_page).await?;
+
+        // Once closed, it'll be noticed when the erase of a page was interrupted.
+        // A single page is never closed because there has to be an open page.
+        if self.page_count().get() > 1 {
+            match self.get_page_state(last_used_page).await {
+                Ok(PageState::PartialOpen) => self.close_page(last_used_page).await?,
+                Ok(_) | Err(Error::Corrupted { .. }) => {}
+                Err(e) => return Err(e),
+            }
+        }
+        self.erase_pages(last_used_page..last_used_page + 1).await?;
+
+        self.cache.invalidate_cache_state();
+        Ok(())
+    }
+
+    /// Find the page that was used last: The partial open page or, if there's none, the last closed page
+    async fn find_last_used_page(&mut self) -> Result<Option<usize>, Error<S::Error>> {
+        match self.find_first_page(0, PageState::PartialOpen).await? {
+            Some(partial_open_page) => Ok(Some(partial_open_page)),
+            None => self.find_last_page(0, PageState::Closed).await,
+        }
+    }
+
+    /// Erase the pages without looking at what's on them
+    async fn erase_pages(&mut self, pages: Range<usize>) -> Result<(), Error<S::Error>> {
+        if pages.is_empty() {
+            return Ok(());
+        }
+
+        let start_address = calculate_page_address::<S>(self.flash_range.clone(), pages.start);
+        let end_address = calculate_page_address::<S>(self.flash_range.clone(), pages.end);
+
         self.flash
-            .erase(self.flash_range.start, self.flash_range.end)
+            .erase(start_address, end_address)
             .await
             .map_err(|e| Error::Storage {
                 value: e,
diff --git a/src/map.rs b/src/map.rs
index c1ae79b..6e561a5 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -285,19 +285,17 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             .await?;
 
         if last_used_page.is_none() {
-            // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-            // If the page one before that is closed, then that's the last used page.
-            if let Some(first_open_page) = self.inner.find_first_page(0, PageState::Open).await? {
-                let previous_page = self.inner.previous_page(first_open_page);
-                if self
-                    .inner
-                    .get_page_state_cached(previous_page)
-                    .await?
-                    .is_closed()
-                {
-                    last_used_page = Some(previous_page);
-                } else {
-                    // The page before the open page is not closed, so it must be open.
+            // In the event that all pages are still open or the last used page was just closed, we search for the last closed page
+            // before the open pages. If there is one, then that's the last used page.
+            if self
+                .inner
+                .find_first_page(0, PageState::Open)
+                .await?
+                .is_some()
+            {
+                last_used_page = self.inner.find_last_page(0, PageState::Closed).await?;
+
+                if last_used_page.is_none() {
                     // This means that all pages are open and that we don't have any items yet.
                     self.inner.cache.unmark_dirty();
                     return Ok(None);
@@ -578,6 +576,16 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                     });
                 };
 
+                // If there are closed pages, then we continue after the last one of those
+                let mut first_open_page = first_open_page;
+                if found_closed_page {
+                    if let Some(last_closed_page) =
+                        self.inner.find_last_page(0, PageState::Closed).await?
+                    {
+                        first_open_page = self.inner.next_page(last_closed_page);
+                    }
+                }
+
                 // If the next page is not open, then a migration to this page will follow. That migration might have been started
                 // before and then the repair of it could've been interrupted while erasing this page. The page then looks open,
                 // but still contains old data. That old data must not be seen as items, so make sure the page really is open.
@@ -880,20 +888,18 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             return Ok(self.inner.next_page(last_used_page));
         }
 
-        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-        // If the page one before that is closed, then that's the last used page.
-        if let Some(first_open_page) = self.inner.find_first_page(0, PageState::Open).await? {
-            let previous_page = self.inner.previous_page(first_open_page);
-            if self
-                .inner
-                .get_page_state_cached(previous_page)
-                .await?
-                .is_closed()
-            {
-                // The previous page is closed, so the first_open_page is what we want
-                Ok(first_open_page)
+        // In the event that all pages are still open or the last used page was just closed, we search for the last closed page
+        // before the open pages. If there is one, then that's the last used page.
+        if self
+            .inner
+            .find_first_page(0, PageState::Open)
+            .await?
+            .is_some()
+        {
+            if let Some(last_closed_page) = self.inner.find_last_page(0, PageState::Closed).await? {
+                // The page after the last used page is the one we want
+                Ok(self.inner.next_page(last_closed_page))
             } else {
-                // The page before the open page is not closed, so it must be open.
                 // This means that all pages are open and that we don't have any items yet.
                 self.inner.cache.unmark_dirty();
                 Ok(0)
@@ -1017,7 +1023,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
 
     /// Resets the flash in the entire given flash range.
     ///
-    /// This is just a thin helper function as it just calls the flash's erase function.
+    /// If this is interrupted, then only a part of the items (of which the oldest first) is gone.
     pub fn erase_all(&mut self) -> impl Future<Output = Result<(), Error<S::Error>>> {
         self.inner.erase_all()
     }
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 6ff661b..0c91a89 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -617,7 +617,7 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
     /// Resets the flash in the entire given flash range.
     ///
-    /// This is just a thin helper function as it just calls the flash's erase function.
+    /// If this is interrupted, then only a part of the items (of which the oldest first) is gone.
     pub fn erase_all(&mut self) -> impl Future<Output = Result<(), Error<S::Error>>> {
         self.inner.erase_all()
     }
-- 
2.43.0

