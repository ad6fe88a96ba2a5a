SEQ="the existing tests run a few hand-written sequences (and a fuzzer samples); the guarantee quantifies over all sequences"
p("C01","A map behaves like a dictionary",
  "Without power failures, fetching a key from a map returns exactly the value most recently stored under that key, and nothing if the key was never stored or has since been removed or everything was erased. This holds for every sequence of stores, removals, fetches and iterations, across any number of page rollovers and migrations, for every supported flash geometry, key and value length, and with or without a cache. No operation on a sufficiently large flash fails or panics.",
  ["programs","configurations","inputs"],"all sequences of store/fetch/remove/remove_all/iterate in the closed worlds of worlds::map_plain, plus all sequences of length <= 1 (thorough 2) from every point of the scripted workloads of worlds::map_big",SEQ,
  F("map.rs","item.rs","lib.rs"),[("append newest, read newest first","MapStorage::store_item_inner / fetch_item_with_location"),("migration before erase","MapStorage::migrate_items")],NOTE,hook=HOOK,observe=["fetch_item","store_item","remove_item","remove_all_items"])
p("C02","A map survives power cuts without losing completed writes",
  "When power is cut at any byte of any flash write or erase, the restarted map returns for every key the value of the last completed operation on that key; only the key of the interrupted store or removal may show either its old or its new state, and once a read has shown one of them it stays. This also holds when recovery itself is interrupted by further power cuts.",
  ["crash_points","histories","configurations"],"every byte position of every flash write/erase of every operation from every reachable state, up to 3 (thorough 4) power cuts per history, plus crashes at every point of scripted workloads","the tests cut power only at a few shutoff points of fixed sequences and never nest cuts exhaustively",
  F("map.rs","item.rs","lib.rs"),[("write order: header, data, page markers","item.rs Item::write_raw, lib.rs partial_close_page/close_page"),("repair of interrupted migration","MapStorage::try_repair")],NOTE,"crash-point enumeration by explicit-state exploration of the real code",hook=HOOK,observe=["fetch_item","fetch_all_items"])
p("C03","A map can always be used again after power cuts",
  "Whatever flash state a sequence of power cuts leaves behind, the restarted map repairs it by itself: fetches, stores, removals and iteration succeed without a corruption error, without panicking or hanging, and a store is refused as full only when the live data really leaves no room.",
  ["crash_points","histories","configurations"],"all operations from every state reachable with up to 3 (thorough 4) power cuts at any byte","the tests recover from a handful of hand-made states only",
  F("map.rs","lib.rs"),[("corruption triggers repair and retry","run_with_auto_repair! in lib.rs/map.rs"),("re-erase of half-erased pages","GenericStorage::try_general_repair")],NOTE,"crash-point enumeration by explicit-state exploration of the real code",hook=HOOK)
p("C04","A map reclaims the space of superseded values and is full only when it is",
  "Overwriting or removing values never wears out a map's capacity: a store only fails with the full-storage error when the live items, which must keep fitting on the flash minus the one page kept free, leave no room for the new item. A store that is refused leaves every stored value exactly as it was.",
  ["programs","configurations"],"all operation sequences of the closed map worlds, including ones in which the live data does not fit, and scripted workloads over up to 40 pages",SEQ,
  F("map.rs"),[("migration and page reuse","MapStorage::store_item_inner, migrate_items")],NOTE,hook=HOOK,observe=["store_item"])
p("C05","Iterating over a map yields its current contents",
  "Iterating over all items of a map yields only items that were stored, and the last entry yielded for a key is the key's current value; keys that were removed or never stored are not yielded at the end of it, and no current key is missing. This also holds for iterations right after a power cut.",
  ["programs","crash_points","configurations"],"an iteration from every reachable state of the crash-free and the power-cut map worlds","the tests iterate over two or three fixed contents",
  F("map.rs"),[("page order oldest to newest","MapItemIter::next, MapStorage::fetch_all_items")],NOTE,hook=HOOK,observe=["fetch_all_items","MapItemIter::next"])
p("C06","A queue is first in, first out",
  "Without power failures, popping returns the pushed byte strings unchanged and in the order in which they were pushed, each exactly once; peeking shows what the next pop will return and removes nothing; an empty queue returns nothing. This holds for every sequence of pushes, peeks, pops and iterations, across page rollovers, for every geometry and number of pages and with or without a cache.",
  ["programs","configurations","inputs"],"all sequences of push/peek/pop/iterate/queries in the closed worlds of worlds::queue_plain and from every point of the scripted workloads of worlds::queue_big",SEQ,
  F("queue/mod.rs","item.rs","lib.rs"),[("oldest and youngest page search","QueueStorage::find_oldest_page, find_youngest_page"),("pop erases the item header","ItemHeader::erase_data")],NOTE,hook=HOOK,observe=["push","peek","pop"])
p("C07","Iterating over a queue can remove any chosen items, and only those",
  "Iterating over a queue shows all its items, oldest first, unchanged. Popping an entry of the iteration removes exactly that item, whatever subset of the entries is popped and wherever the iteration is stopped; the other items stay in the queue in order.",
  ["programs","inputs"],"8 pop patterns (none, first, middle, several, all, stopped early) from every reachable state of the closed queue worlds",SEQ,
  F("queue/mod.rs"),[("iterator and entry","QueueIterator::next, QueueIteratorEntry::pop")],NOTE,hook=HOOK,observe=["QueueStorage::iter"])
p("C08","Unread queue items are discarded only with permission",
  "Pushing without permission to overwrite never discards an unread item; it fails with the full-storage error instead, and only when neither the current page nor the next page can take the item. Pushing with permission discards only items of the oldest page, and only when the push would otherwise have failed, and it never fails for lack of space.",
  ["programs","configurations"],"both kinds of push from every reachable state of the closed queue worlds",SEQ,
  F("queue/mod.rs"),[("erase of the next page","QueueStorage::push_inner")],NOTE,hook=HOOK,observe=["push"])
p("C09","A queue reports its capacity truthfully and reuses it",
  "The largest item size that a queue reports as fitting can be pushed without overwriting and one byte more cannot; the reported free space equals the free bytes on the flash. A queue that has been drained accepts an item as large as a page allows.",
  ["programs","configurations"],"find_max_fit/space_left from every reachable state of the closed queue worlds, confirmed by trial pushes on a copy of the state",SEQ,
  F("queue/mod.rs"),[("capacity queries","QueueStorage::find_max_fit, space_left")],NOTE,hook=HOOK,observe=["find_max_fit","space_left"])
p("C10","A queue survives power cuts without losing, inventing or reordering items",
  "When power is cut at any byte of any flash write or erase, the restarted queue holds exactly the items whose push completed and that were not popped or knowingly overwritten, in order; only the interrupted operation may or may not have happened, in particular no item is half visible and no popped item returns. This also holds for power cuts during the recovery.",
  ["crash_points","histories","configurations"],"every byte position of every flash write/erase of every operation from every reachable state, up to 3 (thorough 4) power cuts per history","the tests cut power only in random fuzz samples, none exhaustively",
  F("queue/mod.rs","item.rs","lib.rs"),[("write order: header, data, page markers","item.rs Item::write_raw"),("repair","QueueStorage::try_repair")],NOTE,"crash-point enumeration by explicit-state exploration of the real code",hook=HOOK)
p("C11","A queue can always be used again after power cuts",
  "Whatever flash state a sequence of power cuts leaves behind, the restarted queue repairs it by itself: push, peek, pop, iteration and the capacity queries succeed without a corruption error, without panicking or hanging, the capacity queries stay truthful, and a queue that reads as empty accepts new items.",
  ["crash_points","histories","configurations"],"all operations from every state reachable with up to 3 (thorough 4) power cuts at any byte","the tests recover from a handful of hand-made states only",
  F("queue/mod.rs","lib.rs"),[("corruption triggers repair and retry","run_with_auto_repair!"),("re-erase of half-erased pages","GenericStorage::try_general_repair")],NOTE,"crash-point enumeration by explicit-state exploration of the real code",hook=HOOK)
p("C12","Caches are transparent",
  "A map or queue used with any combination of the provided page-state, page-pointer and key-pointer caches, of any permitted size, returns the same results and leaves the same flash contents after every operation as one used without a cache. This includes starting with a fresh cache on existing data and using the storage on after erasing everything.",
  ["programs","configurations"],"differential check of every operation from every reachable (flash, cache) state for every cache kind, 1-16 pages","the tests compare read counts of a few workloads, not results over all cache states",
  F("cache/mod.rs","cache/page_states.rs","cache/page_pointers.rs","cache/key_pointers.rs"),[("notifications from the storage to the cache","notice_page_state, notice_item_written, notice_item_erased, notice_key_location")],NOTE,"differential explicit-state exploration (cached vs uncached real code)",hook=HOOK)
p("C13","A storage stays correct after failed or cancelled operations",
  "When a flash operation fails, or the future of an operation is dropped while a flash operation is pending, the same storage object, with whatever cache it uses, can be used on: only the interrupted operation may or may not have happened, and every later result is as after a power cut at that point.",
  ["fault_sequences","histories","configurations"],"an error or a cancellation at every flash operation (at every byte of it in the fine worlds) of every operation from every reachable (flash, cache) state, up to 2 (thorough 3) per history","the tests never continue with the same storage after an injected error or a dropped future",
  F("map.rs","queue/mod.rs","cache/mod.rs"),[("dirt tracking of the cache","cache/mod.rs DirtTracker, invalidation at the start of operations")],NOTE,"fault-point enumeration by explicit-state exploration of the real code",hook=HOOK)
p("C14","Flash errors are reported to the caller",
  "When the flash reports an error for any read, write or erase, the operation in progress returns that error to the caller; it is never swallowed, replaced by a wrong result or turned into a panic. An iteration over a map or queue that is continued after such an error does not skip or repeat items.",
  ["fault_sequences","histories"],"an error at every flash operation of every operation from every reachable state, including states that need repair","the tests inject no flash errors other than power shutoff",
  F("map.rs","queue/mod.rs","lib.rs","item.rs"),[("error propagation","map_err(Error::Storage)")],NOTE,"fault-point enumeration by explicit-state exploration of the real code",hook=HOOK)
p("C15","The flash is only accessed as NOR flash allows and inside the given range",
  "Every flash access lies inside the configured range, is aligned to and a multiple of the read, write or erase size, and is not empty. Nothing programs a bit from 0 to 1 or programs a word more often than once between erases, or twice where removing or popping is used. This holds for every operation, also during the recovery from power cuts.",
  ["programs","crash_points","configurations"],"every flash access of every transition of the map and queue worlds, crash-free and with power cuts, is monitored by the simulated flash","the mock flash checks accesses of the tested sequences only",
  F("item.rs","lib.rs","map.rs","queue/mod.rs"),[("alignment and padding","round_up_to_alignment, ItemHeader::write, Item::write_raw")],NOTE,"monitored explicit-state exploration of the real code",hook=HOOK)
p("C16","Wear is spread over all pages",
  "Without power failures, pages are erased in cyclic order, so all pages are erased equally often. A page is erased only by a store or push that finds no room for its item on the current page or, in a queue, once all its items have been popped; never when it is already blank, and never while the page still holds items that are needed and not yet moved.",
  ["programs","configurations"],"the erase history is part of the state; every erase in every reachable state of the map and queue worlds is judged",SEQ,
  F("map.rs","queue/mod.rs","lib.rs"),[("cyclic page use","get_pages, find_first_page, open_page")],NOTE,"monitored explicit-state exploration of the real code",hook=HOOK)
p("C25","Reading and querying does not modify the flash",
  "Without preceding power failures or errors, fetching from and iterating over a map and asking a queue for its capacity perform no flash write or erase; peeking at a queue and iterating over it without popping write nothing and erase at most a page whose items were all popped before.",
  ["programs","configurations"],"every read-only operation from every reachable state of the crash-free worlds",SEQ,
  F("map.rs","queue/mod.rs"),[("read paths","fetch_item, fetch_all_items, peek, iter, find_max_fit, space_left")],NOTE,"monitored explicit-state exploration of the real code",hook=HOOK)
p("C17","A damaged item only loses itself",
  "When a byte of a stored item (its data, its checksum or its header) changes in flash, the storage behaves as if that one item had never been stored: a map shows the older value of the key if there still is one, a queue leaves the item out, and all other items and the ability to store, push, remove and pop are unaffected. A damaged item is never returned as a wrong value, and a flipped bit in a page marker changes nothing.",
  ["programs","fault_sequences","configurations"],"every byte of every stored item and page marker of every reachable state set to several wrong values, followed by every sequence of up to 3 (thorough 5) operations","the tests damage a few bytes of one hand-made state",
  F("item.rs","map.rs","queue/mod.rs","lib.rs"),[("data and length checksums","item.rs adapted_crc32, crc16, MaybeItem::Corrupted"),("page markers by majority of bits","get_page_state")],NOTE,"fault enumeration (every byte) on top of explicit-state exploration of the real code",hook=HOOK)
p("C18","A bit read wrong once goes unnoticed",
  "In a storage that went through no power failure, one bit that is read wrong once, in any flash read of any operation, changes neither the result of that operation nor anything later.",
  ["programs","fault_sequences","configurations"],"every bit of every flash read of every operation from every reachable state of small maps and queues, and everything reachable afterwards","the tests never return a wrong read once",
  F("item.rs","lib.rs"),[("second read on mismatch","item.rs ItemHeader::read_new, ItemHeader::read_item"),("page markers by majority of bits","get_page_state")],NOTE,"fault enumeration (every read bit) on top of explicit-state exploration of the real code",hook=HOOK)
p("C19","Every item size is either stored faithfully or refused without harm",
  "An item of any length from empty up to the largest that fits on a page comes back unchanged; a longer one is refused as too big and changes nothing. A read or removal given a buffer of any length either works or reports that the buffer is too small, asking for a size that gets it further, and does no harm to the stored contents; nothing panics.",
  ["inputs","programs","configurations"],"every item length from 0 to beyond the page capacity, and the 16 bit boundary, each with every operation sequence of small maps and queues and every buffer length","the tests use few lengths and buffers",
  F("item.rs","map.rs","queue/mod.rs"),[("size checks","ItemHeader/Item::write_new, BufferTooSmall, ItemTooBig")],NOTE,hook=HOOK)
p("C20","What is in flash is the documented format and nothing else",
  "The in-flash representation stays disk-compatible: after every operation the pages hold exactly the current contents, encoded in the documented format (page markers at both ends of a page, contiguous items, each a header with data checksum, length and length checksum followed by the padded data; a map item is the serialized key followed by the value). Conversely any flash image in that format, whichever version of the library wrote it, is read as the contents it encodes and can be used on.",
  ["programs","inputs","configurations"],"the flash is decoded by an independent decoder after every operation of every reachable state of map and queue worlds; every arrangement of up to a few items over the pages, encoded by an independent encoder, is a starting point of an exploration","the tests write and read with the same code, so a changed format passes them",
  F("item.rs","lib.rs","map.rs","queue/mod.rs"),[("item header layout and checksums","item.rs ItemHeader, adapted_crc32, crc16"),("page markers","lib.rs MARKER, PageState")],NOTE,"explicit-state exploration of the real code, started from and compared with an independently encoded flash",hook=HOOK)
p("C21","A buffered queue is one queue over RAM and flash",
  "A buffered queue is first in, first out across its RAM ring and the flash. Enqueueing never touches the flash; an item is refused exactly when it does not fit in the ring (or, when the oldest may be discarded, in the empty ring), and then only the oldest RAM items are discarded, no more than needed. Draining moves exactly the oldest items to flash in order; an item leaves the RAM only when it is committed to flash or popped, also if the drain fails, is cancelled or is given a buffer that is too small. A power cut loses only items in RAM. The reported counts and sizes are right.",
  ["programs","crash_points","fault_sequences","configurations"],"all sequences of enqueue (both policies)/drain_one/drain_all/pop/peek from every reachable (flash, cache, ring) state of closed worlds, with a power cut, flash error or cancellation at every flash operation and every buffer length","the tests run a handful of fixed sequences without faults or wrap-around of the length prefix",
  F("queue/buffered.rs","queue/mod.rs"),[("RAM ring","RamRing::push, push_overwriting, peek_into, discard_oldest"),("drain then discard","BufferedQueue::drain_one")],NOTE,"explicit-state exploration of the real code (BFS, all operation sequences, all fault points)",hook=HOOK,observe=["BufferedQueue::enqueue","drain_one","drain_all","pop","peek"])
p("C23","A configuration is accepted exactly when it works",
  "A configuration is refused exactly when it breaks a documented requirement (a range that is empty, reversed, not aligned to pages or, for a map, shorter than two pages; a page too small for the markers and an item; a word size above the supported maximum), never with an arithmetic overflow or index panic instead; every accepted configuration works, whatever the read, write and erase sizes, the number of pages and the position of the range in the address space.",
  ["configurations","programs"],"every combination of read, write and erase sizes and page counts up to a bound, start and end offsets around every boundary, and all operation sequences of a small depth in every accepted smallest geometry, at the bottom and top of the address space","the tests use two or three fixed configurations",
  F("lib.rs","map.rs","queue/mod.rs"),[("config validation","MapConfig::try_new, QueueConfig::try_new")],NOTE,"exhaustive enumeration of configurations with explicit-state exploration of the real code in each",hook=HOOK,observe=["MapConfig::try_new","QueueConfig::try_new"])
p("C24","Built-in keys and values come back as they were stored",
  "Every built-in key and value type (integers, floats, bool, byte slices, arrays, options, alloc, arrayvec and heapless vectors and strings, postcard values) is encoded as documented, decodes to the same value and, as a key, reports the length it occupies. A buffer too small to encode into is reported as such, and truncated or malformed bytes give an error, never a panic.",
  ["inputs"],"all values of the 8 and 16 bit types, boundary patterns of the wider ones, all byte strings up to a length over a small alphabet plus all UTF-8 boundary cases, each with every buffer length and every truncation; a map with each key type explored as in C01","the tests round-trip one value per type",
  F("map.rs","alloc_impl.rs","arrayvec_impl.rs","heapless_impl.rs","heapless_09_impl.rs"),[("encodings","impl Key / impl Value")],"Exhaustive within the stated sets of values and buffer lengths. "+NOTE,"exhaustive enumeration of inputs and buffer lengths on the real code, plus explicit-state exploration of maps with these types",hook=HOOK)
p("C22","A shared RAM ring loses no item and no wake-up under any interleaving",
  "However calls of any number of producers and one consumer interleave, the calls on a shared RAM ring and its queue behave as if they happened one after another, each at some moment between its call and its return, on a first-in-first-out ring in front of a queue: an accepted item is delivered exactly once and in order unless overflow had to discard it as the oldest, a refused one never, an item evicted while it is being drained is delivered and takes no other item with it, and the reported sizes are right. A waiting consumer wakes up for every item that was accepted since its last wait, so nothing stays in the ring unnoticed. A drain that fails or is cancelled leaves its item in the ring. The flash is never accessed inside a critical section.",
  ["schedules","fault_sequences"],"all interleavings of the critical sections of 1-3 producers and a consumer with 2-5 enqueued items in rings of 4-12 bytes, with an error or cancellation at every flash operation of the consumer in the one-producer scenarios","the tests are single threaded",
  F("queue/buffered.rs"),[("critical sections","SharedRamRing::enqueue, drain_one"),("wake-up","embassy Signal in SharedRamRing::wait, enqueue")],"Exhaustive over the interleavings of the stated scenarios at critical-section granularity. Trusts the critical-section based mutex and the sequential specification.","stateless model checking of the real code (all interleavings under a controlled scheduler, linearizability check)",hook=None,observe=["SharedRamRing::enqueue","wait_and_drain_all","drain_one","pop"])
