#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here so the two stay in step)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SCHED = "every interleaving of the statements of the concurrent operations"
CONF = "every supported search mode, bucket size and item storage (own items, shared pool, automatically enabled pool, pool served by a goroutine, caller-defined item type)"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", tech="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook),
                  _note=note, _tech=tech))

GROW = [("bucket split", "map.go makeBucket"), ("linking of an item", "map.go _set, add2"), ("choice of the start bucket", "map_embedded.go / map.go searchBucket4update, findBucket")]
prop("P01", "A stored key is found until it is deleted",
     "Once storing a key has returned, every later lookup of that key returns a value stored for it, until somebody deletes it. Growth of the map, storing of other keys by other goroutines and expansion of item storage never make a stored key unfindable and never make a key appear that nobody stored.",
     ["schedules", "inputs", "configurations"],
     "Every set of keys and hash positions, every order of storing, " + SCHED + ", and " + CONF + ".",
     "The tests store keys whose hashes are spread by one process-wide seed, from one goroutine or with whatever interleaving the host produces; a bucket split that loses a key needs a particular placement of hashes and a switch between two particular statements.",
     ["map.go", "bucket.go", "map_embedded.go", "pool2.go"],
     GROW + [("serialised insertion", "map.go Set, StoreItem (muInsert)")],
     [("bucket boundary", "reverse of a bucket: items at or behind it are found from it", "bucket.go bucket.reverse"), ("bucket directory", "buckets below one bucket, by next hash digit", "bucket.go downLevels")],
     ["Get", "GetByHash", "LoadItem", "Set", "StoreItem"],
     "Up to 140 keys in a run, up to 4 storing tasks.",
     "per-key linearizability of the whole recorded history, including a read of every key at the end")
prop("P02", "Concurrent reads and updates of a key are linearizable",
     "Reads, stores and updates of one key by any number of goroutines behave as if they had been executed one after another in an order that respects real time. In particular a read never returns a value older than one already read or stored before it began, an update that has returned is not undone, and no value is returned that was never stored, whatever types the values have.",
     ["schedules", "histories", "configurations"],
     "Every history of reads, stores and updates through an item handle on shared keys, " + SCHED + ", " + CONF + ".",
     "The tests never compare concurrent results with a sequential order; a stale or lost update in a window of a few statements is not observable by the benchmarks.",
     ["map.go", "sample_hmap_entry.go", "map_embedded.go"],
     [("atomic value of an item", "sample_hmap_entry.go Value, SetValue"), ("lookup before insertion", "map.go Set, StoreItem")],
     [("item value", "atomic box inside the item", "sample_hmap_entry.go SampleItem.V")],
     ["Get", "GetByHash", "LoadItem", "Set", "StoreItem", "item Value/SetValue"],
     "2 to 4 client tasks on 1 to 4 hot keys among up to 70.",
     "Wing-Gong style linearizability check against a single-register model per key")
prop("P03", "Lookups are correct while the map grows around them",
     "A lookup that runs while other goroutines store keys and the map reorganises itself returns what an undisturbed lookup would: the value of a key stored before, not-found for a key never stored, and one of the two for a key being stored right now. This holds at every statement of the reorganisation and of the lookup.",
     ["schedules", "inputs", "configurations"],
     "Every relative progress of one or two storing goroutines and one to three reading ones, " + CONF + ", every placement of hashes.",
     "The tests read only after storing is over, or run reads and writes freely on few cores so that a lookup hardly ever meets a half-made bucket.",
     ["map.go", "bucket.go", "map_embedded.go"],
     GROW + [("lookup from a bucket", "map.go _searchBybucket"), ("bucket under construction is skipped", "map_embedded.go _findBucket, bucket.go state")],
     [("bucket state", "whether lookups may start from the bucket", "bucket.go bucket.state")],
     ["Get", "GetByHash", "LoadItem"],
     "Tasks are stalled at statements they are known to pass.",
     "per-key linearizability of the recorded history; stalls at chosen statements")
prop("P04", "A key has one entry, whoever stores it",
     "When several goroutines store the same new key at the same moment, the map ends up with exactly one entry for it: traversals deliver it once, the length counts it once, all lookups return the same item, and the last store in some legal order decides the value.",
     ["schedules", "configurations"],
     "Every interleaving of 2 to 4 goroutines storing overlapping sets of new keys, " + CONF + ".",
     "The tests give each goroutine keys of its own, so the race between two insertions of one key is never run.",
     ["map.go"],
     [("second lookup under the insertion lock", "map.go Set, StoreItem")],
     [("length", "number of entries", "map.go Map.len")],
     ["Set", "StoreItem", "Get", "LoadItem", "Range", "RangeItem", "Len"],
     "", "history check per key plus duplicate, length and identity checks at the end")
prop("P05", "A deleted key is gone, and can be stored again",
     "After a deletion has returned, lookups and traversals do not see the key unless it is stored again, and storing it again, also with the very item that was deleted, makes it visible once, with the new value only. Deleting a key never affects any other key, whatever runs at the same time.",
     ["schedules", "histories", "configurations"],
     "Every history of deletions, stores, lookups and traversals of shared keys, " + SCHED + ", " + CONF + ".",
     "The tests delete from one goroutine in maps that do not change otherwise; no test deletes while keys are stored or buckets split.",
     ["map.go", "sample_hmap_entry.go", "maphead.go"],
     [("deletion mark", "maphead.go markDeleted"), ("deletion", "map.go Delete, Purge"), ("marked items are skipped", "map.go _searchBybucket, RangeItem")],
     [("item state", "dummy and deleted marks", "maphead.go MapHead.state")],
     ["Delete", "Purge", "Get", "Set", "StoreItem", "Range"],
     "", "per-key linearizability with deletions; traversals judged as reads of every key")
prop("P06", "One stored entry is deleted successfully once",
     "Of all goroutines that delete a key concurrently, exactly one is told that it deleted the entry that was stored; the others are told that nothing was there, unless the key was stored again in between. Deleting a key that is not stored reports failure and changes nothing.",
     ["schedules", "histories", "configurations"],
     "Every interleaving of 2 to 4 goroutines deleting (and sometimes storing again) the same keys, " + CONF + ".",
     "No test deletes a key twice or from two goroutines.",
     ["map.go", "maphead.go"],
     [("atomic deletion mark", "maphead.go markDeleted"), ("result of deletion", "map.go Delete, Purge")],
     [("item state", "deleted mark", "maphead.go MapHead.state")],
     ["Delete", "Purge", "Len"],
     "", "linearizability where a successful deletion requires the key to be present")
prop("P07", "Traversal at rest delivers every key once, in hash order",
     "While nothing else runs, both traversals deliver exactly the keys that are stored, each once with its current value, in ascending order of reversed hash, and stop at once when the callback says so; walking from the first item to the next, or from the last to the previous, meets the same keys. This holds for every history by which the map got into its state, including concurrent ones.",
     ["inputs", "histories", "schedules", "configurations"],
     "Every key set with its hash positions and every sequential or concurrent history of stores and deletions before the traversal, " + CONF + ".",
     "The tests traverse maps filled by one goroutine with a few fixed key sets and compare counts only.",
     ["map.go", "item.go"],
     [("traversal", "map.go Range, RangeItem"), ("ordered insertion", "map.go _set, add2, find")],
     [("item list", "all items and bucket markers in order of reversed hash", "map.go Map.head")],
     ["Range", "RangeItem", "First/Next", "Last/Prev"],
     "", "comparison with the contents that the recorded history allows")
prop("P08", "Traversal under concurrency misses and invents nothing",
     "A traversal that runs while other goroutines store, update and delete delivers every key that is stored throughout it, no key that is absent throughout it, every value one the key held at some moment of the traversal, and in ascending order of reversed hash. A key that is not deleted meanwhile is delivered at most once.",
     ["schedules", "histories", "configurations"],
     "Every interleaving of traversals with stores, updates, deletions and bucket splits, " + CONF + ".",
     "No test traverses a map that is being changed.",
     ["map.go", "item.go", "bucket.go"],
     [("traversal", "map.go Range, RangeItem"), ("linking of an item", "map.go add2"), ("linking of a bucket marker", "map.go makeBucket, addBucket")],
     [("item list", "all items and bucket markers in order of reversed hash", "map.go Map.head")],
     ["Range", "RangeItem"],
     "", "every delivered (or undelivered) key is judged as a read of that key during the traversal")
prop("P09", "Garbage collection never loses or corrupts an entry",
     "A garbage collection at any moment, in the middle of any operation, leaves every stored key findable with its value, every traversal complete and every later operation working. Entries that callers handed over or that the map created need not be referenced by anyone else, nor need the map itself once its last operations have begun, and the layout of the caller's item type does not matter.",
     ["fault_sequences", "schedules", "configurations"],
     "Every point of every operation at which a collection may happen, " + SCHED + ", " + CONF + "; freed memory is overwritten at once.",
     "The tests keep the keys and items reachable and collect when the runtime happens to; the item list is linked by relative addresses the collector cannot see, so losing an item needs a collection between two particular moments.",
     ["map.go", "pool2.go", "bucket.go"],
     [("references kept for the collector", "map.go Set, StoreItem (Map.items)"), ("pool blocks", "pool2.go Get, _expand")],
     [("kept references", "every item not owned by a pool", "map.go Map.items")],
     ["Get", "LoadItem", "Range", "Set", "StoreItem"],
     "Freed memory is clobbered (GODEBUG clobberfree) so that a dangling link shows itself.",
     "injected collections at seeded statements and between operations, with freed memory overwritten; history and traversal checks; death of the process counts")
prop("P10", "A suspended goroutine does not block lookups, updates or deletions",
     "If a goroutine stops for ever at an arbitrary statement of a store, update, deletion or lookup, all other goroutines can still look up every key, update keys that exist and delete keys, and get correct answers. Only storing of new keys may have to wait.",
     ["schedules", "fault_sequences", "configurations"],
     "Every statement at which one goroutine may be suspended for good, " + CONF + ", every workload of the others.",
     "No test can suspend a goroutine inside an operation.",
     ["map.go", "bucket.go", "map_embedded.go"],
     [("lookups take no lock", "map.go _get, getWithBucket"), ("updates take no lock", "map.go Set, _update"), ("states of half-made buckets are recognised", "map_embedded.go _findBucket")],
     [("insertion lock", "held while a new key is linked", "map.go Map.muInsert")],
     ["Get", "GetByHash", "LoadItem", "Set and StoreItem of existing keys", "Delete", "Purge"],
     "Lookup of a key that is being stored by the suspended goroutine may answer either way.",
     "one task is suspended for good at a seeded statement it passes; the others must finish within a bounded number of statements")
prop("P11", "Every operation returns",
     "Whatever operations run concurrently, each returns after a bounded number of its own steps once the others are allowed to run: no deadlock, no endless loop, no panic.",
     ["schedules", "inputs", "configurations"],
     "Every mix of stores, lookups, updates, deletions, traversals and length queries by 2 to 4 goroutines, " + SCHED + ", " + CONF + ", every placement of hashes including the extreme ones.",
     "A deadlock or livelock needs a particular interleaving; the tests' benchmarks show only that their own runs ended.",
     ["map.go", "bucket.go", "pool2.go", "map_embedded.go"],
     [("retry loops", "map.go Set, add2; bucket.go head"), ("locks", "map.go muInsert, bucket.go muPool, pool2.go")],
     [], ["all operations"],
     "Bound: 500000 statements of one operation, 8 million of one run.",
     "progress within a bounded number of statements under a fair continuation; deadlock detection; panics")
prop("P12", "Keys with colliding or extreme hashes are kept apart",
     "Distinct keys whose hashes are equal, adjacent, zero, maximal or exactly on an internal boundary are stored, found, updated, deleted and traversed independently of each other. None of them hides, overwrites or duplicates another.",
     ["inputs", "schedules", "configurations"],
     "Every assignment of hashes to keys, in particular equal ones and those at bucket boundaries, every order of storing and " + SCHED + ".",
     "The hash of a string is seeded at random by the process, so no test can place keys at equal or boundary hashes, and collisions never occur by chance.",
     ["map.go", "hashfn.go", "map_embedded.go"],
     [("second hash tells keys apart", "map.go selectByConflict"), ("boundary between buckets", "map.go _searchBybucket, searchBucket4update")],
     [("conflict", "second hash of the key", "maphead.go MapHead.conflict")],
     ["Get", "GetByHash", "LoadItemByHash", "StoreItem", "Set", "Range"],
     "The hash function is a seam: the simulator chooses the hash of every key.",
     "simulated hash function with chosen collisions and extremes; history and traversal checks")
prop("P13", "An item keeps its identity while its key is stored",
     "The item that a caller stored under a new key is the item that lookups return, and it stays the same item until the key is deleted. A value written through an item handle is what later lookups return, and a later store of the key is visible through the handle, however far the map has grown meanwhile.",
     ["schedules", "histories", "configurations"],
     "Every history of stores, loads and writes through handles kept across growth and pool expansion, " + SCHED + ", " + CONF + ".",
     "The tests do not keep a handle across growth of the map; a moved or replaced item looks right to lookups by key.",
     ["map.go", "pool2.go", "sample_hmap_entry.go"],
     [("update in place", "map.go _update"), ("pool expansion without moving items", "pool2.go Get, _expand")],
     [("pool block", "array in which items live", "pool2.go samepleItemPool.items")],
     ["StoreItem", "LoadItem", "item Value/SetValue", "RangeItem"],
     "", "pointer identity of items in every result, and handle reads and writes as operations of the key's history")
prop("P14", "The length is the number of stored keys when nothing runs",
     "Whenever no operation is in progress, the reported length equals the number of distinct keys that are stored and not deleted, for every history of stores, updates, deletions and repeated deletions, sequential or concurrent.",
     ["histories", "schedules", "configurations"],
     "Every sequential history and every interleaving of storing and deleting goroutines before the query, " + CONF + ".",
     "The tests query the length only after storing distinct keys from one goroutine.",
     ["map.go"],
     [("counting", "map.go _set, Delete, Purge, AddLen")],
     [("length", "number of entries", "map.go Map.len")],
     ["Len"],
     "", "length compared with the history at quiescent points and with the keys found at the end")
prop("P15", "Maps do not influence each other",
     "Operations on one map, or creation of a map, never change the contents, results or progress of another map that is used at the same time, whatever the configurations of the maps are.",
     ["schedules", "configurations"],
     "Every interleaving of operations on 2 to 3 maps of equal or different configurations and of creating more maps.",
     "No test uses two maps at the same time; state shared between maps (package variables, shared option objects) only shows when operations of different maps interleave.",
     ["map.go", "pool2.go", "bucket.go"],
     [("search option", "map.go newSearchOpt, sharedSearchOpt"), ("package level state", "map.go init, pool2.go")],
     [], ["New", "all operations"],
     "", "every map's history is checked on its own while 2 to 3 maps run interleaved")
prop("P16", "A traversal callback may use the map",
     "From inside a traversal callback, looking up, storing, updating, deleting and traversing the same map works as it does outside, does not deadlock, and the surrounding traversal still obeys its own guarantees.",
     ["programs", "schedules", "configurations"],
     "Every program of nested operations in callbacks of both traversals, also while other goroutines store keys, " + CONF + ".",
     "The tests' callbacks only collect what they are given.",
     ["map.go", "item.go"],
     [("traversal holds no lock", "map.go Range, RangeItem")],
     [], ["Range", "RangeItem", "Get", "Set", "Delete", "Len"],
     "", "nested operations are part of the history; progress bound; traversal checks")
prop("P17", "A pool served by a goroutine gives every key its own item",
     "With items supplied by the background goroutine of the pool, concurrent stores each get an item nobody else has, no request is lost or answered twice, and the map gives the same guarantees as without a pool, also when several maps have such pools.",
     ["schedules", "configurations"],
     "Every interleaving of clients with the pool goroutine and of its channel operations, growth of the pool included.",
     "The tests never enable this mode.",
     ["pool2.go", "map.go"],
     [("request channel", "pool2.go Get, idxMaagement"), ("pool expansion", "pool2.go _expand")],
     [("request channel", "requests for items", "pool2.go Pool")],
     ["Set", "Get", "Len"],
     "", "channels and goroutines of the pool are simulated; history, identity and length checks")
prop("P18", "All configurations give the same results",
     "The same sequence of operations gives the same results, values, traversal order and length in every search mode, with every bucket size and with every way of storing items.",
     ["configurations", "programs", "schedules"],
     "Every sequence of operations applied to 2 to 4 maps that differ in configuration, also with several goroutines that own disjoint keys.",
     "The tests check each configuration on a fixed key set against itself.",
     ["map.go", "bucket.go", "pool2.go", "map_embedded.go"],
     [("search modes", "map.go searchBucket4Key4, _searchBybucket"), ("bucket size", "map.go MaxPefBucket, _set")],
     [("configuration", "search mode, bucket size, pool", "map.go Map")],
     ["all operations"],
     "", "differential: results of the maps are compared operation by operation")
prop("P19", "Diagnostic output does not disturb the map",
     "Writing the diagnostic dumps of a map, at any moment and concurrently with any operation, terminates without a panic and changes no result of any other operation, also when the writer it is given uses the map or fails. A dump of the entries of a map at rest lists every stored key.",
     ["schedules", "configurations"],
     "Every interleaving of the three dumps with stores, deletions, lookups and bucket splits, every writer, " + CONF + ".",
     "No test dumps a map that is in use, or one that holds items of a caller-defined type.",
     ["map.go", "maphead.go"],
     [("dumps", "map.go DumpBucket, DumpBucketPerLevel, DumpEntry")],
     [], ["DumpBucket", "DumpBucketPerLevel", "DumpEntry"],
     "", "dumps run as operations of a task; history and traversal checks")

prop("P20", "RMap behaves as one concurrent map",
     "The layered map rmap.RMap (a map for reads with a skip list map for what was stored since) gives the guarantees of one linearizable map: a stored key is found with its latest value until it is deleted, wherever its entry lives and while entries are being promoted, a deleted key is gone and can be stored again, a key never stored is not found, and no operation panics or hangs, for values of any type.",
     ["schedules", "histories", "inputs"],
     "Every history of stores, lookups and deletions by 2 to 4 goroutines, " + SCHED + ", promotion at every point.",
     "The tests of RMap store from one goroutine and read afterwards; promotion is triggered by a count of misses and its windows are a few statements wide.",
     ["rmap/rmap.go"],
     [("promotion of the second layer", "rmap/rmap.go"), ("entries shared by the layers", "rmap/rmap.go")],
     [("read layer and layer of new entries", "where the entry of a key lives", "rmap/rmap.go RMap")],
     ["rmap Set", "rmap Get", "rmap Delete", "rmap Len"],
     "Go maps are watched for accesses the runtime would abort on.",
     "per-key linearizability, length at rest, concurrent accesses to a built-in map")
prop("P21", "A panic raised by the application leaves the map usable",
     "When application code called by the map panics (a traversal callback, a method of a caller-defined item) or an operation panics because it was given a key of an unsupported type, and the application recovers, the map is as usable as before: no lock stays held, other operations finish and are correct, other keys keep their values, the interrupted operation has either happened or not happened, and the length agrees with the keys.",
     ["fault_sequences", "schedules", "programs"],
     "A panic at every call the map makes to application code, in any operation, with any concurrent operations of other goroutines.",
     "The tests contain no panicking callback or item and recover from nothing.",
     ["map.go", "item.go", "sample_hmap_entry.go"],
     [("locks released on every way out", "map.go Set, StoreItem, _set, makeBucket"), ("order of effects of a deletion", "map.go Delete")],
     [("insertion lock", "held while a new item is linked", "map.go Map.muInsert"), ("length", "number of entries", "map.go Map.len")],
     ["Set", "StoreItem", "Get", "Delete", "Range", "RangeItem", "Len"],
     "Panics are injected into callbacks and methods of items of a type of ours; each strikes once.",
     "panic injection; history check where an interrupted operation may or may not have happened; length against keys; progress")
prop("P22", "Statistics and log do not disturb the map",
     "Enabling the statistics, resetting them while the map is used, and a log writer that is slow or itself uses the map change no result of any operation, block nothing for ever and crash nothing, also with several maps.",
     ["schedules", "configurations"],
     "Every interleaving of operations on one or two maps with the counters and the log writer, " + CONF + ".",
     "The tests reset statistics between runs and never enable them together with concurrent use.",
     ["debug.go", "map.go", "item.go"],
     [("counters shared by all maps", "debug.go DebugStats"), ("log writer", "debug.go Log, SetLogIO")],
     [("statistics", "counters in a built-in map", "debug.go DebugStats")],
     ["Set", "Get", "Delete", "Range", "Len", "ResetStats", "SetLogIO"],
     "", "history, traversal and length checks; concurrent accesses to a built-in map; log writer that looks keys up")
prop("P23", "Options can be changed on a map in use at rest",
     "Changing bucket size, search mode or item pooling of a map that already holds keys, with Options or with the options it returned, while no other operation runs, loses no key and no value, and everything the map guarantees holds afterwards, garbage collection included.",
     ["configurations", "programs", "schedules"],
     "Every sequence of option changes between operations, at any size of the map, followed by concurrent use and collections.",
     "The tests choose options when the map is made and never change them.",
     ["map.go", "bucket.go", "pool2.go"],
     [("options and their inverses", "map.go Options, MaxPefBucket, BucketMode, UsePool"), ("items held by the pool", "pool2.go Pool")],
     [("configuration", "bucket size, search mode, pool", "map.go Map")],
     ["Options", "Set", "Get", "Delete", "Range", "Len"],
     "Bucket sizes from 1 to 100; options change only between phases in which operations run.",
     "history, traversal, length and identity checks; collections with freed memory overwritten")

prop("P24", "Every type and spelling of a key reaches its own entry",
     "A lookup or deletion finds the entry of its key whatever supported type the key is passed in: a string and the bytes of it denote the same key, integers of equal value denote the same key in every integer type, negative and zero included. Keys of any length and content, also the empty string and keys that are beginnings of others, are different keys and never stand for each other, while the map grows and shrinks concurrently.",
     ["inputs", "schedules", "configurations"],
     "Every set of strings or integers as keys, every supported type at every operation, " + SCHED + ", " + CONF + ".",
     "The tests use decimal strings of similar length, passed as strings, only.",
     ["hashfn.go", "map.go", "item.go"],
     [("hash of a key", "hashfn.go KeyToHash, MemHash, MemHashString"), ("choice among items of one hash", "map.go selectByConflict")],
     [("hash and conflict", "position and disambiguator of a key", "maphead.go MapHead")],
     ["Get", "GetByHash", "LoadItem", "Delete", "Set", "StoreItem", "KeyToHash"],
     "Consecutive and negative integers; strings chosen to be prefixes, long, or to contain NUL.",
     "per-key linearizability where every operation passes its key in a drawn type")

prop("P25", "The embedded item storage is the same map",
     "A map built with UseEmbeddedPool (items live in arrays owned by buckets, are moved when a bucket splits or grows, and are reused after deletion) is still one linearizable map by key: storing, updating, deleting, purging, storing again and looking keys up, from any number of goroutines, while buckets split, behave as a map; nothing deadlocks, panics or is lost, also across garbage collections and when the map itself is dropped during an operation. A traversal delivers each key that stays, once, with a value it had, in hash order, invents nothing, and its callback may use the map or panic; Len() at rest is the number of keys.",
     ["inputs", "schedules", "configurations"],
     "Every set of string keys, every history of updates, deletions and insertions, every bucket capacity, " + SCHED + ", with collections.",
     "The tests of embedded mode insert and read keys from one goroutine; they do not delete, update or traverse, and do not run operations concurrently.",
     ["map_embedded.go", "map.go"],
     [("bucket split", "map_embedded.go makeBucket2"), ("choice and reuse of a slot", "map_embedded.go getWithFn, state4get, insertToPool"), ("locking of buckets", "map_embedded.go lockBucket, searchWithLock")],
     [("slots of a bucket", "sorted by hash, deleted ones included", "map_embedded.go samepleItemPool"), ("state and lock of bucket", "a new bucket is locked and not used until its items are moved", "bucket.go bucket")],
     ["Set", "StoreItem", "Get", "GetByHash", "Delete", "Purge", "Range", "RangeItem", "Len", "DumpEntry", "UseEmbeddedPool"],
     "Identity of items, and reading an item handle while other goroutines insert, are not claimed in this mode: slots move.",
     "per-key linearizability, conservation and order at rest, coverage of traversals")

prop("P26", "Looking a key up stays cheap as the map grows",
     "The work of a lookup does not grow with the number of stored keys: when a map at rest holds thousands of keys, however many goroutines stored them at the same time and however they were interleaved, looking up any of them executes on average only a small multiple of the statements it takes in a map of the same configuration with a hundred keys, and no single key is reached only by walking along a long part of the list.",
     ["schedules", "configurations", "histories"],
     "Every set of 300 to 4000 keys, with uniformly distributed hashes or hashes that share a prefix (numeric keys, for example), every bucket capacity from 2 to 8, " + SCHED + ", " + CONF + " and the embedded item storage. Without deletions: deleted entries stay linked.",
     "The tests store few keys and never look at what a lookup costs; a bucket that is lost, or never split again, changes no result.",
     ["map.go", "bucket.go", "map_embedded.go"],
     [("split of full buckets", "map.go _set, makeBucket"), ("choice of the bucket a lookup starts at", "map.go searchBucket4Key4, findBucket, searchBybucket"), ("embedded mode", "map_embedded.go makeBucket2, bsearchBybucket")],
     [("number of items of a bucket", "about the capacity of a bucket", "bucket.go _len")],
     ["Get", "GetByHash", "LoadItem", "Set", "StoreItem", "MaxPefBucket", "BucketMode"],
     "What storing a new key costs is not claimed (it grows with the number of buckets).",
     "statements executed per lookup, compared with a small map of the same run (4 times on average, 15 times for a single key; the current code stays below 2.2 and 3.5)")

NA = []

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
na = {n["property"] for n in NA}
checks = [dict(property=p["id"], quick_cmd=f"bash /verif/check.sh {p['id']} quick", thorough_cmd=f"bash /verif/check.sh {p['id']} thorough",
               technique="deterministic simulation with fault injection: seeded schedules, stalls and faults over the real code; " + p["_tech"],
               level="exploration", level_note=("Seeded search, not exhaustive. " + p["_note"]).strip()) for p in P if p["id"] not in na]
m = dict(version=1, setup_cmd="bash /verif/check.sh --setup",
         hooks=dict(guard="none: the seams are put into a copy of the tree by /verif/sim/cmd/instrument at check time; /repo carries no hook",
                    enable="check.sh instruments /repo's working tree into /verif/.build", source_commits=[]),
         checks=checks, not_applicable=NA,
         notes="Every check rebuilds from /repo's working tree. Replay: bash /verif/check.sh --replay FILE. known-findings.txt lists repaired and recorded defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
