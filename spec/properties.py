"""Source of properties.jsonl (written by spec/gen.py)."""
H = "include/diva.hpp"
U = "include/util.hpp"
W = "include/wormhole/wh.c"
WI = "include/wormhole/wh_int.c"
LIB = "include/wormhole/lib.c"
KV = "include/wormhole/kv.c"


def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a}


PROPS = [
    P("C01", "Every filter operation leaves the boundary index unlocked",
      "By the time a filter operation returns it has released every lock on the boundary index that it took, each exactly "
      "once, and it holds none of them while it modifies the index. So no operation can block a later one, or itself, "
      "whatever the keys and the history.",
      ["inputs", "histories", "configurations"],
      "every path of every public operation, both key variants, any history and keys",
      "A lock left behind or released twice on a rare path (partial boundary, end of index, early exit) corrupts a counter "
      "that only a later split of that very leaf observes; the tests take a few paths and never look at the lock words.",
      [H], [("iterator lock hand-over", "wh_iter_seek/skip1/unlock_read sequences in every operation"),
            ("delete-merge hand-over of the caller's iterator", "Diva::Delete / Diva::DeleteMerge")],
      [("read lock of the leaf an iterator stands on", "taken by seek/skip, released by the operation")]),
    P("C02", "Queries, sizing and serialisation leave the filter unchanged",
      "Point queries, range queries, size computation and serialisation leave the filter's partitions, boundary index and "
      "configuration exactly as they were, and write to nothing but the caller's output buffer. No operation ever writes "
      "to the key bytes or the serialised image it is given.",
      ["inputs", "histories", "programs"],
      "every store and every index call reachable from a read-only operation, for all inputs",
      "A test sees a query's answer, not the words it changed; a write on a rare path (partial boundary, empty partition, "
      "wrap at a word boundary) goes unnoticed unless a later query hits exactly that word.",
      [H, U], [("const operations reach mutable records through pointers", "Diva::PointQuery, RangeQuery, Size, Serialize"),
               ("infix store queries take non-const references", "Diva::RangeQueryInfixStore, PointQueryInfixStore")]),
    P("C03", "No operation uses a boundary entry after removing or replacing it",
      "Once an operation has removed a boundary key from the index or replaced its entry, it never again reads or writes "
      "that entry's key bytes or partition record. This holds on every path of insertions, deletions and loads.",
      ["inputs", "histories"],
      "every path that removes or replaces an index entry, then any later access on that path",
      "The freed record usually still holds the old bytes, so a test passes; only an unlucky reuse of the memory shows it.",
      [H], [("merge of two partitions", "Diva::DeleteMerge"), ("split of a partition", "Diva::InsertSplit")]),
    P("C04", "Every partition buffer and key copy has exactly one owner",
      "Every buffer an operation allocates is, when the operation returns, either freed or reachable from exactly one "
      "place in the filter; every buffer it takes out of the filter is freed exactly once and never used afterwards. "
      "Destroying a filter frees what it still owns.",
      ["inputs", "histories"],
      "every path of every operation between the allocation, hand-over and release of a buffer",
      "Leaks and double frees need particular paths (split with an early exit, merge, streaming reload) and do not change "
      "query answers, which is all the tests look at.",
      [H], [("split, merge, resize and shrink replace buffers", "Diva::InsertSplit, DeleteMerge, ResizeInfixStore, "
             "ShrinkInfixStoreInfixSize"), ("streaming key copies", "Diva::BulkLoadStreaming*"),
            ("destructor", "Diva::~Diva")]),
    P("C05", "Serialised images are complete and read back exactly as written",
      "What deserialisation reads is what serialisation wrote: both agree on the order, width and position of every item, "
      "on the padding of keys and on the length of each partition, and the reported size equals the bytes written. Every "
      "configuration value and every partition's bookkeeping and contents are restored, into memory the new filter owns.",
      ["inputs", "configurations", "histories"],
      "all filters (any number, length and grade of partitions, any configuration) written and read back",
      "The round-trip test samples one configuration; a field restored from the wrong offset, a default that happens to "
      "equal the sampled value, or an aliasing of the input buffer stays invisible.",
      [H], [("writer", "Diva::Serialize, SerializeMetadata, SerializeInfixStore"),
            ("reader", "Diva::Diva(char*), DeserializeMetadata, DeserializeInfixStore"), ("size", "Diva::Size")]),
    P("C06", "Integer, string and byte overloads of an operation agree",
      "Each integer overload behaves exactly as the byte-string operation on the key's eight big-endian bytes, and each "
      "string overload exactly as the byte-string operation on the string's bytes and length, with arguments in the same "
      "order and the same result. This makes integer order equal byte order for every operation.",
      ["inputs", "configurations"],
      "all integer and string keys, every overloaded operation, both filter variants",
      "Tests exercise one overload per operation with a few keys; a swapped, truncated or unconverted key in one overload "
      "matters only for keys the tests do not use.",
      [H], [("overload forwarding", "Diva::Insert/Delete/PointQuery/RangeQuery/BulkLoadStreaming overloads")]),
    P("C07", "All operations map a key to the same fingerprint",
      "Insertion, deletion, point queries, range queries and every form of bulk load compute the same partition and the "
      "same fingerprint for a key, from the boundary keys immediately around it: the key's bit at the first difference "
      "followed by the bits after the ignored ones, relative to the left boundary. The partition's fingerprint range they "
      "pass on is the same too.",
      ["inputs", "histories", "configurations"],
      "all keys, boundary pairs and fingerprint sizes, across operations",
      "A disagreement for particular alignments or lengths turns into a false negative only for keys with those "
      "alignments that went in through one path and are looked up through the other.",
      [H], [("extraction", "Diva::ExtractPartialKey and the inlined integer version in RangeQuery"),
            ("boundary search", "seek/skip sequences of each operation"),
            ("bulk load fingerprints", "Diva::BulkLoadFixedLength, BulkLoad, BulkLoadStreaming*")]),
    P("C08", "Slot and bitmap accesses touch exactly their own bits",
      "Reading a slot returns exactly what was last written to that slot, and writing or shifting slots or bitmap bits "
      "changes exactly the bits of those positions and no others. The regions of a partition do not overlap, and every "
      "access through a valid slot number lies inside the partition's buffer; a partition's buffer is as large as its size "
      "class and slot width need and starts with every bit clear.",
      ["inputs", "configurations"],
      "all slot numbers, slot widths, size grades and neighbouring contents",
      "Tests sample a few widths, positions and contents; an off-by-one mask damages a neighbour only for some alignments.",
      [H, U], [("slot access", "Diva::GetSlot, SetSlot"), ("shifts", "shift_bitmap_left/right, Diva::Shift*"),
               ("bitmap bits", "set/reset/get_bitmap_bit"), ("buffer size", "InfixStore::GetPtrWordCount")]),
    P("C09", "Partition bookkeeping survives every update",
      "A partition's element count, size class, partial-boundary mark and count of ignored boundary bits are independent: "
      "updating one leaves the others as they were. Each insertion raises the count by one and each removal lowers it by "
      "one, and splits, merges, resizes, shrinks and loads keep the marks of the boundary they belong to.",
      ["inputs", "histories"],
      "all field values and all operations that update a partition",
      "The fields share one word; an overlap shows only for particular values, and a lost mark only when a later "
      "operation consults it.",
      [H], [("packed status word", "InfixStore accessors"), ("split and merge", "Diva::InsertSplit, DeleteMerge"),
            ("count updates", "Diva::InsertRawIntoInfixStore, DeleteRawFromInfixStore, LoadListToInfixStore")]),
    P("C10", "Every key comparison implements the same total order",
      "All key comparisons, in the filter and in both boundary indexes, implement one order: unsigned bytes "
      "lexicographically, a proper prefix first; equality means same length and same bytes. The prefix test ignores "
      "exactly the low bits of the last byte it is told to ignore.",
      ["inputs"],
      "all pairs of keys of any length and content",
      "Tests compare a few keys, mostly of equal length; bytes of 128 and above, prefixes and length ties are where orders "
      "diverge.",
      [H, W, WI, KV], [("filter comparisons", "InfiniteByteString operators"), ("index comparisons", "kv_compare, "
                       "kref_compare, kref_kv_compare, kv_match and friends")]),
    P("C11", "Construction is complete and deterministic",
      "Every constructor leaves the filter in a state where no operation reads a value that was never set. Two filters "
      "built and driven by the same arguments and calls behave identically: randomness comes only from the given seed.",
      ["inputs", "configurations", "programs"],
      "all constructors, all operations after them",
      "Uninitialised memory is often zero in a test, and one run cannot show that another would differ.",
      [H], [("constructors", "Diva::Diva"), ("random choice of boundaries", "Diva::Insert")]),
    P("C12", "The concurrent index releases every lock it takes",
      "Every operation of the concurrent boundary indexes releases each leaf, meta and helper lock that it takes, exactly "
      "once and in the mode it was taken, on every path including failure paths; only iterators, as documented, keep one "
      "leaf lock between calls. A leaf is changed only while its write lock (or, for sorting, its sort lock) is held, and is "
      "not touched after its lock was released.",
      ["schedules", "inputs", "fault_sequences"],
      "every path of every index operation, including retries and allocation failures",
      "A lock leaked or released in the wrong mode on a retry, version mismatch or out-of-memory path needs an unlucky "
      "schedule or a failing allocation to be reached at all.",
      [W, WI, LIB], [("leaf and meta locks", "wormleaf_lock_*/unlock_*, wormhmap_lock/unlock"),
                     ("operations", "wormhole_put/del/merge/inp/iter_*, whsafe_*")]),
    P("C13", "Readers finish before what they may be reading is reused",
      "A thread that changes the index's shared structure publishes the new version first and waits for all earlier "
      "readers to pass before it modifies or frees anything reachable from the old version.",
      ["schedules"],
      "all schedules of readers against splits and merges",
      "Requires a reader suspended in a window of a few instructions while a writer splits or merges; no test runs threads.",
      [W, WI, LIB], [("grace period", "qsbr_wait and its callers"), ("double-buffered meta map", "wormhmap_switch")]),
    P("C14", "Every index entry point is implemented and announces itself",
      "Every operation the index API offers is backed by an implementation that follows the documented calling protocol "
      "of its slot, and the thread-safe flavour announces the caller as active before it touches shared structure and as "
      "inactive after it, on every path.  (The integer index declares merge and the borrowing peeks unsupported: they "
      "report failure.)",
      ["programs", "schedules"],
      "all entry points and paths",
      "Most entry points are never called by the tests, and a missing announcement matters only under concurrency.",
      [W, WI], [("operation tables", "kvmap_api_*"), ("thread-safe wrappers", "whsafe_*")]),
    P("C15", "Index records are owned once",
      "A key-value record stored in the index is released exactly once when it is replaced or deleted, never while still "
      "reachable, and a copy of a record that could not be stored is released exactly once.  The anchor and prefix keys "
      "the index allocates for itself are likewise neither leaked nor released while referenced.",
      ["inputs", "histories", "fault_sequences"],
      "all paths of insertion, replacement, merge and deletion",
      "A double release or leak on a rare path (replacement, failed split) does not change lookups the tests make.",
      [W, WI, KV], [("put/del/merge", "wormhole_put, wormhole_del, wormhole_merge"), ("memory manager", "kvmap_mm")]),
    P("C16", "Fingerprint matching is consistent across operations",
      "A fingerprint stored with a shortened precision covers exactly the values that share its leading bits, and point "
      "queries, range queries, deletions and match-length lookups all apply that same coverage. A fingerprint therefore "
      "matches a key in one operation if and only if it does in the others. Insertion keeps each run ordered by the lower "
      "end of what its fingerprints cover, as the searches assume, and shortening a fingerprint keeps its leading bits.",
      ["inputs"],
      "all stored fingerprints, precisions and probe values",
      "Shortened fingerprints arise only after splits and shrinks, and only particular bit patterns tell the predicates "
      "apart.",
      [H], [("match predicates", "Diva::PointQueryInfixStore, RangeQueryInfixStore, DeleteRawFromInfixStore, "
             "GetLongestMatchingInfixSize, InsertRawIntoInfixStore, ShrinkInfixStoreInfixSize")]),
    P("C17", "Index leaves are in key order whenever that order is used",
      "Each leaf of the boundary indexes counts how many of its keys are in order. Every lookup, update, removal, range "
      "removal or walk that relies on key order first makes sure that this count covers all keys of the leaf, and an "
      "iterator never rests on a leaf where it does not. An operation declares all keys of a leaf to be in order only after "
      "sorting them, or when it changed them without disturbing the order.",
      ["inputs", "histories"],
      "all orders in which keys are put and removed, all operations of both indexes",
      "A key is missed only when it stands behind the ordered part of its leaf at the moment of the call, which depends on the "
      "order of earlier puts and removals.",
      [W, WI], [("ordered-key count", "wormleaf_sync_sorted, wormleaf_insert, wormleaf_remove and their callers"),
                ("point operations of the integer index", "wormhole_int_get, put, probe, del")]),
    # ------------------------------------------------------------------ not decided by this family
    P("C30", "No false negatives",
      "A point query for a key in the filter, and a range query over a range containing such a key, always returns true.",
      ["inputs", "histories"], "all key sets, all histories of operations, all queries",
      "The space of histories is unbounded; the tests sample random ones.",
      [H, U], [("whole filter", "Diva::PointQuery, RangeQuery")]),
    P("C31", "False positive rate bound",
      "On well-behaved key distributions the fraction of empty queries answered true stays below the configured bound.",
      ["inputs", "configurations"], "key distributions and query workloads", "Statistical; tests check no rate.",
      [H], [("fingerprint length", "infix size")]),
    P("C32", "Rank and select agree with the stored runs",
      "For every occupied position, the run located through the cached counts and rank/select is exactly the run of "
      "fingerprints stored for it, after any sequence of updates.",
      ["inputs", "histories"], "all partition contents reachable by updates",
      "Requires the joint value of counters and bitmaps; tests sample histories.",
      [H, U], [("cached counts", "popcnts"), ("rank/select", "RankOccupieds, SelectRunends, bit_select")]),
    P("C33", "Concurrent index operations are linearizable",
      "Concurrent lookups, insertions and deletions on the boundary index behave as if each took effect at one instant.",
      ["schedules"], "all schedules", "The tests are single threaded.", [W, WI], [("whole index", "wormhole_*")]),
    P("C34", "Operations terminate",
      "Every operation finishes for every input.", ["inputs", "histories"], "all inputs", "A test cannot show termination.",
      [H, W, WI], [("loops", "boundary comparison, binary searches, retries")]),
]
