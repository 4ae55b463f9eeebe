"""One entry per claimed property: the analysis module, the rule it applies and the floor on rule instances."""
TRUST = ["clang 18 front end and LLVM's sroa/instcombine/simplifycfg passes preserve the program's meaning",
         "the analysis compiles with -DNDEBUG -fno-exceptions, the configuration the release build uses"]

CHECKS = {
    "C01": {
        "module": "p_locks",
        "technique": "path-sensitive typestate analysis over LLVM IR",
        "floor": {"lock-transfer": 10, "unlock": 8, "mutation": 4, "exit": 10},
        "rule": "on every path of every public operation, a leaf lock obtained through an index iterator is released "
                "exactly once, before any index mutation and before return",
        "explanation": "path-sensitive typestate analysis over the LLVM IR of all public operations (both variants, all "
                       "helpers inlined); one abstract lock per iterator object",
        "assumptions": TRUST + ["index iterators lock and unlock leaves as their implementation does today: seek/skip "
                                "move the lock and release it when the iterator runs off the end"],
    },
    "C02": {
        "module": "p_effects",
        "technique": "interprocedural may-write effect analysis (points-to over LLVM IR)",
        "floor": {"read-only operations": 10, "stores judged": 100, "index calls judged": 20, "operations": 20},
        "rule": "no store, copy, atomic update, free or index mutator reachable from a read-only operation may reach the "
                "filter, its index or its records, and none in any operation may reach the caller's input bytes",
        "explanation": "flow-insensitive, offset-sensitive points-to analysis over the fully inlined IR of every public "
                       "operation and overload, both variants; every write site is resolved to the objects it may reach",
        "assumptions": TRUST + ["moving an index iterator, which locks and unlocks leaves, is not counted as a change"],
    },
    "C03": {
        "module": "p_entries",
        "technique": "path-sensitive typestate analysis over LLVM IR",
        "floor": {"removal": 4, "removal of a peeked entry": 2, "access": 100, "exit": 10},
        "rule": "after the index entry that a peek returned has been deleted or replaced, no path loads from, stores to or "
                "passes on the key and record pointers that peek produced",
        "explanation": "path-sensitive typestate analysis over the inlined IR of all public operations; an index entry is "
                       "identified by its position relative to the last seek, so two peeks of one entry alias",
        "assumptions": TRUST + ["putting or deleting a key frees the index's old copy of that entry and no other"],
    },
    "C04": {
        "module": "p_buffers",
        "technique": "path-sensitive ownership analysis over LLVM IR",
        "floor": {"put of an allocated buffer": 8, "released": 20, "exit": 10, "owned fields": 2, "destroy": 1,
                  "handed over": 8},
        "rule": "every buffer allocated, taken out of the index or removed from an owning field is on every path freed or "
                "handed to exactly one owner, never freed twice, never used after, and never left dangling in the filter",
        "explanation": "path-sensitive ownership typestate over the inlined IR of all public operations, both variants; the "
                       "owning fields of the filter are read off the destructor",
        "assumptions": TRUST + ["the index copies keys and records on put and frees only its own copies",
                                "buffer arrays freed element by element in a loop are tracked as one location"],
    },
}
CHECKS["C06"] = {
    "module": "p_overloads",
    "technique": "path-sensitive value-flow analysis over LLVM IR",
    "floor": {"overload": 6, "forwarding call": 4, "argument": 4, "answer": 2},
    "rule": "every path of an integer or string overload performs the byte-string operation of the same name exactly once, "
            "with the key's eight big-endian bytes (or the string's bytes and length), keys in order, and returns its answer",
    "explanation": "path-sensitive value-flow analysis of every overload, both variants; the argument expressions reaching "
                   "the byte-string operation are compared with the specified ones, and a difference is reported only "
                   "with a valuation that tells them apart",
    "assumptions": TRUST + ["an overload that does not forward at all (its own copy of the operation) is left undecided"],
}
CHECKS["C09"] = {
    "module": "p_book",
    "technique": "path-sensitive value-flow analysis of the packed status word over LLVM IR",
    "floor": {"fields located": 4, "obligation": 40, "record stored": 6, "exit": 10},
    "rule": "the four bookkeeping fields occupy disjoint bits; each partition update changes exactly the fields it must "
            "(count +1, -1 or set to the list length; size class +-1 on resize) and keeps the rest; a record stored for an "
            "existing boundary keeps its marks, a shortened key's record says so with exactly the bits that were cleared, "
            "a complete key's record has neither mark, and a merged count is the sum",
    "explanation": "the field layout is inferred from the accessors; the status word is then tracked as an expression along "
                   "every path of the five partition updates and of every operation that stores a record; an expression is "
                   "reported only with a valuation that makes the field differ from what is specified",
    "assumptions": TRUST + ["field values fit their fields (element counts below 2^20, size classes below 2^8)",
                            "nested partition updates do what their own analysis (same check) establishes"],
}
CHECKS["C10"] = {
    "module": "p_order",
    "technique": "value-flow summaries of every comparison over LLVM IR, judged against the order's definition",
    "floor": {"comparisons decided": 6},
    "rule": "the expression each key comparison computes from two keys' bytes and lengths is the unsigned lexicographic "
            "order with a proper prefix first (or equality, or the prefix test), and every search passes the big-endian "
            "value of exactly the probe's own bytes",
    "explanation": "every comparison of the filter and of both indexes is summarised, path by path, as conditions and "
                   "expressions over the two keys; a summary is reported as wrong only with a pair of keys whose order it "
                   "gets wrong",
    "assumptions": TRUST + ["index entries pack a record's address into the upper 48 bits of an entry"],
}
CHECKS["C05"] = {
    "module": "p_image",
    "technique": "value-flow summaries of writer, sizer and reader over LLVM IR, matched position by position",
    "floor": {"image writers": 1, "image readers": 1},
    "rule": "for no, one and two partitions: the bytes the reader takes for each configuration value, key, bookkeeping word "
            "and partition are the ones the writer put there, into memory the filter allocated large enough; no byte is left "
            "unwritten; the reader stops at the terminator; the returned and the reported size are the bytes written",
    "explanation": "Serialize, Size and the reading constructor are summarised path by path, loops unrolled exactly for up to "
                   "two partitions; positions and lengths are expressions over key lengths, bookkeeping and configuration, "
                   "and a mismatch is reported only with values that show it",
    "assumptions": TRUST + ["the walk over the index returns each entry once", "what holds from one partition to the next "
                            "holds for any number of them"],
}
CHECKS["C12"] = {
    "module": "p_wlocks",
    "technique": "path-sensitive lock typestate analysis over LLVM IR",
    "floor": {"acquisition": 100, "release": 100, "exit": 50, "leaf change": 20},
    "rule": "on every path of every public index operation (failed try-locks and failed allocations included) each lock is "
            "released exactly once in the mode it was taken, an iterator keeps exactly the read lock of the leaf it stands "
            "on, and a locked leaf is changed only under its write lock (or its sort lock) and not touched after release",
    "explanation": "path-sensitive typestate analysis over the inlined IR of every external wormhole/whsafe/whunsafe "
                   "function of both indexes; one state per set of locks held, locked objects identified by value terms",
    "assumptions": TRUST + ["the lock primitives of lib.c do what their names say",
                            "two different expressions for a leaf may denote the same leaf: such locks are counted, not named"],
}
CHECKS["C13"] = {
    "module": "p_grace",
    "technique": "path-sensitive protocol (typestate) analysis over LLVM IR",
    "floor": {"publication": 4, "wait": 4, "map update": 8, "lookup": 4, "leaf validated": 4, "publication completed": 4},
    "rule": "under the meta lock, only the unpublished version of the map is changed before publication; after it the "
            "writer announces the new version, waits for exactly that version, and only then applies the same changes to "
            "the old version and frees leaves; changed leaves carry the new version; readers announce the version they "
            "search and use a leaf found through it only after comparing versions",
    "explanation": "path-sensitive protocol analysis over the inlined IR of every public operation of the concurrent "
                   "indexes; which of the two map versions an address denotes is decided for both positions of the "
                   "published pointer",
    "assumptions": TRUST + ["qsbr_wait returns only after every announced reader has left older versions (lib.c)",
                            "structure changes are recognised at the calls that may write through a map version"],
}
CHECKS["C14"] = {
    "module": "p_api",
    "technique": "table-contract lint and path-sensitive typestate analysis over LLVM IR",
    "floor": {"slot": 60, "announced active": 10, "shared access": 10, "exit": 20, "wrapper": 20, "table operation": 15},
    "rule": "every slot of every operation table names a function with the slot's arguments that locks leaves as the slot "
            "implies; every public wrapper performs exactly its slot's operation once, with the caller's reference, key "
            "(and its hash) and arguments, and returns its answer; thread-safe operations announce the caller active "
            "before touching shared structure and inactive on every way out (an iterator: from seek to park)",
    "explanation": "the operation tables are read off the constant initialisers; slot contracts are judged on the call "
                   "graph, wrappers and the activity protocol path by path",
    "assumptions": TRUST + ["a slot function that takes no lock and calls nothing is a declared stub and is not judged",
                            "an operation may announce its caller inactive while it blocks on a lock it came upon while "
                            "active; the lookup is validated afterwards (C13)"],
}
CHECKS["C15"] = {
    "module": "p_records",
    "technique": "path-sensitive ownership typestate over LLVM IR",
    "floor": {"record taken in": 2, "record removed": 2, "release": 8, "hand-over": 10, "exit": 30},
    "rule": "on every path of every index operation a record taken in is stored or released, exactly one of the two; a "
            "record that was replaced or removed is released exactly once and not used afterwards; a failed split takes the "
            "record back; records released in place are uncounted; anchors, prefix keys and new leaves are handed over or "
            "released on every failing path, a shared prefix key exactly when nothing refers to it",
    "explanation": "path-sensitive ownership analysis of every public operation of both indexes and of the storing helpers, "
                   "whose contracts (stores iff it succeeds) are checked on their own bodies",
    "assumptions": TRUST + ["insert, update and remove of one entry do what their names say",
                            "leaf splitting either stores the new record in one of the two leaves or fails before moving",
                            "an operation written without these helpers is judged only as far as its own calls go"],
}
CHECKS["C08"] = {
    "module": "p_bits",
    "technique": "store-chain summaries with loop induction, and allocation-size value flow, over LLVM IR",
    "floor": {"function decided": 4, "buffer sized": 4},
    "rule": "reading a slot yields exactly the bits of its position, writing it changes exactly those; shifting slots or "
            "run-end bits moves exactly the named range and clears exactly what it leaves; every access through a valid slot "
            "stays in the buffer; a buffer that becomes a partition's has room for its size class at its slot width and is cleared first",
    "explanation": "each accessor is summarised between loop headers as conditions, values and a chain of stores; loops are "
                   "decided by induction over an arbitrary cursor with the memory described bit by bit; allocation sizes are "
                   "followed as expressions to every place a record takes a buffer",
    "assumptions": TRUST + ["slot numbers and ranges passed in are valid for the partition",
                            "expressions are compared under generated widths, positions and contents"],
}
CHECKS["C11"] = {
    "module": "p_init",
    "technique": "definite-assignment dataflow over LLVM IR, with exact counting of constant loops",
    "floor": {"operation": 10, "constructor": 4, "member judged": 20, "seeding judged": 4, "call judged": 200},
    "rule": "every byte of the filter that some operation may read before writing it is written on every path of every "
            "constructor; the generator is on every path last seeded with the seed given or restored; configuration values "
            "are final before they are used; no operation uses another source of randomness or changes shared state",
    "explanation": "forward must-write analysis of every constructor and upward-exposed reads of every operation, byte by "
                   "byte over the filter object, all helpers inlined, both variants",
    "assumptions": TRUST + ["arrays filled by loops whose bounds are not constants count as filled",
                            "memory the filter owns through pointers is not part of this check"],
}
CHECKS["C16"] = {
    "module": "p_match",
    "technique": "value-flow summaries of every fingerprint comparison over LLVM IR, judged by exhaustive truth tables",
    "floor": {"function": 2},
    "rule": "a path on which a stored fingerprint is compared with the key ends in a match exactly when the fingerprint "
            "covers the key (a range: the part of it in that run); a search never steps over a covering fingerprint; "
            "insertion keeps runs ordered by the lower end of the coverage; shortening keeps the leading bits",
    "explanation": "the functions are cut at loop headers and each slot a branch compares with the key is judged by the "
                   "outcomes its paths lead to, for every fingerprint, precision and probe value of small widths",
    "assumptions": TRUST + ["the comparison does not depend on the fingerprint width other than through the masks it uses",
                            "probe values of insertions and deletions have their lowest bit set (C07)"],
}

CHECKS["C07"] = {
    "module": "p_finger",
    "technique": "value-flow analysis of each operation's fingerprint over LLVM IR, compared with the definition",
    "floor": {"operation on a partition": 2},
    "rule": "the fingerprint, the number of implicit values and the partition an operation hands to the partition level are "
            "those the definition gives for the key between its two neighbouring boundaries; bulk loading stores, under its "
            "left boundary, the fingerprints queries look for",
    "explanation": "index entries are known by their position relative to the operation's search; the values reaching the "
                   "partition level are evaluated as functions of key bytes and boundaries on every path, for fingerprint "
                   "widths 4 to 40",
    "assumptions": TRUST + ["the lengths computed for a pair of boundaries, which the operations use by definition, are "
                            "examined piecewise between loop headers for sampled boundaries only",
                            "the index returns the first key not less than the one sought (C10)"],
}
CHECKS["C17"] = {
    "module": "p_sorted",
    "technique": "path-sensitive typestate analysis over LLVM IR",
    "floor": {"ordered use": 10, "resting iterator": 6, "ordered count change": 6},
    "rule": "every use of a leaf's ordered-key count to search or walk the leaf happens where that count is known to equal "
            "the number of keys; an iterator rests only on such a leaf; the count is set to the number of keys only after "
            "sorting the leaf or comparing its keys",
    "explanation": "path-sensitive typestate analysis of every public index operation (both indexes, helpers inlined): one "
                   "'all keys in order' state per leaf, established by branches and stores on the two counts",
    "assumptions": TRUST + ["the sort routine and the merge after it put the keys in the order of their comparison (the "
                            "comparison itself is C10)"],
}
