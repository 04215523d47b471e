"""Which machinery decides which property."""
BLAKE = "BLAKE3 as an uninterpreted collision-free function"
STD = "std integer intrinsics as specified by vstd or the unit's assume_specification lines"
PROPS = {
    "C01": dict(level="proof", units=["mmr_pos", "mmr_proof", "mmr_incr"], bin="mmr", feature="f-mmr", note="root calculation, verification and incremental verification proved for all proofs of any size (an accepted proof or extension names only true values), position arithmetic for all inputs"),
    "C02": dict(level="proof", units=["mmr_pos", "mmr_store", "mmr_gen", "mmr_proof", "mmr_adapter"], bin="mmr", feature="f-mmr", note="push, root, overlay reads, commit, stored node form, the node store over a storage context (keys of positions below 2^63 or 2^31 apart from each other and from the dense tree's) and honest proofs (gen_proof, generate, accepted with the range's root) proved for every leaf sequence up to 2^62 and every set of leaves; the node store is a verified implementation of the store contract; the proof's byte encoding and the incremental checks searched (bounded)"),
    "C03": dict(level="proof", units=["mmr_pos", "mmr_keys"], bin="mmr", feature="f-mmr", note="position arithmetic proved for all inputs; storage keys distinct and in the order of the positions for every position of at most the key width, others refused; to_be_bytes trusted"),
    "C10": dict(level="proof", units=["costs"], bin="costs", feature="f-costs", note="cost addition, every counter constructor and every CostContext combinator and the early-return macros (expanded from their own text) proved"),
    "C11": dict(level="proof", units=["costs"], bin="costs", feature="f-costs", note="both additions of removal records proved for all maps, iteration order unspecified; map primitives trusted"),
    "C15": dict(level="proof", units=["path"], bin="path", feature="f-path", note="representation invariant, length, rootness, parent, child, iteration, equality, order (a total order, theorem), what a hasher is fed and the segment list proved for every nesting of representations"),
    "C12": dict(level="proof", units=["flags", "flags_codec", "flags_update"], bin="flags", feature="f-flags", note="encoder, size prediction, decoder and every conversion to and from stored element flags proved against one layout and its inverse for all flag values; varint and BTreeMap primitives trusted"),
    "C13": dict(level="proof", units=["flags", "flags_update"], bin="flags", feature="f-flags", note="every combination function, and the update of stored flags built on them, proved for all flags, amounts and strategies; map primitives trusted"),
    "C14": dict(level="proof", units=["flags", "flags_update"], bin="flags", feature="f-flags", note="both split functions, their composition and the split from stored flags proved for all flags and byte counts; map primitives trusted"),
    "C04": dict(level="proof", units=["dense"], bin="dense", feature="f-dense", note="every tree operation proved against the documented root for all heights, counts and failing storage operations; the storage context is a trusted map"),
    "C05": dict(level="proof", units=["dense"], bin="dense", feature="f-dense", note="the verifier accepts exactly the well-shaped proofs, and an accepted proof with the true root proves only true entries (hash injectivity assumed); decoding bytes searched (bounded)"),
    "C06": dict(level="proof", units=["dense"], bin="dense", feature="f-dense", note="generated proofs are accepted, hash to the true root and answer exactly the query; encoding searched (bounded)"),
    "C09": dict(level="proof", units=["bulk_blob"], bin="bulk", feature="f-bulk", note="encoder and decoder proved against one layout and its inverse for all entry lists and all byte strings; round trip and byte accounting are lemmas"),
    "C18": dict(level="proof", units=["query_item", "query_iter", "query_many"], bin="query", feature="f-query", note="membership, bounds, overlap, intersection, merge, key comparison and the walk of a store with an item in both directions proved for all items, byte strings and stores (the raw iterator by its contract); the intersection of whole lists of items too; derived equality searched (bounded)"),
    "C19": dict(level="proof", units=["query_insert", "query_item"], bin="query", feature="f-query", note="insertion and merging of item lists proved for all sorted disjoint lists; order independence and sorted input follow from the union being determined"),
    "C20": dict(level="proof", units=["query_cond", "query_item"], bin="query", feature="f-query", note="pointwise merge of conditional branches, and the merge of one or several whole queries (conditions, then the default branch on the uncovered items), proved for all conditions, items and keys; what the merge of two branches selects is searched only (bounded)"),
    "C29": dict(level="proof", units=["query_keys", "query_item"], bin="query", feature="f-query", note="the listed terminal keys are exactly the leaves, each once where no level's items overlap, for all queries, depths and limits"),
    "C30": dict(level="proof", units=["proof_items", "query_item"], bin="query", feature="f-query", note="classification of a key and the partition of the query around it proved for all item lists and keys"),
    "C21": dict(level="proof", units=["query_codec"], bin="query", feature="f-query", note="binary encode, decode and borrow-decode of items, branches and queries proved to round trip within the decoder's limits, without panics and with bounded depth; bincode primitives trusted; serde searched (bounded)"),
    "C22": dict(level="proof", units=["proof_codec"], bin="query", feature="f-query", note="encoder, length and decoder of every operation proved against one layout and its inverse, and the sequence decoder; varint, byteorder and Read/Write primitives trusted"),
    "C07": dict(level="proof", units=["bulk_tree"], bin="bulk", feature="f-bulk", note="append, compaction, commit, reload, counts, reads and chunks asked for by index proved against a log of values; the mountain range, the dense tree and the chunk codec through the very contracts proved in units mmr_store, mmr_adapter, dense and bulk_blob"),
    "C08": dict(level="proof", units=["bulk_query", "bulk_gen", "bulk_buf"], bin="bulk", feature="f-bulk", note="the positions a query selects and the verifier against a query (exactly the selected values, in order) and the values of a range proved for all queries, proofs and logs; the mountain-range and dense verifiers and the chunk codec through the very contracts proved in mmr_proof, dense and bulk_blob; an honest proof listing what the query needs is proved accepted, and every proof generate returns for a tree holding a log is one; a query of the buffer gives exactly the wanted entries, as stored, with a dense proof that is accepted for the buffer's root"),
    "C27": dict(level="proof", units=["merk_depth"], bin="gv", feature="f-gv",
                note="the maximum depth is proved equal to the greatest height over all balanced trees of that many nodes (theorem over a tree datatype), for every 64-bit count; both chunk splitters are proved for every depth, maximum and minimum"),
    "C23": dict(level="proof", units=["merk_tree"], bin="gv", feature="f-gv",
                note="execute, attach and all node and tree hash functions proved for every operation list and visitor: an accepted list describes exactly one tree, its nodes are visited in tree order with keys in order, the hash is the tree's with and without collapsing, heights exact when the tree is kept; the iterator is taken as a finite sequence, the visitor as a contract; acceptance of well-formed lists searched (bounded)"),
    "C24": dict(level="proof", units=["merk_verify", "merk_tree", "query_item"], bin="gv", feature="f-gv",
                note="verify_proof and execute_proof (with both nested closures) proved for every proof, query, limit and direction, and a theorem over search trees: exactly the queried keys in order up to the limit, each bound to its stored hash; item values and values with a verified child hash are the stored ones (63-byte items excluded: KF2). Query items must be proper intervals in order; acceptance of honest proofs searched (bounded)"),
    "C26": dict(level="proof", units=["path_query", "query_item"], bin="gv", feature="f-gv",
                note="query_items_at_path, should_add_parent_tree_at_path (with their recursive helpers), the single-level constructors and presence tests, the common start path and the branch below it proved for every path query and path against a one-segment-at-a-time walk; the selection of a merged path query is searched only (bounded), outside the class of KF3"),
    "C16": dict(level="proof", units=["element"], bin="element", feature="f-element",
                note="every accessor, constructor, type predicate, tree classification and feature type proved against one table of what each variant holds; serialization is derived bincode: round trip, size, first byte and hostile bytes are searched (bounded)"),
    "C17": dict(level="proof", units=["reference"], bin="element", feature="f-element",
                note="resolution through every entry point proved for every kind, location and key, and inversion proved to lead back (theorem over all kinds); path types as segment sequences (C15); encoding is derived bincode and searched (bounded)"),
    "C28": dict(level="proof", units=["version"], bin="version", feature="f-version",
                note="the six macros, expanded from their own text, proved for every method and version number; the element codec, the proof entry points (with the options they pass on) and the chained verification proved to refuse exactly under other versions; the version table itself is finite and enumerated; the remaining gates are searched (bounded)"),
    "C25": dict(level="proof", units=["layered"], bin="gv", feature="f-gv",
                note="verify_layer_proof_v1 and the four verifiers of trees of positions proved for every proof, query and limit: every result is in the database with that root and asked for, with no limit everything asked for is there, positions come in order and a limit keeps the first, an unneeded layer is refused; over the contracts of the merk verifier (C24), position trees (C05, C06, C08) and path queries (C26). Acceptance of honest proofs searched (bounded); KF1 aside"),
    "C31": dict(level="proof", units=["absence", "merk_verify"], bin="gv", feature="f-gv",
                note="the verification entry points (V0 and V1, raw, subset, absence, parent, chained), proved for every proof and query: the options each prescribes, one answer per named key in order from the verified results, each chained query's own answer under one root hash, offsets and missing limits refused; the layer a boundary question is about; boundary keys are exactly the digest nodes of a proof that verifies to a tree with that root hash. That the verified results hold every named key up to a limit is searched (bounded) over real databases, honest and mutated proofs"),
}
NOT_APPLICABLE = {
    "N01": "needs RocksDB and crash injection: storage's rocksdb feature does not compile here (git dependency absent), and durability is a property of the external engine, outside any contract on this code",
    "N02": "transaction isolation is provided by RocksDB's optimistic transactions, an external C++ engine that cannot be built here; no contract on this code expresses interleavings",
    "N03": "merk's tree mutation code (features minimal/full) does not compile without the rocksdb git dependency, so neither a verifier nor a replay can be tied to running code here",
    "N04": "grovedb's full feature (insert, delete, batch) does not compile here without the rocksdb git dependency",
    "N05": "restore and replication need merk/grovedb full features, which do not compile here",
    "N06": "depends on the orchard git dependency (Sinsemilla), absent here; the crate does not compile",
    "N07": "the prefix construction lives behind storage's rocksdb feature, which does not compile here",
}
