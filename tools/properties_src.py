#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])], state=[dict(name=a, meaning=b, where=c) for a, b, c in state])))
MMR = "grovedb-merkle-mountain-range/src/"
p("C01", "A mountain-range proof that verifies proves only true leaves",
  "For a mountain range of a known size, a proof that verifies against its root returns only (leaf index, value) pairs that really are in the log, whatever bytes the proof is made of. Verifying and computing the root from the same proof agree. Incremental verification of an extension against a log's root accepts only that log's own last leaves and its own earlier root. A malformed proof is refused with an error and never crashes the verifier.",
  ["inputs"], "every log content, every claimed leaf set and every proof item list, including hostile ones",
  "tests verify honest proofs and a few tampered ones; a forger picks among all item lists and claims",
  [MMR + "proof.rs", MMR + "helper.rs", MMR + "mmr.rs", MMR + "node.rs"],
  "proof items are consumed while parents are rebuilt height by height up to the peaks, then bagged; leftovers and gaps must be refused",
  [("proof_items", "sibling and peak hashes in traversal order", MMR + "proof.rs MmrTreeProof")])
p("C02", "Mountain-range roots and proofs follow from the leaf sequence alone",
  "After any sequence of appends, however split into batches and commits, the root equals the fold of the leaf sequence by the documented construction, every node is stored at its position, and stored nodes survive serialization. For every non-empty set of existing leaves an honest proof is produced, encodes and (up to 100 MiB) decodes unchanged, verifies, and returns exactly those leaves. The incremental extension checks accept honest extensions.",
  ["inputs", "histories"], "every append history and every subset of leaf indices",
  "tests sample sizes and subsets; the number of (size, subset, batching) combinations is unbounded",
  [MMR + "mmr.rs", MMR + "mmr_store.rs", MMR + "proof.rs", MMR + "node.rs"],
  "push merges equal-height peaks through an overlay batch; generation walks the same tree the verifier rebuilds")
p("C03", "Mountain-range position arithmetic is exact",
  "The conversions between leaf index, node position, range size and leaf count, the peak positions, node heights and per-append hash counts agree with the node-by-node construction of the range for every leaf count. Storage keys of distinct positions below 2^63 (2^31 for the narrow keys) differ and sort like the positions, and a position that does not fit the narrow key is refused.",
  ["inputs"], "every leaf count up to 2^62 and every position of such ranges",
  "tests check small sizes; bit-twiddling errors show only at carries and large widths",
  [MMR + "helper.rs"], "closed forms over binary representations (population count, trailing/leading zeros, shrinking all-ones masks)")
D = "grovedb-dense-fixed-sized-merkle-tree/src/"
p("C04", "Dense tree stores values in order and its root binds all of them",
  "Appends to a fixed-height dense tree fill positions in order until capacity and are refused afterwards, reads return exactly what was stored, and the root is the documented recursive hash of the values present for every height and count. A failed or refused operation leaves the tree as it was.",
  ["inputs", "histories"], "every height, count and sequence of inserts and reads",
  "tests use a few heights and counts", [D + "tree.rs", D + "hash.rs"],
  "level-order complete binary tree in which every node carries a value: hash of value hash and child hashes")
p("C05", "A dense-tree proof that verifies proves only true entries",
  "A proof that verifies against the root of a dense tree of the given height and count yields only (position, value) pairs that really are in the tree, whatever bytes the proof is made of; it cannot hide a position the query asked for. Malformed, overlapping, incomplete or out-of-range proofs are refused and never crash the verifier.",
  ["inputs"], "every tree and every proof, including hostile ones",
  "tests tamper with single fields of a few proofs", [D + "proof/mod.rs", D + "verify.rs", D + "hash.rs"],
  "recomputes the root from claimed values, ancestor value hashes and sibling subtree hashes, each used at one position")
p("C06", "Dense-tree proofs answer every query over positions",
  "For every dense tree and every position query, including ranges, empty trees and positions beyond the count, the honest proof verifies against the tree's root and returns exactly the entries the query selects. Encoding and decoding a proof of up to 100 MiB changes nothing.",
  ["inputs"], "every height, count, position set and query item mix", "tests sample a few queries on a few trees",
  [D + "proof/mod.rs", D + "verify.rs"], "query items are turned into positions bounded by the count; the same expansion runs at the prover and the verifier")
B = "grovedb-bulk-append-tree/src/"
p("C07", "Bulk-append log returns what was appended and one state root per content",
  "After any sequence of appends a bulk-append log reports the right count, returns each appended value at its position whether it still sits in the buffer or was compacted into a chunk, and its state root is the documented function of the appended sequence and chunk size. A failed append or commit leaves the log as it was, and reloading a committed log from its store changes nothing observable.",
  ["inputs", "histories"], "every chunk size and every append history, including reloads at every point",
  "tests use a few chunk sizes and lengths", [B + "tree/append.rs", B + "tree/mod.rs", B + "lib.rs"],
  "a dense-tree buffer compacted into chunk blobs that are leaves of a mountain range")
p("C08", "Bulk-append range proofs are sound and complete",
  "For every range or position query over a bulk-append log the honest proof verifies against the state root and returns exactly the values at the queried positions. A proof that verifies, whatever its bytes, never yields a value that is not at its position, and never omits a queried position that exists.",
  ["inputs"], "every log, every query, every proof including hostile ones", "tests cover a few ranges and single-field tampering",
  [B + "proof/mod.rs", B + "tree/mod.rs"],
  "chunk part proved through the mountain range, buffer part through the dense tree; verifier re-derives which chunks and positions a range needs")
p("C09", "Chunk blobs decode to exactly the entries encoded",
  "Serializing any list of up to 2^20 entries into a chunk blob and decoding it returns the same list, in both the fixed-size and the variable-size form. Decoding arbitrary bytes either returns at most 2^20 entries that account for all of the bytes or is refused, without crashing.",
  ["inputs"], "every entry list and every byte string", "tests sample entry lists; hostile headers are unbounded",
  [B + "chunk.rs"], "a format flag, then either count and fixed width or length-prefixed entries")
p("C10", "Costs accumulate exactly through every composition",
  "Adding costs adds every counter component-wise, is associative and has the empty cost as identity. Every way of carrying a cost through a computation (wrapping, mapping, chaining, early return, accumulation into an outer cost) charges each incurred cost exactly once and leaves the value unchanged, including on the error path. Storage-cost bookkeeping reports added, replaced and removed bytes whose totals match the sizes it is given, and worse-or-equal comparison is component-wise.",
  ["inputs", "programs"], "all cost values and all compositions of the combinators",
  "tests add a few literals; the combinators are composed in unboundedly many ways",
  ["costs/src/lib.rs", "costs/src/context.rs", "costs/src/storage_cost/mod.rs", "costs/src/storage_cost/key_value_cost.rs", "costs/src/storage_cost/transition.rs"],
  "operator overloads on cost records and a cost-carrying context")
p("C11", "Removed-byte bookkeeping conserves totals per identity and epoch",
  "Combining two removal records yields, for every identity and epoch, the sum of what both recorded; the total is the sum of both totals, whatever mixture of basic and sectioned records is combined and in whatever order. No identity's or epoch's removal is lost, double counted or moved to another.",
  ["inputs"], "all pairs and sequences of removal records", "tests combine a few shapes",
  ["costs/src/storage_cost/removal.rs"], "a three-shape enum (none, basic, sectioned map of maps) merged by addition")
F = "grovedb-epoch-based-storage-flags/src/"
p("C12", "Storage flags survive encoding and refuse malformed bytes",
  "Every storage flag value encodes to bytes whose length equals the predicted size and decodes back to the same value. Arbitrary bytes either decode or are refused with an error; they never crash the decoder.",
  ["inputs"], "every flag value and every byte string", "tests sample four variants with small maps",
  [F + "lib.rs"], "type byte, optional owner id, base epoch, varint epoch map")
p("C13", "Combining storage flags preserves ownership and accounts bytes per epoch",
  "Combining flags for an update that adds bytes yields an owner and base epoch given by the documented strategy and a per-epoch byte map equal to the existing one plus the added bytes in the new epoch; combining for an update that removes bytes subtracts exactly the removed bytes per epoch. Mixing different owners is refused where the strategy does not resolve it. Bytes recorded per epoch never change except by what was added or removed.",
  ["inputs", "histories"], "all pairs of flags, byte counts, strategies and update sequences",
  "tests combine a few epochs", [F + "lib.rs", F + "update_element_flags.rs"],
  "case analysis over single/multi epoch and owned/unowned flags with map merging")
p("C14", "Splitting a removal across epochs conserves bytes, newest first",
  "Splitting a removal of key and value bytes by an element's flags removes exactly the requested number of bytes in total, charges them to the flags' owner, and takes them from the most recent epochs first, never taking from an epoch more than it holds and the remainder from the base epoch.",
  ["inputs"], "all flags and all removed byte counts", "tests sample single values",
  [F + "split_removal_bytes.rs", F + "lib.rs"], "reverse walk over the epoch map")
p("C15", "Subtree paths mean their segments, however they are represented",
  "Two subtree paths with the same segments are equal, hash alike, compare as equal and report the same length, rootness, parent, last segment and segment list, whether they are slices, builders, iterator-backed parents or derived paths. Deriving a child and then a parent gives back the original path and segment; ordering is a total order consistent with equality.",
  ["inputs", "histories"], "every segment list and every derivation history leading to it",
  "tests compare a few representations of a few paths",
  ["path/src/subtree_path.rs", "path/src/subtree_path_builder.rs", "path/src/subtree_path_iter.rs", "path/src/util/compact_bytes.rs", "path/src/util/cow_like.rs"],
  "enum of borrowed slice, builder reference and iterator, linked by base pointers")
E = "grovedb-element/src/element/"
p("C16", "Elements survive serialization and are classified consistently",
  "Every element serializes to bytes that deserialize to an equal element under the version in use, the predicted size equals the actual size, and the type read from the first byte equals the type of the element. Type predicates, tree classification, stored sums and counts, flags and value accessors agree with the element's variant. Arbitrary bytes deserialize or are refused, never crash.",
  ["inputs"], "every element and every byte string", "tests round-trip a few variants",
  [E + "mod.rs", E + "serialize.rs", E + "helpers.rs", E + "constructor.rs", "grovedb-element/src/element_type.rs"],
  "bincode enum plus hand-written type-byte tables")
p("C17", "Reference paths resolve to the documented absolute path",
  "Resolving a reference from a given location yields exactly the absolute path its kind documents (from root height, element height, sibling, cousin, removed cousin, and parent-appending forms) or is refused when the location is too short; inverting a reference, where offered, yields one that points back. Serialized size predictions match and references survive encoding.",
  ["inputs"], "all reference kinds, locations and parameters", "tests use one example per kind",
  ["grovedb-element/src/reference_path/mod.rs"], "per-kind slicing and splicing of path segments")
Q = "grovedb-query/src/"
p("C18", "Query item membership, bounds and set algebra agree with intervals",
  "For every kind of query item (with start not after end), membership of a key equals the documented interval condition, and bounds, emptiness, overlap tests, ordering and equality agree with that interval. Intersecting two items splits them into the common part and the left and right remainders without losing or adding any key, and merging two overlapping items covers exactly their union or its documented hull. Intersecting a sorted disjoint list of items with another list gives items covering exactly the common keys, and the first list's items without them. Walking the keys of a store with an item, in either direction, visits exactly the stored keys it selects, and stops at a limit of zero.",
  ["inputs"], "all pairs of the ten item kinds over all byte strings as bounds", "tests enumerate some pairs with short keys",
  [Q + "query_item/mod.rs", Q + "query_item/intersect.rs", Q + "query_item/merge.rs"], "case analysis over bound kinds")
p("C19", "Inserting into a query keeps disjoint sorted items covering the union",
  "After inserting any items in any order, a query's items are sorted, pairwise disjoint and select exactly the union of the keys of the inserted items. Merging queries gives items that select the union of their keys, independent of order. (Items are well formed: start not after end.)",
  ["inputs", "histories"], "all insertion sequences of all item kinds", "tests insert a few items",
  [Q + "query.rs", Q + "insert.rs", Q + "merge.rs", Q + "query_item/merge.rs"], "repeated merge-on-collision while inserting into an ordered list")
p("C20", "Merging conditional subqueries acts pointwise per key",
  "After merging a conditional subquery into a query's conditional branches, every key that only one side mentions keeps that side's branch, keys of both sides get the merge of both branches, and no other key changes; the conditions stay pairwise disjoint so that lookup order does not matter. Merging a whole query into another does so with each of its conditions, and with its default branch on those of its items that no condition covers. The merge of two branches selects what either selects, provided nothing selected by one lies on the way to something selected by the other (and neither's subqueries have default branches). (Conditions are well formed: start not after end.)",
  ["inputs", "histories"], "all condition sets, incoming items and keys", "tests check a few overlaps",
  [Q + "merge.rs", Q + "query.rs", Q + "subquery_branch.rs", Q + "query_item/intersect.rs"], "intersect each stored condition with the incoming one and reinsert the three parts")
p("C21", "Queries survive their encodings",
  "Every query, query item and subquery branch survives binary encoding, and query items survive self-describing serialization. Decoding arbitrary bytes either yields a query or an error: it never crashes, and nesting depth is bounded.",
  ["inputs"], "all queries and all byte strings", "tests round-trip a few shapes",
  [Q + "query.rs", Q + "query_item/mod.rs", Q + "subquery_branch.rs"], "hand-written encode/decode/borrow-decode and serde implementations")
p("C22", "Proof operations survive their byte encoding",
  "Every proof operation and node kind with keys up to 255 bytes and values up to 64 MiB encodes to exactly its predicted length and decodes back to itself, and a sequence of operations decodes to the same sequence. Arbitrary bytes decode or are refused, never crash, and a declared value length beyond the limit is refused.",
  ["inputs"], "all operations, lengths and byte strings", "tests encode one example per opcode",
  [Q + "proofs/encoding.rs", Q + "proofs/mod.rs"], "opcode table with short and long value forms")
M = "merk/src/proofs/"
p("C23", "Executing a proof rebuilds one well-formed tree in key order",
  "Executing proof operations visits pushed nodes in in-order key order, refuses sequences that underflow, attach twice, leave several trees, mix directions, break key order or hang a visited node below a bare hash, and computes a root hash that depends only on the tree described, not on whether finished subtrees are collapsed. When the tree is kept its heights are exact, and hostile operation lists never crash.",
  ["inputs"], "all operation sequences", "tests execute a few hand-written sequences",
  [M + "tree.rs", M + "branch/depth.rs"], "stack machine with attach-parent/child operations")
p("C24", "A single-layer proof that verifies answers exactly its query",
  "Verifying a current-version proof of one tree against its root hash returns exactly the queried keys that are in the tree, in query order, up to the limit, each with its true stored hash; a returned item value, or one whose child hash is marked verified, is the true value (a value resolved through a reference is the referenced one). A queried key that is not returned is absent or beyond the limit. This holds for every proof byte string, query item kind, direction and limit; a proof of at most 50,000 operations that discloses what the query needs is accepted.",
  ["inputs"], "all trees, queries, limits, directions and proof byte strings", "tests verify honest proofs and few tampered ones (in a build this repository cannot even compile here)",
  ["merk/src/proofs/query/verify.rs", M + "tree.rs"], "in-order execution with boundary checks on every queried range")
p("C25", "A layered proof that verifies proves only true elements",
  "Verifying a current-version layered proof against a root hash returns only elements that are in the database with that root hash: each lower layer is bound to the value of the tree element above it, elements without a queried lower layer are bound to their stored hash, and a subtree cannot be declared empty or skipped when the query descends into it. The values of a tree of positions come back in position order, so a limit keeps the first of them, whatever order the proof lists them in. The parent tree information returned with it is that of the tree at the query's path.",
  ["inputs"], "all layered databases, path queries and proof byte strings", "tests verify honest proofs; forged multi-layer proofs are unbounded",
  ["grovedb/src/operations/proof/verify.rs", "grovedb/src/operations/proof/mod.rs", "grovedb/src/operations/proof/util.rs", "grovedb/src/query/mod.rs"],
  "recursive per-layer verification with hash combination of element value and lower root")
p("C26", "A path query resolves to one query per subtree",
  "For every path query and every subtree path, the items, direction and subquery presence it prescribes at that path are those obtained by descending from its start path through the matching conditional branch, else the default branch, one segment at a time; paths outside it resolve to nothing. Merging path queries selects the union of what they select.",
  ["inputs"], "all path queries and paths", "tests check a few nestings",
  ["grovedb/src/query/mod.rs"], "recursive descent over subquery paths and conditional branches")
p("C27", "Chunk depths partition a tree of any height",
  "The chunk depths computed for a tree add up to its height, each stays within the allowed bounds and the sizes are as documented; the maximum depth derived from an element count is the true maximum height a balanced tree with that many nodes can have.",
  ["inputs"], "all heights, limits and counts", "tests check small heights",
  [M + "branch/depth.rs", "merk/src/proofs/branch/mod.rs"], "greedy/even splitting and the Fibonacci-like minimal node recurrence")
p("C28", "Feature versions gate behaviour exactly",
  "A call made under a protocol version runs only if that version supports it; otherwise it is refused with an error that names the method, the expected and the received version. The table lists the protocol versions in order without gaps, and the first and the latest version are its ends.",
  ["configurations"], "all version numbers and version tables", "tests check one or two versions",
  ["grovedb-version/src/lib.rs", "grovedb-version/src/version/mod.rs"], "macros comparing a table field against accepted numbers")
p("C29", "Terminal keys enumerate exactly the leaves a query can return",
  "The terminal keys listed for a path query are exactly the (path, key) pairs that its fully enumerable items and branches can return, each once; a query that is not enumerable, or that exceeds the result limit, is refused. A bounded range is enumerable if its bounds are at most one byte long, and lists its keys of at most one byte; unbounded ranges are refused.",
  ["inputs"], "all queries with nested branches and limits", "tests check a few examples",
  [Q + "query.rs", "grovedb/src/query/mod.rs"], "recursive enumeration of item keys crossed with subquery paths")
p("C30", "Proof generation classifies every key as hit, left or right of the query",
  "While a proof is generated, each visited key is reported as matched exactly if the query selects it, and the parts of the query passed on to the left and right subtrees together with the match cover the query without losing or duplicating any key on that side.",
  ["inputs"], "all query item lists and keys", "tests check a few partitions",
  [Q + "proof_items.rs", Q + "query_item/mod.rs"], "binary search and interval splitting around the visited key")
p("C31", "Verification reports what is absent and which keys bound a proof",
  "Verifying a layered proof with absence proofs lists the keys the query names, each once and in order, with the element the database with that root hash has there, or with none where it has no such element or an empty tree; a key that is there is not reported missing. (For queries naming single keys, with something asked for below every key descended into; the value bytes of returned trees of positions aside, see C25.) The keys reported as the boundaries of a layer of a verified proof are keys of that layer's tree: exactly those whose nodes the proof shows by digest. Verifying a chain of queries gives for each what verifying it alone gives, all under one root hash.",
  ["inputs"], "all layered databases, queries of single keys, proof byte strings and chains", "tests check a few honest proofs",
  ["grovedb/src/operations/proof/verify.rs", "grovedb/src/operations/proof/mod.rs", "merk/src/proofs/query/verify.rs", "grovedb/src/query/mod.rs"],
  "results looked up by path and key for every terminal key; boundary scan of decoded nodes along lower layers")
# not applicable here
p("N01", "A committed batch is atomic across crashes",
  "After a crash at any point, the database holds either all or none of the effects of a committed batch or transaction, and its root hash matches its contents.",
  ["crash_points", "histories"], "every crash point of every history", "tests do not crash the process",
  ["storage/src/rocksdb_storage/storage.rs", "grovedb/src/batch/mod.rs"], "RocksDB optimistic transactions and write batches")
p("N02", "Transactions are isolated and conflicts are reported",
  "Reads inside a transaction see its own writes and no uncommitted writes of others, and of two conflicting transactions at most one commits.",
  ["schedules"], "every interleaving", "tests run a few interleavings", ["storage/src/rocksdb_storage/storage_context/context_tx.rs"], "RocksDB optimistic transactions")
p("N03", "The authenticated tree stays balanced, ordered and correctly hashed",
  "After any sequence of batches the stored tree is an ordered, height-balanced tree whose node hashes and aggregate sums and counts follow from its contents.",
  ["histories"], "every batch history", "tests sample batches", ["merk/src/tree/ops.rs", "merk/src/tree/mod.rs", "merk/src/tree/walk/mod.rs"], "AVL rotations over lazily loaded links")
p("N04", "Database operations keep references, subtrees and parent hashes consistent",
  "Insert, delete and batch operations propagate changed subtree roots to the database root, never leave a parent pointing at a stale child hash, and honour the documented deletion and reference rules.",
  ["histories"], "every operation history", "tests sample histories", ["grovedb/src/operations/insert/mod.rs", "grovedb/src/operations/delete/mod.rs", "grovedb/src/batch/mod.rs"], "bottom-up root propagation")
p("N05", "State synchronization reconstructs the same database or fails",
  "Restoring from chunks, in any order, yields a database with the same root hash and contents, or is refused.",
  ["histories", "inputs"], "every chunk order and hostile chunk", "tests run honest syncs", ["merk/src/merk/restore.rs", "grovedb/src/replication/state_sync_session.rs"], "per-chunk verification")
p("N06", "The shielded commitment tree anchors follow from its leaves",
  "The anchor and witness paths of the commitment tree follow from the appended commitments.",
  ["histories"], "every append history", "tests sample", ["grovedb-commitment-tree/src/lib.rs"], "Sinsemilla frontier from an external crate")
p("N07", "Subtree storage prefixes never collide",
  "Distinct subtree paths map to distinct storage prefixes, and operations on one subtree never read or write another's data.",
  ["inputs"], "every pair of paths", "tests sample paths", ["storage/src/rocksdb_storage/storage.rs"], "BLAKE3 of length-delimited segments")
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
