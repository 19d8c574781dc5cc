"""The properties: one record each.  `select` names the functions whose
behaviour decides the property: (regex on the source file, regex on the
function name).  `rules` names structural rules of sa/rules.py.
properties.jsonl and MANIFEST.json are generated from this file
(python3 spec/gen.py)."""

ANY = ""
P = []


def prop(id, title, statement, over, text, why, files, mech, select=(), rules=(), state=(), observe=(), db=False, note="", extra=(), kinds=None, costs=False, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                  observe=list(observe), select=list(select), rules=list(rules), db=db, note=note, extra=list(extra), kinds=kinds, costs=costs, technique=technique))


DENSE = "grovedb-dense-fixed-sized-merkle-tree/src/"
MMR = "grovedb-merkle-mountain-range/src/"
BAT = "grovedb-bulk-append-tree/src/"

# ---------------------------------------------------------------- append-only structures
prop("C01", "Dense tree proofs admit only the committed values",
     "A proof for positions of a dense fixed-size Merkle tree verifies against a root only if every returned (position, value) pair is what a tree with that root holds at that position. "
     "A proof with duplicate, conflicting, superfluous, out-of-range or missing entries, or one that would let a value be replaced by a prover-supplied hash, is rejected, and a query is answered for exactly the positions it asks for.",
     ["inputs"], "every byte string offered as a proof, every expected root, height, count and query",
     "The tests tamper with a handful of honest proofs; soundness quantifies over all byte strings a prover can send.",
     [DENSE + "verify.rs", DENSE + "proof/mod.rs", DENSE + "hash.rs"],
     [("verification of a proof against root, height and count", DENSE + "verify.rs"),
      ("position queries and proof generation", DENSE + "proof/mod.rs"), ("leaf and node hashes", DENSE + "hash.rs")],
     select=[(DENSE + "(verify|proof/|hash)", ANY)], observe=["the result of proof verification"])

prop("C02", "Dense tree state: positions fill in order and the root covers all of them",
     "A dense fixed-size Merkle tree accepts a value only while it has room, stores it at the next free position, and returns exactly the stored value for filled positions and nothing for others. "
     "Its root is the documented hash of every filled position and of nothing else, and a failed insertion leaves the number of entries unchanged.",
     ["inputs", "histories", "fault_sequences"], "every sequence of insertions and reads, every height and count, every storage failure",
     "Tests fill small trees and compare a few roots; the claims hold for every height, count and failing store.",
     [DENSE + "tree.rs", DENSE + "hash.rs"],
     [("insertion, reads, root computation", DENSE + "tree.rs"), ("hash formulas", DENSE + "hash.rs")],
     select=[(DENSE + "(tree|hash)", ANY)], observe=["roots and values returned by the tree"])

prop("C03", "MMR proofs admit only the committed leaves",
     "A Merkle mountain range proof verifies against a root and size only if every leaf it returns is the leaf at that index of a range with that root. "
     "Out-of-range leaf indices, unused or missing proof items, nodes given as leaves and sizes whose positions would overflow are rejected, and an index given twice is answered once, with the value that was hashed.",
     ["inputs"], "every byte string offered as a proof, every claimed size, index and root",
     "Soundness quantifies over all adversarial proofs; tests try a few tampered ones.",
     [MMR + "proof.rs", MMR + "helper.rs", MMR + "mmr.rs"],
     [("root calculation from a proof, leaf pairing, size checks", MMR + "proof.rs"), ("position arithmetic", MMR + "helper.rs")],
     select=[(MMR + "(proof|helper|node)", ANY), (MMR + "mmr.rs", "gen_proof|MerkleProof")], observe=["the result of proof verification"])

prop("C04", "MMR appends produce the documented peaks, sizes and root",
     "Appending to a Merkle mountain range puts the leaf at the position implied by the current size, merges equal-height peaks left to right and returns that position; root and size depend only on the sequence of leaves. "
     "Nodes written to the store are exactly those the append created, reads prefer pending nodes over stored ones, and an inconsistent store is reported as an error rather than producing a root.",
     ["inputs", "histories", "fault_sequences"], "every sequence of appends, commits and reads, every store content",
     "Tests append up to some dozens of leaves to a correct store.",
     [MMR + "mmr.rs", MMR + "mmr_store.rs", MMR + "helper.rs", MMR + "node.rs", MMR + "storage_adapter.rs"],
     [("append, root, commit", MMR + "mmr.rs"), ("pending nodes over the store", MMR + "mmr_store.rs"), ("positions, peaks, heights", MMR + "helper.rs"),
      ("node hash and encoding", MMR + "node.rs"), ("storage keys and write-through cache", MMR + "storage_adapter.rs")],
     select=[(MMR + "(mmr|mmr_store|helper|node|storage_adapter)", ANY)], observe=["roots, sizes and nodes of the range"])

prop("C05", "Bulk append tree keeps every value retrievable and its state root exact",
     "Every value appended to a bulk append tree stays readable at its global position, whether it still sits in the buffer or has been compacted into a chunk; compaction happens exactly when the buffer is full and loses or reorders nothing. "
     "The state root is a fixed function of the chunk roots and the buffer root, and decoded chunk blobs return exactly the encoded entries or an error.",
     ["inputs", "histories", "fault_sequences"], "every sequence of appends, chunk sizes, values and chunk blobs",
     "Tests append a few hundred values with small chunk sizes and decode blobs produced by the encoder.",
     [BAT + "tree/append.rs", BAT + "tree/fetch.rs", BAT + "tree/hash.rs", BAT + "tree/mod.rs", BAT + "chunk.rs"],
     [("append and compaction", BAT + "tree/append.rs"), ("reads", BAT + "tree/fetch.rs"), ("state root", BAT + "tree/hash.rs"), ("chunk blobs", BAT + "chunk.rs")],
     select=[(BAT + "(tree/|chunk)", ANY)], observe=["values, counts and roots returned by the tree"])

prop("C06", "Bulk append proofs admit only committed values and complete ranges",
     "A bulk append tree proof verifies against a state root only if every chunk and buffer value it yields is committed under that root at that position. "
     "A verified range or position query either returns all requested values that exist or fails; a prover cannot leave out chunks or buffer entries.",
     ["inputs"], "every byte string offered as a proof, every expected root, count and range",
     "Tests tamper with a few honest proofs.",
     [BAT + "proof/mod.rs", BAT + "chunk.rs", MMR + "proof.rs", DENSE + "verify.rs"],
     [("generation and verification", BAT + "proof/mod.rs"), ("chunk decoding", BAT + "chunk.rs")],
     select=[(BAT + "(proof/|chunk|tree/hash)", ANY), (DENSE + "verify", ANY), (MMR + "proof", "verify|calculate")], observe=["the result of proof verification"])

# ---------------------------------------------------------------- merk proofs
QP = "grovedb-query/src/"
prop("C07", "Merk query proofs: presence, absence and completeness are sound",
     "Verifying a Merk proof against a query returns a key with a value only if the tree with the computed root holds them, reports a requested key as absent only if adjacent proved nodes exclude it, and never leaves out an existing key inside the queried range within the limit. "
     "Proof nodes must come in strictly increasing key order, unknown or hash-only nodes inside a queried range are rejected, and the reconstructed tree has exactly one root.",
     ["inputs"], "every proof byte string, every query, limit and direction",
     "The tests check honest proofs and a few hand-made forgeries; the guarantee is about all byte strings an untrusted server can send.",
     ["merk/src/proofs/query/verify.rs", "merk/src/proofs/tree.rs", "merk/src/tree/hash.rs", "merk/src/proofs/query/map.rs", QP + "proofs/encoding.rs"],
     [("walk over proof nodes against the query", "merk/src/proofs/query/verify.rs"), ("stack machine that rebuilds the tree", "merk/src/proofs/tree.rs"),
      ("value, key-value and node hashes", "merk/src/tree/hash.rs"), ("decoding of proof operations", QP + "proofs/encoding.rs")],
     select=[("merk/src/proofs/query/(verify|map)", ANY), ("merk/src/proofs/(tree|mod)", ANY), ("merk/src/tree/hash", ANY), (QP + "proofs/", "decode|hash|Node|proof"), (QP + "proof_", ANY)],
     observe=["the result of proof verification"])

prop("C08", "Layered proofs bind every subtree to its parent, up to the root hash",
     "A verified GroveDB proof (version 1; version 0 is kept for old data and binds less) yields only elements committed under the returned root hash: each lower layer's root must equal the hash its parent element commits to, for every kind of subtree, and no layer, path or element outside the query is accepted in its place. "
     "Results respect the path query's limit, direction and subquery structure, and succinct verification rejects data the query did not ask for.",
     ["inputs"], "every proof byte string, every path query, proof version and option",
     "Tests verify honest proofs; layering attacks need crafted bytes across several layers.",
     ["grovedb/src/operations/proof/verify.rs", "grovedb/src/operations/proof/mod.rs", "grovedb/src/operations/proof/util.rs"],
     [("layer-by-layer verification, both proof versions", "grovedb/src/operations/proof/verify.rs"), ("proof structures and bounded decoding", "grovedb/src/operations/proof/mod.rs"),
      ("conversion of proved values", "grovedb/src/operations/proof/util.rs")],
     select=[("grovedb/src/operations/proof/(verify|mod|util)", ANY), ("grovedb/src/query/mod.rs", ANY)], observe=["root hash and results of verification"],
     rules=["unbound"])

prop("C09", "Trunk and branch chunk proofs and state-sync chunks are sound",
     "A trunk, branch or state-sync chunk is accepted only if its operations rebuild a tree whose root hash equals the expected one and whose shape is the requested chunk, with nothing but hashes below the boundary. "
     "Chunk numbering, traversal instructions and chunk identifiers map one-to-one, and malformed ones are rejected.",
     ["inputs"], "every chunk byte string, chunk index, traversal instruction and tree height",
     "Tests restore a few trees of fixed shapes with honest chunks.",
     ["merk/src/proofs/chunk/chunk.rs", "merk/src/proofs/chunk/chunk_op.rs", "merk/src/proofs/chunk/util.rs", "merk/src/proofs/chunk/binary_range.rs", "merk/src/proofs/branch/mod.rs", "merk/src/proofs/branch/depth.rs", "merk/src/merk/restore.rs", "merk/src/merk/chunks.rs"],
     [("chunk verification and restoration", "merk/src/merk/restore.rs"), ("traversal arithmetic", "merk/src/proofs/chunk/util.rs"), ("chunk creation", "merk/src/merk/chunks.rs"),
      ("chunk operations codec", "merk/src/proofs/chunk/chunk_op.rs"), ("trunk and branch results", "merk/src/proofs/branch/mod.rs")],
     select=[("merk/src/proofs/(chunk|branch)/", ANY), ("merk/src/merk/(restore|chunks)", ANY), ("grovedb/src/query/(grove_|path_)", ANY), ("grovedb/src/operations/proof/verify.rs", "trunk|branch")],
     observe=["acceptance or rejection of a chunk"])

prop("C10", "Untrusted bytes never crash a verifier or decoder",
     "Decoding or verifying any byte string (proofs, elements, flags, chunk operations, tree nodes, chunk blobs) returns a value or an error: it never panics, overflows, indexes out of range, recurses without bound or allocates memory out of proportion to its input.",
     ["inputs"], "every byte string and every parameter a caller passes along with it",
     "A crash needs one particular byte string among all; the tests contain a few hundred.",
     [DENSE + "verify.rs", DENSE + "proof/mod.rs", MMR + "proof.rs", MMR + "node.rs", BAT + "proof/mod.rs", BAT + "chunk.rs", QP + "proofs/encoding.rs", "merk/src/proofs/tree.rs", "grovedb/src/operations/proof/mod.rs",
      "grovedb-element/src/element/serialize.rs", "grovedb-epoch-based-storage-flags/src/lib.rs", "merk/src/tree/encoding.rs", "merk/src/tree/link.rs"],
     [("explicit length, depth and range checks before every use", "all decoders and verifiers")],
     select=[(DENSE + "(verify|proof/)", "decode|verify"), (MMR + "(proof|node)", "decode|verify|deserialize|calculate"), (BAT + "(proof/|chunk)", "decode|verify|deserialize"), (QP + "proofs/", ANY),
             (QP + "(query_item/mod|query.rs|subquery_branch|lib)", "[dD]ecode"),
             ("merk/src/proofs/(tree|query/verify|chunk/chunk_op|chunk/util|branch/mod)", ANY), ("merk/src/tree/(encoding|link|hash|kv)", ANY), ("grovedb/src/operations/proof/(mod|verify)", ANY),
             ("grovedb-element/src/(element/serialize|element/mod|element_type|reference_path/mod)", ANY), ("grovedb-epoch-based-storage-flags/src/lib", "deserialize|decode|from_|serialize"), ("grovedb-commitment-tree/src/commitment_frontier", ANY)],
     # what keeps a crash away: panic sites, and the checks that come before an outcome
     kinds=("panic", "condition", "condition-gone", "outcome"),
     observe=["a returned error instead of a crash"])

prop("C11", "Proof operations and tree features encode and decode to themselves",
     "Every proof operation, proof node, tree feature and query encodes to bytes that decode to an equal value, distinct values have distinct encodings, and the announced encoding length is the number of bytes written. "
     "Tags, field order, length widths and the choice between short and long forms agree between writer and reader.",
     ["inputs"], "every operation, node variant, key and value length",
     "Tests round-trip a sample of each variant; length boundaries and variant mix-ups lie outside.",
     [QP + "proofs/encoding.rs", QP + "proofs/tree_feature_type.rs", QP + "query_item/mod.rs", QP + "query.rs", QP + "subquery_branch.rs"],
     [("operation codec", QP + "proofs/encoding.rs"), ("tree feature codec", QP + "proofs/tree_feature_type.rs"), ("query codec", QP + "query.rs")],
     select=[(QP + "proofs/", ANY), (QP + "(query_item/mod|query.rs|subquery_branch)", "[dD]ecode|[eE]ncode"), ("merk/src/proofs/chunk/chunk_op", ANY)], observe=["bytes and decoded values"])

# ---------------------------------------------------------------- elements
EL = "grovedb-element/src/"
prop("C12", "Element encoding and type tags identify exactly one element kind",
     "Serializing an element and deserializing the bytes gives the same element; the type read from the first byte alone is the type of the full element, and unknown tags are errors. "
     "Classification of a type (tree or not, reference, item, proof node kind, simple or combined value hash) is the same wherever it is asked.",
     ["inputs"], "every element of every variant, every first byte",
     "Tests cover one instance per variant at most.",
     [EL + "element/serialize.rs", EL + "element/mod.rs", EL + "element_type.rs"],
     [("bincode with a fixed configuration", EL + "element/serialize.rs"), ("first-byte table", EL + "element_type.rs"), ("variants and discriminants", EL + "element/mod.rs")],
     select=[(EL + "(element/serialize|element/mod|element_type|error)", ANY), (EL + "element/helpers", "is_|has_|type|_kind"), ("merk/src/element/(tree_type|decode|mod)", ANY), ("merk/src/tree_type/", ANY)], observe=["bytes, types and decoded elements"])

prop("C13", "Element accessors and constructors preserve what the element holds",
     "An element built by a constructor carries exactly the given value, sum, count, reference, root key and flags, and accessors return exactly those, or an error for a kind that has none; flag setters change only flags. "
     "An item's sum or count contribution to its parent is its own stored sum or count, and is the neutral value for kinds that carry none.",
     ["inputs"], "every element variant and field value",
     "Tests touch the common variants.",
     [EL + "element/constructor.rs", EL + "element/helpers.rs"],
     [("constructors", EL + "element/constructor.rs"), ("accessors", EL + "element/helpers.rs")],
     select=[(EL + "element/(constructor|helpers)", ANY), ("merk/src/element/(tree_type|reconstruct)", ANY)], observe=["element fields"])

prop("C14", "References resolve to one absolute path",
     "Resolving a reference yields exactly the path its kind denotes relative to where the reference lies (absolute, upstream from root or from the element's height, with or without the parent path, cousin, removed cousin, sibling), or an error when the position is too shallow. "
     "Inverting a reference, where defined, yields a reference that leads back.",
     ["inputs"], "every reference kind, current path, key and depth",
     "Tests use one path per kind; boundary depths and empty segments remain.",
     [EL + "reference_path/mod.rs", EL + "reference_path/util.rs", "grovedb/src/reference_path.rs"],
     [("resolution", EL + "reference_path/mod.rs"), ("path buffer", EL + "reference_path/util.rs")],
     select=[(EL + "reference_path/", ANY), ("grovedb/src/reference_path", ANY)], observe=["resolved paths"])

prop("C15", "Aggregates never wrap: sums and counts are exact or an error",
     "Every aggregate kept for a subtree (sum, big sum, count, count and sum, provable variants) equals the sum over its own entry and both children; overflow is reported as an error, never wrapped, saturated or dropped. "
     "Encoding an aggregate and reading it back gives the same aggregate, and conversions between aggregate kinds fail rather than invent a value.",
     ["inputs"], "every combination of aggregate kinds and values, including the extremes of each integer type",
     "Tests sum small numbers; overflow happens only at the extremes and for particular kind combinations.",
     [QP + "proofs/tree_feature_type.rs", "merk/src/tree/tree_feature_type.rs", "merk/src/tree/link.rs", "merk/src/tree/mod.rs", "merk/src/element/tree_type.rs"],
     [("aggregate of a node", "merk/src/tree/mod.rs"), ("aggregate kinds", "merk/src/tree/tree_feature_type.rs"), ("stored child aggregates", "merk/src/tree/link.rs")],
     select=[(QP + "proofs/tree_feature_type", ANY), ("merk/src/tree/tree_feature_type", ANY), ("merk/src/tree/link", ANY), ("merk/src/tree/mod", "aggregat|sum|count"), ("merk/src/element/(tree_type|costs)", ANY), (EL + "element/helpers", "sum|count"),
             ("merk/src/proofs/tree", "aggregat|sum|count"), ("merk/src/merk/mod", "aggregat|sum|count"), ("merk/src/tree_type", ANY)],
     observe=["aggregates in nodes, parents and proofs"])

# ---------------------------------------------------------------- queries
prop("C16", "Key-range algebra is exact",
     "Membership of a key in a query item, bounds, ordering, overlap and intersection of items agree with the mathematical interval each item denotes, for every combination of inclusive, exclusive and unbounded ends. "
     "Merging, intersecting or subtracting items neither adds nor loses a key.",
     ["inputs"], "every pair of query items and every key",
     "Tests use chosen pairs over one-byte keys; the variants give hundreds of boundary combinations.",
     [QP + "query_item/mod.rs", QP + "query_item/merge.rs", QP + "query_item/intersect.rs"],
     [("membership and bounds", QP + "query_item/mod.rs"), ("merge", QP + "query_item/merge.rs"), ("range set algebra", QP + "query_item/intersect.rs")],
     select=[(QP + "query_item/", ANY), (QP + "lib.rs", ANY)], observe=["membership and item sets"])

prop("C17", "Building and merging queries keeps their meaning",
     "Inserting items into a query keeps its items sorted and disjoint and covering exactly the inserted keys; merging queries covers every key either of them covers with its own subquery, and never answers a key with another key's subquery. "
     "Subquery lookup, depth, limits and terminal key enumeration follow the query's structure: conditional subqueries take precedence over the default and absent subqueries stop descent.",
     ["inputs", "histories"], "every sequence of insertions and merges, every nesting of subqueries",
     "Tests use a few hand-written merges.",
     [QP + "query.rs", QP + "merge.rs", QP + "insert.rs", QP + "subquery_branch.rs", QP + "common_path.rs", "grovedb/src/query/mod.rs"],
     [("insertion", QP + "insert.rs"), ("merging", QP + "merge.rs"), ("subquery selection and terminal keys", QP + "query.rs"), ("path queries", "grovedb/src/query/mod.rs")],
     select=[(QP + "(query.rs|merge|insert|subquery_branch|common_path|proof_)", ANY), (QP + "query_item/(merge|intersect)", ANY), ("grovedb/src/query/mod", ANY)], observe=["query items, subqueries and terminal keys"],
     rules=["merge-keeps-default"])

prop("C18", "Aggregate sum queries return items until the requested sum is reached",
     "An aggregate sum query visits matching keys in its direction and stops exactly when the requested sum or item limit is reached; its items stay sorted and disjoint. "
     "Values that are not sums, references and sum overflow are handled as the options say: skipped or reported, never counted wrongly.",
     ["inputs"], "every aggregate sum query, element sequence and limit",
     "Tests use small sums and few items.",
     [QP + "aggregate_sum_query/mod.rs", QP + "aggregate_sum_query/insert.rs", QP + "aggregate_sum_query/merge.rs", "grovedb/src/query/aggregate_sum_path_query.rs", "grovedb/src/element/aggregate_sum_query/mod.rs"],
     [("query structure", QP + "aggregate_sum_query/mod.rs"), ("evaluation", "grovedb/src/element/aggregate_sum_query/mod.rs")],
     select=[(QP + "aggregate_sum_query/", ANY), ("grovedb/src/query/aggregate_sum", ANY), ("grovedb/src/element/aggregate_sum_query", ANY)], observe=["items and sums"])

# ---------------------------------------------------------------- flags, costs, path, version
FL = "grovedb-epoch-based-storage-flags/src/"
prop("C19", "Storage flags encode and decode to themselves and combine as documented",
     "Storage flags serialize to bytes that deserialize to equal flags, with owner and epochs preserved and malformed bytes rejected. "
     "Combining flags keeps the smaller base epoch, adds bytes to the epochs they belong to, and refuses or resolves differing owners exactly as the chosen strategy says.",
     ["inputs"], "every flags value, every byte string, every pair of flags and strategy",
     "Tests sample a few flags values.",
     [FL + "lib.rs", FL + "update_element_flags.rs"],
     [("codec and combination", FL + "lib.rs"), ("update on element replacement", FL + "update_element_flags.rs")],
     select=[(FL + "(lib|update_element_flags)", ANY)], observe=["flags values and bytes"])

prop("C20", "Bytes are credited back to the epochs and owner that paid for them",
     "When an element shrinks or is removed, the refunded bytes are taken from the most recent additional epochs first and only then from the base epoch, never more than were paid in an epoch, and the total refunded equals the bytes removed. "
     "An update credits added bytes to the current epoch and leaves flags unchanged when the cost did not change.",
     ["inputs"], "every flags value, removed size, epoch and transition",
     "Tests use a few epochs and sizes.",
     [FL + "lib.rs", FL + "split_removal_bytes.rs", FL + "update_element_flags.rs"],
     [("sectioned removal", FL + "split_removal_bytes.rs"), ("flag update", FL + "update_element_flags.rs")],
     select=[(FL, ANY), ("costs/src/storage_cost/", ANY)], observe=["refund maps and flags"])

prop("C21", "Cost arithmetic: adding and passing on costs loses and invents nothing",
     "Adding costs adds every component (seeks, added, replaced and removed bytes, loaded bytes, hash calls); removal maps are merged per owner and epoch. "
     "Cost wrappers pass on the accumulated cost unchanged through mapping, chaining, error and early exit, and never drop or double it.",
     ["inputs", "programs"], "every pair of costs and every composition of cost-carrying operations",
     "Tests check a few sums; loss happens on particular error or early-exit compositions.",
     ["costs/src/lib.rs", "costs/src/context.rs", "costs/src/storage_cost/mod.rs", "costs/src/storage_cost/removal.rs", "costs/src/storage_cost/key_value_cost.rs", "costs/src/storage_cost/transition.rs"],
     [("component-wise addition", "costs/src/lib.rs"), ("cost-carrying values", "costs/src/context.rs"), ("removed bytes", "costs/src/storage_cost/removal.rs")],
     select=[("costs/src/", ANY)], observe=["reported costs"])

prop("C22", "Paths are the same path however they are built",
     "A subtree path denotes the same sequence of segments whether built from slices, vectors, a builder or derived from a parent; equality, hashing, length, emptiness, parent, segment order and iteration depend on that sequence alone. "
     "Deriving the parent and pushing the last segment again gives back the same path.",
     ["inputs"], "every sequence of segments and every way of building it",
     "Tests build a few paths in a few ways.",
     ["path/src/subtree_path.rs", "path/src/subtree_path_builder.rs", "path/src/subtree_path_iter.rs", "path/src/util/compact_bytes.rs", "path/src/util/cow_like.rs"],
     [("borrowed and derived forms", "path/src/subtree_path.rs"), ("builder", "path/src/subtree_path_builder.rs"), ("segment buffer", "path/src/util/compact_bytes.rs")],
     select=[("path/src/", ANY)], observe=["segments, equality, hashes"])

prop("C23", "Storage of different subtrees never overlaps",
     "Every subtree's data lies under a key prefix computed from its path alone, with segment boundaries and lengths included, so that different paths have different prefixes; each storage context touches only keys under its own prefix and in the column the call names. "
     "Raw iteration over a subtree starts and stops at the bounds of its prefix and returns keys with the prefix removed.",
     ["inputs"], "every pair of paths, every key, every storage call",
     "Tests use two or three neighbouring subtrees.",
     ["storage/src/rocksdb_storage/storage.rs", "storage/src/rocksdb_storage/storage_context/context_tx.rs", "storage/src/rocksdb_storage/storage_context/context_immediate.rs",
      "storage/src/rocksdb_storage/storage_context/batch.rs", "storage/src/rocksdb_storage/storage_context/raw_iterator.rs"],
     [("prefix computation", "storage/src/rocksdb_storage/storage.rs"), ("prefixed keys", "storage/src/rocksdb_storage/storage_context.rs"), ("iteration bounds", "storage/src/rocksdb_storage/storage_context/raw_iterator.rs")],
     select=[("storage/src/rocksdb_storage/storage_context", ANY), ("storage/src/rocksdb_storage/storage.rs", "prefix"), ("path/src/util/compact_bytes", ANY), ("storage/src/rocksdb_storage/storage.rs", "context|body")],
     observe=["keys handed to the key-value store"], db=True)

prop("C24", "Storage batches apply completely, in order and in the right column",
     "Every put or delete recorded in a storage batch reaches the key-value store in the column it was recorded for, the last write to a key wins, and merging batches loses none. "
     "A transaction's writes become visible outside only on commit, and errors of the key-value store are returned, never swallowed.",
     ["inputs", "histories", "fault_sequences"], "every sequence of batch operations and every store failure",
     "Tests apply small batches to a healthy store.",
     ["storage/src/storage.rs", "storage/src/rocksdb_storage/storage.rs", "storage/src/rocksdb_storage/storage_context/batch.rs"],
     [("batch buffer", "storage/src/storage.rs"), ("commit of a batch", "storage/src/rocksdb_storage/storage.rs")],
     select=[("storage/src/storage.rs", ANY), ("storage/src/rocksdb_storage/", ANY)], observe=["writes handed to the key-value store"], db=True)

prop("C25", "Each versioned operation runs the variant its version number names",
     "A versioned operation executes exactly the variant selected by the version tables given to it, and reports an unknown-version error, listing what it knows, for any other number. "
     "No operation consults another operation's version entry.",
     ["configurations", "inputs"], "every version table and every versioned operation",
     "Tests run with the latest version table only.",
     ["grovedb-version/src/lib.rs", "grovedb-version/src/version/mod.rs", "grovedb-version/src/version/v1.rs", "grovedb-version/src/version/v2.rs"],
     [("dispatch macros and version tables", "grovedb-version/src/lib.rs")],
     select=[("grovedb-version/src/", ANY), (QP, "version"), (EL + "element/serialize", ANY)], observe=["errors for unknown versions"])

# ---------------------------------------------------------------- merk tree
prop("C26", "Node hashes commit to key, value, children and provable counts",
     "The hash of a Merk node is a fixed function of its key and value hash, its two child hashes and, for provable count trees, its count; lengths are part of the hashed bytes so that no two different inputs share them. "
     "A node's stored hash is recomputed whenever any of these change, and combined value hashes bind a subtree's or reference target's hash.",
     ["inputs", "histories"], "every key, value, child and count",
     "Tests compare a few constants.",
     ["merk/src/tree/hash.rs", "merk/src/tree/kv.rs", "merk/src/tree/mod.rs", "merk/src/tree/link.rs", "merk/src/proofs/tree.rs"],
     [("hash functions", "merk/src/tree/hash.rs"), ("key-value hash maintenance", "merk/src/tree/kv.rs"), ("node hash by feature", "merk/src/tree/mod.rs"), ("proof tree hash", "merk/src/proofs/tree.rs")],
     select=[("merk/src/tree/(hash|kv|commit)", ANY), ("merk/src/tree/mod", "hash|put_value|from_fields|new"), ("merk/src/proofs/tree", "hash"), ("merk/src/tree/link", "hash")], observe=["root hashes"])

prop("C27", "Stored tree nodes and links decode to what was written",
     "A tree node or link written to storage decodes to the same key, value, hashes, heights and child aggregates; the announced encoding length is the number of bytes written, and it is the length costs are based on. "
     "Truncated or malformed node bytes are errors.",
     ["inputs"], "every node, link kind, aggregate kind and byte string",
     "Tests cover some link kinds and sizes.",
     ["merk/src/tree/encoding.rs", "merk/src/tree/link.rs", "merk/src/tree/kv.rs", "merk/src/tree/mod.rs"],
     [("node codec", "merk/src/tree/encoding.rs"), ("link codec", "merk/src/tree/link.rs"), ("cost lengths", "merk/src/tree/kv.rs")],
     select=[("merk/src/tree/(encoding|link|kv|tree_feature_type)", ANY), ("merk/src/tree/mod", "encod|decod|cost|len|size"), ("merk/src/owner", ANY)], observe=["stored bytes and decoded nodes"], db=True)

prop("C28", "Merk trees stay ordered, balanced and linked through every batch",
     "Applying a batch of operations to a Merk tree leaves a binary search tree whose subtree heights differ by at most one, containing exactly the keys implied by the operations; unsorted or duplicate batch keys are rejected. "
     "Rotations and removals keep every node reachable, and child links always carry the current hash, heights and aggregates of the child.",
     ["inputs", "histories"], "every tree and every batch of operations",
     "Random tests cover small trees; a wrong rotation case or link update shows only in particular shapes.",
     ["merk/src/tree/ops.rs", "merk/src/tree/mod.rs", "merk/src/tree/walk/mod.rs", "merk/src/merk/mod.rs", "merk/src/merk/apply.rs", "merk/src/tree/link.rs"],
     [("application, balancing, rotation, removal", "merk/src/tree/ops.rs"), ("attach and detach", "merk/src/tree/mod.rs"), ("walker", "merk/src/tree/walk/mod.rs")],
     select=[("merk/src/tree/(ops|walk|commit|iter|just)", ANY), ("merk/src/tree/mod", ANY), ("merk/src/merk/(apply|mod|committer|clear|get|open)", ANY)], observe=["keys, heights and root hash"], db=True)

prop("C29", "Merk proof generation reveals what the query needs and nothing it forbids",
     "A generated Merk proof contains, in key order, a value node for every matching key up to the limit, enough neighbours to prove absence, and hashes for the rest, with the node kind that the element type requires. "
     "Left-to-right and right-to-left proofs describe the same tree.",
     ["inputs"], "every tree, query, limit and direction",
     "Tests generate proofs for a few small trees.",
     ["merk/src/proofs/query/mod.rs", "merk/src/merk/prove.rs", QP + "proof_items.rs", QP + "proof_status.rs"],
     [("recursive proof creation", "merk/src/proofs/query/mod.rs"), ("query processing per node", QP + "proof_items.rs")],
     select=[("merk/src/proofs/query/mod", ANY), ("merk/src/merk/prove", ANY), (QP + "proof_", ANY), ("merk/src/tree/mod", "to_kv")], observe=["generated proof operations"], db=True)

prop("C30", "Estimated costs cover the key, value and path work they describe",
     "Average- and worst-case estimation accounts for every component of the operation it models (seeks, loaded, added and replaced bytes, hash calls), with the same size formulas the real operation uses, and reports inconsistent layer information as an error. "
     "Estimation never overflows silently for any layer description.",
     ["inputs", "configurations"], "every operation kind, layer description and element",
     "Tests compare a few estimates to real costs.",
     ["merk/src/estimated_costs/average_case_costs.rs", "merk/src/estimated_costs/worst_case_costs.rs", "merk/src/estimated_costs/mod.rs", "grovedb/src/estimated_costs/average_case_costs.rs", "grovedb/src/estimated_costs/worst_case_costs.rs"],
     [("Merk formulas", "merk/src/estimated_costs/mod.rs"), ("GroveDB formulas", "grovedb/src/estimated_costs/average_case_costs.rs")],
     select=[("merk/src/estimated_costs/", ANY), ("grovedb/src/estimated_costs/", ANY), ("grovedb/src/operations/(get|delete)/(average|worst)_case", ANY), ("merk/src/element/costs", ANY), ("grovedb/src/batch/estimated_costs/", ANY)], observe=["estimated costs"], db=True)

# ---------------------------------------------------------------- the database
G = "grovedb/src/"
prop("C31", "Elements are written to and read from a subtree unchanged",
     "Inserting an element under a key stores exactly that element with the cost, value hash and feature type its kind requires, and reading the key back returns it or reports its absence; conditional insertions change nothing when their condition fails. "
     "Deleting removes exactly the named key, and an element that cannot be decoded is an error, never a missing key.",
     ["inputs", "histories"], "every element kind, key, insertion option and subtree kind",
     "Tests insert and read a few elements of each kind.",
     ["merk/src/element/insert.rs", "merk/src/element/get.rs", "merk/src/element/delete.rs", "merk/src/element/exists.rs", "merk/src/merk/source.rs", "merk/src/merk/get.rs"],
     [("insertion operations", "merk/src/element/insert.rs"), ("reads", "merk/src/element/get.rs"), ("deletion operations", "merk/src/element/delete.rs"), ("loading of nodes", "merk/src/merk/source.rs")],
     select=[("merk/src/element/(insert|get|delete|exists)", ANY), ("merk/src/merk/(source|get|options)", ANY), ("merk/src/error", ANY)], observe=["elements read back"], db=True)

prop("C32", "Insertion changes one element and re-authenticates every ancestor",
     "An insertion succeeds only into an existing subtree and only with an element whose references resolve; overwriting an element or a tree is refused when the options forbid it. "
     "After it, and only after it, each ancestor up to the root holds the new root hash, root key and aggregate of the subtree below it, and the change becomes visible in the caller's transaction or is committed as a whole.",
     ["inputs", "histories", "configurations"], "every path, key, element, option and transaction state",
     "Tests insert into small groves and compare some root hashes.",
     [G + "operations/insert/mod.rs", G + "lib.rs", G + "util.rs"],
     [("insertion and its checks", G + "operations/insert/mod.rs"), ("propagation of roots to ancestors", G + "lib.rs"), ("transaction of an operation", G + "util.rs")],
     select=[(G + "operations/insert/", ANY), (G + "lib.rs", "propagate|update_tree_item|open_|get_element_from|compute_non_merk"), (G + "util.rs", ANY), (G + "util/compat", ANY)], observe=["state of the grove, root hash"], db=True)

prop("C33", "Deletion removes what was named, with all that lies below it, and nothing else",
     "Deleting an element removes exactly that key; a non-empty tree is deleted only when the options allow it, and then with everything in its descendants. "
     "Deleting upwards removes an ancestor only when it has become empty and lies below the given stop height, and emptied or cleared subtrees report the change to their ancestors.",
     ["inputs", "histories", "configurations"], "every path, key, option, tree kind and content",
     "Tests delete from a few hand-made groves.",
     [G + "operations/delete/mod.rs", G + "operations/delete/delete_up_tree.rs", G + "operations/is_empty_tree.rs"],
     [("deletion, clearing", G + "operations/delete/mod.rs"), ("upward deletion", G + "operations/delete/delete_up_tree.rs")],
     select=[(G + "operations/delete/(mod|delete_up_tree)", ANY), (G + "operations/is_empty_tree", ANY)], observe=["state of the grove, root hash"], db=True)

prop("C34", "Reading follows references to the element they name, or fails",
     "Reading a path and key returns the element stored there; a reference is followed to its final target within the hop limit, a cycle, a missing target or an exceeded limit is an error, and raw reads return the stored reference itself. "
     "A missing subtree, a missing key and a corrupted element are reported as different errors, and reading changes nothing.",
     ["inputs", "histories"], "every path, key, reference chain and transaction state",
     "Tests follow a few short chains.",
     [G + "operations/get/mod.rs", G + "operations/auxiliary.rs", G + "merk_cache.rs"],
     [("reads and reference following", G + "operations/get/mod.rs"), ("auxiliary data", G + "operations/auxiliary.rs"), ("open subtrees", G + "merk_cache.rs")],
     select=[(G + "operations/get/mod", ANY), (G + "operations/auxiliary", ANY), (G + "merk_cache", ANY), (G + "error", ANY)], observe=["elements and errors returned"], db=True)

prop("C35", "Queries return exactly the elements they describe, in order, within limit and offset",
     "Executing a path query yields the elements its items, subqueries and conditional branches select, in the requested direction, skipping the offset and stopping at the limit, each key once and none left out. "
     "Results in every form (elements, keys, paths) are the same results, references are resolved as the options say, and a queried subtree that is missing is an error or no result, as the options say.",
     ["inputs", "histories", "configurations"], "every path query, grove content and option",
     "Tests run some dozens of queries over fixed groves.",
     [G + "element/query.rs", G + "operations/get/query.rs", G + "query_result_type.rs", G + "element/elements_iterator.rs"],
     [("execution over a subtree", G + "element/query.rs"), ("entry points and result conversion", G + "operations/get/query.rs"), ("result forms", G + "query_result_type.rs")],
     select=[(G + "element/(query|elements_iterator|path_query_push_args|query_options)", ANY), (G + "operations/get/query", ANY), (G + "query_result_type", ANY)], observe=["query results"], db=True,
     rules=["moved-unpositioned"])

prop("C36", "A batch has the effect of its operations, as one",
     "Applying a batch changes the grove as applying its operations one after another would, deepest level first, with every ancestor re-authenticated once, or changes nothing when any operation fails. "
     "Inconsistent batches (two operations for one key, changes below a deleted tree, references to what the batch removes) are refused, and partial batches continue with exactly the operations left over.",
     ["inputs", "histories", "configurations"], "every set of operations, option and grove content",
     "Tests apply a few dozen batches.",
     [G + "batch/mod.rs", G + "batch/batch_structure.rs", G + "batch/key_info.rs", G + "batch/just_in_time_reference_update.rs", G + "batch/options.rs"],
     [("consistency checks, level-by-level execution, commit", G + "batch/mod.rs"), ("operations by level and path", G + "batch/batch_structure.rs"), ("keys of operations", G + "batch/key_info.rs"),
      ("flags of replaced elements", G + "batch/just_in_time_reference_update.rs")],
     select=[(G + "batch/(mod|batch_structure|key_info|options|just_in_time)", ANY)], observe=["state of the grove, root hash"], db=True)

prop("C37", "Append-only trees inside the grove agree with the element that commits to them",
     "Appending to an MMR, bulk-append, dense or commitment tree stores the value, updates the element's count and the root its parent commits to in the same transaction, and reads return what was appended at each position or nothing. "
     "In a batch, appends to the same tree take effect in order and are replaced by exactly one update of that tree's element.",
     ["inputs", "histories"], "every sequence of appends and reads, alone and in batches",
     "Tests append a few values of each kind.",
     [G + "operations/mmr_tree.rs", G + "operations/bulk_append_tree.rs", G + "operations/dense_tree.rs", G + "operations/commitment_tree.rs"],
     [("MMR trees", G + "operations/mmr_tree.rs"), ("bulk append trees", G + "operations/bulk_append_tree.rs"), ("dense trees", G + "operations/dense_tree.rs"), ("commitment trees", G + "operations/commitment_tree.rs")],
     select=[(G + "operations/(mmr_tree|bulk_append_tree|dense_tree|commitment_tree)", ANY)], observe=["values, counts, root hash"], db=True)

CT = "grovedb-commitment-tree/src/"
prop("C38", "The commitment frontier and its payload grow together, and reload as they were",
     "Appending a note adds its commitment to the frontier and the commitment with its payload to the bulk tree at the same position; payloads of the wrong size or invalid commitments change neither. "
     "A saved frontier reloads to the same position, anchor and size, malformed serializations are errors, and the state root binds both parts.",
     ["inputs", "histories"], "every sequence of appends, every serialized frontier",
     "Tests append a few notes and reload once.",
     [CT + "commitment_tree/mod.rs", CT + "commitment_frontier/mod.rs", CT + "client/client_memory_commitment_tree.rs", CT + "lib.rs"],
     [("frontier and bulk tree together", CT + "commitment_tree/mod.rs"), ("frontier and its encoding", CT + "commitment_frontier/mod.rs")],
     select=[(CT, ANY)], observe=["anchor, position, state root"], db=True)

prop("C39", "Generated proofs contain what verification of the same query needs",
     "Proving a path query walks the same subtrees, limits and directions that verification walks, includes a lower layer for every non-empty tree the query descends into and for no other, and replaces references by the values they resolve to. "
     "A query that cannot be proved (offset, zero limit, unsupported version) is refused rather than proved partially.",
     ["inputs", "configurations"], "every path query, grove content and proof version",
     "Tests prove some dozens of queries.",
     [G + "operations/proof/generate.rs"], [("layer-by-layer proof generation, both versions", G + "operations/proof/generate.rs")],
     select=[(G + "operations/proof/generate", ANY)], observe=["generated proofs"], db=True)

prop("C40", "State sync restores exactly the grove whose root hash was agreed",
     "A syncing session accepts a chunk only if it was requested and its bytes rebuild the subtree with the hash its parent committed to, discovers every subtree of every restored tree, and completes only when all of them are restored. "
     "Chunk identifiers and chunk packings decode to what was encoded, malformed ones are errors, and nothing is committed before completion.",
     ["inputs", "schedules", "histories"], "every chunk order, chunk byte string and identifier",
     "Tests sync a few groves in one order.",
     [G + "replication.rs", G + "replication/state_sync_session.rs"], [("chunk identifiers and packing, serving of chunks", G + "replication.rs"), ("session state machine", G + "replication/state_sync_session.rs")],
     select=[(G + "replication", ANY)], observe=["acceptance of chunks, restored grove"], db=True)

prop("C41", "Transactions, checkpoints and integrity checks do what they say",
     "Starting, committing and rolling back act on the transaction given and on no other, a locally started transaction is committed exactly when the operation succeeded, and a checkpoint is a separate grove with the same content. "
     "The integrity check visits every subtree, recomputes value hashes and child roots, and reports every mismatch.",
     ["histories", "inputs"], "every history of transactions and checkpoints, every corrupted state",
     "Tests corrupt a value or two.",
     [G + "lib.rs", G + "checkpoints.rs", G + "util.rs"], [("transactions, integrity check", G + "lib.rs"), ("checkpoints", G + "checkpoints.rs")],
     select=[(G + "lib.rs", "transaction|verify|wipe|flush|root_|open_base|^open$|GroveDb::open$|visualize"), (G + "checkpoints", ANY), (G + "util.rs", ANY)], observe=["state of the grove, reported issues"], db=True)

prop("C42", "Reported costs cover every step an operation took",
     "The cost an operation of any crate reports is the sum of the costs of all the steps it took to get there, each counted once, on success, on error and on every early exit; what it adds itself (seeks, loaded, added, replaced and removed bytes, hash calls) depends only on what it did. "
     "No loop iteration, skipped branch or failing step drops or doubles the cost of another.",
     ["inputs", "histories", "fault_sequences"], "every operation, every path through it including its errors, every number of iterations",
     "Tests compare the costs of some successful operations; the cost of failing paths, empty batches or later iterations is not looked at.",
     ["costs/src/lib.rs", "grovedb/src/lib.rs", "merk/src/merk/mod.rs", "storage/src/rocksdb_storage/storage_context/context_tx.rs", DENSE + "tree.rs", MMR + "mmr.rs", BAT + "tree/mod.rs", "grovedb-commitment-tree/src/commitment_tree/mod.rs"],
     [("cost accumulators and early returns that carry them", "costs/src/lib.rs"), ("operations of the grove", "grovedb/src/operations/"), ("operations of a single tree", "merk/src/merk/mod.rs"),
      ("append-only structures", DENSE + "tree.rs"), ("storage contexts", "storage/src/rocksdb_storage/")],
     select=[(d, ANY) for d in ("grovedb/", "merk/", "storage/", "path/", "grovedb-query/", "grovedb-element/", DENSE, MMR, BAT, "grovedb-commitment-tree/", "grovedb-epoch-based-storage-flags/")], observe=["reported costs"], db=True, costs=True,
     technique="dataflow over the typed MIR: symbolic cost sums of every function, per path condition, compared with the confirmed ones (functions alone first, inlined where they differ)",
     note="For every function that returns or accumulates a cost, the cost it reports was derived from its typed MIR as a symbolic sum over the steps taken, with the exact condition of each sum as a decision diagram, and compared with the confirmed one.")

# private functions that are analysed on their own and kept opaque in their callers,
# because inlining all of them exceeds the analysis bounds
BOUNDS = [
]
LEARN_SECS = 30
QUICK_MS = 12000
BY_ID = {p["id"]: p for p in P}

# properties this technique does not decide
NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, reason=reason,
                   mech=[dict(name=a, where=b) for a, b in mech], state=[], observe=[]))


na("C90", "Crash consistency of committed transactions",
   "After a crash at any point, reopening the database shows exactly the state of the last committed transaction.",
   ["crash_points", "histories"], "every crash point during every history of transactions",
   "Tests do not crash the process.", ["storage/src/rocksdb_storage/storage.rs"],
   [("RocksDB write-ahead log and atomic commit", "third-party")],
   "Durability and atomicity at a crash are provided by RocksDB (third-party C++, not in the tree); grovedb's source contains no logging or recovery code whose shape could decide it. What grovedb adds (all writes of an operation go through one transaction) is claimed separately.")
na("C91", "Collision resistance of the hash function",
   "No two different trees can be found that have the same root hash.", ["inputs"], "every pair of trees",
   "A computational assumption.", ["merk/src/tree/hash.rs"], [("Blake3", "third-party")],
   "A computational hardness assumption about Blake3; no source inspection decides it. The structural part (unambiguous hash inputs) is claimed under the hashing property.")
na("C92", "Logarithmic cost of operations and proofs",
   "Lookups, updates and proofs touch a number of nodes logarithmic in the number of entries.", ["inputs", "histories"], "every tree size",
   "Asymptotic claims need unbounded sizes.", ["merk/src/tree/ops.rs"], [("AVL balance", "merk/src/tree/ops.rs")],
   "Quantifies over a numeric bound on runtime quantities (tree height against number of entries); the balance rule it rests on is claimed structurally, the asymptotic bound is not decidable by a shape argument.")
