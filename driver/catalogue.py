#!/usr/bin/env python3
"""the property texts; running this writes properties.jsonl and MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, note=None, na=None):
    C.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    C[-1]["_note"], C[-1]["_na"] = note, na


prop("C01", "Query items denote key sets, and key-set algebra on them is exact",
     "Each of the ten kinds of query item selects exactly the keys its bounds describe: membership, bounds, enumeration, ordering, intersection, merging and iterator walks in both directions all agree with that set of keys. Intersecting or merging items never gains or loses a key, and walking a store for an item visits exactly the stored keys that belong to it, in order, and stops.",
     ["inputs"], "every pair of item kinds, every choice of bound keys, every probed key and every stored key set within the stated sizes",
     "the existing tests sample a few hand-picked keys per item kind; the boundary relations (equal, adjacent, prefix, empty key) between two items and a key are combinatorial",
     ["grovedb-query/src/query_item"], [("QueryItem::contains/lower_bound/upper_bound/seek_for_iter", "grovedb-query/src/query_item/mod.rs"), ("intersection", "grovedb-query/src/query_item/intersect.rs"), ("merge", "grovedb-query/src/query_item/merge.rs")],
     note="keys up to the stated lengths; the store is a symbolic sorted list behind the crate's own RawIterator trait")
prop("C02", "Composing queries selects the union and routes every key's subqueries",
     "Inserting items into a query keeps its item list sorted and disjoint and selecting exactly the union of what was inserted. Adding or merging conditional and default subqueries, branches or whole queries keeps, for every key, each side's subquery for that key, honours first-match-wins among conditional subqueries, and invents no subquery.",
     ["inputs", "histories"], "every sequence of up to three inserted items, every pair of overlapping conditional items, branch paths and queries within the stated sizes",
     "tests check a few hand-drawn overlaps; whether keys are lost depends on how arbitrary intervals overlap",
     ["grovedb-query/src/query.rs", "grovedb-query/src/insert.rs", "grovedb-query/src/merge.rs", "grovedb-query/src/common_path.rs"], [("insert_item", "grovedb-query/src/insert.rs"), ("merge_with / merge_multiple / SubqueryBranch::merge", "grovedb-query/src/merge.rs")],
     note="routing is compared at a symbolic key; bounds per evidence file")

prop("C03", "The query codec is lossless, total and bounded",
     "Every query (items of all kinds, default and conditional branches, direction, parent addition) survives encoding and decoding unchanged, its encoding is the documented one, and decoding arbitrary bytes always gets an answer: no panic, no unbounded recursion, memory in proportion to the input, limits enforced, and an accepted decode re-encodes to a query that decodes to the same thing. The same for the items of aggregate sum queries.",
     ["inputs"], "every query within the stated shapes with symbolic contents; every byte string up to the stated length, from each starting state",
     "the tests encode a few queries; a lost field in one combination, or one length that overflows, is not among them",
     ["grovedb-query/src/query.rs", "grovedb-query/src/query_item/mod.rs", "grovedb-query/src/subquery_branch.rs"], [("Query encode/decode with depth and size limits", "grovedb-query/src/query.rs"), ("QueryItem encode/decode", "grovedb-query/src/query_item/mod.rs"), ("AggregateSumQuery", "grovedb-query/src/aggregate_sum_query.rs")],
     note="byte strings up to 8 (quick) and 11 (thorough) bytes; decoding of untrusted bytes with bincode's byte limit at 1 MiB")
prop("C04", "The merk proof operator codec is lossless, total and bounded",
     "Every proof operator (push and inverted push of each node kind with each feature type, parent, child and their inversions) survives encoding and decoding unchanged and its announced length is its real length; decoding arbitrary bytes always gets an answer, never panics and allocates in proportion to the input; a decoded stream is cut exactly where each operator ends, whatever form it was written in.",
     ["inputs"], "every operator with symbolic contents, values around the small/large switch; every byte string up to the stated length after every opcode",
     "one opcode in fifty with one field swapped or one length form is not sampled; a stream's cut depends on the bytes themselves",
     ["grovedb-query/src/proofs"], [("Op::encode_into / encoding_length / decode", "grovedb-query/src/proofs/encoding.rs"), ("Decoder / encode_into", "grovedb-query/src/proofs/encoding.rs"), ("TreeFeatureType encode/decode", "grovedb-query/src/proofs/tree_feature_type.rs")],
     note="bodies of 1, 3, 6, 45 and (some opcodes) 75 bytes after every opcode")
prop("C05", "Elements round-trip through their stored form and reading untrusted bytes is total",
     "Every element serializes to bytes that read back as the same element; different elements have different bytes, the first byte and the element-type API agree on its kind, and its size and derived values (flags, sums, counts, references, tree type, feature contributions) follow from its contents. Reading arbitrary bytes returns an element or an error, never panics or over-allocates, and an accepted element survives re-encoding.",
     ["inputs"], "every element kind with every numeric value, every short payload, flags present or absent; every byte string up to the stated length behind every discriminant byte",
     "tests pin the encodings of a handful of elements; totality on hostile bytes and agreement of the type byte with the decoder for all payloads is unbounded",
     ["grovedb-element/src/element"], [("serialize/deserialize", "grovedb-element/src/element/serialize.rs"), ("ElementType::from_serialized_value", "grovedb-element/src/element_type.rs"), ("helpers", "grovedb-element/src/element/helpers.rs")],
     note="payloads and references of a few bytes/segments, decoder inputs up to the lengths in the evidence file; an accepted length is at most u32::MAX")
prop("C06", "References resolve to the path they describe, and inverting a reference leads back",
     "Resolving each kind of reference path from a qualified path yields exactly the path its description says (or an error when the path is too short), and where a reference can be inverted, following the inverse from the target leads back to the referring element.",
     ["inputs"], "every reference kind, every path depth up to the bound, every height/offset value and symbolic segments",
     "tests check one or two depths per kind; boundary heights and the inverse law quantify over all depths",
     ["grovedb-element/src/reference_path.rs"], [("path_from_reference_qualified_path_type / path_from_reference_path_type / invert", "grovedb-element/src/reference_path.rs")],
     note="path depth up to the bound in the evidence file, one-byte segments")
prop("C07", "Paths behave as the sequence of their segments however they were built",
     "A subtree path built from slices, owned vectors, derived children and parents, pushes and pops is the sequence of its segments: length, iteration from both ends, parent, child, equality, hashing and conversion all agree with that sequence, whatever mix of borrowed and owned parts it is made of.",
     ["histories", "inputs"], "every sequence of path operations up to the stated number from every base, with symbolic segment lengths and bytes",
     "equality and hash across representations quantify over all operation histories",
     ["path/src"], [("SubtreePath", "path/src/subtree_path.rs"), ("SubtreePathBuilder", "path/src/subtree_path_builder.rs"), ("CompactBytes", "path/src/util/compact_bytes.rs")],
     note="segments of up to two bytes, operation sequences up to the bound in the evidence file")
prop("C08", "Cost accounting adds up",
     "Costs combine as sums: adding operation costs, storage costs and sectioned removals loses and invents nothing in any order; key/value, flag and root-size cost formulas equal the number of bytes the written structures take; the cost context combinators (map, flat_map, unwrap_add_cost, ok/err variants, cost_return_on_error) accumulate every inner cost exactly once on success and on error.",
     ["inputs", "histories"], "every pair of removals over shared and distinct identifiers and epochs, every symbolic amount, every combinator",
     "tests check a few additions; the sectioned-removal algebra has many overlap shapes",
     ["costs/src"], [("StorageRemovedBytes add", "costs/src/storage_cost/removal.rs"), ("OperationCost", "costs/src/lib.rs"), ("CostContext", "costs/src/context.rs"), ("KeyValueStorageCost", "costs/src/storage_cost/key_value_cost.rs")],
     note="two identifiers, two epochs; amounts without overflow of the counter types")
prop("C09", "Storage flags: codec, split and merge conserve bytes per epoch and owner",
     "Epoch and owner flags round-trip through their stored form and reading arbitrary bytes is total. Combining the flags of an old and a new value keeps every byte attributed to the epoch that paid for it under each merging strategy, removing bytes takes them from the newest epochs first and returns exactly the bytes removed per epoch, and the number of bytes removed equals the sum of its sections.",
     ["inputs"], "every flag shape, every merging strategy, symbolic epochs, amounts and owner ids within the bounds",
     "the split arithmetic has per-epoch boundary cases tests sample thinly",
     ["grovedb-epoch-based-storage-flags/src"], [("StorageFlags", "grovedb-epoch-based-storage-flags/src/lib.rs"), ("split_storage_removed_bytes / update", "grovedb-epoch-based-storage-flags/src")],
     note="up to the stated number of epochs per map")

prop("C10", "An MMR is the tree its definition says, however it is grown, committed and reopened",
     "Leaf positions, sizes, counts and storage keys follow the definition of a Merkle mountain range for every index; storage keys are injective and keep the order of positions. Whatever values are pushed and whenever the tree is committed, reopened or handed over with its overlay, every stored node, the size and the root are those of the definition; nodes hash as H(00||value) and H(01||left||right), survive storage, and reading arbitrary bytes as a node is total and canonical.",
     ["inputs", "histories"], "every leaf index up to 62 bits, every pushed value, every interleaving of pushes with commit and reopen up to the stated number of leaves",
     "tests push a handful of sequences; the position arithmetic is bit-level and its edge cases (carries, large indices) are not sampled",
     ["grovedb-merkle-mountain-range/src"], [("leaf_index_to_pos / leaf_index_to_mmr_size / get_peak_map", "grovedb-merkle-mountain-range/src/helper.rs"), ("MMR::push / get_root / commit", "grovedb-merkle-mountain-range/src/mmr.rs"), ("MmrNode", "grovedb-merkle-mountain-range/src/node.rs")],
     note="leaf values of one byte (nodes up to 3), number of leaves per evidence file")
prop("C11", "Every honest MMR proof verifies and yields exactly the leaves asked for",
     "For any non-empty set of leaves of a tree, asked for in any order, a proof can be generated, survives encoding, verifies against the tree's root and yields exactly these leaves with their values; asking for leaves that are not there or twice is an error. Proofs extend: the root after appending and the incremental check from the old peaks agree with the definition.",
     ["inputs", "histories"], "every subset of leaves of every tree up to the stated size, symbolic values",
     "which siblings and bagged peaks a proof needs depends on subset and size together; tests sample few",
     ["grovedb-merkle-mountain-range/src"], [("MmrTreeProof::generate / verify", "grovedb-merkle-mountain-range/src/proof.rs"), ("MMR::gen_proof", "grovedb-merkle-mountain-range/src/mmr.rs"), ("calculate_root_with_new_leaf / verify_incremental", "grovedb-merkle-mountain-range/src/proof.rs")],
     note="one-byte values; tree sizes per evidence file")
prop("C12", "No MMR proof yields a leaf the tree does not have, and verifying is total",
     "Against the true root and size, whatever leaves a proof yields are leaves of the tree at those indices with those values, for every choice of claimed leaves and proof items; claimed leaves are never dropped silently and both verification functions agree. Decoding and verifying any proof, including absurd sizes and indices, returns an answer and never panics.",
     ["inputs", "faults"], "every proof with up to the stated number of claimed leaves (any index, any value) and proof items (any hashes) against every tree up to the stated size; every byte string up to the stated length for the decoder",
     "a forgery is one specific combination of claimed leaves and hashes; tests only tamper with honest proofs",
     ["grovedb-merkle-mountain-range/src/proof.rs"], [("calculate_peaks_hashes / calculate_peak_root", "grovedb-merkle-mountain-range/src/proof.rs"), ("MmrTreeProof::verify / verify_and_get_root / decode_from_slice", "grovedb-merkle-mountain-range/src/proof.rs")],
     note="BLAKE3 is taken as collision free; the size a proof claims must be authenticated by the caller, as GroveDB does")

prop("C13", "A dense tree is the tree its definition says after every history",
     "The dense fixed-sized tree fills positions in breadth-first order; after any sequence of inserts, reopenings and resets its count, capacity, every value, and the root hash are those of the definition (node hash = H(H(value)||left||right), missing child = zero hash); inserting into a full tree and reading past the count are refused without any change; a failed store read or write never leaves a half-applied insert.",
     ["histories", "faults"], "every sequence of operations up to the stated number, every store operation that may fail, symbolic values",
     "the count/persisted value/root agreement is a history property; tests take one route",
     ["grovedb-dense-fixed-sized-merkle-tree/src/tree.rs"], [("DenseFixedSizedMerkleTree::insert / try_insert / get / root_hash / reset", "grovedb-dense-fixed-sized-merkle-tree/src/tree.rs"), ("compute_root_hash", "grovedb-dense-fixed-sized-merkle-tree/src/hash.rs")],
     note="heights up to 4, values of one byte, steps per evidence file")
prop("C14", "Every honest dense-tree proof verifies and a query selects exactly its positions",
     "For any set of positions of a dense tree, and for any query over positions, a proof can be generated, survives encoding, verifies against the root and yields exactly the selected positions with their values; the positions a query selects are those of its items over the existing positions.",
     ["inputs", "histories"], "every subset of positions of every fill up to the stated size; every query item with symbolic bounds",
     "which node values, hashes and value hashes a proof needs depends on subset and fill together",
     ["grovedb-dense-fixed-sized-merkle-tree/src/proof"], [("DenseTreeProof::generate / generate_for_query", "grovedb-dense-fixed-sized-merkle-tree/src/proof"), ("query_to_positions", "grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs")],
     note="heights up to 3 (4 thorough), one-byte values, two query items")
prop("C15", "No dense-tree proof yields a value the tree does not have or hides one that a query selects, and verifying is total",
     "Against the true root and count, whatever a dense-tree proof yields are the tree's values at these positions, for every choice of entries, value hashes and node hashes; a proof accepted for a query yields exactly what the query selects; both verifiers agree. Decoding and verifying any proof returns an answer and never panics.",
     ["inputs", "faults"], "every proof with up to the stated numbers of entries, value hashes and hashes against every tree within the bounds; every byte string up to the stated length for the decoder",
     "a forgery is one specific combination of entries and hashes; tests only tamper with honest proofs",
     ["grovedb-dense-fixed-sized-merkle-tree/src/proof"], [("DenseTreeProof::verify_and_get_root / verify_against_expected_root / verify_for_query", "grovedb-dense-fixed-sized-merkle-tree/src/verify.rs")],
     note="BLAKE3 is taken as collision free; height and count are authenticated by the parent element")

prop("C16", "A bulk append tree is the sequence of values appended to it, after every history and fault",
     "After any sequence of appends, commits, reopenings and failed storage operations the tree holds exactly the values whose appends succeeded: counts, buffered values, chunk blobs, positions, reported compactions and the state root (H(bulk_state || MMR root || dense root)) are those of the definition; an append or a commit that fails changes nothing and can be retried.",
     ["histories", "faults"], "every sequence of operations up to the stated number from every fill, every storage operation that may fail, symbolic values of two lengths",
     "compaction, overlay and reload interact over a history; faults at each point are not sampled by tests",
     ["grovedb-bulk-append-tree/src/tree"], [("BulkAppendTree::append / compact_with_value / commit_mmr / from_state", "grovedb-bulk-append-tree/src/tree/append.rs"), ("get_buffer_value / get_chunk_value", "grovedb-bulk-append-tree/src/tree/fetch.rs")],
     note="heights 1 and 2, values of one or two bytes, steps per evidence file")
prop("C17", "A bulk append tree's proofs are complete and authentic",
     "For any query over positions a proof can be generated, survives encoding, verifies against the state root and yields exactly the selected positions with their values, from chunks and buffer alike. Whatever an accepted proof yields are the tree's chunks and values, and a proof accepted for a query hides nothing it selects. Decoding and verifying any proof with any height and count gets an answer and never panics.",
     ["inputs", "faults", "histories"], "every query item with symbolic bounds, every fill within the bounds; every claimed combination of chunk leaves, proof items, entries and hashes within the bounds",
     "the split of a query over chunks and buffer has boundary cases per fill; a forgery is one specific combination",
     ["grovedb-bulk-append-tree/src/proof"], [("BulkAppendTreeProof::generate / verify / verify_against_query / values_in_range", "grovedb-bulk-append-tree/src/proof/mod.rs"), ("query_to_ranges", "grovedb-bulk-append-tree/src/proof/mod.rs"), ("query_chunks / query_buffer", "grovedb-bulk-append-tree/src/tree/fetch.rs")],
     note="heights 1 and 2; BLAKE3 is taken as collision free; height and count are authenticated by the parent element")
prop("C18", "A chunk blob gives back the values it was made of",
     "Packing any list of values into a chunk blob and reading it back yields the same list; the stored form is the documented one; reading arbitrary bytes is total, allocates in proportion to the limit and never yields values that are not in the bytes.",
     ["inputs"], "every list of values within the bounds; every byte string up to the stated length",
     "the fixed and variable formats switch on lengths; declared lengths are attacker controlled",
     ["grovedb-bulk-append-tree/src/chunk.rs"], [("serialize_chunk_blob / deserialize_chunk_blob", "grovedb-bulk-append-tree/src/chunk.rs")],
     note="up to 4 values of up to 3 bytes; blobs up to 15 bytes and 21")

prop("C19", "A merk query proof proves the tree's contents: nothing forged, omitted or reordered",
     "If executing a merk proof for a query gives the tree's root hash, the results are exactly the tree's keys selected by the query, in the query's direction, cut by the limit; values bound by the proof (items, referenced values, values with their child hash) are the tree's, counts are the tree's and every key the proof shows is in the tree. The node hash functions are the documented ones. An attacker may choose every operator and every byte of the proof.",
     ["inputs", "faults"], "every proof of the stated numbers of pushes and attachments with every node kind and fully symbolic keys, values, hashes and counts, against every tree of up to four nodes with symbolic content, for every kind of query item, direction and limit",
     "a forgery is one specific combination of operators; tests tamper with a few honest proofs",
     ["merk/src/proofs/query", "merk/src/proofs/tree.rs", "merk/src/tree/hash.rs"], [("Query::execute_proof / visit_node absence and boundary checks", "merk/src/proofs/query/verify.rs"), ("execute, Tree::attach, Child hash", "merk/src/proofs/tree.rs"), ("value_hash / kv_digest / node_hash / combine_hash / node_hash_with_count", "merk/src/tree/hash.rs")],
     note="one-byte keys, two-byte values; BLAKE3 is taken as collision free between inputs of the modelled lengths; values of KVValueHash nodes of non-simple elements are bound one layer up")

prop("C20", "Trunk and branch chunk proofs show the count tree as it is, and all of it",
     "If verifying a trunk chunk proof (version 0 or 1) gives the database's root hash, or a branch chunk proof is accepted under a true node hash, every element shown is the tree's, every leaf has its true node hash (and count, in provable count trees), a key neither shown nor leading to a leaf is not in the tree, and ancestors of leaves are the true ones. Honest trunk and branch chunks are accepted for every minimum and maximum depth and together give the whole tree. The depth of a tree is the greatest an AVL tree of its count can have, and chunk depths make it up within maximum and minimum.",
     ["inputs", "faults"], "every chunk of the stated numbers of nodes with every node kind and symbolic content, every element over it, against every tree within the bounds; every count (64 bits) and every depth up to 92",
     "a forgery is one combination of node kinds, elements and hashes; tests tamper with a few honest proofs",
     ["grovedb/src/operations/proof/verify.rs", "merk/src/proofs/branch", "grovedb/src/query"], [("verify_trunk_chunk_proof / verify_branch_chunk_proof / extract_elements_and_leaf_keys", "grovedb/src/operations/proof/verify.rs"), ("trace_key_to_leaf / get_ancestor", "grovedb/src/query/grove_trunk_query_result.rs"), ("calculate_max_tree_depth_from_count / calculate_chunk_depths*", "merk/src/proofs/branch/depth.rs")],
     note="attacked chunks of up to three nodes, honest trees of up to 20; BLAKE3 is taken as collision free; known findings F4 and F5 are reported")
prop("C21", "A GroveDB proof proves the database's contents: nothing forged, omitted or moved across layers",
     "If verifying a layered proof (version 0 or 1) for a path query gives the database's root hash, the results are exactly the path, key and element triples the query selects in the database - descending into subqueries, subquery paths and conditional branches, with limits, offsets none, empty trees, references and absence as the options say - in order. Every entry point (verify_query, verify_query_raw, subset, absence, succinctness, parent tree info, GroveDBProof methods) tells the same. An attacker may choose every layer, operator and byte of the proof.",
     ["inputs", "faults"], "every proof of the stated shape (layers, nodes per layer, node kinds) with fully symbolic keys, values, hashes and limits, against every database of the stated shape with symbolic content, for the stated queries and options",
     "a forgery is one combination of node kinds, elements and hashes in two or three layers; tests tamper with a few honest proofs",
     ["grovedb/src/operations/proof"], [("verify_layer_proof / verify_layer_proof_v1", "grovedb/src/operations/proof/verify.rs"), ("GroveDb::verify_query*", "grovedb/src/operations/proof/verify.rs"), ("GroveDBProof", "grovedb/src/operations/proof/mod.rs")],
     note="root layer of one or two nodes, up to three layers deep; BLAKE3 is taken as collision free; known findings F2 and F3 are reported")
prop("C22", "Contents of append-only trees shown through a GroveDB proof are the tree's",
     "If verifying a layered proof of a path query into an MMR tree, bulk append tree, dense tree or commitment tree gives the database's root hash, the positions and values given are those the query selects in the tree, in order and cut by the limit, and the tree's size and count are the element's. An attacker may choose every entry, hash and count in the proof.",
     ["inputs", "faults"], "every claimed combination of leaves, items, entries and hashes within the bounds against every tree within the bounds, for every kind of query item and symbolic limit",
     "the inner proof, the element's count and the parent layer must agree; tests tamper with honest proofs in a few places",
     ["grovedb/src/operations/proof/verify.rs", "grovedb-bulk-append-tree/src/proof", "grovedb-merkle-mountain-range/src/proof", "grovedb-dense-fixed-sized-merkle-tree/src/proof"], [("verify_mmr_lower_layer / verify_bulk_append_lower_layer / verify_dense_tree_lower_layer / verify_commitment_tree_lower_layer", "grovedb/src/operations/proof/verify.rs")],
     note="trees of up to a few values; BLAKE3 is taken as collision free; a position absent from the tree is not proven absent")
prop("C23", "Any bytes are a GroveDB proof or are refused: decoding and verifying never panic, recurse or allocate without bound",
     "Given any bytes, decoding a GroveDB proof and verifying it for a query returns a proof, results or an error: no panic, recursion of at most 128 layers and allocation within the configured decode limit; a decoded proof re-encodes to bytes that decode to the same proof.",
     ["inputs"], "every byte string up to the stated length at every place of the encoding (envelope, layer, lower layers, inner proofs), every nesting up to and beyond the depth limit",
     "the proof bytes are attacker controlled; lengths and nesting declared in them reach allocation and recursion",
     ["grovedb/src/operations/proof", "merk/src/proofs"], [("GroveDBProof decode, MerkOnlyLayerProof / LayerProof / ProofBytes", "grovedb/src/operations/proof/mod.rs"), ("verify_query*", "grovedb/src/operations/proof/verify.rs"), ("Decoder", "merk/src/proofs/encoding.rs")],
     note="free byte runs up to 8 bytes at each place of the encoding; depth 0, 1, 127-129")

prop("C24", "A path query means what its parts say: level queries, terminal keys, parent trees and merges",
     "For every path and key, the query that applies at that path, whether the query descends below a key, and whether it asks for the tree itself follow from its path, items, default and conditional subqueries and subquery paths (the first conditional item that has the key decides, else the default). The terminal keys of a query are exactly the path and key pairs it ends at. Merging path queries selects exactly what at least one of them selects, with the paths' common start found, and refuses limits and offsets.",
     ["inputs", "histories"], "every key (symbolic) at every path of up to four segments under the stated shapes of queries with symbolic keys and items; every pair and triple of path queries within the stated shapes",
     "defaults, conditionals, subquery paths and parent flags interact over layers; tests draw a few hand-made queries",
     ["grovedb/src/query", "grovedb-query/src/query.rs"], [("PathQuery::query_items_at_path / SinglePathSubquery", "grovedb/src/query/mod.rs"), ("PathQuery::terminal_keys / Query::terminal_keys", "grovedb/src/query/mod.rs"), ("PathQuery::merge", "grovedb/src/query/mod.rs")],
     note="queries two layers deep, shapes as in the evidence file; one-byte keys")

prop("C25", "The database tells the truth about its contents after any history of operations",
     "After any history of inserts, conditional inserts, deletes (of items, empty and non-empty trees), clears and upward deletes, in trees of every aggregating kind, a query gives exactly the elements the operations left, and everything stored agrees with them: keys are in order in a balanced tree, every value hash, node hash and root hash is the one of the contents, parents hold their subtree's root hash and key, every sum and count is that of the entries below (wide sums exact, overflow refused), and no record is left behind. An operation that is refused changes nothing.",
     ["inputs", "histories"], "every history of the stated length with symbolic keys, values and sums, in a tree of each kind, from each stated starting content",
     "aggregates, rotations, root key changes and deletions interact; the tests run fixed sequences",
     ["grovedb/src/operations", "merk/src/tree", "merk/src/merk", "grovedb/src/lib.rs"], [("GroveDb::insert / delete / clear_subtree / delete_up_tree_while_empty", "grovedb/src/operations"), ("Merk::apply / Walker / TreeNode", "merk/src/tree"), ("update_tree_item_preserve_flag / propagate_changes", "grovedb/src/lib.rs")],
     note="one or two (thorough three) operations with symbolic keys from 0-4 entries; RocksDB is replaced by an in-memory stand-in of its API")

prop("C26", "An honest proof is accepted and proves exactly what a direct query gives",
     "For every database content and every path query the prover accepts, the proof it makes (version 0 or 1) is accepted by the verifier with the database's root hash, and the proved results are exactly what a direct query of the same database gives, in the same order, with the same limit: through subqueries, subquery paths, conditional branches, references, empty trees and absent keys, in trees of every kind. Proving changes nothing in the database.",
     ["inputs", "histories"], "every content of the stated shape with symbolic values, for every stated query shape with symbolic bounds, every limit up to three and both proof versions",
     "the prover and the verifier each count limits, descend and hash nodes in their own code; each combination of content, query shape and limit takes another pair of branches, and tests fix a few",
     ["grovedb/src/operations/proof", "grovedb/src/operations/get"], [("prove_query / prove_subqueries / prove_subqueries_v1", "grovedb/src/operations/proof/generate.rs"), ("verify_query_raw", "grovedb/src/operations/proof/verify.rs"), ("query_raw / PathQuery execution", "grovedb/src/element/query.rs")],
     note="two or three layers, subtree keys concrete and the rest symbolic; path queries whose subquery path leads through a non-tree item are excluded from the comparison (DESIGN.md section 2); RocksDB is replaced by an in-memory stand-in of its API")

prop("C27", "A batch is done whole, as its operations say, or not at all",
     "Applying a batch leaves exactly the contents its operations say, whatever their order and places: trees made in the batch receive its elements, deletions and existence conditions are judged as documented, conflicting operations (same key twice, inserts into or references to what is deleted, overriding what options protect) are refused. A refused batch changes nothing. All sums, counts and hashes up to the root are those of the contents, references bind what they lead to after the batch. In a transaction the changes are seen only there until it commits, and are gone if it is rolled back; pausing a partial batch does not change its outcome.",
     ["inputs", "histories"], "every batch of one or two operations of every sort at every stated place, values symbolic, with every stated option and transaction handling",
     "each pair of operations at each pair of places takes another way through the batch structure; tests run a few fixed batches",
     ["grovedb/src/batch", "grovedb/src/lib.rs"], [("apply_batch / apply_partial_batch / apply_batch_structure / execute_ops_on_path", "grovedb/src/batch/mod.rs"), ("verify_consistency_of_operations", "grovedb/src/batch/mod.rs"), ("BatchStructure::from_ops", "grovedb/src/batch/batch_structure.rs"), ("follow_reference_get_value_hash", "grovedb/src/batch/mod.rs")],
     note="one or two (some three) operations on a fixed small database with symbolic values; RocksDB is replaced by an in-memory stand-in of its API; known finding F6 is reported")

prop("C28", "A storage failure leaves an operation undone and is told, never taken for absence",
     "If the storage fails at any one point of an operation (an insertion, conditional insertion, deletion, clear, upward deletion, batch, append to an append-only tree, auxiliary write), the operation either still does all it says or returns an error and nothing of it is stored: alone, or as part of a transaction that is then committed (the operations documented to need a rollback: rolled back). A failed commit and a rollback leave nothing. A reading operation during which the storage fails gives the right answer or an error, never a wrong one: what could not be read is not taken for absent, and so never overwritten as absent. What is done in a transaction is not seen before it is committed, and the database reopened is the one left.",
     ["inputs", "crash_points", "fault_sequences"], "every point of failure (the number of the storage call that fails is symbolic) of every stated operation, in and outside a transaction, and at commit",
     "tests have no storage that fails; each point of failure takes another error path",
     ["grovedb/src", "merk/src/merk", "storage/src/rocksdb_storage"], [("open_merk / error mapping", "grovedb/src/util/compat.rs"), ("GroveDb operations", "grovedb/src/operations"), ("apply_batch", "grovedb/src/batch/mod.rs"), ("commit_multi_context_batch / TxRef", "storage/src/rocksdb_storage/storage.rs")],
     note="one failing storage call (get, put, delete, batch rebuild, commit, or the movement of an iterator) per operation on a fixed small database; RocksDB is replaced by an in-memory stand-in of its API")

prop("C29", "Append-only trees in the database keep and prove every value, in order",
     "Whatever is appended to an MMR, bulk append, dense or commitment tree in the database, directly, by batches (equal values too) or in transactions, is found unchanged at the position told, and nothing past the last; the tree's element has the count and keeps its flags, the trees above count it, a full tree takes nothing and refuses the whole batch, a rolled back append is gone and an uncommitted one seen only in its transaction. Honest proofs of positions are accepted with the database's root hash and show exactly the values. A deleted tree leaves no record behind, and one made anew in its place is empty.",
     ["inputs", "histories"], "every history of the stated steps with symbolic values, every stated query with symbolic positions",
     "compaction, peaks and buffer positions, and the separate code for direct and batched appends, meet in combinations tests do not run through",
     ["grovedb/src/operations", "grovedb/src/batch"], [("mmr_tree_append / bulk_append / dense_tree_insert", "grovedb/src/operations"), ("preprocess_*_ops", "grovedb/src/operations"), ("generate_*_layer_proof", "grovedb/src/operations/proof/generate.rs")],
     note="up to nine values, chunks of two, dense trees of height two; the commitment tree's Sinsemilla hash is a stand-in; RocksDB is replaced by an in-memory stand-in of its API")

prop("N01", "A committed transaction survives a crash, and a crash leaves all of a batch or nothing",
     "After a crash at any point, reopening the database gives the state after the last committed transaction, whole.",
     ["inputs", "crash_points"], "every crash point during commit, flush and compaction", "tests do not crash inside RocksDB",
     ["storage/src/rocksdb_storage"], [("commit_transaction / commit_multi_context_batch", "storage/src/rocksdb_storage/storage.rs")],
     na="durability and crash atomicity are RocksDB's (C++ with system calls), and the library and its sources are not installed here; what grovedb itself puts into one transaction is decided by C25, C27 and C28 over a stand-in")
prop("N02", "Concurrent transactions are isolated from one another",
     "Transactions that run at the same time in several threads behave as if one ran after the other, or one is refused.",
     ["inputs", "schedules"], "every interleaving of two transactions", "tests run few interleavings",
     ["storage/src/rocksdb_storage"], [("OptimisticTransactionDB", "storage/src/rocksdb_storage/storage.rs")],
     na="isolation is RocksDB's optimistic concurrency control; grovedb has no lock or lock-free algorithm of its own whose schedules could be encoded, and the library is not installed here")
prop("N03", "A commitment tree's Sinsemilla root is the one of its commitments",
     "The anchor of a commitment tree is the Sinsemilla root of the note commitments appended, and witnesses verify against it.",
     ["inputs"], "every sequence of commitments", "tests use a few fixed commitments",
     ["grovedb-commitment-tree"], [("CommitmentFrontier::append / root_hash", "grovedb-commitment-tree/src/commitment_frontier/mod.rs")],
     na="Sinsemilla hashing and the frontier come from the orchard/incrementalmerkletree crates, which are not installed here, and elliptic-curve arithmetic is beyond what an SMT solver decides; the bulk tree below it is C16-C18 and its proofs C22")


def design(C, V):
    import glob
    sys.path.insert(0, f"{V}/driver")
    from bounds import B
    rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(f"{V}/seeded/*/meta.json") + glob.glob(f"{V}/driver/plants/*/meta.json"), key=lambda p: p.split("/")[-2]):
        m = json.load(open(d))
        clean = lambda t: " ".join(str(t).split()).replace("|", "/")
        rows.append(f"| {d.split('/')[-2]} | {m['property']} | {clean(m['what_it_breaks'])} | {clean(m['needs'])} | {m['property']} |")
    out = open(f"{V}/driver/design_head.md").read().replace("@@SEEDED@@", "\n".join(rows))
    for c in C:
        out += f"\n### {c['id']} {c['title']}\n\n{c['statement']}\n\n"
        if c["_na"]:
            out += f"*Not applicable:* {c['_na']}\n"
            continue
        how, bounds, outside = B[c["id"]]
        out += f"* *Holds for:* {c['quantifier']['text']}.\n* *Why tests cannot:* {c['why_tests_cant']}.\n"
        out += f"* *Decided by:* {how}\n* *Bounds:* {bounds}.\n* *Outside:* {outside}.\n"
        out += "* *Anchors:* " + "; ".join(f"`{m['name']}` ({m['where']})" for m in c["anchors"]["mechanism"]) + "\n"
    open(f"{V}/DESIGN.md", "w").write(out)


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for c in C:
            f.write(json.dumps({k: v for k, v in c.items() if k[0] != "_"}) + "\n")
    TECH = "symbolic execution of the compiled LLVM IR of the real code, decided by Z3 (all inputs within bounds)"
    checks = [dict(property=c["id"], quick_cmd=f"python3 check.py {c['id']} --tier quick",
                   thorough_cmd=f"python3 check.py {c['id']} --tier thorough",
                   technique=TECH, level="model_checking",
                   level_note=(c["_note"] or "") + "; counterexamples are replayed on a native build before they are reported; trusts rustc, the engine's IR semantics (cross-checked by native replay of sampled paths) and Z3")
              for c in C if not c["_na"]]
    json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks,
                   not_applicable=[dict(property=c["id"], reason=c["_na"]) for c in C if c["_na"]]),
              open(f"{V}/MANIFEST.json", "w"), indent=1)
    design(C, V)


if __name__ == "__main__":
    main()
