"""per property: (how it is decided, against what; bounds; what lies outside them)"""
B = {
"C01": ("Two items of every pair of kinds over symbolic keys. The oracle is the set of keys the bounds describe (a lower and an upper end, each open, closed or absent), written without looking at the code: membership, bounds, direction tests, order, intersection parts, merges, and split of item lists are compared with it at a symbolic key. Store walks run the real `QueryItem` iterator functions over the crate's own `RawIterator` trait, implemented by a sorted symbolic list with neighbouring subtrees' records.",
        "item bounds and probed keys of 0 to 2 bytes (all values); lists of up to 2 by 2 items; stores of up to 3 keys; both directions; all 10 kinds (all 100 pairs)",
        "longer keys (comparison is lexicographic, so no new relation arises), longer lists, RocksDB's own iterator"),
"C02": ("Items are inserted / conditional branches are added / branches and queries are merged by the real code; a symbolic key is then routed through the result and through the inputs by an independent routing function (first matching conditional, else default; subquery path, then subquery) and both must select the same marker.",
        "sequences of 3 inserted items; 2 conditional items before a third is added; branches of total depth up to 3; pairs of queries with up to 1 item and 1 conditional each (quick: 76 shapes of 400, thorough: all)",
        "more items or deeper branches at once; equal items inserted twice are covered, more than three overlapping are not"),
"C03": ("Round trip and byte-exact comparison with the documented layout for constructed queries (owned and borrowing decoders); arbitrary byte suffixes after each kind of start for totality; counting allocator hook for memory; nesting and announced sizes around the limits.",
        "queries of 0-2 items of every kind, default branch shapes, 0-3 conditional branches, symbolic contents; byte strings of up to 8 (thorough 11) free bytes from 7 starting states; nesting 0..limit+1",
        "longer hostile strings; encodings the encoder accepts but the decoder's limits refuse (more than 1024 conditionals, 65536 items) are documented limits"),
"C04": ("Every operator with symbolic contents against a reference encoder written from the table of opcodes; then arbitrary bytes after every opcode; pairs of operators for the stream cut.",
        "50 opcodes with bodies of 1, 3, 6, 45 (75 for four of them) free bytes; keys up to 2, values up to 3 bytes and the 65535/65536 switch; pairs: 30 of 784 (thorough all)",
        "values between 4 bytes and 64 KiB are represented by the switch lengths only"),
"C05": ("Every element kind with all numeric values and short payloads against an independent writer of the stored layout; arbitrary bytes behind each discriminant; derived values against a table.",
        "payloads, flags and keys up to 2 bytes; references of up to 2 segments; decoder inputs of 0-6 bytes after each of the 15 discriminants (thorough 0-11) and 10 bytes for three of them",
        "longer payloads; nesting of NonCounted-like wrappers beyond what the version has"),
"C06": ("All seven reference kinds resolved from a qualified path by the real code and compared with the documented target; inverses followed from the target.",
        "path depth 0-3, one-byte segments, all 256 values of height/offset, keys of one byte",
        "following chains of references through a database (needs storage)"),
"C07": ("Histories of pushes, pops, derive_owned, derive_parent, clones and conversions over builders from each base representation, compared with a list of segments after each step, including Hash and Ord.",
        "3 (thorough 4) operations, segments of 0-2 bytes, 9 bases",
        "segments of 65536 bytes (the u16-ish length limits of CompactBytes), more operations"),
"C08": ("Sums of removals, storage costs and operation costs against sums of integers per owner and epoch; cost formulas against independently written lengths; context combinators with costs as symbolic counters.",
        "2 owners by 2 epochs; amounts of 24-30 bits (no counter overflow) and, for saturating counters, all values",
        "more owners or epochs (the maps are treated per key)"),
"C09": ("Codec against the documented layout; split, combine and update against per-epoch byte counts; hostile bytes.",
        "up to 2 extra epochs (3 in the codec), owners of 32 symbolic bytes, all strategies, amounts below 2^24; flag strings up to 12 bytes",
        "more epochs; flags that are not canonical (constructed by hand) are only checked for totality"),
"C10": ("Position arithmetic for a symbolic index of n bits against the recursive definition; pushes interleaved with commit/reopen/hand-over chosen symbolically, nodes and roots against an independently computed tree.",
        "indices of 0-10, 14, 20, 32, 48, 62 bits (thorough 0-47 bits each); 6 (thorough 10) pushes; node bytes 0-39",
        "trees with more leaves (the arithmetic part is covered up to 2^62 by the position entries)"),
"C11": ("For every tree size and subset (chosen symbolically) the real generator and verifier.",
        "1-6 leaves in every request order, 7 and 8 ascending (thorough 1-10); appended leaves 1-3 (4)", "larger trees"),
"C12": ("The prover is the attacker: claimed leaf indices, values and every proof item are free; the root is the real one of a tree with symbolic values. Accepted implies true.",
        "trees of 1-8 (10) leaves, 1-3 claimed leaves, 0-5 proof items; sizes and indices over all 64 bits for totality; decoder inputs up to 10 bytes",
        "more claimed leaves or items; hash collisions (see assumptions)"),
"C13": ("Histories over an in-memory storage behind the crate's own StorageContext trait, with the k-th storage operation failing (k symbolic); every value and the root against the definition after every step.",
        "heights 1-3 (4), 4 (6) steps, one fault", "larger trees, several faults in one history, RocksDB itself"),
"C14": ("Subset or query chosen symbolically; real generator, codec and verifier.",
        "heights 1-3 (4), every fill up to the capacity; two query items with bounds small or of any 16 bits", "height above 4"),
"C15": ("Attacker-chosen entries, value hashes and node hashes (positions and contents free) against the true root.",
        "counts 1-4 (7) in height 3, up to 2 (3) entries, 2 value hashes, 2 (3) hashes; any height and count for totality; decoder inputs up to 10 bytes", "bigger proofs"),
"C16": ("Histories of appends, commits, reopenings and a failing storage operation (symbolic index) compared with the list of appended values, its chunk blobs, MMR and dense roots.",
        "heights 1 and 2, 2-5 (6) steps from 0-9 earlier values, one fault", "larger epochs; several faults"),
"C17": ("Completeness with symbolic query bounds; soundness with attacker-chosen chunk leaves, MMR items, entries, value hashes and hashes; totality with any height, count and query.",
        "heights 1 and 2, 0-8 values; 1-2 query items; attacks of up to 2 chunks, 2 items, 1 entry, 1 value hash", "chunk blobs given by the attacker are real blobs of symbolic values or arbitrary up to the blob's length"),
"C18": ("Reference packer and arbitrary bytes.", "4 values of up to 3 bytes; blobs of 0-15 and 21 bytes", "long blobs"),
"C19": ("The attacker chooses the sequence of operators (which are attached, symbolically), the kind of each node and all contents; the reference tree (1-4 nodes, symbolic content) is hashed by an independent writer. `Query::execute_proof` accepted under the true root implies results are exactly the selection.",
        "up to 3 (thorough 4) pushes with every attach arrangement; 1-byte keys, 2-byte values; 1-2 query items of every kind; both directions; limit none or 0-3; plain and provable count trees; versions 0 and 1",
        "longer proofs, longer keys; a value in a KVValueHash node of a non-item element is bound only by the layer above (C21)"),
"C20": ("Attacker-chosen chunks (each node kind, contents symbolic) and elements over them under the true root; and honest chunks from an independent prover for every minimum and maximum depth, followed by every branch, which must rebuild the tree; depth arithmetic for every 64-bit count against the recurrence for the sparsest AVL tree.",
        "attacked chunks of up to 3 nodes; honest trees of up to 20 nodes; depths up to 92; counts of 64 bits",
        "honest trunk chunks that contain references are refused by the verifier (not claimed otherwise); counts of leaves of count trees that are not provable are not authenticated"),
"C21": ("The database (two to three merk layers, symbolic content, subtree of every kind under one key) is hashed by an independent writer; the attacker writes every layer (operators, node kinds, elements, keys, hashes) and chooses the version and prove options; whatever verify_query, verify_query_raw, subset, absence, succinctness, parent tree info and the GroveDBProof methods say must be the reference evaluation of the path query.",
        "root layer of 1-2 nodes, lower layers of up to 2 nodes, 3 layers; 13 query shapes (keys, ranges, subqueries, subquery paths, conditional, limits); 11 attack elements, all node kinds",
        "more nodes per layer (covered one layer at a time by C19); the prover (does not compile without RocksDB); a V0 proof where V1 is expected is accepted as V0 (downgrade), prove_options travel inside a V0 proof and are the prover's choice"),
"C22": ("As C21 with an MMR, bulk append, dense or commitment tree under the key: the attacker writes the element, the inner proof and its counts.",
        "trees of 0-4 values; up to 3 entries/items; every query item kind; symbolic limit",
        "results come in ascending order also for right-to-left queries (documented by the code); a position beyond the count is not proven absent in an MMR"),
"C23": ("Free bytes at every place of the encoding, and nestings at the limits; allocation tracked by a counting hook.",
        "runs of up to 8 free bytes in 19 (thorough 22) places; nesting 0, 1, 127-129, fan-out 0-2", "long hostile proofs; the decode limit bounds allocation for them"),
"C24": ("An independent evaluator of path queries (first conditional that has the key, else the default; path segments, then subquery; parent trees) against query_items_at_path at every path and key, has_subquery..., terminal_keys, and the result of merging path queries with and without common path prefixes; limits and offsets of merges.",
        "queries two layers deep with 8 default-branch shapes, 5 sets of conditionals, 8 by 8 branch shapes, second-layer defaults and conditionals (about 140 of the shapes quick, 900 thorough, fixed choice), paths of up to 2 segments, keys of 1 byte; merges of 2 and 3 path queries with 12 path relations",
        "other shapes; after a merge, a conditional branch whose key is not selected by the query's own items may select keys another query selects (documented)"),
"C25": ("The whole database (grovedb, merk, storage crates with all features the prover needs, over an in-memory stand-in of the rocksdb API) executed symbolically: operations with symbolic keys and values run on the real code and on a model (ordered maps with aggregates); then the contents read by query_raw are compared with the model, and every stored record is walked independently of the code under test: order, AVL balance, value/node/root hashes, child links and heights, feature types and aggregates, and the number of records.",
        "trees of the kinds normal, sum, big sum, count, count-sum, provable count, provable count-sum; 0-4 entries before; 1 operation of each of 14 sorts, and every pair of sorts with each pair on one kind (thorough every kind, and some triples); one-byte keys, symbolic item bytes and sums (overflowing sums by fixed amounts)",
        "append-only trees with entries; longer histories; RocksDB itself (the stand-in keeps an ordered map per column family); symbolic 128-bit sums (fixed amounts there)"),
"C26": ("The database as in C25; its content is made by real inserts, then prove_query (version 0 or 1) runs on it, verify_query_raw on the proof, and query_raw on the database, all symbolically; compared are acceptance, the root hash, and the lists of results.",
        "28 query shapes (single keys, ranges of every kind, subqueries, subquery paths, conditional branches, add-parent, references, absent keys, both directions), 7 contents of three subtrees and an outer reference tree in each of the 7 kinds of tree in turn, limits 0-3, versions 0 and 1 in turn (784 of the combinations); keys of subtrees concrete, item keys' bounds and values symbolic",
        "append-only trees (their provers are C11, C15, C18 and their verifiers C22); offsets; inverted ranges; hex rendering in error messages"),
"C27": ("apply_batch and apply_partial_batch run symbolically on the database of C25 and their meaning on the model: conflicts, deletions deepest first, insertions from the top; then contents, every stored record and (for references) the bound value hash are compared, in the transaction, outside it, and after commit or rollback.",
        "1 or 2 operations of 15 sorts (insert or replace of items, trees, references; insert if not exists, refusing or skipping; delete; delete tree refusing, deleting children or skipping; replace; insert only), some triples, at each of 15 places (absent, item, tree with and without entries, below each, the root tree, a tree made in the batch), in 7 kinds of tree; with and without a transaction, committed or rolled back, paused at height 1 or 2; symbolic values and sums",
        "append-only operations (their trees are C10-C18), add-on operations of partial batches, disabled consistency checks, flag update callbacks, overriding of trees where it is allowed, estimated costs; known finding F6 is reported"),
"C28": ("A writing operation is run once without a fault to learn what it leaves; then the number of the storage call that fails is a symbolic byte of the stand-in, and the operation runs symbolically on a fresh copy of the database: all stored records (every column family) must be those of before, or those of the run without a fault, as its result says. Then the database is reopened, compared and verified by verify_grovedb. Reading operations must give the answer of the run without a fault, or an error. Separately, the number of the iterator movement that fails is symbolic (the iterator is then no longer valid and its status says why, as RocksDB documents).",
        "26 writing operations (insert of items, trees, references; conditional insertions of what is there and what is not; deletions; clear; upward deletion; three batches, one partial; appends to MMR, bulk and dense trees, directly and by batch; auxiliary data) and 18 reading ones (get, through a reference, optional, has, emptiness, root hash, queries with and without subqueries, tolerant of absent trees or not, sums, auxiliary, append-only values); alone, in a transaction, as second operation of a transaction, with failing commit, rolled back; every failing call; 7 kinds of parent tree in turn",
        "more than one failing call; iterators failing inside a transaction; torn writes inside RocksDB; keys and values are concrete, the point of failure is the variable"),
"C29": ("Appends run symbolically through the database's operations, and the list of values appended is the oracle: positions, counts and elements are read back, verify_grovedb asked, and prove_query / verify_query run for symbolic positions, inside and outside transactions; after a deletion the stored records of the tree's prefix must be none.",
        "four kinds of append-only tree in seven kinds of tree (in turn), with and without flags; 0, 1, 3 or 4 values before and one or two steps (direct append, batch of one or two values and an item, in a transaction committed or rolled back, deletion and making anew, making and filling in one batch); 4 query shapes with limits none and 1",
        "more values; higher chunk powers and dense heights; direct commitment insertions with typed ciphertexts; the Sinsemilla hash (a stand-in)"),
}
