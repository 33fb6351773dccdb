# Rows of spec.py.
AI = "interprocedural abstract interpretation of the compiler's MIR (effects, typestate, value provenance)"
NOTE = ("Covers every path of the type-checked program from the public entry points, with both outcomes of every storage, "
        "cryptographic and callback step, for arbitrary inputs; trusts the models of the standard library and of the "
        "cryptographic crates, and MIR as produced by the installed compiler.")

prop("P01", "Searching never changes the stored index",
     "Whatever the keys, the keywords and the content of the index, a search only reads the two tables: it never inserts, updates or deletes a row, and the read operations of the bundled in-memory backend leave it unchanged.",
     ["inputs", "histories"], "every search, over any stored content, any interruption and any backend failure",
     "The tests compare a few search results; none observes the absence of a write on every path, error paths included.",
     [("search entry point", IX + ":search"), ("graph search", GR + ":get"), ("multi-map read", MM + ":get")], AI, NOTE)
prop("P02", "Adding and deleting only append: no row is overwritten or removed",
     "Adding or deleting associations changes entries only through the conditional update and otherwise only inserts new chain rows: no row of either table is ever deleted or unconditionally replaced by an update.",
     ["inputs", "histories", "fault_sequences"], "every addition and deletion, with any outcome of each storage call",
     "Tests look at the final search results only; a stray delete on a retry or error path is invisible to them.",
     [("update", MM + ":insert"), ("commit loop", MM + ":commit")], AI, NOTE)
prop("P03", "The encrypted tables forward every operation to the backend faithfully",
     "Each operation of an encrypted table performs exactly one backend operation of the same kind with exactly the caller's tokens, old values and new values, and returns exactly the backend's answer.",
     ["inputs", "fault_sequences"], "every call of a table operation, for any tokens, values and backend answers",
     "The in-memory backend used by the tests hides swapped or filtered arguments for the few sampled contents.",
     [("Entry Table", ET + ":DxEnc"), ("Chain Table", CT + ":DxEnc")], AI, NOTE)
prop("P04", "Concurrent updates never lose an entry: every upsert is conditioned",
     "Every update of an entry is conditioned on the very value it was computed from, as last returned by the backend; after a rejection the new value is recomputed from the value returned by the rejection, and an entry absent from the condition is created from a fresh seed.",
     ["schedules", "histories", "inputs"], "every interleaving of writers, any number of rejections of any subset of the entries",
     "Tests run one hundred writers on a single keyword: partial rejections of several keywords and rejection chains are not reached.",
     [("commit loop", MM + ":commit")], AI, NOTE)
prop("P05", "Chain rows are written only after the entries reserving them, and always",
     "An addition or deletion inserts chain rows only once the backend accepted the update of every entry, and reports success only after the chain rows were inserted.",
     ["schedules", "crash_points", "fault_sequences"], "every sequence of accepted and rejected updates, any failing storage call",
     "The order of storage calls is not observable with an in-memory backend which never fails.",
     [("update", MM + ":insert"), ("commit loop", MM + ":commit")], AI, NOTE)
prop("P06", "No failure is swallowed, masked, or turned into a panic",
     "If any storage, cryptographic or callback step of a search, addition, deletion or compaction fails, the operation fails with an error carrying that cause (or that of the failure of its rollback); it neither panics nor performs further writes (the rollback of a compaction excepted).",
     ["fault_sequences", "inputs"], "every single failure of every fallible step, on every path",
     "The in-memory backend practically never fails, so error paths are not run.",
     [("error propagation", MM + ":insert"), ("compaction", MMC + ":complete_compacting"), ("callbacks", GR + ":get")], AI, NOTE)
prop("P07", "Compaction removes old rows only after all new rows are stored",
     "A compaction deletes rows it read only after the replacing chain rows and the replacing entries were all inserted, and it reports success only when old chain rows and old entries were removed too.",
     ["crash_points", "fault_sequences"], "every failure of or crash between the storage calls of a compaction",
     "No test interrupts or fails a compaction half-way.",
     [("compaction", MMC + ":complete_compacting")], AI, NOTE)
prop("P08", "A failed compaction is rolled back and touches nothing it did not write",
     "When inserting the compacted rows fails, exactly the rows which this compaction may have written are deleted and the operation fails; rows which were present before it are never deleted.",
     ["fault_sequences", "schedules", "histories"], "every failing insertion, over any prior content of the tables",
     "No test makes an insertion of a compaction fail.",
     [("rollback", MMC + ":complete_compacting")], AI, NOTE)
prop("P09", "A search returns the data reachable from every requested keyword",
     "A successful search has one entry per requested keyword, holding exactly the data indexed under this keyword or under a keyword reached from it by following pointers. No requested keyword and no reachable node or datum is left out, and nothing of an unrelated keyword is added.",
     ["inputs", "histories"], "every set of keywords and every stored graph, of any shape",
     "Tests search a handful of small graphs; dropped branches of other shapes of graphs, or leaks between keywords, are not sampled.",
     [("search", IX + ":search"), ("walk", IX + ":search"), ("graph search", GR + ":get")], AI, NOTE)
prop("P10", "Cyclic or deep graphs: no node is searched again later, nor walked twice",
     "During a search, pointers found after a round are never followed to a keyword this round or an earlier one fetched (only pointers found within the round may be: no keyword is fetched more than twice). A node is walked at most once per requested keyword, and neither uses a stack depth depending on the stored graph: cycles, shared nodes and long pointer paths are harmless.",
     ["inputs", "histories"], "every stored graph, with cycles, diamonds and paths of any length",
     "Tests build short acyclic paths.",
     [("frontier", GR + ":get"), ("walk", IX + ":search")], AI, NOTE)
prop("P11", "The interruption callback sees each round once and can stop the search",
     "After each round of fetches the caller's callback is given exactly the values fetched by this round, once, before any further fetch; when it answers true no further fetch takes place and the search succeeds with what was fetched.",
     ["inputs", "histories"], "every graph, every answer of the callback at every round",
     "The tests' callback either never stops or stops at a fixed keyword.",
     [("callback", GR + ":get"), ("search", IX + ":search")], AI, NOTE)
prop("P12", "Additions and deletions index every given association as asked",
     "Adding (deleting) associations records, for every given value and every keyword given for it, one addition (deletion) of this value under this keyword: none is dropped, duplicated onto another keyword, or recorded with the other operation.",
     ["inputs"], "every set of associations, data and pointers, of any size",
     "Tests add a few associations with disjoint values.",
     [("add", IX + ":add"), ("delete", IX + ":delete"), ("graph insertion", GR + ":insert")], AI, NOTE)
prop("P13", "Nonces, seeds and keys are drawn whole from a secure random generator",
     "Each encryption draws all the bytes of its nonce from the caller's generator. Each new or compacted chain gets a seed of its own, and user keys and seeds are drawn whole; the generator of an instance is seeded by the system, never with a known value.",
     ["inputs", "schedules", "histories"], "every encryption of every row in every history of operations",
     "A repeated nonce or a predictable seed does not change any result.",
     [("nonce", EDS + ":encrypt"), ("seeds", EDS + ":new"), ("chain seeds", MM + ":commit"), ("instance", IX + ":new")], AI, NOTE)
prop("P14", "Only keyed hashes and ciphertexts reach the backend",
     "Every token sent to the backend is a keyed hash under the token key of its table, and every stored value is the authenticated encryption of the whole value under the other key of this table with its nonce and tag: no plaintext, key or unkeyed hash is stored.",
     ["inputs", "histories"], "every row of every operation",
     "A leaked plaintext byte or a wrong key does not change any result.",
     [("tokens", ET + ":tokenize"), ("values", EDS + ":encrypt"), ("rows", MM + ":insert"), ("compacted rows", MMC + ":complete_compacting")], AI, NOTE)
prop("P15", "Rows are authenticated before use, under the key they were written with",
     "The plaintext of a row is used only after its authentication tag, nonce and whole ciphertext were verified under the key it was encrypted with. A row which fails this verification makes the search, update or compaction fail: it is neither skipped nor partly used.",
     ["inputs", "fault_sequences"], "every row a corrupted or malicious backend may return",
     "Tests never tamper with stored rows.",
     [("decryption", EDS + ":decrypt"), ("entries", MM + ":fetch_entries"), ("chains", MM + ":get"), ("compaction", MMC + ":prepare_compacting")], AI, NOTE)
prop("P16", "Derived keys are pairwise separated and depend on the whole seed",
     "The token key and the value key of each table are derived from the whole seed by a key derivation function, each under a context used for no other key; all keys of an operation come from the whole user key.",
     ["inputs"], "every seed and user key",
     "Keys which are equal, or derived from a part of the seed, do not change any result.",
     [("entry keys", ET + ":derive_keys"), ("chain keys", CT + ":derive_keys"), ("user keys", IX + ":search")], AI, NOTE)
prop("P17", "An entry is found by exactly its keyword, its label and its key",
     "Searching and updating look a keyword up under the same token: a keyed hash, of full length, of the whole keyword and the whole label under a key derived from the given user key. Distinct keywords, labels or keys never share an entry.",
     ["inputs", "histories"], "every keyword, of any length and content, every label and key",
     "Tests use short ASCII keywords and one or two labels.",
     [("search tokens", MM + ":fetch_entries_by_tag"), ("update tokens", MM + ":commit"), ("token function", ET + ":tokenize")], AI, NOTE)
prop("P18", "Updates, searches and compaction walk the same chain of rows",
     "The rows of a keyword are found from its entry alone: the first row from the entry's seed and tag hash, each next row from the previous one, up to and including the recorded last one. Searches and compaction visit all of them, whatever their number, and updates append after the last one.",
     ["inputs", "histories"], "every entry and every length of chain",
     "Chains of the tests have a few rows; the end conditions of long or special chains are not sampled.",
     [("walk", MM + ":unroll"), ("derivation", MM + ":derive_chain_tokens"), ("metadata", MM + ":derive_metadata"), ("compaction", MMC + ":complete_compacting")], AI, NOTE)
prop("P19", "An entry always tells the true end of its chain and keeps its identity",
     "Whenever an entry is rewritten its tag hash is kept, its seed is kept unless its whole chain is rewritten, and it records the last token of the rows written for it. Entries are encoded with one layout, the one they are decoded with.",
     ["inputs", "histories"], "every update and every compaction of every entry",
     "A wrong seed or last token only shows for particular numbers of additions or rewritten entries.",
     [("updates", MM + ":commit"), ("compaction", MMC + ":complete_compacting"), ("encoding", "src/findex_mm/structs.rs:Entry")], AI, NOTE)
prop("P20", "Compaction with the same key and the same label is refused untouched",
     "A compaction whose new key equals the old one and whose new label equals the old one fails without writing or deleting anything. A compaction where either changes, in any byte, is never refused for that reason, and none succeeds without having looked at the index.",
     ["inputs", "histories"], "every pair of keys, labels and every stored index",
     "The tests try one pair of equal keys and labels at most; the index they would destroy silently (the rows just written are the old ones) needs both to be equal, and a partial comparison needs chosen keys.",
     [("guard of the compaction", IX + ":compact")], AI, NOTE)
prop("P32", "Compaction drops exactly the data the filter rejects, never pointers",
     "The caller's filter is given exactly the data indexed by the entries compacted together. A value of a compacted entry is dropped if and only if it is a datum which the filter did not return: pointers and returned data are all kept, recorded as additions under the same entry.",
     ["inputs", "histories"], "every index content, every filter answer (empty, unrelated or partial), every selection of entries",
     "Tests use one filter on a small index; dropping a pointer or a datum of a particular shape needs graphs and answers which they do not sample.",
     [("filter", IX + ":compact_batch"), ("graph layer", GRC + ":prepare_compact"), ("new chains", MMC + ":complete_compacting")], AI, NOTE)
prop("P33", "Compaction rewrites every entry, dropping only those left empty",
     "A successful compaction processes every entry listed by the backend, in batches which cover the whole list. Each entry is rewritten under the new key and label and its old row removed; an entry is dropped if and only if it was selected for compaction and no value remains for it, and the chains of entries not selected are left as they are.",
     ["inputs", "histories"], "every number of entries, every selection, every compaction rate",
     "The batch size is one million entries: no test reaches a second batch; the selection is random and tests observe only a few draws.",
     [("batches", IX + ":compact"), ("preparation", MMC + ":prepare_compacting"), ("completion", MMC + ":complete_compacting")], AI, NOTE)
prop("P23", "What is written in a block of a row is exactly what is read from it",
     "Whatever the position, the length and the content of a block, reading it back from the row gives exactly its data and its terminating flag, and the operation of each block is the one which was set; writing a block or an operation changes nothing of what is read for another one.",
     ["inputs"], "every position, length and flag of a block, any content of the row; every combination of operations",
     "Rows of the tests hold a few short values; the ranges of the bytes and bits of each position of a row are not sampled for interference.",
     [("block writing", "src/findex_mm/structs.rs:set_block"), ("block reading", "src/findex_mm/structs.rs:get_block"), ("operations", "src/findex_mm/structs.rs:set_operation")],
     "composition of the abstract transformers of writers and readers (abstract interpretation of MIR)", NOTE)
prop("P34", "Values are cut into blocks and rebuilt without loss and in order",
     "Each modification is written as consecutive blocks covering its whole value, each with its operation, the last one and only it terminating, and every block written is in a stored row. Reading walks all blocks of all rows in order and adds (removes) exactly the values made of the blocks up to a terminating one; a value whose blocks disagree on the operation is refused.",
     ["inputs", "histories"], "every sequence of modifications, values of any length, any number of rows",
     "Tests index values shorter than a couple of blocks; lengths which are multiples of the block, rows filled exactly, and values across rows are barely sampled.",
     [("writing", MM + ":decompose"), ("reading", MM + ":recompose")], AI, NOTE)
prop("P22", "Encodings lose nothing: what is decoded is exactly what was encoded",
     "Encrypting and decrypting a row, encoding and decoding an indexed value, converting keys, labels, keywords, data and tokens from and to bytes, and dumping and reloading the in-memory backend give back the same bytes, whatever they are; malformed encodings are refused by an error. The announced size of a dump is the size of what is written.",
     ["inputs"], "every content of a row, value, label, keyword or token; any number of rows",
     "Round trips of the tests use a few values and one table; lost bytes, swapped fields, truncated numbers and accepted malformed lengths need specific contents.",
     [("rows", EDS + ":try_from"), ("indexed values", "src/findex_graph/structs.rs:try_from"), ("dumps", EDX + ":read")],
     "composition of the abstract transformers of encoders and decoders (abstract interpretation of MIR)", NOTE)
prop("P25", "The in-memory backend's conditional update is atomic and exact",
     "Each new value is stored if and only if what is stored for its token equals the expected old value (or both are absent); otherwise it is not stored, and the stored value is reported. If an expected row is missing the call fails and changes nothing. All of it happens under one lock.",
     ["inputs", "schedules"], "every table, old and new values, every interleaving of other writers",
     "Tests only race whole operations a few times: a comparison of a part of the value, a check under another lock, or a partial failure need specific rows or schedules.",
     [("upsert", EDX + ":upsert")], AI, NOTE)
prop("P26", "The in-memory backend inserts all or nothing, deletes, fetches and dumps exactly",
     "An insertion stores all the given rows, or fails and stores none when one of the tokens is used, and never replaces a row. A deletion removes exactly the given tokens. A fetch returns exactly the stored rows of the given tokens, and a dump all the stored tokens.",
     ["inputs", "histories"], "every table and every set of tokens and rows",
     "Tests never insert a used token along free ones nor delete missing rows, and use small tables.",
     [("insert", EDX + ":insert"), ("delete", EDX + ":delete"), ("fetch", EDX + ":fetch"), ("dump", EDX + ":dump_tokens")], AI, NOTE)
prop("P21", "Ambiguous rows are refused: updates and compaction never merge two entries",
     "If the backend returns two entries for the same token, an addition or a deletion fails before writing anything, and a compaction fails when it gets two entries or two chain rows with the same token, or when two entries would be compacted into the same new one. None of the duplicates is silently dropped.",
     ["inputs", "faults"], "every list of rows returned by the backend, every pair of keys and labels of a compaction",
     "The backend of the tests never returns two rows with a token, and tests never compact a base twice under one key.",
     [("update", MM + ":commit"), ("compaction, reading", MMC + ":prepare_compacting"), ("compaction, writing", MMC + ":complete_compacting")], AI, NOTE)
prop("P30", "Updates report exactly the keywords whose entry they created",
     "The set returned by an addition or a deletion holds exactly the keywords whose entry was absent when the update processed it and was then accepted by the backend: "
     "not a keyword which had an entry or whose creation was rejected because another writer created it first, and none of the created ones is left out, in whatever round it was accepted.",
     ["schedules", "histories", "inputs"], "every interleaving of writers, any number of rejected rounds, any subset of new keywords",
     "The tests check the returned set for a single writer, whose upserts are never rejected.",
     [("commit loop", MM + ":commit"), ("graph layer", GR + ":insert"), ("index layer", IX + ":add")], AI, NOTE)
prop("P24", "Corrupted data and unexpected rows are errors, never panics",
     "Whatever bytes are given to the decoders (rows, tokens, indexed values, dumps of the in-memory backend) and whatever rows the backend returns, decoding, searching, updating and compacting end with a value or an error: no index, slice, copy, subtraction or unwrap which depends on them can panic. Memory is never allocated for a number of items announced by unverified data.",
     ["inputs", "faults"], "every byte sequence, every set of rows returned by the backend (missing, unexpected, repeated)",
     "Tests decode only what was encoded, and their backend always returns the rows it was asked for.",
     [("rows", EDS + ":try_from"), ("dumps", EDX + ":read"), ("indexed values", "src/findex_graph/structs.rs:try_from"), ("chains", MM + ":get")],
     "interval and linear-inequality proof of every bounds, length and unwrap obligation on the interpreted MIR", NOTE)
prop("P28", "Keys and seeds are wiped from memory when they are released",
     "Every value of a type holding a key or a seed wipes the whole of it when it is dropped, whatever its content, or is only made of types which do. No operation forgets or leaks such a value, nor copies its bytes to a buffer which is not wiped, but to encode an entry.",
     ["inputs", "histories"], "every key and seed, every path on which they are released",
     "What is left in released memory cannot be observed by a test.",
     [("seeds", EDS + ":drop"), ("keys", EDS + ":EdxKey"), ("operations", IX + ":search")],
     "type queries and byte-provenance analysis on the MIR; abstract interpretation of the drop functions", NOTE)
prop("P29", "Keys and seeds never appear in logs, messages or errors",
     "No operation formats, traces or logs a user key, a seed, a derived key, a decrypted entry or bytes taken from one of them, and no error is built from them, at any log level.",
     ["inputs", "faults"], "every operation, log level, key and failure",
     "Tests run without a subscriber: nothing is formatted; a leaked key changes no result.",
     [("index operations", IX + ":search"), ("compaction errors", MMC + ":complete_compacting"), ("updates", MM + ":commit")],
     "type queries and interprocedural byte-provenance (taint) analysis on the MIR", NOTE)
prop("P27", "No operation deadlocks on the locks it takes",
     "No operation takes a lock (random generator, in-memory table) it already holds, holds one while it awaits the backend or a callback of the caller, or takes two of them in opposite orders; every lock taken is released when the operation ends, on success and on failure.",
     ["schedules", "faults"], "every path of every operation, every interleaving of tasks",
     "The tests run each operation to completion on an executor whose backend never suspends: a lock held across an await shows only under a particular interleaving.",
     [("updates", MM + ":commit"), ("compaction", MMC + ":complete_compacting"), ("selection", IX + ":select_random_tokens"), ("in-memory table", EDX + ":upsert")],
     "lock-order and lock-held-across-await analysis (typestate of guards) on the interpreted MIR", NOTE)
prop("P36", "The lines to compact are drawn in the whole table, as many as the rate asks",
     "A compaction draws the lines to compact one by one, each draw being spread over all the listed lines, for as many draws as the compacting rate times the number needed to see them all (n (log2 n + 0.5772) + 0.5 for n lines); when there are as many draws as lines, all are selected. No drawn line is left out, so every line ends up compacted.",
     ["inputs", "histories"], "every number of lines, every compacting rate, every value drawn",
     "Tests compact tiny tables a few times: a line which is never drawn, or drawn too rarely, changes none of their results.",
     [("draws", IX + ":select_random_tokens"), ("number of draws", IX + ":get_compact_line_number"), ("use", IX + ":compact")],
     "abstract interpretation of MIR: provenance of the index of each draw, and the extracted closed form of the number of draws", NOTE)

# ---- Properties this family does not decide (not_applicable) ----
na("P37", "After any history, a search returns what the sequence of operations implies",
   "After any sequence of additions, deletions and compactions, sequential or concurrent, a search of a keyword returns exactly the data whose last modification under it (or under a keyword it reaches) was an addition.",
   ["histories", "schedules"], "every finite history of operations, on any conforming backend",
   "The tests replay a few histories of a few keywords; the property is about all of them.",
   [("update", MM + ":insert"), ("search", MM + ":get"), ("compaction", MMC + ":compact")],
   "It relates the content of the tables after unboundedly many operations to the multi-set of modifications asked: this is a functional proof by induction on "
   "histories over the contents of ciphertexts, not a property of the paths of the program. The inductive step is decided piecewise "
   "(P02-P05, P09, P12, P15, P17-P19, P22, P23, P32-P34), but the induction itself, and the conformity of backends other than the bundled one, are not.")
na("P38", "A compaction run concurrently with updates or searches loses nothing",
   "Whatever the interleaving of a compaction with additions, deletions and searches made by other clients, no association is lost and no search returns a partial result.",
   ["schedules"], "every interleaving of the storage calls of several clients, one of them compacting",
   "The tests run concurrent additions only.",
   [("compaction", MMC + ":complete_compacting"), ("update", MM + ":commit")],
   "It does not follow from the code of one client: between the fetch and the deletion of an entry by a compaction, an addition under the old key may be accepted, "
   "and whether this is allowed is a contract between clients (rotate keys first) which no source construct expresses. The per-client obligations "
   "which make interleavings safe - conditional updates, insertion before deletion, rollback limited to one's own rows - are P02-P05, P07, P08.")
na("P39", "The backend learns nothing from tokens and ciphertexts but access patterns",
   "A backend observing every token, stored row and request cannot distinguish two histories with the same access pattern better than by breaking the primitives.",
   ["inputs", "histories"], "every pair of histories with the same access pattern",
   "No finite test shows indistinguishability.",
   [("tokens", EDS + ":Token"), ("row encryption", EDS + ":EncryptedValue")],
   "A computational statement about distributions, proved by reduction to the primitives, not decided by analysing paths. Its syntactic preconditions "
   "are decided: keyed hashes and ciphertexts only (P14), whole fresh nonces and seeds (P13), separated keys (P16), no key in logs (P29).")
na("P40", "Repeated compactions reach every line with the announced probability",
   "With the announced rate, each entry is compacted at least once by the announced number of compactions but for a negligible probability.",
   ["histories"], "every sequence of random draws and every size of the Entry Table",
   "A statistical property of the sampling: tests run a few draws.",
   [("sampling", GRC + ":compact")],
   "A probability over the random draws (a coupon-collector bound), not a set of paths. What the code must do for it - as many draws as the rate asks, each one over the whole list, "
   "drawn lines never forgotten - is decided by P36 and P33.")
na("P41", "Every operation ends: retries and graph walks make progress",
   "On a backend which answers, every search, addition, deletion and compaction returns after finitely many calls, and of several clients updating the same entry at least one progresses at each round.",
   ["schedules", "histories"], "every schedule of the clients and every content of the index",
   "A test which does not end cannot be told from a slow one, and only a few schedules run.",
   [("retry loop", MM + ":commit"), ("graph walk", GR + ":get"), ("draws", GRC + ":compact")],
   "The retry loop of an update has no bound of its own: whether it ends depends on the schedule of the other clients, and the drawing of distinct lines ends with probability one only. A ranking "
   "function exists for the walk of the graph alone (P10: no fetched keyword is searched again by a later round), over the finite but unbounded set of stored keywords.")
