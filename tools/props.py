T = "trie/"
LVL = "Sampled executions of the real code; says nothing about inputs, histories or schedules outside the generated ones. Trusts the reference model in the harness and the Go runtime."
RACE = "Sampled schedules under the Go race detector with seeded yields and delays; a race or reordering that no sampled schedule exposes is missed. Trusts the race detector, porcupine and the reference models."

prop("T01", "Trie behaves as a map over every history of operations",
 "A state trie answers Get, Put, PutValue, Delete, Count, IsEmpty and iteration exactly as a byte-string-keyed map would after the same sequence of operations, for any keys (including empty keys and keys that are prefixes of one another) and non-nil values, whatever mixture of commits, reloads from its root hash, collapses and batch puts is interleaved (Count is promised for tries built from empty or cloned, not for ones reopened from a root hash). Delete reports whether the key was there and its old value.",
 ["inputs","histories"], "Every finite sequence of trie operations over every set of keys and non-nil values, with commit/reload/collapse at any point.",
 "The unit tests insert a few fixed-length random keys; prefix keys, structural merges after deletes on reloaded (collapsed) subtrees and mixtures with commit are never compared with a model.",
 [T+"trie.go", T+"node.go", T+"utils.go"], [("insert/delete/get recursion over prefix-compressed 16-way nodes", T+"trie.go"),("node expand/collapse and child merge", T+"node.go")],
 "model-based runtime monitoring: every operation's result compared with a map oracle", LVL)

prop("T02", "Trie iterators visit every entry exactly once, in key order",
 "Forward iteration over a trie yields every stored entry exactly once in ascending key order and reverse iteration yields the same entries in descending order, each with its own value, for tries in memory, partially committed or fully reloaded from storage; before the first step and after the end an iterator shows nothing.",
 ["inputs","histories"], "Every trie content (empty keys, keys that prefix others) in every residency state.",
 "Tests iterate over a handful of fixed-length keys that all sit at leaves, so branch values and partially collapsed tries are not visited.",
 [T+"iterator.go", T+"trie.go"], [("value iterator and reversed value iterator", T+"iterator.go")],
 "runtime trace checker: recorded iteration sequence against a sorted-map oracle", LVL)

prop("T03", "Trie root hash is canonical: equal content iff equal root",
 "The root hash of a trie is a function of the set of key/value pairs it holds: any history of puts, overwrites, deletes, commits, collapses and reloads leading to the same content gives the same root, and contents differing in any key or value give different roots. An emptied trie has the root of a new one.",
 ["inputs","histories"], "Every pair of operation histories, with equal or differing final contents.",
 "Tests compare a few insertion orders; they do not compare histories with deletes, merges, collapses and reloads against a freshly built trie, nor near-miss contents.",
 [T+"trie.go", T+"node.go", "hash.go"], [("node header and merkle hash of children and value", T+"node.go"),("mergeTheLastChild on delete", T+"trie.go")],
 "metamorphic runtime monitor: many histories per content, roots compared across histories and contents", LVL)

prop("T04", "A successful trie commit is durable and complete; failures are reported",
 "When Commit returns without error, a new trie opened at the reported root over the same storage holds exactly the committed content, and earlier committed roots stay readable unchanged. When any storage write fails during a commit, Commit returns an error, and the trie in memory still serves its full content and can be committed again successfully once the fault is gone. At every point of a commit the storage holds a root with everything under it or not at all, so a crash loses nothing committed; and storage that for a while does not deliver a record, or delivers a damaged one, makes lookups report absence and puts report refusal without lasting effect; a value that cannot be encoded or hashed makes hash and commit fail until it is gone, and leaves nothing behind.",
 ["histories","fault_sequences"], "Every history of batches and commits, and every single position of a failing storage write within a commit.",
 "No test injects a storage failure, and durability of old roots after later commits is not examined.",
 [T+"trie.go", T+"node.go", "db/adapters.go"], [("Trie.Commit / iterateSave", T+"trie.go"),("node Save through data adapters", T+"node.go")],
 "fault injection at every storage write, with a durability oracle over reopened tries", LVL)

prop("T05", "Trie clones, inherited and rebased tries are isolated from the original",
 "A trie obtained by Clone, Inherit or Rebase has the content of the original at that moment (and the same count for Clone and Rebase), and later puts, deletes and commits on either one never change what the other returns, its root or its iteration.",
 ["histories"], "Every interleaving of operations on an original and any number of copies.",
 "Tests clone once and check little; structural sharing of nodes under later deletes and commits is not explored.",
 [T+"trie.go", T+"node.go"], [("Clone/Inherit/Rebase share node pointers by storage", T+"trie.go")],
 "model-based runtime monitoring of several live copies, each with its own map oracle", LVL)

prop("T06", "Trie value proofs are complete and sound",
 "For every stored key the trie produces a proof that verifies against the current root for that key's value, and no value proof - genuine, reused for another value, or mutated anywhere - verifies against that root for a hash other than the one stored under the proven key. Proofs survive serialization and cloning unchanged.",
 ["inputs","histories"], "Every trie content, every key, and every mutation of a genuine proof chain.",
 "Tests verify genuine proofs of a few keys; soundness quantifies over forged proofs and over shapes with branch values.",
 [T+"proof.go", T+"node.go", "hash.go"], [("GetProof / ProofChain.Proof", T+"proof.go"),("node header to key binding", T+"node.go")],
 "runtime oracle over generated and adversarially mutated proofs", LVL)

prop("T07", "Trie existence proofs prove presence for stored keys and absence for others",
 "GetExistenceProof for a stored key yields a proof that verifies against the root and reports presence, and for any other non-empty key one that verifies against the root and reports absence. No proof taken from the trie, nor a mutated one that still verifies against the root, reports presence for an absent key or absence for a stored key. A storage failure is reported as an error, never as absence.",
 ["inputs","histories"], "Every trie content, every stored and unstored key (prefixes, extensions and near misses of stored keys included), and mutated proofs.",
 "Tests cover random unrelated absent keys; keys that end inside an edge, at a valueless branch or extend a leaf are the hard cases.",
 [T+"proof.go", T+"trie.go"], [("GetExistenceProof / IsExist / ExistenceHash", T+"proof.go")],
 "runtime oracle over generated keys and mutated proofs", LVL)

prop("T08", "Merkle roots, merkle proofs and their encodings agree",
 "For every list of leaf hashes and every index, the proof produced while computing the merkle root recomputes exactly that root, the complete, packed and history variants agree with an independent definition of the tree, and changing the leaf, its position or the proof changes the result. Merkle proofs decode from their encoding to the same proof however the reader splits its data, and a writer that fails is reported.",
 ["inputs"], "Every list length, index and leaf content; every chunking of the reader.",
 "Tests use a few lengths and indices and always decode from an in-memory buffer.",
 ["hash.go", T+"proof.go"], [("MerkleHash*, MerkleProofs", "hash.go")],
 "differential runtime monitor against an independent merkle implementation", LVL)

prop("T09", "History tree is an append-only indexed log with a content-determined root",
 "A history tree accepts appends only at the next expected height, afterwards returns exactly the hash stored at each height and absence elsewhere, and its root depends only on the appended sequence, not on the interleaving with commits, collapses, reloads, clones or restores. Reopening a committed tree continues exactly where it stopped, and a transient storage failure is reported as an error or absence and leaves the tree unchanged. Collapsing before a stored height of a committed tree succeeds. A commit that dies half way leaves the new root in the storage completely or not at all.",
 ["histories","inputs"], "Every append history with commit, reload and collapse at any point, from any first height.",
 "Tests append a consecutive run and check a few heights and roots; out-of-order appends and reloads at every shape of the right spine are not explored.",
 [T+"historytree.go"], [("HistoryTree.Append / Get / HashValue", T+"historytree.go")],
 "model-based runtime monitoring against an array oracle and an independent root computation", LVL)

prop("T10", "History tree proofs bind a height to its hash under the root",
 "For every stored height the tree gives a proof that recomputes the root from the stored hash and encodes that same height, and a proof never verifies for a different hash or claims a different height. Restoring or merging a tree from proofs keeps the root and lets appends continue identically; storage that fails meanwhile gives an error, never a wrong proof or a changed tree.",
 ["inputs","histories"], "Every tree size, stored height, wrong hash, wrong height and mutated proof.",
 "Tests check genuine proofs of a few heights.",
 [T+"historytree.go", T+"proof.go"], [("HistoryTree.GetProof / MergeProof / RestoreTreeFromProofs", T+"historytree.go")],
 "runtime oracle over genuine and forged history proofs", LVL)

prop("T11", "Chopping a history tree restores the tree of that height",
 "Chopping a history tree at any stored height gives a tree equal to the one that existed right after that height was appended: same root, same entries, same next expected height, verifying proofs. The original tree is unaffected, and both continue (append, commit, reopen, chop again) independently. A storage failure is reported and leaves the original as it was.",
 ["inputs","histories"], "Every tree size and chop position, chop repeated any number of times, with appends in between.",
 "Tests chop specific shapes; the property must hold for every (size, position) pair and repeated chops.",
 [T+"historytree.go"], [("HistoryTree.Chop", T+"historytree.go")],
 "model-based runtime monitoring over enumerated sizes and positions", LVL)

prop("T12", "Revertable tries roll back exactly to their checkpoints",
 "For a revertable trie or history tree, reverting to a checkpoint restores exactly the content and root that existed when it was taken, discards everything after it and nothing before it, and committed or finalized state is never undone. After a revert every later operation behaves as if the discarded operations had never happened. Storage that fails for a while loses neither committed content nor accepted changes.",
 ["histories"], "Every sequence of writes, checkpoints, reverts, prepares, commits and SetTo calls.",
 "Tests take one or two checkpoints; nested checkpoints, reverts to the oldest, and operations after reverts quantify over histories.",
 [T+"revertable.go", T+"historytree.go"], [("checkpoint stack and RevertTo", T+"revertable.go")],
 "model-based runtime monitoring with a snapshot-stack oracle", LVL)

prop("T13", "Combined tries reload to the same state and bind every part to one root",
 "A combined trie acts as a sorted map from part names to tries; for given part names its root changes whenever the content of any part changes and depends on nothing but the contents of the parts, proofs of parts verify against it, and a commit followed by opening a new combined trie at that root restores every part (empty parts, and no parts at all, included). Opening a root the storage does not hold is an error. A failed commit is reported, changes no part, and leaves the new root in the storage with all its parts or not at all.",
 ["histories"], "Every history of part updates, replacements, removals, commits and reloads, empty parts included.",
 "Tests set one part and reload once.",
 [T+"combinedtrie.go"], [("SmallCombinedTrie.Commit / InitTrie / GetProof", T+"combinedtrie.go")],
 "model-based runtime monitoring of part contents, roots, proofs and reloads", LVL)

prop("T14", "Dumping a trie emits exactly its reachable committed state",
 "Dumping a committed trie into an empty store yields a store from which a trie at the same root serves exactly the same content, and reports every entry to the caller exactly once with its key; rebuilding a trie from the reported entries gives the identical root. A storage failure during the dump is reported. Node headers encode and decode to the same header and key path.",
 ["inputs","histories"], "Every trie content and history; every node header.",
 "The tests dump one small trie and do not compare it with the source entry by entry.",
 [T+"trie.go", T+"node.go", T+"synctrie.go"], [("Trie.Dump", T+"trie.go"),("NodeHeader Serialization", T+"node.go")],
 "differential runtime monitor: dumped store reopened and compared with the source", LVL)

prop("T15", "Concurrent trie operations are linearizable and free of data races",
 "When goroutines use one trie concurrently - reads, writes, counts, hashes, commits, iteration - every call returns a result explained by some sequential order consistent with real time, no data race occurs, and no call blocks forever.",
 ["schedules"], "Every interleaving of concurrent operations on a shared trie.",
 "The tests are sequential; the stable suite never runs with the race detector on a shared trie.",
 [T+"trie.go", T+"synctrie.go", T+"node.go"], [("Trie.lock", T+"trie.go")],
 "race detector plus linearizability checking (porcupine) of recorded histories", RACE, race=True)

prop("T16", "Concurrent history, revertable and combined tries stay consistent",
 "Concurrent use of a history tree, a revertable trie or a combined trie - appends, lookups, existence checks, checkpoints, hashes, commits - causes no data race and no deadlock, readers only ever see hashes that were appended or values that were put, and the final state equals a sequential execution of the successful calls.",
 ["schedules"], "Every interleaving of concurrent calls on a shared object.",
 "The tests are sequential and skip several of the locked entry points.",
 [T+"historytree.go", T+"revertable.go", T+"combinedtrie.go"], [("HistoryTree.lock, RevertableTrie.lock", T+"historytree.go")],
 "race detector, progress monitor, and final-state oracle over concurrent histories", RACE, race=True)

prop("T17", "An exported trie imports to the same content, broken streams are reported",
 "Exporting a trie (Marshal, or MarshalAsMap) writes every entry in key order without changing the trie, and importing the stream gives a trie with the same content, count and root, whatever pieces the reader delivers. A stream that breaks off inside an entry, and any failure of the reader, the writer or the storage, is reported as an error; a batch putter stores exactly the entries it accepted.",
 ["inputs","histories","fault_sequences"], "Every trie content (empty keys, keys that prefix others) in every residency state, every break point and fault position.",
 "The tests export one small trie through memory and never break a stream.",
 [T+"trie.go", T+"utils.go"], [("Trie.Marshal / UnmarshalNewTrie", T+"trie.go"), ("MarshalAsMap, BatchPutter", T+"utils.go")],
 "round-trip runtime monitor with an independent decoder of the stream and injected stream and storage faults", LVL)

prop("T18", "Block-position proofs name one chain, height and field",
 "A proof made for a header field or a chain's block summary verifies to the enclosing root and is recognised for exactly the chain, height and field it was made for: asked for any other chain, height, field or kind of proof, or with a missing or changed position hash, value or path, it is refused, and a whole proof from a state entry through header, summaries, main header and block history verifies only unchanged.",
 ["inputs"], "Every block, position, proof kind and mutation of a proof.",
 "The tests check single constructed proofs at their own position only.",
 [T+"proof.go", "hash.go"], [("IsHeaderOf / IsHeaderPropertyOf / IsHdsSummaryOf", T+"proof.go")],
 "differential runtime monitor against an independently computed block and mutated proofs", LVL)

prop("D01", "Every key-value store behaves as a byte-string map",
 "Every database implementation (memory, LevelDB, cached, key-prefixed, temporary and read-only views) answers Put, Get, Has, Delete and Batch as a byte-string map does, for all non-nil keys and values (empty ones included): Get after Put returns an equal value that later changes to the caller's buffers cannot alter, Has agrees with Get, and absent keys are reported as absent consistently. Implementations are interchangeable. A cached or prefixed view over a base that fails passes the error on: it neither reports success nor absence, nor keeps serving what the base refused.",
 ["inputs","histories"], "Every history of operations with any keys and values on every implementation and composition of implementations.",
 "Tests exercise single operations of one implementation; negative caching, aliasing and compositions are never compared with a model.",
 ["db/memdb.go","db/ldb.go","db/cacheddb.go","db/adapters.go","db/readonly.go","db/types.go"], [("Database implementations", "db/")],
 "differential model-based runtime monitoring of all implementations", LVL)

prop("D02", "LevelDB-backed data survives close, reopen and process death",
 "Everything a LevelDB-backed store acknowledged (single puts, deletes and whole batches) is there after the store is closed and reopened, a batch is applied atomically when the process is killed during it, and writes to a closed or failing store report an error instead of success.",
 ["crash_points","histories"], "Every history, and process death at any moment.",
 "No test kills the process or reopens mid-history; error reporting of batch writes is untested.",
 ["db/ldb.go","db/cacheddb.go"], [("LDB.Put/Batch", "db/ldb.go")],
 "crash workloads in killed subprocesses with a recovery oracle over acknowledged operations", LVL)

prop("D03", "Overlay, read-only and prefixed views isolate what they should",
 "A temporary overlay (over anything but another overlay) reads through to its base but never modifies it, a read-only view never modifies its base whatever is called, and key-prefixed views over one store with prefixes neither of which extends the other never see or change each other's keys, while each behaves as an independent map.",
 ["histories","configurations"], "Every history over any stack of views on one base store.",
 "Tests do a couple of puts through one view.",
 ["db/readonly.go","db/adapters.go","db/types.go"], [("readonlyDB, temporaryDB, keyPrefixedDataAdapter, KeyDatabase", "db/")],
 "model-based runtime monitoring with a full comparison of the base store", LVL)

prop("D04", "Batches apply exactly their operations, in order, or report failure",
 "Committing a batch has exactly the effect of its puts and deletes in order (later operations on a key win), whether built directly, through a prefixed view or by the threshold-splitting batch writer, with every item written exactly once; a batch has no effect before it is committed, later changes to the caller's buffers do not change it, and a failing store makes the commit report an error.",
 ["inputs","histories","fault_sequences"], "Every sequence of batch operations, thresholds, skipped items and failing writes.",
 "Tests write one small batch; splitting at thresholds with skipped items and failures is not explored.",
 ["db/adapters.go","db/memdb.go","db/ldb.go","db/types.go"], [("Batch, KeyBatch, BatchWrite", "db/")],
 "model-based runtime monitoring with injected write failures", LVL)

prop("D05", "Stores are race-free and coherent under concurrent use",
 "Concurrent Put, Get, Has, Delete and Batch on one store cause no data race, and per key the results are linearizable: a read returns the latest completed write or a concurrent one, never a stale value once a newer write has completed.",
 ["schedules"], "Every interleaving of concurrent operations on a shared store.",
 "The tests are sequential; a cache in front of a store is exactly where concurrency breaks coherence.",
 ["db/memdb.go","db/cacheddb.go","db/ldb.go","db/readonly.go"], [("store locks and the LRU cache", "db/cacheddb.go")],
 "race detector plus porcupine linearizability of recorded per-key histories", RACE, race=True)

prop("C01", "Routine pool runs every accepted task exactly once, by priority",
 "Every non-nil task posted to a routine pool is executed exactly once, while the pool runs or after it is started again; an idle worker takes a waiting higher-priority task before a waiting lower-priority one and tasks of one priority in posting order; never more tasks run at once than the pool has workers. Stop returns only when no task is running, and none runs until the next Start. The key counts show a key while a task with that key runs, never more often than there are workers, and nothing for finished tasks.",
 ["schedules"], "Every interleaving of submitters, workers and stop, and every task duration.",
 "Tests submit a few tasks sequentially without counting executions under contention.",
 ["routinepool.go"], [("RoutinePool", "routinepool.go")],
 "race detector plus an exactly-once/ordering trace checker", RACE, race=True)

prop("C02", "Byte-slice helpers match their definitions and respect aliasing",
 "The byte-slice helpers (copying, padding, trimming, comparing, concatenating, hex and bit-string conversions, reversing, integer conversions) return what their definitions say for every input including nil, empty and oversized slices, and never modify their arguments or return memory shared with them where a copy is promised.",
 ["inputs"], "Every input slice, length and index.",
 "Tests use a few literals; boundaries (nil, empty, exact size, oversized) and aliasing quantify over inputs.",
 ["bytes.go","utils.go"], [("bytes helpers", "bytes.go")],
 "differential runtime monitor against independent reference functions, with aliasing probes", LVL)

prop("C03", "Hashes, addresses and identifiers round-trip through every encoding",
 "Hashes, addresses, node IDs, chain IDs, heights and similar values survive every pair of their encoders and decoders (bytes, hex, text, JSON, RLP) unchanged, malformed encodings are rejected with an error rather than a silently wrong value, value equality agrees with byte equality, and the hash of an object is the hash of its encoding.",
 ["inputs"], "Every value, including nil and extreme ones, and every malformed encoding generated from valid ones.",
 "Tests round-trip a few literals.",
 ["basic.go","hash.go","types.go"], [("MarshalText/UnmarshalText, RLP encoders", "basic.go")],
 "round-trip and rejection monitors over generated values and mutated encodings", LVL)

prop("C04", "Heights and epochs convert consistently and never wrap silently",
 "A height splits into epoch and block number and recombines to itself, comparisons and differences agree with integer arithmetic, the nil height stays distinguished, and a result that does not fit is the nil value rather than a wrapped number.",
 ["inputs"], "Every height, epoch and block number up to the extremes of their ranges.",
 "Tests check a few small numbers; boundaries at epoch edges and at the maximum quantify over inputs.",
 ["basic.go"], [("Height / EpochNum / BlockNum", "basic.go")],
 "arithmetic oracle (big integers) over boundary-biased inputs", LVL)

prop("C05", "Sharding assigns every address to exactly one shard, consistently",
 "For a given sharding every address belongs to exactly one shard of the shard set, decided by the leading mask bits of the address alone; the assignment does not depend on the order in which shards were listed or on duplicates, all ways of asking (by address, by hash, index, contains) agree, and every shard receives addresses.",
 ["inputs","configurations"], "Every shard count, chain list and address.",
 "Tests check one configuration and a few addresses.",
 ["shardinfo.go","utils.go"], [("AccountShards / BitIndex", "shardinfo.go")],
 "runtime oracle: partition checked over enumerated configurations and addresses", LVL)

prop("C06", "Chain-info sets behave as sets and hash by content",
 "Adding and removing boot nodes, data nodes, admins and attributes of a chain description behaves as set operations, lookups agree with the lists, the hash and encoded form depend only on the content and not on insertion order or on clones, clones are independent of the original, and exactly the placements the modes allow (the main chain on top, branches under it, shards under other chains) and complete node records validate.",
 ["histories","inputs"], "Every history of add and remove operations on a chain description.",
 "Tests add a few nodes once.",
 ["chaininfo.go","types.go"], [("ChainInfos add/remove/sort/hash", "chaininfo.go")],
 "model-based runtime monitoring against a set oracle", LVL)

prop("C07", "Shared registries and counters are race-free and lose no update",
 "The shared registries (last-block heights per chain, LRU map, node-ID sets, service status, reserved addresses) and hashing functions can be used from any number of goroutines without data races, no acknowledged update is lost, changes of a service's status admit exactly one winner, and snapshots handed out never change afterwards.",
 ["schedules"], "Every interleaving of concurrent registry operations.",
 "The tests are sequential.",
 ["types.go","basic.go","utils.go","shared.go"], [("locks of the shared maps", "basic.go")],
 "race detector plus conservation and linearizability checks of recorded histories", RACE, race=True)

prop("C08", "Gas pool never goes negative and conserves gas",
 "A gas pool's balance always equals initial plus added minus successfully subtracted gas; a subtraction larger than the balance fails and changes nothing, and an addition that would overflow panics and never wraps silently.",
 ["inputs","histories"], "Every sequence of additions and subtractions, including extreme amounts.",
 "No test covers the pool beyond simple calls.",
 ["gaspool.go"], [("GasPool.AddGas/SubGas", "gaspool.go")],
 "model-based runtime monitoring with a big-integer oracle", LVL)

prop("M01", "Fixed-width and rational math agrees with exact arithmetic",
 "The integer helpers (safe addition, subtraction and multiplication with overflow flags, power, two's complement and 256-bit reduction, min/max, padding, parsing and rational scaling) give the mathematically exact result or report overflow, and never modify their arguments.",
 ["inputs"], "Every pair of operands including zero, negative and extreme values.",
 "Tests use tables of a few operands.",
 ["math/big.go","math/integer.go"], [("math helpers", "math/big.go")],
 "differential runtime monitor against exact big-integer arithmetic", LVL)

prop("R01", "RLP decoding inverts encoding for every supported type",
 "For every supported Go type (integers of all sizes, big and 256-bit integers, byte slices and arrays, strings, booleans, nested structs with tags, slices, arrays, pointers, interfaces, custom coders) decoding the encoding of a value yields an equal value, and the encoding equals the one prescribed by the RLP specification.",
 ["inputs"], "Every value of every supported type.",
 "Table tests list fixed values; randomly composed nested types and boundary sizes (55/56 bytes, 1-byte values) quantify over inputs.",
 ["rlp/encode.go","rlp/decode.go","rlp/typecache.go","rlp/encbuffer.go"], [("reflection-based writers and decoders", "rlp/")],
 "differential runtime monitor against an independent RLP reference encoder", LVL)

prop("R02", "RLP decoding accepts only canonical encodings",
 "Decoding succeeds exactly for canonical encodings of the target type: whatever decodes re-encodes to the identical bytes, and non-minimal lengths, leading zeros, trailing bytes, truncated items, oversized integers and wrong element counts are rejected with an error.",
 ["inputs"], "Every byte string, mutated or exhaustively enumerated, against every target type.",
 "Tables list a few malformed inputs per type.",
 ["rlp/decode.go","rlp/raw.go"], [("Stream canonical checks", "rlp/decode.go")],
 "runtime oracle: exhaustive short inputs and mutations compared with a reference parser", LVL)

prop("R03", "All RLP readers agree on every input, hostile ones included",
 "On any byte string the streaming decoder, the raw splitting functions, the list iterator and the value counter terminate, never panic, never report a size beyond the input or beyond the enclosing list, agree with one another on where items start and end, and reject or accept the same inputs; on a canonical encoding every sequence of stream calls gets what the position in it prescribes (value, kind and size, the documented error for the other kind, EOL or EOF at the end).",
 ["inputs"], "Every byte string, including truncated and over-long length prefixes.",
 "The fuzz corpus is small and the iterator's behaviour on malformed lists is untested.",
 ["rlp/raw.go","rlp/decode.go","rlp/iterator.go"], [("Split/SplitList/CountValues/NewListIterator", "rlp/raw.go")],
 "differential runtime monitor over exhaustive short and mutated inputs with a reference parser", LVL)

prop("R04", "RLP output and decoding do not depend on how data is chunked",
 "Encoding to a byte slice, to a writer, through an encoder reader and through a reusable encoder buffer gives identical bytes, and decoding gives identical results from a byte slice and from any reader that delivers the same bytes in arbitrary pieces; an error from the reader or writer is reported, and an encoding that fails writes nothing and disturbs no other.",
 ["inputs","schedules"], "Every value and every split of its encoding into reads.",
 "Tests decode from buffers that deliver everything at once.",
 ["rlp/encode.go","rlp/encbuffer.go","rlp/decode.go"], [("encReader, EncoderBuffer, Stream", "rlp/encbuffer.go")],
 "differential runtime monitor across all entry points with chunking and failing readers", LVL)

prop("R05", "Generated RLP coders are equivalent to the reflection coders",
 "For every struct type the code generator accepts, the generated encoder and decoder produce the same bytes, the same values and the same accept/reject decisions as the reflection-based coder, and the generated code compiles.",
 ["inputs","programs"], "Every supported struct type and every value or input of it.",
 "Tests compare generated text with golden files and never run it against random values.",
 ["rlp/rlpgen/gen.go","rlp/rlpgen/types.go","rlp/internal/rlpstruct/rlpstruct.go"], [("rlpgen", "rlp/rlpgen/gen.go")],
 "differential execution of generated code against reflection on generated struct types", LVL)

prop("R06", "RLP coding is safe under concurrency",
 "Encoding and decoding from many goroutines at once - including first use of a type, pooled buffers and readers closed early - produces the same bytes and values as a sequential run, without data races.",
 ["schedules"], "Every interleaving of concurrent encode and decode calls.",
 "The tests never encode concurrently under the race detector.",
 ["rlp/typecache.go","rlp/encode.go","rlp/encbuffer.go"], [("type cache copy-on-write and sync.Pool buffers", "rlp/typecache.go")],
 "race detector plus result comparison with a sequential run", RACE, race=True)

prop("A01", "ABI packing follows the specification and unpacking inverts it",
 "For every list of argument types and values the packed bytes equal those prescribed by the contract ABI specification, and unpacking returns equal values, whether into a list, a map or a struct (fields in any order, found by name or tag), or converted to the caller's own types; ill-typed values (nil ones included), too few or too many of them, truncated data and destinations whose types the values do not fit are rejected with an error by every entry point, and the packed bytes are the caller's own: they share no memory with the ABI or with another result.",
 ["inputs","programs"], "Every argument type (nested tuples, slices and arrays included) and value.",
 "Tables list fixed vectors; arbitrary nestings of static and dynamic types quantify over types and values.",
 ["abi/pack.go","abi/unpack.go","abi/type.go","abi/argument.go","abi/reflect.go"], [("Type.pack / toGoType", "abi/type.go")],
 "differential runtime monitor against an independent ABI reference encoder", LVL)

prop("A02", "Hostile ABI data never crashes the decoder or yields unsound values",
 "Unpacking arbitrary bytes for any argument types either returns an error or values that consist only of bytes present in the input; it never panics, whatever destination it unpacks into, and data truncated before a required word, or with an offset or length beyond its end, is rejected, revert reasons and declared errors included.",
 ["inputs"], "Every byte string, including offsets and lengths at the extremes.",
 "The tests contain a few hand-made malformed inputs.",
 ["abi/unpack.go","abi/argument.go"], [("length and offset checks", "abi/unpack.go")],
 "mutation and boundary workloads with crash and soundness monitors", LVL)

prop("A03", "Event topics and event data round-trip",
 "For every event definition and argument values, topics made from the indexed values together with the packed non-indexed values parse back to the same values in every position and order of indexed arguments (to the topic hash itself for indexed strings, byte strings, arrays and tuples), and topics for values of equal content are equal; cut data, missing or ill-formed topics and destinations the values do not fit are refused by every reader.",
 ["inputs","programs"], "Every event signature with any arrangement of indexed arguments, and all values including negative integers.",
 "Tests use fixed events with indexed arguments first.",
 ["abi/topics.go","abi/event.go","abi/thinkium.go"], [("MakeTopics / ParseTopics / UnpackEvent", "abi/topics.go")],
 "round-trip runtime monitor with an independent topic encoder", LVL)

prop("A04", "Method and event identifiers follow the canonical signature",
 "Every method, event and error parsed from a JSON description or a selector string has the identifier derived from its canonical signature, is found again by that identifier, overloaded names stay distinct and resolvable, constructor, fallback and receive entries and the state mutability of every entry are kept as described (at most one fallback and one receive, which must be payable), and malformed descriptions, type strings and selectors are rejected with an error instead of being accepted or crashing.",
 ["inputs","programs"], "Every JSON description and selector string.",
 "Tests parse a few fixed descriptions.",
 ["abi/abi.go","abi/method.go","abi/event.go","abi/error.go","abi/selector_parser.go"], [("JSON unmarshalling and ParseSelector", "abi/abi.go")],
 "differential runtime monitor with an independent signature printer and keccak", LVL)

prop("H01", "Hex encoding is strict and lossless",
 "Decoding the hex form of any byte string, unsigned integer or non-negative big integer returns that value, JSON and text forms included, and every string outside the documented grammar (missing prefix, odd length, leading zeros, bad digits, too wide) is rejected with an error.",
 ["inputs"], "Every value and every string.",
 "Tables list fixed strings.",
 ["hexutil/hexutil.go","hexutil/json.go"], [("Decode*, Unmarshal*", "hexutil/hexutil.go")],
 "differential runtime monitor with a grammar oracle, exhaustive on short strings", LVL)

prop("L01", "Logging keeps every field and is safe under concurrency",
 "Every record logged at an enabled level reaches the output once with its message and all of the fields attached to it, records below the level do not, and loggers can be derived, configured and used from any number of goroutines without data races or crashes.",
 ["schedules","inputs"], "Every field list and every interleaving of concurrent logging.",
 "The tests only print.",
 ["log/log.go","log/hooks.go","log/cashcheck.go"], [("WithField / WithFields / global loggers", "log/log.go")],
 "race detector plus exactly-once trace checker over captured output", RACE, race=True)

prop("P01", "Stateless functions and shared values answer alike from many goroutines",
 "Functions that only read what they are given - hashing and merkle functions, proof verification, ABI packing, unpacking and lookups on a shared ABI, chain, shard, address, number, RLP and hex functions - give every goroutine the answer a sequential caller gets, first use included: without data races, and without changing the values they were given.",
 ["schedules","inputs"], "Every interleaving of callers that share an ABI, a hash list, a proof, a chain description, a number or an encoding.",
 "The tests call them from one goroutine, on values of their own.",
 ["hash.go","hasher.go","trie/proof.go","abi/abi.go","abi/argument.go","chaininfo.go","shardinfo.go","math/big.go","hexutil/hexutil.go","rlp/typecache.go"], [("merkle hashing", "hash.go"), ("ABI lookups and packing", "abi/abi.go"), ("ProofChain verification", "trie/proof.go")],
 "race detector plus comparison of every answer with a sequential run on an equal world", RACE, race=True)
