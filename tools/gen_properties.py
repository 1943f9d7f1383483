#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here because JSONL is unpleasant to edit."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Fixed-width integer files behave as arrays in every access mode",
 "A file of fixed-width integers (1 to 8 bytes per word, values that fit the width) returns for every position the value most recently written there, and zero for positions below the end that were never written; its count is always one more than the highest position ever written, and reading at or past the end never yields a value. This holds in every access mode (plain, memory-shadowed, memory-mapped read-only, pre-filled with zeros), for reads of single words and of the whole file, for any interleaving of writes, appends, reads, counts and syncs, and again after closing and reopening.",
 ["histories","inputs","configurations"],
 "all histories of write/append/overwrite/gap-write/read/read-all/count/sync/close/reopen operations, all word sizes 1..8, all values that fit, all access modes",
 "The tests write one or two words in one order and read them back; whether buffered appends, overwrites inside a still-buffered region, gaps and reopening interact correctly depends on the order and position of operations, which needs every short history in every mode.",
 ["wordfile/wordfile.go","wordfile/memshadowedwordfile.go","wordfile/concretewordfilecreator.go","wordfile/concretemmapcreator.go","memfile/appendoptimized.go","memfile/mmapfile.go","memfile/filewithsize.go"],
 [("word encode/decode through a reused scratch buffer","wordfile/wordfile.go"),("write buffering with flush before reads and non-append writes","memfile/appendoptimized.go"),("in-memory shadow copy","wordfile/memshadowedwordfile.go")],
 [("word count","one past the highest word written","wordfile/wordfile.go wordCount"),("buffered writer","appends not yet in the OS file","memfile/appendoptimized.go bufferedWriter")],
 ["wordfile.WordFileCreator and the files it opens"])

prop("C02", "Append-optimised byte files and hash files equal plain files",
 "A byte file opened for optimised appending is indistinguishable from an ordinary file: every positioned read, whole-file read and size query reflects all preceding writes, whether they were appended, overwrote existing bytes (buffered or not) or left a gap. A file of 32-byte hashes layered on any supported backing returns, for each index, the hash last stored there, hands out consecutive indices for appended hashes, and keeps contents and count across sync, close and reopen.",
 ["histories","inputs","configurations"],
 "all histories of positioned writes of various lengths and offsets relative to the end and to the write buffer, reads, read-alls, syncs, closes and reopens, over every backing file implementation",
 "The only test writes sequentially through a standard-library buffer; overwriting a region that is still buffered, appending after an overwrite, or reading the whole file twice are separate code paths reached only by particular operation orders.",
 ["memfile/appendoptimized.go","memfile/filewithsize.go","memfile/fixedsize.go","memfile/mmapfile.go","wordfile/hashfile.go"],
 [("append buffering, flush on read or non-append write","memfile/appendoptimized.go"),("hash count and append index","wordfile/hashfile.go")],
 [("append offset / total size","where the next append lands","memfile/appendoptimized.go")],
 ["memfile constructors","wordfile.HashFile"])

prop("C03", "Numbered storage paths never collide and group numbers consistently",
 "For any choice of digits per file and per folder, every non-negative number maps to one deterministic relative folder path, file name and file number; two numbers share a file exactly when they belong to the same group of ten-to-the-power-of-file-digits consecutive numbers, and the file number identifies the first number of that group. Distinct groups never share a path and no file path coincides with a folder path.",
 ["inputs","configurations"],
 "all numbers 0..10^12 (exhaustive below a bound plus all neighbourhoods of digit carries) and all digit settings 0..5 per file and 1..5 per folder",
 "The existing test file is not run and samples a few numbers; injectivity is a statement about all pairs of numbers across carries in the big-digit representation.",
 ["numberedfolders/numberedfolders.go"],
 [("big-digit decomposition into folder names and file name","numberedfolders/numberedfolders.go NumberToFoldersAndFile")],
 [], ["numberedfolders.NewNumberedFolders(...).NumberToFoldersAndFile"])

prop("C04", "Integer-list maps return exactly the values appended, in order",
 "A persistent map from integer keys to growing lists returns for each key exactly the values appended to it, in append order, and an empty list for a key nothing was appended to. This holds for every storage mode (simple, cached), every key order (ascending, going back to old keys, jumping across file and folder boundaries), every placement of reads, flushes and syncs, and after reopening for writing or read-only.",
 ["histories","inputs","configurations"],
 "all histories of append/get/flush/sync/reopen over keys in the same file, different files, different folders and different depths, list lengths across every length-encoding boundary, both store modes, all digit settings",
 "The single test appends in ascending order and reads once; the stores keep one or two files in memory and write back lazily, so correctness depends on the order in which keys are revisited relative to flushes.",
 ["intarrayarray/intarraymapstore.go","intarrayarray/cachedintarraymapstore.go","intarrayarray/intarrayarray.go","intarrayarray/varint.go","intarrayarray/concretemapstorecreator.go"],
 [("latest/older in-memory file pair","intarrayarray/intarraymapstore.go AppendToArray"),("cache with eviction","intarrayarray/cachedintarraymapstore.go loadIntoCache, trimCache"),("file format: length varint then elements","intarrayarray/intarrayarray.go SaveFile, LoadFile")],
 [("cached arrays","unsaved lists per file","intarrayarray/cachedintarraymapstore.go")],
 ["intarrayarray.IntArrayMapStoreReadWrite / ReadOnly via ConcreteMapStoreCreator","intarrayarray.IntArrayArray","intarrayarray.VarInt"])

prop("C05", "A hash store finds every stored hash and only stored hashes",
 "After any sequence of appends of distinct hashes, appending returns consecutive indices from zero, looking up a stored hash gives the index it was stored at, looking up any other hash reports absent, reading an index gives back the hash stored there, and the count equals the number of appends. This holds for every key-width, entry-width and collision-chunk setting, however many hashes share the same partial key, in every storage mode (file, memory-held lookup table, append-buffered, fully in-memory index), with lookups interleaved, and after closing and reopening for writing or read-only.",
 ["histories","inputs","configurations"],
 "all append/lookup/reopen histories over alphabets of hashes forced to share partial keys, all small key widths, entry byte counts 1..8 and collision chunk sizes 1..8, all storage modes",
 "Tests append a few SHA-256 hashes that practically never collide in a 30-bit key; long collision chains that span several linked chunks, and lookups at every chain position, are reached only with crafted hashes.",
 ["indexedhashes/hashstore.go","indexedhashes/basichashstore.go","indexedhashes/memoryindexed.go","indexedhashes/concretehashstorecreator.go","indexedhashes/concretehashstorecreatormemory.go"],
 [("partial-key table with linked collision chunks","indexedhashes/hashstore.go AppendHash, IndexOfHash")],
 [("lookup table entry","0 empty, index+1, or chunk link with top bit","indexedhashes/hashstore.go")],
 ["indexedhashes.HashReadWriter / HashReader via the two creators"])

prop("C06", "The bulk-built uniform hash index finds the first occurrence of every hash",
 "After bulk indexing a file of hashes into uniform bins, looking up any hash in the file returns the position of its first occurrence, looking up any other hash reports absent, and reading any position returns the original hash. The result is the same whatever memory budget (number of passes) was used, however many hashes fall in one bin (including more than fit in its fixed slots), and whether the index is used directly or reopened from its stored parameters.",
 ["inputs","configurations"],
 "all hash multisets over alphabets that force empty, full and overflowing bins, duplicates at every distance, bins at both ends of the range, all pass sizes",
 "The repository's uniform tests sample random hashes at one size and are dominated by bins that never overflow; boundary bins, the slot/overflow boundary and pass boundaries need targeted exhaustive layouts.",
 ["indexedhashes/multipasspreloader.go","indexedhashes/uniform.go"],
 [("per-pass binning with first-occurrence filter","indexedhashes/multipasspreloader.go dealWithOneHash"),("bin start plus overflow file lookup","indexedhashes/uniform.go IndexOfHash")],
 [("bin","count plus up to 102 slots, then overflow","indexedhashes/multipasspreloader.go binStart")],
 ["indexedhashes.NewMultipassPreloader(...).IndexTheHashes","indexedhashes.UniformHashStore"])

prop("C07", "The binned hash index maps every hash to its first position, and back",
 "After indexing any file of hashes with either bulk builder, looking up a hash that occurs in the file returns the position of its first occurrence, looking up any other hash reports absent, the count is the number of hashes in the file, and reading the position of a first occurrence returns exactly that hash. This is independent of the index parameters (number of bins, slots per bin, byte widths), the builder, memory budget, number of passes and worker count, holds however full a bin is (empty, exactly full, overflowing), and holds for readers served from disk or from memory.",
 ["inputs","configurations"],
 "all short hash sequences over an alphabet crafted to share bins, sort keys, or all but one byte, times all small parameter settings, both builders, 1..4 workers, on-disk and in-memory readers",
 "Tests in this area only check parameter arithmetic and single bins; neither builder is run end to end by the baseline tests, so bin boundaries, overflow spill, duplicate removal and search inside a bin are unexercised.",
 ["indexedhashes3/multipasspreloader.go","indexedhashes3/singlepass.go","indexedhashes3/adaptivepass.go","indexedhashes3/adaptivepasspreloader.go","indexedhashes3/binbytes.go","indexedhashes3/binentrybytes.go","indexedhashes3/binfiles.go","indexedhashes3/hashstore.go","indexedhashes3/hashstorecreator.go","indexedhashes3/params.go","indexedhashes3/overflowfiles.go"],
 [("split of a hash into bin number, sort number, remainder","indexedhashes3/abbreviatedhash.go, hash.go"),("sort and de-duplicate a bin keeping the smallest index","indexedhashes3/binbytes.go sortAndDeduplicate"),("interpolation search in a sorted bin","indexedhashes3/binbytes.go homeInOnSortNum"),("bin start plus overflow file","indexedhashes3/binfiles.go")],
 [("bin","sorted entries of one hash range","indexedhashes3/binbytes.go")],
 ["indexedhashes3 creators and preloaders; indexedhashes.HashReader"])

prop("C08", "Hashes appended one at a time to a binned index are all found",
 "Starting from an empty or a bulk-built binned hash index, appending distinct hashes one at a time returns consecutive positions, and after every append every hash stored so far is found at its position, is read back from its position, and no other hash is found. This holds for every insertion order within a bin, across the boundary where a bin overflows its fixed slots, and after closing and reopening.",
 ["histories","inputs","configurations"],
 "all insertion orders of crafted hashes over small parameter settings, from empty and from bulk-built indexes, with lookups and reopens interleaved",
 "No baseline test appends to a binned index; the insertion position found by interpolation search depends on the whole content of the bin, so all orders and fill levels matter.",
 ["indexedhashes3/hashstore.go","indexedhashes3/binbytes.go","indexedhashes3/binfiles.go","indexedhashes3/hashstorecreator.go"],
 [("sorted insertion","indexedhashes3/binbytes.go insertBinEntry, findIndexBasedOnSortNum"),("load-modify-save of one bin","indexedhashes3/hashstore.go AppendHash")],
 [("bin","sorted entries","indexedhashes3/binbytes.go")],
 ["indexedhashes3.ConcreteHashStoreCreator: CreateHashStore, OpenHashStore"])

prop("C09", "Parallel index building gives the sequential result under every schedule",
 "Whatever the interleaving of its reader, workers and collector, and whatever the number of workers (including more workers than bins), building a binned hash index terminates without deadlock or crash and leaves an index whose every answer equals that of a single-worker build. No two of its activities access the same data without synchronisation.",
 ["schedules","inputs","configurations"],
 "all interleavings up to a preemption bound of the builders' goroutines, for 1..4 workers, small hash files, and channel capacities as in the code",
 "Tests never run the builders concurrently, and an ordinary run exercises one schedule; ownership of bins by workers, channel closing and result collection can only be settled over all interleavings.",
 ["indexedhashes3/singlepass.go","indexedhashes3/adaptivepass.go","indexedhashes3/multipasspreloader.go"],
 [("bin-to-worker ownership","indexedhashes3/singlepass.go readIn; adaptivepass.go"),("atomic work counter","indexedhashes3/singlepass.go sortAndDeduplicateBins")],
 [("worker channels","work handed to the owner of a bin","indexedhashes3/adaptivepass.go")],
 ["files produced; HashReader answers"])

prop("C10", "The sequencer emits each item exactly once in strict order, never jamming",
 "Whatever order items numbered from the first expected number arrive in, and however producers, the sequencer and its consumer are interleaved, the consumer receives every item exactly once in ascending order and the output is closed after the input closes. A producer waiting for the backlog valve is held only while the backlog has reached the limit and is always released once it drains, so the pipeline never deadlocks; a missing number is reported rather than silently skipped.",
 ["schedules","inputs","configurations"],
 "all arrival permutations up to a length, 1..3 producers, all backlog limits, buffered and unbuffered outputs, all interleavings up to a preemption bound",
 "No test exercises the sequencer; lost wake-ups, mis-set backlog flags and reordering appear only for particular arrival orders and schedules.",
 ["concurrency/sequencercontainer.go"],
 [("reorder map with next-out counter","concurrency/sequencercontainer.go worker, sendNextOut"),("backlog valve","concurrency/sequencercontainer.go setBloatedCondition, WaitForNotBloated")],
 [("map of early items","items that arrived before their turn","concurrency/sequencercontainer.go theMap"),("bloated flag","valve closed","concurrency/sequencercontainer.go bloated")],
 ["InChan, outChan, WaitForNotBloated"])

prop("C11", "Worker pool and memory valve: each task once, no lost wake-ups",
 "Every task submitted to the worker pool is processed exactly once by some worker, its own result (error or success) is recorded on it before it is marked done, tasks are never mixed up, and no submission blocks forever while a worker is free, under every interleaving. A caller waiting for spare memory proceeds only when usage is below the limit, and every waiter is eventually released once memory has been freed and announced often enough, whatever the interleaving of waiters and freers.",
 ["schedules","configurations","inputs"],
 "all interleavings up to a preemption bound of 1..3 workers with 1..4 tasks and 1..2 submitters, and of 1..3 waiters with 1..2 freers over a modelled heap size",
 "The pool has no test; the memory-valve test is not in the baseline and sees one schedule and the real heap.",
 ["concurrency/workerpool.go","memblocker/memblocker.go"],
 [("worker loop: Process, SetError, Done","concurrency/workerpool.go worker"),("condition variable around a heap-size check","memblocker/memblocker.go")],
 [("condition","waiters for freed memory","memblocker/memblocker.go someBytesFreedCond")],
 ["WorkerPool.InChan and Task callbacks","MemBlocker methods"])

prop("C12", "Binary blocks are parsed exactly as serialised",
 "Parsing the binary serialisation of any well-formed block yields exactly its header fields, its transactions in order, and for each transaction its version, identifier (covering lock time, excluding witness data), every input's source transaction and output index, every output's value and script, and the derived sizes and weights of transaction and block. A block object reused for another block carries nothing over. This holds for every count and script length across all length-encoding boundaries, with or without witness data, and for mixed blocks.",
 ["inputs"],
 "all small block shapes (transaction, input, output, witness counts) and all length-encoding boundary values for counts and script lengths, all corner values of each integer field",
 "The tests parse the genesis block and a few fixed transactions; multi-byte counts, witness stacks, large scripts and extreme integer values follow other paths through the parser.",
 ["intrinsicobjects/binaryblock.go","intrinsicobjects/binarytransaction.go","intrinsicobjects/intrinsicblock.go","intrinsicobjects/intrinsictransaction.go"],
 [("sequential parse with variable-length integers","intrinsicobjects/binarytransaction.go"),("identifier hash over the non-witness bytes","intrinsicobjects/binarytransaction.go")],
 [], ["intrinsicobjects.ParseBinaryBlock"])

prop("C13", "JSON and binary forms of the same block give the same stored facts",
 "Parsing the node's JSON description of a block yields the same block as parsing its binary serialisation, in every field that both forms carry: header integers, hashes, transaction identifiers and order, inputs' sources, outputs' amounts in satoshis (exact for every amount up to the money supply), addresses and sizes. Malformed JSON is reported as an error rather than accepted.",
 ["inputs"],
 "all small block shapes rendered to both forms, all amounts at digit and rounding boundaries up to 21 million coins, all corner header values",
 "Tests compare one or two fixed JSON documents; amounts pass through decimal text and floating point, so exactness is a statement about every amount.",
 ["intrinsicobjects/jsonblock.go","intrinsicobjects/jsontransaction.go","intrinsicobjects/binaryblock.go","intrinsicobjects/binarytransaction.go"],
 [("field postprocessing and hex decoding","intrinsicobjects/jsonblock.go, jsontransaction.go"),("amount conversion","intrinsicobjects/jsontransaction.go")],
 [], ["intrinsicobjects.ParseJsonBlock, ParseBinaryBlock"])

prop("C14", "Every fact of an ingested chain reads back from storage",
 "After ingesting a chain, the read-only view gives back, for every block, transaction, input, output and address, exactly the facts of the source chain: counts, order, hashes, output amounts, the output each input spends, the address of each output, the ordered list of outputs per address, and every requested optional integer (versions, times, median time, nonce, difficulty, sizes, weights, lock time). This holds whether the chain was stored in one session or the store was closed and opened again between blocks, for every chain shape (several transactions per block, repeated addresses, spends within a block and across blocks, repeated transaction hashes) and every choice of optional integers that the source supplies. A block or transaction that lacks a requested optional integer is refused, never stored with another's value. (Of transactions that share one hash, the later ones' hash field need not be readable, and a spend that names the shared hash may be recorded against either.)",
 ["inputs","programs","configurations"],
 "all small chain shapes: blocks x transactions x spends x address assignments up to a bound, all subsets of optional integers on selected shapes",
 "The storage test is not in the baseline and uses one synthetic chain; a wrong offset for one kind of record shows only for chains where firsts, parents and spends disagree.",
 ["chainstorage/concreteappendablechain.go","chainstorage/concretereadablechain.go","chainstorage/concreteappendablechainfactory.go","chainstorage/address.go","chainstorage/block.go","chainstorage/transaction.go","jobs/intrinsicparallel.go"],
 [("per-kind first-index and parent files","chainstorage/concreteappendablechain.go"),("address to outputs map","chainstorage/address.go"),("three-phase ingestion","jobs/intrinsicparallel.go")],
 [("first-index files","first transaction of block, first input/output of transaction","chainstorage/concreteappendablechain.go")],
 ["chainreadinterface.IBlockChain from OpenReadOnly"])

prop("C15", "Navigating a stored chain is consistent in every direction",
 "In the read-only view of an ingested chain, moving between objects is coherent: next block follows parent and genesis/latest are the ends; an object reached by height, by hash or by parent plus position is the same object; every transaction, input and output names the parent that lists it; heights, counts and latest values agree; and asking for an unknown hash reports not found instead of returning some other object.",
 ["inputs","programs"],
 "all navigation steps from every object of every small chain shape, and all lookups of absent hashes",
 "Tests walk one chain forwards; the parent, handle-by-hash and position-to-height maps are separate files and code paths whose agreement is a global property of all objects.",
 ["chainstorage/concretereadablechain.go","chainstorage/handles.go","chainstorage/block.go","chainstorage/transaction.go","chainstorage/address.go","chainreadinterface/iblockchain.go"],
 [("handles by height or hash","chainstorage/handles.go"),("parent files","chainstorage/concretereadablechain.go ParentBlockOfTrans, ParentTransOfTxi, ParentTransOfTxo")],
 [], ["chainreadinterface.IBlockChain, IHandleCreator, chainstorage.IParents"])

prop("C16", "Ingestion pipelines, worker counts and schedules give identical storage",
 "Ingesting the same chain through either object interface, from JSON or binary downloads, with any number of download and processing workers and any completion order of downloads and hash look-ups, produces the same stored hashes in the same order and a chain store that answers every query identically. The pipelines always terminate: no deadlock, no lost block, no partially written block.",
 ["schedules","configurations","inputs"],
 "all completion orders of concurrent block downloads for small chains, 1..4 workers, both interfaces, both download formats; interleavings of the pipeline's goroutines up to a bound",
 "The pipelines need a Bitcoin node, so tests never run them; ordering is restored after parallel downloads, so faults need a particular completion order.",
 ["jobs/intrinsicparallel.go","corereader2/getparseblocksbinary.go","intrinsicobjectscri/chain.go","intrinsicobjectschi/chain.go","transactionindexing/transactionindexing.go","concurrency/sequencercontainer.go"],
 [("parallel download then re-sequencing","jobs/intrinsicparallel.go"),("asynchronous transaction index completion","intrinsicobjects/multitransactionstorage.go, jobs/intrinsicparallel.go")],
 [], ["jobs phases one and three; files under the chain folder"])

prop("C17", "Block hashes and blocks stream completely, in order, through faults",
 "Streaming block hashes from the node yields exactly the hashes of blocks 0..n-1 of its chain in order and then ends, for any n across request-batch boundaries; downloading blocks yields each requested block exactly once, correctly numbered and parsed. Transient faults (connection errors, bad status, truncated bodies, malformed JSON) are retried or reported as failure: they never produce a wrong, missing, repeated or invented block or hash.",
 ["fault_sequences","inputs","schedules"],
 "all fault sequences up to a length over {connection error, error status, short body, garbage, close error} injected at every request, chain lengths around batch boundaries, 1..3 workers",
 "Needs a live Bitcoin node; tests do not inject faults, and each fault kind takes its own path.",
 ["corereader2/blockhashes.go","corereader2/getparseblocksbinary.go","corereader2/utils.go","corereader2/globals.go"],
 [("batched header requests chained by previous-hash","corereader2/blockhashes.go"),("retry loop","corereader2/getparseblocksbinary.go")],
 [], ["corereader2.StreamBlockHashesFromGenesis, GetAndParseBlocks with a fake HTTP transport"])

prop("C18", "A wedding cake finds every appended hash in both directions across bakes",
 "After appending any number of distinct hashes to a wedding cake, every appended hash looks up to the index it was appended at, every index up to the count returns the hash appended there, and a hash never appended is reported absent. This holds as hashes move from the top tier through repeated bakes into lower tiers, for lookups made between appends, and after closing and reopening for writing or read-only.",
 ["histories","inputs","configurations"],
 "all positions of lookups and reopens relative to tier-full boundaries over histories long enough to bake several times into several tiers; every index and every hash queried",
 "The tests check a sample of lookups at the end of one history; moving a tier is a rare event whose effect on indices of earlier tiers, and on handles kept open, is only seen by querying everything before, between and after bakes.",
 ["weddingcakefront/cake.go","weddingcakefront/cakecreator.go","weddingcakeback/tiertop.go","weddingcakeback/tiertopcreator.go","weddingcakeback/tierbelow.go","weddingcakeback/tierbelowsource.go"],
 [("tier hand-over when full","weddingcakeback/tiertop.go AppendHash"),("fall through to next tier","weddingcakeback/tierbelow.go")],
 [("first presentation index per tier","global index of a tier's first hash","weddingcakeback/tiertop.go")],
 ["weddingcakefront.CakeCreator / Cake"])

prop("C19", "A baked forest answers exactly for the hashes baked into it",
 "Baking any set of distinct hashes (of any supported hash length, with any prefix grouping, in any presentation order) produces a forest in which every baked hash is found at its presentation index, every presentation index returns its hash, and every other hash is reported absent. This holds for single hashes, empty and unequal groups, hashes differing only in one late byte, and sets deep or wide enough to need every node encoding and every level.",
 ["inputs","configurations"],
 "all small hash sets over crafted alphabets (shared prefixes of every length, one differing byte at every position), all presentation orders up to a bound, all tier prefix settings and larger structured sets that cross each node-encoding threshold",
 "Tests bake one random set; node encodings change at count thresholds and path compression depends on shared prefixes that random hashes practically never have.",
 ["weddingcakeback/donutforestwrite.go","weddingcakeback/donutforestread.go","weddingcakeback/singletree.go","weddingcakeback/bakingdesigner.go","weddingcakeback/bakingdesign.go","weddingcakeback/nodeformats.go","weddingcakeback/hashidconversions.go","weddingcakeback/tierbelow.go"],
 [("single tree generation and lookup","weddingcakeback/singletree.go"),("per-level node layout and serialisation","weddingcakeback/donutforestwrite.go, bakingdesigner.go"),("forest lookup","weddingcakeback/donutforestread.go")],
 [], ["weddingcakeback.NewDonutForestWrite, NewTierBelow, GenerateSingleTree, LookupHash"])

prop("C20", "Serialised hash chunks and the writable tier answer like a map",
 "A writable tier returns, for every index, the hash appended there and, for every distinct hash, its index, before and after reopening. A chunk serialised from a set of distinct hashes, written to disk alone or after other chunks, and mapped back, finds every one of its hashes at its index and reports as absent any hash whose reassurance bytes differ from all of them.",
 ["histories","inputs","configurations"],
 "all small hash sets with crafted shared prefixes, all chunk sequences up to a length, tier histories with reopens",
 "Tests check one chunk of random hashes; several chunks in the same files, path-compressed nodes and dense nodes need crafted sets.",
 ["weddingcake/tierzero.go","weddingcake/chunk.go","weddingcake/chunklevel.go","weddingcake/chunkfiles.go","weddingcake/nodeformat.go","weddingcake/treelayoutdesigner.go","weddingcake/treeshape.go","weddingcake/shallowtree.go"],
 [("chunk serialisation and lookup","weddingcake/chunk.go, chunklevel.go"),("chunk file append and memory mapping","weddingcake/chunkfiles.go"),("tier file plus map","weddingcake/tierzero.go")],
 [], ["weddingcake.TierZeroCreator, ChunkFilesWrite, ChunkFilesRead"])

prop("C21", "Shallow hash trees find every hash at its lowest index",
 "Building the compressed prefix tree of any list of hashes, in memory or serialised to fixed-size nodes, yields a structure in which each listed hash is found at its index (the lowest, where a list may contain repeats) and a hash that differs from all listed hashes in its examined bytes is reported absent. Subtrees, levels and gaps lose no hash: every hash is the leaf of exactly one path.",
 ["inputs"],
 "all small lists over crafted alphabets with shared prefixes of every length, all orders, in each of the three tree implementations",
 "Tests build random trees, in which prefixes longer than two or three bytes are never shared and sparse/dense thresholds are rarely crossed.",
 ["indexedhashestree/shallowtree.go","indexedhashestree/multiplefixednodesize.go","weddingcake/shallowtree.go","weddingcakeback/singletree.go"],
 [("split on next distinguishing byte with gap bytes","*/shallowtree.go"),("fixed-size node serialisation","indexedhashestree/multiplefixednodesize.go")],
 [], ["tree generation and lookup functions"], None)

prop("C22", "Hash text and byte conversions are exact inverses",
 "Converting any 32-byte hash to its display text and back gives the same hash, in the node's byte order (display is byte-reversed hexadecimal); both letter cases are accepted; text that is not exactly 64 characters is rejected with an error. The hash of a byte string, text or integer is its SHA-256 digest (integers as 8 little-endian bytes).",
 ["inputs"],
 "every byte value at every one of the 32 positions, both letter cases, all lengths 0..130, and all integers at byte boundaries",
 "Tests convert a few fixed hashes; a wrong table entry or index shows only for particular byte values at particular positions.",
 ["indexedhashes/hexstring.go","indexedhashes/hashofbytes.go","indexedhashes/hashofint.go","indexedhashes/hashofstring.go","corereader2/utils.go"],
 [("65536-entry lookup of two characters to one byte","indexedhashes/hexstring.go")],
 [], ["indexedhashes.HashHexToSha256, HashSha256ToHexString, HashOf*, corereader2.ToHexHash"])

prop("C23", "Data acknowledged by a sync survives abandoning the process",
 "For every store that offers it (integer files, hash files, hash stores, integer-list maps, chain stores), once a sync has returned success, abandoning the process at any later point without closing loses nothing that was stored before that sync: reopening the store gives back at least those contents (a store that is searched finds every hash synced; a chain store answers every question about the blocks synced). A record stored after that sync may be missing, but none reads back as a value that was never stored there, and the reopened store goes on storing from what it holds. (Abandoning means that the process ends without closing: what it handed to the operating system stays, and a write that extends a file may be cut between records or, in integer files, between bytes.)",
 ["crash_points","histories"],
 "all short histories of stores, syncs and further stores, with the process abandoned after every operation, then reopened and compared with the state at the last sync",
 "Tests always close before reopening; losing buffered data at a crash needs abandonment between specific operations.",
 ["memfile/appendoptimized.go","wordfile/wordfile.go","wordfile/hashfile.go","indexedhashes/hashstore.go","intarrayarray/intarraymapstore.go","intarrayarray/cachedintarraymapstore.go","indexedhashes3/hashstore.go","chainstorage/concreteappendablechain.go","chainstorage/concretehasheschain.go"],
 [("Sync flushes buffers then fsyncs","memfile/appendoptimized.go Sync"),("Sync flushes cached files","intarrayarray/*.go Sync")],
 [], ["Sync() of each store followed by reopening through its creator"])

prop("C24", "The in-memory sample chain is internally coherent",
 "The built-in sample chain satisfies every navigation rule of the chain-reading interface: every block, transaction, input and output reachable by any route is the same object with the same heights, counts and values, ends are reported at the genesis and latest objects and nowhere else, each input's source is an existing output that no other input spends, and asking for the object of a handle that identifies none (another way of naming, a height or position that does not exist) never answers an object.",
 ["programs","inputs"],
 "all sequences of navigation calls from every reachable object until no new object is found",
 "Tests check a few fixed facts; coherence over all routes is a closure property of the whole interface.",
 ["tinychain/blockchain.go","tinychain/blockchain_abstracthelper.go","tinychain/handles.go","tinychain/instances.go","tinychain/transaction.go","tinychain/transaction_abstracthelper.go"],
 [("navigation over static instances","tinychain/blockchain.go")],
 [], ["tinychain chain and handle creator through chainreadinterface"])

prop("C25", "A failed file operation is never passed over in silence",
 "If opening, reading, writing, syncing, truncating, renaming or removing one of a store's files fails while the store is created, opened, appended to, searched, synced or closed, or while a hash index is built in bulk or a chain is stored, then that call, or at the latest the next sync or close, reports an error (or panics). A call that reports nothing answers right: in particular a failed reading is never taken for a hash that is not there, an empty list or a missing optional file. Whatever was said to be stored without any error is really there when the store is reopened, and (cakes that were baking aside) so is what an earlier sync acknowledged.",
 ["fault_sequences","histories"],
 "all histories of store operations up to a bounded depth, times every file operation of each history, times the ways in which it can fail (it fails; a write writes half; the disk is full from then on)",
 "Tests run on a disk that never fails; whether every error is passed on is a statement about each file operation of each history.",
 ["wordfile/*.go","memfile/*.go","indexedhashes/*.go","indexedhashes3/*.go","intarrayarray/*.go","weddingcake*/*.go","chainstorage/*.go"],
 [("flush, and what a failed append leaves","memfile/appendoptimized.go"),("reading the hashes","indexedhashes/multipasspreloader.go"),("loading a bin","indexedhashes3/binfiles.go"),("opening optional files","chainstorage/concreteappendablechainfactory.go")],
 ["C02","C23"], ["every store's creator, read-writer and reader; the bulk index builders; the appendable chain and the hashes chain"])

prop("C26", "Stores and chains used in turn in one process do not affect each other",
 "Two stores, of the same or of different kinds, each in a folder of its own, may be created, opened, written, searched, synced, closed, reopened and read in turn in one process, in any order of turns and with the same or different values: each answers, and afterwards holds on file, exactly what it would if it had been used alone. The same holds of two chains whose hashes are listed and indexed, and whose blocks are appended and read, in turn or one after the other.",
 ["histories","configurations"],
 "all interleavings of pairs of histories of store operations up to a bounded depth, all pairs of kinds of stores, and all pairs of ways of storing a chain, up to a bounded number of turns",
 "Tests use one store or chain at a time, and those that store several chains set package variables back in between; state shared between instances shows only in particular orders of turns.",
 ["chainstorage/concreteappendablechain.go","wordfile/*.go","memfile/*.go","indexedhashes/*.go","indexedhashes3/*.go","intarrayarray/*.go","weddingcake*/*.go"],
 [("what was appended last","chainstorage/concreteappendablechain.go prevTrans, prevFirstTxo"),("scratch buffers","wordfile/wordfile.go; indexedhashes/hashstore.go"),("held arrays","intarrayarray/cachedintarraymapstore.go")],
 ["C01","C05","C14"], ["every store's creator, read-writer and reader; the appendable chain and the hashes chain"])

prop("C27", "A block holder presents its stream of blocks as the chain it is",
 "A block holder (of either chain interface) that is fed parsed blocks, from either format, presents exactly those blocks in order and ends after the last: every block, transaction, input and output reached through it, by whatever handle, has the facts of the block it came from (counts, order, hashes, amounts, scripts or address hashes, sources of inputs, times, median time, sizes, weights, difficulty), names truthfully what it is and where it belongs, and nothing of a block that is not held is given out. Before a block is passed on, the transaction indexer has been told of it and of each of its transactions, once and with the right heights; if the indexer fails, that is passed on. A stream whose blocks do not follow one another is refused at the first that is out of place.",
 ["inputs","histories","configurations"],
 "all chains of blocks up to a bounded length from a set of block shapes, all orders of blocks with one disorder, all failing indexer calls, all short sequences of timestamps",
 "Tests walk one recorded stretch of the real chain; a wrong median at an unusual order of times, a mix-up in blocks with several transactions, a repeated hash or a lost indexer failure shows only on other chains.",
 ["intrinsicobjectscri/*.go","intrinsicobjectschi/*.go","chainhandleinterface/*.go","intrinsicobjects/intrinsictransaction.go"],
 [("held block","intrinsicobjectscri/chain.go OneBlockHolder.currentBlock; intrinsicobjectschi/chain.go"),("window of times","PostIntrinsicCalculateMedianTime"),("what the indexer is told","PostIntrinsicGatherTransHashes")],
 ["C12","C14","C16"], ["intrinsicobjectscri.CreateOneBlockHolder","intrinsicobjectschi.CreateOneBlockHolder","chainhandleinterface receivers"])

prop("C28", "What was interrupted while it was being made can be made again",
 "If the process is abandoned at any point while a store is created or used, an index is built in bulk, or a chain is stored, then creating the store, building the index, or running that phase of storing again in the directory that is left either refuses with an error and touches no file, or gives exactly what it would give in an empty directory: a store that is created again begins empty and holds from then on only what is stored in it, an index that is built again (of the same list of hashes or another, by the same builder or another) answers for its list and nothing else, and a chain whose interrupted phase is run again answers every fact of it. An index can always be built again.",
 ["crash_points","histories","inputs"],
 "all crash points of every creation, bulk build and phase of storing of a bounded set, times what is made there afterwards",
 "Tests make everything in a fresh directory; what is left over shows only when something is interrupted at a particular point and made again.",
 ["wordfile/*.go","indexedhashes/*.go","indexedhashes3/*.go","intarrayarray/*.go","weddingcake*/*.go","chainstorage/*factory.go","jobs/intrinsicparallel.go"],
 [("what is left in the folder","indexedhashes/uniform.go CreateHashStore; intarrayarray/concretemapstorecreator.go CreateMap; weddingcakefront/cakecreator.go CreateHashStore"),("overflow files of an earlier build","indexedhashes/multipasspreloader.go; indexedhashes3/*passpreloader.go"),("refusing what exists","chainstorage/concreteappendablechainfactory.go; chainstorage/concretehasheschainfactory.go")],
 ["C06","C07","C14","C23"], ["every store's creator; the bulk index builders; the appendable chain's and the hashes chain's factories"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
