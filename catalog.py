"""Properties, and how each is checked. tools_gen.py writes properties.jsonl and MANIFEST.json from this."""

COMMON_ASSUMPTIONS = [
    "Sequentially consistent memory: pre-emption can happen before any instrumented load or store, but weak-memory "
    "reorderings of the hardware are not simulated.",
    "The simulated TBB executes the same task graph as the real one (arbitrary splitting, stealing and order), with "
    "up to three workers per arena.",
    "Seeded sampling: a quiet run is evidence over the explored schedules, not a proof.",
]

PROPS = {}
NOT_APPLICABLE = []


def prop(id, title, statement, over, qtext, why, files, mechanism, group, real, stub, **kw):
    PROPS[id] = dict(
        id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
        group=group, real=real, stub=stub, **kw)


def na(id, title, statement, over, qtext, why, files, mechanism, reason, **kw):
    PROPS_NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                         mechanism=mechanism, reason=reason, **kw))


PROPS_NA = []

SD = "omniscidb/StringDictionary/StringDictionary.cpp"
SDH = "omniscidb/StringDictionary/StringDictionary.h"
SIM_RT = ["std::thread/std::async/futures, mutexes, shared mutexes, condition variables, malloc (simulated, owned by the scheduler)",
          "TBB (simulated task graph execution)", "clock (simulated)"]

prop("C01", "A string dictionary is a consistent one-to-one map under concurrency",
     "For any interleaving of concurrent single inserts, bulk inserts, lookups, LIKE/regex/comparison queries, scans "
     "and counts on one string dictionary, every string ever inserted gets exactly one id that never changes, ids are "
     "dense from 0 in insertion order, and no inserted string is lost or duplicated. Every lookup or query returns "
     "exactly the answer for some prefix of the id sequence that contains everything inserted before the call began "
     "and nothing inserted after it returned (or exactly the requested generation). The empty string always maps to "
     "the null id.",
     ["schedule", "history", "input"],
     "all interleavings of client threads and internal workers, all operation sequences, strings (hash collisions, "
     "long strings, wildcards) and storage/hash growth points",
     "The tests insert from one thread and sample a few strings; lost inserts, stale caches or torn growth only show "
     "for particular interleavings of writers, readers and cache invalidations.",
     [SD, SDH], "StringDictionary rw_mutex_, hash table growth, storage growth, like/compare/regex/sorted caches, "
     "parallel bulk insert and TBB/thread workers in queries",
     "dict", ["StringDictionary (legacy implementation, the one hdk uses)", "Utils string matching"], SIM_RT,
     assumptions=["Failing allocations inside the dictionary abort the process by design (noexcept/CHECK) and are "
                  "not injected."])
prop("C02", "A rejected dictionary operation leaves the dictionary consistent",
     "When a bulk insert is rejected because an id does not fit the requested id width, or a lookup is rejected "
     "because a string exceeds the maximum length, an exception reaches the caller and the dictionary stays fully "
     "usable: all earlier ids remain valid, no id is handed out twice or truncated, and later operations from any "
     "thread keep all guarantees of a consistent one-to-one map. The rejected call may have inserted a part of its "
     "strings, but only completely.",
     ["history", "schedule", "fault"],
     "all positions at which the id range is exhausted within a batch, all mixes of widths, all interleavings with "
     "other clients",
     "Needs the overflow in the middle of a batch, with later or concurrent operations observing the state left "
     "behind; the tests only check that an exception is thrown.",
     [SD], "getOrAddBulk/getOrAddBulkParallel overflow paths (shadow counts, hash table entries, cache invalidation)",
     "dict", ["StringDictionary (legacy implementation)"], SIM_RT, level="fault_enumeration",
     rule="runs in which a rejection happened are counted by the bulk_overflow_rejected and long_rejected probes")
prop("C03", "Nested dictionaries and translation maps are consistent",
     "A dictionary nested over a generation of a base dictionary resolves every id below that generation exactly as "
     "the base does, never changes when the base grows later, and gives strings absent from that base prefix their "
     "own stable ids. Intersection and union translation maps between two dictionaries built while both keep growing "
     "map every source string present at the call's start to the destination id of the equal string (or, for an "
     "intersection, to 'absent' only if it was absent when the call began); a union adds exactly the missing strings. "
     "Dictionary equality holds exactly when contents are equal.",
     ["schedule", "history", "input"],
     "all nesting depths up to three, generations, growth of base, nested and unrelated dictionaries concurrent with "
     "translation",
     "The tests nest and translate quiescent dictionaries; the guarantee is about concurrent growth.",
     [SD, SDH], "base_dict_/base_generation_, buildIntersectionTranslationMap, buildUnionTranslationMap, "
     "StringDictionaryTranslator, operator==", "dict",
     ["StringDictionary (legacy implementation)", "StringDictionaryTranslator"], SIM_RT)

BM = "omniscidb/DataMgr/BufferMgr/BufferMgr.cpp"
POOL_REAL = ["BufferMgr, CpuBufferMgr, TieredCpuBufferMgr, GpuBufferMgr, Buffer, CpuBuffer, GpuBuffer, slab allocators",
             "AbstractBuffer, encoders attached to buffers"]
POOL_STUB = ["storage (simulated data provider with zero-copy tokens, errors and partial reads)",
             "GPU driver (simulated device memory with address checking, allocation and copy failures)"] + SIM_RT
prop("C04", "Pinned pool memory is exclusive and stable",
     "While a client holds a pin on a chunk or a scratch buffer of a buffer pool, its memory is never moved, evicted, "
     "freed, overwritten or shared with any other buffer, whatever other threads fetch, allocate, append, evict or "
     "drop at the same time. Writing to or appending to a scratch buffer preserves the bytes already in it, even when "
     "it has to be relocated. A dropped table's chunks disappear from the pool unless someone still uses them, and a "
     "zero-copy buffer keeps its source data alive exactly until its last unpin.",
     ["schedule", "history", "input"],
     "all interleavings of up to four clients over host pools of every small slab/page geometry, chunk size mix and "
     "zero-copy mix",
     "Eviction of a buffer that is just being pinned, or an overlap after segment splitting and merging, needs "
     "particular histories and interleavings; the tests use one thread and a handful of sizes.",
     [BM, "omniscidb/DataMgr/BufferMgr/Buffer.cpp", "omniscidb/DataMgr/BufferMgr/Buffer.h"],
     "pin counts, eviction scoring, segment lists, reserveBuffer relocation, deleteBuffersWithPrefix, delete_on_unpin_",
     "buffer", POOL_REAL, POOL_STUB)
prop("C05", "A fetched chunk equals its source and is fetched once",
     "A chunk obtained from the buffer pool always has at least the requested number of bytes and exactly the "
     "provider's content, also after evictions, drops and growth of the chunk, and is returned pinned. Concurrent "
     "requests for the same chunk lead to one fetch from storage: no second fetch runs while one is in progress or "
     "while a client holds the chunk at the requested size.",
     ["schedule", "history", "input"],
     "all interleavings of up to five clients on a few hot chunks, all growth and eviction points",
     "Duplicate or torn fetches need two requests to race at a particular point of the in-progress protocol.",
     [BM], "getBuffer, in_progress_buffer_cvs_, chunk_index_, parent fetchBuffer",
     "buffer", POOL_REAL, POOL_STUB)
prop("C06", "The buffer pool recovers from storage, copy and allocation failures",
     "When fetching a chunk fails (storage error, partial read, device copy error, failed slab allocation) the "
     "requesting caller gets the error, callers waiting for the same chunk either get the chunk or an error of their "
     "own, nobody hangs, and no half-filled buffer is ever handed out. After the failures stop and all pins are "
     "released, no pool memory is lost: every chunk can be fetched again with the right content and any request that "
     "fits an empty slab is served.",
     ["fault", "schedule", "history"],
     "all positions of injected storage, copy and allocation failures within concurrent histories",
     "Tests inject no failures; the failure must hit while others wait for the same chunk.",
     [BM, "omniscidb/DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.cpp",
      "omniscidb/DataMgr/BufferMgr/GpuBufferMgr/GpuBufferMgr.cpp"],
     "getBuffer/fetchBuffer error paths, in_progress_buffer_cvs_, addSlab failure, createBuffer OOM path",
     "buffer", POOL_REAL, POOL_STUB, level="fault_enumeration")
prop("C07", "Host and device pool levels stay coherent",
     "For every interleaving of requests for the same chunks on several devices and on the host, a chunk fetched to "
     "any level has exactly the provider's bytes and size, each device only touches memory it allocated, and the "
     "storage is never asked twice at the same time for one chunk. Pins at one level protect the copy during "
     "transfers to another level, growth of a chunk reaches every level, and all pins taken internally are released.",
     ["schedule", "history", "input"],
     "all interleavings over one to three devices sharing a host pool under memory pressure at each level",
     "Needs devices racing for the same host chunk under eviction; there is no device in the test environment.",
     [BM, "omniscidb/DataMgr/BufferMgr/GpuBufferMgr/GpuBufferMgr.cpp", "omniscidb/DataMgr/AbstractBuffer.cpp"],
     "child getBuffer -> parent fetchBuffer -> copyTo, per-level in-progress marks and pins",
     "buffer", POOL_REAL, POOL_STUB)
prop("C08", "Buffer pool accounting, layout and capacity limits hold",
     "At every moment the pool's memory report shows segments that tile each slab without overlap or hole, at most "
     "one used segment per chunk, and an allocated size equal to the sum of slabs and never above the configured "
     "limit. At quiescence the in-use size equals the used segments, freed scratch buffers occupy nothing, a request "
     "up to the largest slab succeeds when nothing is pinned, and clearing an unused pool returns it to empty and "
     "usable.",
     ["history", "schedule", "fault", "config"],
     "all allocation/free/append/evict/drop histories over random page, slab and limit configurations with failing "
     "slab allocations",
     "Leaks and overlaps come from particular split/merge/evict sequences and allocation failures.",
     [BM], "slab_segments_, findFreeBuffer, evict, removeSegment, reserveBuffer, clearSlabs, addSlab back-off",
     "buffer", POOL_REAL, POOL_STUB)

OWNER = ["omniscidb/ResultSet/RowSetMemoryOwner.h", "omniscidb/ResultSet/RowSetMemoryOwner.cpp",
         "omniscidb/DataMgr/Allocators/ArenaAllocator.h"]
prop("C09", "Memory of query results is exclusive, stable and released exactly once",
     "Whatever several kernels and readers request from one result memory owner at the same time, each piece of "
     "memory it hands out is valid, aligned, big enough, shared with nobody and unchanged until the owner dies; count "
     "distinct buffers start zeroed; stored strings, arrays, digests, quantiles and data tokens keep their address and "
     "content. There is one proxy per dictionary (also when it has been removed from its storage meanwhile) and one "
     "literal dictionary, so no id is ambiguous, and one translation map per pair. A failing allocation is reported to "
     "its caller only and loses or corrupts nothing. When the owner dies everything it owns is released once and "
     "inputs are unpinned; a clone keeps sharing the dictionaries.",
     ["schedule", "fault", "history", "input"],
     "all interleavings of up to four clients, allocation sizes around the pool thresholds, positions of failing "
     "allocations, dictionary growth and removal",
     "The tests use one owner from one thread, never fail an allocation and never look at what two threads got.",
     OWNER, "state_mutex_, small_mem_pools_, Arena, str_dict_proxy_owned_, lit_str_dict_proxy_, data_tokens_",
     "rsowner", ["RowSetMemoryOwner, Arena, Quantile, TDigest", "StringDictionary (legacy implementation)"],
     ["data provider (simulated catalog of dictionaries that can be removed)", "GPU input buffers (counting pins)"] + SIM_RT)
prop("C12", "IR types are interned: equal requests give one type, under any interleaving",
     "Within one context any number of threads asking for the same type get the same object, different types are "
     "different objects and never compare equal, and every type has exactly the requested attributes (size, "
     "nullability, unit, precision, scale, element type, dictionary). Invalid combinations are rejected without side "
     "effects. Deriving (changing nullability or size, canonicalising), copying to another context, and printing and "
     "parsing back give exactly the type described.",
     ["schedule", "input", "history"],
     "all interleavings of threads creating, deriving, copying and parsing types in several contexts",
     "Interning races need two threads to create the same type at the same moment; a duplicate only shows later, when "
     "two equal types compare unequal.",
     ["omniscidb/IR/Context.cpp", "omniscidb/IR/Type.cpp"], "ContextImpl type caches and their locks, Type::equal, toString",
     "types", ["IR Context, Type"], SIM_RT)
prop("C14", "Exact quantiles do not depend on how the values were collected",
     "For any split of the values among parallel kernels, any order and shape of merging, any size (including values "
     "filling memory chunks exactly) and failed and retried allocations, a quantile equals the one computed from the "
     "sorted multiset of all values with the requested interpolation, for every value type; no value is lost, "
     "duplicated or overwritten by another kernel; an intermediate read changes nothing; no values give null.",
     ["input", "schedule", "fault"],
     "all splits, merge trees, chunk fill levels, value types, quantile positions and interpolations",
     "Chunk boundaries and merge shapes are decided by data sizes and scheduling; tests use small inputs.",
     ["omniscidb/Shared/quantile.h", "omniscidb/ResultSet/QuantileAccessors.cpp"],
     "ChunkedArray push/merge/iterator, Quantile::finalize, allocateSmallMtNoLock",
     "rsowner", ["Quantile, quantile accessors, RowSetMemoryOwner"], SIM_RT)
prop("C10", "Result sets show exactly their rows through every access path and reader",
     "For every storage layout (projection, perfect and baseline hash, non-grouped; row-wise and columnar; padded or "
     "narrow slots; keyless), any number of appended storages, any filling, ordering, limit and offset, the rows "
     "shown by iteration, the shared cursor, random access, single-column access, the internal accessors used for "
     "ordering, columnar buffers and copies, and variable-length offsets are the same rows, each once and in order, "
     "with the values, nulls, strings (dictionary encoded, stored or lazily fetched from fragments of any sizes), "
     "arrays, averages, top-k and quantiles that the storage holds. Row counts, emptiness and entry counts agree with "
     "them, before and after being cached, and concurrent readers see the same as one reader.",
     ["input", "schedule", "history", "fault"],
     "all layouts, entry counts (across the thresholds of the parallel paths), fragmentations, permutations and "
     "interleavings of up to four readers with failing allocations",
     "The tests cover a few fixed layouts from one thread; limits, appended storages, uneven fragments and concurrent "
     "first reads multiply beyond them.",
     ["omniscidb/ResultSet/ResultSet.cpp", "omniscidb/ResultSet/ResultSetIteration.cpp",
      "omniscidb/ResultSet/ResultSetStorage.cpp", "omniscidb/ResultSet/QueryMemoryDescriptor.cpp",
      "omniscidb/ResultSet/ColSlotContext.cpp"],
     "findStorage, advanceCursorToNextEntry, getRowAt, parallelRowCount, getColumnFrag, cached_row_count_, "
     "getChunkedColumnarBuffer, TargetAccessors",
     "resultset", ["ResultSet, ResultSetStorage, QueryMemoryDescriptor, ColSlotContext, ChunkIter",
                   "RowSetMemoryOwner, StringDictionary, Quantile"],
     ["the query kernels that fill the storage (an independent writer of each layout)"] + SIM_RT)
prop("C11", "Chunks served from any storage and memory level carry exactly the stored column",
     "For every registered storage, table, column type, fragment and memory level, a chunk obtained from the data "
     "manager holds exactly the bytes of that fragment (data and offsets for variable-length types), and reading it "
     "row by row, sequentially or at random positions, gives exactly the stored values and nulls, also for several "
     "concurrent clients, after eviction, on devices, when served without copying and when the storage or a device "
     "fails in between. Requests, metadata, dictionaries and deletions go to the storage named by the id and to no "
     "other. A held chunk stays resident and unchanged until released; a storage error reaches the requesting client "
     "only, leaves nothing half-loaded behind, and the same request succeeds later. Once nothing is held, all memory "
     "can be reclaimed and no zero-copy token stays alive.",
     ["schedule", "fault", "history", "input"],
     "all interleavings of up to four clients over three storages, sixteen column types, chunk sizes, pool sizes, "
     "positions of storage, device and allocation failures",
     "The tests fetch a few chunks of one storage from one thread and never let a storage fail or memory run out "
     "between the two parts of a variable-length chunk.",
     ["omniscidb/DataMgr/Chunk/Chunk.cpp", "omniscidb/DataMgr/DataMgr.cpp",
      "omniscidb/DataMgr/PersistentStorageMgr/PersistentStorageMgr.cpp", "omniscidb/Utils/ChunkIter.cpp",
      "omniscidb/DataMgr/DataMgrDataProvider.cpp"],
     "Chunk::getChunkBuffer/unpinBuffer, DataMgr::getChunkBuffer, PersistentStorageMgr routing, ChunkIter",
     "chunk", ["DataMgr, PersistentStorageMgr, Chunk, ChunkIter, buffer managers, DataMgrDataProvider"],
     ["storages (simulated data providers)", "GPU (simulated device memory and copies)"] + SIM_RT)
prop("C13", "Chunk statistics equal those of the data, however it was split and combined",
     "For every column type and any split of its values among parallel workers, calls, value-wise, raw or encoded "
     "bulk updates, and any order of combining partial statistics, the reported minimum, maximum and presence of nulls are "
     "exactly those of the values (nulls and markers of null arrays never count as values; no values give an empty range "
     "that is neutral when merged). They survive copying, synchronising buffers, writing and reading back, and "
     "resetting reports whether anything changed. Dates that do not fit are rejected and leave the statistics "
     "unchanged. Lazily computed statistics are computed once, on first use, and metadata compare equal exactly when "
     "type, counts and statistics are.",
     ["input", "schedule", "history"],
     "all column and element types, value multisets (limits of the type, null markers), splits, orders of combination",
     "The tests use one thread and a handful of values per type; narrow date and time types, empty parts and merging "
     "orders are not covered.",
     ["omniscidb/DataMgr/FixedLengthEncoder.h", "omniscidb/DataMgr/NoneEncoder.h", "omniscidb/DataMgr/DateDaysEncoder.h",
      "omniscidb/DataMgr/ArrayNoneEncoder.h", "omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h",
      "omniscidb/DataMgr/StringNoneEncoder.cpp", "omniscidb/DataMgr/ChunkMetadata.h", "omniscidb/DataMgr/AbstractBuffer.cpp"],
     "updateStats, updateStatsEncoded, reduceStats, copyMetadata, mergeStats, ChunkMetadata::maybeMaterializeStats",
     "chunk", ["Encoder and its subclasses, ChunkMetadata, AbstractBuffer"], SIM_RT)
prop("C15", "Registered query results serve exactly their rows as tables to all clients",
     "A result registered as a temporary table (one or several parts, any layout, ordering, limit, offset, lazily "
     "fetched or variable-length columns) shows, through row access, iteration, table and chunk metadata, statistics, "
     "schema, dictionaries and fetched chunks (through the buffer pool or without copying), exactly the rows of the "
     "result, to any number of concurrent clients and also when results are shared by several tables. The head and "
     "tail of a table are its first and last rows in order; metadata sizes equal the fetched data; statistics are "
     "exact or those that were set. A table and its dictionaries exist exactly as long as a token for it does; chunks "
     "held at that time stay valid; the result can be registered again.",
     ["schedule", "history", "input"],
     "all interleavings of up to three clients putting, cutting, reading, fetching and dropping up to six tables",
     "The registry has no test of its own; concurrent first reads, shared results, cut tables and repeated "
     "registration are not sampled by any test.",
     ["omniscidb/ResultSetRegistry/ResultSetRegistry.cpp", "omniscidb/ResultSetRegistry/ColumnarResults.cpp",
      "omniscidb/ResultSetRegistry/ResultSetMetadata.cpp", "omniscidb/ResultSetRegistry/ResultSetTableToken.cpp"],
     "put/drop/head/tail, getTableMetadata, synthesizeMetadata, ColumnarResults, getZeroCopyBufferMemory",
     "registry", ["ResultSetRegistry, ResultSetTableToken, ColumnarResults, synthesizeMetadata",
                  "ResultSet, DataMgr, buffer pool, Chunk, encoders, StringDictionary"],
     ["the query kernels that fill the storage", "Arrow (not linked; toArrow is not run)"] + SIM_RT)
ENGINE_FILES = ["omniscidb/QueryEngine/RelAlgExecutor.cpp", "omniscidb/QueryEngine/Execute.cpp",
                "omniscidb/QueryEngine/ExecutionKernel.cpp", "omniscidb/QueryEngine/WorkUnitBuilder.cpp",
                "omniscidb/QueryEngine/RowFuncBuilder.cpp", "omniscidb/QueryEngine/TargetExprBuilder.cpp",
                "omniscidb/QueryEngine/ColumnFetcher.cpp", "omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp",
                "omniscidb/QueryBuilder/QueryBuilder.cpp", "omniscidb/ResultSet/ResultSet.cpp"]
ENGINE_REAL = ["QueryBuilder, IR, RelAlgExecutor, WorkUnitBuilder, code generation and LLVM JIT, generated code, "
               "ExecutionKernel, ColumnFetcher, join hash tables and their caches, result set reduction and sort, "
               "DataMgr, buffer pool, ResultSetRegistry, StringDictionary"]
ENGINE_STUB = ["table storage (simulated data provider: fragments, statistics, dictionaries, zero-copy, errors)",
               "Calcite (queries are built with QueryBuilder)", "GPU (not run)", "Arrow (not linked)",
               "generated code and LLVM run uninstrumented (no pre-emption inside them)"] + SIM_RT
prop("C16", "A query returns the answer of its relational meaning",
     "For every query built from scans, filters, projections, grouped and ungrouped aggregates, sorts with limit and "
     "offset, inner and left equi-joins and earlier results, over every content of the tables (nulls, empty tables "
     "and fragments, limits of the types), the rows returned on CPU are exactly those of the query's relational "
     "meaning, whatever the fragmentation, the number of threads, the order in which kernels run, the result layout "
     "(row-wise or columnar, lazy fetch, direct columnarisation), the size estimates, the hash table and estimator "
     "caches and the other execution options are; an ordered result is ordered; asking again gives the same answer. "
     "No query crashes or hangs the process.",
     ["input", "schedule", "history"],
     "all queries of the family, table contents, fragmentations, option vectors, kernel schedules, repetitions",
     "The tests run fixed queries over fixed tables with default options; here none of the engine tests can even be "
     "built. Option vectors, fragment boundaries and kernel order interact with each layout.",
     ENGINE_FILES,
     "executeRelAlgQuery, createWorkUnit, compileWorkUnit, launchKernels, collectAllDeviceResults, reduce, sort, "
     "getAllTableColumnFragments, PerfectJoinHashTable, BaselineJoinHashTable",
     "engine", ENGINE_REAL, ENGINE_STUB, quick_s=120)
prop("C17", "A query whose storage or memory fails reports an error, and only that",
     "When reading the storage fails or the buffer pool is too small while a query runs, at any point and in any "
     "kernel, the query either returns its correct answer or fails with an error: it never returns other rows, "
     "crashes, hangs or runs on data that was not read. Results obtained earlier stay intact. Once the storage works "
     "again, the same query (repeated on the same executor, with whatever is in its caches) returns its correct "
     "answer, and after clearing memory nothing of the storage is held.",
     ["fault", "schedule", "history"],
     "all positions of storage errors in a query and its kernels, pool sizes, options, repetitions after the failure",
     "No test makes a storage fail in the middle of a query or uses a pool smaller than the query needs.",
     ENGINE_FILES,
     "ExecutionKernel::run, Executor::launchKernels, ColumnFetcher, handleOutOfMemoryRetry, handlePersistentError, "
     "HashJoin::fetchJoinColumn, hash table and cardinality caches",
     "engine", ENGINE_REAL, ENGINE_STUB, quick_s=120)
prop("C18", "Concurrent queries do not influence each other",
     "Any number of clients may run queries at the same time on executors of their own over the same tables, data "
     "manager, result registry and process-wide code and hash table caches: every query returns exactly the answer "
     "it returns when run alone, and none crashes, aborts or blocks the others, in every interleaving of planning, "
     "compilation, fetching, execution, reduction, reading and dropping of results.",
     ["schedule", "input"],
     "all interleavings of up to three clients with up to two queries each",
     "The tests run one query at a time.",
     ENGINE_FILES + ["omniscidb/QueryEngine/CodeCacheAccessor.h"],
     "CodeCacheAccessor, Executor::s_code_accessor, hash table caches, ResultSetRegistry, DataMgr, executor locks",
     "engine", ENGINE_REAL, ENGINE_STUB, quick_s=120)
prop("C19", "Cost model predictions and splits are those of the last full calibration",
     "Any number of clients may ask for a split of query work while others calibrate the model. Every prediction is one "
     "that a single complete set of measurements explains (never a mixture of two calibrations), splits the whole work "
     "among the devices without losing or repeating any part, and is, up to the step of the search, as fast as any other split according to "
     "those measurements. A calibration whose measurements fail, are missing or are degenerate changes nothing: the "
     "previous models stay in force, later calibrations work, and the process does not crash. Estimated run times follow the "
     "measurements (the fitted line, or interpolation between and extrapolation beyond the nearest measured sizes) and "
     "are never negative, for all sizes. Execution policies assign each fragment to one valid device, in the "
     "proportions asked for.",
     ["schedule", "fault", "input", "history"],
     "all interleavings of up to three predicting and calibrating clients, measurement sets, data sizes to 2^40 bytes, "
     "failing and degenerate data sources, fragment counts and proportions",
     "The tests calibrate once from one thread with well-formed measurements.",
     ["omniscidb/QueryEngine/CostModel/CostModel.cpp", "omniscidb/CostModel/IterativeCostModel.cpp",
      "omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp",
      "omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp",
      "omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp",
      "omniscidb/QueryEngine/CostModel/Dispatchers/RRExecutionPolicy.cpp"],
     "CostModel::calibrate, IterativeCostModel::predict, getExtrapolatedData, scheduleSingleFragment",
     "costmodel", ["CostModel, IterativeCostModel, extrapolation models, execution policies, data sources' interface"],
     ["measurements (simulated data sources: values, errors, missing and degenerate sets)"] + SIM_RT)
prop("C20", "Approximate quantiles are close, and no value is lost however the work was split",
     "For every stream of values (any order, repeats, any magnitude), every split of it among kernels that fill digests "
     "concurrently from one memory owner, and every order of merging, the total weight equals the number of values, "
     "the smallest and largest values are exact, the quantile is exact while no more values than centroids were given, "
     "and otherwise its rank is within a bound that shrinks with the number of centroids; it lies between the minimum "
     "and the maximum. No digest ever uses more than the centroids it was given, and none "
     "touches memory of another.",
     ["input", "schedule", "history"],
     "all value streams (sorted, reversed, repeated, far apart), buffer and centroid capacities, splits over up to four "
     "kernels and merge trees",
     "The tests feed a few distributions to one digest with default capacities.",
     ["omniscidb/Shared/approx_quantile.h", "omniscidb/ResultSet/RowSetMemoryOwner.h"],
     "TDigest::add/mergeBuffer/mergeTDigest/mergeCentroids/quantile, RowSetMemoryOwner::nullTDigest",
     "rsowner", ["TDigest, CentroidsMerger, RowSetMemoryOwner"],
     ["the query kernels that feed the digests"] + SIM_RT)
prop("C21", "Parallel sorts by key are sorts, in every schedule",
     "For every array of keys and values of any width and length, every number of workers and every interleaving, the "
     "parallel sort by key leaves the keys in order, each value next to the key it came with, nothing lost, repeated or "
     "written outside the arrays, with any strict weak order, also when several sorts run at the same time.",
     ["schedule", "input"],
     "all lengths across the sequential and parallel thresholds, key distributions (equal, sorted, reversed, few values), "
     "orders, worker counts and schedules",
     "The tests sort a few arrays of random keys in whatever schedule the machine gives.",
     ["omniscidb/Shared/parallel_sort.h"],
     "parallel_sort_by_key, insertion_sort_by_key, quick_sort_range_by_key",
     "types", ["parallel_sort.h"], SIM_RT)

prop("C22", "The catalogue shows whole tables: lookups and lists agree at any time",
     "Whatever tables clients create and drop at the same time, in any number of schemas and databases, a table that exists is "
     "found by its id, by its name and in the list of its database with the properties it was created with, and so are "
     "its columns, in the order of their ids; a dropped table, its columns and its name are gone; nobody sees half a table "
     "or a table of another database or schema, neither in a store's catalogue nor through the merged one.",
     ["schedule", "history"],
     "all histories of creating, dropping (and reusing the names), looking up and listing tables by several clients, schema "
     "ids and database numbers up to their limits, merged and direct catalogues",
     "The tests look a few tables up in one thread.",
     ["omniscidb/SchemaMgr/SimpleSchemaProvider.h", "omniscidb/SchemaMgr/SchemaMgr.cpp", "omniscidb/SchemaMgr/SchemaProvider.h",
      "omniscidb/SchemaMgr/TableInfo.h", "omniscidb/SchemaMgr/ColumnInfo.h"],
     "SimpleSchemaProvider::{getTableInfo,getColumnInfo,listTables,listColumns,addTableInfo,addColumnInfo,dropTable}, SchemaMgr, mergeProviders",
     "types", ["SimpleSchemaProvider", "SchemaMgr"], SIM_RT)
