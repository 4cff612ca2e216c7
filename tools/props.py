HOOKS = dict(guard='none', enable='no hooks: the harnesses observe the code through its API, link-time substitution and compiler instrumentation',
             source_commits=[])
NA = {}
SD = 'omniscidb/StringDictionary/'
BM = 'omniscidb/DataMgr/BufferMgr/'
DFS = 'exhaustive depth-first enumeration of bounded operation/environment histories on the real code against a reference model'
N_DFS = ('every history within the stated bounds is executed on the real implementation (built with AddressSanitizer) and compared with an '
         'independent reference model; crashes and hangs count as violations. Nothing is claimed beyond the bounds.')

prop('C01', 'String ids are a stable bijection between distinct strings and ids',
     'Adding strings to a dictionary, one by one or in bulk and in any order, gives equal strings one id and different strings different ids, ids stay '
     'dense and never change, and every id reads back the exact string that was added (the empty string and null included). Looking up a string '
     'never seen gives the invalid id and adds nothing, whether or not hash collisions, growth, a nested base dictionary or 8 and 16-bit id columns are involved. '
     'An id that does not fit the requested width is refused and leaves the dictionary as it was.',
     ['histories', 'inputs', 'configurations'],
     'all interleaved sequences of single adds, bulk adds (serial and parallel path), lookups, id reads, nesting and generation changes up to the depth bound, over alphabets with empty strings, real 32-bit hash collisions and growth across resize points',
     'tests add a few fixed batches into one dictionary; they never mix colliding hashes, nesting generations and growth in one history',
     [SD + 'StringDictionary.cpp', SD + 'StringDictionary.h'],
     [('open-addressing hash index with stored hashes', SD + 'StringDictionary.cpp: computeBucket*, getOrAddBulk*, increaseHashTableCapacity*'),
      ('base dictionary delegation by generation', SD + 'StringDictionary.cpp: getIdOfString, getStringUnlocked')],
     [('string_id_string_dict_hash_table_', 'bucket to id', SD + 'StringDictionary.h')],
     ['StringDictionary::getOrAdd, getOrAddBulk, getIdOfString, getString, getStringBytes, getBulk, storageEntryCount'],
     DFS, N_DFS)
prop('C02', 'Dictionary searches find exactly the matching ids, whatever was cached',
     'LIKE, ILIKE, regular-expression and comparison searches over a dictionary return exactly the ids below the requested generation whose strings satisfy the '
     'predicate, each once. The answer does not depend on earlier searches, on strings added in between, on sorted or search caches, or on whether '
     'strings live in a base dictionary.',
     ['histories', 'inputs'],
     'all sequences of adds and searches (kind, pattern, escape, operator, generation) up to the depth bound on flat and nested dictionaries',
     'tests search once over a filled dictionary; stale caches only show in add/search/add/search histories with different generations',
     [SD + 'StringDictionary.cpp'],
     [('like/regex/compare caches and sorted cache', SD + 'StringDictionary.cpp: getLike, getCompare, getEquals, buildSortedCache, invalidateInvertedIndex')],
     (), ['StringDictionary::getLike, getRegexpLike, getCompare'], DFS, N_DFS)
prop('C03', 'Id translation between dictionaries matches their strings',
     'A translation map from one dictionary to another sends every source id below the source generation to the id of the same string in the destination below its generation, '
     'and to the invalid id when the destination lacks it. A union map gives every string missing from the destination one new id of its own, and counts them exactly.',
     ['histories', 'inputs'],
     'all pairs of small dictionaries (flat, nested, sharing a base) with all generations, built by every add order',
     'tests translate two fixed dictionaries at their full size; generations and shared base dictionaries are not covered',
     [SD + 'StringDictionary.cpp', SD + 'StringDictionaryProxy.cpp'],
     [('translation map construction', SD + 'StringDictionary.cpp: buildDictionaryTranslationMap, buildUnionTranslationMap')],
     (), ['StringDictionary::buildDictionaryTranslationMap'], DFS, N_DFS)
prop('C05', 'Buffer pool always serves a chunk its own bytes and never loses pinned data',
     'Whatever sequence of fetches, growth, pins, deletions, clears and evictions a buffer pool sees, a fetched chunk holds exactly its storage bytes, pinned buffers '
     'keep their memory, content and pin count, and no two live buffers share memory. Page accounting stays exact and within the pool limit, and memory runs out only when no '
     'contiguous run of unpinned pages is big enough. A failed storage read, copy or allocation is reported to the caller and leaves neither pins nor wrong data behind.',
     ['histories', 'fault_sequences', 'configurations'],
     'all sequences of pool operations up to the depth bound, with a storage-read or slab-allocation failure at every point, on single, tiered and stacked pools of several shapes',
     'the stable tests do not exercise the buffer pool at all; eviction and error paths depend on the exact history of layout and recency',
     [BM + 'BufferMgr.cpp', BM + 'Buffer.cpp', BM + 'CpuBufferMgr/CpuBufferMgr.cpp', BM + 'CpuBufferMgr/TieredCpuBufferMgr.cpp'],
     [('segment lists per slab, eviction by recency score', BM + 'BufferMgr.cpp: findFreeBuffer, evict, removeSegment, reserveBuffer'),
      ('fetch through parent', BM + 'BufferMgr.cpp: getBuffer, fetchBuffer')],
     [('chunk_index_', 'chunk key to segment', BM + 'BufferMgr.h')],
     ['BufferMgr::getBuffer, fetchBuffer, alloc, free, getMemoryInfo'], DFS, N_DFS)

DM = 'omniscidb/DataMgr/'
prop('C07', 'Chunk statistics and iteration match the values stored in the chunk',
     'For every column type, the minimum, maximum, null flag and row count a chunk reports are exactly those of the values added to it since the last reset, however the values '
     'arrived (raw, encoded, one by one, merged from another chunk, copied, written and read back); nulls and null arrays never count as values. Values that do not fit the column encoding are refused. '
     'Iterating or indexing a chunk returns each stored value and null in order, and the number of values reported to fit a byte limit is exact.',
     ['histories', 'inputs'],
     'all histories of statistic updates up to the depth bound over small value domains with nulls and extremes, for every scalar and array type; all small chunks iterated from every start and stride',
     'tests feed one batch per encoder; merged, repeated and empty batches of narrow encodings are not covered',
     [DM + 'FixedLengthEncoder.h', DM + 'DateDaysEncoder.h', DM + 'NoneEncoder.h', DM + 'ArrayNoneEncoder.h', DM + 'FixedLengthArrayNoneEncoder.h', DM + 'StringNoneEncoder.cpp', DM + 'ChunkMetadata.h', 'omniscidb/Utils/ChunkIter.cpp'],
     [('per-chunk min/max/null statistics', DM + '*Encoder.h: updateStats, updateStatsEncoded, reduceStats, resetChunkStats'),
      ('chunk iterators', 'omniscidb/Utils/ChunkIter.cpp: ChunkIter_get_next, ChunkIter_get_nth')],
     (), ['Encoder::getMetadata, ChunkIter_get_nth'], DFS, N_DFS)
prop('C14', 'Dates and times follow the calendar for every instant, field and precision',
     'Extracting a field, truncating, adding an interval and taking a difference give the proleptic Gregorian calendar result for every instant before and after 1970 and for every precision from '
     'seconds to nanoseconds; nulls stay null. Parsing accepts every supported date, time and time-zone notation with its exact value and rejects out-of-range fields, and printing a timestamp '
     'reads back as the same instant. Conversions between units, days and times of day are exact, or refused when they overflow.',
     ['inputs'],
     'every day of many centuries at several times of day, every second of special days, all pairs of month-boundary dates, all supported text formats',
     'tests sample a handful of literals; leap centuries, dates before 1970 and beyond 2036 take separate code paths',
     ['omniscidb/Utils/ExtractFromTime.cpp', 'omniscidb/Utils/ExtractStringFromTime.cpp', 'omniscidb/QueryEngine/DateTruncate.cpp', 'omniscidb/QueryEngine/DateAdd.cpp', 'omniscidb/QueryEngine/DateTimeUtils.h',
      'omniscidb/Shared/DateTimeParser.cpp', 'omniscidb/Shared/DateConverters.h'],
     [('400-year eras starting in March', 'omniscidb/Utils/ExtractFromTime.cpp'), ('32-bit fast paths for 1970..2036', 'omniscidb/QueryEngine/DateTruncate.cpp: datetrunc_*_impl'),
      ('format list parser', 'omniscidb/Shared/DateTimeParser.cpp: DateTimeParser::parse')],
     (), ['ExtractFromTime, DateTruncate, DateAdd, DateDiff, dateTimeParse, getStrTStamp'],
     'exhaustive enumeration of the bounded calendar space on the real code against a day-by-day reference calendar', N_DFS)

prop('C15', 'LIKE, ILIKE, REGEXP and string comparison give the SQL answer for all text',
     'LIKE and ILIKE match exactly the strings the pattern describes: any run for %, any one character for _, one of a set for brackets, the literal character after the escape, for every choice of escape '
     'character; malformed patterns match nothing. Regular expressions match the whole string, comparisons order strings by unsigned bytes with a shorter prefix first, and a null operand gives null. '
     'No pattern or text makes them read outside their input.',
     ['inputs'],
     'all patterns over wildcards, brackets, escapes and letters against all strings up to the length bounds; all pairs of short byte strings; all regular expression trees up to a size',
     'tests use a few friendly patterns; backtracking, brackets next to wildcards and escapes at the end only fail on specific combinations',
     ['omniscidb/Utils/StringLike.cpp', 'omniscidb/Utils/Regexp.cpp'],
     [('recursive wildcard matcher', 'omniscidb/Utils/StringLike.cpp: string_like_match'), ('byte comparison', 'omniscidb/Utils/StringLike.cpp: StringCompare')],
     (), ['string_like, string_ilike, string_like_simple, regexp_like, string_lt and the _nullable variants'],
     'exhaustive enumeration of patterns and strings within length bounds on the real code against a set-based reference matcher', N_DFS)

QE = 'omniscidb/QueryEngine/'
N_E2E = ('every query of the stated family is built with the public query builder, compiled and executed by the real engine on complete boundary tables and compared row by row with an independent '
         'reference evaluator; errors are part of the expected answer. Arrow is replaced by a stub and data comes from an in-memory provider. Nothing is claimed beyond the bounds.')
E2E = 'exhaustive enumeration of a bounded family of queries and input rows on the real engine against a reference interpreter'
prop('C08', 'Scalar expressions and casts give the exact SQL value or an error',
     'Arithmetic, bitwise, comparison and cast expressions over every combination of integer, decimal, floating-point, boolean, date and time types, nullable or not, on columns or literals, give the mathematically right value for every row: '
     'a null operand gives null, integer or decimal results that do not fit and divisions by zero are reported as errors instead of wrapping, decimals are rounded half away from zero, and constant folding changes nothing. '
     'String expressions (LIKE, comparison, length, case) over dictionary and plain columns give the value of the text.',
     ['inputs', 'configurations'],
     'every operator and cast over every pair of column types with every nullability on all pairs of boundary values, each with columns and literals in either position, and nested two deep',
     'tests check a few literals per operator; overflow limits, null sentinels and mixed widths interact differently for each combination of types',
     [QE + 'ArithmeticIR.cpp', QE + 'CastIR.cpp', QE + 'CompareIR.cpp', QE + 'ConstantIR.cpp', QE + 'RuntimeFunctions.cpp', QE + 'ExpressionRewrite.cpp', 'omniscidb/Analyzer/Analyzer.cpp', 'omniscidb/QueryBuilder/QueryBuilder.cpp'],
     [('overflow checks before each operation', QE + 'ArithmeticIR.cpp: codegenAdd, codegenSub, codegenMul, codegenDiv'), ('scale changes and narrowing', QE + 'CastIR.cpp: codegenCastBetweenIntTypes'),
      ('constant folding', QE + 'ExpressionRewrite.cpp: ConstantFoldingVisitor')],
     (), ['results of projections built with QueryBuilder'], E2E, N_E2E)
prop('C09', 'Conditions follow three-valued logic and filters keep exactly the true rows',
     'AND, OR, NOT, IS NULL, IN, BETWEEN and CASE over any mix of true, false and unknown give the SQL truth value; a filter keeps exactly the rows whose condition is true. Evaluation order, short-circuiting and rewriting '
     'never change an answer, and an operand that would fail is evaluated only where its value can matter.',
     ['inputs'],
     'all boolean trees of two connectives over atoms that may be unknown or fail, and all CASE forms, on every combination of null, false and true inputs, used both as a value and as a filter',
     'the number of combinations of null inputs and connective shapes is far beyond the sampled tests',
     [QE + 'LogicalIR.cpp', QE + 'CaseIR.cpp', QE + 'InValuesIR.cpp', QE + 'ExpressionRewrite.cpp', QE + 'RuntimeFunctions.cpp'],
     [('deferred evaluation of unlikely operands', QE + 'LogicalIR.cpp: codegenLogicalShortCircuit, prioritizeQuals')],
     (), ['results of projections and filters built with QueryBuilder'], E2E, N_E2E)

SCH = 'stateless model checking of the real code under a controlled scheduler: every schedule up to a preemption bound, with vector-clock race detection and deadlock detection'
N_SCH = ('the code is compiled with thread instrumentation and run under a scheduler that decides every synchronisation operation; all schedules within the preemption bound are executed, data races, '
         'deadlocks, uses of freed memory and wrong results count as violations. Beyond the preemption bound, thread count and program menu nothing is claimed; weak memory effects appear as races.')
prop('C06', 'Concurrent clients of the buffer pools never corrupt, lose or mix up chunks',
     'When several threads fetch, pin, unpin, allocate, free, drop tables and inspect a buffer pool at the same time, in any schedule, everyone sees the complete right bytes of the chunk while holding it, a chunk is read from storage only once at a time, '
     'a failing read is reported to the thread that asked and leaves no trace, and in the end no pins, memory or index entries are left over. Pool state is never accessed without its lock and no schedule deadlocks. This also holds for device pools stacked on one host pool.',
     ['schedules', 'fault_sequences'],
     'all schedules within the preemption bound of two or three clients, each running any program of a menu, from several initial pool states, with a storage read failing for the first reader',
     'a test runs one schedule; lost wake-ups, eviction during creation and lock-order problems need a specific interleaving',
     [BM + 'BufferMgr.cpp', BM + 'Buffer.cpp', BM + 'Buffer.h', BM + 'CpuBufferMgr/CpuBufferMgr.cpp'],
     [('in-progress fetches per chunk with condition variables', BM + 'BufferMgr.cpp: getBuffer, fetchBuffer'), ('lock order: segments, index, unsized segments', BM + 'BufferMgr.cpp'), ('pin counts', BM + 'Buffer.h: pin, unPin, deleteWhenUnpinned')],
     [('in_progress_buffer_cvs_', 'chunks being fetched', BM + 'BufferMgr.h')],
     ['BufferMgr::getBuffer, fetchBuffer, alloc, free, deleteBuffersWithPrefix, getMemoryInfo'], SCH, N_SCH)

prop('C04', 'Concurrent use of string dictionaries behaves as if one thread acted at a time',
     'When several threads add, bulk add, look up, read, search, copy, compare and translate strings of the same dictionaries at the same time, in any schedule, equal strings get one id, ids stay dense and readable, '
     'and every lookup, search, copy and translation map returns what some moment during the call would give. Searches and copies made afterwards see everything. Dictionary state is never touched without its lock, '
     'also while the storage grows, and no schedule deadlocks, even between a dictionary and one nested over it.',
     ['schedules'],
     'all schedules within the preemption bound of two or three threads, each running any program of a menu of 29, on a base dictionary, one nested over it and an unrelated one, with tiny, hash-caching and about-to-grow shapes',
     'a test runs one schedule; lost strings, stale caches, reads of moved storage and lock-order deadlocks need a specific interleaving',
     [SD + 'StringDictionary.cpp', SD + 'StringDictionary.h'],
     [('one reader-writer lock per dictionary, optimistic read then write', SD + 'StringDictionary.cpp: getOrAdd, getLike, getCompare'),
      ('two dictionaries locked together', SD + 'StringDictionary.cpp: buildDictionaryTranslationMap, operator==')],
     [('rw_mutex_', 'guards the dictionary', SD + 'StringDictionary.h')],
     ['StringDictionary::getOrAdd, getOrAddBulk, getIdOfString, getBulk, getLike, getCompare, copyStrings, buildUnionTranslationMap'], SCH, N_SCH)

prop('C10', 'Grouping gives one row per distinct key with the exact aggregates of its rows',
     'A grouped query returns exactly one row per distinct key, null being a key of its own, for one or more keys of any types, and every aggregate (counts, distinct and approximate distinct counts, sum, average, minimum, maximum, standard deviation, '
     'quantiles with every interpolation, top-k, sample) is the aggregate of exactly the rows of its group: nulls are ignored, an empty or all-null input gives null or zero, and order, fragmentation, key layout and output layout of the data never change the answer. '
     'Without keys there is always exactly one row.',
     ['inputs', 'configurations'],
     'groups holding every sequence of up to three values (with nulls and extremes) of 15 types, all aggregates, ten key layouts, several row orders and fragmentations, row-wise and columnar; all pairs of key types; aggregates without keys over all short inputs including empty ones; HAVING and aggregates over aggregates',
     'tests aggregate a few tables; null handling, slot widths and buffer layouts differ for each combination of key, argument type and aggregate',
     [QE + 'RowFuncBuilder.cpp', QE + 'TargetExprBuilder.cpp', QE + 'MemoryLayoutBuilder.cpp', QE + 'QueryMemoryInitializer.cpp', QE + 'ResultSetReduction.cpp', QE + 'ResultSetReductionJIT.cpp', QE + 'RuntimeFunctions.cpp', QE + 'GroupByRuntime.cpp', QE + 'Execute.cpp', 'omniscidb/QueryOptimizer/CanonicalizeQuery.cpp', 'omniscidb/ResultSet/ResultSetIteration.cpp', 'omniscidb/Shared/quantile.h'],
     [('choice of perfect, keyless or baseline hash layout', QE + 'MemoryLayoutBuilder.cpp'), ('null-skipping aggregate steps', QE + 'RuntimeFunctions.cpp: agg_*_skip_val'), ('reduction of partial results', QE + 'ResultSetReduction.cpp, ResultSetReductionJIT.cpp')],
     (), ['results of aggregates built with QueryBuilder'], E2E, N_E2E)

prop('C11', 'Joins return exactly the row combinations that satisfy their condition',
     'An inner join returns every combination of a left and a right row for which the condition is true (not false, not unknown) once per combination, and a left join additionally every left row without partner once, with nulls on the right. '
     'This holds for keys of every joinable type and of different widths or dictionaries, nulls, duplicates, extremes, empty or all-null sides, composite and non-equality conditions, and chains of joins, and whether the engine uses a perfect or '
     'baseline hash table, a cached one or nested loops.',
     ['inputs', 'configurations'],
     'every pair of joinable key types with nulls and extremes, every right table with up to two copies of null and three keys (also empty), all chains and stars of three tables; eight forms of condition, five uses of the result, seven configurations',
     'tests join a few tables on one integer column; the hash layout, null handling and fallback to loops depend on key types, ranges and duplicates',
     [QE + 'JoinHashTable/', QE + 'IRCodegen.cpp', QE + 'EquiJoinCondition.cpp', QE + 'ColumnIR.cpp', QE + 'CompareIR.cpp', QE + 'WorkUnitBuilder.cpp', QE + 'FromTableReordering.cpp'],
     [('choice between perfect, baseline hash and loop join', QE + 'JoinHashTable/HashJoin.cpp: getInstance'), ('null handling while filling hash tables', QE + 'JoinHashTable/Runtime/HashJoinRuntime.cpp'), ('outer join null placeholder', QE + 'ColumnIR.cpp: codegenOuterJoinNullPlaceholder')],
     (), ['results of joins built with QueryBuilder'], E2E, N_E2E)
prop('C12', 'Sorted and limited queries return the rows in order and exactly the right slice',
     'A sorted query returns all rows of its input ordered by its sort fields (direction and null placement of each), and with an offset and a limit exactly the rows from that slice of some correct ordering, never more, fewer or other rows. '
     'This holds for every sortable type, nulls and extremes, several fields, empty inputs, offsets beyond the end, limits of zero, over tables, filters, groupings and joins, for every sort strategy and output layout.',
     ['inputs', 'configurations'],
     'every type with all short value sequences, directions, null placements, offsets and limits around the table size; pairs of sort fields; all row orders and fragmentations; several sort strategies',
     'tests sort a few tables ascending or descending; null placement and top-n heaps differ by type, layout and limit',
     [QE + 'RelAlgExecutor.cpp', 'omniscidb/ResultSet/ResultSet.cpp', QE + 'StreamingTopN.cpp', QE + 'TopKRuntime.cpp', QE + 'SpeculativeTopN.cpp', QE + 'ResultSetSort.cpp'],
     [('choice of streaming top-n, baseline sort or speculative top-n', QE + 'RelAlgExecutor.cpp: executeSort'), ('comparator with null placement', 'omniscidb/ResultSet/ResultSet.cpp: ResultSetComparator')],
     (), ['results of sorts built with QueryBuilder'], E2E, N_E2E)
prop('C13', 'Group-by and join hash tables find every key and never confuse two keys',
     'A group-by hash table gives every distinct key (any number of components, either key width, row or column layout) its own entry, the same one whenever the key comes again, never one of another key, and reports the table full only when it is. '
     'A join hash table (perfect, bucketized for dates, or baseline with composite keys; one-to-one, semi or one-to-many) returns for every probed key exactly the rows of the build side with that key, nothing for absent keys or keys outside the range, follows nulls as asked, '
     'and reports duplicate keys exactly when they exist; splitting the build side into chunks or between threads changes nothing.',
     ['inputs', 'histories', 'configurations'],
     'every key sequence over small alphabets (with empty-key neighbours, nulls, colliding keys) for every table size up to full, key width, component count and layout; every short build column of every type, null convention, dictionary translation, chunking and thread split, probed with every key around the range',
     'tests insert a few keys into one table shape; wrap-around, collisions at the last slot, full tables, chunk boundaries and null conventions need systematic combination',
     [QE + 'GroupByRuntime.cpp', QE + 'RuntimeFunctions.cpp', QE + 'JoinHashTable/Runtime/HashJoinRuntime.cpp', QE + 'JoinHashTable/Runtime/JoinHashTableQueryRuntime.cpp', QE + 'MurmurHash.cpp'],
     [('open addressing of group keys', QE + 'GroupByRuntime.cpp: get_group_value'), ('filling join tables', QE + 'JoinHashTable/Runtime/HashJoinRuntime.cpp: fill_hash_join_buff'), ('probing join tables', QE + 'JoinHashTable/Runtime/JoinHashTableQueryRuntime.cpp: baseline_hash_join_idx')],
     (), ['entries and rows found'], DFS, N_DFS)
prop('C16', 'Quantile, top-k and distinct-count accumulators are right however they are fed',
     'The exact quantile accumulator returns the value of the exact sorted sequence for every quantile, interpolation and type, also across memory chunks and after merging; top-k and bottom-k accumulators keep exactly the k extreme values; exact distinct counting by bitmap counts '
     'each value once; the approximate distinct count is exact to its documented error and independent of order and repetition; merging accumulators built from parts of the values gives the same as feeding all values to one; the t-digest keeps the minimum, the maximum and the number of values, and answers within its centroids.',
     ['inputs', 'histories', 'configurations'],
     'every short value sequence (with extremes, nulls, duplicates) for every type, quantile, interpolation, k, sign and split into merged parts; sizes around every memory-chunk boundary; five value shapes, three orders and sizes around the buffer and centroid limits for the t-digest',
     'tests compute a few quantiles of small columns; chunk boundaries, merges of unequal parts and bit patterns at word boundaries are not reached',
     ['omniscidb/Shared/quantile.h', 'omniscidb/Shared/approx_quantile.h', QE + 'QuantileRuntime.cpp', QE + 'TopKRuntime.cpp', QE + 'TopKAggRuntime.h', QE + 'RuntimeFunctions.cpp', 'omniscidb/ResultSet/HyperLogLog.h', 'omniscidb/ResultSet/CountDistinct.h', 'omniscidb/Shared/DoubleSort.h'],
     [('chunked value store', 'omniscidb/Shared/quantile.h: ChunkedArray'), ('t-digest', 'omniscidb/Shared/approx_quantile.h: TDigest'), ('bitmap of distinct values', QE + 'RuntimeFunctions.cpp: agg_count_distinct_bitmap')],
     (), ['results of the accumulators'], DFS, N_DFS)
RS = 'omniscidb/ResultSet/'
prop('C17', 'A result set reads back exactly its rows by every way of access',
     'A result set (projection, grouping in each hash layout, or a single row of aggregates; row-wise or columnar; in one or several appended storages; with columns fetched lazily from uneven table fragments) reports exactly its non-empty entries as rows and reads each cell of every type back as it was written, null as null. '
     'Sequential reading (also after a restart or on a copy), iterators from any row, access by row, cell, entry or column, counting, printing, variable-length offsets and direct columnar access all agree, and an offset, a limit and a sort permutation select exactly that slice.',
     ['inputs', 'histories', 'configurations'],
     'every target type with extremes and nulls between other targets in both layouts; every filling of up to three appended storages, reading order, offset and limit; every lazily fetched type over even and uneven fragments; nine hash layouts with every set of used entries; all pairs of aggregates',
     'tests read a few result sets row by row; slot widths, empty entries, storage borders, fragments and cut-offs combine into many shapes each access path handles on its own',
     [RS + 'ResultSet.cpp', RS + 'ResultSetIteration.cpp', RS + 'ResultSetStorage.cpp', RS + 'QueryMemoryDescriptor.cpp', RS + 'ColSlotContext.cpp', RS + 'ResultSetBufferAccessors.h'],
     [('reading one row', RS + 'ResultSetIteration.cpp: getRowAt, makeTargetValue'), ('row counting', RS + 'ResultSet.cpp: rowCount, binSearchRowCount'), ('lazy fetch', RS + 'ResultSetIteration.cpp: getColumnFrag'), ('direct columnar access', RS + 'ResultSet.cpp: getChunkedColumnarBuffer, copyColumnIntoBuffer')],
     (), ['ResultSet::getNextRow, getRowAt, rowIterator, getRowAtNoTranslations, rowCount, getColumnarBuffer, copyColumnIntoBuffer'], DFS, N_DFS)
prop('C18', 'Types and expressions are equal exactly when they mean the same',
     'A type description always gives the same type of a context, different descriptions give types that are not equal, copies in another context are equal only to their original, and names of types read back as those types. '
     'Two expressions are equal exactly when they are built alike (same operation, arguments, types, fields and literals, column identity including database and scan), regardless of which is asked, equal ones have equal hashes and different ones different hashes, '
     'and rewriting or collecting an expression reaches every part of it, changes nothing but what is replaced and leaves the original as it was.',
     ['inputs'],
     'every type description over all kinds, widths, units, element types and nullability, all pairs; a catalogue of every expression class with each field varied over eight kinds of arguments, all pairs; every replacement of a leaf in each of them',
     'group-by, join and plan caches compare expressions by equality and hash; a field left out of a comparison only shows when a query contains two expressions that differ in just that field',
     ['omniscidb/IR/Type.cpp', 'omniscidb/IR/Context.cpp', 'omniscidb/IR/Expr.cpp', 'omniscidb/IR/Expr.h', 'omniscidb/IR/ExprRewriter.h', 'omniscidb/IR/ExprVisitor.h', 'omniscidb/IR/ExprCollector.h', 'omniscidb/IR/InputRewriter.h'],
     [('equality and hashing of expressions', 'omniscidb/IR/Expr.cpp: operator==, hash'), ('type interning', 'omniscidb/IR/Context.cpp: ContextImpl'), ('rewriting', 'omniscidb/IR/ExprRewriter.h')],
     (), ['Type::equal, Context::copyType, typeFromString, Expr::operator==, hash, ExprRewriter, ExprCollector'], DFS, N_DFS)
prop('C19', 'Literals convert between text, numbers and times exactly or are refused',
     'Reading a text as an integer or decimal gives the exact number rounded half away from zero to the scale of the type, and texts that are no number or lie outside the range of the type (for nullable types also the value that stands for null) are refused. '
     'Casting a literal between integer, decimal and floating-point types gives the exactly rounded value or an overflow error, null stays null; timestamps change their unit rounding down and become the start of their day as dates; strings are cut to the length of the type. Printing a literal and reading it back gives the same value.',
     ['inputs'],
     'numbers around every power and range limit with every rounding fraction as texts of every integer and decimal type, malformed texts, boundary values for all pairs of numeric types, moments on both sides of 1970 in every pair of units',
     'tests read a few ordinary literals; digits lost in doubles, rounding at ties, values next to limits and negative fractions need systematic combination',
     ['omniscidb/IR/Datum.cpp', 'omniscidb/IR/Expr.cpp', 'omniscidb/QueryEngine/DateTimeUtils.h'],
     [('reading texts', 'omniscidb/IR/Datum.cpp: StringToDatum, parse_numeric, parseInteger'), ('casts of literals', 'omniscidb/IR/Expr.cpp: Constant::castNumber, doCast'), ('printing', 'omniscidb/IR/Datum.cpp: DatumToString')],
     (), ['StringToDatum, DatumToString, Constant::cast'], DFS, N_DFS)

prop('C20', 'Window functions give every row the value defined over its partition and peers',
     'A projection with window functions returns every row of its input exactly once, and each window value is the one its definition gives over the rows of the same partition (null is a partition of its own) in the given order (direction and null placement of each key): row numbers, ranks, percent ranks, tiles, values of preceding or following rows or null beyond the ends, first and last values, and running sums, averages, minima, maxima and counts, for which rows equal in the order keys share one value; without an order the whole partition counts. '
     'This holds for every supported type of argument, partition and order key, with nulls and extremes, for several windows at once, for any table size, over filters, projections and groupings, below filters, groupings, sorts and joins, and for every layout of the output. Tables of several fragments and unsupported key types are refused, not answered wrongly.',
     ['inputs', 'configurations'],
     'every function over every argument type and form of window; every partition and order key type with both directions and null placements; every table of up to three rows (thorough: four) of two keys with nulls; sizes around the limits of narrow integers; seven query shapes; four configurations',
     'tests run window functions over one fixed table without ties in extremes, nulls in date keys or more rows than a narrow type counts',
     [QE + 'WindowContext.cpp', QE + 'WindowFunctionIR.cpp', QE + 'TargetExprBuilder.cpp', QE + 'RelAlgExecutor.cpp', QE + 'JoinHashTable/PerfectJoinHashTable.cpp'],
     [('partitions are the entries of a null-safe one-to-many join hash table', QE + 'RelAlgExecutor.cpp: computeWindow'), ('peers get the value of the last of them', QE + 'WindowContext.cpp: window_function_requires_peer_handling'), ('running aggregate state', QE + 'WindowFunctionIR.cpp: codegenWindowFunctionAggregateCalls')],
     (), ['results of window projections built with QueryBuilder'], E2E, N_E2E)

prop('C21', 'Operations compose: a query of several steps returns what its steps define',
     'The result of a query is the composition of its operations: feeding the rows of one operation (filter, projection, grouping, sort with limit and offset, inner or left join, window) to the next gives exactly the rows that relational algebra defines, whether the steps are fused into one kernel, reordered or executed one after another over intermediate results, whether an intermediate result is empty, limited, or shared by both sides of a join, and for every layout of intermediate results. '
     'No combination of supported operations makes the engine abort.',
     ['inputs', 'configurations'],
     'every chain of one and two of 25 operations over four data sets with nulls, empty tables and several fragments; every chain of three (thorough: over all data sets, and chains of four of eleven operations); joins of any two derived relations; six configurations',
     'tests sample a few hand-written queries; the steps of a query interact through fusion rules, lazily fetched columns and the layout of intermediate results, which only show in particular combinations',
     [QE + 'QueryExecutionSequence.cpp', QE + 'WorkUnitBuilder.cpp', QE + 'RelAlgExecutor.cpp', 'omniscidb/QueryOptimizer/CanonicalizeQuery.cpp', QE + 'ColumnFetcher.cpp', QE + 'ColumnIR.cpp', QE + 'IRCodegen.cpp', 'omniscidb/ResultSetRegistry/ResultSetRegistry.cpp', 'omniscidb/QueryBuilder/QueryBuilder.cpp'],
     [('choice of execution points', QE + 'QueryExecutionSequence.cpp: QueryExecutionSequenceImpl'), ('fusion of nodes into one work unit', QE + 'WorkUnitBuilder.cpp: WorkUnitBuilder::process'), ('intermediate results become tables', 'omniscidb/ResultSetRegistry/ResultSetRegistry.cpp: put'), ('columns of intermediate results are linearised', QE + 'ColumnFetcher.cpp: linearizeColumnFragments')],
     (), ['results of chains of operations built with QueryBuilder'], E2E, N_E2E)
