#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run: python3 tools/mkmeta.py)."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=observe or [], state=state or [], level=level))

COMMON = " Trusts Pebble's in-memory filesystem as a stand-in for a disk, and that the sampled cases are representative."

prop("C01", "A table behaves like a map from primary key to record",
 "After any history of insert, update, upsert, delete, unsafe insert and unsafe update calls, made directly or through a committed batch, and across flush, compaction and reopening of the database, every way of reading a table (point get, multi-point get, existence check, forward and reverse scan, default query) returns exactly the records that a map from primary key to record would hold. "
 "Insert refuses a call in which a primary key exists already or repeats, update refuses a call with an absent primary key, upsert combines with the stored record (and with earlier records of the same call) through the conflict function in call order, delete of an absent key does nothing, and when a key repeats in one update call the last record wins. "
 "No call modifies the records its caller passed in.",
 ["histories", "inputs", "configurations"], "all histories of table writes over all key types, record types, serializers and Pebble configurations",
 "The tests check a handful of fixed records and single calls; they never mix operation kinds, repeat keys inside one call out of order, use omitted fields, or reopen and compact between operations.",
 ["table.go", "table_unsafe.go", "batch.go", "bond.go"],
 [("existence check, duplicate detection, sort order of keys", "table.go Insert/Update/Upsert"), ("primary key encoding", "keys.go KeyEncodeRaw")],
 "stateful property-based testing against a reference map model (rapid)",
 "Generated histories on the real database compared with a map after every step; up to 25 operations of up to 6 records." + COMMON,
 ["Table.Get, GetPoint, Exist, Scan, Query().Execute"], [("data key space", "one row per primary key", "table.go")])

prop("C02", "Every secondary index lists exactly the matching rows, in order",
 "After any history of table writes, each secondary index contains exactly one entry for every stored row that passes the index filter, under the index value and order fields the row has now, and no other entry. "
 "Scanning any part of an index therefore returns each matching row once, in index order (order fields ascending or descending as declared, then primary key), with its current content and without errors. "
 "This includes deletes that pass only the primary key, updates that move a row in, out of or inside an index, and upserts that fold several records or whose conflict function merges into the record it is given.",
 ["histories", "inputs", "configurations"], "all histories of writes over tables with up to four indexes of any key, order and filter functions",
 "The tests insert and update a few rows of one shape and look at one index; they never check that no stale entry remains, nor deletes with partial records, filters that flip, or indexes sharing a byte prefix.",
 ["index.go", "table.go", "table_unsafe.go", "keys.go"],
 [("index maintenance", "index.go OnInsert/OnUpdate/OnDelete"), ("index entries of the stored row", "table.go Update/Upsert/Delete")],
 "stateful property-based testing against a reference index model (rapid)",
 "After every write the stored keys of each index are counted and each partition is scanned both ways and compared with the model." + COMMON,
 ["Table.ScanIndex, Query().With, stored keys"], [("index key space", "one key per row accepted by the index filter", "index.go")])

prop("C03", "A query returns what its clauses say",
 "A query returns exactly the rows its selector picks from its index (the whole table by default), in index order or in reverse index order, restricted by its filter, sorted by its order function when it has one, without the first offset rows and cut to the first limit rows. "
 "The result does not depend on the order in which the query's clauses were given, on the prefetch size, on flush or compaction state, nor on whether offset and limit are larger than the result, up to the largest values. A clause that is given again replaces the earlier one, and Reverse given twice cancels. "
 "Run through a read-write batch, the query also sees the pending writes of the batch.",
 ["inputs", "configurations"], "all combinations of index, selector, filter, order, offset, limit and reverse over all table contents",
 "The tests run some twenty hand-written queries over a few rows; combinations of clauses, boundary values of offset and limit, variable prefetch sizes and unusual key bytes are not reached.",
 ["query.go", "index.go", "table.go", "iter.go", "cond/cond.go"],
 [("query execution", "query.go executeQuery"), ("index iteration and prefetch", "table.go scanForEachSecondaryIndex")],
 "property-based differential testing against a reference query evaluator (rapid)",
 "Random tables (up to 40 rows) and up to 8 random queries per case, compared with an evaluator over the model; rows that tie under the order function may come in any order." + COMMON,
 ["Query.Execute"])

prop("C04", "Paging with After visits every row exactly once",
 "Running a query page by page, each page starting After the last row of the previous page, visits exactly the rows of the unpaged query in the same order, whatever the page size, the index, the selector (point, points, range, ranges), the filter, the direction and an order function that ranks rows totally. "
 "For queries in index order this also holds when the cursor row has been deleted between pages, and rows inserted behind the cursor are not returned while rows inserted ahead of it are.",
 ["inputs", "histories"], "all queries, page sizes and modifications between the pages",
 "The tests use After a few times forward on one page boundary; reverse paging, points and ranges in any order, deleted cursor rows and order functions are not covered systematically.",
 ["query.go", "index.go"],
 [("continuation selector", "query.go selectorWithAfter"), ("skipping the cursor row", "query.go executeQuery")],
 "metamorphic property-based testing: concatenated pages against the unpaged query and a reference evaluator (rapid)",
 "Random tables, queries and page sizes; each run pages through to the end." + COMMON, ["Query.After"])

prop("C05", "An intersect query returns the common rows of its parts",
 "An intersect query returns exactly the rows that its own selector and the selectors of all intersected queries pick, each once, in primary key order (reversed with Reverse), then filtered, ordered, started after the cursor row, offset and limited like any other query, and through a batch it sees the batch's pending writes. "
 "Building further queries from a common base query never changes the base or its other descendants, and intersected queries that carry a filter, order, after, offset or limit of their own are refused.",
 ["inputs"], "all combinations of intersected selectors and outer clauses over all table contents",
 "The tests intersect two or three fixed selectors with one or two outer clauses; empty parts, batches, reverse, cursors and shared base queries are not covered.",
 ["query.go", "index.go"],
 [("key intersection", "index.go Intersect"), ("outer clauses", "query.go executeIntersect")],
 "property-based differential testing against set intersection on a reference model (rapid)",
 "Random tables and intersect queries of up to 4 parts." + COMMON, ["Query.Intersects, Query.Execute"])

prop("C06", "Selectors mean the same everywhere",
 "A point selector on an index picks the rows of its index value from the described position on, a points selector the union in the given order (exact rows on the primary index), a range selector the rows between both ends inclusive, and ranges their union in the given order; an empty points or ranges selector picks nothing. "
 "Index scans, callback scans, raw iterators, queries and, on the primary index, Get all agree on this, forward and reverse, directly and through a read-write batch, for all key contents including keys ending in 0xFF bytes and keys that are prefixes of others.",
 ["inputs", "configurations"], "all selectors over all key shapes, on all read paths",
 "The tests use small integers and short strings; bounds next to 0xFF bytes, prefix-related keys, empty selectors and the agreement of the read paths are not exercised.",
 ["index.go", "selector.go", "iter.go", "table.go", "table_utils.go"],
 [("iteration bounds", "index.go Iter, table.go keySuccessor"), ("multi-part iteration", "iter.go _iteratorMulti")],
 "property-based differential testing of all read paths against a reference selector evaluator (rapid)",
 "Random tables and selectors; the same selector is run through every read path in both directions." + COMMON,
 ["Table.Get, ScanIndex, ScanIndexForEach, Iter, TableAnyScanner, Query.With"])

prop("C07", "A write call that fails leaves no trace",
 "A table write that uses its own batch either takes effect completely, rows and index entries together, or returns an error and leaves the whole database as it was, at whatever point it fails: cancelled context at any record, duplicate or missing key at any position, serializer error at any record. "
 "Reads whose context is cancelled return an error rather than a shortened result, and the database stays fully usable and closes cleanly afterwards.",
 ["fault_sequences", "inputs"], "every fault position of every generated write or read call",
 "The tests check that an error comes back in one or two cases, not that nothing was written, and never cancel in the middle of a call.",
 ["table.go", "table_unsafe.go", "query.go", "index.go", "batch.go"],
 [("single batch per call", "table.go Insert/Update/Delete/Upsert"), ("cancellation checks", "table.go, query.go, index.go")],
 "fault-injection property-based testing: cancellation and serializer errors at every position, whole-database comparison (rapid)",
 "For each generated call every cancellation point up to its completion is tried, comparing the complete stored content before and after." + COMMON,
 ["all stored keys and values"], None, "fault_enumeration")

prop("C08", "Acknowledged writes survive a crash and writes are never half applied",
 "After a crash that loses everything not synced, at any point of any history, the reopened database contains every write whose call or synced batch commit had returned, and for the rest a prefix of the history in which each call or batch is present completely or not at all. "
 "Rows and all their index entries stay consistent with each other in the recovered state.",
 ["crash_points", "histories"], "every file-system operation of every generated history as the crash point",
 "No test crashes the database; durability depends on options passed at every write site.",
 ["bond.go", "batch.go", "table.go", "index.go"],
 [("one atomic batch per call, committed with Sync", "table.go, batch.go Commit"), ("write options", "bond.go pebbleWriteOptions")],
 "crash-point enumeration over generated histories on a strict in-memory filesystem, against prefix states of a reference model (rapid)",
 "Crash points are chosen at file-system operations (sync, write, create, rename); the recovered content must equal one of the allowed model states. Trusts Pebble's strict in-memory filesystem as the model of what a crash loses.",
 ["reopened database content"], None, "fault_enumeration")

prop("C09", "A batch is isolated until commit and atomic at commit",
 "Writes made through a batch, over any number of tables, are invisible outside the batch until it is committed, become visible all at once when it is, and never become visible if it is closed or reset instead. "
 "Reads made through a read-write batch (gets, existence checks, scans, queries, duplicate and existence checks of writes) see the pending writes of the batch on top of the current database content. "
 "Applying a batch to another makes its writes pending in the other.",
 ["histories"], "all interleavings of batch writes, outside writes, reads, commit, close, reset and apply",
 "The tests write one or two rows through a batch and commit; reads before commit, dropped batches, several tables and applied batches are barely covered.",
 ["batch.go", "bond.go", "table.go", "query.go", "index.go", "table_utils.go"],
 [("batch pass-through of every operation", "table.go optBatch handling"), ("indexed batches", "batch.go")],
 "stateful property-based testing against an overlay model (rapid)",
 "Histories over two tables with up to three open batches; inside and outside views are compared with the model after each step." + COMMON,
 ["reads with and without the batch"])

prop("C10", "Batch callbacks report what happened to the batch",
 "When a batch with pending writes is committed, its OnCommit callbacks run in registration order before the data becomes visible, and if one fails the commit returns that error, nothing becomes visible and no OnCommitted callback runs; after a successful commit each OnCommitted callback has run once, with the data visible. "
 "OnClose callbacks run when, and only when, the batch is closed, OnCommitted callbacks never run for a batch that was not committed or applied successfully, and after Reset no earlier callback runs and the batch has a new ID. The OnClose callbacks of a database run once each, in registration order and with the database still readable, when it is closed.",
 ["histories"], "all sequences of callback registration, writes, commit, apply, reset and close",
 "The tests register one callback of some kinds and commit once.",
 ["batch.go", "bond.go"],
 [("callback lists", "batch.go notifyOn*")],
 "stateful property-based testing of callback traces against a model (rapid)",
 "Random sequences with failing callbacks; the recorded trace is compared with the expected one." + COMMON, ["callback trace, database content"])

prop("C11", "Encoded key fields sort like their values and never collide",
 "For keys built from the same sequence of field types, comparing the encoded bytes gives the same result as comparing the field values one after the other, for all values of signed and unsigned integers of each size, bytes, strings in last position and big integers within the stated width, including minima, maxima and zero. "
 "Different values never encode to the same key, and building a key never changes the values passed in or the bytes the buffer held before.",
 ["inputs"], "all values of all field types, in sequences of up to five fields",
 "The tests compare a few small numbers per type.",
 ["keys.go"], [("sign byte and complement encoding", "keys.go KeyBuilder.Add*Field")],
 "property-based testing of order isomorphism and injectivity (rapid)",
 "Random tuples biased to boundaries and near-equal pairs.", ["KeyBuilder.Bytes order"])

prop("C12", "Index order fields sort ascending or descending as declared",
 "For index order keys built from the same sequence of order fields, comparing encoded bytes gives the comparison of the values field by field, inverted for fields declared descending, for all values of all integer sizes, bytes of equal length and big integers, including minima and maxima. "
 "Building an order key never changes the values passed in.",
 ["inputs"], "all values of all order field types in both directions, in sequences of up to five fields",
 "The tests order a few small values by one field.",
 ["index.go", "keys.go"], [("descending by negation or complement", "index.go IndexOrder.Order*")],
 "property-based testing of order isomorphism (rapid)", "Random tuples biased to boundaries and near-equal pairs.", ["IndexOrder.Bytes order"])

prop("C13", "Storage keys decode to what was encoded",
 "Encoding any key (table, index, index value, order, primary key) and decoding it gives the key back; both encoders agree, also when given a reused buffer; and accessors on the encoded form return the same parts. "
 "The data key derived from any index entry equals the key of the row it refers to, the key prefix used for splitting is exactly table, index and index value, and keys of different tables, indexes or the user key space never coincide or fall into each other's ranges.",
 ["inputs"], "all keys of all table and index IDs and part contents",
 "The tests encode and decode two or three literal keys.",
 ["keys.go", "bond.go"], [("length-prefixed layout", "keys.go KeyEncode/KeyEncodeRaw/KeyDecode/ToDataKeyBytes")],
 "round-trip and differential property-based testing (rapid)", "Random keys with adversarial bytes and reused dirty buffers.", ["KeyEncode, KeyDecode, KeyBytes accessors"])

prop("C14", "Serializers give back the record, by every path",
 "For every provided serializer and every record it supports, decoding an encoded record gives an equal record, whichever encoding path was used (plain, into a caller's buffer, with a release function, with or without pools), and the bytes of one encoding are never affected by other encodings before or after it, or by other goroutines using the same serializer at the same time. "
 "Decoding arbitrary bytes returns a record or an error, and never panics.",
 ["inputs", "histories", "schedules"], "all records, sequences of encodings over shared pools by one or several goroutines, and arbitrary bytes to decode",
 "The tests encode one record per serializer with one path.",
 ["serializer.go", "serializers/cbor.go", "serializers/json.go", "serializers/msgp.go", "serializers/msgp_gen.go", "serializers/protobuf.go", "utils/reflect.go"],
 [("buffer and encoder reuse", "serializers/*.go")],
 "round-trip and differential property-based testing over sequences of encodings (rapid)",
 "Random sequences of records over all serializers and paths; protobuf is covered through hand-written message types, as no generated ones exist here.", ["Serialize/Deserialize"])

prop("C15", "Adding or rebuilding an index never loses or invents entries",
 "An index added to a table with existing rows and reindexed, now or later, ends up with exactly the entries the current rows call for, whatever was stored under its ID before, and stays correct under later writes; rebuilding is idempotent and changes no other index, table or row. "
 "Adding an index whose ID is taken, be it by the primary index, or rebuilding the primary index fails, leaves the table as it was and fully usable.",
 ["histories", "configurations"], "all histories of writes mixed with adding, redefining and rebuilding indexes of any ID",
 "The tests add one index to a few rows once; redefinition, extreme IDs, repeated rebuilds and duplicate IDs are not covered.",
 ["table.go", "index.go"], [("drop and rebuild", "table.go ReIndex"), ("registration", "table.go AddIndex")],
 "stateful property-based testing against a reference index model (rapid)",
 "Random histories with index changes between sessions; complete stored content compared." + COMMON, ["index scans, stored keys"])

prop("C16", "A bloom filter never hides an existing key",
 "A key that was added to a filter is reported as possibly present forever after: after further adds, after saving and loading through any store, after a change of configuration and the rebuild it causes, and under concurrent adds. "
 "A table with a filter therefore answers every get, existence check and duplicate check exactly as the same table without one, across any number of sessions that initialize the filter at start and save it at the end.",
 ["histories", "configurations"], "all histories of writes and sessions over all filter sizes, bucket counts and stores",
 "The tests add sequential keys to one filter and save it once.",
 ["bloom/bloom_filter.go", "filter.go", "filters/filter_fs_storer.go", "table.go"],
 [("bucket selection and change tracking", "bloom/bloom_filter.go"), ("initialization from rows", "filter.go FilterInitialize")],
 "stateful property-based differential testing: filtered table against an unfiltered model (rapid)",
 "Random histories over sessions with changing filter configuration; tiny filters make false positives common." + COMMON, ["Exist, Get, Insert with a filter; MayContain"])

prop("C17", "A restored backup equals the dumped tables",
 "Restoring a dump into an empty database gives exactly the rows of the requested tables as they were at one moment of the dump, and with indexes exactly their index entries, so that all reads agree with the source; tables not requested are not restored, whatever their IDs and wherever the dump directory lies. "
 "Restored without indexes, rebuilding the indexes gives the same result, and a dump never changes the source.",
 ["inputs", "configurations", "schedules"], "all sets of tables, index choices and contents, with concurrent writers during the dump",
 "The tests dump two tables with sequential rows and restore all of them.",
 ["bond.go"], [("snapshot and sstable export", "bond.go Dump"), ("file selection and ingest", "bond.go Restore")],
 "round-trip property-based testing of dump and restore (rapid)",
 "Random tables and subsets, including IDs with a common decimal prefix; some cases dump while another goroutine commits batches that keep two tables in step. A dump is restored once (ingestion consumes its files).", ["reads on the restored database"])

prop("C18", "Concurrent use gives each client its own consistent results",
 "When several goroutines use the same tables at once, each writing its own rows directly or through its own batches while others write, read, query, scan and declare further indexes (without filling them), every goroutine reads exactly its own writes and sees each commit of another one whole or not at all in any one read, no call fails or crashes because of the others, and no data race occurs. "
 "At the end the tables and all indexes contain exactly the combined result.",
 ["schedules", "histories"], "all interleavings of concurrent clients",
 "The tests start a few goroutines in one place and check only that no error occurs.",
 ["table.go", "bond.go", "batch.go", "index.go", "utils/sync.go", "bloom/bloom_filter.go", "sync.go"],
 [("index map lock", "table.go mutex"), ("buffer pools", "utils/sync.go PreAllocatedPool"), ("filter lock", "bloom/bloom_filter.go")],
 "generated concurrent histories under the race detector, against per-client reference models (rapid)",
 "Schedules are those the Go scheduler produces over many short runs with the race detector on; a violation is replayed by rerunning its case many times." + COMMON, ["per-client reads, final content, race reports"])

prop("C19", "Tables, indexes and user keys never affect each other",
 "A write, delete, index rebuild or range deletion on one table, on one index, or on keys of the user key space changes and reads nothing outside its own part of the database, for all table and index IDs including neighbours and extremes, and for all key contents including runs of 0xFF bytes. "
 "Scans and queries of one table or index never return or skip rows because of others.",
 ["inputs", "configurations", "histories"], "all combinations of table IDs, index IDs and key contents, with interleaved writes",
 "The tests use one table, or two with small IDs.",
 ["keys.go", "table.go", "index.go", "bond.go"],
 [("ID bytes at the front of each key", "keys.go"), ("scan bounds", "index.go Iter, table.go keySuccessor")],
 "stateful property-based testing with complete stored-content comparison (rapid)",
 "Histories over 2 to 4 tables with neighbouring IDs; before and after each step the stored content of all other parts is compared." + COMMON, ["stored keys and values by part"])

prop("C20", "Inspect answers like the direct query, locally and over HTTP",
 "An inspect query by table and index name returns the same rows as the corresponding direct query with the same point selector, field equality filter, limit and cursor, for tables of structs and of pointers, and the HTTP handler with its client, as well as the command line, return what the local inspector returns. "
 "Tables, indexes and entry fields are listed as they are, and any request, however malformed, gets a result or an error and never a crash.",
 ["inputs"], "all requests, well-formed or not, over generated tables",
 "The tests send a few well-formed requests for one table.",
 ["inspect/inspect.go", "inspect/inspect_handler.go", "inspect/inspect_handler_client.go", "inspect/inspect_cli.go"],
 [("reflective query building", "inspect/inspect.go Query"), ("JSON transport", "inspect/inspect_handler*.go")],
 "property-based differential testing plus fuzzing of requests (rapid)",
 "Random tables and requests; the HTTP path runs over loopback. Large numbers are compared over HTTP where JSON text tells their type; rows returned over HTTP are used as cursors.", ["Inspect.Query results, HTTP responses"])

prop("C21", "Filter conditions obey boolean algebra",
 "Every condition built from equality, comparisons, and, or, not and functions evaluates on every record to the value of the formula it denotes; an empty conjunction is true and an empty disjunction false. "
 "Evaluation is repeatable and leaves conditions and records unchanged, so that a condition can be shared between queries.",
 ["inputs"], "all condition trees over all records",
 "The tests evaluate one condition of each kind on two records.",
 ["cond/cond.go"], [("evaluation", "cond/cond.go Eval")],
 "property-based differential testing against a formula evaluator (rapid)", "Random condition trees of depth up to 4 over int, uint, string and float fields.", ["Cond.Eval, Query.Filter"])

prop("C22", "A database opens only with its format version and keeps its data",
 "A database created with one Pebble format version opens again with that version and refuses others, without changing anything; after migrating it to a newer version it opens with the new one only, and all data is intact; a migration to an older or unknown version leaves the version as it was, and a first open that fails leaves none; a migration where no database is fails and makes none. "
 "A database with a different data version is refused.",
 ["configurations", "histories"], "all sequences of open, write, migrate and wrong-version open over all format versions",
 "The tests migrate once between two versions.",
 ["bond.go", "version.go"], [("format file", "bond.go Open, MigratePebbleFormatVersion"), ("data version key", "version.go")],
 "stateful property-based testing against a model of the version gate (rapid)", "Random sequences of opens, writes and migrations on a scratch directory.", ["Open errors, table content"])

prop("C23", "Generated identifiers are unique and increasing",
 "A number sequence never returns the same number twice and each number it returns is larger than all numbers returned before, from any number of goroutines at once and also when the wall clock steps back, and its timestamp and counter parts decompose the number. "
 "Batches therefore never share an ID, and generated UUIDs are distinct.",
 ["schedules", "inputs"], "all interleavings of concurrent callers",
 "The tests call the generator a few times in one goroutine.",
 ["helpers.go", "batch.go"], [("timestamp and counter under a lock", "helpers.go NumberSequence.Next")],
 "generated concurrent calls under the race detector (rapid)", "Concurrent bursts on shared sequences, also in the state they are in after the wall clock stepped back; the clock itself is not set.", ["returned numbers"])

prop("C24", "Operations release what they take",
 "Any operation, whether it ends normally, early by its callback, by a callback that panics (the caller recovers), by cancellation, by a refused record or by an undecodable row, releases its iterators, snapshots and locks: the database closes without error afterwards, further operations work, and no goroutine stays behind. "
 "Buffers handed back for reuse never show up in results that the caller still holds.",
 ["histories", "fault_sequences"], "all histories of operations ended at all points",
 "The tests close databases after complete operations only, ignoring the error.",
 ["table.go", "query.go", "index.go", "iter.go", "bond.go", "batch.go"],
 [("iterator close on every path", "table.go, index.go, bond.go"), ("buffer release on close", "iter.go")],
 "fault-injection property-based testing with leak detection (rapid)",
 "Random histories with early exits of every kind; Pebble reports leaked iterators at close, and results kept from earlier steps are compared again at the end." + COMMON, ["DB.Close error, retained results"], None, "fault_enumeration")

prop("C25", "The file filter store behaves like a map",
 "A file-backed filter store returns for each key the value last set, reports an error for absent keys, and a range deletion removes exactly the keys from start up to but excluding end; different keys never share a value, and other files and directories beside it are never touched.",
 ["histories", "inputs"], "all histories of set, get and range deletion over arbitrary binary keys",
 "The test sets three plain keys and deletes them all.",
 ["filters/filter_fs_storer.go"], [("file name mapping", "filters/filter_fs_storer.go prepareFilePath")],
 "stateful property-based testing against a map model (rapid)", "Random histories over short binary keys in a scratch directory.", ["Get results, directory content"])

prop("C26", "Callback scans deliver each row once, however the callback behaves",
 "A callback scan calls back exactly once per selected row, in order, with that row's key, which stays valid during the call, until the callback stops it or fails, and its error is returned. "
 "The lazy getter returns the row's record whenever it is called and however often, no, one or several times, in any pattern over the rows and for any prefetch size, and never affects which rows are delivered.",
 ["inputs", "configurations"], "all patterns of getter calls and stops over all tables, indexes, selectors and prefetch sizes",
 "The tests always call the getter exactly once per row.",
 ["table.go", "lazy.go", "table_utils.go"], [("prefetch window", "table.go scanForEachSecondaryIndex")],
 "property-based testing of callback traces against a reference model (rapid)", "Random tables, prefetch sizes and getter patterns, on typed and untyped scanners." + COMMON, ["callback trace"])

prop("C27", "Bulk operations behave like small ones",
 "A write call with thousands of records, beyond the sizes at which work is split internally, has exactly the effect of the definition for small calls: duplicates are found across the whole call, the call is atomic, conflict functions fold in call order, and indexes stay exact. "
 "Rebuilding an index, getting many points and scanning over tens of thousands of rows lose and repeat nothing.",
 ["inputs", "histories"], "all sizes around the internal splitting thresholds, with duplicates at any distance",
 "The tests rarely write more than a few hundred records in one call and never duplicates far apart.",
 ["table.go", "table_unsafe.go", "bond.go"], [("chunked processing", "table.go batched, ReIndex")],
 "property-based testing of large calls against a reference model (rapid)", "A few dozen large cases per run, with sizes around 5,000 and 10,000." + COMMON, ["reads after bulk calls"])

prop("C28", "Failing reads of the storage are reported, never taken for missing rows",
 "When the storage fails to deliver data, every read, query, scan, iteration, write, index rebuild, dump and filter initialization that needed it either returns an error or its exact result; rows are never silently missing from results, dumps or indexes, and no write takes an unreadable row for an absent one. "
 "A write that fails this way leaves the stored content as it was, and once the storage delivers again everything is readable and right. (Exist has no error result and is excepted.)",
 ["fault_sequences", "inputs"], "every storage read of every operation failing, once or from then on",
 "The tests never inject a storage failure.",
 ["table.go", "index.go", "iter.go", "bond.go", "query.go", "filter.go"],
 [("iterator errors", "iter.go, index.go, table.go: Iterator.Error after loops"), ("lookup errors", "table.go exist/get")],
 "fault-injection property-based testing: every sstable read of generated operations fails in turn, against a reference model (rapid)",
 "Reads of sstables fail once or persistently at each position (at most 60 per operation); block caching is off. Log and manifest reads at open are not faulted." + COMMON,
 ["results and errors under faults, stored content"], None, "fault_enumeration")

prop("C29", "The command line tool dumps and restores what it is told to",
 "bond-cli dump writes a dump of exactly the named tables, with or without indexes, and bond-cli restore brings exactly the named tables of a dump into a database, so that any mix of the tool and the library on either side gives the rows and index entries of the source; the source is not changed. "
 "Commands that name a table that was not dumped or an impossible table, leave out a required flag or cannot use the given directories report an error, end with a non-zero status and leave the data as it was.",
 ["inputs", "configurations"], "all table contents, choices of tables and flags, and bad commands",
 "No test runs the command line tool.",
 ["cmd/bond-cli/bond-cli.go", "cmd/bond-cli/dump.go", "cmd/bond-cli/restore.go", "bond.go"],
 [("command actions", "cmd/bond-cli/dump.go, cmd/bond-cli/restore.go")],
 "differential property-based testing of the built tool against the library and a reference model (rapid)",
 "The tool is built from the working tree and run as a process on databases in a scratch directory, with the default options." , ["restored database, exit status, error output"])

prop("C30", "A shared batch is used by one goroutine at a time and travels in contexts",
 "Of all goroutines that use a shared batch through WithSync, at most one is inside at any time, each section runs once and its error is returned, and a section that fails or panics does not lock out the others; the batch then holds the combined writes of all sections, and commits or drops them all. "
 "A context gives back exactly the batch and the shared batch that its nearest ancestor carrying one was given, independently of each other and of other values.",
 ["schedules", "inputs"], "all interleavings of sections of any number of clients, all trees of derived contexts",
 "The tests put one batch into a context and enter one section.",
 ["sync.go", "context.go"],
 [("exclusive section", "sync.go SyncBatch.WithSync"), ("context values", "context.go")],
 "property-based testing of generated concurrent sections and context trees against a reference model (rapid)",
 "Two to six clients with up to six sections each, which yield inside the section; schedules are those the Go scheduler gives." + COMMON, ["who is inside, table content, looked up batches"])

prop("C31", "The stored layout is that of the data version",
 "What a database stores for its rows is the layout of data version 1, byte for byte: keys of rows and index entries (table, index, length and index value, length and order, primary key, with the encoding of every field type), user keys, the data version record, the Pebble format file, and the directories and version file of dumps; values are what the table's serializer makes of the row. "
 "So a database or a dump that an earlier build with the same data version wrote is opened or restored, found complete by every read, and goes on correctly when it is written to.",
 ["inputs", "histories"], "all schemas, rows and write histories; files and compactions of any form",
 "The tests read only what the same build wrote, where reader and writer may change together, and check encoded bytes for a few small values.",
 ["keys.go", "index.go", "bond.go", "version.go", "serializers"],
 [("key layout", "keys.go KeyBuilder, KeyEncode, KeyEncodeRaw"), ("order fields", "index.go IndexOrder"), ("data version record", "version.go, bond.go initVersion"), ("dump directories", "bond.go Dump, Restore")],
 "property-based testing of generated histories, differential against an independent implementation of the layout in both directions (rapid)",
 "The layout is that of the pinned commit, except for the order fields of the smallest signed integers, which were repaired." + COMMON, ["stored keys and values, dump files, reads of a database and a dump made from the layout"])

prop("C32", "Iterators move over one fixed, sorted sequence",
 "An iterator of the database, of a batch, of a table or of an index shows, as of its creation, exactly the entries inside of its bounds or of its selector, in key order (for several points or ranges: part by part), whatever is written, flushed or compacted beside it. "
 "Any sequence of First, Last, Next, Prev and, where it has one range, SeekGE, SeekLT and SeekPrefixGE leads to the entry that the sorted sequence has there, turning around at any place and coming back from beyond either end included; Valid, Key, Value and Error agree with it.",
 ["histories", "inputs"], "all contents, bounds, selectors, sequences of moves and writes in between",
 "The tests walk iterators from one end to the other; turns, seeks and writes beside an open iterator do not occur.",
 ["iter.go", "index.go", "bond.go", "batch.go", "keys.go"],
 [("iterator over several parts", "iter.go _iteratorMulti"), ("one state for all parts", "iter.go _iterView"), ("prefix of keys", "bond.go DefaultKeyComparer")],
 "stateful property-based testing against a sorted list with a position (rapid)",
 "Up to three iterators at a time and forty steps; seeks on iterators over several parts are not implemented in bond, prefix seeks outside of the bounds are refused by Pebble." + COMMON, ["Iterator"])

prop("C33", "Code called in the middle of an operation may use the database",
 "A scan callback, a query filter or order function or an upsert conflict function may itself read, write, scan and query the same table and others, directly or through the batch of the operation that called it, nested to any depth. "
 "The operation around it goes on as if nothing had happened: a scan or query delivers every row of its selection as of its start, once, in order, with the content and the key it had then. The work inside is done as if called from outside: it sees what is there at that moment, and its writes are kept.",
 ["histories", "inputs"], "all operations with callbacks, and all work done at any of their calls",
 "The tests have no callback that touches the database.",
 ["table.go", "query.go", "iter.go", "lazy.go", "utils/sync.go"],
 [("prefetched rows and keys", "table.go scanForEachSecondaryIndex"), ("one state per read", "iter.go _iterView"), ("buffer pools", "utils/sync.go")],
 "stateful property-based testing of nested operations against a reference model (rapid)",
 "Up to three levels; a conflict function does not write rows of its own upsert, nor read through the batch the upsert is writing." + COMMON, ["scan callbacks, Query.Filter/Order, Upsert"])

def main():
    have = set(re.findall(r'ID:\s+"(C\d\d)"', "\n".join(open(os.path.join(ROOT, "harness/props", f)).read()
               for f in os.listdir(os.path.join(ROOT, "harness/props")) if f.endswith(".go"))))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
               "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
              for p in P if p["id"] in have]
    na = [{"property": p["id"], "reason": "its check is not built yet"} for p in P if p["id"] not in have]
    m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
         "notes": "check.sh builds the harness (own Go module in harness/, using only bond's public API) against /repo's working tree. "
                  "KNOWN_FINDINGS lists genuine defects, repaired and not; known/ holds the failing cases of those not repaired."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(f"{len(P)} properties, {len(checks)} checks, {len(na)} not built")
main()
