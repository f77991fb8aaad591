#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they are reviewed in one place."""
import json, os
P = []
E = "src/embedDB/embedDB.c"
EH = "src/embedDB/embedDB.h"
D = "lib/Distribution/embedDB.c"
Q = "src/query-interface/advancedQueries.c"
S = "src/query-interface/schema.c"
SP = "src/spline/spline.c"
U = "lib/EmbedDB-Utility/embedDBUtility.c"
DF = "lib/Desktop-File-Interface/desktopFileInterface.c"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text},
      "why_tests_cant": why,
      "anchors": {"files": list(files),
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "Point lookups return exactly the stored record",
  "After any sequence of accepted inserts, flushes and queries, looking up the key of any record that is still retained succeeds and yields exactly the data bytes inserted with it, and looking up any other key reports not-found. The answer does not depend on whether the record is still buffered or already on storage, on how often storage has wrapped around, or on which lookups and scans were made before.",
  ["inputs", "histories", "configurations"],
  "all ascending key sequences and data bytes; all interleavings of put, flush, get and iteration, with and without wrap-around; all valid key sizes (1-8), data sizes, page sizes, erase sizes, page counts, spline sizes and error bounds, with spline or binary search, with or without index, min/max and variable data",
  "The tests insert a handful of fixed, evenly spaced sequences at page size 512 with 4-byte keys; none interleaves reads with wrap-around writes, uses other record geometries, binary search or min/max headers.",
  [E, D, SP], [("search of write buffer and pages", E + ":embedDBGet, searchBuffer, splineSearch, binarySearch, linearSearch, embedDBSearchNode"), ("read cache", E + ":readPage")],
  [("buffer", "write and read page buffers", EH), ("bufferedPageId", "page held by the read buffer", EH), ("spl", "learned index over pages", EH)],
  ["return value and output buffer of embedDBGet"])

p("C02", "Keys are accepted only in strictly ascending order",
  "An insert is accepted (returns 0) if and only if its key is greater than every key accepted before it in the database's history; a rejected insert returns non-zero and leaves every later answer as if it had never been attempted. This holds at every moment: with an empty or partly filled buffer, right after a flush, at page boundaries, after storage has wrapped around, and after the database is reopened.",
  ["inputs", "histories", "configurations"],
  "all histories of put/putVar attempts with ascending, equal and smaller keys, flushes, wraps and reopens, in all valid configurations",
  "The tests try a few out-of-order keys at fixed positions; they do not try them at every position relative to flushes, page boundaries, wraps and reopens.",
  [E, D], [("ascending check against the last inserted key", E + ":embedDBPut, embedDBPutVar")],
  [("write buffer / last page", "where the greatest key is looked up", E)], ["return value of embedDBPut / embedDBPutVar, later lookups and scans"])

p("C03", "Range scans return exactly the matching records in key order",
  "A scan with any combination of inclusive minimum and maximum key and data filters returns every retained record that satisfies all filters exactly once, in ascending key order with its exact data, and nothing else, and then reports the end. Bitmap and index pages, the spline, the write buffer, earlier flushes and reopened files only affect speed, never which records are returned.",
  ["inputs", "histories", "configurations"],
  "all histories of inserts, flushes, wraps and reopens; all filter combinations, including bounds between, below, above and equal to stored values; all configurations with and without bitmap and index",
  "The tests run a few fixed range queries over one data set; partial index pages after flushes, wrap-around of index pages, reopened index files and bounds at bucket edges are not covered.",
  [E, D, U], [("iterator", E + ":embedDBInitIterator, embedDBNext"), ("bitmap index lookup", E + ":embedDBNext, readIndexPage, bitmapOverlap"), ("index maintenance", E + ":embedDBPut, embedDBFlush, writeIndexPage")],
  [("index pages", "bitmaps of data pages", E)], ["records returned by embedDBNext / embedDBNextVar"])

p("C04", "Reclaiming space drops only the oldest records",
  "When allotted data storage is exhausted, inserts keep succeeding and space is made by discarding the oldest records only: at every moment the retained records are a contiguous newest part of everything inserted. At least the records of the newest numDataPages minus one erase block of written pages (a further two erase blocks are reserved with record-level consistency), plus everything still buffered, are retained.",
  ["histories", "configurations"],
  "all insert/flush histories that wrap the data file any number of times, at every point of the history, for all page counts and erase-block sizes, with and without index, variable data and record-level consistency",
  "The tests wrap one or two configurations and look at internal counters at the end; they do not compare the retained set with the history at every block transition or in combination with flushes of partial pages.",
  [E, D, SP], [("block-wise reclamation", E + ":writePage, shiftRecordLevelConsistencyBlocks"), ("spline clean-up", E + ":cleanSpline")],
  [("minDataPageId, nextDataPageId, numAvailDataPages", "window of retained pages", EH)], ["full scan and lookups of every key of the history"])

p("C05", "Variable-length values round-trip byte for byte",
  "A record inserted with a variable-length value of any length, including zero and lengths spanning many pages, later yields a stream of exactly that length and exactly those bytes, both by key lookup and during scans, whatever chunk sizes the stream is read with. Records inserted without a value yield no stream, and the fixed-size part of every record is unaffected.",
  ["inputs", "histories", "configurations"],
  "all value lengths and contents, mixed with records without values and plain inserts, flushes and reads between inserts; all chunkings of stream reads; all page sizes and key/data sizes",
  "The tests use short strings of nearly constant length and one chunk size, with 512-byte pages.",
  [E, D], [("writing values across pages", E + ":embedDBPutVar, writeVariablePage, embedDBFlushVar"), ("reading values", E + ":embedDBGetVar, embedDBNextVar, embedDBSetupVarDataStream, embedDBVarDataStreamRead")],
  [("currentVarLoc", "address of the next value", EH)], ["embedDBGetVar, embedDBNextVar, embedDBVarDataStreamRead"])

p("C06", "Overwritten variable data is reported as gone, never as other bytes",
  "When variable-data storage wraps around, a record whose value has been overwritten is still found with its fixed-size data, its value is reported as deleted (lookup returns 1, no stream), and no lookup or scan ever yields bytes of another record's value. Only the oldest values are lost, and only once storage has been filled: a value stays readable as long as no more than numVarPages minus one erase block of variable-data pages have been written since its insertion began.",
  ["inputs", "histories", "configurations"],
  "all histories that wrap the variable-data file, including data pages wrapping at a different pace, records without values, flushes and reads in between, and reopens",
  "The tests wrap the variable file once with constant-size values and check a few keys.",
  [E, D], [("oldest retained key for values", E + ":writeVariablePage, embedDBSetupVarDataStream, embedDBInitVarDataFromFile")],
  [("minVarRecordId", "smallest key whose value is retained", EH)], ["embedDBGetVar, embedDBNextVar"])

p("C07", "A flushed and closed database reopens with the same contents",
  "After a flush and close, initializing without the reset flag on the same storage succeeds, and every lookup, scan, filtered scan and variable-length read gives the same answers as before closing, except that at most one erase block of the oldest records (and likewise of the oldest variable values) may be missing once the storage has been filled; the newest numDataPages minus one erase block of pages (three with record-level consistency) are always there. Inserting, wrapping, querying and reopening can continue indefinitely from there under the same guarantees.",
  ["histories", "configurations"],
  "all histories with any number of flush-close-reopen cycles at any fill level, wrapped or not, for storage that erases to any fill value or not at all",
  "The recovery tests reopen once at about a dozen chosen fill levels for one geometry.",
  [E, D, SP], [("recovery", E + ":embedDBInitDataFromFile, embedDBInitDataFromFileWithRecordLevelConsistency, embedDBInitIndexFromFile, embedDBInitVarDataFromFile, embedDBInitSplineFromFile")],
  [("page headers", "logical page ids and counts on storage", E)], ["embedDBInit return value and all queries after it"])

p("C08", "Crash recovery yields an exact contiguous part of the history",
  "If the process stops between any two storage operations, initializing from the surviving storage succeeds and the recovered records are a contiguous part of the insertion history with exact contents: it ends no earlier than the last record whose page had been written, loses no more than one erase block of the oldest retained pages, and contains no record that was never inserted. The recovered database then accepts further inserts, wraps, crashes and recoveries under the same guarantees.",
  ["crash_points", "histories", "configurations"],
  "every crash point (between any two page writes or block erases, whole operations applied or not) of all generated histories, repeated crashes included; storage that erases to any fill value or not at all",
  "The tests close the files at a few hand-picked page counts; no test stops between an erase and the following write or checks all crash points of a history.",
  [E, D], [("recovery scan", E + ":embedDBInitDataFromFile, embedDBInitIndexFromFile, embedDBInitVarDataFromFile"), ("write order", E + ":writePage, writeIndexPage, writeVariablePage")],
  [("page headers", "logical page id, record count", E)], ["embedDBInit return value and all queries after it"])

p("C09", "Record-level consistency makes every acknowledged insert durable",
  "With record-level consistency enabled, every insert that has returned success is present with exact contents after a crash at any later point and re-initialization, as long as it has not been reclaimed as one of the oldest records. This holds for any number of crash-and-recover cycles, across block shifts and wrap-around, and after explicit flushes.",
  ["crash_points", "histories", "configurations"],
  "every crash point of all generated histories with record-level consistency, repeated crashes, flushes at arbitrary fill levels, wrap-around",
  "The tests check a few fixed record counts, without explicit flushes in between and without stopping inside the multi-step block shift.",
  [E, D], [("temporary pages", E + ":writeTemporaryPage, shiftRecordLevelConsistencyBlocks"), ("recovery", E + ":embedDBInitDataFromFileWithRecordLevelConsistency")],
  [("rlcPhysicalStartingPage, nextRLCPhysicalPageLocation", "window of temporary pages", EH)], ["queries after re-initialization"])

p("C10", "Variable data stays paired with its record across crashes",
  "After a crash at any point and re-initialization, every recovered record whose insert had returned success before the crash either yields exactly its own variable-length value or, only when that value was among the oldest in wrapped storage, is reported as having it deleted; no recovered record ever yields bytes of a different value. With record-level consistency this covers every acknowledged insert, otherwise every record whose data page reached storage.",
  ["crash_points", "histories", "configurations"],
  "every crash point of all generated histories with variable data, with and without record-level consistency, repeated crashes, further inserts after recovery, wrap-around of both files",
  "The tests recover variable data only from cleanly closed files at a few fill levels.",
  [E, D], [("values written before the record's page", E + ":embedDBPutVar, writeVariablePage"), ("recovery", E + ":embedDBInitVarDataFromFile")],
  [("minVarRecordId, nextVarPageId, currentVarLoc", "window of retained values", EH)], ["embedDBGetVar, embedDBNextVar after re-initialization"])

p("C11", "Storage accesses stay in the allotted pages and erase before rewriting",
  "Every page the database writes or erases lies inside the page range allotted to that file, and so does every page it reads (recovery may in addition probe the one page behind the range); erases cover whole aligned erase blocks inside it, and a page that has been written is not written again before its block has been erased. This holds across wrap-around, record-level consistency, reopening and recovery.",
  ["histories", "configurations", "crash_points"],
  "all histories of inserts, flushes, queries, reopens and crashes in all valid configurations, for each of the three files",
  "The tests run on ordinary files, where an access outside the range or a missing erase goes unnoticed.",
  [E, D], [("modular page addressing and block erase", E + ":writePage, writeIndexPage, writeVariablePage, writeTemporaryPage, shiftRecordLevelConsistencyBlocks, recovery functions")],
  [("numAvailDataPages, numAvailIndexPages, numAvailVarPages", "pages writable before the next erase", EH)], ["calls on the storage interface"])

p("C12", "Storage failures are reported and never turn into wrong answers",
  "If the storage interface reports a failed write, erase or flush while an insert or flush needs it, that call returns a non-zero result; if a read fails, a lookup reports an error and a scan ends early, but no query ever returns a record with wrong contents, and records accepted before and after a failure stay retrievable once storage works again, also after reopening or after a stop of the process (where records that were only buffered without record-level consistency are gone). Initialization returns non-zero if a file cannot be opened, an erase it needs fails or, without record-level consistency, a data page cannot be read again, and works again once storage does; when other reads fail it may take them for the end of the data, but it terminates and nothing is answered afterwards that was not inserted.",
  ["fault_sequences", "histories", "configurations"],
  "failure of any single or of any run of storage calls (read, write, erase, open) at any point of all generated histories",
  "The tests never make a storage call fail.",
  [E, D], [("error propagation", E + ":embedDBPut, embedDBPutVar, embedDBFlush, writePage, writeTemporaryPage, readPage")],
  (), ["return values of embedDBInit, embedDBPut, embedDBPutVar, embedDBFlush, embedDBGet, embedDBGetVar, embedDBNext"])

p("C13", "Initialization accepts valid configurations and rejects invalid ones",
  "Initialization returns 0 exactly when the documented requirements are met (key size 1 to 8, record and page header small enough for a page, an index page that holds at least one bitmap, erase size at least 1, page counts multiples of the erase size and at least the documented minima, variable data space within 32-bit addresses, enough buffer pages, at least four spline points unless binary search is used, required files present and openable) and non-zero otherwise. A fresh database is empty: every lookup reports not-found and every scan ends immediately, whatever the storage held before when the reset flag is set.",
  ["configurations", "inputs"],
  "all combinations of sizes, flags, page counts, buffer counts and missing or unopenable files, on fresh and on previously used storage",
  "The tests initialize about twenty fixed configurations.",
  [E, D], [("checks in initialization", E + ":embedDBInit, embedDBInitData, embedDBInitIndex, embedDBInitVarData")],
  (), ["return value of embedDBInit, queries after it"])

p("C14", "The learned index bounds contain the true page of every key",
  "For any strictly ascending keys added with non-decreasing page numbers, an estimate for any key between the first added and the last added key gives low <= estimate <= high, and for every added key not below the oldest retained point [low, high] contains the page it was added with (for a key between two added keys it reaches the range between their pages), while for keys below it the bounds still cover the pages dropped from the model. A point is added only where the next key leaves the error corridor of the segment so far, and adding drops an old point only when the allotted points are used up. The number of points never exceeds the allotted size, and erasing points removes exactly the oldest ones or is refused without change.",
  ["inputs", "histories", "configurations"],
  "all ascending key sequences (dense, sparse, bursty, huge gaps), key sizes up to 8 bytes, error bounds, spline sizes from 4 points, and interleavings of add, erase and find",
  "The tests use a few fixed sequences with 4-byte keys and check selected points.",
  [SP, "src/spline/spline.h", D], [("greedy spline corridor", SP + ":splineAdd"), ("lookup", SP + ":splineFind, pointsBinarySearch"), ("erase", SP + ":splineErase")],
  [("points, count, pointsStartIndex", "circular array of spline points", "src/spline/spline.h")], ["splineFind results, spline count"])

p("C15", "Value bitmaps never exclude a matching value",
  "For each bundled bitmap type (8, 16 and 64 buckets): the bitmap built from any range, with either bound possibly absent, overlaps the bitmap of every value inside the range, and the membership test is non-zero for every value added to a bitmap and zero when the value's bucket is not set. Adding values only ever sets bits. The bitmap of a range holds no bucket outside the buckets of its bounds, buckets follow the order of the values, and every bucket has values.",
  ["inputs"],
  "all data values, all ranges (min <= max, either side open) and all sets of added values",
  "No test checks the bitmap helpers directly; query tests touch a few ranges.",
  [U, "lib/EmbedDB-Utility/embedDBUtility.h", D], [("bucket computation", U + ":updateBitmapInt8/16/64, buildBitmapInt8/16/64FromRange, inBitmapInt8/16/64")],
  (), ["bitmap bytes and return values of the helpers"])

p("C16", "Table scan, projection and selection compute relational results",
  "Any composition of scan, projection and selection operators yields exactly the rows, in the same order and with the same column bytes, that evaluating the composition over the scan's records by definition yields: selection keeps the rows whose column compares as requested (less, greater, their or-equal forms, equal, not equal) with the constant under the column's signedness and size, projection keeps the listed columns (listed in ascending order, as documented). After the last row each further call reports the end.",
  ["inputs", "programs", "configurations"],
  "all schemas of signed and unsigned columns of any size, data, operator trees, comparison operators and constants",
  "The query tests run a few fixed pipelines over one weather data set (and the larger ones cannot run without it).",
  [Q, S, D], [("operators", Q + ":createTableScanOperator, createProjectionOperator, createSelectionOperator and their init/next"), ("comparison", Q + ":compare, compareSignedNumbers, compareUnsignedNumbers")],
  (), ["rows produced by exec"])

p("C17", "Aggregation yields one exact row per group",
  "Aggregation produces, for each maximal run of consecutive input rows the grouping function puts together, exactly one row, in input order, whose columns are the exact count, sum, minimum, maximum and average of that run, for signed and unsigned columns of every size the aggregates accept. Every input row contributes to exactly one group, including the first row of each group and the rows of the last group.",
  ["inputs", "programs"],
  "all input tables, grouping functions, column types and sizes, and lists of aggregate functions including user-defined ones, over scans with or without selections below and above",
  "The tests aggregate one data set with 4-byte columns and one grouping function.",
  [Q, D], [("group loop", Q + ":initAggregate, nextAggregate"), ("bundled aggregates", Q + ":createCountAggregate, createSumAggregate, createMinAggregate, createMaxAggregate, createAvgAggregate")],
  (), ["rows produced by exec"])

p("C18", "Key equijoin returns every matching pair exactly once",
  "Joining two inputs that are ordered by distinct unsigned keys yields exactly one row per key present in both inputs, in key order, consisting of all columns of the first row followed by all columns of the second, under a schema that describes that layout. Inputs of any length, including empty ones, ones ending early and ones without common keys, are handled.",
  ["inputs", "programs"],
  "all pairs of key-ordered tables and schemas with a common key size, including joins over selections, projections and other joins",
  "The join test uses one data set against a shifted copy of itself.",
  [Q, D], [("merge join", Q + ":createKeyJoinOperator, initKeyJoin, nextKeyJoin")],
  (), ["rows and schema produced by exec"])

p("C19", "Schemas describe the record layout exactly",
  "A schema reports, for any list of column sizes and signedness, the byte offset of each column as the sum of the preceding column sizes, the record size as the sum of all, and the signedness given, and no schema is made from column sizes or signs that are invalid; a copy is equal and independent, and a record buffer made from it can hold a full record. The schema of every operator's output describes the rows that operator produces.",
  ["inputs", "programs"],
  "all column lists and all operator compositions",
  "The tests build two or three fixed schemas.",
  [S, "src/query-interface/schema.h", Q, D], [("schema functions", S + ":embedDBCreateSchema, copySchema, getColOffsetFromSchema, getRecordSizeFromSchema, createBufferFromSchema, embedDBFreeSchema"), ("operator schemas", Q)],
  (), ["return values of schema functions, operator->schema after init"])

p("C20", "Operators and databases release what they allocate",
  "Initializing, fully or partly running, closing and recursively freeing any operator tree releases every allocation it made, exactly once, and touches no freed memory; initializing an open scan, projection or selection pipeline again leaks nothing. Likewise opening, using (including iterators and streams released as documented) and closing a database leaves nothing allocated.",
  ["programs", "histories", "configurations"],
  "all operator trees, any number of rows consumed before closing, all database configurations and histories of open/use/close",
  "The tests do not observe allocations.",
  [Q, S, E, SP, D], [("close and free", Q + ":close functions, embedDBFreeOperatorRecursive"), ("database close", E + ":embedDBClose, embedDBCloseIterator; " + SP + ":splineClose")],
  (), ["allocator balance, address sanitizer"])

p("C21", "Concurrent cursors and databases do not disturb each other",
  "Interleaving any number of open iterators, value streams, lookups and flushes on one database, or operations on several databases, gives each of them the results it would give alone. An iterator that is open while records are appended returns, in ascending order and without duplicates, every record that was present when it was opened (and is not reclaimed meanwhile), whether or not pages are written out in between.",
  ["schedules", "histories", "configurations"],
  "all interleavings of steps of several iterators, streams and lookups with puts and flushes on one or more databases",
  "The tests run each iterator to its end before anything else happens.",
  [E, D], [("position kept in the iterator, shared read buffers", E + ":embedDBNext, embedDBNextVar, embedDBVarDataStreamRead, readPage, readVariablePage, readIndexPage")],
  [("read buffers", "shared by all readers of a state", EH)], ["records and bytes delivered to each reader"])

p("C22", "I/O statistics match the storage traffic",
  "The read and write counters of a database equal the number of page reads and permanent page writes actually issued to the corresponding files since the counters were reset, and reads answered from the page buffers need no storage access and are counted as buffer hits (a search that recognises the buffered page by itself need not count one). Resetting sets all counters to zero and changes nothing else.",
  ["histories", "configurations"],
  "all histories of inserts, flushes, lookups and scans with statistics resets in between",
  "No test compares the counters with the calls made on storage.",
  [E, D], [("counters", E + ":readPage, readIndexPage, readVariablePage, writePage, writeIndexPage, writeVariablePage, embedDBResetStats")],
  [("numReads, numWrites, numIdxReads, numIdxWrites, bufferHits", "public counters", EH)], ["counters against calls on the storage interface"])

p("C23", "The desktop file adaptor behaves as a persistent array of pages",
  "Pages written through the desktop adaptor are read back exactly, at any page number and in any order, also after flush, close and reopen for update; opening for overwrite empties the file, opening for update requires it to exist, and reading a page beyond the end of the file reports failure. Success and failure are reported as documented (1 and 0), also when data cannot be stored and this shows only at a flush or close, and erasing leaves all pages outside the erased range untouched.",
  ["inputs", "histories"],
  "all sequences of open, read, write, erase, flush and close on several files, page sizes and page numbers",
  "The adaptor is only exercised through the database tests, at page size 512.",
  [DF, "lib/Desktop-File-Interface/desktopFileInterface.h"], [("page addressing", DF + ":FILE_READ, FILE_WRITE, FILE_OPEN, MOCK_FILE_ERASE")],
  (), ["return values and buffers of the adaptor"])

p("C24", "The SD-card and dataflash adaptors behave as arrays of pages",
  "Over a working device, pages written through the SD-card and dataflash adaptors are read back exactly at any page number and in any order, a dataflash file never touches pages outside its assigned range, and page gaps in an SD file do not disturb other pages. Pages that the file system or range cannot hold are reported as failures. When the device reports that a read or write did not complete, the adaptor reports failure.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of open, read, write, flush and close with any page numbers and device failures at any call, over a modelled device",
  "No desktop test compiles these adaptors.",
  ["lib/SD-File-Interface/SDFileInterface.c", "lib/Dataflash-File-Interface/dataflashFileInterface.c"],
  [("page addressing", "lib/SD-File-Interface/SDFileInterface.c:FILE_READ, FILE_WRITE; lib/Dataflash-File-Interface/dataflashFileInterface.c:DF_READ, DF_WRITE")],
  (), ["return values, buffers and device calls"])

p("C25", "The single-file distribution behaves like the modular sources",
  "For every history of operations and every query, the single-file distribution, and a distribution regenerated from the current modular sources with the amalgamation script, give the same return values, the same records and the same storage contents as the modular sources.",
  ["histories", "configurations", "programs"],
  "all generated histories over inserts, flushes, queries, variable data, reopens, spline, schema and operator programs in all configurations",
  "The same tests are run against both, but only sample behaviour at the tested points; the script's output is never compiled or run.",
  [D, "lib/Distribution/embedDB.h", E, SP, S, Q, U, "amalgamation/amalgamation.py"], [("amalgamation", "amalgamation/amalgamation.py")],
  (), ["traces of return values, records and file contents"])

p("C26", "The amalgamation script preserves dependencies and contents",
  "For any set of C headers and sources with acyclic local includes, the generated pair contains every file's code exactly once, places each header after all headers it includes, includes every standard header that any file needs, compiles, and behaves as the original files do; the result does not depend on the order in which files are found or on hash seeds. All of this holds for C and C++ output, as one file or as a header and a source. A cyclic include is reported by a non-zero exit instead of an output.",
  ["programs"],
  "all generated projects of headers and sources with arbitrary include graphs, relative include paths and standard headers",
  "The tests cover a few fixed sample files and graphs and never compile the result.",
  ["amalgamation/amalgamation.py"], [("dependency order", "amalgamation/amalgamation.py:topsort, dfs, create_directed_graph"), ("include handling", "amalgamation/amalgamation.py:FileNode, retrieve_pattern_from_source, remove_pattern_from_source, format_external_lib")],
  (), ["generated files, exit status"])

p("C27", "The bundled comparators order values consistently",
  "The bundled 32-bit and 64-bit comparators return exactly -1, 0 or 1 according to whether the first value is smaller than, equal to or greater than the second, for all signed values whose difference is representable in that width, and read exactly that many bytes from each operand.",
  ["inputs"],
  "all pairs of values with representable difference, at any alignment the database passes",
  "The comparators are only exercised indirectly on small positive numbers.",
  [U, D], [("comparison by difference", U + ":int32Comparator, int64Comparator")],
  (), ["return values"])

p("C28", "Tuning options never change answers",
  "Two databases that receive the same inserts, flushes and queries and differ only in tuning (spline size and error bound, spline or binary search, bitmap and index on or off, min/max headers, spline clean-up on or off) accept the same inserts and give the same answers to every lookup and scan on the records both retain.",
  ["configurations", "histories", "inputs"],
  "all histories and all pairs of tuning settings with the same page geometry",
  "Each test fixes one configuration; no test compares two.",
  [E, D, SP], [("search strategies and optional page headers", E + ":embedDBGet, embedDBInitIterator, embedDBNext, embedDBPut")],
  (), ["return values, records"])

p("C29", "The database never touches memory outside the buffers it is given",
  "No operation in any valid configuration reads or writes outside the page buffers, key, data, value and filter memory supplied by the caller and its own allocations, nor past the part of the page buffers that belongs to the declared number of pages, and none modifies the key, data, value or filter memory passed as input. This includes the smallest and largest page, record, bitmap and buffer sizes and every fill level of data, index and variable pages.",
  ["configurations", "histories", "inputs"],
  "all valid configurations and all histories of inserts, flushes, lookups, scans, stream reads and reopens",
  "The tests run without memory instrumentation and with generously sized caller memory.",
  [E, D, SP, Q], [("page layout arithmetic", E + ":embedDBInit, initBufferPage, embedDBPut, embedDBPutVar, embedDBFlush, embedDBNext"), ("circular spline points", SP)],
  (), ["address sanitizer, guard bytes around caller memory"])

p("C30", "Outcomes do not depend on what memory held before",
  "The same program - initialization, inserts, flushes, lookups, scans, value streams, reopens, queries and calls made while storage fails - has the same return values, records, values and storage contents whatever bytes the caller's structures and buffers, fresh allocations and stack variables happened to hold before EmbedDB or the documented setup wrote them. No decision and no stored byte comes from memory that was never set.",
  ["inputs", "histories", "configurations", "fault sequences"],
  "all programs over all valid configurations, all prior contents of the structures, buffers, heap and stack",
  "The tests run each scenario once, with zeroed or freshly mapped memory on a desktop; a value that happens to be zero there is not on a microcontroller.",
  [E, D, SP, Q, S], [("initialization of the state", E + ":embedDBInit, embedDBInitData, embedDBInitIndex, embedDBInitVarData and the recovery variants"), ("page initialization", E + ":initBufferPage"), ("iterators and streams", E + ":embedDBInitIterator, embedDBGetVar, embedDBNextVar"), ("operators", Q + ":init functions")],
  [("embedDBState", "every field of the structure", EH)], ["return values, rows, values, contents of the files"])

p("C31", "Every build of the library gives the same results, with no undefined operation",
  "The same program gives the same return values, records, values and storage contents whichever compiler and optimisation level built the library, whether plain char is signed or not and whether error printing is compiled in; and no operation of any valid program relies on behaviour the C language leaves undefined (signed overflow, floating-point values converted out of range, shifts past the width, misaligned accesses, null or out-of-bounds pointers), so it also works on the boards whose processors fault or compilers optimise differently. Pages of an even size in buffers aligned for the largest integer are assumed, as are calls to memcpy with a length of zero.",
  ["inputs", "histories", "configurations", "fault sequences"],
  "all programs over all valid configurations; builds by gcc and clang, optimised and not, with and without PRINT_ERRORS",
  "The tests are built once, by one compiler without optimisation or instrumentation, where undefined operations happen to give the expected result.",
  [E, D, SP, Q, S, U], [("key arithmetic and estimates", E + ":embedDBEstimateKeyLocation, getMaxError, embedDBCalculateSlope; " + SP), ("comparators", U), ("aggregates", Q + ":sumAdd, avgAdd")],
  (), ["return values, rows, values, contents of the files, undefined-behaviour sanitizer"])

p("C32", "The storage work of every operation is bounded",
  "Without storage failures no operation touches more pages than it needs. An insert or a flush writes at most one data page (an insert also one temporary page with record-level consistency), the index pages that became full or are flushed, and the pages its value fills; it reads at most the newest data page and one page of values for each block it erases. Lookups and scans of records write nothing. A lookup of a buffered record reads nothing; by binary search it reads at most log2(n)+1 of n data pages; with a spline whose points cover the key at most the 2*maxError+1 pages around the estimate, none twice. A scan reads data pages in ascending order, each at most once, none before its records are asked for and none behind the page that ends its key range; when the spline covers the lower bound it starts at most 2*maxError+1 pages before the first matching page; it reads no data page whose retained bitmap excludes its data filter, and without a data filter no index page. A value read takes its own pages. Initialization reads every data page at most about twice, every other page about once, and writes nothing.",
  ["histories", "configurations", "inputs"],
  "all histories of inserts, flushes, lookups, scans, value reads and reopens in all valid configurations",
  "The tests check results and a few counters after fixed sequences; an index that is silently not used, a search that degrades to reading every page or a scan that starts too early gives the same answers.",
  [E, D, SP], [("search", E + ":binarySearch, linearSearch, splineSearch"), ("scan start and skipping", E + ":embedDBInitIterator, embedDBNext, readIndexBitmap"), ("page output", E + ":writePage, writeTemporaryPage, writeIndexPage, writeVariablePage"), ("recovery", E + ":embedDBInitDataFromFile and its variants")],
  (), ["calls the storage receives, with their page numbers"])

p("C33", "The library built for a 32-bit processor behaves as built for a 64-bit one",
  "The same program gives the same return values, records, values and query rows, and byte-identical storage, whether the library is compiled for a processor with 32-bit long, size_t and pointers (as the boards it is written for) or with 64-bit ones, and executes no undefined operation there; a file written on a board can therefore be read on a desktop computer and the other way round. Keys, data and aggregates of 8 bytes keep their full width.",
  ["inputs", "histories", "configurations", "fault sequences"],
  "all programs over all valid configurations, on x86 in 32-bit and in 64-bit mode",
  "The tests here run on a 64-bit processor only, and the boards that run them elsewhere sample a few fixed scenarios.",
  [E, D, SP, Q, S, U], [("types of keys, page numbers and sizes", EH + ":embedDBState, id_t; " + SP + ":spline"), ("bitmaps and comparators of 8 bytes", U), ("aggregate states", Q + ":sumAdd, avgAdd")],
  (), ["return values, rows, values, contents of the files"])

p("C34", "Stored files follow one self-describing format",
  "Whatever the history, every page in storage can be decoded without the library. Page n of a file is at place n mod its page count and begins with n (4 bytes). A data page holds its record count (2 bytes), the bitmap of exactly its values at byte 6 and, with EMBEDDB_USE_MAX_MIN, its smallest and largest key and data from byte 14 on, then its records in order: key, data and, with variable data, the 4-byte address of the value or FFFFFFFF. Pages written by record-level consistency are earlier states of the page they become. An index page holds the number of its bitmaps, the first data page it describes at byte 8, and the bitmaps of consecutive data pages from byte 16 on without a gap between pages. A variable-data page holds the newest key with bytes on it; a value is its 4-byte length and its bytes, running on after the header of the next page. Conversely, any files in this format, also of an old database whose page numbers are high, are opened with exactly the contents they describe and can be written on.",
  ["inputs", "histories", "configurations", "files"],
  "all histories over all configurations; all valid files, with page numbers up to the limit of 32 bits, partly filled pages and any content in unused bytes",
  "The tests read a few header fields of a few pages; no test reads a page the library did not write, and no test can run long enough for high page numbers.",
  [E, D, EH], [("page headers and records", E + ":initBufferPage, embedDBPut, writePage, updateMaxiumError"), ("index pages", E + ":writeIndexPage, embedDBPut, embedDBFlush"), ("values", E + ":writeVarData, advanceVarPage, writeVariablePage"), ("opening", E + ":embedDBInitDataFromFile, embedDBInitIndexFromFile, embedDBInitVarDataFromFile")],
  [("nextDataPageId, nextIdxPageId, nextVarPageId", "next logical page of each file", EH)], ["bytes of the data, index and variable files; contents after opening"])
p("C35", "Running out of memory and unfit set-ups fail cleanly",
  "Wherever an allocation of the library fails, the call reports it and leaves everything usable. Initializing a database without memory returns an error and leaves the storage as it was, and opening it later yields the same contents; a refused initialization, whatever its reason, keeps no memory. Creating a schema, operator, aggregate function, file or file interface returns NULL, keeps nothing and leaves its arguments usable. A query whose initialization lacked memory returns no rows (never a wrong or partial result), can be closed and freed without leaking, and if it holds no aggregate or join can be initialized again. A value lookup reports an error, a scan over values stops, both work again with memory; insertions, flushes, fixed-size lookups and scans need no memory and stay exact. A table scan whose schema does not fit the database and a join of keys of different type return no rows, also below other operators, and close without leaking.",
  ["inputs", "allocation faults", "histories"],
  "all programs and every allocation in them failing, alone or with all later ones; all unfit schemas and key columns",
  "No test makes an allocation fail, although small memories are where the library runs; which allocation fails in which tree or history is a choice tests can not enumerate.",
  [E, Q, "src/query-interface/schema.c", "src/spline/spline.c", "lib/Desktop-File-Interface/desktopFileInterface.c"], [("initialization", E + ":embedDBInit, abandonInit"), ("spline memory", "src/spline/spline.c:splineInit"), ("streams", E + ":embedDBSetupVarDataStream"), ("operators", Q + ":create*Operator, init*, next*"), ("aggregate functions", Q + ":create*Aggregate"), ("schemas", "src/query-interface/schema.c:embedDBCreateSchema, copySchema"), ("adaptors", "lib/Desktop-File-Interface/desktopFileInterface.c:setupFile, MOCK_FILE_ERASE")],
  [("op->schema, op->recordBuffer", "NULL when an operator could not be initialized", "src/query-interface/advancedQueries.h")], ["return values; rows; allocations left; storage writes; contents after opening"])

p("C36", "Silent unless asked, and what is printed is true",
  "Built without PRINT_ERRORS the library writes nothing to standard output or standard error, whatever is called and whatever fails, as boards without a terminal need; only the print functions print. Building with PRINT_ERRORS changes no result, no stored byte and no storage operation, and tells of a refused set-up (key, erase, page, buffer or spline counts that can not work, a missing file for variable data, a column without size or signedness), an insert that is out of order, a flush whose write to storage failed and a scan ended by a read that failed. The print functions (embedDBPrintInit, embedDBPrintStats, splinePrint, printSchema) print the figures the state, spline or schema has, whatever their size, change nothing and do not use the storage.",
  ["inputs", "fault points", "histories"],
  "all programs of calls, with and without failing storage calls, in both builds; all states, splines and schemas",
  "The tests are built one way, never read what is printed and make few calls fail; a stray message or a wrong figure passes all of them.",
  [E, "src/spline/spline.c", "src/query-interface/schema.c", Q, "docs/usageInfo.md"], [("messages", E + ":PRINT_ERRORS"), ("figures of the state", E + ":embedDBPrintInit, embedDBPrintStats"), ("points", "src/spline/spline.c:splinePrint"), ("columns", "src/query-interface/schema.c:printSchema")],
  [("state->numReads, bufferHits, numWrites, numIdxReads, numIdxWrites, maxError", "what embedDBPrintStats prints", EH)], ["bytes written to file descriptors 1 and 2; results of calls; storage contents and operations"])

p("C37", "What was flushed survives on storage that keeps writes in a cache",
  "Every file's writes may stay in a cache (the C library's, the SD card library's, the operating system's) until the file is flushed or truncated, and the caches of the files are written to storage independently. A crash then loses, in each file separately, any number of the last operations since that file was last flushed, and still recovery succeeds, every record acknowledged before an embedDBFlush that returned 0 is there, every record acknowledged with record-level consistency is there, the recovered records are a gap-free run of the insert history up to some insert, none is given a variable-length value that is not its own, filtered scans over the recovered data and over what is inserted later miss and invent nothing, and a flush that returns 0 after an earlier one failed made durable what the earlier one did not.",
  ["crash_points", "fault_sequences", "histories", "configurations"],
  "a crash at every storage operation with every choice of lost suffixes of the data, index and variable data files, after histories with flushes that succeed and that fail, repeated over up to five recoveries",
  "The tests reopen files that were written completely; none loses a write that was not flushed, and their file interface's flush could do nothing without a test failing.",
  [E, D], [("flushing of the three files", E + ":embedDBFlush, embedDBFlushVar"), ("order of the files", E + ":writeFullIndexPage, embedDBPutVar, writeTemporaryPage"), ("recovery", E + ":embedDBInitDataFromFile, embedDBInitIndexFromFile, embedDBInitVarDataFromFile")],
  (), ["return values of embedDBInit, embedDBPut, embedDBPutVar, embedDBFlush", "lookups and scans after recovery"])

p("C38", "Comparators and bitmap functions can be customized",
  "The library takes its notion of order and of bitmaps only from the functions it is given. Of a comparison it uses the sign alone, whatever the size of the result; data is ordered by compareData alone, be it descending, unsigned, floating point, by the bytes in their order or with different data that compare equal; a bitmap is any that has, for a range, the bits of all values in it, ordered or hashed, and none of its bits means anything to the library. With any such functions inserts accept exactly the ascending keys, lookups find every key, scans with bounds on keys and data return exactly the records between the bounds in that order, with and without an index, the smallest and largest data in a page's header are those of its records in that order, and all of this also holds after reopening.",
  ["inputs", "configurations", "histories"],
  "all key comparators for the numeric order of the keys with results of any size, all total preorders of the data, all bitmap functions that have the bits of all values of a range",
  "The tests use the bundled comparators, whose results are -1, 0 and 1, on signed integers, and the bundled bitmaps, whose bits follow the values.",
  [E, EH, "docs/usageInfo.md"], [("comparisons of keys", E + ":embedDBPut, embedDBSearchNode, linearSearch, binarySearch, src/spline/spline.c:splineFind"), ("comparisons of data", E + ":embedDBNext, insertRecord"), ("bitmaps", E + ":embedDBInitIterator, bitmapOverlap, insertRecord")],
  [("state->compareKey, compareData, updateBitmap, inBitmap, buildBitmapFromRange", "the functions of the application", EH)], ["results of inserts, lookups and scans; page headers in storage"])

p("C39", "The build for boards gives the desktop's results and prints everything on the serial port",
  "Built for a board (ARDUINO defined, printf going through the serial wrapper), the library gives for every program of calls the results, stored bytes and storage operations of the build for the desktop, and whatever the desktop build prints on standard output - the error messages, the figures of embedDBPrintInit and embedDBPrintStats, splines, schemas - arrives byte for byte on the serial port and nowhere else. The wrapper's printf formats as the C library's does, for any format, any values and any length of text, and returns the number of characters written.",
  ["inputs", "fault points", "histories"],
  "all programs of calls, with and without failing storage calls; all formats and values; texts of any length",
  "The tests that run on the host are built for the desktop; the code inside #if defined(ARDUINO) and the serial wrapper are compiled by none of them.",
  ["lib/Serial-Wrapper/serial_c_iface.cpp", "lib/Serial-Wrapper/serial_c_iface.h", E, "src/spline/spline.c", "src/query-interface/schema.c", "src/query-interface/advancedQueries.c"], [("printf on boards", "lib/Serial-Wrapper/serial_c_iface.cpp:serial_printf_c, serial_print"), ("inclusion of the wrapper", E + ":ARDUINO, src/spline/spline.c:ARDUINO, src/query-interface/schema.c:ARDUINO")],
  (), ["bytes printed on the serial port and on standard output", "results of calls; storage contents and operations"])

p("C40", "What different threads do with the library does not meet",
  "The library keeps nothing outside the states, iterators, value streams, schemas, operators, splines, buffers and files it is given. Threads that each use databases, operator trees, splines, bitmaps and desktop files of their own need no locks: whatever the others do at the same time, and wherever in a call another thread goes on, every call returns, stores and delivers what it would alone, and no memory is accessed by two threads.",
  ["schedules", "inputs", "histories"],
  "all programs of calls in two or three threads; all schedules that switch at the calls from the library to the application; all unsynchronized accesses between them",
  "The tests use one thread; a static buffer or a result kept between calls passes all of them.",
  [E, "src/spline/spline.c", Q, "src/query-interface/schema.c", "lib/EmbedDB-Utility/embedDBUtility.c", "lib/Desktop-File-Interface/desktopFileInterface.c"], [("state of a scan", E + ":embedDBNext, embedDBNextVar, embedDBVarDataStreamRead"), ("state of operators", Q + ":next, close"), ("search for a point", "src/spline/spline.c:pointsBinarySearch, splineFind")],
  (), ["results of calls, rows delivered and bytes stored in each thread", "reports of the race detector"])

p("C41", "What is stored can be used with other options",
  "The options that say how a database is searched are not a part of what is stored. Whenever it is opened again, after a close or after a crash, the search method, the number of points and the error bound of the spline, the cleaning of the spline, the number of page buffers and the use of the index file may be others than before, and the index file may be missing: nothing retained is lost, every scan, filtered scan, lookup and value is what it was, an index with gaps or with pages long reclaimed never hides a record, and a file that the parameters do not ask for is not touched although the state names it.",
  ["histories", "configurations", "crash points"],
  "all sequences of reopenings with any of these options changed in any combination; record-level consistency, the sizes, the bitmap, maximum and minimum, variable data and the space of the data are parts of what is stored and stay as they are",
  "The tests reopen with the configuration that wrote the data.",
  [E, EH, SP], [("opening", E + ":embedDBInit, embedDBInitDataFromFile, embedDBInitIndex, embedDBInitIndexFromFile, embedDBInitSplineFromFile"), ("filtering by the index", E + ":readIndexBitmap, embedDBNext"), ("searching", E + ":embedDBGet, linearSearch, binary search of pages")],
  (), ["results and records of scans, lookups and values after each opening", "calls to the storage of a file not in use"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
