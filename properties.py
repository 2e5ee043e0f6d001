prop("T01", "Every metadata item survives each of its representations",
     "Any metadata item that can be created (origin, product, level, timerange, reftime, area, proddef, run, task, quantity, value, bbox, assigned dataset, note, source) reads back equal, with the same field values, from its binary encoding, from its text form, and from its JSON and in-memory structured forms. The binary encoding is the documented one, so data written by other versions keeps its meaning.",
     ["inputs"],
     "All item styles and field values that the creation functions accept, within the field domains listed in DESIGN.md.",
     "Unit tests sample a handful of literal items per type; the representations branch on values (missing markers, sign, unit, digits, separators in strings, varint lengths).",
     ["arki/types/", "arki/core/binary.cc", "arki/structured/json.cc", "arki/structured/memory.cc"],
     [("item codecs", "arki/types/*.cc encodeWithoutEnvelope/decode/decodeString/decode_structure"),
      ("value bags", "arki/types/values.cc")],
     "property-based round-trip testing with an independent reference encoder",
     "Random exploration with shrinking; the reference encoder covers every style, the text and structured forms are checked as round trips.")

prop("T02", "Item equality and ordering are consistent",
     "Comparison of metadata items is a total order on each item type: antisymmetric, transitive, and equal exactly when the items are equal, also across styles and types; equal items stay equal after encoding and cloning. Time-like values order by the value they represent, numbers by value, missing values consistently.",
     ["inputs"],
     "All triples of items of a type, generated close to each other and at the extremes of the field ranges.",
     "Tests compare a few items with a fixed expectation; sorting, summary maps and duplicate detection need the laws for all of them.",
     ["arki/types/", "arki/types/values.cc", "arki/types/timerange.cc"],
     [("compare and equals", "arki/types/*.cc compare/compare_local/equals")],
     "property-based testing of algebraic laws and of a reference comparison",
     "Random exploration; laws on triples plus reference orderings for the styles whose order is documented by their fields.")

prop("M01", "Metadata streams reproduce exactly the metadata and data written",
     "A sequence of metadata written to a file, pipe, memory buffer or collection (compressed groups included) is read back by every reader as the same sequence: items, notes in order, source, and inline data byte for byte, however the input is split in reads. A consumer that stops receives exactly the elements up to the one it refused, and a truncated stream yields exactly the metadata complete before the cut.",
     ["inputs", "fault_sequences"],
     "All sequences of metadata with any items, notes and sources; all group sizes; all chunkings, short reads and truncation points of the stream.",
     "Tests read fixed small files in one go; chunk boundaries, group boundaries, inline data that looks like metadata, and cut points are unbounded.",
     ["arki/metadata.cc", "arki/metadata/reader.cc", "arki/metadata/stream.cc", "arki/metadata/collection.cc", "arki/types/bundle.cc", "arki/utils/compress.cc"],
     [("bundle reading", "arki/types/bundle.cc"), ("groups", "arki/metadata/collection.cc compressAndWrite, arki/metadata/reader.cc read_group"),
      ("incremental stream", "arki/metadata/stream.cc")],
     "property-based testing against a model of the written sequence, with chunking and truncation",
     "Random exploration; the expected bytes come from a reference layout, the expected metadata from a model independent from the Metadata class.")

prop("M02", "YAML and JSON metadata documents round trip",
     "Any sequence of metadata written as YAML documents is parsed back as the same sequence with equal items, the same notes and the same source. The JSON document of a metadata parses back to the same items, notes and source, and inline data follow the document unchanged.",
     ["inputs"],
     "All metadata whose texts have no control characters or comment markers, any number of notes, any source; sequences with blank lines and comments between documents.",
     "Tests format one fixed metadata; formatting and parsing interact with separators, multiple notes and empty values.",
     ["arki/metadata.cc", "arki/utils/yaml.cc", "arki/structured/json.cc", "arki/metadata/reader.cc"],
     [("YAML", "arki/metadata.cc to_yaml, arki/utils/yaml.cc"), ("JSON", "arki/metadata.cc serialise/read_structure, arki/structured/json.cc")],
     "property-based round-trip testing against a model",
     "Random exploration; text domain restricted to what the line based YAML can represent.")

prop("M03", "A metadata behaves as a map of items plus a list of notes and one source",
     "After any sequence of setting, replacing, removing and merging items, adding and clearing notes, changing the source, cloning and re-reading its own encoding, a metadata contains exactly the items, notes and source that the sequence implies. Differences reported between two metadata, and their equality ignoring source, notes and values, are exactly the differing items.",
     ["histories", "inputs"],
     "All operation sequences on two metadata, with items sharing encoded buffers after decoding.",
     "Tests run single fixed sequences; ordering of the index, buffer sharing and note positions depend on the history.",
     ["arki/metadata.cc"],
     [("item index", "arki/metadata.cc metadata::Index"), ("diff", "arki/metadata.cc Metadata::diff_items")],
     "stateful model-based testing",
     "Random operation sequences compared step by step with a reference map.")

prop("Q01", "A matcher selects exactly the metadata its expression describes",
     "For every expression of the matcher language (origin, product, level, timerange, area, proddef, run, task, quantity and reftime, with missing fields, alternatives in or, and conditions on several types) a metadata matches when each type mentioned is present and satisfies at least one alternative, and does not match otherwise. The decision is the same on a metadata, on a set of items, on a single item and on the encoded form of an item.",
     ["inputs"],
     "All expressions built from the documented grammar against all items, generated so that expressions often nearly match.",
     "Tests check a few dozen fixed expressions on one metadata; wrong decisions depend on combinations of missing fields, sentinel values, units and alternatives.",
     ["arki/matcher.cc", "arki/matcher/"],
     [("item matchers", "arki/matcher/*.cc matchItem, match_buffer"), ("combinators", "arki/matcher/utils.cc AND, OR")],
     "property-based testing against an independent reference evaluator",
     "Random exploration; expressions and reference semantics are generated together from the documentation.")

prop("Q02", "Matchers keep their meaning when formatted, merged, split or aliased",
     "Formatting a matcher (with or without expanding aliases) and parsing the result gives a matcher that makes the same decisions. Merging selects data matching either on the types that both constrain; updating replaces the constraints of the types of the second; splitting by type partitions the conditions. An alias, also one defined through other aliases and in any letter case, means the expressions it stands for, and dumped alias databases load back to the same meaning.",
     ["inputs"],
     "All pairs of expressions, all alias databases built from them, on generated metadata.",
     "Remote queries, summaries and merged datasets depend on reformatted matchers; tests compare a few literal strings.",
     ["arki/matcher.cc", "arki/matcher/utils.cc", "arki/matcher/aliases.cc", "arki/matcher/"],
     [("formatting", "arki/matcher/*.cc toString, toStringExpanded"), ("set operations", "arki/matcher/utils.cc merge, update, split"), ("aliases", "arki/matcher/aliases.cc")],
     "property-based testing with metamorphic relations and a reference evaluator",
     "Random exploration; every derived matcher is compared with the reference evaluator on generated metadata.")

prop("Q04", "Reference time expressions select exactly the times they describe",
     "Every reftime expression (full or partial dates with all comparison operators, times of day, time steps and their base, relative dates, date arithmetic, Easter) accepts a time exactly when calendar arithmetic says that it lies in the described set, and its formatted form accepts the same times.",
     ["inputs"],
     "All expressions of the reftime grammar, any value of the current time, times at and around every boundary including month ends and leap years.",
     "Tests use fixed expressions and times away from most boundaries.",
     ["arki/matcher/reftime.cc", "arki/matcher/reftime/", "arki/core/fuzzytime.cc", "arki/core/time.cc"],
     [("parser", "arki/matcher/reftime/reftime-parse.yy, reftime-lex.ll"), ("time tests", "arki/matcher/reftime/parser.cc"), ("calendar", "arki/core/time.cc, arki/core/fuzzytime.cc")],
     "property-based testing against reference calendar arithmetic",
     "Random exploration; the reference computes on seconds since year 1 with its own calendar code.")

prop("Q05", "Time restrictions derived from a query never exclude matching data",
     "The time interval derived from a query, used to select segments, months and index rows, contains every time that the query accepts in the interval given, for any combination of alternatives; and follows the dates exactly when there are no alternatives. The SQL condition derived from a reftime expression accepts in sqlite exactly the times accepted by the matcher. A matcher built for an interval or a month accepts exactly the times in it.",
     ["inputs"],
     "All reftime expressions with up to three alternatives, any starting interval, times at and around every boundary.",
     "Losing part of the results of a query in this way is silent; tests only cover single date expressions.",
     ["arki/matcher.cc", "arki/matcher/utils.cc", "arki/matcher/reftime.cc", "arki/matcher/reftime/parser.cc", "arki/core/time.cc"],
     [("interval", "arki/matcher/utils.cc OR::intersect_interval"), ("SQL", "arki/matcher/utils.cc OR::toReftimeSQL")],
     "property-based testing against a reference evaluator and differential testing with sqlite",
     "Random exploration; each generated condition is run by sqlite on a table of generated times.")

prop("D01", "A dataset returns exactly the data successfully imported and not removed",
     "After any history of imports (also of duplicate and replacing data, in several segments and formats), removals of selected data, repacks, checks, compressions, archivings to tar and zip and full removals, on iseg and simple datasets, a query returns exactly the elements reported as imported that were not replaced or removed since, each once, with the items the dataset keeps, its bytes unchanged, and every matching condition and sort order honoured, and none else. Streaming the raw data gives the same bytes, and a consumer that stops receiving is never called again. Read-only maintenance changes nothing on disk.",
     ["histories", "inputs"],
     "All histories of dataset operations on all dataset types, steps, formats, uniqueness, replace, locking, compression group and small file settings.",
     "Tests run one or two operations on three fixed messages; losses come from the interplay of replaced data, repacks, formats of segments and their indices along a history.",
     ["arki/dataset/iseg/", "arki/dataset/simple/", "arki/dataset/segmented.cc", "arki/dataset/local.cc", "arki/dataset/step.cc", "arki/dataset/maintenance.cc", "arki/segment/", "arki/segment/data/", "arki/metadata/sort.cc"],
     [("iseg import and index", "arki/segment/iseg.cc, arki/segment/iseg/index.cc"), ("simple import and manifest", "arki/segment/metadata.cc, arki/dataset/simple/"), ("maintenance", "arki/dataset/maintenance.cc, arki/dataset/segmented.cc"), ("data segments", "arki/segment/data/")],
     "stateful model-based testing on real datasets",
     "Random histories of up to 7 operations (12 in thorough) on a model of the dataset; data scanners are replaced by ones for self-describing payloads.")

prop("D02", "Summaries queried from a dataset agree with its data",
     "After any history of imports, removals and maintenance, interleaved with queries that fill the caches, the summary of a dataset has the count, size, time span and items of exactly the data that the same query would return, for queries without time conditions and for queries by whole segments or whole date intervals; for finer time conditions every matching datum is counted and only rows of existing data are returned.",
     ["histories", "inputs"],
     "All histories of dataset operations interleaved with summary queries, on all dataset types and settings.",
     "Summaries are served from several layers of caches (per segment, per month, global) that each operation has to invalidate; tests check single steps.",
     ["arki/dataset/iseg/reader.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/", "arki/dataset/index/summarycache.cc", "arki/segment/metadata.cc", "arki/summary.cc", "arki/summary/"],
     [("monthly cache", "arki/dataset/index/summarycache.cc, arki/dataset/iseg/reader.cc"), ("dataset summary", "arki/dataset/simple/reader.cc"), ("segment summaries", "arki/segment/metadata.cc")],
     "stateful model-based testing on real datasets",
     "Random histories; expected summaries are computed from the model, not from the data returned by the dataset.")

prop("D03", "Duplicates are refused or replaced as configured, also within a batch",
     "In a dataset with an index, an element with the same reference time and unique items as one already stored, or imported earlier in the same batch, is refused as a duplicate, replaces it, or replaces it only if its update sequence number is not lower, according to the strategy requested or else configured; every element of a batch is reported as imported, duplicate or failed accordingly, data refused leave no trace, replaced data are no longer returned, and other elements are unaffected. Simple datasets store everything.",
     ["histories", "inputs"],
     "All sequences of batches with repeated elements, any choice of unique items, replace strategies and update sequence numbers, writers reused or not.",
     "Tests import the same three messages twice; the outcome depends on the order inside batches, on missing items and on earlier replacements and removals.",
     ["arki/segment/iseg.cc", "arki/segment/iseg/index.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/segmented.cc"],
     [("replace strategies", "arki/segment/iseg.cc Writer::acquire_batch_*"), ("uniqueness", "arki/segment/iseg/index.cc")],
     "stateful model-based testing on real datasets",
     "Random sequences of batches; update sequence numbers are read by a test scanner for BUFR.")

prop("D04", "The reported state of segments reflects what was done to the dataset",
     "On a dataset that was only operated through arkimet, each segment is found OK, or DIRTY exactly when it contains data that were removed or replaced or, where order matters, not sorted by time, or DELETED when nothing is left in it; no segment is ever found UNALIGNED, MISSING or CORRUPTED, with quick and with accurate checks, whatever time passes between operations; a check reports and changes nothing that needs no fixing, and after a repack everything is OK and deleted space is gone.",
     ["histories"],
     "All histories of imports, removals, repacks, checks and conversions, with time passing between them, on all dataset types and settings.",
     "Wrong states make maintenance rescan or delete segments; they depend on timestamps and on sequences of operations that tests do not combine.",
     ["arki/segment/", "arki/segment/data/", "arki/dataset/segmented.cc", "arki/dataset/maintenance.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc"],
     [("segment checks", "arki/segment/iseg.cc, arki/segment/metadata.cc fsck"), ("data checks", "arki/segment/data/*.cc check"), ("dataset checks", "arki/dataset/*/checker.cc fsck")],
     "stateful model-based testing on real datasets",
     "Random histories; the passing of time is simulated by moving back all timestamps on disk.")

prop("D05", "Checks find damage, repair what can be repaired and touch nothing else",
     "When files of a dataset are lost, truncated, overwritten, replaced or added behind its back, a check reports each segment in the documented state: UNALIGNED if its index or metadata is lost or outdated or it is not known, MISSING if its data are gone, CORRUPTED if known data are truncated, lost or (checking accurately) invalid, and other segments as they were. Fixing rescans exactly the UNALIGNED segments, after which all data found in them are returned, forgets exactly the MISSING ones, asks for manual intervention on CORRUPTED ones and modifies no data file; a repack rewrites only DIRTY segments and deletes only those with no data left, never unknown or unaligned ones, and does nothing at all while the dataset is marked as needing a check. Files that are not segments are never touched, and healthy segments stay readable.",
     ["histories", "crash_points"],
     "All histories of a dataset, followed by any combination of one damage per segment, unknown and stray files, and checks and repacks.",
     "Maintenance on a damaged dataset deletes files based on what it believes: a wrong belief destroys data. Tests damage one segment of a fixed dataset at a time.",
     ["arki/dataset/maintenance.cc", "arki/dataset/segmented.cc", "arki/dataset/simple/checker.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/iseg/checker.cc", "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/data/"],
     [("segment states", "arki/segment/*.cc Checker::fsck"), ("data checks", "arki/segment/data/*.cc check"), ("fix and repack", "arki/dataset/maintenance.cc"), ("rescan", "arki/dataset/*/checker.cc rescan")],
     "stateful model-based testing with injected file damage",
     "One damage per segment out of thirteen; index damages are not applied to tar segments, that arkimet cannot rescan.")

prop("D06", "Old data are archived or deleted exactly when configured",
     "With an archive age or a delete age, at any current time: new data older than the limits are refused or discarded as documented and the rest is stored; a repack archives exactly the segments that only contain data older than the archive age and deletes exactly those older than the delete age; removing old data deletes only the latter, and nothing from the archives. Archived data, also in archives renamed or marked read-only, keep being returned by queries and summaries with the same items and bytes, offline archives keep being counted in summaries, archived data can be brought back, nothing is archived on top of other data, and simulated operations change nothing.",
     ["histories", "inputs"],
     "All histories of imports, maintenance, archive operations and changes of the current time and of the limits, on all dataset types, steps and formats.",
     "The limits are days, segments are intervals, and archives are datasets with their own layout: mistakes at the boundaries delete data or make them invisible, and tests archive only single segments.",
     ["arki/dataset/archive.cc", "arki/dataset/offline.cc", "arki/dataset/segmented.cc", "arki/dataset/local.cc", "arki/dataset/maintenance.cc", "arki/dataset/time.cc", "arki/dataset/simple/checker.cc", "arki/dataset/iseg/checker.cc"],
     [("age limits on import", "arki/dataset/local.cc check_acquire_age"), ("age states", "arki/dataset/segmented.cc SegmentState::check_age"), ("archival", "arki/dataset/segmented.cc CheckerSegment::archive"), ("archives", "arki/dataset/archive.cc")],
     "stateful model-based testing on real datasets",
     "Random histories of up to 12 operations, with the current time moved across the limits of segments.")

prop("D07", "Dispatching never loses or misplaces data",
     "When a batch of messages is dispatched to a configuration with regular, outbound, error and duplicates datasets: each message that is valid, has a reference time and matches the filter of exactly one regular dataset is stored there; all others, and those that the dataset refuses, are stored in the dataset configured for errors, under whatever name; those refused because already present are stored in the dataset configured for duplicates, under whatever name, or in the error one if there is none or it refuses them too; each is stored once, with its items and bytes, and also in all outbound datasets whose filter matches. Nothing else changes in any dataset. The result and destination reported for each message, the count of failed outbound imports, and the new source of its metadata are exactly what happened, and unless asked to drop it, the data of the message can still be read. Simulating a dispatch changes nothing on disk and reports the same destinations, as far as they do not depend on what datasets contain.",
     ["inputs", "histories"],
     "All batches of messages, filters, combinations and types of datasets and validators, in sequences of dispatches and maintenance.",
     "What happens to a message depends on the filters of all datasets and on the outcome of imports of the whole batch in up to four datasets in turn; the tests dispatch three messages to fixed datasets.",
     ["arki/dispatcher.cc", "arki/dataset/pool.cc", "arki/dataset/outbound.cc", "arki/dataset/empty.cc", "arki/dataset/session.cc", "arki/dataset.cc", "arki/dataset/segmented.cc", "arki/dataset/local.cc", "arki/metadata/inbound.cc"],
     [("choice of the destination", "arki/dispatcher.cc Dispatcher::dispatch"), ("datasets for a use", "arki/dataset/pool.cc dataset_for_use"), ("grouping by segment", "arki/dataset/segmented.cc batch_by_segment"), ("simulation", "arki/dispatcher.cc TestDispatcher, test_acquire")],
     "model-based testing of sequences of dispatches on real datasets",
     "Up to 14 messages per batch, up to 3 regular and 2 outbound datasets, plus error and duplicates ones of all types.")

prop("D08", "Queries of several datasets and of files are exact, and can be stopped",
     "Querying several datasets merged together (local datasets of any type, data files with or without metadata, files with inline or referenced metadata, YAML) returns, with their items and bytes, all and only the elements that each of them returns, merged in the requested order; the consumer can stop the query at any element, and then is not called again and the query reports it; an exception of the consumer reaches the caller; a dataset that cannot be read makes the query fail after returning what is readable; progress is reported once per element, between one start and one end; the summary and the bytes of the merged datasets are the sum and the concatenation of theirs. Within a sorting interval elements are in the requested order, and intervals come in sequence. Removing elements queried from several datasets removes exactly those; simulating it, or asking to also remove something that is in no dataset, changes nothing.",
     ["inputs", "histories", "schedules"],
     "All contents, queries and sort orders, numbers and kinds of datasets and files, and points where the consumer stops.",
     "Merging uses a thread per dataset with small queues: results depend on their interplay, and the tests merge three datasets with one element each.",
     ["arki/dataset/merged.cc", "arki/dataset/pool.cc", "arki/dataset/file.cc", "arki/metadata/sort.cc", "arki/dataset.cc", "arki/query/progress.cc", "arki/metadata/reader.cc", "arki/segment/scan.cc"],
     [("merging threads", "arki/dataset/merged.cc"), ("sort order", "arki/metadata/sort.cc Compare, Stream"), ("files as datasets", "arki/dataset/file.cc"), ("locating the dataset of an element", "arki/dataset/pool.cc CheckPool, locate_metadata")],
     "property-based testing against a model of the datasets, differential against single queries",
     "Up to 3 datasets and 2 files; schedules of the threads are the ones of the system. Sort orders across segments of one dataset are only checked within the sorting interval.")

prop("F01", "An interrupted operation never loses data, and the dataset can be repaired",
     "If the process doing an import, a removal, a repack, a conversion, an archival or a check ends at any point between its writes to disk, or halfway through one: before any other operation queries never return data that were not imported, nor damaged data, and an indexed dataset being imported to still returns everything it had; a check (with index rescans) repairs the dataset, a second check finds nothing to do, no segment needs manual intervention, and then queries return all data stored before that the operation was not removing or replacing, each no more times than it was written; repacking then loses nothing and importing the same data again works.",
     ["histories", "crash_points"],
     "All crash points (each system call that changes files, partial writes included) of all maintenance and import operations, after any history, on all dataset types and settings.",
     "Each operation updates data, metadata, index and manifest in some order; a crash between any two of them must be recoverable, and no test stops an operation in the middle.",
     ["arki/dataset/iseg/", "arki/dataset/simple/", "arki/dataset/segmented.cc", "arki/dataset/maintenance.cc", "arki/dataset/archive.cc", "arki/segment/", "arki/segment/data/", "arki/metadata/collection.cc", "arki/utils/files.cc"],
     [("transactions", "arki/segment/data/*.cc, arki/utils/files.cc"), ("index updates", "arki/segment/iseg.cc"), ("metadata updates", "arki/segment/metadata.cc, arki/metadata/collection.cc"), ("manifest", "arki/dataset/simple/manifest.cc"), ("recovery", "arki/dataset/*/checker.cc fsck, rescan")],
     "crash-point injection in random histories on real datasets",
     "The operation runs in a forked process in which interposed system calls terminate it at a random one. The order of writes reaching the disk is the order of the calls. Partial writes at the end of concatenated segments, and tar segments without metadata, are known findings.")

prop("F02", "I/O errors are reported and never corrupt or lose data",
     "If writes fail, are partial, or the disk fills up during an import, a removal, a repack, a conversion, an archival or a check, the program never terminates abnormally; an import that completes has in the dataset exactly the elements it reported as imported, with their bytes, besides those stored before, and the same writer can go on importing; after an operation that fails, the dataset has the guarantees that it has after an interruption: nothing stored before is lost, a check repairs it, and it can be used again.",
     ["histories", "fault_sequences"],
     "All single I/O errors, partial writes and disk full conditions at any call of all operations, after any history, on all dataset types and settings.",
     "Error paths (rollbacks, ignored results of writes, exceptions in destructors) never run in tests.",
     ["arki/dataset/iseg/", "arki/dataset/simple/", "arki/dataset/segmented.cc", "arki/segment/", "arki/segment/data/", "arki/metadata/collection.cc", "arki/metadata/data.cc", "arki/utils/sys.cc", "arki/summary.cc"],
     [("append transactions", "arki/segment/data/fd.cc, dir.cc, arki/segment/*.cc Writer"), ("metadata updates", "arki/metadata/collection.cc, arki/segment/metadata.cc"), ("manifest", "arki/dataset/simple/manifest.cc"), ("rollbacks", "arki/utils/files.cc")],
     "fault injection in random histories on real datasets",
     "Faults are injected by interposing system calls in a forked process.")

prop("F03", "Processes working at the same time on a dataset do not see or do damage",
     "When several processes import, query, summarise, repack, check, convert and remove from the same dataset at the same time, in whatever order their operations interleave, none of them fails, waits forever or terminates; every query returns, with their bytes, all data present throughout its run, nothing that was not there at some time of its run, one version of each element, and all or nothing of what an iseg dataset imported together in a segment; summaries stay within those bounds; and at the end the dataset has exactly what the sequence of completed operations implies, its summaries are exact, and a check and a repack find it sound.",
     ["schedules", "histories"],
     "All interleavings, with up to 12 preemptions at any system call, of 2 or 3 processes with 1 to 3 operations each, after any history, with locking on.",
     "Tests run a few pairs of operations with fixed points of interruption; locking, snapshots and caches fail only if processes interleave at a specific call.",
     ["arki/dataset/iseg/", "arki/dataset/simple/", "arki/dataset/segmented.cc", "arki/dataset/lock.cc", "arki/dataset/index/summarycache.cc", "arki/segment/", "arki/core/lock.cc", "arki/utils/sqlite.cc"],
     [("locks", "arki/dataset/lock.cc, arki/core/lock.cc, arki/core/file.cc"), ("index transactions", "arki/segment/iseg/index.cc, arki/utils/sqlite.cc"), ("summary caches", "arki/dataset/index/summarycache.cc, arki/dataset/simple"), ("segment replacement", "arki/segment/iseg.cc, arki/segment/metadata.cc")],
     "systematic random exploration of schedules of real processes",
     "The processes run one at a time, under a scheduler that gets control at each interposed system call. Simple datasets may leave out segments being imported to; archives are not included; what is removed is not also replaced, moved by a repack or identical to something else.")

prop("S01", "A summary is the exact aggregate of the metadata added to it",
     "After any sequence of additions of metadata, statistics and other summaries, filters, removals of types and re-encodings, a summary lists each combination of summarised items once, with the count, total size and reference time extremes of exactly the metadata that were added with it; totals, reference time interval, selections by matcher, interrupted visits, and short summaries agree with that, and two summaries compare equal exactly when their rows and statistics are equal.",
     ["histories", "inputs"],
     "All sequences of operations on several summaries, with metadata that share items in all ways, missing types, and sizes up to 2^40.",
     "Tests add two or three metadata; the rows are a tree shared between summaries, and aggregation, merging of subtrees and comparison depend on which items are shared.",
     ["arki/summary.cc", "arki/summary/"],
     [("row table", "arki/summary/table.cc, arki/summary/intern.cc"), ("statistics", "arki/summary/stats.cc"), ("short form", "arki/summary/short.cc")],
     "stateful model-based testing",
     "Random operation sequences on several summaries compared with reference maps.")

prop("S02", "Summaries round trip through files, streams, YAML and JSON",
     "A summary is written in the documented binary layout (compressed or not) and read back equal from memory, from files and through any short reads, also when several are written one after the other, and from the older versions of the format; the YAML and JSON documents of a summary list its rows and statistics and are read back as an equal summary.",
     ["inputs"],
     "All summaries with up to 400 rows sharing items in all ways; all chunkings of reads; all versions of the format.",
     "Tests read a few fixed files; the format is a stream of differences between successive rows, and depends on what each row has in common with the previous one.",
     ["arki/summary.cc", "arki/summary/codec.cc", "arki/summary/table.cc", "arki/summary/short.cc"],
     [("binary codec", "arki/summary/codec.cc"), ("documents", "arki/summary.cc write_yaml, serialise, readYaml, read_structure")],
     "property-based round-trip testing with independent reference encoders and decoder",
     "Random exploration; reference writers for the versions 1, 2 and 3 of the format and a reference reader for the current one.")

prop("C01", "Times and intervals follow the calendar",
     "For every date from year 1 to 9999, times convert to and from their text, SQL, binary and unix forms, compare, subtract, normalise and step to boundaries of hours, days, months and years as instants of the Gregorian calendar; half-open and unbounded intervals contain, intersect, extend, and split in months exactly as sets of instants.",
     ["inputs"],
     "All pairs of times near each other and at calendar boundaries; all pairs of intervals with bounds present or missing.",
     "Tests sample a few dates; segments, queries, caches and age limits all depend on these at every boundary.",
     ["arki/core/time.cc"],
     [("time arithmetic", "arki/core/time.cc Time"), ("intervals", "arki/core/time.cc Interval")],
     "property-based testing against a reference calendar on seconds",
     "Random exploration biased to calendar boundaries; months, leap years and missing bounds are all reached.")

prop("C02", "Configuration files are parsed and written faithfully",
     "Every configuration file of documented syntax (sections, keys, values with blanks and quotes, comments, blank lines) is parsed to exactly the sections, keys and values it has, a wrong line is refused with its line number, and parsed configurations that are modified, copied and written are parsed back equal.",
     ["inputs"],
     "All configuration files of up to a few dozen lines, with any blanks, quotes and comments.",
     "Tests parse fixed files; a mistake in a value silently changes which dataset receives the data.",
     ["arki/core/cfg.cc"],
     [("parser", "arki/core/cfg.cc"), ("copies", "arki/core/cfg.cc Sections, Section")],
     "property-based round-trip testing against a model",
     "Random exploration; values that need quoting are not written back.")

prop("C03", "Data streamed to any output, with or without filters, arrives complete",
     "Data sent to a stream output (file, file opened for appending, pipe, socket, memory, discard), in any sequence of buffers, lines and file segments, arrives exactly once, complete and in order, whatever the speed of its reader; with a filter, what arrives is exactly the output of the filter on that input, failures and error messages of the filter are reported, and nothing hangs: aborting a filter, a reader that goes away or (with a timeout) one that stops reading end the operation, and what arrived is a beginning of the data.",
     ["inputs", "schedules"],
     "All sequences of data sent with up to two filters, all kinds of outputs, with readers and filters of any speed and buffering.",
     "Tests use small data and mocked system calls; whether data is lost depends on sizes of pipes and on who is faster.",
     ["arki/stream/"],
     [("unfiltered", "arki/stream/loops.tcc UnfilteredLoop, loops-send.tcc"), ("filtered", "arki/stream/loops.tcc FilterLoop, concrete-parts.tcc, abstract.tcc"), ("filter processes", "arki/stream/filter.cc, base.cc, arki/utils/subprocess.cc")],
     "property-based testing with real pipes, readers and filter processes, against a model of each filter",
     "Random exploration; timing varies with the machine; tty and other special destinations are not explored.")

prop("C04", "Outputs of queries contain exactly the data selected, in the form asked for",
     "For every query, what is written in each form of output (binary or inline metadata, YAML, JSON, annotated or not, data only, data through a postprocessor, summaries, possibly restricted to some types, short summaries, tar, cpio or zip archives) to any destination describes exactly the elements selected, in the order asked for, with all their items, notes and bytes; what is written can be read back, and data can be reached from it where the form says so.",
     ["inputs", "histories"],
     "All contents of datasets and metadata files, queries, orders, and combinations of output options of arki-query.",
     "Tests check few of the combinations on three messages; a mistake silently drops or alters data that users process elsewhere.",
     ["arki/python/cmdline/processor.cc", "arki/formatter.cc", "arki/metadata/archive.cc", "arki/dataset/file.cc", "arki/metadata.cc"],
     [("processors", "arki/python/cmdline/processor.cc"), ("archives", "arki/metadata/archive.cc"), ("metadata files as datasets", "arki/dataset/file.cc")],
     "property-based testing against a model of the dataset and independent readers of each form",
     "Random exploration; archives are read back by libarchive; the Python layer that parses options is not built here.")

prop("C05", "Batches are consecutive, complete, within their limits, and run their program",
     "arki-xargs and the clusterer below it split the data received in consecutive batches that together are exactly the data, in order, each of one format, within the limits of count, size, interval and time range (a single element may exceed the size), none longer or shorter than those limits require; the program is run once per batch with the data of the batch in the file it is given and the documented environment, its failures are reported, and no temporary file is left behind.",
     ["inputs", "histories"],
     "All sequences of data with equal or different formats, sizes, reference times and time ranges, all combinations of limits, and programs which succeed, fail or are killed.",
     "Tests use three messages with one limit at a time; limits interact, and the end of a batch depends on the whole sequence.",
     ["arki/metadata/clusterer.cc", "arki/metadata/xargs.cc", "arki/utils/subprocess.cc"],
     [("limits", "arki/metadata/clusterer.cc"), ("programs", "arki/metadata/xargs.cc, arki/utils/subprocess.cc")],
     "property-based testing against a reference batcher, with real programs that record what they are given",
     "Random exploration.")

prop("D09", "Step names, times spans and segment listings agree",
     "For every step, each time has exactly one segment path, the path spans exactly the times that have it, and listing the segments of a dataset directory for a query returns exactly, in time order, those of the format which exist there and whose span intersects the query, whatever other files are there; the extremes of a query are those of the segments listed.",
     ["inputs"],
     "All steps, times and reference time queries, on directories with segments of several formats, directories, compressed and metadata files, and stray files.",
     "Tests list a few files; a segment missed by listing is invisible to queries and to maintenance.",
     ["arki/dataset/step.cc"],
     [("step paths", "arki/dataset/step.cc"), ("listings", "arki/dataset/step.cc Dirs, Files")],
     "property-based testing against a reference calendar and a model of the directory",
     "Random exploration on directories of empty files.")

prop("D10", "Remote datasets give the same results as the datasets of the server",
     "For every query, summary, data or postprocess request made through HTTP, the client sends exactly the query, sort order, command and files asked for, follows redirects, and gives the elements, bytes or summary that the dataset of the server gives, in the same order, however the response is framed and fragmented; errors of the server, responses which are cut or followed by something else, endless redirects and errors of the consumer are reported as errors and never as results; consumers can stop a query; configurations, aliases and expansions of queries read from a server are those of the server, and systems that disagree on aliases are noticed.",
     ["inputs", "fault_sequences"],
     "All contents of datasets, queries, orders and forms of output; all framings (length, chunked, until close), fragmentations, points where the response is cut, errors, redirects, alias databases.",
     "Tests of the client need a Python server and send small whole responses; what is lost depends on where the stream is split or cut.",
     ["arki/dataset/http.cc", "arki/core/curl.cc", "arki/metadata/stream.cc", "arki/dataset/session.cc", "arki/matcher/parser.cc", "arki/matcher/aliases.cc"],
     [("client", "arki/dataset/http.cc"), ("HTTP requests", "arki/core/curl.cc"), ("incremental parsing", "arki/metadata/stream.cc"), ("configurations and aliases", "arki/dataset/session.cc, arki/matcher/parser.cc")],
     "differential property-based testing against a local HTTP server with injected faults",
     "Random exploration; the server of the harness answers as python/arkimet/server does; HTTPS, authentication and uploads larger than 100Kb are not explored; a stream without length cut between elements cannot be told from a complete one.")
