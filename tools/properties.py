#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- queries
prop("Q01", "RRset owner-name lookups return exactly the matching records",
 "For every database and every RRset lookup by owner name (exact name, leading-label wildcard or trailing-label wildcard, with or without an RR type and a bailiwick), iteration yields exactly the RRset records whose owner, type and bailiwick match, each once, in database order (for trailing-label wildcards: owner by owner, in alphabetical order of the owner names). A forward-name index that covers the records, whether it is bare, annotated with RR types or mentions further names and types, never changes which records are returned. The bailiwick of the lookup, and unless case-sensitive search is selected its name, are lower-cased first.",
 ["inputs", "configurations"],
 "every small database over a colliding name alphabet (root, nested labels, labels sharing prefixes, 0x00/0xff bytes, 63-byte labels), every query name/wildcard x rrtype x bailiwick",
 "tests/tests.sh looks up a handful of names in one fixed database; wildcards x rrtype x bailiwick x index-entry combinations and prefix-colliding neighbours are not sampled.",
 ["dnstable/query.c", "dnstable/query_mtbl.c"],
 [("key construction, prefix iteration and rrtype/bailiwick filters", "dnstable/query.c: query_init_rrset*"),
  ("forward-name index join for right wildcards", "dnstable/query.c, dnstable/query_mtbl.c ljoin_mtbl_*")])
prop("Q02", "Rdata-name lookups return exactly the records holding that name",
 "For every database and every rdata lookup by name (exact, leading-label wildcard, trailing-label wildcard, with or without an RR type), iteration yields exactly the rdata records in which that name is searchable (as the record's target name, or as the target name that follows the fixed-size part of MX, SRV, SVCB and HTTPS rdata), each once and in database order (for leading-label wildcards: name by name). Without an RR type only name-bearing types are returned; leading-label wildcards, which go through the reversed-name index, cover the types that index covers (NS, CNAME, SOA, PTR, MX, SRV, DNAME, SVCB, HTTPS). An index that covers the records never changes the result.",
 ["inputs", "configurations"],
 "every small database over colliding rdata names and types, every query name/wildcard x rrtype",
 "tests query a few fixed names; the interaction of sliced MX/SRV keys, name-prefix collisions, type filters and the reversed index is not sampled.",
 ["dnstable/query.c", "dnstable/query_mtbl.c"],
 [("rdata-name key construction and filters", "dnstable/query.c: query_init_rdata_name and wildcards"),
  ("reversed-name index with rrtype bitmap test", "dnstable/query.c, dnstable/merge.c rrtype_test")])
prop("Q03", "Rdata IP address, prefix and range lookups return exactly the addresses inside",
 "For every database and every rdata lookup by IPv4 or IPv6 address, CIDR prefix (including a zero-length prefix) or address range, iteration yields exactly the (well-formed) A (respectively AAAA) records whose address lies within the inclusive bounds, each once, in address order. Restricting the lookup to an RR type that is not the address family's type yields no records.",
 ["inputs"],
 "every small database around the byte-carry boundaries of the address space, all prefixes lengths 0..32/0..128 and all ranges over boundary addresses",
 "tests use a couple of prefixes; carry boundaries, /0, sub-byte prefix lengths, neighbours of other types and of other rdata lengths are not sampled.",
 ["dnstable/query.c", "libmy/ip_arith.h"],
 [("range/prefix bounds and seek-skipping type filter", "dnstable/query.c: query_set_data_rdata_ip*, query_init_rdata_ip, filter_rrtype_ip")])
prop("Q04", "Raw (hex) lookups select exactly the records with those bytes",
 "A rdata lookup given as raw hex bytes, with or without an RR type, yields exactly the records whose searchable rdata followed by the encoded RR type number begins with those bytes, each once and in database order. Empty, odd-length or non-hex text is refused with an error text and leaves the previous value in force.",
 ["inputs"],
 "every small database over binary rdata that are prefixes/extensions of one another, every raw query x rrtype",
 "tests use two raw lookups.",
 ["dnstable/query.c", "libmy/hex_decode.h"],
 [("raw rdata key construction, rdata length suffix check", "dnstable/query.c: query_init_rdata_raw, query_set_data_rdata_raw")])
prop("Q05", "Time filters keep exactly the records inside the fences",
 "An RRset or rdata lookup with any combination of the four time fences (first-seen before/after, last-seen before/after) returns exactly the records returned without them whose first and last seen times satisfy every given fence, bounds included. This holds for every RRset and rdata lookup kind, for records with a recorded last-seen time, and for times anywhere in the 64-bit range.",
 ["inputs", "configurations"],
 "all assignments of boundary time values to records, all subsets and boundary values of the four fences, for every lookup kind",
 "tests/test_timefilter.sh runs a small fixed set of fences against one file.",
 ["dnstable/query.c"], [("time filter", "dnstable/query.c: filter_time and the time prefilter")])
prop("Q06", "A set of files answers an aggregated lookup as their merge would",
 "An aggregated lookup or section listing over a set of database files yields exactly what it would yield over a single database in which equal records of all files have been merged (earliest first-seen, latest last-seen, summed counts), including under time fences, where records are selected by their merged times. Adding, removing or reordering files in the set and reloading is reflected by the next lookup.",
 ["inputs", "configurations", "histories"],
 "all distributions of a small record universe over up to 3 files, all lookup kinds, time fences, set-file edits and reloads",
 "tests have one two-file set; which file holds which observation, and fences that only hold after merging, are not sampled.",
 ["dnstable/query.c", "dnstable/query_mtbl.c", "dnstable/merge.c", "dnstable/reader.c"],
 [("prefilter, join, remove-strict and refill pipeline", "dnstable/query.c: dnstable_query_iter_fileset"),
  ("value merge", "dnstable/merge.c"), ("set file handling", "dnstable/reader.c")])
prop("Q07", "A set of files answers an unaggregated lookup with every file's records",
 "An unaggregated lookup over a set of database files yields the multiset union of what the lookup yields on each file on its own, in key order, with equal RRset or rdata records of different files ordered by their times and counts (the order of equal metadata entries is unspecified), and with time fences applied to each file's own times.",
 ["inputs", "configurations"],
 "all distributions of a small record universe over up to 3 files, all lookup kinds and time fences",
 "tests have a few unaggregated lookups over one file set.",
 ["dnstable/query.c", "dnstable/reader.c"],
 [("no-merge file sets", "dnstable/query.c: dnstable_query_iter_fileset")])
prop("Q08", "An offset skips exactly that many results and stays with the query",
 "A lookup with offset N yields exactly the results of the same lookup without an offset after dropping the first N, for every lookup kind and every N, so consecutive pages neither overlap nor leave gaps. Iterating again with the same query object, or holding several iterators open at once, applies the same offset each time.",
 ["inputs", "histories"],
 "every offset 0..results+1 for every lookup kind, with the query reused and iterators interleaved",
 "tests use single-shot offsets only.",
 ["dnstable/query.c"], [("offset skipping", "dnstable/query.c: dnstable_query_iter_next offset loop")])
prop("Q09", "Timeouts and deadlines lose or repeat nothing",
 "With a timeout (per step) or an absolute deadline, iteration returns either the next result that an untimed lookup would return or a timeout indication, and whatever subset of steps times out, continuing the same iterator after a timeout never repeats, skips or reorders a result. A timeout is reported only when the monotonic clock has reached the limit, and a lookup that scans without finding a match before the limit does report it. The limits may be changed or cleared while an iterator is open, which then goes on under the new ones.",
 ["schedules", "inputs"],
 "every position at which the clock can cross the limit, during every step of every lookup kind on small databases",
 "tests cannot control the clock; one test sets a timeout that has already expired.",
 ["dnstable/query.c", "dnstable/query_mtbl.c"],
 [("clock check below every filter, non-local exit and resume", "dnstable/query_mtbl.c timeout_mtbl_*, dnstable/query.c")])
prop("Q10", "A query's behaviour depends only on its effective settings",
 "After any sequence of setting calls, a query behaves as one on which only the last successful value of each setting was made, in any order (except that case sensitivity applies to a name set after it, and never to the bailiwick); a rejected setting reports an error text and leaves the previous settings in force, and clearing a setting (null value, or RR type ANY) removes it. Starting a lookup leaves the query's settings unchanged, so it can be reused.",
 ["histories"],
 "all sequences of up to 4 setting calls (valid, invalid and clearing) on each query kind, each followed by lookups on a small database",
 "tests set each parameter once on a fresh query.",
 ["dnstable/query.c"], [("setters", "dnstable/query.c: dnstable_query_set_*")])
prop("Q11", "The record filter agrees with what a lookup would return",
 "For RRset and rdata queries, filtering a record with a query accepts it exactly when the record satisfies the query's RR type, bailiwick and time fences (and, for rdata-name queries without an RR type, carries a name-bearing type). Every record a lookup returns passes the filter of the same query.",
 ["inputs", "configurations"],
 "all records of the alphabet x all combinations of filter settings",
 "no existing test exercises the filter call.",
 ["dnstable/query.c"], [("dnstable_query_filter", "dnstable/query.c")])
prop("Q12", "Query parameters are accepted or refused exactly as documented",
 "Names, addresses, prefixes, ranges, hex strings, RR type mnemonics, version-entry type names and filter values are accepted when well-formed for the query kind. Malformed ones (bad addresses; missing, negative or out-of-range prefix lengths; ranges of mixed families; empty, odd-length or non-hex raw values; unknown mnemonics; over-long names or labels; filter values of the wrong size) are refused with a failure result and a non-empty error message, and a range given in descending order finds nothing. No input of any shape crashes the process.",
 ["inputs"],
 "all strings up to a small length over the syntactically significant alphabet, for each query kind and parameter",
 "tests give a dozen malformed parameters.",
 ["dnstable/query.c"], [("parsers", "dnstable/query.c: dnstable_query_set_*")])
prop("Q13", "Iterator statistics count what actually happened",
 "For every lookup, the statistics reported by its iterator are consistent with what the lookup did: the offset stage counts the results skipped so far, the file stage counts the files contributing, stages not in use are reported absent, and over a single database the time, type and bailiwick stages count exactly the entries each has rejected so far, and the seeks reported by the stages of a direct lookup add up to the seeks the database performed. Statistic stage and category names convert to text and back without loss, and unknown names are refused.",
 ["inputs", "configurations"],
 "all lookups of the small-database enumeration, at every point of the iteration",
 "tests check one or two counters.",
 ["dnstable/query.c", "dnstable/query_mtbl.c", "dnstable/util.c", "dnstable/iter.c"],
 [("counters", "dnstable/query.c: query_iter stat function")])
prop("Q14", "Metadata lookups return exactly the requested metadata entries",
 "A version lookup yields exactly the format-version entries of the database, restricted to the requested entry type when one is given; time-range and source-info lookups yield exactly the time-range and source-info entries; none of them ever yields any other entry.",
 ["inputs", "configurations"],
 "every subset of a metadata entry universe x every version-type selection, on sources and file sets",
 "tests query two fixed version types.",
 ["dnstable/query.c", "dnstable/reader.c"], [("version query", "dnstable/query.c: query_init_version and siblings")])
prop("Q15", "Iterators may be abandoned or destroyed at any point without harm",
 "Whatever the lookup kind and wherever it is stopped (never started, after k results, after the end, after a timeout), destroying the iterator, query, entries and reader in any allowed order leaves no leak, no double release and no use of released memory, other open iterators are unaffected, and after the end an iterator keeps reporting the end.",
 ["histories", "configurations"],
 "every abandonment point of every lookup and listing kind, and every allowed destruction order, with all allocations tracked",
 "tests run each iterator to the end once.",
 ["dnstable/query.c", "dnstable/query_mtbl.c", "dnstable/iter.c", "dnstable/reader.c", "dnstable/entry.c"],
 [("ownership of the iterator pipeline", "dnstable/query.c: query_iter_free; dnstable/query_mtbl.c *_destroy")])

prop("C01", "Lookups in different threads do not disturb one another",
 "Threads which each use query, iterator, entry and formatter objects of their own, over one shared open table or over tables of their own, get exactly the results, statistics, rendered texts, merged values, refusals and error messages which they get when running alone, under every interleaving; likewise objects used in turn within one thread. No state is shared behind the caller's back between objects.",
 ["schedules"],
 "all pairs (and triples) of thread programs covering every kind of lookup, listing, refusal, decoding, rendering, merging and filtering, under every schedule with a bounded number of preemptions",
 "all tests are single-threaded.",
 ["dnstable/query.c", "dnstable/entry.c", "dnstable/merge.c", "dnstable/reader.c", "dnstable/query_mtbl.c", "dnstable/util.c"],
 [("absence of mutable static storage and of non-reentrant library calls", "dnstable/*.c")])

# ---------------------------------------------------------------- entries
prop("E01", "Well-formed entries decode to exactly what was encoded",
 "Every well-formed encoded entry decodes successfully, and each accessor returns exactly the encoded field (owner, bailiwick, RR type, each rdata in order, rdata name, first/last time, count, version, version type, source text) or failure when the entry kind has no such field. In RRset and rdata records a zero count reads as one and a zero last-seen time reads as the first-seen time; out-of-range rdata indexes fail.",
 ["inputs"],
 "all entries over alphabets of names (0..255 bytes), types, rdata lists (0..3, sizes across varint-width boundaries), times and counts across all varint widths",
 "tests check a few hand-built entries.",
 ["dnstable/entry.c", "dnstable/triplet.c"], [("decoders and accessors", "dnstable/entry.c")])
prop("E02", "Malformed entries are refused or decoded safely",
 "Decoding any truncated, extended or corrupted key or value either fails or yields an entry all of whose accessors and renderings are safe; no memory outside the given key and value is ever read and the process never aborts. The same holds for every lookup and listing over a single database holding such entries.",
 ["inputs", "fault_sequences"],
 "every truncation, every single-byte substitution from a boundary alphabet and every short byte string as key or value, for each entry kind",
 "tests decode well-formed entries only.",
 ["dnstable/entry.c", "dnstable/triplet.c"], [("bounds checks", "dnstable/entry.c: decode_*; dnstable/triplet.c")])
prop("E03", "Text rendering states exactly the entry's fields in presentation form",
 "The text rendering of any decodable entry is exactly the documented presentation of its fields: bailiwick, count and times comment lines (only those present, zone times labelled as such) followed by one presentation-format line per rdata; the listing of RR types in name-index entries, versions, time ranges and source text likewise. Both date formats render every timestamp up to the end of year 9999 correctly, and later ones never crash.",
 ["inputs"],
 "all entries of the alphabet x formatter options",
 "tests compare a handful of text outputs.",
 ["dnstable/entry.c", "libmy/my_format.c"], [("text formatters", "dnstable/entry.c: *_to_text")])
prop("E04", "JSON rendering is valid JSON stating exactly the entry's fields",
 "The JSON rendering of any decodable entry is one valid JSON object whose members are exactly the entry's fields (names, RR type, rdata, times, count, versions, source text), with times as integers or RFC 3339 strings as selected, rdata as array or single string as selected, and raw rdata in hex when requested. Any byte in names and rdata, and any UTF-8 source text without NUL, survives a parse of the output.",
 ["inputs"],
 "all entries of the alphabet, including quotes, backslashes, control and high bytes, x all formatter options",
 "tests compare a handful of JSON outputs without special characters.",
 ["dnstable/entry.c", "dnstable/dnstable-json.h"], [("JSON builder and escaping", "dnstable/dnstable-json.h, dnstable/entry.c")])

# ---------------------------------------------------------------- merging
prop("M01", "Merging observations keeps earliest, latest and total, in any grouping",
 "Merging the values of equal RRset or rdata records gives the minimum first-seen, the maximum last-seen and the sum of counts (where the sum fits 64 bits), so any order or grouping of merges over any number of files gives the same value. Values encode and decode across the full 64-bit range.",
 ["inputs", "histories"],
 "all multisets of up to 4 values over boundary alphabets, in every order and every binary grouping",
 "tests merge one pair of files.",
 ["dnstable/merge.c", "dnstable/triplet.c"], [("triplet merge", "dnstable/merge.c: merge_triplet")])
prop("M02", "Merging type indexes yields exactly the union of their type sets",
 "Merging the RR type sets of equal name-index entries yields an encoding of exactly their union, independent of order and grouping, where an empty set means \"any type\" and absorbs; the union of any two valid sets, up to all 65,536 types, is representable, and a corrupt operand is reported rather than crashing.",
 ["inputs", "histories"],
 "all pairs and triples over a universe of sets in every encoding form, including the largest sets; every truncation or corruption of an operand",
 "tests cover a few hand-made bitmaps.",
 ["dnstable/merge.c"], [("union of encodings", "dnstable/merge.c: merge_rrtype*")])
prop("M03", "Merging metadata entries never claims more than every file supports",
 "Merged time-range entries span the earliest to the latest time, merged version entries carry the lowest version, and an entry value that is empty (unknown) or of an unknown kind merges to empty, so that merging is order and grouping independent and merging source-info entries keeps the entry.",
 ["inputs", "histories"],
 "all orders and groupings of up to 4 values over boundary alphabets, for every entry kind byte",
 "tests merge one pair of files.",
 ["dnstable/merge.c"], [("per-kind merge", "dnstable/merge.c: dnstable_merge_func")])
prop("M04", "Type-set membership and listing agree with the encoding",
 "For every encoded RR type set, listing yields exactly the encoded types in ascending order, lookups that consult the set find records exactly of the listed types (an empty set never hides a record), and a malformed set is reported as malformed when listed and never hides records from lookups. No memory outside the set is read.",
 ["inputs", "fault_sequences"],
 "all sets over boundary types in each encoding form, every truncation and every short byte string",
 "tests/test-bitmaps.c checks a dozen bitmaps.",
 ["dnstable/merge.c", "dnstable/entry.c"], [("unpack and test", "dnstable/entry.c: rrtype_union_unpack, rrtype_test")])

# ---------------------------------------------------------------- reader
prop("R01", "Section listings yield exactly the entries of their kind",
 "Each section listing of a reader (all entries, RRsets, RRset names, rdata, rdata names, time ranges, versions, source info) yields exactly the well-formed entries of that kind, each once, in database order, with no end-of-section entry lost or neighbour leaked, over single databases and file sets (entries of unknown kinds are unspecified in the listing of all entries).",
 ["inputs", "configurations"],
 "every subset of an entry universe holding the extreme keys of each kind (empty body, 0xff runs) and of neighbouring unknown kinds",
 "tests list sections of one database.",
 ["dnstable/reader.c", "dnstable/iter.c"], [("prefix iterators", "dnstable/reader.c: reader_iter*")])
prop("R02", "Join, filter and remove streams behave as ordered-set operations",
 "Over every pair of ordered sources, the left-join stream is the left source with the values of common keys merged, the filter stream is the accepted subset, and the remove stream is the upstream minus all keys of the removal sources; each stays correct under every interleaving of next and seek calls, and for whole, prefix, range and exact-key iteration.",
 ["inputs", "histories"],
 "all small pairs/triples of key sets, all next/seek sequences up to a bounded depth",
 "no existing test drives these streams directly or seeks in them.",
 ["dnstable/query_mtbl.c"], [("ljoin/filter/remove iterators", "dnstable/query_mtbl.c")])

# ---------------------------------------------------------------- tools
prop("T01", "The lookup tool prints exactly the library's answer for its options",
 "For every combination of lookup command, argument and options (format, dates, raw rdata, aggregation, time fences and strict matching, offset, statistics, case), the lookup tool prints exactly the records the library returns for that query, in the chosen format, and exits zero; invalid combinations and arguments are reported on standard error with a non-zero exit status and no records printed. A time argument in any documented form (date, date and time, seconds since the epoch, negative seconds or weeks/days/hours/minutes/seconds before now) denotes exactly that second, and times at or before the epoch are refused. A time limit never ends the output before it has passed, and periodic statistics neither lose nor repeat records.",
 ["inputs", "configurations"],
 "all combinations of commands and a small domain for each option on small databases and file sets; all short sequences of command words; all dates and relative times over boundary values; virtual time passing at several rates",
 "tests run a fixed list of command lines.",
 ["src/dnstable_lookup.c"], [("option handling, time parsing and output loop", "src/dnstable_lookup.c")])
prop("T02", "The dump tool prints exactly the selected sections",
 "For every combination of section and format options and every database, the dump tool prints exactly the entries of the selected section in database order in the selected format, and reports misuse with a non-zero exit status instead of crashing.",
 ["inputs", "configurations"],
 "all combinations of options on small databases",
 "tests run a fixed list of command lines.",
 ["src/dnstable_dump.c"], [("section selection", "src/dnstable_dump.c")])

prop("T03", "The merge command hands its arguments unchanged to mtbl_merge",
 "For every list of at least two arguments with the first two not empty, the merge command runs mtbl_merge with exactly these arguments (whatever characters they hold) and with dnstable's library and merge function names in the environment, and ends with its exit status; with fewer it prints a usage message and fails without running anything.",
 ["inputs"],
 "all argument vectors up to three or four words over a vocabulary of words with spaces, patterns, quotes and newlines",
 "no existing test runs the script.",
 ["src/dnstable_merge.sh.in"], [("argument check and exec", "src/dnstable_merge.sh.in")])

# ---------------------------------------------------------------- libmy
prop("L01", "The single-producer single-consumer queue is a bounded FIFO",
 "Under every interleaving of one producer and one consumer, elements come out unchanged, exactly once and in insertion order; insertion fails only if the queue is full and removal only if it is empty, and the reported free-space and element counts are true of some moment of the call. Destroying a queue releases everything, and only power-of-two sizes of at least two are accepted.",
 ["schedules", "histories"],
 "all interleavings at synchronisation and shared-memory access points of a producer and a consumer with up to 4 operations each, queue sizes 2..4, both implementations",
 "no existing test; schedules cannot be sampled meaningfully.",
 ["libmy/my_queue.c", "libmy/my_queue_mb.c", "libmy/my_queue_mutex.c", "libmy/my_memory_barrier.h"],
 [("index publication order, mutex", "libmy/my_queue_mb.c, libmy/my_queue_mutex.c")])
prop("L02", "A file set loads each listed file once and keeps it while it stays listed",
 "After any sequence of edits to the set file or its members followed by reloads, the loaded members are exactly the existing files listed when last read, in sorted order; a file that stays listed and unreplaced is neither unloaded nor loaded again, every load is matched by exactly one unload, and destroying the set unloads all. Duplicate, relative, missing or malformed lines never crash or double-release.",
 ["histories", "fault_sequences"],
 "all sequences of set-file edits, file replacements and reloads up to a bounded depth, including duplicate lines",
 "no existing test drives reloads.",
 ["libmy/my_fileset.c"], [("reload reconciliation", "libmy/my_fileset.c: my_fileset_reload")])
prop("L03", "A spool directory delivers each file once, surviving crashes and rivals",
 "Every file placed in a spool's incoming area is delivered by exactly one of any number of consumers, moved to the active area before it is returned; temporary (dot) names and anything but regular files are never delivered. No file is lost, left behind or replaced by another of a different name, whatever the interleaving of consumers and producer, the point at which a consumer dies, and the call that fails.",
 ["schedules", "crash_points", "histories"],
 "all interleavings of two consumers and a producer at file-system call granularity, and a crash at every call",
 "no existing test.",
 ["libmy/spooldir.c"], [("rename as claim", "libmy/spooldir.c: spooldir_next")])
prop("L04", "Variable-length integers round-trip and report their exact length",
 "Every 32- and 64-bit value encodes to the shortest little-endian base-128 form, its predicted length equals its encoded length, and decoding the encoding gives back the value and length; measuring a packed integer within a byte limit never reads beyond the limit and reports incompleteness as zero.",
 ["inputs"], "all values within a distance of every power-of-two boundary and all byte strings up to a bounded length over boundary bytes",
 "no existing test in this tree.",
 ["libmy/varint.c"], [("encode/decode", "libmy/varint.c")])
prop("L05", "Base32 encoding and decoding are inverse for every byte string",
 "Encoding any byte string in extended-hex base32 gives the standard text without padding (as much of it as the destination holds), and decoding that text in either case, padded or not, gives back every byte and their number; any other character met before the destination is full is refused with an error. Nothing is written beyond the destination or read beyond the input.",
 ["inputs"], "all byte strings up to a bounded length over boundary bytes, all short texts, all buffer sizes",
 "no existing test.", ["libmy/b32_encode.c", "libmy/b32_decode.c"], [("bit packing", "libmy/b32_*.c")])
prop("L06", "Base64 encoding and decoding are inverse, in any chunking",
 "Encoding any byte string gives the standard base64 text whatever chunks it is fed in, decoding returns the original bytes however the text is chunked and wherever line breaks fall, and no byte value in the input makes the decoder read outside its tables or write beyond the bytes decoded so far and the one in progress.",
 ["inputs", "histories"], "all byte strings up to a bounded length over boundary bytes and all ways to split them into chunks; all 256 byte values as decoder input",
 "no existing test.", ["libmy/b64_encode.c", "libmy/b64_decode.c"], [("resumable state machine", "libmy/b64_*.c")])
prop("L07", "Every CRC-32C implementation computes the same standard checksum",
 "For every buffer, alignment and length, every available implementation (table-sliced and hardware) returns the CRC-32C (Castagnoli) of exactly those bytes, reading nothing outside the buffer, and the dispatching entry point agrees from its first call on, in every thread.",
 ["inputs", "schedules"], "all lengths 0..bounded x all 16 alignments x structured contents; concurrent first calls",
 "the existing test checks 16 fixed vectors.", ["libmy/crc32c.c", "libmy/crc32c-slicing.c", "libmy/crc32c-sse42.c"],
 [("implementations and dispatch", "libmy/crc32c*.c")])
prop("L08", "The binary heap always yields its minimum",
 "After any sequence of add, replace-top, pop, clear, clip, heapify, get and peek operations the heap holds exactly the elements added and not removed, peeking and popping return a minimum by the caller's ordering, and operations on an empty heap report absence.",
 ["histories"], "all operation sequences up to a bounded depth over a small value alphabet with ties",
 "no existing test.", ["libmy/heap.c"], [("sift up/down", "libmy/heap.c")])
prop("L09", "The tree containers behave as ordered sets and stay balanced",
 "After any sequence of insertions, removals, searches and traversals, splay and red-black trees contain exactly the inserted and not removed elements, iterate them in order in both directions, find exact and next-greater elements correctly, and red-black trees keep their balance invariant.",
 ["histories"], "all operation sequences up to a bounded depth over a small key set (explicit-state search over tree shapes)",
 "no existing test.", ["libmy/tree.h"], [("splay and red-black macros", "libmy/tree.h")])
prop("L10", "Growable arrays and byte buffers behave as sequences",
 "After any sequence of append, extend, add, reserve, clip, reset, detach and formatted-append operations, a growable array or byte buffer holds exactly the bytes or elements appended, in order, its size and data pointer are consistent with its contents, and detaching hands over the whole contents.",
 ["histories"], "all operation sequences up to a bounded depth, crossing growth boundaries",
 "no existing test.", ["libmy/vector.h", "libmy/ubuf.h"], [("growth", "libmy/vector.h, libmy/ubuf.h")])
prop("L11", "The linked list keeps order and links under every edit",
 "After any sequence of insertions, removals and traversals with the list macros, forward and backward traversal visit exactly the elements currently linked, in list order, and unlinked elements are no longer reachable.",
 ["histories"], "explicit-state search over all list states with up to a bounded number of elements",
 "no existing test.", ["libmy/list.h"], [("doubly linked list macros", "libmy/list.h")])
prop("L12", "Rate limiting never lets a call return before its time",
 "Whatever the time consumed between calls and however late or interrupted its sleeps, a rate limiter (rate at least one, monotone clock) returns no sooner than the next boundary of its period after the previous call returned, the period being one over the rate in whole nanoseconds, counted from the start of each second. It sleeps only when the caller is ahead of that boundary, never for a negative or malformed interval, and resumes an interrupted sleep for the remaining time only. With an adjustment frequency, every that many calls after the first such window the pace moves by at most one percent toward the configured average since the first call, and it never stops limiting.",
 ["schedules", "fault_sequences"], "all assignments of small elapsed times (and interrupted sleeps) to a bounded number of consecutive calls, for a domain of rates and frequencies",
 "no existing test; real clocks cannot be enumerated.", ["libmy/my_rate.c", "libmy/my_time.h"], [("pacing arithmetic", "libmy/my_rate.c")])
prop("L13", "Command-line arguments are parsed into exactly the declared options",
 "For every option table kind (flag, negated flag, integers of each width and base, sizes, floats, strings, repeated and array options, trailing arguments) and every argument vector, each option's variable receives exactly the value given, defaults are untouched, and unknown, malformed, incomplete or mandatory-but-missing options are refused; which options were given can then be asked by entry, letter or name.",
 ["inputs"], "all argument vectors up to a bounded length over a token alphabet, for each table kind",
 "no existing test.", ["libmy/argv.c", "libmy/argv.h"], [("argument state machine", "libmy/argv.c")])
prop("L14", "Hashing depends only on bytes, length and seed",
 "The hash of a byte string is the same at every memory alignment, depends on nothing outside the string, touches no memory page other than those holding it, and equals the published lookup3 value.",
 ["inputs"], "all lengths 0..bounded x all alignments x structured contents and seeds, guarded on both sides",
 "no existing test.", ["libmy/lookup3.c"], [("lookup3", "libmy/lookup3.c")])
prop("L15", "Thread numbers and atomic counters are exact under concurrency",
 "Under every interleaving of registering threads, the threads are numbered densely from zero, each with a number of its own which never changes. Under every interleaving of atomic counter and pointer operations, the results and the final value are those of the operations taking place one after the other: no update is lost, a 32- or 64-bit value is never torn or truncated, and exactly one decrementer observes zero.",
 ["schedules"], "all interleavings, at every memory access, of up to 4 threads registering and reading and of up to 3 threads performing up to 2 atomic operations each",
 "no existing test; schedules cannot be sampled meaningfully.", ["libmy/threadnum.c", "libmy/atomic.h", "libmy/atomic_64.h", "libmy/atomic_ptr.h"], [("lock-protected counter and thread-local slot", "libmy/threadnum.c"), ("atomic read-modify-write operations", "libmy/atomic.h, libmy/atomic_64.h, libmy/atomic_ptr.h")])
prop("L16", "Reading a byte count tolerates every short read and interruption",
 "Reading n bytes from a descriptor returns success with exactly the next n bytes of the stream whatever the sequence of short and interrupted reads, and failure (never partial success) on end of file or error.",
 ["fault_sequences"], "all read outcome sequences (full, short by each amount, interrupted, error, end) for n up to a bound",
 "no existing test.", ["libmy/read_bytes.h"], [("retry loop", "libmy/read_bytes.h")])
prop("L17", "String replacement and quoting are exact",
 "Replacing a substring substitutes every non-overlapping occurrence from the left and nothing else, for every pair of strings (an empty pattern replaces nothing); printing a string quotes and escapes it so that every byte can be read back.",
 ["inputs"], "all short strings over a small alphabet for subject, pattern and replacement; all short byte strings for printing",
 "no existing test.", ["libmy/string_replace.h", "libmy/print_string.h"], [("replace loop, escapes", "libmy/string_replace.h, libmy/print_string.h")])
prop("L18", "A zone file is read as exactly its resource records",
 "Reading a zone file returns each resource record once, in file order, after directives and relative names are applied, reports the zone's domain and serial from its SOA record, and reports syntax errors and end of file distinctly, for plain and compressed input.",
 ["inputs", "fault_sequences"], "all zone files of up to a bounded number of lines over a line alphabet (directives, comments, multi-line records, errors)",
 "no existing test.", ["libmy/zonefile.c"], [("reader loop", "libmy/zonefile.c")])
prop("L19", "IP prefix bounds and address increment are exact",
 "For every address and every prefix length from zero to the family's width, the computed lower and upper bounds are the first and last addresses of the prefix, and incrementing an address gives its successor, carrying through all bytes.",
 ["inputs"], "all prefix lengths x boundary addresses, all carry patterns",
 "tests use a few prefixes through lookups only.", ["libmy/ip_arith.h"], [("masks", "libmy/ip_arith.h")])
prop("L20", "Hex decoding and number and date formatting are exact",
 "Hex text of either case decodes to exactly its bytes and anything else is refused; unsigned 64-bit numbers format to their exact decimal (and zero-padded) digits within the advertised buffer size; RFC 3339 formatting gives the exact UTC calendar time for every second from the epoch to the end of year 9999.",
 ["inputs"], "all short texts over hex and neighbouring characters; all values around powers of ten and two; every day and every second-of-day boundary",
 "tests format a few dates.", ["libmy/hex_decode.h", "libmy/my_format.c", "libmy/my_format.h"], [("formatters", "libmy/my_format.c, libmy/hex_decode.h")])
prop("L21", "Time arithmetic is exact and normalised",
 "Adding, subtracting and comparing times and converting them to and from non-negative floating seconds (within a nanosecond) give mathematically exact normalised results for every pair of normalised times, and sleeping resumes after interruption for the remaining time only.",
 ["inputs", "fault_sequences"], "all pairs of boundary times; all interruption patterns",
 "no existing test.", ["libmy/my_time.h"], [("timespec helpers", "libmy/my_time.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    assert len({p["id"] for p in P}) == len(P)
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
