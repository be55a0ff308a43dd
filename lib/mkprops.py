#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)
NOT = "The runnable test suite exercises only the CRC code; nothing there reaches this. "
prop("C01", "Varint codec round-trips, agrees on lengths, stays inside its bytes",
 "Encoding any 32- or 64-bit unsigned value writes exactly as many bytes as the length function announces (1 to 5, or 1 to 10), in little-endian base-128 form, and touches nothing else; decoding those bytes returns the same value and consumes the same number of bytes. For every byte buffer, the packed-length function returns the position just after the first byte without its continuation bit, or 0 when there is none within the given length, and never reads past that length. A decoder that meets no final byte within the format's maximum (5 or 10 bytes) reports 0 bytes consumed.",
 ["inputs"], "all 2^32 / 2^64 values; all byte buffers of every length",
 NOT + "The varint test program samples a few dozen values and is not among the stable tests.",
 ["libmy/varint.c", "libmy/varint.h"],
 [("length tables", "libmy/varint.c:varint_length, varint_length_packed"), ("encoders", "libmy/varint.c:varint_encode32, varint_encode64"), ("decoders", "libmy/varint.c:varint_decode32, varint_decode64")],
 ["return values and output bytes of the varint functions"])
prop("C02", "Time/count triplets and time pairs round-trip and reject malformed values",
 "Packing three (or two) 64-bit numbers and unpacking the result returns exactly those numbers. Unpacking a value of any bytes succeeds only if it is exactly the concatenation of three (or two) complete varints with nothing left over, in which case the numbers decoded are the ones those varints denote; otherwise it reports failure. It never reads outside the bytes it was given.",
 ["inputs"], "all triples/pairs of 64-bit numbers; all value byte strings of every length, including empty and truncated ones",
 NOT + "Well-formed database files never contain truncated values, so sampled data cannot show what happens on one.",
 ["dnstable/triplet.c"],
 [("pack/unpack", "dnstable/triplet.c:triplet_pack, triplet_unpack, pair_pack, pair_unpack")],
 ["dnstable_entry_decode on RRset, RDATA and time-range entries", "merge function results"])
prop("C03", "RRtype indexes decode to their set of types and answer membership exactly",
 "An RRtype index value is a two-byte single type, a one-byte single type below 256, or a sequence of window blocks (window number, bitmap length, bitmap); for every well-formed index value and every 16-bit type, decoding yields exactly the types whose bit is set, in ascending order and without repeats, and the membership query says yes exactly for those types. Decoding reports failure for an ill-formed value (or one holding all 65536 types), neither operation ever reads outside the value, and the membership query on an ill-formed value terminates with an answer.",
 ["inputs"], "all index value byte strings of every length x all 65536 types",
 NOT + "65536 types x every window layout (short last windows, absent windows, truncated blocks) cannot be sampled.",
 ["dnstable/entry.c", "dnstable/dnstable-private.h"],
 [("membership", "dnstable/entry.c:rrtype_union_check, rrtype_test"), ("decode", "dnstable/entry.c:rrtype_union_unpack")],
 ["rrtypes field of name entries in JSON output", "rrtype-restricted wildcard lookups"])
prop("C04", "Merging two values for the same key is exact, commutative and associative",
 "Merging two RRset or RDATA values gives the earlier first-seen, the later last-seen and the (64-bit wrapping) sum of the counts; merging two time ranges gives the enclosing range; merging two versions for a known entry type gives the lower version; merging two name-index values gives an index of exactly the union of the two RRtype sets, or the empty value (\"any type\") if either side is empty, and merging source-info entries gives an empty value. For all well-formed inputs the result does not depend on the order or grouping of the merges, it can be merged and decoded again, and the operation neither aborts nor reads outside its inputs. A value that cannot be decoded never yields a merged value: the merge reports failure or, for an entry whose value must be present and well-formed, stops the process, and in no case reads outside the value; identical index values may be kept as they are. (An index without any type, and a union covering all 65536 types, are outside this statement: neither can be written as an index that decodes to it.)",
 ["inputs", "histories"], "all keys and all pairs/triples of values, including index values covering up to 65535 types",
 NOT + "Order- and grouping-independence and the full RRtype range need universal quantification over value pairs and triples.",
 ["dnstable/merge.c", "dnstable/entry.c", "dnstable/triplet.c"],
 [("dispatch", "dnstable/merge.c:dnstable_merge_func"), ("triplets", "dnstable/merge.c:merge_triplet"), ("ranges", "dnstable/merge.c:merge_time_range"), ("bitmaps", "dnstable/merge.c:merge_rrtype_bitmaps"), ("versions", "dnstable/merge.c:merge_version")],
 ["dnstable_merge_func output"])
prop("C05", "Decoding an entry yields exactly its encoded fields, or nothing",
 "For every key and value pair, decoding returns either no entry or an entry of the type given by the first key byte whose accessors return exactly the encoded owner name, RRtype, bailiwick, RDATA list, times, count, RDATA name, source info, or version fields; RDATA whose encoding slices the leading or trailing fields is put back in wire order. Accessors that do not apply to the entry's type report failure, an RDATA index at or beyond the number of RDATA reports failure, and nothing aborts. Decoding never reads outside the given key and value, and returns nothing for keys or values that are truncated, carry a malformed name or length, or a type number above 65535.",
 ["inputs"], "all key byte strings x all value byte strings",
 NOT + "Only well-formed databases are used in the other test scripts; arbitrary bytes, truncations and over-long names are out of their reach.",
 ["dnstable/entry.c"],
 [("decoders", "dnstable/entry.c:decode_rrset, decode_rrset_name_fwd, decode_rdata, decode_rdata_name_rev, decode_version, decode_time_range"), ("accessors", "dnstable/entry.c:dnstable_entry_get_*")],
 ["dnstable_entry_decode and dnstable_entry_get_* results"])
prop("C06", "Rendered entries are valid JSON or text that say exactly what the entry holds",
 "For every decodable entry, the JSON rendering is one syntactically valid JSON object that carries exactly the entry's fields and values: names, type mnemonic, RDATA (an array for RRsets; for RDATA entries a string, or a one-element array when so configured), count, times under the zone or sensor keys, and when asked for raw RDATA the lowercase hex of the RDATA bytes (for RRsets followed by the type as a varint). Times are printed as decimal Unix seconds or as the UTC RFC3339 form according to the formatter setting (a time after the year 9999, which has no RFC3339 form, as the number of seconds), and the text rendering prints the same facts in the documented line format. Rendering never aborts or touches memory outside the entry, whatever the bytes, times and types in it.",
 ["inputs", "configurations"], "all decodable entries x output format x date format x array setting x raw-RDATA setting x zone flag",
 NOT + "JSON escaping and formatting over arbitrary bytes and 64-bit times is not sampled anywhere.",
 ["dnstable/entry.c", "dnstable/dnstable-json.h"],
 [("formatting", "dnstable/entry.c:dnstable_entry_format, *_to_json, *_to_text"), ("escaping", "dnstable/dnstable-json.h"), ("dates", "dnstable/dnstable-json.h / entry.c fmt_rfc3339")],
 ["strings returned by the formatter"])
prop("C07", "A left join yields every left entry, once, merged with its equal-key partner",
 "Iterating over a left join of two sorted sources produces exactly the left source's entries in order; an entry whose key also occurs in the right source carries the merge of the left and right values, every other entry carries its own value unchanged. Seeking to any key, forwards or backwards, at any moment makes the following entries exactly those of the join at or after that key. The number of merges reported equals the number of entries returned merged.",
 ["inputs", "histories"], "all pairs of sorted sources, all scopes (full, exact key, prefix, range), all interleavings of next and seek",
 NOT + "Orderings of keys between the two sources interleaved with seeks are unbounded.",
 ["dnstable/query_mtbl.c"],
 [("join step", "dnstable/query_mtbl.c:ljoin_iter_next"), ("join seek", "dnstable/query_mtbl.c:ljoin_iter_seek")],
 ["entries produced by the joined source"])
prop("C08", "A filtered source yields exactly the matching entries, in order",
 "Iterating over a filtered source yields, in order, exactly the upstream entries for which the filter says match, as long as the filter only skips forward over non-matching entries; a filter failure ends the iteration with a failure. Seeking repositions so that following entries are the matching entries at or after the given key. The filtered and seek counters equal the number of entries rejected and of seeks the filter made.",
 ["inputs", "histories"], "all sources, all filter decision sequences, all interleavings of next and seek",
 NOT + "Filter decision sequences are unbounded.",
 ["dnstable/query_mtbl.c"],
 [("filter step", "dnstable/query_mtbl.c:filter_iter_next"), ("filter seek", "dnstable/query_mtbl.c:filter_iter_seek, seek_wrap_iter_seek")],
 ["entries produced by the filtered source"])
prop("C09", "A remove source yields exactly the upstream entries absent from all removals",
 "Iterating over a remove source yields, in order, exactly the upstream entries whose key occurs in none of the removal sources, for any number of removal sources including none. Seeking to any key, forwards or backwards, at any moment makes the following entries exactly those at or after that key which occur in no removal source. Every resource acquired by such an iteration is released when it is destroyed.",
 ["inputs", "histories"], "all sorted upstream and removal sources, all scopes, all interleavings of next and seek",
 NOT + "Removal sources reorder themselves on matches and are opened lazily, so the result depends on the whole history of calls.",
 ["dnstable/query_mtbl.c"],
 [("matching", "dnstable/query_mtbl.c:match_key"), ("seek", "dnstable/query_mtbl.c:remove_iter_seek"), ("release", "dnstable/query_mtbl.c:remove_iter_free")],
 ["entries produced by the remove source", "memory in use after destruction"],
 [("removal list", "each source's iterator, its current key and whether it is exhausted", "struct remove_entry")])
prop("C10", "Timeouts and deadlines stop a search with a timeout, never with a wrong end",
 "Every step of a search whose query has a deadline (a fixed moment) or a timeout (the longest time any one step may take, counted from that step's start) reports the timeout result when it finds the limit reached, and yields exactly what the unlimited search would yield next otherwise; a step after a timeout, given more time, carries on where the search stood. When both are set the earlier moment counts; a limit that was never set, or was cleared before the search began, never stops the search.",
 ["histories", "inputs"], "all queries, all deadlines and timeouts, all clock readings",
 NOT + "Clock readings relative to the deadline are arbitrary, and real-time tests see only the two extremes.",
 ["dnstable/query_mtbl.c", "dnstable/query.c", "libmy/my_time.h"],
 [("deadline test", "dnstable/query_mtbl.c:timeout_iter_next"), ("setters", "dnstable/query.c:dnstable_query_set_timeout, dnstable_query_set_deadline"), ("deadline computation", "dnstable/query.c:query_iter_set_deadline"), ("result", "dnstable/query.c:query_iter_next")],
 ["result code of the result iterator"])
prop("C11", "Time-fence parameters select exactly the entries they describe",
 "With any combination of the four time bounds set, a query returns an RRset or RDATA entry only if its first-seen time is at most the first-before bound, at least the first-after bound, and its last-seen time is at most the last-before bound and at least the last-after bound, and it returns every entry otherwise matching the query that satisfies them; unset bounds do not restrict. Setting a bound accepts exactly an 8-byte value for one of the four bounds and refuses anything else. Checking a single entry against a query applies the same bounds.",
 ["inputs", "configurations"], "all 2^4 combinations of bounds x all 64-bit bound values x all times",
 NOT + "Boundary equalities over 64-bit times in 16 combinations are not sampled.",
 ["dnstable/query.c"],
 [("time test", "dnstable/query.c:filter_time_common"), ("entry test", "dnstable/query.c:dnstable_query_filter"), ("setters", "dnstable/query.c:dnstable_query_set_filter_parameter")],
 ["query results", "dnstable_query_filter"])
prop("C12", "Owner-name lookups, wildcards included, return exactly the matching RRsets",
 "A lookup of an RRset by name returns exactly the database's RRset entries whose owner name equals the given name (compared after lower-casing the query unless case-sensitive); a name starting with a '*' label matches names that end in the rest, and one ending with a '*' label matches names that begin with the rest, where '*' stands for zero or more labels and '+' in its place stands for exactly one label. Each matching entry is returned once, and nothing else is returned. A name in which the wildcard byte merely occurs inside a longer label is not a wildcard.",
 ["inputs"], "all well-formed databases x all names",
 NOT + "Label boundaries, empty remainders and names with embedded wildcard-looking bytes are unbounded.",
 ["dnstable/query.c", "dnstable/dnstable-private.h"],
 [("plan", "dnstable/query.c:query_init_rrset, query_init_rrset_left_wildcard, query_init_rrset_right_wildcard"), ("step", "dnstable/query.c:query_iter_next_name_indirect"), ("one-label filter", "dnstable/query.c:filter_single_label")],
 ["entries returned by the query iterator"])
prop("C13", "RDATA lookups by address, range, prefix, bytes or name return just the matches",
 "A lookup by IP address, inclusive address range or CIDR prefix (any length 0 to 32 or 0 to 128) returns exactly the A or AAAA RDATA entries whose address lies within it; a raw lookup returns exactly the RDATA entries whose stored RDATA bytes (in the order of the key) begin with the given bytes; a lookup by RDATA name returns exactly the RDATA entries of name-bearing types (NS, CNAME, DNAME, PTR, MX, SRV, SOA, SVCB, HTTPS, NSEC, RP, NXT) whose indexed name matches, with a '*' or '+' wildcard at either end as for owner names (wildcards at both ends of one name have no defined meaning). Each match is returned once, whatever the other entries around it. Malformed addresses, ranges of mixed families, negative or over-long prefix lengths and non-hex raw data are refused.",
 ["inputs"], "all well-formed databases x all addresses, ranges, prefixes, raw values and names",
 NOT + "The forward-skipping in IP ranges depends on the exact byte layout of neighbouring keys; historic releases had skipped-result bugs here that tests did not show.",
 ["dnstable/query.c", "libmy/ip_arith.h", "libmy/hex_decode.h"],
 [("plan", "dnstable/query.c:query_init_rdata_ip, query_init_rdata_raw, query_init_rdata_name"), ("IP skip", "dnstable/query.c:filter_rrtype_ip"), ("parsing", "dnstable/query.c:query_set_data_rdata_*")],
 ["entries returned by the query iterator", "result of setting the query data"])
prop("C14", "RRtype and bailiwick restrictions keep exactly the entries they name",
 "Restricting a query to an RRtype returns exactly the entries of the unrestricted query that have that type ('ANY', 'TYPE255' and 'ANY-DNSSEC' restrict nothing); restricting an RRset query to a bailiwick returns exactly those whose bailiwick equals it, ignoring the case given. They compose with each other and with every kind of lookup that supports them: an address lookup can only be restricted to the address's own type (anything else is refused, with no result), and an RDATA name lookup only to name-bearing types. The check of a single entry against a query gives the same verdict as the search. Unsupported restrictions and unknown type names are refused with an error.",
 ["inputs", "configurations"], "all well-formed databases x all queries x all 65536 types x all bailiwicks",
 NOT + "Type checks read a varint out of keys of several layouts; the combinations are not sampled.",
 ["dnstable/query.c"],
 [("type filters", "dnstable/query.c:filter_rrtype, filter_rrtype_rdata_name, filter_rrtype_ip"), ("bailiwick filter", "dnstable/query.c:filter_bailiwick"), ("entry test", "dnstable/query.c:dnstable_query_filter"), ("setters", "dnstable/query.c:dnstable_query_set_rrtype, dnstable_query_set_bailiwick")],
 ["entries returned by the query iterator"])
prop("C15", "An offset skips exactly that many results, for every iteration of the query",
 "A query with offset N returns exactly the results of the same query without offset with the first N removed, or nothing if there are fewer. Running the same query object again gives the same results. The offset counts only results that pass every other restriction.",
 ["inputs", "histories"], "all databases x queries x 64-bit offsets x repeated use of one query object",
 NOT + "Interaction with the other filters and repeated use are not exercised.",
 ["dnstable/query.c"],
 [("offset filter", "dnstable/query.c:filter_offset"), ("setter", "dnstable/query.c:dnstable_query_set_offset")],
 ["entries returned by the query iterator"])
prop("C16", "Reading a database yields every entry of the requested kind once, in key order",
 "Iterating a reader yields every entry of the database exactly once in key order, and the iterator for one kind of entry (RRsets, names, RDATA, RDATA names, time range, version, source info) yields exactly the entries of that kind; an undecodable entry is passed over, neither returned nor ending or crashing the iteration. This holds for a reader over one table and for one over a set file alike. After the end every further step reports failure, and destroying a reader or an iterator releases everything it holds.",
 ["inputs", "histories"], "all databases, all iterator kinds, all call sequences",
 NOT + "Needs arbitrary databases, including corrupt entries.",
 ["dnstable/reader.c", "dnstable/iter.c"],
 [("iterators", "dnstable/reader.c:reader_iter_*"), ("step", "dnstable/reader.c:reader_iter_next / dnstable/iter.c:dnstable_iter_next")],
 ["entries returned by reader iterators"])
prop("C17", "Time-fenced search over many files equals filtering the merged whole",
 "For a database made of several files, an aggregated query with time bounds returns exactly the entries (with their fully merged times and counts) that the same query without file-level shortcuts would return: no entry is lost, duplicated or shown with partial counts because a file's time range was used to skip it. An unaggregated query returns each file's own entries separately, each satisfying the bounds.",
 ["inputs", "configurations"], "all sets of files with arbitrary overlapping keys and time ranges x all combinations of bounds",
 NOT + "File-level pruning combines three sources (kept, fill-in, removed) whose interplay depends on all files' time ranges.",
 ["dnstable/query.c", "dnstable/query_mtbl.c"],
 [("file classification", "dnstable/query.c:reader_time_filter"), ("assembly", "dnstable/query.c:dnstable_query_iter, query_iter_next"), ("join/remove", "dnstable/query_mtbl.c:ljoin_*, remove_*")],
 ["entries returned by a query on a multi-file reader"])
prop("C18", "Search statistics are named consistently and count what happened",
 "Every statistics stage and category converts to a name and back to itself, and unknown names and numbers are refused. Reading a counter that does not apply reports that it does not exist and never returns an uninitialised value; a counter that applies equals the number of the corresponding events (entries rejected, merged, seeks made, files opened) in that search.",
 ["inputs", "histories"], "all stage/category values and names; all searches",
 NOT + "No test reads the counters against an independent count.",
 ["dnstable/util.c", "dnstable/query.c", "dnstable/query_mtbl.c", "dnstable/iter.c"],
 [("names", "dnstable/util.c"), ("counters", "dnstable/query.c:query_iter_stat / dnstable/query_mtbl.c:*_get_counter")],
 ["dnstable_iter_get_count and the name conversions"])
prop("C19", "Base32 and base64 codecs are exact inverses within their buffers",
 "Encoding any bytes produces the standard base32-hex or base64 text for them and decoding that text returns the bytes, for every length and however the input is divided between successive calls of the streaming (base64) codec. Characters outside the alphabet never make a decoder read or write outside its buffers, and the text and byte counts returned are exact.",
 ["inputs"], "all byte strings of every length, all texts, all splits of a stream",
 NOT + "No codec test is in the stable set.",
 ["libmy/b32_encode.c", "libmy/b32_decode.c", "libmy/b64_encode.c", "libmy/b64_decode.c"],
 [("base32", "libmy/b32_encode.c, libmy/b32_decode.c"), ("base64", "libmy/b64_encode.c:base64_encode_block, base64_encode_blockend; libmy/b64_decode.c:base64_decode_block")],
 ["encoder and decoder outputs"])
prop("C20", "Number and hex conversions are exact and never overrun their buffers",
 "Converting any 64-bit unsigned number to decimal text gives its shortest decimal form; converting bytes to hex gives two lowercase digits per byte; decoding hex text of any case gives back the bytes and refuses text of odd length or with any other character. A destination too small is reported or truncated safely, and nothing is written outside the destination.",
 ["inputs"], "all 64-bit numbers, all byte strings, all texts, all destination sizes",
 NOT + "Numeric corner values and short destinations are not sampled.",
 ["libmy/my_format.c", "libmy/my_format.h", "libmy/hex_decode.h", "dnstable/dnstable-json.h"],
 [("decimal", "libmy/my_format.c:my_uint64_to_str; dnstable/dnstable-json.h:vnum_to_str"), ("hex", "libmy/my_format.c:my_bytes_to_hex_str; libmy/hex_decode.h")],
 ["conversion outputs"])
prop("C21", "The priority heap always yields its smallest element and loses nothing",
 "After any sequence of adding elements, replacing or removing the smallest, and rebuilding, the heap holds exactly the elements added and not removed, and the element reported or removed is one that compares no greater than any other. Asking an empty heap for its smallest element, or any heap for an element beyond its end, reports none.",
 ["inputs", "histories"], "all operation sequences, all element multisets, all comparison outcomes of a total preorder",
 NOT + "Operation histories are unbounded; the heap has no test at all.",
 ["libmy/heap.c", "libmy/heap.h"],
 [("sift", "libmy/heap.c:siftup, siftdown"), ("operations", "libmy/heap.c:heap_push, heap_pop, heap_replace, heap_heapify")],
 ["heap_pop, heap_replace, heap_peek results"])
prop("C22", "Growable buffers keep exactly what was appended, in order",
 "After any sequence of appends, reservations, clips, resets, advances and extractions on a growable array or byte buffer, its size and contents are exactly those of the abstract sequence, growth never loses or reorders data or writes outside the storage, and detaching hands over exactly the contents. Zero-terminating a byte buffer adds one zero byte unless it already ends with one, and adding text replaces that final zero byte.",
 ["inputs", "histories"], "all operation sequences, sizes and contents",
 NOT + "Growth boundaries depend on size histories that no test explores.",
 ["libmy/vector.h", "libmy/ubuf.h"],
 [("storage growth", "libmy/vector.h:name##_reserve"), ("operations", "libmy/vector.h; libmy/ubuf.h")],
 ["size, data and value accessors"])
prop("C23", "IP arithmetic: prefix bounds are the first and last address, next is plus one",
 "For every IPv4 or IPv6 address and every prefix length, the lower bound is the address with all host bits cleared and the upper bound the address with all host bits set. Incrementing an address gives the next address in numeric order, wrapping to zero from the highest.",
 ["inputs"], "all 2^32 and 2^128 addresses x all prefix lengths",
 NOT + "Carries and shift-count corner cases (lengths 0, 31, 32, 63, 64, 65, 127, 128) need every value.",
 ["libmy/ip_arith.h"],
 [("IPv4", "libmy/ip_arith.h:ip4_lower, ip4_upper, ip4_incr"), ("IPv6", "libmy/ip_arith.h:ip6_lower, ip6_upper, ip6_incr")],
 ["results of the address functions", "prefix queries"])
prop("C24", "Every CRC-32C implementation computes the same, standard checksum",
 "For every byte string, length and starting alignment, the selected, table-driven and hardware-instruction implementations all return the standard CRC-32C of those bytes, reading nothing outside them.",
 ["inputs", "configurations"], "all byte strings of every length at every alignment, each CPU path",
 "The tests check fixed vectors on one path; equality of all paths for all lengths and alignments is not sampled.",
 ["libmy/crc32c.c", "libmy/crc32c-slicing.c", "libmy/crc32c-sse42.c"],
 [("dispatch", "libmy/crc32c.c:my_crc32c_first"), ("slicing", "libmy/crc32c-slicing.c:my_crc32c_slicing"), ("hardware", "libmy/crc32c-sse42.c:my_crc32c_sse42")],
 ["checksum results"])
prop("C25", "A bounded queue delivers every accepted item once, in order",
 "For any sequence of inserts and removes by one producer and one consumer, the queue delivers exactly the items whose insertion was accepted, unchanged, once and in insertion order; it refuses an insert only when its usable slots are full and a remove only when it is empty, and the free space it reports is exact. This holds across any number of wrap-arounds of its ring.",
 ["histories", "schedules"], "all operation sequences, all capacities and element sizes, all interleavings at operation granularity",
 NOT + "Wrap-around histories and interleavings are unbounded.",
 ["libmy/my_queue.c", "libmy/my_queue.h", "libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"],
 [("ring, barrier version", "libmy/my_queue_mb.c"), ("ring, mutex version", "libmy/my_queue_mutex.c")],
 ["my_queue_insert and my_queue_remove results"])
prop("C26", "Reloading a set file tracks exactly the files it lists",
 "After each reload that finds the set file changed (another inode or modification time), exactly the existing files listed in it (every name taken relative to the set file's directory) are open, each once and in sorted order; files that stay listed keep their handle, newly listed ones are loaded and unlisted ones unloaded, each exactly once, whatever the earlier contents. Lines may be repeated, empty or name missing files without any handle being lost, leaked or released twice, and destroying the set releases every handle.",
 ["histories", "inputs"], "all sequences of set-file contents and reloads",
 NOT + "Reload histories (adding, removing, repeating names) are unbounded.",
 ["libmy/my_fileset.c", "libmy/my_fileset.h"],
 [("reload", "libmy/my_fileset.c:my_fileset_reload, setfile_updated"), ("lookup", "libmy/my_fileset.c:fetch_entry, my_fileset_get")],
 ["load and unload callbacks, my_fileset_get"])
prop("C27", "Timespec arithmetic is exact and stays normalised",
 "For all normalised times that do not overflow, adding and subtracting times and comparing them agree with integer arithmetic on nanoseconds and give normalised results; conversions to and from floating seconds agree to within their rounding, also for times beyond 2^31 seconds and before 1970.",
 ["inputs"], "all normalised times within range",
 NOT + "Carry and sign corner cases are not sampled.",
 ["libmy/my_time.h"],
 [("arithmetic", "libmy/my_time.h:my_timespec_add, my_timespec_sub, my_timespec_cmp"), ("conversion", "libmy/my_time.h:my_timespec_to_double, my_timespec_from_double")],
 ["results of the time functions"])
prop("C28", "The hash function depends only on bytes, length and seed",
 "For every byte string and seed, the 32-bit hash is the published lookup3 value of those bytes: it does not depend on the alignment or the surroundings of the bytes, and only the given bytes influence it.",
 ["inputs"], "all byte strings of every length, at every alignment, all seeds",
 NOT + "Three separate code paths are chosen by alignment and thirteen by length; none is tested.",
 ["libmy/lookup3.c", "libmy/lookup3.h"],
 [("hash", "libmy/lookup3.c:my_hashlittle, my_hashlittle2")],
 ["hash values"])
prop("C29", "Command-line time values mean what they say",
 "A time given to the lookup tool as an absolute UTC date, a Unix time, a negative offset from now or a combination of week, day, hour, minute and second counts is turned into exactly that moment in seconds, offsets reaching before the epoch are clamped to it, and anything else is refused.",
 ["inputs"], "all time strings; all current times",
 NOT + "The parser is inside the command-line tool and is exercised only with a few dates.",
 ["src/dnstable_lookup.c"],
 [("parser", "src/dnstable_lookup.c:parse_time")],
 ["bounds given to the query"])
prop("C30", "String replacement replaces every occurrence, left to right, and always ends",
 "Replacing a text in a string gives a new string in which every non-overlapping occurrence, found from left to right, is replaced and everything else is unchanged; a string without occurrences is returned as an equal copy. It ends for every input, including an empty search text, without touching memory outside the strings.",
 ["inputs"], "all triples of strings",
 NOT + "Overlaps, empty texts and length changes are not sampled.",
 ["libmy/string_replace.h"],
 [("replace", "libmy/string_replace.h:string_replace")],
 ["returned string"])
prop("C31", "Keys are ordered as unsigned bytes and a key's successor bounds its prefix range",
 "Comparing two keys gives the lexicographic order of their unsigned bytes, with a proper prefix before any longer key; the order is total and consistent (antisymmetric, transitive). The upper bound derived from a prefix is at or above every key that starts with the prefix, and a name's wildcard and label structure is recognised from its label lengths alone.",
 ["inputs"], "all pairs and triples of byte strings",
 NOT + "Order laws are universally quantified.",
 ["dnstable/dnstable-private.h"],
 [("order", "dnstable/dnstable-private.h:bytes_compare"), ("wildcards", "dnstable/query.c:is_right_wildcard, is_left_wildcard")],
 ["order of results", "join and remove results"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write(
    "".join(json.dumps(p) + "\n" for p in P))
