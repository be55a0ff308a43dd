PROOFS = [
 dict(name="merge", src="proof.c", harness="h_merge", enforce="dnstable_merge_func", abstract=True, replace=["triplet_unpack", "pair_unpack", "triplet_pack", "pair_pack", "merge_rrtype_bitmaps"], defs=["P_MERGE"]),
 dict(name="dedup", src="proof.c", harness="h_dedup", functions=["sorted_merge_dedup"], unwind=9, defs=["P_DEDUP"], cbmc_flags=["--sat-solver", "cadical"], bounded="inputs of at most 3 values each, fully unwound"),
]
ORACLES = [dict(src=["oracle.c", "{DNS-merge}"], secs=6, maxlen=600)]
ASSUMPTIONS = ["keys and values of at most 2^32 bytes", "allocation succeeds (the code asserts it)", "the values of RRset, RDATA, time range and known-version entries decode (otherwise an assertion stops the process)"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat/CaDiCaL",
 "packing functions through their contracts (discharged in C02), libmtbl varints through lib/vp_mtbl_varint.h",
 "merge_rrtype_bitmaps: only its frame is used in the proof of dnstable_merge_func; its result is judged by the oracle (bounded)"]
LEVEL_NOTE = "contract of dnstable_merge_func for every key and every pair of decodable values; the index union (merge_rrtype_bitmaps) by the bounded oracle and a bounded proof of sorted_merge_dedup"
