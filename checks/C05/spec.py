ACC = "get_type set_iszone get_rrname get_bailiwick get_rdata_name get_rrtype get_num_rdata get_rdata get_time_first get_time_last get_count get_source_info get_version get_version_type".split()
PROOFS = [dict(name=f, src="proof.c", harness="h_" + f, enforce="dnstable_entry_" + f, defs=["P_ACC"]) for f in ACC] + [
 dict(name="varint32", src="proof.c", harness="h_varint", enforce="decode_varint32", defs=["P_VARINT"], abstract=True),
 dict(name="val_triplet", src="proof.c", harness="h_triplet", enforce="decode_val_triplet", replace=["triplet_unpack"], defs=["P_VALUE"], abstract=True),
 dict(name="time_range", src="proof.c", harness="h_range", enforce="decode_time_range", replace=["pair_unpack"], defs=["P_VALUE"], abstract=True),
 dict(name="version", src="proof.c", harness="h_version", enforce="decode_version", replace=["decode_varint32"], defs=["P_VALUE"], abstract=True),
 dict(name="rdata", cbmc_flags=["--sat-solver", "cadical"], src="proof.c", harness="h_rdata", functions=["decode_rdata"], replace=["decode_varint32"], defs=["P_DATA"], unwind=4, abstract=True),
 dict(name="rrset", cbmc_flags=["--sat-solver", "cadical"], src="proof.c", harness="h_rrset", functions=["decode_rrset"], replace=["decode_varint32"], defs=["P_RRSET"], unwind=4, abstract=True, bounded="at most two RDATA of any length"),
 dict(name="dispatch", src="proof.c", harness="h_dispatch", functions=["dnstable_entry_decode"], replace="decode_rrset decode_rrset_name_fwd decode_rdata decode_rdata_name_rev decode_time_range decode_source_info decode_version decode_val_triplet".split(),
      defs=["P_DISPATCH"], unwind=4, abstract=True),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=400)]
ASSUMPTIONS = ["allocation succeeds (the code asserts it)", "wdns_len_uname accepts only names of at most 255 bytes that end within the buffer", "keys shorter than 2^32 bytes"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat/CaDiCaL", "libwdns name functions (assumed contracts)", "triplet_unpack, pair_unpack contracts (C02), decode_varint32 and the varint functions (C01)", "growable arrays as proved in C22"]
LEVEL_NOTE = "accessors, value decoders, RDATA decoder and the dispatch proved for every input; decode_rrset for at most two RDATA of any length; whole-entry decoding also by the oracle"
