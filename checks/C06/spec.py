OBJ = ["dnstable_entry_to_json_fmt", "fmt_rrtype_json", "fmt_rrtypes_union_json", "fmt_rfc3339_time_json"]
PROOFS = [
 dict(name="string", src="proof.c", harness="h_string", functions=["append_json_string_escaped"], loops=True, defs=["P_STRING"], unwind=16, fallback=dict(unwind=12)),
 dict(name="hex", src="proof.c", harness="h_hex", functions=["fmt_hex_str"], loops=True, defs=["P_HEX"], unwind=8, fallback=dict(unwind=12)),
 dict(name="date", src="proof.c", harness="h_time", functions=["fmt_rfc3339_time", "fmt_rfc3339_time_json", "fmt_rfc3339", "my_uint64_to_str"], defs=["P_TIME"], unwind=42, abstract=True),
 dict(name="decimal", src="proof.c", harness="h_dec", functions=["vnum_to_str"], defs=["P_DEC", "MAXDEC=999999ull"], loops=True, unwind=21, cbmc_flags=["--sat-solver", "cadical"], fallback=dict(unwind=21), bounded="numbers below 1000000"),
 dict(name="decimal32", src="proof.c", harness="h_dec", functions=["vnum_to_str"], defs=["P_DEC", "MAXDEC=4294967295ull"], loops=True, unwind=21, cbmc_flags=["--sat-solver", "cadical"], fallback=dict(unwind=21), bounded="numbers below 2^32", thorough_only=True, timeout=400),
] + [
 dict(name="object_" + n, src="proof.c", harness="h_object", functions=OBJ, replace=["fmt_hex_str", "rrtype_union_unpack"], loops=True, defs=["P_OBJECT", "XT=%d" % t], unwind=18, abstract=True,
      cbmc_flags=["--object-bits", "12", "--sat-solver", "cadical"] + (["--arrays-uf-always"] if t in (1, 3) else []), fallback=dict(unwind=18))
 for n, t in (("rrset", 0), ("rrset_name", 1), ("rdata", 2), ("rdata_name", 3), ("source_info", 253), ("time_range", 254), ("version", 255))
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=12, maxlen=600)]
ASSUMPTIONS = ["allocation succeeds (the code asserts it)", "strings and RDATA of at most 2^28 bytes, at most 2^28 RDATA", "text of an RDATA entry is formed from exactly one RDATA (the decoder makes no other)",
 "gmtime_r has a date for every time up to the year 9999 and agrees with the proleptic Gregorian calendar (compared with one by the oracle)", "bytes above 0x7f in a source info are passed on as they are"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat/CaDiCaL", "snprintf, gmtime_r, strftime (C library)", "libwdns text conversions (assumed contracts; exercised with stand-ins by the oracle)",
 "ubuf (C22), rrtype_union_unpack (C03), my_uint64_to_str in the object proofs (proof date here, C20), varint encoder (C01)"]
LEVEL_NOTE = "JSON: grammar, keys and values of every entry type, string escaping, raw RDATA and dates proved for all inputs; the decimal printing of numbers for a stated range only (all 64 bits by the oracle); the text format by the oracle only"
