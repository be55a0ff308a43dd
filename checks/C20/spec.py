PROOFS = [
 dict(name="hex_str", src="proof.c", harness="h_hexstr", enforce="my_bytes_to_hex_str", loops=True, defs=["P_HEXSTR"], replace=["_my_byte_to_hex_str"], fallback=dict(unwind=8)),
 dict(name="hex_byte", src="proof.c", harness="h_hexbyte", functions=["_my_byte_to_hex_str"]),
 dict(name="hex_to_int", src="proof.c", harness="h_hexint", enforce="hex_to_int", defs=["P_HEXINT"]),
 dict(name="decimal", cbmc_flags=["--sat-solver", "cadical"], src="proof.c", harness="h_dec", enforce="my_uint64_to_str", loops=True, defs=["P_DEC"], fallback=dict(unwind=8)),
 dict(name="decimal_edge", src="proof.c", harness="h_decedge", functions=[], unwind=4),
 dict(name="hex16", src="proof.c", harness="h_hex16", functions=["my_uint16_to_hex_str"], unwind=8),
 dict(name="hex_decode", src="proof.c", harness="h_hexdec", functions=["hex_decode"], unwind=9, bounded="texts of at most 7 characters"),
]
ORACLES = [dict(src=["oracle.c"], secs=4, maxlen=100)]
ASSUMPTIONS = ["buffers of at most 2^32 bytes"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat",
 "the decimal form is defined by Q(i+1) = Q(i)/10, digit Q(i)%10, unfolded one step at a time at the position a loop has reached",
 "the C library's strlen and toupper (CBMC's bodies)"]
LEVEL_NOTE = "loop contracts for the hex and decimal formatters, any buffer size; hex_decode bounded in the text's length plus the oracle"
