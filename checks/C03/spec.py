PROOFS = [
 dict(name="unpack", src="proof.c", harness="h_unpack", enforce="rrtype_union_unpack", loops=True, defs=["P_UNPACK"], timeout=420, fallback=dict(unwind=34, timeout=200)),
 dict(name="check", src="proof.c", harness="h_check", enforce="rrtype_union_check", loops=True, defs=["P_CHECK"], fallback=dict(unwind=22)),
 dict(name="test", src="proof.c", harness="h_test", enforce="rrtype_test", replace=["rrtype_union_check"], defs=["P_TEST"]),
]
ORACLES = [dict(src=["oracle.c", "{DNS-entry}"], secs=6, maxlen=400)]
ASSUMPTIONS = ["indexes of at most 2^32 bytes", "the result array of rrtype_union_unpack is instantiated with 24 elements in its proof (its capacity is read from sizeof); the oracle runs the full 65535"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat",
 "ghost unfolding of the recursive definition of membership (assumed one step at a time at the position a loop has reached)"]
LEVEL_NOTE = "loop contracts over the window blocks, bytes and bits, any index length; membership and decoding related through one recursive definition"
