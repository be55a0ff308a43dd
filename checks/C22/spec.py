def ops(suffix, defs):
    return [dict(name=n + suffix, src="proof.c", harness="h_" + n, functions=["VECTOR_GENERATE: " + f for f in fs], defs=defs, unwind=(27 if n in ("reserve", "append", "extend", "add") else None), cbmc_flags=["--sat-solver", "cadical"]) for n, fs in
        [("init", ["init", "reinit", "destroy"]), ("reserve", ["reserve"]), ("add", ["add"]), ("append", ["append"]), ("extend", ["extend"]), ("reset", ["reset"]), ("clip", ["clip"]),
         ("access", ["size", "bytes", "data", "ptr", "value", "advance"]), ("detach", ["detach"])]]
PROOFS = ops("", []) + ops("_ptr", ["P_PTR"]) + [
 dict(name="cterm", src="proof.c", harness="h_cterm", functions=["ubuf_cterm", "ubuf_cstr"], unwind=27),
 dict(name="cstr", src="proof.c", harness="h_cstr", functions=["ubuf_add_cstr"], unwind=27),
 dict(name="dup", src="proof.c", harness="h_dup", functions=["ubuf_dup_cstr"], unwind=27),
 dict(name="rstrip", src="proof.c", harness="h_rstrip", functions=["ubuf_rstrip"]),
]
ORACLES = [dict(src=["oracle.c"], secs=3, maxlen=600)]
ASSUMPTIONS = ["allocation succeeds (the code asserts it)", "at most 2^24 elements before an operation and 2^24 added by it", "the source of an append or extend is not the array itself"]
TRUSTED = ["CBMC 6.11 C semantics, MiniSat/CaDiCaL", "the C library's realloc, memcpy and strlen (modelled at the element the assertion looks at)"]
LEVEL_NOTE = "every operation proved for any size, contents and element position (element types: byte and pointer, the ones in use); histories by induction over the operations; ubuf_add_fmt (varargs) by the oracle only"
