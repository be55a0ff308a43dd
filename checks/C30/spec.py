PROOFS = [dict(name="replace", src="proof.c", harness="h_replace", functions=["string_replace"], unwind=6, unwindset=["ubuf_detach.0:17"], cbmc_flags=["--sat-solver", "cadical"], bounded="strings of at most 4, search and replacement texts of at most 2 characters")]
ORACLES = [dict(src=["oracle.c"], secs=4, maxlen=100)]
ASSUMPTIONS = ["allocation succeeds (the code asserts it)"]
TRUSTED = ["CBMC 6.11 C semantics, CaDiCaL", "growable buffers as proved in C22 (lib/vp_ubuf_model.h)", "strstr as specified by the C standard (body in proof.c)"]
LEVEL = "model_checking"
LEVEL_NOTE = "bounded check of the function's contract over all short strings, fully unwound; random longer strings by the oracle"
TECHNIQUE = "the function's contract, asserted on the real code and discharged by CBMC for all short strings (bounded); executable form of the contract for failing inputs"
