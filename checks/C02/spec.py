PROOFS = [
 dict(name="triplet_pack", src="proof.c", harness="h_tpack", enforce="triplet_pack", unwind=11),
 dict(name="pair_pack", src="proof.c", harness="h_ppack", enforce="pair_pack", unwind=11),
 dict(name="triplet_unpack", src="proof.c", harness="h_tunpack", enforce="triplet_unpack", unwind=11, defs=["VP_ABSTRACT"], abstract=True),
 dict(name="pair_unpack", src="proof.c", harness="h_punpack", enforce="pair_unpack", unwind=11, defs=["VP_ABSTRACT"], abstract=True),
 dict(name="inverse", src="proof.c", harness="h_inverse", unwind=11, functions=[]),
]
ORACLES = [dict(src=["oracle.c", "{STUBS}/mtbl_exec.c"], secs=4, maxlen=96)]
ASSUMPTIONS = ["values of at most 2^32 bytes"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat",
 "assumed contracts for libmtbl's varint functions (lib/vp_mtbl_varint.h); C01 proves the same contracts for libmy/varint.c"]
LEVEL_NOTE = "contracts on pack/unpack for buffers of any length; round trip as a lemma over all values"
