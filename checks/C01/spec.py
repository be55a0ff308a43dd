PROOFS = [
 dict(name="length", src="proof.c", harness="h_length", enforce="varint_length", unwind=11),
 dict(name="length_packed", src="proof.c", harness="h_packed", enforce="varint_length_packed", loops=True, fallback=dict(unwind=14)),
 dict(name="encode32", src="proof.c", harness="h_enc32", enforce="varint_encode32", unwind=6),
 dict(name="encode64", src="proof.c", harness="h_enc64", enforce="varint_encode64", unwind=11),
 dict(name="decode32", src="proof.c", harness="h_dec32", enforce="varint_decode32", unwind=11, functions=["varint_decode32"]),
 dict(name="decode64", src="proof.c", harness="h_dec64", enforce="varint_decode64", unwind=11),
 dict(name="inverse", src="proof.c", harness="h_inverse", unwind=11, functions=[]),
]
ORACLES = [dict(src=["oracle.c"], secs=5, maxlen=64)]
ASSUMPTIONS = ["length_packed: buffers shorter than 2^32 - 1 bytes (the position counter is 32 bits wide)",
 "decode32/decode64 inline the packed-length scan, fully unwound (at most 5/10 bytes by the format)"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat"]
LEVEL_NOTE = "contracts on all six codec functions, loops closed by an inductive invariant (packed length) or full unwinding to the format's 5/10 bytes; inverse law as a lemma"
