PROOFS = [
 dict(name="decode_value", src="proof.c", harness="h_dval", enforce="base64_decode_value"),
 dict(name="encode_value", src="proof.c", harness="h_eval", functions=["base64_encode_value"]),
 dict(name="init_encodestate", src="proof.c", harness="h_einit", enforce="base64_init_encodestate"),
 dict(name="init_decodestate", src="proof.c", harness="h_dinit", enforce="base64_init_decodestate"),
 dict(name="encode_blockend", src="proof.c", harness="h_end", functions=["base64_encode_blockend"]),
 dict(name="encode_block", src="proof.c", harness="h_eblock", functions=["base64_encode_block"], unwind=8, bounded="at most 7 bytes per call, from every encoder state"),
 dict(name="decode_block", src="proof.c", harness="h_dblock", functions=["base64_decode_block"], unwind=8, bounded="at most 5 characters per call, from every decoder state"),
 dict(name="base32", src="proof.c", harness="h_b32", functions=["base32_encode", "base32_decode"], unwind=13, unwindset=["base32_decode.0:257", "memchr.0:33"], bounded="at most 6 bytes (every length modulo 5), every buffer size"),
]
ORACLES = [dict(src=["oracle.c"], secs=4, maxlen=200)]
ASSUMPTIONS = ["the output buffer of base64_decode_block has room for one byte more than it returns (it keeps its partial byte there)", "char is signed (as built here)"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat"]
LEVEL_NOTE = "digit tables, state initialisation and block end proved for every value; the streaming steps and base32 bounded in the length of one call, from every state, and by the oracle for longer texts"
