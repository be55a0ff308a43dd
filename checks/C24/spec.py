def notable(repo):
    """crc32c-slicing.c with the table dropped and every lookup g_crc_slicing[j][x] made a call VPT(j, x) of an arbitrary function (the table's values are the subject of 'tables')"""
    import re
    t = open(repo + "/libmy/crc32c-slicing.c").read()
    t, n = re.subn(r"static const uint32_t g_crc_slicing\[8\]\[256\] = \{.*?\n\};", "", t, flags=re.S)
    assert n == 1
    t, n = re.subn(r"g_crc_slicing\[(\d)\]\[([^\]]*)\]", r"VPT(\1, \2)", t)
    return {"slicing_notable.c": t}
ASM = ["my_asm_crc32_u64", "my_asm_crc32_u32", "my_asm_crc32_u16", "my_asm_crc32_u8"]
PROOFS = [
 dict(name="tables", src="proof.c", harness="h_tables", functions=["g_crc_slicing"], unwind=257),
 dict(name="slice8", src="proof.c", harness="h_slice8", functions=[], unwind=9),
 dict(name="slicing", src="proof.c", harness="h_slicing", functions=["my_crc32c_slicing"], gen=notable, defs=["P_NOTABLE"], loops=True, unwind=8, unwindset=["my_crc32c_slicing.0:4"], fallback=dict(unwind=8)),
 dict(name="sse42", src="proof.c", harness="h_sse42", functions=["my_crc32c_sse42"], replace=ASM, gen=notable, defs=["P_ASM", "P_NOTABLE"], loops=True, unwind=8, fallback=dict(unwind=8)),
 dict(name="dispatch", src="proof.c", harness="h_dispatch", functions=["my_crc32c_runtime_detection"]),
]
ORACLES = [dict(src=["oracle.c"], secs=3, maxlen=600)]
ASSUMPTIONS = ["little-endian machine", "texts of at most 2^32 bytes", "base addresses: every offset from an 8-byte boundary"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat",
 "the crc32 instructions compute CRC-32C steps (assumed contracts of the my_asm_* wrappers; the oracle runs the real ones)",
 "extraction: for the loop proofs the table g_crc_slicing is replaced by an arbitrary function; its values are proved by 'tables', eight byte steps = one slicing step by 'slice8'"]
LEVEL_NOTE = "both implementations proved equal to the standard byte-wise recursion for every text, length and alignment; tables exhaustively; CPU instructions trusted"
