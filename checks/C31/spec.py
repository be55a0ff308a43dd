Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="compare", src=Q, harness="h_compare", enforce="bytes_compare", defs=["P_COMPARE", "P_MEMCMP"], abstract=True),
 dict(name="order_laws", src=Q, harness="h_laws", functions=["bytes_compare"], defs=["P_COMPARE"], unwind=8, bounded="keys of at most 6 bytes"),
 dict(name="successor", src=Q, harness="h_inc", enforce="increment_key", defs=["P_INC"], loops=True),
 dict(name="left_wildcard", src=Q, harness="h_left", enforce="is_left_wildcard", defs=["P_WILD"]),
 dict(name="right_wildcard", src=Q, harness="h_right", enforce="is_right_wildcard", defs=["P_WILD"], loops=True),
]
ORACLES = [dict(src=["oracle.c", "{DNS-query}"], secs=5, maxlen=400)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'comparison, successor and wildcards proved; order laws bounded (keys up to 6 bytes)'
