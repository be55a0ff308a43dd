Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="left_wildcard", src=Q, harness="h_left", enforce="is_left_wildcard", defs=["P_WILD"]),
 dict(name="right_wildcard", src=Q, harness="h_right", enforce="is_right_wildcard", defs=["P_WILD"], loops=True),
 dict(name="increment_key", src=Q, harness="h_inc", enforce="increment_key", defs=["P_INC"], loops=True),
 dict(name="single_label", src=Q, harness="h_single", functions=["filter_single_label", "increment_key"], defs=["P_SKIP", "P_SEEK", "P_MODELBUF", "VP_BOUNDED"], unwind=14, bounded="keys of at most 8 bytes"),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=1200)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'wildcard recognition, successor keys and the left/right rules proved; the single-label filter and its skipping are bounded (keys up to 8 bytes); key construction by the executable oracle'
