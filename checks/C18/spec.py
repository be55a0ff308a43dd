M = "../../lib/mtbl_proof.c"
Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="filter_counter", src=M, harness="h_filter", enforce="filter_mtbl_get_counter", defs=["P_COUNT"]),
 dict(name="join_counter", src=M, harness="h_ljoin", enforce="ljoin_mtbl_get_counter", defs=["P_COUNT"]),
 dict(name="remove_counter", src=M, harness="h_remove", enforce="remove_mtbl_get_counter", defs=["P_COUNT"]),
 dict(name="get_counter", src=Q, harness="h_counter", enforce="get_counter", defs=["P_COUNTER"], unwind=14),
 dict(name="count", src=Q, harness="h_count", enforce="query_iter_get_count", defs=["P_COUNTER"], unwind=14),
]
ORACLES = [dict(src=["oracle.c", "{DNS-query}"], secs=6, maxlen=2500)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'counters of the stages and of a search proved; that they count the events is proved with C07 to C09; names by the executable oracle over all numbers'
