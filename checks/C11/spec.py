Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="fence", src=Q, harness="h_time", enforce="filter_time", defs=["P_TIME"], abstract=True, functions=["filter_time", "filter_time_common"]),
 dict(name="prefilter", src=Q, harness="h_prefilter", enforce="filter_time_prefilter", defs=["P_TIME"], abstract=True, functions=["filter_time_prefilter", "filter_time_common"]),
 dict(name="set_bound", src=Q, harness="h_set_param", enforce="dnstable_query_set_filter_parameter", defs=["P_SETTERS"], unwind=14),
 dict(name="entry_check", src=Q, harness="h_qfilter", enforce="dnstable_query_filter", defs=["P_QFILTER", "P_MEMCMP"], abstract=True),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=1200)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = "the four bounds, the prefilter, the bounds' setters and the check on one entry proved"
