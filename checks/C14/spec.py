Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="rrtype", src=Q, harness="h_rrtype", enforce="filter_rrtype", defs=["P_FILTER"], abstract=True),
 dict(name="name_types", src=Q, harness="h_rdata_name", enforce="filter_rrtype_rdata_name", defs=["P_FILTER"], abstract=True),
 dict(name="bailiwick", src=Q, harness="h_bailiwick", enforce="filter_bailiwick", defs=["P_BAILIWICK", "P_MEMCMP"], abstract=True),
 dict(name="entry_check", src=Q, harness="h_qfilter", enforce="dnstable_query_filter", defs=["P_QFILTER", "P_MEMCMP"], abstract=True),
 dict(name="set_rrtype", src=Q, harness="h_rrtype_set", enforce="dnstable_query_set_rrtype", replace=["query_set_err"], defs=["P_PARSE"]),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=1200)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'type and bailiwick filters, the entry check and the type setter proved'
