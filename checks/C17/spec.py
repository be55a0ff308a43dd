Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="classify", src=Q, harness="h_tfilter", enforce="reader_time_filter", replace=["dnstable_query_init", "dnstable_query_iter", "dnstable_query_destroy"], defs=["P_TFILTER"], unwind=14),
 dict(name="pruning_lemma", src=Q, harness="h_lemma", functions=[], defs=["P_LEMMA"]),
 dict(name="prefilter", src=Q, harness="h_prefilter", enforce="filter_time_prefilter", defs=["P_TIME"], abstract=True, functions=["filter_time_prefilter", "filter_time_common"]),
 dict(name="fence", src=Q, harness="h_time", enforce="filter_time", defs=["P_TIME"], abstract=True, functions=["filter_time", "filter_time_common"]),
 dict(name="order", src=Q, harness="h_dupsort", enforce="dnstable_dupsort_func", defs=["P_ORDER"], abstract=True),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=2500)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'classification of files, both time filters, the ordering of duplicates and the lemma that pruning equals filtering the merged whole are proved; the assembly of the stages by the executable oracle'
