M = "../../lib/mtbl_proof.c"
PROOFS = [
 dict(name="filter_step", src=M, harness="h_filter", functions=["filter_iter_next", "seek_wrap_iter_seek"], defs=["P_FILTER"], loops=True, unwind=5),
 dict(name="filter_seek", src=M, harness="h_filter_seek", functions=["filter_iter_seek"], defs=["P_FILTER"], unwind=5),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=5, maxlen=400)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'step, seek and counting of the filter proved for all sources and filter functions that seek only over entries they reject; construction by the executable oracle'
