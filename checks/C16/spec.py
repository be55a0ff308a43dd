R = "../../lib/reader_proof.c"
PROOFS = [
 dict(name="step", src=R, harness="h_next", enforce="reader_iter_next", defs=["P_STREAM"], loops=True, abstract=True),
 dict(name="kinds", src=R, harness="h_open", functions=["dnstable_reader_iter", "reader_iter_prefix", "reader_iter_free"], defs=["P_OPEN"], cbmc_flags=["--memory-leak-check"]),
 dict(name="reader", src=R, harness="h_reader", functions=["dnstable_reader_init", "dnstable_reader_init_setfile", "dnstable_reader_query", "dnstable_reader_reload_setfile", "dnstable_reader_destroy"], defs=["P_OPEN"], cbmc_flags=["--memory-leak-check"]),
 dict(name="step_interface", src=R, harness="h_iter", functions=["dnstable_iter_init", "dnstable_iter_next", "dnstable_iter_get_count", "dnstable_iter_set_stat_func", "dnstable_iter_destroy"], defs=["P_ITER"], cbmc_flags=["--memory-leak-check"]),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=1200)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = "step, kinds, reader life cycle and the iterator interface proved given libmtbl's contracts"
