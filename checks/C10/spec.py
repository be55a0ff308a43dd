M = "../../lib/mtbl_proof.c"
Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="interrupt", src=M, harness="h_timeout", functions=["timeout_iter_next"], defs=["P_TIMEOUT"], unwind=5),
 dict(name="interrupt_seek", src=M, harness="h_timeout_seek", functions=["timeout_iter_seek"], defs=["P_TIMEOUT"], unwind=5),
 dict(name="deadline", src=Q, harness="h_set_dl", enforce="query_iter_set_deadline", defs=["P_CLOCK"], unwind=3),
 dict(name="set_timeout", src=Q, harness="h_set_timeout", enforce="dnstable_query_set_timeout", defs=["P_SETTERS"]),
 dict(name="set_deadline", src=Q, harness="h_set_deadline", enforce="dnstable_query_set_deadline", defs=["P_SETTERS"]),
 dict(name="step", src=Q, harness="h_next", enforce="query_iter_next", replace=["query_iter_set_deadline"], loops=True, unwind=14, defs=["P_STREAM"], abstract=True),
]
ORACLES = [dict(src=["oracle.c", "{DNS-query-query_mtbl}"], secs=6, maxlen=1500)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'deadline computation, arming, interruption and step proved; setjmp/longjmp control transfer and construction of the chain by the executable oracle'
