M = "../../lib/mtbl_proof.c"
PROOFS = [
 dict(name="join_step", src=M, harness="h_join", functions=["ljoin_iter_next"], defs=["P_JOIN"], unwind=5),
 dict(name="join_seek", src=M, harness="h_join_seek", functions=["ljoin_iter_seek"], defs=["P_JOIN"], unwind=5),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=5, maxlen=400)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'step and seek of the join proved for all sources; assembly of the join in a search (scopes, source lifetimes) by the executable oracle only'
