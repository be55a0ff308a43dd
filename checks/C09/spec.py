M = "../../lib/mtbl_proof.c"
PROOFS = [
 dict(name="match_first", src=M, harness="h_match", functions=["match_key"], defs=["P_REMOVE", "FIRST=0"], unwind=4, bounded="two removal sources"),
 dict(name="match_second", src=M, harness="h_match", functions=["match_key"], defs=["P_REMOVE", "FIRST=1"], unwind=4, bounded="two removal sources"),
 dict(name="match_one", src=M, harness="h_match", functions=["match_key"], defs=["P_REMOVE", "NSRC=1"], unwind=4, bounded="one removal source"),
 dict(name="step", src=M, harness="h_rnext", functions=["remove_iter_next"], replace=["match_key"], defs=["P_RNEXT"], loops=True, unwind=5),
 dict(name="seek", src=M, harness="h_remove_seek", functions=["remove_iter_seek"], defs=["P_REMOVE"], unwind=4, bounded="two removal sources"),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=5, maxlen=400)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = "the step over the upstream is proved given match_key's contract; match_key and the seek are discharged for one and two removal sources (bounded)"
