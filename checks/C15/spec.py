Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="skip", src=Q, harness="h_offset", enforce="filter_offset", defs=["P_OFFSET"]),
 dict(name="set_offset", src=Q, harness="h_set_offset", enforce="dnstable_query_set_offset", defs=["P_SETTERS"]),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=1200)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = 'skipping and the setter proved; the per-search copy by the executable oracle'
