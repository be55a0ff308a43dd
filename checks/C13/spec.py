Q = "../../lib/query_proof.c"
PROOFS = [
 dict(name="name_types", src=Q, harness="h_rdata_name", enforce="filter_rrtype_rdata_name", defs=["P_FILTER"], abstract=True),
 dict(name="raw_length", src=Q, harness="h_rdata_len", enforce="filter_rdata_len", defs=["P_FILTER"], abstract=True),
 dict(name="address_skip", src=Q, harness="h_ip", functions=["filter_rrtype_ip", "filter_rrtype", "increment_key", "add_rrtype_to_key"], defs=["P_SKIP", "P_SEEK", "P_MODELBUF", "VP_BOUNDED", "KMAX=12", "VP_UBUF_CAP=80"], unwind=14, bounded="A entries, keys of at most 12 bytes", timeout=400),
]
ORACLES = [dict(src=["oracle.c", "{DNS}"], secs=6, maxlen=1200)]
ASSUMPTIONS = ["libmtbl iterators and sources, libwdns name functions and varints are represented by their documented contracts (lib/query_proof.c, lib/mtbl_proof.c, lib/vp_mtbl_varint.h)", "malloc and realloc succeed", "memcmp is represented by its contract at an arbitrary byte position where a proof says P_MEMCMP"]
TRUSTED = ["libmtbl", "libwdns", "libc", "cbmc 6.11, goto-instrument --dfcc"]
LEVEL_NOTE = "name-type and raw-length filters proved; the address filter's skipping is bounded (A entries, keys up to 12 bytes); key construction and address ranges by the executable oracle"
