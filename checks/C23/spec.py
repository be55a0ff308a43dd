PROOFS = [dict(name=f, src="proof.c", harness="h_" + f, enforce=f, unwind=17) for f in "ip4_lower ip4_upper ip6_lower ip6_upper ip4_incr ip6_incr".split()]
ORACLES = [dict(src=["oracle.c"], secs=3, maxlen=64)]
ASSUMPTIONS = ["prefix lengths up to 32 and 128; the callers (query_set_data_ip_prefix) refuse others, see C13"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat"]
LEVEL_NOTE = "contracts on all six functions, loop-free, every address and prefix length"
