PROOFS = [
 dict(name="add", src="proof.c", harness="h_add", enforce="my_timespec_add", unwind=3),
 dict(name="sub", src="proof.c", harness="h_sub", enforce="my_timespec_sub", unwind=3),
 dict(name="cmp", src="proof.c", harness="h_cmp", enforce="my_timespec_cmp"),
 dict(name="from_double", src="proof.c", harness="h_from", enforce="my_timespec_from_double"),
 dict(name="to_double", src="proof.c", harness="h_to", enforce="my_timespec_to_double"),
]
ORACLES = [dict(src=["oracle.c"], secs=3, maxlen=100)]
ASSUMPTIONS = ["normalised operands, seconds within 2^61 (no overflow); floating conversions within 2^40 seconds of the epoch"]
TRUSTED = ["CBMC 6.11 C and IEEE-754 semantics, goto-instrument --dfcc contract instrumentation, MiniSat"]
LEVEL_NOTE = "contracts on all five functions, all normalised operands; the nanosecond part of the floating conversions to within rounding is judged by the oracle"
