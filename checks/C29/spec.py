import re
def extract(repo):
    """the function parse_time as it stands, with every `x *= N' written as x = vp_mul(x, N)"""
    s = open(repo + "/src/dnstable_lookup.c").read()
    m = re.search(r"^static uint64_t\s+parse_time\(const char \*s\)\n\{.*?^\}\n", s, re.S | re.M)
    return {"vp_extract.h": re.sub(r"(\w+) \*= ([\w* ()]+);", r"\1 = vp_mul(\1, \2);", m.group(0))}
_B = dict(src="proof.c", harness="h_parse", enforce="parse_time", loops=True, unwind=14, functions=["parse_time"])
PROOFS = [
 dict(_B, name="range", defs=["VP_RANGE"], fallback=dict(unwind=4, timeout=60), soft=True),
 dict(_B, name="value", defs=["VP_EXTRACT"], gen=extract, abstract=True, soft=True, fallback=dict(unwind=4, timeout=60)),
]
ORACLES = [dict(src=["oracle.c", "{DNS}", "{REPO}/libmy/my_fileset.c"], secs=4, maxlen=60)]
ASSUMPTIONS = ["the current time is between 0 and 2^43 seconds", "strtoll and strptime behave as POSIX says (their results are arbitrary within it); timegm normalises out-of-range calendar fields, which strptime bounds",
 "proof `value' works on the text of parse_time extracted on every run with the products by unit factors uninterpreted (proof `range' runs the file as it is)"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat"]
LEVEL_NOTE = "contract on parse_time with an inductive invariant for its loop, strings of any length; which texts strptime accepts and the calendar arithmetic are judged by the oracle against an independent reference"
