def nomix(repo):
    """lookup3.c with each use of its macros mix(a,b,c) and final(a,b,c) made a use of MIX and FINAL"""
    import re
    t = open(repo + "/libmy/lookup3.c").read()
    t = re.sub(r"(?m)^(?!#define)(.*)\bmix\(a,\s*b,\s*c\);", r"\1MIX(a,b,c)", t)
    t = re.sub(r"(?m)^(?!#define)(.*)\bfinal\(a,\s*b,\s*c\);", r"\1FINAL(a,b,c)", t)
    return {"lookup3_nomix.c": t}
PROOFS = [dict(name="mix", src="proof.c", harness="h_mix", solver="z3", functions=["mix", "final"])] + [dict(name="hashlittle%s_align%d" % (v, al), src="proof.c", harness="h_little" + v, functions=["my_hashlittle" + v], gen=nomix, defs=["P_NOMIX", "ALIGN=%d" % al], loops=True, unwind=13, fallback=dict(unwind=13)) for v in ("", "2") for al in (0, 1, 2, 3)]
for d in PROOFS:
    d["timeout"] = 400
    if d["name"] not in ("mix", "hashlittle_align0"): d["thorough_only"] = True
ORACLES = [dict(src=["oracle.c", "{REPO}/libmy/lookup3.c"], secs=4, maxlen=500)]
ASSUMPTIONS = ["little-endian machine", "keys of at most 2^32 bytes", "the word-aligned path reads to the end of the last aligned word, as its comment says"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat, z3",
 "extraction: for the loop proofs the uses of the source's macros mix and final are arbitrary functions; 'mix' proves those macros to be the published ones"]
LEVEL_NOTE = "my_hashlittle, word-aligned path, proved for keys of every length in the quick tier; the other alignments and my_hashlittle2 likewise in the thorough tier (2-6 minutes each); every path by the oracle in both"
