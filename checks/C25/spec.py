def mul(impl):
    def gen(repo):
        """the implementation with the products (size_t) x * q->sizeof_elem made calls VP_MUL(x, q->sizeof_elem); cut to 32 bits where the cast is absent"""
        import re
        t = open(repo + "/libmy/my_queue_%s.c" % impl).read()
        t, n = re.subn(r"(\(size_t\)\s*)?\b(\w+)\s*\*\s*q->sizeof_elem", lambda m: "%sVP_MUL(%s, q->sizeof_elem)" % ("" if m.group(1) else "(unsigned) ", m.group(2)), t)
        assert n == 2, "element addresses"
        return {"queue_mul.c": t}
    return gen
PROOFS = []
for x, d in (("mb", []), ("mutex", ["P_MUTEX"])):
    fn = lambda *a: ["my_queue_%s_%s" % (x, f) for f in a]
    C = ["--sat-solver", "cadical"]
    PROOFS += [
     dict(name="init_" + x, src="proof.c", harness="h_init", functions=fn("init", "destroy"), defs=d, cbmc_flags=C),
     dict(name="insert_" + x, src="proof.c", harness="h_insert", functions=fn("insert"), defs=d + ["P_ANYSIZE"], gen=mul(x), cbmc_flags=C),
     dict(name="remove_" + x, src="proof.c", harness="h_remove", functions=fn("remove"), defs=d + ["P_ANYSIZE"], gen=mul(x), cbmc_flags=C),
     dict(name="insert16_" + x, src="proof.c", harness="h_insert", functions=fn("insert"), defs=d, cbmc_flags=C, thorough_only=True, bounded="elements of at most 16 bytes, any number of them"),
     dict(name="remove16_" + x, src="proof.c", harness="h_remove", functions=fn("remove"), defs=d, cbmc_flags=C, thorough_only=True, bounded="elements of at most 16 bytes, any number of them"),
    ]
ORACLES = [dict(src=["oracle.c", "mutex.c"], secs=3, maxlen=600)]
ASSUMPTIONS = ["one producer and one consumer; interleaving at the granularity of one call, and for the barrier version additionally that an element is copied before the index that publishes it moves", "queue data below 2^50 bytes"]
TRUSTED = ["CBMC 6.11 C semantics, CaDiCaL", "multiplication is monotone (instances assumed for the products of slot numbers and the element size)",
 "the C library's memcpy (modelled at an arbitrary byte); pthread mutexes; the memory barriers order the accesses"]
LEVEL_NOTE = "insert, remove and init of both implementations proved against the sequence for any number and size of elements; histories by induction over the operations"
