PROOFS = [
 dict(name="cmp", src="proof.c", harness="h_cmp", functions=["cmp_wrapper"], defs=["P_CMP"]),
 dict(name="siftdown_order", src="proof.c", harness="h_siftdown", enforce="siftdown", replace=["cmp_wrapper"], defs=["P_ORDER"], loops=True, fallback=dict(unwind=5)),
 dict(name="siftdown_keep", src="proof.c", harness="h_siftdown", enforce="siftdown", replace=["cmp_wrapper"], defs=["P_KEEP"], loops=True, fallback=dict(unwind=5)),
 dict(name="siftup_order", src="proof.c", harness="h_siftup", enforce="siftup", replace=["siftdown", "cmp_wrapper"], defs=["P_ORDER"], loops=True, fallback=dict(unwind=5)),
 dict(name="siftup_keep", src="proof.c", harness="h_siftup", enforce="siftup", replace=["siftdown", "cmp_wrapper"], defs=["P_KEEP"], loops=True, fallback=dict(unwind=5)),
 dict(name="heapify", src="proof.c", harness="h_heapify", enforce="heap_heapify", replace=["siftup"], loops=True, fallback=dict(unwind=5)),
 dict(name="push", src="proof.c", harness="h_push", functions=["heap_push", "ptrvec_add"], replace=["siftdown"], unwind=3, defs=["P_GROW"]),
 dict(name="add", src="proof.c", harness="h_add", functions=["heap_add", "ptrvec_add"], unwind=3, defs=["P_GROW"]),
 dict(name="pop", src="proof.c", harness="h_pop", functions=["heap_pop", "heap_peek"], replace=["siftup"]),
 dict(name="replace", src="proof.c", harness="h_heap_replace", functions=["heap_replace"], replace=["siftup"]),
 dict(name="get", src="proof.c", harness="h_get", functions=["heap_get", "heap_size", "heap_clip", "heap_reset"], replace=["siftup"]),
 dict(name="top", src="proof.c", harness="h_top", functions=[], loops=True),
]
ORACLES = [dict(src=["oracle.c", "{REPO}/libmy/heap.c"], secs=4, maxlen=600)]
ASSUMPTIONS = ["allocation succeeds (the code asserts it)", "at most 2^28 elements", "the comparison function is a total preorder that does not change while elements are in the heap", "heap_heapify is called after heap_add before any other operation (heap.h)"]
TRUSTED = ["CBMC 6.11 C semantics, goto-instrument --dfcc contract instrumentation, MiniSat",
 "instantiation: a loop invariant proved for one arbitrary slot is assumed, in the loop body, at the slots the iteration touches; two arbitrary elements staying in distinct slots means none is lost (pigeonhole)",
 "the C library's realloc (modelled: contents kept)"]
LEVEL_NOTE = "every heap function proved for any number of elements and any preorder; histories by induction over the operations; oracle runs whole histories"
