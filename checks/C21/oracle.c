#include "vp_case.h"
#include "libmy/heap.h"
/* elements: pointers into K[]; the order looks only at .key, so that many distinct elements are equal */
struct el { uint32_t key; uint32_t in; };
static struct el K[3000]; static unsigned nk;
static unsigned long cmps;
static int cmp(const void *a, const void *b)
{
	uint32_t x = ((const struct el *)a)->key, y = ((const struct el *)b)->key; cmps++;
	int mag = 1 + (cmps % 3) * 7;	/* any negative, zero or positive number */
	return x < y ? -mag : x > y ? mag : 0;
}
static void checkmin(const char *what, struct el *r)
{
	VP_CHECK(r >= K && r < K + nk && r->in, "%s gave an element that is not in the heap", what);
	for (unsigned i = 0; i < nk; i++) VP_CHECK(!K[i].in || K[i].key >= r->key, "%s gave key %u although %u is in the heap", what, r->key, K[i].key);
}
void vp_case(void)
{
	struct heap *h = heap_init(cmp);
	unsigned ops = 1 + vp_range(80), size = 0, spread = 1 + vp_range(vp_range(2) ? 4 : 100000);
	bool valid = true; nk = 0; memset(K, 0, sizeof(K));
	for (unsigned o = 0; o < ops; o++) {
		unsigned what = vp_range(10); struct el *e = &K[nk];
		if (what < 2 || (!valid && what > 6)) { 	/* a batch of additions without order, then rebuilding */
			unsigned n = vp_range(24);
			for (unsigned i = 0; i < n && nk < 2900; i++) { e = &K[nk++]; e->key = vp_range(spread); e->in = 1; heap_add(h, e); size++; }
			heap_heapify(h); valid = true; vp_note("add %u ", n);
		} else if (what < 5) { e->key = vp_range(spread); e->in = 1; nk++; heap_push(h, e); size++; vp_note("push %u ", e->key); }
		else if (what < 7) {
			vp_note("pop ");
			struct el *p = heap_peek(h), *r = heap_pop(h);
			VP_CHECK(p == r, "peek and pop differ");
			if (!size) VP_CHECK(!r, "an element from an empty heap");
			else { checkmin("pop", r); r->in = 0; size--; if (size > 3) vp_nontrivial(); }
		} else if (what == 7) {
			e->key = vp_range(spread); nk++; vp_note("replace %u ", e->key);
			struct el *r = heap_replace(h, e);
			if (!size) { VP_CHECK(!r, "an element from an empty heap"); nk--; }
			else { checkmin("replace", r); r->in = 0; e->in = 1; }
		} else if (what == 8) { VP_CHECK((heap_peek(h) == NULL) == (size == 0), "peek"); if (size) checkmin("peek", heap_peek(h)); }
		else if (vp_range(6) == 0) { vp_note("reset "); heap_reset(h); size = 0; for (unsigned i = 0; i < nk; i++) K[i].in = 0; valid = true; }
		else if (vp_range(3) == 0) {
			unsigned n = vp_range(size + 2); vp_note("clip %u ", n);
			if (n < size) { for (unsigned i = n; i < size; i++) ((struct el *)heap_get(h, i))->in = 0; size = n; }
			heap_clip(h, n);
		}
		VP_CHECK(heap_size(h) == size, "size %zu, want %u", heap_size(h), size);
		VP_CHECK(heap_get(h, size) == NULL && heap_get(h, size + 5) == NULL, "an element beyond the end");
		unsigned cnt = 0;
		for (unsigned i = 0; i < nk; i++) K[i].in &= 1;
		for (unsigned i = 0; i < size; i++) { struct el *x = heap_get(h, i); VP_CHECK(x >= K && x < K + nk && x->in == 1, "element lost or repeated"); x->in = 2 | 1; cnt++; }
		for (unsigned i = 0; i < nk; i++) VP_CHECK(K[i].in != 1, "element lost");
	}
	unsigned last = 0;
	while (size) { struct el *r = heap_pop(h); VP_CHECK(r, "element lost"); checkmin("pop", r); VP_CHECK(r->key >= last, "order"); last = r->key; r->in = 0; size--; }
	VP_CHECK(!heap_pop(h) && !heap_size(h), "not empty");
	heap_destroy(&h); VP_CHECK(!h, "destroy leaves the pointer");
}
