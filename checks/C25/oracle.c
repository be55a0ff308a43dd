#include "vp_case.h"
#include "libmy/my_alloc.h"
#include "libmy/my_queue_mb.c"
struct my_queue *my_queue_mutex_init(unsigned, unsigned);	/* mutex.c */
void my_queue_mutex_destroy(struct my_queue **);
bool my_queue_mutex_insert(struct my_queue *, void *, unsigned *), my_queue_mutex_remove(struct my_queue *, void *, unsigned *);
void vp_case(void)
{
	unsigned n = vp_range(4) ? 1u << (1 + vp_range(5)) : vp_range(70), sz = vp_range(3) ? 1 + vp_range(12) : 1 + vp_range(200);
	struct my_queue *a = my_queue_mb_init(n, sz); struct my_queue *b = my_queue_mutex_init(n, sz);
	bool ok = n >= 2 && !(n & (n - 1));
	VP_CHECK(!!a == ok && !!b == ok, "sizes accepted: %u", n);
	if (!ok) { my_queue_mb_destroy(&a); my_queue_mutex_destroy(&b); return; }
	uint8_t *model = malloc((size_t)n * sz); unsigned first = 0, count = 0;	/* the sequence */
	vp_note("%u elements of %u: ", n, sz);
	unsigned ops = vp_range(120), burst = 0; bool ins = true;
	for (unsigned o = 0; o < ops; o++) {
		if (!burst--) { burst = vp_range(n + 2); ins = vp_range(2); }
		unsigned s1 = 7777, s2 = 7777; bool w1 = vp_range(5), w2 = vp_range(5);
		uint8_t *item = malloc(sz), *item2 = malloc(sz);
		if (ins) {
			for (unsigned i = 0; i < sz; i++) item2[i] = item[i] = vp_u8();
			bool r = my_queue_mb_insert(a, item, w1 ? &s1 : NULL), r2 = my_queue_mutex_insert(b, item2, w2 ? &s2 : NULL), want = count < n - 1;
			VP_CHECK(r == want && r2 == want, "insert: %d %d, want %d", r, r2, want);
			if (want) { memcpy(model + (size_t)((first + count) % n) * sz, item, sz); count++; }
			VP_CHECK((!w1 || s1 == n - 1 - count) && (!w2 || s2 == n - 1 - count), "space: %u %u, want %u", s1, s2, n - 1 - count);
		} else {
			memset(item, 0x5a, sz); memset(item2, 0x5a, sz);
			bool r = my_queue_mb_remove(a, item, w1 ? &s1 : NULL), r2 = my_queue_mutex_remove(b, item2, w2 ? &s2 : NULL), want = count > 0;
			VP_CHECK(r == want && r2 == want, "remove: %d %d, want %d", r, r2, want);
			if (want) { VP_CHECK(!memcmp(item, model + (size_t)first * sz, sz) && !memcmp(item2, item, sz), "element"); first = (first + 1) % n; count--; if (o > n) vp_nontrivial(); }
			VP_CHECK((!w1 || s1 == count) && (!w2 || s2 == count), "count: %u %u, want %u", s1, s2, count);
		}
		vp_note("%c", ins ? 'i' : 'r');
		free(item); free(item2);
	}
	free(model); my_queue_mb_destroy(&a); my_queue_mutex_destroy(&b);
	VP_CHECK(!a && !b, "destroy");
}
