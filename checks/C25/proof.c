/*
 * The ring queue against a sequence: element i of the queue is ring slot
 * (tail + i) mod size, for i < count = (head - tail) mod size.  The sequence is
 * compared at one arbitrary element and byte.
 */
#include "vp_proof.h"
#include <assert.h>
#include <stdlib.h>
#include <string.h>
#ifdef P_MUTEX
# include <pthread.h>
static int vp_held;
static int vp_lock(void *m) { __CPROVER_assert(vp_held == 0, "not locked twice"); vp_held++; return 0; }
static int vp_unlock(void *m) { __CPROVER_assert(vp_held == 1, "locked"); vp_held--; return 0; }
static int vp_zero(void) { return 0; }
# define pthread_mutex_lock(m) vp_lock(m)
# define pthread_mutex_unlock(m) vp_unlock(m)
# define pthread_mutex_init(m, a) vp_zero()
# define pthread_mutex_destroy(m) vp_zero()
# define F(x) my_queue_mutex_##x
#else
# define F(x) my_queue_mb_##x
#endif
size_t vp_off;	/* an arbitrary byte of the ring's data, or of the item */
static void *vp_memcpy(void *d, const void *s, size_t n);
#define memcpy vp_memcpy
#ifdef P_ANYSIZE	/* the product of a slot number and the element size, of which only monotonicity is used */
size_t __CPROVER_uninterpreted_mul(size_t a, size_t b);
# define VP_MUL(a, b) __CPROVER_uninterpreted_mul(a, b)
# define MAXS (1u << 19)
# include "queue_mul.c"
#elif defined(P_MUTEX)
# include "libmy/my_queue_mutex.c"
#else
# include "libmy/my_queue_mb.c"
#endif
#ifndef MAXS
# define VP_MUL(a, b) ((size_t)(a) * (b))
# define MAXS 16
#endif
static struct my_queue *vp_q; unsigned vp_head, vp_tail, vp_copies; size_t vp_b;
/* the element's bytes are copied whole while the slot is still out of the other side's reach: before head or tail moves past it (and under the lock) */
static void *vp_memcpy(void *d, const void *s, size_t n)
{
	__CPROVER_assert(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "precondition of memcpy: both regions are accessible");
	__CPROVER_assert(vp_q->head == vp_head && vp_q->tail == vp_tail, "the element is copied before the ring index moves");
#ifdef P_MUTEX
	__CPROVER_assert(vp_held == 1, "copied under the lock");
#endif
	vp_copies++;
	if (d == (void *)(vp_q->data + __CPROVER_POINTER_OFFSET(d)) || __CPROVER_same_object(d, vp_q->data)) {
		size_t o = __CPROVER_POINTER_OFFSET(d);
		if (vp_off >= o && vp_off - o < n) ((uint8_t *)d)[vp_off - o] = ((const uint8_t *)s)[vp_off - o];
	} else if (vp_b < n) ((uint8_t *)d)[vp_b] = ((const uint8_t *)s)[vp_b];
	return d;
}
#define POW2(n) ((n) >= 2 && ((n) & ((n) - 1)) == 0)
#define MASK(q) ((q)->num_elems - 1)
/* multiplication by the element size is monotone and does not overflow (factors at most 2^31 and 2^19) */
#define MONO(a, b, s) __CPROVER_assume(IMP((size_t)(a) < (size_t)(b), VP_MUL(a, s) + (s) <= VP_MUL(b, s)) && VP_MUL(a, s) <= 1ull << 50 && VP_MUL(b, s) <= 1ull << 50)
static struct my_queue *any(void)
{
	struct my_queue *q = malloc(sizeof(*q)); unsigned n, s, h, t;
	__CPROVER_assume(POW2(n) && n <= 1u << 31 && s >= 1 && s <= MAXS && h < n && t < n);
	q->num_elems = n; q->sizeof_elem = s; q->head = h; q->tail = t;
	MONO(0, n, s);
	q->data = malloc(VP_MUL(n, s));
	vp_q = q; vp_head = h; vp_tail = t; vp_copies = 0;
	return q;
}
void h_init(void)
{
	unsigned n, s; __CPROVER_assume(s >= 1 && s <= 1u << 20);
	struct my_queue *q = F(init)(n, s);
	__CPROVER_assert((q != NULL) == POW2(n), "sizes that are powers of two, at least 2");
	if (q) {
		__CPROVER_assert(q->num_elems == n && q->sizeof_elem == s && q->head == 0 && q->tail == 0, "empty queue");
		__CPROVER_assert(__CPROVER_OBJECT_SIZE(q->data) == (size_t)n * s, "room for every element");
		F(destroy)(&q); __CPROVER_assert(!q, "gone");
	}
	VP_PROBE();
}
void h_insert(void)
{
	struct my_queue *q = any(); unsigned i, want = 0; size_t b; bool haves; unsigned sp, head = q->head, s = q->sizeof_elem, n = q->num_elems, t = q->tail;
	unsigned count = (head - t) & (n - 1);
	__CPROVER_assume(b < s && i <= count && i < n);
	unsigned slot = (t + i) & (n - 1);
	MONO(slot, n, s); MONO(slot, head, s); MONO(head, slot, s); MONO(head, n, s);
	vp_off = VP_MUL(slot, s) + b; vp_b = b;
	uint8_t *item = malloc(s), old = q->data[vp_off];
	bool r = F(insert)(q, item, haves ? &sp : NULL);
	unsigned free_ = n - 1 - count;
	__CPROVER_assert(r == (free_ > 0), "refused only when all usable slots are taken");
	__CPROVER_assert(!haves || sp == (r ? free_ - 1 : 0), "space left");
	__CPROVER_assert(q->tail == t && q->num_elems == n && q->sizeof_elem == s, "the consumer's side is not touched");
	__CPROVER_assert(q->head == (r ? (head + 1) & (n - 1) : head) && vp_copies == (r ? 1 : 0), "one element more");
	__CPROVER_assert(((q->head - q->tail) & (n - 1)) == count + (r ? 1 : 0), "one element more");
	if (i < count) __CPROVER_assert(q->data[vp_off] == old, "the elements in the queue stay");
	else if (r) __CPROVER_assert(q->data[vp_off] == item[b], "the new element is last");
#ifdef P_MUTEX
	__CPROVER_assert(vp_held == 0, "unlocked");
#endif
	VP_PROBE();
}
void h_remove(void)
{
	struct my_queue *q = any(); size_t b; bool havec; unsigned c, head = q->head, s = q->sizeof_elem, n = q->num_elems, t = q->tail;
	unsigned count = (head - t) & (n - 1);
	__CPROVER_assume(b < s);
	MONO(t, n, s); vp_off = VP_MUL(t, s) + b; vp_b = b;
	uint8_t *item = malloc(s), was = item[b], old = q->data[vp_off];
	bool r = F(remove)(q, item, havec ? &c : NULL);
	__CPROVER_assert(r == (count > 0), "refused only when empty");
	__CPROVER_assert(!havec || c == (r ? count - 1 : 0), "elements left");
	__CPROVER_assert(q->head == head && q->num_elems == n && q->sizeof_elem == s && q->data[vp_off] == old, "the producer's side is not touched");
	__CPROVER_assert(q->tail == (r ? (t + 1) & (n - 1) : t) && vp_copies == (r ? 1 : 0), "one element less");
	__CPROVER_assert(item[b] == (r ? old : was), "the first element");
#ifdef P_MUTEX
	__CPROVER_assert(vp_held == 0, "unlocked");
#endif
	VP_PROBE();
}
