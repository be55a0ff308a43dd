/*
 * The heap, for any number of elements and any order.
 *
 * Order: elements are named so that the upper half of the name is the element's
 * rank in the total preorder and the lower half tells equal elements apart; the
 * code looks at elements only through the comparison function, so this names
 * every preorder on at most 2^28 elements.
 * The heap invariant is "for every slot c > 0, rank(v[c]) >= rank(v[(c-1)/2])";
 * contracts and loop invariants state it for one arbitrary slot vp_k, and the
 * attachment points in the loop bodies supply its instance at the slots the
 * iteration touches (the invariant being established for an arbitrary slot, it
 * holds at every slot).  "Nothing is lost": vp_w0 and vp_w1 follow the slots of
 * two arbitrary distinct elements; each move is an exchange with the hole.
 */
#include "vp_proof.h"
#include <assert.h>
#include <stdlib.h>
size_t vp_k, vp_w0, vp_w1; bool vp_in0, vp_in1;	/* (below) */
#ifdef P_GROW
/* the C library's realloc: a block of n bytes that starts with the old block's contents (supplied for the slots the proof looks at) */
static void *vp_realloc(void *o, size_t n)
{
	void **p = malloc(n); size_t m = __CPROVER_OBJECT_SIZE(o) / sizeof(void *); if (m > n / sizeof(void *)) m = n / sizeof(void *);
	if (vp_k < m) p[vp_k] = ((void **)o)[vp_k];
	if (vp_k > 0 && (vp_k - 1) / 2 < m) p[(vp_k - 1) / 2] = ((void **)o)[(vp_k - 1) / 2];
	if (vp_w0 < m) p[vp_w0] = ((void **)o)[vp_w0];
	if (vp_w1 < m) p[vp_w1] = ((void **)o)[vp_w1];
	return p;
}
#define realloc vp_realloc
#endif
#include "libmy/my_alloc.h"
#include "libmy/heap.h"
#ifdef VP_BOUNDED
# define MAXN 6
#else
# define MAXN 0x10000000
#endif
#define R(p) ((uint64_t)(p) >> 32)
/* vp_in0, vp_in1: whether there is an element to follow */
void *vp_x0, *vp_x1;	/* the elements that vp_w0, vp_w1 follow */
#define V(i) (h->vec->_v[i])
#define N (h->vec->_n)
#define PAR(c) (((c) - 1) >> 1)
/* rank order at slot c, whose parent is at or after slot s */
#define EDGE(c, s) (!((c) > 0 && (c) < N && PAR(c) >= (s)) || R(V(c)) >= R(V(PAR(c))))
#define LG(x) (63 - __builtin_clzl(x))
#define DESC(p, s) ((p) >= (s) && ((p) + 1) >> (LG((p) + 1) - LG((s) + 1)) == (s) + 1)
/* both followed elements are where they are said to be, hole excepted */
#define AT(in, w, x, hole, item) (((w) < N) == (in) && (!(in) || ((w) == (hole) ? (x) == (item) : (x) == V(w))))
#define FOLLOW(hole, item) (vp_w0 != vp_w1 && AT(vp_in0, vp_w0, vp_x0, hole, item) && AT(vp_in1, vp_w1, vp_x1, hole, item))
#define FOLLOWED (vp_w0 != vp_w1 && (vp_w0 < N) == vp_in0 && (vp_w1 < N) == vp_in1 && (!vp_in0 || vp_x0 == V(vp_w0)) && (!vp_in1 || vp_x1 == V(vp_w1)))
#define MOVE(from, to) { if (vp_w0 == (from)) vp_w0 = (to); else if (vp_w0 == (to)) vp_w0 = (from); if (vp_w1 == (from)) vp_w1 = (to); else if (vp_w1 == (to)) vp_w1 = (from); }
#define FREE(c, hole) ((c) == (hole) || ((c) > 0 && PAR(c) == (hole)))

/* (the two halves of each contract can be proved apart) */
#ifdef P_ORDER
# undef FOLLOW
# undef FOLLOWED
# undef MOVE
# define FOLLOW(hole, item) 1
# define FOLLOWED 1
# define MOVE(from, to)
#endif
#ifdef P_KEEP
# undef EDGE
# define EDGE(c, s) 1
# define DOWN_INV(c) 1
# define UP_INV(c) 1
#else
#define DOWN_INV(c) ( \
	(FREE(c, pos) || EDGE(c, startpos)) && \
	(!((c) > 0 && (c) < N && PAR(c) == pos) || (R(V(c)) >= R(newitem) && (pos <= startpos || R(V(c)) >= R(V(PAR(pos)))))))
#define UP_INV(c) ( \
	(FREE(c, pos) || EDGE(c, startpos)) && \
	(!((c) > 0 && (c) < N && PAR(c) == pos) || pos <= startpos || R(V(c)) >= R(V(PAR(pos)))))
#endif
#define VPL_siftdown \
	__CPROVER_assigns(pos, vp_w0, vp_w1, __CPROVER_object_whole(h->vec->_v)) \
	__CPROVER_loop_invariant(pos < N && DESC(pos, startpos) && DOWN_INV(vp_k) && FOLLOW(pos, newitem)) \
	__CPROVER_decreases(pos)
#define VPG_siftdown_step __CPROVER_assume(DOWN_INV(parentpos));
#define VPG_siftdown_move MOVE(parentpos, pos)
#define VPL_siftup \
	__CPROVER_assigns(pos, childpos, vp_w0, vp_w1, __CPROVER_object_whole(h->vec->_v)) \
	__CPROVER_loop_invariant(pos < N && childpos == 2 * pos + 1 && DESC(pos, startpos) && UP_INV(vp_k) && FOLLOW(pos, newitem)) \
	__CPROVER_decreases(N - pos)
#define VPG_siftup_step __CPROVER_assume(UP_INV(childpos) && UP_INV(rightpos));
#define VPG_siftup_move MOVE(childpos, pos)
#define VPL_heap_heapify \
	__CPROVER_assigns(i, vp_w0, vp_w1, __CPROVER_object_whole(h->vec->_v)) \
	__CPROVER_loop_invariant(i <= N / 2 && EDGE(vp_k, i) && FOLLOWED) \
	__CPROVER_decreases(i)
#include "vp_loops.h"
#include "libmy/heap.c"
static int vp_cmp(const void *a, const void *b) { int mag; __CPROVER_assume(mag > 0); return R(a) < R(b) ? -mag : R(a) > R(b) ? mag : 0; }

#define HEAP (FRESH(h, sizeof(*h)) && FRESH(h->vec, sizeof(*h->vec)) && N <= MAXN && N <= h->vec->_n_alloced && h->vec->_n_alloced >= 1 && h->vec->_n_alloced <= 2 * MAXN \
	&& FRESH(h->vec->_v, h->vec->_n_alloced * sizeof(void *)) && h->vec->_p == h->vec->_v + N)
#ifndef P_VEC
# define CMPREQ
#endif
#ifndef P_CMP
static inline int cmp_wrapper(heap_compare_func cmp, const void *a, const void *b) ENS(RET == (R(a) < R(b) ? 1 : 0)) ASG();
#endif
#define MODS ASG(vp_w0, vp_w1, __CPROVER_object_whole(h->vec->_v))
static int siftdown(struct heap *h, size_t startpos, size_t pos)
	REQ(HEAP && pos < N && DESC(pos, startpos) && 2 * pos + 1 >= N)
	REQ(vp_k == pos || EDGE(vp_k, startpos)) REQ(FOLLOWED)
	ENS(RET == 0) ENS(EDGE(vp_k, startpos)) ENS(FOLLOWED) MODS;
static int siftup(struct heap *h, size_t pos)
	REQ(HEAP && pos < N) REQ(EDGE(vp_k, pos + 1)) REQ(FOLLOWED)
	ENS(RET == 0) ENS(EDGE(vp_k, pos)) ENS(FOLLOWED) MODS;
void heap_heapify(struct heap *h) REQ(HEAP) REQ(FOLLOWED) ENS(EDGE(vp_k, 0)) ENS(FOLLOWED) MODS;

static void any(void) { size_t k, w0, w1; void *x0, *x1; vp_k = k; vp_w0 = w0; vp_w1 = w1; vp_x0 = x0; vp_x1 = x1; bool i0, i1; vp_in0 = i0; vp_in1 = i1; }
void h_siftdown(void) { struct heap *h; size_t s, p; any(); siftdown(h, s, p); VP_PROBE(); }
void h_siftup(void) { struct heap *h; size_t p; any(); siftup(h, p); VP_PROBE(); }
void h_heapify(void) { struct heap *h; any(); heap_heapify(h); VP_PROBE(); }
void h_cmp(void) { void *a, *b; __CPROVER_assert(cmp_wrapper(vp_cmp, a, b) == (R(a) < R(b) ? 1 : 0), "less than"); VP_PROBE(); }

/* the operations, over siftdown's and siftup's contracts */
static struct heap *heap(void)
{
	struct heap *h = malloc(sizeof(*h)); h->vec = malloc(sizeof(*h->vec));
	size_t n, a, hint; __CPROVER_assume(n <= MAXN && a >= 1 && a <= 2 * MAXN && n <= a && hint >= 1);
	h->vec->_hint = hint; h->vec->_n = n; h->vec->_n_alloced = a; h->vec->_v = malloc(a * sizeof(void *)); h->vec->_p = h->vec->_v + n;
	any();
	return h;
}
void h_push(void)
{
	struct heap *h = heap(); void *item;
	__CPROVER_assume(N < MAXN && EDGE(vp_k, 0) && vp_w0 != vp_w1);
	size_t n = N;
	vp_in0 = vp_w0 <= n; vp_x0 = vp_w0 < n ? V(vp_w0) : item; vp_in1 = vp_w1 <= n; vp_x1 = vp_w1 < n ? V(vp_w1) : item;
	heap_push(h, item);
	__CPROVER_assert(N == n + 1, "one more element");
	__CPROVER_assert(EDGE(vp_k, 0), "ordered");
	__CPROVER_assert(FOLLOWED, "the elements there were and the new one");
	VP_PROBE();
}
void h_add(void)
{
	struct heap *h = heap(); void *item; __CPROVER_assume(N < MAXN); size_t n = N;
	void *x = vp_k < n ? V(vp_k) : item;
	heap_add(h, item);
	__CPROVER_assert(N == n + 1 && IMP(vp_k <= n, V(vp_k) == x), "the elements there were and the new one");
	VP_PROBE();
}
void h_pop(void)
{
	struct heap *h = heap(); size_t n = N;
	__CPROVER_assume(EDGE(vp_k, 0) && vp_w0 != vp_w1);
	__CPROVER_assume(N < 1 || (EDGE(1, 0) && EDGE(2, 0)));
	/* two arbitrary slots other than the first */
	__CPROVER_assume(vp_w0 > 0 && vp_w1 > 0);
	vp_in0 = vp_w0 < n; vp_in1 = vp_w1 < n;
	if (vp_in0) { vp_x0 = V(vp_w0); if (vp_w0 == n - 1) vp_w0 = 0; }
	if (vp_in1) { vp_x1 = V(vp_w1); if (vp_w1 == n - 1) vp_w1 = 0; }
	void *top = n ? V(0) : NULL;
	__CPROVER_assert(heap_peek(h) == top, "the element on top, or none");
	void *r = heap_pop(h);
	__CPROVER_assert(r == top, "the element on top, or none");
	__CPROVER_assert(N == (n ? n - 1 : 0), "one less");
	__CPROVER_assert(EDGE(vp_k, 0), "ordered");
	__CPROVER_assert(FOLLOWED, "every other element stays");
	VP_PROBE();
}
void h_heap_replace(void)
{
	struct heap *h = heap(); size_t n = N; void *item;
	__CPROVER_assume(EDGE(vp_k, 0) && vp_w0 != vp_w1);
	vp_in0 = vp_w0 < n; vp_in1 = vp_w1 < n;
	if (vp_in0) vp_x0 = vp_w0 ? V(vp_w0) : item;
	if (vp_in1) vp_x1 = vp_w1 ? V(vp_w1) : item;
	void *top = n ? V(0) : NULL, *r = heap_replace(h, item);
	__CPROVER_assert(r == top && N == n, "the element on top, or none");
	__CPROVER_assert(EDGE(vp_k, 0), "ordered");
	__CPROVER_assert(FOLLOWED, "the new element and every other");
	VP_PROBE();
}
void h_get(void)
{
	struct heap *h = heap(); size_t n = N, m; void *x = vp_k < n ? V(vp_k) : NULL;
	__CPROVER_assert(heap_get(h, vp_k) == x && heap_size(h) == n, "the element in the slot, or none");
	heap_clip(h, m);
	__CPROVER_assert(N == (m < n ? m : n) && IMP(vp_k < N, V(vp_k) == x), "the first slots stay");
	heap_reset(h);
	__CPROVER_assert(heap_size(h) == 0 && !heap_peek(h) && !heap_pop(h) && !heap_replace(h, x) && !heap_get(h, vp_k), "nothing left");
	VP_PROBE();
}
/* the order at every slot makes the top least: by the chain of parents of any slot */
void h_top(void)
{
	struct heap *h = heap(); size_t c = vp_k; __CPROVER_assume(c < N);
	while (c > 0)
		__CPROVER_assigns(c) __CPROVER_loop_invariant(c < N && R(V(vp_k)) >= R(V(c))) __CPROVER_decreases(c)
	{
		__CPROVER_assume(EDGE(c, 0));
		c = PAR(c);
	}
	__CPROVER_assert(R(V(vp_k)) >= R(V(0)), "no element is less than the one on top");
	VP_PROBE();
}
