/*
 * Growable arrays and byte buffers: each operation against the abstract
 * sequence, for any sizes and contents.  The type invariant (INV) is assumed
 * before and asserted after every operation; the sequence is compared at one
 * arbitrary position.
 */
#include "vp_proof.h"
#include <assert.h>
#include <stdlib.h>
#include <string.h>
#ifdef P_PTR
typedef void *T;
#else
typedef uint8_t T;
#endif
#define SAME(x, y) ((x) == (y))
#define MAXN 0x1000000
size_t vp_k;	/* an arbitrary position */
/*
 * realloc and memcpy as the C standard specifies them, supplied at the element
 * the assertions look at; every other element written becomes arbitrary
 */
static void *vp_realloc(void *o, size_t n)
{
	T *p = malloc(n); size_t m = __CPROVER_OBJECT_SIZE(o) / sizeof(T); if (m > n / sizeof(T)) m = n / sizeof(T);
	__CPROVER_assert(__CPROVER_POINTER_OFFSET(o) == 0, "precondition of realloc: the start of an allocation");
	if (vp_k < m) p[vp_k] = ((T *)o)[vp_k];
	return p;
}
static void *vp_memcpy(void *d, const void *s, size_t n)
{
	__CPROVER_assert(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "precondition of memcpy: both regions are accessible");
	__CPROVER_assert(n == 0 || !__CPROVER_same_object(s, d), "precondition of memcpy: different objects");
	size_t o = __CPROVER_POINTER_OFFSET(d) / sizeof(T);
	__CPROVER_assert(n % sizeof(T) == 0 && __CPROVER_POINTER_OFFSET(d) % sizeof(T) == 0, "whole elements");
	if (vp_k >= o && vp_k - o < n / sizeof(T)) ((T *)d)[vp_k - o] = ((const T *)s)[vp_k - o];
	return d;
}
#define realloc vp_realloc
#define memcpy vp_memcpy
#define strlen vp_strlen
size_t vp_len;	/* the length of the text given */
static size_t vp_strlen(const char *s) { return vp_len; }
#include "libmy/my_alloc.h"
#include "libmy/ubuf.h"
#if defined(P_PTR)
VECTOR_GENERATE(myvec, T)
#else
# define myvec ubuf
# define F(x) ubuf_##x
#endif
#ifndef F
# define F(x) myvec_##x
#endif
#define INV(u) ((u)->_n <= (u)->_n_alloced && (u)->_hint >= 1 && (u)->_n_alloced >= 1 && __CPROVER_OBJECT_SIZE((u)->_v) == (u)->_n_alloced * sizeof(T) \
	&& __CPROVER_POINTER_OFFSET((u)->_v) == 0 && __CPROVER_w_ok((u)->_v, (u)->_n_alloced * sizeof(T)) && (u)->_p == (u)->_v + (u)->_n)
static myvec *any(void)
{
	myvec *u = malloc(sizeof(*u)); size_t n, a, h;
	__CPROVER_assume(a >= 1 && n <= a && a <= MAXN && h >= 1 && h <= MAXN);
	u->_n = n; u->_n_alloced = a; u->_hint = h; u->_v = malloc(a * sizeof(T)); u->_p = u->_v + n;
	size_t k; vp_k = k;
	return u;
}
#define CHK(c, what) __CPROVER_assert(c, what)
#define DONE(u) CHK(INV(u), "type invariant kept"); VP_PROBE()
#define BEFORE myvec *u = any(); size_t n = u->_n; T x; if (vp_k < n) x = u->_v[vp_k]
#define KEPT(upto) CHK(IMP(vp_k < (upto), SAME(u->_v[vp_k], x)), "earlier elements unchanged")

void h_init(void)
{
	unsigned hint; __CPROVER_assume(hint <= MAXN);
	myvec *u = F(init)(hint);
	CHK(F(size)(u) == 0 && F(bytes)(u) == 0 && F(data)(u) == F(ptr)(u), "empty");
	CHK(INV(u), "type invariant established");
	F(destroy)(&u);
	myvec w; F(reinit)(hint, &w);
	CHK(INV(&w) && w._n == 0, "empty");
	VP_PROBE();
}
void h_reserve(void) { BEFORE; size_t m; __CPROVER_assume(m <= MAXN); F(reserve)(u, m); CHK(u->_n == n, "size unchanged"); CHK(u->_n_alloced - u->_n >= m, "room for what was asked"); KEPT(n); DONE(u); }
void h_add(void) { BEFORE; T e; F(add)(u, e); CHK(u->_n == n + 1, "one more"); KEPT(n); CHK(IMP(vp_k == n, SAME(u->_v[vp_k], e)), "the element added is last"); DONE(u); }
void h_append(void)
{
	BEFORE; size_t m; __CPROVER_assume(m <= MAXN); T *e = malloc(m * sizeof(T)); T y; if (vp_k >= n && vp_k - n < m) y = e[vp_k - n];
	F(append)(u, e, m);
	CHK(u->_n == n + m, "as many more"); KEPT(n); CHK(IMP(vp_k >= n && vp_k - n < m, SAME(u->_v[vp_k], y)), "the elements appended, in order"); DONE(u);
}
void h_extend(void)
{
	myvec *e = any(); BEFORE; size_t m = e->_n; T y; if (vp_k >= n && vp_k - n < m) y = e->_v[vp_k - n];
	F(extend)(u, e);
	CHK(u->_n == n + m, "as many more"); KEPT(n); CHK(IMP(vp_k >= n && vp_k - n < m, SAME(u->_v[vp_k], y)), "the elements appended, in order");
	CHK(e->_n == m && INV(e), "the other array unchanged"); DONE(u);
}
void h_reset(void) { BEFORE; F(reset)(u); CHK(u->_n == 0, "empty"); DONE(u); }
void h_clip(void) { BEFORE; size_t m; F(clip)(u, m); CHK(u->_n == (m < n ? m : n), "no longer than asked"); KEPT(u->_n); DONE(u); }
void h_access(void)
{
	BEFORE;
	CHK(F(size)(u) == n && F(bytes)(u) == n * sizeof(T) && F(data)(u) == u->_v && F(ptr)(u) == u->_v + n, "size, data, end");
	if (vp_k < n) { T y = F(value)(u, vp_k); CHK(SAME(y, x), "the element"); }
	size_t m; __CPROVER_assume(m <= u->_n_alloced - u->_n); T z; if (vp_k >= n && vp_k < n + m) z = u->_v[vp_k];
	F(advance)(u, m);
	CHK(u->_n == n + m, "as many more"); KEPT(n); CHK(IMP(vp_k >= n && vp_k < n + m, SAME(u->_v[vp_k], z)), "what was stored at the end"); DONE(u);
}
void h_detach(void)
{
	BEFORE; T *out; size_t m;
	F(detach)(u, &out, &m);
	CHK(m == n && IMP(vp_k < n, SAME(out[vp_k], x)), "exactly the contents");
	CHK(u->_n == 0 && out != u->_v, "empty, with storage of its own"); CHK(INV(u), "type invariant kept");
	free(out); F(destroy)(&u); VP_PROBE();
}
#if !defined(P_PTR)
#define TERM(u) ((u)->_n > 0 && (u)->_v[(u)->_n - 1] == 0)
/* (the last byte matters too: vp_k is made to be it, or any other) */
void h_cterm(void)
{
	BEFORE; bool last; if (last) { __CPROVER_assume(n > 0 && vp_k == n - 1); }
	bool was = TERM(u);
	char *s = ubuf_cstr(u);
	CHK(s == (char *)u->_v, "the data"); KEPT(n);
	CHK(u->_n == n + (was ? 0 : 1), "one byte added unless it ended so already");
	CHK(IMP(vp_k == u->_n - 1, u->_v[vp_k] == 0), "zero-terminated");
	DONE(u);
}
void h_cstr(void)
{
	BEFORE; size_t l; __CPROVER_assume(l <= MAXN); vp_len = l; uint8_t *s = malloc(l + 1);
	bool was = TERM(u); size_t m = was ? n - 1 : n; uint8_t y; if (vp_k >= m && vp_k - m < l) y = s[vp_k - m];
	ubuf_add_cstr(u, (char *)s);
	CHK(u->_n == m + l, "the text in place of a final zero byte"); KEPT(m); CHK(IMP(vp_k >= m && vp_k - m < l, u->_v[vp_k] == y), "the text"); DONE(u);
}
void h_dup(void)
{
	size_t l, k; __CPROVER_assume(l < MAXN); vp_len = l; vp_k = k; uint8_t *s = malloc(l + 1);
	ubuf *u = ubuf_dup_cstr((char *)s);
	CHK(u->_n == l && u->_n_alloced > l && IMP(vp_k < l, u->_v[vp_k] == s[vp_k]), "the text, and room for its end"); DONE(u);
}
void h_rstrip(void)
{
	BEFORE; char c; bool is = n > 0 && u->_v[n - 1] == (uint8_t)c;
	ubuf_rstrip(u, c);
	CHK(u->_n == n - (is ? 1 : 0), "the final byte removed if it is the one"); KEPT(u->_n); DONE(u);
}
#endif
