/*
 * The growable byte buffer as its contract describes it (the contract itself is
 * proved on libmy/ubuf.h and libmy/vector.h by C22), over a fixed store: a
 * bounded proof that includes this instead asserts that the store suffices.
 */
#ifndef MY_UBUF_H
#define MY_UBUF_H
#include <assert.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "libmy/my_alloc.h"
#ifndef VP_UBUF_CAP
#define VP_UBUF_CAP 32
#endif
typedef struct ubuf { size_t _n; uint8_t _v[VP_UBUF_CAP]; } ubuf;
static ubuf vp_ubufs[4]; static unsigned vp_nubufs;
static inline ubuf *ubuf_init(unsigned hint) { __CPROVER_assert(vp_nubufs < 4, "model: few buffers"); ubuf *u = &vp_ubufs[vp_nubufs++]; u->_n = 0; return u; }
static inline ubuf *ubuf_new(void) { return ubuf_init(64); }
static inline void ubuf_destroy(ubuf **u) { }
static inline size_t ubuf_size(ubuf *u) { return u->_n; }
static inline size_t ubuf_bytes(ubuf *u) { return u->_n; }
static inline uint8_t *ubuf_data(ubuf *u) { return u->_v; }
static inline uint8_t *ubuf_ptr(ubuf *u) { return u->_v + u->_n; }
static inline uint8_t ubuf_value(ubuf *u, size_t i) { __CPROVER_assert(i < u->_n, "ubuf index"); return u->_v[i]; }
static inline void ubuf_reserve(ubuf *u, size_t n) { __CPROVER_assert(n <= VP_UBUF_CAP && u->_n + n <= VP_UBUF_CAP, "model: store suffices"); }
static inline void ubuf_append(ubuf *u, const uint8_t *p, size_t n)
{
	ubuf_reserve(u, n);
	for (size_t i = 0; i < n; i++) u->_v[u->_n + i] = p[i];
	u->_n += n;
}
static inline void ubuf_add(ubuf *u, uint8_t c) { ubuf_append(u, &c, 1); }
static inline void ubuf_extend(ubuf *a, ubuf *b) { ubuf_append(a, b->_v, b->_n); }
static inline void ubuf_reset(ubuf *u) { u->_n = 0; }
static inline void ubuf_clip(ubuf *u, size_t n) { if (n < u->_n) u->_n = n; }
static inline void ubuf_advance(ubuf *u, size_t n) { ubuf_reserve(u, n); u->_n += n; }
static inline ubuf *ubuf_dup_cstr(const char *s) { ubuf *u = ubuf_new(); ubuf_append(u, (const uint8_t *)s, strlen(s)); return u; }
static inline void ubuf_add_cstr(ubuf *u, const char *s) { if (u->_n && !u->_v[u->_n - 1]) u->_n--; ubuf_append(u, (const uint8_t *)s, strlen(s)); }
static inline void ubuf_cterm(ubuf *u) { if (!u->_n || u->_v[u->_n - 1]) { ubuf_append(u, (const uint8_t *)"\0", 1); } }
static inline void ubuf_detach(ubuf *u, uint8_t **p, size_t *n)
{
	*p = malloc(VP_UBUF_CAP); __CPROVER_assume(*p);
	for (size_t i = 0; i < u->_n; i++) (*p)[i] = u->_v[i];
	*n = u->_n; u->_n = 0;
}
#define ubuf_append_cstr_lit(u, s) ubuf_append(u, (const uint8_t*) s, sizeof(s) - 1)
#define ubuf_append_cstr(u, s, l) ubuf_append(u, (const uint8_t*) s, l)
#endif
