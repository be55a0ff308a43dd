/*
 * libmtbl's varint functions for the contract proofs: the documented contract of each
 * (precondition asserted, result and output bytes as specified; bytes not
 * determined by the contract are arbitrary).  Assumed contracts: libmtbl is a
 * dependency.  Property C01 proves the same contract for libmy/varint.c, from
 * which libmtbl's functions were taken.
 */
#ifndef VP_MTBL_VARINT_H
#define VP_MTBL_VARINT_H
#include "vp_proof.h"
#include <mtbl.h>
unsigned mtbl_varint_length(uint64_t v) { return vp_vlen(v); }
size_t mtbl_varint_encode64(uint8_t *b, uint64_t v)
{
	unsigned n = vp_vlen(v);
	__CPROVER_assert(__CPROVER_w_ok(b, n), "precondition of mtbl_varint_encode64: room for the encoding");
#define VP_E(i) if (i < n) b[i] = vp_vbyte(v, i);
	VP_E(0) VP_E(1) VP_E(2) VP_E(3) VP_E(4) VP_E(5) VP_E(6) VP_E(7) VP_E(8) VP_E(9)
	return n;
}
size_t mtbl_varint_encode32(uint8_t *b, uint32_t v)
{
	unsigned n = vp_vlen(v);
	__CPROVER_assert(__CPROVER_w_ok(b, n), "precondition of mtbl_varint_encode32: room for the encoding");
	VP_E(0) VP_E(1) VP_E(2) VP_E(3) VP_E(4)
	return n;
}
#if defined(VP_ABSTRACT) && !defined(VP_BOUNDED)
/*
 * Abstract view of a buffer's bytes: the length and value of the varint that
 * starts at each address are arbitrary functions of the address.  Every buffer
 * content induces such functions, so what is proved for all of them holds for
 * all contents.
 */
uint64_t __CPROVER_uninterpreted_vval(size_t obj, size_t off);
size_t __CPROVER_uninterpreted_vlen(size_t obj, size_t off);
#define vp_absval(p) __CPROVER_uninterpreted_vval(__CPROVER_POINTER_OBJECT(p), __CPROVER_POINTER_OFFSET(p))
#define vp_abslen0(p) __CPROVER_uninterpreted_vlen(__CPROVER_POINTER_OBJECT(p), __CPROVER_POINTER_OFFSET(p))
/* length of the varint at p if it ends within n bytes, else 0 */
static inline size_t vp_plen(const uint8_t *p, size_t n) { size_t l = vp_abslen0(p); return l >= 1 && l <= n ? l : 0; }
/* the same, 0 also if it is longer than the format's 10 bytes */
static inline unsigned vp_dlen(const uint8_t *p, size_t n) { size_t l = vp_plen(p, n); return l <= 10 ? l : 0; }
static inline uint64_t vp_dval(const uint8_t *p, unsigned n) { return vp_absval(p); }
unsigned mtbl_varint_length_packed(const uint8_t *b, size_t n)
{
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(b, n), "precondition of mtbl_varint_length_packed: the buffer is readable");
	return vp_plen(b, n);
}
#define VP_DEC(MAX, T) \
	size_t l = vp_abslen0(b); \
	T any; \
	__CPROVER_assert(__CPROVER_r_ok(b, l >= 1 && l <= MAX ? l : MAX), "precondition of mtbl_varint_decode: bytes readable up to the final one"); \
	if (l < 1 || l > MAX) { *v = any; return 0; } \
	*v = (T)vp_absval(b); \
	return l;
size_t mtbl_varint_decode64(const uint8_t *b, uint64_t *v) { VP_DEC(10, uint64_t) }
size_t mtbl_varint_decode32(const uint8_t *b, uint32_t *v) { VP_DEC(5, uint32_t) }
#else
/* position just after the first byte without continuation bit among the first min(n, 10); 0: none */
static inline unsigned vp_dlen(const uint8_t *p, size_t n)
{
	return n < 1 ? 0 : !(p[0] & 128) ? 1 : n < 2 ? 0 : !(p[1] & 128) ? 2 : n < 3 ? 0 : !(p[2] & 128) ? 3 : n < 4 ? 0 : !(p[3] & 128) ? 4 :
	       n < 5 ? 0 : !(p[4] & 128) ? 5 : n < 6 ? 0 : !(p[5] & 128) ? 6 : n < 7 ? 0 : !(p[6] & 128) ? 7 : n < 8 ? 0 : !(p[7] & 128) ? 8 :
	       n < 9 ? 0 : !(p[8] & 128) ? 9 : n < 10 ? 0 : !(p[9] & 128) ? 10 : 0;
}
#define VP_V(p, n, i) ((i) < (n) ? (uint64_t)((p)[i] & 0x7f) << (7 * (i)) : 0)
static inline uint64_t vp_dval(const uint8_t *p, unsigned n)
{
	return VP_V(p, n, 0) | VP_V(p, n, 1) | VP_V(p, n, 2) | VP_V(p, n, 3) | VP_V(p, n, 4) | VP_V(p, n, 5) | VP_V(p, n, 6) | VP_V(p, n, 7) | VP_V(p, n, 8) | VP_V(p, n, 9);
}
unsigned mtbl_varint_length_packed(const uint8_t *b, size_t n)
{
	unsigned r;
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(b, n), "precondition of mtbl_varint_length_packed: the buffer is readable");
	unsigned k = vp_dlen(b, n);
	__CPROVER_assume(k > 0 ? r == k : (r == 0 || (r > 10 && r <= n)));
	return r;
}
/* as the real ones, they may look at bytes up to the first final one, at most 10 (5) */
size_t mtbl_varint_decode64(const uint8_t *b, uint64_t *v)
{
	__CPROVER_assert(__CPROVER_r_ok(b, 1), "precondition of mtbl_varint_decode64: a readable byte");
	unsigned n = vp_dlen(b, 10);	/* reads stop at the first final byte; checked by the dereferences */
	uint64_t any;
	*v = n ? vp_dval(b, n) : any;
	return n;
}
size_t mtbl_varint_decode32(const uint8_t *b, uint32_t *v)
{
	__CPROVER_assert(__CPROVER_r_ok(b, 1), "precondition of mtbl_varint_decode32: a readable byte");
	unsigned n = vp_dlen(b, 5);
	uint32_t any;
	*v = n ? (uint32_t)vp_dval(b, n) : any;
	return n;
}
#endif
#endif
