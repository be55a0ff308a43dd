/*
 * lookup3.  The published hash of n bytes: (a, b, c) start at 0xdeadbeef + n +
 * seed; while more than twelve bytes remain, the next twelve are added as three
 * little-endian words and mixed; the last one to twelve bytes, zero-padded, are
 * added and finally mixed.  A(p), B(p), C(p) is the state at the block that
 * starts at byte p, supplied one block at a time where a loop has arrived.
 */
#include "vp_proof.h"
#include <stdlib.h>
#ifdef VP_BOUNDED
# define MAXN 26
#else
# define MAXN 0x100000000ull
#endif
extern uint32_t vp_A[__CPROVER_constant_infinity_uint], vp_B[__CPROVER_constant_infinity_uint], vp_C[__CPROVER_constant_infinity_uint];
const uint8_t *vp_key; size_t vp_len, vp_q;	/* the key, its length, and the start of the block reached */
#define ROT(x, k) ((x) << (k) | (x) >> (32 - (k)))
#define MIX(a, b, c) { a -= c; a ^= ROT(c, 4); c += b; b -= a; b ^= ROT(a, 6); a += c; c -= b; c ^= ROT(b, 8); b += a; a -= c; a ^= ROT(c, 16); c += b; b -= a; b ^= ROT(a, 19); a += c; c -= b; c ^= ROT(b, 4); b += a; }
#define FINAL(a, b, c) { c ^= b; c -= ROT(b, 14); a ^= c; a -= ROT(c, 11); b ^= a; b -= ROT(a, 25); c ^= b; c -= ROT(b, 16); a ^= c; a -= ROT(c, 4); b ^= a; b -= ROT(a, 14); c ^= b; c -= ROT(b, 24); }
#define LE32(p) ((uint32_t)(p)[0] | (uint32_t)(p)[1] << 8 | (uint32_t)(p)[2] << 16 | (uint32_t)(p)[3] << 24)
#ifdef P_NOMIX	/* mixing as arbitrary functions: h_mix shows that the source's mix and final are the published ones */
uint32_t __CPROVER_uninterpreted_m(uint8_t i, uint32_t a, uint32_t b, uint32_t c), __CPROVER_uninterpreted_f(uint8_t i, uint32_t a, uint32_t b, uint32_t c);
# undef MIX
# undef FINAL
# define MIX(a, b, c) { uint32_t vp_x = __CPROVER_uninterpreted_m(0, a, b, c), vp_y = __CPROVER_uninterpreted_m(1, a, b, c), vp_z = __CPROVER_uninterpreted_m(2, a, b, c); a = vp_x; b = vp_y; c = vp_z; }
# define FINAL(a, b, c) { uint32_t vp_x = __CPROVER_uninterpreted_f(0, a, b, c), vp_y = __CPROVER_uninterpreted_f(1, a, b, c), vp_z = __CPROVER_uninterpreted_f(2, a, b, c); a = vp_x; b = vp_y; c = vp_z; }
#endif
#define BLOCK { uint32_t vp_a = vp_A[vp_q] + LE32(vp_key + vp_q), vp_b = vp_B[vp_q] + LE32(vp_key + vp_q + 4), vp_c = vp_C[vp_q] + LE32(vp_key + vp_q + 8); \
	MIX(vp_a, vp_b, vp_c) vp_q += 12; __CPROVER_assume(vp_A[vp_q] == vp_a && vp_B[vp_q] == vp_b && vp_C[vp_q] == vp_c); }
#define LOOP __CPROVER_assigns(a, b, c, length, k, vp_q) \
	__CPROVER_loop_invariant(vp_q <= vp_len && (vp_q & 3) == 0 && length == vp_len - vp_q && (vp_len == 0 || length > 0) && a == vp_A[vp_q] && b == vp_B[vp_q] && c == vp_C[vp_q] \
		&& __CPROVER_same_object(k, vp_key) && __CPROVER_POINTER_OFFSET(k) == __CPROVER_POINTER_OFFSET(vp_key) + vp_q) \
	__CPROVER_decreases(length)
#define VPL_my_hashlittle_1 LOOP
#define VPL_my_hashlittle_2 LOOP
#define VPL_my_hashlittle_3 LOOP
#define VPG_my_hashlittle_1 BLOCK
#define VPG_my_hashlittle_2 BLOCK
#define VPG_my_hashlittle_3 BLOCK
#define VPL_my_hashlittle2_1 LOOP
#define VPL_my_hashlittle2_2 LOOP
#define VPL_my_hashlittle2_3 LOOP
#define VPG_my_hashlittle2_1 BLOCK
#define VPG_my_hashlittle2_2 BLOCK
#define VPG_my_hashlittle2_3 BLOCK
#include "vp_loops.h"
#ifdef P_NOMIX
# include "lookup3_nomix.c"
#else
# include "libmy/lookup3.c"
#endif
#ifndef ALIGN	/* of the key's first byte, modulo 4 */
# define ALIGN 0
#endif
static void key(uint32_t seed, uint32_t seed2)
{
	size_t n; __CPROVER_assume(n <= MAXN);
	/* (the aligned path reads whole words, so up to three more bytes, whose contents are arbitrary) */
	uint8_t *p = malloc((ALIGN + n + 3) & ~(size_t)3);
	vp_key = p + ALIGN; vp_len = n; vp_q = 0;
	uint32_t s = 0xdeadbeef + (uint32_t)n + seed; __CPROVER_assume(vp_A[0] == s && vp_B[0] == s && vp_C[0] == s + seed2);
}
static void want(uint32_t *pc, uint32_t *pb)
{
#ifdef VP_BOUNDED
	while (vp_len - vp_q > 12) BLOCK
#endif
	size_t r = vp_len - vp_q; const uint8_t *k = vp_key + vp_q; uint8_t t[12];
	__CPROVER_assert(vp_q <= vp_len && r <= 12 && (vp_len == 0 || r > 0), "block by block to the last");
	for (unsigned i = 0; i < 12; i++) t[i] = i < r ? k[i] : 0;
	uint32_t a = vp_A[vp_q], b = vp_B[vp_q], c = vp_C[vp_q];
	if (vp_len) { a += LE32(t); b += LE32(t + 4); c += LE32(t + 8); FINAL(a, b, c) }
	*pc = c; *pb = b;
}
void h_little(void)
{
	uint32_t seed, c, b; key(seed, 0);
	uint32_t r = my_hashlittle(vp_key, vp_len, seed);
	want(&c, &b); __CPROVER_assert(r == c, "the published hash"); VP_PROBE();
}
void h_little2(void)
{
	uint32_t s1, s2, c, b; key(s1, s2);
	uint32_t pc = s1, pb = s2; my_hashlittle2(vp_key, vp_len, &pc, &pb);
	want(&c, &b); __CPROVER_assert(pc == c && pb == b, "the published hashes"); VP_PROBE();
}
#ifndef P_NOMIX
void h_mix(void)
{
	uint32_t a, b, c, d, e, f; d = a; e = b; f = c;
	mix(a, b, c); MIX(d, e, f); __CPROVER_assert(a == d && b == e && c == f, "the published mixing");
	final(a, b, c); FINAL(d, e, f); __CPROVER_assert(a == d && b == e && c == f, "the published final mixing");
	VP_PROBE();
}
#endif
