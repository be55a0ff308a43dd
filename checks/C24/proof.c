/*
 * CRC-32C.  S(0) = all ones, S(i + 1) = STEP(S(i), byte i): the standard
 * checksum of n bytes is the complement of S(n).  STEP is the byte-wise table
 * step (its table is proved to be the polynomial's: h_tables), and eight STEPs
 * are one slicing-by-8 step (h_slice8).
 */
#include "vp_proof.h"
#include <stdlib.h>
extern uint32_t vp_S[__CPROVER_constant_infinity_uint];
const uint8_t *vp_buf; size_t vp_len;
#define MAXN 0x100000000ull
uint32_t __CPROVER_uninterpreted_T(uint8_t j, uint8_t b);
#define VPT(j, b) __CPROVER_uninterpreted_T(j, (uint8_t)(b))
#ifdef P_NOTABLE
# define T(j, b) VPT(j, b)
#else
# define T(j, b) g_crc_slicing[j][(b) & 255]
#endif
#define STEP(c, b) (((c) >> 8) ^ T(0, (c) ^ (b)))
/* one slicing step: c already contains the first four bytes */
#define EIGHT(c, n) (T(7, c) ^ T(6, (c) >> 8) ^ T(5, (c) >> 16) ^ T(4, (c) >> 24) ^ T(3, n) ^ T(2, (n) >> 8) ^ T(1, (n) >> 16) ^ T(0, (n) >> 24))
#define LE32(p) ((uint32_t)(p)[0] | (uint32_t)(p)[1] << 8 | (uint32_t)(p)[2] << 16 | (uint32_t)(p)[3] << 24)
#define POS (__CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(vp_buf))
#define UNFOLD8 __CPROVER_assume(vp_S[POS + 8] == EIGHT(vp_S[POS] ^ LE32(p), LE32(p + 4)));
#define VPG_my_crc32c_slicing UNFOLD8
#define VPG_my_crc32c_sse42 UNFOLD8
#define VPL_my_crc32c_slicing __CPROVER_assigns(crc, next, p, nqwords) \
	__CPROVER_loop_invariant(__CPROVER_same_object(p, vp_buf) && nqwords <= len / 8 && POS == vp_len - len + 8 * (len / 8 - nqwords) && crc == vp_S[POS]) \
	__CPROVER_decreases(nqwords)
#define VPL_my_crc32c_sse42 __CPROVER_assigns(crc64bit, p, i) \
	__CPROVER_loop_invariant(__CPROVER_same_object(p, vp_buf) && i <= len / 8 && POS == 8 * i && crc64bit == vp_S[POS]) \
	__CPROVER_decreases(len / 8 - i)
#include "vp_loops.h"
#ifdef P_NOTABLE
# include "slicing_notable.c"
#else
# include "libmy/crc32c-slicing.c"
#endif
#include "libmy/crc32c-sse42.c"
#ifdef P_ASM	/* what the instructions compute */
static inline uint64_t my_asm_crc32_u64(uint64_t crc, uint64_t v) ENS(RET == EIGHT((uint32_t)OLD(crc) ^ (uint32_t)OLD(v), (uint32_t)(OLD(v) >> 32))) ASG();
static inline uint32_t my_asm_crc32_u32(uint32_t crc, uint32_t v) ENS(RET == STEP(STEP(STEP(STEP(OLD(crc), OLD(v)), OLD(v) >> 8), OLD(v) >> 16), OLD(v) >> 24)) ASG();
static inline uint32_t my_asm_crc32_u16(uint32_t crc, uint16_t v) ENS(RET == STEP(STEP(OLD(crc), (uint32_t)OLD(v)), (uint32_t)OLD(v) >> 8)) ASG();
static inline uint32_t my_asm_crc32_u8(uint32_t crc, uint8_t v) ENS(RET == STEP(OLD(crc), (uint32_t)OLD(v))) ASG();
#endif
static void text(void)
{
	size_t n, o; __CPROVER_assume(n <= MAXN && o < 8);
	uint8_t *base = malloc(n + o);	/* exactly the bytes, at any alignment */
	vp_buf = base + o; vp_len = n;
	__CPROVER_assume(vp_S[0] == 0xffffffff);
	/* the definition of S at the first three and the last seven bytes */
	for (unsigned i = 0; i < 3; i++) if (i < n) __CPROVER_assume(vp_S[i + 1] == STEP(vp_S[i], (uint32_t)vp_buf[i]));
	for (unsigned i = 1; i < 8; i++) if (i <= n) __CPROVER_assume(vp_S[n - i + 1] == STEP(vp_S[n - i], (uint32_t)vp_buf[n - i]));
}
void h_slicing(void) { text(); __CPROVER_assert(my_crc32c_slicing(vp_buf, vp_len) == ~vp_S[vp_len], "the standard checksum"); VP_PROBE(); }
void h_sse42(void) { text(); __CPROVER_assert(my_crc32c_sse42(vp_buf, vp_len) == ~vp_S[vp_len], "the standard checksum"); VP_PROBE(); }

static uint32_t bits(uint32_t c) { for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0x82f63b78 : c >> 1; return c; }
#ifndef P_NOTABLE
void h_tables(void)
{
	for (unsigned b = 0; b < 256; b++) {
		__CPROVER_assert(g_crc_slicing[0][b] == bits(b), "table 0 is the polynomial's");
		for (unsigned j = 1; j < 8; j++) __CPROVER_assert(g_crc_slicing[j][b] == (g_crc_slicing[j - 1][b] >> 8 ^ T(0, g_crc_slicing[j - 1][b])), "table j is one more zero byte");
	}
	uint8_t x, y;
	__CPROVER_assert(bits(x ^ y) == (bits(x) ^ bits(y)), "the step is linear");
	VP_PROBE();
}
#endif
/* eight byte steps are one slicing step: from the table facts above, for any tables that satisfy them */
#define U(j, b) __CPROVER_uninterpreted_T(j, (uint8_t)(b))
#define LIN(a, b) __CPROVER_assume(U(0, (a) ^ (b)) == (U(0, a) ^ U(0, b)))
void h_slice8(void)
{
	uint32_t crc; uint8_t w[8], x[8];
	for (int i = 0; i < 8; i++) x[i] = w[i] ^ (i < 4 ? (uint8_t)(crc >> 8 * i) : 0);
	for (int i = 0; i < 8; i++) for (int j = 1; j < 8; j++) __CPROVER_assume(U(j, x[i]) == (U(j - 1, x[i]) >> 8 ^ U(0, U(j - 1, x[i]))));
	uint32_t s = crc;
	for (int k = 0; k < 8; k++) {
		uint8_t acc = 0;
		for (int j = 0; j < k; j++) { uint8_t y = U(k - 1 - j, x[j]); if (j) LIN(acc, y); acc ^= y; }
		if (k) LIN(x[k], acc);
		s = s >> 8 ^ U(0, s ^ w[k]);
	}
	__CPROVER_assert(s == (U(7, x[0]) ^ U(6, x[1]) ^ U(5, x[2]) ^ U(4, x[3]) ^ U(3, x[4]) ^ U(2, x[5]) ^ U(1, x[6]) ^ U(0, x[7])), "eight steps");
	VP_PROBE();
}
#ifndef P_NOTABLE
bool vp_sup;
bool my_crc32c_sse42_supported_(void) { return vp_sup; }
#define my_crc32c_sse42_supported my_crc32c_sse42_supported_
#include "libmy/crc32c.c"
void h_dispatch(void)
{
	bool s; vp_sup = s;
	my_crc32c_runtime_detection();
	__CPROVER_assert(my_crc32c == my_crc32c_slicing || my_crc32c == my_crc32c_sse42, "one of the implementations");
	__CPROVER_assert(s || my_crc32c == my_crc32c_slicing, "the instructions only where they exist");
	VP_PROBE();
}
#endif
