#include "vp_mtbl_varint.h"
#include "dnstable/dnstable-private.h"

/* ghosts, chosen arbitrarily before the call */
size_t vp_k;			/* an output position */
unsigned g_e1, g_e2, g_e3;	/* ends of the first, second, third varint of the buffer (0: none) */

/* byte k of the concatenated encodings */
static uint8_t cat(unsigned k, uint64_t a, uint64_t b, uint64_t c)
{
	unsigned la = vp_vlen(a), lb = vp_vlen(b);
	return k < la ? vp_vbyte(a, k) : k < la + lb ? vp_vbyte(b, k - la) : vp_vbyte(c, k - la - lb);
}
#define ROOM 32	/* room behind the longest encoding, to see that it is left alone */
size_t triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
	REQ(FRESH(orig_buf, ROOM) && vp_k < ROOM)
	ENS(RET == vp_vlen(val1) + vp_vlen(val2) + vp_vlen(val3))
	ENS(orig_buf[vp_k] == (vp_k < RET ? cat(vp_k, val1, val2, val3) : OLD(orig_buf[vp_k])))
	ASG(__CPROVER_object_whole(orig_buf));
size_t pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
	REQ(FRESH(orig_buf, ROOM) && vp_k < ROOM)
	ENS(RET == vp_vlen(val1) + vp_vlen(val2))
	ENS(orig_buf[vp_k] == (vp_k < RET ? cat(vp_k, val1, val2, 0) : OLD(orig_buf[vp_k])))
	ASG(__CPROVER_object_whole(orig_buf));

#ifdef VP_BOUNDED
# define MAXBUF 33
#else
# define MAXBUF 0x100000000ull
#endif
#define GHOST1 REQ(g_e1 == vp_dlen(buf, len_buf))
#define GHOST2 REQ(g_e1 ? g_e2 == (vp_dlen(buf + g_e1, len_buf - g_e1) ? g_e1 + vp_dlen(buf + g_e1, len_buf - g_e1) : 0) : g_e2 == 0)
#define GHOST3 REQ(g_e2 ? g_e3 == (vp_dlen(buf + g_e2, len_buf - g_e2) ? g_e2 + vp_dlen(buf + g_e2, len_buf - g_e2) : 0) : g_e3 == 0)
dnstable_res triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
	REQ(len_buf <= MAXBUF && FRESH(buf, len_buf) && FRESH(val1, 8) && FRESH(val2, 8) && FRESH(val3, 8))
	GHOST1 GHOST2 GHOST3
	ENS(RET == dnstable_res_success || RET == dnstable_res_failure)
	ENS((RET == dnstable_res_success) == (g_e3 > 0 && g_e3 == len_buf))
	ENS(IMP(RET == dnstable_res_success, *val1 == vp_dval(buf, g_e1)))
	ENS(IMP(RET == dnstable_res_success, *val2 == vp_dval(buf + g_e1, g_e2 - g_e1)))
	ENS(IMP(RET == dnstable_res_success, *val3 == vp_dval(buf + g_e2, g_e3 - g_e2)))
	ASG(*val1, *val2, *val3);
dnstable_res pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
	REQ(len_buf <= MAXBUF && FRESH(buf, len_buf) && FRESH(val1, 8) && FRESH(val2, 8))
	GHOST1 GHOST2
	ENS(RET == dnstable_res_success || RET == dnstable_res_failure)
	ENS((RET == dnstable_res_success) == (g_e2 > 0 && g_e2 == len_buf))
	ENS(IMP(RET == dnstable_res_success, *val1 == vp_dval(buf, g_e1)))
	ENS(IMP(RET == dnstable_res_success, *val2 == vp_dval(buf + g_e1, g_e2 - g_e1)))
	ASG(*val1, *val2);

#include "vp_loops.h"
#include "dnstable/triplet.c"

void h_tpack(void) { uint8_t *b; uint64_t x, y, z; size_t k; vp_k = k; triplet_pack(b, x, y, z); VP_PROBE(); }
void h_ppack(void) { uint8_t *b; uint64_t x, y; size_t k; vp_k = k; pair_pack(b, x, y); VP_PROBE(); }
void h_tunpack(void) { const uint8_t *b; size_t n; unsigned i, j, k; g_e1 = i; g_e2 = j; g_e3 = k; uint64_t *x, *y, *z; triplet_unpack(b, n, x, y, z); VP_PROBE(); }
void h_punpack(void) { const uint8_t *b; size_t n; unsigned i, j, k; g_e1 = i; g_e2 = j; g_e3 = k; uint64_t *x, *y; pair_unpack(b, n, x, y); VP_PROBE(); }
void h_inverse(void)
{
	uint8_t buf[30]; uint64_t x, y, z, a, b, c;
	size_t n = triplet_pack(buf, x, y, z);
	__CPROVER_assert(triplet_unpack(buf, n, &a, &b, &c) == dnstable_res_success && a == x && b == y && c == z, "triplet_unpack inverts triplet_pack");
	n = pair_pack(buf, x, y);
	__CPROVER_assert(pair_unpack(buf, n, &a, &b) == dnstable_res_success && a == x && b == y, "pair_unpack inverts pair_pack");
	VP_PROBE();
}
