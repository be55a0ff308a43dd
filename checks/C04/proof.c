#ifdef P_MERGE
# define VP_ABSTRACT
# include "vp_mtbl_varint.h"
#endif
#include "vp_proof.h"
#include "dnstable/dnstable-private.h"

#ifdef P_DEDUP
#endif

#ifdef P_MERGE
/*
 * The packing functions as their callers see them (contracts of C02): a value
 * is a function of the bytes of its buffer; packing is recorded in ghosts.
 */
_Bool __CPROVER_uninterpreted_ok(int kind, const uint8_t *, size_t);
uint64_t __CPROVER_uninterpreted_val(int kind, int which, const uint8_t *, size_t);
#define T_OK(p, n) __CPROVER_uninterpreted_ok(3, p, n)
#define T_VAL(i, p, n) __CPROVER_uninterpreted_val(3, i, p, n)
#define P_OK(p, n) __CPROVER_uninterpreted_ok(2, p, n)
#define P_VAL(i, p, n) __CPROVER_uninterpreted_val(2, i, p, n)
uint8_t *g_pbuf; uint64_t g_p1, g_p2, g_p3; size_t g_plen; int g_pkind; unsigned g_packs;
uint8_t *g_bm; size_t g_bmlen; const uint8_t *g_bm0, *g_bm1; size_t g_bmn0, g_bmn1; unsigned g_bms;

dnstable_res triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
	REQ(__CPROVER_r_ok(buf, len_buf) && __CPROVER_w_ok(val1, 8) && __CPROVER_w_ok(val2, 8) && __CPROVER_w_ok(val3, 8))
	ENS(RET == (T_OK(buf, len_buf) ? dnstable_res_success : dnstable_res_failure))
	ENS(IMP(T_OK(buf, len_buf), *val1 == T_VAL(1, buf, len_buf) && *val2 == T_VAL(2, buf, len_buf) && *val3 == T_VAL(3, buf, len_buf)))
	ASG(*val1, *val2, *val3);
dnstable_res pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
	REQ(__CPROVER_r_ok(buf, len_buf) && __CPROVER_w_ok(val1, 8) && __CPROVER_w_ok(val2, 8))
	ENS(RET == (P_OK(buf, len_buf) ? dnstable_res_success : dnstable_res_failure))
	ENS(IMP(P_OK(buf, len_buf), *val1 == P_VAL(1, buf, len_buf) && *val2 == P_VAL(2, buf, len_buf)))
	ASG(*val1, *val2);
size_t triplet_pack(uint8_t *b, uint64_t a1, uint64_t a2, uint64_t a3)
	REQ(__CPROVER_w_ok(b, 30))
	ENS(RET >= 3 && RET <= 30 && g_pbuf == b && g_p1 == a1 && g_p2 == a2 && g_p3 == a3 && g_plen == RET && g_pkind == 3 && g_packs == OLD(g_packs) + 1)
	ASG(__CPROVER_object_upto(b, 30), g_pbuf, g_p1, g_p2, g_p3, g_plen, g_pkind, g_packs);
size_t pair_pack(uint8_t *b, uint64_t a1, uint64_t a2)
	REQ(__CPROVER_w_ok(b, 20))
	ENS(RET >= 2 && RET <= 20 && g_pbuf == b && g_p1 == a1 && g_p2 == a2 && g_plen == RET && g_pkind == 2 && g_packs == OLD(g_packs) + 1)
	ASG(__CPROVER_object_upto(b, 20), g_pbuf, g_p1, g_p2, g_p3, g_plen, g_pkind, g_packs);
static uint8_t *merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0, const uint8_t *val1, size_t len_val1, size_t *len_merged_val)
	REQ(__CPROVER_r_ok(val0, len_val0) && __CPROVER_r_ok(val1, len_val1) && __CPROVER_w_ok(len_merged_val, sizeof(size_t)))
	ENS(g_bm == RET && g_bmlen == *len_merged_val && g_bm0 == val0 && g_bm1 == val1 && g_bmn0 == len_val0 && g_bmn1 == len_val1 && g_bms == OLD(g_bms) + 1)
	ASG(*len_merged_val, g_bm, g_bmlen, g_bm0, g_bm1, g_bmn0, g_bmn1, g_bms);

#define K0 (len_key > 0 ? key[0] : -1)
#define TRIP (K0 == 0 || K0 == 2)
#define IDX (K0 == 1 || K0 == 3)
#define RANGE (K0 == 254 && len_key == 1)
#define VERS (K0 == 255 && len_key == 2)
#define BOTH (len_val0 > 0 && len_val1 > 0)
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define V_OK(p, n) (vp_plen(p, n) == n && n <= 5)
#define V_VAL(p) ((uint32_t)vp_absval(p))
size_t vp_k;
#ifdef VP_BOUNDED
# define MAXV 40
#else
# define MAXV 0x100000000ull
#endif
void dnstable_merge_func(void *clos, const uint8_t *key, size_t len_key, const uint8_t *val0, size_t len_val0, const uint8_t *val1, size_t len_val1, uint8_t **merged_val, size_t *len_merged_val)
	REQ(len_key <= MAXV && len_val0 <= MAXV && len_val1 <= MAXV && g_packs == 0 && g_bms == 0)
	REQ(FRESH(key, len_key) && FRESH(val0, len_val0) && FRESH(val1, len_val1) && FRESH(merged_val, sizeof(*merged_val)) && FRESH(len_merged_val, sizeof(*len_merged_val)))
	/* the values decode (otherwise the process stops; index values are judged by merge_rrtype_bitmaps) */
	REQ(IMP(TRIP, BOTH && T_OK(val0, len_val0) && T_OK(val1, len_val1)))
	REQ(IMP(RANGE && BOTH, P_OK(val0, len_val0) && P_OK(val1, len_val1)))
	REQ(IMP(VERS && BOTH && key[1] < 4, V_OK(val0, len_val0) && V_OK(val1, len_val1)))
	ENS(IMP(TRIP, g_packs == 1 && g_pkind == 3 && *merged_val == g_pbuf && *len_merged_val == g_plen))
	ENS(IMP(TRIP, g_p1 == MIN(T_VAL(1, val0, len_val0), T_VAL(1, val1, len_val1))))
	ENS(IMP(TRIP, g_p2 == MAX(T_VAL(2, val0, len_val0), T_VAL(2, val1, len_val1))))
	ENS(IMP(TRIP, g_p3 == T_VAL(3, val0, len_val0) + T_VAL(3, val1, len_val1)))
	ENS(IMP(IDX, g_bms == 1 && *merged_val == g_bm && *len_merged_val == g_bmlen && g_bm0 == val0 && g_bm1 == val1 && g_bmn0 == len_val0 && g_bmn1 == len_val1))
	ENS(IMP(RANGE && BOTH, g_packs == 1 && g_pkind == 2 && *merged_val == g_pbuf && *len_merged_val == g_plen))
	ENS(IMP(RANGE && BOTH, g_p1 == MIN(P_VAL(1, val0, len_val0), P_VAL(1, val1, len_val1)) && g_p2 == MAX(P_VAL(2, val0, len_val0), P_VAL(2, val1, len_val1))))
	ENS(IMP(VERS && BOTH && key[1] < 4, *len_merged_val == vp_vlen(MIN(V_VAL(val0), V_VAL(val1)))))
	ENS(IMP(VERS && BOTH && key[1] < 4 && vp_k < *len_merged_val, (*merged_val)[vp_k] == vp_vbyte(MIN(V_VAL(val0), V_VAL(val1)), vp_k)))
	/* everything else: the empty value */
	ENS(IMP(!TRIP && !IDX && !(RANGE && BOTH) && !(VERS && BOTH && key[1] < 4), *merged_val != NULL && *len_merged_val == 0))
	ASG(*merged_val, *len_merged_val, g_pbuf, g_p1, g_p2, g_p3, g_plen, g_pkind, g_packs, g_bm, g_bmlen, g_bm0, g_bm1, g_bmn0, g_bmn1, g_bms);
#endif

#include "vp_loops.h"
#include "dnstable/merge.c"

#ifdef P_DEDUP
/* Bounded: inputs of at most MAXN values, each ending where its storage ends. */
#define MAXN 3
#define H(a, n, i) ((i) < (n) && (a)[i] == t)
#define HAS4(a, n) (H(a, n, 0) || H(a, n, 1) || H(a, n, 2) || H(a, n, 3))
#define HAS8(a, n) (HAS4(a, n) || H(a, n, 4) || H(a, n, 5) || H(a, n, 6) || H(a, n, 7))
#define A(a, n, i) ((i) + 1 >= (n) || (a)[i] < (a)[i + 1])
#define ASC(a, n) (A(a, n, 0) && A(a, n, 1) && A(a, n, 2))
void h_dedup(void)
{
	uint16_t A1[MAXN], A2[MAXN], O[2 * MAXN], t; int n, m, x, i;
	__CPROVER_assume(n >= 0 && n <= MAXN && m >= 0 && m <= MAXN && x >= 0 && x <= 2 * MAXN && i >= 0 && i < 2 * MAXN);
	uint16_t *a = A1 + MAXN - n, *b = A2 + MAXN - m, *o = O + 2 * MAXN - x;
	__CPROVER_assume(ASC(a, n) && ASC(b, m));
	int r = sorted_merge_dedup(a, n, b, m, o, x);
	__CPROVER_assert(r >= 0 && r <= x, "at most max_output values");
	__CPROVER_assert(!(i + 1 < r) || o[i] < o[i + 1], "strictly ascending");
	__CPROVER_assert(r == x || HAS8(o, r) == (HAS4(a, n) || HAS4(b, m)), "exactly the values of the inputs");
	__CPROVER_assert(!HAS8(o, r) || HAS4(a, n) || HAS4(b, m), "no other values");
	VP_PROBE();
}
#endif
#ifdef P_MERGE
void h_merge(void)
{
	void *c; const uint8_t *k, *a, *b; size_t nk, na, nb, kk; uint8_t **r; size_t *rn; unsigned x, y;
	g_packs = x; g_bms = y; vp_k = kk;
	dnstable_merge_func(c, k, nk, a, na, b, nb, r, rn); VP_PROBE();
}
#endif
