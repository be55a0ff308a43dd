#include "vp_proof.h"
#ifdef P_UNPACK
/* The result array is instantiated with CAP elements instead of 65535 (the
 * function takes its capacity from sizeof(rrtype_unpacked_set)): a struct of
 * 131070 bytes is beyond the back end. */
# define rrtype_unpacked_set vp_full_set
# define rrtype_union_unpack vp_hdr_unpack
# include "dnstable/dnstable-private.h"
# undef rrtype_unpacked_set
# undef rrtype_union_unpack
# define CAP 24
typedef struct { uint16_t rrtypes[CAP]; } rrtype_unpacked_set;
#endif
#include "dnstable/dnstable-private.h"

/*
 * What an index says about type t, read from position off: vp_S(off).  The
 * recursive definition is supplied one unfolding at a time (U), at the
 * position a loop has reached.
 */
uint16_t vp_t;
const uint8_t *vp_m; size_t vp_n;
extern _Bool vp_S[__CPROVER_constant_infinity_uint];
#define S(off) vp_S[off]
static bool S_def(size_t off)
{
	if (vp_n - off < 2) return vp_n != off;	/* trailing byte: not decidable, claims everything */
	unsigned w = vp_m[off], l = vp_m[off + 1];
	if (vp_n - off - 2 < l) return true;
	if (w != vp_t / 256) return S(off + 2 + l);
	unsigned b = vp_t % 256;
	return b / 8 < l && (vp_m[off + 2 + b / 8] & (0x80 >> b % 8));
}
#define U(off) __CPROVER_assume(S(off) == S_def(off));
static bool member(void)
{
	return vp_n == 0 ? true : vp_n == 1 ? vp_t == vp_m[0] : vp_n == 2 ? vp_t == (vp_m[0] | vp_m[1] << 8) : S(0);
}

#ifdef VP_BOUNDED
# define MAXLEN 40
#else
# define MAXLEN 0x100000000ull
#endif

#if defined(P_CHECK) || defined(P_TEST)
static bool rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map_size)
	REQ(rrtype_map_size <= MAXLEN && FRESH(rrtype_map, rrtype_map_size))
	REQ(__CPROVER_pointer_equals(vp_m, rrtype_map) && vp_n == rrtype_map_size && vp_t == rrtype)
	ENS(RET == member())
	ASG();
#define OFF (vp_n - rrtype_map_size)
#define VPG_rrtype_union_check_block U(OFF)
#define VPG_rrtype_union_check_end U(OFF)
#define VPL_rrtype_union_check \
	__CPROVER_assigns(rrtype_map, rrtype_map_size) \
	__CPROVER_loop_invariant(rrtype_map_size <= vp_n && rrtype_map == vp_m + OFF && S(0) == S(OFF)) \
	__CPROVER_decreases(rrtype_map_size)
#endif

#ifdef P_TEST
#define NAMETYPE(t) ((t) == 2 || (t) == 5 || (t) == 6 || (t) == 12 || (t) == 15 || (t) == 33 || (t) == 39 || (t) == 64 || (t) == 65)
bool rrtype_test(dnstable_entry_type e_type, uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map_size)
	REQ(rrtype_map_size <= MAXLEN && FRESH(rrtype_map, rrtype_map_size))
	REQ(__CPROVER_pointer_equals(vp_m, rrtype_map) && vp_n == rrtype_map_size && vp_t == rrtype)
	REQ(e_type == DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD || e_type == DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV)
	ENS(IMP(rrtype_map_size == 0, RET == (e_type == DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD || NAMETYPE(rrtype))))
	ENS(IMP(rrtype_map_size > 0, RET == member()))
	ASG();
#endif
#ifdef P_UNPACK
rrtype_unpacked_set vp_out;
bool vp_hit; unsigned vp_idx;	/* ghost: type vp_t was written, at vp_idx */
unsigned vp_i;			/* an arbitrary result index */
bool vp_bit;		/* ghost: the bit of vp_t in the current block, were it of its window */
#define ORD (vp_i + 1 < (count_rrtypes) ==> vp_out.rrtypes[vp_i] < vp_out.rrtypes[vp_i + 1])
#define HIT ((vp_hit ==> vp_idx < count_rrtypes && vp_out.rrtypes[vp_idx] == vp_t) && \
	(!vp_hit && vp_i < count_rrtypes ==> vp_out.rrtypes[vp_i] != vp_t))
#define ROOMSZ (sizeof(rrtype_unpacked_set) / sizeof(uint16_t))
int rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_unpacked_set *rrtype_set)
	REQ(rrtype_map_size <= MAXLEN && FRESH(rrtype_map, rrtype_map_size) && __CPROVER_pointer_equals(rrtype_set, &vp_out))
	REQ(__CPROVER_pointer_equals(vp_m, rrtype_map) && vp_n == rrtype_map_size && !vp_hit && vp_i < ROOMSZ)
	ENS(RET >= -1 && RET <= (int)ROOMSZ)
	ENS(IMP(vp_n == 0, RET == 0) && IMP(vp_n == 1 || vp_n == 2, RET == 1 && vp_out.rrtypes[0] == (vp_m[0] | (vp_n == 2 ? vp_m[1] << 8 : 0))))
	/* strictly ascending */
	ENS(IMP(RET >= 0 && vp_i + 1 < RET, vp_out.rrtypes[vp_i] < vp_out.rrtypes[vp_i + 1]))
	/* exactly the member types */
	ENS(IMP(RET >= 0 && vp_n > 2 && S(0), vp_hit && vp_idx < RET && vp_out.rrtypes[vp_idx] == vp_t))
	ENS(IMP(RET >= 0 && vp_n > 2 && !S(0) && vp_i < RET, vp_out.rrtypes[vp_i] != vp_t))
	ASG(vp_out, vp_hit, vp_idx, vp_bit);
#define VPG_rrtype_union_unpack_block U(OFF) vp_bit = BT / 8 < vp_m[OFF + 1] && rrtype_map_size - 2 >= vp_m[OFF + 1] && (vp_m[OFF + 2 + BT / 8] & (0x80 >> BT % 8));
#define VPG_rrtype_union_unpack_end U(OFF)
#define VPG_rrtype_union_unpack_out if (vp_out.rrtypes[count_rrtypes - 1] == vp_t) { vp_hit = true; vp_idx = count_rrtypes - 1; }
#define OFF (vp_n - rrtype_map_size)
#define WT (vp_t / 256)
#define BT ((unsigned)vp_t % 256)
#define LAST(limit) (count_rrtypes > 0 ==> vp_out.rrtypes[count_rrtypes - 1] < (limit))
#define VPL_rrtype_union_unpack \
	__CPROVER_assigns(rrtype_map, rrtype_map_size, saw_a_block, prev_window_block, count_rrtypes, vp_hit, vp_idx, vp_bit, vp_out) \
	__CPROVER_loop_invariant(rrtype_map_size <= vp_n && rrtype_map == vp_m + OFF) \
	__CPROVER_loop_invariant(count_rrtypes <= ROOMSZ && (!saw_a_block ==> count_rrtypes == 0 && prev_window_block == 0)) \
	__CPROVER_loop_invariant(ORD && HIT && LAST((prev_window_block + 1) * 256u)) \
	__CPROVER_loop_invariant((saw_a_block && WT <= prev_window_block) ? (S(0) == vp_hit && (!vp_hit || WT <= prev_window_block)) || (!vp_hit && S(0) == S(OFF)) : !vp_hit && S(0) == S(OFF)) \
	__CPROVER_decreases(rrtype_map_size)
#define BLK (window_block == WT)
#define DONE(pos) (BLK ==> vp_hit == (BT < (pos) && vp_bit))
#define VPL_rrtype_union_unpack_byte \
	__CPROVER_assigns(i, lo, count_rrtypes, vp_hit, vp_idx, vp_out) \
	__CPROVER_loop_invariant(i <= block_len && lo == 8 * i && count_rrtypes <= ROOMSZ && ORD && HIT && LAST(window_block * 256u + lo)) \
	__CPROVER_loop_invariant(DONE(8 * i) && (!BLK ==> vp_hit == __CPROVER_loop_entry(vp_hit))) \
	__CPROVER_decreases(block_len - i)
#define VPL_rrtype_union_unpack_bit \
	__CPROVER_assigns(j, lo, count_rrtypes, vp_hit, vp_idx, vp_out) \
	__CPROVER_loop_invariant(j >= 1 && j <= 9 && lo == 8 * i + j - 1 && count_rrtypes <= ROOMSZ && ORD && HIT && LAST(window_block * 256u + lo)) \
	__CPROVER_loop_invariant(DONE(8 * i + j - 1) && (!BLK ==> vp_hit == __CPROVER_loop_entry(vp_hit))) \
	__CPROVER_decreases(9 - j)
#endif

#include "vp_loops.h"
#include "dnstable/entry.c"

#ifdef P_CHECK
void h_check(void) { const uint8_t *m; size_t n; uint16_t t; size_t gn; uint16_t gt; vp_n = gn; vp_t = gt; rrtype_union_check(t, m, n); VP_PROBE(); }
#endif
#ifdef P_UNPACK
void h_unpack(void) { const uint8_t *m; size_t n; rrtype_unpacked_set *o; size_t gn; uint16_t gt; unsigned gi; vp_n = gn; vp_t = gt; vp_i = gi; vp_hit = false; rrtype_union_unpack(m, n, o); VP_PROBE(); }
#endif
#ifdef P_TEST
void h_test(void) { dnstable_entry_type e; const uint8_t *m; size_t n; uint16_t t; size_t gn; uint16_t gt; vp_n = gn; vp_t = gt; rrtype_test(e, t, m, n); VP_PROBE(); }
#endif
