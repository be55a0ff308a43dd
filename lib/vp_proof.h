/* Common to the contract proofs (CBMC only). */
#ifndef VP_PROOF_H
#define VP_PROOF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
/* reachability probe: must be reported as violated, otherwise the preconditions are contradictory */
#define VP_PROBE() __CPROVER_assert(0, "vacuity probe")
#define FRESH(p, n) __CPROVER_is_fresh(p, n)
#define RET __CPROVER_return_value
#define OLD(x) __CPROVER_old(x)
#define REQ(...) __CPROVER_requires(__VA_ARGS__)
#define ENS(...) __CPROVER_ensures(__VA_ARGS__)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define IMP(a, b) (!(a) || (b))

/* number of bytes of the base-128 form of v */
static inline unsigned vp_vlen(uint64_t v)
{
	return v < (1ull << 7) ? 1 : v < (1ull << 14) ? 2 : v < (1ull << 21) ? 3 : v < (1ull << 28) ? 4 : v < (1ull << 35) ? 5 :
	       v < (1ull << 42) ? 6 : v < (1ull << 49) ? 7 : v < (1ull << 56) ? 8 : v < (1ull << 63) ? 9 : 10;
}
/* byte i of the base-128 form of v */
static inline uint8_t vp_vbyte(uint64_t v, unsigned i)
{
	return (uint8_t)(((v >> (7 * i)) & 0x7f) | (i + 1 < vp_vlen(v) ? 0x80 : 0));
}
#endif
