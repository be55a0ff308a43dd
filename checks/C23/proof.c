#include "vp_proof.h"
#define HAVE_ENDIAN_H 1
size_t vp_k;	/* an arbitrary byte */
static uint8_t mask(unsigned plen, size_t k) { return plen >= 8 * (k + 1) ? 0xff : plen <= 8 * k ? 0 : (uint8_t)(0xff00 >> (plen - 8 * k)); }
#define A ((const uint8_t *)address)
#define BOUND(f, n, max, want) static inline void f(const void *address, unsigned prefix_len, void *out) \
	REQ(prefix_len <= max && FRESH(address, n) && FRESH(out, n) && vp_k < n) \
	ENS(((uint8_t *)out)[vp_k] == (uint8_t)(want)) ASG(__CPROVER_object_upto(out, n));
BOUND(ip4_lower, 4, 32, A[vp_k] & mask(prefix_len, vp_k))
BOUND(ip4_upper, 4, 32, A[vp_k] | ~mask(prefix_len, vp_k))
BOUND(ip6_lower, 16, 128, A[vp_k] & mask(prefix_len, vp_k))
BOUND(ip6_upper, 16, 128, A[vp_k] | ~mask(prefix_len, vp_k))
#define B(i) ((uint64_t)A[i])
#define N4 ((uint32_t)(B(0) << 24 | B(1) << 16 | B(2) << 8 | B(3)))
#define N8(o) (B(o) << 56 | B(o + 1) << 48 | B(o + 2) << 40 | B(o + 3) << 32 | B(o + 4) << 24 | B(o + 5) << 16 | B(o + 6) << 8 | B(o + 7))
uint32_t vp_a4; uint64_t vp_hi, vp_lo;	/* the address before, as numbers */
static inline void ip4_incr(void *address) REQ(FRESH(address, 4) && vp_a4 == N4) ENS(N4 == (uint32_t)(vp_a4 + 1u)) ASG(__CPROVER_object_upto(address, 4));
static inline void ip6_incr(void *address) REQ(FRESH(address, 16) && vp_hi == N8(0) && vp_lo == N8(8))
	ENS(N8(8) == vp_lo + 1 && N8(0) == vp_hi + (vp_lo == UINT64_MAX)) ASG(__CPROVER_object_upto(address, 16));
#include "libmy/ip_arith.h"
#define HB(f) void h_##f(void) { const void *a; void *o; unsigned p; size_t k; vp_k = k; f(a, p, o); VP_PROBE(); }
HB(ip4_lower) HB(ip4_upper) HB(ip6_lower) HB(ip6_upper)
void h_ip4_incr(void) { void *a; uint32_t x; vp_a4 = x; ip4_incr(a); VP_PROBE(); }
void h_ip6_incr(void) { void *a; uint64_t x, y; vp_hi = x; vp_lo = y; ip6_incr(a); VP_PROBE(); }
