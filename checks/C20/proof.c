#include "vp_proof.h"
#include "libmy/my_alloc.h"
#include "libmy/hex_decode.h"
#include "libmy/my_format.h"
#ifdef VP_BOUNDED
# define MAXN 6
#else
# define MAXN 0x100000000ull
#endif
static char hx(unsigned v, bool up) { return v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10; }
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
size_t vp_k;
#define FIT(n, room) ((room) == 0 ? 0 : 2 * (n) <= (room) - 1 ? (n) : ((room) - 1) / 2)	/* bytes that fit */
#ifdef P_HEXSTR
size_t my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, size_t dst_size)
	REQ(len <= MAXN && dst_size <= MAXN && FRESH(src, len) && FRESH(dst, dst_size))
	ENS(RET == 2 * FIT(OLD(len), dst_size))
	ENS(IMP(vp_k < RET, dst[vp_k] == hx(src[vp_k / 2] >> (vp_k % 2 ? 0 : 4) & 15, is_upper)))
	ENS(IMP(dst_size > 0, dst[RET] == 0))
	ASG(__CPROVER_object_upto(dst, dst_size));
#define HXQ(v) ((v) < 10 ? '0' + (v) : (is_upper ? 'A' : 'a') + (v) - 10)
#define VPL_my_bytes_to_hex_str \
	__CPROVER_assigns(n, __CPROVER_object_upto(dst, dst_size)) \
	__CPROVER_loop_invariant(n <= len && (vp_k >= 2 * n || dst[vp_k] == HXQ((src[vp_k / 2] >> (vp_k % 2 ? 0 : 4)) & 15))) \
	__CPROVER_decreases(len - n)
#endif
#ifdef P_HEXSTR
static inline const char *_my_byte_to_hex_str(uint8_t byte, bool is_upper, char *dst)
	REQ(__CPROVER_w_ok(dst, 2)) ENS(dst[0] == hx(byte >> 4, is_upper) && dst[1] == hx(byte & 15, is_upper)) ASG(__CPROVER_object_upto(dst, 2));
#endif
#ifdef P_DEC
/*
 * The decimal form by its recursive definition: Q(0) is the number, Q(i + 1) =
 * Q(i) / 10, the i-th digit from the right is Q(i) % 10.  The definition is
 * supplied one unfolding at a time, at the digit the loop has reached.
 */
extern uint64_t vp_Q[__CPROVER_constant_infinity_uint];
size_t vp_i; uint64_t vp_di;	/* an arbitrary digit position, and the digit of the number there */
bool vp_want;
size_t my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
	REQ(dst_size <= MAXN && FRESH(dst, dst_size) && FRESH(start, sizeof(*start)) && vp_Q[0] == num && vp_k < dst_size && vp_i < dst_size)
	/* every digit, or as many as fit; at least one */
	ENS(IMP(dst_size < 2, RET == 0)) ENS(IMP(dst_size >= 2, RET >= 1 && RET <= dst_size - 1))
	ENS(IMP(dst_size >= 2 && RET < dst_size - 1, vp_Q[RET] == 0))
	ENS(IMP(RET > 1, vp_Q[RET] != 0 || vp_Q[RET - 1] != 0))
	ENS(IMP(vp_i < RET, dst[dst_size - 2 - vp_i] == '0' + vp_di))
	ENS(IMP(dst_size > 0, dst[dst_size - 1] == 0 && *start == dst + (dst_size - 1 - RET)))
	ENS(IMP(vp_k < dst_size - 1 - RET, dst[vp_k] == OLD(dst[vp_k])))
	ASG(__CPROVER_object_upto(dst, dst_size), *start);
#define VPG_my_uint64_to_str_digit __CPROVER_assume(vp_Q[ndigits + 1] == num / 10); if (ndigits == vp_i) __CPROVER_assume(vp_di == num % 10);
#define VPL_my_uint64_to_str \
	__CPROVER_assigns(ptr, num, ndigits, __CPROVER_object_upto(dst, dst_size)) \
	__CPROVER_loop_invariant(dst_size > 0 ==> ndigits <= dst_size - 1 && ptr == dst + (dst_size - 1 - ndigits) && dst[dst_size - 1] == 0) \
	__CPROVER_loop_invariant(dst_size == 0 ==> ptr == dst && ndigits == 0) \
	__CPROVER_loop_invariant(num == vp_Q[ndigits] && (ndigits > 0 ==> num != 0)) \
	__CPROVER_loop_invariant(vp_i < ndigits ==> dst[dst_size - 2 - vp_i] == '0' + vp_di) \
	__CPROVER_loop_invariant(vp_k < dst_size - 1 - ndigits ==> dst[vp_k] == __CPROVER_loop_entry(dst[vp_k])) \
	__CPROVER_decreases(dst_size - ndigits)
#endif
#ifdef P_HEXINT
static inline bool hex_to_int(char hex, uint8_t *val) REQ(FRESH(val, 1)) ENS(RET == (hv(hex) >= 0)) ENS(IMP(RET, *val == hv(OLD(hex)))) ASG(*val);
#endif
#include "vp_loops.h"
#include "libmy/my_format.c"
#ifdef P_HEXSTR
void h_hexstr(void) { const uint8_t *s; size_t n, m, k; bool u; char *d; vp_k = k; my_bytes_to_hex_str(s, n, u, d, m); VP_PROBE(); }
#endif
/* (a plain harness, from the initial value of the static tables, which --dfcc would forget) */
void h_hexbyte(void)
{
	uint8_t b; bool up; char d[2];
	__CPROVER_assert(_my_byte_to_hex_str(b, up, d) == d && d[0] == hx(b >> 4, up) && d[1] == hx(b & 15, up), "the two digits of the byte");
	VP_PROBE();
}
#ifdef P_HEXINT
void h_hexint(void) { char c; uint8_t *v; hex_to_int(c, v); VP_PROBE(); }
#endif
#ifdef P_DEC
void h_dec(void) { uint64_t v; char *d; size_t n, k, i; const char **st; vp_k = k; vp_i = i; my_uint64_to_str(v, d, n, st); VP_PROBE(); }
#endif
/* a buffer of no bytes, and no interest in the start */
void h_decedge(void)
{
	char b[3]; uint64_t v; size_t n; __CPROVER_assume(n <= 3); const char *st = NULL; bool want;
	size_t r = my_uint64_to_str(v, b + 3 - n, n, want ? &st : NULL);
	__CPROVER_assert(r == (n < 2 ? 0 : n == 2 || v < 10 ? 1 : 2), "digits that fit");
	__CPROVER_assert(!want || st == b + 3 - n + (n ? n - 1 - r : 0), "start of the text");
	VP_PROBE();
}
void h_hex16(void)
{
	uint16_t v; bool up; char d[6]; size_t n, k; __CPROVER_assume(n <= 6 && k < 6);
	char was = d[k], *p = d + 6 - n;
	size_t r = my_uint16_to_hex_str(v, up, p, n);
	__CPROVER_assert(r == (n >= 5 ? 4 : n >= 3 ? 2 : 0), "digits of whole bytes that fit");
	__CPROVER_assert(n == 0 || p[r] == 0, "terminated");
	__CPROVER_assert(k >= r || p[k] == hx(v >> (12 - 4 * k) & 15, up), "most significant first");
	__CPROVER_assert(k >= 6 - n || d[k] == was, "nothing before the destination is written");
	VP_PROBE();
}
#define NH 7
void h_hexdec(void)
{
	char s[NH + 1]; uint8_t *raw; size_t len, k; unsigned n;
	__CPROVER_assume(n <= NH); char *t = s + NH - n; s[NH] = 0;
	bool ok = n > 0 && n % 2 == 0;
	for (int i = 0; i < NH; i++) if (i < n) { __CPROVER_assume(t[i] != 0); if (hv(t[i]) < 0) ok = false; }
	bool r = hex_decode(t, &raw, &len);
	__CPROVER_assert(r == ok, "exactly hex texts of even length");
	if (r) {
		__CPROVER_assert(len == n / 2, "one byte for two digits");
		__CPROVER_assume(k < len);
		__CPROVER_assert(raw[k] == (uint8_t)(hv(t[2 * k]) << 4 | hv(t[2 * k + 1])), "the bytes");
	}
	VP_PROBE();
}
