#include "vp_proof.h"

/* ghost: an arbitrary position, fixed for the whole run (universally quantified) */
size_t vp_k;

#ifdef VP_BOUNDED
# define MAXLEN 12
#else
# define MAXLEN 0xfffffffeull
#endif

unsigned varint_length(uint64_t v)
	ENS(RET == vp_vlen(v)) ASG();

unsigned varint_length_packed(const uint8_t *data, size_t len_data)
	REQ(len_data <= MAXLEN && FRESH(data, len_data))
	ENS(RET <= len_data)
	ENS(IMP(RET > 0, (data[RET - 1] & 0x80) == 0))
	ENS(IMP(vp_k < (RET > 0 ? RET - 1 : len_data), (data[vp_k] & 0x80) != 0))
	ASG();
#define VPL_varint_length_packed \
	__CPROVER_assigns(len, i) \
	__CPROVER_loop_invariant(len <= len_data && i == len_data - len && (vp_k < i ==> (data[vp_k] & 0x80) != 0)) \
	__CPROVER_decreases(len)

#define ENC_AT(i) ENS(IMP(i < RET, src_ptr[i] == vp_vbyte(v, i)))
size_t varint_encode32(uint8_t *src_ptr, uint32_t v)
	REQ(FRESH(src_ptr, vp_vlen(v)))
	ENS(RET == vp_vlen(v))
	ENC_AT(0) ENC_AT(1) ENC_AT(2) ENC_AT(3) ENC_AT(4)
	ASG(__CPROVER_object_whole(src_ptr));
size_t varint_encode64(uint8_t *src_ptr, uint64_t v)
	REQ(FRESH(src_ptr, vp_vlen(v)))
	ENS(RET == vp_vlen(v))
	ENC_AT(0) ENC_AT(1) ENC_AT(2) ENC_AT(3) ENC_AT(4) ENC_AT(5) ENC_AT(6) ENC_AT(7) ENC_AT(8) ENC_AT(9)
	ASG(__CPROVER_object_whole(src_ptr));

/* ghost: the number of bytes the decoder may look at */
size_t vp_n;
#define C(i) (i + 1 >= vp_n || (data[i] & 0x80) != 0)
#define V(i) (i < vp_n ? (uint64_t)(data[i] & 0x7f) << (7 * i) : 0)
size_t varint_decode32(const uint8_t *data, uint32_t *value)
	REQ(vp_n >= 1 && vp_n <= 5 && FRESH(data, vp_n) && FRESH(value, sizeof(*value)))
	REQ(C(0) && C(1) && C(2) && C(3) && ((data[vp_n - 1] & 0x80) == 0 || vp_n == 5))
	ENS(IMP((data[vp_n - 1] & 0x80) == 0, RET == vp_n && *value == (uint32_t)(V(0) | V(1) | V(2) | V(3) | V(4))))
	ENS(IMP((data[vp_n - 1] & 0x80) != 0, RET == 0))
	ASG(*value);
size_t varint_decode64(const uint8_t *data, uint64_t *value)
	REQ(vp_n >= 1 && vp_n <= 10 && FRESH(data, vp_n) && FRESH(value, sizeof(*value)))
	REQ(C(0) && C(1) && C(2) && C(3) && C(4) && C(5) && C(6) && C(7) && C(8) && ((data[vp_n - 1] & 0x80) == 0 || vp_n == 10))
	ENS(IMP((data[vp_n - 1] & 0x80) == 0, RET == vp_n && *value == (V(0) | V(1) | V(2) | V(3) | V(4) | V(5) | V(6) | V(7) | V(8) | V(9))))
	ENS(IMP((data[vp_n - 1] & 0x80) != 0, RET == 0))
	ASG(*value);

#include "vp_loops.h"
#include "libmy/varint.c"

void h_length(void) { uint64_t v; varint_length(v); VP_PROBE(); }
void h_packed(void) { const uint8_t *d; size_t n; size_t k; vp_k = k; varint_length_packed(d, n); VP_PROBE(); }
void h_enc32(void) { uint8_t *p; uint32_t v; varint_encode32(p, v); VP_PROBE(); }
void h_enc64(void) { uint8_t *p; uint64_t v; varint_encode64(p, v); VP_PROBE(); }
void h_dec32(void) { size_t n; vp_n = n; const uint8_t *d; uint32_t *v; varint_decode32(d, v); VP_PROBE(); }
void h_dec64(void) { size_t n; vp_n = n; const uint8_t *d; uint64_t *v; varint_decode64(d, v); VP_PROBE(); }
/* lemma: the inverse law follows for all values */
void h_inverse(void)
{
	uint64_t v, w; uint32_t a, b; uint8_t buf[10];
	size_t n = varint_encode64(buf, v);
	__CPROVER_assert(n == varint_length(v), "announced length, 64 bits");
	__CPROVER_assert(varint_length_packed(buf, n) == n, "packed length of the encoding");
	__CPROVER_assert(varint_decode64(buf, &w) == n && w == v, "decode64 inverts encode64");
	n = varint_encode32(buf, a);
	__CPROVER_assert(n == varint_length(a), "announced length, 32 bits");
	__CPROVER_assert(varint_decode32(buf, &b) == n && b == a, "decode32 inverts encode32");
	VP_PROBE();
}
