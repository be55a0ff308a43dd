#include "vp_case.h"
#include "libmy/varint.c"

static unsigned ref_enc(uint64_t v, uint8_t *b)
{
	unsigned n = 0;
	for (;;) { uint8_t x = v & 127; v >>= 7; if (v) b[n++] = x | 128; else { b[n++] = x; return n; } }
}
void vp_case(void)
{
	uint8_t ref[10];
	if (vp_bool()) {
		uint64_t v = vp_edge64(), w = 0;
		uint32_t a = (uint32_t)v, b = 0;
		vp_note("value %llu", (unsigned long long)v);
		unsigned n = ref_enc(v, ref);
		VP_CHECK(varint_length(v) == n, "length(%llu) = %u, want %u", (unsigned long long)v, varint_length(v), n);
		uint8_t *p = malloc(n);
		VP_CHECK(varint_encode64(p, v) == n && !memcmp(p, ref, n), "encode64(%llu)", (unsigned long long)v);
		VP_CHECK(varint_length_packed(p, n) == n, "packed length of encode64(%llu)", (unsigned long long)v);
		VP_CHECK(varint_decode64(p, &w) == n && w == v, "decode64(encode64(%llu)) = %llu", (unsigned long long)v, (unsigned long long)w);
		free(p);
		n = ref_enc(a, ref);
		VP_CHECK(varint_length(a) == n, "length32");
		p = malloc(n);
		VP_CHECK(varint_encode32(p, a) == n && !memcmp(p, ref, n), "encode32(%u)", a);
		VP_CHECK(varint_decode32(p, &b) == n && b == a, "decode32(encode32(%u)) = %u", a, b);
		free(p);
		vp_nontrivial();
	} else {
		size_t len = vp_range(16);
		uint8_t *p = vp_bytes(len);
		vp_notehex("buf", p, len);
		unsigned i = 0;
		while (i < len && (p[i] & 0x80)) i++;
		unsigned want = i < len ? i + 1 : 0;
		VP_CHECK(varint_length_packed(p, len) == want, "packed length %u, want %u", varint_length_packed(p, len), want);
		if (want || len >= 5) {
			uint32_t v, r = 0; unsigned w32 = (want && want <= 5) ? want : 0;
			for (unsigned j = 0; j < w32; j++) r |= (uint32_t)((uint64_t)(p[j] & 127) << (7 * j));
			if (w32 || len >= 5) {
				size_t g = varint_decode32(p, &v);
				VP_CHECK(g == w32 && (!w32 || v == r), "decode32 consumed %zu (want %u) value %u (want %u)", g, w32, v, r);
			}
		}
		if (want || len >= 10) {
			uint64_t v, r = 0; unsigned w64 = (want && want <= 10) ? want : 0;
			for (unsigned j = 0; j < w64; j++) r |= (uint64_t)(p[j] & 127) << (7 * j);
			size_t g = varint_decode64(p, &v);
			VP_CHECK(g == w64 && (!w64 || v == r), "decode64 consumed %zu (want %u) value %llu (want %llu)", g, w64, (unsigned long long)v, (unsigned long long)r);
		}
		if (len) vp_nontrivial();
		free(p);
	}
}
