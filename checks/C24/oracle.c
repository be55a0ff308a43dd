#include "vp_case.h"
#include "libmy/crc32c.c"
#include "libmy/crc32c-slicing.c"
#include "libmy/crc32c-sse42.c"
static uint32_t ref(const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0x82f63b78 : c >> 1; } return ~c; }
void vp_case(void)
{
	size_t n = vp_range(10) ? vp_range(40) : vp_range(600), o = vp_range(16);
	uint8_t *b = malloc(n + o); bool rnd = vp_range(4) != 0; uint32_t st = vp_u32(); uint8_t c = vp_u8();
	for (size_t i = 0; i < n; i++) b[o + i] = rnd ? (st = st * 1664525 + 1013904223) >> 24 : c;
	vp_note("%zu bytes at offset %zu", n, o); vp_notehex(" bytes", b + o, n);
	uint32_t want = ref(b + o, n), a = my_crc32c_slicing(b + o, n), d = my_crc32c(b + o, n);
	VP_CHECK(a == want, "table-driven: %08x, want %08x", a, want);
	if (my_crc32c_sse42_supported()) { uint32_t s = my_crc32c_sse42(b + o, n); VP_CHECK(s == want, "instructions: %08x, want %08x", s, want); }
	VP_CHECK(d == want, "selected: %08x, want %08x", d, want);
	VP_CHECK(my_crc32c_first(b + o, n) == want && my_crc32c(b + o, n) == want, "first use");
	VP_CHECK(my_crc32c == (my_crc32c_sse42_supported() ? my_crc32c_sse42 : my_crc32c_slicing), "selection");
	if (n > 7) vp_nontrivial();
	free(b);
}
