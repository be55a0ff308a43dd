#include "vp_case.h"
#include "libmy/lookup3.h"
static uint32_t R(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void ref(const uint8_t *p, size_t n, uint32_t s, uint32_t s2, uint32_t *pc, uint32_t *pb, bool big)
{
	uint32_t a, b, c; a = b = c = 0xdeadbeef + (uint32_t)n + s; c += s2;
	size_t rem = n;
	for (;;) {
		uint32_t w[3] = { 0 };
		for (unsigned i = 0; i < 12 && i < rem; i++) w[i / 4] |= (uint32_t)p[i] << (big ? 24 - 8 * (i % 4) : 8 * (i % 4));
		if (!n) break;
		a += w[0]; b += w[1]; c += w[2];
		if (rem <= 12) {
			c ^= b; c -= R(b, 14); a ^= c; a -= R(c, 11); b ^= a; b -= R(a, 25); c ^= b; c -= R(b, 16); a ^= c; a -= R(c, 4); b ^= a; b -= R(a, 14); c ^= b; c -= R(b, 24);
			break;
		}
		a -= c; a ^= R(c, 4); c += b; b -= a; b ^= R(a, 6); a += c; c -= b; c ^= R(b, 8); b += a; a -= c; a ^= R(c, 16); c += b; b -= a; b ^= R(a, 19); a += c; c -= b; c ^= R(b, 4); b += a;
		p += 12; rem -= 12;
	}
	*pc = c; *pb = b;
}
void vp_case(void)
{
	size_t n = vp_range(10) ? vp_range(40) : vp_range(400), o = vp_range(8); uint32_t seed = vp_edge32(), seed2 = vp_edge32();
	uint8_t *b = malloc((o + n + 3) & ~3u); memset(b, vp_u8(), (o + n + 3) & ~3u);	/* the word-wise path may read the rest of the last aligned word */
	uint32_t st = vp_u32(); for (size_t i = 0; i < n; i++) b[o + i] = vp_range(2) ? vp_u8() : (st = st * 1664525 + 1013904223) >> 24;
	vp_note("%zu bytes at offset %zu, seed %x %x", n, o, seed, seed2); vp_notehex(" bytes", b + o, n);
	uint32_t c, d, pc = seed, pb = seed2;
	ref(b + o, n, seed, 0, &c, &d, false); uint32_t h = my_hashlittle(b + o, n, seed);
	VP_CHECK(h == c, "hash %08x, want %08x", h, c);
	ref(b + o, n, seed, seed2, &c, &d, false); my_hashlittle2(b + o, n, &pc, &pb);
	VP_CHECK(pc == c && pb == d, "hashes %08x %08x, want %08x %08x", pc, pb, c, d);
	ref(b + o, n, seed, 0, &c, &d, true); h = my_hashbig(b + o, n, seed);
	VP_CHECK(h == c, "big-endian hash %08x, want %08x", h, c);
	if (o % 4 == 0 && n % 4 == 0) {
		ref(b + o, n, seed, 0, &c, &d, false); h = my_hashword((uint32_t *)(b + o), n / 4, seed);
		VP_CHECK(h == c, "word hash %08x, want %08x", h, c);
		ref(b + o, n, seed, seed2, &c, &d, false); pc = seed; pb = seed2; my_hashword2((uint32_t *)(b + o), n / 4, &pc, &pb);
		VP_CHECK(pc == c && pb == d, "word hashes");
	}
	if (n > 12) vp_nontrivial();
	free(b);
}
