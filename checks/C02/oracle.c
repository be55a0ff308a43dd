#include "vp_case.h"
#include "dnstable/triplet.c"

static unsigned ref_enc(uint64_t v, uint8_t *b)
{
	unsigned n = 0;
	for (;;) { uint8_t x = v & 127; v >>= 7; if (v) b[n++] = x | 128; else { b[n++] = x; return n; } }
}
/* reference reader of n varints covering exactly the buffer */
static bool ref_dec(const uint8_t *b, size_t len, unsigned n, uint64_t *out)
{
	size_t p = 0;
	for (unsigned i = 0; i < n; i++) {
		uint64_t v = 0; unsigned k = 0;
		for (;;) {
			if (p >= len || k >= 10) return false;
			v |= (uint64_t)(b[p] & 127) << (7 * k); k++;
			if (!(b[p++] & 128)) break;
		}
		out[i] = v;
	}
	return p == len;
}
void vp_case(void)
{
	uint64_t v[3] = { vp_edge64(), vp_edge64(), vp_edge64() }, g[3], r[3];
	uint8_t ref[40]; size_t n2 = 0, n3;
	n2 = ref_enc(v[0], ref); n2 += ref_enc(v[1], ref + n2); n3 = n2 + ref_enc(v[2], ref + n2);
	unsigned kind = vp_range(4);
	vp_note("kind %u values %llu %llu %llu", kind, (unsigned long long)v[0], (unsigned long long)v[1], (unsigned long long)v[2]);
	if (kind == 0) {
		uint8_t *p = malloc(n3);
		VP_CHECK(triplet_pack(p, v[0], v[1], v[2]) == n3 && !memcmp(p, ref, n3), "triplet_pack");
		VP_CHECK(triplet_unpack(p, n3, g, g + 1, g + 2) == dnstable_res_success && !memcmp(g, v, 24), "triplet round trip");
		free(p);
		p = malloc(n2);
		VP_CHECK(pair_pack(p, v[0], v[1]) == n2 && !memcmp(p, ref, n2), "pair_pack");
		VP_CHECK(pair_unpack(p, n2, g, g + 1) == dnstable_res_success && !memcmp(g, v, 16), "pair round trip");
		free(p);
	} else {
		size_t len; uint8_t *p;
		if (kind == 1) { len = vp_range(n3 + 1); p = vp_dup(ref, len); }		/* truncated */
		else if (kind == 2) { len = n3 + vp_range(4); p = malloc(len ? len : 1); memcpy(p, ref, n3); for (size_t i = n3; i < len; i++) p[i] = vp_u8(); if (len) p[vp_range(len)] ^= vp_bool() ? 0x80 : 0; }
		else { len = vp_range(34); p = vp_bytes(len); for (size_t i = 0; i < len; i++) if (vp_range(3)) p[i] |= 0x80; }
		vp_notehex("value", p, len);
		bool w = ref_dec(p, len, 3, r);
		bool got = triplet_unpack(p, len, g, g + 1, g + 2) == dnstable_res_success;
		VP_CHECK(got == w && (!w || !memcmp(g, r, 24)), "triplet_unpack %d, want %d", got, w);
		w = ref_dec(p, len, 2, r);
		got = pair_unpack(p, len, g, g + 1) == dnstable_res_success;
		VP_CHECK(got == w && (!w || !memcmp(g, r, 16)), "pair_unpack %d, want %d", got, w);
		free(p);
	}
	vp_nontrivial();
}
