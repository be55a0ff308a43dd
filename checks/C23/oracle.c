#include "vp_case.h"
#define HAVE_ENDIAN_H 1
#include "libmy/ip_arith.h"
void vp_case(void)
{
	bool v4 = vp_bool(); unsigned n = v4 ? 4 : 16, p = vp_range(n * 8 + 1);
	uint8_t *a = vp_bytes(n), *lo = malloc(n), *hi = malloc(n), c[16];
	unsigned style = vp_range(4);	/* carries */
	for (unsigned i = vp_range(n); style == 0 && i < n; i++) a[i] = 0xff;
	vp_notehex("address", a, n); vp_note("/%u", p);
	memcpy(c, a, n);
	if (v4) { ip4_lower(a, p, lo); ip4_upper(a, p, hi); } else { ip6_lower(a, p, lo); ip6_upper(a, p, hi); }
	for (unsigned i = 0; i < n * 8; i++) {
		int b = c[i / 8] >> (7 - i % 8) & 1, l = lo[i / 8] >> (7 - i % 8) & 1, h = hi[i / 8] >> (7 - i % 8) & 1;
		VP_CHECK(l == (i < p ? b : 0), "lower bound: bit %u", i);
		VP_CHECK(h == (i < p ? b : 1), "upper bound: bit %u", i);
	}
	VP_CHECK(!memcmp(a, c, n), "the address itself changed");
	if (v4) ip4_incr(a); else ip6_incr(a);
	int i = n - 1;
	while (i >= 0 && ++c[i] == 0) i--;
	VP_CHECK(!memcmp(a, c, n), "increment");
	if (v4) { memcpy(a, c, 4); ip4_lower(a, p, a); } 
	vp_nontrivial();
	free(a); free(lo); free(hi);
}
