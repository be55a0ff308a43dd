#include "vp_case.h"
#include "dnstable/query.c"
static int ref(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
	for (size_t i = 0; i < na && i < nb; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return na == nb ? 0 : na < nb ? -1 : 1;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static size_t name(uint8_t *w)	/* a name with labels that may look like wildcards */
{
	size_t n = 0;
	for (unsigned k = vp_range(4); k--; ) {
		unsigned l = vp_range(3) ? 1 + vp_range(3) : 1 + vp_range(63);
		w[n++] = l;
		for (unsigned i = 0; i < l; i++) { uint8_t c = vp_u8(); w[n++] = c % 5 == 0 ? '*' : c % 5 == 1 ? '+' : c % 5 == 2 ? 1 : c; }
	}
	w[n++] = 0;
	return n;
}
void vp_case(void)
{
	if (vp_range(2000) == 0) {	/* long keys that differ in one byte, or in length */
		static uint8_t a[140000], b[140000]; static const size_t L[] = { 255, 256, 32767, 65535, 65536, 65540, 131072, 139999 };
		size_t na = L[vp_range(8)] + vp_range(2), nb = vp_bool() ? na : L[vp_range(8)], at = vp_range(4) ? vp_u16() * 2u : 139999;
		a[at] = vp_u8(); b[at] = vp_u8();
		int r = bytes_compare(a, na, b, nb), want = at < na && at < nb && a[at] != b[at] ? sgn(a[at] - b[at]) : sgn((na > nb) - (na < nb));
		a[at] = b[at] = 0;
		VP_CHECK(sgn(r) == want, "keys of %zu and %zu bytes: compare gives %d, want %d", na, nb, r, want);
		return;
	}
	switch (vp_range(3)) {
	case 0: {	/* order */
		vp_nontrivial();
		uint8_t *k[3]; size_t n[3];
		for (int i = 0; i < 3; i++) {
			n[i] = vp_range(12); k[i] = vp_bytes(n[i]);
			if (vp_range(2)) for (size_t j = 0; j < n[i]; j++) k[i][j] = "\x00\xff\x80\x7f"[k[i][j] % 4];
			if (i && vp_range(2)) { size_t m = n[i] < n[0] ? n[i] : n[0]; m = vp_range(m + 1); memcpy(k[i], k[0], m); }
			vp_notehex("key", k[i], n[i]);
		}
		int ab = bytes_compare(k[0], n[0], k[1], n[1]), ba = bytes_compare(k[1], n[1], k[0], n[0]), bc = bytes_compare(k[1], n[1], k[2], n[2]), ac = bytes_compare(k[0], n[0], k[2], n[2]);
		VP_CHECK(sgn(ab) == ref(k[0], n[0], k[1], n[1]), "compare gives %d", ab);
		VP_CHECK(sgn(ab) == -sgn(ba), "not antisymmetric");
		VP_CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "not transitive");
		for (int i = 0; i < 3; i++) free(k[i]);
		break; }
	case 1: {	/* the successor bounds the keys with a prefix */
		size_t n = 1 + vp_range(10); ubuf *u = ubuf_init(1); uint8_t b[40]; b[0] = vp_range(4);
		for (size_t i = 1; i < n; i++) b[i] = vp_range(2) ? 255 : vp_u8();
		size_t m = vp_range(8); for (size_t i = 0; i < m; i++) b[n + i] = vp_u8();
		ubuf_append(u, b, n); size_t pos = n - 1;
		vp_notehex("prefix", b, n); vp_notehex("and after it", b + n, m);
		VP_CHECK(increment_key(u, pos) == dnstable_res_success && ubuf_size(u) == n, "increment_key");
		VP_CHECK(ref(ubuf_data(u), n, b, n + m) > 0, "a key with the prefix is not before its successor");
		uint8_t *s = ubuf_data(u); uint64_t carry = 1;	/* and it is the least such key of that length */
		for (size_t i = n; i-- > 0; ) { carry += b[i]; VP_CHECK(s[i] == (uint8_t)carry, "byte %zu is %02x", i, s[i]); carry >>= 8; }
		ubuf_destroy(&u);
		break; }
	default: {
		struct dnstable_query q; memset(&q, 0, sizeof q); uint8_t w[300]; size_t n = name(w);
		if (n > 255) return;
		vp_nontrivial();
		uint8_t *d = vp_dup(w, n); q.name.data = d; q.name.len = n;
		vp_notehex("name", d, n);
		size_t last = 0, p = 0; unsigned labels = 0;
		while (w[p]) { last = p; labels++; p += 1 + w[p]; }
		bool r = labels && w[last] == 1 && (w[last + 1] == '*' || w[last + 1] == '+'), l = labels && w[0] == 1 && (w[1] == '*' || w[1] == '+');
		VP_CHECK(is_right_wildcard(&q) == r, "right wildcard, want %d", r);
		VP_CHECK(!r || q.dq_wildplus == (w[last + 1] == '+'), "which right wildcard");
		VP_CHECK(is_left_wildcard(&q) == l, "left wildcard, want %d", l);
		VP_CHECK(!l || q.dq_wildplus == (w[1] == '+'), "which left wildcard");
		free(d); }
	}
}
