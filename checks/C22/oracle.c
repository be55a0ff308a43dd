#include "vp_case.h"
#include <stdarg.h>
#include "libmy/ubuf.h"
typedef struct { uint32_t a; uint32_t b[5]; } el;
VECTOR_GENERATE(elvec, el)
VECTOR_GENERATE(pv, void *)
/* the abstract sequence */
static uint8_t M[70000]; static size_t m;
static el E[5000]; static size_t ne;
static void check(ubuf *u) { VP_CHECK(ubuf_size(u) == m && ubuf_bytes(u) == m, "size %zu, want %zu", ubuf_size(u), m); VP_CHECK(!memcmp(ubuf_data(u), M, m), "contents"); VP_CHECK(ubuf_ptr(u) == ubuf_data(u) + m, "end"); if (m) { size_t i = vp_range(m); VP_CHECK(ubuf_value(u, i) == M[i], "value"); } }
void vp_case(void)
{
	m = ne = 0;
	ubuf *u = vp_range(3) ? ubuf_new() : ubuf_init(vp_range(20));
	elvec *v = elvec_init(vp_range(4));
	unsigned ops = 1 + vp_range(40);
	for (unsigned o = 0; o < ops; o++) {
		unsigned what = vp_range(16), n = vp_range(vp_range(8) ? 20 : 300); vp_note("%u(%u) ", what, n);
		if (m > 60000) { ubuf_reset(u); m = 0; }
		switch (what) {
		case 0: case 1: { uint8_t *b = vp_bytes(n); ubuf_append(u, b, n); memcpy(M + m, b, n); m += n; free(b); break; }
		case 2: { uint8_t c = vp_range(3) ? vp_u8() : 0; ubuf_add(u, c); M[m++] = c; break; }
		case 3: ubuf_clip(u, n); if (n < m) m = n; break;
		case 4: ubuf_cterm(u); if (!m || M[m - 1]) M[m++] = 0; break;
		case 5: case 6: {
			char *s = malloc(n + 1); for (unsigned i = 0; i < n; i++) { s[i] = vp_u8(); if (!s[i]) s[i] = '%'; } s[n] = 0;
			if (m && !M[m - 1]) m--;
			if (what == 5) { ubuf_add_cstr(u, s); memcpy(M + m, s, n); m += n; }
			else { int d = vp_u32(); char *w = NULL; int l = asprintf(&w, "%s=%d", s, d); ubuf_add_fmt(u, "%s=%d", s, d); memcpy(M + m, w, l); m += l; free(w); }
			free(s); break; }
		case 7: { ubuf_reserve(u, n); memset(ubuf_ptr(u), 'r', n); ubuf_advance(u, n); memset(M + m, 'r', n); m += n; break; }
		case 8: { uint8_t c = m && vp_range(2) ? M[m - 1] : vp_u8(); ubuf_rstrip(u, c); if (m && M[m - 1] == c) m--; break; }
		case 9: if (vp_range(3) == 0) { ubuf_reset(u); m = 0; } break;
		case 10: { uint8_t *p; size_t l; ubuf_detach(u, &p, &l); VP_CHECK(l == m && !memcmp(p, M, m), "detached"); free(p); m = 0; break; }
		case 11: { char *s = ubuf_cstr(u); if (!m || M[m - 1]) M[m++] = 0; VP_CHECK(s == (char *)ubuf_data(u), "cstr"); break; }
		case 12: { ubuf *w = ubuf_dup_cstr("some text"); ubuf_extend(u, w); memcpy(M + m, "some text", 9); m += 9; VP_CHECK(ubuf_size(w) == 9, "dup"); ubuf_destroy(&w); break; }
		case 13: { if (ne > 4000) break; n = vp_range(40); el *b = malloc(n * sizeof(*b)); for (unsigned i = 0; i < n; i++) { memset(&b[i], vp_u8(), sizeof(*b)); } elvec_append(v, b, n); memcpy(E + ne, b, n * sizeof(*b)); ne += n; free(b); break; }
		case 14: { el e; memset(&e, vp_u8(), sizeof(e)); elvec_add(v, e); E[ne++] = e; break; }
		case 15: elvec_clip(v, n); if (n < ne) ne = n; break;
		}
		check(u);
		VP_CHECK(elvec_size(v) == ne && elvec_bytes(v) == ne * sizeof(el) && !memcmp(elvec_data(v), E, ne * sizeof(el)), "elements");
		if (m > 64) vp_nontrivial();
	}
	ubuf_destroy(&u); elvec_destroy(&v);
}
