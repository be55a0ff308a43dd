/* Random tables and iterator histories for the stacked sources of query_mtbl.c */
#ifndef VP_SRC_H
#define VP_SRC_H
#include <sys/types.h>
#include <time.h>
#include <setjmp.h>
#include "vp_gen.h"
#include "dnstable-private.h"
#include "vp_mtbl.h"
static inline size_t vs_key(uint8_t *k)
{
	static const uint8_t a[] = { 0, 1, 2, 127, 128, 255 };
	size_t n = 1 + vp_range(3);
	for (size_t i = 0; i < n; i++) k[i] = a[vp_range(vp_bool() ? 3 : 6)];
	return n;
}
static inline void vs_gentab(struct vp_tab *t, unsigned max)
{
	unsigned n = vp_range(max + 1); uint8_t k[4], v[3];
	for (unsigned i = 0; i < n; i++) { size_t nk = vs_key(k); size_t nv = 1 + vp_range(3); for (size_t j = 0; j < nv; j++) v[j] = vp_u8(); vp_tab_add(t, k, nk, v, nv); }
	vp_tab_sort(t, false);
}
static inline void vs_notetab(const char *n, const struct vp_tab *t) { for (size_t i = 0; i < t->n; i++) vp_notehex(n, t->e[i].key, t->e[i].len_key); }
static inline const struct vp_ent *vs_find(const struct vp_tab *t, const uint8_t *k, size_t n)
{
	for (size_t i = 0; i < t->n; i++) if (vp_keycmp(t->e[i].key, t->e[i].len_key, k, n) == 0) return &t->e[i];
	return NULL;
}
/* the source under test behaves, for a random history of steps and seeks on a random kind of iterator, like a table holding exactly want */
static inline unsigned vs_history(const struct mtbl_source *s, const struct vp_tab *want, const char *what, bool seeks, bool prefix_keys_only)
{
	struct mtbl_source *ref = vp_tab_source(want);
	uint8_t k[8], k2[8]; size_t nk = vs_key(k), nk2 = vs_key(k2);
	struct mtbl_iter *a, *b; unsigned hits = 0; bool failed = false;
	switch (vp_range(4)) {
	case 0: a = mtbl_source_iter(s); b = mtbl_source_iter(ref); vp_note("iter"); break;
	case 1: a = mtbl_source_get(s, k, nk); b = mtbl_source_get(ref, k, nk); vp_notehex("get", k, nk); break;
	case 2: if (vp_range(3) == 0) nk = 1; a = mtbl_source_get_prefix(s, k, nk); b = mtbl_source_get_prefix(ref, k, nk); vp_notehex("prefix", k, nk); break;
	default: a = mtbl_source_get_range(s, k, nk, k2, nk2); b = mtbl_source_get_range(ref, k, nk, k2, nk2); vp_notehex("range", k, nk); vp_notehex("to", k2, nk2); break;
	}
	unsigned steps = 1 + vp_range(24);
	for (unsigned i = 0; i < steps || !seeks; i++) {
		const uint8_t *ka, *va, *kb, *vb; size_t nka, nva, nkb, nvb;
		if (seeks && vp_range(4) == 0) {
			size_t n = vs_key(k);
			vp_notehex("seek", k, n);
			mtbl_res ra = mtbl_iter_seek(a, k, n);
			mtbl_iter_seek(b, k, n);
			failed = ra != mtbl_res_success;
			if (!vp_seek_fails_at_end) VP_CHECK(!failed, "%s: seek fails", what);
			continue;
		}
		mtbl_res ra = mtbl_iter_next(a, &ka, &nka, &va, &nva), rb = mtbl_iter_next(b, &kb, &nkb, &vb, &nvb);
		vp_note("next");
		if (failed) VP_CHECK(rb != mtbl_res_success, "%s: seek reports the end although an entry follows", what);
		VP_CHECK((ra == mtbl_res_success) == (rb == mtbl_res_success), "%s: step %s, %s expected", what, ra == mtbl_res_success ? "yields an entry" : "reports the end", rb == mtbl_res_success ? "an entry" : "the end");
		if (ra != mtbl_res_success) { if (!seeks) break; continue; }
		hits++;
		VP_CHECK(vp_keycmp(ka, nka, kb, nkb) == 0, "%s: another key than expected", what);
		VP_CHECK(vp_keycmp(va, nva, vb, nvb) == 0, "%s: another value than expected", what);
	}
	mtbl_iter_destroy(&a); mtbl_iter_destroy(&b); mtbl_source_destroy(&ref);
	return hits;
}
static inline void vs_live(void) { VP_CHECK(vp_live_iters == 0 && vp_live_sources == 0, "%ld iterators and %ld sources left behind", vp_live_iters, vp_live_sources); }
#endif
