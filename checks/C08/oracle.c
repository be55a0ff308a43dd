#include "vp_src.h"
/* accepts by a random rule on the key; when it rejects, may seek to a key at or before the next acceptable one */
static struct { unsigned mask, res; bool seek, fail; uint8_t fk; const struct vp_tab *t; } F;
static bool ok(const uint8_t *k, size_t n) { unsigned s = 0; for (size_t i = 0; i < n; i++) s = s * 31 + k[i]; return (s & F.mask) == F.res; }
static mtbl_res filt(void *clos, struct mtbl_iter *it, const uint8_t *k, size_t n, const uint8_t *v, size_t nv, bool *match)
{
	(void)v; (void)nv;
	VP_CHECK(clos == (void *)&F, "filter called with another closure");
	if (F.fail && k[0] == F.fk) return mtbl_res_failure;
	*match = ok(k, n);
	if (*match || !F.seek) return mtbl_res_success;
	size_t i = 0; while (i < F.t->n && vp_keycmp(F.t->e[i].key, F.t->e[i].len_key, k, n) <= 0) i++;
	size_t lo = i; while (i < F.t->n && !ok(F.t->e[i].key, F.t->e[i].len_key)) i++;
	if (lo >= F.t->n) return mtbl_res_success;
	if (i >= F.t->n) i = F.t->n - 1;
	i = lo + vp_range(i - lo + 1);
	return mtbl_iter_seek(it, F.t->e[i].key, F.t->e[i].len_key);
}
void vp_case(void)
{
	struct vp_tab t = { 0 }, w = { 0 };
	vp_seek_fails_at_end = vp_bool();
	vs_gentab(&t, 16); vs_notetab("entry", &t);
	F.mask = vp_range(8); F.res = vp_range(8) & F.mask; F.seek = vp_bool(); F.t = &t; F.fail = vp_range(8) == 0; F.fk = vp_range(3);
	for (size_t i = 0; i < t.n; i++) if (ok(t.e[i].key, t.e[i].len_key)) vp_tab_add(&w, t.e[i].key, t.e[i].len_key, t.e[i].val, t.e[i].len_val);
	vp_tab_sort(&w, false); vs_notetab("accepted", &w);
	struct mtbl_source *s = vp_tab_source(&t);
	struct filter_mtbl *f = filter_mtbl_init(s, filt, &F);
	if (!F.fail) {
		for (unsigned n = 1 + vp_range(2); n > 0; n--) if (vs_history(filter_mtbl_source(f), &w, "filter", vp_range(4) != 0, false)) vp_nontrivial();
	} else if (!F.seek) {	/* the filter ends the iteration: everything accepted before that entry, then a failure */
		struct mtbl_iter *it = mtbl_source_iter(filter_mtbl_source(f));
		const uint8_t *k, *v; size_t nk, nv;
		for (size_t i = 0; i < t.n; i++) {
			if (t.e[i].key[0] == F.fk) { VP_CHECK(mtbl_iter_next(it, &k, &nk, &v, &nv) != mtbl_res_success, "an entry after the filter failed"); break; }
			if (!ok(t.e[i].key, t.e[i].len_key)) continue;
			VP_CHECK(mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_success && vp_keycmp(k, nk, t.e[i].key, t.e[i].len_key) == 0, "an accepted entry is lost");
			vp_nontrivial();
		}
		mtbl_iter_destroy(&it);
	}
	filter_mtbl_destroy(&f); VP_CHECK(f == NULL, "destroy leaves the pointer"); filter_mtbl_destroy(&f);
	mtbl_source_destroy(&s); vp_tab_free(&t); vp_tab_free(&w);
	vs_live();
}
