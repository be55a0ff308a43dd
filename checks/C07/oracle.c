#include "vp_src.h"
/* not commutative, depends on the key: left value, key's last byte, right value */
static int fail_on = -1;
static void cat(void *clos, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **o, size_t *no)
{
	(void)clos;
	if (fail_on >= 0 && k[nk - 1] == fail_on) { *o = NULL; *no = 0; return; }
	*o = malloc(na + nb + 1); memcpy(*o, a, na); (*o)[na] = k[nk - 1]; memcpy(*o + na + 1, b, nb); *no = na + nb + 1;
}
void vp_case(void)
{
	struct vp_tab l = { 0 }, r = { 0 }, w = { 0 };
	fail_on = -1; vp_seek_fails_at_end = vp_bool();
	vs_gentab(&l, 12); vs_gentab(&r, 12);
	vs_notetab("left", &l); vs_notetab("right", &r);
	unsigned both = 0;
	for (size_t i = 0; i < l.n; i++) {
		const struct vp_ent *e = vs_find(&r, l.e[i].key, l.e[i].len_key);
		if (!e) { vp_tab_add(&w, l.e[i].key, l.e[i].len_key, l.e[i].val, l.e[i].len_val); continue; }
		uint8_t *o; size_t no; cat(NULL, l.e[i].key, l.e[i].len_key, l.e[i].val, l.e[i].len_val, e->val, e->len_val, &o, &no);
		vp_tab_add(&w, l.e[i].key, l.e[i].len_key, o, no); free(o); both++;
	}
	vp_tab_sort(&w, false);
	struct mtbl_source *ls = vp_tab_source(&l), *rs = vp_tab_source(&r);
	struct ljoin_mtbl *j = ljoin_mtbl_init(ls, rs, cat, NULL);
	for (unsigned n = 1 + vp_range(2); n > 0; n--)
		if (vs_history(ljoin_mtbl_source(j), &w, "left join", vp_range(4) != 0, false) && both) vp_nontrivial();
	if (vp_range(6) == 0 && l.n) {	/* a merge that fails ends in a failure, not in a wrong value */
		struct mtbl_iter *it = mtbl_source_iter(ljoin_mtbl_source(j));
		const uint8_t *k, *v; size_t nk, nv, i = 0;
		fail_on = l.e[vp_range(l.n)].key[0];
		for (; i < l.n; i++) {
			bool bad = vs_find(&r, l.e[i].key, l.e[i].len_key) && l.e[i].key[l.e[i].len_key - 1] == fail_on;
			mtbl_res res = mtbl_iter_next(it, &k, &nk, &v, &nv);
			VP_CHECK((res == mtbl_res_success) == !bad, "step %s although its merge %s", res == mtbl_res_success ? "succeeds" : "fails", bad ? "fails" : "does not fail");
			if (bad) break;
		}
		mtbl_iter_destroy(&it);
	}
	ljoin_mtbl_destroy(&j); VP_CHECK(j == NULL, "destroy leaves the pointer"); ljoin_mtbl_destroy(&j);
	mtbl_source_destroy(&ls); mtbl_source_destroy(&rs);
	vp_tab_free(&l); vp_tab_free(&r); vp_tab_free(&w);
	vs_live();
}
