#include "vp_src.h"
void vp_case(void)
{
	struct vp_tab u = { 0 }, w = { 0 }, r[4]; unsigned n = vp_range(5);
	struct mtbl_source *us, *rs[4];
	memset(r, 0, sizeof r); vp_seek_fails_at_end = vp_bool();
	vs_gentab(&u, 16); vs_notetab("upstream", &u);
	struct remove_mtbl *rm = remove_mtbl_init();
	us = vp_tab_source(&u); remove_mtbl_set_upstream(rm, us);
	for (unsigned i = 0; i < n; i++) { vs_gentab(&r[i], 8); char x[20]; sprintf(x, "remove %u", i); vs_notetab(x, &r[i]); rs[i] = vp_tab_source(&r[i]); remove_mtbl_add_source(rm, rs[i]); }
	for (size_t i = 0; i < u.n; i++) {
		bool in = false; for (unsigned j = 0; j < n; j++) if (vs_find(&r[j], u.e[i].key, u.e[i].len_key)) in = true;
		if (!in) vp_tab_add(&w, u.e[i].key, u.e[i].len_key, u.e[i].val, u.e[i].len_val);
	}
	vp_tab_sort(&w, false);
	for (unsigned k = 1 + vp_range(2); k > 0; k--) if (vs_history(remove_mtbl_source(rm), &w, "remove", vp_range(4) != 0, false) && w.n < u.n) vp_nontrivial();
	remove_mtbl_destroy(&rm); VP_CHECK(rm == NULL, "destroy leaves the pointer");
	mtbl_source_destroy(&us); for (unsigned i = 0; i < n; i++) { mtbl_source_destroy(&rs[i]); vp_tab_free(&r[i]); }
	vp_tab_free(&u); vp_tab_free(&w);
	vs_live();
}
