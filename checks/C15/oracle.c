#include "vp_query.h"
void vp_case(void)
{
	static struct vq_db db; static struct vq_spec s;
	static struct vq_list full, got;
	static const char *const mix[] = { "0000002", "22222131230", "11111113330", "11112223330" };
	struct vp_tab t = { 0 };
	unsigned k = vp_range(4);
	vq_gendb(&db, vp_bool() ? 6 : 24, mix[k]);
	vq_table(&db, &t, NULL, NULL);
	vq_genspec(&s, &db, k);
	if (vp_range(3) == 0 && k != 2) vq_genrrtype(&s, &db);
	if (vp_range(3) == 0 && k == 0) vq_genbail(&s, &db);
	if (vp_range(3) == 0) vq_gentimes(&s);
	vq_notedb(&db); vq_notespec(&s);
	struct mtbl_source *src = vp_tab_source(&t);
	struct dnstable_query *q = vq_query(&s);
	struct dnstable_iter *it = dnstable_query_iter(q, src);
	full.n = 0; vq_run(it, &full); dnstable_iter_destroy(&it);
	if (full.n) vp_nontrivial();
	bool fresh = vp_bool();
	unsigned rounds = 1 + vp_range(3);
	for (unsigned r = 0; r < rounds; r++) {
		uint64_t off = vp_range(5) ? vp_range(full.n + 2) : vp_edge64();
		vp_note("offset %llu (%zu results without)", (unsigned long long)off, full.n);
		if (fresh) { dnstable_query_destroy(&q); q = vq_query(&s); }
		VP_CHECK(dnstable_query_set_offset(q, off) == dnstable_res_success, "set_offset refused");
		unsigned reps = 1 + vp_range(3);
		for (unsigned p = 0; p < reps; p++) {
			struct dnstable_iter *two = vp_bool() ? dnstable_query_iter(q, src) : NULL;	/* another search of the same query, under way at the same time */
			struct dnstable_entry *x = NULL;
			if (two && vp_bool() && dnstable_iter_next(two, &x) == dnstable_res_success) dnstable_entry_destroy(&x);
			it = dnstable_query_iter(q, src);
			got.n = 0; vq_run(it, &got); dnstable_iter_destroy(&it);
			if (two) dnstable_iter_destroy(&two);
			struct vq_list rest = { .n = 0 };
			for (size_t i = 0; i < full.n; i++) if (i >= off) rest.r[rest.n++] = full.r[i];
			if (!vq_same(&got, &rest)) { vq_dumplist("got", &got); vq_dumplist("want", &rest); vp_fail("search with an offset, use %u of the query: %zu results, %zu expected", p + 1, got.n, rest.n); }
			vq_listfree(&got);
		}
	}
	vq_listfree(&full);
	dnstable_query_destroy(&q); mtbl_source_destroy(&src); vp_tab_free(&t);
	VP_CHECK(vp_live_iters == 0 && vp_live_sources == 0, "the search leaves iterators or sources behind");
}
