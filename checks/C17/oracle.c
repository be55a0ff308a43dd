#include "vp_query.h"
struct dnstable_iter *dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
/* results of one key in an unaggregated search come by first-seen, then last-seen time */
static void order(const struct vq_list *l)
{
	for (size_t i = 1; i < l->n; i++) {
		const struct vq_res *a = &l->r[i - 1], *b = &l->r[i]; size_t p = 4u + a->d[1]; uint64_t x[2], y[2];
		p += 1u + a->d[p];
		if (a->n != b->n || memcmp(a->d, b->d, p) != 0 || memcmp(a->d + p + 24, b->d + p + 24, a->n - p - 24) != 0) continue;
		memcpy(x, a->d + p, 16); memcpy(y, b->d + p, 16);
		VP_CHECK(x[0] < y[0] || (x[0] == y[0] && x[1] <= y[1]), "unaggregated results of one key: %llu-%llu before %llu-%llu", (unsigned long long)x[0], (unsigned long long)x[1], (unsigned long long)y[0], (unsigned long long)y[1]);
	}
}
static uint64_t wide(bool up, uint64_t v) { if (vp_range(4)) return v; return up ? v + vp_range(4) : v - vp_range(v < 4 ? v + 1 : 4); }
void vp_case(void)
{
	static struct vq_db db; static struct vq_spec s;
	static struct vq_list got, want;
	static bool use[5][VQ_MAX]; static struct vq_ent tm[5][VQ_MAX];
	static const char *const mix[] = { "0000002", "22222131230", "11111113330", "11112223330" };
	struct vp_tab t[5]; struct mtbl_reader *r[5]; unsigned nf = 1 + vp_range(5);
	unsigned k = vp_range(6); if (k > 3) k = 0;
	memset(t, 0, sizeof t);
	vq_gendb(&db, vp_bool() ? 4 : 16, mix[k]);
	vq_notedb(&db);
	for (unsigned f = 0; f < nf; f++) {
		uint64_t base = vp_range(3 * vq_tmax);
		char name[32]; sprintf(name, "f%u", f);
		bool none = vp_range(8) == 0, drop = vp_range(12) == 0;
		for (size_t i = 0; i < db.n; i++) {
			use[f][i] = !none && vp_range(3) != 0;
			tm[f][i] = db.e[i];
			tm[f][i].first = 1 + (vp_range(4) ? base : 0) + vp_range(6); tm[f][i].last = tm[f][i].first + vp_range(vp_bool() ? 3 : 12); tm[f][i].count = 1 + vp_range(9);
			if (use[f][i]) vp_note("file %u entry %zu: first %llu last %llu count %llu", f, i, (unsigned long long)tm[f][i].first, (unsigned long long)tm[f][i].last, (unsigned long long)tm[f][i].count);
		}
		vq_table(&db, &t[f], use[f], tm[f]);
		/* the recorded time range covers the file's entries, not always tightly; old files have none */
		for (size_t i = 0; i < t[f].n; i++) if (t[f].e[i].key[0] == 254) {
			if (drop) { free(t[f].e[i].key); free(t[f].e[i].val); memmove(&t[f].e[i], &t[f].e[i + 1], (t[f].n - i - 1) * sizeof *t[f].e); t[f].n--; break; }
			uint64_t a = 0, b = 0; size_t n = vp_rdvar(t[f].e[i].val, t[f].e[i].len_val, 10, &a); vp_rdvar(t[f].e[i].val + n, t[f].e[i].len_val - n, 10, &b);
			static struct vp_buf v; v.n = 0; a = wide(false, a); b = wide(true, b); vb_var(&v, a); vb_var(&v, b);
			free(t[f].e[i].val); t[f].e[i].val = vp_dup(v.d, v.n); t[f].e[i].len_val = v.n;
			vp_note("file %u spans %llu to %llu", f, (unsigned long long)a, (unsigned long long)b);
		}
		r[f] = vp_reader_from_tab(&t[f], name);
	}
	vq_genspec(&s, &db, k);
	if (vp_range(3) == 0 && k != 2) vq_genrrtype(&s, &db);
	if (vp_range(3) == 0 && k == 0) vq_genbail(&s, &db);
	if (vp_range(8)) { vq_gentimes(&s); for (int i = 0; i < 4; i++) *(i == 0 ? &s.tfb : i == 1 ? &s.tfa : i == 2 ? &s.tlb : &s.tla) = vp_range(4 * vq_tmax + 10); }
	vq_notespec(&s);
	struct mtbl_fileset_options *fo = mtbl_fileset_options_init();
	mtbl_fileset_options_set_merge_func(fo, dnstable_merge_func, NULL);
	struct mtbl_fileset *fs = vp_fileset(r, nf, fo);
	mtbl_fileset_options_destroy(&fo);
	struct dnstable_query *q = vq_query(&s);
	bool agg = vp_range(4) != 0;
	VP_CHECK(dnstable_query_set_aggregated(q, agg) == dnstable_res_success, "set_aggregated");
	vp_seek_fails_at_end = vp_bool();
	unsigned reps = 1 + vp_range(2);
	while (reps--) {
		struct dnstable_iter *it = dnstable_query_iter_fileset(q, fs);
		got.n = want.n = 0;
		vq_run(it, &got);
		if (!agg) order(&got);
		for (size_t i = 0; i < db.n; i++) {
			uint64_t f = UINT64_MAX, l = 0, c = 0;
			for (unsigned x = 0; x < nf; x++) if (use[x][i]) {
				if (!agg) { if (vq_match(&s, &db.e[i], tm[x][i].first, tm[x][i].last)) vq_expect(&want, &db.e[i], tm[x][i].first, tm[x][i].last, tm[x][i].count); }
				else { if (tm[x][i].first < f) f = tm[x][i].first; if (tm[x][i].last > l) l = tm[x][i].last; c += tm[x][i].count; }
			}
			if (agg && c && vq_match(&s, &db.e[i], f, l)) vq_expect(&want, &db.e[i], f, l, c);
		}
		if (want.n) vp_nontrivial();
		vq_compare(&got, &want, agg ? "search over files" : "unaggregated search over files");
		vq_listfree(&got); vq_listfree(&want);
		dnstable_iter_destroy(&it);
	}
	dnstable_query_destroy(&q); mtbl_fileset_destroy(&fs);
	for (unsigned f = 0; f < nf; f++) { mtbl_reader_destroy(&r[f]); vp_tab_free(&t[f]); }
	VP_CHECK(vp_live_iters == 0 && vp_live_sources == 0, "the search leaves %ld iterators and %ld sources behind", vp_live_iters, vp_live_sources);
}
