#include "vp_src.h"
/* every filter of a query, and the join's merge, go through a counting layer */
static struct { filter_mtbl_func f; void *d; uint64_t rejects, seeks; const struct filter_mtbl *who; struct mtbl_iter *cur; } W[32];
static unsigned nw; static uint64_t join_merges;
static mtbl_res w_seek(void *c, const uint8_t *k, size_t n) { unsigned i = (unsigned)(uintptr_t)c; W[i].seeks++; return mtbl_iter_seek(W[i].cur, k, n); }
static mtbl_res w_next(void *c, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) { unsigned i = (unsigned)(uintptr_t)c; return mtbl_iter_next(W[i].cur, k, nk, v, nv); }
static void w_free(void *c) { (void)c; }
static mtbl_res w_filter(void *c, struct mtbl_iter *it, const uint8_t *k, size_t n, const uint8_t *v, size_t nv, bool *m)
{
	unsigned i = (unsigned)(uintptr_t)c;
	struct mtbl_iter *x = mtbl_iter_init(w_seek, w_next, w_free, c);
	W[i].cur = it;
	mtbl_res r = W[i].f(W[i].d, x, k, n, v, nv, m);
	mtbl_iter_destroy(&x);
	if (r == mtbl_res_success && !*m) W[i].rejects++;
	return r;
}
static struct filter_mtbl *w_filter_init(const struct mtbl_source *s, filter_mtbl_func f, void *d)
{
	if (nw >= 32) abort();
	W[nw].f = f; W[nw].d = d; W[nw].rejects = W[nw].seeks = 0;
	W[nw].who = filter_mtbl_init(s, w_filter, (void *)(uintptr_t)nw);
	return (struct filter_mtbl *)W[nw++].who;
}
static void w_merge(void *c, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **o, size_t *no) { join_merges++; dnstable_merge_func(NULL, k, nk, a, na, b, nb, o, no); (void)c; }
static struct ljoin_mtbl *w_ljoin_init(const struct mtbl_source *l, const struct mtbl_source *r, mtbl_merge_func f, void *c) { (void)f; return ljoin_mtbl_init(l, r, w_merge, c); }
#define filter_mtbl_init w_filter_init
#define ljoin_mtbl_init w_ljoin_init
#include "dnstable/query.c"
#undef filter_mtbl_init
#undef ljoin_mtbl_init
#include "vp_query.h"

static void names(void)
{
	dnstable_stat_stage st = 77; dnstable_stat_category ct = 77; const char *s;
	static const char *const stg[] = { "fileset", "single label", "rrtype", "bailiwick", "time prefilter", "remove strict", "fill merger", "left join", "time", "offset" };
	static const char *const cat[] = { "filtered", "merged", "seek", "files" };
	unsigned n = vp_range(3) ? vp_range(14) : vp_edge32();
	s = dnstable_stat_stage_to_str((dnstable_stat_stage)n);
	VP_CHECK((s != NULL) == (n < 10), "stage %u has %s name", n, s ? "a" : "no");
	if (s) { char b[40]; strcpy(b, s); for (char *c = b; *c; c++) if (*c >= 'a' && *c <= 'z' && vp_bool()) *c -= 32;
		VP_CHECK(strcmp(s, stg[n]) == 0, "stage %u is called %s", n, s);
		VP_CHECK(dnstable_stat_str_to_stage(b, &st) == dnstable_res_success && st == n, "stage %u (%s) converts back to %u", n, b, st); }
	s = dnstable_stat_category_to_str((dnstable_stat_category)n);
	VP_CHECK((s != NULL) == (n < 4), "category %u has %s name", n, s ? "a" : "no");
	if (s) { VP_CHECK(strcmp(s, cat[n]) == 0, "category %u is called %s", n, s); VP_CHECK(dnstable_stat_str_to_category(s, &ct) == dnstable_res_success && ct == n, "category %u (%s) converts back to %u", n, s, ct); }
	static const char *const bad[] = { "", "files ", "file", "fileset2", "single", "single  label", "x", "off", "merged\n", "timeprefilter" };
	const char *b = bad[vp_range(10)]; st = 5; ct = 2;
	VP_CHECK(dnstable_stat_str_to_stage(b, &st) != dnstable_res_success && dnstable_stat_str_to_category(b, &ct) != dnstable_res_success && st == 5 && ct == 2, "\"%s\" accepted", b);
	VP_CHECK(dnstable_stat_str_to_stage(NULL, &st) != dnstable_res_success && dnstable_stat_str_to_category(NULL, &ct) != dnstable_res_success && dnstable_stat_str_to_stage("offset", NULL) != dnstable_res_success && dnstable_stat_str_to_category("seek", NULL) != dnstable_res_success, "NULL accepted");
}
/* join and remove sources alone: seeks and merges against those the tables saw */
static void cat1(void *c, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **o, size_t *no) { (void)c; (void)k; (void)nk; (void)b; (void)nb; *o = malloc(na); memcpy(*o, a, na); *no = na; }
static void units(void)
{
	struct vp_tab l = { 0 }, r = { 0 }; uint64_t u; bool ex; const uint8_t *k, *v; size_t nk, nv, n = 0, both = 0;
	vp_seek_fails_at_end = false;
	vs_gentab(&l, 12); vs_gentab(&r, 12);
	for (size_t i = 0; i < l.n; i++) both += vs_find(&r, l.e[i].key, l.e[i].len_key) != NULL;
	struct mtbl_source *ls = vp_tab_source(&l), *rs = vp_tab_source(&r);
	struct ljoin_mtbl *j = ljoin_mtbl_init(ls, rs, cat1, NULL);
	struct mtbl_iter *it = mtbl_source_iter(ljoin_mtbl_source(j));
	vp_tab_seeks = 0;
	while (mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_success) n++;
	VP_CHECK(ljoin_mtbl_get_counter(j, DNSTABLE_STAT_CATEGORY_SEEK, &ex, &u) == dnstable_res_success && ex && u == vp_tab_seeks, "left join counts %llu seeks, %lu made", (unsigned long long)u, vp_tab_seeks);
	VP_CHECK(ljoin_mtbl_get_counter(j, DNSTABLE_STAT_CATEGORY_MERGED, &ex, &u) == dnstable_res_success && ex && u == both, "left join counts %llu merges, %zu made", (unsigned long long)u, both);
	mtbl_iter_destroy(&it); ljoin_mtbl_destroy(&j);
	struct remove_mtbl *rm = remove_mtbl_init(); remove_mtbl_set_upstream(rm, ls); remove_mtbl_add_source(rm, rs);
	it = mtbl_source_iter(remove_mtbl_source(rm)); vp_tab_seeks = 0; n = 0;
	while (mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_success) n++;
	VP_CHECK(remove_mtbl_get_counter(rm, DNSTABLE_STAT_CATEGORY_SEEK, &ex, &u) == dnstable_res_success && ex && u == vp_tab_seeks, "remove counts %llu seeks, %lu made", (unsigned long long)u, vp_tab_seeks);
	VP_CHECK(remove_mtbl_get_counter(rm, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &u) == dnstable_res_success && ex && u == both, "remove counts %llu entries removed, %zu were", (unsigned long long)u, both);
	VP_CHECK(remove_mtbl_get_counter(rm, DNSTABLE_STAT_CATEGORY_FILES, &ex, &u) == dnstable_res_success && ex && u == 1, "remove counts %llu files of 1", (unsigned long long)u);
	mtbl_iter_destroy(&it); remove_mtbl_destroy(&rm); mtbl_source_destroy(&ls); mtbl_source_destroy(&rs); vp_tab_free(&l); vp_tab_free(&r);
	if (both) vp_nontrivial();
}
static uint64_t rd(struct dnstable_iter *it, int st, int ct, bool *ex)
{
	uint64_t c = 0xabad1deaabad1deaull; *ex = true;
	dnstable_res r = dnstable_iter_get_count(it, st, ct, ex, &c);
	if (r == dnstable_res_success && *ex) VP_CHECK(c != 0xabad1deaabad1deaull, "counter %d/%d exists but is not set", st, ct);
	if (r != dnstable_res_success) { VP_CHECK(!*ex, "counter %d/%d: failure, yet it exists", st, ct); return 0; }
	uint64_t d = 0; bool e2;
	VP_CHECK(dnstable_iter_get_count(it, st, ct, NULL, &d) == dnstable_res_success, "counter %d/%d unreadable without an exists pointer", st, ct);
	e2 = *ex; if (e2) VP_CHECK(c == d, "counter %d/%d reads %llu, then %llu", st, ct, (unsigned long long)c, (unsigned long long)d);
	return c;
}
static const struct { int st; filter_mtbl_func f[3]; bool seeks; } S[] = {
	{ DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, { filter_single_label }, true },
	{ DNSTABLE_STAT_STAGE_FILTER_RRTYPE, { filter_rrtype, filter_rrtype_ip, filter_rrtype_rdata_name }, true },
	{ DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, { filter_bailiwick }, false },
	{ DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, { filter_time_prefilter }, false },
	{ DNSTABLE_STAT_STAGE_FILTER_TIME, { filter_time }, false },
	{ DNSTABLE_STAT_STAGE_FILTER_OFFSET, { filter_offset }, false },
};
static void query(void)
{
	static struct vq_db db; static struct vq_spec s; static struct vq_list got;
	static bool use[4][VQ_MAX]; static struct vq_ent tm[4][VQ_MAX];
	static const char *const mix[] = { "0000002", "22222131230", "11111113330", "11112223330" };
	struct vp_tab t[4]; struct mtbl_reader *r[4]; unsigned nf = 1 + vp_range(4), k = vp_range(4);
	bool fileset = vp_bool(), agg = vp_range(4) != 0, ex; uint64_t u;
	memset(t, 0, sizeof t); vp_seek_fails_at_end = vp_bool();
	vq_gendb(&db, vp_bool() ? 4 : 16, mix[k]);
	for (unsigned f = 0; f < nf; f++) {
		uint64_t base = vp_range(3 * vq_tmax); char name[32]; sprintf(name, "f%u", f);
		for (size_t i = 0; i < db.n; i++) { use[f][i] = vp_range(3) != 0; tm[f][i] = db.e[i]; tm[f][i].first = 1 + base + vp_range(6); tm[f][i].last = tm[f][i].first + vp_range(12); }
		vq_table(&db, &t[f], use[f], tm[f]); r[f] = vp_reader_from_tab(&t[f], name);
	}
	vq_genspec(&s, &db, k);
	if (vp_range(2) == 0 && k != 2) vq_genrrtype(&s, &db);
	if (vp_range(2) == 0 && k == 0) vq_genbail(&s, &db);
	if (vp_range(3)) { vq_gentimes(&s); for (int i = 0; i < 4; i++) *(i == 0 ? &s.tfb : i == 1 ? &s.tfa : i == 2 ? &s.tlb : &s.tla) = vp_range(4 * vq_tmax + 10); }
	if (vp_range(3) == 0) s.offset = 1 + vp_range(4);
	vq_notedb(&db); vq_notespec(&s);
	struct mtbl_fileset_options *fo = mtbl_fileset_options_init();
	mtbl_fileset_options_set_merge_func(fo, dnstable_merge_func, NULL);
	struct mtbl_fileset *fs = vp_fileset(r, nf, fo);
	mtbl_fileset_options_destroy(&fo);
	struct dnstable_query *q = vq_query(&s);
	dnstable_query_set_aggregated(q, agg);
	vp_merge_calls = vp_merger_adds = vp_fileset_kept = vp_fileset_dropped = 0; join_merges = 0; nw = 0;
	struct dnstable_iter *it = fileset ? dnstable_query_iter_fileset(q, fs) : dnstable_query_iter(q, mtbl_fileset_source(fs));
	got.n = 0; vq_run(it, &got); size_t results = got.n; vq_listfree(&got);
	/* the filters of the query proper are those still alive: the time-range queries about single files have none */
	for (size_t i = 0; i < sizeof S / sizeof *S; i++) {
		int w = -1;
		for (unsigned x = 0; x < nw; x++) for (int y = 0; y < 3; y++) if (W[x].f == S[i].f[y] && W[x].f) w = x;
		u = rd(it, S[i].st, DNSTABLE_STAT_CATEGORY_FILTERED, &ex);
		VP_CHECK(ex == (w >= 0), "stage %d: \"filtered\" %s", S[i].st, ex ? "exists although the stage is not in use" : "does not exist although the stage is in use");
		if (w >= 0) VP_CHECK(u == W[w].rejects, "stage %d: %llu entries filtered, %llu were rejected", S[i].st, (unsigned long long)u, (unsigned long long)W[w].rejects);
		u = rd(it, S[i].st, DNSTABLE_STAT_CATEGORY_SEEK, &ex);
		VP_CHECK(ex == (w >= 0 && S[i].seeks), "stage %d: \"seek\" exists: %d", S[i].st, ex);
		if (ex) VP_CHECK(u == W[w].seeks, "stage %d: %llu seeks, %llu were made", S[i].st, (unsigned long long)u, (unsigned long long)W[w].seeks);
		rd(it, S[i].st, DNSTABLE_STAT_CATEGORY_MERGED, &ex); VP_CHECK(!ex, "stage %d merges nothing", S[i].st);
		rd(it, S[i].st, DNSTABLE_STAT_CATEGORY_FILES, &ex); VP_CHECK(!ex, "stage %d has no files", S[i].st);
		if (w >= 0 && W[w].rejects) vp_nontrivial();
	}
	if (s.offset) { u = rd(it, DNSTABLE_STAT_STAGE_FILTER_OFFSET, DNSTABLE_STAT_CATEGORY_FILTERED, &ex); VP_CHECK(u <= s.offset && (results == 0 || u == s.offset), "offset %llu skipped %llu", (unsigned long long)s.offset, (unsigned long long)u); }
	uint64_t fm = rd(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_MERGED, &ex); VP_CHECK(ex, "fileset merged does not exist");
	bool fe; uint64_t fi = rd(it, DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_MERGED, &fe);
	if (fileset) VP_CHECK(fm + (fe ? fi : 0) == vp_merge_calls, "%llu+%llu merges counted, %lu made", (unsigned long long)fm, (unsigned long long)fi, vp_merge_calls);
	u = rd(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &ex); VP_CHECK(ex, "fileset files does not exist");
	if (fileset && agg) VP_CHECK(u == vp_fileset_kept, "%llu files counted, %lu opened", (unsigned long long)u, vp_fileset_kept);
	bool le; u = rd(it, DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_FILES, &le); VP_CHECK(le == fe, "fill merger half exists");
	if (fileset && le) VP_CHECK(u == vp_merger_adds, "%llu fill files counted, %lu opened", (unsigned long long)u, vp_merger_adds);
	uint64_t rf = rd(it, DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILES, &ex);
	if (fileset && agg) VP_CHECK((ex ? rf : 0) + vp_merger_adds == vp_fileset_dropped || !ex, "%llu removal files counted, %lu were", (unsigned long long)rf, vp_fileset_dropped - vp_merger_adds);
	u = rd(it, DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_CATEGORY_MERGED, &ex);
	if (ex) VP_CHECK(u == join_merges, "left join: %llu merges counted, %llu made", (unsigned long long)u, (unsigned long long)join_merges);
	/* numbers that name no stage or category */
	unsigned a = vp_range(10), b = 4 + vp_range(5); if (vp_bool()) { a = 10 + vp_edge32() % 1000; b = vp_range(4); }
	u = 7; ex = false; VP_CHECK(dnstable_iter_get_count(it, a, b, &ex, &u) != dnstable_res_success, "counter %u/%u accepted", a, b);
	VP_CHECK(!ex, "counter %u/%u exists", a, b);
	VP_CHECK(dnstable_iter_get_count(it, 0, 1, &ex, NULL) != dnstable_res_success && dnstable_iter_get_count(NULL, 0, 1, &ex, &u) != dnstable_res_success, "NULL accepted");
	dnstable_iter_destroy(&it); dnstable_query_destroy(&q); mtbl_fileset_destroy(&fs);
	for (unsigned f = 0; f < nf; f++) { mtbl_reader_destroy(&r[f]); vp_tab_free(&t[f]); }
}
void vp_case(void)
{
	unsigned k = vp_range(8);
	if (k == 0) names(); else if (k < 3) units(); else query();
	vs_live();
}
