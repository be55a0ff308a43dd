/* the clock is the oracle's: time passes only when the database is read */
#include <time.h>
static int vp_clock(int id, struct timespec *ts);
#include "libmy/my_time.h"
#undef clock_gettime
#define clock_gettime vp_clock
#define my_gettime vp_my_gettime
static inline void vp_my_gettime(int id, struct timespec *ts) { vp_clock(id, ts); }
#include "dnstable/query_mtbl.c"
#undef SOURCE_INIT_HELPER
#undef ITER_INIT_HELPER
#include "dnstable/query.c"
#include "vp_query.h"
static __int128 now, limit; static bool limited, read_late; static unsigned reads;
static int vp_clock(int id, struct timespec *ts) { (void)id; ts->tv_sec = (time_t)(now / 1000000000); ts->tv_nsec = (long)(now % 1000000000); return 0; }
static void step(void)
{
	reads++;
	if (limited && now >= limit) read_late = true;
	switch (vp_range(4)) { case 0: break; case 1: now += 1; break; case 2: now += vp_range(1000); break; default: now += (uint64_t)vp_range(3) * 500000000; }
}
static __int128 ns(const struct timespec *t) { return (__int128)t->tv_sec * 1000000000 + t->tv_nsec; }
static struct timespec ts(__int128 n) { struct timespec t = { (time_t)(n / 1000000000), (long)(n % 1000000000) }; return t; }
static __int128 span(void) { switch (vp_range(5)) { case 0: return 0; case 1: return vp_range(5); case 2: return vp_range(2000); case 3: return (__int128)vp_range(6) * 500000000 + vp_range(3); default: return (__int128)vp_u32() * 1000000000 + vp_range(1000000000); } }
void vp_case(void)
{
	static struct vq_db db; static struct vq_spec s;
	static struct vq_list full, got;
	static const char *const mix[] = { "0000002", "22222131230", "11111113330", "11112223330" };
	struct vp_tab t = { 0 };
	unsigned k = vp_range(4);
	now = (__int128)vp_range(100) * 1000000000 + 999999990; limited = false; vp_tab_step_hook = step;
	vq_gendb(&db, vp_bool() ? 6 : 24, mix[k]);
	vq_table(&db, &t, NULL, NULL);
	vq_genspec(&s, &db, k);
	if (vp_range(3) == 0 && k != 2) vq_genrrtype(&s, &db);
	if (vp_range(3) == 0) vq_gentimes(&s);
	if (vp_range(4) == 0) s.offset = vp_range(4);
	vq_notedb(&db); vq_notespec(&s);
	struct mtbl_source *src = vp_tab_source(&t);
	struct dnstable_query *q = vq_query(&s);
	struct dnstable_iter *it = dnstable_query_iter(q, src);
	full.n = 0; vq_run(it, &full); dnstable_iter_destroy(&it);
	/* limits may be set, cleared and changed before the search */
	bool dt = false, dd = false; __int128 timeout = 0, deadline = 0;
	for (unsigned i = 1 + vp_range(3); i > 0; i--) {
		if (vp_bool()) { dt = vp_range(4) != 0; timeout = span(); struct timespec x = ts(timeout); VP_CHECK(dnstable_query_set_timeout(q, dt ? &x : NULL) == dnstable_res_success, "set_timeout"); }
		if (vp_bool()) { dd = vp_range(4) != 0; deadline = now + span() - (vp_range(5) ? 0 : span()); if (deadline < 0) deadline = 0; struct timespec x = ts(deadline); VP_CHECK(dnstable_query_set_deadline(q, dd ? &x : NULL) == dnstable_res_success, "set_deadline"); }
	}
	vp_note("timeout %s %lld ns, deadline %s %lld ns", dt ? "set" : "off", (long long)timeout, dd ? "set" : "off", (long long)deadline);
	it = dnstable_query_iter(q, src);
	VP_CHECK(it != NULL, "no iterator");
	got.n = 0; unsigned touts = 0;
	for (unsigned steps = 0; steps < 200; steps++) {
		struct dnstable_entry *e = NULL;
		now += vp_range(6) ? 0 : vp_range(10);
		limited = dt || dd;
		limit = dt ? now + timeout : deadline;
		if (dt && dd && deadline < limit) limit = deadline;
		__int128 start = now; unsigned r0 = reads;
		read_late = false;
		dnstable_res res = dnstable_iter_next(it, &e);
		VP_CHECK(!read_late, "the database is read after the limit, without a timeout");
		if (dt || dd) {
			if (start >= limit) VP_CHECK(res == dnstable_res_timeout && reads == r0, "a step taken at or after the limit gives %d, not a timeout", res);
			if (res == dnstable_res_timeout) VP_CHECK(now >= limit, "timeout reported before the limit");
		} else VP_CHECK(res != dnstable_res_timeout, "timeout without a limit");
		if (res == dnstable_res_timeout) {
			vp_nontrivial();
			VP_CHECK(e == NULL, "timeout with an entry");
			if (++touts > 3 || vp_bool()) { limited = false; break; }
			/* a later step with more time continues where this one stopped */
			if (dt && vp_bool()) { timeout = span(); struct timespec x = ts(timeout); dnstable_query_set_timeout(q, &x); }
			if (dd && vp_bool()) { deadline = now + span(); struct timespec x = ts(deadline); dnstable_query_set_deadline(q, &x); }
			continue;
		}
		if (res != dnstable_res_success) {
			if (got.n != full.n) { vq_dumplist("got", &got); vq_dumplist("want", &full); }
			VP_CHECK(got.n == full.n, "the search ends after %zu results of %zu", got.n, full.n); break; }
		vq_got(&got, e); dnstable_entry_destroy(&e);
		VP_CHECK(got.n <= full.n && vq_rescmp(&got.r[got.n - 1], &full.r[got.n - 1]) == 0, "result %zu differs from that of the unlimited search", got.n);
	}
	limited = false;
	vq_listfree(&full); vq_listfree(&got);
	dnstable_iter_destroy(&it); dnstable_query_destroy(&q); mtbl_source_destroy(&src); vp_tab_free(&t);
	vp_tab_step_hook = NULL;
	VP_CHECK(vp_live_iters == 0 && vp_live_sources == 0, "the search leaves iterators or sources behind");
}
