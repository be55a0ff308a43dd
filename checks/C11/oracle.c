#include "vp_query.h"
static void setter(void)
{
	struct dnstable_query *q = dnstable_query_init(vp_bool() ? DNSTABLE_QUERY_TYPE_RRSET : DNSTABLE_QUERY_TYPE_RDATA_IP);
	uint8_t buf[16]; for (int i = 0; i < 16; i++) buf[i] = vp_u8();
	unsigned ty = vp_range(2) ? vp_range(7) : vp_u32();
	size_t len = vp_range(3) ? 8 : vp_range(17);
	bool ok = len == 8 && (ty == DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE || ty == DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER || ty == DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE || ty == DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER);
	uint8_t *p = vp_dup(buf, len);
	VP_CHECK((dnstable_query_set_filter_parameter(q, ty, p, len) == dnstable_res_success) == ok, "set_filter_parameter(%u, %zu bytes) %s", ty, len, ok ? "refused" : "accepted");
	free(p);
	dnstable_query_destroy(&q);
}
void vp_case(void)
{
	static struct vq_db db; static struct vq_spec s;
	static const char *const mix[] = { "0000002", "22222131230", "11111113330", "11112223330" };
	struct vp_tab t = { 0 };
	unsigned k = vp_range(6); if (k > 3) k = 0;
	if (vp_range(8) == 0) setter();
	vq_gendb(&db, vp_bool() ? 6 : 24, mix[k]);
	for (size_t i = 0; i < db.n; i++) if (vp_range(6) == 0) { struct vq_ent *e = &db.e[i]; e->first = vp_edge64(); e->last = e->first + vp_range(3) * vp_edge64(); if (e->last < e->first) e->last = UINT64_MAX; if (vp_range(4) == 0) e->last = 0; }
	vq_table(&db, &t, NULL, NULL);
	for (size_t i = 0; i < db.n; i++) if (db.e[i].last == 0) db.e[i].last = db.e[i].first;	/* no last-seen time recorded: the first-seen time */
	vq_genspec(&s, &db, k);
	vq_gentimes(&s);
	for (int i = 0; i < 4; i++) if (vp_bool()) { const struct vq_ent *e = &db.e[vp_range(db.n)]; uint64_t v = (vp_bool() ? e->first : e->last) + vp_range(3) - 1; *(i == 0 ? &s.tfb : i == 1 ? &s.tfa : i == 2 ? &s.tlb : &s.tla) = v; }
	if (vp_range(4) == 0 && k != 2) vq_genrrtype(&s, &db);
	vq_notedb(&db); vq_notespec(&s);
	vq_search(&db, &s, &t, "time-fenced lookup");
	vq_filter(&db, &s);
	vp_tab_free(&t);
}
