#include "vp_query.h"
static void refuse(void)
{
	static const char *const bad[] = { "", "BOGUS", "TYPE", "TYPEx", "TYPE70000", "A A", "TYPE-1", "TYPE65536", "AN", "ANYY" };
	static const dnstable_query_type T[] = { DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW, DNSTABLE_QUERY_TYPE_TIME_RANGE, DNSTABLE_QUERY_TYPE_VERSION, DNSTABLE_QUERY_TYPE_RRSET };
	unsigned ty = vp_range(6);
	struct dnstable_query *q = dnstable_query_init(T[ty]);
	const char *b = bad[vp_range(10)];
	VP_CHECK(dnstable_query_set_rrtype(q, b) != dnstable_res_success && *dnstable_query_get_error(q), "set_rrtype(\"%s\") accepted or without an error text", b);
	if (ty < 5) VP_CHECK(dnstable_query_set_bailiwick(q, "com.") != dnstable_res_success && *dnstable_query_get_error(q), "set_bailiwick accepted for query type %u", ty);
	else { char x[70]; memset(x, 'a', 66); x[66] = 0; VP_CHECK(dnstable_query_set_bailiwick(q, x) != dnstable_res_success && *dnstable_query_get_error(q), "a label of 66 bytes accepted as bailiwick"); }
	if (ty == 1) {
		bool six = vp_bool();
		VP_CHECK(dnstable_query_set_data(q, six ? "::1" : "10.0.0.1") == dnstable_res_success, "set_data");
		static const char *const other[] = { "TXT", "TYPE16", "NS" };
		const char *o = vp_bool() ? other[vp_range(3)] : six ? "A" : "AAAA";
		VP_CHECK(dnstable_query_set_rrtype(q, o) != dnstable_res_success && *dnstable_query_get_error(q), "set_rrtype(\"%s\") accepted for an address of another type", o);
	}
	dnstable_query_destroy(&q);
}
void vp_case(void)
{
	static struct vq_db db; static struct vq_spec s;
	static const char *const mix[] = { "0000002", "22222131230", "11111113330", "11112223330" };
	struct vp_tab t = { 0 };
	unsigned k = vp_range(6); if (k > 3) k = 0;
	if (vp_range(8) == 0) refuse();
	vq_gendb(&db, vp_bool() ? 6 : 24, mix[k]);
	vq_table(&db, &t, NULL, NULL);
	vq_genspec(&s, &db, k);
	if (k == 0 ? vp_range(3) : true) {
		if (k == 2) { static const char *const any[] = { "ANY", "any", "TYPE255", "ANY-DNSSEC" }; strcpy(s.ttext, vp_bool() ? any[vp_range(4)] : s.iplen == 4 ? "A" : "AAAA"); }
		else vq_genrrtype(&s, &db);
	}
	if (k == 0 && vp_range(3)) vq_genbail(&s, &db);
	vq_notedb(&db); vq_notespec(&s);
	vq_search(&db, &s, &t, "restricted lookup");
	vq_filter(&db, &s);
	vp_tab_free(&t);
}
