#include "vp_query.h"
static void refuse(dnstable_query_type ty, const char *text)
{
	struct dnstable_query *q = dnstable_query_init(ty);
	vp_note("refused? \"%s\"", text);
	VP_CHECK(dnstable_query_set_data(q, text) != dnstable_res_success, "set_data(\"%s\") accepted", text);
	VP_CHECK(dnstable_query_get_error(q) != NULL && *dnstable_query_get_error(q), "no error text");
	dnstable_query_destroy(&q);
}
static void bad(void)
{
	char b[128];
	switch (vp_range(10)) {
	case 0: sprintf(b, "10.0.0.0/%d", -1 - (int)vp_range(100)); break;
	case 1: sprintf(b, "10.0.0.0/%u", 33 + vp_range(200)); break;
	case 2: sprintf(b, "10::/%u", 129 + vp_range(400)); break;
	case 3: sprintf(b, "10::/-%u", 1 + vp_range(400)); break;
	case 4: strcpy(b, "10.0.0.1-::5"); break;
	case 5: strcpy(b, "::5-10.0.0.1"); break;
	case 6: { static const char *const x[] = { "", "10.0.0", "1.2.3.4.5", "256.1.1.1", "a", ":::", "1.2.3.4-", "-", "/", "1.2.3.4/", "1.2.3.4/x", "1.2.3.4/8x", "/8", "1.2.3.4-5.6.7.8-9.1.1.1", "1.2.3.4/8/9", "1.2.3.4/99999999999999999999", "1.2.3/8", "1.2.3.4 ", "::g" }; strcpy(b, x[vp_range(19)]); break; }
	case 7: { unsigned n = 1 + 2 * vp_range(8); for (unsigned i = 0; i < n; i++) b[i] = "0123456789abcdefABCDEF"[vp_range(22)]; b[n] = 0; refuse(DNSTABLE_QUERY_TYPE_RDATA_RAW, b); return; }
	case 8: { unsigned n = 2 + 2 * vp_range(8); for (unsigned i = 0; i < n; i++) b[i] = "0123456789abcdefABCDEF"[vp_range(22)]; b[n] = 0; b[vp_range(n)] = "gxG -/:@`\177\200"[vp_range(11)]; refuse(DNSTABLE_QUERY_TYPE_RDATA_RAW, b); return; }
	default: { unsigned n = vp_range(2) ? 64 : 70; memset(b, 'a', n); b[n] = 0; refuse(vp_bool() ? DNSTABLE_QUERY_TYPE_RDATA_NAME : DNSTABLE_QUERY_TYPE_RRSET, b); return; }
	}
	refuse(DNSTABLE_QUERY_TYPE_RDATA_IP, b);
}
void vp_case(void)
{
	static struct vq_db db; static struct vq_spec s;
	static const char *const mix[] = { "22222131230", "11111113330", "11112223330" };
	static const int kind[] = { 1, 2, 3 };
	struct vp_tab t = { 0 };
	unsigned k = vp_range(3);
	if (vp_range(8) == 0) bad();
	vq_gendb(&db, vp_bool() ? 6 : 24, mix[k]);
	vq_table(&db, &t, NULL, NULL);
	vq_genspec(&s, &db, kind[k]);
	vq_notedb(&db); vq_notespec(&s);
	vq_search(&db, &s, &t, k == 0 ? "RDATA name lookup" : k == 1 ? "address lookup" : "raw lookup");
	vp_tab_free(&t);
}
