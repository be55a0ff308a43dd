#include "vp_query.h"
void vp_case(void)
{
	static struct vq_db db; static struct vq_spec s;
	struct vp_tab t = { 0 };
	vq_gendb(&db, vp_bool() ? 6 : 24, "0000002");
	vq_table(&db, &t, NULL, NULL);
	vq_genspec(&s, &db, 0);
	vq_notedb(&db); vq_notespec(&s);
	vq_search(&db, &s, &t, "owner name lookup");
	vp_tab_free(&t);
}
